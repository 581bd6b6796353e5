"""C03: a group behaves as one ordered map, however it is divided."""
from hypothesis import strategies as st

from core import Test, eq
from maps import INTS, VALUES, apply_op, compare, op, oplist

from citrine.storage.collection import Collection
from citrine.storage.group import Group

ID = 'C03'
LEVEL = 'exploration'
ASSUMPTIONS = ['unordered views (keys/values/items) and value views are '
               'compared as multisets, key-ordered views in order']


def build(case):
    if case['how'] == 'new':
        return Group.new(size=case['n'], max_collection_size=100)
    if case['how'] == 'custom':
        return Group.new(custom={i: 50 + i for i in range(case['n'])})
    return Group(tuple(Collection(max_size=50) for _ in range(case['n'])))


def run(case, ctx):
    g = build(case)
    model = {}
    biggest = used = 0
    for o in case['ops']:
        apply_op(g, model, o, ctx, ordered_values=False,
                 kwargs=case['kwargs'])
        if len(model) > biggest:
            biggest = len(model)
        used = max(used, sum(1 for c in g.collections if c.size))
        if case['deep']:
            compare(g, model, False)
    compare(g, model, False)
    ctx.nontrivial(biggest >= 2 and used >= 2)
    ctx.label('2+ collections in use', used >= 2)
    ctx.label('an empty collection next to a used one',
              0 < used < len(g.collections))


def run_division(case, ctx):
    """The same history on differently divided groups ends the same."""
    groups = [Group.new(size=n, max_collection_size=1000)
              for n in case['sizes']]
    models = [{} for _ in groups]
    for o in case['ops']:
        for g, m in zip(groups, models):
            apply_op(g, m, o, ctx, ordered_values=False)
    first = list(groups[0].iteritems())
    for g in groups[1:]:
        eq([tuple(i) for i in g.iteritems()], [tuple(i) for i in first],
           'ordered contents of differently divided groups')
        eq(sorted(g.keys()), sorted(groups[0].keys()), 'keys')
    ctx.nontrivial(len(first) >= 2 and len(set(case['sizes'])) > 1)


def run_bulk(case, ctx):
    g = Group.new(size=case['n'], max_collection_size=5000)
    model = {f'{case["prefix"]}{i * case["step"]}': i
             for i in range(case['keys'])}
    g.update(model)
    for o in case['ops']:
        apply_op(g, model, o, ctx, ordered_values=False)
    compare(g, model, False)
    ctx.nontrivial(len(model) > 60)


def cases(values, extra=None):
    ops = op(values) if extra is None else st.one_of(op(values), extra)
    return st.fixed_dictionaries({
        'n': st.sampled_from([1, 2, 3, 5, 7, 4, 1, 2, 3, 5, 7, 23]),
        'how': st.sampled_from(['new', 'custom', 'direct']),
        'deep': st.booleans(),
        'kwargs': st.sampled_from([False, False, True]),
        'ops': oplist(ops)})


BYVALUE = st.tuples(st.just('byValue'), st.none() | INTS).map(list)

TESTS = [
    Test('ops', lambda: cases(VALUES), run, quick=6000, procs=8,
         rule='random operation sequences on groups of 1-7 (or 23) collections '
              'against a dict; non-trivial = two or more keys held, in two '
              'or more different collections'),
    Test('by_value', lambda: cases(INTS, BYVALUE), run, quick=2000, procs=4,
         rule='same, integer values, plus value-ordered views'),
    Test('division', lambda: st.fixed_dictionaries({
        'sizes': st.lists(st.integers(1, 11), min_size=2, max_size=3),
        'ops': oplist(op(VALUES), 5, 15)}), run_division, quick=1000, procs=4,
        rule='one history replayed on groups divided differently; '
             'non-trivial = two or more keys left and different divisions'),
    Test('bulk', lambda: st.fixed_dictionaries({
        'n': st.sampled_from([2, 3, 7, 13, 23, 31, 101]), 'keys': st.integers(40, 200),
        'step': st.sampled_from([1, 7, 31]),
        'prefix': st.sampled_from(['', 'k', 'é']),
        'ops': st.lists(op(INTS), max_size=10)}), run_bulk, quick=300,
        procs=4, rule='40-200 keys spread over the collections'),
]
