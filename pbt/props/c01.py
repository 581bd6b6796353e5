"""C01: a collection behaves as an ordered map."""
from hypothesis import strategies as st

from core import Test
from maps import INTS, VALUES, apply_op, compare, op, oplist

from citrine.storage.collection import Collection

ID = 'C01'
LEVEL = 'exploration'
ASSUMPTIONS = ['keys are strings; a stored None and an absent key are told '
               'apart through has_key/keys']


def run(case, ctx):
    c = Collection(max_size=1000, strict=case['strict'])
    model = {}
    biggest = 0
    for o in case['ops']:
        apply_op(c, model, o, ctx, ordered_values=True)
        biggest = max(biggest, len(model))
        if case['deep']:
            compare(c, model, True)
    compare(c, model, True)
    ctx.nontrivial(biggest >= 2 and any(
        o[0] in ('pop', 'popitem', 'pop_default', 'update', 'clear')
        for o in case['ops']))
    ctx.label('3+ keys at once', biggest >= 3)


def by_value_op():
    return st.tuples(st.just('byValue'), st.none() | INTS).map(list)


def cases(values, extra=None):
    ops = op(values) if extra is None else st.one_of(op(values), extra)
    return st.fixed_dictionaries({
        'strict': st.booleans(), 'deep': st.booleans(),
        'ops': oplist(ops)})


def run_bulk(case, ctx):
    """Many keys, so the underlying tree splits into several buckets."""
    c = Collection(max_size=5000)
    model = {}
    for i in range(case['n']):
        k = f'{case["prefix"]}{(i * case["step"]) % 997}'
        if k not in model:
            c.insert(k, i)
            model[k] = i
    for o in case['ops']:
        apply_op(c, model, o, ctx, ordered_values=True)
    compare(c, model, True)
    ctx.nontrivial(len(model) > 60)


TESTS = [
    Test('ops', lambda: cases(VALUES), run, quick=6000, procs=8,
         rule='random operation sequences (up to 30) over string keys incl. '
              'empty/unicode and falsy values against a dict; non-trivial = '
              'two or more keys held at once and at least one removal/update'),
    Test('by_value', lambda: cases(INTS, by_value_op()), run, quick=2000,
         procs=4, rule='same with integer values plus value-ordered views'),
    Test('bulk', lambda: st.fixed_dictionaries({
        'n': st.integers(50, 400), 'step': st.sampled_from([1, 7, 31, 500]),
        'prefix': st.sampled_from(['', 'k', 'é']),
        'ops': st.lists(op(INTS), max_size=12)}), run_bulk, quick=400,
        procs=4, rule='50-400 keys (several tree buckets) then operations; '
                      'non-trivial = more than 60 keys'),
]
