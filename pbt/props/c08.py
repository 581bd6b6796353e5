"""C08: condensing keeps every object readable with the same value."""
from hypothesis import strategies as st

from core import Test, Violation, eq, must, outcome, require
from maps import KEYS, VALUES, want, crud
import citr
from citr import CAP, container_map, contents_of, eq_map, visible

from citrine.storage.container import Container
from citrine.storage.group import Group

ID = 'C08'
LEVEL = 'exploration'
ASSUMPTIONS = ['in strict mode any capacity error is an acceptable refusal, '
               'as long as nothing is lost']
K = st.one_of(citr.FEWKEYS, KEYS)


def build(case):
    groups = []
    for n, items in zip(case['sizes'], citr.fills(case)):
        g = Group.new(size=n, max_collection_size=case['max'])
        g.update(items)
        groups.append(g)
    c = Container(groups[0], tuple(groups), strict=case['strict'])
    return c, groups


def run(case, ctx):
    c, groups = build(case)
    before = [contents_of(g) for g in groups]
    seen = visible(groups)
    moved = sum(1 for m in before[1:] for k in m if k not in before[0])
    for again in range(case['times']):
        kw = {} if case['transfer'] is None else {'transfer':
                                                  case['transfer']}
        transfer = case['transfer'] is not False
        secondaries = list(c.groups[1:])
        kind, val = outcome(c.condense, **kw)
        if kind == 'exc':
            if not (case['strict'] and isinstance(val, CAP)):
                raise Violation(f'condense raised {val!r}')
            ctx.label('refused by a strict limit')
            eq_map(container_map(c), seen, 'objects after a refused condense')
            ctx.nontrivial(moved > 0)
            continue
        require(c.primary is groups[0], 'condense replaced the primary group')
        eq_map(container_map(c), seen, 'objects after condense')
        eq_map(contents_of(c.primary), seen, 'primary group after condense')
        if transfer:
            eq(len(c.groups), 1, 'groups left after condense')
            require(c.groups[0] is c.primary, 'the wrong group was kept')
            require(isinstance(val, list), f'condense returned {val!r}')
            require(len(val) == len(secondaries) and all(
                a is b for a, b in zip(val, secondaries)),
                f'condense returned {len(val)} groups, not the '
                f'{len(secondaries)} removed ones in order')
            eq([contents_of(g) for g in val], [{} for _ in val],
               'what is left in the removed groups')
            ctx.label('transfer')
        else:
            eq(val, [], 'groups removed without transfer')
            require(list(c.groups[1:]) == secondaries,
                    'condense without transfer changed the groups')
            eq([contents_of(g) for g in c.groups[1:]], before[1:],
               'secondary contents after condense without transfer')
        ctx.nontrivial(moved > 1 and len(groups) > 1)
        ctx.label('overlapping ids', any(
            k in m for i, m in enumerate(before) for n in before[:i]
            for k in n))
    eq(c.strict, case['strict'], 'strict after condense')
    # still a working container
    c.strict = False
    must(crud(c, 'write'), 'after', 1, what='write')
    want(c.read('after'), 1, 'read after condense')


CASES = lambda n: st.fixed_dictionaries({
    'sizes': st.lists(st.sampled_from([1, 2, 3, 5]), min_size=n, max_size=n),
    'fill': st.lists(st.lists(st.tuples(K, VALUES).map(list), max_size=8),
                     min_size=n, max_size=n),
    'max': st.sampled_from([1, 2, 3, 50, 50]),
    'strict': st.booleans(),
    'transfer': st.sampled_from([True, False, None]),
    'times': st.sampled_from([1, 1, 2])})

TESTS = [
    Test('condense', lambda: st.integers(1, 4).flatmap(CASES), run, quick=8000, procs=8,
         rule='1-4 groups with overlapping ids, roomy or tight and strict; '
              'non-trivial = two or more objects had to reach the primary, '
              'or a refusal with objects still to move'),
    Test('many groups', lambda: citr.bulky(CASES), run, quick=1200, procs=8,
         rule='the same on 1-9 groups of up to 150 ids each'),
]
