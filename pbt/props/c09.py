"""C09: resizing loses nothing, whatever is asked for."""
from hypothesis import strategies as st

from core import Test, Violation, eq, must, must_raise, outcome, \
    require
from maps import KEYS, VALUES, want, crud
import citr
from citr import CAP, container_map, contents_of, eq_map, visible

from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import TransactionManager

ID = 'C09'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'an id held by several groups may count once or several times against '
    'the requested capacity: ValueError is demanded only below the number of '
    'distinct ids, success only from the total number of items',
    'a strict container may refuse because one collection is full']
K = st.one_of(citr.FEWKEYS, KEYS)


def run(case, ctx):
    groups = []
    for n, items in zip(case['sizes'], citr.fills(case)):
        g = Group.new(size=n, max_collection_size=case['max'])
        g.update(items)
        groups.append(g)
    c = Container(groups[0], tuple(groups), strict=case['strict'])
    for step in case['steps']:
        before = [contents_of(g) for g in c.groups]
        held = list(c.groups)
        seen = visible(c.groups)
        total = sum(len(b) for b in before)
        distinct = len(seen)
        capacity = max(1, {'total': total, 'distinct': distinct}[
            step['from']] + step['delta'])
        kw = {k: step[k] for k in ('condense', 'transfer')
              if step[k] is not None}
        if step['cmax'] is not None:
            kw['max_collection_size'] = step['cmax']
        if step['tm']:
            kw['transaction_manager'] = TransactionManager()
        condense = bool(step['condense'])
        transfer = step['transfer'] is not False
        what = f'resize({capacity}, {kw})'
        kind, val = outcome(c.resize, capacity, **kw)
        if kind == 'exc':
            if isinstance(val, ValueError):
                require(capacity < total,
                        f'{what} refused with {total} items stored: {val}')
                require(list(c.groups) == held and c.primary is held[0],
                        f'a refused {what} changed the groups')
                eq([contents_of(g) for g in c.groups], before,
                   f'contents after a refused {what}')
                ctx.label('too small')
                continue
            if not (case['strict'] and isinstance(val, CAP)):
                raise Violation(f'{what} raised {val!r}')
            ctx.label('refused by a strict limit')
            ctx.nontrivial(distinct > 1)
            eq_map(container_map(c), seen, f'objects after a refused {what}')
            eq(c.strict, case['strict'], f'strict after a refused {what}')
            continue
        if capacity < distinct:
            raise Violation(f'{what} accepted with {distinct} ids stored')
        eq_map(container_map(c), seen, f'objects after {what}')
        require(c.capacity >= capacity,
                f'capacity {c.capacity} after {what}')
        limit = step['cmax'] or 5000
        require(all(0 < x.max_size <= limit for x in c.primary.collections),
                f'collections exceed {limit} after {what}')
        # the new primary is laid out as in a new container
        like = Container.new(capacity, *(
            [step['cmax']] if step['cmax'] is not None else []))
        eq(like.strict, False, 'strict of a container made without saying')
        eq([x.max_size for x in c.primary.collections],
           [x.max_size for x in like.primary.collections],
           f'limits of the collections after {what}')
        eq(c.strict, case['strict'], f'strict after {what}')
        require(all(c.primary is not g for g in held),
                f'{what} kept the old primary group')
        require(c.groups[0] is c.primary, 'primary is not the first group')
        rest = list(c.groups[1:])
        if condense and transfer:
            eq(rest, [], f'groups left after {what}')
            require(isinstance(val, list) and len(val) == len(held) and
                    all(a is b for a, b in zip(val, held)),
                    f'{what} returned {val!r}, not the removed groups')
        elif transfer:
            require(len(rest) == len(held) - 1 and all(
                a is b for a, b in zip(rest, held[1:])),
                f'{what} changed the secondary groups')
            eq([contents_of(g) for g in rest], before[1:],
               f'secondary contents after {what}')
            require(len(val) == 1 and val[0] is held[0],
                    f'{what} returned {val!r}, not the old primary')
        else:
            require(len(rest) == len(held) and all(
                a is b for a, b in zip(rest, held)),
                f'{what} changed the groups')
            eq([contents_of(g) for g in rest], before,
               f'group contents after {what}')
            eq(list(val), [], f'groups removed by {what}')
        if transfer:
            eq([contents_of(g) for g in val], [{} for _ in val],
               f'what is left in the groups removed by {what}')
        moved = seen if condense else before[0]
        eq_map(contents_of(c.primary), moved, f'primary after {what}')
        ctx.nontrivial(len(moved) > 1)
        ctx.label('with secondaries', len(held) > 1)
    for bad in (None, 1, 0, 'no'):
        must_raise(TypeError, setattr, c, 'strict', bad,
                   what=f'setting strict to {bad!r}')
        eq(c.strict, case['strict'], f'strict after setting it to {bad!r}')
    for k in seen:
        c.strict = False
        must(crud(c, 'write'), k, 'new', what='write')
        want(c.read(k), 'new', f'read({k!r}) after overwriting')


STEP = st.fixed_dictionaries({
    'tm': st.sampled_from([False, False, True]),
    'from': st.sampled_from(['total', 'total', 'distinct']),
    'delta': st.one_of(st.integers(-2, 3), st.integers(0, 60)),
    'cmax': st.none() | st.integers(1, 8) | st.integers(5, 50),
    'condense': st.sampled_from([True, False, None]),
    'transfer': st.sampled_from([True, False, None])})

CASES = lambda n: st.fixed_dictionaries({
    'sizes': st.lists(st.sampled_from([1, 2, 3, 5]), min_size=n, max_size=n),
    'fill': st.lists(st.lists(st.tuples(K, VALUES).map(list), max_size=8),
                     min_size=n, max_size=n),
    'max': st.sampled_from([3, 50]),
    'strict': st.booleans(),
    'steps': st.lists(STEP, min_size=1, max_size=3)})

MANY = citr.bulky(lambda n: st.builds(
    lambda case, more: {**case, 'steps': case['steps'] + more},
    CASES(n), st.lists(STEP, max_size=9)))

TESTS = [
    Test('resize', lambda: st.integers(1, 4).flatmap(CASES), run, quick=8000, procs=8,
         rule='1-3 consecutive resizes of 1-4 layered groups, to capacities '
              'around the number of stored items, strict or not; non-trivial '
              '= two or more objects moved, or a refusal under way'),
    Test('many groups', lambda: MANY, run, quick=1000, procs=8,
         rule='up to 12 resizes of 1-9 groups of up to 150 ids each'),
]
