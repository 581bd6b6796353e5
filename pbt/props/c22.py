"""C22: reorganising a container while others use it loses, revives and
duplicates nothing."""
from hypothesis import strategies as st

from core import Test
from conc import BASIC, K, MOVES, REORG, World, ops

ID = 'C22'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'schedules interleave whole operations of 2-3 connections and, within a '
    'reorganisation that commits step by step, act between its transactions '
    'and just before each of its commits',
    'a commit or a step may be refused without need, but only if another '
    'commit came in between']


def run(case, ctx):
    w = World(case, ctx)
    w.play()
    ctx.nontrivial(w.concurrent > 0)
    ctx.label('conflict', w.conflicts > 0)
    ctx.label('reorganised step by step', w.maintained > 0)
    ctx.label(case['storage'])


def group(filler, cap):
    return st.fixed_dictionaries({
        'size': st.sampled_from([1, 1, 2, 3]),
        'filler': st.sampled_from(filler), 'cap': st.sampled_from(cap),
        'keys': st.lists(K, max_size=4, unique=True)})


def cases(group, length):
    return st.fixed_dictionaries({
        'conns': st.sampled_from([2, 2, 3]),
        'managers': st.sampled_from(['plain', 'default', 'thread']),
        'storage': st.sampled_from(['mapping', 'file', 'file', 'demo']),
        'strict': st.sampled_from([False, False, True]),
        'groups': st.lists(group, min_size=1, max_size=3),
        'gaps': st.lists(st.sampled_from([0, 0, 1, 2, 3]), min_size=1,
                         max_size=5),
        'ops': st.one_of(
            st.lists(ops(BASIC, BASIC, MOVES), min_size=3, max_size=length),
            st.lists(ops(BASIC, BASIC, MOVES), min_size=8,
                     max_size=2 * length))})


# a reorganisation and changes of whatever it copies, side by side
WIDE = st.one_of(K, st.integers(0, 119).map(lambda n: f'f{n}'))
CHANGE = st.tuples(st.sampled_from(['update', 'delete', 'delete', 'create']),
                   WIDE)


def races(order, before, reorg, changes, after):
    """Connection 1 reorganises in one transaction, 0 and 2 change things."""
    made = [[0, *c] for c in before] + ([[0, 'commit']] if before else [])
    first = [[1, reorg['name'], reorg]]
    other = [[2 if order > 3 else 0, *c] for c in changes]
    end = [[other[0][0], 'commit']]
    mixed = {0: first + other + end, 1: other + first + end,
             2: other[:1] + first + other[1:] + end,
             3: [[1, 'begin']] + other + end + first,
             4: first + other + end, 5: other + first + end}[order]
    return made + mixed + [[1, 'commit']] + [[0, *c] for c in after] + [
        [0, 'commit']]


def raced(fillers):
    return st.fixed_dictionaries({
        'conns': st.just(3),
        'managers': st.sampled_from(['plain', 'default', 'thread']),
        'storage': st.sampled_from(['mapping', 'file', 'demo']),
        'strict': st.just(False),
        'groups': st.lists(group(fillers, [300]), min_size=1, max_size=3),
        'gaps': st.just([0]),
        'ops': st.builds(
            races, st.integers(0, 5), st.lists(CHANGE, max_size=2),
            REORG.map(lambda p: {**p, 'transfer': False} if p['delta'] % 4
                      else p),
            st.lists(CHANGE, min_size=1, max_size=3),
            st.lists(CHANGE, max_size=2))})


COPIED = {'conns': 2, 'managers': 'plain', 'storage': 'file', 'strict': False,
          'groups': [{'size': 1, 'filler': 0, 'cap': 300, 'keys': ['a']}],
          'gaps': [0], 'ops': [
              [0, 'update', 'a'], [1, 'update', 'b'],
              [1, 'resize', {'name': 'resize', 'transfer': False,
                             'condense': True, 'delta': 0, 'cmax': 3}]]}

TESTS = [
    Test('histories', lambda: cases(group([0], [300, 300, 5]), 12), run,
         quick=3000, procs=8,
         pinned=[COPIED],
         rule='interleaved transactions of 2-3 connections, resizes and '
              'condensations among them, in one transaction or step by step; '
              'non-trivial = a transaction with writes ended after another '
              'one had committed since it began'),
    Test('large groups', lambda: cases(group([35, 29, 60, 0], [300]), 8),
         run, quick=1200, procs=8,
         rule='the same with collections of several buckets'),
    Test('races', lambda: raced([45, 60, 100, 120]), run, quick=1200, procs=8,
         rule='one reorganisation in one transaction, changes of what it '
              'copies by others meanwhile; collections of several buckets'),
]
