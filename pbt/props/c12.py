"""C12: concurrent connections see snapshots and never overwrite each other
silently."""
from hypothesis import strategies as st

import citr
from citr import committed, container_map, eq_map, visible
from core import Test, must
from maps import crud
from conc import BASIC, DIRECT, K, MANAGERS, World, ops

from ZODB.DemoStorage import DemoStorage
from ZODB.FileStorage import FileStorage
from citrine.storage.container import Container
from citrine.storage.group import Group, get_group_index

ID = 'C12'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'schedules interleave whole operations of 2-3 connections; threads '
    'inside the object database are its own concern',
    'a commit may be refused without need, but only if another one came in '
    'between']


def run(case, ctx):
    w = World(case, ctx)
    w.play()
    ctx.nontrivial(w.concurrent > 0)
    ctx.label('conflict', w.conflicts > 0)
    ctx.label(case['storage'])


NAMES = [f'k{i}' for i in range(30)]


def run_apart(case, ctx):
    """Transactions on objects of their own, all begun at once; no bucket is
    split or emptied, or loses its first key (BTrees refuses to merge that)."""
    n = case['conns']
    g = Group.new(size=case['size'], max_collection_size=300)
    filled = NAMES[:case['filled']]
    g.update({k: f'base {k}' for k in filled})
    low = Group.new(size=2, max_collection_size=300)
    low.update({k: f'low {k}' for k in filled[::3] + ['other']})
    layers = (g, low) if case['layer'] else (g,)
    state = visible(layers)
    first = {min(col.keys(), default=None) for col in g.collections}
    room = [len(col.keys()) for col in g.collections]
    storage = DemoStorage() if case['storage'] == 'demo' else \
        FileStorage(ctx.tmp + '/apart.fs')
    citr.install(storage, container=Container(g, layers))
    db = citr.ContainerDb(storage)
    ctx.defer(db.close)
    conns = [db.open(**MANAGERS[case['managers']]()) for _ in range(n)]
    for conn in conns:
        conn.__enter__()
        eq_map(container_map(conn.container), state, 'snapshot')
    writers = set()
    for at, what in case['ops']:
        k, i = NAMES[at], at % n
        col = get_group_index(k, len(room))
        if what == 'delete':
            # low in the layers there is no record of the object itself
            if k not in state or room[col] < 6 or case['layer'] or \
                    k in first:
                continue
            must(crud(conns[i], 'delete'), k, what='delete')
            del state[k]
            room[col] -= 1
        else:
            if k not in state and not room[col]:
                continue
            must(crud(conns[i], 'update'), k, f'{i} {k}', what='update')
            state[k] = f'{i} {k}'
        writers.add(i)
    for i in case['order']:
        if i < n:
            must(conns[i].__exit__, None, None, None,
                 what=f'commit of connection {i}, of objects of its own')
    eq_map(committed(db), state, 'committed by all')
    ctx.nontrivial(len(writers) > 1)
    for conn in conns:
        conn.close()


APART = st.fixed_dictionaries({
    'conns': st.sampled_from([2, 3]), 'layer': st.booleans(),
    'managers': st.sampled_from(['plain', 'default', 'thread']),
    'storage': st.sampled_from(['file', 'demo']),
    'size': st.sampled_from([1, 2, 3]), 'filled': st.integers(10, 24),
    'order': st.permutations([0, 1, 2]),
    'ops': st.lists(st.tuples(st.integers(0, 29), st.sampled_from(
        ['update', 'update', 'delete'])).map(list), min_size=2,
        max_size=8)})

GROUP = st.fixed_dictionaries({
    'size': st.sampled_from([1, 1, 2, 3, 7]),
    'filler': st.sampled_from([0, 0, 0, 29, 45]),
    'keys': st.lists(K, max_size=6, unique=True)})
TIGHT = st.fixed_dictionaries({
    'size': st.sampled_from([1, 1, 2, 3]),
    'cap': st.sampled_from([1, 2, 3, 5]),
    'keys': st.lists(K, max_size=3, unique=True)}).map(
        lambda g: dict(g, keys=g['keys'][:g['cap']]))


def cases(group, strict):
    return st.fixed_dictionaries({
        'conns': st.sampled_from([2, 2, 3, 3, 5]),
        'managers': st.sampled_from(['plain', 'default', 'thread']),
        'storage': st.sampled_from(['mapping', 'file', 'demo']),
        'strict': st.just(strict),
        'groups': st.tuples(group).map(list),
        'ops': st.one_of(st.lists(ops(BASIC, DIRECT), min_size=2, max_size=10),
                         st.lists(ops(BASIC, BASIC, DIRECT), min_size=8,
                                  max_size=24),
                         st.lists(ops(BASIC, BASIC, DIRECT), min_size=24,
                                  max_size=80))})


RULE = ('interleaved transactions of 2-3 connections over storages with and '
        'without merging of conflicts; non-trivial = a transaction with '
        'writes ended after another one had committed since it began')
TESTS = [
    Test('apart', lambda: APART, run_apart, quick=1000, procs=8,
         rule='2-3 transactions begun at once, each on objects of its own, '
              'over storages that merge conflicts: every one is accepted; '
              'non-trivial = several of them write'),
    Test('histories', lambda: cases(GROUP, False), run, quick=4000, procs=8,
         rule=RULE),
    Test('limits', lambda: cases(TIGHT, True), run, quick=2000, procs=8,
         rule=RULE + '; strict collections of 1-5 objects'),
]
