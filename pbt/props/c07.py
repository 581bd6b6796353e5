"""C07: a container is one map laid over ordered groups."""
from hypothesis import strategies as st

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, oplist, want, crud
import citr

import ZODB
import transaction
from ZODB.MappingStorage import MappingStorage
from citrine.storage.container import Container
from citrine.storage.group import Group

ID = 'C07'
LEVEL = 'exploration'
ASSUMPTIONS = ['iteration over and addition of containers are not '
               'implemented in this repository and not checked']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)


def build(case):
    groups = [Group.new(size=n, max_collection_size=500)
              for n in case['sizes']]
    models = []
    for g, items in zip(groups, citr.fills(case)):
        g.update(dict(items))
        models.append(dict(items))
    while len(models) < len(groups):
        models.append({})
    primary = case['primary'] % len(groups)
    if case['listed']:
        c = Container(groups[primary], tuple(groups))
    else:
        c = Container(groups[primary], tuple(
            g for i, g in enumerate(groups) if i != primary))
    order = [primary] + [i for i in range(len(groups)) if i != primary]
    return c, [models[i] for i in order], [groups[i] for i in order]


def check(c, models, keys):
    every = {k for m in models for k in m} | set(keys)
    for k in every:
        holders = [m for m in models if k in m]
        eq(must(crud(c, 'has'), k, what='has'), len(holders), f'has({k!r})')
        eq(bool(must(lambda: k in c, what='in')), bool(holders),
           f'{k!r} in container')
        if holders:
            want(must(crud(c, 'read'), k, what='read'), holders[0][k], f'read({k!r})')
            want(must(crud(c, 'read'), k, 'default', what='read'), holders[0][k],
                 f'read({k!r}, default)')
        else:
            want(must(crud(c, 'read'), k, what='read'), None, f'read({k!r})')
            want(must(crud(c, 'read'), k, 'default', what='read'), 'default',
                 f'read({k!r}, default)')
    eq(c.size, sum(len(m) for m in models), 'size')
    eq(c.used, len(models[0]), 'used')


def run(case, ctx):
    c, models, groups = build(case)
    layered = any(models[1:])
    commit = None
    if case['stored']:
        db = ZODB.DB(MappingStorage())
        tm = transaction.TransactionManager()
        conn = db.open(tm)
        conn.root.c = c
        tm.commit()
        ctx.defer(lambda: (tm.abort(), conn.close(), db.close()))
        commit = tm
    require(c.primary is groups[0], 'the primary group is another one')
    seen = set()
    for o in case['ops']:
        name, k = o[0], o[1]
        seen.add(k)
        if name == 'write':
            must(crud(c, 'write'), k, o[2], what='write')
            models[0][k] = o[2]
            ctx.label('write over a secondary', any(k in m
                                                    for m in models[1:]))
        elif name == 'delete':
            got = must(crud(c, 'delete'), k, what='delete')
            expect = tuple(m.pop(k) for m in models if k in m)
            require(isinstance(got, tuple), f'delete returned {got!r}')
            want(got, expect, f'delete({k!r})')
            ctx.label('delete through layers', len(expect) > 1)
            ctx.label('delete of an absent id', not expect)
        elif name == 'reload' and commit is not None:
            commit.commit()
            conn.close()
            conn = db.open(tm)
            conn.cacheMinimize()
            c = conn.root.c
        check(c, models, [k])
    check(c, models, seen)
    eq([citr.contents_of(g) for g in c.groups] == models, True,
       'contents of the groups one by one')
    ctx.nontrivial(layered and len(models) > 1 and
                   any(o[0] == 'delete' for o in case['ops']))
    ctx.label('layered', layered)


def falsy():
    return st.sampled_from([0, '', False, None, [], {}, 0.0])


def cases(sizes, K, long=12):
    return st.fixed_dictionaries({
        'sizes': st.lists(st.sampled_from([1, 2, 3, 5]), **sizes),
        'fill': st.lists(st.lists(st.tuples(K, VALUES | falsy()).map(list),
                                  max_size=5), max_size=4),
        'primary': st.sampled_from([0, 0, 0, 1, 2]),
        'listed': st.booleans(), 'stored': st.booleans(),
        'ops': oplist(st.one_of(
            st.tuples(st.just('write'), K, VALUES | falsy()),
            st.tuples(st.just('write'), K, VALUES | falsy()),
            st.tuples(st.just('delete'), K),
            st.tuples(st.just('reload'), K)).map(list), 4, long)})


CASES = cases({'min_size': 1, 'max_size': 4}, K)
BULK = citr.bulky(lambda n: cases({'min_size': n, 'max_size': n},
                                  citr.BULKKEYS | K, 60))

TESTS = [
    Test('ops', lambda: CASES, run, quick=6000, procs=8,
         rule='write/read/has/in/delete sequences on 1-4 layered groups with '
              'overlapping ids and falsy values, in memory and persisted; '
              'non-trivial = ids in secondary groups and a deletion'),
    Test('many groups', lambda: BULK, run, quick=800, procs=8,
         rule='the same on 1-9 groups of up to 150 ids each, with up to 60 '
              'operations'),
]
