"""C10: create/read/update/delete through a connection follow the contract."""
import itertools

from hypothesis import strategies as st

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, oplist, want
import citr
from citr import committed, eq_map

from citrine.connection.container_connection import ContainerConnection
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

ID = 'C10'
LEVEL = 'exploration'
ASSUMPTIONS = ['in-memory storage; a fresh connection stands for another '
               'user of the database']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)
V = st.one_of(VALUES, VALUES, st.lists(VALUES, max_size=3))


def connect(db, kind):
    if kind == 'plain':
        return db.open(transaction_manager=TransactionManager())
    if kind == 'thread':
        return db.open(transaction_manager=ThreadTransactionManager())
    return db.open()


def run(case, ctx):
    models = citr.fills(case)
    groups = []
    for n, m in zip(case['sizes'], models):
        g = Group.new(size=n, max_collection_size=500)
        g.update(dict(m))
        groups.append(g)
    db = citr.ContainerDb(_storage(Container(groups[0], tuple(groups))))
    ctx.defer(db.close)
    conn = connect(db, case['tm'])
    require(isinstance(conn, ContainerConnection), 'not a ContainerConnection')
    collided = 0

    def holders(k):
        return [m for m in models if k in m]

    styles = itertools.cycle(case['styles'])

    def named(fn, id, **rest):
        """arguments by position or by name"""
        style = next(styles)
        if style == 'names':
            return fn(id=id, **rest)
        if style == 'mixed':
            return fn(id, **rest)
        return fn(id, *rest.values())

    for o in case['ops']:
        name, args = o[0], o[1:]
        if name == 'create':
            k, v = args
            if holders(k):
                collided += 1
                must_raise(ObjectOverwriteError, named, conn.create, k, obj=v,
                           what=f'create({k!r}) over an existing id')
                ctx.label('create refused')
            else:
                must(named, conn.create, k, obj=v, what='create')
                models[0][k] = v
        elif name == 'read':
            h = holders(args[0])
            want(must(named, conn.read, args[0], what='read'),
                 h[0][args[0]] if h else None, f'read({args[0]!r})')
            want(must(named, conn.read, args[0], default='dflt', what='read'),
                 h[0][args[0]] if h else 'dflt', f'read({args[0]!r}, dflt)')
        elif name == 'update':
            k, v = args
            h = holders(k)
            got = must(named, conn.update, k, obj=v, what='update')
            want(got, h[0][k] if h else None, f'previous value of {k!r}')
            ctx.label('update of an existing id', bool(h))
            models[0][k] = v
        elif name == 'delete':
            k = args[0]
            got = must(named, conn.delete, k, what='delete')
            expect = tuple(m.pop(k) for m in models if k in m)
            if expect:
                want(tuple(got), expect, f'values removed by delete({k!r})')
            else:
                require(not got, f'delete of an absent id returned {got!r}')
        elif name == 'item':
            k = args[0]
            h = holders(k)
            if h:
                want(must(lambda: conn[k], what='[]'), h[0][k], f'[{k!r}]')
            else:
                must_raise(KeyError, lambda: conn[k], what=f'[{k!r}]')
        elif name == 'items':
            ks = args[0]
            arg = {'list': list, 'tuple': tuple, 'gen': iter}[args[1]](ks)
            if any(holders(k) for k in ks):
                got = must(lambda: conn[arg], what='[ids]')
                want(list(got), [holders(k)[0][k] if holders(k) else None
                                 for k in ks], f'[{ks!r}]')
                ctx.label('several ids')
            elif ks:
                must_raise(KeyError, lambda: conn[arg], what=f'[{ks!r}]')
        elif name == 'bad index':
            must_raise(IndexError, lambda: conn[args[0]],
                       what=f'[{args[0]!r}]')
        elif name == 'reconnect':
            conn.close()
            conn = connect(db, case['tm'])
        # every action is committed at once
        if name in ('create', 'update', 'delete') and case['watch']:
            eq_map(committed(db), citr_visible(models),
                   f'what another connection sees after {o}')
    eq_map(committed(db), citr_visible(models), 'committed objects')
    eq(conn.used, len(models[0]), 'used')
    eq(conn.container.size, sum(len(m) for m in models), 'container size')
    ctx.nontrivial(collided > 0 or any(
        o[0] == 'items' and len(o[1]) > 20 for o in case['ops']) or sum(
        o[0] in ('update', 'delete') for o in case['ops']) > 1)
    conn.close()


def citr_visible(models):
    out = {}
    for m in models:
        for k, v in m.items():
            out.setdefault(k, v)
    return out


def _storage(container):
    from ZODB.MappingStorage import MappingStorage
    s = MappingStorage()
    citr.install(s, container=container)
    return s




def operations(K, most=4):
    return st.one_of(
        st.tuples(st.just('create'), K, V), st.tuples(st.just('create'), K, V),
        st.tuples(st.just('update'), K, V), st.tuples(st.just('update'), K, V),
        st.tuples(st.just('delete'), K), st.tuples(st.just('read'), K),
        st.tuples(st.just('item'), K),
        st.tuples(st.just('items'), st.lists(K, max_size=most),
                  st.sampled_from(['list', 'tuple', 'gen'])),
        st.tuples(st.just('bad index'), st.sampled_from([1, None, 2.5])),
        st.tuples(st.just('reconnect'))).map(list)


CASES = lambda n, ops=oplist(operations(K), 5, 16): st.fixed_dictionaries({
    'sizes': st.lists(st.sampled_from([1, 2, 3, 5]), min_size=n, max_size=n),
    'fill': st.lists(st.lists(st.tuples(K, V).map(list), max_size=4),
                     min_size=n, max_size=n),
    'tm': st.sampled_from(['plain', 'thread', 'default']),
    'watch': st.booleans(),
    'styles': st.lists(st.sampled_from(['positions', 'mixed', 'names']),
                       min_size=1, max_size=3),
    'ops': ops})
# many ids in one request
LONG = oplist(st.one_of(
    st.tuples(st.just('items'), st.lists(
        citr.BULKKEYS | K, min_size=n, max_size=3 * n), st.sampled_from(
            ['list', 'tuple', 'gen'])).map(list)
    for n in (5, 30, 100)) | st.tuples(
        st.sampled_from(['create', 'update']), K, V).map(list), 1, 6)
MANY = oplist(operations(citr.BULKKEYS | K, 80), 20, 90)

TESTS = [
    Test('crud', lambda: st.integers(1, 3).flatmap(CASES), run, quick=4000, procs=8,
         rule='operation sequences against a model of the layered database; '
              'non-trivial = a create met an existing id, or several '
              'updates/deletes'),
    Test('many operations', lambda: citr.bulky(lambda n: CASES(n, MANY)), run,
         quick=300, procs=8,
         rule='the same with up to 90 operations of one connection on 1-9 '
              'groups of up to 150 ids each'),
    Test('many ids at once', lambda: citr.bulky(lambda n: CASES(n, LONG)),
         run, quick=200, procs=8,
         rule='requests for 5 to 300 ids, some not there and some twice, on '
              '1-9 groups of up to 150 ids; non-trivial = such a request '
              'for more than 20'),
]
