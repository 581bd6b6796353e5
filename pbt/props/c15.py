"""C15: opening, creating and loading databases."""
import os

from hypothesis import strategies as st

import ZODB
import transaction
from ZODB.DemoStorage import DemoStorage
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, want, crud
import citr
from citr import CAP, committed, eq_map

from citrine.connection.container_connection import ContainerConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import IncompatibleDatabaseError
from citrine.storage.transaction import TransactionManager

ID = 'C15'
LEVEL = 'exploration'
ASSUMPTIONS = ['local storages only; a remote database is not exercised here']
K = st.one_of(citr.FEWKEYS, KEYS)


class OwnConnection(ContainerConnection):
    """What somebody's own kind of database may open."""


class OwnDb(ContainerDb):
    klass = OwnConnection


KINDS = {'own': (OwnDb, OwnConnection),
         'plain': (ContainerDb, ContainerConnection)}


def make(case, path, kw):
    """A database at `path`, the way the case asks for."""
    ContainerDb = KINDS[case['kind']][0]
    how = case['how']
    dbkw = {}
    if case['named']:
        dbkw['database_name'] = 'books'
    if case['shared']:
        dbkw['databases'] = kw
    if how == 'new':
        return ContainerDb.new(path, capacity=case['capacity'],
                               strict=case['strict'], **dbkw)
    if how == 'create':
        s = ContainerDb.create(path, capacity=case['capacity'],
                               strict=case['strict'])
        return ContainerDb.load(s, **dbkw)
    if how == 'create, close, path':
        s = ContainerDb.create(path, capacity=case['capacity'],
                               strict=case['strict'])
        s.close()
        return ContainerDb(path, **dbkw)
    if how == 'path':
        return ContainerDb(path, **dbkw)
    if how == 'file storage':
        return ContainerDb(FileStorage(path), **dbkw)
    if how == 'none':
        return ContainerDb(None, **dbkw)
    if how == 'mapping':
        return ContainerDb(MappingStorage(), **dbkw)
    return ContainerDb(DemoStorage(), **dbkw)


ON_FILE = ['new', 'create', 'create, close, path', 'path', 'file storage']
SIZED = ['new', 'create', 'create, close, path']


def run(case, ctx):
    path = os.path.join(ctx.tmp, 'data')
    registry = {}
    kind_db, kind_conn = KINDS[case['kind']]
    db = must(make, case, path, registry, what=f'opening ({case["how"]})')
    ctx.defer(lambda: db.close())
    name = 'books' if case['named'] else 'unnamed'
    eq(db.database_name, name, 'database name')
    if case['shared']:
        require(registry.get(name) is db, 'not registered in databases')
    capacity = case['capacity'] if case['how'] in SIZED else 100000
    strict = case['strict'] and case['how'] in SIZED
    model = {}
    with db as conn:
        require(type(db) is kind_db and type(conn) is kind_conn,
                f'a {type(db).__name__} with a {type(conn).__name__} was '
                f'opened as {kind_db.__name__}')
        eq(conn.strict, strict, 'strict')
        require(conn.capacity >= capacity,
                f'capacity {conn.capacity}, {capacity} asked for')
        if case['how'] in SIZED and capacity <= 5000:
            eq(conn.capacity, capacity, 'capacity of a single collection')
        eq(conn.used, 0, 'used in a new database')
        for k, v in case['fill']:
            over = strict and k not in model and len(model) >= capacity
            kind, val = outcome(crud(conn, 'update'), k, v)
            if over:
                require(kind == 'exc' and isinstance(val, CAP),
                        f'the strict capacity {capacity} was exceeded '
                        f'({kind} {val!r})')
                ctx.label('strict limit met')
            else:
                require(kind == 'ok', f'update raised {val!r}')
                model[k] = v
    eq_map(committed(db), model, 'objects in the database')
    if case['how'] not in ON_FILE:
        ctx.nontrivial(bool(model))
        return
    for again in case['again']:
        db.close()
        if again == 'load':
            db = must(kind_db.load, path, what='load')
        elif again == 'load storage':
            db = must(kind_db.load, FileStorage(path), what='load')
        elif again == 'storage':
            db = must(kind_db, FileStorage(path), what='opening')
        else:
            db = must(kind_db, path, what='opening')
        with db as conn:
            require(type(db) is kind_db and type(conn) is kind_conn,
                    f'reopened as {type(db).__name__} with a '
                    f'{type(conn).__name__}')
            eq(conn.strict, strict, 'strict after reopening')
            require(conn.capacity >= capacity, 'capacity after reopening')
            eq(conn.used, len(model), 'used after reopening')
            for k, v in model.items():
                want(conn.read(k), v, f'read({k!r}) after reopening')
        eq_map(committed(db), model, 'objects after reopening')
        ctx.nontrivial(bool(model))


def run_foreign(case, ctx):
    """A database of something else is refused, and left as it was."""
    path = os.path.join(ctx.tmp, 'data')
    z = ZODB.DB(path)
    tm = transaction.TransactionManager()
    conn = z.open(tm)
    for k, v in case['root'].items():
        conn.root()[k] = v
    tm.commit()
    conn.close()
    z.close()
    arg = FileStorage(path) if case['storage'] else path
    db = None
    kind, val = outcome(ContainerDb, arg)
    if kind == 'ok':
        db = val
        kind, val = outcome(db.open)
    require(kind == 'exc' and isinstance(val, IncompatibleDatabaseError),
            f'a database without a container was opened: {kind} {val!r}')
    ctx.label('refused')
    ctx.nontrivial(bool(case['root']))
    if db is not None:
        db.close()
    elif case['storage']:
        arg.close()
    else:
        return      # the failed constructor still holds the file
    z = ZODB.DB(path)
    conn = z.open(transaction.TransactionManager())
    got = dict(conn.root())
    conn.transaction_manager.abort()
    conn.close()
    z.close()
    eq(got, case['root'], 'what the refused database holds')


def run_again(case, ctx):
    """A database created where one was has what it is created with."""
    path = os.path.join(ctx.tmp, 'data')
    for i, (capacity, strict, fill, how) in enumerate(case['made']):
        kw = {'capacity': capacity, 'strict': strict}
        if how == 'new':
            db = must(ContainerDb.new, path, what='new', **kw)
        else:
            db = must(ContainerDb.load, must(ContainerDb.create, path,
                                             what='create', **kw),
                      what='load')
        ctx.defer(db.close)
        with db as conn:
            eq(conn.capacity, capacity, f'capacity when created for time {i}')
            eq(conn.strict, strict, f'strict when created for time {i}')
            for k in fill:
                outcome(crud(conn, 'update'), k, i)
        db.close()
        db = must(ContainerDb, path, what='opening it again')
        ctx.defer(db.close)
        with db as conn:
            eq(conn.capacity, capacity, f'capacity when opened, time {i}')
            eq(conn.strict, strict, f'strict when opened, time {i}')
        db.close()
    ctx.nontrivial(any(fill for _, _, fill, _ in case['made'][:-1]))


def run_many(case, ctx):
    """Databases side by side do not mix."""
    dbs, models = [], []
    registry = {}
    for i in range(case['n']):
        if case['files']:
            d = must(ContainerDb.new, os.path.join(ctx.tmp, f'd{i}'),
                     capacity=10, database_name=f'd{i}',
                     databases=registry if case['shared'] else None)
        else:
            d = must(ContainerDb, None, database_name=f'd{i}',
                     databases=registry if case['shared'] else None)
        ctx.defer(d.close)
        dbs.append(d)
        models.append({})
    conns = [d.open(transaction_manager=TransactionManager()) for d in dbs]
    for i, name, k, v in case['ops']:
        i %= len(dbs)
        if name == 'update':
            must(crud(conns[i], 'update'), k, v, what='update')
            models[i][k] = v
        else:
            must(crud(conns[i], 'delete'), k, what='delete')
            models[i].pop(k, None)
    for d, m in zip(dbs, models):
        eq_map(committed(d), m, f'objects of {d.database_name}')
    if case['shared']:
        eq(sorted(registry), [f'd{i}' for i in range(case['n'])],
           'registered databases')
    ctx.nontrivial(sum(bool(m) for m in models) > 1)


TESTS = [
    Test('open', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(ON_FILE + ON_FILE + ['none', 'mapping',
                                                    'demo']),
        'named': st.booleans(), 'shared': st.booleans(),
        'kind': st.sampled_from(['plain', 'own']),
        'capacity': st.integers(1, 8) | st.sampled_from([100, 5001, 12000]),
        'strict': st.booleans(),
        'fill': st.lists(st.tuples(K, VALUES).map(list), max_size=10),
        'again': st.lists(st.sampled_from(
            ['load', 'load storage', 'storage', 'path']), min_size=1,
            max_size=3)}),
        run, quick=1000, procs=8,
        rule='every way of making a database, then of reopening it; '
             'non-trivial = it holds something'),
    Test('foreign', lambda: st.fixed_dictionaries({
        'storage': st.booleans(),
        'root': st.dictionaries(st.sampled_from(
            ['a', 'b', 'meta', 'containers']),
            st.integers(0, 3) | st.just('x'), max_size=3)}),
        run_foreign, quick=200, procs=4,
        rule='databases without a container; non-trivial = not empty'),
    Test('created again', lambda: st.fixed_dictionaries({
        'made': st.lists(st.tuples(
            st.integers(1, 8), st.booleans(), st.lists(K, max_size=4),
            st.sampled_from(['new', 'create'])).map(list), min_size=2,
            max_size=3)}), run_again, quick=100, procs=4,
        rule='databases created where one is already; non-trivial = it held '
             'something'),
    Test('side by side', lambda: st.fixed_dictionaries({
        'n': st.integers(2, 4) | st.integers(2, 8), 'files': st.booleans(),
        'shared': st.booleans(),
        'ops': st.lists(st.tuples(
            st.integers(0, 7), st.sampled_from(['update', 'update',
                                                'delete']),
            K, VALUES).map(list), max_size=15) | st.lists(st.tuples(
                st.integers(0, 7), st.just('update'), K, VALUES).map(list),
                min_size=10, max_size=60)}),
        run_many, quick=400, procs=4,
        rule='several databases used in turn; non-trivial = two hold '
             'something'),
]
