"""C23: what is asked for when a database is opened is what it does."""
import os

from hypothesis import strategies as st

import ZEO
import ZODB
from persistent.mapping import PersistentMapping
from ZODB.blob import Blob
from ZODB.FileStorage import FileStorage
from ZODB.FileStorage.FileStorage import FileStorageQuotaError
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import (InvalidObjectReference, POSKeyError,
                               ReadOnlyError)
from ZODB.utils import p64, u64

from core import (HarnessError, Test, Violation, eq, must, must_raise,
                  outcome, require)
from maps import VALUES, want, crud
import citr
from citr import Boom, committed, eq_map

from citrine.client.container_client import ContainerClient
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import TransactionManager

ID = 'C23'
LEVEL = 'exploration'
ASSUMPTIONS = ['the defaults are those of the documented signatures',
               'a loopback server stands for a served database']
K = citr.FEWKEYS

DEFAULTS = {'pool_size': 7, 'pool_timeout': 2147483648, 'cache_size': 400,
            'cache_size_bytes': 0, 'historical_pool_size': 3,
            'historical_cache_size': 1000, 'historical_cache_size_bytes': 0,
            'historical_timeout': 300, 'database_name': 'unnamed',
            'xrefs': True, 'large_record_size': 16777216}

N = st.integers(1, 5000)
OPTIONS = st.fixed_dictionaries({}, optional={
    'pool_size': N, 'pool_timeout': N, 'cache_size': N,
    'cache_size_bytes': N, 'historical_pool_size': N,
    'historical_cache_size': N, 'historical_cache_size_bytes': N,
    'historical_timeout': N, 'xrefs': st.booleans(), 'large_record_size': N,
    'database_name': st.sampled_from(['books', 'unnamed', 'é', 'a b'])})


def reported(db):
    """What the database says of itself."""
    return {'pool_size': db.getPoolSize(),
            'pool_timeout': db.pool.getTimeout(),
            'cache_size': db.getCacheSize(),
            'cache_size_bytes': db.getCacheSizeBytes(),
            'historical_pool_size': db.getHistoricalPoolSize(),
            'historical_cache_size': db.getHistoricalCacheSize(),
            'historical_cache_size_bytes': db.getHistoricalCacheSizeBytes(),
            'historical_timeout': db.getHistoricalTimeout(),
            'database_name': db.database_name, 'xrefs': db.xrefs,
            'large_record_size': db.large_record_size}


def check_options(db, asked, registry, ctx):
    got = reported(db)
    for k, v in {**DEFAULTS, **asked}.items():
        eq(got[k], v, f'{k} of the database, {asked} asked for')
    if registry is not None:
        require(db.databases is registry and
                registry.get(db.database_name) is db,
                'the database is not in the registry it was given')
    else:
        eq(list(db.databases), [db.database_name], 'databases known')
    conn = db.open(transaction_manager=TransactionManager())
    eq(conn._cache.cache_size, got['cache_size'],
       'cache size of a connection')
    eq(conn._cache.cache_size_bytes, got['cache_size_bytes'],
       'cache size in bytes of a connection')
    conn.close()
    if not hasattr(db.storage, 'lastTransaction'):
        return
    try:
        past = db.open(transaction_manager=TransactionManager(),
                       at=db.lastTransaction())
    except Exception as e:
        raise Violation(f'no connection to the present state: {e!r}')
    eq(past._cache.cache_size, got['historical_cache_size'],
       'cache size of a connection to the past')
    eq(past._cache.cache_size_bytes, got['historical_cache_size_bytes'],
       'cache size in bytes of a connection to the past')
    past.transaction_manager.abort()
    past.close()


def run_options(case, ctx):
    asked = case['options']
    registry = {} if case['shared'] else None
    kw = dict(asked)
    if registry is not None:
        kw['databases'] = registry
    path = os.path.join(ctx.tmp, 'data')
    how = case['how']
    if case['existing'] and how not in ('new', 'none', 'mapping'):
        d = ContainerDb.new(path, capacity=20)
        with d as conn:
            crud(conn, 'create')('there', 1)
        d.close()
    if how == 'new':
        db = must(ContainerDb.new, path, what=how, **kw)
    elif how == 'path':
        db = must(ContainerDb, path, what=how, **kw)
    elif how == 'storage':
        db = must(ContainerDb, FileStorage(path), what=how, **kw)
    elif how == 'load path':
        db = must(ContainerDb.load, path, what=how, **kw)
    elif how == 'load storage':
        db = must(ContainerDb.load, FileStorage(path), what=how, **kw)
    elif how == 'load created':
        db = must(lambda: ContainerDb.load(ContainerDb.create(path), **kw),
                  what=how)
    elif how == 'none':
        db = must(ContainerDb, None, what=how, **kw)
    elif how == 'named none':
        db = must(ContainerDb, None, what=how, name='nn', **kw)
        eq(db.storage.getName(), 'nn', 'name of the storage in memory')
    else:
        db = must(ContainerDb, MappingStorage(), what=how, **kw)
    ctx.defer(db.close)
    check_options(db, asked, registry, ctx)
    for n in range(case['opened']):
        # all at once, then all back into the pool
        conns = [db.open(transaction_manager=TransactionManager())
                 for _ in range(n + 1)]
        for c in conns:
            c.close()
        require(len(db.pool.available) <= reported(db)['pool_size'],
                'more connections are kept than the pool size')
    if registry is not None:
        must_raise(ValueError, ContainerDb, None, databases=registry,
                   database_name=db.database_name,
                   what='a second database of the same name')
        require(registry.get(db.database_name) is db,
                'the refused database took the place of the first')
    ctx.nontrivial(len(asked) > 1)


HOWS = ['new', 'path', 'storage', 'load path', 'load storage',
        'load created', 'none', 'named none', 'mapping']


# -- options of the file ------------------------------------------------------

def fill(db, ops, model, quota, path, ctx, states=None):
    refused = 0
    conn = db.open(transaction_manager=TransactionManager())
    for name, k, v in ops:
        if v == 'BIG':
            v = 'x' * 3000
        size = os.path.getsize(path)
        kind, val = outcome(crud(conn, 'update'), k, v) if name == 'update' else \
            outcome(crud(conn, 'delete'), k)
        if kind == 'exc':
            require(quota is not None and
                    isinstance(val, FileStorageQuotaError),
                    f'{name} raised {val!r}')
            refused += 1
        elif name == 'update':
            model[k] = v
        else:
            model.pop(k, None)
        # the storage looks where a record starts, not where it ends
        if quota is not None and kind == 'ok' and name == 'update':
            require(size <= quota, f'a file of {size} bytes grew, the quota '
                                   f'is {quota}')
        if quota is not None and kind == 'exc':
            require(size + 20000 > quota, f'a file of {size} bytes could not '
                                          f'grow to {quota}')
        if states is not None:
            states.append((db.lastTransaction(), dict(model)))
    conn.close()
    return refused


def opened(case, path, **kw):
    if case['how'] == 'new':
        return ContainerDb.new(path, capacity=20, **kw)
    if case['how'] == 'create':
        return ContainerDb.load(ContainerDb.create(path, capacity=20, **kw))
    return ContainerDb(path, **kw)


def run_file(case, ctx):
    path = os.path.join(ctx.tmp, 'data')
    model = {}
    kw = {}
    blobs = os.path.join(ctx.tmp, 'blobs') if case['blobs'] else None
    if blobs:
        kw['blob_dir'] = blobs
    if case['over']:
        # a file that is to be replaced
        d = ContainerDb.new(path, capacity=20)
        with d as conn:
            crud(conn, 'create')('old', 'gone')
        d.close()
        kw['create'] = True
    elif case['create']:
        kw['create'] = True
    packs = []
    if case['packer']:
        def packer(storage, referencesf, stop, gc):
            packs.append(gc)
        kw['packer'] = packer
    for k in ('pack_gc', 'pack_keep_old'):
        if case[k] is not None:
            kw[k] = case[k]
    quota = None
    if case['quota']:
        quota = kw['quota'] = 6000 + case['quota']
    kind, db = outcome(opened, case, path, **kw)
    if kind == 'exc':
        require(quota is not None and quota < 24000 and
                isinstance(db, FileStorageQuotaError),
                f'{case["how"]} with {sorted(kw)} raised {db!r}')
        require(os.path.getsize(path) <= quota + 2000,
                'the quota was exceeded')
        ctx.label('no room for the container')
        return
    ctx.defer(lambda: db.close())
    eq_map(committed(db), {}, 'objects in a new database')
    refused = fill(db, case['ops'], model, quota, path, ctx)
    ctx.label('quota met', refused)
    eq_map(committed(db), model, 'objects in the database')
    # attachments
    conn = db.open(transaction_manager=TransactionManager())
    if not quota:
        if blobs:
            must(crud(conn, 'create'), 'blob', Blob(b'data'), what='storing a blob')
            with crud(conn, 'read')('blob').open() as f:
                eq(f.read(), b'data', 'content of a blob')
            require(any(files for _, _, files in os.walk(blobs)),
                    'nothing in the folder for blobs')
        else:
            kind, val = outcome(crud(conn, 'create'), 'blob', Blob(b'data'))
            require(kind == 'exc', 'a blob was stored without a folder')
            require(conn.read('blob') is None, 'the refused blob is there')
        # packing
        child = PersistentMapping({'n': 1})
        crud(conn, 'create')('child', child)
        oid = child._p_oid
        crud(conn, 'delete')('child')
        db.pack()
        if case['packer']:
            require(packs, 'the packer that was given was not used')
            if case['pack_gc'] is not None:
                eq(packs[-1], case['pack_gc'], 'pack_gc')
        else:
            gc = case['pack_gc'] is not False
            kind, val = outcome(db.storage.load, oid)
            if gc:
                require(kind == 'exc' and isinstance(val, POSKeyError),
                        'packing left an object that nothing refers to')
            else:
                require(kind == 'ok', 'packing without gc removed an object')
            eq(os.path.exists(path + '.old'),
               case['pack_keep_old'] is not False, 'old file kept')
        conn.sync()
        got = citr.container_map(conn.container)
        if blobs:
            require(isinstance(got.pop('blob', None), Blob), 'blob lost')
        eq_map(got, model, 'objects after packing')
        ctx.label('packed')
    conn.transaction_manager.abort()
    conn.close()
    db.close()
    db = must(ContainerDb, path, what='opening again',
              **({'blob_dir': blobs} if blobs else {}))
    got = committed(db)
    if blobs and not quota:
        with db as conn:
            with crud(conn, 'read')('blob').open() as f:
                eq(f.read(), b'data', 'content of a blob, opened again')
        got.pop('blob', None)
    eq_map(got, model, 'objects, opened again')
    ctx.nontrivial(len(kw) > 1 and bool(model))


OP = st.tuples(st.sampled_from(['update', 'update', 'delete']), K,
               st.one_of(VALUES, st.just('BIG'), st.just('BIG'))).map(list)


# -- reading only, and the past -----------------------------------------------

def run_readonly(case, ctx):
    path = os.path.join(ctx.tmp, 'data')
    model, states = {}, []
    d = ContainerDb.new(path, capacity=20)
    states.append((d.lastTransaction(), {}))
    fill(d, case['ops'], model, None, path, ctx, states)
    d.close()
    # a saved index says where the last transaction ends; with it the storage
    # does not look for an earlier one
    os.remove(path + '.index')
    before = open(path, 'rb').read()
    kw = {'read_only': True}
    if case['stop'] is not None:
        # everything before the given transaction
        tid, _ = states[case['stop'] % len(states)]
        kw['stop'] = p64(u64(tid) + 1)
        model = [m for t, m in states if t <= tid][-1]
        ctx.label('an earlier state')
    if case['how'] == 'path':
        db = must(ContainerDb, path, what='opening to read', **kw)
    else:
        db = must(ContainerDb.load, FileStorage(path, **kw),
                  what='loading to read')
    ctx.defer(lambda: db.close())
    eq_map(committed(db), model, 'objects that are read')
    conn = db.open(transaction_manager=TransactionManager())
    require(conn.isReadOnly(), 'the connection is not read-only')
    for name, k, v in case['tries']:
        call = {'update': lambda: crud(conn, 'update')(k, v),
                'delete': lambda: crud(conn, 'delete')(k)}[name]
        kind, val = outcome(call)
        if name == 'update' or k in model:
            require(kind == 'exc' and isinstance(val, ReadOnlyError),
                    f'{name} in a read-only database: {kind} {val!r}')
            ctx.nontrivial()
        want(conn.read(k), model.get(k), 'after the refused write')
    conn.transaction_manager.abort()
    conn.close()
    # a second one may read at the same time
    if case['second']:
        other = must(ContainerDb, path, what='a second reader', **kw)
        eq_map(committed(other), model, 'objects that the second one reads')
        other.close()
    db.close()
    require(open(path, 'rb').read() == before,
            'reading changed the file')
    # a fresh place cannot be read
    fresh = os.path.join(ctx.tmp, 'fresh')
    kind, val = outcome(ContainerDb, fresh, read_only=True)
    require(kind == 'exc', 'a database that is not there was opened to read')
    require(not os.path.exists(fresh), 'opening to read made a file')


# -- several databases in one registry ----------------------------------------

def run_cross(case, ctx):
    registry = {}
    dbs, models = [], []
    for i, x in enumerate(case['xrefs']):
        kw = {'database_name': f'd{i}', 'databases': registry, 'xrefs': x}
        if case['files']:
            db = must(ContainerDb.new, os.path.join(ctx.tmp, f'd{i}'),
                      what='new', **kw)
        else:
            db = must(ContainerDb, None, what='in memory', **kw)
        ctx.defer(db.close)
        dbs.append(db)
        models.append({})
    tm = TransactionManager()
    first = dbs[0].open(transaction_manager=tm)
    conns = [first] + [must(first.get_connection, f'd{i}',
                            what='get_connection')
                       for i in range(1, len(dbs))]
    for i, c in enumerate(conns):
        require(type(c) is type(first) and c.db() is dbs[i],
                'get_connection gave a connection to another database')
        require(c.transaction_manager is tm, 'not in the same transaction')
    for block in case['blocks']:
        inner = [dict(m) for m in models]
        crossed = None
        try:
            with conns[block['by'] % len(conns)]:
                for i, k, v in block['ops']:
                    i %= len(conns)
                    crud(conns[i], 'update')(k, v)
                    inner[i][k] = v
                if block['cross'] is not None:
                    # an object of one database, referred to by another
                    src, dst = (n % len(conns) for n in block['cross'])
                    obj = PersistentMapping({'from': src})
                    conns[src].add(obj)
                    crud(conns[src], 'update')('own', obj)
                    crud(conns[dst], 'update')('ref', obj)
                    inner[src]['own'] = ['obj', src]
                    inner[dst]['ref'] = ['obj', src]
                    if src != dst:
                        crossed = (src, dst)
                if block['fail']:
                    raise Boom()
            if crossed and not case['xrefs'][crossed[1]]:
                raise Violation('a reference to another database was stored '
                                'where none are allowed')
            models = inner
            ctx.nontrivial(len({i % len(conns)
                                for i, _, _ in block['ops']}) > 1)
            ctx.label('reference across', bool(crossed))
        except Boom:
            ctx.label('block left by an error')
        except InvalidObjectReference:
            require(crossed and not case['xrefs'][crossed[1]],
                    'an allowed reference was refused')
            ctx.label('reference refused')
        for i, db in enumerate(dbs):
            fresh = db.open(transaction_manager=TransactionManager())
            got = citr.container_map(fresh.container)
            for k in ('own', 'ref'):
                if isinstance(got.get(k), PersistentMapping):
                    obj = got[k]
                    got[k] = ['obj', obj['from']]
                    eq(obj._p_jar.db().database_name, f'd{obj["from"]}',
                       'database of the object referred to')
            eq_map(got, models[i], f'objects of d{i} after {block}')
            fresh.transaction_manager.abort()
            fresh.close()
    tm.abort()
    first.close()


# -- clients ------------------------------------------------------------------

def run_connect(case, ctx):
    path = os.path.join(ctx.tmp, 'served')
    d = ContainerDb.new(path, capacity=20)
    model = dict(map(tuple, case['fill']))
    with d as conn:
        for k, v in model.items():
            crud(conn, 'update')(k, v)
    d.close()
    try:
        addr, stop = ZEO.server(path)
    except Exception as e:
        raise HarnessError(f'no server: {e!r}')
    ctx.defer(stop)
    registry = {} if case['shared'] else None
    kw = dict(case['options'])
    if registry is not None:
        kw['databases'] = registry
    if case['read_only']:
        kw['read_only'] = True
    if case['storage_cache']:
        kw['storage_cache_size'] = case['storage_cache'] * 1024 ** 2
    if case['name']:
        kw['name'] = case['name']
    cache = os.path.join(ctx.tmp, 'cache.zec') if case['cache file'] else None
    db = must(ContainerClient.connect, addr, cache, server_sync=True,
              wait_timeout=20, what='connect', **kw)
    ctx.defer(db.close)
    require(type(db) is ContainerClient, f'connect gave a {type(db)}')
    check_options(db, case['options'], registry, ctx)
    if cache:
        require(os.path.exists(cache), 'the cache file asked for is not used')
    if case['name']:
        require(db.storage.getName().startswith(case['name'] + ' '),
                f'the storage is called {db.storage.getName()!r}, '
                f'{case["name"]!r} asked for')
    eq(db.storage._cache.maxsize, (case['storage_cache'] or 20) * 1024 ** 2,
       'size of the cache of the storage')
    eq_map(committed(db), model, 'objects read through the client')
    conn = db.open(transaction_manager=TransactionManager())
    eq(conn.isReadOnly(), bool(case['read_only']), 'read-only')
    kind, val = outcome(crud(conn, 'update'), 'more', 1)
    if case['read_only']:
        require(kind == 'exc' and isinstance(val, ReadOnlyError),
                f'a write by a read-only client: {kind} {val!r}')
    else:
        require(kind == 'ok', f'update raised {val!r}')
        model['more'] = 1
    conn.close()
    eq_map(committed(db), model, 'objects after the write')
    ctx.nontrivial(len(kw) > 1)


TESTS = [
    Test('options', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(HOWS), 'existing': st.booleans(),
        'shared': st.booleans(), 'options': OPTIONS,
        'opened': st.integers(0, 4)}), run_options, quick=1200, procs=8,
        rule='every way of opening a database with any options; non-trivial '
             '= two or more of them'),
    Test('file', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(['new', 'create', 'path']),
        'over': st.booleans(), 'create': st.booleans(),
        'blobs': st.booleans(), 'packer': st.sampled_from(
            [False, False, True]),
        'pack_gc': st.sampled_from([None, True, False]),
        'pack_keep_old': st.sampled_from([None, True, False]),
        'quota': st.sampled_from([None, None, 0, 9000, 14000, 20000]),
        'ops': st.lists(OP, max_size=12)}), run_file, quick=600, procs=8,
        rule='files made with any options; non-trivial = two options and '
             'something stored'),
    Test('reading only', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(['path', 'load']),
        'ops': st.lists(OP, min_size=1, max_size=8),
        'stop': st.one_of(st.none(), st.integers(0, 8)),
        'second': st.booleans(),
        'tries': st.lists(OP, min_size=1, max_size=4)}), run_readonly,
        quick=400, procs=8,
        rule='files opened read-only, or up to a transaction; non-trivial = '
             'a write was refused'),
    Test('together', lambda: st.fixed_dictionaries({
        'xrefs': st.lists(st.booleans(), min_size=2, max_size=3),
        'files': st.booleans(),
        'blocks': st.lists(st.fixed_dictionaries({
            'by': st.integers(0, 2), 'fail': st.booleans(),
            'cross': st.one_of(st.none(), st.tuples(
                st.integers(0, 2), st.integers(0, 2)).map(list)),
            'ops': st.lists(st.tuples(st.integers(0, 2), K, VALUES).map(list),
                            max_size=5)}), min_size=1, max_size=4)}),
        run_cross, quick=400, procs=8,
        rule='transactions over several databases of one registry; '
             'non-trivial = one that wrote to two of them'),
    Test('clients', lambda: st.fixed_dictionaries({
        'options': OPTIONS, 'shared': st.booleans(),
        'fill': st.lists(st.tuples(K, VALUES).map(list), max_size=4),
        'read_only': st.booleans(), 'cache file': st.booleans(),
        'name': st.sampled_from([None, 'nn']),
        'storage_cache': st.sampled_from([None, 1, 5])}), run_connect, quick=64, procs=8,
        rule='clients connecting with any options; non-trivial = two or '
             'more of them'),
]
