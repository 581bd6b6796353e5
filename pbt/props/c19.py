"""C19: clients of a served database share one consistent, durable map."""
import os

from hypothesis import strategies as st

import ZEO
from ZODB.FileStorage import FileStorage

from core import (HarnessError, Test, Violation, eq, must, must_raise,
                  outcome, require)
from maps import KEYS, VALUES, want, crud
import citr
from citr import Boom, committed, eq_map

from citrine.client.container_client import ContainerClient
from citrine.connection.container_connection import ContainerConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.transaction import TransactionManager

ID = 'C19'
LEVEL = 'exploration'
ASSUMPTIONS = ['loopback network; clients ask the server for its latest '
               'state when a transaction begins (server_sync)']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)


def run(case, ctx):
    path = os.path.join(ctx.tmp, 'served')
    # a server may serve several storages, by their names
    served = {case['storage']: path}
    others = ['1', 'two'] if case['several'] else []
    for n in others:
        if n != case['storage']:
            served[n] = path + n
            ContainerDb.create(path + n, capacity=50).close()
            db = ContainerDb(FileStorage(path + n))
            with db as conn:
                crud(conn, 'create')('whose', n)
            db.close()
    model = {}
    strict = case['strict']
    made = [None] if case['prepared'] else []
    if case['prepared']:
        ContainerDb.create(path, capacity=50, strict=strict).close()
    started = []

    def start():
        try:
            if case['storage'] == '1' and not case['several']:
                addr, stop = ZEO.server(path)
            else:
                addr, stop = ZEO.server(storage_conf=''.join(
                    f'<filestorage {n}>\n  path {p}\n</filestorage>\n'
                    for n, p in served.items()))
        except Exception as e:
            raise HarnessError(f'no server: {e!r}')
        started.append(stop)
        return addr

    def stop_all():
        for s in started:
            try:
                s()
            except Exception:
                pass
        started.clear()

    ctx.defer(stop_all)
    addr = start()
    clients = []

    def connect():
        # the container keeps what it was made with, whatever clients that
        # come later, or to a database that exists, would like
        asked = strict if not made else case['wishes'][
            len(made) % len(case['wishes'])]
        made.append(asked)
        ctx.label('another wish for strict', asked != strict)
        kw = {'strict': asked, 'server_sync': True, 'wait_timeout': 20}
        if case['storage'] != '1':
            kw['storage_type'] = case['storage']
        if case['named']:
            kw['database_name'] = 'remote'
        db = must(ContainerClient.connect, addr, None, what='connect', **kw)
        conn = db.open(transaction_manager=TransactionManager())
        require(isinstance(conn, ContainerConnection), 'connection class')
        eq(conn.strict, strict, 'strict')
        if case['named']:
            eq(db.database_name, 'remote', 'database name')
        clients.append((db, conn))

    def hang_up():
        for db, conn in clients:
            conn.transaction_manager.abort()
            conn.close()
            db.close()
        clients.clear()

    ctx.defer(hang_up)
    for _ in range(case['clients']):
        connect()
    writers = set()
    for o in case['ops']:
        if o['op'] == 'restart':
            hang_up()
            stop_all()
            addr = start()
            for _ in range(case['clients']):
                connect()
            ctx.label('server restarted')
        i = o['by'] % len(clients)
        db, conn = clients[i]
        k, v = o['key'], o['value']
        if o['op'] == 'create':
            if k in model:
                must_raise(ObjectOverwriteError, crud(conn, 'create'), k, v,
                           what='create over an existing id')
            else:
                must(crud(conn, 'create'), k, v, what='create')
                model[k] = v
                writers.add(i)
        elif o['op'] == 'update':
            want(must(crud(conn, 'update'), k, v, what='update'), model.get(k),
                 'previous value')
            model[k] = v
            writers.add(i)
        elif o['op'] == 'delete':
            got = must(crud(conn, 'delete'), k, what='delete')
            if k in model:
                want(tuple(got), (model.pop(k),), 'deleted')
        elif o['op'] in ('block', 'broken'):
            inner = dict(model)
            try:
                with conn:
                    for kk in (k, k + '1', k + '2'):
                        crud(conn, 'update')(kk, v)
                        inner[kk] = v
                    if o['op'] == 'broken':
                        raise Boom()
                model = inner
                writers.add(i)
            except Boom:
                pass
        for n, (db, conn) in enumerate(clients):
            with conn:
                eq_map(citr.container_map(conn.container), model,
                       f'what client {n} sees after {o}')
    hang_up()
    stop_all()
    db = must(ContainerDb, FileStorage(path), what='opening the served file')
    eq_map(committed(db), model, 'objects in the served file')
    with db as conn:
        eq(conn.strict, strict, 'strict in the served file')
    db.close()
    for n, p in served.items():
        if p != path:
            db = must(ContainerDb, FileStorage(p), what='opening the other')
            eq_map(committed(db), {'whose': n}, f'the other storage {n}')
            db.close()
            ctx.label('several storages')
    must_raise(NotImplementedError, ContainerClient.create, path,
               what='creating a local database through the client class')
    ctx.nontrivial(len(writers) > 1)


TESTS = [
    Test('served', lambda: st.fixed_dictionaries({
        'clients': st.integers(1, 3), 'named': st.booleans(),
        'storage': st.sampled_from(['1', '1', 'main']),
        'several': st.booleans(), 'prepared': st.booleans(), 'strict': st.booleans(),
        'wishes': st.lists(st.booleans(), min_size=1, max_size=4),
        'ops': st.lists(st.fixed_dictionaries({
            'op': st.sampled_from(['create', 'create', 'update', 'update',
                                   'delete', 'block', 'broken', 'restart']),
            'by': st.integers(0, 2), 'key': K, 'value': VALUES}),
            min_size=1, max_size=20)}), run, quick=160, procs=8,
        rule='operations by 1-3 clients of a served file, with server '
             'restarts; non-trivial = two clients wrote'),
]
