"""C21: connections that are opened, nested, shared by threads and reused."""
import queue
import threading

from hypothesis import strategies as st
from transaction.interfaces import TransientError

from core import HarnessError, Test, Violation, eq, must, outcome, require
from maps import KEYS, VALUES, want, crud
import citr
import interleave
from citr import Boom, committed, eq_map

from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

ID = 'C21'
LEVEL = 'exploration'
ASSUMPTIONS = ['the steps of the threads are interleaved one at a time; '
               'truly simultaneous commits are C12']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)


class Worker:
    """A thread that does one thing at a time."""

    def __init__(self):
        self.todo, self.done = queue.Queue(), queue.Queue()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()
        self.open = []

    def loop(self):
        while True:
            fn = self.todo.get()
            if fn is None:
                return
            try:
                self.done.put(('ok', fn()))
            except BaseException as e:
                self.done.put(('exc', e))

    def do(self, fn, what):
        self.todo.put(fn)
        try:
            kind, val = self.done.get(timeout=60)
        except queue.Empty:
            raise Violation(f'{what} does not come back')
        if kind == 'exc':
            if isinstance(val, Violation):
                raise val
            raise Violation(f'{what} raised {val!r}') from val
        return val


def exit_block(db, error):
    if error:
        e = Boom()
        return db.__exit__(Boom, e, None)
    return db.__exit__(None, None, None)


def manager(kind):
    return {'plain': TransactionManager, 'thread': ThreadTransactionManager,
            'default': lambda: None}[kind]()


def run(case, ctx):
    db = citr.mem_db(capacity=200, cmax=50)
    other = citr.mem_db(capacity=200, cmax=50)
    ctx.defer(db.close)
    ctx.defer(other.close)
    workers = [Worker() for _ in range(case['threads'])]
    ctx.defer(lambda: [w.todo.put(None) for w in workers])
    model = {}
    nested = 0
    everyone = []

    def fresh(conn, w, what):
        """A connection that was just handed out."""
        require(conn.opened is not None, f'{what}: not open')
        require(not any(conn is c for c in everyone),
                f'{what}: already in use elsewhere')
        require(w.do(lambda: conn.autocommit, what) is True,
                f'{what}: automatic commits are off')
        require(w.do(lambda: conn.transaction_manager.autocommit, what)
                is True, f'{what}: automatic commits of its manager are off')
        eq_map(w.do(lambda: citr.container_map(conn.container), what), model,
               f'contents of {what}')

    for o in case['ops']:
        name = o['op']
        w = workers[o['by'] % len(workers)]
        what = f'{name} by thread {o["by"] % len(workers)}'
        if name == 'enter':
            conn = w.do(db.__enter__, what)
            require(conn.db() is db, 'connection to another database')
            fresh(conn, w, what)
            w.open.append((conn, 'with'))
            everyone.append(conn)
            nested = max(nested, sum(len(x.open) for x in workers))
        elif name == 'open':
            tm = manager(o['tm'])
            conn = w.do(lambda: db.open(transaction_manager=tm), what)
            require(tm is None or conn.transaction_manager is tm,
                    'opened with another manager than the given one')
            fresh(conn, w, what)
            w.open.append((conn, 'open'))
            everyone.append(conn)
        elif not w.open:
            continue
        elif name == 'leave':
            conn, how = w.open.pop()
            everyone[:] = [c for c in everyone if c is not conn]
            pending = o['flag'] and how == 'with'
            if pending:
                # an error with changes pending discards them
                def go():
                    conn.autocommit = False
                    crud(conn, 'update')('pending', 1)
                w.do(go, 'writing without committing')
            if how == 'with':
                got = w.do(lambda: exit_block(db, pending or o['error']),
                           'leaving the block')
                require(not got, 'the error was swallowed')
            else:
                if o['flag']:
                    def go():
                        conn.autocommit = False
                        crud(conn, 'update')('pending', 1)
                        conn.transaction_manager.abort()
                    w.do(go, 'aborted work')
                w.do(conn.close, 'close')
            require(conn.opened is None, 'the connection is still open')
            ctx.label('pending work dropped', pending)
        else:
            conn, how = w.open[o['which'] % len(w.open)]

            def go():
                if name == 'update':
                    return crud(conn, 'update')(o['key'], o['value'])
                if name == 'delete':
                    return crud(conn, 'delete')(o['key'])
                if name == 'block':
                    with conn:
                        crud(conn, 'update')(o['key'], o['value'])
                        crud(conn, 'update')(o['key'] + '2', o['value'])
                else:
                    try:
                        with conn:
                            crud(conn, 'update')(o['key'], o['value'])
                            raise Boom()
                    except Boom:
                        pass
            w.do(go, what)
            if name == 'update':
                model[o['key']] = o['value']
            elif name == 'delete':
                model.pop(o['key'], None)
            elif name == 'block':
                model[o['key']] = o['value']
                model[o['key'] + '2'] = o['value']
        for x in workers:
            for conn, how in x.open:
                require(conn.opened is not None,
                        f'a connection in use was closed ({what})')
                eq_map(x.do(lambda: (conn.transaction_manager.begin(),
                                     citr.container_map(conn.container))[1],
                            'reading'), model,
                       f'contents seen by another connection after {what}')
        eq_map(committed(db), model, f'committed after {what}')
        eq_map(committed(other), {}, 'contents of another database')
    for w in workers:
        while w.open:
            conn, how = w.open.pop()
            if how == 'with':
                w.do(lambda: exit_block(db, False), 'leaving the last block')
            else:
                w.do(conn.close, 'close')
            require(conn.opened is None, 'still open at the end')
    require(all(d['opened'] is None for d in db.connectionDebugInfo()),
            'a connection was left open')
    ctx.nontrivial(nested > 1)


class Lane:
    """What one thread does with connections and keys of its own."""

    def __init__(self, db, me, steps, live):
        self.db, self.me, self.steps, self.live = db, me, steps, live
        self.model = {}
        self.conflicts = 0

    def __call__(self):
        for n, s in enumerate(self.steps):
            self.block(s, f'thread {self.me}, step {n} ({s["how"]})')

    def block(self, s, what):
        if s['how'] == 'open':
            conn = self.db.open(transaction_manager=manager(s['tm']))
            since = conn.opened
            try:
                self.use(conn, s, what)
            finally:
                conn.transaction_manager.abort()
                self.live.remove(conn)
                conn.close()
        else:
            try:
                with self.db as conn:
                    since = conn.opened
                    self.use(conn, s, what)
                    # from here on it may be somebody else's
                    self.live.remove(conn)
                    if s['how'] == 'fails':
                        raise Boom()
            except Boom:
                pass
        # another thread may have opened it again by now
        require(conn.opened is None or conn.opened != since,
                f'{what}: the connection is still open')

    def use(self, conn, s, what):
        require(conn.opened is not None, f'{what}: not open')
        require(not any(conn is c for c in self.live),
                f'{what}: the connection is in use elsewhere')
        self.live.append(conn)
        require(conn.autocommit is True and
                conn.transaction_manager.autocommit is True,
                f'{what}: automatic commits are off')
        for o in s['ops']:
            key = f'{self.me}/{o["key"]}'
            new = dict(self.model)
            if o['op'] == 'delete':
                new.pop(key, None)
            elif o['op'] != 'read':
                new[key] = o['value']
            if o['op'] == 'pair':
                new[key + '2'] = o['value']
            try:
                if o['op'] == 'update':
                    crud(conn, 'update')(key, o['value'])
                elif o['op'] == 'delete':
                    crud(conn, 'delete')(key)
                elif o['op'] == 'pair':
                    with conn:
                        crud(conn, 'update')(key, o['value'])
                        crud(conn, 'update')(key + '2', o['value'])
                self.model = new
            except TransientError:
                self.conflicts += 1
                conn.transaction_manager.abort()
            want(conn.read(key), self.model.get(key), f'{what}: {key}')
            if s['inner'] and o['op'] == 'update':
                self.block({**s, 'inner': False, 'how': 'with',
                            'ops': [{**o, 'key': o['key'] + 'i'}]},
                           what + ', inside')
                if not conn.transaction_manager.get()._resources:
                    conn.transaction_manager.begin()


def run_threads(case, ctx):
    db = citr.mem_db(capacity=400, cmax=case['cmax'])
    ctx.defer(db.close)
    live = Live()
    lanes = [Lane(db, i, steps, live)
             for i, steps in enumerate(case['threads'])]
    lock = db._lock
    got, turns = interleave.run(
        lanes, case['gaps'], held=lambda: lock._is_owned())
    if got is None:
        raise Violation('the threads do not come back')
    for i, (kind, e) in enumerate(got):
        if kind != 'ok':
            if isinstance(e, Violation):
                raise e
            raise Violation(f'thread {i} raised {e!r}') from e
    everything = {}
    for lane in lanes:
        everything.update(lane.model)
    eq_map(committed(db), everything, 'committed by all threads')
    require(all(d['opened'] is None for d in db.connectionDebugInfo()),
            'a connection was left open')
    require(not live.all, 'harness')
    ctx.nontrivial(turns.switches > 1)
    ctx.label('conflicts', sum(lane.conflicts for lane in lanes))
    ctx.label('blocked', turns.stuck)


class Live:
    """connections in use, by identity"""

    def __init__(self):
        self.all = []

    def __iter__(self):
        return iter(list(self.all))

    def append(self, conn):
        self.all.append(conn)

    def remove(self, conn):
        self.all[:] = [c for c in self.all if c is not conn]


OP = st.fixed_dictionaries({
    'op': st.sampled_from(['enter', 'enter', 'enter', 'open', 'leave',
                           'leave', 'update', 'delete', 'block', 'broken']),
    'by': st.integers(0, 2), 'which': st.integers(0, 3) | st.integers(0, 12),
    'tm': st.sampled_from(['plain', 'thread', 'default']),
    'flag': st.booleans(), 'error': st.booleans(), 'key': K, 'value': VALUES})

STEP = st.fixed_dictionaries({
    'how': st.sampled_from(['with', 'with', 'with', 'fails', 'open']),
    'tm': st.sampled_from(['plain', 'thread', 'default']),
    'inner': st.booleans(),
    'ops': st.lists(st.fixed_dictionaries({
        'op': st.sampled_from(['update', 'update', 'pair', 'delete', 'read']),
        'key': st.sampled_from(['a', 'b', 'c']), 'value': VALUES}),
        max_size=3)})


TESTS = [
    Test('pool', lambda: st.fixed_dictionaries({
        'threads': st.integers(1, 3),
        'ops': st.lists(OP, min_size=3, max_size=16) | st.lists(
            OP, min_size=3, max_size=16) | st.lists(OP, min_size=16, max_size=60)
        }), run, quick=1500,
        procs=6,
        rule='connections opened, nested by "with db", used and closed by '
             'up to three threads in any interleaving; non-trivial = two '
             'blocks were open at once'),
    Test('threads', lambda: st.fixed_dictionaries({
        'cmax': st.sampled_from([5, 50]),
        'threads': st.lists(st.lists(STEP, min_size=1, max_size=3),
                            min_size=2, max_size=3),
        'gaps': st.lists(interleave.gap(800), min_size=2, max_size=30)}),
        run_threads, quick=1000, procs=8,
        rule='two or three threads with connections and keys of their own, '
             'the turn passing between any two bytecodes; non-trivial = it '
             'passed more than once'),
]
