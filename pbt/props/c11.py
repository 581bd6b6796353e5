"""C11: a transaction block is all or nothing, and what is outside a block is
committed at once; failures leave the connection usable."""
import asyncio
import queue
import threading

from hypothesis import strategies as st

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, want, crud
import citr
from citr import BaseBoom, Boom, committed, eq_map

from ZODB.POSException import ConflictError
from transaction.interfaces import TransientError

from citrine.connection.container_connection import ContainerConnection
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

ID = 'C11'
LEVEL = 'exploration'
ASSUMPTIONS = ['in-memory storage; crash consistency on disk is C13',
               'a block that ends leaves automatic commits on, as before it']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, citr.FEWKEYS, KEYS)


def manager(kind):
    return {'plain': TransactionManager, 'thread': ThreadTransactionManager,
            'default': lambda: None}[kind]()


class Odd(Exception):
    """An error that counts as false, and as equal to anything."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


class Wordless(Exception):

    def __str__(self):
        return ''


ERRORS = [lambda: Boom('x'), lambda: Boom('x'), KeyError, ValueError,
          StopIteration, Odd, Wordless, lambda: ConflictError('x'),
          lambda: ObjectOverwriteError(id='x'), TransientError,
          lambda: ExceptionGroup('several', [Boom('x')])]
BASE_ERRORS = [lambda: BaseBoom('x'), GeneratorExit, KeyboardInterrupt,
               SystemExit, lambda: SystemExit(0), asyncio.CancelledError]


def apply(conn, model, o, ctx):
    """One operation; returns after checking its own result."""
    name, k = o[0], o[1]
    if name == 'create':
        if k in model:
            must_raise(ObjectOverwriteError, crud(conn, 'create'), k, o[2],
                       what='create over an existing id')
        else:
            must(crud(conn, 'create'), k, o[2], what='create')
            model[k] = o[2]
    elif name == 'update':
        want(must(crud(conn, 'update'), k, o[2], what='update'), model.get(k),
             f'previous value of {k!r}')
        model[k] = o[2]
    elif name == 'delete':
        got = must(crud(conn, 'delete'), k, what='delete')
        if k in model:
            want(tuple(got)[:1], (model.pop(k),), 'deleted')
        else:
            require(not got, f'delete of absent id returned {got!r}')
    elif name == 'resize':
        c = conn.container
        must(c.resize, c.size + 1 + len(k), condense=o[2], transfer=o[3],
             what='resizing')
        ctx.label('resized in a block')
    elif name == 'miss':
        # an error that is dealt with is no reason to give up the block
        if k not in model:
            for fn in (lambda: conn[k], lambda: conn[[k]],
                       lambda: conn.container.primary.pop(k)):
                r, val = outcome(fn)
                require(r == 'exc' and isinstance(val, KeyError),
                        f'access to the absent {k!r}: {r} {val!r}')
    else:
        want(must(crud(conn, 'read'), k, 'none', what='read'), model.get(k, 'none'),
             f'read({k!r})')


def world(case, ctx):
    """A database, and what it contains."""
    if case['layers']:
        container, model = citr.layered(case['layers'])
        db = citr.mem_db(container=container)
        ctx.label('several groups')
    else:
        model = {}
        db = citr.mem_db(capacity=500, cmax=100)
    ctx.defer(db.close)
    return db, model


def run(case, ctx):
    db, model = world(case, ctx)
    conn = db.open(transaction_manager=manager(case['tm']))
    rolled_back = done = 0
    for block in case['blocks']:
        kind, ops = block['kind'], block['ops']
        if kind == 'auto':
            for o in ops:
                if o[0] == 'resize':
                    with conn:
                        apply(conn, model, o, ctx)
                else:
                    apply(conn, model, o, ctx)
                eq_map(committed(db), model, f'committed after {o}')
            continue
        if kind == 'auto bad':
            # a value that cannot be stored
            for o in ops:
                k = o[1]
                if o[0] == 'resize':
                    continue
                existed = k in model
                fn = crud(conn, 'update' if existed or o[0] != 'create'
                          else 'create')
                r, val = outcome(fn, k, citr.unpicklable())
                require(r == 'exc', 'an unstorable value was accepted')
                require(not isinstance(val, ObjectOverwriteError),
                        f'create of an absent id: {val!r}')
                rolled_back += 1
                ctx.label('failed autocommit')
                eq_map(citr.container_map(conn.container), model,
                       f'contents after a failed {fn.__name__}({k!r})')
                eq_map(committed(db), model, 'committed after a failure')
            continue
        inner = dict(model)
        error = None
        if kind == 'raise':
            error = ERRORS[block['error'] % len(ERRORS)]()
        elif kind == 'base':
            error = BASE_ERRORS[block['error'] % len(BASE_ERRORS)]()
        caught = None
        try:
            with (conn if case['by_conn'] else conn.transaction_manager):
                for i, o in enumerate(ops):
                    if error is not None and i == block['at'] % len(ops):
                        raise error
                    apply(conn, inner, o, ctx)
                    if case['watch']:
                        eq_map(committed(db), model,
                               'what others see inside a block')
                        want(conn.read(o[1], 'none'),
                             inner.get(o[1], 'none'),
                             'own write inside the block')
                if kind == 'bad':
                    crud(conn, 'update')(ops[-1][1], citr.unpicklable())
                if kind == 'dup':
                    k = next(iter(inner), None)
                    if k is None:
                        crud(conn, 'create')('dup', 1)
                        k = 'dup'
                    crud(conn, 'create')(k, 2)
        except Violation:
            raise
        except BaseException as e:
            if e is not error and not isinstance(e, Exception):
                raise
            caught = e
        if kind == 'ok':
            if caught is not None:
                raise Violation(f'the block could not be committed: '
                                f'{caught!r}')
            model = inner
            done += len(ops) > 1
        else:
            rolled_back += inner != model
            ctx.label(f'rolled back ({kind})')
            if caught is None:
                raise Violation(f'the {kind} error did not leave the block')
            if error is not None and caught is not error:
                raise Violation(f'the block raised {caught!r} instead of the '
                                f'error inside it')
            if kind == 'dup':
                require(isinstance(caught, ObjectOverwriteError),
                        f'create over an existing id raised {caught!r}')
        require(conn.transaction_manager.autocommit,
                f'automatic commits are off after a {kind} block')
        eq_map(citr.container_map(conn.container), model,
               f'own view after a {kind} block')
        eq_map(committed(db), model, f'committed after a {kind} block')
        if case['direct']:
            # what follows needs no new transaction
            k = ops[0][1]
            must(crud(conn.container, 'write'), k, kind,
                 what=f'writing after a {kind} block')
            must(conn.transaction_manager.commit,
                 what=f'committing after a {kind} block')
            model[k] = kind
            eq_map(committed(db), model,
                   f'committed by hand after a {kind} block')
    # the connection still works
    must(crud(conn, 'update'), 'final', 1, what='update after everything')
    model['final'] = 1
    eq_map(committed(db), model, 'committed at the end')
    conn.close()
    ctx.nontrivial(rolled_back > 0)
    ctx.label('committed block of several operations', done > 0)


def run_suspended(case, ctx):
    """Blocks inside generators, advanced in any order, finished or closed."""
    db, model = world(case, ctx)
    left = 0

    def work(conn, tm, ops, view):
        with (conn if case['by_conn'] else tm):
            view.clear()
            view.update(model)
            for o in ops:
                apply(conn, view, o, ctx)
                yield
    for block in case['blocks']:
        conn = db.open(transaction_manager=manager(case['tm']))
        view = {}
        gen = work(conn, conn.transaction_manager, block['ops'], view)
        ended = False
        for _ in range(block['steps']):
            if next(gen, gen) is gen:
                ended = True
                break
            eq_map(committed(db), model, 'committed while suspended')
        if ended:
            model = dict(view)
        elif block['how'] == 'close':
            gen.close()
            left += block['steps'] > 0 and view != model
        else:
            error = BASE_ERRORS[block['error'] % len(BASE_ERRORS)]()
            try:
                gen.throw(error)
            except BaseException as e:
                if e is not error:
                    raise
            left += block['steps'] > 0 and view != model
        eq_map(citr.container_map(conn.container), model,
               f'own view after {block["how"]}')
        eq_map(committed(db), model, f'committed after {block["how"]}')
        must(crud(conn, 'update'), 'after', len(model), what='update afterwards')
        model['after'] = len(model)
        eq_map(committed(db), model, 'committed after the next update')
        conn.close()
    ctx.nontrivial(left > 0)


def run_manual(case, ctx):
    """Automatic commits switched off: nothing is stored until commit()."""
    db, model = world(case, ctx)
    tm = manager(case['tm']) or ThreadTransactionManager()
    if case['how'] == 'attribute':
        conn = db.open(transaction_manager=tm)
        conn.autocommit = False
        eq(conn.autocommit, False, 'autocommit')
    else:
        conn = ContainerConnection(db, transaction_manager=tm,
                                   autocommit=False)
        eq(conn.autocommit, False, 'autocommit')
    pending = dict(model)
    discarded = 0
    for o in case['ops']:
        if o[0] == 'commit':
            must(tm.commit, what='commit')
            model = dict(pending)
        elif o[0] == 'abort':
            must(tm.abort, what='abort')
            discarded += pending != model
            pending = dict(model)
        else:
            apply(conn, pending, o, ctx)
        eq_map(committed(db), model, f'committed after {o}')
        eq_map(citr.container_map(conn.container), pending,
               f'own view after {o}')
    if case['block']:
        # what was pending may be kept or dropped when a block is entered,
        # but entering one is no commit, and the block is all or nothing
        start = None
        try:
            with (conn if case['how'] == 'attribute' else tm):
                eq_map(committed(db), model, 'committed on entering a block')
                start = citr.container_map(conn.container)
                kept, _ = outcome(eq_map, start, pending, '')
                eq_map(start, pending if kept == 'ok' else model,
                       'own view on entering a block')
                must(crud(conn, 'update'), 'in block', 1, what='update')
                if case['block'] == 'raise':
                    raise Boom()
        except Boom:
            require(case['block'] == 'raise', 'unexpected error')
        if case['block'] == 'ok':
            model = dict(start)
            model['in block'] = 1
        eq_map(committed(db), model, f'committed after a {case["block"]} '
                                     f'block')
        ctx.label('block with work pending', pending != model)
        tm.abort()
    if case['back_on']:
        tm.abort()
        conn.autocommit = True
        must(crud(conn, 'update'), 'on', 1, what='update')
        model['on'] = 1
        eq_map(committed(db), model, 'committed with autocommit back on')
    ctx.nontrivial(discarded > 0)
    tm.abort()
    if case['how'] == 'attribute':
        conn.close()


class Synch:
    """Told of each transaction; fails when it is to."""
    fail = None

    def newTransaction(self, txn):
        self.step('begin')

    def beforeCompletion(self, txn):
        self.step('end')

    def afterCompletion(self, txn):
        pass

    def step(self, when):
        if self.fail is not None and self.fail[0] == when:
            error, self.fail = self.fail[1], None
            raise error


def run_unbegun(case, ctx):
    """Transactions that fail as they begin, or before anything is stored."""
    db, model = world(case, ctx)
    conn = db.open(transaction_manager=manager(case['tm']))
    tm = conn.transaction_manager
    tm.explicit = case['explicit']
    synch = Synch()
    tm.registerSynch(synch)
    lost = 0
    for step in case['steps']:
        o, how = step['op'], step['how']
        block = step['block'] or o[0] == 'resize'
        error = ERRORS[step['error'] % len(ERRORS)]()
        before = dict(model)
        if how == 'open' and not case['explicit']:
            how = 'begin'
        if how == 'open':
            # already in a transaction
            must(tm.begin, what='begin')
        elif how != 'ok':
            synch.fail = (how, error)

        def work():
            if block:
                with (conn if case['by_conn'] else tm):
                    apply(conn, model, o, ctx)
            elif o[0] in ('create', 'update', 'delete'):
                # (a read begins nothing)
                crud(conn, o[0])(*o[1:])
        caught = None
        try:
            if how == 'ok':
                apply(conn, model, o, ctx) if not block else work()
            else:
                work()
        except Violation:
            raise
        except Exception as e:
            caught = e
        if how == 'ok':
            require(caught is None, lambda: f'{o} after {case["steps"]}: '
                    f'{caught!r}')
        else:
            idle = not block and o[0] not in ('create', 'update', 'delete')
            if idle:
                require(caught is None, lambda: f'{o}: {caught!r}')
            else:
                require(caught is not None,
                        f'{o} where the transaction fails to {how}: no error')
            # two errors at once: either may be reported
            twice = o[0] == 'create' and o[1] in before
            if not idle and how != 'open' and not twice:
                require(caught is error, lambda: f'raised {caught!r} instead '
                        f'of {error!r}')
            synch.fail = None
            lost += not idle
            model = before
            if how == 'open' or (how == 'begin' and not idle
                                 and case['explicit']):
                # (an explicit manager leaves this to its user)
                must(tm.abort, what='abort')
            ctx.label(f'failed to {how}', not idle)
        eq(conn.autocommit, True, f'autocommit after {step}')
        eq_map(committed(db), model, f'committed after {step}')
        eq_map(citr.container_map(conn.container), model,
               f'own view after {step}')
    must(crud(conn, 'update'), 'final', 1, what='update after everything')
    model['final'] = 1
    eq_map(committed(db), model, 'committed at the end')
    tm.unregisterSynch(synch)
    conn.close()
    ctx.nontrivial(lost > 0)


class Worker:
    """A thread that does what it is told, one thing after another."""

    def __init__(self):
        self.todo, self.done = queue.SimpleQueue(), queue.SimpleQueue()
        self.thread = threading.Thread(target=self.work, daemon=True)
        self.thread.start()

    def work(self):
        while (fn := self.todo.get()) is not None:
            try:
                self.done.put((fn(), None))
            except BaseException as e:
                self.done.put((None, e))

    def __call__(self, fn):
        self.todo.put(fn)
        value, error = self.done.get()
        if error is not None:
            raise error
        return value

    def stop(self):
        self.todo.put(None)
        self.thread.join()


def run_shared(case, ctx):
    """Threads that use one manager, each with a connection of its own."""
    db, model = world(case, ctx)
    tm = ThreadTransactionManager()
    workers = [Worker() for _ in range(case['threads'])]
    for w in workers:
        ctx.defer(w.stop)
    conns = [w(lambda: db.open(transaction_manager=tm)) for w in workers]
    blocks, commits, beside = {}, 0, 0
    for step in case['steps']:
        t = step['who'] % len(workers)
        w, conn, o = workers[t], conns[t], step['op']
        beside += bool(set(blocks) - {t})
        if step['what'] == 'turn':
            if t not in blocks:
                w((conn if case['by_conn'] else tm).__enter__)
                blocks[t] = (dict(model), dict(model), commits)
            else:
                before, own, since = blocks.pop(t)
                error = step['error']
                try:
                    w(lambda: (conn if case['by_conn'] else tm).__exit__(
                        *((Boom, Boom('x'), None) if error
                          else (None, None, None))))
                except ConflictError:
                    require(commits > since and own != before and not error,
                            f'thread {t} met a conflict where there is none')
                    ctx.label('conflict')
                else:
                    if not error:
                        for k in {*before, *own}:
                            if k not in own:
                                model.pop(k, None)
                            elif k not in before or before[k] is not own[k]:
                                model[k] = own[k]
                        commits += 1
        elif o[0] == 'resize' or (t not in blocks and o[0] not in (
                'create', 'update', 'delete')):
            # (a read outside a block begins no transaction)
            continue
        elif t in blocks:
            w(lambda: apply(conn, blocks[t][1], o, ctx))
            eq_map(w(lambda: citr.container_map(conn.container)),
                   blocks[t][1], f'what thread {t} sees in its block')
        else:
            w(lambda: apply(conn, model, o, ctx))
            commits += 1
        eq_map(committed(db), model, f'committed after {step}')
    for t in list(blocks):
        workers[t](lambda: conns[t].__exit__(Boom, Boom('x'), None))
    for t, (w, conn) in enumerate(zip(workers, conns)):
        must(w, lambda: crud(conn, 'update')(f'final {t}', t),
             what='update after everything')
        model[f'final {t}'] = t
        eq_map(committed(db), model, 'committed at the end')
        w(conn.close)
    ctx.nontrivial(beside > 1)


OP = st.one_of(
    st.tuples(st.just('create'), K, VALUES),
    st.tuples(st.just('update'), K, VALUES),
    st.tuples(st.just('update'), K, VALUES),
    st.tuples(st.just('delete'), K),
    st.tuples(st.sampled_from(['read', 'read', 'miss']), K)).map(list)
RESIZE = st.tuples(st.just('resize'), K, st.booleans(), st.booleans()).map(
    list)
OPS = st.one_of(OP, OP, OP, OP, OP, OP, OP, OP, RESIZE)
LAYERS = citr.SOME_LAYERS


def cases(blocks=6, most=5):
    return st.fixed_dictionaries({
        'tm': st.sampled_from(['plain', 'thread', 'default']),
        'layers': LAYERS,
        'by_conn': st.sampled_from([True, True, False]),
        'watch': st.booleans(), 'direct': st.booleans(),
        'blocks': st.lists(st.fixed_dictionaries({
            'kind': st.sampled_from(['ok', 'ok', 'auto', 'raise', 'base', 'bad',
                                     'dup', 'auto bad']),
            'at': st.integers(0, 7), 'error': st.integers(0, 10),
            'ops': st.lists(OPS, min_size=1, max_size=most)}),
            min_size=1, max_size=blocks)})


MANUAL = st.fixed_dictionaries({
    'tm': st.sampled_from(['plain', 'thread', 'default']),
    'layers': LAYERS,
    'how': st.sampled_from(['attribute', 'constructor']),
    'block': st.sampled_from([None, 'ok', 'raise']),
    'back_on': st.booleans(),
    'ops': st.lists(st.one_of(OPS, OPS, OPS, st.sampled_from(
        [['commit'], ['abort'], ['abort']])), min_size=3, max_size=14) | st.lists(
            OPS | st.sampled_from([['commit'], ['abort']]), min_size=14,
            max_size=60)})

SUSPENDED = st.fixed_dictionaries({
    'tm': st.sampled_from(['plain', 'thread', 'default']),
    'layers': LAYERS,
    'by_conn': st.booleans(),
    'blocks': st.lists(st.fixed_dictionaries({
        'how': st.sampled_from(['close', 'throw']),
        'error': st.integers(0, 10), 'steps': st.integers(0, 5),
        'ops': st.lists(OPS, min_size=1, max_size=4)}),
        min_size=1, max_size=4)})

UNBEGUN = st.fixed_dictionaries({
    'tm': st.sampled_from(['plain', 'thread', 'default']),
    'layers': LAYERS, 'explicit': st.booleans(), 'by_conn': st.booleans(),
    'steps': st.lists(st.fixed_dictionaries({
        'op': OPS, 'block': st.booleans(), 'error': st.integers(0, 10),
        'how': st.sampled_from(['ok', 'ok', 'begin', 'begin', 'end',
                                'open'])}), min_size=1, max_size=6)})

SHARED = st.fixed_dictionaries({
    'layers': LAYERS, 'threads': st.integers(2, 4),
    'by_conn': st.booleans(),
    'steps': st.lists(st.fixed_dictionaries({
        'who': st.integers(0, 3), 'op': OPS, 'error': st.sampled_from(
            [False, False, True]),
        'what': st.sampled_from(['turn', 'op', 'op'])}), min_size=2,
        max_size=14)})

TESTS = [
    Test('one manager, several threads', lambda: SHARED, run_shared,
         quick=800, procs=8,
         rule='blocks and automatic operations of 2-4 threads that share a '
              'manager, taking turns; non-trivial = two or more steps while '
              'another thread is in a block'),
    Test('failing transactions', lambda: UNBEGUN, run_unbegun, quick=1000,
         procs=8, rule='blocks and automatic operations whose transaction '
         'fails as it begins, as it ends, or because another is open; '
         'non-trivial = one of them did'),
    Test('suspended', lambda: SUSPENDED, run_suspended, quick=1200, procs=8,
         rule='blocks in generators that are run to the end, closed or ended '
              'by an error thrown into them; non-trivial = one with changes '
              'was left'),
    Test('blocks', cases, run, quick=3000, procs=8,
         rule='sequences of transaction blocks and automatic operations, '
              'some broken off by an exception, a duplicate id or a value '
              'that cannot be stored; non-trivial = changes were rolled '
              'back'),
    Test('many blocks', lambda: cases(30, 9), run, quick=200, procs=8,
         rule='up to thirty blocks of up to nine operations; non-trivial as '
              'above'),
    Test('manual', lambda: MANUAL, run_manual, quick=1500, procs=6,
         rule='automatic commits off, explicit commit/abort; non-trivial = '
              'an abort discarded changes'),
]
