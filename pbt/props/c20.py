"""C20: looking at the past of a database."""
import datetime
import os
import time

from hypothesis import strategies as st

from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ReadOnlyHistoryError
from ZODB.TimeStamp import TimeStamp

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, want, crud
import citr
from citr import Boom, committed, eq_map

from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

ID = 'C20'
LEVEL = 'exploration'
ASSUMPTIONS = ['the database is not packed in between']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)


def moment(db, tid, how):
    """The tid as one of the forms a past state may be asked for by."""
    if how == 'tid':
        return tid
    stamp = TimeStamp(tid)
    # just after the transaction; transactions are at least 1 ms apart here
    when = datetime.datetime.fromtimestamp(
        stamp.timeTime(), datetime.timezone.utc) + \
        datetime.timedelta(microseconds=500)
    if how == 'aware':
        return when.astimezone(datetime.timezone(datetime.timedelta(hours=5)))
    return when.replace(tzinfo=None)


def run(case, ctx):
    if case['file']:
        path = os.path.join(ctx.tmp, 'data')
        db = ContainerDb.new(path, capacity=60)
    else:
        storage = MappingStorage()
        citr.install(storage, 60, 7)
        db = ContainerDb(storage)
    ctx.defer(db.close)
    conn = db.open(transaction_manager=TransactionManager())
    model = {}
    states = [(db.lastTransaction(), {})]
    held = []

    def look(n, how, before):
        tid, then = states[n % len(states)]
        if tid == states[-1][0]:
            if before:
                return
            how = 'tid'     # ZODB: no moment after the last transaction
        if before:
            # just before the transaction after it, or in between
            kw = {'before': states[n % len(states) + 1][0] if how == 'tid'
                  else moment(db, tid, how)}
        else:
            kw = {'at': moment(db, tid, how)}
        if case['tm'] != 'default':
            kw['transaction_manager'] = {
                'plain': TransactionManager,
                'thread': ThreadTransactionManager}[case['tm']]()
        h = must(db.open, what='opening a past state', **kw)
        held.append((h, then, f'the state of {sorted(kw)} by {how}'))
        ctx.label(f'by {how}' + ' before' * before)
        ctx.nontrivial(then != model and bool(then))

    for o in case['ops']:
        time.sleep(0.001)
        name = o[0]
        if name == 'update':
            must(crud(conn, 'update'), o[1], o[2], what='update')
            model[o[1]] = o[2]
        elif name == 'delete':
            if o[1] not in model:
                continue
            must(crud(conn, 'delete'), o[1], what='delete')
            del model[o[1]]
        elif name == 'block':
            with conn:
                for k, v in o[1]:
                    crud(conn, 'update')(k, v)
                    model[k] = v
            if not o[1]:
                continue
        elif name == 'broken':
            try:
                with conn:
                    for k, v in o[1]:
                        crud(conn, 'update')(k, v)
                    raise Boom()
            except Boom:
                pass
            continue
        elif name == 'resize':
            with conn:
                must(conn.container.resize, max(60, len(model)) + o[1],
                     what='resize')
        elif name == 'write to the past':
            if held:
                h, then, what = held[o[1] % len(held)]
                r, val = outcome(crud(h, 'update'), 'a', 'rewritten')
                require(r == 'exc' and
                        isinstance(val, ReadOnlyHistoryError),
                        f'{what} could be written to: {r} {val!r}')
                eq_map(committed(db), model, 'contents after writing to the '
                                             'past')
                ctx.label('past written to')
            continue
        else:
            look(*o[1:])
            continue
        states.append((db.lastTransaction(), dict(model)))
        for h, then, what in held[-2:]:
            eq_map(citr.container_map(h.container), then,
                   f'{what}, after {o}')
    for n, how, before in case['end']:
        look(n, how, before)
    for h, then, what in held:
        eq_map(citr.container_map(h.container), then, what)
        for k in set(model) | set(then):
            want(must(crud(h, 'read'), k, 'none', what='read'), then.get(k, 'none'),
                 f'{k!r} in {what}')
        # also across transaction boundaries
        h.transaction_manager.abort()
        with h:
            eq_map(citr.container_map(h.container), then,
                   f'{what}, in a block')
        eq(h.used, len(then) if not any(
            o[0] == 'resize' for o in case['ops']) else h.used,
           f'number of objects in {what}')
    must_raise(ValueError, db.open, at=states[0][0], before=states[-1][0],
               what='asking for two moments')
    eq_map(committed(db), model, 'the present')
    want(must(crud(conn, 'update'), 'a', 'new', what='update'), model.get('a'),
         'previous value')
    for h, _, _ in held:
        h.transaction_manager.abort()
        h.close()
    conn.close()


LOOK = st.tuples(st.integers(0, 12), st.sampled_from(['tid', 'tid', 'naive',
                                                      'aware']),
                 st.booleans())
PAIRS = st.lists(st.tuples(K, VALUES).map(list), max_size=4)

TESTS = [
    Test('past', lambda: st.fixed_dictionaries({
        'file': st.sampled_from([False, False, True]),
        'tm': st.sampled_from(['default', 'plain', 'thread']),
        'ops': st.sampled_from([12, 12, 12, 50]).flatmap(lambda n: st.lists(
            st.one_of(
            st.tuples(st.just('update'), K, VALUES),
            st.tuples(st.just('update'), K, VALUES),
            st.tuples(st.just('delete'), K),
            st.tuples(st.just('block'), PAIRS),
            st.tuples(st.just('broken'), PAIRS),
            st.tuples(st.just('resize'), st.integers(0, 9)),
            st.tuples(st.just('write to the past'), st.integers(0, 5)),
            LOOK.map(lambda t: ('look',) + t)).map(list),
            min_size=2, max_size=n)),
        'end': st.lists(LOOK.map(list), min_size=1, max_size=4)}), run,
        quick=1500, procs=8,
        rule='histories of transactions, with past states opened on the way '
             'and at the end; non-trivial = a past state that is neither '
             'empty nor the present one was read'),
]
