"""C13: after a crash at any byte, the database file holds exactly what some
prefix of the completed transactions left."""
import os
import shutil

from hypothesis import strategies as st

from core import Test, Violation, eq, must, outcome, require
from maps import KEYS, VALUES, want, crud
import citr
from citr import Boom, committed, eq_map

from ZODB.FileStorage import FileStorage
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import TransactionManager

ID = 'C13'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'a crash leaves a prefix of the bytes written to the data file; the '
    'index and lock files are absent or stale',
    'the device does not reorder or corrupt what it has acknowledged']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)


def apply(conn, model, o):
    name, k = o[0], o[1]
    if name == 'resize':
        c = conn.container
        c.resize(c.size + 1 + len(k), condense=o[2], transfer=o[3])
    elif name == 'delete':
        crud(conn, 'delete')(k)
        model.pop(k, None)
    else:
        crud(conn, 'update')(k, o[2])
        model[k] = o[2]


def history(db, blocks, path, model):
    """Runs the blocks; returns [(file size, mapping)] after each commit."""
    marks = [(os.path.getsize(path), dict(model))]
    conn = db.open(transaction_manager=TransactionManager())
    for b in blocks:
        if b['kind'] == 'auto':
            for o in b['ops']:
                if o[0] == 'resize':
                    with conn:
                        apply(conn, model, o)
                else:
                    apply(conn, model, o)
                marks.append((os.path.getsize(path), dict(model)))
        elif b['kind'] == 'block':
            with conn:
                for o in b['ops']:
                    apply(conn, model, o)
            marks.append((os.path.getsize(path), dict(model)))
        else:
            inner = dict(model)
            try:
                with conn:
                    for o in b['ops']:
                        apply(conn, inner, o)
                    raise Boom()
            except Boom:
                pass
            marks.append((os.path.getsize(path), dict(model)))
    conn.close()
    return marks


def expected(marks, size):
    out = None
    for mark, m in marks:
        if mark <= size:
            out = m
    return out


def run(case, ctx):
    path = os.path.join(ctx.tmp, 'data')
    how = case['how']
    model = {}
    if case['layers']:
        storage = FileStorage(path)
        container, model = citr.layered(case['layers'])
        citr.install(storage, container=container)
        db = ContainerDb(storage)
        ctx.label('several groups')
    elif how == 'new':
        db = ContainerDb.new(path, capacity=case['capacity'])
    elif how == 'create+load':
        db = ContainerDb.load(ContainerDb.create(path,
                                                 capacity=case['capacity']))
    else:
        db = ContainerDb(path)
    marks = history(db, case['blocks'], path, model)
    # every state the file ever went through is one of the completed ones
    allowed = [m for _, m in marks]
    pos = 0
    for tid in citr.tids(db.storage):
        kind, got = outcome(committed, db, at=tid)
        if kind == 'exc':
            require(pos == 0, f'an intermediate state is unreadable: {got!r}')
            continue
        found = next((i for i in range(pos, len(allowed))
                      if allowed[i] == got), None)
        if found is None:
            raise Violation(f'the file went through {got!r}, which is not '
                            f'the result of any completed transaction')
        pos = found
    db.close()
    data = open(path, 'rb').read()
    first = marks[0][0]
    for cut in case['cuts']:
        size = first + cut % (len(data) - first + 1)
        if case['near'] is not None and len(marks) > 1:
            # just around the end of a transaction
            m = marks[cut % len(marks)][0]
            size = min(max(first, m + case['near']), len(data))
        want_map = expected(marks, size)
        where = os.path.join(ctx.tmp, f'crash-{cut}')
        os.mkdir(where)
        crashed = os.path.join(where, 'data')
        with open(crashed, 'wb') as f:
            f.write(data[:size])
        if case['stale_index'] and os.path.exists(path + '.index'):
            shutil.copy(path + '.index', crashed + '.index')
        db = must(ContainerDb, crashed if case['by_path']
                  else FileStorage(crashed), what='reopening after a crash')
        try:
            eq_map(committed(db), want_map,
                   f'objects after a crash at byte {size} of {len(data)}')
            conn = db.open(transaction_manager=TransactionManager())
            must(crud(conn, 'update'), 'after', 1, what='writing after a crash')
            must(crud(conn, 'delete'), 'after', what='deleting after a crash')
            conn.close()
            want_map = {k: v for k, v in want_map.items() if k != 'after'}
        finally:
            db.close()
        db = must(ContainerDb, crashed, what='reopening')
        eq_map(committed(db), want_map, 'objects after recovery and reopening')
        db.close()
        torn = all(size != m for m, _ in marks)
        ctx.nontrivial(torn and size > first)
        ctx.label('torn transaction', torn)
        shutil.rmtree(where)


def run_reopen(case, ctx):
    """Closing and reopening, possibly many times, keeps everything."""
    path = os.path.join(ctx.tmp, 'data')
    model = {}
    for i, blocks in enumerate(case['sessions']):
        if i == 0 and case['how'] == 'new':
            db = ContainerDb.new(path, capacity=50)
        elif case['how'] == 'storage':
            db = ContainerDb(FileStorage(path))
        elif case['how'] == 'load':
            db = ContainerDb.load(path)
        else:
            db = ContainerDb(path)
        eq_map(committed(db), model, f'objects at the start of session {i}')
        history(db, blocks, path, model)
        eq_map(committed(db), model, f'objects at the end of session {i}')
        if case['pack']:
            db.pack()
        db.close()
    db = must(ContainerDb, path, what='reopening')
    eq_map(committed(db), model, 'objects at the end')
    db.close()
    ctx.nontrivial(len(case['sessions']) > 1 and bool(model))


OP = st.one_of(st.tuples(st.just('update'), K, VALUES),
               st.tuples(st.just('update'), K, VALUES),
               st.tuples(st.just('update'), K, VALUES),
               st.tuples(st.just('delete'), K),
               st.tuples(st.just('delete'), K),
               st.tuples(st.just('resize'), K, st.booleans(),
                         st.booleans())).map(list)
BLOCK = st.fixed_dictionaries({
    'kind': st.sampled_from(['auto', 'block', 'block', 'aborted']),
    'ops': st.lists(OP, min_size=1, max_size=4)})
BLOCKS = st.lists(BLOCK, min_size=1, max_size=5) | st.lists(
    BLOCK, min_size=1, max_size=5) | st.lists(BLOCK, min_size=5, max_size=25)

TESTS = [
    Test('crash', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(['new', 'create+load', 'path']),
        'capacity': st.sampled_from([1, 10, 100]),
        'layers': citr.SOME_LAYERS,
        'blocks': BLOCKS, 'by_path': st.booleans(),
        'stale_index': st.sampled_from([False, False, True]),
        'near': st.none() | st.none() | st.integers(-9, 9),
        'cuts': st.lists(st.integers(0, 10**6), min_size=1, max_size=4,
                         unique=True)}),
        run, quick=700, procs=8,
        rule='a history of blocks and automatic commits on a real file, then '
             'the file cut at chosen bytes and reopened; non-trivial = a cut '
             'in the middle of a transaction'),
    Test('reopen', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(['new', 'storage', 'load', 'path']),
        'pack': st.booleans(),
        'sessions': st.lists(BLOCKS, min_size=1, max_size=7)}),
        run_reopen, quick=500, procs=8,
        rule='several sessions on one file; non-trivial = two or more, with '
             'something stored'),
]
