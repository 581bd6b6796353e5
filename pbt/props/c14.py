"""C14: condensing/resizing under a transaction manager keeps every object
readable in every committed state, and survives failures midway."""
import os

from hypothesis import strategies as st

import ZODB
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
import transaction

from core import Test, Violation, eq, must, outcome, require
from maps import KEYS, VALUES, crud
import citr
from citr import (CAP, Boom, container_map, contents_of, eq_map, visible)

from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

ID = 'C14'
LEVEL = 'exploration'
ASSUMPTIONS = ['one writer at a time; the states checked are those another '
               'connection could have read, one per committed transaction']
K = st.one_of(citr.FEWKEYS, KEYS)
MANAGERS = {'citrine': TransactionManager, 'thread': ThreadTransactionManager,
            'plain': transaction.TransactionManager}


class Failing(MappingStorage):
    """Refuses the n-th commit from when it is armed."""
    left = None

    def tpc_vote(self, transaction):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Boom('the storage refused the commit')
        return super().tpc_vote(transaction)


def run(case, ctx):
    groups = []
    for n, items in zip(case['sizes'], citr.fills(case)):
        g = Group.new(size=n, max_collection_size=case.get('max', 50))
        g.update(items)
        groups.append(g)
    container = Container(groups[0], tuple(groups), strict=case['strict'])
    storage = Failing()
    citr.install(storage, container=container)
    db = ZODB.DB(storage)
    ctx.defer(db.close)
    tm = MANAGERS[case['tm']]()
    conn = db.open(tm)
    c = conn.root.container
    seen = container_map(c)
    before = [contents_of(g) for g in c.groups]
    n_before = len(citr.tids(storage))
    tm.abort()
    total = sum(len(b) for b in before)
    if case['fail_at'] is not None:
        storage.left = case['fail_at']
    op = case['op']
    kw = {}
    if op['transfer'] is not None:
        kw['transfer'] = op['transfer']
    if op['name'] == 'resize':
        if op['condense'] is not None:
            kw['condense'] = op['condense']
        args = [max(total, 1) + op['delta']]
        kw['max_collection_size'] = op['cmax']
    else:
        args = []
    what = f'{op["name"]}({args}, {kw})'
    kind, val = outcome(getattr(c, op['name']), *args,
                        transaction_manager=tm, **kw)
    storage.left = None
    if kind == 'exc':
        if isinstance(val, Boom) and case['fail_at'] is not None:
            ctx.label('refused commit midway')
            tm.abort()
        elif isinstance(val, CAP) and case['strict']:
            ctx.label('refused by a strict limit')
            tm.abort()
        else:
            raise Violation(f'{what} raised {val!r}')
    # nothing is left uncommitted: what this connection sees is committed
    mine = container_map(c)
    mine_groups = [contents_of(g) for g in c.groups]
    eq_map(mine, seen, f'objects after {what}')
    tm.abort()
    eq([contents_of(g) for g in c.groups], mine_groups,
       f'group contents after {what} and dropping what was not committed')
    # every committed state along the way
    states = []
    moves = 0
    previous = None
    for tid in citr.tids(storage)[n_before - 1:]:
        at = db.open(transaction.TransactionManager(), at=tid)
        cc = at.root.container
        eq_map(container_map(cc), seen,
               f'a committed state during {what}')
        primary = contents_of(cc.primary)
        inner = {k for k in primary}
        if previous is not None and cc.primary._p_oid == previous[1]:
            added = inner - previous[0]
            moves += len(added)
            if len(added) > 1:
                raise Violation(f'one transaction of {what} moved '
                                f'{sorted(added)} together')
        previous = (inner, cc.primary._p_oid)
        states.append(len(inner))
        at.transaction_manager.abort()
        at.close()
    if kind == 'ok':
        condense = op['name'] == 'condense' or bool(op['condense'])
        transfer = op['transfer'] is not False
        fresh = op['name'] == 'resize'
        expect = len(before) + fresh
        if transfer:
            expect = 1 if condense else len(before)
        eq(len(c.groups), expect, f'groups after {what}')
        if fresh and not condense:
            keep = mine_groups[1:] if transfer else mine_groups[2:]
            eq(keep, before[1:], f'secondary groups after {what}')
            eq(mine_groups[0], before[0], f'primary group after {what}')
        elif condense:
            eq_map(mine_groups[0], seen, f'primary group after {what}')
    ctx.nontrivial(moves > 1)
    ctx.label('several objects moved', moves > 1)
    tm.abort()
    conn.close()
    follow(case, ctx, db, dict(seen), op, args, kw)


def follow(case, ctx, db, model, op, args, kw):
    """Whatever happened, the container works on like any other, and the
    operation can be done again."""
    for step in case['then']:
        tm = MANAGERS[case['tm']]()
        conn = db.open(tm)
        c = conn.root.container
        what = f'{step} after {op["name"]}({args}, {kw})'
        room = True
        try:
            if step[0] == 'again' and op['name'] == 'resize':
                args = [max(args[0], c.size)]
                c.resize(*args, transaction_manager=tm, **kw)
                require(c.capacity >= args[0],
                        lambda: f'a capacity of {c.capacity} {what}')
            elif step[0] == 'again':
                c.condense(*args, transaction_manager=tm, **kw)
                require(len(c.groups) == 1 or kw.get('transfer') is False,
                        lambda: f'{len(c.groups)} groups {what}')
            elif step[0] == 'condense':
                c.condense(transaction_manager=tm)
                require(len(c.groups) == 1,
                        lambda: f'{len(c.groups)} groups {what}')
            elif step[0] == 'resize':
                c.resize(c.size + 1, transaction_manager=tm)
            elif step[0] == 'write':
                c.write(step[1], 'later')
                tm.commit()
                model[step[1]] = 'later'
            else:
                crud(c, 'delete')(step[1])
                tm.commit()
                model.pop(step[1], None)
        except CAP as exc:
            tm.abort()
            room = False
            require(case['strict'], lambda: f'{what} raised {exc!r}')
        except Violation:
            raise
        except Exception as exc:
            raise Violation(f'{what} raised {exc!r}')
        if room:
            eq_map(container_map(c), model, f'objects: {what}')
        tm.abort()
        eq_map(container_map(c), model, f'committed objects: {what}')
        conn.close()
        at = db.open(transaction.TransactionManager())
        eq_map(container_map(at.root.container), model,
               f'objects another connection sees: {what}')
        at.close()


OP = st.fixed_dictionaries({
    'name': st.sampled_from(['condense', 'resize']),
    'transfer': st.sampled_from([True, False, None]),
    'condense': st.sampled_from([True, False, None]),
    'delta': st.integers(0, 40), 'cmax': st.sampled_from([3, 20, 50])})

CASES = lambda n: st.fixed_dictionaries({
    'sizes': st.lists(st.sampled_from([1, 2, 3]), min_size=n, max_size=n),
    'fill': st.lists(st.lists(st.tuples(K, VALUES).map(list), max_size=6),
                     min_size=n, max_size=n),
    'strict': st.sampled_from([False, False, True]),
    'tm': st.sampled_from(['citrine', 'thread', 'plain']),
    'fail_at': st.none() | st.integers(0, 12),
    'then': st.lists(st.one_of(
        st.sampled_from([['again'], ['again'], ['condense'], ['resize']]),
        st.tuples(st.sampled_from(['write', 'delete']), K).map(list)),
        max_size=4),
    'op': OP})

TESTS = [
    Test('steps', lambda: st.integers(1, 4).flatmap(CASES), run, quick=2500, procs=8,
         rule='condense/resize with each kind of transaction manager on 1-4 '
              'stored groups, optionally with the n-th commit refused, all '
              'committed states read back; non-trivial = two or more objects '
              'moved'),
    Test('many groups', lambda: citr.bulky(lambda n: CASES(n).map(
        lambda case: {**case, 'max': 200})), run, quick=100, procs=8,
        rule='the same on 1-9 groups of up to 150 ids each'),
]
