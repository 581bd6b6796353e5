"""Several connections of one database, their transactions interleaved
operation by operation, against a model that commits one at a time."""
import itertools

from hypothesis import strategies as st

import citr
from citr import CAP, committed, container_map, eq_map, visible
from core import Violation, eq, must, outcome, require
from maps import want, crud

from ZODB.DemoStorage import DemoStorage
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.container import Container
from citrine.storage.group import Group, get_group_index
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

K = st.sampled_from(['a', 'b', 'c', 'd', 'aa', 'é', '', 'k1', 'f3', 'f40'])
MANAGERS = {'plain': lambda: {'transaction_manager': TransactionManager()},
            'thread': lambda: {
                'transaction_manager': ThreadTransactionManager()},
            'default': dict}


class Stepping(TransactionManager):
    """Lets the others act around and within each of its transactions."""
    world = None

    def begin(self):
        self.world.gap()
        txn = super().begin()
        self.since = len(self.world.commits)
        if self.active:
            txn.addBeforeCommitHook(self.world.gap)
            txn.addAfterCommitHook(self.after)
        return txn

    active = False

    def after(self, ok):
        if ok and self.active:
            self.world.stepped()


class Ended(Exception):
    """The rest of the history depends on a known finding."""


def changed(c):
    """Whether the transaction has changed contents of the container."""
    for g in c.groups:
        for col in g.collections:
            node, nodes = col.tree._firstbucket, [col.tree]
            while node is not None:
                nodes.append(node)
                node = node._next
            if any(n._p_changed for n in nodes):
                return True
    return False


class World:

    def __init__(self, case, ctx):
        self.ctx, self.case = ctx, case
        groups = []
        for gi, spec in enumerate(case['groups']):
            g = Group.new(size=spec['size'],
                          max_collection_size=spec.get('cap', 300))
            pairs = {f'f{i}': f'filler {gi}.{i}'
                     for i in range(spec.get('filler', 0))}
            pairs.update({k: f'base {gi} {k}' for k in spec['keys']})
            g.update(pairs)
            groups.append(g)
        self.strict = case.get('strict', False)
        c = Container(groups[0], tuple(groups), strict=self.strict)
        self.over = self.overfull(c)
        kind = case['storage']
        storage = (MappingStorage() if kind == 'mapping' else
                   DemoStorage() if kind == 'demo' else
                   FileStorage(ctx.tmp + '/conc.fs'))
        citr.install(storage, container=c)
        self.db = citr.ContainerDb(storage)
        ctx.defer(self.db.close)
        self.n = case['conns']
        make = MANAGERS[case['managers']]
        self.conns = [self.db.open(**make()) for _ in range(self.n)]
        self.state = visible(groups)
        self.commits = []
        self.open_tx = [None] * self.n
        self.unique = itertools.count()
        self.concurrent = self.conflicts = self.steps = 0
        self.pending = []
        self.gaps = itertools.cycle(case.get('gaps') or [0])
        self.maintained = 0
        self.busy = False
        self.copied = set()

    @staticmethod
    def overfull(c):
        return {(gi, i) for gi, g in enumerate(c.groups)
                for i, col in enumerate(g.collections)
                if len(col.keys()) > col.max_size}

    # what every commit must leave behind

    def settled(self, what):
        conn = self.db.open(transaction_manager=TransactionManager())
        try:
            c = conn.container
            eq_map(container_map(c), self.state, f'committed after {what}')
            if self.strict and not self.over:
                for g in c.groups:
                    for col in g.collections:
                        if len(col.keys()) > col.max_size:
                            raise Violation(
                                f'a strict collection of {col.max_size} '
                                f'holds {len(col.keys())} after {what}')
        finally:
            conn.transaction_manager.abort()
            conn.close()

    # users

    def begin(self, i):
        if self.open_tx[i] is None:
            self.conns[i].__enter__()
            # view, written, commits seen, snapshot
            self.open_tx[i] = [dict(self.state), {}, len(self.commits),
                               dict(self.state)]
            self.copied.discard(i)

    def finish(self, i, how):
        view, written, seen, snap = self.open_tx[i]
        self.open_tx[i] = None
        conn = self.conns[i]
        if how == 'abort':
            try:
                conn.__exit__(citr.Boom, citr.Boom('x'), None)
            except citr.Boom:
                pass
            return
        kind, val = outcome(conn.__exit__, None, None, None)
        # a commit of another one may come in while this one is at it
        between = self.commits[seen:]
        # what was written and removed again was not there, and is not
        touched = {k for k in (set().union(*between) if between else set())
                   if snap.get(k) != self.state.get(k)}
        if between and written:
            self.concurrent += 1
        if kind == 'exc':
            if not isinstance(val, ConflictError):
                raise Violation(f'commit raised {val!r}')
            require(between, 'a commit was refused although no other came '
                             'in between')
            self.conflicts += 1
        else:
            if set(written) & touched:
                if i in self.copied:
                    self.ctx.fail(
                        'copy-of-changed-group',
                        f'a transaction copied a group (transfer=False) that '
                        f'it had written to, and overwrote the concurrent '
                        f'change of {sorted(set(written) & touched)}')
                    raise Ended
                raise Violation(
                    f'both transactions wrote {sorted(set(written) & touched)}'
                    f' and both committed')
            for k, v in written.items():
                if v is None:
                    self.state.pop(k, None)
                else:
                    self.state[k] = v
            # also when it changed nothing in the end: the records were
            # written, and may cost another transaction its commit
            self.commits.append(set(written))
            self.ctx.label('merged commit', bool(between and written))
            if i in self.copied and touched:
                got = committed(self.db)
                if got != self.state:
                    self.ctx.fail(
                        'copy-of-changed-group',
                        f'a transaction copied a group (transfer=False) that '
                        f'it had written to; the concurrent change of '
                        f'{sorted(touched)} was lost: {got}')
                    raise Ended
        self.settled(f'{how} of {i}')

    def full(self, container, k):
        """Whether a strict primary has no room for one more such id."""
        p = container.primary
        col = p.collections[get_group_index(k, len(p.collections))]
        return not col.has_key(k) and (
            len(col.keys()) >= col.max_size
            or sum(len(c.keys()) for c in p.collections) >=
            sum(c.max_size for c in p.collections))

    def act(self, o):
        i, name = o[0] % self.n, o[1]
        conn = self.conns[i]
        if name == 'begin':
            return self.begin(i)
        if name in ('commit', 'abort'):
            if self.open_tx[i] is not None:
                self.finish(i, name)
            return
        if name == 'maintain':
            if self.busy:
                return
            return self.maintain(o[2])
        self.begin(i)
        view, written, seen, snap = self.open_tx[i]
        k = o[2]
        if name in ('resize', 'condense'):
            if o[2]['transfer'] is False and changed(conn.container):
                self.copied.add(i)
            self.reorganise(conn.container, name, o[2])
            eq_map(container_map(conn.container), view,
                   f'snapshot of connection {i} after {name}')
            return
        if name in ('bulk', 'default'):
            # directly on the only group
            self.direct(conn.container, name, k, view, written)
            k = k[0] if name == 'bulk' else k
        elif name in ('update', 'create'):
            v = f'{i}.{next(self.unique)}'
            refuse = self.strict and self.full(conn.container, k)
            kind, val = outcome(getattr(conn, name), k, v)
            if name == 'create' and k in view:
                require(kind == 'exc' and isinstance(
                    val, ObjectOverwriteError),
                    f'create over {k!r} in the snapshot: {val!r}')
            elif refuse:
                require(kind == 'exc' and isinstance(val, CAP),
                        f'{name}({k!r}) beyond a strict limit: {val!r}')
            elif kind == 'exc' and isinstance(val, CAP) and self.strict \
                    and self.over:
                # strictness turned on above the limit: see C02
                pass
            else:
                require(kind == 'ok', f'{name}({k!r}) raised {val!r}')
                if name == 'update':
                    want(val, view.get(k),
                         f'previous value of {k!r} in the snapshot')
                view[k] = written[k] = v
        elif name == 'delete':
            got = must(crud(conn, 'delete'), k, what='delete')
            if k in view:
                want(got[0], view.pop(k), 'deleted')
                if k in snap:
                    written[k] = None
                else:
                    # created and removed again: no change at all
                    written.pop(k, None)
            else:
                require(not got, 'delete of an absent id')
        want(must(crud(conn, 'read'), k, 'none', what='read'), view.get(k, 'none'),
             f'read({k!r}) in connection {i}')
        eq_map(container_map(conn.container), view,
               f'snapshot of connection {i}')

    def direct(self, c, name, k, view, written):
        group = c.primary
        values = {x: f'{name}.{next(self.unique)}'
                  for x in (k if name == 'bulk' else [k])}
        new = {x: get_group_index(x, len(group.collections))
               for x in values if x not in view}
        refuse = self.strict and any(
            len(col.keys()) + list(new.values()).count(i) > col.max_size
            for i, col in enumerate(group.collections)
            if i in new.values())
        if name == 'bulk':
            kind, val = outcome(group.update, values)
        else:
            kind, val = outcome(group.setdefault, k, values[k])
        if refuse:
            require(kind == 'exc' and isinstance(val, CAP),
                    f'{name}({k!r}) beyond a strict limit: {val!r}')
            return
        require(kind == 'ok', f'{name}({k!r}) raised {val!r}')
        if name == 'default':
            want(val, view.get(k, values[k]), f'setdefault({k!r})')
            if k in view:
                return
        view.update(values)
        written.update(values)

    # reorganisation

    def reorganise(self, c, name, p, tm=None):
        kw = {} if p['transfer'] is None else {'transfer': p['transfer']}
        args = []
        if name == 'resize':
            if p['condense'] is not None:
                kw['condense'] = p['condense']
            args = [max(c.size, 1) + p['delta']]
            kw['max_collection_size'] = p['cmax']
        if tm is not None:
            kw['transaction_manager'] = tm
        kind, val = outcome(getattr(c, name), *args, **kw)
        if kind == 'exc':
            if isinstance(val, CAP) and self.strict:
                return val
            if isinstance(val, ConflictError) and tm is not None:
                return val
            if isinstance(val, ValueError) and tm is not None and \
                    'Cannot resize' in str(val):
                return val
            raise Violation(f'{name}({args}, {kw}) raised {val!r}')
        return None

    def maintain(self, p):
        """One more connection reorganises the container, one transaction
        after the other, while the others go on."""
        self.busy = True
        tm = Stepping()
        tm.world = self
        conn = self.db.open(transaction_manager=tm)
        tm.active = True
        before = self.steps
        try:
            err = self.reorganise(conn.container, p['name'], p, tm)
            if isinstance(err, ConflictError):
                require(len(self.commits) > tm.since,
                        'a step was refused although no other commit came in '
                        'between')
                self.ctx.label('refused step')
        finally:
            tm.active = False
            tm.world.pending, rest = [], self.pending
            tm.abort()
            conn.close()
            self.pending = rest
            self.busy = False
        self.maintained += 1
        eq_map(committed(self.db), self.state, f'committed after {p["name"]}')
        self.ctx.label('several steps', self.steps - before > 2)

    def gap(self):
        for _ in range(next(self.gaps)):
            if self.pending:
                self.act(self.pending.pop(0))

    def stepped(self):
        self.steps += 1
        self.commits.append(set())
        self.settled('a step')

    def play(self):
        try:
            self.history()
        except Ended:
            self.ctx.label('ended by a known finding')

    def history(self):
        self.pending = list(self.case['ops'])
        while self.pending:
            self.act(self.pending.pop(0))
        for i in range(self.n):
            if self.open_tx[i] is not None:
                self.finish(i, 'commit')
        # everyone agrees afterwards
        for i, conn in enumerate(self.conns):
            with conn:
                eq_map(container_map(conn.container), self.state,
                       f'connection {i} at the end')
            conn.close()


BASIC = st.one_of(
    st.tuples(st.just('update'), K), st.tuples(st.just('update'), K),
    st.tuples(st.just('create'), K), st.tuples(st.just('delete'), K),
    st.tuples(st.just('read'), K),
    st.tuples(st.just('begin')), st.tuples(st.just('commit')),
    st.tuples(st.just('commit')), st.tuples(st.just('abort')))
DIRECT = st.one_of(
    st.tuples(st.just('bulk'), st.lists(K, min_size=1, max_size=4,
                                        unique=True)),
    st.tuples(st.just('default'), K))
REORG = st.fixed_dictionaries({
    'name': st.sampled_from(['condense', 'resize']),
    'transfer': st.sampled_from([True, False, None]),
    'condense': st.sampled_from([True, False, None]),
    'delta': st.integers(0, 40), 'cmax': st.sampled_from([3, 20, 300])})
MOVES = st.one_of(
    REORG.map(lambda p: (p['name'], p)),
    REORG.map(lambda p: ('maintain', p)))


def ops(*kinds):
    return st.tuples(st.integers(0, 2), st.one_of(*kinds)).map(
        lambda t: [t[0], *t[1]])
