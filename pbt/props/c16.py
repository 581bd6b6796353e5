"""C16: reading from several databases at once."""
import time
from datetime import timedelta

from hypothesis import strategies as st

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, want
import citr

from ZODB.MappingStorage import MappingStorage

from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import CitrineDuplicateIdError
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import TransactionManager

ID = 'C16'
LEVEL = 'exploration'
ASSUMPTIONS = ['a database that holds None at an id counts as not holding '
               'it', 'nothing found may be reported as None or as empty']
K = citr.FEWKEYS


def run(case, ctx):
    dbs, models = [], []
    for i, pairs in enumerate(case['dbs']):
        # several databases may go by one name (the default one or another)
        name = case['same'] if case['unnamed'] > i else f'db{i}'
        storage = MappingStorage()
        m = {k: v for k, v in pairs}
        if case['layered']:
            groups = [Group.new(size=n, max_collection_size=20)
                      for n in (3, 1, 2)]
            for n, (k, v) in enumerate(m.items()):
                groups[n % 3].update({k: v})
            citr.install(storage, container=Container(
                groups[0], tuple(groups)))
        d = citr.ContainerDb(storage, database_name=name)
        ctx.defer(d.close)
        if not case['layered']:
            conn = d.open(transaction_manager=TransactionManager())
            for k, v in m.items():
                conn.update(k, v)
            conn.close()
        dbs.append(d)
        models.append(m)
    arg = {'list': list, 'tuple': tuple, 'set': set}[case['as']](dbs)
    order = list(arg)
    kw = {}
    own = {}
    if case['shared_tm']:
        kw['transaction_manager'] = TransactionManager()
    for i in case['override']:
        own[f'db{i}'] = TransactionManager()
        kw[f'db{i}'] = {'transaction_manager': own[f'db{i}']}
    g = must(GroupReadConnection, arg, what='GroupReadConnection', **kw)
    eq(len(g.connections), len(dbs), 'number of connections')
    for c, d in zip(g.connections, order):
        require(c.db() is d, 'connections are to other databases')
        name = d.database_name
        if name in own:
            require(c.transaction_manager is own[name],
                    f'the arguments given for {name} were not used')
        elif case['shared_tm']:
            require(c.transaction_manager is kw['transaction_manager'],
                    'the shared transaction manager was not used')
    for k, multiple, timeout in case['reads']:
        kwargs = {}
        if timeout is not None:
            kwargs['timeout'] = timedelta(milliseconds=timeout)
        if multiple is not None:
            kwargs['multiple'] = multiple
        hits = {i: m[k] for i, m in enumerate(models)
                if m.get(k) is not None}
        what = f'read({k!r}, {kwargs})'
        if multiple:
            got = must(g.read, k, what=what, **kwargs)
            if not hits:
                require(not got, f'{what} found {got!r}')
                continue
            require(isinstance(got, dict), f'{what} returned {got!r}')
            where = {id(d): i for i, d in enumerate(dbs)}
            eq(sorted(where[id(c.db())] for c in got), sorted(hits),
               f'databases that {what} found')
            for c, v in got.items():
                want(v, hits[where[id(c.db())]], what)
            ctx.label('several results', len(hits) > 1)
        elif len(hits) > 1:
            must_raise(CitrineDuplicateIdError, g.read, k, what=what,
                       **kwargs)
            ctx.label('duplicate reported')
        else:
            got = must(g.read, k, what=what, **kwargs)
            want(got, next(iter(hits.values()), None), what)
            ctx.label('falsy result', bool(hits) and not got)
        ctx.nontrivial(len(hits) > 1)
    for c in g.connections:
        c.transaction_manager.abort()
        c.close()


def run_slow(case, ctx):
    """A generous limit of any size never fires (whole days included)."""
    db = citr.ContainerDb(None, database_name='only')
    ctx.defer(db.close)
    g = GroupReadConnection([db])
    limit = timedelta(seconds=case['s'], milliseconds=case['ms'])
    if limit.total_seconds() < 5:
        limit += timedelta(seconds=5)
    kind, val = outcome(g.read, 'a', timeout=limit,
                        multiple=case['multiple'])
    if kind == 'exc':
        raise Violation(f'a read that takes no time ran into a limit of '
                        f'{limit}: {val!r}')
    ctx.nontrivial()
    for c in g.connections:
        c.transaction_manager.abort()
        c.close()


class Slow(MappingStorage):
    """Takes its time over every load, once told to."""
    loads = None

    def _slow(self):
        if self.loads is not None:
            self.loads += 1
            time.sleep(0.02)

    def load(self, *a, **k):
        self._slow()
        return super().load(*a, **k)

    def loadBefore(self, *a, **k):
        self._slow()
        return super().loadBefore(*a, **k)


def run_over(case, ctx):
    """A read that takes longer than its limit is a TimeoutError."""
    dbs, stores = [], []
    for i in range(case['dbs']):
        s = Slow()
        d = citr.ContainerDb(s, database_name=f'db{i}')
        ctx.defer(d.close)
        if i in case['held']:
            c = d.open(transaction_manager=TransactionManager())
            c.update('a', i)
            c.close()
        dbs.append(d)
        stores.append(s)
    g = GroupReadConnection(dbs)
    for c in g.connections:
        c.cacheMinimize()
    for i in case['slow']:
        if i < len(stores):
            stores[i].loads = 0
    kw = {} if case['multiple'] is None else {'multiple': case['multiple']}
    if case['limit']:
        kw['timeout'] = timedelta(milliseconds=case['limit'])
    hits = [i for i in case['held'] if i < len(dbs)]
    kind, val = outcome(g.read, 'a', **kw)
    waited = sum(s.loads or 0 for s in stores)
    if waited and case['limit']:
        # every load alone outlasts the limit
        if kind != 'exc' or not isinstance(val, TimeoutError):
            raise Violation(f'a read that took over {waited * 20} ms with a '
                            f'limit of {case["limit"]} ms was no '
                            f'TimeoutError: {val!r}')
        ctx.nontrivial()
    elif not case['limit']:
        # without a limit, slowness changes nothing
        if len(hits) > 1 and not case['multiple']:
            require(kind == 'exc' and isinstance(val, CitrineDuplicateIdError),
                    f'a slow read of a duplicate gave {val!r}')
        else:
            require(kind == 'ok', f'a slow read raised {val!r}')
            if case['multiple']:
                eq(sorted((val or {}).values()), sorted(hits),
                   'what a slow read of several found')
            else:
                eq(val, hits[0] if hits else None, 'what a slow read found')
        ctx.label('slow without a limit', bool(waited))
    for c in g.connections:
        c.transaction_manager.abort()
        c.close()


def _days(case):
    # limits of whole days have no seconds part
    if case['s'] % 3 == 0:
        case = dict(case, s=case['s'] // 86400 * 86400 or 86400, ms=0)
    return case


READ = st.tuples(K, st.sampled_from([None, False, True]),
                 st.sampled_from([None, None, 2000, 60000, 3600000,
                                  86400000])).map(list)
DB = st.lists(st.tuples(K, VALUES).map(list), max_size=6)

TESTS = [
    Test('reads', lambda: st.fixed_dictionaries({
        'dbs': st.lists(DB, min_size=0, max_size=4) | st.lists(
            DB, min_size=5, max_size=16),
        'as': st.sampled_from(['list', 'tuple', 'set']),
        'shared_tm': st.booleans(),
        'unnamed': st.sampled_from([0, 0, 0, 2, 4]),
        'same': st.sampled_from(['unnamed', 'db0', 'db1']),
        'layered': st.booleans(),
        'override': st.lists(st.integers(0, 3), max_size=2, unique=True),
        'reads': st.lists(READ, min_size=1, max_size=8) | st.lists(
            READ, min_size=8, max_size=40)}),
        run, quick=1600, procs=8,
        rule='reads of colliding ids over 0-4 databases; non-trivial = an id '
             'held by several databases'),
    Test('time limit', lambda: st.fixed_dictionaries({
        's': st.integers(0, 100000), 'ms': st.integers(0, 999),
        'multiple': st.booleans()}).map(_days), run_slow, quick=200, procs=4,
        rule='generous limits of any size never fire; non-trivial = always'),
    Test('over the limit', lambda: st.fixed_dictionaries({
        'dbs': st.integers(1, 3),
        'held': st.lists(st.integers(0, 2), max_size=3, unique=True),
        'slow': st.lists(st.integers(0, 2), min_size=1, max_size=3,
                         unique=True),
        'limit': st.sampled_from([1, 1, 1, 5, None]),
        'multiple': st.sampled_from([None, False, True])}), run_over,
        quick=240, procs=8,
        rule='databases whose loads outlast the limit; non-trivial = a load '
             'took longer than the limit'),
]
