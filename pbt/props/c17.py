"""C17: the older flat container and the cluster registry keep every entry."""
from datetime import datetime

from hypothesis import strategies as st

import ZODB
import transaction
from persistent.mapping import PersistentMapping
from ZODB.MappingStorage import MappingStorage

from core import Test, Violation, eq, must, must_raise, outcome, require
from maps import KEYS, VALUES, want
import citr

from citrine.cluster_tools.clusterdb.container import (
    ClusterRegistryContainer, DbModuleRegistry)
from citrine.cluster_tools.dbmodule.dbmodule import (
    DbModuleRegistry as CountingRegistry)
from citrine.persistence import DbContainer

ID = 'C17'
LEVEL = 'exploration'
ASSUMPTIONS = ['deleting an absent id raises KeyError']
K = st.one_of(citr.FEWKEYS, citr.FEWKEYS, KEYS)


class Persisted:
    """Keeps an object in a database, reloading it on demand."""

    def __init__(self, obj, ctx):
        self.db = ZODB.DB(MappingStorage())
        self.tm = transaction.TransactionManager()
        self.conn = self.db.open(self.tm)
        self.conn.root.obj = obj
        self.tm.commit()
        ctx.defer(lambda: (self.tm.abort(), self.conn.close(),
                           self.db.close()))

    def reload(self):
        self.tm.commit()
        self.conn.close()
        self.conn = self.db.open(self.tm)
        self.conn.cacheMinimize()
        return self.conn.root.obj


def run(case, ctx):
    if case['kind'] == 'registry':
        return run_registry(case, ctx)
    outer, inner = MAPPINGS[case['given']]
    if case['n'] is None:
        c = DbContainer()
        n = 1
    else:
        n = case['n']
        c = DbContainer(outer({i: inner({}) for i in range(n)}))
    kept = Persisted(c, ctx) if case['stored'] else None
    model = {}
    expanded = 0
    for o in case['ops']:
        name = o[0]
        if name == 'write':
            must(c.write, o[1], o[2], what='write')
            model[o[1]] = o[2]
        elif name == 'delete':
            if o[1] in model:
                must(c.delete, o[1], what='delete')
                del model[o[1]]
            else:
                must_raise(KeyError, c.delete, o[1],
                           what='delete of an absent id')
                ctx.label('delete of an absent id')
        elif name == 'expand':
            new = max(n + o[1], 0)
            if o[1] <= 0:
                must_raise(ValueError, c.expand_size, new,
                           what=f'expand_size({new}) from {n}')
                ctx.label('refused expansion')
            else:
                must(c.expand_size, new, what='expand_size')
                n = new
                expanded += len(model) > 1
        elif name == 'reload' and kept:
            c = kept.reload()
        eq(c.containers_size, n, 'containers_size')
        eq(c.size, len(model), f'size after {o}')
        for k in set(model) | ({o[1]} if isinstance(o[1], str) else set()):
            eq(bool(c.has(k)), k in model, f'has({k!r}) after {o}')
            want(must(c.read, k, what='read'), model.get(k),
                 f'read({k!r}) after {o}')
    ctx.nontrivial(expanded > 0)
    ctx.label('expanded with contents', expanded > 0)


OWN = ['a', 'b', 'k1', 'other', '']

# what a container or registry may be made of
MAPPINGS = {'persistent': (PersistentMapping, PersistentMapping),
            'dict': (dict, PersistentMapping),
            'dicts': (dict, dict),
            'mixed': (PersistentMapping, dict)}


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path


def details(case, i):
    """When it was made, its limit, and what is done to it."""
    made, limit, moving, sorting = case['details'][i % len(case['details'])]
    return made and datetime(*made), limit, moving, sorting


def entry(v, style):
    if style == 'made':
        return DbModuleRegistry(*v)
    if style == 'positions':
        return DbModuleRegistry.from_dbmodule(Module(*v[:2]), *v[2:])
    return DbModuleRegistry.from_dbmodule(
        Module(*v[:2]), created=v[2], size_limit=v[3], in_migration=v[4],
        in_reallocation=v[5])


def run_counts(case, ctx):
    """Entries that count the objects of a module."""
    m = Module(case['name'], case['path'])
    m.size = case['sizes'][0]
    kept = Persisted(CountingRegistry.from_dbmodule(m), ctx)
    for i, size in enumerate(case['sizes']):
        if i:
            m.size = size
            must(kept.conn.root.obj.update_from_dbmodule, m)
        e = kept.reload()
        eq((e.module_path, e.name, e.size), (case['path'], case['name'], size),
           f'entry after {case["sizes"][:i + 1]}')
    eq((CountingRegistry('p', 'n').size), 0, 'size of a new entry')
    ctx.nontrivial(len(set(case['sizes'])) > 1)


def run_registry(case, ctx):
    model = {}
    if case['n'] is None:
        c = ClusterRegistryContainer()
    else:
        # made of entries that are there already
        outer, _ = MAPPINGS[case['given']]
        model = {name: (name, f'/{name}', *details(case, i))
                 for i, name in enumerate(OWN[:case['n'] - 1])}
        c = ClusterRegistryContainer(outer(
            {name: entry(v, case['styles'][i % len(case['styles'])])
             for i, (name, v) in enumerate(model.items())}))
        ctx.label('registry made of entries', bool(model))
    kept = Persisted(c, ctx) if case['stored'] else None
    for o in case['ops']:
        name = o[0]
        if name == 'write':
            # a module need not be registered under its own name
            path = f'/{o[1]}/{o[2]!r}'
            own = o[1] if len(o[1]) % 2 else OWN[len(path) % len(OWN)]
            must(c.write, o[1], Module(own, path), what='write')
            model[o[1]] = (own, path, None, None, False, False)
        elif name == 'delete':
            if o[1] in model:
                must(c.delete, o[1], what='delete')
                del model[o[1]]
            else:
                must_raise(KeyError, c.delete, o[1],
                           what='delete of an absent name')
        elif name == 'expand':
            must(c.expand_size, 3 + o[1], what='expand_size')
        elif name == 'reload' and kept:
            c = kept.reload()
        for k in set(model) | set(OWN) | (
                {o[1]} if isinstance(o[1], str) else set()):
            eq(bool(c.has(k)), k in model, f'has({k!r}) after {o}')
            got = must(c.read, k, what='read')
            if k in model:
                require(isinstance(got, DbModuleRegistry), f'read: {got!r}')
                eq((got.name, got.path, got.created, got.size_limit,
                    got.in_migration, got.in_reallocation), model[k],
                   f'read({k!r})')
            else:
                eq(got, None, f'read({k!r})')
    ctx.nontrivial(len(model) > 1)
    ctx.label('registry', True)


OPS = st.one_of(
    st.tuples(st.just('write'), K, VALUES),
    st.tuples(st.just('write'), K, VALUES),
    st.tuples(st.just('write'), K, VALUES),
    st.tuples(st.just('delete'), K),
    st.tuples(st.just('expand'), st.integers(-1, 6) |
              st.sampled_from([10, 40])),
    st.tuples(st.just('reload'), st.none())).map(list)

DETAILS = st.tuples(
    st.none() | st.tuples(st.integers(1, 9999), st.integers(1, 12),
                          st.integers(1, 28), st.integers(0, 23)).map(list),
    st.none() | st.integers(0, 2 ** 40), st.booleans(),
    st.booleans()).map(list)

TESTS = [
    Test('counts', lambda: st.fixed_dictionaries({
        'name': KEYS, 'path': KEYS, 'sizes': st.lists(
            st.integers(0, 3) | st.integers(0, 2 ** 40), min_size=1,
            max_size=6)}), run_counts, quick=300, procs=4,
         rule='entries that follow the size of a module, reloaded after each '
              'update; non-trivial = the size changed'),
    Test('ops', lambda: st.fixed_dictionaries({
        'kind': st.sampled_from(['container'] * 3 + ['registry']),
        'n': st.none() | st.integers(1, 5) | st.integers(1, 50),
        'given': st.sampled_from(list(MAPPINGS)), 'stored': st.booleans(),
        'styles': st.lists(st.sampled_from(['made', 'positions', 'names']),
                           min_size=1, max_size=3),
        'details': st.lists(DETAILS, min_size=1, max_size=3),
        'ops': st.one_of(st.lists(OPS, min_size=1, max_size=6),
                         st.lists(OPS, min_size=5, max_size=18),
                         st.lists(OPS, min_size=18, max_size=80))}),
        run, quick=5000, procs=8,
        rule='write/read/has/delete/expand sequences; non-trivial = expanded '
             'while holding two or more objects (or two registered modules)'),
]
