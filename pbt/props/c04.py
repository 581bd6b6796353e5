"""C04: an identifier's place in a group is a function of the identifier and
the number of collections alone."""
import json
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from core import (HERE, REPO, HarnessError, Test, Violation, eq, must,
                  require, short)
from maps import KEYS, TEXT
import citr

from ZODB.MappingStorage import MappingStorage
import ZODB
import transaction
from citrine.storage.collection import Collection
from citrine.storage.group import Group

ID = 'C04'
LEVEL = 'exploration'
ASSUMPTIONS = ['a fresh interpreter with another hash seed stands for '
               '"another process or machine"']
PRIMES = [1, 2, 3, 5, 7, 11, 13]


def where(group, key):
    return [i for i, c in enumerate(group.collections) if c.has_key(key)]


def build(n, how):
    if how == 'custom':
        return Group.new(custom={i: 1000 + i for i in range(n)})
    if how == 'direct':
        return Group(tuple(Collection(max_size=1000) for _ in range(n)))
    return Group.new(size=n, max_collection_size=1000)


def run(case, ctx):
    n, keys = case['n'], case['keys']
    g = build(n, 'new')
    writers = case['writers']
    for i, k in enumerate(keys):
        w = writers[i % len(writers)]
        if w == 'insert':
            g.insert(k, i)
        elif w == 'update':
            g.update({k: i})
        elif w == 'kw':
            g.insert(key=k, value=i)
        else:
            g.setdefault(k, i)
    place = {}
    for i, k in enumerate(keys):
        at = where(g, k)
        require(len(at) == 1, f'{k!r} is in collections {at}, not in one')
        place[k] = at[0]
        eq(g.get(k), i, f'get({k!r})')
    # other order, all at once, other construction
    h = build(n, case['how'])
    h.update({k: 0 for k in reversed(keys)})
    for k in keys:
        eq(where(h, k), [place[k]],
           f'collections of {k!r} in another group of {n}')
    # a stored and reloaded group finds and removes everything
    storage = MappingStorage()
    db = ZODB.DB(storage)
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    conn.root.g = g
    tm.commit()
    conn.close()
    db2 = ZODB.DB(storage)
    tm = transaction.TransactionManager()
    conn = db2.open(tm)
    r = conn.root.g
    for i, k in enumerate(keys):
        require(r.has_key(k), f'{k!r} not found after reloading')
        eq(r.get(k), i, f'get({k!r}) after reloading')
        require(not r.insert(k, -1), f'{k!r} stored a second time')
        eq(r.pop(k), i, f'pop({k!r}) after reloading')
    eq(r.size, 0, 'size after removing everything')
    tm.abort()
    conn.close()
    ctx.nontrivial(n > 1 and len(set(place.values())) > 1)
    ctx.label('2+ collections in use', len(set(place.values())) > 1)


CHILD = '''
import json, sys
sys.path.insert(0, sys.argv[1])
from citrine.storage.group import Group
out = []
for n, keys in json.load(sys.stdin):
    g = Group.new(size=n, max_collection_size=10000)
    g.update({k: 1 for k in keys})
    out.append({k: [i for i, c in enumerate(g.collections) if c.has_key(k)]
                for k in keys})
json.dump(out, sys.stdout)
'''


def run_process(case, ctx):
    """Another process places everything in the same collections."""
    jobs = [[n, case['keys']] for n in case['ns']]
    here = []
    for n, keys in jobs:
        g = Group.new(size=n, max_collection_size=10000)
        for k in keys:
            g.insert(k, 1)
        here.append({k: where(g, k) for k in keys})
    env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']),
               PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-c', CHILD, REPO],
                       input=json.dumps(jobs), capture_output=True, text=True,
                       env=env, timeout=90)
    if p.returncode:
        raise Violation('placing the identifiers failed in a fresh process: '
                        + p.stderr[-500:])
    there = json.loads(p.stdout)
    for (n, keys), a, b in zip(jobs, here, there):
        for k in keys:
            eq(b[k], a[k], f'collections of {k!r} of {n} in a fresh process')
    ctx.nontrivial(len(case['keys']) > 3)


def run_spread(case, ctx):
    """With a prime number of collections none is left out."""
    n = case['n']
    if n == 2:
        # the last byte decides
        case['suffix'] = ''
    g = Group.new(size=n, max_collection_size=100000)
    keys = [f'{case["prefix"]}{i}{case["suffix"]}'
            for i in range(case['start'], case['start'] + 150 + 60 * n)]
    g.update({k: 1 for k in keys})
    unused = [i for i, c in enumerate(g.collections) if not c.size]
    require(not unused, f'{len(keys)} identifiers like {keys[0]!r} never '
                        f'reach collections {unused} of {n}')
    eq(g.size, len(keys), 'size')
    ctx.nontrivial(n > 1)


TESTS = [
    Test('partition', lambda: st.fixed_dictionaries({
        'n': st.sampled_from(PRIMES + [4, 6, 10]),
        'how': st.sampled_from(['custom', 'direct', 'new']),
        'writers': st.lists(st.sampled_from(
            ['insert', 'update', 'setdefault', 'kw']), min_size=1,
            max_size=4),
        'keys': st.lists(st.one_of(KEYS, TEXT, st.uuids().map(str)),
                         min_size=1, max_size=25, unique=True)}),
        run, quick=1500, procs=6,
        rule='each key is in exactly one collection, in the same one for '
             'every equally divided group, and found there after the group '
             'was stored and reloaded; non-trivial = two collections in use'),
    Test('process', lambda: st.fixed_dictionaries({
        'ns': st.lists(st.integers(1, 40), min_size=3, max_size=6),
        'hashseed': st.integers(1, 10**6),
        'keys': st.lists(st.one_of(KEYS, TEXT, st.uuids().map(str)),
                         min_size=1, max_size=60, unique=True)}),
        run_process, quick=32, procs=8,
        rule='the same keys placed by a fresh interpreter with another hash '
             'seed; non-trivial = more than 3 keys'),
    Test('spread', lambda: st.fixed_dictionaries({
        'n': st.sampled_from(PRIMES),
        'prefix': st.builds(
            lambda p, n: p + 'path/' * n,
            st.sampled_from(['', 'id', 'https://x.org/', 'é', '0' * 9]),
            st.sampled_from([0, 0, 3, 12, 13, 60])),
        'suffix': st.sampled_from(['', '', '', '/inbox', 'é', '.' * 9,
                                   '/activities/outbox' * 6]),
        'start': st.integers(0, 5000)}), run_spread, quick=60, procs=4,
        rule='hundreds of numbered ids over a prime number of collections; '
             'non-trivial = more than one collection'),
]
