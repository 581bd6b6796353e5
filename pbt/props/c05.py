"""C05: size, capacity, usage and health reports are exact."""
from fractions import Fraction
from math import ceil

from hypothesis import strategies as st

from core import Test, Violation, eq, must, require
from maps import KEYS, TEXT
import citr

from citrine.storage.collection import Collection
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import TransactionManager

ID = 'C05'
LEVEL = 'exploration'
ASSUMPTIONS = ['a percentage is rounded up to a whole percent before it is '
               'compared with the thresholds; one unit of float rounding is '
               'tolerated']
LEVELS = [0, 60, 70, 80, 90]


def levels(size, maximum):
    exact = ceil(Fraction(size * 100, maximum))
    by_float = ceil(size / maximum * 100)
    return {max(v for v in LEVELS if v <= p) for p in (exact, by_float)}


def close(got, want, what):
    require(abs(got - want) < 1e-9, f'{what}: got {got}, expected {want}')


def check_collection(c, n, maximum):
    eq(c.size, n, 'collection size')
    eq(c.max_size, maximum, 'collection max_size')
    close(c.usage, n / maximum, 'collection usage')
    require(c.status in levels(n, maximum),
            f'collection status {c.status} at {n}/{maximum}')
    eq(c.meta.size, n, 'collection meta size')
    close(c.meta.usage, n / maximum, 'collection meta usage')


def check_group(g, loads, sizes):
    for c, n, m in zip(g.collections, loads, sizes):
        check_collection(c, n, m)
    total = sum(loads)
    eq(g.size, total, 'group size')
    eq(g.max_size, sum(sizes), 'group max_size')
    eq(g.max_collection_size, max(sizes), 'group max_collection_size')
    close(g.usage, total / sum(sizes), 'group usage')
    ratios = [n / m for n, m in zip(loads, sizes)]
    per = g.collection_usage
    for c, r in zip(g.collections, ratios):
        close(per[c], r, 'collection_usage')
    close(g.highest_collection_usage, max(ratios), 'highest usage')
    close(g.lowest_collection_usage, min(ratios), 'lowest usage')
    allowed = [levels(n, m) for n, m in zip(loads, sizes)]
    lo, hi = max(min(a) for a in allowed), max(max(a) for a in allowed)
    require(lo <= g.status <= hi, f'group status {g.status} for '
                                  f'{list(zip(loads, sizes))}')


def apply(target, model, o):
    if o[0] == 'put':
        target.update({k: 1 for k in o[1]})
        model.update({k: 1 for k in o[1]})
    elif o[0] == 'drop':
        for k in o[1]:
            if k in model:
                target.pop(k)
                del model[k]
    else:
        target.clear()
        model.clear()


OPS = st.lists(st.one_of(
    st.tuples(st.just('put'), st.lists(KEYS, max_size=12)),
    st.tuples(st.just('put'), st.lists(TEXT, max_size=12)),
    st.tuples(st.just('drop'), st.lists(KEYS, max_size=4)),
    st.tuples(st.just('clear'))).map(list), min_size=1, max_size=6)


def run_collection(case, ctx):
    m = case['max']
    c = Collection(max_size=m, strict=False)
    n = case['n']
    for i in range(n):
        c.insert(f'k{i}', i)
    check_collection(c, n, m)
    for i in range(case['drop']):
        if i < n:
            c.pop(f'k{i}')
            check_collection(c, n - i - 1, m)
    ctx.nontrivial(n * 100 >= 55 * m)
    ctx.label('over full', n > m)


def run_group(case, ctx):
    sizes = case['sizes']
    if case['uniform']:
        sizes = [sizes[0]] * len(sizes)
        g = Group.new(size=len(sizes), max_collection_size=sizes[0])
    else:
        g = Group.new(custom=dict(enumerate(sizes)))
    model = {}
    for o in case['ops']:
        apply(g, model, o)
        loads = [sum(1 for k in model if c.has_key(k))
                 for c in g.collections]
        eq(sum(loads), len(model), 'keys found in the collections')
        check_group(g, loads, sizes)
    ctx.nontrivial(len(sizes) > 1 and any(
        n * 100 >= 55 * m for n, m in zip(loads, sizes)))


def run_container(case, ctx):
    groups = [Group.new(size=n, max_collection_size=m)
              for n, m in case['groups']]
    models = [{} for _ in groups]
    for i, o in case['ops']:
        apply(groups[i % len(groups)], models[i % len(groups)], o)
    c = Container(groups[0], tuple(groups))
    db = None
    if case['stored']:
        db = citr.ContainerDb(_storage(c))
        conn = db.open(transaction_manager=TransactionManager())
        c = conn.container
    maxima = [n * m for n, m in case['groups']]
    eq(c.size, sum(len(m) for m in models), 'container size')
    eq(c.max_size, sum(maxima), 'container max_size')
    targets = [c] if db is None else [c, conn]
    for t in targets:
        eq(t.capacity, maxima[0], 'capacity')
        eq(t.used, len(models[0]), 'used')
        close(t.usage, len(models[0]) / maxima[0], 'usage')
        p = c.primary
        loads = [sum(1 for k in models[0] if x.has_key(k))
                 for x in p.collections]
        allowed = [levels(n, case['groups'][0][1]) for n in loads]
        lo, hi = max(min(a) for a in allowed), max(max(a) for a in allowed)
        require(lo <= t.status <= hi, f'status {t.status} for {loads} of '
                                      f'{case["groups"][0][1]} each')
    for g, m, (n, size) in zip(c.groups, models, case['groups']):
        eq(g.size, len(m), 'group size in container')
    if db is not None:
        # the reports follow what is written through the connection
        if case['more']:
            for k in case['more']:
                conn.update(k, 1)
                models[0][k] = 1
            eq(conn.used, len(models[0]), 'used after writing')
            close(conn.usage, len(models[0]) / maxima[0], 'usage')
        conn.close()
        db.close()
    ctx.nontrivial(len(groups) > 1 and any(models[1:]) and bool(models[0]))


def _storage(container):
    from ZODB.MappingStorage import MappingStorage
    s = MappingStorage()
    citr.install(s, container=container)
    return s


def run_wide(case, ctx):
    """Groups of many collections; the last ones count like the first."""
    n, m = case['n'], case['max']
    g = Group.new(size=n, max_collection_size=m)
    loads = [0] * n
    for i, k in case['puts']:
        i %= n
        if k > loads[i]:
            for j in range(k):
                g.collections[i].insert(f'{i}/{j}', j)
            loads[i] = k
    check_group(g, loads, [m] * n)
    c = Container(g)
    eq(c.size, sum(loads), 'container size')
    close(c.usage, sum(loads) / (n * m), 'container usage')
    eq(c.capacity, n * m, 'capacity')
    ctx.nontrivial(n > 90 and sum(loads[90:]) > 0)


TESTS = [
    Test('wide group', lambda: st.fixed_dictionaries({
        'n': st.integers(2, 400), 'max': st.integers(1, 6),
        'puts': st.lists(st.tuples(st.integers(0, 400), st.integers(1, 7))
                         .map(list), min_size=1, max_size=12)}), run_wide,
        quick=400, procs=4, rule='groups of up to 400 collections, few of '
        'them filled; non-trivial = something lies beyond the 90th'),
    Test('collection', lambda: st.integers(1, 60).flatmap(
        lambda m: st.fixed_dictionaries({
            'max': st.just(m), 'n': st.one_of(
                st.integers(0, m), st.integers(m // 2, m + 3)),
            'drop': st.integers(0, 4)})), run_collection, quick=3000,
        procs=4, rule='fill levels around every threshold and above the '
                      'limit; non-trivial = at least 55% full'),
    Test('group', lambda: st.fixed_dictionaries({
        'sizes': st.lists(st.integers(1, 12), min_size=1, max_size=7),
        'uniform': st.booleans(), 'ops': OPS}), run_group, quick=3000,
        procs=8, rule='bulk writes/removals on uniform and uneven groups; '
                      'non-trivial = several collections, one at least 55% '
                      'full'),
    Test('container', lambda: st.fixed_dictionaries({
        'groups': st.lists(st.tuples(st.sampled_from([1, 2, 3, 5]),
                                     st.integers(1, 8)).map(list),
                           min_size=1, max_size=4),
        'ops': st.lists(st.tuples(st.integers(0, 3), st.one_of(
            st.tuples(st.just('put'), st.lists(KEYS, max_size=8)),
            st.tuples(st.just('drop'), st.lists(KEYS, max_size=3))).map(list)
        ).map(list), max_size=8),
        'more': st.lists(KEYS, max_size=4),
        'stored': st.booleans()}), run_container, quick=1500, procs=8,
        rule='layered containers, in memory and through a database '
             'connection; non-trivial = data in a secondary group as well'),
]
