"""C02: strict mode is a hard limit, refusals change nothing, and non-strict
mode never refuses."""
from hypothesis import strategies as st

import citr
from core import Test, Violation, eq, must, must_raise, outcome, require, short
from maps import INTS as NUMBERS, KEYS, SOURCES, oplist, source, want

from ZODB.MappingStorage import MappingStorage
from citrine.storage.collection import Collection, CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.transaction import TransactionManager

ID = 'C02'
LEVEL = 'exploration'
ASSUMPTIONS = ['either of the two capacity exceptions is an acceptable '
               'refusal']
CAP = (CollectionCapacityError, GroupCapacityError)

INTS = st.one_of(NUMBERS, NUMBERS, st.sampled_from(
    [None, '', [], False, 'x']))
PAIRS = st.lists(st.tuples(KEYS, INTS).map(list), max_size=5,
                 unique_by=lambda p: p[0])
OPS = st.one_of(
    st.tuples(st.just('insert'), KEYS, INTS),
    st.tuples(st.just('insert'), KEYS, INTS),
    st.tuples(st.just('setdefault'), KEYS, INTS),
    st.tuples(st.just('update'), PAIRS, st.sampled_from(SOURCES)),
    st.tuples(st.just('pop'), KEYS),
    st.tuples(st.just('strict'), st.booleans()),
).map(list)


def contents(real):
    return {k: real.get(k) for k in list(real.keys())}


def run(case, ctx):
    """Collections and groups."""
    if case['sizes'] is None:
        real = Collection(max_size=case['max'], strict=case['strict'])
        shadow, limits = None, [case['max']]
    else:
        sizes = case['sizes']
        if case['how'] == 'new':
            sizes = [case['max']] * len(sizes)
            real = Group.new(size=len(sizes), max_collection_size=case['max'],
                             strict=case['strict'])
        elif case['how'] == 'custom':
            real = Group.new(custom=dict(enumerate(sizes)),
                             strict=case['strict'])
        else:
            real = Group(tuple(Collection(max_size=s) for s in sizes),
                         strict=case['strict'])
        shadow = Group(tuple(Collection(max_size=10**6) for _ in sizes))
        limits = sizes
    eq(real.strict, case['strict'], 'strict flag after construction')
    strict = case['strict']
    model = {}

    def slot(key):
        if shadow is None:
            return 0
        if not shadow.has_key(key):
            shadow.insert(key, 1)
        return next(i for i, c in enumerate(shadow.collections)
                    if c.has_key(key))

    def load(m):
        counts = [0] * len(limits)
        for k in m:
            counts[slot(k)] += 1
        return counts

    def fits(new_model):
        """Would this state overfill a collection by adding to it?"""
        before, after = load(model), load(new_model)
        return all(a <= lim or a <= b
                   for a, b, lim in zip(after, before, limits))

    for o in case['ops']:
        name, args = o[0], o[1:]
        before = dict(model)
        if name == 'strict':
            real.strict = args[0]
            strict = args[0]
            continue
        if name == 'pop':
            if args[0] in model:
                want(must(real.pop, args[0], what='pop'), model.pop(args[0]),
                     'pop')
            continue
        after = dict(model)
        if name == 'insert':
            after.setdefault(args[0], args[1])
        elif name == 'setdefault':
            after.setdefault(args[0], args[1])
        else:
            after.update({k: v for k, v in args[0]})
        arg = [source(args[1], {k: v for k, v in args[0]})] \
            if name == 'update' else args
        kind, val = outcome(getattr(real, name), *arg)
        overfull = any(a > lim for a, lim in zip(load(before), limits))
        if kind == 'exc' and not isinstance(val, CAP):
            raise Violation(f'{name}{tuple(args)} raised '
                            f'{type(val).__name__}: {val}')
        if strict and not fits(after):
            ctx.label('over the limit in strict mode')
            ctx.nontrivial()
            if kind == 'ok':
                raise Violation(
                    f'{name}{tuple(args)} exceeded the strict limit '
                    f'{limits}: load {load(before)}')
            eq(contents(real), before, f'contents after refused {name}')
        else:
            if kind == 'exc' and strict and overfull and (
                    name == 'update' or len(after) > len(before)):
                # strictness turned on above the limit: refusing is as good
                # as accepting, but it must change nothing
                eq(contents(real), before, 'contents after refused update')
                continue
            if kind == 'exc':
                raise Violation(
                    f'{name}{tuple(args)} refused ({val}) although '
                    f'{"it fits" if strict else "the limit is not strict"}; '
                    f'limits {limits}, load {load(before)}')
            model = after
            if not strict and sum(load(model)) > sum(limits):
                ctx.label('over the limit, non-strict')
                ctx.nontrivial()
            elif strict and len(before) >= sum(limits):
                ctx.label('rewrite inside a full strict store')
                ctx.nontrivial()
        eq(contents(real), model, f'contents after {name}')
        eq(real.size, len(model), 'size')


def run_container(case, ctx):
    """A strict container: total never above capacity, overwrites allowed."""
    c = Container.new(capacity=case['capacity'],
                      collection_max_size=case['cmax'],
                      strict=case['strict'])
    strict = case['strict']
    conn = None
    if case['connected']:
        storage = MappingStorage()
        citr.install(storage, container=c)
        db = citr.ContainerDb(storage)
        ctx.defer(db.close)
        conn = db.open(transaction_manager=TransactionManager())
        c = conn.container
        eq(conn.strict, strict, 'strictness of the connection')
        must_raise(TypeError, setattr, conn, 'strict', case['odd'])
        must_raise(TypeError, setattr, conn, 'autocommit', case['odd'])
    must_raise(TypeError, setattr, c, 'strict', case['odd'])
    eq(c.strict, case['strict'], 'container strict flag')
    limits = [x.max_size for x in c.primary.collections]
    shadow = Group(tuple(Collection(max_size=10**6) for _ in limits))
    model = {}
    for o in case['ops']:
        if o[0] == 'strict':
            strict = o[1]
            if conn is not None:
                with conn:
                    conn.strict = strict
                other = db.open(transaction_manager=TransactionManager())
                eq(other.strict, strict, 'strictness seen by another one')
                eq(other.meta.strict, strict, 'strictness reported')
                other.close()
                eq(conn.strict, strict, 'strictness of the connection')
            else:
                c.strict = strict
            for part in (c, c.primary, *c.primary.collections):
                eq(part.strict, strict, 'strictness, later')
            continue
        if o[0] == 'delete':
            must(c.delete if conn is None else conn.delete, o[1],
                 what='delete')
            model.pop(o[1], None)
        else:
            k, v = o[1], o[2]
            if not shadow.has_key(k):
                shadow.insert(k, 1)
            i = next(i for i, s in enumerate(shadow.collections)
                     if s.has_key(k))
            load = sum(1 for m in model if shadow.collections[i].has_key(m))
            kind, val = outcome(c.write if conn is None else conn.update,
                                k, v)
            over = any(sum(1 for m in model if s.has_key(m)) > lim
                       for s, lim in zip(shadow.collections, limits))
            if strict and over and kind == 'exc' and isinstance(val, CAP):
                # switched on above the limit
                pass
            elif strict and k not in model and load >= limits[i]:
                ctx.nontrivial()
                ctx.label('refused')
                if kind == 'ok':
                    raise Violation(f'write({k!r}) exceeded strict limits '
                                    f'{limits}')
                require(isinstance(val, CAP), f'write raised {val!r}')
            else:
                if kind == 'exc':
                    raise Violation(f'write({k!r}) refused: {val!r}; stored '
                                    f'{len(model)}, limits {limits}')
                if k in model and load >= limits[i]:
                    ctx.nontrivial()
                    ctx.label('overwrite in a full collection')
                model[k] = v
        for k in set(model) | {o[1]}:
            want(must(c.read, k, 'absent', what='read'),
                 model.get(k, 'absent'), f'read({k!r}) after {o}')
        eq(c.size, len(model), 'size')


CASES = st.fixed_dictionaries({
    'max': st.integers(1, 4),
    'sizes': st.one_of(
        st.none(), st.none(), *[st.lists(
            st.integers(1, 4), min_size=1, max_size=5)] * 4, st.lists(
            st.integers(1, 2), min_size=11, max_size=31)),
    'how': st.sampled_from(['new', 'custom', 'direct']),
    'strict': st.sampled_from([True, True, False]),
    'ops': oplist(OPS, 5, 20)})

CONTAINER = st.fixed_dictionaries({
    'capacity': st.integers(1, 8), 'cmax': st.integers(1, 4),
    'connected': st.booleans(), 'odd': st.sampled_from([None, 1, 0, 'no']),
    'strict': st.sampled_from([True, True, False]),
    'ops': oplist(st.one_of(
        st.tuples(st.just('write'), KEYS, INTS),
        st.tuples(st.just('write'), KEYS, INTS),
        st.tuples(st.just('write'), KEYS, INTS),
        st.tuples(st.just('strict'), st.booleans()),
        st.tuples(st.just('delete'), KEYS)).map(list), 5, 20)})

TESTS = [
    Test('limits', lambda: CASES, run, quick=8000, procs=8,
         rule='insert/setdefault/update/pop sequences on collections and '
              'groups with limits of 1-4 per collection, strictness toggled '
              'midway; non-trivial = an operation met the limit (refused, '
              'rewrote an existing key while full, or exceeded it while '
              'non-strict)'),
    Test('container', lambda: CONTAINER, run_container, quick=3000, procs=4,
         rule='write/delete sequences on small containers, directly or '
              'through a connection, strictness switched on the way; '
              'non-trivial = a write met a full collection'),
]
