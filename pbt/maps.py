"""Ordered-map model shared by the collection and group checks."""
from hypothesis import strategies as st

from core import Violation, eq, must, must_raise, outcome, require, short

TEXT = st.text(alphabet=st.characters(exclude_categories=('Cs',)), max_size=8)
POOL = ['', 'a', 'b', 'c', 'aa', 'ab', 'k1', 'k2', 'k3', 'k4', 'k5', 'k6',
        'k7', 'k8', 'z', 'é', '\x00', '0', ' ', 'A', 'a ', 'a\n', 'e\u0301',
        'É', '00', 'long ' * 13, 'long ' * 13 + 'a', 'K1']
FEW = ['a', 'b', 'c', 'k1', '']
KEYS = st.one_of(st.sampled_from(FEW), st.sampled_from(FEW),
                 st.sampled_from(FEW), st.sampled_from(POOL), TEXT)


def oplist(ops, small=6, large=30):
    return st.one_of(st.lists(ops, min_size=1, max_size=small),
                     st.lists(ops, min_size=small, max_size=large),
                     st.lists(ops, min_size=large // 2, max_size=large))
VALUES = st.one_of(
    st.integers(-3, 3), st.sampled_from([0, '', False, None, 0.0]),
    st.sampled_from([[], {}, [1], {'a': 1}]), TEXT, st.integers(),
    st.booleans())
INTS = st.integers(-5, 5)


def same(a, b):
    """Equal with equal types all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def want(got, expected, what):
    if not same(got, expected):
        raise Violation(f'{what}: got {short(got)}, expected '
                        f'{short(expected)}')


def multiset(vals):
    return sorted((type(v).__name__, repr(v)) for v in vals)


def bounds():
    return st.tuples(st.none() | KEYS, st.none() | KEYS).map(list)


# what the entries of an update may come from
SOURCES = ['dict', 'dict', 'collection', 'group', 'mapping', 'tree', 'pairs',
           'view', 'generator']


def source(kind, new):
    if kind in ('collection', 'group'):
        from citrine.storage.collection import Collection
        from citrine.storage.group import Group
        out = Collection(strict=False) if kind == 'collection' \
            else Group.new(size=3)
        for k, v in new.items():
            out.insert(k, v)
        return out
    if kind == 'mapping':
        from persistent.mapping import PersistentMapping
        return PersistentMapping(new)
    if kind == 'tree':
        from BTrees.OOBTree import OOBTree
        return OOBTree(new)
    return {'dict': dict, 'pairs': lambda n: list(n.items()),
            'view': lambda n: dict(n).items(),
            'generator': lambda n: ((k, v) for k, v in n.items())}[kind](new)


# the documented names of the arguments of each operation
NAMED = {'get': ('key', 'default'), 'insert': ('key', 'value'),
         'update': ('collection',), 'pop': ('key', 'default'),
         'setdefault': ('key', 'value'), 'iterkeys': ('min', 'max'),
         'itervalues': ('min', 'max'), 'iteritems': ('min', 'max'),
         'byValue': ('min',), 'minKey': ('min',), 'maxKey': ('max',),
         'has_key': ('key',)}
CRUD = {'create': ('id', 'obj'), 'read': ('id', 'default'),
        'update': ('id', 'obj'), 'delete': ('id',), 'write': ('id', 'obj'),
        'has': ('id',)}


def ways(obj, method, names=None):
    """
    The method of the object, to be called with its arguments by position;
    they are handed on by position, by name, or both, depending on what they
    are.
    """
    names = names or NAMED[method]

    def call(*a):
        fn = getattr(obj, method)
        style = sum(len(x) if hasattr(x, '__len__') else 1 for x in a) % 3
        if style == 1 and a:
            return fn(a[0], **dict(zip(names[1:], a[1:])))
        if style == 2:
            return fn(**dict(zip(names, a)))
        return fn(*a)
    call.__name__ = method
    return call


def crud(obj, method):
    """The same for connections and containers."""
    return ways(obj, method, CRUD[method])


def op(values):
    pairs = st.lists(st.tuples(KEYS, values).map(list), max_size=5,
                     unique_by=lambda p: p[0])
    return st.one_of(
        st.tuples(st.just('insert'), KEYS, values),
        st.tuples(st.just('insert'), KEYS, values),
        st.tuples(st.just('insert'), KEYS, values),
        st.tuples(st.just('get'), KEYS, st.none() | values),
        st.tuples(st.just('get_default'), KEYS, values),
        st.tuples(st.just('has_key'), KEYS),
        st.tuples(st.just('update'), pairs, st.sampled_from(SOURCES)),
        st.tuples(st.just('update'), pairs, st.sampled_from(SOURCES)),
        st.tuples(st.just('pop'), KEYS),
        st.tuples(st.just('pop_default'), KEYS, values.filter(
            lambda v: v is not None)),
        st.tuples(st.just('popitem')),
        st.tuples(st.just('setdefault'), KEYS, values),
        st.tuples(st.just('clear')),
        st.tuples(st.just('iterkeys'), bounds()),
        st.tuples(st.just('itervalues'), bounds()),
        st.tuples(st.just('iteritems'), bounds()),
        st.tuples(st.just('iterboth')),
        st.tuples(st.just('minKey'), st.none() | KEYS),
        st.tuples(st.just('maxKey'), st.none() | KEYS),
    ).map(list)


def in_range(model, lo, hi):
    return [k for k in sorted(model)
            if (lo is None or k >= lo) and (hi is None or k <= hi)]


def apply_op(real, model, o, ctx, ordered_values, kwargs=False):
    """
    Applies one operation to the real map and to the model; compares results.
    `ordered_values`: value views come in key order (a single collection).
    """
    name, args = o[0], o[1:]

    def call(method, *a):
        if kwargs and a:
            return getattr(real, method)(*a[1:], key=a[0]) if len(a) == 1 \
                else getattr(real, method)(key=a[0], **{
                    {'insert': 'value', 'setdefault': 'value'}.get(
                        method, 'default'): a[1]})
        return ways(real, method)(*a)

    if name == 'insert':
        k, v = args
        new = k not in model
        got = must(call, 'insert', k, v, what=f'insert({k!r})')
        eq(bool(got), new, f'insert({k!r}) reports whether it was added')
        if new:
            model[k] = v
        else:
            ctx.label('insert over existing key')
    elif name == 'get':
        k = args[0]
        want(must(call, 'get', k, what='get'), model.get(k), f'get({k!r})')
    elif name == 'get_default':
        k, d = args
        want(must(call, 'get', k, d, what='get'), model.get(k, d),
             f'get({k!r}, {d!r})')
    elif name == 'has_key':
        k = args[0]
        eq(bool(must(call, 'has_key', k, what='has_key')), k in model,
           f'has_key({k!r})')
    elif name == 'update':
        new = {k: v for k, v in args[0]}
        arg = source(args[1], new)
        must(ways(real, 'update'), arg, what=f'update of {args[1]}')
        model.update(new)
    elif name == 'pop':
        k = args[0]
        if k in model:
            want(must(call, 'pop', k, what='pop'), model.pop(k),
                 f'pop({k!r})')
            ctx.label('pop of a present key')
        else:
            must_raise(KeyError, call, 'pop', k, what=f'pop({k!r})')
    elif name == 'pop_default':
        k, d = args
        want(must(call, 'pop', k, d, what='pop'), model.pop(k, d),
             f'pop({k!r}, {d!r})')
    elif name == 'popitem':
        if model:
            got = must(real.popitem, what='popitem')
            k = min(model)
            want(tuple(got), (k, model.pop(k)), 'popitem()')
            ctx.label('popitem')
        else:
            must_raise(KeyError, real.popitem, what='popitem() when empty')
    elif name == 'setdefault':
        k, v = args
        want(must(call, 'setdefault', k, v, what='setdefault'),
             model.setdefault(k, v), f'setdefault({k!r})')
    elif name == 'clear':
        must(real.clear)
        model.clear()
    elif name == 'iterkeys':
        lo, hi = args[0]
        ks = in_range(model, lo, hi)
        want(must(lambda: list(ways(real, 'iterkeys')(lo, hi)), what='iterkeys'), ks,
             f'iterkeys({lo!r}, {hi!r})')
        ctx.label('bounded range', len(ks) < len(model))
    elif name == 'itervalues':
        lo, hi = args[0]
        vs = [model[k] for k in in_range(model, lo, hi)]
        got = must(lambda: list(ways(real, 'itervalues')(lo, hi)), what='itervalues')
        if ordered_values:
            want(got, vs, f'itervalues({lo!r}, {hi!r})')
        else:
            want(multiset(got), multiset(vs), f'itervalues({lo!r}, {hi!r})')
    elif name == 'iteritems':
        lo, hi = args[0]
        its = [(k, model[k]) for k in in_range(model, lo, hi)]
        want([tuple(i) for i in must(lambda: list(ways(real, 'iteritems')(
            lo, hi)), what='iteritems')], its,
            f'iteritems({lo!r}, {hi!r})')
    elif name == 'iterboth':
        want(must(lambda: list(real.iterkeys()), what='iterkeys'),
             sorted(model), 'iterkeys()')
        want([tuple(i) for i in must(lambda: list(real.iteritems()),
                                     what='iteritems')],
             [(k, model[k]) for k in sorted(model)], 'iteritems()')
    elif name in ('minKey', 'maxKey'):
        b = args[0]
        fn = ways(real, name)
        ks = in_range(model, b, None) if name == 'minKey' \
            else in_range(model, None, b)
        call_args = () if b is None else (b,)
        if ks:
            want(must(fn, *call_args, what=name),
                 ks[0] if name == 'minKey' else ks[-1], f'{name}({b!r})')
        else:
            must_raise(ValueError, fn, *call_args, what=f'{name}({b!r})')
    elif name == 'byValue':
        lo = args[0]
        pairs = sorted(((v, k) for k, v in model.items()
                        if lo is None or v >= lo), reverse=True)
        got = must(lambda: list(ways(real, 'byValue')(lo)), what='byValue')
        want([tuple(p) for p in got], pairs, f'byValue({lo!r})')
    else:
        raise AssertionError(name)


def compare(real, model, ordered):
    """Every read path shows exactly the model's contents."""
    keys = must(lambda: list(real.keys()), what='keys')
    vals = must(lambda: list(real.values()), what='values')
    items = [tuple(i) for i in must(lambda: list(real.items()), what='items')]
    if ordered:
        want(keys, sorted(model), 'keys()')
        want(vals, [model[k] for k in sorted(model)], 'values()')
        want(items, [(k, model[k]) for k in sorted(model)], 'items()')
    else:
        want(sorted(keys), sorted(model), 'keys()')
        want(sorted(items, key=lambda i: i[0]),
             [(k, model[k]) for k in sorted(model)], 'items()')
        want(multiset(vals), multiset(model.values()), 'values()')
    eq(must(lambda: len(real.keys()), what='len(keys)'), len(model),
       'len(keys())')
    eq(must(lambda: len(real.items()), what='len(items)'), len(model),
       'len(items())')
    eq(must(lambda: len(real.values()), what='len(values)'), len(model),
       'len(values())')
    eq(must(lambda: real.size, what='size'), len(model), 'size')
    for k, v in model.items():
        want(must(real.get, k, what='get'), v, f'get({k!r})')
        require(real.has_key(k), f'has_key({k!r}) is false for a stored key')
        require(k in real.keys(), f'{k!r} not in keys()')
