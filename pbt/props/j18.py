"""J18: every type has exactly its properties, however they are looked at."""
from hypothesis import strategies as st

import asgen
from aslib import fresh_web
from core import Test, must, must_raise, require

from jsonld import contextualproperty

ID = 'J18'
LEVEL = 'exploration'
ASSUMPTIONS = ['the vocabulary as far as it is declared here: the language '
               'maps (nameMap...) and the size of images are not supported']

KNOWN = sorted(asgen.KINDS)


def names_of(t):
    """All property names of a type."""
    return set(asgen.PROPS[t]) | {'type'}


def same(a, b):
    """The same value; what is made anew on each read counts as the same."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or (type(a) is type(b) and a == b)


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    spec = case['spec']
    t = spec['t']
    o = must(asgen.build, spec, e)
    cls = type(o)
    listed = [p for p in cls.__get_properties__()]
    require(len(listed) == len(set(listed)), f'{t} lists a property twice')
    have = set(listed) - {'acontext', '__namespace__'}
    require(have == names_of(t), lambda: f'{t} lists '
            f'{sorted(have ^ names_of(t))} too many or too few')
    for name in KNOWN:
        attr = getattr(cls, name, None)
        require(isinstance(attr, property) is (name in names_of(t)),
                lambda: f'{t}.{name} is {attr!r}')
    # one at a time, several, and all
    for name in sorted(names_of(t)):
        direct = getattr(o, name)
        got = must(lambda: o[name])
        require(list(got) == [name] and same(got[name], direct),
                lambda: f'[{name}] gives {got!r}, .{name} {direct!r}')
    if t not in asgen.COLLECTIONS:
        pairs = must(list, o)
        require(sorted(k for k, _ in pairs) == sorted(listed),
                lambda: f'iterating gives {sorted(k for k, _ in pairs)}')
        for k, v in pairs:
            require(same(v, getattr(o, k)),
                    lambda: f'iterating gives {k} = {v!r}')
    known = names_of(t) | {'acontext', '__namespace__'}
    keys = [k for k in case['keys'] if k in known]
    bad = [k for k in case['keys'] if k not in known]
    make = {'list': list, 'tuple': tuple, 'set': set, 'frozen': frozenset,
            'iterable': dict.fromkeys, 'once': iter}[case['as']]
    if bad:
        err = must_raise(KeyError, lambda: o[make(case['keys'])])
        text = str(err)
        require(all(f"'{b}'" in text or f'"{b}"' in text for b in bad) and
                not any(f"'{k}'" in text for k in keys
                        if k not in (t,)),
                lambda: f'{bad} are missing, the error is {text}')
        err = must_raise(KeyError, lambda: o[bad[0]])
    else:
        got = must(lambda: o[make(keys)])
        require(set(got) == set(keys) and all(
            same(got[k], getattr(o, k)) for k in keys),
            lambda: f'{keys} gives {got!r}')
    # setting one does not touch the others
    before = {n: getattr(o, n) for n in names_of(t)}
    for name, v in case['sets']:
        val = asgen.py(v, e)
        must(setattr, o, name, val)
        for n in names_of(t):
            if n != name:
                require(same(getattr(o, n), before[n]),
                        lambda: f'setting {name} of a {t} changed {n}')
        before[name] = getattr(o, name)
    # another object of the same type is not affected
    other = must(cls, **({'href': 'https://a.org/z'}
                         if t in asgen.LINK_TYPES else {}))
    for n in names_of(t) - {'type', 'href'}:
        default = 0 if n in ('totalItems', 'startIndex') else None
        require(getattr(other, n) == default,
                lambda: f'a new {t} has {n} = {getattr(other, n)!r}')
    # (the two base types do not say which they are unless told)
    require(other.data().get('type') == (
        None if t in ('Object', 'Link') else t),
        f'a new {t} has another type')
    ctx.nontrivial(len(spec['p']) > 1 and bool(case['keys']))
    ctx.label('missing key', bool(bad))


def run_derived(case, ctx):
    """Subclasses of the vocabulary's classes, with properties of their
    own."""
    fresh_web()
    e = asgen.engine()
    parent = case['parent']
    base = getattr(e, parent)
    chain, cls = [], base
    if case['asked first']:
        base.__get_properties__()
    for k, names in enumerate(case['levels']):
        ns = {}
        for n in names:
            def get(self, a=f'___{n}_{k}'):
                return getattr(self, a, None)

            def put(self, v, a=f'___{n}_{k}'):
                setattr(self, a, v)
            ns[n] = contextualproperty(get).setter(put)
        cls = type(f'Mine{k}', (cls,), ns)
        chain.append((cls, names))
    want = names_of(parent)
    for cls, names in chain:
        want = want | set(names)
        have = set(cls.__get_properties__()) - {'acontext', '__namespace__'}
        require(have == want, lambda: f'{cls.__name__} lists '
                f'{sorted(have ^ want)} too many or too few')
        kw = {'href': 'https://a.org/z'} if parent in asgen.LINK_TYPES else {}
        o = must(cls, id='https://a.org/o', **kw)
        for n in sorted(want - names_of(parent)):
            setattr(o, n, n + '!')
        data = must(o.data)
        for n in want - names_of(parent):
            require(data.get(n) == n + '!' and o[n] == {n: n + '!'},
                    lambda: f'{cls.__name__}.{n} is written as '
                    f'{data.get(n)!r}')
        require(data.get('id') == 'https://a.org/o' and data.get('type') == (
            None if parent in ('Object', 'Link') else parent),
            lambda: f'{data}')
    have = set(base.__get_properties__()) - {'acontext', '__namespace__'}
    require(have == names_of(parent), lambda: f'{parent} got '
            f'{have ^ names_of(parent)} from a subclass')
    ctx.nontrivial(len(chain) > 1)


@st.composite
def cases(draw):
    spec = draw(asgen.spec(1, asgen.TYPES, 4))
    t = spec['t']
    some = st.sampled_from(sorted(names_of(t)) + ['acontext',
                                                  '__namespace__'])
    bad = st.sampled_from([k for k in KNOWN if k not in names_of(t)] + [
        'nothing', 'Name', '', '_x'])
    settable = [n for n in asgen.PROPS[t] if n != 'href']
    return {'spec': spec,
            'keys': draw(st.lists(some, max_size=3, unique=True) |
                         st.lists(some, max_size=9) | st.lists(some, max_size=50)) +
            draw(st.just([]) | st.lists(bad, max_size=2, unique=True)),
            'as': draw(st.sampled_from(['list', 'tuple', 'set', 'frozen',
                                        'iterable', 'once'])),
            'sets': [[n, draw(asgen.value(n, 0))] for n in draw(st.lists(
                st.sampled_from(settable), max_size=3, unique=True))]}


TESTS = [
    Test('vocabulary', cases, run, quick=1500, procs=8,
         pinned=[{'spec': {'t': t, 'p': {'href': ['s', 'https://a.org/1']}
                           if t in asgen.LINK_TYPES else {}},
                  'keys': [], 'as': 'list', 'sets': []}
                 for t in asgen.TYPES],
         rule='every type (enumerated) and random objects, keys and '
              'assignments; non-trivial = two properties set and keys asked'),
    Test('subclasses', lambda: st.fixed_dictionaries({
        'parent': st.sampled_from(asgen.TYPES),
        'asked first': st.booleans(),
        'levels': st.lists(st.lists(st.sampled_from(['pa', 'pb', 'pc']),
                                    max_size=2, unique=True),
                           min_size=1, max_size=8)}), run_derived, quick=500,
        procs=8, rule='up to eight levels of subclasses with properties; '
        'non-trivial = two or more levels'),
]
