"""J06: every property accepts exactly its range; a refusal changes nothing."""
from datetime import datetime

from hypothesis import strategies as st
from pyld.jsonld import JsonLdError

import asgen
from aslib import AS, fresh_web
from core import Test, Violation, must, outcome, require

from jsonld.tools import SetterValidator, is_nonnegative

ID = 'J06'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'ranges are those of the vocabulary plus the documented conversions (url '
    'and account text to links, objects with an href to links, time text to '
    'times; url and relationship/formerType also as text)',
    'truth values where numbers are expected and lists inside lists are not '
    'covered; documents that JSON-LD itself refuses may be refused as such']

GOOD_TIMES = ['2014-12-31T23:00:00Z', '2014-02-28T01:02Z',
              '2014-12-31T23:59:59.5-08:00', '1999-01-01T00:00:00+23:59',
              '2014-12-31T23:00:00Z+01:00', '0001-01-01T00:00:00.000001Z']
BAD_TIMES = ['', 'now', '2014-12-31', '2014-12-31T23:00:00',
             '2014-13-31T23:00:00Z', '2014-02-30T23:00:00Z',
             '2014-12-31 23:00:00Z', '2014-12-31T24:00:00Z',
             '2014-12-31T23:60:00Z', '14-12-31T23:00:00Z',
             '2014-12-31T23:00:00Zx', 'x2014-12-31T23:00:00Z',
             '2014-12-31T23:00:00+1:00', '2014-12-31T23:00:00.1234567Z',
             '2014-00-10T23:00:00Z', '2014-12-00T23:00:00Z',
             '2014-12-31T23:00:00+24:00', 'https://', '23:00:00Z']
PLAIN = ['', 'x', 'not a url', 'ftp://a.org/x', 'https://', '/relative',
         'https://bad host/x', 'mailto:', '@', 'acct:', 'None']


def accepts(prop, v):
    kind, functional = asgen.KINDS[prop]
    if v[0] == 'n':
        return True
    if v[0] == 'l':
        return not functional and all(one(kind, x) for x in v[1])
    return one(kind, v)


def one(kind, v):
    tag = v[0]
    if tag == 'n':
        return True
    link = tag in 'uLM' or tag == 'href'
    text = tag in ('s', 'time', 'badtime', 'plain', 'u')
    obj = tag == 'o' and v[1]['t'] not in asgen.LINK_TYPES
    if kind in ('id', 's'):
        return text
    if kind == 'ol':
        return link or obj
    if kind == 'ol|d':
        return link or obj or tag == 'd'
    if kind == 'page':
        return link or (obj and v[1]['t'] in asgen.PAGES)
    if kind == 'coll':
        return link or (obj and v[1]['t'] in asgen.COLLECTIONS)
    if kind == 'url':
        return link or text
    if kind == 'o':
        return obj
    if kind == 'o|s':
        return obj or text
    if kind == 'closed':
        return link or obj or tag in ('dt', 'b', 'time')
    if kind == 's|d':
        return text or tag in ('d', 'href')
    if kind == 'td':
        return tag == 'td' or text
    if kind == 'dt':
        return tag in ('dt', 'time')
    if kind == 'num':
        return tag in ('i', 'f')
    if kind == 'posnum':
        return tag in ('i', 'f') and v[1] >= 0
    if kind == 'posint':
        return tag == 'i' and v[1] >= 0
    raise AssertionError(kind)


def py(v, e):
    if v[0] == 'l':
        return [py(x, e) for x in v[1]]
    if v[0] in ('time', 'badtime', 'plain'):
        return v[1]
    if v[0] == 'href':
        return dict(v[1])
    if v[0] == 'odd':
        return {'object': object(), 'bytes': b'x', 'type': dict,
                'complex': 1j, 'set': {1}, 'tuple': ('x',),
                'numbers': (1,)}[v[1]]
    return asgen.py(v, e)


def doc_value(v):
    """The value in a document, or None if it has none."""
    if v[0] == 'l':
        return [doc_value(x) for x in v[1]]
    if v[0] in ('time', 'badtime', 'plain', 'href'):
        return v[1]
    if v[0] in 'LM':
        return {'type': 'Link' if v[0] == 'L' else 'Mention', **v[1]}
    return asgen.js(v)


def as_link(v):
    if v[0] == 'href':
        return ['L', v[1]]
    if v[0] == 'l':
        return ['l', [as_link(x) for x in v[1]]]
    return v


def same(got, v, prop, e, from_doc):
    kind = asgen.KINDS[prop][0]
    here = f'.{prop}'
    if v[0] == 'n':
        require(got is None, lambda: f'{here} is {got!r}, not None')
    elif v[0] == 'l':
        require(type(got) is list and len(got) == len(v[1]),
                lambda: f'{here} is {got!r} for {v}')
        for g, x in zip(got, v[1]):
            same(g, x, prop, e, from_doc)
    elif v[0] == 'time' and kind in ('dt', 'closed'):
        require(type(got).__name__ == 'datetime',
                lambda: f'{here} is {got!r} for the time {v[1]}')
    elif v[0] == 'u' and kind in ('s', 's|d', 'o|s', 'td', 'id') \
            or v[0] in ('time', 'badtime', 'plain') \
            or v[0] == 'href' and kind == 's|d':
        require(asgen.strict_eq(got, v[1]),
                lambda: f'{here} is {got!r} for the text {v[1]!r}')
    else:
        # links that stand in the document themselves keep their details
        asgen.same_native(got, as_link(v), e, 'init',
                          from_doc and v[0] == 'o', require, here)


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    t, prop, v, route = (case[k] for k in ('type', 'prop', 'value', 'route'))
    good = accepts(prop, v)
    value = py(v, e)
    cls = getattr(e, t)
    base = {'name': 'base', **({} if t not in asgen.LINK_TYPES else
                               {'href': 'https://a.org/base'})}
    errors = ValueError
    if route == 'set':
        o = cls(id='https://a.org/base', **base)
        if case['first'] is not None:
            setattr(o, prop, py(case['first'], e))
        before = o.data()
        raw = getattr(o, prop)
        kind, got = outcome(setattr, o, prop, value)
    elif route == 'init':
        kwargs = {'id': 'https://a.org/base', **base, prop: value}
        kind, got = outcome(lambda: cls(**kwargs))
        o = got
    else:
        errors = (ValueError, JsonLdError)
        doc = {'@context': AS, 'type': t, 'id': 'https://a.org/base', **base,
               prop: doc_value(v)}
        if case['inside'] is not None:
            # refused as a part of another document as well
            place, among = case['inside']
            del doc['@context']
            doc = {'@context': AS, 'type': 'Create', 'name': 'around',
                   place: [{'type': 'Note', 'id': 'https://a.org/other'},
                           doc][-1 - among:]}
        kind, got = outcome(e.from_json, doc)
        o = got
        if case['inside'] is not None and kind == 'ok':
            o = getattr(got, place)[-1]
            require(type(o).__name__ == t, lambda: f'a {t} in a document with '
                    f'{prop} = {v} is {o!r}')
    if good:
        if kind == 'exc':
            raise Violation(f'{t}.{prop} ({route}) refuses {v}: {got!r}')
        if route != 'init' and prop in asgen.LISTS + ('totalItems',) \
                and v[0] == 'n':
            pass
        elif not (v[0] == 'n' and prop in ('totalItems', 'startIndex')):
            same(getattr(o, prop), v, prop, e, route == 'doc')
        must(o.json)
    else:
        require(kind == 'exc',
                lambda: f'{t}.{prop} ({route}) accepts {v}: '
                f'{getattr(o, prop, None)!r}')
        require(isinstance(got, errors),
                lambda: f'{t}.{prop} ({route}) fails on {v} with {got!r} '
                'instead of a ValueError')
        if route == 'set':
            after = must(o.data)
            require(asgen.strict_eq(before, after),
                    lambda: f'refused {t}.{prop} = {v} changed {before} to '
                    f'{after}')
            now = getattr(o, prop)
            require(now is raw or asgen.strict_eq(now, raw),
                    lambda: f'refused {t}.{prop} = {v} changed {raw!r} to '
                    f'{now!r}')
    ctx.nontrivial()
    ctx.label('accepted' if good else 'refused')
    ctx.label(route)
    ctx.label('a good one before a refused one',
              not good and case['first'] is not None)


def other():
    """A value of any kind at all."""
    return st.one_of(
        asgen.TEXT.filter(lambda s: '@' not in s and ':' not in s)
        .map(lambda s: ['plain', s]),
        st.sampled_from(PLAIN).map(lambda s: ['plain', s]),
        st.sampled_from(GOOD_TIMES).map(lambda s: ['time', s]),
        st.sampled_from(BAD_TIMES).map(lambda s: ['badtime', s]),
        asgen.URLS.map(lambda u: ['u', u]),
        asgen.ACCTS.map(lambda u: ['u', u]),
        (st.integers(-3, 3) | st.integers(-10 ** 12, 10 ** 12))
        .map(lambda i: ['i', i]),
        (st.sampled_from([0.0, 1.5, -2.5, -0.5, -1e-9, 1e300, -1e300]) |
         st.floats(-1e9, 1e9))
        .map(lambda f: ['f', f]),
        asgen.DT, asgen.TD,
        asgen.link_spec().map(lambda d: ['L', d]),
        asgen.link_spec().map(lambda d: ['M', d]),
        st.sampled_from([{'q': 1}, {'en': 'x'}, {'href': 'nowhere'}])
        .map(lambda d: ['d', d]),
        asgen.URLS.map(lambda u: ['href', {'href': u}]),
        asgen.spec(0, asgen.OBJECT_TYPES, 1).map(lambda s: ['o', s]),
        asgen.spec(0, asgen.COLLECTIONS, 1).map(lambda s: ['o', s]),
        st.just(['n']))


def odd():
    return st.sampled_from(['object', 'bytes', 'type', 'complex', 'set',
                            'tuple', 'numbers']).map(lambda n: ['odd', n])


def numeric(prop):
    return asgen.KINDS[prop][0] in ('num', 'posnum', 'posint')


@st.composite
def cases(draw):
    prop = draw(st.sampled_from(sorted(asgen.KINDS)))
    t = draw(st.sampled_from([t for t in asgen.TYPES
                              if prop in asgen.PROPS[t]]))
    route = draw(st.sampled_from(['set', 'set', 'init', 'doc']))
    if route == 'doc' and prop == 'id':
        route = 'set'
    one = other()
    if route != 'doc':
        one = one | odd()
    if not numeric(prop):
        one = one | st.booleans().map(lambda b: ['b', b])
    fit = asgen.value(prop, 1)
    member = fit.map(lambda v: v if v[0] != 'l' else (v[1] + [['n']])[0])
    v = draw(st.one_of(one, one, fit, one if route == 'doc' else odd(), *(
        st.lists(m, min_size=1, max_size=most).map(lambda x: ['l', x])
        for m, most in ((one | member, 3), (member, 3),
                        (one | member, 12)))))
    if route == 'doc' and not storable(v):
        route = 'set'
    if route == 'doc':
        v = textual(v)
    first = draw(st.none() | fit) if route == 'set' else None
    inside = draw(st.none() | st.tuples(
        st.sampled_from(['object', 'attachment', 'tag']),
        st.integers(0, 1)).map(list)) if route == 'doc' else None
    return {'type': t, 'prop': prop, 'value': v, 'route': route,
            'inside': inside,
            'first': first}


def textual(v):
    """What is left of a value in a document."""
    if v[0] == 'l':
        return ['l', [textual(x) for x in v[1]]]
    if v[0] == 'dt':
        return ['time', asgen.iso(v)]
    if v[0] == 'td':
        return ['plain', asgen.xsd(v)]
    return v


def storable(v):
    if v[0] == 'l':
        return all(storable(x) for x in v[1])
    return v[0] != 'odd'


class Base:
    pass


class Sub(Base):
    pass


KINDS = {'str': str, 'int': int, 'float': float, 'dict': dict, 'list': list,
         'Base': Base, 'Sub': Sub, 'datetime': datetime}
ITEMS = {'str': ['', 'x', 'forbidden'], 'int': [0, 1, -1, 13, -1000, 10 ** 9],
         'float': [0.0, -0.5, 13.0, -1e9], 'dict': [{}, {'a': 13}],
         'none': [None], 'datetime': [datetime(2014, 1, 1)],
         'bytes': [b'x'], 'complex': [13j]}
OBJECTS = {'Base': Base(), 'Sub': Sub()}


def fits(v, types, functional, none, checks, limit):
    """Whether a validator of these types takes a value."""
    if isinstance(v, list):
        return (not functional or 'list' in types) and all(
            fits(x, types, functional, none, checks, limit) for x in v)
    if v is None:
        if not none:
            return False
    elif not isinstance(v, tuple(KINDS[t] for t in types)):
        return False
    if 'text' in checks and v == 'forbidden':
        return False
    if 'limit' in checks and isinstance(v, (int, float)) and v > limit:
        return False
    return not ('nonnegative' in checks and isinstance(v, (int, float))
                and v < 0)


def run_validator(case, ctx):
    """The validator by itself, as other vocabularies use it."""
    calls, put = [], []

    def text(val, **kw):
        calls.append(kw)
        if val == 'forbidden':
            raise ValueError('forbidden')

    def limit(val, limit=None, **kw):
        if isinstance(val, (int, float)) and val > limit:
            raise ValueError('too much')

    def nonnegative(val, prop='', **kw):
        if isinstance(val, (int, float)):
            is_nonnegative(val, prop, **kw)
    checks = {'text': text, 'limit': limit, 'nonnegative': nonnegative}
    make = {'set': set, 'list': list, 'tuple': tuple,
            'generator': lambda x: (t for t in x)}
    given = make[case['given']]([KINDS[t] for t in case['types']])
    if len(case['types']) == 1 and case['alone']:
        given = KINDS[case['types'][0]]
    v = SetterValidator(
        types=given, functional=case['functional'],
        additional=make[case['checks given']](
            [checks[c] for c in case['checks']]),
        none_allowed=case['none'], limit=case['limit'])

    def setter(obj, val):
        put.append((obj, val))
    setter.__name__ = 'wanted'
    check = must(v.check, setter)
    for spec in case['values']:
        value = build_value(spec)
        good = fits(value, case['types'], case['functional'], case['none'],
                    case['checks'], case['limit'])
        del put[:]
        kind, got = outcome(check, 'the object', value)
        what = f'a validator of {case["types"]} ' \
            f'({"one" if case["functional"] else "one or several"}, ' \
            f'{case["checks"]}) given {value!r}'
        if good:
            require(kind == 'ok', lambda: f'{what} refuses: {got!r}')
            require(len(put) == 1 and put[0][0] == 'the object' and
                    same_value(put[0][1], value),
                    lambda: f'{what} sets {put}')
        else:
            require(kind == 'exc' and isinstance(got, ValueError),
                    lambda: f'{what} gives {kind} {got!r}')
            require(not put, lambda: f'{what} refuses, but sets {put}')
    require(all(kw['prop'] == 'wanted' and kw['limit'] == case['limit']
                for kw in calls), lambda: f'validators were called with '
            f'{calls}')
    ctx.nontrivial(len(case['types']) > 1 or bool(case['checks']))
    ctx.label('additional checks', bool(case['checks']))


def same_value(got, want):
    if isinstance(want, list):
        return type(got) is list and len(got) == len(want) and all(
            map(same_value, got, want))
    return got is want or (type(got) is type(want) and got == want)


def build_value(s):
    if s[0] == 'l':
        return [build_value(x) for x in s[1]]
    if s[0] in OBJECTS:
        return OBJECTS[s[0]]
    return ITEMS[s[0]][s[1]]


@st.composite
def validators(draw):
    leaf = st.one_of([st.tuples(st.just(k), st.integers(0, len(v) - 1))
                      .map(list) for k, v in ITEMS.items()] +
                     [st.sampled_from(sorted(OBJECTS)).map(lambda k: [k])])
    types = draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=1,
                          max_size=4, unique=True))
    fit = [st.tuples(st.just(k), st.integers(0, len(ITEMS[k]) - 1)).map(list)
           for k in types if k in ITEMS]
    leaf = st.one_of([leaf] + fit + fit)
    return {
        'types': types, 'functional': draw(st.booleans()),
        'given': draw(st.sampled_from(['set', 'list', 'tuple', 'generator'])),
        'alone': draw(st.booleans()),
        'checks given': draw(st.sampled_from(
            ['list', 'tuple', 'tuple', 'generator'])),
        'checks': draw(st.lists(st.sampled_from(
            ['text', 'limit', 'nonnegative']), max_size=3, unique=True)),
        'limit': draw(st.integers(0, 12)), 'none': draw(st.booleans()),
        'values': draw(st.lists(st.one_of(leaf, leaf, st.lists(
            leaf | st.lists(leaf, max_size=2).map(lambda x: ['l', x]),
            max_size=draw(st.sampled_from([3, 3, 12]))).map(
                lambda x: ['l', x])), min_size=1, max_size=5))}


TESTS = [
    Test('validator', validators, run_validator, quick=2500, procs=8,
         rule='setters guarded by random types and additional checks, given '
              'values of every kind, lists and lists in lists; non-trivial = '
              'several types or an additional check'),
    Test('ranges', cases, run, quick=4000, procs=8,
         rule='every property of every type given values of every kind, '
              'singly and in lists, by assignment, constructor or document; '
              'every case counts'),
]
