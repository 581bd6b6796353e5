"""
The ActivityStreams vocabulary as a reference (written from the W3C document,
not from the code), generators of objects as plain data, and what such an
object must look like in JSON.

A *spec* is {'t': class, 'p': {property: value}}, and 'c' for a context
that is not the default one; values are tagged lists:
['s', text] ['i', n] ['f', x] ['b', bool] ['dt', y, mo, d, h, mi, s, us, offset]
['td', days, seconds, us] ['u', url] ['L', {link properties}] ['M', {...}]
['o', spec] ['l', [values]] ['d', plain dict] ['n'] (None)
"""
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from aslib import AS

# type -> parents
PARENTS = {
    'Object': [], 'Link': [], 'Mention': ['Link'],
    'Activity': ['Object'], 'IntransitiveActivity': ['Activity'],
    'Collection': ['Object'], 'OrderedCollection': ['Collection'],
    'CollectionPage': ['Collection'],
    'OrderedCollectionPage': ['OrderedCollection', 'CollectionPage'],
    'TentativeAccept': ['Accept'], 'TentativeReject': ['Reject'],
    'Invite': ['Offer'], 'Block': ['Ignore'],
    'Arrive': ['IntransitiveActivity'], 'Travel': ['IntransitiveActivity'],
    'Question': ['IntransitiveActivity'],
}
for _n in ('Accept Add Create Delete Follow Ignore Join Leave Like Offer '
           'Reject Remove Undo Update View Listen Read Move Announce Flag '
           'Dislike').split():
    PARENTS[_n] = ['Activity']
for _n in ('Application Group Organization Person Service Relationship '
           'Article Document Note Event Place Profile Tombstone').split():
    PARENTS[_n] = ['Object']
for _n in 'Audio Image Video Page'.split():
    PARENTS[_n] = ['Document']
TYPES = sorted(PARENTS)


def ancestors(t):
    out = {t}
    for p in PARENTS[t]:
        out |= ancestors(p)
    return out


# property -> (kind, functional)
KINDS = {
    'id': ('id', True),
    'replies': ('coll', True), 'partOf': ('coll', True),
    'url': ('url', False), 'subject': ('ol', True),
    'relationship': ('o|s', False), 'describes': ('o', True),
    'formerType': ('o|s', False), 'closed': ('closed', False),
    'name': ('s|d', False), 'tag': ('ol|d', False),
    'duration': ('td', True), 'radius': ('posnum', True),
}
for _n in ('attachment attributedTo audience bcc bto cc context generator '
           'icon image inReplyTo instrument location origin object preview '
           'result target to items orderedItems unorderedItems oneOf anyOf '
           'actor').split():
    KINDS[_n] = ('ol', False)
for _n in 'current first last next prev'.split():
    KINDS[_n] = ('page', True)
for _n in 'content summary rel'.split():
    KINDS[_n] = ('s', False)
for _n in 'mediaType href hreflang units'.split():
    KINDS[_n] = ('s', True)
for _n in 'endTime published startTime updated deleted'.split():
    KINDS[_n] = ('dt', True)
for _n in 'accuracy altitude latitude longitude'.split():
    KINDS[_n] = ('num', True)
for _n in 'height width startIndex totalItems'.split():
    KINDS[_n] = ('posint', True)

OWN = {
    'Object': 'id attachment attributedTo audience content context name '
              'endTime generator icon image inReplyTo location preview '
              'published replies startTime summary tag updated url to bto cc '
              'bcc mediaType duration',
    'Link': 'id href rel mediaType name hreflang height width preview',
    'Activity': 'actor object target result origin instrument',
    'Collection': 'totalItems current first last items orderedItems '
                  'unorderedItems',
    'CollectionPage': 'partOf next prev',
    'OrderedCollectionPage': 'startIndex',
    'Question': 'oneOf anyOf closed',
    'Relationship': 'subject object relationship',
    'Place': 'accuracy altitude latitude longitude radius units',
    'Profile': 'describes',
    'Tombstone': 'formerType deleted',
}


def props_of(t):
    out = set()
    for a in ancestors(t):
        out |= set(OWN.get(a, '').split())
    return sorted(out)


PROPS = {t: props_of(t) for t in TYPES}
OBJECT_TYPES = [t for t in TYPES if 'Object' in ancestors(t)]
LINK_TYPES = ['Link', 'Mention']
COLLECTIONS = [t for t in TYPES if 'Collection' in ancestors(t)]
PAGES = [t for t in TYPES if 'CollectionPage' in ancestors(t)]
LISTS = ('items', 'orderedItems', 'unorderedItems')

# ---------------------------------------------------------------- generators
HOSTS = ['a.org', 'x-1.example.com:8080', 'b_c.net']
TEXT = st.text(max_size=8) | st.sampled_from(
    ['', 'x', 'None', 'True', 'null', 'https://not-a-link.org/in-text',
     'a "quoted" \\ <b>', 'été', '@context', 'Link', 'e\u0301', 'line\r\nend\n',
     ' around\t', '\u2028\x00', '\U0001f600', '1', '0.0', 'long ' * 60])
URLS = st.builds('{}://{}{}'.format, st.sampled_from(['http', 'https']),
                 st.sampled_from(HOSTS), st.sampled_from(
                     ['', '/', '/1', '/u/2?q=1&r=2#f', '/@me', '/á b']))
ACCTS = st.sampled_from(['acct:me@a.org', 'you@b.net'])
INTS = st.integers(0, 3) | st.integers(0, 10 ** 12) | st.sampled_from(
    [2 ** 53 + 1, 2 ** 63, 10 ** 16 + 1, 10 ** 30])
FLOATS = st.sampled_from([0.0, -0.5, 36.75, 94.0, 1e-7, -180.0]) | st.floats(
    allow_nan=False, allow_infinity=False)
DT = st.tuples(
    st.just('dt'), st.integers(1000, 2300) | st.sampled_from([1, 999, 9999]),
    st.integers(1, 12), st.integers(1, 28), st.integers(0, 23),
    st.integers(0, 59), st.integers(0, 59),
    st.sampled_from([0, 0, 0, 500000, 1, 120]) | st.integers(0, 999999),
    st.sampled_from([None, None, 0, 60, -300, 330, -1, 14 * 60])).map(list)
TD = st.tuples(
    st.just('td'), st.integers(-3, 900), st.integers(0, 86399),
    st.sampled_from([0, 0, 0, 500000, 1])).map(list) | st.sampled_from(
        [['td', 0, 0, 0], ['td', 365, 0, 0], ['td', 30, 3600, 0],
         ['td', 0, 59, 10], ['td', -1, 86399, 0]])
JSONV = st.recursive(
    st.none() | st.booleans() | st.integers(-5, 5) | st.just(1.5) |
    st.sampled_from(['', 'v', 'https://a.org/9']),
    lambda c: st.lists(c, max_size=2) |
    st.dictionaries(st.sampled_from(['q', 'w', 'z']), c, max_size=2),
    max_leaves=4)


# (what stands at this address is in asdoc)
EXT = 'https://ext.example.com/ctx'
CONTEXTS = [AS, [AS], [AS, EXT], [AS, {'@language': 'en'}],
            [AS, {'sec': 'https://w3id.org/security#',
                  'publicKey': 'sec:publicKey'}],
            {'@vocab': AS + '#', 'as': AS + '#', 'type': '@type',
             'id': '@id', 'sec': 'https://w3id.org/security#'},
            [AS, EXT, {'@language': 'en'},
             {'sec': 'https://w3id.org/security#'},
             {'publicKey': 'sec:publicKey'}]]


def contexts(specs, more=()):
    """Objects, some with a context of their own."""
    return st.builds(
        lambda s, c: s if c is None else {**s, 'c': c}, specs,
        st.none() | st.sampled_from(CONTEXTS + list(more)))


def nested_contexts(specs, more=()):
    """Objects inside which some have contexts of their own, which are not
    written."""
    def put(s, cs):
        cs = list(cs)

        def walk(v):
            if v[0] == 'o':
                c = cs.pop(0) if cs else None
                inner = {**v[1], 'p': {k: walk(w)
                                       for k, w in v[1]['p'].items()}}
                return ['o', inner if c is None else {**inner, 'c': c}]
            if v[0] == 'l':
                return ['l', [walk(w) for w in v[1]]]
            return v
        return {**s, 'p': {k: walk(w) for k, w in s['p'].items()}}
    return st.builds(put, specs, st.just([]) | st.lists(
        st.none() | st.sampled_from(CONTEXTS + list(more)), min_size=1,
        max_size=4))


def txt(s):
    return ['s', s]


def many(one, least=0, plain=None):
    """One value, or a list of them, seldom a long one."""
    return st.one_of(
        one, one, one, st.lists(one, min_size=least, max_size=3)
        .map(lambda v: ['l', v]), st.lists(one, min_size=least, max_size=3)
        .map(lambda v: ['l', v]), st.builds(
            lambda v, w: ['l', w + v if w else v],
            st.lists(one, min_size=least, max_size=1), st.none() if
            plain is None else st.lists(plain, min_size=4, max_size=14)))


def link_spec():
    return st.fixed_dictionaries({'href': URLS}, optional={
        'name': TEXT, 'mediaType': TEXT, 'hreflang': TEXT,
        'rel': TEXT, 'height': INTS, 'width': INTS, 'id': URLS})


def reference(depth, objs):
    opts = [URLS.map(lambda u: ['u', u]), ACCTS.map(lambda u: ['u', u]),
            link_spec().map(lambda d: ['L', d]),
            link_spec().map(lambda d: ['M', d])]
    if depth > 0:
        o = spec(depth - 1, objs).map(lambda s: ['o', s])
        opts += [o, o, o]
    return st.one_of(opts)


def value(prop, depth):
    kind, functional = KINDS[prop]
    if kind == 'id':
        return URLS.map(txt)
    if kind == 'ol':
        r = reference(depth, OBJECT_TYPES)
        return r if functional else many(
            r, 0, reference(0, OBJECT_TYPES) | OBJS)
    if kind == 'ol|d':
        return many(reference(depth, OBJECT_TYPES) | st.dictionaries(
            st.sampled_from(['q', 'w', 'z']), JSONV, min_size=1,
            max_size=2).map(lambda d: ['d', d]), 0,
            reference(0, OBJECT_TYPES) | OBJS)
    if kind == 'page':
        return reference(depth, PAGES)
    if kind == 'coll':
        return reference(depth, COLLECTIONS)
    if kind == 'url':
        return many(URLS.map(lambda u: ['u', u]) |
                    link_spec().map(lambda d: ['L', d]) |
                    st.sampled_from(['relative/path', 'urn:x:1', 'x y'])
                    .map(txt), 0, URLS.map(lambda u: ['u', u]))
    if kind in ('o', 'o|s'):
        o = spec(max(depth - 1, 0), OBJECT_TYPES).map(lambda s: ['o', s])
        if kind == 'o':
            return o
        return many(TEXT.map(txt) | o, 0, TEXT.map(txt))
    if kind == 'closed':
        return many(DT | st.booleans().map(lambda b: ['b', b]) |
                    reference(depth, OBJECT_TYPES))
    if kind == 's|d':
        return many(TEXT.map(txt) | st.dictionaries(
            st.sampled_from(['en', 'fr']), TEXT, min_size=1, max_size=2)
            .map(lambda d: ['d', d]))
    if kind == 's':
        return TEXT.map(txt) if functional else many(
            TEXT.map(txt), 0, TEXT.map(txt))
    if kind == 'td':
        return TD | TEXT.map(txt)
    if kind == 'dt':
        return DT
    if kind == 'num':
        return FLOATS.map(lambda f: ['f', f]) | st.integers(
            -200, 200).map(lambda i: ['i', i])
    if kind == 'posnum':
        return FLOATS.map(lambda f: ['f', abs(f)]) | INTS.map(
            lambda i: ['i', i])
    if kind == 'posint':
        return INTS.map(lambda i: ['i', i])
    raise AssertionError(kind)


@st.composite
def spec(draw, depth=2, types=None, more=4):
    t = draw(st.sampled_from(types or OBJECT_TYPES))
    names = PROPS[t]
    # the type's own properties as often as the many it inherits
    own = [p for p in names if p not in OWN['Object'].split()]
    some = st.sampled_from(names)
    if own:
        some = some | st.sampled_from(own)
    # seldom nearly all of them
    full = more == 4 and depth > 0 and draw(st.integers(0, 24)) == 24
    chosen = draw(st.lists(some, min_size=12, max_size=30, unique=True)
                  if full and len(names) > 16 else
                  st.lists(some, max_size=more, unique=True))
    if sum(p in LISTS for p in chosen) > 1:
        keep = [p for p in chosen if p in LISTS][0]
        chosen = [p for p in chosen if p not in LISTS or p == keep]
    p = {name: draw(value(name, 0 if full else depth)) for name in chosen}
    if depth > 0 and draw(st.integers(0, 2)):
        # objects inside, single or in a list
        name = draw(st.sampled_from(
            [n for n in names if KINDS[n][0] in ('ol', 'ol|d')
             and (n not in LISTS or not set(LISTS) & set(p))]))
        if p.get(name, ['', []])[0] != 'l':
            one = spec(depth - 1, OBJECT_TYPES, more).map(lambda s: ['o', s])
            p[name] = draw(one if KINDS[name][1] else many(one, 1))
    if t in LINK_TYPES and 'href' not in p:
        p['href'] = txt(draw(URLS))
    return {'t': t, 'p': p}


# the plainest value of each kind: false, nothing, or empty
PLAIN = {'closed': [['b', False], ['b', True], ['l', [['b', False]]]],
         'num': [['i', 0], ['f', 0.0], ['i', -1], ['f', -0.5]],
         'posnum': [['i', 0], ['f', 0.0], ['i', 1]],
         'posint': [['i', 0], ['i', 1]],
         's': [['s', ''], ['s', 'x'], ['s', '0']],
         's|d': [['s', ''], ['s', 'x'], ['d', {'en': ''}]],
         'td': [['td', 0, 0, 0], ['td', 0, 0, 1], ['td', -1, 86399, 0]],
         'o|s': [['s', ''], ['o', {'t': 'Object', 'p': {}}]],
         'url': [['u', 'https://a.org'], ['s', 'relative/path']]}


@st.composite
def single(draw, least=1, most=3, types=None):
    """Each property as likely as the other, on any type that has it, often
    with the plainest of values; at most a few of them at once."""
    name = draw(st.sampled_from(sorted(KINDS)))
    # where it is declared as often as where it is inherited
    own = [t for t in types or TYPES if name in OWN.get(t, '').split()]
    every = [t for t in types or TYPES if name in PROPS[t]]
    t = draw(st.sampled_from(own) | st.sampled_from(every) if own else
             st.sampled_from(every))
    names = [name]
    for n in draw(st.lists(st.sampled_from(PROPS[t]), unique=True,
                           min_size=least - 1, max_size=most - 1)):
        if n not in names and not (n in LISTS and set(names) & set(LISTS)):
            names.append(n)
    p = {}
    for n in names:
        v = value(n, 0)
        kind, functional = KINDS[n]
        plain = [w for w in PLAIN.get(kind, []) if not functional
                 or w[0] != 'l']
        if kind == 's' and not functional:
            plain.append(['l', [['s', '']]])
        if not functional:
            plain.append(['l', []])
        p[n] = draw(v | st.sampled_from(plain) if plain else v)
    if t in LINK_TYPES and 'href' not in p:
        p['href'] = txt(draw(URLS))
    return {'t': t, 'p': p}


U, O = ['u', 'https://a.org/1'], {'t': 'Note', 'p': {'name': ['s', 'in']}}
TYPICAL = {'id': ['s', 'https://a.org/1'], 'ol': U, 'ol|d': U, 'coll': U,
           'page': U, 'url': U, 'closed': ['b', True], 'o': ['o', O],
           'o|s': ['s', 'x'], 's|d': ['s', 'x'], 's': ['s', 'x'],
           'td': ['td', 1, 2, 3], 'num': ['f', 1.5], 'posnum': ['f', 1.5],
           'posint': ['i', 7],
           'dt': ['dt', 2020, 2, 29, 1, 2, 3, 4, None]}


def every(types=None):
    """One property at a time: each on each type that has it, with a typical
    value and the plainest ones."""
    for t in types or TYPES:
        for name in PROPS[t]:
            kind, functional = KINDS[name]
            values = [TYPICAL[kind], *PLAIN.get(kind, [])]
            if not functional:
                values += [['l', []], ['l', [TYPICAL[kind]]]]
                if kind.startswith('ol'):
                    values += [['l', [U, ['o', O], U]]]
            else:
                values = [v for v in values if v[0] != 'l']
            if t not in ('Object', 'Link') and name not in OWN.get(
                    t, '').split():
                values = values[:2] + values[-2:]
            for v in values:
                yield {'t': t, 'p': {
                    name: v, **({'href': ['s', 'https://a.org']} if t in
                                LINK_TYPES and name != 'href' else {})}}


def plainest(v):
    """Is this one a value that is not there if asked for its truth?"""
    return (v[0] in 'sifb' and not v[1]) or (
        v[0] == 'td' and not any(v[1:])) or (
            v[0] == 'l' and (not v[1] or any(plainest(w) for w in v[1])))


# a small object, for long lists
OBJS = st.builds(lambda t, n: ['o', {'t': t, 'p': {'name': ['s', n]}}],
                 st.sampled_from(OBJECT_TYPES), TEXT)


@st.composite
def tower(draw, least=5, most=20):
    """An object in an object in an object..."""
    inner = draw(spec(1, OBJECT_TYPES, 3))
    for _ in range(draw(st.integers(least, most))):
        t = draw(st.sampled_from(OBJECT_TYPES))
        name = draw(st.sampled_from([n for n in PROPS[t]
                                     if KINDS[n][0] in ('ol', 'ol|d')]))
        v = ['o', inner]
        if not KINDS[name][1] and draw(st.booleans()):
            v = ['l', [v]]
        inner = {'t': t, 'p': {name: v}}
        if draw(st.booleans()):
            inner['p']['summary'] = ['s', draw(TEXT)]
    return inner


# ------------------------------------------------------------------- building
def py(v, engine, via='init', models=None):
    """The Python value a tagged value stands for."""
    tag = v[0]
    if tag in 'sifbud':
        return v[1]
    if tag == 'n':
        return None
    if tag == 'dt':
        return dt(v)
    if tag == 'td':
        return timedelta(days=v[1], seconds=v[2], microseconds=v[3])
    if tag == 'L':
        return (models or engine).Link(**v[1])
    if tag == 'M':
        return (models or engine).Mention(**v[1])
    if tag == 'o':
        return build(v[1], engine, via, models)
    if tag == 'l':
        return [py(x, engine, via, models) for x in v[1]]
    raise AssertionError(tag)


def dt(v):
    tz = None if v[8] is None else timezone(timedelta(minutes=v[8]))
    return datetime(*v[1:8], tzinfo=tz)


def build(spec, engine, via='init', models=None):
    cls = getattr(models or engine, spec['t'])
    values = {k: py(v, engine, via, models) for k, v in spec['p'].items()}
    named = {'acontext': spec['c']} if 'c' in spec else {}
    if spec['t'] in ('Object', 'Link'):
        named['type'] = spec['t']
    if via == 'init':
        return cls(**{**values, **named})
    o = cls(**named)
    for k, v in values.items():
        setattr(o, k, v)
    return o


# ------------------------------------------------------------------ expected
def iso(v):
    _, y, mo, d, h, mi, s, us, off = v
    out = f'{y:04d}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}:{s:02d}'
    if us:
        out += f'.{us:06d}'
    if not off:
        return out + 'Z'
    sign = '-' if off < 0 else '+'
    return out + f'{sign}{abs(off) // 60:02d}:{abs(off) % 60:02d}'


def xsd(v):
    """xsd:duration with 365-day years and 30-day months."""
    total = (v[1] * 86400 + v[2]) * 10 ** 6 + v[3]
    sign = '-' if total < 0 else ''
    total = abs(total)
    us = total % 10 ** 6
    secs = total // 10 ** 6
    days, secs = divmod(secs, 86400)
    years, days = divmod(days, 365)
    months, days = divmod(days, 30)
    hours, secs = divmod(secs, 3600)
    mins, secs = divmod(secs, 60)
    frac = f'{us:06d}'.rstrip('0')
    date = ''.join(f'{n}{c}' for n, c in ((years, 'Y'), (months, 'M'),
                                          (days, 'D')) if n)
    time = ''.join(f'{n}{c}' for n, c in ((hours, 'H'), (mins, 'M')) if n)
    if secs or frac:
        time += str(secs) + ('.' + frac if frac else '') + 'S'
    if not date and not time:
        time = '0S'
    return sign + 'P' + date + ('T' + time if time else '')


def js(v, via='init'):
    """The JSON value a tagged value must become."""
    tag = v[0]
    if tag in 'sifbud':
        return v[1]
    if tag == 'n':
        return None
    if tag == 'dt':
        return iso(v)
    if tag == 'td':
        return xsd(v)
    if tag in 'LM':
        return v[1]['href']
    if tag == 'o':
        return expected(v[1], via)
    if tag == 'l':
        return [js(x, via) for x in v[1]]
    raise AssertionError(tag)


def expected(spec, via='init', context=None):
    """The document of an object, without None values."""
    t, p = spec['t'], spec['p']
    out = {'type': t}
    out.update((k, js(v, via)) for k, v in p.items())
    if t in COLLECTIONS and 'totalItems' not in p:
        out['totalItems'] = 0
        if via == 'init':
            out['totalItems'] = sum(len(p[k][1]) for k in LISTS
                                    if k in p and p[k][0] == 'l')
    if t == 'OrderedCollectionPage' and 'startIndex' not in p:
        out['startIndex'] = 0
    if context is not None:
        out['@context'] = spec.get('c', context)
    return out


def strict_eq(a, b):
    """Equal as JSON: 1, 1.0 and true are different things."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(strict_eq, a, b))
    return a == b


def size(spec):
    """(objects, references, lists) in a spec."""
    n = [1, 0, 0]

    def walk(v):
        if v[0] == 'o':
            for i, x in enumerate(size(v[1])):
                n[i] += x
        elif v[0] in 'uLM':
            n[1] += 1
        elif v[0] == 'l':
            n[2] += 1
            for x in v[1]:
                walk(x)
    for v in spec['p'].values():
        walk(v)
    return n


def depth_of(spec):
    best = 0

    def walk(v):
        if v[0] == 'o':
            return 1 + depth_of(v[1])
        if v[0] == 'l':
            return max([walk(x) for x in v[1]], default=0)
        return 0
    for v in spec['p'].values():
        best = max(best, walk(v))
    return best


_ENGINE = None


def engine():
    """One engine per process for the checks that do not look at sharing."""
    global _ENGINE
    if _ENGINE is None:
        from activitystreams import create_engine
        _ENGINE = create_engine()
    return _ENGINE


assert AS


# --------------------------------------------------------------- native view
def check_native(o, spec, e, via, from_doc, require, path=''):
    """Every property read back from the object is the value it was given
    (links that cannot be opened stay links)."""
    t, p = spec['t'], spec['p']
    cls = getattr(e, t)
    require(type(o) is cls, lambda: f'{path}: a {type(o)} instead of {cls}')
    require(o.type == t, lambda: f'{path}.type is {o.type!r}, not {t!r}')
    want = expected(spec, via)
    for name in PROPS[t]:
        got = getattr(o, name)
        here = f'{path}.{name}'
        if name not in p:
            default = want.get(name)
            require(strict_eq(got, default),
                    lambda: f'{here} is {got!r}, not {default!r}')
            continue
        same_native(got, p[name], e, via, from_doc, require, here)


def same_native(got, v, e, via, from_doc, require, here):
    tag = v[0]
    if tag == 'l':
        require(type(got) is list and len(got) == len(v[1]),
                lambda: f'{here}: {got!r} for a list of {len(v[1])}')
        for i, (g, w) in enumerate(zip(got, v[1])):
            same_native(g, w, e, via, from_doc, require, f'{here}[{i}]')
    elif tag == 'o':
        check_native(got, v[1], e, via, from_doc, require, here)
    elif tag in 'uLM':
        href = v[1] if tag == 'u' else v[1]['href']
        cls = e.Mention if tag == 'M' and not from_doc else e.Link
        require(type(got) is cls, lambda: f'{here}: {type(got)}, not {cls}')
        require(got.href == href,
                lambda: f'{here}.href is {got.href!r}, not {href!r}')
        if tag != 'u' and not from_doc:
            for k, w in v[1].items():
                require(strict_eq(getattr(got, k), w),
                        lambda: f'{here}.{k} is {getattr(got, k)!r}, '
                        f'not {w!r}')
    elif tag == 'dt':
        w = dt(v)
        if from_doc and v[8] == 0:
            w = w.replace(tzinfo=None)
        require(isinstance(got, datetime) and
                got.replace(tzinfo=None) == w.replace(tzinfo=None) and
                got.utcoffset() == w.utcoffset(),
                lambda: f'{here} is {got!r}, not {w!r}')
    elif tag == 'td':
        w = xsd(v) if from_doc else timedelta(v[1], v[2], v[3])
        require(type(got) is type(w) and got == w,
                lambda: f'{here} is {got!r}, not {w!r}')
    else:
        w = js(v)
        require(strict_eq(got, w), lambda: f'{here} is {got!r}, not {w!r}')
