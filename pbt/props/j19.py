"""J19: vocabularies of one's own are written and read like the built-in one."""
import copy
import json
from collections import OrderedDict, deque
from decimal import Decimal
from uuid import UUID

from hypothesis import strategies as st

from aslib import fresh_web
from core import Test, must, must_raise, require

from jsonld import ApplicationActivityJson, JsonLdEngine, JsonLdPackage, \
    JsonProperty, PropertyJsonLD, contextualproperty

ID = 'J19'
LEVEL = 'exploration'
ASSUMPTIONS = ['classes take their fields as keyword arguments, as the '
               'engine gives them; fields are not named like JSON-LD '
               'keywords; a typed object of no known class inside is left '
               'out (None), by design']

VOC = 'https://own.example/ns#'
NAMES = ['p0', 'p1', 'p2', 'p3', 'p4']
KEYS = ['a', 'b', 'p0', 'zz']


class Text(str):
    """A text of a class of its own."""


def accessors(name, tag, plain):
    def get(self):
        return getattr(self, f'___{name}___', None)

    def put(self, v):
        setattr(self, f'___{name}___', v)
        self.__dict__.setdefault('_set_by', {})[name] = tag
    if plain:
        return property(get, put)
    return contextualproperty(get).setter(put)


def fixed(tag, plain):
    """A property that can only be read."""
    def get(self):
        return tag
    return property(get) if plain else contextualproperty(get)


def make_class(i, spec, bases, made):
    def other(self, j, fields):
        return made[j](**fields)
    def init(self, acontext=None, **kw):
        base.__init__(self, acontext=acontext)
        for k, v in kw.items():
            if k in NAMES:
                setattr(self, k, v)
    base = PropertyJsonLD if spec['plain'] else ApplicationActivityJson
    return type(f'C{i}', tuple(bases) or (base,), {
        '__get_namespace__': classmethod(
            lambda c: 'default' if spec['default'] else f'{VOC}C{i}'),
        '__init__': init, f'make{i}': other,
        f'stat{i}': staticmethod(lambda j, fields: made[j](**fields)),
        f'Inner{i}': type(f'Inner{i}', (), {}),
        **({'fixed': fixed(f'C{i}', i % 2 == 1)} if spec['fixed'] else {}),
        **{n: accessors(n, f'C{i}', i % 2 == 1) for n in spec['own']}})


def make_property(n, plain, root):
    """[the class of property n, the class it is derived from if that is to
    be in the package]"""
    if not root:
        return [type(f'{n}_property', (JsonProperty,), {
            '__get_namespace__': classmethod(lambda c: f'{VOC}{n}'),
            n: accessors(n, 'mapped', plain)})]
    taken = root['kind'] == 'taken'
    top = 'zz' if root['kind'] == 'other' else n
    parent = type(f'{n}_root', (JsonProperty,), {
        '__get_namespace__': classmethod(lambda c: f'{VOC}root_{n}'),
        top: accessors(top, 'mapped' if taken else 'root', plain)})
    if root['used before']:
        parent.__get_registration__()
    child = type(f'{n}_property', (parent,), {
        '__get_namespace__': classmethod(lambda c: f'{VOC}{n}'),
        **({} if taken else {n: accessors(n, 'mapped', plain)})})
    return [child] + [parent] * root['packaged']


GIVEN = {'tuple': tuple, 'list': list, 'keys': dict.fromkeys,
         'once': iter}


class World:
    def __init__(self, case):
        self.specs = case['classes']
        self.base = []
        for i, s in enumerate(self.specs):
            self.base.append(make_class(
                i, s, [self.base[p] for p in s['parents']], self.base))
        self.mapped = {n for s in self.specs for n in s['mapped']}
        order = [self.base[i] for i in case['order']]
        given = GIVEN[case['given']]
        mapping = {self.namespace(i): given([f'{VOC}{n}' for n in s['mapped']])
                   for i, s in enumerate(self.specs) if s['mapped']}
        props = [c for n in sorted(self.mapped) for c in make_property(
            n, n in 'p1p3', case['roots'].get(n))]
        if case['backwards']:
            props.reverse()
        self.pkg = must(JsonLdPackage, namespace='own', objects=given(order),
                        properties=given(props), property_mapping=mapping)
        if case['added']:
            # an addition makes the classes anew
            empty = JsonLdPackage(namespace='empty')
            self.pkg = must(lambda: self.pkg + empty)
        self.engine = must(JsonLdEngine, self.pkg)
        self.default = next((i for i, s in enumerate(self.specs)
                             if s['default']), None)

    def namespace(self, i):
        return 'default' if self.specs[i]['default'] else f'{VOC}C{i}'

    def made(self, i):
        """{field: who defines it} of class i"""
        out = {}
        for c in self.base[i].__mro__:
            if c not in self.base:
                continue
            s = self.specs[self.base.index(c)]
            for n in s['mapped']:
                out.setdefault(n, 'mapped')
            for n in s['own']:
                out.setdefault(n, c.__name__)
        return out

    def own(self, i):
        """{field: who defines it} of the plain class i"""
        out = {}
        for c in self.base[i].__mro__:
            if c in self.base:
                for n in self.specs[self.base.index(c)]['own']:
                    out.setdefault(n, c.__name__)
        return out

    def fixed(self, i):
        """{field: value} of what cannot be set"""
        return next(({'fixed': c.__name__} for c in self.base[i].__mro__
                     if c in self.base
                     and self.specs[self.base.index(c)]['fixed']), {})

    def cls(self, i):
        return getattr(self.engine, f'C{i}')


class Several:
    """A list in any order."""

    def __init__(self, items):
        self.items = items

    def __eq__(self, other):
        return isinstance(other, list) and \
            sorted(map(repr, other)) == sorted(map(repr, self.items))

    def __repr__(self):
        return f'<{self.items} in any order>'


def build(w, v):
    """(the value as Python holds it, as it is to be written)"""
    kind, x = v
    if kind == 'plain':
        return x, x
    if kind == 'text':
        return Text(x), x
    if kind == 'other':
        o = {'d': Decimal, 'u': lambda s: UUID(int=len(s))}[x[0]](x[1:])
        return o, str(o)
    if kind == 'range':
        return range(x), list(range(x))
    if kind == 'object':
        return make(w, x)
    if kind in ('set', 'frozenset'):
        return (set if kind == 'set' else frozenset)(x), Several(x)
    if kind in ('dict', 'ordered'):
        made = {k: build(w, y) for k, y in x.items()}
        return (dict if kind == 'dict' else OrderedDict)(
            (k, p) for k, (p, _) in made.items()), \
            {k: d for k, (_, d) in made.items()}
    made = [build(w, y) for y in x]
    return {'list': list, 'tuple': tuple, 'deque': deque}[kind](
        p for p, _ in made), [d for _, d in made]


def make(w, x, top=False):
    i = x['class'] % len(w.specs)
    fields = w.made(i)
    raw = x['raw'] and not top
    if raw:
        # an object of the plain class, which lacks what is mapped
        fields = {n: f for n, f in w.own(i).items()}
    given = {n: build(w, v) for n, v in x['fields'].items() if n in fields}
    cls = w.base[i] if raw else w.cls(i)
    if x['assigned']:
        o = must(cls)
        for n, (p, _) in given.items():
            must(setattr, o, n, p)
    else:
        o = must(cls, **{n: p for n, (p, _) in given.items()})
    for n, (p, _) in given.items():
        got = must(getattr, o, n)
        require(got is p or got == p, lambda: f'C{i}.{n} is {got!r}, '
                f'not {p!r}')
        require(o._set_by[n] == fields[n],
                lambda: f'C{i}.{n} was set by {o._set_by[n]}, '
                f'not {fields[n]}')
    return o, {**w.fixed(i),
               **{n: d for n, (_, d) in given.items() if d is not None}}


def listing(d):
    """Several has no place in JSON"""
    if isinstance(d, Several):
        return d
    if isinstance(d, dict):
        return {k: listing(v) for k, v in d.items()}
    if isinstance(d, list):
        return [listing(v) for v in d]
    return d


def exact(a, b):
    """equal, with truth values told from numbers"""
    if isinstance(b, Several):
        return b == a
    if isinstance(b, dict):
        return type(a) is dict and set(a) == set(b) and \
            all(exact(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and \
            all(map(exact, a, b))
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    return type(a) is type(b) and a == b


def look_inside(w, o, x, fields):
    """Objects of the plain classes read as those of the engine."""
    for n, (kind, y) in x['fields'].items():
        if n not in fields:
            continue
        got = must(getattr, o, n)
        pairs = [(got, [kind, y])] if kind == 'object' else \
            list(zip(got, y)) if kind == 'list' else []
        for g, (k, z) in pairs:
            if k != 'object':
                continue
            i = z['class'] % len(w.specs)
            require(type(g) is w.cls(i), lambda: f'{n} holds {type(g)}, not '
                    f'the C{i} of the engine')
            for m, v in w.fixed(i).items():
                require(getattr(g, m) == v, lambda: f'{m} is {getattr(g, m)}')
                must_raise(AttributeError, setattr, g, m, 'other')
            look_inside(w, g, z, w.own(i) if z['raw'] else w.made(i))


def run_writing(case, ctx):
    fresh_web()
    w = World(case)
    for i in range(len(w.specs)):
        check_class(w, i)
    o, doc = make(w, case['object'], top=True)
    context = case['context']
    if case['read']:
        look_inside(w, o, case['object'], w.made(
            case['object']['class'] % len(w.specs)))
    must(setattr, o, 'acontext', context)
    if context is not None:
        doc = {'@context': context, **doc}
    for _ in range(2):
        got = must(o.data)
        require(exact(got, doc), lambda: f'{got} was written, not {doc}')
        got = json.loads(must(o.json))
        require(exact(got, doc), lambda: f'{got} as text, not {doc}')
        got = json.loads(str(o))
        require(exact(got, doc), lambda: f'{got} by str(), not {doc}')
    kinds = set()

    def walk(v):
        kinds.add(v[0])
        for y in v[1].values() if isinstance(v[1], dict) and \
                v[0] in ('dict', 'ordered') else \
                v[1] if v[0] in ('list', 'tuple', 'deque') else \
                v[1]['fields'].values() if v[0] == 'object' else ():
            walk(y)
    walk(['object', case['object']])
    ctx.nontrivial(len(kinds) > 2)
    for k in kinds:
        ctx.label(k)


def check_class(w, i):
    fields = w.made(i)
    cls = w.cls(i)
    got = {n for n in cls.__get_properties__() if n in NAMES}
    require(got == set(fields), lambda: f'C{i} has the fields {sorted(got)}, '
            f'not {sorted(fields)}')
    o = must(cls)
    got = {n for n, _ in o} & set(NAMES)
    require(got == set(fields), lambda: f'C{i}() has the fields '
            f'{sorted(got)}, not {sorted(fields)}')
    for n in fields:
        require(o[n] == {n: None}, lambda: f'C{i}()[{n}] is {o[n]}')
    for n in set(NAMES) - set(fields):
        must_raise(KeyError, lambda: o[n])
        require(not hasattr(o, n), f'C{i} has {n}')
    # what methods make of plain classes belongs to the engine as well
    for j in range(len(w.specs)):
        want = {n: f'{n} of {j}' for n in w.made(j)}
        for method in (getattr(o, f'make{i}'), getattr(o, f'stat{i}'),
                       getattr(cls, f'stat{i}')):
            new = must(method, j, want)
            require(type(new) is w.cls(j), lambda: f'{method} gives a '
                    f'{type(new)}, not the C{j} of the engine')
            got = {n: getattr(new, n) for n in want}
            require(got == want, lambda: f'{method} gives {got}, not {want}')
            require(new.data() == {**w.fixed(j), **want},
                    lambda: f'it is written as {new.data()}')
    inner = getattr(cls, f'Inner{i}')
    require(isinstance(inner, type) and isinstance(inner(), inner),
            lambda: f'C{i}.Inner{i} is {inner}')
    plain = w.base[i]
    for n in NAMES:
        own = any(n in vars(c) for c in plain.__mro__)
        mine = any(n in w.specs[w.base.index(c)]['own']
                   for c in plain.__mro__ if c in w.base)
        require(own is mine, f'the plain class C{i} has {n}: {own}')
    require(w.pkg[w.namespace(i)] is cls, f'the package has another C{i}')


def spell(w, x, context, spelled, top=False):
    """(document, view of what is to be read)"""
    t = x['class']
    if t is None or t >= len(w.specs):
        i = w.default
        # a default class counts for what is typed, and on top
        if t is None and not top:
            i = None
        name = 'Nothing' if t is not None else None
    else:
        i = t
        name = f'C{t}'
        if w.specs[t]['default']:
            name = 'Nothing'
    doc, view = {}, {}
    if name is not None:
        doc[context[0]] = {'short': name, 'full': VOC + name,
                           'list': [name]}[spelled]
    for n, v in x['fields'].items():
        d, r = spell_value(w, v, context, spelled)
        doc[n] = d
        view[n] = r
    if i is None:
        if name is None:
            return doc, ('dict', view)
        return doc, None
    return doc, ('object', i, {n: r for n, r in view.items()
                               if n in w.made(i)})


def spell_value(w, v, context, spelled):
    kind, x = v
    if kind == 'plain':
        return x, x
    if kind == 'list':
        made = [spell_value(w, y, context, spelled) for y in x]
        return [d for d, _ in made], [r for _, r in made]
    if kind == 'dict':
        made = {k: spell_value(w, y, context, spelled) for k, y in x.items()}
        return {k: d for k, (d, _) in made.items()}, \
            ('dict', {k: r for k, (_, r) in made.items()})
    return spell(w, x, context, spelled)


def look(w, got, want, where):
    """compares what was read; returns what it is to be written as"""
    if isinstance(want, tuple) and want[0] == 'object':
        _, i, fields = want
        require(type(got) is w.cls(i), lambda: f'{where} is {got!r} '
                f'({type(got)}), not a C{i}')
        out = dict(w.fixed(i))
        for n in w.made(i):
            v = must(getattr, got, n)
            d = look(w, v, fields.get(n), f'{where}.{n}')
            if d is not None:
                out[n] = d
        return out
    if isinstance(want, tuple):
        require(type(got) is dict and set(got) == set(want[1]),
                lambda: f'{where} is {got!r}, not {want[1]}')
        return {k: look(w, got[k], want[1][k], f'{where}[{k}]')
                for k in want[1]}
    if isinstance(want, list):
        require(type(got) is list and len(got) == len(want),
                lambda: f'{where} is {got!r}, not {want}')
        return [look(w, g, x, f'{where}[{k}]')
                for k, (g, x) in enumerate(zip(got, want))]
    require(type(got) is type(want) and got == want,
            lambda: f'{where} is {got!r}, not {want!r}')
    return want


def run_reading(case, ctx):
    fresh_web()
    w = World(case)
    word = case['word']
    context = {'@vocab': VOC}
    if word != '@type':
        context[word] = '@type'
    doc, want = spell(w, case['object'], (word,), case['spelled'], top=True)
    doc = {'@context': context, **doc} if case['first'] else \
        {**doc, '@context': context}
    kept = copy.deepcopy(doc)
    read = {'dict': lambda: w.engine.from_json(doc),
            'text': lambda: w.engine.from_json(json.dumps(doc)),
            'index': lambda: w.engine[json.dumps(doc)],
            'list': lambda: w.engine[[json.dumps(doc)] * 2][1],
            'tuple': lambda: w.engine[(json.dumps(doc),)][0]}[case['how']]
    if want is None or want[0] == 'dict':
        must_raise(ValueError, read, what=f'reading {doc}')
        ctx.label('refused')
        return
    o = must(read, what=f'reading {doc}')
    require(doc == kept, 'the document given was changed')
    out = look(w, o, want, 'the object')
    require(o.acontext == context, lambda: f'the context is {o.acontext}')
    out = {'@context': context, **out}
    got = must(o.data)
    require(exact(got, out), lambda: f'{kept} is written as {got}, '
            f'not {out}')
    again = must(w.engine.from_json, {**got, word: f'C{want[1]}'})
    if not holds_objects(want):
        require(exact(again.data(), out), lambda: f'{got}, read and written '
                f'again, is {again.data()}')
    ctx.nontrivial(len(want[2]) > 1 and holds_objects(want))
    ctx.label('default class', w.default is not None)


def holds_objects(want, top=True):
    if isinstance(want, tuple) and want[0] == 'object':
        return not top or any(holds_objects(v, False)
                              for v in want[2].values())
    if isinstance(want, tuple):
        return any(holds_objects(v, False) for v in want[1].values())
    if isinstance(want, list):
        return any(holds_objects(v, False) for v in want)
    return False


def plain():
    return st.one_of(
        st.none(), st.booleans(), st.integers(-5, 10 ** 12),
        st.floats(allow_nan=False, allow_infinity=False, width=32),
        st.sampled_from(['', 'x', 'C0', VOC + 'C0', 'https://a.org/1',
                         '@id', 'p0']), st.text(max_size=5)).map(
            lambda x: ['plain', x])


def deeper(inner, out, most=3):
    def obj(n):
        return st.fixed_dictionaries({
            'class': st.integers(0, n) if out else st.one_of(
                st.integers(0, n), st.integers(0, n), st.none(),
                st.just(99)),
            'assigned': st.booleans(),
            'raw': st.booleans() if out else st.just(False),
            'fields': st.dictionaries(st.sampled_from(NAMES), inner,
                                      max_size=4)}).map(
                                          lambda x: ['object', x])
    kinds = [obj(4), obj(4), st.lists(inner, max_size=most).map(
        lambda x: ['list', x]), st.dictionaries(
            st.sampled_from(KEYS), inner, max_size=most).map(
                lambda x: ['dict', x])]
    if out:
        kinds += [
            st.lists(inner, max_size=most).map(lambda x: ['tuple', x]),
            st.lists(inner, max_size=most).map(lambda x: ['deque', x]),
            st.lists(st.sampled_from(['a', 'b', 'c', 1, 2]), unique=True,
                     max_size=3).map(lambda x: ['set', x]),
            st.lists(st.sampled_from(['a', 'b', 'c', 1, 2]), unique=True,
                     max_size=3).map(lambda x: ['frozenset', x]),
            st.dictionaries(st.sampled_from(KEYS), inner, max_size=most).map(
                lambda x: ['ordered', x]),
            st.text(max_size=4).map(lambda x: ['text', x]),
            st.sampled_from(['d1.50', 'd0', 'uxx']).map(
                lambda x: ['other', x]),
            st.integers(0, 3).map(lambda x: ['range', x])]
    return st.one_of(kinds)


@st.composite
def cases(draw, out):
    n = draw(st.integers(1, 5) | st.integers(1, 9))
    most = draw(st.sampled_from([3, 3, 3, 14]))
    classes = []
    plainly = draw(st.booleans())
    default = draw(st.integers(0, n - 1)) if not out and \
        draw(st.integers(0, 2)) == 0 else None
    up = []
    for i in range(n):
        parents = draw(st.lists(st.integers(0, i - 1), unique=True,
                                max_size=2)) if i else []
        if len(parents) == 2 and (parents[0] in up[parents[1]] or
                                  parents[1] in up[parents[0]] or
                                  up[parents[0]] & up[parents[1]]):
            parents = parents[:1]
        up.append(set(parents).union(*[up[p] for p in parents])
                  if parents else set())
        classes.append({
            'parents': parents, 'default': i == default,
            'fixed': draw(st.integers(0, 3)) == 3,
            'plain': plainly,
            'own': draw(st.lists(st.sampled_from(NAMES), unique=True,
                                 min_size=0 if out or parents else 2,
                                 max_size=4)),
            'mapped': draw(st.lists(st.sampled_from(NAMES), unique=True,
                                    max_size=2))})
    inner = plain()
    for _ in range(draw(st.integers(0 if out else 1, 2 if most > 3 else 4))):
        inner = st.one_of(plain(), deeper(inner, out, most))
    fields = draw(st.dictionaries(
        st.sampled_from(NAMES), inner if out else st.one_of(
            inner, deeper(inner, False, most)), min_size=1 if out else 3,
        max_size=5))
    case = {'given': draw(st.sampled_from(list(GIVEN))),
            'backwards': draw(st.booleans()), 'added': draw(st.booleans()),
            'roots': draw(st.dictionaries(
                st.sampled_from(NAMES), st.fixed_dictionaries({
                    'kind': st.sampled_from(['same', 'other', 'taken']),
                    'packaged': st.booleans(), 'used before': st.booleans()}),
                max_size=3)),
            'classes': classes, 'order': draw(st.permutations(range(n))),
            'object': {
                'class': draw(st.integers(0, n - 1)) if out else draw(
                    st.sampled_from(list(range(n)) * 2 + [None, 99])),
                'assigned': draw(st.booleans()), 'raw': False,
                'fields': fields}}
    if out:
        case['read'] = draw(st.booleans())
        case['context'] = draw(st.sampled_from(
            [None, VOC, {'@vocab': VOC}, [VOC, {'a': VOC + 'a'}]]))
    else:
        case.update(
            word=draw(st.sampled_from(['type', '@type', 'kind'])),
            spelled=draw(st.sampled_from(['short', 'full', 'list'])),
            first=draw(st.booleans()), how=draw(st.sampled_from(
                ['dict', 'text', 'index', 'list', 'tuple'])))
    return case


TESTS = [
    Test('writing', lambda: cases(True), run_writing, quick=2500,
         rule='objects of up to five classes with inheritance and mapped '
         'properties, holding values of every Python kind; non-trivial = '
         'more than two kinds of values'),
    Test('reading', lambda: cases(False), run_reading, quick=2000,
         rule='documents of these classes, in several spellings, nested up '
         'to two deep, some of unknown or no type, with or without a default '
         'class; non-trivial = several fields and an object inside'),
]
