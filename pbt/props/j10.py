"""J10: packages and engines do not share state, nor change what they were
made from."""
from hypothesis import strategies as st

import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, require

import activitystreams
from activitystreams import create_engine, models
from jsonld import ApplicationActivityJson, JsonLdEngine, JsonLdPackage, JsonProperty, \
    contextualproperty

ID = 'J10'
LEVEL = 'exploration'
ASSUMPTIONS = ['what is only a cache on the plain classes (their property '
               'names) is not looked at']

CACHES = {'__properties__', '__property_name__', '__registration__',
          '__abstractmethods__', '__doc__', '__dict__', '__weakref__',
          '__annotations__', '_abc_impl', '__static_attributes__',
          '__firstlineno__'}
REFERENCES = {'__jsonld_engine__', '__jsonld_package__'}
PLAIN = [models.Object, models.Link] + [
    getattr(models, t) for t in asgen.TYPES if t not in ('Object', 'Link')]
PLAIN_PROPS = list(activitystreams.package.pkg_properties)


def snapshot():
    out = {}
    for c in PLAIN + PLAIN_PROPS:
        out[c] = ({k: v for k, v in vars(c).items() if k not in CACHES},
                  c.__mro__, c.__get_namespace__())
    return out


def compare(before, what):
    after = snapshot()
    for c, (attrs, mro, ns) in before.items():
        now, mro2, ns2 = after[c]
        for k in attrs.keys() | now.keys():
            if k not in attrs and not isinstance(now[k], property) \
                    and not callable(now[k]) and k not in REFERENCES:
                continue        # a cache of some kind
            require(k in attrs and k in now and attrs[k] is now[k],
                    lambda: f'{what} changed {k} of the plain {c.__name__}: '
                    f'{attrs.get(k)!r} is now {now.get(k)!r}')
        require(mro == mro2, f'{what} changed the bases of {c.__name__}')
        require(ns == ns2, lambda: f'{what} changed the namespace of '
                f'{c.__name__}: {ns2}')


_POOL = {}


def pool():
    """Engines made once per process, after looking at the plain classes:
    one, another, one of several packages, one of those put together, and one
    made when the classes had been used on their own."""
    if not _POOL:
        _POOL['before'] = snapshot()
        several = create_engine() + make_package(7)
        twice = create_engine() + make_package(8) + make_package(9)
        _POOL['engines'] = [create_engine(), create_engine(), several, twice]
        for c in PLAIN_PROPS:
            must(c)
        for c in PLAIN:
            must(c)
        _POOL['engines'].append(create_engine())
    return _POOL


def count_types(v, e, plain, out):
    """Classes of the objects inside an object, read through its properties."""
    for name in asgen.PROPS[v.type]:
        got = getattr(v, name)
        for g in got if isinstance(got, list) else [got]:
            if isinstance(g, (models.Object, models.Link)):
                out.append(type(g))
            if isinstance(g, models.Object):
                count_types(g, e, plain, out)


def run_mixed(case, ctx):
    """Objects of the plain classes, or of another engine, inside an
    engine's."""
    p = pool()
    e = p['engines'][case['engine']]
    other = p['engines'][1]
    fresh_web()
    spec = case['spec']
    source = {'plain': models, 'other': other}[case['from']]
    values = {k: asgen.py(v, e, 'init', source) for k, v in spec['p'].items()}
    cls = getattr(e, spec['t'])
    want = asgen.expected(spec, 'init', AS)
    named = {'type': spec['t']} if spec['t'] in ('Object', 'Link') else {}
    o = must(cls, **{'id': None, **values, **named})
    for step in case['steps']:
        if step == 'data':
            data = must(o.data)
            require(asgen.strict_eq(data, want),
                    lambda: f'data() is {data}, not {want}')
        elif step == 'read':
            for name in asgen.PROPS[spec['t']]:
                must(getattr, o, name)
        elif step == 'json':
            must(o.json)
    data = must(o.data)
    require(asgen.strict_eq(data, want),
            lambda: f'in the end data() is {data}, not {want}')
    kinds = []
    count_types(o, e, models, kinds)
    for k in kinds:
        ok = getattr(e, k.__name__) if case['from'] == 'plain' \
            else getattr(other, k.__name__)
        # (a link given as text belongs to the engine)
        if issubclass(k, models.Link) and k is getattr(e, k.__name__):
            continue
        require(k is ok, lambda: f'an object from {case["from"]} reads as '
                f'{k} of another package')
    compare(p['before'], f'using {case["from"]} objects in an engine')
    for en in p['engines']:
        for t in asgen.TYPES:
            c = getattr(en, t)
            require(c.__get_namespace__() == f'{AS}#{t}',
                    lambda: f'{t} is now {c.__get_namespace__()}')
            require(c is not getattr(models, t) and
                    c.__jsonld_engine__ is en, f'{t} changed engines')
    ctx.nontrivial(asgen.size(spec)[0] > 1)
    ctx.label(case['from'])


def make_property(k):
    class Extra(JsonProperty):
        @classmethod
        def __get_namespace__(cls):
            return f'https://x.example/ns#extra{k}'

        @contextualproperty
        def extra(self):
            return getattr(self, '___extra___', None)

        @extra.setter
        def extra(self, v):
            self.___extra___ = [k, v]
    return Extra


def make_package(k):
    class Star(ApplicationActivityJson):
        @classmethod
        def __get_namespace__(cls):
            return f'https://x.example/ns{k}#Star'
    return JsonLdPackage(namespace=f'https://x.example/ns{k}',
                         objects=(Star,), properties=(), property_mapping={})


def run_engines(case, ctx):
    """Several engines; each extended on its own."""
    before = snapshot()
    fresh_web()
    engines = []
    for kind in case['engines']:
        if kind == 'plain':
            engines.append((create_engine(), None))
        elif kind == 'sum':
            # made from another engine, which stays what it was
            base = create_engine() if not engines or engines[-1][1] \
                is not None else engines[-1][0]
            if not any(base is e for e, _ in engines):
                engines.append((base, None))
            engines.append((must(lambda: base + make_package(
                len(engines)), what='adding a package to an engine'), None))
        else:
            extra = make_property(kind)
            t = case['type']
            pkg = JsonLdPackage(
                namespace=AS, objects=activitystreams.package.pkg_classes,
                properties=activitystreams.package.pkg_properties + (extra,),
                property_mapping={
                    **activitystreams.package.property_mapping,
                    f'{AS}#{t}': activitystreams.package.property_mapping.get(
                        f'{AS}#{t}', ()) + (extra.__get_namespace__(),)})
            engines.append((JsonLdEngine(pkg), kind))
    compare(before, 'making engines')
    for t in asgen.TYPES:
        classes = [getattr(e, t) for e, _ in engines]
        require(len(set(map(id, classes))) == len(classes) and
                not any(c is getattr(models, t) for c in classes),
                f'two engines share the class {t}')
    doc = {'@context': AS, 'type': case['sub'], 'name': 'n', 'extra': 'v'}
    for e, kind in engines + engines[::-1]:
        o = must(e.from_json, doc)
        have = kind is not None and case['type'] in asgen.ancestors(
            case['sub'])
        require(hasattr(type(o), 'extra') is have,
                lambda: f'engine {kind}: {case["sub"]} has extra: {not have}')
        require(('extra' in o.data()) is False or have,
                'a property of another engine is written')
        if have:
            o.extra = 'w'
            require(o.extra == [kind, 'w'] and
                    o.data()['extra'] == [kind, 'w'],
                    lambda: f'engine {kind} has extra {o.extra}')
        want = {'@context': AS, 'type': case['sub'], 'name': 'n'}
        if case['sub'] in asgen.COLLECTIONS:
            want['totalItems'] = 0
        if case['sub'] == 'OrderedCollectionPage':
            want['startIndex'] = 0
        # its links open as objects of the engine
        target = 'https://node.example/page'
        WEB.add(target, {k: v for k, v in doc.items() if k != 'extra'})
        for l in (e.Link(href=target), models.Link(href=target), target):
            holder = must(e.Note, id=None, generator=l)
            opened = must(getattr, holder, 'generator')
            require(type(opened) is getattr(e, case['sub']),
                    lambda: f'a link opened as {type(opened)}, which is not '
                    f'the {case["sub"]} of the engine it is in')
        got = {k: v for k, v in o.data().items() if k != 'extra'}
        require(asgen.strict_eq(got, want), lambda: f'{got} for {want}')
    compare(before, 'using engines')
    ctx.nontrivial(len(engines) > 1)
    ctx.label('extended', any(k is not None for _, k in engines))
    ctx.label('made from another', 'sum' in case['engines'])


def no_nested_plain():
    """The engine's object holding one level of others."""
    return asgen.spec(2, asgen.OBJECT_TYPES, 4) | asgen.spec(
        1, asgen.OBJECT_TYPES, 14)


TESTS = [
    Test('mixed', lambda: st.fixed_dictionaries({
        'engine': st.sampled_from([0, 2, 3, 4]),
        'spec': no_nested_plain(), 'from': st.sampled_from(
            ['plain', 'other']),
        'steps': st.lists(st.sampled_from(['data', 'read', 'json']),
                          max_size=3)}), run_mixed, quick=900, procs=8,
        rule='objects holding objects of the plain classes or of another '
             'engine, written and read in random order; non-trivial = nested'),
    Test('engines', lambda: st.fixed_dictionaries({
        'engines': st.lists(st.sampled_from(['plain', 'sum', 1, 2]), min_size=1,
                            max_size=3),
        'type': st.sampled_from(['Object', 'Note', 'Activity', 'Question',
                                 'Collection', 'Document']),
        'sub': st.sampled_from(asgen.OBJECT_TYPES)}), run_engines, quick=60,
        procs=8, rule='up to three engines, some with an added property; '
        'non-trivial = two or more'),
]
