"""J11: packages and engines combine by namespace, the later one on top."""
import json

from hypothesis import strategies as st

import asgen
from aslib import fresh_web
from core import Test, must, must_raise, require

from activitystreams import create_package
from jsonld import ApplicationActivityJson, JsonLdEngine, JsonLdPackage, \
    JsonProperty, contextualproperty

ID = 'J11'
LEVEL = 'exploration'
ASSUMPTIONS = ['packages have unique namespaces and a class or property has '
               'one name per namespace; what a subclass inherits from a '
               'class that a later package replaced is left open']

VOC = 'https://x.example/ns#'
NOBJ, NPROP = 9, 7
PNAMES = [f'p{j}' for j in range(NPROP)]


def make_prop(j, tag, name=None):
    name = name or f'p{j}'

    def get(self):
        return getattr(self, f'___{name}___', None)

    def put(self, v):
        setattr(self, f'___{name}___', None if v is None else [tag, v])
    return type(f'P{j}', (JsonProperty,), {
        '__get_namespace__': classmethod(lambda c: f'{VOC}p{j}'),
        name: contextualproperty(get).setter(put)})


def make_class(i, parents, tag):
    def init(self, acontext=None, **kw):
        ApplicationActivityJson.__init__(self, acontext=acontext)
        for k, v in kw.items():
            if k in PNAMES and v is not None:
                setattr(self, k, v)
    return type(f'C{i}', tuple(parents) or (ApplicationActivityJson,), {
        '__get_namespace__': classmethod(lambda c: f'{VOC}C{i}'),
        'made_by': tag, '__init__': init})


def make_package(k, spec):
    classes = {}
    for i in sorted(spec['objs']):
        classes[i] = make_class(i, [classes[p] for p in spec['objs'][i]], k)
    order = list(classes.values())
    if spec['reversed']:
        order = order[::-1]
    mapping = {f'{VOC}C{i}': tuple(f'{VOC}p{j}' for j in js)
               for i, js in spec['map'].items()}
    kept = dict(mapping)
    pkg = must(JsonLdPackage, namespace=f'n{k}', objects=tuple(order),
               properties=tuple(make_prop(j, k) for j in spec['props']),
               property_mapping=mapping, what=f'making package {k}')
    require(mapping == kept, 'the mapping given was changed')
    return pkg


class Model:
    """What a combination of packages contains."""

    def __init__(self, specs, ks):
        self.specs = specs
        self.objs, self.props, self.map = {}, {}, {}
        for k in ks:
            self.plus(k)

    def plus(self, k):
        s = self.specs[k]
        for i in s['objs']:
            self.objs[i] = k
        for j in s['props']:
            self.props[j] = k
        self.map.update({i: list(js) for i, js in s['map'].items()})
        return self

    def minus(self, spec):
        for i in spec['objs']:
            self.objs.pop(i, None)
            self.map.pop(i, None)
        for j in spec['props']:
            self.props.pop(j, None)
        self.map = {i: [j for j in js if j not in spec['props']]
                    for i, js in self.map.items()}
        return self

    def expect(self, i):
        """(properties the class has, whether it has no others)"""
        src = self.objs[i]
        have, exact = set(self.map.get(i, ())), True
        for p in self.specs[src]['objs'][i]:
            if self.objs.get(p) != src:
                exact = False
                continue
            h, x = self.expect(p)
            have |= h
            exact = exact and x
        return have, exact


def check_class(cls, i, m, what, exact_ok=True):
    have, exact = m.expect(i)
    require(cls.__name__ == f'C{i}' and cls.made_by == m.objs[i],
            lambda: f'{what}: C{i} is the class of package {cls.made_by}, '
            f'not {m.objs[i]}')
    o = must(cls, **{f'p{j}': j + 10 for j in sorted(have)})
    want = {f'p{j}': [m.props[j], j + 10] for j in have}
    for name, v in want.items():
        got = must(getattr, o, name)
        if not exact and int(name[1:]) not in m.map.get(i, ()) and \
                isinstance(got, list):
            # from a class replaced since, perhaps
            got = [v[0], got[1]]
        require(got == v, lambda: f'{what}: C{i}.{name} is {got}, not {v}')
    if exact and exact_ok:
        names = {n for n, _ in o} & set(PNAMES)
        require(names == set(want),
                lambda: f'{what}: C{i} has {sorted(names)}, not '
                f'{sorted(want)}')
        data = must(o.data)
        require(data == want, lambda: f'{what}: {data}, not {want}')


def check_package(pkg, m, what, exact_ok=True):
    got = sorted(c.__get_namespace__() for c in pkg.objects)
    require(got == sorted(f'{VOC}C{i}' for i in m.objs),
            lambda: f'{what} has objects {got}, not {sorted(m.objs)}')
    got = sorted(c.__get_namespace__() for c in pkg.properties)
    require(got == sorted(f'{VOC}p{j}' for j in m.props),
            lambda: f'{what} has properties {got}, not {sorted(m.props)}')
    for i in range(NOBJ):
        cls = pkg[f'{VOC}C{i}']
        require((cls is None) is (i not in m.objs),
                lambda: f'{what}[C{i}] is {cls}')
        if i in m.objs:
            require(any(cls is c for c in pkg.objects),
                    f'{what}[C{i}] is not among its objects')
            check_class(cls, i, m, what, exact_ok)
    both = [f'{VOC}C0', f'{VOC}p0', 'nothing']
    require(pkg[[]] == [], lambda: f'{what}: nothing gives {pkg[[]]}')
    for kind in (list, tuple, dict.fromkeys, iter):
        require(pkg[kind(both)] == [pkg[n] for n in both],
                lambda: f'{what}: several at once give {pkg[kind(both)]}')


def check_engine(e, m, ks, what):
    for i in range(NOBJ):
        name = f'C{i}'
        require(hasattr(e, name) is (i in m.objs),
                lambda: f'{what}: engine.{name} exists: {hasattr(e, name)}')
        doc = {'@context': {'@vocab': VOC}, '@type': name}
        if i not in m.objs:
            must_raise(ValueError, e.from_json, doc)
            continue
        check_class(getattr(e, name), i, m, what)
        have, exact = m.expect(i)
        doc.update({f'p{j}': j + 20 for j in have})
        o = must(e.from_json, doc, what=f'{what}: from_json of {doc}')
        require(type(o) is getattr(e, name),
                lambda: f'{what}: from_json gives {type(o)}')
        want = {'@context': doc['@context'],
                **{f'p{j}': [m.props[j], j + 20] for j in have}}
        data = must(o.data)
        if exact:
            require(data == want, lambda: f'{what}: {data}, not {want}')
        both = must(lambda: e[[json.dumps(doc)] * 2])
        require([b.data() for b in both] == [data] * 2,
                'several texts at once')
    require([p.namespace for p in e.packages] == [f'n{k}' for k in ks],
            lambda: f'{what}: packages {[p.namespace for p in e.packages]}')


def run(case, ctx):
    fresh_web()
    specs = [{'objs': {int(i): ps for i, ps in s['objs']},
              'props': s['props'], 'reversed': s['reversed'],
              'map': {int(i): js for i, js in s['map']}}
             for s in case['packages']]
    pkgs = [make_package(k, s) for k, s in enumerate(specs)]

    def own():
        for k, p in enumerate(pkgs):
            require(p.namespace == f'n{k}', f'package {k} is now {p}')
            check_package(p, Model(specs, [k]), f'package {k}')
    own()
    n = len(pkgs)
    # package arithmetic
    ks = [k % n for k in case['sum']]
    total = pkgs[ks[0]]
    for k in ks[1:]:
        total = must(lambda: total + pkgs[k], what='adding packages')
    m = Model(specs, ks)
    check_package(total, m, f'the sum of {ks}')
    require(total.namespace == f'n{ks[0]}', f'the sum is {total.namespace}')
    if case['minus'] is not None:
        k = case['minus'] % n
        # what counts are namespaces, a package made again has the same
        gone = make_package(k, specs[k]) if case['remade'] else pkgs[k]
        left = must(lambda: total - gone, what='subtracting a package')
        check_package(left, Model(specs, ks).minus(specs[k]),
                      f'the sum of {ks} minus {k}')
        now, m2 = left, Model(specs, ks).minus(specs[k])
        for n_, (op, k) in enumerate(case['then']):
            k %= n
            was = now
            now = must(lambda: now + pkgs[k] if op == '+' else now - pkgs[k],
                       what='package arithmetic')
            m2 = m2.plus(k) if op == '+' else m2.minus(specs[k])
            check_package(now, m2, f'the sum of {ks} minus {case["minus"]} '
                          f'{case["then"][:n_ + 1]}')
            require(now is not was, 'the package itself is the result')
    check_package(total, m, f'the sum of {ks}, later')
    own()
    # engine arithmetic
    have = [k % n for k in case['start']]
    given = [pkgs[k] for k in have]
    e = must(JsonLdEngine, {'list': given, 'tuple': tuple(given),
                            'generator': (p for p in given),
                            'single': given[0]}[case['given']])
    if case['given'] == 'single':
        have = have[:1]
    check_engine(e, Model(specs, have), have, f'the engine of {have}')
    again = [make_package(k, s) for k, s in enumerate(specs)] \
        if case['remade'] else pkgs
    for op, who in case['ops']:
        who = [k % n for k in who]
        if op[1:] == 'engine':
            other = JsonLdEngine([again[k] for k in who])
        else:
            who = who[:1]
            other = again[who[0]]
        was = list(have)
        if op[0] == '+':
            new = have + who
            e2 = must(lambda: e + other, what=op)
        else:
            new = [k for k in have if k not in who]
            if not new:
                must_raise(ValueError, lambda: e - other)
                continue
            e2 = must(lambda: e - other, what=op)
        check_engine(e2, Model(specs, new), new, f'{was} {op} {who}')
        e, have = e2, new
    own()
    ctx.nontrivial(len(set(ks)) > 1)
    over = {i for s in specs for i in s['objs']
            if sum(i in x['objs'] for x in specs) > 1}
    ctx.label('without classes', any(not s['objs'] for s in specs))
    ctx.label('classes replaced', bool(over))
    ctx.label('properties replaced', any(
        sum(j in x['props'] for x in specs) > 1 for j in range(NPROP)))


def run_refused(case, ctx):
    """What does not fit is refused."""
    s = case['spec']
    spec = {'objs': {int(i): ps for i, ps in s['objs']}, 'props': s['props'],
            'reversed': s['reversed'],
            'map': {int(i): js for i, js in s['map']}}
    pkg = make_package(0, spec)
    objs, props = sorted(spec['objs']), sorted(spec['props'])
    no_obj = [i for i in range(NOBJ) if i not in objs]
    no_prop = [j for j in range(NPROP) if j not in props]
    if no_obj:
        refuse_mapping(spec, no_obj[0], props)
    if no_prop:
        refuse_mapping(spec, objs[0], [no_prop[0]])
    must_raise(TypeError, JsonLdPackage, case['bad'])
    must_raise(TypeError, lambda: pkg + case['bad'])
    must_raise(TypeError, lambda: pkg - case['bad'])
    e = must(JsonLdEngine, pkg)
    must_raise(TypeError, lambda: e + case['bad'])
    must_raise(TypeError, lambda: e - case['bad'])
    must_raise(ValueError, JsonLdEngine, [])
    must_raise(ValueError, lambda: e - pkg)
    must_raise(AttributeError, setattr, pkg, 'namespace', 'other')
    must_raise(AttributeError, setattr, pkg, 'objects', ())
    if props:
        must_raise(AttributeError, setattr, pkg, 'properties', ())
    must_raise(ValueError, lambda: pkg[[f'{VOC}C0', 1]])
    must_raise(TypeError, lambda: e[1])
    must_raise(TypeError, lambda: e[['{}', 1]])
    check_package(pkg, Model([spec], [0]), 'the package afterwards')
    check_engine(e, Model([spec], [0]), [0], 'the engine afterwards')
    ctx.nontrivial(bool(no_obj or no_prop))


def refuse_mapping(spec, i, js):
    classes = {}
    for c in sorted(spec['objs']):
        classes[c] = make_class(c, [classes[p] for p in spec['objs'][c]], 0)
    must_raise(ValueError, JsonLdPackage, namespace='n', objects=tuple(
        classes.values()), properties=tuple(
            make_prop(j, 0) for j in spec['props']),
        property_mapping={f'{VOC}C{i}': tuple(f'{VOC}p{j}' for j in js)},
        what='a mapping to something that is not in the package')


def run_names(case, ctx):
    """What classes and properties are called in Python does not matter,
    their namespaces do."""
    fresh_web()
    pkgs, objs, props, mapping = [], {}, {}, {}
    attrs = [PNAMES[a] for a in case['attrs']]
    for k, spec in enumerate(case['packages']):
        classes, accessors = [], []
        for i, name in spec['objs']:
            classes.append(type(name, (ApplicationActivityJson,), {
                '__get_namespace__': classmethod(
                    lambda c, i=i: f'{VOC}C{i}'),
                'made_by': [k, i], '__init__': make_class(
                    0, (), 0).__init__}))
            objs[i] = [k, i]
        for j, name in spec['props']:
            # properties of different namespaces may be called the same
            cls = make_prop(j, k, attrs[j])
            cls.__name__ = name
            accessors.append(cls)
            props[j] = k
        linked = list({attrs[j]: j for j in spec['map']}.values())
        here = {f'{VOC}C{i}': tuple(f'{VOC}p{j}' for j in linked)
                for i, _ in spec['objs']}
        mapping.update({i: linked for i, _ in spec['objs']})
        pkgs.append(JsonLdPackage(namespace=f'n{k}', objects=tuple(classes),
                                  properties=tuple(accessors),
                                  property_mapping=here))
    total = pkgs[0]
    for pkg in pkgs[1:]:
        total = must(lambda: total + pkg)
    engines = [must(JsonLdEngine, pkgs), must(JsonLdEngine, total)]
    start = JsonLdEngine(pkgs[0])
    for pkg in pkgs[1:]:
        start = must(lambda: start + pkg)
    for e in engines + [start]:
        got = sorted(c.__get_namespace__() for c in e.package.objects)
        require(got == sorted(f'{VOC}C{i}' for i in objs),
                lambda: f'{case["packages"]} give the objects {got}')
        got = sorted(c.__get_namespace__() for c in e.package.properties)
        require(got == sorted(f'{VOC}p{j}' for j in props),
                lambda: f'{case["packages"]} give the properties {got}')
        for i, made in objs.items():
            cls = e.package[f'{VOC}C{i}']
            require(cls.made_by == made,
                    lambda: f'C{i} is {cls.made_by}, not {made}')
            doc = {'@context': {'@vocab': VOC}, '@type': f'C{i}',
                   **{attrs[j]: 'v' for j in mapping[i]}}
            o = must(e.from_json, doc)
            require(type(o) is cls, lambda: f'C{i} is read as {type(o)}')
            for j in mapping[i]:
                got = getattr(o, attrs[j])
                require(got == [props[j], 'v'],
                        lambda: f'C{i}.{attrs[j]} is {got}')
    names = [n for s in case['packages'] for _, n in s['objs']]
    ctx.nontrivial(len(pkgs) > 1 and len(set(names)) < len(names))


@st.composite
def named(draw, n=3, most=3, nobj=5, nprop=4):
    n = draw(st.integers(1, n))
    word = st.sampled_from(['Thing', 'Other', 'Note'])
    out = []
    for _ in range(n):
        props = draw(st.lists(st.tuples(st.integers(0, nprop - 1), word)
                              .map(list), max_size=most,
                              unique_by=lambda x: x[0]))
        out.append({
            'objs': draw(st.lists(st.tuples(st.integers(0, nobj - 1), word)
                                  .map(list), min_size=1, max_size=most,
                                  unique_by=lambda x: x[0])),
            'props': props,
            'map': [j for j, _ in props if draw(st.booleans())]})
    return {'packages': out, 'attrs': draw(
        st.just(list(range(nprop))) | st.lists(
            st.integers(0, nprop - 1), min_size=nprop, max_size=nprop))}


_AS = {}


def run_as(case, ctx):
    """The vocabulary with properties redefined and added by extensions."""
    fresh_web()
    if 'pkg' not in _AS:
        _AS['pkg'] = create_package()
    NS = 'https://www.w3.org/ns/activitystreams#dfn-'
    tagged = {}
    exts = []
    for k, names in enumerate(case['extensions']):
        props = []
        for name in names:
            def get(self, a=f'_x{name}'):
                return getattr(self, a, None)

            def put(self, v, a=f'_x{name}', t=k):
                setattr(self, a, None if v is None else [t, v])
            props.append(type('X' + name, (JsonProperty,), {
                '__get_namespace__': classmethod(
                    lambda c, n=name: f'{NS}{n}'),
                name: contextualproperty(get).setter(put)}))
            tagged[name] = k
        exts.append(JsonLdPackage(namespace=f'ext{k}', properties=props))
    e = must(JsonLdEngine, [_AS['pkg']] + exts)
    for t in case['types']:
        base = {'href': 'https://a.org/1'} if t in asgen.LINK_TYPES else {}
        mine = [n for n in ('content', 'name', 'mediaType', 'units')
                if n in asgen.PROPS[t]]
        o = must(getattr(e, t), id=None, **base, **{n: 'v' for n in mine})
        data = must(o.data)
        for n in mine:
            want = [tagged[n], 'v'] if n in tagged else 'v'
            require(getattr(o, n) == want and (
                data[n] == want),
                lambda: f'{t}.{n} is {getattr(o, n)} / {data[n]}, '
                f'not {want}')
    ctx.nontrivial(bool(tagged))


@st.composite
def packages(draw, least=1, most=4, nobj=5, nprop=4):
    objs, anc, like = [], {}, {}
    for i in sorted(draw(st.lists(st.integers(0, nobj - 1), min_size=least,
                                  max_size=most, unique=True))):
        ps = draw(st.lists(st.sampled_from(sorted(anc)), max_size=2,
                           unique=True)) if anc else []
        # unrelated parents only
        ps = [p for p in ps if not any(p in anc[q] for q in ps if q != p)]
        try:
            like[i] = type('L', tuple(like[p] for p in ps), {})
        except TypeError:
            # parents that cannot be brought into one order
            ps = ps[:1]
            like[i] = type('L', tuple(like[p] for p in ps), {})
        objs.append([i, ps])
        anc[i] = {i}.union(*[anc[p] for p in ps])
    props = draw(st.lists(st.integers(0, nprop - 1), max_size=most - 1,
                          unique=True))
    mapping = []
    if props:
        for i, _ in objs:
            if draw(st.booleans()):
                mapping.append([i, draw(st.lists(
                    st.sampled_from(props), max_size=most - 1,
                    unique=True))])
    return {'objs': objs, 'props': props, 'map': mapping,
            'reversed': draw(st.booleans())}


@st.composite
def cases(draw, n=4, most=4, **sizes):
    some = st.lists(st.integers(0, n - 1), min_size=1, max_size=n - 1)
    # some without classes, only with properties (or nothing at all)
    least = draw(st.sampled_from([0, 1, 1]))
    return {'packages': draw(st.lists(packages(least, most, **sizes),
                                      min_size=1, max_size=n)),
            'sum': draw(some), 'minus': draw(st.none() |
                                             st.integers(0, n - 1)),
            'then': draw(st.lists(st.tuples(
                st.sampled_from('+-'), st.integers(0, n - 1)).map(list),
                max_size=n - 1)),
            'remade': draw(st.booleans()),
            'start': draw(some), 'given': draw(st.sampled_from(
                ['list', 'tuple', 'generator', 'single'])),
            'ops': draw(st.lists(st.tuples(st.sampled_from(
                ['+package', '+engine', '-package', '-engine']), some).map(
                    list), max_size=n))}


TESTS = [
    Test('random packages', cases, run, quick=1500, procs=8,
         rule='up to four packages of classes with inheritance and '
              'properties, added and subtracted as packages and in engines; '
              'non-trivial = a sum of two different packages'),
    Test('many packages', lambda: cases(8, 8, nobj=NOBJ, nprop=NPROP), run,
         quick=300, procs=8,
         rule='the same with up to eight packages of up to eight classes'),
    Test('many names', lambda: named(7, 6, NOBJ, NPROP), run_names, quick=200,
         procs=8, rule='up to seven packages with random Python names; '
                       'non-trivial as below'),
    Test('names', named, run_names, quick=600, procs=8,
         rule='up to three packages whose classes and properties have random '
              'Python names; non-trivial = several packages and a name used '
              'twice'),
    Test('refused', lambda: st.fixed_dictionaries({
        'spec': packages(), 'bad': st.sampled_from([None, 1, [], {}])}),
        run_refused, quick=150, procs=4,
        rule='mappings, names and operands that do not fit; non-trivial = '
             'something was missing from the mapping'),
    Test('vocabulary', lambda: st.fixed_dictionaries({
        'extensions': st.lists(st.lists(st.sampled_from(
            ['content', 'name', 'mediaType', 'units']), min_size=1,
            max_size=3, unique=True), max_size=2),
        'types': st.lists(st.sampled_from(
            asgen.OBJECT_TYPES + ['Link', 'Mention']), min_size=2,
            max_size=5)}),
        run_as, quick=60, procs=8,
        rule='extensions redefining properties of the vocabulary; '
             'non-trivial = at least one'),
]
