"""J09: which accessor answers depends on the object's own context, and the
context always comes back."""
import json

from hypothesis import strategies as st

import asgen
from aslib import AS, fresh_web
from core import HarnessError, Test, must, must_raise, outcome, require

from jsonld import JSON_DATA_CONTEXT, PropertyJsonLD
from jsonld.base import ContextualProperty, contextualproperty

ID = 'J09'
LEVEL = 'exploration'
ASSUMPTIONS = ['contexts are entered and left in a nested way (with)']

NAMES = ['p', 'q', 'r']
CTX = [None, 'A', 'B', JSON_DATA_CONTEXT, 'number', 'pair']


class Boom(Exception):
    pass


class Leave(Exception):
    pass


class Quit(BaseException):
    pass


LEAVE = [Leave, KeyError, ValueError, Quit, StopIteration]


def real(c):
    """Any hashable value can name a context."""
    return {'number': 7, 'pair': ('a', 1)}.get(c, c)


def tagname(c):
    return {None: 'default', JSON_DATA_CONTEXT: 'json'}.get(c, c)


def fget(name, tag, raises):
    def fn(self):
        """Says which accessor answered."""
        if raises:
            raise Boom(name)
        return [name, tag, self.store.get(name)]
    return fn


def fset(name, tag):
    def fn(self, v):
        self.store[name] = [tag, v]
    return fn


def fdel(name, tag):
    def fn(self):
        self.store[name] = ['deleted', tag]
    return fn


def make(plan):
    """A class with the planned properties, its model table, and a subclass
    redefining some default accessors."""
    table, ns = {}, {}
    for name, p in zip(NAMES, plan['props']):
        t = {'get': {}, 'set': {}, 'del': {}}
        if p['at once']:
            # the default ones are given to the constructor
            prop = ContextualProperty(
                fget=fget(name, 'default', False) if None in p['get']
                else None,
                fset=fset(name, 'default') if None in p['set'] else None,
                fdel=fdel(name, 'default') if None in p['del'] else None,
                doc='Says which accessor answered.' if None in p['get']
                else None, name=name if p['raises'] else None)
            t = {'get': {None: ('default', False)} if None in p['get']
                 else {}, **{k: {None: 'default'} if None in p[k] else {}
                             for k in ('set', 'del')}}
        elif None in p['get'] and p['by context']:
            # without a context is a context as well
            prop = ContextualProperty(
                doc='Says which accessor answered.').getter_context(None)(
                fget(name, 'default', False))
            t['get'][None] = ('default', False)
        elif None in p['get']:
            prop = contextualproperty(fget(name, 'default', False))
            t['get'][None] = ('default', False)
        else:
            prop = ContextualProperty()
        if None in p['set'] and not p['at once']:
            prop = (prop.setter_context(None) if p['by context']
                    else prop.setter)(fset(name, 'default'))
            t['set'][None] = 'default'
        if None in p['del'] and not p['at once']:
            prop = (prop.deleter_context(None) if p['by context']
                    else prop.deleter)(fdel(name, 'default'))
            t['del'][None] = 'default'
        for c in p['get']:
            if c is not None:
                bad = c in p['raises']
                prop = prop.getter_context(real(c))(fget(name, tagname(c), bad))
                t['get'][c] = (tagname(c), bad)
        for c in p['set']:
            if c is not None:
                prop = prop.setter_context(real(c))(fset(name, tagname(c)))
                t['set'][c] = tagname(c)
        for c in p['del']:
            if c is not None:
                prop = prop.deleter_context(real(c))(fdel(name, tagname(c)))
                t['del'][c] = tagname(c)
        for c in p['again']:
            # the accessor given last counts
            if p['at once']:
                continue
            if c in t['get']:
                prop = prop.getter_context(real(c))(
                    fget(name, tagname(c) + '2', False))
                t['get'][c] = (tagname(c) + '2', False)
            if c in t['set']:
                prop = prop.setter_context(real(c))(
                    fset(name, tagname(c) + '2'))
                t['set'][c] = tagname(c) + '2'
            if c in t['del']:
                prop = prop.deleter_context(real(c))(
                    fdel(name, tagname(c) + '2'))
                t['del'][c] = tagname(c) + '2'
        ns[name] = prop
        table[name] = t

    def __init__(self):
        PropertyJsonLD.__init__(self, acontext='ctx')
        self.store = {}

    base = type('Base', (PropertyJsonLD,), {**ns, '__init__': __init__})
    ns2 = {}
    derived = {n: {k: dict(v) for k, v in t.items()}
               for n, t in table.items()}
    for i, which, c in plan['derived']:
        name = NAMES[i % len(plan['props'])]
        prop = ns2.get(name, ns[name])
        if which == 'get':
            prop = prop.getter(fget(name, 'sub', False))
            derived[name]['get'][None] = ('sub', False)
            if c is not None:
                prop = prop.getter_context(real(c))(fget(name, 'sub' + tagname(c),
                                                   False))
                derived[name]['get'][c] = ('sub' + tagname(c), False)
        elif which == 'set':
            prop = prop.setter(fset(name, 'sub'))
            derived[name]['set'][None] = 'sub'
            if c is not None:
                prop = prop.setter_context(real(c))(fset(name, 'sub' + tagname(c)))
                derived[name]['set'][c] = 'sub' + tagname(c)
        else:
            prop = prop.deleter(fdel(name, 'sub'))
            derived[name]['del'][None] = 'sub'
            if c is not None:
                prop = prop.deleter_context(real(c))(fdel(name, 'sub' + tagname(c)))
                derived[name]['del'][c] = 'sub' + tagname(c)
        ns2[name] = prop
    sub = type('Sub', (base,), ns2)
    return base, sub, table, derived


def run(case, ctx):
    base, sub, t_base, t_sub = make(case)
    names = sorted(t_base)
    # two objects of the class and one of the subclass
    objs = [base(), sub(), base()]
    tables = [t_base, t_sub, t_base]
    stores = [{}, {}, {}]
    stacks = [[None], [None], [None]]
    seen = {'ctx': 0, 'fail': 0}

    def find(i, kind, name, c):
        acc = tables[i][name][kind]
        return acc.get(c if c in acc else None)

    def getting(i, name, c):
        """('ok', value) | ('no',) | ('boom',)"""
        acc = find(i, 'get', name, c)
        if acc is None:
            return ('no',)
        if acc[1]:
            return ('boom',)
        return ('ok', [name, acc[0], stores[i].get(name)])

    def check_get(i, name):
        want = getting(i, name, stacks[i][-1])
        if want[0] == 'ok':
            got = must(getattr, objs[i], name)
            require(got == want[1],
                    lambda: f'.{name} is {got} in {stacks[i]}, not {want[1]}')
        else:
            must_raise(AttributeError if want[0] == 'no' else Boom,
                       getattr, objs[i], name)

    def outputs(i, c):
        """What data(context=c) must be, or how it must fail."""
        vals = {n: getting(i, n, c) for n in names}
        bad = {v[0] for v in vals.values()} - {'ok'}
        if bad:
            return tuple({'no': AttributeError, 'boom': Boom}[b]
                         for b in bad), None
        return None, {'@context': 'ctx', **{n: v[1] for n, v in vals.items()}}

    def do(op):
        kind, i = op[0], op[1]
        o, c = objs[i], stacks[i][-1]
        if kind == 'get':
            check_get(i, names[op[2] % len(names)])
        elif kind == 'set':
            name = names[op[2] % len(names)]
            acc = find(i, 'set', name, c)
            if acc is None:
                must_raise(AttributeError, setattr, o, name, op[3])
            else:
                must(setattr, o, name, op[3])
                stores[i][name] = [acc, op[3]]
        elif kind == 'del':
            name = names[op[2] % len(names)]
            acc = find(i, 'del', name, c)
            if acc is None:
                must_raise(AttributeError, delattr, o, name)
            else:
                must(delattr, o, name)
                stores[i][name] = ['deleted', acc]
        elif kind in ('data', 'json'):
            c2 = op[2] if kind == 'data' else JSON_DATA_CONTEXT
            fails, want = outputs(i, c2)
            fn = (lambda: o.data(context=real(c2))) if kind == 'data' \
                else (lambda: json.loads(o.json()))
            if fails:
                must_raise(fails, fn, what=kind)
                seen['fail'] += 1
            else:
                got = must(fn, what=kind)
                require(got == want, lambda: f'{kind} in {c2}: {got} instead '
                        f'of {want}')
        elif kind == 'index':
            want = {n: getting(i, n, c) for n in names}
            bad = tuple({'no': AttributeError, 'boom': Boom}[v[0]]
                        for v in want.values() if v[0] != 'ok')
            if bad:
                must_raise(bad, lambda: o[names])
            else:
                got = must(lambda: o[names])
                require(got == {n: v[1] for n, v in want.items()},
                        lambda: f'indexing in {stacks[i]} gives {got}')
        elif kind == 'iter':
            want = {n: getting(i, n, c) for n in names}
            bad = tuple({'no': AttributeError, 'boom': Boom}[v[0]]
                        for v in want.values() if v[0] != 'ok')
            if bad:
                must_raise(bad, lambda: list(o))
            else:
                got = must(list, o)
                require(sorted(k for k, _ in got) == sorted(
                    names + ['acontext', '__namespace__']) and all(
                        v == want[k][1] for k, v in got if k in want),
                        lambda: f'iterating in {stacks[i]} gives {got}')
        elif kind == 'with':
            stacks[i].append(op[2])
            seen['ctx'] += 1
            try:
                with o.switch_context(real(op[2])):
                    for inner in op[3]:
                        do(inner)
                    if op[4]:
                        raise LEAVE[op[5]]
            except LEAVE[op[5]]:
                require(op[4], 'left through an exception nobody raised')
                seen['fail'] += 1
            else:
                require(not op[4], 'the exception inside was swallowed')
            stacks[i].pop()
            # every object is where it was
            for j in range(len(objs)):
                for n in names:
                    check_get(j, n)
        else:
            raise HarnessError(kind)

    for op in case['ops']:
        do(op)
    if case['sweep']:
        for i in range(len(objs)):
            for c in CTX + ['other']:
                do(['with', i, c, [
                    [kind, i, k, 5] for k in range(len(names))
                    for kind in ('get', 'set', 'get', 'del')],
                    False, 0])
    for i in range(len(objs)):
        for n in names:
            check_get(i, n)
            if None in t_base[n]['get']:
                require(getattr(base, n).__doc__ ==
                        'Says which accessor answered.',
                        f'the documentation of {n} is lost')
    ctx.nontrivial(seen['ctx'] > 0)
    ctx.label('through an exception', seen['fail'] > 0)


def which():
    return st.lists(st.sampled_from(CTX), max_size=4, unique=True) | \
        st.just([None])


def ops(depth):
    i = st.integers(0, 2)
    n = st.integers(0, 2)
    flat = st.one_of(
        st.tuples(st.just('get'), i, n).map(list),
        st.tuples(st.just('set'), i, n, st.integers(0, 9)).map(list),
        st.tuples(st.just('del'), i, n).map(list),
        st.tuples(st.just('data'), i, st.sampled_from(CTX + ['other']))
        .map(list),
        st.tuples(st.just('json'), i).map(list),
        st.tuples(st.just('index'), i).map(list),
        st.tuples(st.just('iter'), i).map(list))
    if depth == 0:
        return flat
    inner = st.tuples(st.just('with'), i,
                      st.sampled_from(CTX + ['other', 'A', 'B']),
                      st.lists(ops(depth - 1), max_size=4),
                      st.integers(0, 3).map(lambda k: k == 0),
                      st.integers(0, len(LEAVE) - 1)).map(list)
    return flat | inner | inner


def plans():
    prop = st.fixed_dictionaries({
        'get': which().map(lambda v: v if len(v) else [None]),
        'set': which(), 'del': which(),
        'again': st.just([]) | st.lists(st.sampled_from(CTX), max_size=2),
        'by context': st.booleans(),
        'at once': st.sampled_from([False, False, True]),
        'raises': st.sampled_from([[], [], [], ['A'], [JSON_DATA_CONTEXT]])})
    return st.fixed_dictionaries({
        'props': st.lists(prop, min_size=1, max_size=3),
        'sweep': st.booleans(),
        'derived': st.lists(st.tuples(
            st.integers(0, 2), st.sampled_from(['get', 'set', 'del']),
            st.sampled_from(CTX)).map(list), max_size=3),
        'ops': st.lists(ops(3), min_size=1, max_size=8)})


# ------------------------------------------------- the vocabulary's objects
class Sour:
    """A value that cannot be written."""

    def __str__(self):
        raise Boom('no text')


class Broken:
    """A value that breaks while it is looked through."""

    def __iter__(self):
        yield 1
        raise Boom('no more')


def nested(o, spec):
    """The objects of a spec with their specs, outermost first."""
    out = [(o, spec)]
    for name, v in sorted(spec['p'].items()):
        vals = v[1] if v[0] == 'l' else [v]
        held = getattr(o, name)
        held = held if isinstance(held, list) else [held]
        for h, x in zip(held, vals):
            if x[0] == 'o':
                out += nested(h, x[1])
    return out


def run_as(case, ctx):
    """A serialisation that fails part-way leaves every object as it was."""
    e = asgen.engine()
    fresh_web()
    spec = case['spec']
    o = must(asgen.build, spec, e)
    all_ = nested(o, spec)
    bad, bspec = all_[case['where'] % len(all_)]
    if bspec['t'] in asgen.LINK_TYPES:
        bad, bspec = all_[0]
    held = bspec['p'].get('tag', ['n'])
    bad.tag = {'text': {'q': Sour()}, 'iterator': {'q': [1, Broken()]},
               'keys': {('a', 'b'): 1}}[case['how']]
    status, got = outcome(o.json if case['json'] or case['how'] == 'keys'
                          else o.data)
    require(status == 'exc', lambda: f'a {case["how"]} was written as {got}')
    # reading is not affected
    bad.tag = asgen.py(held, e)
    asgen.check_native(o, spec, e, 'init', False, require)
    for obj, s in all_:
        asgen.check_native(obj, s, e, 'init', False, require)
    data = must(o.data)
    want = asgen.expected(spec, 'init', AS)
    require(asgen.strict_eq(data, want),
            lambda: f'afterwards data() is {data}, not {want}')
    ctx.nontrivial(len(all_) > 1)
    ctx.label(case['how'])


TESTS = [
    Test('accessors', plans, run, quick=2500, procs=8,
         rule='random contextual properties (accessors per context, missing '
              'or failing ones, a subclass redefining some) under random '
              'nested contexts on three objects; non-trivial = a context was '
              'entered'),
    Test('failed output', lambda: st.fixed_dictionaries({
        'spec': asgen.spec(2, [t for t in asgen.OBJECT_TYPES]),
        'where': st.integers(0, 20), 'json': st.booleans(),
        'how': st.sampled_from(['iterator', 'keys', 'text'])}), run_as,
        quick=600, procs=8,
        rule='objects made impossible to write somewhere inside; non-trivial '
             '= nested'),
]
