"""J03: serialisation says exactly what the object holds, at every depth."""
import json

from hypothesis import strategies as st

import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, require

ID = 'J03'
LEVEL = 'exploration'
ASSUMPTIONS = ['not both of items and orderedItems; no cyclic objects']


# contexts that need not be understood to be written
ODD = [{'a': AS}, {'@vocab': AS + '#', 'b': {'@id': 'x', '@type': '@id'}},
       [], ['x', ['y']], '']


def unique(pairs):
    keys = [k for k, _ in pairs]
    require(len(keys) == len(set(keys)), lambda: f'a name twice: {keys}')
    return dict(pairs)


def scribble(v):
    """Ruins a returned document in place."""
    if isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v['scribble'] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append('scribble')


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    spec = case['spec']
    o = must(asgen.build, spec, e, case['via'], what='building the object')
    want = asgen.expected(spec, case['via'], AS)
    data = must(o.data)
    require(asgen.strict_eq(data, want),
            lambda: f'data() is {data}, not {want}')
    text = must(o.json)
    doc = json.loads(text, object_pairs_hook=unique)
    require(asgen.strict_eq(doc, want),
            lambda: f'json() is {text}, not {want}')
    # the document is a copy: changing it does not reach the object
    scribble(data)
    again = must(o.data)
    require(asgen.strict_eq(again, want),
            lambda: f'after changing a returned document: {again}')
    if case['look']:
        # nor has writing changed what it holds
        asgen.check_native(o, spec, e, case['via'], False, require,
                           'after writing, the object')
        WEB.requests.clear()
    # and setting a property again is what counts from then on
    for name, v in case['later']:
        setattr(o, name, asgen.py(v, e))
        want[name] = asgen.js(v)
    if case['later']:
        data = must(o.data)
        require(asgen.strict_eq(data, want),
                lambda: f'after assignments data() is {data}, not {want}')
    for name in case['gone']:
        if name in spec['p'] and name not in ('id',):
            setattr(o, name, None)
            want.pop(name, None)
    data = must(o.data)
    require(asgen.strict_eq(data, want),
            lambda: f'after setting {case["gone"]} to None: {data}')
    require(not WEB.requests, f'serialising requested {WEB.urls()}')
    objs, refs, lists = asgen.size(spec)
    ctx.nontrivial(objs > 1 and len(spec['p']) >= 2)
    ctx.label('a context of its own', 'c' in spec)
    ctx.label('list', lists > 0)
    ctx.label('references', refs > 0)
    ctx.label('nested twice', asgen.depth_of(spec) > 1)


@st.composite
def cases(draw, depth=2, more=5, specs=None):
    spec = draw(asgen.nested_contexts(asgen.contexts(
        specs or asgen.spec(depth, None, more), ODD), ODD))
    some = st.sampled_from(asgen.PROPS[spec['t']])
    later = [[n, draw(asgen.value(n, 1))]
             for n in draw(st.lists(some, max_size=3, unique=True))]
    gone = draw(st.lists(st.sampled_from(
        sorted(spec['p']) or ['name']), max_size=2))
    return {'look': draw(st.booleans()),
            'spec': spec, 'via': draw(st.sampled_from(['init', 'set'])),
            'later': later, 'gone': gone}


TESTS = [
    Test('data', cases, run, quick=2000, procs=8,
         rule='random objects of every type, later assignments and removals; '
              'non-trivial = at least one nested object and two properties'),
    Test('deep', lambda: cases(depth=5, more=3), run, quick=400, procs=8,
         rule='nesting up to five deep; non-trivial as above'),
    Test('tower', lambda: cases(specs=asgen.tower()), run, quick=250, procs=8,
         rule='one object in another, 5-20 deep; non-trivial as above'),
    Test('wide', lambda: cases(depth=1, more=16), run, quick=250, procs=8,
         rule='up to sixteen properties at once; non-trivial as above'),
]
