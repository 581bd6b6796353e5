"""J01: an object written as JSON-LD and read back is the same object."""
import json

from hypothesis import strategies as st

import asdoc
import asgen
from aslib import AS, WEB, fresh_web
from core import Test, eq, must, require

ID = 'J01'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'the activitystreams context is served from a copy in pbt/data; no other '
    'page exists, so links cannot be opened',
    'a Link inside another object is written as its href (by design), so it '
    'comes back as a plain link with that href; durations come back as text',
    'not both of items and orderedItems; no leap seconds, no NaN']


def run(case, ctx):
    e = asgen.engine()
    fresh_web().add(asdoc.EXT, asdoc.EXT_CONTEXT, ctype='application/ld+json')
    spec = case['spec']
    o = must(asgen.build, spec, e, case['via'], what='building the object')
    require(not WEB.requests, f'building requested {WEB.urls()}')
    text = must(o.json, what='json()')
    require(not WEB.requests, f'json() requested {WEB.urls()}')
    o2 = must(e.from_json, text, what='from_json of the own output')
    extra = [u for u in WEB.urls() if u not in (AS, asdoc.EXT)]
    require(not extra, f'from_json requested {extra}')
    a, b = o.data(), o2.data()
    require(asgen.strict_eq(a, b), lambda: f'{a} came back as {b}')
    asgen.check_native(o, spec, e, case['via'], False, require, 'built')
    asgen.check_native(o2, spec, e, case['via'], True, require, 'read')
    want = spec.get('c', AS)
    for name, x in (('built', o), ('read', o2)):
        require(asgen.strict_eq(x.acontext, want), lambda: f'the context of '
                f'the object {name} is {x.acontext!r}, not {want!r}')
    # and again: the second text says the same as the first
    require(asgen.strict_eq(json.loads(o2.json()), json.loads(text)),
            'the second text differs from the first')
    objs, refs, lists = asgen.size(spec)
    ctx.nontrivial(len(spec['p']) >= 2 and (objs > 1 or refs or lists))
    if case.get('one'):
        ctx.nontrivial(any(map(asgen.plainest, spec['p'].values())) or lists)
        ctx.label('false, zero or empty',
                  any(map(asgen.plainest, spec['p'].values())))
    ctx.label('nested objects', objs > 1)
    ctx.label('nested twice', asgen.depth_of(spec) > 1)
    ctx.label('references', refs > 0)
    ctx.label('a context of its own', 'c' in spec)
    ctx.label('collection', spec['t'] in asgen.COLLECTIONS)


def cases(types=None, depth=2, more=4, specs=None):
    return st.fixed_dictionaries({
        'spec': asgen.contexts(specs or asgen.spec(depth, types, more)),
        'via': st.sampled_from(['init', 'set'])})


def each(n):
    return Test(
        f'each property {n + 1}', lambda: st.fixed_dictionaries({
            'spec': asgen.contexts(asgen.single()),
            'via': st.sampled_from(['init', 'set']), 'one': st.just(True)}),
        run, quick=50, procs=1, pinned=[
            {'spec': s if i % 5 else {**s, 'c': asgen.CONTEXTS[2]},
             'via': 'set' if i % 7 == 3 else 'init', 'one': True}
            for i, s in enumerate(asgen.every(asgen.TYPES[n::8]))],
        rule='every property on every type that has it (enumerated), with a '
             'typical value and the plainest ones; non-trivial = such a '
             'plain value, or a list')


TESTS = [
    *map(each, range(8)),
    Test('objects', lambda: cases(asgen.TYPES), run, quick=1200, procs=8,
         rule='objects of every type with random properties, nested up to '
              'two deep, built by constructor or by assignment; non-trivial '
              '= two or more properties and a nested object, link or list'),
    Test('property by property', lambda: st.fixed_dictionaries({
        'spec': asgen.contexts(asgen.single()), 'via': st.sampled_from(['init', 'set']),
        'one': st.just(True)}), run, quick=2500, procs=8,
        rule='every property as often as every other, on the types that '
             'have it, one to three at a time, often with the plainest value '
             '(false, zero, an empty text); non-trivial = such a value, or a '
             'list'),
    Test('deep', lambda: cases(depth=4, more=3), run, quick=300, procs=8,
         rule='nesting up to four deep; non-trivial as above'),
    Test('wide', lambda: cases(depth=1, more=14), run, quick=300, procs=8,
         rule='up to fourteen properties at once; non-trivial as above'),
    Test('tower', lambda: cases(specs=asgen.tower()), run, quick=150, procs=8,
         rule='one object in another, 5-20 deep; non-trivial as above'),
]
