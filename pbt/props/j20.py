"""J20: threads that share an engine, each with objects of its own."""
import copy
import json
from datetime import datetime

from hypothesis import strategies as st

import asdoc
import asgen
import interleave
from aslib import AS, WEB, fresh_web
from core import Test, Violation, require
from props import j16

import jsonld
from activitystreams import create_engine

ID = 'J20'
LEVEL = 'exploration'
ASSUMPTIONS = ['one thread at a time runs the code of the repository; the '
               'turn passes between any two of its bytecodes (as it does '
               'under the interpreter lock), not inside the libraries',
               'no object is shared by threads, only engines, packages, '
               'classes and loaders; an engine is complete before it is '
               'shared']

PAGES = [f'https://peer.example/{i}' for i in range(4)]


def serve():
    fresh_web()
    WEB.add(asdoc.EXT, asdoc.EXT_CONTEXT, ctype='application/ld+json')
    for i, url in enumerate(PAGES):
        WEB.add(url, {'@context': AS, 'type': asgen.TYPES[i * 7 % 40],
                      'name': f'page {i}', 'id': url})


def text(v):
    if hasattr(v, 'data'):
        return [type(v).__name__, text(v.data())]
    if isinstance(v, dict):
        return {str(k): text(x) for k, x in sorted(v.items())}
    if isinstance(v, (list, tuple)):
        return [text(x) for x in v]
    return repr(v)


def view(o):
    """everything an object has to say"""
    names = sorted(o.__get_properties__())
    got = [type(o).__name__, o.json(), names]
    got[1] = text(json.loads(got[1]))
    for k in names:
        if k in got[1] or k in ('__namespace__', 'inReplyTo'):
            got.append([k, text(getattr(o, k))])
    return got


def step(engine, op):
    kind = op['op']
    if kind == 'read':
        return view(engine.from_json(copy.deepcopy(op['doc']['doc'])))
    if kind == 'text':
        return view(engine[json.dumps(op['doc']['doc'])])
    if kind == 'make':
        o = asgen.build(op['spec'], engine)
        kw = dict(op['options'])
        return (view(o) if op['before'] else None, text(o.data(**kw)),
                view(o) if op['after'] else None)
    if kind == 'write':
        o = engine.Note(name=op['name'], published=datetime(2024, 1, 2),
                        attachment=[engine.Note(name='in ' + op['name'])] *
                        op['inner'])
        return text(o.data(**op['options'])), repr(o.published), o.name
    if kind == 'parse':
        o = engine.from_json({'@context': op['context'], 'type': 'Note',
                              'name': op['name'], 'attachment': [
                                  {'type': 'Note', 'name': 'in'}],
                              'updated': '2024-01-02T03:04:05Z'})
        return text(o.acontext), text(o.attachment), o.name, repr(o.updated)
    if kind == 'bad':
        o = engine.Note(name='n')
        try:
            setattr(o, op['prop'], object())
        except Exception as e:
            return type(e).__name__, view(o)
        return 'accepted', view(o)
    if kind == 'link':
        o = engine.Note(attributedTo=PAGES[op['page']])
        return text(o.data()), view(o.attributedTo), view(o)
    if kind == 'collection':
        members = [f'https://peer.example/m{i}' for i in range(op['page'])]
        o = engine.OrderedCollection(orderedItems=members)
        return o.totalItems, [str(m) for m in o], view(o)
    if kind == 'load':
        got = jsonld.JSONLD_DOCLOADER(PAGES[op['page']])
        return json.dumps(got['document'], sort_keys=True), got['documentUrl']
    if kind == 'engine':
        # an engine of one's own, made meanwhile
        mine = create_engine()
        return text(mine.Note(name='mine').data()), \
            type(mine.from_json({'type': 'Person'})) is mine.Person
    raise ValueError(kind)


def perform(engine, ops):
    out = []
    for op in ops:
        try:
            out.append(['ok', step(engine, op)])
        except Exception as e:
            out.append(['exc', type(e).__name__])
    return out


def run(case, ctx):
    serve()
    engine = asgen.engine()
    if case['fresh']:
        engine = create_engine()
    want = []
    for ops in case['threads']:
        j16.forget()
        want.append(perform(engine, ops))
    if case['fresh']:
        # what is computed on first use is computed by several threads
        engine = create_engine()
    if case['forget']:
        j16.forget()
    got, turns = interleave.run(
        [lambda ops=ops: perform(engine, ops) for ops in case['threads']],
        case['gaps'], opcodes=case['opcodes'])
    if got is None:
        raise Violation('the threads do not come back')
    for i, (ops, w, g) in enumerate(zip(case['threads'], want, got)):
        if g[0] != 'ok':
            raise g[1]
        for op, a, b in zip(ops, w, g[1]):
            require(a == b, lambda: f'thread {i}: {op} gives {diff(b, a)} '
                    f'alone: {diff(a, b)}')
    # what the threads left behind
    for i, (ops, w) in enumerate(zip(case['threads'], want)):
        require(perform(engine, ops) == w,
                f'what thread {i} did comes out differently afterwards')
    ctx.nontrivial(turns.switches > 0)
    ctx.label('switches', turns.switches)
    ctx.label('blocked', turns.stuck)


def diff(a, b):
    """the first part of a that differs from b"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return repr(a)[:300]


OPTIONS = st.fixed_dictionaries({}, optional={
    'include': st.just(['name', 'type', 'published']),
    'exclude': st.just(['name']), 'rename': st.just({'name': 'title'}),
    'include_none': st.just(True)})


def short():
    return st.one_of(
        st.fixed_dictionaries({
            'op': st.just('write'), 'options': OPTIONS,
            'inner': st.integers(0, 1),
            'name': st.sampled_from(['n', 'm'])}),
        st.fixed_dictionaries({
            'op': st.just('parse'), 'name': st.sampled_from(['n', 'm']),
            'context': st.sampled_from([AS, [AS, asdoc.EXT]])}))


def op():
    return st.one_of(
        short(), short(), short(),
        st.fixed_dictionaries({'op': st.sampled_from(['read', 'text']),
                               'doc': asdoc.documents(1, more=3)}),
        st.fixed_dictionaries({
            'op': st.just('make'), 'before': st.booleans(),
            'after': st.booleans(), 'spec': asgen.spec(1, more=3),
            'options': OPTIONS}),
        st.fixed_dictionaries({
            'op': st.just('bad'),
            'prop': st.sampled_from(['published', 'attributedTo', 'duration',
                                     'url', 'name'])}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['link', 'collection', 'load', 'engine']),
            'page': st.integers(0, 3)}))


TESTS = [
    Test('sharing', lambda: st.fixed_dictionaries({
        'threads': st.lists(st.lists(op(), min_size=1, max_size=3),
                            min_size=2, max_size=3),
        'gaps': st.lists(interleave.gap(1500), min_size=2, max_size=40),
        'opcodes': st.booleans(), 'fresh': st.booleans(),
        'forget': st.booleans()}), run, quick=400, procs=8,
        rule='two or three threads that read, make and write objects, open '
             'references, load documents and make engines of their own; '
             'non-trivial = the turn passed within a thread'),
    Test('pairs', lambda: st.fixed_dictionaries({
        'threads': st.tuples(short(), short()).map(lambda t: [[x] for x in t]),
        'gaps': st.lists(interleave.narrow(), min_size=1, max_size=2),
        'opcodes': st.just(True), 'fresh': st.just(False),
        'forget': st.booleans()}), run, quick=2000, procs=8,
        rule='two threads that read, make or write one object each, the '
             'turn passing once or twice; non-trivial = the turn passed '
             'within a thread'),
]
