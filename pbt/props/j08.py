"""J08: evaluating a link opens it; what cannot be opened stays a link."""
import requests
from hypothesis import strategies as st

import asdoc
import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, require
from props.j07 import PLACES

from activitystreams import models
from jsonld import jsonld_get

ID = 'J08'
LEVEL = 'exploration'
ASSUMPTIONS = ['the web is a closed world served from memory; whether an '
               'opened page is fetched again on the next read is left open; '
               'links in lists and mentions are presented as links, by design']

FAILURES = {
    'no host': dict(body=requests.exceptions.ConnectionError('no host')),
    'timeout': dict(body=requests.exceptions.Timeout('slow')),
    'reset': dict(body=ConnectionResetError('reset')),
    'html': dict(body=b'<html>', ctype='text/html'),
    'empty': dict(body=b''),
    'not json': dict(body=b'{"type": "Note"'),
    'bad utf-8': dict(body=b'\xff\xfe{'),
    'missing': dict(body={'error': 'Record not found'}, status=404),
    'gone': dict(body=b'', status=410),
    'a list': dict(body=[{'@context': AS, 'type': 'Note'}]),
    'a number': dict(body=7),
    'null': dict(body=None),
    'a string': dict(body='Note'),
    'empty object': dict(body={}),
    'no type': dict(body={'@context': AS, 'id': 'https://a.org/1'}),
    'other type': dict(body={'@context': AS, 'type': 'Unicorn'}),
    'bad value': dict(body={'@context': AS, 'type': 'Note',
                            'published': 'yesterday'}),
    'bad context': dict(body={'@context': 'https://nowhere.example/ctx',
                              'type': 'Note'}),
    'endless redirect': dict(body=b'', redirect='SELF'),
}


TARGETS = ['https://node.example/target', 'https://node.example/target',
           'http://node.example/target', 'https://node.example/t?q=1&r=2',
           'https://node.example/t#main', 'https://node.example',
           'https://node.example/@me/', 'https://node.example:8443/a/b.json',
           'https://node.example/' + 'long/' * 12]
CONTEXTS = (AS, 'https://nowhere.example/ctx')


def url(i):
    return f'https://node.example/{i}'


FAR = 'https://far.example/note'


def _far(spec):
    return spec if 'href' not in spec['p'] else {
        **spec, 'p': {**spec['p'], 'href': ['s', FAR]}}


def accepted(headers):
    a = headers.get('Accept', '')
    return 'application/ld+json' in a and 'application/activity+json' in a


def unopened(got, e, cls, href, what):
    require(type(got) is cls and got.href == href,
            lambda: f'{what} is {got!r} ({type(got)}), not a link to {href}')


def run_one(case, ctx):
    """One link: unavailable, then available, in any property."""
    e = asgen.engine()
    fresh_web()
    t, prop = case['place']
    target = case['target']
    base = {'href': 'https://a.org/l'} if t == 'Link' else {}
    more = case['details']
    value = {'text': lambda: target,
             'link': lambda: e.Link(href=target, **more),
             'plain link': lambda: models.Link(href=target, **more),
             'mention': lambda: e.Mention(href=target, **more)}[case['given']]()
    o = getattr(e, t)(id=None, **base, **{prop: value})
    require(not WEB.requests, f'setting requested {WEB.urls()}')
    cls = e.Mention if case['given'] == 'mention' else e.Link
    for f in case['failures']:
        page = dict(FAILURES[f])
        if page.get('redirect'):
            page['redirect'] = target
        WEB.add(target, **page)
        got = must(getattr, o, prop, what=f'reading a link that is "{f}"')
        unopened(got, e, cls, target, f'{t}.{prop} with "{f}"')
        require(asgen.strict_eq(o.data()[prop], target),
                lambda: f'after "{f}" {prop} is written as {o.data()[prop]}')
    spec = case['spec']
    final = target
    doc = asgen.expected(spec, 'init', AS)
    if case['redirect']:
        final = 'https://other.example/target'
        WEB.add(target, b'', redirect=final)
    if not case['context']:
        del doc['@context']
    WEB.add(asdoc.EXT, asdoc.EXT_CONTEXT, ctype='application/ld+json')
    if doc.get('href') == FAR:
        # what is found may be a link itself, to something there is
        WEB.add(FAR, {'@context': AS, 'type': 'Note', 'name': 'far'})
        ctx.label('a link found')
    WEB.add(final, doc)
    WEB.requests.clear()
    got = must(getattr, o, prop, what='reading a link that can be opened')
    if case['given'] == 'mention':
        unopened(got, e, e.Mention, target, f'the mention in {prop}')
        require(not WEB.requests, 'a mention was opened')
    else:
        asgen.check_native(got, spec, e, 'init', True, require, prop)
        want = doc.get('@context', AS)
        require(asgen.strict_eq(got.acontext, want),
                lambda: f'opened with the context {got.acontext}')
        # building what the page says may look at links inside it
        fetched = [(u, h) for u, h in WEB.requests
                   if '//node.example' in u or '//other.example' in u]
        # (the root has a path, a fragment goes along when redirected)
        bare = {u.split('#')[0].rstrip('/') for u, _ in fetched}
        require(bare == {u.split('#')[0].rstrip('/')
                         for u in (target, final)},
                lambda: f'opening {target} requested {WEB.urls()}')
        require(all(accepted(h) for u, h in fetched),
                lambda: f'the page was asked for with {fetched[0][1]}')
    # the object itself still holds, and writes, the link
    WEB.requests.clear()
    require(asgen.strict_eq(o.data()[prop], target),
            lambda: f'after opening, {prop} is written as {o.data()[prop]}')
    require(not WEB.requests, f'writing requested {WEB.urls()}')
    ctx.nontrivial(bool(case['failures']) or case['redirect'])
    for f in case['failures']:
        ctx.label(f)
    ctx.label('redirect', case['redirect'])


_TWO = []


def run_engines(case, ctx):
    """Links of two engines inside each other's objects, read in any
    context."""
    if not _TWO:
        from activitystreams import create_engine
        _TWO.extend([asgen.engine(), create_engine()])
    fresh_web()
    target = 'https://node.example/target'
    WEB.add(target, {'@context': AS, 'type': case['type'], 'id': target,
                     'name': 'n'})
    mine, theirs = _TWO if case['first'] else _TWO[::-1]
    t, prop = case['place']
    base = {'href': 'https://a.org/l'} if t == 'Link' else {}
    link = theirs.Link(href=target)
    o = must(getattr(mine, t), id=None, **base, **{prop: link})
    if case['context']:
        with o.switch_context(case['context']):
            got = must(getattr, o, prop)
    else:
        got = must(getattr, o, prop)
    require(type(got) is getattr(theirs, case['type']) and got.name == 'n',
            lambda: f'a link of another engine in {t}.{prop} opens as '
            f'{got!r} ({type(got)}), context {case["context"]}')
    require(o.data()[prop] == target, lambda: f'written as {o.data()[prop]}')
    own = must(getattr(mine, t), id=None, **base, **{prop: target})
    got = must(getattr, own, prop)
    require(type(got) is getattr(mine, case['type']),
            lambda: f'a link of its own engine opens as {type(got)}')
    ctx.nontrivial()
    ctx.label('in a context', bool(case['context']))


def page(node, i):
    doc = {'@context': AS, 'type': node['type'], 'id': url(i),
           'name': f'node {i}'}
    for prop, to in node['refs'].items():
        doc[prop] = [url(j) for j in to] if isinstance(to, list) \
            else {'type': 'Note', 'name': 'inside', 'attachment': url(to[
                'in'])} if isinstance(to, dict) else url(to)
    return doc


def run_walk(case, ctx):
    """Following links through a graph of documents, dead ends included."""
    e = asgen.engine()
    fresh_web()
    nodes = case['nodes']
    dead = {i for i, n in enumerate(nodes) if n['dead']}
    for i, n in enumerate(nodes):
        if i in dead:
            WEB.add(url(i), **FAILURES[n['dead']])
        else:
            WEB.add(url(i), page(n, i))
    dead.discard(0)
    first = {**nodes[0], 'dead': None}
    here, o, steps = 0, must(e.from_json, page(first, 0)), 0
    for pick in case['path']:
        node = nodes[here]
        refs = sorted(node['refs'])
        if not refs:
            break
        prop = refs[pick % len(refs)]
        to = node['refs'][prop]
        WEB.requests.clear()
        got = must(getattr, o, prop, what=f'node {here}.{prop}')
        asked = [u for u in WEB.urls() if u not in CONTEXTS]
        if isinstance(to, list):
            require(type(got) is list and len(got) == len(to),
                    lambda: f'{prop} is {got!r}')
            for g, j in zip(got, to):
                unopened(g, e, e.Link, url(j), f'an entry of {prop}')
            require(not asked, lambda: f'the list requested {asked}')
            break
        if isinstance(to, dict):
            require(type(got) is e.Note and got.name == 'inside',
                    lambda: f'{prop} is {got!r}')
            require(not asked, lambda: f'the object inside requested {asked}')
            to = to['in']
            WEB.requests.clear()
            got = must(getattr, got, 'attachment')
            asked = [u for u in WEB.urls() if u not in CONTEXTS]
        require(set(asked) <= {url(to)},
                lambda: f'opening {url(to)} requested {asked}')
        if to in dead or (to == 0 and nodes[0]['dead']):
            unopened(got, e, e.Link, url(to), f'the dead end {to}')
            ctx.label('dead end')
            break
        require(type(got) is getattr(e, nodes[to]['type']) and
                got.id == url(to) and got.name == f'node {to}',
                lambda: f'following {prop} to {to} gives {got!r}')
        here, o = to, got
        steps += 1
    ctx.nontrivial(steps >= 2)
    ctx.label('3+ steps', steps >= 3)


def run_get(case, ctx):
    """jsonld_get: the accepted types, added headers, raw responses."""
    fresh_web()
    doc = case['doc']
    WEB.add('https://node.example/doc', doc)
    headers = case['headers']
    kept = dict(headers) if headers is not None else None
    got = must(jsonld_get, 'https://node.example/doc', headers,
               case['json']) if case['positional'] else \
        must(jsonld_get, 'https://node.example/doc', headers=headers,
             json=case['json'])
    require(headers == kept, 'the headers given were changed')
    require(WEB.urls() == ['https://node.example/doc'],
            f'requested {WEB.urls()}')
    sent = {k.lower(): v for k, v in WEB.requests[0][1].items()}
    for k, v in (headers or {}).items():
        require(sent.get(k.lower()) == v,
                lambda: f'header {k} was sent as {sent.get(k.lower())!r}')
    if 'Accept' not in (headers or {}):
        require(accepted(WEB.requests[0][1]), f'Accept is {sent["accept"]}')
    body = got if case['json'] else got.json()
    require(asgen.strict_eq(body, doc), lambda: f'{body} instead of {doc}')
    # the next call is not affected by the headers of this one
    jsonld_get('https://node.example/doc')
    sent = {k.lower(): v for k, v in WEB.requests[1][1].items()}
    require(accepted(WEB.requests[1][1]) and not any(
        k.lower() in sent for k in headers or {}
        if k in ('X-One', 'Authorization')) and
        sent.get('user-agent', '')[:2] not in ('a', 'b;', 'ap'),
        lambda: f'headers left over: {dict(sent)}')
    ctx.nontrivial(bool(headers))


@st.composite
def graphs(draw, most=5, steps=8):
    n = draw(st.integers(2, most))
    idx = st.integers(0, n - 1)
    props = ['attachment', 'replies', 'url', 'tag', 'context', 'inReplyTo']
    nodes = []
    for i in range(n):
        to = st.one_of(idx, idx, idx, idx.map(lambda j: {'in': j}),
                       st.lists(idx, min_size=1, max_size=2))
        nodes.append({
            'type': draw(st.sampled_from(['Note', 'Person', 'Collection',
                                          'Create', 'OrderedCollection'])),
            'refs': {p: draw(idx if p in ('replies', 'url') else to)
                     for p in draw(st.lists(st.sampled_from(props),
                                            min_size=1, max_size=3,
                                            unique=True))},
            'dead': draw(st.sampled_from([None] * 50 + sorted(
                set(FAILURES) - {'endless redirect'})))})
    return {'nodes': nodes,
            'path': draw(st.lists(st.integers(0, 5), min_size=2,
                                  max_size=steps))}


TESTS = [
    Test('one link', lambda: st.fixed_dictionaries({
        'place': st.sampled_from(PLACES).map(list),
        'given': st.sampled_from(['text', 'text', 'link', 'plain link',
                                  'mention']),
        'failures': st.lists(st.sampled_from(sorted(FAILURES)), max_size=3),
        'target': st.sampled_from(TARGETS),
        'details': asgen.link_spec().map(lambda d: {
            k: v for k, v in d.items() if k not in ('href', 'id')}),
        'spec': asgen.contexts(asgen.spec(1, None, 3) | asgen.spec(
            1, ['Link', 'Mention', 'Note'], 3)).map(_far), 'redirect': st.booleans(),
        'context': st.booleans()}), run_one, quick=1500, procs=8,
        rule='a link in any property, first failing in any of '
             f'{len(FAILURES)} ways, then available; non-trivial = a failure '
             'or a redirect'),
    Test('engines', lambda: st.fixed_dictionaries({
        'place': st.sampled_from(PLACES).map(list), 'first': st.booleans(),
        'type': st.sampled_from(['Note', 'Person', 'Create', 'Collection']),
        'context': st.none() | st.sampled_from(['mine', 'x'])}), run_engines,
        quick=300, procs=4,
        rule='a link of one engine in an object of another, in any property; '
             'every case counts'),
    Test('walk', graphs, run_walk, quick=1200, procs=8,
         rule='walks over random graphs of up to five documents; non-trivial '
              '= two or more links opened'),
    Test('long walk', lambda: graphs(15, 40), run_walk, quick=200, procs=8,
         rule='walks of up to forty steps over up to fifteen documents; '
              'non-trivial as above'),
    Test('get', lambda: st.fixed_dictionaries({
        'doc': st.dictionaries(asgen.TEXT, asgen.JSONV, max_size=3),
        'headers': st.none() | st.dictionaries(st.sampled_from(
            ['X-One', 'User-Agent', 'Accept', 'Authorization']),
            st.sampled_from(['a', 'b; q=1', 'application/json']),
            max_size=3),
        'json': st.booleans(), 'positional': st.booleans()}), run_get,
        quick=300, procs=2,
        rule='requests with random headers; non-trivial = some headers'),
]
