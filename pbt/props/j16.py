"""J16: every context document is fetched once; failures are tried again."""
import copy

import requests
from hypothesis import strategies as st
from pyld.jsonld import JsonLdError
import pyld.jsonld

import asgen
import aslib
from aslib import AS, AS_CONTEXT, WEB, fresh_web
from core import Test, must, must_raise, outcome, require

import jsonld
from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader

ID = 'J16'
LEVEL = 'exploration'
ASSUMPTIONS = ['one thread; cached documents are not modified by the caller']

URLS = ['https://c.example/1', 'https://c.example/2', 'https://d.example/1',
        'https://c.example/1/', 'https://c.example/1?x',
        'https://c.example/A', 'https://c.example/a',
        'https://c.example/1?y', 'http://c.example/1', 'https://c.example/11',
        'https://c.example:444/1', 'https://c.example/1#f',
        'https://c.example/1#g', 'https://c.example/moved',
        'https://c.example/other']
# where the loader ends up is an address of its own
MOVED = {len(URLS) - 2: 'https://c.example/2'}
OTHER = {len(URLS) - 1: 'https://d.example/1'}
DOWN = {'no host': dict(body=requests.exceptions.ConnectionError('no')),
        'html': dict(body=b'<html>', ctype='text/html'),
        'busy': dict(body={'e': 1}, status=503)}


def forget():
    aslib.forget_documents()
    cache = getattr(pyld.jsonld, '_resolved_context_cache', None)
    if cache is not None:
        cache.clear()


LISTED = {3, 4, 7}
CTX_LINK = 'https://c.example/ctx?v=1'


def page(i, state):
    doc = {'version': state, 'url': URLS[i]}
    return [doc, {'more': []}] if i in LISTED else doc


def serve(i, state):
    url = URLS[i]
    if i in MOVED:
        WEB.add(url, b'', redirect=MOVED[i])
    elif isinstance(state, str):
        WEB.add(url, **DOWN[state])
    elif i in LISTED:
        # a list that says where its context is
        WEB.add(url, page(i, state), ctype='application/json', headers={
            'link': f'<{CTX_LINK}>; rel="http://www.w3.org/ns/json-ld'
                    f'#context"'})
    elif i in OTHER:
        WEB.add(url, {'version': state, 'url': url}, ctype='text/plain',
                headers={'link': f'<{OTHER[i]}>; rel="alternate"; '
                                 f'type="application/ld+json"'})
    else:
        WEB.add(url, page(i, state), ctype='application/ld+json')


def run(case, ctx):
    """Loaders sharing the cache, a changing web."""
    fresh_web()
    WEB.pages.clear()
    forget()
    loaders = [CachedRequestsJsonLoader(secure=False),
               CachedRequestsJsonLoader(
                   secure=False, headers={'Accept': 'application/json'}),
               jsonld.JSONLD_DOCLOADER]
    state = {i: 0 for i in range(len(URLS))}
    for i in state:
        serve(i, 0)
    held = {}
    for op in case['ops']:
        if op[0] == 'web':
            state[op[1]] = op[2]
            serve(op[1], op[2])
            continue
        i = op[1]
        url = URLS[i]
        # (the loader of the package itself is a secure one)
        ld = loaders[0 if url.startswith('http:') else op[2]]
        WEB.requests.clear()
        at = URLS.index(MOVED[i]) if i in MOVED else i
        asked = [url, MOVED[i]] if i in MOVED else [url]
        version = state[at]
        want = page(at, version)
        if op[0] == 'plain':
            # the uncached loader always asks
            status, got = outcome(RequestsJsonLoader(secure=False), url)
            require(WEB.urls() == asked, lambda: f'requested {WEB.urls()}')
            require((status == 'ok') is isinstance(version, int),
                    lambda: f'uncached: {got!r} for {version}')
            if status == 'ok':
                require(got['document'] == want,
                        'the uncached loader gave an old document')
            continue
        if i in held:
            got = must(ld, url)
            require(not WEB.requests, lambda: f'{url} was fetched again')
            require(got['document'] == held[i] and got['contextUrl'] == (
                CTX_LINK if at in LISTED else None) and
                    got['documentUrl'] == OTHER.get(i, URLS[at]),
                    lambda: f'{url} gives {got}, was {held[i]}')
            ctx.nontrivial()
        elif isinstance(version, int):
            got = must(ld, url)
            require(WEB.urls() == asked, lambda: f'requested {WEB.urls()}')
            require(got['document'] == want and got['contextUrl'] == (
                CTX_LINK if at in LISTED else None),
                    lambda: f'{url} gives {got}')
            held[i] = want
        else:
            must_raise(JsonLdError, ld, url)
            require(WEB.urls() == asked,
                    lambda: f'{url} was not tried again: {WEB.urls()}')
            ctx.label('failed')
    ctx.label('documents', len(held))


def run_many(case, ctx):
    """Many addresses, of many sites; none is forgotten."""
    fresh_web()
    WEB.pages.clear()
    forget()
    urls = [f'https://{"abc"[i % 3]}.example/{i}' for i in range(case['n'])]
    for i, url in enumerate(urls):
        WEB.add(url, {'n': i}, ctype='application/ld+json')
    ld = CachedRequestsJsonLoader(secure=False)
    for i, url in enumerate(urls):
        require(must(ld, url)['document'] == {'n': i}, f'{url} is another')
    require(WEB.urls() == urls, 'requested more or less than once')
    WEB.requests.clear()
    order = [0, len(urls) - 1] + [i % len(urls) for i in case['again']]
    for i in order + list(range(len(urls))):
        WEB.add(urls[i], {'n': -1}, ctype='application/ld+json')
        require(must(ld, urls[i])['document'] == {'n': i},
                f'{urls[i]} is another after {len(urls)} documents')
    require(not WEB.requests, lambda: f'{WEB.urls()[0]} was fetched again '
            f'after {len(urls)} documents')
    ctx.nontrivial(len(urls) > 16)
    ctx.label('documents', len(urls))


def run_engine(case, ctx):
    """Contexts that documents refer to."""
    e = asgen.engine()
    fresh_web()
    forget()
    ctxs = {u: {'@context': {'x': f'https://x.example/{k}#'}}
            for k, u in enumerate(URLS[:3])}
    for u, c in ctxs.items():
        WEB.add(u, c, ctype='application/ld+json')
    served = {AS: AS_CONTEXT, **ctxs}
    fetched = set()
    for step in case['docs']:
        if step['down'] and URLS[0] not in fetched:
            WEB.add(URLS[0], **DOWN[step['down']])
        else:
            WEB.add(URLS[0], ctxs[URLS[0]], ctype='application/ld+json')
        use = [AS] + [URLS[i] for i in step['contexts']]
        if step['reversed']:
            use = use[::-1]
        doc = {'@context': use if len(use) > 1 else use[0],
               'type': step['type'], 'name': 'n',
               'attachment': [{'type': 'Note', 'name': 'm'}] * step['inner']}
        kept = copy.deepcopy(doc)
        WEB.requests.clear()
        broken = step['down'] and URLS[0] in use and URLS[0] not in fetched
        if broken:
            must_raise(Exception, e.from_json, doc)
            require(URLS[0] in WEB.urls(), 'a context that failed once is '
                    'not tried again')
            ctx.label('failed')
        else:
            o = must(e.from_json, doc)
            require(type(o) is getattr(e, step['type']) and o.name == 'n',
                    lambda: f'{doc} became {o!r}')
            data = o.data()
            require(data['@context'] == doc['@context'],
                    lambda: f'context became {data["@context"]}')
        asked = WEB.urls()
        require(len(asked) == len(set(asked)),
                lambda: f'one document, requests {asked}')
        require(set(asked) <= set(use) - fetched,
                lambda: f'requested {asked}, had {fetched}, needed {use}')
        if not broken:
            fetched |= set(use)
        else:
            fetched |= set(asked) - {URLS[0]}
        require(doc == kept, 'the document given was changed')
    for u in fetched:
        got = jsonld.JSONLD_DOCLOADER(u)
        require(got['document'] == served[u],
                lambda: f'the cached document of {u} was changed')
    ctx.nontrivial(len(case['docs']) > 1)


WHICH = st.integers(0, len(URLS) - 1)
TESTS = [
    Test('loaders', lambda: st.fixed_dictionaries({'ops': st.lists(st.one_of(
        st.tuples(st.just('load'), WHICH, st.integers(0, 2)),
        st.tuples(st.just('load'), st.integers(0, 2), st.integers(0, 2)),
        st.tuples(st.just('plain'), WHICH, st.just(0)),
        st.tuples(st.just('web'), WHICH, st.integers(1, 3) |
                  st.sampled_from(sorted(DOWN)))).map(list),
        min_size=2, max_size=40)}), run, quick=2500, procs=8,
        rule='loads through three loaders while the pages change and fail; '
             'non-trivial = a load answered from the cache'),
    Test('many', lambda: st.fixed_dictionaries({
        'n': st.integers(1, 40) | st.integers(1, 1200),
        'again': st.lists(st.integers(0, 1200), max_size=10)}), run_many,
        quick=32, procs=8,
        rule='up to 1200 documents loaded once and asked for again; '
             'non-trivial = more than 16'),
    Test('contexts', lambda: st.fixed_dictionaries({'docs': st.lists(
        st.fixed_dictionaries({
            'contexts': st.lists(st.integers(0, 2), max_size=2, unique=True),
            'reversed': st.booleans(), 'inner': st.integers(0, 2),
            'down': st.sampled_from([None, None] + sorted(DOWN)),
            'type': st.sampled_from(['Note', 'Person', 'Create'])}),
        min_size=1, max_size=10)}), run_engine, quick=500, procs=8,
        rule='documents sharing remote contexts, one of which may be down; '
             'non-trivial = two or more documents'),
]
