"""J15: the document loader fetches what it may and reports what it got."""
from urllib.parse import urljoin

import requests
from hypothesis import strategies as st
from pyld.jsonld import JsonLdError

import asgen
import aslib
from aslib import WEB, fresh_web
from core import Test, must, must_raise, outcome, require

from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader

ID = 'J15'
LEVEL = 'exploration'
ASSUMPTIONS = ['the web is a closed world served from memory']

CONTEXT_REL = 'http://www.w3.org/ns/json-ld#context'
DEFAULT = {'Accept': 'application/ld+json, application/activity+json'}
JSON_TYPES = ['application/json', 'application/activity+json',
              'application/ld+json']
TYPES = JSON_TYPES + ['application/LD+JSON', 'Application/Json', 'text/html',
                      'text/plain', 'application/xml', None]
PARAMS = ['', '', '; charset=utf-8', ';profile="https://a.org/p"',
          ' ; charset=UTF-8; q=1']


def loader(case):
    kind = CachedRequestsJsonLoader if case['cached'] else RequestsJsonLoader
    aslib.forget_documents()
    kw = {}
    if case['secure'] is not None:
        kw['secure'] = case['secure']
    if case['headers']:
        kw['headers'] = case['headers']
    return kind(**kw)


def link_header(links):
    return ', '.join(
        f'<{t}>; rel="{rel}"' + (f'; type="{type_}"' if type_ else '')
        for rel, t, type_ in links)


def run(case, ctx):
    """A document that can be had."""
    fresh_web()
    ld = loader(case)
    secure = case['secure'] is not False
    url = case['url']
    doc = case['doc']
    ctype = None if case['type'] is None else case['type'] + case['params']
    headers = {'Link': link_header(case['links'])} if case['links'] else {}
    final = url
    plain = url.startswith('http:')
    for i, scheme in enumerate(case['hops']):
        # redirected to other addresses before it is found
        nxt = f'{scheme}://hop{i}.example/there'
        WEB.add(final, b'', redirect=nxt)
        final = nxt
        plain = plain or scheme == 'http'
    WEB.add(final, doc, ctype=ctype, headers=headers)
    if secure and plain:
        err = must_raise(JsonLdError, ld, url, what=f'loading {final}')
        if url.startswith('http:'):
            require(not WEB.requests, lambda: f'requested {WEB.urls()}')
        require(err.code == 'loading document failed' and err.cause,
                f'error {err!r}')
        ctx.nontrivial()
        ctx.label('refused')
        return
    contexts = [t for rel, t, _ in case['links'] if rel == CONTEXT_REL]
    is_ld = (case['type'] or '').lower() == 'application/ld+json'
    if len(contexts) > 1 and not is_ld:
        err = must_raise(JsonLdError, ld, url)
        require(err.code == 'loading document failed' and
                isinstance(err.cause, JsonLdError) and
                err.cause.code == 'multiple context link headers',
                lambda: f'error {err!r}')
        ctx.nontrivial()
        ctx.label('several contexts')
        return
    got = must(ld, url)
    alt = [t for rel, t, type_ in case['links']
           if rel == 'alternate' and type_ == 'application/ld+json']
    want = {'contentType': ctype or 'application/octet-stream',
            'contextUrl': contexts[0] if contexts and not is_ld else None,
            'documentUrl': final, 'document': doc}
    if alt and (case['type'] or '').lower() not in JSON_TYPES:
        want['contentType'] = 'application/ld+json'
        want['documentUrl'] = urljoin(url, alt[0])
        ctx.label('alternate')
    require(asgen.strict_eq({k: got[k] for k in want}, want),
            lambda: f'{url}: {got} instead of {want}')
    asked = case['headers'] or DEFAULT
    for _, sent in WEB.requests:
        sent = {k.lower(): v for k, v in sent.items()}
        for k, v in asked.items():
            require(sent.get(k.lower()) == v,
                    lambda: f'{k} was sent as {sent.get(k.lower())!r}')
        require('Accept' in asked or 'accept' in asked or
                sent.get('accept') not in DEFAULT.values(),
                'the default types were asked for instead of none')
    require(len(WEB.requests) == 1 + len(case['hops']),
            lambda: f'requested {WEB.urls()}')
    ctx.nontrivial(bool(case['links'] or case['hops'] or case['headers']))
    ctx.label('context link', want['contextUrl'] is not None)


BROKEN = {
    'no host': dict(body=requests.exceptions.ConnectionError('no host')),
    'timeout': dict(body=requests.exceptions.Timeout('slow')),
    'reset': dict(body=ConnectionResetError('reset')),
    'html': dict(body=b'<html>', ctype='text/html'),
    'empty': dict(body=b''),
    'cut short': dict(body=b'{"a": 1'),
    'bad utf-8': dict(body=b'\xff\xfe{'),
    'error page': dict(body={'error': 'Record not found'}, status=404),
    'gone': dict(body={'type': 'Tombstone'}, status=410),
    'server error': dict(body={'error': 1}, status=500),
    'busy': dict(body={'error': 1}, status=503),
    'denied': dict(body={'error': 1}, status=401),
    'endless redirect': dict(body=b'', redirect='SELF'),
}
BAD_URLS = ['ftp://a.org/x', 'a.org', '//a.org', 'https:///x', 'https://',
            'https://a b.org/', 'https://a.org b', 'https://[', 'file:///x',
            'https://é.org', 'https://a,b/', 'javascript:1', '', 'https:a.org',
            'https://user@a.org/', 'urn:x:1', 'https://a.org\\x', 'https://a%2eorg/', 'https://[::1]/']
# characters that no host has (these end one, or are dropped: \\ \t \r \n / ? #)
HOSTS = st.builds(
    'https://{}{}{}/x'.format, st.sampled_from(['a', '', 'a.b']),
    st.characters(codec='utf-8', exclude_characters='\t\r\n/?#').filter(
        lambda c: c not in 'abcdefghijklmnopqrstuvwxyz'
        'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.:-'),
    st.sampled_from(['b.org', '.org']))


def run_fail(case, ctx):
    """Whatever goes wrong is reported as a loading error, and is not
    remembered."""
    fresh_web()
    ld = loader(case)
    if case['bad url'] is not None:
        url = case['bad url']
        err = must_raise(JsonLdError, ld, url, what=f'loading {url!r}')
        require(not WEB.requests, lambda: f'{url!r} requested {WEB.urls()}')
    else:
        url = 'https://a.org/doc'
        page = dict(BROKEN[case['how']])
        if page.get('redirect'):
            page['redirect'] = url
        for hop in case['hops']:
            nxt = f'https://hop{hop}.example/doc'
            WEB.add(url, b'', redirect=nxt)
            url = nxt
        WEB.add(url, **page)
        url = 'https://a.org/doc'
        err = must_raise(JsonLdError, ld, url, what=f'loading "{case["how"]}"')
    require(err.code == 'loading document failed' and
            isinstance(err.cause, BaseException),
            lambda: f'the error is {err!r}, caused by {err.cause!r}')
    require(not aslib.remembers(url),
            'a failure was cached')
    if case['bad url'] is None:
        WEB.add('https://a.org/doc', {'now': 'there'})
        status, got = outcome(ld, 'https://a.org/doc')
        require(status == 'ok' and got['document'] == {'now': 'there'},
                lambda: f'after "{case["how"]}": {got!r}')
    ctx.nontrivial()
    ctx.label(case['how'] if case['bad url'] is None else 'bad url')


def common():
    return {'cached': st.booleans(),
            'secure': st.sampled_from([None, True, False, False]),
            'headers': st.sampled_from([
                None, None, {'Accept': 'application/json'}, {'X-Key': 'k'},
                {'Accept': 'x/y', 'X-Key': 'k'}]) | st.dictionaries(
                    st.sampled_from(['X', 'X-Token', 'User-Agent',
                                     'accept', 'X-Long-Name']),
                    st.text('aZ9 =;,/*', min_size=1, max_size=30).map(
                        lambda s: 'v' + s + 'v'), max_size=3)}


PATHS = st.sampled_from(['/', '/d', '/a/b/c/' + 'long' * 20, '/d?q=1&r=%20',
                         '/~me/@x', '/d.jsonld', '/a%2Fb', '/a;b,c'])
LINKS = st.lists(st.one_of(
    st.tuples(st.just(CONTEXT_REL), st.sampled_from(
        ['https://c.org/ctx', '/ctx', 'ctx.jsonld', '?c=1', '/c?d=e&f#g',
         'http://c.org/ctx', 'https://c.org/a,b;c']), st.sampled_from(
            [None, 'application/ld+json'])),
    st.tuples(st.just('alternate'), st.sampled_from(
        ['https://c.org/alt', '/alt', 'alt.jsonld', '../up', '?q=1', 'x/y?z',
         'http://c.org/alt', '//d.org/alt']),
        st.sampled_from([None, 'application/ld+json', 'application/rss+xml',
                         'application/ld+json'])),
    st.tuples(st.sampled_from(['next', 'stylesheet']),
              st.just('https://c.org/n'), st.none())).map(list), max_size=8)
TESTS = [
    Test('documents', lambda: st.fixed_dictionaries({
        **common(), 'url': st.sampled_from(
            ['https://a.org/doc', 'https://a.org/a/b/doc?x=1',
             'https://a-1.b_c.org:8443/d', 'http://a.org/doc']) | st.builds(
                 '{}://{}{}'.format, st.sampled_from(['https', 'https', 'http']),
                 st.sampled_from(['a.org', '127.0.0.1', 'a.b.c.d.e.org',
                                  'a_b.org:1', '-x-.org']),
                 PATHS),
        'doc': st.dictionaries(asgen.TEXT, asgen.JSONV, max_size=3) |
        st.lists(asgen.JSONV, max_size=2) | asgen.JSONV | st.dictionaries(
            asgen.TEXT, asgen.TEXT, min_size=10, max_size=60),
        'type': st.sampled_from(TYPES), 'params': st.sampled_from(PARAMS),
        'links': LINKS, 'hops': st.lists(st.sampled_from(
            ['https', 'https', 'http']), max_size=2)}), run, quick=4000,
        procs=8, rule='documents of every content type, link headers, '
        'redirects, loader options; non-trivial = links, redirects, own '
        'headers or a refusal'),
    Test('failures', lambda: st.fixed_dictionaries({
        **common(), 'how': st.sampled_from(sorted(BROKEN)),
        'hops': st.lists(st.integers(0, 1), max_size=2, unique=True),
        'bad url': st.none() | st.none() | st.sampled_from(BAD_URLS) | HOSTS}),
        run_fail, quick=1000, procs=8,
        rule=f'{len(BROKEN)} ways of failing and urls that must not be '
             'requested; every case counts'),
]
