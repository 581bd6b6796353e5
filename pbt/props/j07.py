"""J07: addresses become links, and links are written as their address."""
import copy
import json

from hypothesis import strategies as st

import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, must_raise, outcome, require

from activitystreams import models

ID = 'J07'
LEVEL = 'exploration'
ASSUMPTIONS = ['an address is an http(s) url whose host consists of letters, '
               'digits and -_.: (the documented rule), or an account or mail '
               'address']

# every property that holds references, with a type that has it
PLACES = sorted({(t, p) for t in asgen.TYPES for p in asgen.PROPS[t]
                 if asgen.KINDS[p][0] in ('ol', 'ol|d', 'page', 'coll', 'url',
                                          'closed')
                 and t in ('Note', 'Travel', 'Question', 'Relationship',
                           'OrderedCollectionPage', 'Collection', 'Link')})
HOST = st.text('abcXYZ019-_.:', min_size=1, max_size=12)
TAIL = st.text(st.characters(exclude_categories=('Cs',)), max_size=10).map(
    lambda s: '/' + s.replace('#', '').replace('?', '')) | st.sampled_from(
        ['', '/', '/a?b=c&d[]=e', '#frag', '?q', '/a/../b;c=1', '/%zz', '/é'])


@st.composite
def url(draw):
    u = draw(st.sampled_from(['http', 'https'])) + '://' + \
        draw(HOST) + draw(TAIL)
    return ''.join(c for c in u if c not in '\t\r\n')


ADDRESS = url() | asgen.ACCTS
NOT = st.sampled_from([
    'ftp://a.org', 'https:/a.org', '//a.org/x', 'a.org', 'https://a b.org/',
    'https://a.org b/x', 'https://é.org', 'http://[', 'https://a.org"x',
    'javascript:alert(1)', '', ' ', 'mailto', 'https://?q', 'https://#x',
    'https://a,b.org/x', 'http://a.org\\b'])


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    t, prop = case['place']
    functional = asgen.KINDS[prop][1]
    cls = getattr(e, t)
    addrs = case['addresses'][:1] if functional else case['addresses']
    single = functional or case['single']
    if single:
        addrs = addrs[:1]
    if case['shape'] == 'set':
        addrs = list(dict.fromkeys(addrs))
    shape = {'list': list, 'tuple': tuple, 'set': set}[case['shape']]
    given = addrs[0] if single else shape(addrs)
    if isinstance(given, set):
        addrs = list(given)
    base = {'href': 'https://a.org/l'} if t == 'Link' else {}
    route = case['route']
    fields = {}
    if route == 'init':
        o = must(cls, id=None, **base, **{prop: given})
    elif route == 'doc':
        o = must(e.from_json, {'@context': AS, 'type': t, **base,
                               prop: given if single else list(addrs)})
    else:
        o = cls(id=None, **base)
        if route == 'dict':
            fields = {k: v for k, v in case['fields'].items() if k != 'href'}
            given = {'href': addrs[0], **fields} if single else \
                [{'href': a, **fields} for a in addrs]
            if any('://' not in a for a in addrs):
                given = addrs[0] if single else list(addrs)
                fields = {}
        kept = copy.deepcopy(given)
        setattr(o, prop, given)
        require(given == kept, lambda: f'setting {kept!r} made it {given!r}')
    require(set(WEB.urls()) <= {AS}, f'setting requested {WEB.urls()}')
    doc = json.loads(must(o.json))
    require(set(WEB.urls()) <= {AS}, f'writing requested {WEB.urls()}')
    want = addrs[0] if single else list(addrs)
    require(asgen.strict_eq(doc.get(prop), want),
            lambda: f'{t}.{prop} = {given!r} is written as {doc.get(prop)!r}')
    got = getattr(o, prop)
    links = [got] if single else got
    require(single or type(got) is list, lambda: f'{prop} is {got!r}')
    require(len(links) == len(addrs), lambda: f'{prop} has {links}')
    for link, a in zip(links, addrs):
        require(type(link) is e.Link,
                lambda: f'{a!r} in {t}.{prop} became {link!r} '
                f'({type(link)})')
        require(link.href == a, lambda: f'{a!r} became {link.href!r}')
        for k, v in fields.items():
            require(asgen.strict_eq(getattr(link, k), v),
                    lambda: f'{k} of the link made from a dictionary is '
                    f'{getattr(link, k)!r}, not {v!r}')
    ctx.nontrivial(not single and len(addrs) > 1 or route != 'set')
    ctx.label(route)
    ctx.label('several', len(addrs) > 1)


def run_not(case, ctx):
    """Text that is no address does not become a link; text properties keep
    addresses as text."""
    e = asgen.engine()
    fresh_web()
    t, prop = case['place']
    o = getattr(e, t)(id=None)
    s = case['text']
    if prop == 'url':
        must(setattr, o, prop, s)
        require(o.url == s and type(o.url) is str,
                lambda: f'url {s!r} became {o.url!r}')
        require(o.data()['url'] == s, 'url is written differently')
    else:
        must_raise(ValueError, setattr, o, prop, s,
                   what=f'{t}.{prop} = {s!r}')
        kind, got = outcome(getattr, o, prop)
        require(kind == 'ok' and got is None, f'{prop} is {got!r}')
    n = e.Note(id=None)
    for name in ('name', 'summary', 'content', 'mediaType', 'duration'):
        a = case['address']
        setattr(n, name, a)
        require(getattr(n, name) == a and type(getattr(n, name)) is str,
                lambda: f'the text {a!r} of {name} became '
                f'{getattr(n, name)!r}')
        require(n.data()[name] == a, f'{name} is written differently')
    ctx.nontrivial()


def run_links(case, ctx):
    """Link objects: details stay readable, the address is what is written;
    objects of the plain vocabulary classes become the engine's."""
    e = asgen.engine()
    fresh_web()
    t, prop = case['place']
    functional = asgen.KINDS[prop][1]
    source = models if case['plain'] else e
    made = [getattr(source, k)(**d) for k, d in case['links']]
    if functional:
        made = made[:1]
    given = made[0] if functional or case['single'] else made
    base = {'href': 'https://a.org/l'} if t == 'Link' else {}
    o = getattr(e, t)(id=None, **base, **{prop: given})
    hrefs = [d['href'] for _, d in case['links']]
    for turn in (1, 2):
        got = getattr(o, prop)
        doc = o.data()
        want = hrefs[0] if given is not made else hrefs
        require(asgen.strict_eq(doc[prop], want),
                lambda: f'{prop} with {case["links"]} is written as '
                f'{doc[prop]!r}')
        got = [got] if given is not made else got
        require(len(got) == (1 if given is not made else len(made)),
                'a link is missing')
        for g, (k, d) in zip(got, case['links']):
            for name, v in d.items():
                require(asgen.strict_eq(getattr(g, name), v),
                        lambda: f'{name} of a link in {prop} is '
                        f'{getattr(g, name)!r}, not {v!r}')
            require(isinstance(g, getattr(models, k)),
                    lambda: f'a {k} in {prop} became {type(g)}')
    ctx.nontrivial(len(made) > 1 or any(len(d) > 1 for _, d in case['links']))


TESTS = [
    Test('addresses', lambda: st.fixed_dictionaries({
        'place': st.sampled_from(PLACES).map(list),
        'addresses': st.lists(ADDRESS, min_size=1, max_size=4) | st.lists(
            ADDRESS, min_size=1, max_size=20),
        'single': st.booleans(), 'shape': st.sampled_from(['list', 'tuple', 'set']),
        'fields': asgen.link_spec(),
        'route': st.sampled_from(['init', 'set', 'dict', 'doc'])}),
        run, quick=3000, procs=8,
        rule='random urls and accounts in every property that takes '
             'references; non-trivial = several, or not by assignment'),
    Test('not addresses', lambda: st.fixed_dictionaries({
        'place': st.sampled_from([p for p in PLACES if p[1] != 'tag' or 1])
        .map(list), 'text': NOT, 'address': ADDRESS}),
        run_not, quick=1000, procs=4,
        rule='texts that are no address, addresses in text properties; every '
             'case counts'),
    Test('links', lambda: st.fixed_dictionaries({
        'place': st.sampled_from(PLACES).map(list),
        'links': st.sampled_from([3, 3, 12]).flatmap(lambda n: st.lists(
            st.tuples(st.sampled_from(['Link', 'Mention']), asgen.link_spec())
            .map(list), min_size=1, max_size=n)),
        'single': st.booleans(), 'plain': st.booleans()}),
        run_links, quick=1000, procs=4,
        rule='Link and Mention objects of the engine or of the plain '
             'vocabulary; non-trivial = several, or with details'),
]
