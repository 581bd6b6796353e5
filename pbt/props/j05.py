"""J05: the type of a document decides the class, at every level."""
import copy
import json

from hypothesis import strategies as st

import asdoc
import asgen
from aslib import AS, fresh_web
from core import Test, must, must_raise, require

from activitystreams import models

ID = 'J05'
LEVEL = 'exploration'
ASSUMPTIONS = ['of a list of types the first counts, by design; lists '
               'whose first type is unknown are left open; a context inside '
               'a document is complete (it does not depend on the outer one)']

PLACES = [p for p, (kind, _) in asgen.KINDS.items()
          if kind in ('ol', 'ol|d') and p in asgen.PROPS['Object']]
UNKNOWN = ['Unicorn', 'https://other.org/ns#Person', 'person', 'Objects',
           f'{AS}#', 'as:Unicorn', f'{AS}#person', f'{AS}#Persons', '']


def wrap(doc, path):
    """doc somewhere inside a Note, and how to get at it."""
    out = doc
    for place, listed in path:
        out = {'type': 'Note', place: [out] if listed else out}
    return {'@context': AS, **out}


def dig(o, path):
    for place, listed in reversed(path):
        o = getattr(o, place)
        if listed:
            require(type(o) is list and len(o) == 1, f'{place} is {o!r}')
            o = o[0]
    return o


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    t, path = case['type'], case['path']
    inner = {case['key']: case['spelled'], 'id': 'https://a.org/inner'}
    if t in asgen.LINK_TYPES:
        inner['href'] = 'https://a.org/target'
    doc = wrap(inner, path)
    kept = copy.deepcopy(doc)
    o = dig(must(e.from_json, doc), path)
    require(doc == kept, 'the document given was changed')
    require(type(o) is getattr(e, t),
            lambda: f'{case["spelled"]!r} gives a {type(o)}, not {t}')
    for name in asgen.TYPES:
        base = getattr(models, name)
        want = name in asgen.ancestors(t)
        require(isinstance(o, base) is want and
                isinstance(o, getattr(e, name)) is want,
                lambda: f'a {t} is{" not" if want else ""} a {name}')
    require(o.id == 'https://a.org/inner', lambda: f'id is {o.id!r}')
    require(type(o).__get_namespace__() == f'{AS}#{t}' == o.__namespace__,
            lambda: f'a {t} has namespace {o.__namespace__}')
    ctx.nontrivial(path or case['spelled'] != t)
    ctx.label('by keyword', case['key'] == '@type')


def run_unknown(case, ctx):
    """Not a type of the vocabulary: refused on top, left out inside."""
    e = asgen.engine()
    fresh_web()
    inner = {'id': 'https://a.org/inner', 'name': 'x'}
    if case['spelled'] is not None:
        inner[case['key']] = case['spelled']
    path = case['path']
    doc = wrap(inner, path)
    kept = copy.deepcopy(doc)
    if not path:
        must_raise(ValueError, e.from_json, doc,
                   what=f'from_json with type {case["spelled"]!r}')
    elif case['spelled'] is not None:
        # everything else of the document is still read
        doc['summary'] = kept['summary'] = 'kept'
        o = must(e.from_json, doc)
        require(o.summary == 'kept', 'the rest of the document is lost')
        got = dig(o, path)
        require(got is None, lambda: f'unknown type gives {got!r}')
    require(doc == kept, 'the document given was changed')
    # the engine still works
    o = must(e.from_json, {'@context': AS, 'type': 'Note', 'name': 'n'})
    require(o.name == 'n' and type(o) is e.Note, 'the engine broke')
    ctx.nontrivial()


OTHER = 'https://other.example/ns#'
TERMS = ['Memo', 'Note', 'Person', 'Shoe', 'Create', 'memo']


def context_of(c):
    terms = {k: f'{AS}#{t}' if t in asgen.TYPES else OTHER + t
             for k, t in c['terms'].items()}
    terms['other'] = OTHER      # (pyld takes an empty context for null)
    if c['kind'] == 'as':
        return AS
    if c['kind'] == 'extended':
        return [AS, terms] if not c['first'] else [terms, AS]
    own = {'type': '@type', 'id': '@id', 'as': f'{AS}#', **terms}
    if c['kind'] == 'vocab':
        own['@vocab'] = f'{AS}#'
    if c['kind'] == 'other vocab':
        own['@vocab'] = OTHER
    return own if c['first'] else [own]


def meaning(raw, c):
    """The class a type stands for in a context, or None."""
    for full in (f'{AS}#', 'as:'):
        if raw.startswith(full):
            t = raw[len(full):]
            return t if t in asgen.TYPES else None
    own = c['terms'].get(raw) if c['kind'] != 'as' else None
    std = raw if raw in asgen.TYPES and c['kind'] in (
        'as', 'extended', 'vocab') else None
    if own is not None and not (c['kind'] == 'extended' and c['first']
                                and std):
        return own if own in asgen.TYPES else None
    return std


def run_contexts(case, ctx):
    """The same words in different contexts, one document after another."""
    e = asgen.engine()
    fresh_web()
    for step in case['docs']:
        c, raw = step['context'], step['type']
        want = meaning(raw, c)
        kind = [raw] + step['more'] if step['more'] else raw
        doc = {'@context': context_of(c), step['key']: kind, 'name': 'n',
               'href': 'https://a.org/1'}
        if step['inside'] is not None:
            inner, doc = doc, {
                '@context': context_of(step['inside']),
                'type': f'{AS}#Note', 'attachment': [doc], 'summary': 's'}
            if step['same']:
                # the context of the document holds inside as well
                doc['@context'] = inner.pop('@context')
        kept = copy.deepcopy(doc)
        what = f'type {kind} in {json.dumps(context_of(c))}'
        if want is None and step['inside'] is None:
            must_raise(ValueError, e.from_json, doc, what=what)
            ctx.label('refused')
            continue
        o = must(e.from_json, doc, what=f'from_json of {what}')
        require(doc == kept, 'the document given was changed')
        if step['inside'] is not None:
            require(type(o) is e.Note and o.summary == 's' and
                    type(o.attachment) is list and len(o.attachment) == 1,
                    lambda: f'the outer object is {o!r}')
            o = o.attachment[0]
        if want is None:
            require(o is None, lambda: f'{what} gives {o!r}')
            ctx.label('left out')
            continue
        require(type(o) is getattr(e, want) and o.name == 'n',
                lambda: f'{what} gives a {type(o)}, not a {want}')
        ctx.label('term of the context', c['terms'].get(raw) == want and
                  c['kind'] != 'as' and raw != want)
    raws = [s['type'] for s in case['docs']]
    ctx.nontrivial(any(s['context']['terms'] and s['context']['kind'] != 'as'
                       for s in case['docs']) and len(raws) > 1)
    ctx.label('same word again', len(set(raws)) < len(raws))


@st.composite
def contextual(draw):
    def context():
        return {'kind': draw(st.sampled_from(
            ['as', 'extended', 'extended', 'vocab', 'other vocab',
             'nothing'])),
            'first': draw(st.booleans()),
            'terms': draw(st.dictionaries(
                st.sampled_from(TERMS), st.sampled_from(
                    ['Note', 'Person', 'Article', 'Create', 'Unicorn']),
                max_size=3))}
    words = draw(st.lists(st.one_of(
        st.sampled_from(TERMS), st.sampled_from(TERMS),
        st.sampled_from(['as:Note', f'{AS}#Event', 'as:Unicorn'])),
        min_size=1, max_size=2))
    docs = []
    for _ in range(draw(st.integers(1, 4) | st.integers(1, 12))):
        docs.append({
            'context': context(), 'key': draw(KEY), 'type': draw(st.sampled_from(words)),
            'more': draw(st.lists(st.sampled_from(
                ['Article', f'{OTHER}Thing', 'as:Person', 'Memo']),
                max_size=2)) if draw(st.integers(0, 3)) == 0 else [],
            'inside': context() if draw(st.booleans()) else None,
            'same': draw(st.booleans())})
    return {'docs': docs}


# by its term or by its keyword
KEY = st.sampled_from(['type', 'type', '@type'])


@st.composite
def paths(draw, least=0):
    return draw(st.lists(st.tuples(st.sampled_from(PLACES), st.booleans())
                    .map(list), min_size=least,
                    max_size=draw(st.sampled_from([3, 3, 3, 12]))))


@st.composite
def cases(draw):
    t = draw(st.sampled_from(asgen.TYPES))
    return {'type': t, 'path': draw(paths()), 'key': draw(KEY),
            'spelled': draw(st.sampled_from(asdoc.spellings(t)))}


TESTS = [
    Test('classes', cases, run, quick=2000, procs=8,
         pinned=[{'type': t, 'path': p, 'spelled': s, 'key': k} for t in asgen.TYPES
                 for s in asdoc.spellings(t)[1:] or [t]
                 for p in ([], [['attachment', True]])
                 for k in ('type', '@type')],
         rule='every type in every spelling on top (enumerated) and in '
              'random places inside; non-trivial = nested, or not the short '
              'name'),
    Test('contexts', contextual, run_contexts, quick=1500, procs=8,
         rule='documents whose contexts give the same words different '
              'meanings, on top and inside, read one after another; '
              'non-trivial = two or more and terms of their own'),
    Test('unknown', lambda: st.fixed_dictionaries({
        'spelled': st.sampled_from(UNKNOWN), 'key': KEY,
        'path': paths()}) | st.just(
            {'spelled': None, 'path': []}), run_unknown, quick=400, procs=4,
         rule='types outside the vocabulary on top and inside; every case '
              'counts'),
]
