"""J04: reading a document and writing it again keeps what it says."""
import copy
import json

from hypothesis import strategies as st

import asdoc
import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, require

ID = 'J04'
LEVEL = 'exploration'
ASSUMPTIONS = [
    'documents use the activitystreams terms with one type per object; '
    'unknown terms are dropped, links are written as their href, collections '
    'gain totalItems and ordered pages startIndex when absent',
    'contexts are served from memory']


def run(case, ctx):
    e = asgen.engine()
    fresh_web().add(asdoc.EXT, asdoc.EXT_CONTEXT, ctype='application/ld+json')
    doc, want = case['doc'], case['want']
    kept = copy.deepcopy(doc)
    how = case['how']
    text = json.dumps(doc, ensure_ascii=case['ascii'])
    if how == 'dict':
        o = must(e.from_json, doc)
    elif how == 'text':
        o = must(e.from_json, text)
    elif how == 'index':
        o = must(e.__getitem__, text)
    else:
        both = must(e.__getitem__, [text, text])
        require(type(both) is list and len(both) == 2 and
                both[0] is not both[1],
                'two texts do not give a list of two objects')
        o = both[1]
    require(asgen.strict_eq(doc, kept), 'the document given was changed')
    got = must(o.data)
    require(asgen.strict_eq(got, want), lambda: f'read as {got}, not {want}')
    t = case['spec']['t']
    require(type(o) is getattr(e, t), lambda: f'{t} was read as a {type(o)}')
    # what was written is read as the same again
    o2 = must(e.from_json, o.json())
    require(asgen.strict_eq(o2.data(), want),
            lambda: f'second time: {o2.data()}, not {want}')
    extra = set(WEB.urls()) - {AS, asdoc.EXT}
    require(not extra, f'reading requested {extra}')
    ctx.nontrivial(len(case['spec']['p']) >= 2 and doc != want)
    ctx.label(how)
    ctx.label('nested', asgen.size(case['spec'])[0] > 1)


def cases(**k):
    return asdoc.documents(**k).flatmap(lambda d: st.fixed_dictionaries({
        **{n: st.just(v) for n, v in d.items()},
        'how': st.sampled_from(['dict', 'text', 'index', 'list']),
        'ascii': st.booleans()}))


def run_texts(case, ctx):
    e = asgen.engine()
    fresh_web().add(asdoc.EXT, asdoc.EXT_CONTEXT, ctype='application/ld+json')
    docs = [case['docs'][i % len(case['docs'])] for i in case['order']]
    texts = (tuple if case['kind'] == 'tuple' else list)(
        json.dumps(d['doc']) for d in docs)
    got = must(e.__getitem__, texts, what='engine[texts]')
    require(type(got) is list and len(got) == len(docs),
            lambda: f'{len(docs)} texts gave {got!r}')
    require(len({id(o) for o in got}) == len(got), 'one object stands twice')
    for d, o in zip(docs, got):
        have = must(o.data)
        require(asgen.strict_eq(have, d['want']),
                lambda: f'read as {have}, not {d["want"]}')
    ctx.nontrivial(len(case['docs']) > 1 and len(docs) > 2)
    ctx.label('more than eight texts', len(docs) > 8)


TEXTS = lambda: st.fixed_dictionaries({
    'docs': st.lists(asdoc.documents(types=asgen.TYPES, depth=0),
                     min_size=1, max_size=4),
    'order': st.lists(st.integers(0, 3), max_size=4) | st.lists(
        st.integers(0, 3), min_size=5, max_size=40),
    'kind': st.sampled_from(['list', 'tuple'])})


TESTS = [
    Test('texts', TEXTS, run_texts, quick=250, procs=4,
         rule='up to 40 texts in one list or tuple, some the same; '
              'non-trivial = three or more of several documents'),
    Test('property by property', lambda: cases(specs=asgen.single()), run,
         quick=1000, procs=8,
         rule='every property as often as every other, one to three at a '
              'time, often with the plainest value; non-trivial as above'),
    Test('documents', lambda: cases(types=asgen.TYPES), run, quick=1600,
         procs=8, rule='documents of every type with contexts, types, links '
                       'and unknown terms spelled in various ways, given as '
                       'dict, text or through indexing; non-trivial = two or '
                       'more properties and a spelling that is normalised'),
    Test('deep', lambda: cases(depth=4, more=3), run, quick=300, procs=8,
         rule='nesting up to four deep; non-trivial as above'),
    Test('tower', lambda: cases(specs=asgen.tower()), run, quick=150, procs=8,
         rule='one object in another, 5-20 deep; non-trivial as above'),
    Test('wide', lambda: cases(depth=1, more=14), run, quick=250, procs=8,
         rule='up to fourteen properties at once; non-trivial as above'),
]
