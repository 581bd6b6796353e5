"""
Documents: the ways the same object may be spelled in JSON-LD.  A document is
generated together with what it must come out as (plain data both).
"""
from hypothesis import strategies as st

import asgen
from aslib import AS
from asgen import EXT

EXT_CONTEXT = {'@context': {'ext': 'https://ext.example.com/ns#',
                            'shoeSize': 'ext:shoeSize',
                            'Shoe': 'ext:Shoe'}}
CONTEXTS = asgen.CONTEXTS + [None]
UNKNOWN_KEYS = ['shoeSize', 'nonsense', 'contentMap', '_private', 'sec:key',
                '__class__', 'engine']
UNKNOWN_VALUES = [1, 'x', True, None, ['a', 'b'], 'https://a.org/none']


def spellings(t):
    """The same type, spelled differently."""
    if t in ('Object', 'Link'):
        return [t]
    return [t, t, [t], f'{AS}#{t}', f'as:{t}']


def document(spec, draw, rich, top=True):
    """(document, expected output) of a spec, links spelled out at random."""
    t, p = spec['t'], spec['p']
    doc, want = {}, {'type': t}
    if not rich:
        doc['type'] = t
    else:
        # the type by its term or by its keyword
        # (only a plain object or link does not know its own)
        key = 'type' if t in ('Object', 'Link') or draw(st.integers(0, 4)) \
            else '@type'
        doc[key] = draw(st.sampled_from(spellings(t)))
        if not top and draw(st.integers(0, 5)) == 0:
            doc['@context'] = draw(st.sampled_from(asgen.CONTEXTS))
    for k, v in p.items():
        doc[k], want[k] = spell(v, draw, rich)
    counts = sum(len(doc[k]) for k in asgen.LISTS
                 if isinstance(doc.get(k), list))
    if t in asgen.COLLECTIONS and 'totalItems' not in p:
        want['totalItems'] = counts
    if t == 'OrderedCollectionPage' and 'startIndex' not in p:
        want['startIndex'] = 0
    if rich and draw(st.booleans()):
        for k in draw(st.lists(st.sampled_from(UNKNOWN_KEYS), max_size=2)):
            doc[k] = draw(st.sampled_from(UNKNOWN_VALUES))
        for k in draw(st.lists(st.sampled_from(asgen.PROPS[t]), max_size=2)):
            # (a null id is not JSON-LD)
            if k not in doc and k != 'id':
                doc[k] = None
    items = list(doc.items())
    return dict(draw(st.permutations(items)) if rich and draw(st.booleans())
                else items), want


def spell(v, draw, rich):
    tag = v[0]
    if tag == 'l':
        both = [spell(x, draw, rich) for x in v[1]]
        return [d for d, _ in both], [w for _, w in both]
    if tag == 'o':
        return document(v[1], draw, rich, False)
    if tag in 'uLM':
        href = asgen.js(v)
        if tag == 'M':
            return {'type': 'Mention', **v[1]}, href
        how = draw(st.integers(0, 2)) if rich else (tag == 'L')
        if how == 0:
            return href, href
        extra = v[1] if tag == 'L' else {'href': href}
        if how == 1:
            return {'type': 'Link', **extra}, href
        if 'acct:' in href or '://' not in href:
            return href, href
        return {'href': href}, href
    j = asgen.js(v)
    return j, j


@st.composite
def documents(draw, depth=2, types=None, more=4, rich=True, context=True,
              specs=None):
    spec = draw(specs or asgen.spec(depth, types, more))
    doc, want = document(spec, draw, rich)
    c = draw(st.sampled_from(CONTEXTS)) if context else AS
    if c is None:
        want['@context'] = AS
        if draw(st.booleans()):
            doc['@context'] = None
    else:
        doc['@context'] = want['@context'] = c
    return {'spec': spec, 'doc': doc, 'want': want}
