"""J17: a collection counts and yields exactly its members."""
from hypothesis import strategies as st

import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, must_raise, require

ID = 'J17'
LEVEL = 'exploration'
ASSUMPTIONS = ['only one of items, orderedItems and unorderedItems is given']


def same_member(got, v, e, from_doc, what):
    asgen.same_native(got, v, e, 'init', from_doc, require, what)


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    t, prop, kind = case['type'], case['list'], case['kind']
    members = case['members']
    if kind == 'single':
        members = members[:1]
    if kind in ('none', 'absent', 'empty'):
        members = []
    base = {}
    if case['total'] is not None:
        base['totalItems'] = case['total']
    if case['start'] is not None and t == 'OrderedCollectionPage':
        base['startIndex'] = case['start']
    if case['route'] == 'doc':
        doc = {'@context': AS, 'type': t, **base}
        js = [asgen.js(m) for m in members]
        if kind == 'single' and js:
            doc[prop] = js[0]
        elif kind == 'none':
            doc[prop] = None
        elif kind in ('list', 'tuple', 'empty'):
            doc[prop] = js
        o = must(e.from_json, doc, what=f'from_json of {doc}')
    else:
        vals = [asgen.py(m, e) for m in members]
        kw = {'id': None, **base}
        if kind == 'single' and vals:
            kw[prop] = vals[0]
        elif kind == 'none':
            kw[prop] = None
        elif kind in ('list', 'empty'):
            kw[prop] = vals
        elif kind == 'tuple':
            kw[prop] = tuple(vals)
        o = must(getattr(e, t), **kw)
    require(set(WEB.urls()) <= {AS},
            lambda: f'making the collection requested {WEB.urls()}')
    from_doc = case['route'] == 'doc'
    listed = kind in ('list', 'tuple', 'empty')
    want = case['total'] if case['total'] is not None else \
        len(members) if listed else 0
    require(type(o.totalItems) is int and o.totalItems == want,
            lambda: f'totalItems is {o.totalItems!r}, not {want}')
    if t == 'OrderedCollectionPage':
        require(o.startIndex == (case['start'] or 0),
                lambda: f'startIndex is {o.startIndex!r}')
    for attempt in range(case['times']):
        WEB.requests.clear()
        got = must(list, o, what='iterating')
        require(not (listed and WEB.requests),
                lambda: f'iterating requested {WEB.urls()}')
        require(len(got) == len(members),
                lambda: f'iterating gives {len(got)} of {len(members)}: '
                f'{got!r}')
        for i, (g, m) in enumerate(zip(got, members)):
            same_member(g, m, e, from_doc, f'member {i}')
    if listed:
        held = getattr(o, prop)
        if kind != 'empty' and members:
            require(type(held) is list and len(held) == len(members),
                    lambda: f'{prop} is {held!r}')
    # the count is written
    data = must(o.data)
    require(asgen.strict_eq(data.get('totalItems'), want),
            lambda: f'totalItems is written as {data.get("totalItems")!r}')
    wanted = [asgen.js(m) for m in members]
    if listed:
        require(asgen.strict_eq(data.get(prop), wanted),
                lambda: f'{prop} is written as {data.get(prop)!r}')
    elif kind == 'single' and members:
        require(asgen.strict_eq(data.get(prop), wanted[0]),
                lambda: f'{prop} is written as {data.get(prop)!r}')
    else:
        require(prop not in data, f'{prop} is written')
    # replaced members are what counts from then on
    more = [asgen.py(m, e) for m in case['later']]
    must(setattr, o, prop, more)
    got = must(list, o)
    require(len(got) == len(more), lambda: f'after replacing: {got!r}')
    for i, (g, m) in enumerate(zip(got, case['later'])):
        same_member(g, m, e, False, f'later member {i}')
    must(setattr, o, prop, None)
    require(must(list, o) == [], 'members left after removing them')
    must_raise(ValueError, setattr, o, 'totalItems', -1)
    require(o.totalItems == want, 'a refused count replaced the count')
    ctx.nontrivial(len(members) > 1)
    ctx.label(kind)
    ctx.label('count given', case['total'] is not None)


def member():
    return asgen.reference(1, asgen.OBJECT_TYPES)


# a small one, for long lists
MEMBER = asgen.reference(0, asgen.OBJECT_TYPES) | asgen.OBJS


TESTS = [
    Test('members', lambda: st.fixed_dictionaries({
        'type': st.sampled_from(asgen.COLLECTIONS),
        'list': st.sampled_from(asgen.LISTS),
        'kind': st.sampled_from(['list', 'list', 'list', 'tuple', 'single',
                                 'none', 'absent', 'empty']),
        'members': st.lists(member(), min_size=1, max_size=5) | st.lists(
            MEMBER, min_size=1, max_size=30),
        'total': st.none() | st.integers(0, 3) | st.integers(0, 10 ** 9),
        'start': st.none() | st.integers(0, 9),
        'times': st.sampled_from([2, 2, 2, 3, 6]),
        'route': st.sampled_from(['doc', 'init']),
        'later': st.lists(member(), max_size=3) | st.lists(
            MEMBER, max_size=20)}), run, quick=2000, procs=8,
        rule='collections of every type with random members, from Python and '
             'from documents; non-trivial = two or more members'),
]
