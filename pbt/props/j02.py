"""J02: include/exclude/rename/None/rejection/format options of the output."""
import json
import re

from hypothesis import strategies as st

import asgen
from aslib import AS, fresh_web
from core import Test, must, require

ID = 'J02'
LEVEL = 'exploration'
ASSUMPTIONS = ['the transforms option has no defined meaning in the code and '
               'is not covered; renames do not make two names equal']

# how a property is called in the output unless renamed
KEYMAP = {'acontext': '@context'}
# contexts that need not be understood to be written
ODD = [{'a': AS}, {'@vocab': AS + '#', 'b': {'@id': 'x', '@type': '@id'}},
       [], ['x', ['y']], '']


def plain(spec, via):
    """property -> JSON value or None, for every property of the type."""
    full = asgen.expected(spec, via)
    out = {p: full.get(p) for p in asgen.PROPS[spec['t']]}
    out['type'] = spec['t']
    out['acontext'] = spec.get('c', AS)
    return out


def model(spec, via, o):
    values = plain(spec, via)
    rename = {**KEYMAP, **(o.get('rename') or {})}
    reject = o.get('reject_values') or []
    out = {}
    for p, v in values.items():
        if v is None and not o.get('include_none'):
            continue
        if o.get('include') and p not in o['include']:
            continue
        if o.get('exclude') and p in o['exclude']:
            continue
        if any(v == r for r in reject):
            continue
        out[rename.get(p, p)] = v
    return out


def run(case, ctx):
    e = asgen.engine()
    fresh_web()
    spec, opts = case['spec'], dict(case['opts'])
    kind = {'list': list, 'tuple': tuple, 'set': set, 'keys': dict.fromkeys,
            'generator': lambda vals: (v for v in list(vals))}[case['kind']]
    o = asgen.build(spec, e, case['via'])
    before = model(spec, case['via'], {})
    plain_opts = dict(opts)
    reject = plain_opts.pop('reject_values', None)

    def asked():
        # one of its own for each call, generators can be used only once
        return {k: kind(v) if k in ('include', 'exclude') and v is not None
                else v for k, v in plain_opts.items()}
    call = plain_opts
    want = model(spec, case['via'], {**opts, 'reject_values': None})
    text = must(o.json, **asked(), what=f'json({call})')
    require(asgen.strict_eq(json.loads(text), want),
            lambda: f'json({call}) is {text}, not {want}')
    got = must(o.data, **asked(), what=f'data({call})')
    require(asgen.strict_eq(got, want),
            lambda: f'data({call}) is {got}, not {want}')
    if reject is not None:
        want = model(spec, case['via'], opts)
        got = must(o.data, **asked(), reject_values=kind(reject), what='data')
        require(asgen.strict_eq(got, want),
                lambda: f'data({call}, reject_values={reject}) is {got}, '
                f'not {want}')
    fmt = case['format']
    text = must(o.json, **asked(), **fmt, what=f'json({call}, {fmt})')
    want = model(spec, case['via'], {**opts, 'reject_values': None})
    require(asgen.strict_eq(json.loads(text), want),
            lambda: f'json({call}, {fmt}) is {text}, not {want}')
    # the options of one call leave nothing behind for the next
    after = o.data()
    require(asgen.strict_eq(after, before),
            lambda: f'later data() is {after}, not {before}')
    asgen.check_native(o, spec, e, case['via'], False, require,
                       'after writing, the object')
    full = plain(spec, case['via'])
    ctx.nontrivial(sum(bool(opts.get(k)) for k in (
        'include', 'exclude', 'rename', 'include_none',
        'reject_values')) >= 1 and len(spec['p']) >= 2
        and 0 < len(want) and want != before)
    ctx.label('kept and dropped', 0 < len(want) < len(full))
    for k in opts:
        ctx.label(k, bool(opts[k]))


def run_format(case, ctx):
    """Minified and indented texts are the same document."""
    e = asgen.engine()
    fresh_web()
    o = asgen.build(case['spec'], e, case['via'])
    want = asgen.expected(case['spec'], case['via'], AS)
    ctx.label('a context of its own', 'c' in case['spec'])
    plain_text = must(o.json)
    require(must(str, o) == plain_text, 'str() is not json()')
    mini = must(o.json, minified=True)
    for text in (plain_text, mini):
        require(asgen.strict_eq(json.loads(text), want),
                lambda: f'{text} is not {want}')
    require(len(mini) < len(plain_text),
            lambda: f'the text that is not minified is no longer: '
            f'{plain_text}')
    outside = re.sub(r'"(\\.|[^"\\])*"', '""', mini)
    require(not re.search(r'\s', outside),
            lambda: f'minified text contains spare whitespace: {mini}')
    ind = case['indent']
    text = must(o.json, indent=ind)
    require(asgen.strict_eq(json.loads(text), want),
            lambda: f'indent={ind}: {text} is not {want}')
    lines = text.split('\n')
    pad = ' ' * ind if isinstance(ind, int) else ind
    require(len(lines) >= 2 + len(want),
            lambda: f'indent={ind} gives {len(lines)} lines')
    require(any(line.startswith(pad + '"') for line in lines),
            lambda: f'indent={ind}: no line is indented by it:\n{text}')
    ctx.nontrivial(len(case['spec']['p']) >= 2)


@st.composite
def cases(draw):
    spec = draw(asgen.nested_contexts(asgen.contexts(
        st.one_of(asgen.spec(1, asgen.TYPES, 9), asgen.spec(
            1, asgen.TYPES, 9), asgen.single(1, 6)), ODD), ODD))
    names = asgen.PROPS[spec['t']] + ['type', 'acontext']
    some = st.sampled_from(names)
    used = sorted(spec['p'])
    if used:
        some = some | st.sampled_from(used) | st.sampled_from(used)
    values = [v for v in asgen.expected(spec).values()
              if isinstance(v, (str, int)) and not isinstance(v, bool)]
    opts = draw(st.fixed_dictionaries({}, optional={
        'include': st.lists(some | st.just('absent'), max_size=5)
        | st.none(),
        'exclude': st.lists(some | st.just('absent'), max_size=5)
        | st.none(),
        'include_none': st.booleans(),
        'reject_values': st.lists(
            st.sampled_from(values + [0, 'x', AS]), max_size=3)}))
    if draw(st.booleans()):
        opts['rename'] = {n: draw(st.sampled_from(['_', 'r:', '@'])) + n
                          for n in draw(st.lists(some, max_size=4))}
        if draw(st.booleans()):
            # names may be passed on, or around
            names = draw(st.lists(some, min_size=2, max_size=4, unique=True))
            if 'acontext' not in names:
                opts['rename'] = dict(zip(names, names[1:] + names[:1]))
    return {'spec': spec, 'opts': opts,
            'via': draw(st.sampled_from(['init', 'set'])),
            'kind': draw(st.sampled_from(['list', 'tuple', 'set', 'keys',
                                          'generator'])),
            'format': draw(st.fixed_dictionaries({}, optional={
                'minified': st.booleans(), 'indent': st.integers(0, 4)}))}


TESTS = [
    Test('options', cases, run, quick=5000, procs=8,
         rule='random combinations of include, exclude, rename, include_none '
              'and reject_values on random objects; non-trivial = an option '
              'that changes the output and leaves some of it'),
    Test('format', lambda: st.fixed_dictionaries({
        'spec': asgen.contexts(asgen.spec(1, asgen.TYPES, 5), ODD),
        'via': st.sampled_from(['init', 'set']),
        'indent': st.integers(0, 5) | st.sampled_from(['\t', '    '])}), run_format, quick=600, procs=4,
         rule='plain, minified and indented text; non-trivial = two or more '
              'properties'),
]
