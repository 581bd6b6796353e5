"""J13: durations are written as valid xsd:durations of the same length."""
import re
from datetime import timedelta

from hypothesis import strategies as st

import asgen
from aslib import AS, fresh_web
from core import Test, must, must_raise, require

from jsonld.tools import timedelta_str

ID = 'J13'
LEVEL = 'exploration'
ASSUMPTIONS = ['a year is 365 days and a month 30, the convention of the '
               'code']

# xsd:duration, written from its definition
XSD = re.compile(r'(-?)P(?=[\dT])(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?'
                 r'(?:T(?=\d)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?)?'
                 r'\Z')
US = timedelta(microseconds=1)


def length(text):
    """Microseconds a duration stands for."""
    m = XSD.match(text)
    require(m, lambda: f'{text!r} is not a duration')
    sign, y, mo, d, h, mi, s, frac = m.groups()
    n = [int(v or 0) for v in (y, mo, d, h, mi, s)]
    require(n[3] < 24 and n[4] < 60 and n[5] < 60 and n[2] < 30 and n[1] <= 12,
            lambda: f'{text!r} is not in normal form')
    require(all(v is None or int(v) for v in (y, mo, d, h, mi)),
            lambda: f'{text!r} has empty parts')
    require(len(frac or '') <= 6, lambda: f'{text!r}: too precise')
    days = n[0] * 365 + n[1] * 30 + n[2]
    us = ((days * 24 + n[3]) * 60 + n[4]) * 60 + n[5]
    us = us * 10 ** 6 + int((frac or '').ljust(6, '0') or 0)
    return -us if sign else us


def run(case, ctx):
    d = timedelta(*case['td'])
    text = must(timedelta_str, d)
    got = length(text)
    require(got == d // US, lambda: f'{d!r} is written as {text!r}')
    e = asgen.engine()
    o = must(getattr(e, case['type']), id=None, duration=d)
    require(o.duration == d, lambda: f'reads as {o.duration!r}')
    require(must(o.data)['duration'] == text, 'the property writes another')
    o.duration = None
    require('duration' not in o.data(), 'None is written')
    o.duration = d
    ctx.nontrivial(sum(map(bool, case['td'])) > 1 or d < timedelta(0))
    ctx.label('negative', d < timedelta(0))
    ctx.label('fraction', bool(case['td'][2]))
    ctx.label('a year or more', abs(d) >= timedelta(365))
    # the opposite has the same length
    if abs(d.days) < 999999999:
        back = must(timedelta_str, -d)
        require(length(back) == -got, lambda: f'{-d!r} is {back!r}')


def run_text(case, ctx):
    """A duration that is already text is kept as it is."""
    e = asgen.engine()
    fresh_web()
    t = asgen.xsd(['td'] + case['td']) if case['text'] is None \
        else case['text']
    a = must(getattr(e, case['type']), id=None, duration=t)
    b = must(e.from_json, {'@context': AS, 'type': case['type'],
                           'duration': t})
    for o in (a, b):
        require(o.duration == t and o.data()['duration'] == t,
                lambda: f'{t!r} became {o.duration!r}')
    must_raise(ValueError, setattr, a, 'duration', case['bad'])
    require(a.duration == t, 'a refused value replaced the duration')
    ctx.nontrivial()


def tds():
    us = st.just(0) | st.integers(0, 999999) | st.sampled_from(
        [1, 10, 100000, 500000, 999999])
    days = st.integers(-800, 800) | st.sampled_from(
        [0, 0, 1, 29, 30, 31, 359, 360, 364, 365, 366, 395, 730, -1, -30,
         -365, 999999998, -999999999]) | st.integers(-10 ** 6, 10 ** 6)
    secs = st.sampled_from([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399]) | \
        st.integers(0, 86399)
    return st.tuples(days, secs, us).map(list)


TYPES = ['Note', 'Video', 'Person', 'Create', 'Collection']
TESTS = [
    Test('writing', lambda: st.fixed_dictionaries({
        'td': tds(), 'type': st.sampled_from(TYPES)}), run, quick=10000,
        procs=8, rule='timedeltas of every size and sign; non-trivial = '
        'negative or of two or more parts'),
    Test('text', lambda: st.fixed_dictionaries({
        'td': tds(), 'text': st.none() | asgen.TEXT,
        'type': st.sampled_from(TYPES),
        'bad': st.sampled_from([1, 1.5, True, [], {}, ['P1D']])}), run_text,
        quick=600, procs=4, rule='durations given as text; every case counts'),
]
