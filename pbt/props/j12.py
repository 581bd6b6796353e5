"""J12: times are read and written without moving the instant."""
import re
from datetime import datetime, timedelta, timezone, tzinfo

from hypothesis import strategies as st

import asgen
from aslib import AS, fresh_web
from core import Test, must, must_raise, outcome, require

from jsonld.tools import datetime_str, is_activity_datetime, \
    parse_activitystream_datetime

ID = 'J12'
LEVEL = 'exploration'
ASSUMPTIONS = ['no leap second (60), no offsets with seconds, at most six '
               'digits of a fraction: what Python datetimes can hold',
               'a time in UTC reads as a datetime without a timezone, as '
               'documented']

PROPS = ['published', 'updated', 'startTime', 'endTime', 'deleted']
# RFC 3339 as ActivityStreams requires it, written independently
OUT = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?'
                 r'(?:Z|([+-])(\d\d):(\d\d))\Z')


def understood(text):
    """(fields, offset in minutes or None for Z) of a written time."""
    m = OUT.match(text)
    require(m, lambda: f'{text!r} is not a time')
    *f, frac, sign, oh, om = m.groups()
    us = int((frac or '0').ljust(6, '0'))
    off = None
    if sign:
        off = (int(oh) * 60 + int(om)) * (-1 if sign == '-' else 1)
    return tuple(map(int, f)) + (us,), off


def spell(c):
    """The text of a case."""
    y, mo, d, h, mi, s, us = c['t']
    out = f'{y:04d}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}'
    if c['seconds']:
        out += f':{s:02d}'
        frac = f'{us:06d}'.rstrip('0')
        if frac or c['pad']:
            out += '.' + (frac or '0').ljust(c['pad'], '0')
    if c['offset'] is None:
        return out + 'Z'
    sign = '-' if c['offset'] < 0 or c['minus zero'] and not c['offset'] \
        else '+'
    a = abs(c['offset'])
    return out + ('Z' if c['z too'] else '') + \
        f'{sign}{a // 60:02d}:{a % 60:02d}'


def wanted(c):
    y, mo, d, h, mi, s, us = c['t']
    if not c['seconds']:
        s = us = 0
    return (y, mo, d, h, mi, s, us), c['offset']


def same(got, fields, off, what):
    require(isinstance(got, datetime), lambda: f'{what} is {got!r}')
    have = (got.year, got.month, got.day, got.hour, got.minute, got.second,
            got.microsecond)
    utc = got.utcoffset()
    require(have == fields, lambda: f'{what}: {got!r}, not {fields}')
    require(utc == (None if off is None else timedelta(minutes=off)),
            lambda: f'{what}: offset {utc}, not {off}')


def instant(fields, off):
    return datetime(*fields) - timedelta(minutes=off or 0) \
        if 2 <= fields[0] <= 9998 else (fields, off or 0)


def run_parse(case, ctx):
    text = spell(case)
    fields, off = wanted(case)
    must(is_activity_datetime, text, prop='p')
    same(must(parse_activitystream_datetime, text), fields, off, text)
    # in a property, from Python and from a document
    e = asgen.engine()
    fresh_web()
    prop = case['prop']
    t = 'Tombstone'
    a = must(getattr(e, t), id=None, **{prop: text})
    b = must(e.from_json, {'@context': AS, 'type': t, prop: text})
    c = must(getattr(e, t), id=None)
    must(setattr, c, prop, text)
    for o in (a, b, c):
        same(getattr(o, prop), fields, off, f'{prop} = {text!r}')
        out = must(o.data)[prop]
        f2, o2 = understood(out)
        require(f2 == fields and (o2 or 0) == (off or 0),
                lambda: f'{text!r} is written as {out!r}')
    ctx.nontrivial(off is not None or case['t'][6] or not case['seconds'])
    ctx.label('offset', off is not None)
    ctx.label('fraction', bool(case['seconds'] and case['t'][6]))
    ctx.label('no seconds', not case['seconds'])


class Seasons(tzinfo):
    """Another offset in summer."""

    def __init__(self, a, b):
        self.a, self.b = timedelta(minutes=a), timedelta(minutes=b)

    def utcoffset(self, dt):
        return None if dt is None else \
            self.b if 4 <= dt.month <= 9 else self.a

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'X'


class Unaware(tzinfo):
    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return None


def zone(z):
    if z is None:
        return None
    if z == 'unaware':
        return Unaware()
    if len(z) == 1:
        return timezone(timedelta(minutes=z[0]))
    return Seasons(*z)


def run_format(case, ctx):
    when = datetime(*case['t'], tzinfo=zone(case['zone']), fold=case['fold'])
    fields = tuple(case['t'])
    off = when.utcoffset()
    mins = 0 if off is None else off // timedelta(minutes=1)
    text = must(datetime_str, when)
    f2, o2 = understood(text)
    require(f2 == fields and (o2 or 0) == mins,
            lambda: f'{when!r} is written as {text!r}')
    require((o2 is None) is (mins == 0), lambda: f'{when!r} as {text!r}')
    must(is_activity_datetime, text)
    back = must(parse_activitystream_datetime, text)
    same(back, fields, None if not mins else mins, f'{when!r} and back')
    require(must(parse_activitystream_datetime, when) is when,
            'a datetime is not left alone')
    e = asgen.engine()
    o = must(e.Tombstone, id=None, **{case['prop']: when})
    require(getattr(o, case['prop']) == when, 'the datetime is changed')
    require(o.data()[case['prop']] == text, 'the property writes another')
    ctx.nontrivial(mins != 0 or case['t'][6])
    ctx.label('offset', mins != 0)


def run_order(case, ctx):
    """Distinct instants stay distinct and in order."""
    a, b = (datetime(*t['t'], tzinfo=timezone(timedelta(minutes=t['off'])))
            for t in case)
    ta, tb = datetime_str(a), datetime_str(b)

    def back(t):
        v = parse_activitystream_datetime(t)
        return v if v.tzinfo else v.replace(tzinfo=timezone.utc)
    ra, rb = back(ta), back(tb)
    require((ra < rb, ra == rb) == (a < b, a == b),
            lambda: f'{a} and {b} compare otherwise as {ta} and {tb}')
    ctx.nontrivial(case[0]['off'] != case[1]['off'])


BAD = [
    ('no T', lambda s: s.replace('T', ' ')),
    ('no zone', lambda s: re.sub(r'(Z|Z?[+-]\d\d:\d\d)$', '', s)),
    ('before', lambda s: 'x' + s), ('after', lambda s: s + 'x'),
    ('newline', lambda s: s + '\n'), ('space', lambda s: ' ' + s),
    ('month 0', lambda s: s[:5] + '00' + s[7:]),
    ('month 13', lambda s: s[:5] + '13' + s[7:]),
    ('day 0', lambda s: s[:8] + '00' + s[10:]),
    ('day 32', lambda s: s[:8] + '32' + s[10:]),
    ('30 february', lambda s: s[:5] + '02-30' + s[10:]),
    ('29 february', lambda s: '2023-02-29' + s[10:]),
    ('31 april', lambda s: s[:5] + '04-31' + s[10:]),
    ('hour 24', lambda s: s[:11] + '24' + s[13:]),
    ('hour 30', lambda s: s[:11] + '30' + s[13:]),
    ('minute 60', lambda s: s[:14] + '60' + s[16:]),
    ('only date', lambda s: s[:10]), ('only time', lambda s: s[11:]),
    ('slashes', lambda s: s[:10].replace('-', '/') + s[10:]),
    ('offset 24', lambda s: re.sub(r'(Z|Z?[+-]\d\d:\d\d)$', '+24:00', s)),
    ('offset :60', lambda s: re.sub(r'(Z|Z?[+-]\d\d:\d\d)$', '+01:60', s)),
    ('comma', lambda s: s[:16] + ',5' + s[16:]),
    ('far after', lambda s: s + ' ' * 20 + 'x'),
    ('dot comma', lambda s: s[:16] + ':00.,5Z'),
    ('seven digits', lambda s: s[:16] + ':00.1234567Z'),
    ('empty', lambda s: ''), ('word', lambda s: 'now'),
    ('two', lambda s: s + s), ('number', lambda s: '1700000000'),
]


def run_bad(case, ctx):
    name, fn = BAD[case['how']]
    text = fn(spell(case))
    e = asgen.engine()
    fresh_web()
    prop = case['prop']
    must_raise(ValueError, e.Tombstone, id=None, **{prop: text},
               what=f'{prop} = {text!r} ({name})')
    must_raise(ValueError, e.from_json,
               {'@context': AS, 'type': 'Tombstone', prop: text},
               what=f'a document with {prop} {text!r} ({name})')
    o = e.Tombstone(id=None, published='2020-01-01T00:00:00Z')
    must_raise(ValueError, setattr, o, 'published', text)
    require(o.published == datetime(2020, 1, 1),
            'a refused time replaced the one there was')
    checked, _ = outcome(is_activity_datetime, text)
    if checked == 'ok' and name not in ('30 february', '29 february',
                                        '31 april'):
        require(False, f'is_activity_datetime accepts {text!r} ({name})')
    ctx.nontrivial()
    ctx.label(name)


@st.composite
def fields(draw):
    y = draw(st.integers(1, 9999) | st.integers(1990, 2040) |
             st.sampled_from([1, 9, 99, 999, 1000, 2000, 2024, 9999]))
    mo = draw(st.integers(1, 12))
    last = 31 if mo in (1, 3, 5, 7, 8, 10, 12) else 30 if mo != 2 else \
        29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28
    return [y, mo, draw(st.integers(1, last) | st.just(last)),
            draw(st.integers(0, 23)), draw(st.integers(0, 59)),
            draw(st.integers(0, 59)),
            draw(st.just(0) | st.integers(0, 999999) | st.sampled_from(
                [1, 10, 100000, 500000, 999999, 120000]))]


OFF = st.integers(-23 * 60 - 59, 23 * 60 + 59) | st.sampled_from(
    [0, 1, -1, 60, -60, 330, -330, 59, -59])


def texts():
    return st.fixed_dictionaries({
        't': fields(), 'seconds': st.integers(0, 3).map(bool),
        'pad': st.sampled_from([0, 0, 0, 1, 3, 6]), 'offset': st.none() | OFF,
        'z too': st.integers(0, 4).map(lambda k: k == 0),
        'minus zero': st.booleans(), 'prop': st.sampled_from(PROPS)})


TESTS = [
    Test('reading', texts, run_parse, quick=6000, procs=8,
         rule='every spelling of random times (fraction, no seconds, Z, '
              'offset, Z and offset); non-trivial = not the plain '
              'YYYY-mm-ddTHH:MM:SSZ'),
    Test('writing', lambda: st.fixed_dictionaries({
        't': fields(), 'zone': st.none() | OFF.map(lambda o: [o]) |
        st.just('unaware') | st.tuples(OFF, OFF).map(list),
        'fold': st.integers(0, 1),
        'prop': st.sampled_from(PROPS)}), run_format, quick=6000, procs=8,
        rule='random datetimes with all kinds of timezones; non-trivial = an '
             'offset or a fraction'),
    Test('order', lambda: st.lists(st.fixed_dictionaries({
        't': fields().map(lambda f: [min(max(f[0], 2), 9998)] + f[1:3] and
                          [2020, 1, 1 + f[2] % 3] + f[3:]),
        'off': OFF}), min_size=2, max_size=2), run_order, quick=3000, procs=4,
        rule='pairs of close times with different offsets; non-trivial = '
             'the offsets differ'),
    Test('refusing', lambda: st.builds(
        lambda c, h: {**c, 'how': h}, texts(), st.integers(
            0, len(BAD) - 1)), run_bad, quick=1500, procs=8,
        rule=f'{len(BAD)} ways of spoiling a time; every case counts'),
]
