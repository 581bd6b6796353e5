"""J14: what counts as an address, everywhere alike."""
import re

from hypothesis import strategies as st

import asgen
from aslib import AS, WEB, fresh_web
from core import Test, must, must_raise, require

from activitystreams import models
from jsonld.tools import validate_acct_or_email, validate_url

ID = 'J14'
LEVEL = 'exploration'
ASSUMPTIONS = ['control characters and surrounding blanks in urls, comments '
               'and quoted parts in mail addresses: only that they raise '
               'nothing']

URL = re.compile(r'(https?)://([A-Za-z0-9_.:-]+)(?:[/?#]|\Z)', re.I)
ATOM = r"[A-Za-z0-9_!#$%&'*+\-/=?^`{|}~]+"
MAIL = re.compile(rf'{ATOM}(\.{ATOM})*@{ATOM}(\.{ATOM})*\Z')
UNCLEAR_URL = re.compile('[\x00-\x20\x7f]')
UNCLEAR_MAIL = re.compile(r'[()"\\\[\]\x00-\x20\x7f-\U0010ffff]')


def is_url(s, secure):
    m = URL.match(s)
    return bool(m) and (not secure or m.group(1).lower() == 'https')


def run(case, ctx):
    s = case['text']
    fresh_web()
    res = {}
    for secure in (False, True):
        res[secure] = must(validate_url, s, secure,
                           what=f'validate_url({s!r})')
        require(res[secure] is True or res[secure] is False,
                lambda: f'validate_url({s!r}) is {res[secure]!r}')
        if not UNCLEAR_URL.search(s):
            want = is_url(s, secure)
            require(res[secure] is want,
                    lambda: f'validate_url({s!r}, secure={secure}) is '
                    f'{res[secure]}')
    require(validate_url(s, secure=True) is res[True] and
            validate_url(s, secure=False) is res[False],
            'secure counts otherwise by its name')
    require(validate_url(s) is res[False], 'secure is not off by default')
    require(res[False] or not res[True], 'secure accepts more')
    mail = bool(must(validate_acct_or_email, s,
                     what=f'validate_acct_or_email({s!r})'))
    bare = s[5:] if s.startswith('acct:') else s
    if not UNCLEAR_MAIL.search(s):
        require(mail is bool(MAIL.match(bare)),
                lambda: f'validate_acct_or_email({s!r}) is {mail}')
    if not s.startswith('acct:'):
        with_ = bool(must(validate_acct_or_email, 'acct:' + s))
        require(with_ is mail, lambda: f'acct:{s} is judged otherwise')
    # and so does every property that takes addresses
    e = asgen.engine()
    good = res[False] or mail
    for prop in case['props']:
        cls = getattr(e, case['type'])
        if good:
            o = must(cls, id=None, **{prop: s})
            data = must(o.data)
            require(data.get(prop) == s, lambda: f'{prop} = {s!r} is '
                    f'written as {data.get(prop)!r}')
            o = must(cls, id=None, **{prop: [s, s]})
            got = getattr(o, prop)
            require([type(g) for g in got] == [e.Link] * 2 and
                    [g.href for g in got] == [s] * 2,
                    lambda: f'{prop} = [{s!r}] * 2 gives {got!r}')
        else:
            must_raise(ValueError, cls, id=None, **{prop: s},
                       what=f'{prop} = {s!r}')
            must_raise(ValueError, cls, id=None,
                       **{prop: ['https://a.org/', s]},
                       what=f'{prop} = [.., {s!r}]')
            if s:
                must_raise(ValueError, e.from_json, {
                    '@context': AS, 'type': case['type'], prop: s})
    for give in (s, [s]):
        o = models.Link.from_str(lambda obj, v: obj.append(v))
        box = []
        o(box, give)
        v = box[0] if isinstance(give, str) else box[0][0]
        require(isinstance(v, models.Link) if good else v == s,
                lambda: f'from_str of {s!r} gives {v!r}')
    require(set(WEB.urls()) <= {AS}, lambda: f'requested {WEB.urls()}')
    ctx.nontrivial('://' in s or '@' in s)
    ctx.label('url', res[False])
    ctx.label('account', mail)
    ctx.label('neither', not good)


PIECE = st.sampled_from(
    ['http', 'https', 'HTTPS', 'Http', 'ftp', 'acct', 'mailto', ':', '://',
     ':/', '/', '//', '@', 'a', 'b.org', 'a.org', '1', '-', '_', '.', ':80',
     '?', '#', '%', '%20', ',', ';', '!', '$', '&', "'", '*', '+', '=', '~',
     '[', ']', '[::1]', '<', '>', '^', '`', '{', '}', '|', '\\', '"', ' ',
     '(', ')', 'é', '\u2100', '\uff0f', '\n', '\t', '\0', 'x' * 40])


@st.composite
def shaped(draw):
    """Something close to an address."""
    kind = draw(st.sampled_from(['url', 'url', 'mail', 'mail', 'soup']))
    if kind == 'soup':
        return ''.join(draw(st.lists(PIECE, max_size=7)))
    good = st.text('abz09AZ_.:-', min_size=1, max_size=8) | st.text(
        'ab9.-', min_size=20, max_size=90)
    if kind == 'url':
        host = draw(good)
        if draw(st.integers(0, 2)) == 0:
            at = draw(st.integers(0, len(host)))
            host = host[:at] + draw(PIECE) + host[at:]
        return draw(st.sampled_from(['', '', '', '', '', ' ', '\n'])) + draw(
            st.sampled_from(['http://', 'https://', 'https://',
                                     'HTTP://', 'ftp://', 'https:/', '//',
                                     'httpx://', 'https+unix://', 'httpss://',
                                     'xhttp://', 'htt://', 'shttp://',
                                     'https:///', ''])) + host + draw(
            st.sampled_from(['', '/', '/x', '?a=b', '#f', '/a?b#c', '/@me',
                             '/a b', '/é', '/[x]', ':443/x', ' ', '\n', '/ ',
                             '\t', '\u3000']))
    part = st.text("ab09.-_+!", min_size=0, max_size=6) | st.text(
        'ab9', min_size=10, max_size=90) | st.lists(
            st.text('ab9', min_size=1, max_size=20), min_size=1, max_size=5)\
        .map('.'.join)
    s = draw(part) + draw(st.sampled_from(['@', '@', '@', '@', '@@', ''])) + \
        draw(part)
    if draw(st.integers(0, 4)) == 0:
        at = draw(st.integers(0, len(s)))
        s = s[:at] + draw(PIECE) + s[at:]
    return draw(st.sampled_from(['', 'acct:', 'acct:', 'acct:acct:',
                                 'mailto:', 'Acct:'])) + s


PROPS = ['attributedTo', 'to', 'icon', 'audience', 'inReplyTo', 'generator']
TESTS = [
    Test('addresses', lambda: st.fixed_dictionaries({
        'text': shaped() | st.text(max_size=12),
        'type': st.sampled_from(['Note', 'Create', 'Place']),
        'props': st.lists(st.sampled_from(PROPS), max_size=1)}), run,
        quick=12000, procs=8,
        rule='text close to addresses, and any text; non-trivial = has :// '
             'or @'),
]
