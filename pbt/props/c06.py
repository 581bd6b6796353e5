"""C06: sizing — enough collections, always a prime number, never oversized."""
from hypothesis import strategies as st

from core import Test, Violation, eq, must, must_raise, outcome, require
import citr

from citrine.storage.collection import Collection
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.utils import (get_primes, is_prime,
                                   next_number_of_collections,
                                   number_of_collections)

ID = 'C06'
LEVEL = 'exploration'
ASSUMPTIONS = ['1 counts as a valid number of collections; a prime sequence '
               'with a maximum may or may not include the maximum itself']


def prime(n):
    return n == 1 or (n > 1 and all(n % i for i in range(2, int(n**.5) + 1)))


def smallest(need):
    need = max(need, 1)
    while not prime(need):
        need += 1
    return need


def run_numbers(case, ctx):
    cap, cmax = case['cap'], case['cmax']
    need = -(-cap // cmax)
    n = must(number_of_collections, cap, cmax, what='number_of_collections')
    eq(n, smallest(need), f'collections for {cap} objects of {cmax} each')
    n2 = must(next_number_of_collections, cap, cmax)
    grown = -(-(-(-cap * 3 // 2)) // cmax)
    require(n2 * cmax >= cap * 1.5, f'next size {n2}x{cmax} below 1.5x{cap}')
    eq(n2, smallest(grown), f'next number of collections for {cap}/{cmax}')
    if case['n'] > 0:
        eq(bool(is_prime(case['n'])), prime(case['n']),
           f'is_prime({case["n"]})')
    ctx.nontrivial(need > 1 and not prime(need))


def run_primes(case, ctx):
    lo, span = case['lo'], case['span']
    it = get_primes(min=lo)
    want = [v for v in range(lo, lo + span) if prime(v)]
    got = [next(it) for _ in want]
    eq(got, want, f'primes from {lo}')
    hi = lo + span
    got = list(get_primes(min=lo, max=hi))
    full = [v for v in range(lo, hi + 1) if prime(v)]
    require(got == full or got == [v for v in full if v != hi],
            f'primes in [{lo}, {hi}]: got {got}, expected {full}')
    ctx.nontrivial(len(want) > 1)


def run_container(case, ctx):
    cap, cmax = case['cap'], case['cmax']
    c = must(Container.new, capacity=cap, collection_max_size=cmax,
             strict=case['strict'], what='Container.new')
    require(c.capacity >= cap, f'capacity {c.capacity} below the requested '
                               f'{cap} ({cmax} per collection)')
    sizes = [x.max_size for x in c.primary.collections]
    require(all(0 < s <= cmax for s in sizes),
            f'collections of {sizes} exceed the limit {cmax}')
    eq(len(sizes), smallest(-(-cap // cmax)), 'number of collections')
    eq(c.strict, case['strict'], 'strict')
    eq(c.size, 0, 'size of a new container')
    uuids = {x.uuid for x in c.primary.collections}
    eq(len(uuids), len(sizes), 'distinct collection identities')
    ctx.nontrivial(len(sizes) > 1)


def run_custom(case, ctx):
    custom = {k: v for k, v in case['custom']}
    given = dict(custom)
    size, cmax = case['size'], case['cmax']
    kw = {'max_collection_size': cmax}
    if case['strict'] is not None:
        kw['strict'] = case['strict']
    if custom and case['odd'] is not None:
        custom[case['odd']] = 3
        must_raise(KeyError, Group.new, custom=custom, **kw,
                   what=f'a layout with the key {case["odd"]!r}')
        eq(custom, {**given, case['odd']: 3}, "the caller's mapping")
        ctx.label('refused')
        return
    if size is not None:
        kw['size'] = size
    if custom or case['pass_empty']:
        kw['custom'] = custom
    kind, val = outcome(Group.new, **kw)
    eq(custom, given, "the caller's custom mapping afterwards")
    if not given:
        if not size or cmax <= 0:
            require(kind == 'exc' and isinstance(val, ValueError),
                    f'Group.new({kw}) -> {kind} {val!r}, expected ValueError')
            ctx.label('refused')
            return
        want = [cmax] * size
    else:
        top = max(given)
        if size and size < top:
            require(kind == 'exc' and isinstance(val, KeyError),
                    f'Group.new({kw}) -> {kind} {val!r}, expected KeyError')
            ctx.label('refused')
            return
        n = max(size or 0, top + 1)
        want = [given.get(i, cmax) for i in range(n)]
        if any(v <= 0 for v in want):
            require(kind == 'exc' and isinstance(val, ValueError),
                    f'Group.new({kw}) -> {kind} {val!r}, expected ValueError')
            ctx.label('refused')
            return
        ctx.label('gaps filled', len(want) > len(given))
        ctx.nontrivial(len(want) > 1)
    if kind == 'exc':
        raise Violation(f'Group.new({kw}) raised {val!r}')
    eq([c.max_size for c in val.collections], want,
       f'collection sizes of Group.new({kw})')
    for c in val.collections:
        eq(c.strict, bool(case['strict']), 'strict')
    eq(val.strict, bool(case['strict']), 'strict')


def run_made(case, ctx):
    """Groups and containers made of given parts."""
    made = [Collection(uuid=f'u{u}' if u else None, max_size=size, strict=s)
            for u, size, s in case['parts']]
    for col, (u, size, s) in zip(made, case['parts']):
        eq(col.max_size, size, 'max_size')
        eq(col.strict, s, 'strict')
        require(bool(col.uuid) and (not u or col.uuid == f'u{u}'),
                f'uuid {col.uuid}')
    ids = [u for u, _, _ in case['parts'] if u]
    kw = {} if case['strict'] is None else {'strict': case['strict']}
    if len(set(ids)) < len(ids):
        must_raise(KeyError, Group, tuple(made), **kw,
                   what='a group of collections of the same identity')
        ctx.label('refused')
        return
    source = list(made)
    given = {'tuple': tuple, 'list': lambda x: x, 'keys': dict.fromkeys,
             'once': iter}[case['given']]
    g = must(Group, collections=given(source), **kw)
    # the list remains the caller's
    source.append(Collection())
    require(list(g.collections) == made, 'a group of other collections')
    eq([c.max_size for c in g.collections],
       [size for _, size, _ in case['parts']], 'the limits')
    eq(g.max_size, sum(size for _, size, _ in case['parts']), 'max_size')
    for c in g.collections:
        eq(c.strict, bool(case['strict']), 'strictness of a collection')
    eq(g.strict, bool(case['strict']), 'strictness of the group')
    must_raise(TypeError, setattr, g, 'strict', case['odd'])
    eq(g.strict, bool(case['strict']), 'strictness after a refusal')
    c = must(Container, g, (g,), **kw)
    require(c.primary is g and tuple(c.groups) == (g,), 'other groups')
    eq(c.capacity, g.max_size, 'capacity')
    eq(c.strict, bool(case['strict']), 'strictness of the container')
    others = [Group.new(size=n) for n in case['others']]
    groups = others[:case['at']] + [g] * case['named'] + others[case['at']:]
    c = must(Container, g, given(groups), **kw)
    groups.append(Group.new(size=1))
    require(c.primary is g and [id(x) for x in c.groups] ==
            [id(x) for x in [g] + others], 'a container of other groups')
    eq(c.max_size, sum(x.max_size for x in [g] + others), 'max_size')
    ctx.nontrivial(len(made) > 1)


TESTS = [
    Test('made of parts', lambda: st.fixed_dictionaries({
        'parts': st.lists(st.tuples(
            st.sampled_from([None, None, None, 1, 2]), st.integers(1, 50),
            st.booleans()).map(list), min_size=1, max_size=5),
        'strict': st.sampled_from([None, True, False]),
        'given': st.sampled_from(['tuple', 'list', 'keys', 'once']),
        'others': st.lists(st.integers(1, 3), max_size=3),
        'at': st.integers(0, 3), 'named': st.booleans(),
        'odd': st.sampled_from([None, 1, 0, 'yes'])}),
        run_made, quick=1000, procs=2,
        rule='groups and containers of given collections; non-trivial = '
             'several collections'),
    Test('numbers', lambda: st.fixed_dictionaries({
        'cap': st.one_of(st.integers(1, 300), st.integers(1, 3_000_000)),
        'cmax': st.one_of(st.integers(1, 12), st.integers(1, 6000)),
        'n': st.one_of(st.integers(0, 200), st.integers(2, 90).map(
            lambda p: p * p), st.integers(0, 30000))}),
        run_numbers, quick=6000, procs=4,
        rule='non-trivial = the needed number is composite, so it must be '
             'raised to a prime'),
    Test('primes', lambda: st.fixed_dictionaries({
        'lo': st.integers(1, 2000), 'span': st.integers(0, 60)}),
        run_primes, quick=2000, procs=4, rule='two or more primes expected'),
    Test('container', lambda: st.fixed_dictionaries({
        'cap': st.one_of(st.integers(1, 60), st.integers(1, 2000)),
        'cmax': st.one_of(st.integers(1, 30), st.integers(20, 5000)),
        'strict': st.booleans()}),
        run_container, quick=2000, procs=8,
        rule='non-trivial = more than one collection'),
    Test('custom', lambda: st.fixed_dictionaries({
        'custom': st.lists(st.tuples(st.integers(0, 8), st.integers(0, 9) |
                                     st.integers(1, 9)).map(list),
                           max_size=5, unique_by=lambda p: p[0]),
        'size': st.none() | st.integers(0, 10),
        'cmax': st.integers(1, 20) | st.integers(-1, 2),
        'strict': st.sampled_from([None, True, False]),
        'pass_empty': st.booleans(),
        'odd': st.sampled_from([None, None, None, 'a', 1.5])}),
        run_custom, quick=4000, procs=4,
        rule='non-trivial = an accepted custom layout of several '
             'collections'),
]
