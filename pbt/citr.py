"""Helpers shared by the storage checks: databases, containers, models."""
import os
import pickle

from hypothesis import strategies as st

import ZODB  # noqa: F401
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage

from core import HarnessError, Violation, eq, must, require, short
from maps import KEYS, VALUES, want

from citrine.database.containerdb import ContainerDb
from citrine.storage.collection import Collection, CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

CAP = (CollectionCapacityError, GroupCapacityError)

# a small key pool, so that layers, connections and retries collide
SMALL = ['', 'a', 'b', 'c', 'aa', 'k1', 'k2', 'k3', 'é', 'x/y', 'A', 'a ']
FEWKEYS = st.sampled_from(SMALL)


# groups far larger than a bucket of a tree, and more groups than usual:
# [from, number of entries] for each group, which may overlap
BULK = st.tuples(st.integers(0, 60), st.sampled_from(
    [0, 3, 31, 40, 61, 90, 150])).map(list)


BULKKEYS = st.integers(0, 220).map('b{}'.format)


def fills(case):
    """What each group of a case holds at first."""
    bulk = case.get('bulk', [])
    fill = case['fill']
    return [{**({f'b{j}': f'{i}.{j}' for j in range(
                    bulk[i][0], sum(bulk[i]))} if i < len(bulk) else {}),
             **({k: v for k, v in fill[i]} if i < len(fill) else {})}
            for i in range(max(len(bulk), len(fill)))]


def bulky(cases, most=9):
    """The cases given for a number of groups, with many or large ones."""
    return st.integers(1, most).flatmap(lambda n: st.builds(
        lambda case, bulk: {**case, 'bulk': bulk}, cases(n),
        st.lists(BULK, min_size=n, max_size=n)))


def contents_of(group):
    return {k: group.get(k) for k in list(group.keys())}


def visible(groups):
    """What a reader sees: the first group that has an id wins."""
    out = {}
    for g in groups:
        for k, v in g.items():
            out.setdefault(k, v)
    return out


def eq_map(got, expected, what):
    if set(got) != set(expected):
        missing = sorted(set(expected) - set(got))
        extra = sorted(set(got) - set(expected))
        raise Violation(f'{what}: missing {short(missing)}, '
                        f'unexpected {short(extra)}')
    for k in expected:
        want(got[k], expected[k], f'{what}: value at {k!r}')


def container_map(container):
    """Every id of every group, as container.read reports it."""
    keys = {k for g in container.groups for k in list(g.keys())}
    return {k: container.read(k) for k in keys}


def mem_db(capacity=50, cmax=7, strict=False, container=None):
    """A ContainerDb in memory holding a prepared container."""
    storage = MappingStorage()
    install(storage, capacity, cmax, strict, container)
    return ContainerDb(storage)


def layered(layers, size=3, cmax=100):
    """A container with an empty primary group over groups of given contents;
    the first of them wins. The ids found in it, with their values, as well."""
    groups = []
    for i, items in enumerate(layers):
        g = Group.new(size=(2, 5, 1)[i % 3], max_collection_size=cmax)
        for k, v in items:
            g.update({k: v})
        groups.append(g)
    primary = Group.new(size=size, max_collection_size=cmax)
    return Container(primary, tuple(groups)), visible(groups)


LAYERS = st.lists(st.lists(st.tuples(FEWKEYS, VALUES).map(list), max_size=5),
                  max_size=2)
# half of the time a fresh container, with a single group
SOME_LAYERS = st.one_of(st.just([]), LAYERS)


def install(storage, capacity=50, cmax=7, strict=False, container=None):
    import transaction
    db = ZODB.DB(storage)
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    conn.root.container = container if container is not None else \
        Container.new(capacity=capacity, collection_max_size=cmax,
                      strict=strict)
    tm.commit()
    conn.close()
    # the storage stays open for the real database


def committed(db, at=None):
    """The mapping a fresh connection sees."""
    conn = db.open(transaction_manager=TransactionManager(), at=at)
    try:
        return container_map(conn.container)
    finally:
        conn.transaction_manager.abort()
        conn.close()


def tids(storage):
    return [t.tid for t in storage.iterator()]


class Boom(Exception):
    """An injected failure."""


class BaseBoom(BaseException):
    """An injected failure that is not an Exception."""


def unpicklable():
    return lambda: None
