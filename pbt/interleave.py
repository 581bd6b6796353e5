"""
Threads of which one runs at a time, changed at given points of the code.

`run(tasks, gaps)` runs every task in a thread of its own.  Only the thread
whose turn it is runs; after `gaps[i]` further executed lines (or bytecodes) of
the repository's code the turn passes to another thread; of a gap marked `new`
only lines (bytecodes) count that this thread had not executed before, so that
code that runs once is as likely to be interrupted as a loop; `stores` counts
the bytecodes that store into an object, and passes the turn right after one;
`new stores` is both.  The points are thus data of the case, shrinkable and
(as long as no real lock is in the way) repeatable.  A thread that is blocked
by a real lock does not stop the others: the turn is taken back when it has not
moved for PATIENCE seconds, which costs precision, never correctness.
"""
import dis
import os
import sys
import threading
import time

from hypothesis import strategies as st

from core import REPO

PATIENCE = 0.1
LIMIT_S = 60
SRC = os.path.abspath(REPO) + os.sep


_STORES = {}


def stores(code):
    """where a code object stores into something"""
    if code not in _STORES:
        _STORES[code] = frozenset(
            i.offset for i in dis.get_instructions(code)
            if i.opname.startswith(('STORE_ATTR', 'STORE_SUBSCR',
                                    'STORE_GLOBAL', 'STORE_SLICE',
                                    'DELETE_ATTR', 'DELETE_SUBSCR',
                                    'DELETE_GLOBAL')))
    return _STORES[code]


class Turns:
    def __init__(self, n, gaps, opcodes, held):
        self.cond = threading.Condition()
        self.live = list(range(n))
        self.turn = 0
        self.gaps = list(gaps)
        self.opcodes = opcodes
        self.hit = False
        self.left = self.next_gap()
        self.switches = 0
        self.stuck = 0
        self.held = held
        self.idents = {}

    def next_gap(self):
        if not self.gaps:
            return None
        n, other, kind = self.gaps.pop(0)
        self.hit = False
        return [n, other, 'new' in kind, 'stores' in kind and self.opcodes]

    def other(self, me, step):
        rest = [i for i in self.live if i != me]
        return rest[step % len(rest)] if rest else me

    def wait(self, me):
        """(with the lock held)"""
        seen = None
        while self.turn != me:
            if self.cond.wait(PATIENCE):
                continue
            now = self.turn, self.switches, self.where(self.turn)
            if now == seen:
                # twice at the same place: it waits for a lock
                self.stuck += 1
                self.turn = me
            seen = now

    def where(self, i):
        frame = sys._current_frames().get(self.idents.get(i))
        return frame and (id(frame), frame.f_lasti)

    def point(self, me, seen, at):
        gap = self.left
        if self.turn == me:
            if gap is None:
                return
            if not self.hit:
                if (not gap[2] or at not in seen) and (
                        not gap[3] or at[1] in stores(at[0])):
                    gap[0] -= 1
                seen.add(at)
                self.hit = gap[0] <= 0
                if not self.hit or gap[3]:
                    return
            if self.held and self.held():
                return
        with self.cond:
            if self.turn == me:
                self.turn = self.other(me, gap[1])
                self.left = self.next_gap()
                self.switches += self.turn != me
                self.cond.notify_all()
            self.wait(me)

    def tracer(self, me):
        event = 'opcode' if self.opcodes else 'line'
        seen = set()

        def local(frame, what, arg):
            if what == event:
                self.point(me, seen, (frame.f_code, frame.f_lasti))
            return local

        def start(frame, what, arg):
            code = frame.f_code
            if not code.co_filename.startswith(SRC):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return start


def run(tasks, gaps, opcodes=True, held=None):
    """gaps: [(steps, which other thread, kind)]; the turn does not pass while
    held() says that a lock is held.
    Returns ([('ok', value) or ('exc', error)], Turns)."""
    turns = Turns(len(tasks), gaps, opcodes, held)
    out = [None] * len(tasks)

    def body(i):
        try:
            with turns.cond:
                turns.idents[i] = threading.get_ident()
                turns.wait(i)
            sys.settrace(turns.tracer(i))
            try:
                out[i] = ('ok', tasks[i]())
            finally:
                sys.settrace(None)
        except BaseException as e:
            out[i] = ('exc', e)
        finally:
            with turns.cond:
                turns.live.remove(i)
                if turns.turn == i and turns.live:
                    turns.turn = turns.live[0]
                turns.cond.notify_all()

    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(len(tasks))]
    for t in threads:
        t.start()
    end = time.monotonic() + LIMIT_S
    for t in threads:
        t.join(max(0.1, end - time.monotonic()))
    if any(t.is_alive() for t in threads):
        return None, turns
    return out, turns


def gap(most):
    """a strategy for gaps"""
    return st.one_of(
        st.tuples(st.integers(1, 12) | st.integers(1, 150) |
                  st.integers(1, most), st.integers(0, 2),
                  st.sampled_from(['all', 'new'])),
        st.tuples(st.integers(1, 8) | st.integers(1, 60), st.integers(0, 2),
                  st.sampled_from(['stores', 'new stores']))).map(list)


def narrow():
    """gaps for a single change of turns within a short operation"""
    return st.tuples(
        st.integers(1, 110), st.integers(0, 1),
        st.just('new stores')).map(list) | st.tuples(
        st.integers(1, 60) | st.integers(1, 300), st.integers(0, 1),
        st.just('stores')).map(list) | st.tuples(
            st.integers(1, 1500), st.integers(0, 1), st.just('new')).map(list)
