"""Inclusion of regular languages over all Unicode strings.

included(question, pattern) decides whether every string for which a regular
expression question ("fullmatch" / "match" / "search") answers yes belongs to
the language of a second pattern.  Both automata are determinised on the fly;
the characters are grouped into classes that no predicate of either automaton
tells apart, so the answer holds for all 1114112 code points.
"""
from __future__ import annotations

import heapq
import re
import re._constants as sc
from collections import deque
from functools import lru_cache

from .rx import compile_rx, prefix_rx
from .terms import Unsupported

LIMIT = 60000


def _bounds(seq, out, flags):
    """Code points at which some character predicate of the tree may change."""
    for op, arg in seq:
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            if flags & re.I:
                out |= cased_bounds()
            out |= {arg, arg + 1}
        elif op is sc.ANY:
            out |= {10, 11}
        elif op is sc.IN:
            if flags & re.I:
                out |= cased_bounds()
            for o, a in arg:
                if o is sc.LITERAL:
                    out |= {a, a + 1}
                elif o is sc.RANGE:
                    out |= {a[0], a[1] + 1}
                elif o is sc.CATEGORY:
                    out |= category_bounds()
        elif op is sc.SUBPATTERN:
            g, add, rem, sub = arg
            _bounds(sub, out, (flags | add) & ~rem)
        elif op is sc.BRANCH:
            for alt in arg[1]:
                _bounds(alt, out, flags)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            _bounds(arg[2], out, flags)
        elif op is sc.AT:
            out |= {10, 11}
        else:
            raise Unsupported(f"regex op {op}")


@lru_cache(None)
def category_bounds():
    """Where \\d, \\s or \\w changes its answer."""
    out = set()
    last = None
    for o in range(0x110000):
        c = chr(o)
        k = (c.isdecimal(), c.isspace(), c.isalnum() or c == "_", o < 128)
        if k != last:
            out.add(o)
            last = k
    return frozenset(out)


@lru_cache(None)
def cased_bounds():
    """Letters with a second case: where ignoring case makes a difference."""
    out = set()
    for o in range(0x110000):
        c = chr(o)
        if not c.lower() == c == c.upper() or not c.swapcase() == c == c.casefold():
            out |= {o, o + 1}
    return frozenset(out)


def classes(*rxs):
    """One representative of every class of indistinguishable characters."""
    out = {0}
    for rx in rxs:
        _bounds(rx.tree, out, rx.flags)
    return [chr(o) for o in sorted(out) if o < 0x110000]


def automaton(how, pattern, flags=0):
    rx = compile_rx(pattern, flags & ~re.U)
    if how == "fullmatch":
        rx.nfa()
    else:
        rx = prefix_rx(rx, how == "search")
    if rx.odd_eol():
        raise Unsupported("'$' inside a pattern")
    return rx


def included(question, pattern, want=1):
    """Shortest strings that answer the question with yes and are outside pattern."""
    a = automaton(*question)
    b = automaton("fullmatch", pattern)
    chars = _merge(classes(a, b), a, b)
    s0 = (a.closure(frozenset([a.start]), pos0=True), b.closure(frozenset([b.start]), pos0=True))
    seen = {s0: None}
    work = deque([s0])
    out = []
    while work:
        st = work.popleft()
        x, y = st
        if a.accepts_end(x) and not b.accepts_end(y):
            w, k = [], st
            while seen[k] is not None:
                k, c = seen[k]
                w.append(c)
            out.append("".join(reversed(w)))
            if len(out) >= want:
                return out
        for c in chars:
            x2 = a.step(x, c)
            if not x2:
                continue
            t = (x2, b.step(y, c) if y else y)
            if t not in seen:
                if len(seen) > LIMIT:
                    raise Unsupported("language inclusion: too many states")
                seen[t] = (st, c)
                work.append(t)
    return out


def nearest(question, pattern, u, want=3, far=16, limit=60000):
    """Strings close to u (fewest edits first) that answer the question with yes and are outside pattern."""
    a = automaton(*question)
    b = automaton("fullmatch", pattern)
    chars = _merge(classes(a, b), a, b)
    s0 = (0, a.closure(frozenset([a.start]), pos0=True), b.closure(frozenset([b.start]), pos0=True))
    best = {s0: 0}
    back = {s0: None}
    heap = [(0, 0, s0)]
    n = 0
    out = []
    while heap and len(best) < limit:
        cost, _, st = heapq.heappop(heap)
        if cost > best[st]:
            continue
        i, x, y = st
        if i == len(u) and a.accepts_end(x) and not b.accepts_end(y):
            w, k = [], st
            while back[k] is not None:
                k, c = back[k]
                w.append(c)
            out.append("".join(reversed(w)))
            if len(out) >= want:
                break
            continue
        moves = []
        if i < len(u):
            moves.append((0, i + 1, u[i]))
            moves.append((1, i + 1, ""))
            moves += [(1, i + 1, c) for c in chars]
        moves += [(1, i, c) for c in chars]
        for k, j, c in moves:
            if c:
                x2 = a.step(x, c)
                if not x2:
                    continue
                t = (j, x2, b.step(y, c) if y else y)
            else:
                t = (j, x, y)
            if cost + k <= far and cost + k < best.get(t, far + 1):
                best[t] = cost + k
                back[t] = (st, c)
                n += 1
                heapq.heappush(heap, (cost + k, n, t))
    return out


def _merge(chars, a, b):
    """Characters with different answers to the predicates of the automata."""
    preds = {p for r in (a, b) for l in r.chr for p, _ in l}
    rep = {}
    for c in chars:
        rep.setdefault(tuple(p(c) for p in preds), c)
    return list(rep.values())
