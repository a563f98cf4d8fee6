"""Path exploration: whole runs, and local regions whose results are merged."""
from __future__ import annotations

import enum
import time
import types

from .rope import S
from .terms import B, CTX, Infeasible, STATS, State, T, Unsupported
from .values import FDO, NoMerge, merge, same_value

LIMITS = {"paths": 4000, "region": 600, "lazy": 24, "deadline": None}


def _run(fn):
    try:
        return ("ret", fn())
    except Infeasible:
        return None
    except Unsupported:
        raise
    except RecursionError:
        raise Unsupported("recursion limit")
    except Exception as e:
        return ("exc", e)


def _dfs(fn, base, limit):
    """All paths of fn from a base state: yields (state, outcome)."""
    saved = (CTX.st, CTX.trail, CTX.prefix, CTX.pending, CTX.memo, CTX.nreg)
    stack = [()]
    memo = {}
    n = 0
    try:
        while stack:
            pre = stack.pop()
            CTX.st = base.copy()
            CTX.trail = []
            CTX.prefix = pre
            CTX.pending = stack
            CTX.memo = memo
            CTX.nreg = 0
            if len(memo) > 4000:
                memo.clear()
            o = _run(fn)
            n += 1
            STATS.paths += 1
            if n > limit:
                raise Unsupported("too many paths")
            if LIMITS["deadline"] and time.time() > LIMITS["deadline"]:
                raise Unsupported("time budget")
            if o is not None:
                CTX.st.via = (tuple(CTX.trail), CTX.lazy)
                yield CTX.st, o
    finally:
        if CTX.pending is stack:    # not when an abandoned exploration is collected later
            CTX.st, CTX.trail, CTX.prefix, CTX.pending, CTX.memo, CTX.nreg = saved


def explore(fn, base=None, limit=None):
    """Run fn on every feasible path; yields (state, kind, value)."""
    for st, (k, v) in _dfs(fn, base or State(), limit or LIMITS["paths"]):
        yield st, k, v


def all_paths(pred):
    """pred() is true on every path (from the empty state)."""
    lazy, CTX.lazy = CTX.lazy, False
    try:
        for st, k, v in explore(pred, State(), 200):
            if k != "ret" or v is not True:
                return False
        return True
    finally:
        CTX.lazy = lazy


def single_outcome(fn):
    """Result of fn when it does not fork (None otherwise)."""
    outs = list(_dfs(fn, CTX.st.copy(), 4))
    if len(outs) != 1 or outs[0][1][0] != "ret":
        return None
    return outs[0][1][1]


_PLAIN = (str, int, float, bytes, type(None), T, B, S, FDO, enum.Enum, type, types.FunctionType)


def _fresh(v):
    """Copy of a value that a path may go on to change; None when it cannot be copied."""
    if isinstance(v, _PLAIN):
        return (v,)
    if type(v) in (tuple, list):
        out = []
        for x in v:
            c = _fresh(x)
            if c is None:
                return None
            out.append(c[0])
        return (type(v)(out),)
    if type(v) is dict:
        c = _fresh(list(v.values()))
        return None if c is None else (dict(zip(v, c[0])),)
    return None


def region(fn, group=None):
    """Run fn over all its local paths; merge results that depend on one key.

    Paths are explored by running again from the start with recorded decisions.
    A region met again in this way has the same outcomes as before, which are
    kept (memo) instead of being computed again.
    """
    if CTX.trail is None:
        raise Unsupported("region outside of an exploration")
    at = (CTX.nreg, tuple(CTX.trail))
    CTX.nreg += 1
    hit = CTX.memo.get(at)
    if hit is not None:
        alts, skip = hit
        CTX.skipped += skip
    else:
        before = CTX.skipped
        alts = _region(fn, group)
        kept = [(st, "ret", c) if k == "ret" and (c := _fresh(v)) is not None else
                (st, k, v) if k == "exc" else
                (None, "again", getattr(st, "via", None)) for st, k, v in alts]
        if not any(k == "again" and v is None for _, k, v in kept):
            CTX.memo[at] = (kept, CTX.skipped - before)
    i = CTX.choose(len(alts)) if len(alts) > 1 else 0
    st, k, v = alts[i]
    if k == "again":
        return _again(fn, v)
    if st is not None:
        CTX.st = st.copy()
    if k == "exc":
        raise v
    return _fresh(v[0])[0] if hit is not None else v


def _again(fn, via):
    """Run one known path of a region again (its result cannot be shared between paths)."""
    saved = (CTX.trail, CTX.prefix, CTX.pending, CTX.memo, CTX.nreg, CTX.lazy, CTX.skipped)
    CTX.trail, CTX.prefix, CTX.pending, CTX.memo, CTX.nreg, CTX.lazy = [], via[0], [], {}, 0, via[1]
    try:
        return fn()
    finally:
        CTX.trail, CTX.prefix, CTX.pending, CTX.memo, CTX.nreg, CTX.lazy, CTX.skipped = saved


def _region(fn, group):
    """The alternative outcomes (state, kind, value) of a region."""
    base = CTX.st
    STATS.regions += 1
    # first without asking the solver which branches are feasible: results
    # that agree on all branches need no case distinction
    lazy, skipped = CTX.lazy, CTX.skipped
    CTX.lazy, CTX.skipped = True, 0
    try:
        outs = list(_dfs(fn, base, LIMITS["lazy"]))
        here = CTX.skipped
    except Unsupported:
        if lazy:
            raise
        outs, here = [], 1
    finally:
        CTX.lazy, CTX.skipped = lazy, skipped
    if len(outs) > 1 and all(k == "ret" and same_value(v, outs[0][1][1]) for _, (k, v) in outs):
        CTX.skipped += here
        return [(None, "ret", outs[0][1][1])]
    if here:
        if lazy:
            CTX.skipped += here
        else:
            outs = list(_dfs(fn, base, LIMITS["region"]))
    if not outs:
        raise Infeasible()
    if len(outs) == 1:
        st, (k, v) = outs[0]
        return [(st, k, v)]
    # which keys were restricted?
    key = None
    mergeable = True
    for st, _ in outs:
        if len(st.cons) != len(base.cons) or st.stars != base.stars:
            mergeable = False
            break
        for kk, (ky, vals) in st.fd.items():
            b = base.fd.get(kk)
            if b is not None and b[1] == vals:
                continue
            if key is None:
                key = ky
            elif not key.same(ky):
                mergeable = False
                break
    alts = []
    if mergeable and key is not None:
        kk = (key.terms, key.c)
        groups = {}
        for st, (k, v) in outs:
            g = ("exc", type(v)) if k == "exc" else ("ret", group(v) if group else None)
            groups.setdefault(g, []).append((st, k, v))
        for g, l in groups.items():
            if len(l) == 1:
                alts.extend(l)
                continue
            parts = [(st.fd[kk][1] if kk in st.fd else CTX.allowed(key), v) for st, k, v in l]
            try:
                mv = l[0][2] if g[0] == "exc" else merge(key, parts)
            except NoMerge:
                alts.extend(l)
                continue
            STATS.merges += 1
            st = base.copy()
            union = frozenset().union(*[d for d, _ in parts])
            if union != CTX.allowed(key):
                st.fd[kk] = (key, union)
            alts.append((st, g[0], mv))
    else:
        alts = [(st, k, v) for st, (k, v) in outs]
    return alts
