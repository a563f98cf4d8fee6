"""Regular expressions over ropes.

Patterns are parsed with CPython's own parser.  Whole-match questions
(match / fullmatch / search as booleans) run the subset automaton over the
rope and give a boolean term.  Questions about positions (split, findall,
sub, groups) use a backtracking matcher with CPython's priorities over the
characters of the rope; it forks when a character test is open.
"""
from __future__ import annotations

import re
import re._compiler
import re._constants as sc
import re._parser as sp

from . import rope
from .rope import (
    Cut,
    FS,
    Opq,
    S,
    SList,
    Star,
    _selfcontained,
    atoms_of,
    cat,
    fix_len,
    fs,
    is_str,
    mk,
    any_of,
    moded,
    norm,
    resolve_cuts,
    s_chars,
    s_eq,
    s_join,
    s_len,
    star_all,
)
from .terms import (
    CTX,
    T,
    Unsupported,
    allowed_star,
    choose,
    hi_of,
    lo_of,
    mk_and,
    mk_eq,
    mk_fd,
    mk_le,
    mk_not,
    mk_or,
)

# ------------------------------------------------------------- char predicates
_WORD = lambda c: c.isalnum() or c == "_"
_CAT = {
    sc.CATEGORY_DIGIT: str.isdecimal,
    sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    sc.CATEGORY_SPACE: str.isspace,
    sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: _WORD,
    sc.CATEGORY_NOT_WORD: lambda c: not _WORD(c),
}
_ACAT = {
    sc.CATEGORY_DIGIT: lambda c: c in "0123456789",
    sc.CATEGORY_NOT_DIGIT: lambda c: c not in "0123456789",
    sc.CATEGORY_SPACE: lambda c: c in " \t\n\r\f\v",
    sc.CATEGORY_NOT_SPACE: lambda c: c not in " \t\n\r\f\v",
    sc.CATEGORY_WORD: lambda c: c.isascii() and _WORD(c),
    sc.CATEGORY_NOT_WORD: lambda c: not (c.isascii() and _WORD(c)),
}


class CP:
    """A character predicate."""

    __slots__ = ("f", "cache", "src")

    def __init__(self, f, src):
        self.f = f
        self.cache = {}
        self.src = src

    def __call__(self, c):
        r = self.cache.get(c)
        if r is None:
            r = self.cache[c] = bool(self.f(c))
        return r


_cps: dict = {}


def char_pred(op, arg, flags):
    key = (str(op), str(arg), int(flags))
    r = _cps.get(key)
    if r is not None:
        return r
    if flags & re.I and op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN):
        # the comparison of the regular expression engine itself
        p = re._compiler.compile(sp.SubPattern(sp.State(), [(op, arg)]), re.I | (flags & re.A or re.U))
        f = lambda c: p.fullmatch(c) is not None
    elif op is sc.LITERAL:
        c0 = chr(arg)
        f = lambda c: c == c0
    elif op is sc.NOT_LITERAL:
        c0 = chr(arg)
        f = lambda c: c != c0
    elif op is sc.ANY:
        f = (lambda c: True) if flags & re.S else (lambda c: c != "\n")
    elif op is sc.IN:
        neg = False
        tests = []
        cats = _ACAT if flags & re.A else _CAT
        for o, a in arg:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                tests.append(("l", chr(a)))
            elif o is sc.RANGE:
                tests.append(("r", a))
            elif o is sc.CATEGORY:
                tests.append(("c", cats[a]))
            else:
                raise Unsupported(f"regex class item {o}")

        def f(c, tests=tests, neg=neg):
            o = ord(c)
            for k, a in tests:
                if k == "l" and c == a or k == "r" and a[0] <= o <= a[1] or k == "c" and a(c):
                    return not neg
            return neg
    else:
        raise Unsupported(f"regex op {op}")
    r = _cps[key] = CP(f, key)
    return r


CHAR_OPS = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)


# ------------------------------------------------------------------------- NFA
class Rx:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = sp.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups
        self._nfa = None
        self._step = {}
        self._clos = {}

    # Thompson construction: edges state -> [(pred or None, target)]
    def nfa(self):
        if self._nfa is None:
            self.eps = []
            self.chr = []
            self.eols = []
            s = self._new()
            e = self._build(self.tree, s, self.flags)
            self.start, self.final = s, e
            self._nfa = True
        return self

    def _new(self):
        self.eps.append([])
        self.chr.append([])
        return len(self.eps) - 1

    def _build(self, seq, s, flags):
        for op, arg in seq:
            s = self._node(op, arg, s, flags)
        return s

    def _node(self, op, arg, s, flags):
        if op in CHAR_OPS:
            e = self._new()
            self.chr[s].append((char_pred(op, arg, flags), e))
            return e
        if op is sc.SUBPATTERN:
            g, add, rem, sub = arg
            return self._build(sub, s, (flags | add) & ~rem)
        if op is sc.BRANCH:
            e = self._new()
            for alt in arg[1]:
                a = self._new()
                self.eps[s].append(a)
                z = self._build(alt, a, flags)
                self.eps[z].append(e)
            return e
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = arg
            for _ in range(lo):
                s = self._build(sub, s, flags)
            if hi is sc.MAXREPEAT:
                a = self._new()
                self.eps[s].append(a)
                z = self._build(sub, a, flags)
                self.eps[z].append(a)
                e = self._new()
                self.eps[a].append(e)
                return e
            e = self._new()
            if hi - lo > 400:
                raise Unsupported("large repetition in a regex")
            for _ in range(hi - lo):
                self.eps[s].append(e)
                s = self._build(sub, s, flags)
            self.eps[s].append(e)
            return e
        if op is sc.AT:
            if arg in (sc.AT_BEGINNING_STRING,) or (arg is sc.AT_BEGINNING and not flags & re.M):
                e = self._new()
                # only valid at position 0: handled by requiring s reachable
                self.bol = True
                self.eps[s].append(("bol", e))
                return e
            if arg is sc.AT_END_STRING:
                e = self._new()
                self.eps[s].append(("eos", e))
                return e
            if arg is sc.AT_END and not flags & re.M:
                e = self._new()
                self.eps[s].append(("eol", e))
                self.eols.append((s, e))
                return e
        raise Unsupported(f"regex op {op}")

    def closure(self, states, pos0=False, end=False):
        key = (states, pos0, end)
        r = self._clos.get(key)
        if r is not None:
            return r
        seen = set(states)
        work = list(states)
        while work:
            x = work.pop()
            for y in self.eps[x]:
                if isinstance(y, tuple):
                    k, t = y
                    if k == "bol" and not pos0:
                        continue
                    if k == "eos" and not end:
                        continue
                    if k == "eol" and not end:
                        continue
                    y = t
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        # keep the states that matter: character edges, anchors, acceptance
        keep = frozenset(
            x for x in seen if self.chr[x] or x == self.final or any(isinstance(y, tuple) for y in self.eps[x])
        )
        r = self._clos[key] = keep
        return r

    def has_eol(self):
        return any(isinstance(y, tuple) and y[0] == "eol" for l in self.eps for y in l)

    def odd_eol(self):
        """A '$' after which the pattern could still consume a line end."""
        for _, e in self.eols:
            seen, work = {e}, [e]
            while work:
                x = work.pop()
                if any(p("\n") for p, t in self.chr[x] if t != x or x != self.final):
                    return True
                for y in self.eps[x]:
                    y = y[1] if isinstance(y, tuple) else y
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
        return False

    def step(self, states, c):
        key = (states, c)
        r = self._step.get(key)
        if r is None:
            nxt = set()
            for s in states:
                for p, t in self.chr[s]:
                    if p(c):
                        nxt.add(t)
            r = self._step[key] = self.closure(frozenset(nxt))
        return r

    def run(self, states, text):
        for c in text:
            if not states:
                return states
            states = self.step(states, c)
        return states

    def accepts_end(self, states):
        return self.final in self.closure(states, end=True)

    def __repr__(self):
        return f"Rx({self.pattern!r})"


_rx: dict = {}


def compile_rx(p, flags=0):
    if isinstance(p, re.Pattern):
        p, flags = p.pattern, p.flags & ~re.U
    if not isinstance(p, str):
        raise Unsupported("symbolic pattern")
    key = (p, int(flags))
    r = _rx.get(key)
    if r is None:
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            re.compile(p, flags)
            r = _rx[key] = Rx(p, flags)
    return r


# ------------------------------------------------------------------ simulation
def simulate(rx, s, search=False):
    """Map from automaton state sets to the condition for being there."""
    rx.nfa()
    s = norm(resolve_cuts(s))
    init = rx.closure(frozenset([rx.start]), pos0=True)
    cur = {init: True}
    sink = None
    for x in atoms_of(s):
        cur = _sim_atom(rx, cur, x)
        if not cur:
            break
    return cur


def _sim_atom(rx, cur, x):
    nxt = {}

    def add(st, c):
        if not st or c is False:
            return
        nxt.setdefault(st, []).append(c)

    for st, cond in cur.items():
        if isinstance(x, str):
            add(rx.run(st, x), cond)
        elif isinstance(x, FS):
            groups = {}
            for v in CTX.allowed(x.key):
                groups.setdefault(rx.run(st, x.table[v]), []).append(v)
            if len(groups) == 1:
                add(next(iter(groups)), cond)
            else:
                for st2, vs in groups.items():
                    if st2:
                        add(st2, mk_and([cond, mk_fd(x.key, vs)]))
        elif isinstance(x, Star):
            for st2, c in _sim_star(rx, st, x):
                add(st2, mk_and([cond, c]))
        elif isinstance(x, Opq):
            # all characters of the alphabet must behave alike
            cs = st
            for _ in range(x.n):
                outs = {rx.step(cs, ch) for ch in x.alphabet}
                if len(outs) != 1:
                    raise Unsupported("regex on opaque text")
                cs = outs.pop()
                if not cs:
                    break
            add(cs, cond)
        else:
            raise Unsupported("regex on a cut string")
    return {st: mk_or(cs) for st, cs in nxt.items()}


def _sim_star(rx, st, x):
    """[(state set, condition)] after the whole star."""
    al = allowed_star(x.dom)
    # the elements that survive at every step must lead to one state
    chain = [st]
    ok = None
    seen = {st: 0}
    loop = None
    while True:
        cur = chain[-1]
        groups = {}
        for v in al:
            groups.setdefault(rx.run(cur, x.table[v]), []).append(v)
        dead = frozenset(groups.pop(frozenset(), []))
        good = al - dead
        if not good:
            # nothing survives one more element
            break
        if len(groups) != 1:
            raise Unsupported("regex splits a star")
        if ok is None:
            ok = good
        elif ok != good:
            raise Unsupported("regex restricts a star unevenly")
        nx = next(iter(groups))
        if nx in seen:
            loop = seen[nx]
            break
        seen[nx] = len(chain)
        chain.append(nx)
        if len(chain) > 300:
            raise Unsupported("long star chain in a regex")
    n = x.dom.n
    out = []
    if ok is None:
        return [(st, mk_le(n, 0))]
    allok = star_all(x.dom, ok)
    if loop is None:
        for i, c in enumerate(chain):
            out.append((c, mk_and([mk_eq(n, i), allok if i else True])))
        return out
    if loop != len(chain) - 1:
        raise Unsupported("periodic regex on a star")
    for i, c in enumerate(chain[:-1]):
        out.append((c, mk_and([mk_eq(n, i), allok if i else True])))
    out.append((chain[-1], mk_and([mk_le(len(chain) - 1, n), allok])))
    return out


def rx_fullmatch(rx, s):
    cur = simulate(rx, s)
    return mk_or([c for st, c in cur.items() if rx.accepts_end(st)])


def rx_match(rx, s, search=False):
    """Some prefix matches (or: some substring)."""
    rx.nfa()
    if rx.odd_eol():
        m = PosMatcher(rx, s)
        return (m.search(0) if search else m.match(0)) is not None
    s = norm(resolve_cuts(s))
    r2 = prefix_rx(rx, search)
    return rx_fullmatch(r2, s)


def _silent(rx, x):
    """States reachable without a character, at the end of the string."""
    seen, work = {x}, [x]
    while work:
        for y in rx.eps[work.pop()]:
            y = y[1] if isinstance(y, tuple) else y
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def prefix_rx(rx, search):
    key = ("prefix", rx.pattern, int(rx.flags), search)
    r = _rx.get(key)
    if r is None:
        r = Rx.__new__(Rx)
        r.pattern, r.tree, r.flags, r.groups = rx.pattern, rx.tree, rx.flags, rx.groups
        r._nfa, r._step, r._clos = None, {}, {}
        r.eps, r.chr, r.eols = [], [], []
        anyc = CP(lambda c: True, "any")
        s = r._new()
        if search:
            r.chr[s].append((anyc, s))
        e = r._build(r.tree, s, r.flags)
        f = r._new()
        r.eps[e].append(f)
        r.chr[f].append((anyc, f))
        r.start, r.final, r._nfa = s, f, True
        # '$' also holds before a line end that is the last character
        for b, z in r.eols:
            if e in _silent(r, z):
                t = r._new()
                r.chr[b].append((char_pred(sc.LITERAL, 10, 0), t))
                r.eps[t].append(("eos", f))
        _rx[key] = r
        # a state set containing the final loop accepts whatever follows:
        # collapse it so that the automaton stays small
        old_closure = Rx.closure

        def closure(states, pos0=False, end=False, r=r, f=f):
            c = old_closure(r, states, pos0, end)
            if f in c:
                return frozenset([f])
            return c

        r.closure = closure
    return r


def rx_search(rx, s):
    return rx_match(rx, s, search=True)


def lit_match(lit, s):
    """Boolean: the rope equals the literal."""
    return rx_fullmatch(compile_rx(re.escape(lit), re.S), s)


# ------------------------------------------------------------ position matcher
class Cell:
    """One character position of a rope."""

    __slots__ = ("lit", "key", "table", "alts")

    def __init__(self, lit=None, key=None, table=None):
        self.lit, self.key, self.table = lit, key, table


class PosMatcher:
    """Backtracking matcher with CPython's preference order."""

    def __init__(self, rx, s):
        self.rx = rx
        self.chars = s_chars(s)
        self.n = len(self.chars)

    def test(self, pred, i):
        c = self.chars[i]
        if isinstance(c, str):
            return pred(c)
        x = c.a[0]
        return CTX.truth(mk_fd(x.key, [v for v, t in enumerate(x.table) if pred(t)]))

    def m(self, seq, idx, i, groups, flags, k):
        if idx == len(seq):
            return k(i, groups)
        op, arg = seq[idx]
        if op in CHAR_OPS:
            if i < self.n and self.test(char_pred(op, arg, flags), i):
                return self.m(seq, idx + 1, i + 1, groups, flags, k)
            return None
        if op is sc.SUBPATTERN:
            g, add, rem, sub = arg
            f2 = (flags | add) & ~rem

            def k2(j, gr):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (i, j)
                return self.m(seq, idx + 1, j, gr, flags, k)

            return self.m(sub, 0, i, groups, f2, k2)
        if op is sc.BRANCH:
            for alt in arg[1]:
                r = self.m(alt, 0, i, groups, flags, lambda j, gr: self.m(seq, idx + 1, j, gr, flags, k))
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = arg
            greedy = op is sc.MAX_REPEAT

            def rep(cnt, j, gr):
                def more():
                    if hi is not sc.MAXREPEAT and cnt >= hi:
                        return None

                    def k3(j2, gr2):
                        if j2 == j and cnt >= lo:
                            return None
                        return rep(cnt + 1, j2, gr2)

                    return self.m(sub, 0, j, gr, flags, k3)

                def done():
                    if cnt < lo:
                        return None
                    return self.m(seq, idx + 1, j, gr, flags, k)

                if greedy:
                    r = more()
                    return r if r is not None else done()
                r = done()
                return r if r is not None else more()

            return rep(0, i, groups)
        if op is sc.AT:
            if arg in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if flags & re.M and arg is sc.AT_BEGINNING:
                    raise Unsupported("multiline regex")
                return self.m(seq, idx + 1, i, groups, flags, k) if i == 0 else None
            if arg is sc.AT_END_STRING:
                return self.m(seq, idx + 1, i, groups, flags, k) if i == self.n else None
            if arg is sc.AT_END and not flags & re.M:
                if i == self.n:
                    return self.m(seq, idx + 1, i, groups, flags, k)
                if i == self.n - 1 and self.test(char_pred(sc.LITERAL, 10, 0), i):
                    return self.m(seq, idx + 1, i, groups, flags, k)
                return None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = arg
            if d != 1:
                raise Unsupported("look-behind")
            r = self.m(sub, 0, i, groups, flags, lambda j, gr: (j, gr))
            if (r is not None) == (op is sc.ASSERT):
                return self.m(seq, idx + 1, i, groups, flags, k)
            return None
        raise Unsupported(f"regex op {op}")

    def match(self, i, full=False):
        def k(j, gr):
            if full and j != self.n:
                return None
            return (j, gr)

        r = self.m(self.rx.tree, 0, i, {}, self.rx.flags, k)
        if r is None:
            return None
        return SMatch(self, i, r[0], r[1])

    def search(self, i):
        for p in range(i, self.n + 1):
            r = self.match(p)
            if r is not None:
                return r
        return None

    def text(self, a, b):
        return cat(*self.chars[a:b]) if b > a else ""

    def finditer(self):
        i = 0
        last_empty_ok = True
        while i <= self.n:
            r = self.search(i)
            if r is None:
                return
            yield r
            if r.e == r.b:
                # CPython: an empty match advances by one, but a non-empty
                # match starting at the same place is allowed first
                i = r.e + 1
            else:
                i = r.e


class SMatch:
    def __init__(self, pm, b, e, groups):
        self.pm, self.b, self.e, self.gr = pm, b, e, groups

    def _span(self, g):
        if g == 0:
            return self.b, self.e
        if isinstance(g, str):
            g = self.pm.rx.tree.state.groupdict[g]
        if g >= self.pm.rx.groups:
            raise IndexError("no such group")
        return self.gr.get(g, (-1, -1))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self._span(g)
            out.append(None if a < 0 else self.pm.text(a, b))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        r = []
        for g in range(1, self.pm.rx.groups):
            a, b = self._span(g)
            r.append(default if a < 0 else self.pm.text(a, b))
        return tuple(r)

    def groupdict(self, default=None):
        return {k: (default if self._span(g)[0] < 0 else self.group(g)) for k, g in self.pm.rx.tree.state.groupdict.items()}

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def __bool__(self):
        return True


def may_contain(seq, c, flags):
    """Can a text of this part of a pattern contain the character?"""
    for op, arg in seq:
        if op in CHAR_OPS:
            hit = char_pred(op, arg, flags)(c)
        elif op is sc.SUBPATTERN:
            hit = may_contain(arg[3], c, (flags | arg[1]) & ~arg[2])
        elif op is sc.BRANCH:
            hit = any(may_contain(a, c, flags) for a in arg[1])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            hit = may_contain(arg[2], c, flags)
        else:
            hit = True
        if hit:
            return True
    return False


def fields(rx, s):
    """Groups of a full match whose outermost parts are delimited by literal characters.

    A part that cannot contain the literal behind it ends at the first one, and
    the last part is the rest.  None when the pattern has another form; groups
    inside the parts are left out.
    """
    out = {}
    seq = list(rx.tree)
    i = 0
    while i < len(seq):
        op, arg = seq[i]
        if op is sc.LITERAL and not rx.flags & re.I:
            s = s[1:] if isinstance(s, str) else rope.s_slice(s, 1, None, None)
            i += 1
            continue
        if i + 1 == len(seq):
            text, s = s, ""
        elif seq[i + 1][0] is sc.LITERAL and not rx.flags & re.I and not may_contain([seq[i]], chr(seq[i + 1][1]), rx.flags):
            text, sep, s = rope.m_partition(s, chr(seq[i + 1][1]))
            s = cat(sep, s)
        else:
            return None
        if op is sc.SUBPATTERN and arg[0] is not None:
            out[arg[0]] = text
        i += 1
    return out


class FieldMatch:
    """A full match with the groups found by fields(); others by the position matcher."""

    def __init__(self, lazy, texts):
        self._lazy, self._texts = lazy, texts

    def _group(self, g):
        if g == 0:
            return self._lazy.s
        if isinstance(g, str):
            g = self._lazy.rx.tree.state.groupdict[g]
        return self._texts[g] if g in self._texts else self._lazy.position().group(g)

    def group(self, *gs):
        out = [self._group(g) for g in gs or (0,)]
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        r = [self._group(g) for g in range(1, self._lazy.rx.groups)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        d = {k: self._group(g) for k, g in self._lazy.rx.tree.state.groupdict.items()}
        return {k: default if x is None else x for k, x in d.items()}

    def __getattr__(self, name):
        return getattr(self._lazy.position(), name)


class LazyMatch:
    """Result of match/fullmatch/search: a boolean until groups are used."""

    def __init__(self, rx, s, how):
        self.rx, self.s, self.how = rx, s, how
        self._b = None
        self._m = None

    def cond(self):
        if self._b is None:
            if self.how == "fullmatch":
                self._b = rx_fullmatch(self.rx, self.s)
            else:
                self._b = rx_match(self.rx, self.s, self.how == "search")
        return self._b

    def position(self):
        pm = PosMatcher(self.rx, self.s)
        return pm.search(0) if self.how == "search" else pm.match(0, self.how == "fullmatch")

    def real(self):
        if self._m is None:
            if self.how == "fullmatch" and CTX.truth(self.cond()):
                d = fields(self.rx, self.s)
                if d:
                    self._m = FieldMatch(self, d)
                    return self._m
            self._m = self.position()
        return self._m

    def __bool__(self):
        return CTX.truth(self.cond())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = self.real()
        if r is None:
            raise AttributeError(f"'NoneType' object has no attribute '{name}'")
        return getattr(r, name)

    def __getitem__(self, g):
        return self.real()[g]


class AnyMatch:
    """A match of arbitrary text, whose groups are not known."""

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("groups of a match of arbitrary text")


def outside(dom, q):
    """Must a question about text outside a language be answered with no?"""
    if q not in dom.settled:
        if dom.outside is None:
            dom.settled[q] = ("",)
        else:
            from . import lang
            dom.settled[q] = tuple(lang.included(q, dom.outside, 12))
    return not dom.settled[q]


def re_match(rx, s, how):
    d = moded(s)
    if d is not None:
        if d.whole is not None and s_eq(s, d.whole) is True:
            if not outside(d, (how, rx.pattern, int(rx.flags))):
                return AnyMatch() if choose("regex matches") else None
            return None
        try:
            m = LazyMatch(rx, s, how)
            m.cond()
            return m
        except Unsupported:
            return AnyMatch() if choose("regex matches") else None
    try:
        m = LazyMatch(rx, s, how)
        m.cond()
        return m
    except Unsupported:
        pm = PosMatcher(rx, s)
        return pm.search(0) if how == "search" else pm.match(0, how == "fullmatch")


# ------------------------------------------------------ token-wise split / sub
def token_shape(rx):
    """Recognise patterns that match only fixed sets of short tokens."""
    return None


def self_delimiting(rx, s):
    """Matches of rx lie inside single atoms, whatever surrounds them.

    Holds when no suffix of an atom's text can start a match that is still
    incomplete at the atom's end (unless the match is complete there and
    cannot be extended), checked on the automaton for every reachable text.
    """
    rx.nfa()
    if rx.has_eol() or getattr(rx, "bol", False):
        return False
    st0 = rx.closure(frozenset([rx.start]), pos0=False)
    if rx.final in st0:
        return False
    for x in atoms_of(s):
        if isinstance(x, str):
            texts = {x}
        elif isinstance(x, FS):
            texts = {x.table[v] for v in CTX.allowed(x.key)}
        elif isinstance(x, Star):
            texts = {x.table[v] for v in allowed_star(x.dom)}
        else:
            return False
        for t in texts:
            if not _text_closed(rx, st0, t):
                return False
    return True


def _text_closed(rx, st0, t):
    key = ("closed", t)
    r = rx._clos.get(key)
    if r is None:
        r = True
        i = 0
        while i < len(t) and r:
            st, j, last = st0, i, None
            while j < len(t) and st:
                st = rx.step(st, t[j])
                j += 1
                if rx.final in st:
                    last = j
            if st and any(rx.chr[q] for q in st):
                # still alive at the end of the text and able to continue
                r = False
                break
            i = last if last else i + 1
        rx._clos[key] = r
    return r


class TokSplit:
    """re.split(rx, s) where matches lie inside atoms.

    atoms: list of atoms; each text t contributes split pieces of its own.
    """

    def __init__(self, rx, s):
        self.rx = rx
        self.s = s

    def force(self):
        return list(_pos_split(self.rx, self.s, 0))

    def __iter__(self):
        return iter(self.force())

    def __len__(self):
        return len(self.force())

    def __getitem__(self, i):
        return self.force()[i]


def definite_split(rx, s, maxsplit):
    """Split when each atom is definitely no match or a whole match."""
    pat = re.compile(rx.pattern, rx.flags & ~re.U)
    pieces, cur = [], []
    for x in atoms_of(s):
        if maxsplit and len(pieces) >= 1 and _nsplits(pieces, rx) >= maxsplit:
            cur.append(x)
            continue
        if isinstance(x, str):
            if maxsplit:
                return None
            ps = pat.split(x)
            cur.append(ps[0])
            for p in ps[1:]:
                pieces.append(mk(cur) if not cur or True else None)
                cur = [p]
            continue
        if isinstance(x, FS):
            al = CTX.allowed(x.key)
            has = {bool(pat.search(x.table[v])) for v in al}
            if has == {False}:
                cur.append(x)
                continue
            if has == {True} and _whole(pat, [x.table[v] for v in al]):
                pieces.append(mk(cur))
                if pat.groups:
                    pieces.append(mk([x]))
                cur = []
                continue
            return None
        if isinstance(x, Star):
            if not any(pat.search(x.table[v]) for v in allowed_star(x.dom)):
                cur.append(x)
                continue
        return None
    pieces.append(mk(cur))
    return pieces


def _whole(pat, texts):
    """Every text is one match, captured whole by the only group (if any)."""
    if pat.groups > 1:
        return False
    for t in texts:
        m = pat.match(t)
        if not m or m.end() != len(t) or (pat.groups and m.group(1) != t):
            return False
    return True


def _nsplits(pieces, rx):
    return len(pieces) // rx.groups if rx.groups > 1 else len(pieces)


def re_split(pattern, s, maxsplit=0, flags=0):
    rx = compile_rx(pattern, flags)
    s = norm(resolve_cuts(s))
    if isinstance(s, str):
        return re.split(rx.pattern, s, maxsplit=maxsplit, flags=rx.flags & ~re.U)
    if self_delimiting(rx, s):
        d = definite_split(rx, s, maxsplit)
        if d is not None:
            return d
        if not maxsplit:
            return TokSplit(rx, s)
    return _pos_split(rx, s, maxsplit)


def _pos_split(rx, s, maxsplit):
    pm = PosMatcher2(rx, s)
    out = []
    last = 0
    n = 0
    i = 0
    while True:
        if maxsplit and n >= maxsplit:
            break
        r = pm.search(i)
        if r is None:
            break
        out.append(pm.text(last, r.b))
        for g in range(1, rx.groups):
            a, b = r._span(g)
            out.append(None if a < 0 else pm.text(a, b))
        last = r.e
        i = r.e if r.e > r.b else r.e + 1
        n += 1
        if i > pm.n:
            break
    out.append(pm.text(last, pm.n))
    return out


class PosMatcher2(PosMatcher):
    """Position matcher that expands the rope only as far as needed."""

    def __init__(self, rx, s):
        self.rx = rx
        self.rest = list(atoms_of(norm(resolve_cuts(s))))
        self.chars = []
        self._fill(1)

    @property
    def n(self):
        if self.rest:
            return len(self.chars) + 1
        return len(self.chars)

    def _fill(self, k):
        while self.rest and len(self.chars) < k:
            x = self.rest.pop(0)
            y = norm(mk([x]))
            if not isinstance(y, str) and (isinstance(x, (Star, Cut)) or (isinstance(x, FS) and x.flen is None)):
                y = norm(fix_len(x))
            self.chars.extend(s_chars(y))

    def _need(self, i):
        if i >= len(self.chars):
            self._fill(i + 1)
            while self.rest and len(self.chars) <= i:
                self._fill(i + 1)

    def test(self, pred, i):
        self._need(i)
        if i >= len(self.chars):
            return False
        return PosMatcher.test(self, pred, i)

    def match(self, i, full=False):
        self._need(i)
        if i > len(self.chars):
            return None
        return PosMatcher.match(self, i, full)

    def search(self, i):
        p = i
        while True:
            self._need(p)
            if p > len(self.chars):
                return None
            r = self.match(p)
            if r is not None:
                return r
            p += 1

    def text(self, a, b):
        if b > len(self.chars) and self.rest:
            # slice running to the end: keep the unexpanded rest symbolic
            return cat(*self.chars[a:], mk(self.rest)) if self.chars[a:] or self.rest else ""
        return cat(*self.chars[a:b]) if b > a else ""


def re_findall(pattern, s, flags=0):
    rx = compile_rx(pattern, flags)
    s = norm(resolve_cuts(s))
    if isinstance(s, str):
        return re.findall(rx.pattern, s, flags=rx.flags & ~re.U)
    pm = PosMatcher(rx, s)
    out = []
    for r in pm.finditer():
        g = r.groups("")
        out.append(r.group(0) if not g else g[0] if len(g) == 1 else g)
    return out


def re_finditer(pattern, s, flags=0):
    rx = compile_rx(pattern, flags)
    s = norm(resolve_cuts(s))
    if isinstance(s, str):
        return list(re.finditer(rx.pattern, s, flags=rx.flags & ~re.U))
    return list(PosMatcher(rx, s).finditer())


def re_sub(pattern, repl, s, count=0, flags=0):
    if moded(s) is not None:
        try:
            return _re_sub(pattern, repl, s, count, flags)
        except Unsupported:
            return any_of(cat(s, repl if isinstance(repl, str) else ""))
    return _re_sub(pattern, repl, s, count, flags)


def _re_sub(pattern, repl, s, count=0, flags=0):
    rx = compile_rx(pattern, flags)
    s = norm(resolve_cuts(s))
    if isinstance(s, str) and (isinstance(repl, str) or callable(repl)):
        if isinstance(repl, str):
            return re.sub(rx.pattern, repl, s, count=count, flags=rx.flags & ~re.U)
    if not isinstance(s, str) and not count and self_delimiting(rx, s):
        pat = re.compile(rx.pattern, rx.flags & ~re.U)
        out = []
        for x in s.a:
            if isinstance(x, str):
                out.extend(atoms_of(_csub(pat, repl, x)))
                continue
            al = CTX.allowed(x.key) if isinstance(x, FS) else allowed_star(x.dom)
            tab, d = [], None
            for v, t in enumerate(x.table):
                if v in al:
                    y = _csub(pat, repl, t)
                    if not isinstance(y, str):
                        raise Unsupported("symbolic replacement")
                    d = y if d is None else d
                    tab.append(y)
                else:
                    tab.append(None)
            tab = tuple(d if y is None else y for y in tab)
            out.append(fs(x.key, tab) if isinstance(x, FS) else Star(x.dom, tab))
        return mk(out)
    if not isinstance(s, str):
        c = None
        try:
            c = rx_search(rx, s)
        except Unsupported:
            pass
        if c is not None and CTX.decide(c) is False:
            return s
    pm = PosMatcher2(rx, s) if isinstance(s, S) and not rx.nfa().has_eol() else PosMatcher(rx, s)
    out = []
    last = 0
    i = 0
    n = 0
    while not count or n < count:
        r = pm.search(i)
        if r is None:
            break
        out.append(pm.text(last, r.b))
        out.append(_expand(repl, r, rx))
        last = r.e
        i = r.e if r.e > r.b else r.e + 1
        n += 1
        if i > pm.n:
            break
    out.append(pm.text(last, pm.n))
    return cat(*out)


def _csub(pat, repl, t):
    if isinstance(repl, str):
        return pat.sub(repl, t)
    # call the (instrumented) replacement function
    out, last = [], 0
    for m in pat.finditer(t):
        out.append(t[last: m.start()])
        out.append(repl(m))
        last = m.end()
    out.append(t[last:])
    return cat(*out)


def _expand(repl, m, rx):
    if callable(repl):
        return repl(m)
    if "\\" not in repl:
        return repl
    parts = re._parser.parse_template(repl, re.compile(rx.pattern, rx.flags & ~re.U))
    out = []
    for p in parts:
        out.append(p if isinstance(p, str) else (m.group(p) or ""))
    return cat(*out)
