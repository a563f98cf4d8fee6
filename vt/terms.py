"""Integer terms, boolean terms and the path state of the symbolic executor.

A term ``T`` is an integer linear combination of atoms.  Atoms are

  IVar    an integer variable with static bounds
  RDig    the k-th digit of a term in base b
  FInt    a table look-up: a function of a small ("finite domain") term
  ModA    a term modulo a constant
  DivA    a term divided by a constant (floor)

A *key* is a term with a small range 0..m-1.  Facts about keys are kept as
sets of allowed values; all other facts are kept as linear constraints which
are given to z3 when a question cannot be answered from bounds.
"""
from __future__ import annotations

import math
import time

import z3

FDMAX = 1500


class Unsupported(Exception):
    """The symbolic executor cannot represent an operation precisely."""


class Infeasible(BaseException):
    """The current path has no models."""


# ---------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.paths = 0
        self.forks = 0
        self.regions = 0
        self.merges = 0


STATS = Stats()

# --------------------------------------------------------------------- atoms
_uid = [0]
_intern: dict = {}


class Atom:
    __slots__ = ("uid", "lo", "hi", "key", "_fd")

    def __init__(self, key, lo, hi):
        _uid[0] += 1
        self.uid = _uid[0]
        self.key = key
        self.lo = lo
        self.hi = hi
        self._fd = False


class IVar(Atom):
    __slots__ = ("name",)

    def __repr__(self):
        return self.name


class RDig(Atom):
    __slots__ = ("E", "b", "k")

    def __repr__(self):
        return f"dig({self.E!r},{self.b},{self.k})"


class FInt(Atom):
    __slots__ = ("E", "table")

    def __repr__(self):
        return f"f{self.uid}({self.E!r})"


class ModA(Atom):
    __slots__ = ("E", "m")

    def __repr__(self):
        return f"mod({self.E!r},{self.m})"


class DivA(Atom):
    __slots__ = ("E", "m")

    def __repr__(self):
        return f"div({self.E!r},{self.m})"


def reset_interning():
    _intern.clear()
    _tcache.clear()


# --------------------------------------------------------------------- terms
_tcache: dict = {}


class T:
    """Linear term; always holds at least one atom (constants are ints)."""

    __slots__ = ("terms", "c", "_h", "_lo", "_hi")

    def __init__(self, terms, c):
        self.terms = terms
        self.c = c
        self._h = hash((terms, c))
        self._lo = None

    def __hash__(self):
        return self._h

    def _bounds(self):
        lo = hi = self.c
        for a, k in self.terms:
            if k > 0:
                l, h = a.lo, a.hi
            else:
                l, h = a.hi, a.lo
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        self._lo, self._hi = (lo,), (hi,)

    @property
    def lo(self):
        if self._lo is None:
            self._bounds()
        return self._lo[0]

    @property
    def hi(self):
        if self._lo is None:
            self._bounds()
        return self._hi[0]

    def same(self, o):
        return isinstance(o, T) and self.terms == o.terms and self.c == o.c

    def __repr__(self):
        s = "+".join(f"{k}*{a!r}" if k != 1 else repr(a) for a, k in self.terms)
        return f"({s}{'+' + str(self.c) if self.c else ''})"

    # arithmetic (used by specification code and by native library code)
    def __add__(self, o):
        return t_add(self, o) if is_int(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return t_add(self, t_scale(o, -1)) if is_int(o) else NotImplemented

    def __rsub__(self, o):
        return t_add(o, t_scale(self, -1)) if is_int(o) else NotImplemented

    def __neg__(self):
        return t_scale(self, -1)

    def __mul__(self, o):
        return t_mul(self, o)

    __rmul__ = __mul__

    def __mod__(self, o):
        return t_mod(self, o)

    def __rmod__(self, o):
        raise Unsupported("symbolic modulus")

    def __floordiv__(self, o):
        return t_div(self, o)

    def __divmod__(self, o):
        return t_div(self, o), t_mod(self, o)

    def __lshift__(self, o):
        if isinstance(o, int):
            return t_scale(self, 1 << o)
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int):
            return t_div(self, 1 << o)
        raise Unsupported("symbolic shift")

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return t_mod(self, o + 1)
        r = fd_lift2(self, o, lambda a, b: a & b)
        if r is None:
            raise Unsupported("bit-and")
        return r

    __rand__ = __and__

    def __eq__(self, o):
        if not is_int(o):
            return NotImplemented
        return mk_eq(self, o)

    def __ne__(self, o):
        if not is_int(o):
            return NotImplemented
        return mk_not(mk_eq(self, o))

    def __lt__(self, o):
        return mk_lt(self, o)

    def __le__(self, o):
        return mk_le(self, o)

    def __gt__(self, o):
        return mk_lt(o, self)

    def __ge__(self, o):
        return mk_le(o, self)

    def __bool__(self):
        return CTX.truth(mk_not(mk_eq(self, 0)))

    def __index__(self):
        return CTX.concretize(self)

    def __int__(self):
        raise Unsupported("native int() of a symbolic integer")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic integer")

    def __str__(self):
        raise Unsupported("native str() of a symbolic integer")


def is_int(x):
    return isinstance(x, (int, T)) and not isinstance(x, B)


class _Key:
    """Hashable wrapper comparing terms structurally (T.__eq__ is symbolic)."""

    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t
        self.h = t._h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.t.terms == o.t.terms and self.t.c == o.t.c


_kcache: dict = {}


def K(t):
    """The interned representative key object of a term."""
    kk = (t.terms, t.c)
    r = _kcache.get(kk)
    if r is None:
        r = _kcache[kk] = t
    return r


def mkT(d, c):
    """Build a term from {atom: coef} and a constant."""
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].uid))
    if not items:
        return c
    if len(items) > 1 and any(type(a) is FInt for a, _ in items):
        r = _merge_fints(items, c)
        if r is not None:
            return r
    kk = (items, c)
    r = _tcache.get(kk)
    if r is None:
        r = _tcache[kk] = T(items, c)
    return r


def _merge_fints(items, c):
    """Join the table atoms (and the plain atom) that share a key."""
    keys = {}
    for a, k in items:
        r = atom_key(a)
        if r is not None:
            keys.setdefault((r[0].terms, r[0].c), []).append((a, k))
    done = False
    out = {}
    for l in keys.values():
        if len(l) < 2 or not any(type(a) is FInt for a, _ in l):
            for a, k in l:
                out[a] = k
            continue
        done = True
        key = atom_key(l[0][0])[0]
        tab = [0] * (key.hi + 1)
        for a, k in l:
            tb = atom_key(a)[1]
            for v in range(key.hi + 1):
                tab[v] += k * (v if tb is None else tb[v])
        f = fint(key, tab)
        if isinstance(f, int):
            c += f
        else:
            c += f.c
            for a, k in f.terms:
                out[a] = out.get(a, 0) + k
    if not done:
        return None
    for a, k in items:
        if atom_key(a) is None:
            out[a] = k
    return mkT(out, c)


def atomT(a):
    return mkT({a: 1}, 0)


def ivar(name, lo=None, hi=None):
    a = IVar(("v", name), lo, hi)
    a.name = name
    return atomT(a)


def choose(name="choice"):
    """Either answer (an over-approximation of some condition); forks the path."""
    CTX.st.havoc = True
    v = ivar("havoc " + name, 0, 1)
    return CTX.truth(mk_eq(v, 1))


def t_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return mkT(dict(a.terms), a.c + b) if b else a
    d = dict(a.terms)
    for x, k in b.terms:
        d[x] = d.get(x, 0) + k
    return mkT(d, a.c + b.c)


def t_scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return mkT({x: c * k for x, c in a.terms}, a.c * k)


def t_sub(a, b):
    return t_add(a, t_scale(b, -1))


def t_mul(a, b):
    if isinstance(a, int):
        return t_scale(b, a)
    if isinstance(b, int):
        return t_scale(a, b)
    r = fd_lift2(a, b, lambda x, y: x * y)
    if r is None:
        raise Unsupported("product of symbolic integers")
    return r


def lo_of(t):
    return t if isinstance(t, int) else CTX.bounds(t)[0]


def hi_of(t):
    return t if isinstance(t, int) else CTX.bounds(t)[1]


# -------------------------------------------------------- finite-domain views
def atom_key(a):
    """(key term, table) describing the atom as a function of a key, or None."""
    r = a._fd
    if r is False:
        if isinstance(a, FInt):
            r = (a.E, a.table)
        elif a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < FDMAX:
            r = (atomT(a), None)
        else:
            r = None
        a._fd = r
    return r


def as_fd(t):
    """View a term as (key, table of ints) when it depends on a single key."""
    if isinstance(t, int):
        return None
    key = None
    for a, _ in t.terms:
        r = atom_key(a)
        if r is None:
            return None
        if key is None:
            key = r[0]
        elif not key.same(r[0]):
            return None
    n = key.hi + 1
    tab = [t.c] * n
    for a, k in t.terms:
        tb = atom_key(a)[1]
        if tb is None:
            for v in range(n):
                tab[v] += k * v
        else:
            for v in range(n):
                tab[v] += k * tb[v]
    return key, tuple(tab)


def fint(key, table):
    """The integer table[key]."""
    table = tuple(table)
    assert len(table) == key.hi + 1, (len(table), key.hi)
    f = table[0]
    if all(x == f for x in table):
        return f
    st = table[1] - f
    if all(x == f + st * i for i, x in enumerate(table)):
        return t_add(t_scale(key, st), f)
    g = math.gcd(*table)
    if g > 1:
        return t_scale(fint(key, [x // g for x in table]), g)
    kk = ("f", key.terms, key.c, table)
    a = _intern.get(kk)
    if a is None:
        a = FInt(kk, min(table), max(table))
        a.E = key
        a.table = table
        _intern[kk] = a
    return atomT(a)


def fd_lift2(a, b, f):
    fa, fb = as_fd(a), as_fd(b)
    if isinstance(a, int) and fb:
        return fint(fb[0], [f(a, y) for y in fb[1]])
    if isinstance(b, int) and fa:
        return fint(fa[0], [f(x, b) for x in fa[1]])
    if fa and fb and fa[0].same(fb[0]):
        return fint(fa[0], [f(x, y) for x, y in zip(fa[1], fb[1])])
    return None


# ---------------------------------------------------------- digits, mod, div
def rdig(E, b, k):
    """(E div b**k) mod b, normalised."""
    if isinstance(E, int):
        return (E // b**k) % b
    fd = as_fd(E)
    p = b**k
    if fd:
        return fint(fd[0], [(x // p) % b for x in fd[1]])
    hi = hi_of(E)
    if lo_of(E) is not None and lo_of(E) >= 0 and hi is not None and hi < p:
        return 0
    if b in (4, 8, 16, 32, 64):
        # digits in a power of two are made of bits
        w = b.bit_length() - 1
        r = 0
        for j in range(w):
            r = t_add(r, t_scale(rdig(E, 2, w * k + j), 2**j))
        return r
    if len(E.terms) > 1 or E.c or E.terms[0][1] != 1:
        for s1, s2, F in digit_fields(E, b):
            if s1 <= k and (s2 is None or k < s2):
                if isinstance(F, int) or not F.same(E):
                    return rdig(F, b, k - s1)
                break
    kk = ("d", E.terms, E.c, b, k)
    a = _intern.get(kk)
    if a is None:
        hi = E.hi
        top = b - 1
        if hi is not None and E.lo >= 0 and hi // p < b - 1:
            top = hi // p
        a = RDig(kk, 0, top)
        a.E, a.b, a.k = E, b, k
        _intern[kk] = a
    return atomT(a)


def digit_fields(E, b):
    """Split a sum into fields occupying disjoint digit positions.

    Returns [(first digit, end digit or None, term)]: the digits of E at the
    positions of a field are the digits of its term.  A position s is a cut
    when the terms not divisible by b**s sum to less than b**s.
    """
    cache = CTX.st.cuts
    ver = (len(CTX.st.bnd), len(CTX.st.cons), len(CTX.st.fd))
    hit = cache.get((E, b))
    if hit is not None and hit[0] == ver:
        return hit[1]
    r = _digit_fields(E, b)
    cache[(E, b)] = (ver, r)
    return r


def _digit_fields(E, b):
    whole = [(0, None, E)]
    if E.c < 0:
        return whole
    val = []
    for a, c in E.terms:
        lo, hi = CTX.bounds(atomT(a))
        if c < 0 or lo is None or lo < 0 or hi is None:
            return whole
        v = 0
        while c % b == 0:
            c //= b
            v += 1
        val.append(v)
    top = 0
    q = b
    tot = hi_of(E)
    while q <= tot:
        q *= b
        top += 1
    cuts = [0]
    low_terms = sorted(zip(val, E.terms), key=lambda x: x[0])
    for s in range(1, top + 1):
        ps = b**s
        low = {a: c for v, (a, c) in low_terms if v < s}
        lc = E.c % ps
        if low:
            h = lc
            for a, c in low.items():
                h += c * a.hi if a.hi is not None else ps
                if h >= ps:
                    break
            if h >= ps:
                h = hi_of(mkT(low, 0))
                if h is None or h + lc >= ps:
                    continue
        cuts.append(s)
    if len(cuts) == 1:
        return whole
    out = []
    for i, s in enumerate(cuts):
        e = cuts[i + 1] if i + 1 < len(cuts) else None
        ps = b**s
        d = {a: c // ps for v, (a, c) in zip(val, E.terms) if v >= s and (e is None or v < e)}
        c = E.c // ps
        if e is not None:
            c %= b ** (e - s)
        out.append((s, e, mkT(d, c)))
    return out


def t_mod(E, m):
    if isinstance(E, int) and isinstance(m, int):
        return E % m
    if not isinstance(m, int):
        raise Unsupported("symbolic modulus")
    if m == 0:
        raise ZeroDivisionError("integer modulo by zero")
    if m < 0:
        raise Unsupported("negative modulus")
    fd = as_fd(E)
    if fd:
        return fint(fd[0], [x % m for x in fd[1]])
    d, c = {}, E.c
    work = list(E.terms)
    while work:
        a, k = work.pop()
        if isinstance(a, ModA) and a.m % m == 0:
            # (x mod m') mod m == x mod m when m divides m'
            work.extend((x, y * k) for x, y in a.E.terms)
            c += a.E.c * k
        else:
            d[a] = d.get(a, 0) + k
    d = {a: k % m for a, k in d.items() if k % m}
    E2 = mkT(d, c % m)
    if isinstance(E2, int):
        return E2 % m
    lo, hi = lo_of(E2), hi_of(E2)
    if lo is not None and lo >= 0 and hi is not None and hi < m:
        return E2
    lo, hi = lo_of(E), hi_of(E)
    if lo is not None and lo >= 0 and hi is not None and hi < m:
        return E
    fd = as_fd(E2)
    if fd:
        return fint(fd[0], [x % m for x in fd[1]])
    kk = ("m", E2.terms, E2.c, m)
    a = _intern.get(kk)
    if a is None:
        a = ModA(kk, 0, m - 1)
        a.E, a.m = E2, m
        _intern[kk] = a
    return atomT(a)


def t_div(E, m):
    if isinstance(E, int) and isinstance(m, int):
        return E // m
    if not isinstance(m, int):
        raise Unsupported("division by a symbolic integer")
    if m == 0:
        raise ZeroDivisionError("integer division by zero")
    if m < 0:
        raise Unsupported("negative divisor")
    if m == 1:
        return E
    fd = as_fd(E)
    if fd:
        return fint(fd[0], [x // m for x in fd[1]])
    # split off the multiples of m
    whole, rest = {}, {}
    for a, k in E.terms:
        if k % m == 0:
            whole[a] = k // m
        else:
            rest[a] = k
    qc = E.c // m
    rt = mkT(rest, E.c - qc * m)
    if isinstance(rt, int):
        return mkT(whole, qc)
    fd = as_fd(rt)
    if fd:
        return t_add(mkT(whole, qc), fint(fd[0], [x // m for x in fd[1]]))
    lo, hi = lo_of(rt), hi_of(rt)
    if lo is not None and hi is not None and lo // m == hi // m:
        return t_add(mkT(whole, qc), lo // m)
    kk = ("q", rt.terms, rt.c, m)
    a = _intern.get(kk)
    if a is None:
        a = DivA(kk, None if rt.lo is None else rt.lo // m, None if rt.hi is None else rt.hi // m)
        a.E, a.m = rt, m
        _intern[kk] = a
    return t_add(mkT(whole, qc), atomT(a))


# ------------------------------------------------------------- boolean terms
class B:
    """Symbolic boolean: kind in fd, le, eq, ne, and, or."""

    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a, b=None):
        self.kind = kind
        self.a = a
        self.b = b

    def __bool__(self):
        return CTX.truth(self)

    def __repr__(self):
        if self.kind == "fd":
            return f"{self.a!r} in {sorted(self.b)[:12]}"
        if self.kind in ("and", "or"):
            return "(" + f" {self.kind} ".join(map(repr, self.a)) + ")"
        return f"{self.a!r} {self.kind} 0"

    def __and__(self, o):
        return mk_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return mk_or([self, o])

    __ror__ = __or__

    def __invert__(self):
        return mk_not(self)

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else mk_not(self)
        if isinstance(o, B):
            return mk_or([mk_and([self, o]), mk_and([mk_not(self), mk_not(o)])])
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    __hash__ = object.__hash__


def mk_fd(key, vals):
    lo = key.lo or 0
    vals = frozenset(vals)
    if lo > 0:
        vals = frozenset(v for v in vals if v >= lo)
    if not vals:
        return False
    if len(vals) == key.hi + 1 - max(lo, 0):
        return True
    return B("fd", K(key), vals)


def _fdcmp(d, f):
    fd = as_fd(d)
    if fd:
        return mk_fd(fd[0], [v for v, x in enumerate(fd[1]) if f(x)])
    return None


def mk_le0(d):
    if isinstance(d, int):
        return d <= 0
    r = _fdcmp(d, lambda x: x <= 0)
    if r is not None:
        return r
    lo, hi = lo_of(d), hi_of(d)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return B("le", d)


def mk_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return mk_le0(t_sub(a, b))


def mk_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return mk_le0(t_add(t_sub(a, b), 1))


def mk_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = t_sub(a, b)
    if isinstance(d, int):
        return d == 0
    r = _fdcmp(d, lambda x: x == 0)
    if r is not None:
        return r
    lo, hi = lo_of(d), hi_of(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    return B("eq", d)


def mk_not(b):
    if isinstance(b, bool):
        return not b
    if not isinstance(b, B):
        raise Unsupported(f"negation of {type(b).__name__}")
    if b.kind == "fd":
        return mk_fd(b.a, frozenset(range(b.a.hi + 1)) - b.b)
    if b.kind == "le":
        return mk_le0(t_add(t_scale(b.a, -1), 1))
    if b.kind == "eq":
        return B("ne", b.a)
    if b.kind == "ne":
        return B("eq", b.a)
    if b.kind == "star":
        return B("nstar", b.a, b.b)
    if b.kind == "nstar":
        return B("star", b.a, b.b)
    if b.kind == "and":
        return mk_or([mk_not(x) for x in b.a])
    if b.kind == "or":
        return mk_and([mk_not(x) for x in b.a])
    raise AssertionError(b.kind)


def mk_and(bs):
    out, fds = [], {}
    work = list(bs)[::-1]
    while work:
        x = work.pop()
        if x is True:
            continue
        if x is False:
            return False
        if x.kind == "and":
            work.extend(x.a[::-1])
        elif x.kind == "fd":
            kk = (x.a.terms, x.a.c)
            if kk in fds:
                s = fds[kk].b & x.b
                if not s:
                    return False
                fds[kk] = B("fd", x.a, s)
            else:
                fds[kk] = x
        else:
            out.append(x)
    out = list(fds.values()) + out
    if not out:
        return True
    return out[0] if len(out) == 1 else B("and", tuple(out))


def mk_or(bs):
    out, fds = [], {}
    work = list(bs)[::-1]
    while work:
        x = work.pop()
        if x is True:
            return True
        if x is False:
            continue
        if x.kind == "or":
            work.extend(x.a[::-1])
        elif x.kind == "fd":
            kk = (x.a.terms, x.a.c)
            if kk in fds:
                s = fds[kk].b | x.b
                if len(s) == x.a.hi + 1:
                    return True
                fds[kk] = B("fd", x.a, s)
            else:
                fds[kk] = x
        else:
            out.append(x)
    out = list(fds.values()) + out
    if not out:
        return False
    return out[0] if len(out) == 1 else B("or", tuple(out))


def allowed_star(dom):
    r = CTX.st.stars.get(dom.uid)
    return r[1] if r else frozenset(range(dom.size))


def exists_star(dom):
    r = CTX.st.stars.get(dom.uid)
    return r[2] if r else ()


# ------------------------------------------------------------- base variables
_bv: dict = {}


def base_vars(t):
    """The IVars a term depends on."""
    if isinstance(t, int):
        return frozenset()
    kk = (t.terms, t.c)
    r = _bv.get(kk)
    if r is None:
        s = set()
        for a, _ in t.terms:
            if isinstance(a, IVar):
                s.add(a)
            else:
                s |= base_vars(a.E)
        r = _bv[kk] = frozenset(s)
    return r


def bool_vars(b):
    if isinstance(b, bool):
        return frozenset()
    if b.kind in ("and", "or"):
        s = frozenset()
        for x in b.a:
            s |= bool_vars(x)
        return s
    if b.kind in ("star", "nstar"):
        return base_vars(b.a.n)
    return base_vars(b.a)


# ----------------------------------------------------------------- evaluation
def ev(t, m):
    """Evaluate a term under a model {IVar: int}."""
    if isinstance(t, int):
        return t
    r = t.c
    for a, k in t.terms:
        r += k * ev_atom(a, m)
    return r


def ev_atom(a, m):
    if isinstance(a, IVar):
        return m[a]
    if isinstance(a, RDig):
        return (ev(a.E, m) // a.b**a.k) % a.b
    if isinstance(a, FInt):
        return a.table[ev(a.E, m)]
    if isinstance(a, ModA):
        return ev(a.E, m) % a.m
    return ev(a.E, m) // a.m


def evb(b, m):
    if isinstance(b, bool):
        return b
    if b.kind == "fd":
        return ev(b.a, m) in b.b
    if b.kind == "le":
        return ev(b.a, m) <= 0
    if b.kind == "eq":
        return ev(b.a, m) == 0
    if b.kind == "ne":
        return ev(b.a, m) != 0
    if b.kind == "and":
        return all(evb(x, m) for x in b.a)
    return any(evb(x, m) for x in b.a)


# ------------------------------------------------------------------ z3 bridge
class Z3Bridge:
    """Translates terms to z3; digit expansions become linear definitions."""

    def __init__(self):
        self.vars = {}
        self.defs = []
        self.exp = {}

    def ivar(self, a):
        v = self.vars.get(a)
        if v is None:
            v = self.vars[a] = z3.Int(f"a{a.uid}")
            if a.lo is not None:
                self.defs.append(v >= a.lo)
            if a.hi is not None:
                self.defs.append(v <= a.hi)
        return v

    def term(self, t):
        if isinstance(t, int):
            return z3.IntVal(t)
        parts = [self.atom(a) * k if k != 1 else self.atom(a) for a, k in t.terms]
        if t.c:
            parts.append(z3.IntVal(t.c))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def atom(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        if isinstance(a, IVar):
            return self.ivar(a)
        if isinstance(a, RDig):
            self.expand(a.E, a.b, a.k)
            v = self.exp[(a.E.terms, a.E.c, a.b)][0][a.k]
            self.vars[a] = v
            return v
        v = self.ivar(a)
        if isinstance(a, ModA):
            q = z3.Int(f"mq{a.uid}")
            self.defs.append(self.term(a.E) == q * a.m + v)
        elif isinstance(a, DivA):
            r = z3.Int(f"dr{a.uid}")
            self.defs.append(z3.And(self.term(a.E) == v * a.m + r, r >= 0, r < a.m))
        elif isinstance(a, FInt):
            e = self.term(a.E)
            groups = {}
            for i, x in enumerate(a.table):
                groups.setdefault(x, []).append(i)
            self.defs.append(
                z3.Or([z3.And(v == x, member(e, g)) for x, g in groups.items()])
            )
        return v

    def expand(self, E, b, k):
        kk = (E.terms, E.c, b)
        if kk in self.exp:
            digs, w = self.exp[kk]
            if k < w:
                return
            raise Unsupported("digit beyond expansion")
        hi = E.hi
        if hi is None:
            w = max(k + 1, 24)
            rest = z3.Int(f"rest{len(self.exp)}")
        else:
            w = 1
            while b**w <= hi:
                w += 1
            w = max(w, k + 1)
            rest = None
        digs = [z3.Int(f"d{len(self.exp)}_{i}") for i in range(w)]
        for d in digs:
            self.defs.append(z3.And(d >= 0, d < b))
        s = z3.Sum([d * b**i for i, d in enumerate(digs)])
        if rest is not None:
            self.defs.append(rest >= 0)
            s = s + rest * b**w
        self.exp[kk] = (digs, w)
        self.defs.append(self.term(E) == s)

    def bool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.kind == "fd":
            return member(self.term(b.a), sorted(b.b))
        if b.kind == "le":
            return self.term(b.a) <= 0
        if b.kind == "eq":
            return self.term(b.a) == 0
        if b.kind == "ne":
            return self.term(b.a) != 0
        if b.kind == "star":
            al = allowed_star(b.a)
            return z3.BoolVal(True) if al & b.b else self.term(b.a.n) <= 0
        if b.kind == "nstar":
            return self.term(b.a.n) >= 1
        if b.kind == "and":
            return z3.And([self.bool(x) for x in b.a])
        return z3.Or([self.bool(x) for x in b.a])


def member(e, vals):
    vals = sorted(vals)
    runs, s = [], None
    for v in vals:
        if s is not None and v == p + 1:
            p = v
            continue
        if s is not None:
            runs.append((s, p))
        s = p = v
    runs.append((s, p))
    return z3.Or([e == a if a == b else z3.And(e >= a, e <= b) for a, b in runs])


# ------------------------------------------------------------------ path state
class State:
    __slots__ = ("fd", "bnd", "cons", "zvars", "stars", "cuts", "havoc", "via")

    def __init__(self):
        self.fd = {}      # (terms, c) -> (key, frozenset)
        self.bnd = {}     # (terms, 0) -> (lo, hi)
        self.cons = []    # boolean terms that are not plain fd facts
        self.zvars = frozenset()
        self.stars = {}
        self.cuts = {}    # cache of digit_fields
        self.havoc = False  # an outcome was chosen freely (over-approximation)
        self.via = None   # decisions that led here

    def copy(self):
        s = State()
        s.fd = dict(self.fd)
        s.bnd = dict(self.bnd)
        s.cons = list(self.cons)
        s.zvars = self.zvars
        s.stars = dict(self.stars)
        s.cuts = dict(self.cuts)
        s.havoc = self.havoc
        return s


def hull(b, memo):
    """Facts on single keys implied by b: {key: (key, values)}."""
    if b.kind == "fd":
        return {(b.a.terms, b.a.c): (b.a, b.b)}
    if b.kind not in ("and", "or"):
        return {}
    r = memo.get(id(b))
    if r is not None:
        return r
    r = None
    for x in b.a:
        h = hull(x, memo)
        if r is None:
            r = dict(h)
        elif b.kind == "and":
            for kk, (key, vals) in h.items():
                r[kk] = (key, vals & r[kk][1]) if kk in r else (key, vals)
        else:
            r = {kk: (key, vals | h[kk][1]) for kk, (key, vals) in r.items() if kk in h}
            if not r:
                break
    memo[id(b)] = r
    return r


class Ctx:
    """Current path: state plus the decision trail of the exploration."""

    def __init__(self):
        self.st = State()
        self.trail = None      # list of decisions taken
        self.prefix = ()       # decisions to replay
        self.pending = None    # alternatives discovered
        self.memo = {}         # outcomes of the regions met on the paths so far
        self.nreg = 0          # regions met on this path
        self.max_forks = 100000
        self.deadline = None
        self.unknown = False
        self.lazy = False      # branch without asking the solver
        self.skipped = 0       # questions not asked because of that

    # -- knowledge ---------------------------------------------------------
    def allowed(self, key):
        r = self.st.fd.get((key.terms, key.c))
        if r is None:
            return frozenset(range(max(key.lo or 0, 0), key.hi + 1))
        return r[1]

    def bounds(self, t):
        """Bounds of a term under the path (static bounds refined by facts)."""
        lo, hi = t.lo, t.hi
        st = self.st
        if not st.bnd and not st.fd:
            return lo, hi
        if t.c:
            t0 = mkT(dict(t.terms), 0)
        else:
            t0 = t
        b = st.bnd.get((t0.terms, 0))
        if b:
            if b[0] is not None and (lo is None or b[0] + t.c > lo):
                lo = b[0] + t.c
            if b[1] is not None and (hi is None or b[1] + t.c < hi):
                hi = b[1] + t.c
        if len(t.terms) == 1 and st.fd:
            a, k = t.terms[0]
            r = st.fd.get(((((a, 1),), 0)))
            vs = r[1] if r else None
            if vs is None and isinstance(a, FInt):
                r = st.fd.get((a.E.terms, a.E.c))
                vs = [a.table[v] for v in r[1]] if r else None
            if vs:
                x, y = k * min(vs) + t.c, k * max(vs) + t.c
                if x > y:
                    x, y = y, x
                lo = x if lo is None else max(lo, x)
                hi = y if hi is None else min(hi, y)
        elif len(t.terms) > 1 and (st.bnd or st.fd):
            l = h = t.c
            for a, k in t.terms:
                al, ah = self.bounds(atomT(a))
                if k < 0:
                    al, ah = ah, al
                l = None if l is None or al is None else l + k * al
                h = None if h is None or ah is None else h + k * ah
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
        return lo, hi

    def decide(self, b):
        """True / False when implied by the path, None when open."""
        if isinstance(b, bool):
            return b
        if b.kind == "fd":
            al = self.allowed(b.a)
            if al <= b.b:
                return True
            if not (al & b.b):
                return False
            return None
        if b.kind == "le":
            r = mk_le0(b.a)
            return r if isinstance(r, bool) else None
        if b.kind in ("eq", "ne"):
            lo, hi = self.bounds(b.a)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return b.kind == "ne"
            if lo == 0 and hi == 0:
                return b.kind == "eq"
            return None
        if b.kind in ("star", "nstar"):
            al = allowed_star(b.a)
            r = None
            if al <= b.b:
                r = True
            elif any(not (x & b.b) for x in exists_star(b.a)):
                r = False
            elif not (al & b.b) and lo_of(b.a.n) >= 1:
                r = False
            elif hi_of(b.a.n) is not None and hi_of(b.a.n) <= 0:
                r = True
            return r if r is None or b.kind == "star" else not r
        if b.kind == "and":
            res = True
            for x in b.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        res = False
        for x in b.a:
            r = self.decide(x)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def linked(self, b):
        """Do other facts on the path talk about the variables of b?"""
        vs = bool_vars(b)
        st = self.st
        if vs & st.zvars:
            return True
        own = (b.a.terms, b.a.c) if b.kind == "fd" else None
        if not vs:
            return False
        for kk, (key, _) in st.fd.items():
            if kk != own and base_vars(key) & vs:
                return True
        return False

    def feasible(self, b):
        """May b hold on this path?  (complete: asks z3 when linked)"""
        d = self.decide(b)
        if d is not None:
            return d
        if self.quick_sat(b):
            return True
        return self.z3_sat(b) is not False

    def quick_sat(self, b):
        """b certainly holds on some instance of the path (no solver needed)."""
        d = self.decide(b)
        if d is not None:
            return d
        if b.kind == "fd":
            return not self.linked(b)
        if b.kind == "star":
            return bool(allowed_star(b.a) & b.b)
        if b.kind in ("le", "eq", "ne"):
            if len(b.a.terms) != 1:
                return False
            a, k = b.a.terms[0]
            if not isinstance(a, IVar) or (b.kind != "le" and abs(k) != 1):
                return False
            # interval facts only: the bounds say everything
            for c in self.st.cons:
                if a in bool_vars(c) and not (c.kind == "le" and len(c.a.terms) == 1 and c.a.terms[0][0] is a):
                    return False
            return not any(a in base_vars(key) for key, _ in self.st.fd.values())
        if b.kind == "or":
            return any(self.quick_sat(x) for x in b.a)
        if b.kind == "and":
            seen = set()
            for x in b.a:
                if not isinstance(x, B):
                    continue
                vs = bool_vars(x)
                if seen & vs or x.kind in ("star", "nstar", "and") or not self.quick_sat(x):
                    return False
                seen |= vs
            return True
        return False

    def asks(self, b):
        """Would feasible() go to the solver?"""
        return not self.quick_sat(b)

    def z3_sat(self, b):
        """z3 verdict on path & b: True, False or None (unknown)."""
        s, br = self.z3_problem(bool_vars(b))
        zb = br.bool(b)
        for d in br.defs:
            s.add(d)
        s.add(zb)
        return self._check(s)

    def _check(self, s):
        t0 = time.time()
        s.set("timeout", 20000)
        r = s.check()
        STATS.z3_calls += 1
        STATS.z3_time += time.time() - t0
        if r == z3.sat:
            return True
        if r == z3.unsat:
            return False
        self.unknown = True
        return None

    def closure(self, vs):
        """Facts transitively connected with the variables vs."""
        facts = [(bool_vars(c), c) for c in self.st.cons]
        facts += [(base_vars(k), B("fd", k, v)) for k, v in self.st.fd.values()]
        vs = set(vs)
        picked, changed = [], True
        rest = facts
        while changed:
            changed = False
            nxt = []
            for fv, c in rest:
                if fv & vs:
                    vs |= fv
                    picked.append(c)
                    changed = True
                else:
                    nxt.append((fv, c))
            rest = nxt
        return picked, vs

    def z3_problem(self, vs=None):
        s = z3.Solver()
        br = Z3Bridge()
        if vs is None:
            facts = list(self.st.cons) + [B("fd", k, v) for k, v in self.st.fd.values()]
        else:
            facts, _ = self.closure(vs)
        for c in facts:
            s.add(br.bool(c))
        return s, br

    # -- assuming ----------------------------------------------------------
    def assume(self, b):
        st = self.st
        self._assume(b)
        while any(c.kind == "or" for c in st.cons):
            new, keep, memo = [], [], {}
            for c in st.cons:
                r = self.reduce(c, memo) if c.kind == "or" else c
                if r is c:
                    keep.append(c)
                elif r is not True:
                    new.append(r)
                else:
                    new.append(True)
            if not new:
                break
            # the simplified facts replace the old ones
            st.cons = keep
            st.zvars = frozenset().union(*[bool_vars(c) for c in keep])
            again = False
            for r in new:
                if isinstance(r, B) and r.kind != "or":
                    again = True
                self._assume(r)
            if not again:
                break

    def reduce(self, b, memo):
        """b simplified by the facts on single keys (b itself if nothing changes)."""
        if isinstance(b, bool):
            return b
        r = memo.get(id(b))
        if r is not None:
            return r
        if b.kind == "fd":
            al = self.allowed(b.a)
            r = True if al <= b.b else False if not (al & b.b) else b
        elif b.kind in ("and", "or"):
            xs = [self.reduce(x, memo) for x in b.a]
            if all(x is y for x, y in zip(xs, b.a)):
                r = b
            else:
                r = mk_and(xs) if b.kind == "and" else mk_or(xs)
        else:
            r = b
        memo[id(b)] = r
        return r

    def _assume(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible()
        st = self.st
        if b.kind == "and":
            for x in b.a:
                self._assume(x)
            return
        if b.kind == "fd":
            s = self.allowed(b.a) & b.b
            if not s:
                raise Infeasible()
            st.fd[(b.a.terms, b.a.c)] = (b.a, s)
            return
        if b.kind in ("star", "nstar"):
            al, ex = allowed_star(b.a), exists_star(b.a)
            if b.kind == "star":
                new = al & b.b
                ex = tuple(x & b.b for x in ex)
                if any(not x for x in ex):
                    raise Infeasible()
                if not new:
                    self._assume(mk_le(b.a.n, 0))
                    return
                st.stars[b.a.uid] = (b.a, new, ex)
            else:
                self._assume(mk_le(1, b.a.n))
                new = al - b.b
                if not new:
                    raise Infeasible()
                st.stars[b.a.uid] = (b.a, al, ex + (new,))
            return
        if b.kind == "or":
            b = self.reduce(b, {})
            if not (isinstance(b, B) and b.kind == "or"):
                self._assume(b)
                return
            h = hull(b, {})
            if h:
                for kk, (key, vals) in h.items():
                    s = self.allowed(key) & vals
                    if not s:
                        raise Infeasible()
                    if s != self.allowed(key):
                        st.fd[kk] = (key, s)
                b = self.reduce(b, {})
                if not (isinstance(b, B) and b.kind == "or"):
                    self._assume(b)
                    return
        st.cons.append(b)
        st.zvars = st.zvars | bool_vars(b)
        if b.kind in ("le", "eq"):
            t = b.a
            t0 = mkT(dict(t.terms), 0)
            neg = t_scale(t0, -1)
            lo, hi = self.bounds(t0)
            nhi = -t.c
            if hi is None or nhi < hi:
                st.bnd[(t0.terms, 0)] = (lo, nhi)
                st.bnd[(neg.terms, 0)] = (-nhi, None if lo is None else -lo)
            if len(t.terms) == 1 and abs(t.terms[0][1]) != 1:
                a, k = t.terms[0]
                self._atom_bound(a, k, nhi)
            if b.kind == "eq":
                lo, hi = self.bounds(t0)
                st.bnd[(t0.terms, 0)] = (-t.c, -t.c)
                st.bnd[(neg.terms, 0)] = (t.c, t.c)
            lo, hi = self.bounds(t0)
            if lo is not None and hi is not None and lo > hi:
                raise Infeasible()

    def _atom_bound(self, a, k, nhi):
        at = atomT(a)
        lo, hi = self.bounds(at)
        neg = t_scale(at, -1)
        if k > 0:
            h = nhi // k
            if hi is None or h < hi:
                hi = h
        else:
            l = -(nhi // -k) if False else -((nhi) // (-k))
            if lo is None or l > lo:
                lo = l
        self.st.bnd[(at.terms, 0)] = (lo, hi)
        self.st.bnd[(neg.terms, 0)] = (None if hi is None else -hi, None if lo is None else -lo)

    # -- deciding ----------------------------------------------------------
    def truth(self, b):
        if isinstance(b, bool):
            return b
        d = self.decide(b)
        if d is not None:
            return d
        nb = mk_not(b)
        d = self.decide(nb)
        if d is not None:
            return not d
        if self.lazy and self.asks(b):
            self.skipped += 1
            if self.choose(2) == 0:
                self.assume(b)
                return True
            self.assume(nb)
            return False
        if not self.feasible(b):
            self.assume_quiet(nb)
            return False
        if not self.feasible(nb):
            self.assume_quiet(b)
            return True
        i = self.choose(2)
        if i == 0:
            self.assume(b)
            return True
        self.assume(nb)
        return False

    def assume_quiet(self, b):
        """Record an implied fact (only the cheap kinds)."""
        if isinstance(b, B) and b.kind in ("fd", "le", "eq"):
            self.assume(b)

    def choose(self, n):
        """n-ary decision of the exploration."""
        if self.trail is None:
            raise Unsupported("fork outside of an exploration")
        i = len(self.trail)
        STATS.forks += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            if len(self.trail) >= self.max_forks:
                raise Unsupported("too many forks on one path")
            for alt in range(n - 1, 0, -1):
                self.pending.append(tuple(self.trail) + (alt,))
        self.trail.append(v)
        return v

    def concretize(self, t):
        """Fork over the possible values of a key-like term."""
        if isinstance(t, int):
            return t
        fd = as_fd(t)
        if fd is None:
            lo, hi = self.bounds(t)
            if lo is not None and lo == hi:
                return lo
            if lo is None or hi is None or hi - lo > 64:
                raise Unsupported(f"symbolic integer used as an index: {t!r}")
            for v in range(lo, hi + 1):
                if self.truth(mk_eq(t, v)):
                    return v
            raise Infeasible()
        key, tab = fd
        vals = sorted({tab[v] for v in self.allowed(key)})
        for x in vals:
            if self.truth(mk_fd(key, [v for v in range(key.hi + 1) if tab[v] == x])):
                return x
        raise Infeasible()

    # -- models ------------------------------------------------------------
    def model(self, extra=None, rng=None, variables=()):
        """A model {IVar: int} of the path (and extra), or None if unsat."""
        st = self.st
        facts = list(st.cons)
        if extra is not None and extra is not True:
            if extra is False:
                return None
            facts.append(extra)
        zv = set()
        for c in facts:
            zv |= bool_vars(c)
        fds = list(st.fd.values())
        # keys over a single variable that nothing else mentions
        use, free = [], []
        count = {}
        for key, vals in fds:
            for v in base_vars(key):
                count[v] = count.get(v, 0) + 1
        for key, vals in fds:
            bv = base_vars(key)
            if len(bv) == 1 and not (bv & zv) and key.terms[0][0] in bv and len(key.terms) == 1 \
                    and key.terms[0][1] == 1 and key.c == 0 and all(count[v] == 1 for v in bv):
                free.append((key, vals))
            else:
                use.append(B("fd", key, vals))
        m = {}
        for key, vals in free:
            a = key.terms[0][0]
            vs = sorted(vals)
            m[a] = rng.choice(vs) if rng else vs[0]
        if facts or use:
            s = z3.Solver()
            br = Z3Bridge()
            zs = [br.bool(c) for c in facts + use]
            for d in br.defs:
                s.add(d)
            for z in zs:
                s.add(z)
            r = self._check(s)
            if r is False:
                return None
            if r is None:
                raise Unsupported("solver gave no answer for a path")
            if rng is not None:
                # try to move the solution to a random place
                for a, v in list(br.vars.items()):
                    if isinstance(a, IVar) and a.hi is not None and a.lo is not None:
                        s.push()
                        x = rng.randint(a.lo, a.hi)
                        s.add(v >= x)
                        if self._check(s) is not True:
                            s.pop()
                        else:
                            break
                self._check(s)
            mod = s.model()
            for a, v in br.vars.items():
                if isinstance(a, IVar):
                    x = mod.eval(v, model_completion=True)
                    m[a] = x.as_long()
        for v in variables:
            a = v.terms[0][0] if isinstance(v, T) else v
            if a not in m:
                lo = a.lo if a.lo is not None else 0
                hi = a.hi if a.hi is not None else lo + 1000
                m[a] = rng.randint(lo, hi) if rng else lo
        return m


CTX = Ctx()
