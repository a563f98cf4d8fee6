"""Symbolic strings ("ropes") and the string operations on them.

A rope is a sequence of atoms:

  str     literal text
  FS      table look-up text: table[key] for a finite-domain key term
  Star    n repetitions of generic elements, each table[e], e from a domain
  Cut     the text of a rope up to (excluding) the first separator character

``mk`` returns a plain python ``str`` when everything is literal.
"""
from __future__ import annotations

import functools
import unicodedata

from .terms import (
    B,
    CTX,
    Infeasible,
    IVar,
    RDig,
    T,
    Unsupported,
    as_fd,
    atomT,
    choose,
    ev,
    fint,
    hi_of,
    is_int,
    allowed_star,
    ivar,
    K,
    lo_of,
    mk_and,
    mk_eq,
    mk_fd,
    mk_le,
    mk_lt,
    mk_not,
    mk_or,
    mkT,
    rdig,
    t_add,
    t_div,
    t_scale,
    t_sub,
)

DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


# --------------------------------------------------------------------- atoms
class FS:
    __slots__ = ("key", "table", "flen", "_h")

    def __init__(self, key, table):
        self.key = key
        self.table = table
        l0 = len(table[0])
        self.flen = l0 if all(len(x) == l0 for x in table) else None
        self._h = hash((key._h, table))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, FS) and self.key.same(o.key) and self.table == o.table

    def __repr__(self):
        return f"<{self.key!r}:{'|'.join(self.table[:3])}..>"


def fs(key, table):
    """Atom (or literal) for table[key]."""
    table = tuple(table)
    t0 = table[0]
    if all(x == t0 for x in table):
        return t0
    return FS(K(key), table)


class StarDom:
    """The family of elements e_0 .. e_{n-1} behind one or more Star atoms."""

    _c = [0]

    def __init__(self, name, size, n):
        self.name = name
        self.size = size
        self.n = n
        self.elems = {}
        self.lens = {}
        self.mode = None     # "any": arbitrary text, questions about it may have either answer
        self.whole = None    # the text that lies outside a regular language
        self.outside = None  # ... given by this pattern
        self.eqs = {}        # comparisons of arbitrary text with literal text
        self.unlike = ()     # literal texts it is known to differ from
        self.settled = {}    # questions about that text: () or strings that show they are open
        StarDom._c[0] += 1
        self.uid = StarDom._c[0]

    def elem(self, i):
        e = self.elems.get(i)
        if e is None:
            e = self.elems[i] = ivar(f"{self.name}[{i}]", 0, self.size - 1)
        return e


class Star:
    __slots__ = ("dom", "table", "flen", "_h")

    def __init__(self, dom, table):
        self.dom = dom
        self.table = table
        al = allowed_star(dom)
        ls = {len(table[i]) for i in al}
        self.flen = ls.pop() if len(ls) == 1 else None
        self._h = hash((dom.uid, table))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Star) or o.dom is not self.dom:
            return False
        if self.table == o.table:
            return True
        return all(self.table[i] == o.table[i] for i in allowed_star(self.dom))

    def __repr__(self):
        return f"<{self.dom.name}*:{'|'.join(self.table[:3])}..>"




class Cut:
    """Text of rope (a tuple of atoms) up to the first occurrence of sep."""

    __slots__ = ("atoms", "sep")

    def __init__(self, atoms, sep):
        self.atoms = atoms
        self.sep = sep

    def __hash__(self):
        return hash((self.atoms, self.sep))

    def __eq__(self, o):
        return isinstance(o, Cut) and o.sep == self.sep and o.atoms == self.atoms

    def __repr__(self):
        return f"<cut {self.atoms!r} at {self.sep!r}>"


class Num:
    """Shortest text of a non-negative integer term in a base."""

    __slots__ = ("t", "base", "upper")

    def __init__(self, t, base, upper=False):
        self.t, self.base, self.upper = K(t), base, upper

    def __hash__(self):
        return hash((self.t._h, self.base))

    def __eq__(self, o):
        return isinstance(o, Num) and o.base == self.base and o.upper == self.upper and o.t.same(self.t)

    def __repr__(self):
        return f"<num {self.t!r} base {self.base}>"


def _ndig(v, b):
    n = 1
    while v >= b**n:
        n += 1
    return n


class Opq:
    """Opaque text determined by a tag and an argument (assumed contract)."""

    __slots__ = ("tag", "arg", "alphabet", "n")

    def __init__(self, tag, arg, alphabet, n):
        self.tag, self.arg, self.alphabet, self.n = tag, arg, alphabet, n

    def __hash__(self):
        return hash((self.tag, self.n))

    def __eq__(self, o):
        return isinstance(o, Opq) and o.tag == self.tag and o.n == self.n and same_rope(self.arg, o.arg)

    def __repr__(self):
        return f"<{self.tag}:{self.n}>"


def same_rope(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a.a == b.a


# --------------------------------------------------------------------- ropes
class S:
    __slots__ = ("a",)

    def __init__(self, atoms):
        self.a = atoms

    def __repr__(self):
        return "S[" + " ".join(repr(x) for x in self.a) + "]"

    def __add__(self, o):
        if isinstance(o, (str, S)):
            return cat(self, o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return cat(o, self)
        return NotImplemented

    def __mul__(self, n):
        n = CTX.concretize(n)
        return cat(*([self] * n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (str, S)):
            return s_eq(self, o)
        return False

    def __ne__(self, o):
        return mk_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        return CTX.truth(s_nonempty(self))

    def __len__(self):
        return CTX.concretize(s_len(self))

    def __getitem__(self, i):
        return s_getitem(self, i)

    def __iter__(self):
        return iter(s_chars(self))

    def __contains__(self, x):
        return CTX.truth(s_contains(self, x))

    def __str__(self):
        raise Unsupported("native str() of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic string")

    def _cmp(self, o):
        raise Unsupported("ordering of symbolic strings")

    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = METHODS.get(name)
        if m is None:
            if hasattr(str, name):
                raise Unsupported(f"str.{name} of a symbolic string")
            raise AttributeError(f"'str' object has no attribute '{name}'")
        return lambda *a, **k: m(self, *a, **k)


def is_str(x):
    return isinstance(x, (str, S))


def atoms_of(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.a


def mk(atoms):
    """Normalising constructor (merges literals and same-key neighbours)."""
    out = []
    for x in atoms:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + x
                continue
        elif isinstance(x, FS):
            if out and isinstance(out[-1], FS) and out[-1].key.same(x.key):
                p = out[-1]
                y = fs(p.key, [a + b for a, b in zip(p.table, x.table)])
                out.pop()
                if isinstance(y, str):
                    if y:
                        if out and isinstance(out[-1], str):
                            out[-1] += y
                        else:
                            out.append(y)
                else:
                    out.append(y)
                continue
        out.append(x)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return S(tuple(out))


def cat(*ss):
    if all(isinstance(s, str) for s in ss):
        return "".join(ss)
    l = []
    for s in ss:
        l.extend(atoms_of(s))
    return mk(l)


def FSs(key, table):
    """Rope for table[key]."""
    return mk([fs(key, table)])


def norm(s):
    """Simplify under the facts of the current path."""
    if isinstance(s, str):
        return s
    st = CTX.st
    if not st.fd and not st.bnd and not st.cons and not st.stars:
        return s
    out, changed = [], False
    for x in s.a:
        y = norm_atom(x)
        if y is not x:
            changed = True
        if isinstance(y, tuple):
            out.extend(y)
        else:
            out.append(y)
    return mk(out) if changed else s


def norm_atom(x):
    if isinstance(x, FS):
        r = CTX.st.fd.get((x.key.terms, x.key.c))
        if r is not None:
            it = iter(r[1])
            v = x.table[next(it)]
            if all(x.table[i] == v for i in it):
                return v
        if len(x.key.terms) == 1 and (CTX.st.bnd or CTX.st.fd):
            a = x.key.terms[0][0]
            if isinstance(a, RDig) and x.key.c == 0 and x.key.terms[0][1] == 1:
                lo, hi = CTX.bounds(a.E)
                if lo is not None and hi is not None and lo >= 0 and lo // a.b**a.k == hi // a.b**a.k:
                    return x.table[(lo // a.b**a.k) % a.b]
    elif isinstance(x, Star):
        lo, hi = bounds_of(x.dom.n)
        if hi is not None and hi <= 0:
            return ()
        if lo is not None and lo == hi and lo <= 200:
            return star_expand(x, lo)
    elif isinstance(x, Num):
        lo, hi = CTX.bounds(x.t)
        if lo is not None and hi is not None and 0 <= lo and _ndig(lo, x.base) == _ndig(hi, x.base):
            return tuple(atoms_of(int_digits(x.t, x.base, _ndig(lo, x.base), x.upper)))
    return x


def bounds_of(t):
    return (t, t) if isinstance(t, int) else CTX.bounds(t)


def star_expand(x, n):
    out = []
    al = CTX.st.stars.get(x.dom.uid)
    for i in range(n):
        e = x.dom.elem(i)
        if al is not None:
            CTX.assume(mk_fd(e, al[1]))
        out.append(fs(e, x.table))
    if al is not None and al[2]:
        # some element lies outside each "exists" set
        for bad in al[2]:
            CTX.assume(mk_or([mk_fd(x.dom.elem(i), bad) for i in range(n)]))
    return tuple(out)


# -------------------------------------------------------------------- lengths
def atom_len(x):
    if isinstance(x, str):
        return len(x)
    if isinstance(x, FS):
        if x.flen is not None:
            return x.flen
        return fint(x.key, [len(y) for y in x.table])
    if isinstance(x, Star):
        if x.flen is not None:
            return t_scale(x.dom.n, x.flen)
        lens = tuple(len(y) for y in x.table)
        v = x.dom.lens.get(lens)
        if v is None:
            v = x.dom.lens[lens] = ivar(f"len({x.dom.name},{len(x.dom.lens)})", 0, None)
        al = allowed_star(x.dom)
        CTX.assume_quiet(mk_le(t_scale(x.dom.n, min(lens[i] for i in al)), v))
        CTX.assume_quiet(mk_le(v, t_scale(x.dom.n, max(lens[i] for i in al))))
        return v
    if isinstance(x, Opq):
        return x.n
    raise Unsupported("length of a cut string")


def s_len(s):
    if isinstance(s, str):
        return len(s)
    s = resolve_cuts(s)
    n = 0
    for x in atoms_of(s):
        n = t_add(n, atom_len(x))
    return n


def s_nonempty(s):
    if isinstance(s, str):
        return bool(s)
    if any(isinstance(x, Num) for x in s.a):
        return True
    s = resolve_cuts(s)
    conds = []
    for x in atoms_of(s):
        if isinstance(x, str):
            return True
        if isinstance(x, FS):
            conds.append(mk_fd(x.key, [i for i, y in enumerate(x.table) if y]))
        else:
            conds.append(mk_lt(0, atom_len(x)))
    return mk_or(conds)


def fix_len(x):
    """Fork until the atom has a known length (FS) or is expanded (Star)."""
    if isinstance(x, FS) and x.flen is None:
        al = CTX.allowed(x.key)
        ls = sorted({len(x.table[i]) for i in al})
        for l in ls[:-1]:
            if CTX.truth(mk_fd(x.key, [i for i, y in enumerate(x.table) if len(y) == l])):
                return restricted(x, l)
        return restricted(x, ls[-1])
    if isinstance(x, Star):
        lo, hi = bounds_of(x.dom.n)
        if lo is None or hi is None or hi - lo > 64 or hi > 200:
            n = force_bounds(x.dom.n)
        else:
            n = CTX.concretize(x.dom.n)
        return mk(star_expand(x, n))
    if isinstance(x, Cut):
        return resolve_cut(x)
    if isinstance(x, Num):
        return int_digits(x.t, x.base, 0, x.upper, force=True)
    return mk([x])


def force_bounds(n):
    """Try to bound a repetition count with the solver, then fork on it."""
    lo, hi = bounds_of(n)
    for cap in (8, 16, 32, 64, 128):
        if not CTX.feasible(mk_lt(cap, n)):
            CTX.assume_quiet(mk_le(n, cap))
            for v in range(max(lo or 0, 0), cap + 1):
                if CTX.truth(mk_eq(n, v)):
                    return v
            raise Infeasible()
    raise Unsupported("unbounded repetition needs to be expanded")


def restricted(x, l):
    """x with table entries of other lengths replaced (unreachable)."""
    return mk([fs(x.key, [y if len(y) == l else next(z for z in x.table if len(z) == l) for y in x.table])])


def resolve_cut(c):
    """Fork over the position of the first separator."""
    out = []
    rest = list(c.atoms)
    while rest:
        x = rest.pop(0)
        if isinstance(x, str):
            i = x.find(c.sep)
            if i >= 0:
                out.append(x[:i])
                return mk(out)
            out.append(x)
        elif isinstance(x, FS):
            has = [i for i, y in enumerate(x.table) if c.sep in y]
            if has and CTX.truth(mk_fd(x.key, has)):
                out.append(fs(x.key, [y.split(c.sep)[0] if c.sep in y else x.table[has[0]].split(c.sep)[0]
                                      for y in x.table]))
                return mk(out)
            ok = next((y for y in x.table if c.sep not in y), None)
            out.append(fs(x.key, [y if c.sep not in y else ok for y in x.table]))
        elif isinstance(x, Star):
            al = allowed_star(x.dom)
            if not any(c.sep in x.table[i] for i in al):
                out.append(x)
                continue
            y = fix_len(x)
            rest = list(atoms_of(y)) + rest
        elif isinstance(x, Opq) and c.sep not in x.alphabet:
            out.append(x)
        else:
            raise Unsupported("nested cut")
    return mk(out)


def resolve_cuts(s):
    if isinstance(s, str) or not any(isinstance(x, (Cut, Num)) for x in s.a):
        return s
    out = []
    for x in s.a:
        if isinstance(x, (Cut, Num)):
            out.extend(atoms_of(fix_len(x)))
        else:
            out.append(x)
    return mk(out)


# ------------------------------------------------------------------- indexing
def _walk(atoms, idx):
    """Locate position idx (int or term): (atom index, offset inside)."""
    pos = 0
    for j, x in enumerate(atoms):
        d = t_sub(idx, pos)
        if isinstance(d, int):
            if d == 0:
                return j, 0
            if d < 0:
                raise Unsupported("position inside a variable-length atom")
            mn = min_len(x)
            if isinstance(x, (Cut, Num)):
                raise Unsupported("position beyond a cut")
            if (x.flen if not isinstance(x, (str, Opq)) else atom_len(x)) is None or isinstance(x, Star):
                if d < mn:
                    return j, d
            elif d < atom_len(x):
                return j, d
        pos = t_add(pos, atom_len(x))
    d = t_sub(idx, pos)
    if isinstance(d, int) and d == 0:
        return len(atoms), 0
    if isinstance(d, int) and d > 0:
        return len(atoms), 0
    return None


def min_len(x):
    if isinstance(x, str):
        return len(x)
    if isinstance(x, FS):
        return min(len(x.table[i]) for i in CTX.allowed(x.key))
    if isinstance(x, Star):
        lo, _ = bounds_of(x.dom.n)
        return max(lo or 0, 0) * min(len(x.table[i]) for i in allowed_star(x.dom))
    if isinstance(x, Opq):
        return x.n
    return 0


def _simple(s):
    """Make every atom's length known (forks); literal and fixed FS only."""
    s = norm(s)
    while not isinstance(s, str):
        for j, x in enumerate(s.a):
            if isinstance(x, (Star, Cut, Num)) or (isinstance(x, FS) and x.flen is None):
                y = fix_len(x)
                s = norm(mk(s.a[:j] + atoms_of(y) + s.a[j + 1:]))
                break
        else:
            return s
    return s


def drop(s, i):
    """s[i:] for i >= 0."""
    if isinstance(i, int) and i == 0:
        return s
    s = norm(s)
    if isinstance(s, str):
        if isinstance(i, T):
            i = CTX.concretize(i)
        return s[i:]
    atoms = s.a
    if isinstance(i, int):
        # drop as much as possible without knowing variable lengths
        k = 0
        while atoms and i > 0:
            x = atoms[0]
            if isinstance(x, str):
                if len(x) <= i:
                    i -= len(x)
                    atoms = atoms[1:]
                    continue
                return mk((x[i:],) + atoms[1:])
            if isinstance(x, FS):
                ls = {len(x.table[v]) for v in CTX.allowed(x.key)}
                if len(ls) == 1 and x.flen is None:
                    atoms = atoms_of(restricted(x, ls.pop())) + atoms[1:]
                    continue
                if max(ls) <= i and len(ls) == 1:
                    i -= max(ls)
                    atoms = atoms[1:]
                    continue
                if min(ls) >= i:
                    return mk((fs(x.key, [y[i:] for y in x.table]),) + atoms[1:])
                y = fix_len(x)
                atoms = atoms_of(norm(mk(atoms_of(y) + atoms[1:])))
                continue
            if isinstance(x, Opq):
                if x.n <= i:
                    i -= x.n
                    atoms = atoms[1:]
                    continue
                raise Unsupported("slice of opaque text")
            y = fix_len(x)
            atoms = atoms_of(norm(mk(atoms_of(y) + atoms[1:])))
        return mk(atoms)
    w = _walk_t(s, i)
    if w is not None:
        j, off = w
        return drop(mk(atoms[j:]), off)
    return drop(s, CTX.concretize(i))


def take(s, i):
    """s[:i] for i >= 0."""
    s = norm(s)
    if isinstance(s, str):
        if isinstance(i, T):
            i = CTX.concretize(i)
        return s[:i]
    atoms = s.a
    if isinstance(i, int):
        out = []
        atoms = list(atoms)
        while atoms and i > 0:
            x = atoms.pop(0)
            if isinstance(x, str):
                out.append(x[:i])
                i -= len(x)
                continue
            if isinstance(x, FS):
                ls = {len(x.table[v]) for v in CTX.allowed(x.key)}
                if len(ls) == 1:
                    l = ls.pop()
                    if x.flen is None:
                        x = atoms_of(restricted(x, l))
                        x = x[0] if x else ""
                        if isinstance(x, str):
                            out.append(x[:i])
                            i -= len(x)
                            continue
                    out.append(x if l <= i else fs(x.key, [y[:i] for y in x.table]))
                    i -= l
                    continue
                if min(ls) >= i:
                    out.append(fs(x.key, [y[:i] for y in x.table]))
                    return mk(out)
                if not atoms and max(ls) <= i:
                    out.append(x)
                    return mk(out)
                y = norm(fix_len(x))
                atoms = list(atoms_of(y)) + [a if isinstance(a, str) else a for a in atoms]
                atoms = list(atoms_of(norm(mk(atoms))))
                continue
            if isinstance(x, Opq):
                if x.n <= i:
                    out.append(x)
                    i -= x.n
                    continue
                raise Unsupported("slice of opaque text")
            if isinstance(x, Star) and not atoms and hi_of(atom_len(x)) is not None and hi_of(atom_len(x)) <= i:
                out.append(x)
                return mk(out)
            if isinstance(x, Star) and x.flen == 1 and (lo_of(x.dom.n) or 0) >= i:
                al = CTX.st.stars.get(x.dom.uid)
                for j in range(i):
                    e = x.dom.elem(j)
                    if al is not None:
                        CTX.assume(mk_fd(e, al[1]))
                    out.append(fs(e, x.table))
                return mk(out)
            y = fix_len(x)
            atoms = list(atoms_of(norm(mk(list(atoms_of(y)) + atoms))))
        return mk(out)
    w = _walk_t(s, i)
    if w is not None:
        j, off = w
        return cat(mk(atoms[:j]), take(mk(atoms[j:]), off))
    return take(s, CTX.concretize(i))


def _walk_t(s, i):
    """Position of a symbolic index equal to a prefix length plus a constant."""
    pos = 0
    best = None
    for j, x in enumerate(s.a):
        d = t_sub(i, pos)
        if isinstance(d, int) and d >= 0:
            best = (j, d)
        if isinstance(x, (Cut, Num)):
            break
        pos = t_add(pos, atom_len(x))
    d = t_sub(i, pos)
    if isinstance(d, int) and d >= 0:
        best = (len(s.a), 0)
    return best


def s_getitem(s, i):
    if moded(s) is not None and not isinstance(i, slice):
        try:
            return _getitem(s, i)
        except Unsupported:
            if choose("index out of range"):
                raise IndexError("string index out of range")
            return any_of(s)
    return _getitem(s, i)


def _getitem(s, i):
    if isinstance(i, slice):
        return s_slice(s, i.start, i.stop, i.step)
    n = None
    if is_int(i):
        neg = i < 0 if isinstance(i, int) else CTX.truth(mk_lt(i, 0))
        if neg:
            if not isinstance(i, int):
                i = CTX.concretize(i)
            t = take_last(s, -i)
            ln = s_len(t)
            if CTX.truth(mk_lt(ln, -i)):
                raise IndexError("string index out of range")
            return take(t, 1)
        t = drop(s, i)
        if not CTX.truth(s_nonempty(t)):
            raise IndexError("string index out of range")
        return take(t, 1)
    raise TypeError(f"string indices must be integers, not '{type(i).__name__}'")


def take_last(s, k):
    """The last k characters (or all when shorter)."""
    if k == 0:
        return ""
    s = norm(s)
    if isinstance(s, str):
        return s[-k:]
    out = []
    atoms = list(s.a)
    while atoms and k > 0:
        x = atoms.pop()
        if isinstance(x, str):
            out.append(x[-k:])
            k -= len(x)
            continue
        if isinstance(x, FS):
            ls = {len(x.table[v]) for v in CTX.allowed(x.key)}
            if len(ls) == 1:
                l = ls.pop()
                if x.flen is None:
                    x = atoms_of(restricted(x, l))
                    x = x[0] if x else ""
                if isinstance(x, str):
                    out.append(x[-k:])
                    k -= len(x)
                    continue
                out.append(x if l <= k else fs(x.key, [y[-k:] for y in x.table]))
                k -= l
                continue
            if min(ls) >= k:
                out.append(fs(x.key, [y[-k:] for y in x.table]))
                break
            y = norm(fix_len(x))
            atoms = list(atoms_of(norm(mk(atoms + list(atoms_of(y))))))
            continue
        if isinstance(x, Opq):
            if x.n <= k:
                out.append(x)
                k -= x.n
                continue
            raise Unsupported("slice of opaque text")
        y = fix_len(x)
        atoms = list(atoms_of(norm(mk(atoms + list(atoms_of(y))))))
    return mk(out[::-1])


def drop_last(s, k):
    """s[:-k] for k >= 0 (k == 0 keeps everything)."""
    s = norm(s)
    if isinstance(s, str):
        return s[: len(s) - k] if k <= len(s) else ""
    atoms = list(s.a)
    while atoms and k > 0:
        x = atoms.pop()
        if isinstance(x, str):
            if len(x) > k:
                atoms.append(x[:-k])
                k = 0
            else:
                k -= len(x)
            continue
        if isinstance(x, FS):
            ls = {len(x.table[v]) for v in CTX.allowed(x.key)}
            if len(ls) == 1:
                l = ls.pop()
                if x.flen is None:
                    x = atoms_of(restricted(x, l))
                    x = x[0] if x else ""
                if isinstance(x, str):
                    atoms.append(x)
                    if not x:
                        atoms.pop()
                    continue
                if l <= k:
                    k -= l
                else:
                    atoms.append(fs(x.key, [y[:-k] for y in x.table]))
                    k = 0
                continue
            if min(ls) >= k:
                atoms.append(fs(x.key, [y[:-k] if k else y for y in x.table]))
                k = 0
                break
            y = norm(fix_len(x))
            atoms = list(atoms_of(norm(mk(atoms + list(atoms_of(y))))))
            continue
        if isinstance(x, Opq):
            if x.n <= k:
                k -= x.n
                continue
            raise Unsupported("slice of opaque text")
        y = fix_len(x)
        atoms = list(atoms_of(norm(mk(atoms + list(atoms_of(y))))))
    return mk(atoms)


def moded(s):
    """The family of arbitrary text in a rope, if any."""
    if isinstance(s, S):
        for x in s.a:
            if isinstance(x, Star) and x.dom.mode:
                return x.dom
    return None


def havocked(v):
    """An integer that is not known at all."""
    return any(isinstance(a, IVar) and a.name == "havoc int" for a, _ in v.terms)


def any_of(s):
    """Any text over the characters that occur in a rope."""
    al = set()
    for x in s.a:
        if isinstance(x, str):
            al |= set(x)
        elif isinstance(x, (FS, Star)):
            for t in x.table:
                al |= set(t)
        else:
            raise Unsupported("alphabet of a rope")
    return any_text("any", sorted(al))


def or_any(f):
    """Text operations on arbitrary text that cannot be followed may give any text."""
    @functools.wraps(f)
    def g(s, *a, **k):
        if moded(s) is None:
            return f(s, *a, **k)
        try:
            return f(s, *a, **k)
        except Unsupported:
            return any_of(s)
    return g


def any_text(name, alphabet):
    """Text of unknown length and contents."""
    dom = StarDom(name, len(alphabet), ivar(name + "#", 0, None))
    dom.mode = "any"
    CTX.st.havoc = True
    return S((Star(dom, tuple(alphabet)),))


@or_any
def s_slice(s, a, b, step):
    if step is not None and not isinstance(step, int):
        step = CTX.concretize(step)
    for v in (a, b):
        if v is not None and not is_int(v):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    if step not in (None, 1):
        s = _simple(s)
        if isinstance(s, str):
            return s[a:b:step]
        cells = s_chars(s)
        a = None if a is None else CTX.concretize(a)
        b = None if b is None else CTX.concretize(b)
        return cat(*cells[a:b:step]) if cells[a:b:step] else ""

    def sign(v):
        if isinstance(v, int):
            return v < 0
        return CTX.truth(mk_lt(v, 0))

    a = 0 if a is None else a
    an, bn = sign(a), b is not None and sign(b)
    if an and not isinstance(a, int):
        a = CTX.concretize(a)
    if bn and not isinstance(b, int):
        b = CTX.concretize(b)
    if b is not None and bn:
        if an:
            t = take_last(s, -a)
            return drop_last(t, -b)
        # s[a:-k]: remove the tail first (may leave less than a characters)
        return drop(drop_last(s, -b), a)
    if an:
        if b is None:
            return take_last(s, -a)
        n = s_len(s)
        start = t_add(n, a)
        if CTX.truth(mk_lt(start, 0)):
            start = 0
        a = start
    if b is None:
        return drop(s, a)
    w = t_sub(b, a)
    if isinstance(w, int):
        return take(drop(s, a), w) if w > 0 else ""
    return drop(take(s, b), a)


def s_chars(s):
    """List of one-character ropes."""
    s = _simple(s)
    if isinstance(s, str):
        return list(s)
    out = []
    for x in s.a:
        if isinstance(x, str):
            out.extend(x)
        elif isinstance(x, FS):
            for i in range(x.flen):
                out.append(mk([fs(x.key, [y[i] for y in x.table])]))
        else:
            raise Unsupported("characters of opaque text")
    return out


# ------------------------------------------------------------------- equality
def s_eq(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, S) and isinstance(b, S) and a.a == b.a:
        return True
    if a == "" if isinstance(a, str) else b == "" if isinstance(b, str) else False:
        return mk_not(s_nonempty(b if isinstance(a, str) else a))
    a, b = resolve_cuts(a), resolve_cuts(b)
    return _eq(list(atoms_of(a)), list(atoms_of(b)))


def _flen(x):
    if isinstance(x, str):
        return len(x)
    if isinstance(x, FS):
        return x.flen
    if isinstance(x, Opq):
        return x.n
    return None


def _all_fixed(l):
    return all(_flen(x) is not None for x in l)


def _same_shape(x, y):
    """Two variable-length table atoms of one key with equal lengths throughout."""
    return (
        isinstance(x, FS)
        and isinstance(y, FS)
        and x.key.same(y.key)
        and all(len(x.table[v]) == len(y.table[v]) for v in CTX.allowed(x.key))
    )


_codes: dict = {}


def _prefix_code(x, y):
    """No text of one table atom is a proper prefix of a text of either."""
    if not (isinstance(x, FS) and isinstance(y, FS)):
        return False
    texts = frozenset([x.table[v] for v in CTX.allowed(x.key)] + [y.table[v] for v in CTX.allowed(y.key)])
    r = _codes.get(texts)
    if r is None:
        l = sorted(texts)
        r = _codes[texts] = bool(l) and l[0] != "" and not any(q.startswith(p) for p, q in zip(l, l[1:]))
    return r


def _eq_token(x, y):
    """Equality of the token of two table atoms (lengths may vary)."""
    xs = {x.table[v] for v in CTX.allowed(x.key)}
    ys = {y.table[v] for v in CTX.allowed(y.key)}
    if not (xs & ys):
        return False
    ids = {t: i for i, t in enumerate(sorted(set(x.table) | set(y.table)))}
    return mk_eq(fint(x.key, [ids[t] for t in x.table]), fint(y.key, [ids[t] for t in y.table]))


def _eq(a, b):
    conds = []
    while a and b and a[0] == b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] == b[-1]:
        a, b = a[:-1], b[:-1]
    if not a and not b:
        return True
    if not a or not b:
        r = mk(a or b)
        return mk_not(s_nonempty(r))
    # single common key: compare tables directly
    ka = [x for x in a + b if not isinstance(x, str)]
    if not ka:
        return "".join(a) == "".join(b)
    if all(isinstance(x, FS) and x.key.same(ka[0].key) for x in ka):
        n = ka[0].key.hi + 1
        good = []
        for v in range(n):
            sa = "".join(x if isinstance(x, str) else x.table[v] for x in a)
            sb = "".join(x if isinstance(x, str) else x.table[v] for x in b)
            if sa == sb:
                good.append(v)
        return mk_fd(ka[0].key, good)
    if len(a) == len(b) == 1 and isinstance(a[0], Opq) and isinstance(b[0], Opq) and a[0].tag == b[0].tag:
        return s_eq(a[0].arg, b[0].arg)    # the encodings are injective
    if any(isinstance(x, Opq) for x in ka):
        raise Unsupported("comparison of opaque text")
    # walk while both heads have a fixed length
    while a and b:
        x, y = a[0], b[0]
        if x == y:
            a, b = a[1:], b[1:]
            continue
        lx, ly = _flen(x), _flen(y)
        if _same_shape(x, y):
            c = mk_fd(x.key, [v for v in range(x.key.hi + 1) if x.table[v] == y.table[v]])
            if c is False:
                return False
            conds.append(c)
            a, b = a[1:], b[1:]
            continue
        if (lx is None or ly is None) and _prefix_code(x, y):
            c = _eq_token(x, y)
            if c is False:
                return False
            conds.append(c)
            a, b = a[1:], b[1:]
            continue
        if lx is None or ly is None:
            break
        l = min(lx, ly)
        hx, tx = _split(x, l)
        hy, ty = _split(y, l)
        c = _eq_atom(hx, hy)
        if c is False:
            return False
        conds.append(c)
        a = ([tx] if tx else []) + a[1:]
        b = ([ty] if ty else []) + b[1:]
    if not a and not b:
        return mk_and(conds)
    if not a or not b:
        conds.append(mk_not(s_nonempty(mk(a or b))))
        return mk_and(conds)
    # and from the end
    while a and b:
        x, y = a[-1], b[-1]
        if x == y:
            a, b = a[:-1], b[:-1]
            continue
        lx, ly = _flen(x), _flen(y)
        if _same_shape(x, y):
            c = mk_fd(x.key, [v for v in range(x.key.hi + 1) if x.table[v] == y.table[v]])
            if c is False:
                return False
            conds.append(c)
            a, b = a[:-1], b[:-1]
            continue
        if lx is None or ly is None:
            break
        l = min(lx, ly)
        tx, hx = _split(x, lx - l)
        ty, hy = _split(y, ly - l)
        c = _eq_atom(hx, hy)
        if c is False:
            return False
        conds.append(c)
        a = a[:-1] + ([tx] if tx else [])
        b = b[:-1] + ([ty] if ty else [])
    if not a and not b:
        return mk_and(conds)
    if not a or not b:
        conds.append(mk_not(s_nonempty(mk(a or b))))
        return mk_and(conds)
    pre = mk_and(conds)
    if pre is False or CTX.decide(pre) is False:
        return False
    # lengths that can never agree
    d = t_sub(s_len(mk(a)), s_len(mk(b)))
    if not isinstance(d, int):
        ne = CTX.decide(mk_eq(d, 0))
        if ne is False:
            return False
    elif d:
        return False
    # two stars over the same family or a star against literal text
    if len(a) == 1 and len(b) == 1 and isinstance(a[0], Star) and isinstance(b[0], Star) and a[0].dom is b[0].dom:
        same = frozenset(i for i in range(a[0].dom.size) if a[0].table[i] == b[0].table[i])
        if a[0].flen is not None and a[0].flen == b[0].flen:
            conds.append(star_all(a[0].dom, same))
            return mk_and(conds)
    if all(isinstance(x, str) for x in b) or all(isinstance(x, str) for x in a):
        lit, sym = ("".join(b), a) if all(isinstance(x, str) for x in b) else ("".join(a), b)
        if len(sym) == 1 and isinstance(sym[0], Star) and (sym[0].flen == 1 or sym[0].dom.mode):
            x = sym[0]
            if x.dom.mode:
                if lit in x.dom.unlike:
                    return False
                CTX.st.havoc = True
                which, known = x.dom.eqs.setdefault(x.table, (ivar("havoc which", 0, 255), {}))
                if known.setdefault(lit, len(known)) > 254:
                    raise Unsupported("too many comparisons of arbitrary text")
                return mk_and(conds + [mk_fd(which, [known[lit]])])
            conds.append(mk_eq(x.dom.n, len(lit)))
            conds += [mk_fd(x.dom.elem(i), [v for v in allowed_star(x.dom) if x.table[v] == c])
                      for i, c in enumerate(lit)]
            return mk_and(conds)
        from . import rx

        conds.append(rx.lit_match(lit, mk(sym)))
        return mk_and(conds)
    # fork on lengths
    for side in (a, b):
        for j, x in enumerate(side):
            if _flen(x) is None:
                y = fix_len(x)
                side2 = list(atoms_of(norm(mk(tuple(side[:j]) + atoms_of(y) + tuple(side[j + 1:])))))
                if side is a:
                    a = side2
                else:
                    b = side2
                a = list(atoms_of(norm(mk(a))))
                b = list(atoms_of(norm(mk(b))))
                conds.append(_eq(a, b))
                return mk_and(conds)
    raise Unsupported("string comparison")


def _split(x, l):
    """(first l characters, rest) of a fixed length atom; '' for nothing."""
    if isinstance(x, str):
        return x[:l], x[l:]
    if l == 0:
        return "", x
    if l == x.flen:
        return x, ""
    return fs(x.key, [y[:l] for y in x.table]), fs(x.key, [y[l:] for y in x.table])


_strids: dict = {}


def _sid(s):
    r = _strids.get(s)
    if r is None:
        r = _strids[s] = len(_strids)
    return r


def _code(s):
    # single characters: numeric code so that digits stay linear
    if len(s) == 1:
        return ord(s)
    if s.isdigit() and s.isascii() and len(s) < 12:
        return int(s)
    return 1 << 40 | _sid(s)


def _eq_atom(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, str):
        x, y = y, x
    if isinstance(y, str):
        return mk_fd(x.key, [i for i, t in enumerate(x.table) if t == y])
    if x.key.same(y.key):
        return mk_fd(x.key, [i for i, (p, q) in enumerate(zip(x.table, y.table)) if p == q])
    if x.flen == 1 or (x.flen == y.flen and all(t.isdigit() and t.isascii() for t in x.table + y.table)):
        if x.flen == 1:
            f = ord
        else:
            f = int
        xs = {x.table[v] for v in CTX.allowed(x.key)}
        ys = {y.table[v] for v in CTX.allowed(y.key)}
        if not (xs & ys):
            return False
        tx, ty = fint(x.key, [f(t) for t in x.table]), fint(y.key, [f(t) for t in y.table])
        if f is ord and all(t.isdigit() and t.isascii() for t in x.table + y.table):
            tx, ty = fint(x.key, [int(t) for t in x.table]), fint(y.key, [int(t) for t in y.table])
        return mk_eq(tx, ty)
    # compare character by character
    cs = []
    for i in range(x.flen):
        cs.append(_eq_atom(fs(x.key, [t[i] for t in x.table]), fs(y.key, [t[i] for t in y.table])))
    return mk_and(cs)


def star_all(dom, ok):
    """Boolean: every element of the family lies in ok."""
    al = allowed_star(dom)
    if al <= ok:
        return True
    if not (al & ok):
        return mk_le(dom.n, 0)
    return B("star", dom, frozenset(ok))


# ------------------------------------------------------ int() and formatting
def digit_values(x, base):
    """Per-character digit terms of an atom, or None when a value is no digit."""
    out = []
    if isinstance(x, str):
        for ch in x:
            try:
                out.append(int(ch, base))
            except ValueError:
                return None
        return out
    if isinstance(x, FS):
        al = CTX.allowed(x.key)
        for i in range(x.flen):
            tab = []
            for v, t in enumerate(x.table):
                try:
                    tab.append(int(t[i], base))
                except ValueError:
                    if v in al:
                        return None
                    tab.append(0)
            out.append(fint(x.key, tab))
        return out
    return None


def s_to_int(s, base=10):
    if isinstance(s, str):
        return int(s, base)
    if moded(s) is not None:
        # contract of int(text, base): some integer, or ValueError
        if choose("int() fails"):
            raise ValueError(f"invalid literal for int() with base {base}: <symbolic>")
        return ivar("havoc int", None, None)
    if len(s.a) == 1 and isinstance(s.a[0], Num) and s.a[0].base == base:
        return s.a[0].t
    s = norm(resolve_cuts(s))
    if isinstance(s, str):
        return int(s, base)
    # one key: table through CPython itself
    if all(isinstance(x, str) or (isinstance(x, FS) and x.key.same(_first_fs(s).key)) for x in s.a) and _first_fs(s):
        key = _first_fs(s).key
        tab, bad = [], []
        for v in range(key.hi + 1):
            t = "".join(x if isinstance(x, str) else x.table[v] for x in s.a)
            try:
                tab.append(int(t, base))
            except ValueError:
                tab.append(0)
                bad.append(v)
        if bad and CTX.truth(mk_fd(key, bad)):
            raise ValueError(f"invalid literal for int() with base {base}: <symbolic>")
        good = [v for v in range(key.hi + 1) if v not in set(bad)]
        if bad:
            g0 = tab[good[0]]
            for v in bad:
                tab[v] = g0
        return recompose(fint(key, tab))
    # general shape: digits only (anything else forks off as ValueError)
    from . import rx

    if any(isinstance(x, Star) for x in s.a):
        allb = []
        for x in s.a:
            if isinstance(x, Star):
                if x.flen != 1:
                    raise Unsupported("int() of a star of tokens")
                okset = frozenset(i for i, t in enumerate(x.table) if _isdig(t, base))
                allb.append(star_all(x.dom, okset))
        c = mk_and(allb)
        if c is not True and not CTX.truth(c):
            return s_to_int(_simple(s), base)
        n = s_len(s)
        if base == 10 and not CTX.truth(mk_le(n, 4300)):
            raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
        lo, hi = bounds_of(n)
        if hi is None or hi > 60:
            return star_int(s, base)
        return s_to_int(_simple(s), base)
    s = _simple(s)
    if isinstance(s, str):
        return int(s, base)
    digs = []
    for x in s.a:
        d = digit_values(x, base)
        if d is None:
            pat = {2: "[01]+", 10: "[0-9]+", 16: "[0-9a-fA-F]+"}.get(base)
            if pat is None:
                raise Unsupported("int() base")
            ok = rx.rx_fullmatch(rx.compile_rx(pat), s)
            if CTX.truth(ok):
                return s_to_int(norm(s), base)
            return _int_odd(s, base)
        digs.extend(d)
    if base == 10 and len(digs) > 4300:
        raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
    d = {}
    c = 0
    p = 1
    for t in reversed(digs):
        if isinstance(t, int):
            c += t * p
        else:
            c += t.c * p
            for a, k in t.terms:
                d[a] = d.get(a, 0) + k * p
        p *= base
    return recompose(mkT(d, c))


def _isdig(ch, base):
    try:
        int(ch, base)
        return ch.isascii()
    except ValueError:
        return False


def _int_odd(s, base):
    """int() of text that is not plain digits: rejection, or odd literal text around plain digits."""
    # signs, underscores, blanks and non-ascii digits are accepted by int()
    odd = set("+-_ \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0")
    if base == 16:
        odd |= set("xX")
    if base == 2:
        odd |= set("bB")

    def strange(t):
        return any(ch in odd or (ord(ch) > 127 and (ch.isdigit() or ch.isspace())) for ch in t)

    if any(strange(x) for x in s.a if isinstance(x, str)):
        return _int_affixed(s, base)
    for x in s.a:
        if not isinstance(x, str) and any(strange(x.table[v]) for v in CTX.allowed(x.key)):
            raise Unsupported("int() of text with signs or blanks")
    raise ValueError(f"invalid literal for int() with base {base}: <symbolic>")


def _int_affixed(s, base):
    """int() of plain symbolic digits mixed with odd literal characters.

    Whether CPython accepts the text does not depend on the symbolic digits
    when it gives the same answer for all of them being 0 and being 1.
    """
    parts = []
    for x in s.a:
        if isinstance(x, str):
            parts.append(x)
            continue
        ts = {x.table[v] for v in CTX.allowed(x.key)}
        if len({len(t) for t in ts}) != 1 or not all(_isdig(ch, base) for t in ts for ch in t):
            raise Unsupported("int() of text with signs or blanks")
        parts.append(len(min(ts)))
    answers = set()
    for d in "01":
        try:
            int("".join(p if isinstance(p, str) else d * p for p in parts), base)
            answers.add(True)
        except ValueError:
            answers.add(False)
    if answers == {False}:
        raise ValueError(f"invalid literal for int() with base {base}: <symbolic>")
    if answers != {True}:
        raise Unsupported("int() of text with signs or blanks")
    # accepted: blanks at the ends, a sign, a prefix, single underscores and foreign digits
    at = list(s.a)
    if isinstance(at[0], str):
        at[0] = at[0].lstrip()
    if isinstance(at[-1], str):
        at[-1] = at[-1].rstrip()
    sign = 1
    if isinstance(at[0], str):
        if at[0][:1] in ("+", "-"):
            sign = -1 if at[0][0] == "-" else 1
            at[0] = at[0][1:]
        if at[0][:2].lower() == {16: "0x", 2: "0b"}.get(base, "none"):
            at[0] = at[0][2:]
    at = ["".join(str(unicodedata.decimal(ch)) if ord(ch) > 127 else ch for ch in x.replace("_", ""))
          if isinstance(x, str) else x for x in at]
    r = s_to_int(mk([x for x in at if x != ""]), base)
    return r if sign == 1 else t_sub(0, r)


def _first_fs(s):
    for x in s.a:
        if isinstance(x, FS):
            return x
    return None


class StarInt:
    """The integer value of a long digit string (only compared to bounds)."""


def star_int(s, base):
    """A fresh integer constrained by the number of digits of the rope."""
    n = s_len(s)
    key = ("starint", s.a, base)
    v = _star_ints.get(key)
    if v is None:
        v = _star_ints[key] = ivar(f"int{len(_star_ints)}", 0, None)
    return v


_star_ints: dict = {}


def recompose(t):
    """Replace complete digit expansions by the number they expand."""
    if isinstance(t, int):
        return t
    groups = {}
    for a, k in t.terms:
        if isinstance(a, RDig):
            groups.setdefault((a.E.terms, a.E.c, a.b), []).append((a, k))
    if not groups:
        return t
    d = dict(t.terms)
    c = t.c
    for (_, _, b), l in groups.items():
        E = l[0][0].E
        l.sort(key=lambda x: x[0].k)
        lo_k = l[0][0].k
        f = l[0][1]
        ok = all(a.k == lo_k + i and k == f * b**i and d.get(a) == k for i, (a, k) in enumerate(l))
        if not ok:
            continue
        top = lo_k + len(l)
        lo, hi = CTX.bounds(E)
        if lo is None or lo < 0 or hi is None:
            continue
        high = 0
        if hi >= b**top:
            # higher digits missing: they must be known on this path
            q = t_div(E, b**top)
            up = f * b ** (top - lo_k)
            if not isinstance(q, int) and q.terms and all(d.get(a) == k * up for a, k in q.terms):
                # ... or present as one quotient
                for a, _ in q.terms:
                    del d[a]
                c -= q.c * up
            else:
                high = known_digits(E, b, top, lo, hi) if lo_k == 0 else None
                if high is None:
                    continue
        if lo_k == 0:
            r = t_sub(E, high)
        else:
            r = t_div(E, b**lo_k)
        for a, _ in l:
            del d[a]
        if isinstance(r, int):
            c += f * r
        else:
            c += f * r.c
            for a, k in r.terms:
                d[a] = d.get(a, 0) + k * f
    r = mkT(d, c)
    return r


def known_digits(E, b, top, lo, hi):
    """Value of the digits of E from position top up, if determined by the path."""
    high, j = 0, top
    while b**j <= hi:
        if lo // b**j == hi // b**j:
            return high + hi // b**j * b**j
        a = rdig(E, b, j)
        if not isinstance(a, int):
            al = CTX.allowed(a) if as_fd(a) and a.c == 0 and len(a.terms) == 1 and a.hi is not None else ()
            if len(al) != 1:
                return None
            a = min(al)
        high += a * b**j
        j += 1
    return high


def int_digits(t, base, width, upper=False, force=False):
    """Text of a non-negative term in a base, zero padded to width (forks)."""
    fd = as_fd(t)
    if fd:
        key, tab = fd
        f = {2: "b", 8: "o", 10: "d", 16: "X" if upper else "x"}[base]
        return mk([fs(key, [format(v, f"0{width}{f}" if width else f) for v in tab])])
    lo, hi = CTX.bounds(t)
    if lo is None or lo < 0:
        if CTX.truth(mk_lt(t, 0)):
            raise Unsupported("formatting a negative number")
        lo = 0
    w = max(width, 1)
    while w > 1 and w > width and lo < base ** (w - 1):
        w -= 1
    # smallest digit count possible
    while lo >= base**w:
        w += 1
    while True:
        if hi is not None and hi < base**w:
            break
        if not force and width == 0:
            return S((Num(t, base, upper),))
        if CTX.truth(mk_lt(t, base**w)):
            break
        w += 1
        if w > 400:
            raise Unsupported("formatting an unbounded number")
        lo, hi = CTX.bounds(t)
    chars = DIGITS.upper() if upper else DIGITS
    out = []
    for k in range(w - 1, -1, -1):
        r = rdig(t, base, k)
        if isinstance(r, int):
            out.append(chars[r])
        else:
            fd = as_fd(r)
            if fd is None and r.lo is not None and r.lo >= 0 and r.hi is not None and r.hi < base:
                k0 = t_sub(r, r.lo)
                fd = (k0, range(r.lo, r.hi + 1))
            if fd is None:
                raise Unsupported("digit without a finite domain")
            out.append(fs(fd[0], [chars[v % base] for v in fd[1]]))
    return mk(out)


def parse_spec(spec):
    import re

    m = re.fullmatch(r"(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?", spec, re.S)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    if grp or prec or alt or (sign and sign != "-"):
        raise Unsupported(f"format spec {spec!r}")
    return fill, align, zero, int(width) if width else 0, typ


def pad(s, width, align, fill):
    if len(fill) != 1:
        raise Unsupported("fill")
    if width <= 1 and isinstance(s, S) and s.a and any(isinstance(x, Num) for x in s.a):
        return s
    if isinstance(s, S) and len(s.a) == 1 and isinstance(s.a[0], Num) and fill == "0" and align == ">":
        return int_digits(s.a[0].t, s.a[0].base, width, s.a[0].upper)
    n = s_len(s)
    if isinstance(n, T):
        lo, hi = CTX.bounds(n)
        if lo is not None and lo >= width:
            return s
        s = _simple(s)
        n = s_len(s)
    k = width - n
    if k <= 0:
        return s
    if align == "<":
        return cat(s, fill * k)
    if align in (">", "="):
        return cat(fill * k, s)
    return cat(fill * (k // 2), s, fill * (k - k // 2))


def s_format(v, spec):
    """format(v, spec) for symbolic v (integer term or rope)."""
    if isinstance(v, T) and havocked(v):
        return any_text("number", "-0123456789abcdefABCDEF")
    if isinstance(spec, S):
        spec = CTX_str(spec)
    if isinstance(v, S):
        if spec == "":
            return v
        fill, align, zero, width, typ = parse_spec(spec)
        if typ not in (None, "s"):
            raise ValueError(f"Unknown format code '{typ}' for object of type 'str'")
        if align == "=":
            raise ValueError("'=' alignment not allowed in string format specifier")
        if zero and fill is None:
            fill = "0"
            if align is None:
                align = "<"
        return pad(v, width, align or "<", fill or " ")
    if isinstance(v, T):
        negative = is_negative(v)
        if spec == "":
            return cat("-", int_digits(t_sub(0, v), 10, 0)) if negative else int_digits(v, 10, 0)
        fill, align, zero, width, typ = parse_spec(spec)
        base = {None: 10, "d": 10, "b": 2, "o": 8, "x": 16, "X": 16}.get(typ)
        if base is None:
            raise Unsupported(f"integer format {spec!r}")
        if zero and align is None:
            align, fill = "=", "0"
        if zero and fill is None:
            fill = "0"
        if negative:
            if align == "=" and fill == "0" and width:
                return cat("-", int_digits(t_sub(0, v), base, width - 1, typ == "X"))
            s = cat("-", int_digits(t_sub(0, v), base, 0, typ == "X"))
            return pad(s, width, align or ">", fill or " ") if width else s
        if (align in (">", "=") and fill == "0" and width):
            return int_digits(v, base, width, typ == "X")
        s = int_digits(v, base, 0, typ == "X")
        return pad(s, width, align or ">", fill or " ") if width else s
    if isinstance(v, B):
        return "True" if CTX.truth(v) else "False"
    raise Unsupported(f"format of {type(v).__name__}")


def is_negative(v):
    """The sign of a number (forks when it is open)."""
    if as_fd(v) and min(as_fd(v)[1]) >= 0:
        return False
    lo, _ = CTX.bounds(v)
    return (lo is None or lo < 0) and CTX.truth(mk_lt(v, 0))


def CTX_str(s):
    """A rope forced to a literal (forks over its keys)."""
    while not isinstance(s, str):
        s = norm(s)
        if isinstance(s, str):
            break
        x = next(x for x in s.a if not isinstance(x, str))
        if isinstance(x, FS):
            al = sorted(CTX.allowed(x.key))
            if len(al) > 64:
                raise Unsupported("symbolic text used where literal text is needed")
            vals = sorted({x.table[v] for v in al})
            for t in vals[:-1]:
                if CTX.truth(mk_fd(x.key, [i for i, y in enumerate(x.table) if y == t])):
                    break
        else:
            raise Unsupported("symbolic text used where literal text is needed")
    return s


# ------------------------------------------------------------ string methods
def _map(s, f):
    """Apply a per-character homomorphism."""
    out = []
    for x in atoms_of(resolve_cuts(s)):
        if isinstance(x, str):
            out.append(f(x))
        elif isinstance(x, FS):
            out.append(fs(x.key, [f(y) for y in x.table]))
        elif isinstance(x, Star):
            out.append(Star(x.dom, tuple(f(y) for y in x.table)))
        else:
            raise Unsupported("mapping over opaque text")
    return mk(out)


@or_any
def m_upper(s):
    return _map(s, str.upper)


@or_any
def m_lower(s):
    return _map(s, str.lower)


def _all_chars(s, pred):
    """Boolean: rope non-empty and pred holds for every character."""
    if isinstance(s, S) and any(isinstance(x, Num) for x in s.a):
        if all(pred(c) for c in "0123456789") and all(not isinstance(x, Num) or x.base <= 10 for x in s.a):
            r = mk([x for x in s.a if not isinstance(x, Num)])
            if r == "":
                return True
            return mk_or([mk_not(s_nonempty(r)), _all_chars(r, pred)])
    s = norm(resolve_cuts(s))
    if isinstance(s, str):
        return bool(s) and all(pred(c) for c in s)
    conds = [s_nonempty(s)]
    for x in s.a:
        if isinstance(x, str):
            conds.append(all(pred(c) for c in x))
        elif isinstance(x, FS):
            conds.append(mk_fd(x.key, [i for i, y in enumerate(x.table) if all(pred(c) for c in y)]))
        elif isinstance(x, Star):
            conds.append(star_all(x.dom, frozenset(i for i, y in enumerate(x.table) if all(pred(c) for c in y))))
        elif isinstance(x, Opq):
            if all(pred(c) for c in x.alphabet):
                continue
            raise Unsupported("character test on opaque text")
    return mk_and(conds)


def _pred(name):
    p = getattr(str, name)
    return lambda s: _all_chars(s, p)


def m_isascii(s):
    s2 = norm(resolve_cuts(s))
    if isinstance(s2, str):
        return s2.isascii()
    return mk_or([mk_not(s_nonempty(s2)), _all_chars(s2, str.isascii)])


class SList(list):
    """A list followed by the pieces of tail.split(sep)."""

    def __init__(self, items, tail=None, sep=None):
        list.__init__(self, items)
        self.tail = tail
        self.sep = sep

    def force(self):
        """Fork until the list is definite."""
        if self.tail is None:
            return list(self)
        return list(list.__iter__(self)) + force_split(self.tail, self.sep)

    def __len__(self):
        if self.tail is None:
            return list.__len__(self)
        raise Unsupported("length of an undetermined split")

    def __iter__(self):
        if self.tail is None:
            return list.__iter__(self)
        return iter(self.force())

    def __getitem__(self, i):
        return slist_getitem(self, i)


def slist_items(l):
    return list.__iter__(l)


def slist_n(l):
    return list.__len__(l)


def slist_getitem(l, i):
    if l.tail is None:
        return list.__getitem__(l, i)
    n = slist_n(l)
    if isinstance(i, slice):
        a, b, st = i.start, i.stop, i.step
        if st in (None, 1):
            a = 0 if a is None else a
            if isinstance(a, int) and a >= 0:
                if b is None and a <= n:
                    return SList(list.__getitem__(l, slice(a, None)), l.tail, l.sep)
                if b is not None and isinstance(b, int) and 0 <= b <= n:
                    return list.__getitem__(l, slice(a, b))
                if b is not None and isinstance(b, int) and b == n + 1:
                    items = list(list.__getitem__(l, slice(a, n))) if a <= n else []
                    if a <= n:
                        return items + [first_piece(l.tail, l.sep)]
            if isinstance(a, int) and a > n and b is None and moded(l.tail) is not None:
                for _ in range(a - n):
                    if not choose("another separator"):
                        return []
                return SList([], any_of(l.tail), l.sep)
        return l.force()[i]
    if isinstance(i, T):
        i = CTX.concretize(i)
    if 0 <= i < n:
        return list.__getitem__(l, i)
    if i == n:
        return first_piece(l.tail, l.sep)
    if i > n and moded(l.tail) is not None:
        for _ in range(i - n):
            if not choose("another separator"):
                raise IndexError("list index out of range")
        return first_piece(any_of(l.tail), l.sep)
    return l.force()[i]


def first_piece(tail, sep):
    """The part of the rope before the first separator."""
    out = []
    atoms = atoms_of(tail)
    for j, x in enumerate(atoms):
        if isinstance(x, str):
            i = x.find(sep)
            if i >= 0:
                out.append(x[:i])
                return mk(out)
            out.append(x)
        elif _may(x, sep):
            out.append(Cut(tuple(atoms[j:]), sep))
            return mk(out)
        else:
            out.append(x)
    return mk(out)


def _may(x, sep):
    """May the atom contain the separator?"""
    if isinstance(x, str):
        return sep in x
    if isinstance(x, FS):
        return any(sep in x.table[v] for v in CTX.allowed(x.key))
    if isinstance(x, Star):
        return any(sep in x.table[v] for v in allowed_star(x.dom))
    if isinstance(x, Opq):
        return sep in x.alphabet
    if isinstance(x, Num):
        return sep.isalnum()
    return True


def force_split(tail, sep, maxsplit=-1):
    pieces, cur = [], []
    rest = list(atoms_of(tail))
    while rest:
        x = rest.pop(0)
        if maxsplit >= 0 and len(pieces) >= maxsplit:
            cur.append(x)
            continue
        if isinstance(x, str):
            i = x.find(sep)
            if i < 0:
                cur.append(x)
                continue
            cur.append(x[:i])
            pieces.append(mk(cur))
            cur = []
            if x[i + len(sep):]:
                rest.insert(0, x[i + len(sep):])
            continue
        if not _may(x, sep):
            cur.append(x)
            continue
        if isinstance(x, FS):
            has = [i for i, y in enumerate(x.table) if sep in y]
            if CTX.truth(mk_fd(x.key, has)):
                vals = {x.table[v] for v in CTX.allowed(x.key)}
                if len(vals) == 1:
                    rest.insert(0, vals.pop())
                    continue
                if all(v.count(sep) == 1 for v in vals):
                    d = x.table[has[0]]
                    tb = [y if y in vals else d for y in x.table]
                    cur.append(fs(x.key, [y.split(sep)[0] for y in tb]))
                    pieces.append(mk(cur))
                    cur = []
                    r = fs(x.key, [y.split(sep)[1] for y in tb])
                    if r:
                        rest.insert(0, r)
                    continue
                raise Unsupported("split inside a token")
            ok = next(y for y in x.table if sep not in y)
            cur.append(fs(x.key, [y if sep not in y else ok for y in x.table]))
            continue
        y = fix_len(x)
        rest = list(atoms_of(y)) + rest
    pieces.append(mk(cur))
    return pieces


def m_split(s, sep=None, maxsplit=-1):
    if isinstance(s, str) and isinstance(sep, (str, type(None))) and isinstance(maxsplit, int):
        return s.split(sep, maxsplit)
    if sep is None or not isinstance(sep, str) or len(sep) != 1:
        if isinstance(sep, str) and len(sep) > 1:
            return split_multi(s, sep, maxsplit)
        raise Unsupported("split without a literal separator")
    s = norm(s)
    if isinstance(s, str):
        return s.split(sep, maxsplit)
    if not isinstance(maxsplit, int):
        maxsplit = CTX.concretize(maxsplit)
    pieces, cur = [], []
    atoms = list(s.a)
    for j, x in enumerate(atoms):
        if maxsplit >= 0 and len(pieces) >= maxsplit:
            cur.append(x)
            continue
        if isinstance(x, str):
            lim = maxsplit - len(pieces) if maxsplit >= 0 else -1
            ps = x.split(sep, lim)
            cur.append(ps[0])
            for p in ps[1:]:
                pieces.append(mk(cur))
                cur = [p]
        elif not _may(x, sep):
            cur.append(x)
        elif isinstance(x, FS) and len({x.table[v] for v in CTX.allowed(x.key)}) == 1:
            raise Unsupported("split")
        else:
            tail = mk(cur + atoms[j:])
            if maxsplit >= 0:
                return pieces + force_split(tail, sep, maxsplit - len(pieces))
            return SList(pieces, tail, sep)
    pieces.append(mk(cur))
    return pieces


def split_multi(s, sep, maxsplit):
    from . import rx
    import re

    return rx.re_split(re.escape(sep), s, maxsplit if maxsplit >= 0 else 0)


def m_rsplit(s, sep=None, maxsplit=-1):
    if isinstance(s, str):
        return s.rsplit(sep, maxsplit)
    if sep is None or not isinstance(sep, str) or len(sep) != 1:
        raise Unsupported("rsplit")
    if maxsplit < 0:
        return m_split(s, sep)
    pieces = []
    cur = list(atoms_of(norm(s)))
    acc = []
    while cur and len(pieces) < maxsplit:
        x = cur.pop()
        if isinstance(x, str):
            i = x.rfind(sep)
            if i < 0:
                acc.insert(0, x)
                continue
            acc.insert(0, x[i + 1:])
            pieces.insert(0, mk(acc))
            acc = []
            if x[:i]:
                cur.append(x[:i])
            continue
        if not _may(x, sep):
            acc.insert(0, x)
            continue
        if isinstance(x, FS):
            has = [i for i, y in enumerate(x.table) if sep in y]
            if CTX.truth(mk_fd(x.key, has)):
                vals = {x.table[v] for v in CTX.allowed(x.key)}
                if len(vals) == 1:
                    cur.append(vals.pop())
                    continue
                raise Unsupported("rsplit inside a token")
            ok = next(y for y in x.table if sep not in y)
            acc.insert(0, fs(x.key, [y if sep not in y else ok for y in x.table]))
            continue
        y = fix_len(x)
        cur.extend(atoms_of(y))
    return [mk(cur + acc)] + pieces


def m_partition(s, sep):
    if isinstance(s, str):
        return s.partition(sep)
    l = m_split(s, sep, 1)
    if len(l) == 1:
        return (l[0], "", "")
    return (l[0], sep, l[1])


def m_rpartition(s, sep):
    if isinstance(s, str):
        return s.rpartition(sep)
    l = m_rsplit(s, sep, 1)
    if len(l) == 1:
        return ("", "", l[0])
    return (l[0], sep, l[1])


def s_join(sep, it):
    if isinstance(it, SList) and it.tail is not None:
        items = list(slist_items(it))
        if isinstance(sep, str) and sep == it.sep:
            items.append(it.tail)
        else:
            items = it.force()
    elif isinstance(it, StarList):
        items = list(it.items)
        if any(isinstance(x, StarElem) for x in items):
            if not (isinstance(sep, str) and sep == ""):
                raise Unsupported("join of a starred list")
            out = []
            for x in items:
                out.extend(x.as_star() if isinstance(x, StarElem) else atoms_of(x))
            return mk(out)
    elif is_str(it):
        items = list(it) if isinstance(it, str) else s_chars(it)
    else:
        items = list(it)
    out = []
    for i, x in enumerate(items):
        if not is_str(x):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        if i and sep != "":
            out.extend(atoms_of(sep))
        out.extend(atoms_of(x))
    return mk(out)


class StarElem:
    """n generic list elements, each value(e) for e from a star domain."""

    def __init__(self, dom, table):
        self.dom = dom
        self.table = table  # tuple of python values

    def as_star(self):
        return (Star(self.dom, tuple(self.table)),)


class StarList:
    """A list whose items may be StarElem runs."""

    def __init__(self, items):
        self.items = items

    def force(self):
        out = []
        for x in self.items:
            if isinstance(x, StarElem):
                n = CTX.concretize(x.dom.n) if hi_of(x.dom.n) is not None and hi_of(x.dom.n) < 64 else force_bounds(x.dom.n)
                from .hooks import lift_table

                for i in range(n):
                    e = x.dom.elem(i)
                    al = CTX.st.stars.get(x.dom.uid)
                    if al:
                        CTX.assume(mk_fd(e, al[1]))
                    out.append(lift_table(e, x.table))
            else:
                out.append(x)
        return out

    def __iter__(self):
        return iter(self.force())

    def __len__(self):
        return len(self.force())

    def __getitem__(self, i):
        return self.force()[i]


@or_any
def m_replace(s, old, new, count=-1):
    if all(isinstance(x, str) for x in (s, old, new)):
        return s.replace(old, new, count)
    if not isinstance(old, str):
        raise Unsupported("replace of symbolic text")
    s = norm(resolve_cuts(s))
    if isinstance(s, str) and isinstance(new, str):
        return s.replace(old, new, count)
    if old == "":
        raise Unsupported("replace of the empty string")
    if isinstance(s, str):
        return s_join(new, s.split(old, count))
    if count == 0:
        return s
    if len(old) > 1 and not _selfcontained(s, old):
        from . import rx
        import re

        return s_join(new, rx.re_split(re.escape(old), s, count if count >= 0 else 0))
    if count >= 0 or not isinstance(new, str):
        if len(old) == 1:
            return s_join(new, force_split(s, old, count))
        from . import rx
        import re

        return s_join(new, rx.re_split(re.escape(old), s, count if count >= 0 else 0))
    return _map(s, lambda t: t.replace(old, new))


def _selfcontained(s, old):
    """No occurrence of old can straddle atoms."""
    def texts(x):
        if isinstance(x, str):
            return {x}
        if isinstance(x, FS):
            return {x.table[v] for v in CTX.allowed(x.key)}
        if isinstance(x, Star):
            return {x.table[v] for v in allowed_star(x.dom)}
        if isinstance(x, Opq):
            return set(x.alphabet)
        return set()

    # lengths of proper prefixes of old that may be pending at a boundary
    n = len(old)
    pend = set()

    def step(pend, ts):
        new = set()
        for t in ts:
            if t == "":
                new |= pend
                continue
            for i in pend:
                rest = old[i:]
                if t.startswith(rest):
                    return None
                if rest.startswith(t):
                    new.add(i + len(t))
            for j in range(1, n):
                if len(t) >= j and t.endswith(old[:j]):
                    new.add(j)
        return new

    for x in s.a:
        if isinstance(x, Cut) or isinstance(x, Num) and not old.isalnum():
            if isinstance(x, Cut):
                return False
            pend = set()
            continue
        if isinstance(x, Num):
            return False
        ts = texts(x)
        if isinstance(x, (Star, Opq)):
            while True:
                nxt = step(pend, ts)
                if nxt is None:
                    return False
                if nxt <= pend:
                    break
                pend = pend | nxt
        else:
            pend = step(pend, ts)
            if pend is None:
                return False
    return True


def m_startswith(s, p, start=0, end=None):
    if start != 0 or end is not None:
        return m_startswith(s_slice(s, start, end, None), p)
    if isinstance(p, tuple):
        return mk_or([m_startswith(s, x) for x in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if not is_str(p):
        raise TypeError("startswith first arg must be str or a tuple of str")
    n = s_len(p)
    if isinstance(n, T):
        p = _simple(p)
        n = s_len(p)
    if isinstance(s, S):
        mn = s_len(s)
        if isinstance(mn, int) and mn < n:
            return False
        if isinstance(mn, int):
            return s_eq(take(s, n), p)
        if isinstance(p, str):
            from . import rx
            import re

            return rx.rx_match(rx.compile_rx(re.escape(p)), s)
    return s_eq(take(s, n), p)


def m_endswith(s, p, start=0, end=None):
    if start != 0 or end is not None:
        return m_endswith(s_slice(s, start, end, None), p)
    if isinstance(p, tuple):
        return mk_or([m_endswith(s, x) for x in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    n = s_len(p)
    if isinstance(n, T):
        p = _simple(p)
        n = s_len(p)
    return s_eq(take_last(s, n), p)


def or_padded(f):
    """Padding of arbitrary text that cannot be followed."""
    @functools.wraps(f)
    def g(s, width, fill="0"):
        try:
            return f(s, width) if f is _zfill else f(s, width, fill)
        except Unsupported:
            if moded(s) is None:
                raise
            return any_of(cat(s, fill))
    return g


def _zfill(s, width):
    if isinstance(s, str) and isinstance(width, int):
        return s.zfill(width)
    width = CTX.concretize(width)
    if isinstance(s, S) and len(s.a) == 1 and isinstance(s.a[0], Num):
        return pad(s, width, ">", "0")
    n = s_len(s)
    lo, hi = bounds_of(n)
    if lo is not None and lo >= width:
        return s
    c = take(s, 1)
    if CTX.truth(mk_or([s_eq(c, "+"), s_eq(c, "-")])):
        raise Unsupported("zfill of a signed number")
    return pad(s, width, ">", "0")


m_zfill = or_padded(_zfill)


def m_rjust(s, width, fill=" "):
    return or_padded(lambda s, width, fill: pad(s, CTX.concretize(width), ">", fill))(s, width, fill)


def m_ljust(s, width, fill=" "):
    return or_padded(lambda s, width, fill: pad(s, CTX.concretize(width), "<", fill))(s, width, fill)


def m_center(s, width, fill=" "):
    raise Unsupported("center")


@or_any
def m_lstrip(s, chars=None):
    if isinstance(s, str) and isinstance(chars, (str, type(None))):
        return s.lstrip(chars)
    t = norm(resolve_cuts(s))
    while not isinstance(t, str):
        x = t.a[0]
        if isinstance(x, str):
            y = x.lstrip(chars)
            if y:
                return mk((y,) + t.a[1:])
            t = mk(t.a[1:])
            continue
        if isinstance(x, FS):
            # values that vanish completely
            gone = [i for i, y in enumerate(x.table) if not y.lstrip(chars)]
            if CTX.truth(mk_fd(x.key, gone)):
                t = norm(mk(t.a[1:]))
                continue
            d = next(y for y in x.table if y.lstrip(chars))
            return mk((fs(x.key, [y.lstrip(chars) or d.lstrip(chars) for y in x.table]),) + t.a[1:])
        if isinstance(x, Star):
            al = allowed_star(x.dom)
            if all(x.table[i].lstrip(chars) == x.table[i] and x.table[i] for i in al):
                if CTX.truth(mk_lt(0, x.dom.n)):
                    return t
                t = mk(t.a[1:])
                continue
            y = fix_len(x)
            t = norm(mk(atoms_of(y) + t.a[1:]))
            continue
        raise Unsupported("strip of opaque text")
    return t.lstrip(chars)


@or_any
def m_rstrip(s, chars=None):
    if isinstance(s, str) and isinstance(chars, (str, type(None))):
        return s.rstrip(chars)
    t = norm(resolve_cuts(s))
    while not isinstance(t, str):
        x = t.a[-1]
        if isinstance(x, str):
            y = x.rstrip(chars)
            if y:
                return mk(t.a[:-1] + (y,))
            t = mk(t.a[:-1])
            continue
        if isinstance(x, FS):
            gone = [i for i, y in enumerate(x.table) if not y.rstrip(chars)]
            if CTX.truth(mk_fd(x.key, gone)):
                t = norm(mk(t.a[:-1]))
                continue
            d = next(y for y in x.table if y.rstrip(chars))
            return mk(t.a[:-1] + (fs(x.key, [y.rstrip(chars) or d.rstrip(chars) for y in x.table]),))
        if isinstance(x, Star):
            al = allowed_star(x.dom)
            if all(x.table[i].rstrip(chars) == x.table[i] and x.table[i] for i in al):
                if CTX.truth(mk_lt(0, x.dom.n)):
                    return t
                t = mk(t.a[:-1])
                continue
            y = fix_len(x)
            t = norm(mk(t.a[:-1] + atoms_of(y)))
            continue
        raise Unsupported("strip of opaque text")
    return t.rstrip(chars)


@or_any
def m_strip(s, chars=None):
    return m_rstrip(m_lstrip(s, chars), chars)


def m_removeprefix(s, p):
    if CTX.truth(m_startswith(s, p)):
        return drop(s, s_len(p))
    return s


def m_removesuffix(s, p):
    n = s_len(p)
    if n and CTX.truth(m_endswith(s, p)):
        return drop_last(s, n)
    return s


def s_contains(s, x):
    """x in s"""
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(x, str):
        if x == "":
            return True
        s = norm(resolve_cuts(s))
        if isinstance(s, str):
            return x in s
        if len(x) == 1:
            conds = []
            for a in s.a:
                if isinstance(a, str):
                    if x in a:
                        return True
                elif isinstance(a, FS):
                    conds.append(mk_fd(a.key, [i for i, y in enumerate(a.table) if x in y]))
                elif isinstance(a, Star):
                    conds.append(mk_not(star_all(a.dom, frozenset(i for i, y in enumerate(a.table) if x not in y))))
                elif x in a.alphabet:
                    raise Unsupported("search in opaque text")
            return mk_or(conds)
        from . import rx
        import re

        return rx.rx_search(rx.compile_rx(re.escape(x)), s)
    if isinstance(s, str) and isinstance(x, S):
        # membership of a symbolic piece in literal text
        x = _simple(x)
        if isinstance(x, str):
            return x in s
        n = s_len(x)
        subs = {s[i: i + n] for i in range(len(s) - n + 1)}
        return mk_or([s_eq(x, y) for y in subs])
    raise Unsupported("substring test")


def m_find(s, x, start=0, end=None):
    return _find(s, x, start, end)


def _find(s, x, start=0, end=None):
    if isinstance(s, str) and isinstance(x, str):
        return s.find(x, start, end)
    if start or end is not None or not isinstance(x, str) or len(x) != 1:
        if isinstance(x, str) and len(x) == 1 and end is None:
            t = drop(s, start)
            r = _find(t, x)
            if isinstance(r, int) and r < 0:
                return -1
            return t_add(r, start)
        raise Unsupported("find")
    pos = 0
    for a in atoms_of(norm(resolve_cuts(s))):
        if isinstance(a, str):
            i = a.find(x)
            if i >= 0:
                return t_add(pos, i)
        elif _may(a, x):
            if isinstance(a, Star):
                raise Unsupported("find in a star")
            if CTX.truth(mk_fd(a.key, [i for i, y in enumerate(a.table) if x in y])):
                d = next(y for y in a.table if x in y)
                return t_add(pos, fint(a.key, [y.find(x) if x in y else d.find(x) for y in a.table]))
        pos = t_add(pos, atom_len(a))
    return -1


def m_index(s, x, start=0, end=None):
    r = _find(s, x, start, end)
    if isinstance(r, int) and r < 0:
        raise ValueError("substring not found")
    return r


def m_count(s, x):
    if isinstance(s, str) and isinstance(x, str):
        return s.count(x)
    if not isinstance(x, str) or len(x) != 1:
        raise Unsupported("count")
    n = 0
    for a in atoms_of(norm(resolve_cuts(s))):
        if isinstance(a, str):
            n = t_add(n, a.count(x))
        elif isinstance(a, FS):
            n = t_add(n, fint(a.key, [y.count(x) for y in a.table]))
        elif _may(a, x):
            raise Unsupported("count in a star")
    return n


def m_translate(s, table):
    return _map(s, lambda t: t.translate(table))


def m_encode(s, *a):
    return SBytes(s)


class SBytes:
    """ascii bytes of a rope (only what base64 handling needs)."""

    def __init__(self, s):
        self.s = s


METHODS = {
    "upper": m_upper,
    "lower": m_lower,
    "split": m_split,
    "rsplit": m_rsplit,
    "partition": m_partition,
    "rpartition": m_rpartition,
    "join": s_join,
    "replace": m_replace,
    "startswith": m_startswith,
    "endswith": m_endswith,
    "zfill": m_zfill,
    "rjust": m_rjust,
    "ljust": m_ljust,
    "strip": m_strip,
    "lstrip": m_lstrip,
    "rstrip": m_rstrip,
    "removeprefix": m_removeprefix,
    "removesuffix": m_removesuffix,
    "find": m_find,
    "index": m_index,
    "count": m_count,
    "translate": m_translate,
    "isascii": m_isascii,
    "encode": m_encode,
}
for _n in ("isnumeric", "isdigit", "isdecimal", "isalpha", "isalnum", "isspace"):
    METHODS[_n] = _pred(_n)


# ----------------------------------------------------------------- evaluation
def evs(s, m):
    """Evaluate a rope under a model."""
    if isinstance(s, str):
        return s
    out = []
    for x in s.a:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, FS):
            out.append(x.table[ev(x.key, m)])
        elif isinstance(x, Star):
            n = ev(x.dom.n, m)
            for i in range(n):
                out.append(x.table[m[x.dom][i]])
        elif isinstance(x, Cut):
            out.append(evs(mk(x.atoms), m).split(x.sep)[0])
        elif isinstance(x, Num):
            out.append(format(ev(x.t, m), {2: "b", 8: "o", 10: "d", 16: "X" if x.upper else "x"}[x.base]))
        elif isinstance(x, Opq):
            out.append(x.tag.concrete(evs(x.arg, m)))
    return "".join(out)
