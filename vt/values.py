"""Symbolic values other than integers and strings; merging of values."""
from __future__ import annotations

from .rope import (
    Cut, FS, Opq, S, SList, Star, StarElem, StarList, atoms_of, fs, mk, norm,
)
from .terms import (
    B, CTX, T, Unsupported, as_fd, atom_key, fint, mk_and, mk_fd, mk_or, mkT, t_add, t_sub,
)


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class _Poison:
    """Value of a loop temporary that the loop rule does not track."""

    def _bad(self, *a, **k):
        raise Unsupported("loop temporary used after the loop")

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = _bad
    __len__ = __iter__ = __getitem__ = __call__ = __hash__ = __str__ = __format__ = _bad

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


POISON = _Poison()


class FDO:
    """table[key] for arbitrary python objects."""

    __slots__ = ("key", "table")

    def __init__(self, key, table):
        self.key = key
        self.table = tuple(table)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        al = CTX.allowed(self.key)
        d = None
        vals = {}
        for v in al:
            vals[v] = getattr(self.table[v], name)
            d = v
        return lift_table(self.key, [vals.get(v, vals[d]) for v in range(self.key.hi + 1)])

    def __eq__(self, o):
        from .hooks import eq

        return eq(self, o)

    def __ne__(self, o):
        from .hooks import not_

        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic object")

    def __bool__(self):
        return CTX.truth(mk_fd(self.key, [v for v, o in enumerate(self.table) if o]))

    def __repr__(self):
        return f"FDO({self.key!r})"


def lift_table(key, table):
    """The value table[key] in its most specific representation."""
    t0 = table[0]
    if all(x is t0 for x in table):
        return t0
    if all(type(x) is bool for x in table):
        return mk_fd(key, [v for v, x in enumerate(table) if x])
    if all(type(x) is int for x in table):
        return fint(key, table)
    if all(type(x) is str for x in table):
        return mk([fs(key, table)])
    if all(type(x) is tuple for x in table) and len({len(x) for x in table}) == 1:
        return tuple(lift_table(key, [x[i] for x in table]) for i in range(len(t0)))
    if all(type(x) is list for x in table) and len({len(x) for x in table}) == 1:
        return [lift_table(key, [x[i] for x in table]) for i in range(len(t0))]
    return FDO(key, table)


def is_sym(x):
    return isinstance(x, (T, S, B, FDO, StarList)) or (isinstance(x, SList) and x.tail is not None) or type(x).__name__ in _SYMN


_SYMN = {"TokSplit", "LazyMatch", "SHexBytes", "SBytesB64", "SBytes", "SMatch"}


def deep_sym(x, depth=3):
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) or (depth and isinstance(y, (list, tuple, dict)) and deep_sym(y, depth - 1)) for y in list.__iter__(x) if True) if isinstance(x, list) else any(is_sym(y) or (depth and isinstance(y, (list, tuple, dict)) and deep_sym(y, depth - 1)) for y in x)
    if type(x) is dict:
        return any(is_sym(y) or (depth and isinstance(y, (list, tuple, dict)) and deep_sym(y, depth - 1)) for y in x.values())
    return False


def single_key(x):
    """(key, table of concrete values) when x depends on one key."""
    if isinstance(x, T):
        return as_fd(x)
    if isinstance(x, S):
        key = None
        for a in x.a:
            if isinstance(a, str):
                continue
            if not isinstance(a, FS):
                return None
            if key is None:
                key = a.key
            elif not key.same(a.key):
                return None
        if len(x.a) == 1:
            return key, x.a[0].table
        return key, tuple(
            "".join(a if isinstance(a, str) else a.table[v] for a in x.a) for v in range(key.hi + 1)
        )
    if isinstance(x, B) and x.kind == "fd":
        return x.a, tuple(v in x.b for v in range(x.a.hi + 1))
    if isinstance(x, FDO):
        return x.key, x.table
    return None


def same_value(a, b):
    """Structural identity (no solver)."""
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        if isinstance(a, T) and isinstance(b, T):
            if a.same(b):
                return True
        d = None
        if isinstance(a, (int, T)) and isinstance(b, (int, T)):
            d = t_sub(a, b)
        return isinstance(d, int) and d == 0
    if isinstance(a, S) or isinstance(b, S):
        if not isinstance(a, (str, S)) or not isinstance(b, (str, S)):
            return False
        a, b = norm(a), norm(b)
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        return a.a == b.a
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, B) and isinstance(b, B) and a.kind == b.kind == "fd":
            return a.a.same(b.a) and a.b == b.b
        return False
    if isinstance(a, FDO) or isinstance(b, FDO):
        return isinstance(a, FDO) and isinstance(b, FDO) and a.key.same(b.key) and all(
            x is y for x, y in zip(a.table, b.table)
        )
    if type(a) is not type(b):
        return False
    if isinstance(a, SList):
        return (
            len(list(list.__iter__(a))) == len(list(list.__iter__(b)))
            and all(same_value(x, y) for x, y in zip(list.__iter__(a), list.__iter__(b)))
            and (a.tail is None) == (b.tail is None)
            and (a.tail is None or (same_value(a.tail, b.tail) and a.sep == b.sep))
        )
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (str, int, float, bool, bytes, type(None))):
        return a == b
    import enum

    if isinstance(a, enum.Enum):
        return a is b
    return False


class NoMerge(Exception):
    pass


def merge(key, parts):
    """One value equal to value_i on the key values D_i; NoMerge if impossible."""
    vals = [v for _, v in parts]
    v0 = vals[0]
    if all(same_value(v0, v) for v in vals[1:]):
        return v0
    if any(isinstance(v, (B, bool)) for v in vals) and all(isinstance(v, (B, bool)) for v in vals):
        return mk_or([mk_and([mk_fd(key, D), v]) for D, v in parts])
    if all(isinstance(v, (int, T)) and not isinstance(v, bool) for v in vals):
        return merge_int(key, parts)
    if all(isinstance(v, (str, S)) for v in vals):
        return merge_str(key, parts)
    if any(type(v).__name__ in _SYMN or isinstance(v, StarList) for v in vals):
        raise NoMerge()
    if all(type(v) is tuple for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(merge(key, [(D, v[i]) for D, v in parts]) for i in range(len(v0)))
    if all(type(v) is list for v in vals) and len({len(v) for v in vals}) == 1:
        return [merge(key, [(D, v[i]) for D, v in parts]) for i in range(len(v0))]
    if any(isinstance(v, (list, dict, set, SList)) for v in vals):
        raise NoMerge()
    # arbitrary objects
    tab = [None] * (key.hi + 1)
    d = None
    for D, v in parts:
        sk = single_key(v) if is_sym(v) else None
        if is_sym(v) and (sk is None or not sk[0].same(key)):
            raise NoMerge()
        if not is_sym(v) and hasattr(v, "__dict__") and not isinstance(v, type) and type(v).__module__.startswith("epcpy_sym") and not _is_enum(v):
            raise NoMerge()
        for x in D:
            tab[x] = (sk[1][x] if sk else v,)
            d = tab[x]
    return lift_table(key, [(t or d)[0] for t in tab])


def _is_enum(v):
    import enum

    return isinstance(v, enum.Enum)


def merge_int(key, parts):
    # v_i = rest + table part over key
    rests = None
    tab = [None] * (key.hi + 1)
    d = 0
    for D, v in parts:
        if isinstance(v, int):
            rest, own = mkT({}, 0), v
            loc = None
        else:
            rd, od = {}, {}
            for a, k in v.terms:
                ak = atom_key(a)
                if ak is not None and ak[0].same(key):
                    od[a] = k
                else:
                    rd[a] = k
            rest = mkT(rd, 0)
            loc = mkT(od, v.c)
        if rests is None:
            rests = rest
        elif not same_value(rests, rest):
            raise NoMerge()
        if isinstance(v, int):
            for x in D:
                tab[x] = v
        elif isinstance(loc, int):
            for x in D:
                tab[x] = loc
        else:
            t = as_fd(loc)[1]
            for x in D:
                tab[x] = t[x]
        d = tab[next(iter(D))]
    r = fint(key, [d if t is None else t for t in tab])
    return t_add(rests, r)


def merge_str(key, parts):
    al = [list(atoms_of(norm(v))) for _, v in parts]
    pre = []
    while all(al) and all(not isinstance(x[0], str) and x[0] == al[0][0] for x in al):
        pre.append(al[0][0])
        al = [x[1:] for x in al]
    # literal common prefix
    if all(x and isinstance(x[0], str) for x in al):
        import os

        p = os.path.commonprefix([x[0] for x in al])
        if p:
            pre.append(p)
            al = [([x[0][len(p):]] if x[0][len(p):] else []) + x[1:] for x in al]
            r = merge_atoms(key, [(D, x) for (D, _), x in zip(parts, al)])
            return mk(pre + r)
    return mk(pre + merge_atoms(key, [(D, x) for (D, _), x in zip(parts, al)]))


def merge_atoms(key, parts):
    al = [list(x) for _, x in parts]
    pre, suf = [], []
    while all(al) and all(x[0] == al[0][0] for x in al):
        pre.append(al[0][0])
        al = [x[1:] for x in al]
    while all(al) and all(x[-1] == al[0][-1] for x in al):
        suf.insert(0, al[0][-1])
        al = [x[:-1] for x in al]
    tab = [None] * (key.hi + 1)
    d = None
    for (D, _), x in zip(parts, al):
        for a in x:
            if not isinstance(a, str) and not (isinstance(a, FS) and a.key.same(key)):
                raise NoMerge()
        for v in D:
            tab[v] = "".join(a if isinstance(a, str) else a.table[v] for a in x)
            d = tab[v]
    return pre + [fs(key, [d if t is None else t for t in tab])] + suf
