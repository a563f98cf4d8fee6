"""Run-time hooks called by the instrumented copy of the library.

Every hook falls back to the plain python operation when no symbolic value
is involved, so the instrumented library run on concrete data behaves like
the original (this is checked on every run).
"""
from __future__ import annotations

import base64 as _b64
import binascii
import builtins
import functools
import itertools
import math
import operator
import re
import types

from . import rope, rx
from .explore import region, single_outcome
from .rope import (
    Cut,
    FS,
    FSs,
    METHODS,
    Opq,
    S,
    SBytes,
    SList,
    Star,
    StarDom,
    StarElem,
    StarList,
    atoms_of,
    cat,
    fs,
    is_str,
    mk,
    norm,
    s_chars,
    s_contains,
    s_eq,
    s_format,
    s_getitem,
    s_join,
    s_len,
    s_nonempty,
    s_to_int,
)
from .terms import (
    B,
    CTX,
    FDMAX,
    Infeasible,
    T,
    Unsupported,
    allowed_star,
    as_fd,
    choose,
    fint,
    hi_of,
    is_int,
    ivar,
    lo_of,
    mk_and,
    mk_eq,
    mk_fd,
    mk_le,
    mk_lt,
    mk_not,
    mk_or,
    t_add,
    t_div,
    t_mod,
    t_mul,
    t_sub,
)
from .values import FDO, POISON, UNBOUND, is_sym, lift_table, same_value, single_key, deep_sym

SYM_PACKAGE = "epcpy_sym"


# ------------------------------------------------------- lifting through tables
def lift_call(f, args, kw):
    """Apply a pure concrete function point-wise over one key."""
    key = None
    for x in list(args) + list(kw.values()):
        if is_sym(x):
            sk = single_key(x)
            if sk is None:
                return None
            if key is None:
                key = sk[0]
            elif not key.same(sk[0]):
                return None
    if key is None:
        return None
    n = key.hi + 1
    al = CTX.allowed(key)
    cols = [single_key(x)[1] if is_sym(x) else None for x in args]
    kcols = {k: single_key(x)[1] if is_sym(x) else None for k, x in kw.items()}
    tab, bad = [None] * n, {}
    for v in al:
        a = [x if c is None else c[v] for x, c in zip(args, cols)]
        k = {q: x if kcols[q] is None else kcols[q][v] for q, x in kw.items()}
        try:
            tab[v] = (f(*a, **k),)
        except Exception as e:  # grouped below
            bad.setdefault(type(e), (e, []))[1].append(v)
    for e, vs in bad.values():
        if CTX.truth(mk_fd(key, vs)):
            raise e
    ok = next(x for x in tab if x is not None)
    return (lift_table(key, [(x or ok)[0] for x in tab]),)


# ------------------------------------------------------------------ operators
OPS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
    "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
    ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "@": operator.matmul,
}


def binop(op, a, b):
    if not is_sym(a) and not is_sym(b):
        return OPS[op](a, b)
    if isinstance(a, FDO) or isinstance(b, FDO):
        r = lift_call(OPS[op], (a, b), {})
        if r is not None:
            return r[0]
        a, b = unfdo(a), unfdo(b)
        return binop(op, a, b)
    if isinstance(a, SList) or isinstance(b, SList):
        if op == "+":
            return list(a) + list(b)
    if is_str(a) or is_str(b):
        if op == "+" and is_str(a) and is_str(b):
            return cat(a, b)
        if op == "*":
            s, n = (a, b) if is_str(a) else (b, a)
            if is_int(n):
                if isinstance(n, T):
                    n = CTX.concretize(n)
                return cat(*([s] * n)) if n > 0 else ""
        if op == "%" and is_str(a):
            return percent_format(a, b)
        raise TypeError(f"unsupported operand type(s) for {op}")
    if isinstance(a, B):
        a = boolint(a)
    if isinstance(b, B):
        b = boolint(b)
    if is_int(a) and is_int(b):
        if op == "+":
            return t_add(a, b)
        if op == "-":
            return t_sub(a, b)
        if op == "*":
            return t_mul(a, b)
        if op == "%":
            return t_mod(a, b)
        if op == "//":
            return t_div(a, b)
        if op == "**" and isinstance(a, int) and isinstance(b, T):
            r = lift_call(pow, (a, b), {})
            if r:
                return r[0]
            return a ** CTX.concretize(b)
        r = lift_call(OPS[op], (a, b), {})
        if r is not None:
            return r[0]
        if op in ("<<", ">>", "&"):
            return OPS[op](a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if op == "*":
            l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            return l * CTX.concretize(n)
        if op == "+":
            return native(operator.add, (list(a) if isinstance(a, StarList) else a, b), {})
    if isinstance(a, StarList) or isinstance(b, StarList):
        if op == "+":
            ia = a.items if isinstance(a, StarList) else list(a)
            ib = b.items if isinstance(b, StarList) else list(b)
            return StarList(ia + ib)
    raise Unsupported(f"{type(a).__name__} {op} {type(b).__name__}")


def boolint(b):
    if isinstance(b, B):
        if b.kind == "fd":
            return fint(b.a, [1 if v in b.b else 0 for v in range(b.a.hi + 1)])
        return 1 if CTX.truth(b) else 0
    return b


def percent_format(a, b):
    if not isinstance(a, str):
        raise Unsupported("symbolic format string")
    args = b if isinstance(b, tuple) else (b,)
    out, i, last = [], 0, 0
    for m in re.finditer(r"%(?:(%)|(0?)(\d*)([sdxXbo]))", a):
        out.append(a[last: m.start()])
        last = m.end()
        if m.group(1):
            out.append("%")
            continue
        v = args[i]
        i += 1
        t = m.group(4)
        if t == "s":
            s = to_str(v)
            if m.group(3):
                s = rope.pad(s, int(m.group(3)), ">", " ")
        else:
            s = fmt(v, f"{m.group(2)}{m.group(3)}{t}")
        out.append(s)
    out.append(a[last:])
    if "%" in re.sub(r"%(?:(%)|(0?)(\d*)([sdxXbo]))", "", a) or i != len(args):
        raise Unsupported("percent format")
    return cat(*out)


def unop(op, a):
    if not is_sym(a):
        return {"-": operator.neg, "+": operator.pos, "~": operator.invert}[op](a)
    if isinstance(a, B):
        a = boolint(a)
    if op == "-" and is_int(a):
        return t_mul(a, -1)
    if op == "+" and is_int(a):
        return a
    raise Unsupported(f"unary {op}")


def not_(a):
    if isinstance(a, B):
        return mk_not(a)
    if isinstance(a, S):
        return mk_not(s_nonempty(a))
    if isinstance(a, rx.LazyMatch):
        return mk_not(a.cond())
    return not a


def eq(a, b):
    """Symbolic ==."""
    if isinstance(a, FDO) or isinstance(b, FDO):
        r = lift_call(operator.eq, (a, b), {})
        if r is not None:
            return r[0]
        return eq(unfdo(a), unfdo(b))
    if is_str(a) and is_str(b):
        return s_eq(a, b)
    if isinstance(a, B) and isinstance(b, (bool, B)) or isinstance(b, B) and isinstance(a, bool):
        return a == b
    if is_int(a) and is_int(b):
        return mk_eq(a, b)
    if isinstance(a, (S, T)) or isinstance(b, (S, T)):
        if isinstance(a, (S, T, str, int, float, list, tuple, dict, type(None))) and isinstance(
            b, (S, T, str, int, float, list, tuple, dict, type(None))
        ):
            return False
    if isinstance(a, SList) or isinstance(b, SList):
        a = a.force() if isinstance(a, SList) else a
        b = b.force() if isinstance(b, SList) else b
    if isinstance(a, (StarList, rx.TokSplit)):
        a = a.force()
    if isinstance(b, (StarList, rx.TokSplit)):
        b = b.force()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (deep_sym(a) or deep_sym(b)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return mk_and([eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, rx.LazyMatch) or isinstance(b, rx.LazyMatch):
        m, o = (a, b) if isinstance(a, rx.LazyMatch) else (b, a)
        if o is None:
            return mk_not(m.cond())
    return a == b


def contains(x, c):
    """x in c"""
    if isinstance(c, FDO):
        c = unfdo(c)
    if isinstance(x, FDO) and not isinstance(c, FDO):
        r = lift_call(lambda v: v in c, (x,), {}) if not deep_sym(c) else None
        if r is not None:
            return r[0]
        x = unfdo(x)
    if is_str(c):
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand")
        return s_contains(c, x)
    if isinstance(c, (SList, StarList, rx.TokSplit)):
        c = c.force() if not isinstance(c, SList) or c.tail is not None else list(c)
    if isinstance(c, range) and isinstance(x, T):
        if c.step == 1:
            return mk_and([mk_le(c.start, x), mk_lt(x, c.stop)])
        return mk_or([mk_eq(x, v) for v in c])
    if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "dict_values", "mappingproxy", "deque"):
        items = list(c)
        if is_sym(x) or any(is_sym(y) for y in items) or deep_sym(x) or deep_sym(items):
            if is_sym(x) and not any(is_sym(y) for y in items):
                sk = single_key(x)
                if sk is not None:
                    pool = [y for y in items if not isinstance(y, (list, dict))]
                    return mk_fd(sk[0], [v for v, t in enumerate(sk[1]) if any(t == y for y in pool)])
            return mk_or([eq(x, y) for y in items])
    return x in c


CMP = {
    "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
}


def compare(op, a, b):
    if op == "==":
        return eq(a, b) if (is_sym(a) or is_sym(b) or deep_sym(a) or deep_sym(b)) else a == b
    if op == "!=":
        if is_sym(a) or is_sym(b) or deep_sym(a) or deep_sym(b):
            return mk_not(eq(a, b))
        return a != b
    if op == "in":
        return contains(a, b)
    if op == "not in":
        return not_(contains(a, b))
    if op in ("is", "is not"):
        if isinstance(a, FDO) or isinstance(b, FDO):
            r = lift_call(operator.is_, (a, b), {})
            if r is None:
                r = (unfdo(a) is unfdo(b),)
            return r[0] if op == "is" else not_(r[0])
        if isinstance(a, rx.LazyMatch) and b is None:
            c = mk_not(a.cond())
            return c if op == "is" else mk_not(c)
        if isinstance(a, B) and isinstance(b, bool):
            r = a == b
            return r if op == "is" else mk_not(r)
        return (a is b) if op == "is" else (a is not b)
    if not is_sym(a) and not is_sym(b):
        return CMP[op](a, b)
    if isinstance(a, FDO) or isinstance(b, FDO):
        r = lift_call(CMP[op], (a, b), {})
        if r is not None:
            return r[0]
        return compare(op, unfdo(a), unfdo(b))
    a, b = boolint(a), boolint(b)
    if is_int(a) and is_int(b):
        if op == "<":
            return mk_lt(a, b)
        if op == "<=":
            return mk_le(a, b)
        if op == ">":
            return mk_lt(b, a)
        return mk_le(b, a)
    if is_str(a) and is_str(b):
        r = lift_call(CMP[op], (a, b), {})
        if r is not None:
            return r[0]
        return s_order(op, a, b)
    if isinstance(a, (T, S)) and isinstance(b, float) or isinstance(b, (T, S)) and isinstance(a, float):
        if isinstance(a, T):
            return compare(op, a, _fl(op, b, right=True))
        if isinstance(b, T):
            return compare(op, _fl(op, a, right=False), b)
    if (is_str(a) and (is_int(b) or b is None)) or (is_str(b) and (is_int(a) or a is None)):
        raise TypeError(f"'{op}' not supported between instances")
    raise Unsupported(f"comparison {op} of {type(a).__name__} and {type(b).__name__}")


def _fl(op, f, right):
    if f == int(f):
        return int(f)
    raise Unsupported("comparison with a fraction")


def s_order(op, a, b):
    ca, cb = s_chars(a), s_chars(b)
    for x, y in zip(ca, cb):
        if CTX.truth(s_eq(x, y)):
            continue
        ox, oy = do_ord(x), do_ord(y)
        return compare(op, ox, oy)
    return CMP[op](len(ca), len(cb))


def unfdo(x):
    """Fork an FDO into plain values."""
    if not isinstance(x, FDO):
        return x
    al = CTX.allowed(x.key)
    groups = []
    for v in al:
        o = x.table[v]
        for g in groups:
            if g[0] is o or same_value(g[0], o):
                g[1].append(v)
                break
        else:
            groups.append((o, [v]))
    for o, vs in groups[:-1]:
        if CTX.truth(mk_fd(x.key, vs)):
            return o
    return groups[-1][0]


# ------------------------------------------------------------------- indexing
def getitem(o, i):
    if isinstance(o, S):
        return s_getitem(o, fix_slice(i))
    if isinstance(o, FDO):
        r = lift_call(operator.getitem, (o, i), {}) if not isinstance(i, slice) else None
        if r is not None:
            return r[0]
        return getitem(unfdo(o), i)
    if isinstance(i, slice):
        if isinstance(o, str) and any(isinstance(x, T) for x in (i.start, i.stop, i.step)):
            return s_getitem(o, i) if False else rope.s_slice(o, i.start, i.stop, i.step)
        return o[fix_slice(i, True)]
    if not is_sym(i):
        if isinstance(o, dict) and deep_sym(i):
            return dict_get(o, i)
        return o[i]
    if isinstance(o, dict) or type(o) is types.MappingProxyType:
        return dict_get(o, i)
    if isinstance(o, type) and issubclass(o, __import__("enum").Enum):
        r = lift_call(lambda k: o[k], (i,), {})
        if r is None:
            for m in o.__members__:
                if CTX.truth(eq(i, m)):
                    return o[m]
            raise KeyError(i)
        return r[0]
    if isinstance(o, (list, tuple, str, range)) and isinstance(i, (T, B)):
        i = boolint(i)
        if isinstance(i, int):
            return o[i]
        if not deep_sym(o):
            r = lift_call(lambda k: o[k], (i,), {})
            if r is not None:
                return r[0]
        return o[CTX.concretize(i)]
    if isinstance(i, FDO):
        return getitem(o, unfdo(i))
    if hasattr(type(o), "__class_getitem__") or hasattr(o, "__class_getitem__"):
        return o[i]
    if isinstance(o, (str, list, tuple)):
        raise TypeError("indices must be integers or slices")
    return o[i]


def fix_slice(i, full=False):
    if not isinstance(i, slice):
        return boolint(i) if isinstance(i, B) else i
    if not full:
        return i
    f = lambda v: CTX.concretize(v) if isinstance(v, T) else v
    return slice(f(i.start), f(i.stop), f(i.step))


_MISSING = object()


def dict_get(d, key, default=_MISSING):
    if isinstance(key, (S, T, FDO)) and not any(is_sym(k) or deep_sym(k) for k in d):
        sk = single_key(key)
        if sk is not None:
            al = CTX.allowed(sk[0])
            miss = [v for v in al if sk[1][v] not in d]
            if miss:
                if CTX.truth(mk_fd(sk[0], miss)):
                    if default is _MISSING:
                        raise KeyError("<symbolic>")
                    return default
            hit = next(v for v in al if sk[1][v] in d)
            return lift_table(sk[0], [d[t] if v in al and t in d else d[sk[1][hit]] for v, t in enumerate(sk[1])])
    for k, v in list(d.items()):
        if CTX.truth(eq(k, key)):
            return v
    if default is _MISSING:
        raise KeyError("<symbolic>")
    return default


def setitem(o, i, v):
    if is_sym(i) or deep_sym(i):
        if isinstance(o, dict):
            for k in list(o):
                if CTX.truth(eq(k, i)):
                    o[k] = v
                    return
            raise Unsupported("symbolic dictionary key stored")
        i = fix_slice(i, True)
        if isinstance(i, T):
            i = CTX.concretize(i)
    o[i] = v


# ----------------------------------------------------------------- formatting
LENIENT = [0]


def to_str(v):
    if isinstance(v, S):
        return v
    if isinstance(v, T):
        return s_format(v, "")
    if isinstance(v, B):
        if v.kind == "fd":
            return FSs(v.a, ["True" if x in v.b else "False" for x in range(v.a.hi + 1)])
        return "True" if CTX.truth(v) else "False"
    if isinstance(v, FDO):
        r = lift_call(str, (v,), {})
        if r is not None:
            return r[0]
        return to_str(unfdo(v))
    if isinstance(v, (SList, StarList)):
        raise Unsupported("str() of a symbolic list")
    return str(v)


def fmt(v, spec=""):
    if isinstance(v, FDO):
        r = lift_call(format, (v, spec), {})
        if r is not None:
            return r[0]
        v = unfdo(v)
    if isinstance(v, T) and rope.havocked(v):
        return s_format(v, "")
    if isinstance(v, T):
        r = single_key(v)
        if r is not None and isinstance(spec, str):
            r = lift_call(format, (v, spec), {})
            if r is not None:
                return r[0]
        return s_format(v, spec)
    if isinstance(v, (S, B)):
        return s_format(v, spec)
    if isinstance(spec, S):
        spec = rope.CTX_str(spec)
    return format(v, spec)


def fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, (str, S)):
            out.append(p)
        else:
            v, conv, spec = p
            if conv == "s":
                v = to_str(v)
            elif conv in ("r", "a"):
                if is_sym(v) or deep_sym(v):
                    if LENIENT[0]:
                        out.append("<?>")
                        continue
                    raise Unsupported("repr of a symbolic value")
                v = repr(v) if conv == "r" else ascii(v)
            out.append(fmt(v, spec))
    return cat(*out)


def fstring_lenient(*parts):
    """f-string of an error message: opaque pieces become a place holder."""
    out = []
    for p in parts:
        if isinstance(p, (str, S)):
            out.append("<?>" if isinstance(p, S) else p)
        else:
            v, conv, spec = p
            if is_sym(v) or deep_sym(v) or is_sym(spec) or (hasattr(v, "__dict__") and not isinstance(v, type)):
                out.append("<?>")
            else:
                out.append(fstring(p))
    return "".join(out)


# ------------------------------------------------------------------- builtins
def do_len(x):
    if isinstance(x, S):
        return s_len(x)
    if isinstance(x, FDO):
        r = lift_call(len, (x,), {})
        return r[0] if r else len(unfdo(x))
    if isinstance(x, SList) and x.tail is not None:
        return len(x.force())
    return len(x)


def do_int(x=0, base=None):
    if base is None:
        if isinstance(x, S):
            return s_to_int(x, 10)
        if isinstance(x, T):
            return x
        if isinstance(x, B):
            return boolint(x)
        if isinstance(x, FDO):
            r = lift_call(int, (x,), {})
            return r[0] if r else do_int(unfdo(x))
        return int(x)
    if isinstance(base, T):
        base = CTX.concretize(base)
    if isinstance(x, S):
        return s_to_int(x, base)
    if isinstance(x, (T, B)):
        raise TypeError("int() can't convert non-string with explicit base")
    if isinstance(x, FDO):
        return do_int(unfdo(x), base)
    return int(x, base)


def do_ord(x):
    if isinstance(x, S):
        r = lift_call(ord, (x,), {})
        if r is not None:
            return r[0]
        c = s_chars(x)
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return do_ord(c[0])
    return ord(unfdo(x))


def do_chr(x):
    if isinstance(x, T):
        r = lift_call(chr, (x,), {})
        if r is not None:
            return r[0]
        raise Unsupported(f"chr() of a number over several keys {repr(x)[:300]}")
    return chr(unfdo(x))


def do_isinstance(x, c):
    if isinstance(x, FDO):
        r = lift_call(lambda v: isinstance(v, c), (x,), {})
        return r[0]
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(x, S):
        return any(k in (str, object) or getattr(k, "__name__", "") in ("Sequence", "Iterable", "Hashable") for k in cs)
    if isinstance(x, T):
        return any(k in (int, object) or getattr(k, "__name__", "") in ("Number", "Integral") for k in cs)
    if isinstance(x, B):
        return any(k in (int, bool, object) for k in cs)
    if isinstance(x, rx.LazyMatch) or isinstance(x, rx.SMatch):
        return re.Match in cs
    if isinstance(x, (StarList, rx.TokSplit)):
        return list in cs
    return isinstance(x, c)


def do_type(x, *r):
    if r:
        return type(x, *r)
    if isinstance(x, S):
        return str
    if isinstance(x, T):
        return int
    if isinstance(x, B):
        return bool
    if isinstance(x, FDO):
        ts = {type(x.table[v]) for v in CTX.allowed(x.key)}
        return ts.pop() if len(ts) == 1 else type(unfdo(x))
    if isinstance(x, (SList, StarList, rx.TokSplit)):
        return list
    return type(x)


def do_bool(x=False):
    if isinstance(x, B):
        return x
    if isinstance(x, S):
        return s_nonempty(x)
    if isinstance(x, T):
        return mk_not(mk_eq(x, 0))
    if isinstance(x, rx.LazyMatch):
        return x.cond()
    return bool(x)


def do_map(f, *its):
    if len(its) == 1:
        return comp("list", lambda x: call(f, x), its[0], None)
    return [call(f, *xs) for xs in zip(*[iterate(i) for i in its])]


def do_filter(f, it):
    out = []
    for x in iterate(it):
        c = x if f is None else call(f, x)
        if do_bool(c) if is_sym(c) else c:
            out.append(x)
    return out


def do_list(x=()):
    if isinstance(x, StarList):
        return StarList(list(x.items))
    if isinstance(x, SList):
        return SList(list(rope.slist_items(x)), x.tail, x.sep)
    if isinstance(x, rx.TokSplit):
        return x
    return list(iterate(x))


def do_tuple(x=()):
    return tuple(iterate(x))


def do_sum(x, start=0):
    r = start
    if isinstance(x, StarList):
        x = x.force()
    for v in iterate(x):
        r = binop("+", r, v)
    return r


def do_any(x):
    acc = []
    for v in iterate(x):
        b = do_bool(v)
        if b is True:
            return True if not acc else mk_or(acc + [True])
        if b is not False:
            acc.append(b)
    return mk_or(acc)


def do_all(x):
    acc = []
    for v in iterate(x):
        b = do_bool(v)
        if b is False:
            return False
        if b is not True:
            acc.append(b)
    return mk_and(acc)


def do_minmax(name):
    def f(*a, **k):
        items = list(iterate(a[0])) if len(a) == 1 else list(a)
        if not any(is_sym(x) for x in items) and not k:
            return getattr(builtins, name)(items)
        if k:
            raise Unsupported(f"{name} with options")
        best = items[0]
        for x in items[1:]:
            r = lift_call(getattr(builtins, name), (best, x), {})
            if r is not None:
                best = r[0]
            elif CTX.truth(compare("<" if name == "min" else ">", x, best)):
                best = x
        return best

    return f


def do_pow(a, b, m=None):
    if m is not None:
        if is_sym(a) or is_sym(b) or is_sym(m):
            raise Unsupported("modular power")
        return pow(a, b, m)
    return binop("**", a, b)


def do_range(*a):
    return range(*[CTX.concretize(x) if isinstance(x, T) else x for x in a])


def do_enumerate(x, start=0):
    return list(enumerate(iterate(x), start))


def do_zip(*xs, strict=False):
    return list(zip(*[iterate(x) for x in xs]))


def do_reversed(x):
    if isinstance(x, S):
        return s_chars(x)[::-1]
    return list(iterate(x))[::-1]


def do_sorted(x, **k):
    items = list(iterate(x))
    if any(is_sym(v) for v in items):
        raise Unsupported("sorting symbolic values")
    return sorted(items, **k)


def do_bin(x):
    return prefixed("0b", x, "b") if isinstance(x, T) else bin(x)


def do_hex(x):
    return prefixed("0x", x, "x") if isinstance(x, T) else hex(x)


def prefixed(p, x, typ):
    if rope.is_negative(x):
        return cat("-" + p, s_format(binop("-", 0, x), typ))
    return cat(p, s_format(x, typ))


def do_divmod(a, b):
    return binop("//", a, b), binop("%", a, b)


def do_str(x="", *a):
    if isinstance(x, SBytesB64) or isinstance(x, SBytes):
        return x.decode(*a)
    return to_str(x)


def do_iter(x):
    return iter(list(iterate(x)))


def do_getattr(o, name, *d):
    if isinstance(name, S):
        name = rope.CTX_str(name)
    return getattr(o, name, *d)


def do_round(x, *a):
    return x if isinstance(x, T) and not a else round(x, *a)


def do_abs(x):
    if isinstance(x, T):
        if lo_of(x) is not None and lo_of(x) >= 0:
            return x
        return x if CTX.truth(mk_le(0, x)) else t_mul(x, -1)
    return abs(x)


def do_set(x=()):
    items = list(iterate(x))
    if any(is_sym(v) for v in items):
        raise Unsupported("set of symbolic values")
    return set(items)


def do_float(x=0.0):
    if is_sym(x):
        raise Unsupported("float of a symbolic value")
    return float(x)


def do_print(*a, **k):
    return None


def do_format(v, spec=""):
    return fmt(v, spec)


def do_reduce(f, it, *init):
    items = list(iterate(it))
    if init:
        acc = init[0]
    else:
        if not items:
            raise TypeError("reduce() of empty iterable with no initial value")
        acc = items.pop(0)
    for x in items:
        acc = call(f, acc, x)
    return acc


def do_next(it, *d):
    return next(it, *d)


def do_chain(*its):
    return [x for i in its for x in iterate(i)]


# -- base64 (assumed contract: b64decode is a left inverse of b64encode; the
#    encoded text consists of characters of the base64 alphabet)
B64ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="


class _B64Tag:
    def __eq__(self, o):
        return isinstance(o, _B64Tag)

    def __hash__(self):
        return 64

    def __repr__(self):
        return "b64"

    @staticmethod
    def concrete(hexs):
        return _b64.b64encode(bytes.fromhex(hexs)).decode()


class SHexBytes:
    """bytes given by a rope of hexadecimal digits (even length)."""

    def __init__(self, hexs):
        self.hexs = hexs

    def hex(self, *a):
        if a:
            raise Unsupported("bytes.hex with separators")
        return rope.m_lower(self.hexs) if isinstance(self.hexs, S) else self.hexs.lower()

    def __len__(self):
        return len(self.hexs) // 2


class SBytesB64:
    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s


SBytes.decode = lambda self, *a, **k: self.s


def octets(b):
    """The integers of symbolic bytes."""
    if isinstance(b, SHexBytes):
        n = do_len(b.hexs)
        if isinstance(n, T):
            raise Unsupported("bytes of unknown number")
        return [do_int(getitem(b.hexs, slice(i, i + 2)), 16) for i in range(0, n, 2)]
    if isinstance(b, SBytes):
        return [do_ord(c) for c in s_chars(b.s)]
    raise Unsupported("octets of base64 text")


def do_hexlify(b, *a, **k):
    if a or k or not isinstance(b, SHexBytes):
        return native(binascii.hexlify, (b, *a), k)
    return SBytes(b.hex())


def to_bytes(x, length=1, byteorder="big", **kw):
    """int.to_bytes of a term: its hexadecimal digits."""
    if kw or byteorder != "big" or isinstance(length, T):
        raise Unsupported("int.to_bytes")
    if not CTX.truth(mk_le(0, x)) or not CTX.truth(mk_lt(x, 256 ** length)):
        raise OverflowError("int too big to convert")
    return SHexBytes(s_format(x, f"0{2 * length}x"))


def from_bytes(b, byteorder="big", **kw):
    if kw or byteorder != "big" or not isinstance(b, SHexBytes):
        raise Unsupported("int.from_bytes")
    return do_int(b.hexs, 16)


def do_fromhex(h):
    if not isinstance(h, S):
        return bytes.fromhex(h)
    h = norm(h)
    if isinstance(h, str):
        return bytes.fromhex(h)
    ok = rx.rx_fullmatch(rx.compile_rx("([0-9a-fA-F]{2})*"), h)
    if not CTX.truth(ok):
        raise Unsupported("bytes.fromhex of text that is not plain hexadecimal")
    n = s_len(h)
    if isinstance(n, T):
        h = rope._simple(h)
    return SHexBytes(h)


def do_b64encode(b):
    if not isinstance(b, SHexBytes):
        return _b64.b64encode(b)
    h = rope.m_upper(b.hexs) if isinstance(b.hexs, S) else b.hexs.upper()
    if isinstance(h, str):
        return _b64.b64encode(bytes.fromhex(h))
    n = s_len(h)
    return SBytesB64(S((Opq(_B64Tag(), h, B64ALPHA, (n // 2 + 2) // 3 * 4),)))


def std_base64(h):
    """Specification text: standard base64 of the bytes in hexadecimal h."""
    r = do_b64encode(SHexBytes(h))
    return r.decode("ascii") if isinstance(r, bytes) else r.s


def do_b64decode(s, *a, **k):
    if isinstance(s, (SBytes, SBytesB64)):
        s = s.s
    if not isinstance(s, S):
        return _b64.b64decode(s, *a, **k)
    if a or k:
        raise Unsupported("b64decode options")
    if any(isinstance(x, str) and not x.isascii() for x in s.a):
        raise ValueError("string argument should contain only ASCII characters")
    # characters outside the alphabet are skipped
    at = [x if not isinstance(x, str) else "".join(c for c in x if c in B64ALPHA) for x in s.a]
    at = [x for x in at if x != ""]
    if isinstance(at[0], Opq) and isinstance(at[0].tag, _B64Tag) and all(
        isinstance(x, str) and not x.strip("=") for x in at[1:]
    ):
        return SHexBytes(at[0].arg)
    if rope.moded(s) is not None:
        # contract of b64decode on any text: some bytes, or ValueError
        if choose("b64decode fails"):
            raise ValueError("base64 <symbolic>")
        return SHexBytes(rope.any_text("bytes", "0123456789abcdef"))
    raise Unsupported("b64decode of arbitrary text")


def do_fullmatch(p, s, flags=0):
    return re_op("fullmatch", p, s, flags)


def re_op(how, p, s, flags=0):
    if isinstance(p, FDO):
        p = unfdo(p)
    if not isinstance(s, S):
        if isinstance(p, re.Pattern):
            return getattr(p, how)(unfdo(s))
        return getattr(re, how)(p, unfdo(s), flags)
    return rx.re_match(rx.compile_rx(p, flags), s, how)


def do_resplit(p, s, maxsplit=0, flags=0):
    if isinstance(maxsplit, T):
        maxsplit = CTX.concretize(maxsplit)
    return rx.re_split(p, s, maxsplit, flags)


def do_resub(p, repl, s, count=0, flags=0):
    if callable(repl):
        r0 = repl
        repl = lambda m: call(r0, m)
    return rx.re_sub(p, repl, s, count, flags)


def do_refindall(p, s, flags=0):
    return rx.re_findall(p, s, flags)


BUILTINS = {
    len: do_len, int: do_int, ord: do_ord, chr: do_chr, isinstance: do_isinstance, type: do_type,
    bool: do_bool, map: do_map, filter: do_filter, list: do_list, tuple: do_tuple, sum: do_sum,
    any: do_any, all: do_all, min: do_minmax("min"), max: do_minmax("max"), pow: do_pow,
    range: do_range, enumerate: do_enumerate, zip: do_zip, reversed: do_reversed, sorted: do_sorted,
    bin: do_bin, hex: do_hex, divmod: do_divmod, str: do_str, iter: do_iter, getattr: do_getattr,
    round: do_round, abs: do_abs, set: do_set, frozenset: do_set, float: do_float, print: do_print,
    format: do_format, functools.reduce: do_reduce, itertools.chain: do_chain,
    bytes.fromhex: do_fromhex, _b64.b64encode: do_b64encode, _b64.b64decode: do_b64decode,
    _b64.standard_b64encode: do_b64encode, _b64.standard_b64decode: do_b64decode,
    binascii.hexlify: do_hexlify, binascii.b2a_hex: do_hexlify,
    binascii.unhexlify: do_fromhex, binascii.a2b_hex: do_fromhex,
    re.fullmatch: do_fullmatch,
    re.match: lambda p, s, flags=0: re_op("match", p, s, flags),
    re.search: lambda p, s, flags=0: re_op("search", p, s, flags),
    re.split: do_resplit, re.sub: do_resub, re.findall: do_refindall,
    re.finditer: lambda p, s, flags=0: rx.re_finditer(p, s, flags),
    operator.add: lambda a, b: binop("+", a, b), operator.mul: lambda a, b: binop("*", a, b),
    operator.sub: lambda a, b: binop("-", a, b), operator.mod: lambda a, b: binop("%", a, b),
}
# handlers that must run even when the arguments look concrete, because a
# callable or an iterable argument may carry symbolic values
ALWAYS = {map, filter, functools.reduce, any, all, sum, list, tuple, enumerate, zip, reversed, sorted, iter, min, max,
          itertools.chain, re.sub}
PURE_NATIVE = {ord, chr, len, int, str, abs, hash, hex, bin, oct, repr, bool}


def native(f, args, kw):
    """Call a native function with symbolic arguments and hope for dunders."""
    try:
        return f(*args, **kw)
    except (TypeError, AttributeError) as e:
        raise Unsupported(f"native {getattr(f, '__name__', f)}: {e}")


CONTRACTS = {}


def call(f, *args, **kw):
    if isinstance(f, FDO):
        f = unfdo(f)
    try:
        h = BUILTINS.get(f)
    except TypeError:
        h = None
    if h is not None:
        if f in ALWAYS or any(is_sym(x) or type(x) in SPECIAL for x in args) or any(is_sym(x) for x in kw.values()):
            return h(*args, **kw)
        if any(deep_sym(x) for x in args):
            return h(*args, **kw)
        return f(*args, **kw)
    if isinstance(f, types.FunctionType):
        if f.__module__.startswith(SYM_PACKAGE):
            c = CONTRACTS.get(f)
            if c is not None:
                r = c(*args, **kw)
                if r is not None:
                    return r[0]
            if getattr(f, "__vt_pure__", False) and (any(is_sym(x) or deep_sym(x) for x in args) or any(is_sym(x) for x in kw.values())):
                return region(lambda: f(*args, **kw))
            return f(*args, **kw)
        if any(is_sym(x) or deep_sym(x) for x in args):
            return native(f, args, kw)
        return f(*args, **kw)
    if isinstance(f, functools._lru_cache_wrapper) and (
        any(is_sym(x) or deep_sym(x) for x in args) or any(is_sym(x) for x in kw.values())
    ):
        return call(f.__wrapped__, *args, **kw)
    if isinstance(f, types.MethodType):
        return f(*args, **kw)
    if isinstance(f, (types.BuiltinMethodType, types.BuiltinFunctionType)):
        so = getattr(f, "__self__", None)
        if so is not None and not isinstance(so, types.ModuleType) and not isinstance(so, type):
            return callm(so, f.__name__, *args, **kw)
        if any(is_sym(x) or deep_sym(x) for x in args) or any(is_sym(x) for x in kw.values()):
            if f in PURE_NATIVE:
                r = lift_call(f, args, kw)
                if r is not None:
                    return r[0]
            return native(f, args, kw)
        return f(*args, **kw)
    if isinstance(f, type):
        if issubclass(f, BaseException) or f.__module__.startswith(SYM_PACKAGE) and not _is_enum(f):
            return f(*args, **kw)
        if any(is_sym(x) for x in args):
            if _is_enum(f):
                r = lift_call(f, args, kw)
                if r is not None:
                    return r[0]
                for m in f:
                    if CTX.truth(eq(args[0], m.value)):
                        return m
                raise ValueError(f"not a valid {f.__name__}")
            if f is dict:
                return dict(*args, **kw)
            return native(f, args, kw)
        return f(*args, **kw)
    if isinstance(f, types.MethodDescriptorType) and args:
        # str.upper(x) and the like
        return callm(args[0], f.__name__, *args[1:], **kw)
    if any(is_sym(x) or deep_sym(x) for x in args) and not _sym_callable(f):
        return native(f, args, kw)
    return f(*args, **kw)


def _sym_callable(f):
    m = getattr(f, "__module__", None) or getattr(type(f), "__module__", "")
    return isinstance(m, str) and (m.startswith(SYM_PACKAGE) or m.startswith("vt."))


def _is_enum(f):
    import enum

    return issubclass(f, enum.Enum)


SPECIAL = (SHexBytes, SBytesB64, SBytes)
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"}


def callm(o, name, *args, **kw):
    """Method call o.name(*args)."""
    if isinstance(o, S):
        m = METHODS.get(name)
        if m is not None:
            args = tuple(boolint(x) if isinstance(x, B) else x for x in args)
            if any(isinstance(x, FDO) for x in args):
                args = tuple(unfdo(x) for x in args)
            try:
                return m(o, *args, **kw)
            except Unsupported:
                r = None
                if all(not is_sym(x) for x in args):
                    r = lift_call(lambda v: getattr(v, name)(*args, **kw), (o,), {})
                if r is None:
                    raise
                return r[0]
        if hasattr(str, name):
            r = lift_call(lambda v, *a: getattr(v, name)(*a, **kw), (o,) + args, {})
            if r is not None:
                return r[0]
            raise Unsupported(f"str.{name}")
        raise AttributeError(f"'str' object has no attribute '{name}'")
    if isinstance(o, str):
        if name == "join" and len(args) == 1:
            it = args[0]
            if isinstance(it, (S, SList, StarList, rx.TokSplit)):
                return s_join(o, it if not isinstance(it, rx.TokSplit) else it.force())
            items = list(iterate(it))
            if any(is_sym(x) for x in items):
                items = [unfdo(x) for x in items]
                return s_join(o, items)
            return o.join(items)
        if name == "format":
            if any(is_sym(x) for x in args) or any(is_sym(x) for x in kw.values()):
                return str_format(o, args, kw)
        if name == "maketrans":
            return o.maketrans(*args)
        if any(is_sym(x) or deep_sym(x) for x in args) or any(is_sym(x) for x in kw.values()):
            r = lift_call(lambda *a: getattr(o, name)(*a), args, {}) if not kw else None
            if r is not None:
                return r[0]
            m = METHODS.get(name)
            if m is None:
                raise Unsupported(f"str.{name}")
            return m(o, *args, **kw)
        return getattr(o, name)(*args, **kw)
    if isinstance(o, re.Pattern):
        if name in ("match", "fullmatch", "search"):
            if len(args) == 1 and not kw:
                return re_op(name, o, args[0])
            if any(is_sym(x) for x in args):
                raise Unsupported("pattern method with positions")
        if any(is_sym(x) for x in args) or name == "sub":
            if name == "split":
                return do_resplit(o, *args, **kw)
            if name == "sub":
                return do_resub(o, *args, **kw)
            if name == "findall":
                return rx.re_findall(o, *args)
            if name == "finditer":
                return rx.re_finditer(o, *args)
            raise Unsupported(f"pattern.{name}")
        return getattr(o, name)(*args, **kw)
    if isinstance(o, types.ModuleType):
        return call(getattr(o, name), *args, **kw)
    if isinstance(o, FDO):
        if not any(is_sym(x) or deep_sym(x) for x in args):
            al = CTX.allowed(o.key)
            if not any(isinstance(o.table[v], (list, dict, set)) or _sym_callable(type(o.table[v])) for v in al):
                r = lift_call(lambda v: getattr(v, name)(*args, **kw), (o,), {})
                if r is not None:
                    return r[0]
        return callm(unfdo(o), name, *args, **kw)
    if isinstance(o, (SList, StarList, rx.TokSplit)):
        if name == "copy":
            return do_list(o)
        if isinstance(o, SList) and o.tail is None:
            return list_method(o, name, args, kw)
        raise Unsupported(f"list.{name} on an undetermined list")
    if isinstance(o, list):
        return list_method(o, name, args, kw)
    if isinstance(o, dict) or isinstance(o, types.MappingProxyType):
        if args and (is_sym(args[0]) or deep_sym(args[0])):
            if name == "get":
                return dict_get(o, args[0], args[1] if len(args) > 1 else kw.get("default"))
            if name in ("keys", "values", "items", "update", "copy"):
                return getattr(o, name)(*args, **kw)
            raise Unsupported(f"dict.{name} with a symbolic key")
        return getattr(o, name)(*args, **kw)
    if isinstance(o, tuple) and name in ("index", "count"):
        return list_method(list(o), name, args, kw)
    if isinstance(o, type) and o is bytes and name == "fromhex":
        return do_fromhex(*args)
    if isinstance(o, type) and o in (str, list, dict, int) and args and is_sym(args[0]):
        if name == "fromkeys" or name == "maketrans":
            raise Unsupported(name)
        return callm(args[0], name, *args[1:], **kw)
    if isinstance(o, type) and o is itertools.chain and name == "from_iterable":
        return [x for i in iterate(args[0]) for x in iterate(i)]
    if isinstance(o, T):
        if name == "bit_length":
            r = lift_call(int.bit_length, (o,), {})
            if r:
                return r[0]
            n = s_len(s_format(o, "b"))
            return n
        if name == "to_bytes":
            return to_bytes(o, *args, **kw)
        raise Unsupported(f"int.{name}")
    if o is int and name == "from_bytes" and args and isinstance(args[0], SPECIAL):
        return from_bytes(*args, **kw)
    if isinstance(o, int) and name in ("from_bytes", "to_bytes") and any(is_sym(x) for x in args):
        raise Unsupported(name)
    f = getattr(o, name)
    if isinstance(o, (rx.LazyMatch, rx.SMatch) + SPECIAL):
        return f(*args, **kw)
    if isinstance(f, (types.BuiltinMethodType,)):
        if any(is_sym(x) or deep_sym(x) for x in args) or any(is_sym(x) for x in kw.values()):
            return native(f, args, kw)
        return f(*args, **kw)
    return call(f, *args, **kw)


def list_method(o, name, args, kw):
    if name == "extend":
        o.extend(list(iterate(args[0])))
        return None
    if name == "pop" and args and isinstance(args[0], T):
        return o.pop(CTX.concretize(args[0]))
    if name in ("index", "count", "remove"):
        x = args[0]
        if deep_sym(o) or is_sym(x) or deep_sym(x):
            if name == "count":
                n = 0
                for y in o:
                    n = t_add(n, boolint(eq(y, x)))
                return n
            a = args[1] if len(args) > 1 else 0
            b = args[2] if len(args) > 2 else len(o)
            for i in range(a, min(b, len(o))):
                if CTX.truth(eq(o[i], x)):
                    if name == "remove":
                        del o[i]
                        return None
                    return i
            raise ValueError("list.index(x): x not in list")
    if name == "sort" and deep_sym(o):
        raise Unsupported("sorting symbolic values")
    return getattr(o, name)(*args, **kw)


def str_format(o, args, kw):
    import string

    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None:
            continue
        if "{" in (spec or ""):
            def sub(m):
                nonlocal auto
                k = m.group(1)
                if k == "":
                    k = auto
                    auto += 1
                    v = args[k]
                elif k.isdigit():
                    v = args[int(k)]
                else:
                    v = kw[k]
                if is_sym(v):
                    v = CTX.concretize(v)
                return str(v)

        m = re.fullmatch(r"(\w*)", field)
        if not m:
            raise Unsupported("format field")
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kw[field]
        if "{" in (spec or ""):
            spec = re.sub(r"\{(\w*)\}", sub, spec)
        if conv == "s":
            v = to_str(v)
        elif conv:
            raise Unsupported("format conversion")
        out.append(fmt(v, spec or ""))
    return cat(*out)


# ------------------------------------------------------------------ iteration
def iterate(it):
    """A python iterable for native iteration."""
    if isinstance(it, S):
        return s_chars(it)
    if isinstance(it, SPECIAL):
        return octets(it)
    if isinstance(it, FDO):
        return iterate(unfdo(it))
    if isinstance(it, SList):
        return it.force() if it.tail is not None else list(rope.slist_items(it))
    if isinstance(it, (StarList, rx.TokSplit)):
        return it.force()
    return it


def unpack(v, before, star, after):
    """Values for a tuple-unpacking assignment."""
    if isinstance(v, FDO):
        v = unfdo(v)
    if isinstance(v, SList) and v.tail is not None:
        n = rope.slist_n(v)
        if star and not after and n >= before:
            items = list(rope.slist_items(v))
            return items[:before] + [SList(items[before:], v.tail, v.sep)]
        v = v.force()
    elif isinstance(v, (S, StarList, rx.TokSplit)):
        v = list(iterate(v))
    elif not isinstance(v, (list, tuple)):
        v = list(v)
    v = list(v)
    n = len(v)
    if star:
        if n < before + after:
            raise ValueError(f"not enough values to unpack (expected at least {before + after}, got {n})")
        return v[:before] + [v[before: n - after]] + v[n - after:]
    if n < before:
        raise ValueError(f"not enough values to unpack (expected {before}, got {n})")
    if n > before:
        raise ValueError(f"too many values to unpack (expected {before})")
    return v


def ifexp(c, a, b):
    if isinstance(c, B):
        d = CTX.decide(c)
        if d is not None:
            return a() if d else b()
        return region(lambda: a() if CTX.truth(c) else b())
    if isinstance(c, rx.LazyMatch):
        return ifexp(c.cond(), a, b)
    if isinstance(c, S):
        return ifexp(s_nonempty(c), a, b)
    if isinstance(c, T):
        return ifexp(mk_not(mk_eq(c, 0)), a, b)
    return a() if c else b()


def _elem(f, x):
    if is_sym(x) or deep_sym(x):
        return region(lambda: f(x))
    return f(x)


def comp(kind, f, it, cond, f2=None):
    """Single-generator comprehensions."""
    if isinstance(it, FDO):
        it = unfdo(it)
    if isinstance(it, S) and cond is None and kind in ("list", "gen"):
        it = norm(it)
        if isinstance(it, S) and (any(isinstance(x, Star) and x.flen == 1 for x in it.a)):
            return star_comp(f, it)
        if isinstance(it, S) and any(isinstance(x, FS) and x.flen is None for x in it.a):
            pass
    if isinstance(it, StarList) and cond is None and kind in ("list", "gen") and any(isinstance(x, StarElem) for x in it.items):
        out = []
        for x in it.items:
            if isinstance(x, StarElem):
                out.append(StarElem(x.dom, generic_table(f, x.dom, x.table)))
            else:
                out.append(_elem(f, x))
        return StarList(out)
    items = iterate(it)
    if kind == "gen":
        def gen():
            for x in items:
                if cond is None or truthy(cond(x)):
                    yield _elem(f, x)

        return gen()
    if kind == "dict":
        out = {}
        for x in items:
            if cond is None or truthy(cond(x)):
                k = f(x)
                if is_sym(k):
                    raise Unsupported("symbolic dictionary key")
                out[k] = f2(x)
        return out
    out = []
    for x in items:
        if cond is None or truthy(cond(x)):
            out.append(_elem(f, x))
    if kind == "set":
        if any(is_sym(v) for v in out):
            raise Unsupported("set of symbolic values")
        return set(out)
    return out


def truthy(c):
    if isinstance(c, B):
        return CTX.truth(c)
    return bool(c)


def star_comp(f, s):
    out = []
    for x in s.a:
        if isinstance(x, Star) and x.flen == 1:
            out.append(StarElem(x.dom, generic_table(f, x.dom, x.table)))
        elif isinstance(x, Star):
            raise Unsupported("comprehension over a star of tokens")
        else:
            for c in s_chars(mk([x])):
                out.append(_elem(f, c))
    return StarList(out)


def generic_table(f, dom, table):
    """f applied to each element of a star domain, as a table."""
    al = allowed_star(dom)
    tab = [None] * dom.size
    memo = {}
    d = None
    for v in al:
        t = table[v]
        if t not in memo:
            r = f(t)
            if is_sym(r) or deep_sym(r):
                raise Unsupported("symbolic result for a generic element")
            memo[t] = r
        tab[v] = memo[t]
        d = v
    return tuple(tab[d] if x is None else x for x in tab)


#: functions of the library entered by symbolic executions
ENTERED = set()
enter = ENTERED.add


# ----------------------------------------------------------------------- loops
NORMAL, BREAK, RETURN = 0, 1, 2


def copy_state(st):
    out = []
    for x in st:
        if type(x) is list:
            x = list(x)
        elif type(x) is dict:
            x = dict(x)
        elif type(x) is set:
            x = set(x)
        out.append(x)
    return out


def run_body(body, item, state, pure):
    if not pure:
        return body(item, *state)
    if not (is_sym(item) or deep_sym(item) or any(is_sym(x) or deep_sym(x) for x in state)):
        return body(item, *state)
    return region(lambda: body(item, *copy_state(state)), group=lambda r: r[0])


def loop(it, body, state, pure):
    """for-loop: returns (signal, state[, value])."""
    if isinstance(it, FDO):
        it = unfdo(it)
    if isinstance(it, rx.TokSplit):
        r = tok_loop(it, body, state, pure)
        if r is not None:
            return r
        it = it.force()
    if isinstance(it, S):
        it = norm(it)
        if isinstance(it, S):
            return rope_loop(it, body, state, pure)
    for item in iterate(it):
        r = run_body(body, item, state, pure)
        state = r[1]
        if r[0] != NORMAL:
            return r
    return (NORMAL, state)


def rope_loop(s, body, state, pure):
    """Iterate over the characters of a rope, variable-length atoms as units."""
    for x in s.a:
        if isinstance(x, FS) and x.flen is None and pure:
            def unit(x=x, state=state):
                st = copy_state(state)
                y = rope.fix_len(x)
                for c in s_chars(y):
                    r = body(c, *st)
                    st = r[1]
                    if r[0] != NORMAL:
                        return r
                return (NORMAL, tuple(st))

            r = region(unit, group=lambda r: r[0])
            state = r[1]
            if r[0] != NORMAL:
                return r
            continue
        for c in s_chars(mk([x])):
            r = run_body(body, c, state, pure)
            state = r[1]
            if r[0] != NORMAL:
                return r
    return (NORMAL, state)


_HOM = {}


def tok_loop(ts, body, state, pure):
    """Loop over re.split pieces by the homomorphism rule."""
    if not pure or ts.rx.groups != 2:
        return None
    pat = re.compile(ts.rx.pattern, ts.rx.flags & ~re.U)
    if pat.groups != 1:
        return None
    plain = set()
    texts = []
    for x in atoms_of(ts.s):
        if isinstance(x, str):
            tt = [x]
        elif isinstance(x, FS):
            tt = [x.table[v] for v in CTX.allowed(x.key)]
        elif isinstance(x, Star):
            tt = [x.table[v] for v in allowed_star(x.dom)]
        else:
            return None
        for t in tt:
            ps = pat.split(t)
            for i, p in enumerate(ps):
                if i % 2 == 0:
                    plain.update(p)
                elif p is None:
                    return None
    # no match may consist of plain characters only
    rxx = ts.rx.nfa()
    seen, work = set(), [rxx.closure(frozenset([rxx.start]))]
    while work:
        st = work.pop()
        if st in seen:
            continue
        seen.add(st)
        if rxx.final in st:
            return None
        for c in plain:
            n = rxx.step(st, c)
            if n:
                work.append(n)
    if not check_hom(body, state, frozenset(plain)):
        return None
    poison = [x is UNBOUND for x in state]
    for x in atoms_of(ts.s):
        if isinstance(x, str):
            for p in pat.split(x):
                if p == "":
                    continue
                r = run_body(body, p, state, pure)
                if r[0] != NORMAL:
                    return None
                state = r[1]
            continue
        if isinstance(x, Star):
            st = star_fold(x, pat, body, state)
            if st is None:
                raise Unsupported("loop over a star of tokens")
            state = st
            continue
        al = CTX.allowed(x.key)
        nomatch = [v for v in al if not pat.search(x.table[v])]
        whole = [v for v in al if pat.fullmatch(x.table[v])]
        if len(nomatch) + len(whole) != len(al):
            return None

        def unit(x=x, state=state, nomatch=nomatch, whole=whole):
            st = copy_state(state)
            if not nomatch or not whole:
                g = x
            elif CTX.truth(mk_fd(x.key, nomatch)):
                g = _restrict(x, nomatch)
            else:
                g = _restrict(x, whole)
            return body(mk([g]), *st)

        r = region(unit, group=lambda r: r[0])
        if r[0] != NORMAL:
            return None
        state = r[1]
    state = tuple(POISON if p else v for p, v in zip(poison, state))
    return (NORMAL, state)


def _restrict(x, vs):
    d = x.table[vs[0]]
    vs = set(vs)
    return fs(x.key, [t if v in vs else d for v, t in enumerate(x.table)])


def star_fold(x, pat, body, state):
    """Fold over a star when the body only appends text per token."""
    from .rope import Opq

    out = list(state)
    bound = [i for i, v in enumerate(state) if v is not UNBOUND]
    if len(bound) != 1 or not is_str(state[bound[0]]):
        return None
    i = bound[0]
    R = S((Opq(_GenTag(), "", "\x00", 1),))
    memo, tab, d = {}, [None] * x.dom.size, None
    for v in allowed_star(x.dom):
        t = x.table[v]
        if t not in memo:
            if pat.search(t) and not pat.fullmatch(t):
                return None
            st = list(state)
            st[i] = R
            r = single_outcome(lambda: body(t, *st))
            if r is None or r[0] != NORMAL:
                return None
            res = r[1][i]
            if not isinstance(res, S) or not isinstance(res.a[0], Opq) or not isinstance(res.a[0].tag, _GenTag):
                return None
            suf = mk(res.a[1:])
            if not isinstance(suf, str):
                return None
            memo[t] = suf
        tab[v] = memo[t]
        d = memo[t]
    out[i] = cat(state[i], S((Star(x.dom, tuple(d if y is None else y for y in tab)),)))
    return tuple(out)


class _GenTag:
    """Tag of the opaque text standing for an arbitrary loop state."""

    def __eq__(self, o):
        return isinstance(o, _GenTag)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "R"


def check_hom(body, state, plain):
    """Check body(s, '') == s and body(s, a+y) == body(body(s, a), y)."""
    key = None
    try:
        cells = tuple(c.cell_contents for c in (body.__closure__ or ()))
        key = (body.__code__, cells, plain, tuple(v is UNBOUND for v in state))
        hash(key)
        if key in _HOM:
            return _HOM[key]
    except (TypeError, ValueError, Unsupported):
        key = None
    r = _check_hom(body, state, plain)
    if key is not None:
        _HOM[key] = r
    return r


def _check_hom(body, state, plain):
    from .explore import all_paths

    gen = []
    for v in state:
        if v is UNBOUND:
            gen.append(UNBOUND)
        elif is_str(v):
            gen.append(S((Opq(_GenTag(), "", "\x00", 1),)))
        elif is_int(v) and not isinstance(v, bool):
            gen.append(ivar("gen", None, None))
        else:
            return False
    live = [i for i, v in enumerate(state) if v is not UNBOUND]

    def same(a, b):
        return all(same_value(a[i], b[i]) for i in live)

    if plain:
        al = tuple(sorted(plain))
        if len(al) == 1:
            al = al * 2
        a = ivar("hom_a", 0, len(al) - 1)
        dom = StarDom("hom_y", len(al), ivar("hom_n", 0, None))
        A = FSs(a, al) if len(set(al)) > 1 else al[0]
        Y = S((Star(dom, al),))

    def h0():
        r = body("", *copy_state(gen))
        return r[0] == NORMAL and same(r[1], gen)

    def h1():
        r1 = body(cat(A, Y), *copy_state(gen))
        r2 = body(A, *copy_state(gen))
        if r1[0] != NORMAL or r2[0] != NORMAL:
            return False
        r3 = body(Y, *copy_state(r2[1]))
        return r3[0] == NORMAL and same(r1[1], r3[1])

    try:
        if not all_paths(h0):
            return False
        return all_paths(h1) if plain else True
    except Unsupported:
        return False


def wloop(test, body, state, pure, limit=2000):
    """while-loop with merging of the state after each iteration."""
    n = 0
    while True:
        if test is not None and not truthy_any(test(*state)):
            return (NORMAL, state)
        if pure and any(is_sym(x) or deep_sym(x) for x in state):
            r = region(lambda: body(None, *copy_state(state)), group=lambda r: r[0])
        else:
            r = body(None, *state)
        state = r[1]
        if r[0] == 3:
            return (NORMAL, state)
        if r[0] != NORMAL:
            return r
        n += 1
        if n > limit:
            raise Unsupported("loop bound")


def truthy_any(t):
    if isinstance(t, B):
        return CTX.truth(t)
    return bool(t)


slice_ = slice


def get(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def augop(op, a, b):
    if type(a) is list and op == "+":
        a.extend(list(iterate(b)))
        return a
    if not is_sym(a) and not is_sym(b):
        return IOPS[op](a, b)
    return binop(op, a, b)


IOPS = {
    "+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
    "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow, "<<": operator.ilshift,
    ">>": operator.irshift, "&": operator.iand, "|": operator.ior, "^": operator.ixor, "@": operator.imatmul,
}


def check_bound(v, name):
    if v is UNBOUND:
        raise UnboundLocalError(f"cannot access local variable '{name}'")
    return v
