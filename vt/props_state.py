"""Independence from earlier calls (C13).

An accessor is compared with the same accessor on a fresh object of a freshly
restored library.  Histories of any length follow from two frame obligations
proved for every operation: the operation leaves all module, class and function
state as it was, and it leaves the object as it was (attributes it does write
are havocked and shown not to influence any answer).  Where a frame cannot be
shown - a library may well keep a correct cache - only the executed histories
count, and the item is reported as bounded.
"""
from __future__ import annotations

import collections
import dis
import enum
import functools
import sys
import types
import zlib
from operator import is_ as _is

from .core import Case, libs
from .rope import S, s_eq
from .spec import SCHEMES, TAGGED, ELEMENT

SKIP = {"__doc__", "__dict__", "__weakref__", "__module__", "__qualname__", "__abstractmethods__", "_abc_impl",
        "__builtins__", "__annotations__", "__cached__", "__file__", "__loader__", "__spec__", "__package__",
        "__static_attributes__", "__firstlineno__", "__path__"}
LEAF = (str, bytes, int, float, complex, type(None))


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, S) or isinstance(b, S):
        return isinstance(a, (S, str)) and isinstance(b, (S, str)) and s_eq(a, b) is True
    return type(a) is type(b) and isinstance(a, LEAF) and a == b


class Memory:
    """All mutable state of one copy of the library outside its objects."""

    def __init__(self, package):
        self.package = package
        self.seen = {}
        self.caches = []
        self.spaces = []     # (object, kind, saved items)
        self.exact = {}      # keys and values of the name spaces among them
        todo = [m for n, m in sorted(sys.modules.items()) if n == package or n.startswith(package + ".")]
        while todo:
            o = todo.pop()
            if id(o) in self.seen:
                continue
            self.seen[id(o)] = o
            todo.extend(self.enter(o))

    def ours(self, name):
        return isinstance(name, str) and (name == self.package or name.startswith(self.package + "."))

    def enter(self, o):
        kind = None
        if isinstance(o, types.ModuleType):
            if self.ours(o.__name__):
                kind = "vars"
        elif isinstance(o, type):
            if self.ours(o.__module__):
                kind = "class"
        elif isinstance(o, (dict, collections.OrderedDict)):
            kind = "dict"
        elif isinstance(o, (list, collections.deque)):
            kind = "list"
        elif isinstance(o, set):
            kind = "set"
        elif isinstance(o, (tuple, frozenset)):
            return list(o)
        elif isinstance(o, types.FunctionType):
            if self.ours(o.__module__):
                self.spaces.append((o, "function", self.content(o, "function")))
                out = list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()) + [o.__dict__]
                return out + list(o.__closure__ or ())
            w = getattr(o, "__wrapped__", None)
            return [w] if w is not None else []
        elif isinstance(o, types.CellType):
            self.spaces.append((o, "cell", self.content(o, "cell")))
            try:
                return [o.cell_contents]
            except ValueError:
                return []
        elif isinstance(o, functools._lru_cache_wrapper):
            self.caches.append(o)
            return [o.__wrapped__]
        elif isinstance(o, (classmethod, staticmethod)):
            return [o.__func__]
        elif isinstance(o, property):
            return [o.fget, o.fset, o.fdel]
        elif self.ours(type(o).__module__) and hasattr(o, "__dict__"):
            kind = "object"
        if kind is None:
            return []
        c = self.content(o, kind)
        self.spaces.append((o, kind, c))
        if kind in ("vars", "class", "object", "dict"):
            d = o if kind == "dict" else vars(o)
            self.exact[id(o)] = (list(d), list(d.values()))
        out = list(c.values()) if isinstance(c, dict) else list(c)
        return out + (list(c.keys()) if kind == "dict" else [])

    @staticmethod
    def content(o, kind):
        if kind in ("vars", "class", "object"):
            return {k: v for k, v in vars(o).items() if k not in SKIP}
        if kind == "dict":
            return dict(o)
        if kind == "set":
            return set(o)
        if kind == "function":
            return [o.__defaults__, o.__kwdefaults__, o.__code__]
        if kind == "cell":
            try:
                return [o.cell_contents]
            except ValueError:
                return []
        return list(o)

    def touched(self):
        """The spaces that are not certainly the same."""
        for s in self.spaces:
            o, kind, c = s
            if kind == "function":
                if o.__defaults__ is c[0] and o.__kwdefaults__ is c[1] and o.__code__ is c[2]:
                    continue
            elif kind == "list":
                if len(o) == len(c) and all(map(_is, o, c)):
                    continue
            elif kind != "cell" and kind != "set":
                keys, values = self.exact[id(o)]
                d = o if kind == "dict" else vars(o)
                if len(d) == len(keys) and all(map(_is, d.values(), values)) and all(map(_is, d, keys)):
                    continue
            yield s

    def unchanged(self):
        for o, kind, c in self.touched():
            n = self.content(o, kind)
            if isinstance(c, set):
                if n != c:
                    return False
                continue
            if len(n) != len(c):
                return False
            if isinstance(c, dict):
                if not all(map(_is, n.values(), c.values())) or not all(map(_is, n, c)):
                    if set(n) != set(c) or not all(same_value(n[k], c[k]) for k in c):
                        return False
            elif not all(map(_is, n, c)):
                if not all(map(same_value, n, c)):
                    return False
        return not any(f.cache_info().currsize for f in self.caches)

    def restore(self):
        for f in self.caches:
            f.cache_clear()
        for o, kind, c in self.touched():
            n = self.content(o, kind)
            if kind in ("vars", "class", "object"):
                for k in n:
                    if k not in c:
                        delattr(o, k)
                for k, v in c.items():
                    if n.get(k) is not v:
                        if isinstance(o, type) and not isinstance(o, enum.EnumMeta) or not isinstance(o, type):
                            setattr(o, k, v)
            elif kind == "dict":
                if len(n) != len(c) or not all(map(_is, n.values(), c.values())) or not all(map(_is, n, c)):
                    o.clear()
                    o.update(c)
            elif kind == "list":
                if len(n) != len(c) or not all(map(_is, n, c)):
                    o.clear()
                    o.extend(c)
            elif kind == "set":
                if n != c:
                    o.clear()
                    o.update(c)
            elif kind == "function":
                if o.__defaults__ is not c[0]:
                    o.__defaults__ = c[0]
                if o.__kwdefaults__ is not c[1]:
                    o.__kwdefaults__ = c[1]
            elif kind == "cell":
                if c and not (n and n[0] is c[0]):
                    o.cell_contents = c[0]
                elif not c and n:
                    del o.cell_contents


_MEM = {}


def memory(lib):
    """State of the library when it was first asked for (before any call)."""
    if lib.package not in _MEM:
        _MEM[lib.package] = Memory(lib.package)
    m = _MEM[lib.package]
    if not m.unchanged():
        m.restore()
    return m


class Poison:
    """Any use of it fails."""

    def _no(self, *a, **k):
        raise AssertionError("use of a havocked attribute")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = _no
    __hash__ = __contains__ = __str__ = __format__ = __add__ = __radd__ = __int__ = __index__ = __getattr__ = _no
    __setitem__ = __delitem__ = _no


# ------------------------------------------------------------- operations
#: documented defaults: method -> argument values (coding names, filter numbers)
DEFAULTS = {"adi": {"coding": "adi-var"}, "gid": {"coding": "gid-96"}, "sgcn": {"coding": "sgcn-96"},
            "sscc": {"coding": "sscc-96"}, "usdod": {"coding": "usdod-96"},
            "gsrn": {"coding": "gsrn-96", "filter": 0}, "gsrnp": {"coding": "gsrnp-96", "filter": 0}}
FORMS = ("tag_uri", "binary", "hex", "base64")


def gtin_types(lib, scheme):
    return lib.common.GTIN_TYPE if hasattr(lib.common, "GTIN_TYPE") else lib.module(scheme).GTIN_TYPE


def accessors(lib, case, coding=None, filters=2):
    """(label, method, keyword arguments) of the accessors of the object of a case."""
    sp, out = case.sp, []
    fs = case.extra.get("filters") or [None]
    for cod in sp.codings:
        if coding not in (None, cod):
            continue
        for i, f in enumerate(fs[:filters]):
            for form in FORMS:
                out.append((f"{form} {cod} #{i}", form, lib.tagargs(case.scheme, cod, f)))
    if coding and coding != next(iter(sp.codings)):
        return out
    if sp.key:
        out.append(("gs1_key", "gs1_key", {}))
    if case.scheme in ("sgtin", "lgtin"):
        for t in gtin_types(lib, case.scheme):
            out.append((f"gs1_key {t.name}", "gs1_key", {"gtin_type": t}))
            out.append((f"gtin {t.name}", "gtin", {"gtin_type": t}))
    if sp.elem:
        out.append(("gs1_element_string", "gs1_element_string", {}))
    return out


def perform(R, o, method, kw):
    return R.call(getattr(o, method), **kw)


def compare(R, got, ref, label):
    """Same outcome: same text, same object, same refusal, same error."""
    R.require(got.kind == ref.kind, label + ": same outcome", got)
    if got.kind != ref.kind:
        return
    if got.kind == "error":
        R.require(type(got.value) is type(ref.value), label + ": same error", got)
    if got.kind != "ok":
        return
    a, b = got.value, ref.value
    if isinstance(a, (str, S)):
        R.eq(a, b, label + ": same text")
    elif hasattr(a, "epc_uri"):
        R.require(type(a) is type(b), label + ": same class", got)
        if type(a) is type(b):
            R.eq(a.epc_uri, b.epc_uri, label + ": same URI")
    else:
        R.require(a is b or a == b, label + ": same value", got)


def agrees(got, ref):
    """Certainly the same outcome (no obligation)."""
    if got.kind != ref.kind:
        return False
    if got.kind != "ok":
        return type(got.value) is type(ref.value)
    return same_value(got.value, ref.value)


def near_case(case):
    """Another identity that differs in one component."""
    keys = {n: k.keys for n, k in case.comps.items()}
    n = case.extra["near"]
    k = case.comps[n]
    new = [0 if k.alpha == "hash" else 1] * len(k.keys)
    if new and k.alpha != "hash":
        new[-1] = 2
    keys[n] = new
    return Case(case.scheme, case.shape, keys)


def clone(cls, o):
    """A second object in the same state (None when the state is not plain)."""
    if any(isinstance(v, (dict, list, set)) or hasattr(v, "__dict__") and not isinstance(v, (S, enum.Enum, type))
           for v in vars(o).values()):
        return None
    c = cls.__new__(cls)
    c.__dict__.update(vars(o))
    return c


def written(cls):
    """Names of attributes that methods other than the constructor may write (from the byte code)."""
    out = set()

    def scan(code):
        for i in dis.get_instructions(code):
            if i.opname in ("STORE_ATTR", "DELETE_ATTR"):
                out.add(i.argval)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                scan(c)

    for k in cls.__mro__[:-1]:
        for n, f in vars(k).items():
            f = getattr(f, "__func__", getattr(f, "fget", f))
            if n != "__init__" and isinstance(f, types.FunctionType):
                scan(f.__code__)
    return out


def c13(lib, case, R):
    mem = memory(lib)
    cls = lib.cls(case.scheme)
    uri = case.uri()
    x = R.ok("constructor accepts", cls, uri)
    quiet = mem.unchanged()
    R.frame(quiet, "constructor leaves the library state alone")
    if x is None:
        return

    def fresh():
        c = clone(cls, x) if quiet else None
        if c is None:
            mem.restore()
            c = cls(uri)
        return c

    # the frames of each operation
    dead = {a for a in written(libs()[1].cls(case.scheme)) if a in vars(x) and a != "epc_uri"}
    framed = quiet
    for label, method, kw in accessors(lib, case, case.extra.get("coding") or "", 1):
        o = fresh()
        d0 = dict(vars(o))
        ref = perform(R, o, method, kw)
        ok = mem.unchanged()
        R.frame(ok, f"{method} leaves the library state alone")
        quiet = quiet and ok
        d1 = vars(o)
        changed = {k for k in set(d0) | set(d1) if k not in d0 or k not in d1 or not same_value(d0[k], d1[k])}
        R.eq(o.epc_uri, uri, f"URI unchanged by {method}")
        same = changed <= dead
        R.frame(same, f"{method} leaves the object alone" + (f" except for {sorted(dead)}" if dead else ""))
        framed = framed and ok and same
        if dead:
            o = fresh()
            for a in dead:
                setattr(o, a, Poison())
            same = agrees(R.call(getattr(o, method), **kw), ref)
            R.frame(same, f"{method} does not depend on {sorted(dead)}")
            framed = framed and same
    # with the frames shown, every history gives these answers; one history is
    # executed all the same on the untouched library
    if not framed or not lib.sym:
        n = len(R.events)
        history(lib, case, R, mem, accessors(lib, case))
        if framed:
            del R.events[n:]
        if not lib.sym:
            n = len(R.events)
            if not framed or rarely(uri, 4):
                relatives(lib, case, R, mem)
            if not framed and rarely(uri, 5):
                confusions(lib, case, R, mem)
            del R.events[n:]
    if not mem.unchanged():
        mem.restore()


def history(lib, case, R, mem, ops):
    """Everything on x, everything on a similar object, everything on x backwards."""
    cls = lib.cls(case.scheme)
    uri, uri2 = case.uri(), near_case(case).uri()
    has2 = R.call(cls, uri2).ok
    ref, ref2 = [], []
    for label, method, kw in ops:
        mem.restore()
        ref.append(perform(R, cls(uri), method, kw))
        if has2:
            mem.restore()
            ref2.append(perform(R, cls(uri2), method, kw))
    mem.restore()
    x = cls(uri)
    y = cls(uri2) if has2 else None
    for k, (label, method, kw) in enumerate(ops):
        compare(R, perform(R, x, method, kw), ref[k], f"{method} after other calls")
    if has2:
        for k, (label, method, kw) in enumerate(ops):
            compare(R, perform(R, y, method, kw), ref2[k], f"{method} after calls on another object")
    for k, (label, method, kw) in reversed(list(enumerate(ops))):
        compare(R, perform(R, x, method, kw), ref[k], f"{method} after all calls")
    R.eq(x.epc_uri, uri, "URI unchanged by the history")
    if has2:
        R.eq(y.epc_uri, uri2, "URI of the other object unchanged")


def relatives(lib, case, R, mem):
    """The same calls after calls on objects of other schemes with the same texts, and the other way round."""
    uri = case.uri()
    group = [(lib.cls(case.scheme)(uri), accessors(lib, case))]
    body = uri.split(":", 4)[4]
    for name, sp in SCHEMES.items():
        if name == case.scheme:
            continue
        for b in (body, body + ".1", body.rsplit(".", 1)[0]):
            try:
                mem.restore()
                y = lib.cls(name)(f"urn:epc:id:{name}:{b}")
            except lib.ConvertException:
                continue
            c = Case(name, sp.shapes()[0])
            if any(k.fbits for k in sp.codings.values()):
                c.extra["filters"] = [0, 1]
            group.append((y, accessors(lib, c)))
            break
    if len(group) == 1:
        return
    ref = []
    for y, ops in group:
        ref.append([])
        for label, method, kw in ops:
            mem.restore()
            ref[-1].append(perform(R, type(y)(y.epc_uri), method, kw))
    for order in (1, -1):
        mem.restore()
        for (y, ops), want in list(zip(group, ref))[::order]:
            y = type(y)(y.epc_uri)
            for (label, method, kw), w in zip(ops, want):
                compare(R, perform(R, y, method, kw), w, f"{method} after calls on objects of other schemes")
    mem.restore()


def variants(t):
    """Texts that a careless key of a cache would take for t: other case, other spelling of numbers and escapes,
    the same characters divided otherwise, one character more, less or different."""
    k = t.find(":", 11) + 1 if t.startswith("urn:epc:") else 0
    head, body = t[:k], t[k:]
    out = [body.swapcase(), body.lower(), body.upper(), body + body[-1:], body[:-1]]
    parts = body.split(".")

    def put(*new):
        l = list(parts)
        for i, p in new:
            l[i] = p
        out.append(".".join(l))

    for i, p in enumerate(parts):
        put((i, "0" + p))
        put((i, p.lstrip("0")))
        put((i, p + p[-1:]))
        put((i, p[:-1]))
        if p:
            put((i, p[:-1] + ("1" if p[-1] != "1" else "2")))
            put((i, ("1" if p[0] != "1" else "2") + p[1:]))
            put((i, p[1:] + p[0]))
            put((i, p[:-1] + f"%{ord(p[-1]):02X}"))
            put((i, p[:-2] + p[:-3:-1]))
        if i + 1 < len(parts):
            q = parts[i + 1]
            put((i, p + q[:1]), (i + 1, q[1:]))
            put((i, p[:-1]), (i + 1, p[-1:] + q))
            put((i, q), (i + 1, p))
    out.append(body.replace("%2F", "%2f").replace("%3", "%3".lower()))
    return [head + b for b in dict.fromkeys(out) if b != body]


def confusions(lib, case, R, mem):
    """Every accessor of the objects of similar URIs, one after the other, in both orders."""
    cls = lib.cls(case.scheme)
    ops = accessors(lib, case)
    group, ref = [case.uri()], []
    for u in variants(case.uri()):
        try:
            mem.restore()
            cls(u)
            group.append(u)
        except Exception:
            pass
    for u in group:
        ref.append([])
        for label, method, kw in ops:
            mem.restore()
            ref[-1].append(perform(R, cls(u), method, kw))
    for order in (1, -1):
        mem.restore()
        for u, want in list(zip(group, ref))[::order]:
            x = cls(u)
            for (label, method, kw), w in zip(ops, want):
                compare(R, perform(R, x, method, kw), w, f"{method} after calls on similar objects")
            R.eq(x.epc_uri, u, "URI of a similar object unchanged")
    mem.restore()


def confusing_texts(lib, R, mem, ops, ref):
    """Every reader on similar texts, one after the other, in both orders."""
    for (label, f, args), r in zip(ops, ref):
        group, want = [args], [r]
        for v in variants(args[0]):
            group.append((v, *args[1:]))
        if len(args) > 1:
            group += [(args[0], n) for n in range(6, 13) if n != args[1]]
        for a in group[1:]:
            mem.restore()
            want.append(R.call(f, *a))
        for order in (1, -1):
            mem.restore()
            for a, w in list(zip(group, want))[::order]:
                compare(R, R.call(f, *a), w, f"{label} after similar texts")
    mem.restore()


def rarely(text, n):
    return zlib.crc32(text.encode()) % n == 0


def c13d(lib, case, R):
    """Default arguments."""
    mem = memory(lib)
    cls = lib.cls(case.scheme)
    x = R.ok("constructor accepts", cls, case.uri())
    if x is None:
        return
    d = DEFAULTS.get(case.scheme)
    if d:
        fs = case.extra.get("filters") or [None]
        full = lib.tagargs(case.scheme, d["coding"], d.get("filter", fs[0]))
        given = [{}] if "filter" in d or fs[0] is None else [{"filter_value": full["filter_value"]}]
        if "filter" in d:
            given.append({"filter_value": lib.filter(case.scheme, d["filter"])})
            given.append({"binary_coding_scheme": full["binary_coding_scheme"]})
        for form in FORMS:
            want = R.call(getattr(x, form), **full)
            for kw in given:
                compare(R, R.call(getattr(x, form), **kw), want, f"{form} with defaults")
    if case.scheme in ("sgtin", "lgtin"):
        t = gtin_types(lib, case.scheme)["GTIN14"]
        for m in ("gtin", "gs1_key"):
            compare(R, R.call(getattr(x, m)), R.call(getattr(x, m), gtin_type=t), f"{m} with defaults")
        compare(R, R.call(lib.parsers.get_gs1_key, case.uri()),
                R.call(lib.parsers.get_gs1_key, case.uri(), gtin_type=t), "get_gs1_key with defaults")
    if case.sp.codings:
        cod = case.sp.codings[next(iter(case.sp.codings))]
        tag = case.sp.tag_uri(case, cod, None if not case.extra.get("filters") else case.extra["filters"][0])
        full = {"includes_filter": bool(cod.fbits)}
        compare(R, R.call(cls.from_tag_uri, tag), R.call(cls.from_tag_uri, tag, **full), "from_tag_uri with defaults")
    if case.sp.key:
        compare(R, R.call(lib.parsers.get_gs1_key, case.uri()),
                R.call(lib.parsers.get_gs1_key, case.uri(), None), "get_gs1_key with default prefix length")
    mem.unchanged() or mem.restore()


#: texts of other kinds, and texts that are refused
OTHERS = ("urn:epc:id:sgtin:0614141.112345.400", "urn:epc:id:sscc:0614141.1234567890", "urn:epc:id:sgtin:061414.112345.400",
          "urn:epc:tag:sgtin-96:3.0614141.112345.400", "urn:epc:id:zzz:1.2", "", "zz", "30", "3074257BF7194E4000001A85",
          "3174257BF4499602D2000000", "urn:epc:idpat:sgtin:0614141.112345.*", "(00)106141412345678908", "0" * 96)


def readers(lib, case):
    """(label, function, arguments) of the parsers, on the texts of a case."""
    sp, P, cls = case.sp, lib.parsers, lib.cls(case.scheme)
    uri = case.uri()
    out = [("constructor", cls, (uri,)), ("from_epc_uri", cls.from_epc_uri, (uri,))]
    for n in ("scheme", "gs1_element", "gs1_keyed", "tag_encodable", "gs1_element_string", "gs1_key"):
        n = "epc_pure_identity_to_" + n
        out.append((n, getattr(P, n), (uri,)))
    out.append(("get_gs1_key of URI", P.get_gs1_key, (uri,)))
    if sp.elem:
        e, L = sp.elem(case), case["cp"].n
        out.append(("from_gs1_element_string", cls.from_gs1_element_string, (e, L)))
        out.append(("gs1_element_string_to_gs1_element", P.gs1_element_string_to_gs1_element, (e, L)))
    if case.extra.get("coding"):
        cod = sp.codings[case.extra["coding"]]
        f = (case.extra.get("filters") or [None])[0]
        t, b = sp.tag_uri(case, cod, f), cod.bits(case, f)
        from .spec import hex_of, pad16
        h = hex_of(pad16(b))
        out += [("from_tag_uri", cls.from_tag_uri, (t,)), ("tag_uri_to_tag_encodable", P.tag_uri_to_tag_encodable, (t,)),
                ("from_binary", cls.from_binary, (b,)), ("binary_to_tag_encodable", P.binary_to_tag_encodable, (b,)),
                ("from_hex", cls.from_hex, (h,)), ("hex_to_tag_encodable", P.hex_to_tag_encodable, (h,)),
                ("get_gs1_key of binary", P.get_gs1_key, (b,))]
    return out


def foreign(lib):
    P = lib.parsers
    out = []
    for t in OTHERS:
        for n in ("epc_pure_identity_to_scheme", "get_gs1_key", "tag_uri_to_tag_encodable", "binary_to_tag_encodable",
                  "hex_to_tag_encodable", "base64_to_tag_encodable"):
            out.append((getattr(P, n), (t,)))
        out.append((P.gs1_element_string_to_gs1_element, (t, 7)))
        out.append((P.gs1_element_string_to_gs1_element, (t, 99)))
    return out


def c13p(lib, case, R):
    """Parsers: no call leaves anything behind."""
    mem = memory(lib)
    if case.extra.get("coding"):
        R.assume(case.sp.codings[case.extra["coding"]].can(case))
    ops = readers(lib, case)
    quiet = True
    ref = []
    for label, f, args in ops:
        if not quiet:
            mem.restore()
        ref.append(R.call(f, *args))
        ok = mem.unchanged()
        quiet = quiet and ok
        R.frame(ok, f"{label} leaves the library state alone")
    if not quiet:
        mem.restore()
    for k, (label, f, args) in enumerate(ops):
        compare(R, R.call(f, *args), ref[k], f"{label} after other parses")
    if not quiet and not lib.sym and rarely(case.uri(), 8):
        n = len(R.events)
        confusing_texts(lib, R, mem, ops, ref)
        del R.events[n:]
    for f, args in foreign(lib):
        R.call(f, *args)
    R.frame(mem.unchanged(), "foreign and malformed texts leave the library state alone")
    for k, (label, f, args) in reversed(list(enumerate(ops))):
        compare(R, R.call(f, *args), ref[k], f"{label} after foreign and malformed texts")
    mem.unchanged() or mem.restore()


def make(fn, scheme, shape, extra):
    for lib in libs():
        if lib is not None:
            memory(lib)      # taken before the first call of this process
    case = Case(scheme, shape, None, extra)
    fb = 0
    for c in case.sp.codings.values():
        fb = max(fb, c.fbits)
    if fb:
        n = 1 if fn != "c13" else 2
        case.extra["filters"] = [case.var(f"filter{i}", 0, 2 ** fb - 1) for i in range(n)]
    return case


def items(fn, shapes_for):
    out = []
    for sp in SCHEMES.values():
        if fn == "c13d" and not (sp.name in DEFAULTS or sp.name in ("sgtin", "lgtin") or sp.codings or sp.key):
            continue
        if fn == "c13p" and sp.codings:
            out += [(fn, sp.name, sh, {"coding": c}) for c in sp.codings for sh in shapes_for(sp, c, None)]
            continue
        l = shapes_for(sp, None, None)
        if fn == "c13":
            for i, sh in enumerate(l):
                comps = [n for n, a, k in sp.comps(sh) if k]
                for c in list(sp.codings) or [None]:
                    out.append((fn, sp.name, sh, {"near": comps[i % len(comps)], "coding": c}))
        else:
            out += [(fn, sp.name, sh, {}) for sh in l]
    return out
