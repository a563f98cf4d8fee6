"""The property checks."""
from __future__ import annotations

import base64
from functools import partial

from . import hooks, spec
from . import props_bits, props_state, props_text
from .core import Case
from .props_bits import c04, c04s, c14b, c14g, c14h, c14r, c14t, c14u, c14x  # noqa: F401
from .props_state import c13, c13d, c13p  # noqa: F401
from .props_text import c10o, c10t, c10v, c15b, c15e, c15h, c15i, c15k, c15n, c15s, c15t, c15w  # noqa: F401
from .rope import cat, s_eq, s_slice as _slice
from .spec import ELEMENT, SCHEMES, TAGGED, canon


def s_slice(s, a, b):
    return s[a:b] if isinstance(s, str) else _slice(s, a, b, None)


def filt(case):
    """The filter value of the case (symbolic over all filter values)."""
    sp = case.sp
    fb = next(iter(sp.codings.values())).fbits
    if not fb:
        return None
    if "filter" not in case.extra:
        case.extra["filter"] = case.var("filter", 0, 2 ** fb - 1)
    return case.extra["filter"]


def coding_of(case):
    return case.sp.codings[case.extra["coding"]]


# ------------------------------------------------------------------- C01
def c01(lib, case, R):
    cod = coding_of(case)
    name = case.scheme
    f = filt(case)
    cls = lib.cls(name)
    R.assume(cod.can(case))
    x = R.ok("constructor accepts", cls, case.uri())
    if x is None:
        return
    kw = lib.tagargs(name, cod.name, f)
    want = case.uri(canon)
    P = lib.parsers
    for form, own, gen in (("binary", "from_binary", "binary_to_tag_encodable"),
                           ("hex", "from_hex", "hex_to_tag_encodable"),
                           ("base64", "from_base64", "base64_to_tag_encodable")):
        b = R.ok(f"{form}() succeeds", getattr(x, form), **kw)
        if b is None:
            continue
        y = R.ok(f"{own} accepts", getattr(cls, own), b)
        R.same_identity(y, cls, want, f"{own}({form}())")
        z = R.ok(f"{gen} accepts", getattr(P, gen), b)
        R.same_identity(z, cls, want, f"{gen}({form}())")


# ------------------------------------------------------------------- C02
def c02(lib, case, R):
    cod = coding_of(case)
    f = filt(case)
    cls = lib.cls(case.scheme)
    R.assume(cod.can(case))
    x = R.ok("constructor accepts", cls, case.uri())
    if x is None:
        return
    b = R.ok("binary() succeeds", x.binary, **lib.tagargs(case.scheme, cod.name, f))
    if b is not None:
        R.eq(b, cod.bits(case, f), "bits follow the standard layout")


# ------------------------------------------------------------------- C03
def c03(lib, case, R):
    cod = coding_of(case)
    f = filt(case)
    x = R.ok("constructor accepts", lib.cls(case.scheme), case.uri())
    if x is None:
        return
    can = R.case_split(cod.can(case))
    kw = lib.tagargs(case.scheme, cod.name, f)
    for form in ("tag_uri", "binary", "hex", "base64"):
        if can:
            R.ok(f"{form}() succeeds", getattr(x, form), **kw)
        else:
            R.refused(f"{form}() refused", getattr(x, form), **kw)


# ------------------------------------------------------------------- C05
def c05w(lib, case, R):
    cod = coding_of(case)
    f = filt(case)
    R.assume(cod.can(case))
    x = R.ok("constructor accepts", lib.cls(case.scheme), case.uri())
    if x is None:
        return
    kw = lib.tagargs(case.scheme, cod.name, f)
    b = R.ok("binary() succeeds", x.binary, **kw)
    h = R.ok("hex() succeeds", x.hex, **kw)
    s = R.ok("base64() succeeds", x.base64, **kw)
    if b is None:
        return
    want = spec.hex_of(spec.pad16(b))
    if h is not None:
        R.eq(h, want, "hex is the padded binary")
    if s is not None:
        R.eq(s, std_b64(lib, want), "base64 is that of the padded binary")


def std_b64(lib, h):
    """Standard base64 of the bytes written in hexadecimal."""
    if isinstance(h, str):
        return base64.b64encode(bytes.fromhex(h)).decode("ascii")
    return hooks.std_base64(h)


# ------------------------------------------------------------------- C06
def c06(lib, case, R):
    cod = coding_of(case)
    f = filt(case)
    cls = lib.cls(case.scheme)
    R.assume(cod.can(case))
    x = R.ok("constructor accepts", cls, case.uri())
    if x is None:
        return
    t = R.ok("tag_uri() succeeds", x.tag_uri, **lib.tagargs(case.scheme, cod.name, f))
    want = case.sp.tag_uri(case, cod, f)
    if t is not None:
        R.eq(t, want, "tag URI text")
    y = R.ok("from_tag_uri accepts", cls.from_tag_uri, want)
    R.same_identity(y, cls, case.uri(), "from_tag_uri")
    z = R.ok("tag_uri_to_tag_encodable accepts", lib.parsers.tag_uri_to_tag_encodable, want)
    R.same_identity(z, cls, case.uri(), "tag_uri_to_tag_encodable")


# ------------------------------------------------------------------- C07
def c07(lib, case, R):
    cls = lib.cls(case.scheme)
    x = R.ok("constructor accepts", cls, case.uri())
    if x is None:
        return
    want = case.sp.elem(case)
    e = R.ok("gs1_element_string() succeeds", x.gs1_element_string)
    if e is not None:
        R.eq(e, want, "element string text")
    L = case["cp"].n
    canonical = case.uri(canon)
    y = R.ok("from_gs1_element_string accepts", cls.from_gs1_element_string, want, L)
    R.same_identity(y, cls, canonical, "from_gs1_element_string")
    z = R.ok("generic element string parser accepts", lib.parsers.gs1_element_string_to_gs1_element, want, L)
    R.same_identity(z, cls, canonical, "generic element string parser")
    if case.scheme == "sgtin":
        gtin, serial = case.sp.key(case), case["serial"].text()
        for n in (14, 13, 12, 8):
            # a GTIN may be written without its leading zeros
            if R.case_split(s_eq(s_slice(gtin, 0, 14 - n), "0" * (14 - n))):
                w = R.ok(f"from_gtin_plus_serial accepts a GTIN-{n}", cls.from_gtin_plus_serial,
                         s_slice(gtin, 14 - n, 14), serial, L)
                R.same_identity(w, cls, case.uri(), f"from_gtin_plus_serial of a GTIN-{n}")


# ------------------------------------------------------------------- C08
def c08(lib, case, R):
    cls = lib.cls(case.scheme)
    x = R.ok("constructor accepts", cls, case.uri())
    if x is None:
        return
    want = case.sp.key(case)
    k = R.ok("gs1_key() succeeds", x.gs1_key)
    if k is not None:
        R.eq(k, want, "key text")
    k = R.ok("epc_pure_identity_to_gs1_key succeeds", lib.parsers.epc_pure_identity_to_gs1_key, case.uri())
    if k is not None:
        R.eq(k, want, "epc_pure_identity_to_gs1_key text")
    if case.scheme not in ("sgtin", "lgtin"):
        return
    types = lib.common.GTIN_TYPE if hasattr(lib.common, "GTIN_TYPE") else lib.module(case.scheme).GTIN_TYPE
    for n in (8, 12, 13, 14):
        t = types[f"GTIN{n}"]
        zeros = R.case_split(s_eq(s_slice(want, 0, 14 - n), "0" * (14 - n)))
        for name, f in (("gtin", x.gtin), ("gs1_key", x.gs1_key),
                        ("epc_pure_identity_to_gs1_key", partial(lib.parsers.epc_pure_identity_to_gs1_key, case.uri())),
                        ("get_gs1_key", partial(lib.parsers.get_gs1_key, case.uri())))[:4 if n == 12 else 3]:
            if zeros:
                g = R.ok(f"{name}(GTIN{n}) succeeds", f, gtin_type=t)
                if g is not None:
                    R.eq(g, s_slice(want, 14 - n, 14), f"{name}(GTIN{n}) text")
            else:
                R.refused(f"{name}(GTIN{n}) refused", f, gtin_type=t)


# ------------------------------------------------------------------- C09
def c09(lib, case, R):
    cls = lib.cls(case.scheme)
    uri = case.uri()
    x = R.ok("constructor accepts", cls, uri)
    R.same_identity(x, cls, uri, "constructor")
    y = R.ok("from_epc_uri accepts", cls.from_epc_uri, uri)
    R.same_identity(y, cls, uri, "from_epc_uri")
    z = R.ok("generic parser accepts", lib.parsers.epc_pure_identity_to_scheme, uri)
    R.same_identity(z, cls, uri, "generic parser")
    if x is None or z is None:
        return
    R.is_true(x == z, "equal to another object with the same URI")
    R.is_true(x != uri, "not equal to its URI text")


def c09eq(lib, case, R):
    """Two identities of one shape: equal exactly when the URIs are."""
    o = twin(case)
    cls = lib.cls(case.scheme)
    u, v = case.uri(), o.uri()
    if o.sp.pre is not None:
        R.assume(o.sp.pre(o))
    x = R.ok("constructor accepts", cls, u)
    y = R.ok("constructor accepts", cls, v)
    if x is None or y is None:
        return
    if R.case_split(s_eq(u, v)):
        R.is_true(x == y, "equal URIs, equal objects")
        R.is_false(x != y, "equal URIs, equal objects (!=)")
    else:
        R.is_false(x == y, "different URIs, different objects")
        R.is_true(x != y, "different URIs, different objects (!=)")


def twin(case):
    """A second identity of the shape of the case."""
    if "twin" not in case.extra:
        o = Case(case.scheme, case.shape)
        case.vars.extend(o.vars)
        case.extra["twin"] = {n: k.keys for n, k in o.comps.items()}
    return Case(case.scheme, case.shape, case.extra["twin"])


# ------------------------------------------------------------------- C11
def c11(lib, case, R):
    sp, P = case.sp, lib.parsers
    cls = lib.cls(case.scheme)
    uri = case.uri()
    x = R.ok("epc_pure_identity_to_scheme accepts", P.epc_pure_identity_to_scheme, uri)
    R.same_identity(x, cls, uri, "epc_pure_identity_to_scheme")
    for name, has in (("gs1_element", sp.elem), ("gs1_keyed", sp.key), ("tag_encodable", sp.codings)):
        f = getattr(P, "epc_pure_identity_to_" + name)
        if has:
            y = R.ok(f"{name} parser accepts", f, uri)
            R.same_identity(y, cls, uri, f"{name} parser")
        else:
            R.refused(f"{name} parser refuses", f, uri)
    for name, want in (("gs1_element_string", sp.elem), ("gs1_key", sp.key)):
        f = getattr(P, "epc_pure_identity_to_" + name)
        if want:
            t = R.ok(f"{name} parser succeeds", f, uri)
            if t is not None:
                R.eq(t, want(case), f"{name} parser text")
        else:
            R.refused(f"{name} parser refuses", f, uri)
    if sp.elem:
        e = sp.elem(case)
        z = R.ok("element string recognised", P.gs1_element_string_to_gs1_element, e, case["cp"].n)
        R.same_identity(z, cls, case.uri(canon), "element string recognised")
        for o in ELEMENT:
            if o is not sp:
                R.refused(f"{o.name} refuses element strings of {sp.name}",
                          lib.cls(o.name).from_gs1_element_string, e, case["cp"].n)


# ------------------------------------------------------------------- C12
def c12(lib, case, R):
    """Sources that do not depend on a tag coding."""
    sp = case.sp
    key = lib.parsers.get_gs1_key
    src = [("URI", (case.uri(),))]
    if sp.elem:
        src.append(("element string", (sp.elem(case), case["cp"].n)))
    if sp.key and sp.name != "lgtin":
        src.append(("pattern without wildcard", (sp.pattern(case),)))
    for name, args in src:
        expect_key(R, sp, case, key, name, args)


def c12t(lib, case, R):
    cod = coding_of(case)
    f = filt(case)
    sp = case.sp
    R.assume(cod.can(case))
    key = lib.parsers.get_gs1_key
    b = cod.bits(case, f)
    h = spec.hex_of(spec.pad16(b))
    for name, t in (("tag URI", sp.tag_uri(case, cod, f)), ("binary", b), ("hex", h), ("lower-case hex", spec.lower(h))):
        expect_key(R, sp, case, key, name, (t,))


def expect_key(R, sp, case, key, name, args):
    if sp.key:
        k = R.ok(f"key of {name} found", key, *args)
        if k is not None:
            R.eq(k, sp.key(case), f"key of {name}")
    else:
        R.refused(f"{name} without key refused", key, *args)


def c12p(lib, case, R):
    """Serial-wildcard patterns (the case has a serial that is not used)."""
    sp = case.sp
    pat = cat(f"urn:epc:idpat:{sp.name}:", case["cp"].text(), ".", case["ref"].text(), ".*")
    k = R.ok("key of pattern found", lib.parsers.get_gs1_key, pat)
    if k is not None:
        R.eq(k, sp.openkey(case), "key of pattern")


# ------------------------------------------------------------------- items
def shapes_for(sp, cod, alpha):
    out = []
    for sh in sp.shapes():
        if not possible(sp, cod, sh):
            continue
        if alpha and any(a == "gs3" for _, a, _ in sp.comps(sh)):
            sh = dict(sh, a=alpha)
        out.append(sh)
    return out


MAXDIGITS = {"sgtin-96": 12, "sgln-96": 13, "grai-96": 12, "gdti-96": 13, "itip-110": 12}


def possible(sp, cod, sh):
    """Can an identity of this shape be held by the coding at all?"""
    if cod in MAXDIGITS:
        return sh["n"] <= MAXDIGITS[cod]
    if cod == "giai-96":
        from .spec import NREF
        return sh["n"] <= len(str(2 ** NREF["giai96"][sh["L"]] - 1))
    if cod == "cpi-96":
        return sh["n"] <= 15 - sh["L"] and sh["m"] <= 10
    return True


BITCHECKS = ("c04", "c04s", "c14b", "c14g", "c14x", "c14h", "c14r", "c14t", "c14u")
STATECHECKS = ("c13", "c13d", "c13p")
TEXTCHECKS = ("c10o", "c10t", "c10v", "c15i", "c15t", "c15e", "c15b", "c15k", "c15w", "c15s", "c15n", "c15h")


def make_case(fn, scheme, shape, extra):
    if fn in BITCHECKS:
        return props_bits.make(fn, scheme, shape, extra)
    if fn in STATECHECKS:
        return props_state.make(fn, scheme, shape, extra)
    if fn in TEXTCHECKS:
        return props_text.make(fn, scheme, shape, extra)
    case = Case(scheme, shape, None, extra)
    if fn in TAGCHECKS:
        filt(case)
    if fn == "c09eq":
        twin(case)
    return case


def c09x(lib, case, R):
    """Objects of different schemes are never equal."""
    x = R.ok("constructor accepts", lib.cls(case.scheme), case.uri())
    if x is None:
        return
    for name, sp in SCHEMES.items():
        if name == case.scheme:
            continue
        o = other_uri(name)
        y = R.ok(f"{name} constructor accepts", lib.cls(name), o)
        if y is not None:
            R.is_false(x == y, f"different from a {name}")


def other_uri(name):
    sp = SCHEMES[name]
    sh = sp.shapes()[0]
    return Case(name, sh, {n: [1] * k if a != "hash" else [0] * k for n, a, k in sp.comps(sh)}).uri()


FORMS = (("binary", "from_binary", "binary_to_tag_encodable"), ("hex", "from_hex", "hex_to_tag_encodable"),
         ("base64", "from_base64", "base64_to_tag_encodable"), ("tag_uri", "from_tag_uri", "tag_uri_to_tag_encodable"))
AFFIXES = (("", ""), ("", " "), ("", "\n"), ("", "\u2003"), ("", "\x00"), ("", "_"), (" ", ""), ("\n", ""), ("\u2003", ""),
           ("+", ""), ("_", ""), ("0x", ""), ("\t", "\t"))


def c14v(lib, case, R):
    """Valid contents in an irregular spelling: the generic and the own reader answer alike."""
    cod, f = coding_of(case), filt(case)
    R.assume(cod.can(case))
    form, own, gen = FORMS[case.shape["form"]]
    if form == "tag_uri":
        t = case.sp.tag_uri(case, cod, f)
    else:
        t = cod.bits(case, f)
        if form != "binary":
            t = spec.hex_of(spec.pad16(t))
        if form == "base64":
            t = props_bits.std_b64(t)
    before, after = AFFIXES[case.shape["affix"]]
    t = cat(before, t, after)
    a, b = R.call(getattr(lib.parsers, gen), t), R.call(getattr(lib.cls(case.scheme), own), t)
    R.require(a.kind == b.kind, "same kind of answer", a)
    if a.ok and b.ok:
        R.is_true(type(a.value) is type(b.value), "same scheme")
        R.eq(a.value.epc_uri, b.value.epc_uri, "same identity")


TAGCHECKS = ("c01", "c02", "c03", "c05w", "c06", "c12t", "c14v")


def items(fn, step=1, only=None, alpha=None):
    """(check, scheme, shape, extra) work items of a per-identity check."""
    if fn in BITCHECKS:
        return [i for i in props_bits.items(fn) if not only or i[1] in only or i[3].get("coding") in only]
    if fn in STATECHECKS:
        return [i for i in props_state.items(fn, shapes_for) if not only or i[1] in only or i[3].get("coding") in only]
    if fn in TEXTCHECKS:
        return [i for i in props_text.items(fn, shapes_for, alpha) if not only or i[1] in only or i[3].get("coding") in only]
    out = []
    if fn in TAGCHECKS:
        for sp in TAGGED:
            for cod in sp.codings:
                if only and sp.name not in only and cod not in only:
                    continue
                l = [sh for sh in shapes_for(sp, cod if fn != "c03" else None, alpha)]
                if fn == "c14v":
                    l = [{**l[(7 * i + 3 * j) % len(l)], "form": i, "affix": j}
                         for i in range(len(FORMS)) for j in range(len(AFFIXES))
                         if not (FORMS[i][0] == "base64" and set("".join(AFFIXES[j])) & set(hooks.B64ALPHA))]
                k = max(1, min(step, len(l) // 7))
                out += [(fn, sp.name, sh, {"coding": cod}) for sh in l[::k]]
        return out
    for sp in SCHEMES.values():
        if only and sp.name not in only:
            continue
        if fn == "c07" and not sp.elem or fn == "c08" and not sp.key or fn == "c12p" and not sp.openkey:
            continue
        l = shapes_for(sp, None, alpha)
        if fn == "c09x":
            l = l[:1]
        if fn == "c09eq":
            l = [sh for sh in l if sum(v for v in sh.values() if isinstance(v, int)) <= 16] or l[:1]
            if alpha:
                l = [sh for sh in l if sh.get("n", 0) <= 3]
        if fn == "c12p":
            l = [sh for sh in l if sh["n"] == 1]
        k = max(1, min(step, len(l) // 7))
        out += [(fn, sp.name, sh, {}) for sh in l[::k]]
    return out
