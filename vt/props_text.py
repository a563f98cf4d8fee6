"""Checks over all strings whatsoever: C10 and C15.

A reader is confronted with two kinds of text.  Text inside a generous grammar
of the scheme (the template) is symbolic: components of any length over their
characters and escapes.  All other text is opaque: the only thing known is that
it lies outside the template.  A regular expression asked about opaque text
answers "no" - and each such answer is justified by an inclusion of languages:
everything the expression accepts belongs to the template.
"""
from __future__ import annotations

import base64
import random
import re

from . import lang
from .core import Case, ConRec
from .props_bits import ANY, ODD
from .rope import FSs, cat, star_all
from .spec import ADIC, ALPHA, CPREF, DIGITS, GS3_CHARS, GS3X, SCHEMES, Comp
from .terms import choose, mk_and, mk_le, mk_lt, t_add

HEX = "0123456789ABCDEFabcdef"
PLAIN = [t for t in GS3X if len(t) == 1]
#: the tokens of the template: all plain characters, all escapes
GSTOK = PLAIN + ["%" + a + b for a in HEX for b in HEX]
GS_OK = frozenset(i for i, t in enumerate(GSTOK) if t in set(GS3X))

#: components of the template: (name, kind[, number of digits at most])
TEMPLATE = {
    "sgtin": [("cp", "d"), ("ref", "d"), ("serial", "gs")],
    "sscc": [("cp", "d"), ("ref", "d")],
    "sgln": [("cp", "d"), ("ref", "d"), ("serial", "gs")],
    "grai": [("cp", "d"), ("ref", "d"), ("serial", "gs")],
    "giai": [("cp", "d"), ("asset", "gs")],
    "gsrn": [("cp", "d"), ("ref", "d")],
    "gsrnp": [("cp", "d"), ("ref", "d")],
    "gdti": [("cp", "d"), ("ref", "d"), ("serial", "gs")],
    "cpi": [("cp", "d"), ("ref", "cpref"), ("serial", "num", 12)],
    "sgcn": [("cp", "d"), ("ref", "d"), ("serial", "d")],
    "ginc": [("cp", "d"), ("ref", "gs")],
    "gsin": [("cp", "d"), ("ref", "d")],
    "itip": [("cp", "d"), ("ref", "d"), ("piece", "d"), ("total", "d"), ("serial", "gs")],
    "upui": [("cp", "d"), ("ref", "d"), ("serial", "gs")],
    "pgln": [("cp", "d"), ("ref", "d")],
    "lgtin": [("cp", "d"), ("ref", "d"), ("serial", "gs")],
    "gid": [("mgr", "num", 9), ("cls", "num", 8), ("serial", "num", 11)],
    "usdod": [("cage", "cage"), ("serial", "num", 11)],
    "adi": [("cage", "cage"), ("part", "adi"), ("serial", "hadi")],
    "bic": [("code", "bic")],
    "imovn": [("num", "imo")],
}
KIND = {
    "d": "[0-9]*", "num": "[0-9]+", "gs": r"(?:[A-Za-z0-9!'()*+,\-.:;=_]|%[0-9A-Fa-f][0-9A-Fa-f])*",
    "cpref": "(?:[0-9A-Z-]|%2F|%23)*", "cage": "[0-9A-HJ-NP-Z]{5,6}", "adi": "(?:[A-Z0-9-]|%2F)*",
    "hadi": "(?:%23)?(?:[A-Z0-9-]|%2F)*", "bic": "[A-HJ-NP-Z]{3}[JUZ][0-9]{7}", "imo": "[0-9]{7}",
}
TOKENS = {"d": DIGITS, "gs": GSTOK, "cpref": CPREF, "adi": ADIC}
PREFIXED = {"sgtin": 13, "sscc": 17, "sgln": 12, "grai": 12, "gsrn": 17, "gsrnp": 17, "gdti": 12, "sgcn": 12,
            "gsin": 16, "itip": 13, "upui": 13, "pgln": 12, "lgtin": 13}
SERIAL = {"sgtin": 20, "sgln": 20, "grai": 16, "gdti": 17, "sgcn": 12, "itip": 20, "upui": 28, "lgtin": 20}
BOUND = {"gid": {"mgr": 2 ** 28, "cls": 2 ** 24, "serial": 2 ** 36}, "usdod": {"serial": 2 ** 36}}


def template(scheme):
    """The generous grammar of a scheme as a regular expression."""
    return re.escape(SCHEMES[scheme].head) + r"\.".join(KIND[p[1]] for p in TEMPLATE[scheme])


class Part:
    """A component: its number of characters, character condition, digits."""

    def __init__(self, n, ok=True, digits=None):
        self.n, self.ok, self.digits = n, ok, digits


def within(n, lo, hi):
    return mk_and([mk_le(lo, n), mk_le(n, hi)])


def well_formed(scheme, p):
    """The specification: when do the components form a URI of the scheme?"""
    c = [x.ok for x in p.values()]
    if "cp" in p:
        c.append(within(p["cp"].n, 6, 12))
    if scheme in PREFIXED:
        s = t_add(p["cp"].n, p["ref"].n)
        c.append(within(s, PREFIXED[scheme], PREFIXED[scheme]))
    if scheme in SERIAL:
        c.append(within(p["serial"].n, 1, SERIAL[scheme]))
    if scheme == "itip":
        c += [within(p["piece"].n, 2, 2), within(p["total"].n, 2, 2)]
    if scheme in ("giai", "ginc", "cpi"):
        x = p["asset" if scheme == "giai" else "ref"].n
        c += [mk_le(1, x), mk_le(t_add(p["cp"].n, x), 30)]
    if scheme == "cpi":
        c.append(within(p["serial"].n, 1, 12))
    for name, lim in BOUND.get(scheme, {}).items():
        d = p[name].digits
        c.append(False if d is None else mk_lt(d.num(), lim))
    if scheme == "adi":
        c += [within(p["part"].n, 0, 32), within(p["serial"].n, 1, 30)]
    return mk_and(c)


def valid_text(scheme, text):
    """Is a concrete string a URI of the scheme?"""
    sp = SCHEMES[scheme]
    if not text.startswith(sp.head):
        return False
    body = text[len(sp.head):].split(".", len(TEMPLATE[scheme]) - 1)
    if len(body) != len(TEMPLATE[scheme]):
        return False
    parts = {}
    for (name, kind, *lim), t in zip(TEMPLATE[scheme], body):
        if not re.fullmatch(KIND[kind], t):
            return False
        digits, ok = None, True
        toks = re.findall("%..|.", t, re.S)
        if kind == "num":
            ok = t == "0" or t[:1] != "0"
            digits = Comp(name, "d", [int(c) for c in t]) if len(t) <= lim[0] else None
            ok = ok and digits is not None
        elif kind == "gs":
            ok = all(x in GSTOK and GSTOK.index(x) in GS_OK for x in toks)
        elif kind == "hadi":
            ok = toks != ["%23"] and "%23" not in toks[1:]
        parts[name] = Part(len(toks), ok, digits)
    return well_formed(scheme, parts) is True


def template_case(scheme, shape):
    case = Case(None, shape)
    parts, texts = {}, []
    for name, kind, *lim in TEMPLATE[scheme]:
        if kind == "num":
            k = shape[name]
            if k > lim[0]:
                d = Comp(name, "d", [case.var(f"{name}0", 0, 9)])
                t = cat(d.text(), case.star(name, DIGITS, lim[0]))
                parts[name] = Part(t_add(case.stars[-1].n, 1), False)
            else:
                d = Comp(name, "d", [case.var(f"{name}{i}", 0, 9) for i in range(k)])
                t = d.text()
                parts[name] = Part(k, d.no_leading_zero(), d)
        elif kind in ("cage", "bic", "imo"):
            al = {"cage": ["cage"] * shape.get(name, 0), "bic": ["bic"] * 3 + ["juz"] + ["d"] * 7, "imo": ["d"] * 7}
            cs = [Comp(f"{name}{i}", a, [case.var(f"{name}{i}", 0, len(ALPHA[a]) - 1)])
                  for i, a in enumerate(al[kind])]
            t = cat(*[c.text() for c in cs])
            parts[name] = Part(len(cs))
        else:
            t = case.star(name, TOKENS["adi" if kind == "hadi" else kind])
            dom = case.stars[-1]
            n = dom.n
            if kind == "hadi" and shape[name]:
                t = cat("%23", t)
                parts[name] = Part(t_add(n, 1), mk_le(1, n))
            else:
                parts[name] = Part(n, star_all(dom, GS_OK) if kind == "gs" else True)
        texts.append(t)
    t = SCHEMES[scheme].head
    for i, x in enumerate(texts):
        t = cat(t, "." if i else "", x)
    case.extra["t"] = t
    case.valid = well_formed(scheme, parts)
    return case


def template_shapes(scheme):
    out = [{}]
    for name, kind, *lim in TEMPLATE[scheme]:
        if kind == "num":
            vs = range(1, lim[0] + 2)
        elif kind == "cage":
            vs = (5, 6)
        elif kind == "hadi":
            vs = (0, 1)
        else:
            continue
        out = [{**s, name: v} for s in out for v in vs]
    return out


def readers_of(lib, scheme):
    cls = lib.cls(scheme)
    return [("constructor", cls), ("from_epc_uri", cls.from_epc_uri)]


def c10t(lib, case, R):
    """Text inside the template: accepted only when well-formed."""
    scheme, t = case.extra["scheme"], case.extra["t"]
    for what, f in readers_of(lib, scheme):
        o = R.call(f, t)
        R.require(o.kind != "error", f"{what}: no other exception", o)
        if o.ok:
            ok = case.valid if hasattr(case, "valid") else valid_text(scheme, t)
            R.require(ok, f"{what}: accepted text is well-formed", t)


def opaque(case, outside=None, name="t"):
    """Arbitrary text, outside the language of a pattern if one is given."""
    t = case.star(name, ANY)
    dom = case.stars[-1]
    dom.mode, dom.whole, dom.outside = "any", t, outside
    case.extra[name] = t
    if outside is not None and name == "t":
        case.suspects = lambda rng: suspects(case, dom, rng)
    return t


def suspects(case, dom, rng):
    """Where the code asks an expression that accepts text outside the template: such texts, close to texts that
    belong to the scheme, so that they get past the checks behind the expression."""
    name = case.extra.get("scheme")
    kind = case.extra.get("kind", "id")
    fixed = {k: v for k, v in case.extra.items() if isinstance(v, (str, int))}
    for q, open_ in list(dom.settled.items()):
        if not open_:
            continue
        for _ in range(6):
            sp = SCHEMES[name or rng.choice([n for n, sp in SCHEMES.items() if can(sp, kind)])]
            if not can(sp, kind):
                continue
            for w in lang.nearest(q, dom.outside, concrete_text(sp, kind, rng)):
                yield Case(None, case.shape, None, {**fixed, "seed": 0, "t": w})


def settle(R, case, strict=False):
    """Count the answers that follow from inclusion of languages.

    strict: where inclusion fails, the strings that show it are tried out."""
    if isinstance(R, ConRec):
        return
    acc = R.acc
    label = "the expression accepts only text of the template"
    for dom in case.stars:
        if dom.outside is None:
            continue
        for q, out in dom.settled.items():
            if not out:
                acc.obligations += 1
                acc.discharged += 1
                acc.labels[label] = acc.labels.get(label, 0) + 1
                acc.by["automata"] = acc.by.get("automata", 0) + 1
            elif strict:
                fixed = {k: v for k, v in case.extra.items() if isinstance(v, (str, int))}
                for w in out:
                    acc.candidates.append((label, Case(None, case.shape, None, {**fixed, "seed": 0, "t": w})))


def c10o(lib, case, R):
    """Text outside the template: refused."""
    scheme, t = case.extra["scheme"], case.extra["t"]
    sym = not isinstance(R, ConRec)
    for what, f in readers_of(lib, scheme):
        o = R.call(f, t)
        R.require(o.refused or (not sym and o.ok and valid_text(scheme, t)), f"{what}: refused or well-formed", o)
    if sym:
        settle(R, case, True)
    else:
        n = len(R.events)
        for u in edits(scheme, case.extra["seed"]):
            o = R.call(lib.cls(scheme), u)
            if not o.refused:
                R.require(o.ok and valid_text(scheme, u), f"edited URI {u!a}: refused or well-formed", o)
            if R.failures:
                return
        del R.events[n:]


def edits(scheme, seed, limit=6000):
    """Strings one edit away from a URI of the scheme."""
    rng = random.Random(f"{scheme}{seed}")
    sp = SCHEMES[scheme]
    sh = rng.choice(sp.shapes())
    u = concrete_uri(sp, sh, rng)
    yield u
    yield from near(u, len(sp.head), rng, limit)


def near(u, k, rng, limit):
    """Strings one edit away from u, whose first k characters are its head."""
    head, body = u[:k], u[k:]
    yield from (head, body, "", u + "\n", "\n" + u, u + " ", " " + u, u + ".", u + u, u.upper(), u.lower(),
                u.replace("urn:", "URN:"), u.replace("epc", "EPC"), u.replace(":id:", ":tag:"), head + body[::-1],
                head + "9" * 5000 + body, u + "0" * 40, u + "%", u + "%4", u + "%G1", u + "%00", u + "%7F", u + "%ff")
    sites = [(i, c) for i in range(len(u) + 1) for c in ANY]
    if len(sites) * 2 > limit:
        sites = rng.sample(sites, limit // 2)
    for i, c in sites:
        yield u[:i] + c + u[i:]
        if i < len(u):
            yield u[:i] + c + u[i + 1:]
    for i in range(len(u)):
        yield u[:i] + u[i + 1:]
        yield u[:i + 1] + u[i:]
        yield u[:i] + u[i + 1:i + 2] + u[i:i + 1] + u[i + 2:]
    for i in range(len(head), len(u)):   # several characters at once
        k = rng.randrange(1, 14)
        yield u[:i] + u[i:i + 1] * k + u[i:]
        yield u[:i] + u[i + k:]
        yield u[:i] + "0" * k + u[i:]
        yield u[:i] + "." + u[i:].replace(".", "", 1)


def concrete_uri(sp, sh, rng):
    for _ in range(50):
        c = Case(sp.name, sh, {n: [rng.randrange(len(ALPHA[a])) for _ in range(k)] for n, a, k in sp.comps(sh)})
        if sp.pre is None or sp.pre(c) is True:
            return c.uri()
    return Case(sp.name, sh, {n: [1 if len(ALPHA[a]) > 1 else 0] * k for n, a, k in sp.comps(sh)}).uri()


def c10v(lib, case, R):
    """An accepted object answers its key and element string requests."""
    uri = case.uri()
    x = R.call(lib.cls(case.scheme), uri)
    R.require(x.kind != "error", "constructor: no other exception", x)
    if not x.ok:
        return
    if case.sp.key:
        o = R.call(x.value.gs1_key)
        R.require(o.ok, "gs1_key answers", o)
    if case.sp.elem:
        o = R.call(x.value.gs1_element_string)
        R.require(o.ok, "gs1_element_string answers", o)


# --------------------------------------------------------------------- C15
#: element strings: application identifiers, d = digits, c = characters, k = characters of a CPI
ELEM = {
    "sgtin": ["(01)", "d", "(21)", "c"], "sscc": ["(00)", "d"], "sgln": ["(414)", "d", "(254)", "c"],
    "grai": ["(8003)", "d14", "c"], "giai": ["(8004)", "d6", "c"], "gsrn": ["(8018)", "d"], "gsrnp": ["(8017)", "d"],
    "gdti": ["(253)", "d13", "c"], "cpi": ["(8010)", "k", "(8011)", "d"], "sgcn": ["(255)", "d13", "c"],
    "ginc": ["(401)", "d6", "c"], "gsin": ["(402)", "d"], "itip": ["(8006)", "d", "(21)", "c"],
    "upui": ["(01)", "d", "(235)", "c"], "pgln": ["(417)", "d"], "lgtin": ["(01)", "d", "(10)", "c"],
}
EKIND = {"d": "[0-9]*", "c": "[a-zA-Z0-9!'()*+,\\-.:;=_\"%&/<>?]*", "k": "[0-9A-Z/#-]*"}
ETOK = {"d": DIGITS, "c": GS3_CHARS, "k": DIGITS + [chr(c) for c in range(65, 91)] + ["/", "-", "#"]}


def elem_template(scheme):
    return "".join(re.escape(p) if p[0] == "(" else EKIND[p] if p in EKIND else "[0-9]{%s}" % p[1:]
                   for p in ELEM[scheme])


class Contracts:
    """Replaces functions of the instrumented library by their contracts.

    A reader either raises the conversion error or returns an object; an
    accepted object answers requests for its key and element string.  The
    functions themselves are checked against these contracts by other items."""

    def __init__(self, lib, R, *what):
        self.lib, self.what = lib, what if not isinstance(R, ConRec) else ()
        self.saved = []

    def put(self, owner, name, f):
        self.saved.append((owner, name, owner.__dict__.get(name)))
        setattr(owner, name, f)

    def refuse(self):
        if choose("contract: refuses"):
            raise self.lib.ConvertException(message="contract")

    def blank(self, cls, text):
        x = object.__new__(cls)
        x.epc_uri = text
        return x

    def some(self, names, text):
        """An object of one of the schemes."""
        for n in names[:-1]:
            if choose("contract: a " + n):
                return self.blank(self.lib.cls(n), text)
        return self.blank(self.lib.cls(names[-1]), text)

    def __enter__(self):
        lib = self.lib
        for sp in SCHEMES.values():
            cls = lib.cls(sp.name)
            if "init" in self.what:
                def init(self_, epc_uri):
                    self.refuse()
                    self_.epc_uri = epc_uri
                self.put(cls, "__init__", init)

            def reader(c, text, *a, **k):
                self.refuse()
                return self.blank(c, text)
            for m, on in (("from_binary", sp.codings), ("from_tag_uri", sp.codings), ("from_hex", sp.codings),
                          ("from_gs1_element_string", sp.elem)):
                if m in self.what and on:
                    self.put(cls, m, classmethod(reader))
            for m, on in (("gs1_key", sp.key), ("gs1_element_string", sp.elem)):
                if "answers" in self.what and on:
                    self.put(cls, m, lambda self_, *a, **k: "answer")
        if "generic" in self.what:
            p = lib.parsers
            for f in ("epc_pure_identity_to_scheme", "gs1_element_string_to_gs1_element", "tag_uri_to_tag_encodable",
                      "binary_to_tag_encodable", "hex_to_tag_encodable"):
                def generic(text, *a, **k):
                    self.refuse()
                    return self.some(("sgtin", "cpi", "adi", "bic"), text)
                if f in p.__dict__:
                    self.put(p, f, generic)
        return self

    def __exit__(self, *a):
        for owner, name, old in reversed(self.saved):
            if old is None:
                delattr(owner, name)
            else:
                setattr(owner, name, old)
        return False


def robust(lib, R, case, readers, *contracts):
    """Every reader succeeds or raises the conversion error."""
    t = case.extra["t"]
    with Contracts(lib, R, *contracts):
        for what, f in readers:
            o = R.call(f, t)
            R.require(o.kind != "error", f"{what}: no other exception", o)
    settle(R, case)
    if isinstance(R, ConRec):
        n = len(R.events)
        for u in samples(case):
            for what, f in readers:
                o = R.call(f, u)
                if o.kind == "error":
                    R.require(False, f"{what} of {u!a}: no other exception", o)
                    return
        del R.events[n:]


def samples(case):
    """Damaged texts of the kind the readers expect."""
    rng = random.Random(repr(sorted((k, v) for k, v in case.extra.items() if k != "t")))
    kind = case.extra["kind"]
    name = case.extra.get("scheme") or rng.choice([n for n, sp in SCHEMES.items() if can(sp, kind)])
    sp = SCHEMES[name]
    if not can(sp, kind):
        kind = "id"
    u = concrete_text(sp, kind, rng)
    l = list(near(u, len(u) // 2, rng, 300))
    rng.shuffle(l)
    return l[:240]


def can(sp, kind):
    return {"id": True, "elem": bool(sp.elem), "idpat": bool(sp.key)}.get(kind, bool(sp.codings))


def concrete_text(sp, kind, rng):
    """A well-formed text of a kind."""
    sh = rng.choice(sp.shapes())
    uri = concrete_uri(sp, sh, rng)
    if kind == "id":
        return uri
    if kind == "idpat":
        u = uri.replace("id", "idpat", 1).replace(":class:", ":idpat:")
        k = rng.randrange(4)
        return ".".join(u.split(".")[:-k] + ["*"] * k) if k else u
    if kind == "elem":
        chars = "".join(rng.choice(GS3_CHARS) for _ in range(rng.randrange(1, 25)))
        digs = "".join(rng.choice(DIGITS) for _ in range(rng.randrange(11, 19)))
        return "".join({"d": digs, "c": chars, "k": digs + "/A"}.get(p, p) if p[0] == "(" or p in EKIND else
                       digs.zfill(int(p[1:]))[:int(p[1:])] for p in ELEM[sp.name])
    cod = rng.choice(list(sp.codings.values()))
    if kind == "tag":
        body = uri[len(sp.head):]
        return f"urn:epc:tag:{cod.name}:" + (f"{rng.randrange(8)}." if cod.fbits else "") + body
    n = rng.choice([8, 96, cod.size or 96, rng.randrange(8, 260)])
    b = cod.header + "".join(rng.choice("01") for _ in range(n - 8))
    if kind == "bin":
        return b
    b += "0" * (-len(b) % 8)
    h = f"{int(b, 2):0{len(b) // 4}X}"
    return h if kind == "hex" else base64.b64encode(bytes.fromhex(h)).decode()


GENERIC_ID = ("epc_pure_identity_to_scheme", "epc_pure_identity_to_gs1_element",
              "epc_pure_identity_to_gs1_element_string", "epc_pure_identity_to_gs1_keyed",
              "epc_pure_identity_to_gs1_key", "epc_pure_identity_to_tag_encodable")


def c15i(lib, case, R):
    """Generic readers of identity URIs."""
    n = case.extra["reader"]
    robust(lib, R, case, [(n, getattr(lib.parsers, n))], "init", "answers")


def c15t(lib, case, R):
    """Generic reader of tag URIs."""
    robust(lib, R, case, [("tag_uri_to_tag_encodable", lib.parsers.tag_uri_to_tag_encodable)], "from_tag_uri")


def c15e(lib, case, R):
    """Generic reader of element strings."""
    f, L = lib.parsers.gs1_element_string_to_gs1_element, case.extra["L"]
    robust(lib, R, case, [(f"gs1_element_string_to_gs1_element({L})", lambda t: f(t, L))], "from_gs1_element_string")


def c15b(lib, case, R):
    """Generic readers of binary, hexadecimal and base64 text."""
    n = case.extra["reader"]
    robust(lib, R, case, [(n, getattr(lib.parsers, n))], "from_binary")


def c15k(lib, case, R):
    """The key lookup."""
    f = lib.parsers.get_gs1_key
    L = case.extra["L"]
    robust(lib, R, case, [(f"get_gs1_key({L})", lambda t: f(t, L) if L else f(t))], "init", "answers", "generic")


def c15w(lib, case, R):
    """The reader of tag URIs of one scheme."""
    robust(lib, R, case, [("from_tag_uri", lib.cls(case.extra["scheme"]).from_tag_uri)], "init")


def c15s(lib, case, R):
    """The reader of element strings of one scheme."""
    f, L = lib.cls(case.extra["scheme"]).from_gs1_element_string, case.extra["L"]
    robust(lib, R, case, [(f"from_gs1_element_string({L})", lambda t: f(t, L))], "init")


def c15n(lib, case, R):
    """The reader of binary text of one scheme."""
    robust(lib, R, case, [("from_binary", lib.cls(case.extra["scheme"]).from_binary)], "init")


def c15h(lib, case, R):
    """The readers of hexadecimal and base64 text of one scheme."""
    cls = lib.cls(case.extra["scheme"])
    robust(lib, R, case, [(case.extra["reader"], getattr(cls, case.extra["reader"]))], "from_binary")


NOCOLON = [c for c in ANY if c != ":"]
NODASH = [c for c in NOCOLON if c != "-"]
NAMES = sorted(c for sp in SCHEMES.values() for c in sp.codings)


def make15(fn, scheme, shape, extra):
    case = Case(None, shape, None, extra)
    case.extra["seed"] = case.var("seed", 0, 9999)
    if scheme:
        case.extra["scheme"] = scheme
    if fn in ("c15i", "c15t"):
        t = ""
        for i in range(shape["colons"] + 1):
            if i:
                t = cat(t, ":")
            if i == 3 and fn == "c15t":
                t = cat(t, case.star("name", NODASH))
                if shape.get("dash"):
                    t = cat(t, "-", case.star("kind", NOCOLON))
            elif i == 3 and shape["name"]:
                t = cat(t, shape["name"])
            else:
                t = cat(t, case.star(f"p{i}", ANY if i == 4 else NOCOLON))
        for d in case.stars:
            if d.name in ("p3", "p4", "name"):
                d.mode = "any"
            if d.name == "p3":
                d.unlike = tuple(SCHEMES)
        case.extra["t"] = t
        return case
    if fn == "c15n" and "n" in shape:
        case.extra["t"] = cat(*[FSs(case.var(f"b{i}", 0, 1), "01") for i in range(shape["n"])]) if shape["n"] else ""
        return case
    if extra.get("coding") and fn == "c15w":
        t = cat(f"urn:epc:tag:{extra['coding']}:", case.star("rest", ANY))
        case.stars[-1].mode = "any"
        case.extra["t"] = t
        return case
    if fn == "c15s" and shape.get("inside"):
        parts = []
        for i, p in enumerate(ELEM[scheme]):
            if p[0] == "(":
                parts.append(p)
            elif p in ETOK and "n" in shape and p != "d":
                parts += [FSs(case.var(f"c{j}", 0, len(ETOK[p]) - 1), ETOK[p]) for j in range(shape["n"])]
                if shape["n"] == 37:
                    parts.append(case.star(f"p{i}", ETOK[p]))
            elif p in ETOK:
                parts.append(case.star(f"p{i}", ETOK[p]))
            else:
                parts += [FSs(case.var(f"d{j}", 0, 9), DIGITS) for j in range(int(p[1:]))]
        case.extra["t"] = cat(*parts)
        return case
    if fn == "c15k" and extra.get("name"):
        t = cat(f"urn:epc:idpat:{extra['name']}:", case.star("rest", ANY))
        case.stars[-1].mode = "any"
        case.extra["t"] = t
        return case
    opaque(case, {
        "c15w": "urn:epc:tag:(?:" + "|".join(NAMES) + r"):(?s:.*)",
        "c15s": elem_template(scheme) if fn == "c15s" else None,
        "c15n": "[01]*",
        "c15k": "urn:epc:idpat:(?:" + "|".join(SCHEMES) + r"):(?s:.*)",
    }.get(fn))
    return case


def items15(fn):
    out = []
    if fn == "c15i":
        out = [(fn, None, {"colons": k, "name": m}, {"kind": "id", "reader": n}) for k in range(5) for n in GENERIC_ID
               for m in ([None, *SCHEMES] if k > 2 else [None])]
    elif fn == "c15t":
        out = [(fn, None, {"colons": k, "dash": d}, {"kind": "tag"}) for k in range(5) for d in range(1 + (k > 2))]
    elif fn == "c15e":
        out = [(fn, None, {}, {"kind": "elem", "L": L}) for L in range(6, 13)]
    elif fn == "c15b":
        out = [(fn, None, {}, {"kind": k[:3] if k == "binary" else k, "reader": k + "_to_tag_encodable"})
               for k in ("binary", "hex", "base64")]
    elif fn == "c15k":
        for L in (None, *range(6, 13)):
            for kind in ("id", "tag", "elem", "idpat", "bin", "hex"):
                out.append((fn, None, {}, {"kind": kind, "L": L}))
            out += [(fn, n, {}, {"kind": "idpat", "L": L, "name": n}) for n in SCHEMES]
    for sp in SCHEMES.values():
        if fn == "c15w" and sp.codings:
            out += [(fn, sp.name, {}, {"kind": "tag"})]
            out += [(fn, sp.name, {}, {"kind": "tag", "coding": n}) for n in NAMES]
        elif fn == "c15s" and sp.elem:
            sh = [{"inside": 0}, {"inside": 1}]
            if sp.name in ("giai", "ginc", "cpi"):
                sh = [{"inside": 0}] + [{"inside": 1, "n": n} for n in range(38)]
            out += [(fn, sp.name, {**s, "L": L}, {"kind": "elem", "L": L}) for s in sh for L in range(6, 13)]
        elif fn == "c15n" and sp.codings:
            out += [(fn, sp.name, sh, {"kind": "bin"}) for sh in [{}] + [{"n": n} for n in range(8)]]
        elif fn == "c15h" and sp.codings:
            out += [(fn, sp.name, {}, {"kind": k, "reader": "from_" + k}) for k in ("hex", "base64")]
    return out


# ------------------------------------------------------------------- items
def make(fn, scheme, shape, extra):
    if fn == "c10v":
        return Case(scheme, shape, None, extra)
    if fn == "c10t":
        case = template_case(scheme, shape)
        case.extra["scheme"] = scheme
        return case
    if fn == "c10o":
        case = Case(None, shape, None, {"scheme": scheme})
        opaque(case, template(scheme))
        case.extra["seed"] = case.var("seed", 0, 9999)
        return case
    return make15(fn, scheme, shape, extra)


def items(fn, shapes_for, alpha):
    out = []
    for sp in SCHEMES.values():
        if fn == "c10v":
            if sp.key or sp.elem:
                out += [(fn, sp.name, sh, {}) for sh in shapes_for(sp, None, alpha)]
        elif fn == "c10t":
            out += [(fn, sp.name, sh, {}) for sh in template_shapes(sp.name)]
        elif fn == "c10o":
            out += [(fn, sp.name, {}, {})]
    return out or items15(fn)
