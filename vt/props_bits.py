"""Checks over arbitrary tag contents: C04, C05 (reading) and C14."""
from __future__ import annotations

import base64

from . import hooks
from .core import Case, ConRec, Rec
from .rope import FSs, cat, int_digits, s_eq, s_len, s_slice as _slice
from .spec import NREF, PART, SCHEMES, TAGGED, bits, bits7

HEXDIGITS = list("0123456789ABCDEFabcdef")
NIBBLE = [f"{int(c, 16):04b}" for c in HEXDIGITS]
PBYP = {p: (L, m) for L, (p, m) in PART.items()}
HEADERS = {cod.header: (sp.name, cod.name) for sp in TAGGED for cod in sp.codings.values()}


def s_slice(s, a, b=None):
    return s[a:b] if isinstance(s, str) else _slice(s, a, b, None)


# ----------------------------------------------------------------- layouts
def layout(coding, P):
    """Fields behind header and filter: (name, kind, width or count, cared for)."""
    if coding == "gid-96":
        return [("mgr", "num", 28, 1), ("cls", "num", 24, 1), ("serial", "num", 36, 1)]
    if coding == "usdod-96":
        return [("cage", "c8", 6, 1), ("serial", "num", 36, 1)]
    total = {"sgtin-96": 96, "sgtin-198": 198, "sgln-195": 195, "grai-170": 170, "giai-202": 202, "gdti-174": 174,
             "itip-110": 110, "itip-212": 212}.get(coding, 96)
    if P not in PBYP:
        return [("rest", "num", total - 14, 1)]
    L, M = PBYP[P]
    fam = {"sgtin-96": "sgtin", "sgtin-198": "sgtin", "itip-110": "sgtin", "itip-212": "sgtin", "sscc-96": "sscc",
           "gsrn-96": "sscc", "gsrnp-96": "sscc", "sgln-96": "sgln", "sgln-195": "sgln", "gdti-96": "sgln",
           "gdti-174": "sgln", "sgcn-96": "sgln", "grai-96": "grai", "grai-170": "grai", "giai-96": "giai96",
           "giai-202": "giai202", "cpi-96": "cpi96"}[coding]
    N = NREF[fam][L]
    # a reference of no digits: the field is not used
    used = 0 if L == 12 and fam in ("sgln", "grai") else 1
    out = [("C", "num", M, 1)]
    if coding == "giai-202":
        out.append(("a", "c7", N // 7, 1))
        if N % 7:
            out.append(("pad", "num", N % 7, 0))
        return out
    out.append(("D", "num", N, used))
    if coding in ("sscc-96", "gsrn-96", "gsrnp-96"):
        return out + [("reserved", "num", 24, 0)]
    if coding == "giai-96":
        return out
    if coding.startswith("itip"):
        out += [("piece", "num", 7, 1), ("total", "num", 7, 1)]
    if coding in ("sgtin-198", "sgln-195", "itip-212"):
        return out + [("s", "c7", 20, 1)]
    if coding == "grai-170":
        return out + [("s", "c7", 16, 1)]
    if coding == "gdti-174":
        return out + [("s", "c7", 17, 1)]
    w = {"sgtin-96": 38, "grai-96": 38, "itip-110": 38, "cpi-96": 31}.get(coding, 41)
    return out + [("s", "num", w, 1)]


def tag_case(scheme, coding, P, tail, mgr=None):
    """Arbitrary contents of a fixed-size coding (partition value fixed)."""
    cod = SCHEMES[scheme].codings[coding]
    case = Case(None, {"P": P, "tail": tail, "mgr": mgr})
    parts, mask = [cod.header], [(cod.header, True)]
    if cod.fbits:
        f = case.var("filter", 0, 2 ** cod.fbits - 1)
        case.extra["filter"] = f
        parts.append(bits(f, cod.fbits))
        mask.append((parts[-1], True))
    if P is not None:
        parts.append(bits(P, 3))
        mask.append((parts[-1], True))
    for name, kind, w, care in layout(coding, P):
        if kind == "num":
            lo, hi = 0, 2 ** w - 1
            if name == "mgr" and mgr is not None:
                lo, hi = 10 ** mgr if mgr else 0, min(hi, 10 ** (mgr + 1) - 1)
            fs = [bits(case.var(name, lo, hi), w)]
        else:
            b = int(kind[1:])
            fs = [bits(case.var(f"{name}{i}", 0, 2 ** b - 1), b) for i in range(w)]
        for x in fs:
            parts.append(x)
            mask.append((x, bool(care)))
    t = case.star("tail", ["0", "1"]) if tail else ""
    case.extra.update(scheme=scheme, coding=coding, bits=cat(*parts, t), size=cod.size,
                      mask=[int(c) for _, c in mask], widths=[s_len(x) for x, _ in mask])
    return case


def tail_bits(case, n):
    """n trailing bits, in groups of six."""
    out = [bits(case.var(f"z{i}", 0, 63), 6) for i in range(n // 6)]
    if n % 6:
        out.append(bits(case.var("z", 0, 2 ** (n % 6) - 1), n % 6))
    return cat(*out)


def nonzero(case, name):
    """Six bits that are no terminator."""
    return FSs(case.var(name, 0, 62), [f"{i:06b}" for i in range(1, 64)])


def cpivar_case(P, t, r, tail):
    """CPI-var: t characters that are no terminator, a terminator, r further bits."""
    case = Case(None, {"P": P, "t": t, "r": r, "tail": tail})
    f = case.var("filter", 0, 7)
    parts = ["00111101", bits(f, 3), bits(P, 3)]
    if P in PBYP:
        parts.append(bits(case.var("C", 0, 2 ** PBYP[P][1] - 1), PBYP[P][1]))
    parts += [nonzero(case, f"c{i}") for i in range(t)]
    if r >= 0:
        parts.append("000000")
        if r:
            parts.append(bits(case.var("S", 0, 2 ** r - 1), r))
    tl = tail_bits(case, tail)
    case.extra.update(scheme="cpi", coding="cpi-var", filter=f, bits=cat(*parts, tl), size=None)
    return case


def adi_case(t1, t2, tail):
    """ADI-var: six CAGE characters, t1 part characters and terminator, t2 serial characters and terminator."""
    case = Case(None, {"t1": t1, "t2": t2, "tail": tail})
    f = case.var("filter", 0, 63)
    parts = ["00111011", bits(f, 6)] + [bits(case.var(f"g{i}", 0, 63), 6) for i in range(6)]
    parts += [nonzero(case, f"p{i}") for i in range(t1)]
    if t2 is not None:
        parts.append("000000")
        parts += [nonzero(case, f"s{i}") for i in range(t2)]
        if tail is not None:
            parts.append("000000")
    tl = tail_bits(case, tail or 0)
    case.extra.update(scheme="adi", coding="adi-var", filter=f, bits=cat(*parts, tl), size=None)
    return case


def c04(lib, case, R):
    scheme, coding = case.extra["scheme"], case.extra["coding"]
    cls = lib.cls(scheme)
    b = case.extra["bits"]
    o = R.call(cls.from_binary, b)
    R.require(o.ok or o.refused, "decoder answers or refuses", o)
    if not o.ok:
        return
    x = o.value
    R.require(type(x) is cls, "decoded object is of the scheme", x)
    y = R.ok("decoded URI is valid", cls, x.epc_uri)
    kw = lib.tagargs(scheme, coding, case.extra.get("filter"))
    b2 = R.ok("re-encoding succeeds", (y or x).binary, **kw)
    if b2 is None:
        return
    if case.extra["size"] is None:
        R.eq(s_slice(b, 0, s_len(b2)), b2, "re-encoding gives the bits")
        return
    R.eq_len(b2, case.extra["size"], "re-encoding has the size of the coding scheme")
    i = 0
    want, got = [], []
    for w, care in zip(case.extra["widths"], case.extra["mask"]):
        if care:
            want.append(s_slice(b, i, i + w))
            got.append(s_slice(b2, i, i + w))
        i += w
    R.eq(cat(*got), cat(*want), "re-encoding gives the bits")


def c04s(lib, case, R):
    """Too short contents of a fixed-size coding are refused."""
    cls = lib.cls(case.extra["scheme"])
    R.refused("short contents refused", cls.from_binary, case.extra["bits"])
    R.refused("short contents refused by the generic parser", lib.parsers.binary_to_tag_encodable, case.extra["bits"])


def short_case(scheme, coding, P=None):
    cod = SCHEMES[scheme].codings[coding]
    case = Case(None, {"P": P})
    if coding == "cpi-var":
        head = "" if P is None else cat(bits(case.var("filter", 0, 7), 3), bits(P, 3))
        rest = case.star("rest", ["0", "1"], 0, 5 if P is None else PBYP[P][1] - 1)
        case.extra.update(scheme=scheme, coding=coding, bits=cat(cod.header, head, rest))
        return case
    hi = (cod.size if cod.size else 8 + 6 + 36 + 6 + 5) - 8 - 1
    case.extra.update(scheme=scheme, coding=coding, bits=cat(cod.header, case.star("rest", ["0", "1"], 0, hi)))
    return case


# ------------------------------------------------------------------- C14
class Spy:
    """Replaces a class method by a recording one for the time of a check."""

    def __init__(self, lib, method, outcome):
        self.lib, self.method, self.outcome = lib, method, outcome
        self.calls = []

    def __enter__(self):
        self.saved = []
        for sp in TAGGED:
            cls = self.lib.cls(sp.name)
            self.saved.append((cls, cls.__dict__.get(self.method)))

            def f(c, *a, _n=sp.name, **k):
                self.calls.append((_n, a, k))
                if self.outcome is not None:
                    raise self.outcome
                return self
            setattr(cls, self.method, classmethod(f))
        return self

    def __exit__(self, *a):
        for cls, old in self.saved:
            if old is None:
                delattr(cls, self.method)
            else:
                setattr(cls, self.method, old)
        return False


def delegated(lib, R, f, arg, method, scheme, want, label):
    """f(arg) must answer exactly what <scheme>.<method>(want) answers.

    Modular: the decoder is replaced by a recording one that answers with a
    mark or raises a marked conversion error.  Code that reaches the decoder
    by another way is compared by what it answers (concrete runs only).
    """
    for outcome in (None, lib.ConvertException(message="spy")):
        with Spy(lib, method, outcome) as spy:
            o = R.call(f, arg)
            n = list(spy.calls)
        if scheme is None:
            R.require(o.refused and not n, label + ": refused", o)
            return
        args = [list(c[1]) + list(c[2].values()) for c in n]
        conds = [("handed to the decoder of the scheme", len(n) == 1 and n[0][0] == scheme and len(args[0]) == 1),
                 ("same contents", len(n) == 1 and len(args[0]) == 1 and s_eq(args[0][0], want)),
                 ("answer passed on", o.ok and o.value is spy if outcome is None else o.refused and o.value is outcome)]
        if isinstance(R, ConRec) and not all(c is True for _, c in conds):
            same = behaves(lib, f, arg, getattr(lib.cls(scheme), method), want, R)
            conds = [(l, same) for l, _ in conds]
        for l, c in conds:
            R.require(c, f"{label}: {l}", o)


def behaves(lib, f, arg, g, want, R):
    """f(arg) and g(want) answer alike."""
    a, b = Rec.call(R, f, arg), Rec.call(R, g, want)
    if a.kind != b.kind:
        return False
    return not a.ok or (type(a.value) is type(b.value) and a.value.epc_uri == b.value.epc_uri)


def c14b(lib, case, R):
    """Generic binary parser, arbitrary contents behind one header byte."""
    h = case.extra["header"]
    scheme = HEADERS[h][0] if h in HEADERS else None
    delegated(lib, R, lib.parsers.binary_to_tag_encodable, case.extra["bits"], "from_binary", scheme,
              case.extra["bits"], "binary parser")
    for sp in TAGGED:
        if scheme != sp.name:
            R.refused("foreign header refused by the decoder", lib.cls(sp.name).from_binary, case.extra["bits"])


def c14g(lib, case, R):
    """Generic readers on text that need not be tag contents at all."""
    t, P = case.extra["text"], lib.parsers
    if "header" in case.extra:
        scheme = HEADERS[case.extra["header"]][0]
        delegated(lib, R, P.binary_to_tag_encodable, t, "from_binary", scheme, t, "binary parser")
        return
    n = s_len(t)
    if n >= 8:
        head = s_slice(t, 0, 8)
        for h in HEADERS:
            if R.case_split(s_eq(head, h)):
                return
    R.refused("binary parser: no header, refused", P.binary_to_tag_encodable, t)
    for sp in TAGGED:
        R.refused("no header: refused by the decoder", lib.cls(sp.name).from_binary, t)


def c14x(lib, case, R):
    """Generic and own readers of hexadecimal and base64 text agree on irregular spellings."""
    t, own = case.extra["text"], case.extra["own"]
    f = {"from_hex": lib.parsers.hex_to_tag_encodable, "from_base64": lib.parsers.base64_to_tag_encodable}[own]
    with Spy(lib, "from_binary", None) as spy:
        o = R.call(f, t)
        got = list(spy.calls)
    if not got:
        R.require(o.refused, "irregular text: refused", o)
        for sp in TAGGED:
            R.refused("irregular text: refused by the scheme's own reader", getattr(lib.cls(sp.name), own), t)
        return
    name = got[0][0]
    with Spy(lib, "from_binary", None) as spy2:
        R.call(getattr(lib.cls(name), own), t)
        want = list(spy2.calls)
    same = (len(got) == len(want) == 1 and want[0][0] == name and len(got[0][1]) == len(want[0][1]) == 1
            and s_eq(got[0][1][0], want[0][1][0]))
    if isinstance(R, ConRec) and same is not True:
        same = behaves(lib, f, t, getattr(lib.cls(name), own), t, R)
    R.require(same, "irregular text: same contents", o)


def c14h(lib, case, R):
    """Generic readers of hexadecimal and base64 text behind one header byte."""
    h = case.extra["header"]
    scheme = HEADERS[h][0] if h in HEADERS else None
    P = lib.parsers
    hx, bt = case.extra["hex"], case.extra["bits"]
    delegated(lib, R, P.hex_to_tag_encodable, hx, "from_binary", scheme, bt, "hex parser")
    if s_len(bt) % 8 == 0:
        delegated(lib, R, P.base64_to_tag_encodable, std_b64(hx), "from_binary", scheme, bt, "base64 parser")


def c14r(lib, case, R):
    """Own readers of hexadecimal and base64 text: exactly the decoder on the bits."""
    hx, bt = case.extra["hex"], case.extra["bits"]
    for sp in TAGGED:
        cls = lib.cls(sp.name)
        delegated(lib, R, cls.from_hex, hx, "from_binary", sp.name, bt, "from_hex")
        if s_len(bt) % 8 == 0:
            delegated(lib, R, cls.from_base64, std_b64(hx), "from_binary", sp.name, bt, "from_base64")


def c14t(lib, case, R):
    """Tag URIs with a known name and arbitrary rest."""
    u = case.extra["uri"]
    scheme = case.extra["name"]
    delegated(lib, R, lib.parsers.tag_uri_to_tag_encodable, u, "from_tag_uri", scheme, u, "tag URI parser")


def c14u(lib, case, R):
    """Valid tag URIs are refused by the readers of all other schemes."""
    cod = case.sp.codings[case.extra["coding"]]
    u = case.sp.tag_uri(case, cod, case.extra.get("filter"))
    for sp in TAGGED:
        if sp is not case.sp:
            R.refused("foreign tag URI refused", lib.cls(sp.name).from_tag_uri, u)


def hex_case(header, n):
    case = Case(None, {"n": n})
    ks = [case.var(f"h{i}", 0, len(HEXDIGITS) - 1) for i in range(n)]
    if header is None:
        case.extra.update(hex=cat(*[FSs(k, HEXDIGITS) for k in ks]), bits=cat(*[FSs(k, NIBBLE) for k in ks]))
        return case
    first = hex_spellings(header)
    k0 = case.var("first", 0, len(first) - 1) if len(first) > 1 else None
    head = FSs(k0, first) if k0 is not None else first[0]
    case.extra.update(header=header, hex=cat(head, *[FSs(k, HEXDIGITS) for k in ks]),
                      bits=cat(header, *[FSs(k, NIBBLE) for k in ks]))
    return case


def hex_spellings(header):
    h = f"{int(header, 2):02X}"
    return sorted({a + b for a in {h[0], h[0].lower()} for b in {h[1], h[1].lower()}})


def std_b64(h):
    if isinstance(h, str):
        return base64.b64encode(bytes.fromhex(h)).decode()
    return hooks.std_base64(h)


def bin_case(header):
    case = Case(None, {})
    case.extra.update(header=header, bits=cat(header, case.star("rest", ["0", "1"])))
    return case


ODD = "\x00\t\n\r\x1f\x85\xa0\xad²٣３߀Ａ％．İıßſKéÿ中\u2028\u202e𐏿\ufeff\uffff😀\U0010ffff"
ANY = [chr(c) for c in range(128)] + [c for c in ODD if ord(c) > 127]


def taguri_case(scheme, coding):
    case = Case(None, {})
    case.extra.update(name=scheme, uri=cat(f"urn:epc:tag:{coding}:", case.star("rest", ANY)))
    return case


def badname_case(text):
    case = Case(None, {})
    case.extra.update(name=None, uri=cat(f"urn:epc:tag:{text}:", case.star("rest", ANY)))
    return case


BADNAMES = ["", "sgtin96", "Sgtin-96", "SGTIN-96", "bic", "imovn-96", "lgtin-96", "ginc-96", "gsin-96", "pgln-96",
            "upui-96", "sgtins-96", "x", "xsgtin-96", "itip96", "gsrnpp-96", "tag", "id", "-96", "sgtin_96"]


def text_case(shape):
    case = Case(None, shape)
    if "header" in shape:
        case.extra.update(header=shape["header"], text=cat(shape["header"], case.star("rest", ANY)))
        return case
    n = shape["n"]
    t = cat("", *[FSs(case.var(f"c{i}", 0, len(ANY) - 1), ANY) for i in range(n)])
    case.extra["text"] = cat(t, case.star("rest", ANY)) if n == 8 else t
    return case


BEFORE = ["", " ", "\n", "\u2003", "0x", "0X", "+", "-", "_", "0", "٣"]
AFTER = ["", " ", "\n", "_", "_A", "g", "h", "\x00", "٣", "=", "==", "-", "/"]


def odd_case(shape):
    case = hex_case(shape["header"], shape["n"])
    t = case.extra["hex"]
    if shape["own"] == "from_base64":
        t = std_b64(t)
    case.extra.update(text=cat(BEFORE[shape["b"]], t, AFTER[shape["e"]]), own=shape["own"])
    return case


# ----------------------------------------------------------------- items
def make(fn, scheme, shape, extra):
    cod = extra.get("coding")
    if fn in ("c04", "c04x"):
        if cod == "cpi-var":
            return cpivar_case(shape["P"], shape["t"], shape["r"], shape["tail"])
        if cod == "adi-var":
            return adi_case(shape["t1"], shape["t2"], shape["tail"])
        return tag_case(scheme, cod, shape["P"], shape["tail"], shape.get("mgr"))
    if fn == "c04s":
        return short_case(scheme, cod, shape.get("P"))
    if fn == "c14b":
        return bin_case(shape["header"])
    if fn in ("c14h", "c14r"):
        return hex_case(shape.get("header"), shape["n"])
    if fn == "c14g":
        return text_case(shape)
    if fn == "c14x":
        return odd_case(shape)
    if fn == "c14t":
        return taguri_case(scheme, cod) if cod else badname_case(shape["name"])
    if fn == "c14u":
        case = Case(scheme, shape, None, extra)
        fb = case.sp.codings[cod].fbits
        if fb:
            case.extra["filter"] = case.var("filter", 0, 2 ** fb - 1)
        return case
    return None


def items(fn):
    out = []
    for sp in TAGGED:
        for cod in sp.codings:
            ex = {"coding": cod}
            if fn == "c04":
                if cod == "cpi-var":
                    for P in range(8):
                        top = (30 - PBYP[P][0]) if P in PBYP else 3
                        for t in range(0, top + 3):
                            for tail in (0, 1 + (5 * t + P) % 15, 30 + (t + P) % 6):
                                out.append((fn, sp.name, {"P": P, "t": t, "r": 40, "tail": tail}, ex))
                        # short serials, and no terminator at all
                        for t in (0, 1, top):
                            for r in (-1, 0, 1, 39):
                                out.append((fn, sp.name, {"P": P, "t": t, "r": r, "tail": 0}, ex))
                elif cod == "adi-var":
                    for t1 in range(0, 35):
                        for t2 in range(0, 33):
                            for tail in (0, 1 + (5 * t1 + t2) % 15, 30 + (t1 + t2) % 6):
                                out.append((fn, sp.name, {"t1": t1, "t2": t2, "tail": tail}, ex))
                    for t1 in range(0, 35):
                        out.append((fn, sp.name, {"t1": t1, "t2": None, "tail": 0}, ex))
                        for t2 in range(0, 33):
                            if t2 % 8 == t1 % 8:
                                out.append((fn, sp.name, {"t1": t1, "t2": t2, "tail": None}, ex))
                elif cod == "gid-96":
                    for m in range(9):
                        out.append((fn, sp.name, {"P": None, "tail": 1, "mgr": m}, ex))
                else:
                    for P in (range(8) if cod != "usdod-96" else [None]):
                        out.append((fn, sp.name, {"P": P, "tail": 1}, ex))
            elif fn == "c04s":
                out.append((fn, sp.name, {}, ex))
                if cod == "cpi-var":
                    out.extend((fn, sp.name, {"P": P}, ex) for P in PBYP)
            elif fn == "c14t":
                out.append((fn, sp.name, {}, ex))
            elif fn == "c14u":
                sh = sp.shapes()
                for s in {0, len(sh) // 2, len(sh) - 1}:
                    out.append((fn, sp.name, sh[s], ex))
    if fn == "c14b":
        for h in range(256):
            out.append((fn, None, {"header": f"{h:08b}"}, {}))
    if fn == "c14r":
        for n in range(1, 114):
            out.append((fn, None, {"n": n}, {}))
    if fn == "c14h":
        for h in HEADERS:
            for n in range(0, 112):
                out.append((fn, None, {"header": h, "n": n}, {}))
        for h in range(256):
            if f"{h:08b}" not in HEADERS:
                for n in (0, 22, 1 + h % 60):
                    out.append((fn, None, {"header": f"{h:08b}", "n": n}, {}))
    if fn == "c14g":
        out += [(fn, None, {"header": h}, {}) for h in HEADERS] + [(fn, None, {"n": n}, {}) for n in range(9)]
    if fn == "c14x":
        for i, h in enumerate(HEADERS):
            for own in ("from_hex", "from_base64"):
                for b, e in [(b, 0) for b in range(len(BEFORE))] + [(0, e) for e in range(1, len(AFTER))]:
                    if own == "from_base64" and set(BEFORE[b] + AFTER[e]) & set(hooks.B64ALPHA[:-1]):
                        continue    # more base64 text
                    out.append((fn, None, {"header": h, "n": 22 + 2 * (i % 3), "own": own, "b": b, "e": e}, {}))
    if fn == "c14t":
        for t in BADNAMES:
            out.append((fn, None, {"name": t}, {}))
    return out
