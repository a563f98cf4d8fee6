"""The EPC Tag Data Standard / GS1 General Specifications, as data and formulas.

Written from the standards, independently of the library.  Everything here is
computed over identities given as components (company prefix, reference,
serial, ...), never by calling the library.  The formulas use the rope and
term operations of the engine, which work on plain Python values as well, so
the same text is the specification of the proofs and the oracle of concrete
replays.
"""
from __future__ import annotations

from .rope import FSs, cat, int_digits, m_lower, s_len, s_to_int
from .terms import T, K, mk_and, mk_fd, mk_le, mk_lt, mk_not, mk_or, t_add, t_mod, t_scale, t_sub

# --------------------------------------------------------------------------
# alphabets: lists of tokens; a token is one character of the identity in its
# URI spelling

DIGITS = list("0123456789")
UPPER = [chr(c) for c in range(65, 91)]
LOWER = [chr(c) for c in range(97, 123)]

# GS3A3: the 82 characters of GS1 AI encodable character set 82 (TDS table A-1)
GS3_PLAIN = list("!'()*+,-.") + DIGITS + list(":;=") + UPPER + ["_"] + LOWER
GS3_ESCAPED = {'"': "%22", "%": "%25", "&": "%26", "/": "%2F", "<": "%3C", ">": "%3E", "?": "%3F"}
GS3_CHARS = GS3_PLAIN + list(GS3_ESCAPED)
GS3 = GS3_PLAIN + list(GS3_ESCAPED.values())


def _spellings(c):
    h = f"{ord(c):02X}"
    out = {"%" + a + b for a in {h[0], h[0].lower()} for b in {h[1], h[1].lower()}}
    return sorted(out)


#: every accepted spelling, including needless and lower-case escapes
GS3X = GS3 + [s for c in GS3_CHARS for s in _spellings(c) if s not in GS3]

CPREF = DIGITS + UPPER + ["-", "%2F", "%23"]
ADIC = UPPER + DIGITS + ["-", "%2F"]
CAGE = DIGITS + [c for c in UPPER if c not in "IO"]
BIC3 = [c for c in UPPER if c not in "IO"]
ALPHA = {
    "d": DIGITS, "gs3": GS3, "gs3x": GS3X, "cpref": CPREF, "adi": ADIC, "cage": CAGE,
    "bic": BIC3, "juz": list("JUZ"), "hash": ["%23"],
}


def unesc(tok):
    """The character a token stands for."""
    return chr(int(tok[1:], 16)) if tok[0] == "%" else tok


def canon(tok):
    """The standard spelling of the character of a token."""
    c = unesc(tok)
    if tok in ("%23",):
        return tok
    return GS3_ESCAPED.get(c, c)


def bits7(tok):
    return f"{ord(unesc(tok)):07b}"


def bits6(tok):
    """TDS table G-1: low six bits of the ASCII code."""
    return f"{ord(unesc(tok)) % 64:06b}"


def bits8(tok):
    return f"{ord(unesc(tok)):08b}"


class Comp:
    """One component: a sequence of tokens of an alphabet."""

    def __init__(self, name, alpha, keys):
        self.name, self.alpha, self.keys = name, alpha, list(keys)

    @property
    def n(self):
        return len(self.keys)

    @property
    def toks(self):
        return ALPHA[self.alpha]

    def text(self, f=None):
        tab = self.toks if f is None else [f(t) for t in self.toks]
        return cat(*[tab[k] if isinstance(k, int) else FSs(k, tab) for k in self.keys])

    def num(self):
        return s_to_int(self.text(), 10)

    def all_in(self, toks):
        return mk_and([self.key_in(i, toks) for i in range(self.n)])

    def key_in(self, i, toks):
        ok = [j for j, t in enumerate(self.toks) if t in toks]
        k = self.keys[i]
        return k in ok if isinstance(k, int) else mk_fd(k, ok)

    def no_leading_zero(self):
        return True if self.n <= 1 else mk_not(self.key_in(0, ["0"]))

    def digit(self, i):
        return s_to_int(self.text_at(i), 10)

    def text_at(self, i):
        k = self.keys[i]
        return self.toks[k] if isinstance(k, int) else FSs(k, self.toks)


def check_digit(s):
    """GS1 check digit of a digit rope of known length: weights 3,1,3,... from
    the right; returns the digit as a one-character rope."""
    from .rope import s_chars
    ds = [s_to_int(c, 10) for c in s_chars(s)] if not isinstance(s, str) else [int(c) for c in s]
    tot = 0
    for i, d in enumerate(reversed(ds)):
        tot = t_add(tot, t_scale(d, 3 if i % 2 == 0 else 1)) if isinstance(d, T) or isinstance(tot, T) \
            else tot + d * (3 if i % 2 == 0 else 1)
    if isinstance(tot, int):
        return str((10 - tot % 10) % 10)
    return int_digits(t_mod(t_scale(tot, -1), 10), 10, 1)


def bits(v, width):
    """Unsigned big-endian binary of a number known to fit."""
    if width == 0:
        return ""
    if isinstance(v, int):
        return f"{v:0{width}b}"
    return int_digits(v, 2, width)


def pad16(b):
    """Zero bits on the right up to a multiple of 16."""
    return cat(b, "0" * (-s_len(b) % 16))


def hex_of(b):
    """Upper-case hexadecimal of a bit string whose length is a multiple of 4."""
    n = s_len(b) // 4
    if isinstance(b, str):
        return "".join("0123456789ABCDEF"[int(b[4 * i:4 * i + 4], 2)] for i in range(n))
    return int_digits(s_to_int(b, 2), 16, n, True)


def lower(h):
    return h.lower() if isinstance(h, str) else m_lower(h)


# partition tables: company prefix length -> (partition, bits of the company prefix)
PART = {12: (0, 40), 11: (1, 37), 10: (2, 34), 9: (3, 30), 8: (4, 27), 7: (5, 24), 6: (6, 20)}
# bits of the reference by company prefix length
NREF = {
    "sgtin": {12: 4, 11: 7, 10: 10, 9: 14, 8: 17, 7: 20, 6: 24},
    "sscc": {12: 18, 11: 21, 10: 24, 9: 28, 8: 31, 7: 34, 6: 38},
    "sgln": {12: 1, 11: 4, 10: 7, 9: 11, 8: 14, 7: 17, 6: 21},
    "grai": {12: 4, 11: 7, 10: 10, 9: 14, 8: 17, 7: 20, 6: 24},
    "giai96": {12: 42, 11: 45, 10: 48, 9: 52, 8: 55, 7: 58, 6: 62},
    "giai202": {12: 148, 11: 151, 10: 154, 9: 158, 8: 161, 7: 164, 6: 168},
    "cpi96": {12: 11, 11: 14, 10: 17, 9: 21, 8: 24, 7: 27, 6: 31},
}


class Coding:
    """A tag coding scheme: header, size, filter width and fields."""

    def __init__(self, name, header, size, fbits, fields, can=None):
        self.name, self.header, self.size, self.fbits = name, header, size, fbits
        self.fields, self._can = fields, can
        self.member = name.upper().replace("-", "_")

    def can(self, c):
        """Condition under which the coding can hold the identity."""
        return True if self._can is None else self._can(c)

    def bits(self, c, f):
        """The prescribed bits; f is the filter value."""
        b = self.header if self.fbits == 0 else cat(self.header, bits(f, self.fbits))
        return cat(b, *self.fields(c))


def rpad(s, have, width):
    return cat(s, "0" * (width - have))


def prefixed(table, ref):
    def f(c):
        L = c["cp"].n
        p, m = PART[L]
        n = NREF[table][L]
        return [bits(p, 3), bits(c["cp"].num(), m), bits(ref(c), n)]
    return f


def refnum(name):
    return lambda c: c[name].num() if c[name].n else 0


def char_field(name, width):
    return lambda c: [rpad(c[name].text(bits7), 7 * c[name].n, width)]


def num_field(name, width):
    return lambda c: [bits(c[name].num(), width)]


def seq(*fs):
    return lambda c: [x for f in fs for x in f(c)]


def zeros(n):
    return lambda c: ["0" * n]


def numeric_below(name, limit, plain=None):
    """Digits only, no leading zero, below the limit."""
    def f(c):
        k = c[name]
        from .terms import CTX
        if not CTX.truth(mk_and([k.all_in(DIGITS), k.no_leading_zero()])):
            return False
        lim = limit(c) if callable(limit) else limit
        return mk_lt(k.num(), lim)
    return f


def giai202_fields(c):
    L = c["cp"].n
    p, m = PART[L]
    return [bits(p, 3), bits(c["cp"].num(), m),
            rpad(c["asset"].text(bits7), 7 * c["asset"].n, NREF["giai202"][L])]


def giai96_fields(c):
    L = c["cp"].n
    p, m = PART[L]
    return [bits(p, 3), bits(c["cp"].num(), m), bits(c["asset"].num(), NREF["giai96"][L])]


def giai96_can(c):
    return numeric_below("asset", lambda c: 2 ** NREF["giai96"][c["cp"].n])(c)


def cpi96_can(c):
    from .terms import CTX
    k = c["ref"]
    if k.n > 15 - c["cp"].n:
        return False
    if not CTX.truth(mk_and([k.all_in(DIGITS), k.no_leading_zero()])):
        return False
    return mk_lt(c["serial"].num(), 2 ** 31)


def cpi96_fields(c):
    L = c["cp"].n
    p, m = PART[L]
    return [bits(p, 3), bits(c["cp"].num(), m), bits(c["ref"].num(), NREF["cpi96"][L]), bits(c["serial"].num(), 31)]


def cpivar_fields(c):
    p, m = PART[c["cp"].n]
    return [bits(p, 3), bits(c["cp"].num(), m), c["ref"].text(bits6), "000000", bits(c["serial"].num(), 40)]


def sgcn_fields(c):
    L = c["cp"].n
    p, m = PART[L]
    # numeric string: the digits preceded by a 1 so that leading zeros survive
    v = c["serial"].num()
    one = 10 ** c["serial"].n
    return [bits(p, 3), bits(c["cp"].num(), m), bits(refnum("ref")(c), NREF["sgln"][L]),
            bits(t_add(v, one) if isinstance(v, T) else v + one, 41)]


def usdod_fields(c):
    return ["00100000" if c["cage"].n == 5 else "", c["cage"].text(bits8), bits(c["serial"].num(), 36)]


def adi_fields(c):
    return ["100000" if c["cage"].n == 5 else "", c["cage"].text(bits6), c["part"].text(bits6), "000000",
            c["hash"].text(bits6), c["serial"].text(bits6), "000000"]


def itip_fields(serial):
    def f(c):
        return prefixed("sgtin", refnum("ref"))(c) + [bits(c["piece"].num(), 7), bits(c["total"].num(), 7)] + serial(c)
    return f


class Scheme:
    def __init__(self, name, cls, comps, shapes, head=None, key=None, elem=None, codings=(), pre=None, module=None,
                 keyserial=None, openkey=None):
        self.name, self.cls = name, cls
        self.module = module or name
        self.head = head or f"urn:epc:id:{name}:"
        self.comps = comps          # shape -> [(name, alphabet, length)]
        self.shapes = shapes        # () -> list of shapes
        self.key = key              # case -> key text
        self.elem = elem
        self.codings = {k.name: k for k in codings}
        self.pre = pre              # case -> further condition of the grammar
        self.openkey = openkey      # case -> key with the serial left open (idpat), or None

    def uri(self, c, f=None):
        parts = [c[n].text(f) for n, _, _ in self.comps(c.shape)]
        return cat(self.head, self.join(c, parts))

    def pattern(self, c):
        """The identity as a pattern that leaves nothing open."""
        parts = [c[n].text() for n, _, _ in self.comps(c.shape)]
        return cat(self.head.replace(":id:", ":idpat:"), self.join(c, parts))

    def join(self, c, parts):
        out = []
        for i, p in enumerate(parts):
            if i and not (self.name == "adi" and i == 3) and self.name != "bic":
                out.append(".")
            out.append(p)
        return cat(*out)

    def body(self, c, f=None):
        return self.join(c, [c[n].text(f) for n, _, _ in self.comps(c.shape)])

    def tag_uri(self, c, coding, f):
        """f: filter value (term or int), None for schemes without filter."""
        from .rope import FSs as _F
        fl = "" if coding.fbits == 0 else cat(filter_text(f, coding.fbits), ".")
        return cat(f"urn:epc:tag:{coding.name}:", fl, self.body(c))


def filter_text(f, fbits):
    if isinstance(f, int):
        return str(f)
    return FSs(f, [str(i) for i in range(2 ** fbits)])


def cpref(total, **kw):
    return [{"L": L, **kw} for L in range(6, 13)]


def _p(L, refn, *rest):
    return [("cp", "d", L), ("ref", "d", refn)] + list(rest)


def _shapes(Ls, **ranges):
    out = []
    keys = list(ranges)

    def rec(i, cur):
        if i == len(keys):
            out.append(dict(cur))
            return
        r = ranges[keys[i]]
        for v in (r(cur) if callable(r) else r):
            rec(i + 1, {**cur, keys[i]: v})
    for L in Ls:
        rec(0, {"L": L})
    return out


PLS = range(6, 13)


def _ind_first(c):
    """indicator/extension digit first, then prefix and the rest"""
    r = c["ref"].text()
    from .rope import s_slice
    return cat(c["ref"].text_at(0), c["cp"].text(), cat(*[c["ref"].text_at(i) for i in range(1, c["ref"].n)]))


def _plain(c):
    return cat(c["cp"].text(), c["ref"].text())


def ck(s):
    return cat(s, check_digit(s))


def ser(c, name="serial"):
    return c[name].text(unesc)


SCHEMES = {}


def add(*a, **k):
    s = Scheme(*a, **k)
    SCHEMES[s.name] = s
    return s


add("sgtin", "SGTIN", lambda s: _p(s["L"], 13 - s["L"], ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 21)),
    key=lambda c: ck(_ind_first(c)),
    elem=lambda c: cat("(01)", ck(_ind_first(c)), "(21)", ser(c)),
    openkey=lambda c: ck(_ind_first(c)),
    codings=[
        Coding("sgtin-96", "00110000", 96, 3, seq(prefixed("sgtin", refnum("ref")), num_field("serial", 38)),
               numeric_below("serial", 2 ** 38)),
        Coding("sgtin-198", "00110110", 198, 3, seq(prefixed("sgtin", refnum("ref")), char_field("serial", 140))),
    ])
add("sscc", "SSCC", lambda s: _p(s["L"], 17 - s["L"]), lambda: _shapes(PLS),
    key=lambda c: ck(_ind_first(c)), elem=lambda c: cat("(00)", ck(_ind_first(c))),
    codings=[Coding("sscc-96", "00110001", 96, 3, seq(prefixed("sscc", refnum("ref")), zeros(24)))])
add("sgln", "SGLN", lambda s: _p(s["L"], 12 - s["L"], ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 21)),
    key=lambda c: ck(_plain(c)), elem=lambda c: cat("(414)", ck(_plain(c)), "(254)", ser(c)),
    openkey=lambda c: ck(_plain(c)),
    codings=[
        Coding("sgln-96", "00110010", 96, 3, seq(prefixed("sgln", refnum("ref")), num_field("serial", 41)),
               numeric_below("serial", 2 ** 41)),
        Coding("sgln-195", "00111001", 195, 3, seq(prefixed("sgln", refnum("ref")), char_field("serial", 140))),
    ])
add("grai", "GRAI", lambda s: _p(s["L"], 12 - s["L"], ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 17)),
    key=lambda c: cat(ck(_plain(c)), ser(c)), elem=lambda c: cat("(8003)0", ck(_plain(c)), ser(c)),
    openkey=lambda c: cat(ck(_plain(c)), "*"),
    codings=[
        Coding("grai-96", "00110011", 96, 3, seq(prefixed("grai", refnum("ref")), num_field("serial", 38)),
               numeric_below("serial", 2 ** 38)),
        Coding("grai-170", "00110111", 170, 3, seq(prefixed("grai", refnum("ref")), char_field("serial", 112))),
    ])
add("giai", "GIAI", lambda s: [("cp", "d", s["L"]), ("asset", s.get("a", "gs3"), s["n"])],
    lambda: _shapes(PLS, n=lambda c: range(1, 31 - c["L"])),
    key=lambda c: cat(c["cp"].text(), ser(c, "asset")), elem=lambda c: cat("(8004)", c["cp"].text(), ser(c, "asset")),
    codings=[
        Coding("giai-96", "00110100", 96, 3, giai96_fields, giai96_can),
        Coding("giai-202", "00111000", 202, 3, giai202_fields),
    ])
for _n, _h, _ai in (("gsrn", "00101101", "8018"), ("gsrnp", "00101110", "8017")):
    add(_n, _n.upper(), lambda s: _p(s["L"], 17 - s["L"]), lambda: _shapes(PLS),
        key=lambda c: ck(_plain(c)), elem=lambda c, ai=_ai: cat(f"({ai})", ck(_plain(c))),
        codings=[Coding(f"{_n}-96", _h, 96, 3, seq(prefixed("sscc", refnum("ref")), zeros(24)))])
add("gdti", "GDTI", lambda s: _p(s["L"], 12 - s["L"], ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 18)),
    key=lambda c: cat(ck(_plain(c)), ser(c)), elem=lambda c: cat("(253)", ck(_plain(c)), ser(c)),
    openkey=lambda c: cat(ck(_plain(c)), "*"),
    codings=[
        Coding("gdti-96", "00101100", 96, 3, seq(prefixed("sgln", refnum("ref")), num_field("serial", 41)),
               numeric_below("serial", 2 ** 41)),
        Coding("gdti-174", "00111110", 174, 3, seq(prefixed("sgln", refnum("ref")), char_field("serial", 119))),
    ])
add("cpi", "CPI", lambda s: [("cp", "d", s["L"]), ("ref", "cpref", s["n"]), ("serial", "d", s["m"])],
    lambda: _shapes(PLS, n=lambda c: range(1, 31 - c["L"]), m=range(1, 13)),
    elem=lambda c: cat("(8010)", c["cp"].text(), ser(c, "ref"), "(8011)", c["serial"].text()),
    pre=lambda c: c["serial"].no_leading_zero(),
    codings=[
        Coding("cpi-96", "00111100", 96, 3, cpi96_fields, cpi96_can),
        Coding("cpi-var", "00111101", None, 3, cpivar_fields),
    ])
add("sgcn", "SGCN", lambda s: _p(s["L"], 12 - s["L"], ("serial", "d", s["n"])),
    lambda: _shapes(PLS, n=range(1, 13)),
    key=lambda c: cat(ck(_plain(c)), c["serial"].text()), elem=lambda c: cat("(255)", ck(_plain(c)), c["serial"].text()),
    codings=[Coding("sgcn-96", "00111111", 96, 3, sgcn_fields)])
add("ginc", "GINC", lambda s: [("cp", "d", s["L"]), ("ref", s.get("a", "gs3"), s["n"])],
    lambda: _shapes(PLS, n=lambda c: range(1, 31 - c["L"])),
    key=lambda c: cat(c["cp"].text(), ser(c, "ref")), elem=lambda c: cat("(401)", c["cp"].text(), ser(c, "ref")))
add("gsin", "GSIN", lambda s: _p(s["L"], 16 - s["L"]), lambda: _shapes(PLS),
    key=lambda c: ck(_plain(c)), elem=lambda c: cat("(402)", ck(_plain(c))))
add("itip", "ITIP",
    lambda s: _p(s["L"], 13 - s["L"], ("piece", "d", 2), ("total", "d", 2), ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 21)),
    elem=lambda c: cat("(8006)", ck(_ind_first(c)), c["piece"].text(), c["total"].text(), "(21)", ser(c)),
    codings=[
        Coding("itip-110", "01000000", 110, 3, itip_fields(num_field("serial", 38)), numeric_below("serial", 2 ** 38)),
        Coding("itip-212", "01000001", 212, 3, itip_fields(char_field("serial", 140))),
    ])
add("upui", "UPUI", lambda s: _p(s["L"], 13 - s["L"], ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 29)),
    elem=lambda c: cat("(01)", ck(_ind_first(c)), "(235)", ser(c)))
add("pgln", "PGLN", lambda s: _p(s["L"], 12 - s["L"]), lambda: _shapes(PLS),
    key=lambda c: ck(_plain(c)), elem=lambda c: cat("(417)", ck(_plain(c))))
add("lgtin", "LGTIN", lambda s: _p(s["L"], 13 - s["L"], ("serial", s.get("a", "gs3"), s["n"])),
    lambda: _shapes(PLS, n=range(1, 21)), head="urn:epc:class:lgtin:",
    key=lambda c: ck(_ind_first(c)),
    elem=lambda c: cat("(01)", ck(_ind_first(c)), "(10)", ser(c)))


def _nolead(c, *names):
    return mk_and([c[n].no_leading_zero() for n in names])


add("gid", "GID", lambda s: [("mgr", "d", s["a1"]), ("cls", "d", s["b1"]), ("serial", "d", s["c1"])],
    lambda: [{"a1": a, "b1": b, "c1": c} for a in range(1, 10) for b in range(1, 9) for c in range(1, 12)],
    pre=lambda c: mk_and([_nolead(c, "mgr", "cls", "serial"), mk_lt(c["mgr"].num(), 2 ** 28),
                          mk_lt(c["cls"].num(), 2 ** 24), mk_lt(c["serial"].num(), 2 ** 36)]),
    codings=[Coding("gid-96", "00110101", 96, 0,
                    lambda c: [bits(c["mgr"].num(), 28), bits(c["cls"].num(), 24), bits(c["serial"].num(), 36)])])
add("usdod", "USDOD", lambda s: [("cage", "cage", s["a1"]), ("serial", "d", s["c1"])],
    lambda: [{"a1": a, "c1": c} for a in (5, 6) for c in range(1, 12)],
    pre=lambda c: mk_and([_nolead(c, "serial"), mk_lt(c["serial"].num(), 2 ** 36)]),
    codings=[Coding("usdod-96", "00101111", 96, 4, usdod_fields)])
add("adi", "ADI", lambda s: [("cage", "cage", s["a1"]), ("part", "adi", s["p"]), ("hash", "hash", s["h"]),
                             ("serial", "adi", s["n"])],
    lambda: [{"a1": a, "p": p, "h": h, "n": n} for a in (5, 6) for p in range(0, 33) for h in (0, 1)
             for n in range(1, 31 - h)],
    codings=[Coding("adi-var", "00111011", None, 6, adi_fields)])
add("bic", "BIC", lambda s: [("own", "bic", 3), ("cat", "juz", 1), ("num", "d", 7)], lambda: [{}])
add("imovn", "IMOVN", lambda s: [("num", "d", 7)], lambda: [{}])

TAGGED = [s for s in SCHEMES.values() if s.codings]
KEYED = [s for s in SCHEMES.values() if s.key]
ELEMENT = [s for s in SCHEMES.values() if s.elem]
FBITS = {s.name: next(iter(s.codings.values())).fbits for s in TAGGED}
