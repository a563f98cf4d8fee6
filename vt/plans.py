"""Which work items decide which property, per tier."""
from __future__ import annotations

import itertools
import random

from . import props
from .spec import SCHEMES, TAGGED

#: checks of each property: (check, alphabet of serial-like components or None[, quick cap per family])
CHECKS = {
    "C01": [("c01", None), ("c01", "gs3x")],
    "C02": [("c02", None), ("c02", "gs3x")],
    "C03": [("c03", None)],
    "C04": [("c04", None), ("c04s", None), ("c14b", None, 300), ("c01", None, 6)],
    "C05": [("c05w", None), ("c05w", "gs3x"), ("c14r", None, 200), ("c14h", None, 600)],
    "C06": [("c06", None), ("c06", "gs3x")],
    "C07": [("c07", None), ("c07", "gs3x")],
    "C08": [("c08", None), ("c08", "gs3x")],
    "C09": [("c09", None), ("c09eq", None), ("c09eq", "gs3x"), ("c09x", None)],
    "C10": [("c10o", None), ("c10t", None), ("c10v", None), ("c10v", "gs3x")],
    "C11": [("c11", None), ("c11", "gs3x")],
    "C12": [("c12", None), ("c12t", None), ("c12p", None), ("c12", "gs3x", 20), ("c12t", "gs3x", 10)],
    "C13": [("c13", None, 8), ("c13d", None, 8), ("c13p", None, 5)],
    "C14": [("c14b", None, 300), ("c14h", None, 600), ("c14t", None), ("c14u", None), ("c04s", None),
            ("c14g", None), ("c14x", None, 150), ("c14v", None, 60)],
    "C15": [("c10o", None), ("c10t", None), ("c10v", None, 8), ("c15i", None, 9999), ("c15t", None), ("c15e", None),
            ("c15b", None), ("c15k", None), ("c15w", None), ("c15s", None, 60), ("c15n", None), ("c15h", None),
            ("c04", None, 6), ("c04s", None, 10), ("c14b", None, 300)],
}

#: shapes per scheme and coding that the quick tier takes from the large families
QUICK_CAP = {"cpi": 90, "adi": 90, "gid": 60}
CAP = {("c09eq", "quick"): 6, ("c09eq", "thorough"): 60}

_SHAPE = "for each listed shape (number of digits and characters of every component): all component values"
QUANT = {
    "C01": _SHAPE + ", all filter values, all three tag forms, class and generic parsers",
    "C02": _SHAPE + ", all filter values",
    "C03": _SHAPE + ", all filter values, all four tag forms, both outcomes",
    "C04": "for each coding and partition value: all contents of the remaining fields, all filter values and "
           "trailing bits of any number (variable-size codings: per position of the terminators, up to 35 trailing "
           "bits); all contents shorter than the coding; all other first bytes with any contents",
    "C05": _SHAPE + ", all filter values (writing); all tag contents (reading)",
    "C06": _SHAPE + ", all filter values, class and generic parser",
    "C07": _SHAPE + ", class and generic parser; GTIN and serial: GTINs of 14, 13, 12 and 8 digits",
    "C08": _SHAPE + ", all GTIN lengths, by accessor and by key lookup",
    "C09": _SHAPE + ", class and generic parser; equality also of needlessly escaped spellings up to 3 characters",
    "C10": "all Unicode strings: outside a generous grammar of the scheme every string (regular expressions are decided "
           "by inclusion of languages over all code points), inside it components of any length over all characters "
           "and escapes; key and element string requests per shape of the accepted identities",
    "C11": _SHAPE + ", all generic parsers, all foreign element string readers",
    "C12": _SHAPE + ", all filter values, all representations, standard and needless escapes",
    "C13": _SHAPE + ", all pairs of filter values, all codings, histories of any length by induction over the frame "
           "conditions, plus the executed histories (every accessor on the object, on an object that differs in one "
           "component, and again; every parser before and after foreign and malformed texts)",
    "C14": "for each of the 256 first bytes: all bit strings of any length behind it; for each known header and "
           "each number of hexadecimal digits up to 112: all digits in either case; for each coding scheme name: "
           "all texts of any length behind it; the generic binary reader on each header with any Unicode text of any "
           "length behind it and on texts without a header; valid contents of every coding with irregular spellings "
           "(blanks, signs, prefixes, underscores, foreign digits, line ends) around them, generic reader against "
           "the coding's own reader",
    "C15": "all Unicode strings of any length given to each reader, company prefix lengths 6 to 12 (key lookup: also "
           "none); readers that call other readers are checked against their contracts, which are discharged by "
           "items of the same run",
}
BASE64 = ("C01", "C03", "C04", "C05", "C11", "C12", "C13", "C14", "C15")    # properties that use base64 text
ASSUME = {
    "all": [
        "a work item fixes the lengths of the components (the shape); inside an item every character, digit and "
        "filter value is symbolic",
    ],
    "base64": [
        "base64.b64encode/b64decode treat text group by group (every group, every ending and every foreign character "
        "is enumerated on each run: library_contracts_enumerated)",
    ],
    "C10": [
        "text outside the template is followed with 128 ASCII characters and representatives of the others; the "
        "answers of regular expressions about it are exact for all code points",
    ],
    "C15": [
        "int(text, base) returns an integer or raises ValueError for every str; base64.b64decode(text) returns bytes "
        "or raises ValueError (stdlib contracts)",
        "text outside the templates is followed with 128 ASCII characters and representatives of the others; the "
        "answers of regular expressions about it are exact for all code points",
        "operations on arbitrary text that are not followed exactly may have any outcome (over-approximation)",
    ],
}


def cover(shapes, cap, rng):
    """At most cap shapes: the extremes, every value of every dimension, then random ones."""
    if len(shapes) <= cap:
        return list(shapes)
    dims = sorted({k for s in shapes for k in s})
    idx = {}
    ext = [s for s in shapes]
    chosen = []

    def take(s):
        k = tuple(sorted(s.items(), key=str))
        if k not in idx:
            idx[k] = True
            chosen.append(s)

    nums = [d for d in dims if all(isinstance(s.get(d), int) for s in shapes)]
    for signs in itertools.islice(itertools.product((1, -1), repeat=len(nums)), 16):
        take(max(ext, key=lambda s: [sg * s[d] for sg, d in zip(signs, nums)]))
    seen = {(d, s[d]) for s in chosen for d in dims if d in s}
    pool = list(shapes)
    rng.shuffle(pool)
    for s in pool:
        new = {(d, s[d]) for d in dims if d in s} - seen
        if new:
            take(s)
            seen |= new
    for s in pool:
        if len(chosen) >= cap:
            break
        take(s)
    return chosen


def items(pid, tier, seed, rest=None):
    """The work items of a property; shapes that the caps leave out are added to the list rest."""
    out = []
    for fn, alpha, *qcap in CHECKS[pid]:
        l = props.items(fn, alpha=alpha)
        if alpha:   # only shapes that have such a component
            l = [i for i in l if i[2] and i[2].get("a") == alpha]
        fam = {}
        for i in l:
            fam.setdefault((i[0], i[1], i[3].get("coding")), []).append(i)
        for (f, scheme, cod), its in sorted(fam.items(), key=str):
            rng = random.Random(f"{seed}|{f}|{scheme}|{cod}|{alpha}")
            cap = CAP.get((f, tier))
            if cap is None and tier == "quick":
                cap = QUICK_CAP.get(scheme, 40)
                if fn == "c04" and scheme in ("adi", "cpi"):
                    cap = 50
                if qcap:
                    cap = qcap[0]
                if alpha:
                    cap = 12
            if cap is not None and len(its) > cap:
                by = {tuple(sorted(i[2].items(), key=str)): i for i in its}
                full = its
                its = [by[tuple(sorted(s.items(), key=str))] for s in cover([i[2] for i in its], cap, rng)]
                if rest is not None:
                    chosen = {id(i) for i in its}
                    rest += [i for i in full if id(i) not in chosen]
            out += its
    random.Random(seed).shuffle(out)
    if rest:
        random.Random(seed).shuffle(rest)
    return out


def canaries(its, seed):
    """A few items with one obligation corrupted; each must be refuted."""
    rng = random.Random(f"canary{seed}")
    fam = {}
    for i in its:
        fam.setdefault(i[0], []).append(i)
    out = []
    for fn, l in sorted(fam.items()):
        for i in rng.sample(l, min(3, len(l))):
            out.append((i, rng.randrange(1 << 16)))
    return out


def selection(pid, tier):
    if tier == "thorough":
        return "all shapes" + "".join(f"; {f}: at most {c} shapes per scheme" for (f, t), c in CAP.items() if t == tier
                                      and any(f == x[0] for x in CHECKS[pid]))
    return ("per scheme and coding: extremes of all lengths, every single length, and seeded others, at most "
            f"{QUICK_CAP} (others 40) shapes; then further shapes, in seeded order, while the run is younger than "
            "further_shapes_until_s seconds; all shapes in the thorough tier")
