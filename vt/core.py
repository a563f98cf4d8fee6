"""Cases, recorders and the proof/replay loop for one work item.

A check is one Python function check(lib, case, R).  Run on the instrumented
copy of the library with a symbolic case it generates proof obligations; run
on the untouched library with a concrete case it is the replay oracle.
"""
from __future__ import annotations

import importlib
import random
import time
import traceback

from . import explore, hooks, instrument, terms
from .rope import S, Star, StarDom, evs, is_str, s_eq, s_len
from .spec import ALPHA, SCHEMES, Comp
from .terms import (B, CTX, Infeasible, STATS, T, Unsupported, allowed_star, ev, exists_star, ivar, mk_eq, mk_le, mk_lt,
                    mk_not)
from .values import FDO

REPO = "/repo"


class Skip(Exception):
    """A concrete case outside the precondition of a check."""


# ------------------------------------------------------------------ library
class Lib:
    """Access to one copy of the library."""

    def __init__(self, package):
        self.package = package
        self.sym = package != "epcpy"
        self.common = importlib.import_module(package + ".utils.common")
        self.parsers = importlib.import_module(package + ".utils.parsers")
        self.base = importlib.import_module(package + ".epc_schemes.base_scheme")
        self.ConvertException = self.common.ConvertException
        self._f = {}

    def module(self, scheme):
        return importlib.import_module(f"{self.package}.epc_schemes.{SCHEMES[scheme].module}")

    def cls(self, scheme):
        return getattr(self.module(scheme), SCHEMES[scheme].cls)

    def coding(self, scheme, coding):
        return self.cls(scheme).BinaryCodingScheme[coding.upper().replace("-", "_")]

    def filters(self, scheme):
        if scheme not in self._f:
            e = getattr(self.module(scheme), SCHEMES[scheme].cls + "FilterValue", None)
            self._f[scheme] = None if e is None else {int(m.value): m for m in e}
        return self._f[scheme]

    def filter(self, scheme, v):
        tab = self.filters(scheme)
        if isinstance(v, int):
            return tab[v]
        return FDO(v, [tab[i] for i in range(v.hi + 1)])

    def tagargs(self, scheme, coding, fv):
        """Keyword arguments selecting coding and filter."""
        kw = {"binary_coding_scheme": self.coding(scheme, coding)}
        if SCHEMES[scheme].codings[coding].fbits:
            kw["filter_value"] = self.filter(scheme, fv)
        return kw


class Case:
    """An identity of a scheme, symbolic or concrete, plus further inputs."""

    def __init__(self, scheme, shape, keys=None, extra=None):
        self.scheme = scheme
        self.shape = shape
        self.sp = SCHEMES[scheme] if scheme else None
        self.comps = {}
        self.vars = []
        self.stars = []
        self.suspects = None    # cases to try when the obligations are not discharged
        if self.sp:
            for n, al, k in self.sp.comps(shape):
                if keys is None:
                    ks = [0 if len(ALPHA[al]) == 1 else self.var(f"{n}{i}", 0, len(ALPHA[al]) - 1) for i in range(k)]
                else:
                    ks = keys[n]
                self.comps[n] = Comp(n, al, ks)
        self.extra = dict(extra or {})

    def var(self, name, lo, hi):
        v = ivar(name, lo, hi)
        self.vars.append(v)
        return v

    def star(self, name, alphabet, lo=0, hi=None):
        """Arbitrarily long text over an alphabet of tokens."""
        dom = StarDom(name, len(alphabet), self.var(name + "#", lo, hi))
        self.stars.append(dom)
        return S((Star(dom, tuple(alphabet)),))

    def __getitem__(self, n):
        return self.comps[n]

    def concretize(self, m):
        def c(x):
            if isinstance(x, T):
                return ev(x, m)
            if isinstance(x, S):
                return evs(x, m)
            if isinstance(x, Comp):
                return Comp(x.name, x.alpha, [c(k) for k in x.keys])
            if isinstance(x, (list, tuple)):
                return type(x)(c(y) for y in x)
            if isinstance(x, dict):
                return {k: c(y) for k, y in x.items()}
            return x
        return Case(self.scheme, self.shape, {n: [c(k) for k in k2.keys] for n, k2 in self.comps.items()},
                    {n: c(v) for n, v in self.extra.items()})

    def dump(self):
        d = {"scheme": self.scheme, "shape": self.shape,
             "keys": {n: k.keys for n, k in self.comps.items()}, "extra": self.extra}
        if self.sp:
            d["uri"] = self.sp.uri(self)
        return d

    @staticmethod
    def load(d):
        return Case(d["scheme"], d["shape"], d["keys"], d["extra"])

    def uri(self, f=None):
        return self.sp.uri(self, f)


def random_key(alpha, rng):
    toks = ALPHA[alpha]
    if alpha == "d":
        return rng.choice([0, 9, rng.randrange(10), rng.randrange(10)])
    if alpha in ("gs3", "gs3x"):
        r = rng.random()
        if r < 0.35:
            return rng.randrange(75, 82)
        if r < 0.5:
            return toks.index(rng.choice("0123456789"))
        if r < 0.62:
            return toks.index(rng.choice("().*:"))
    return rng.randrange(len(toks))


def find_model(case, extra=None, rng=None):
    """A model of the current path (and extra) for the variables of the case, or None."""
    save = CTX.st
    CTX.st = save.copy()
    try:
        if extra is not None:
            CTX.assume(extra)
        for d in case.stars:
            ex = exists_star(d)
            if ex:
                CTX.assume(mk_le(len(ex), d.n))
            if rng is not None:
                k = rng.choice([0, 1, 2, 5, 12, 30])
                more = mk_le(k, d.n)
                if more is not True and more is not False and CTX.feasible(more):
                    CTX.assume(more)
                less = mk_le(d.n, k + 6)
                if isinstance(less, B) and CTX.feasible(less):
                    CTX.assume(less)
        m = CTX.model(None, rng=rng, variables=case.vars)
        if m is None:
            return None
        for d in case.stars:
            fill_star(d, m, rng)
        return m
    except Infeasible:
        return None
    finally:
        CTX.st = save


def fill_star(d, m, rng):
    """Choose the elements of a family that the path leaves open."""
    n = ev(d.n, m)
    if n > 20000:
        raise Unsupported("model with a very long text")
    al = sorted(allowed_star(d))
    fixed = {i: m[e.terms[0][0]] for i, e in d.elems.items() if isinstance(i, int) and i < n and e.terms[0][0] in m}
    out = [fixed.get(i) for i in range(n)]
    free = [i for i in range(n) if i not in fixed]
    if rng is not None:
        rng.shuffle(free)
    for want in exists_star(d):
        if not any(x is not None and x in want for x in out):
            if not free:
                raise Unsupported("no model for an existential path condition")
            w = sorted(want)
            out[free.pop()] = rng.choice(w) if rng else w[0]
    for i in free:
        out[i] = rng.choice(al) if rng else al[0]
    m[d] = out


def random_case(case, rng):
    """A concrete instance of a symbolic case."""
    m = {}
    for d in case.stars:
        a = d.n.terms[0][0]
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30])
        m[a] = max(a.lo or 0, n if a.hi is None else min(n, a.hi))
        k = rng.randrange(1, 5)
        few = [rng.randrange(d.size) for _ in range(k)]
        m[d] = [rng.choice(few) if rng.random() < 0.5 else rng.randrange(d.size) for _ in range(m[a])]
    for v in case.vars:
        a = v.terms[0][0]
        if a in m:
            continue
        m[a] = rng.randint(a.lo, a.hi) if a.lo is not None and a.hi is not None else rng.randint(0, 50)
    for comp in case.comps.values():
        digits = comp.alpha != "d" and rng.random() < 0.4 and all(str(d) in comp.toks for d in range(10))
        run = rng.random()
        for k in comp.keys:
            if isinstance(k, T):
                a = k.terms[0][0]
                if digits:
                    m[a] = comp.toks.index(rng.choice("0123456789"))
                elif comp.alpha == "d" and run < 0.15:
                    m[a] = 0
                elif comp.alpha == "d" and run < 0.3:
                    m[a] = 9
                else:
                    m[a] = random_key(comp.alpha, rng)
    return case.concretize(m)


# ---------------------------------------------------------------- recorders
class Out:
    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def ok(self):
        return self.kind == "ok"

    @property
    def refused(self):
        return self.kind == "refused"

    def describe(self):
        if self.kind == "ok":
            return "returned"
        return f"raised {type(self.value).__name__}: {str(self.value)[:160]}"


class Rec:
    corrupt = None   # vacuity guard: which obligation to negate

    def __init__(self, lib):
        self.lib = lib
        self.events = []
        self.count = 0

    def guard(self, cond):
        """The condition of the next obligation (negated when it is the corrupted one)."""
        self.count += 1
        if self.corrupt is not None and self.count - 1 == self.corrupt:
            return mk_not(cond) if isinstance(cond, B) else not cond
        return cond

    def call(self, f, *a, **k):
        """Outcome of a library call: ok / refused (conversion error) / error."""
        try:
            r = Out("ok", f(*a, **k))
        except self.lib.ConvertException as e:
            r = Out("refused", e)
        except (Unsupported, Skip):
            raise
        except RecursionError:
            raise
        except Exception as e:
            r = Out("error", e)
        self.events.append(r.kind)
        return r

    def ok(self, label, f, *a, **k):
        """The call must succeed; returns its value (None otherwise)."""
        o = self.call(f, *a, **k)
        self.require(o.ok, label, o)
        return o.value if o.ok else None

    def refused(self, label, f, *a, **k):
        o = self.call(f, *a, **k)
        self.require(o.refused, label, o)

    def eq(self, a, b, label):
        if a is None or not is_str(a):
            self.require(False, label, a)
            return
        self.require(s_eq(a, b), label, (a, b))

    def eq_len(self, s, n, label):
        l = s_len(s)
        self.require(l == n if isinstance(l, int) else mk_eq(l, n), label, (l, n))

    def is_true(self, v, label):
        self.require(v if isinstance(v, (bool, B)) else bool(v), label, v)

    def is_false(self, v, label):
        self.require(mk_not(v) if isinstance(v, B) else not v, label, v)

    def same_identity(self, x, cls, uri, label):
        """x is an object of the class with the given URI."""
        if x is None:
            return
        self.require(type(x) is cls, label + ": class", x)
        if type(x) is cls:
            self.eq(x.epc_uri, uri, label + ": URI")


    def frame(self, same, label):
        """A frame condition: no failure of the property when it does not hold,
        but then only the executed histories are covered."""
        self.events.append((label, bool(same)))


class SymRec(Rec):
    def __init__(self, lib, case, acc):
        super().__init__(lib)
        self.case, self.acc = case, acc
        self.n = 0

    def frame(self, same, label):
        super().frame(same, label)
        acc = self.acc
        acc.labels[label] = acc.labels.get(label, 0) + 1
        if same:
            acc.obligations += 1
            acc.discharged += 1
            acc.by["frame"] = acc.by.get("frame", 0) + 1
        else:
            acc.unframed = label

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise Infeasible()
            return
        if not CTX.feasible(b):
            raise Infeasible()
        CTX.assume(b)

    def case_split(self, b):
        """Decide a specification condition (forks the path)."""
        r = CTX.truth(b)
        self.events.append(r)
        return r

    def require(self, cond, label, detail=None):
        self.n += 1
        cond = self.guard(cond)
        acc = self.acc
        acc.obligations += 1
        acc.labels[label] = acc.labels.get(label, 0) + 1
        self.events.append(label)
        if cond is True:
            acc.by["normalisation"] += 1
            acc.discharged += 1
            return
        if isinstance(cond, B):
            d = CTX.decide(cond)
            if d is not True:
                d2 = CTX.decide(mk_not(cond))
                d = True if d2 is False else d
            if d is True:
                acc.by["finite-domain"] += 1
                acc.discharged += 1
                return
            z0 = STATS.z3_calls
            if d is None and not CTX.feasible(mk_not(cond)):
                acc.by["z3" if STATS.z3_calls > z0 else "finite-domain"] += 1
                acc.discharged += 1
                return
            m = find_model(self.case, mk_not(cond))
            if m is None:
                acc.by["z3"] += 1
                acc.discharged += 1
                return
        else:
            m = find_model(self.case)
            if m is None:
                raise Infeasible()
        acc.candidates.append((label, self.case.concretize(m)))


class ConRec(Rec):
    def __init__(self, lib):
        super().__init__(lib)
        self.failures = []

    def assume(self, b):
        if not b:
            raise Skip()

    def case_split(self, b):
        self.events.append(bool(b))
        return bool(b)

    def require(self, cond, label, detail=None):
        self.events.append(label)
        cond = self.guard(cond)
        if cond is not True:
            if isinstance(detail, Out):
                detail = detail.describe()
            elif isinstance(detail, tuple):
                detail = f"got {detail[0]!r}, expected {detail[1]!r}"
            else:
                detail = repr(detail)
            self.failures.append((label, detail[:600]))


class Acc:
    """Result of one work item."""

    def __init__(self):
        self.obligations = self.discharged = self.paths = self.witnesses = self.concrete = 0
        self.by = {"normalisation": 0, "finite-domain": 0, "z3": 0}
        self.labels = {}
        self.candidates = []
        self.violations = []     # (label, detail, case dump)
        self.unsupported = None  # reason
        self.unframed = None     # frame condition that does not hold
        self.mismatch = []
        self.sample = None
        self.z3_time = 0.0
        self.z3_calls = 0
        self.seconds = 0.0
        self.bounded = 0         # concrete cases standing in for a failed proof

    def pack(self):
        d = dict(self.__dict__)
        d["candidates"] = len(self.candidates)
        return d


def run_concrete(check, lib, case, corrupt=None):
    """Run the check on the untouched library; returns recorder or None."""
    R = ConRec(lib)
    R.corrupt = corrupt
    terms.CTX.st = terms.State()
    if case.sp is not None and case.sp.pre is not None and case.sp.pre(case) is not True:
        return None
    try:
        check(lib, case, R)
    except Skip:
        return None
    return R


def report(acc, R, case):
    for label, detail in R.failures[:3]:
        acc.violations.append((label, detail, case.dump()))


def prove(check, slib, clib, case, rng, deadline=None, extra_concrete=2, stand_in=200, corrupt=None):
    """Discharge the obligations of check on a symbolic case.

    Every path is also executed on the untouched library with a model of its
    path condition: the observable events must agree and nothing may fail.
    """
    acc = Acc()
    t0 = time.time()
    z0, c0 = STATS.z3_time, STATS.z3_calls
    box = {}
    if slib is None:
        acc.unsupported = "not instrumented"
    if corrupt is not None:
        corrupt = pick_obligation(check, clib, case, rng, corrupt)

    def body():
        R = SymRec(slib, case, acc)
        R.corrupt = corrupt
        box["R"] = R
        if case.sp is not None and case.sp.pre is not None:
            R.assume(case.sp.pre(case))
        check(slib, case, R)

    explore.LIMITS["deadline"] = deadline
    it = explore.explore(body)
    try:
        while slib is not None:
            n0 = len(acc.candidates)
            try:
                st, kind, v = next(it)
            except StopIteration:
                break
            R = box["R"]
            if kind == "exc":
                if isinstance(v, (Unsupported, RecursionError)):
                    raise Unsupported(str(v))
                raise Unsupported(f"check failed to run: {type(v).__name__}: {v} {tb(v)}")
            acc.paths += 1
            # refuted obligations of this path: replay them
            for label, cc in acc.candidates[n0:]:
                RC = run_concrete(check, clib, cc, corrupt)
                if RC is not None and RC.failures:
                    report(acc, RC, cc)
                else:
                    acc.mismatch.append((f"refuted obligation did not replay: {label}", cc.dump()))
            if acc.violations:
                break
            # witness of the path
            terms.CTX.st = st
            m = find_model(case, None, rng)
            if m is None:
                continue
            cc = case.concretize(m)
            RC = run_concrete(check, clib, cc, corrupt)
            acc.witnesses += 1
            if RC is None:
                acc.mismatch.append(("witness outside the precondition", cc.dump()))
            elif RC.failures:
                report(acc, RC, cc)
                break
            elif len(acc.candidates) == n0 and not st.havoc and RC.events != R.events:
                acc.mismatch.append((f"events differ: {diff(R.events, RC.events)}", cc.dump()))
            if acc.sample is None and RC is not None:
                acc.sample = cc.dump().get("uri") or repr(cc.extra)[:200]
    except (Unsupported, RecursionError) as e:
        acc.unsupported = str(e)[:300] or type(e).__name__
    except Infeasible:
        pass
    except z3_errors() as e:
        acc.unsupported = "solver: " + str(e)[:200]
    finally:
        it.close()
    if acc.unframed and not acc.unsupported:
        acc.unsupported = "frame condition not shown: " + acc.unframed
    acc.z3_time = STATS.z3_time - z0
    acc.z3_calls = STATS.z3_calls - c0
    n = extra_concrete
    if (acc.unsupported or acc.mismatch) and not acc.violations:
        n = stand_in
        for cc in case.suspects(rng) if case.suspects else ():
            RC = run_concrete(check, clib, cc, corrupt)
            if RC is not None:
                acc.concrete += 1
                if RC.failures:
                    report(acc, RC, cc)
                    break
    tries = 0
    while acc.concrete < n and tries < 4 * n and not acc.violations:
        tries += 1
        cc = random_case(case, rng)
        RC = run_concrete(check, clib, cc, corrupt)
        if RC is None:
            continue
        acc.concrete += 1
        if RC.failures:
            report(acc, RC, cc)
    if acc.unsupported or acc.mismatch:
        acc.bounded = acc.concrete
    acc.seconds = time.time() - t0
    return acc


def pick_obligation(check, lib, case, rng, k):
    """An obligation that a random concrete case reaches (k selects which)."""
    for _ in range(40):
        cc = random_case(case, rng)
        R = run_concrete(check, lib, cc)
        if R is not None and R.count:
            return k % R.count
    return 0


def z3_errors():
    import z3
    return z3.Z3Exception


def tb(e):
    l = traceback.extract_tb(e.__traceback__)[-3:]
    return " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(l))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"#{i} {x!r} vs {y!r}"
    return f"lengths {len(a)} vs {len(b)}"


_libs = {}
LOAD_ERROR = [None]


def libs(repo=REPO):
    if not _libs:
        import sys
        sys.dont_write_bytecode = True
        import warnings
        warnings.simplefilter("ignore")
        if repo not in sys.path:
            sys.path.insert(0, repo)
        _libs["c"] = Lib("epcpy")
        try:
            instrument.load(repo)
            _libs["s"] = Lib("epcpy_sym")
        except Exception as e:   # the library itself imports: fall back to concrete runs
            LOAD_ERROR[0] = f"{type(e).__name__}: {e}"[:300]
            _libs["s"] = None
    return _libs["s"], _libs["c"]
