"""Scenario helpers: symbolic inputs for analysed entry points, calls, obligations."""
import os
import sys
import time
import json

sys.setrecursionlimit(20000)
from .interp import *
from .values import *
from . import terms as T
from .terms import *
from . import teval

REPO = os.environ.get("VERIF_REPO", "/repo")


# 0: sizes are symbolic; k: every size is k-1 above its lower bound (degenerate shapes)
SMALL = [0]
SIZE_NAMES = {1: " [smallest sizes]", 2: " [next to smallest sizes]"}


def nat(name, lo=1):
    if SMALL[0]:
        return const(lo + SMALL[0] - 1)
    return sym(name, const(lo), None, True)


def real(name, lo=None, hi=None):
    return sym(name, None if lo is None else P(lo), None if hi is None else P(hi))


def idx(name, n):
    if P(n) == ONE:
        return ZERO
    return P(fresh(name, ZERO, P(n) - 1))


def inarr(name, shape, dt="float64", lib="np", lo=None, hi=None, integer=False):
    def f(i):
        a = atom("in:" + name, *i)
        if integer:
            INTS.add(a)
        if lo is not None or hi is not None:
            BOUNDS.setdefault(a, (None if lo is None else P(lo), None if hi is None else P(hi)))
        return P(a)
    return Arr(shape, f, dt, lib)


class Undecided(Exception):
    pass


class Decided(BaseException):
    """a violation is established and the rest of the analysis would take long"""


class Obl:
    __slots__ = ("key", "verdict", "detail", "site")

    def __init__(self, key, verdict, detail, site):
        self.key, self.verdict, self.detail, self.site = key, verdict, detail, site


class Ctx:
    """one check run"""

    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.I = Interp(REPO)
        self.I.preload()
        self.obls = []
        self.notes = []
        self.t0 = time.time()
        self.scen = ""
        self.nscen = 0
        self.st = None
        self.rules = []
        self.used_gaps = set()
        self.bad = 0
        self.is_known = lambda key: False

    # ------------------------------------------------------------- set-up
    def scenario(self, name):
        self.scen = name + SIZE_NAMES.get(SMALL[0], "")
        self.nscen += 1
        self.st = self.I.new_state()
        self.gap0 = len(self.I.gaps)
        return self.st

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def alloc(self, content):
        return self.I.alloc(self.st, content)

    def arr(self, name, shape, dt="float64", **kw):
        return self.alloc(inarr(name, shape, dt, **kw))

    def lst(self, items):
        return self.alloc(ListC([("item", x) for x in items]))

    def dct(self, items):
        return self.alloc(DictC(tuple((self.I.lib.dkey(k), v) for k, v in (items.items() if isinstance(items, dict) else items))))

    def s(self, x):
        return StrV([x])

    # ------------------------------------------------------------- running
    def get(self, dotted):
        return self.I.get(dotted)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(f, list(args), dict(kw), None, self.st)

    def meth(self, o, name, *args, **kw):
        f = self.I.getattr(o, name, self.st, None)
        return self.I.call(f, list(args), dict(kw), None, self.st)

    def attr(self, o, name):
        return self.I.getattr(o, name, self.st, None)

    def deref(self, v):
        return self.I.deref(self.st, v) if isinstance(v, Ref) else v

    def as_arr(self, v, what=""):
        a = self.deref(v)
        if isinstance(a, ListC):
            a = self.I.lib.np.to_arr(a, self.st) if hasattr(self.I.lib.np, "to_arr") else None
        if isinstance(a, ChoiceV):
            x, y = self.as_arr(a.a, what), self.as_arr(a.b, what)
            if x.ndim != y.ndim:
                raise Undecided(f"{what}: value depends on {a.c}")
            pick = lambda p, q: p if p == q else ite(a.c, P(p), P(q))
            return Arr(tuple(pick(p, q) for p, q in zip(x.shape, y.shape)), lambda ix: pick(x.at(*ix), y.at(*ix)), x.dt, x.lib)
        if not isinstance(a, Arr):
            raise Undecided(f"{what}: not an array but {a!r}")
        return a

    def events(self, kind):
        return [e for e in self.st.events if e.kind == kind]

    def raised(self):
        """exception class names raised on this scenario"""
        return [str(e.data.get("exc")).split(".")[-1] for e in self.events("raise")]

    # ------------------------------------------------------------- obligations
    def record(self, key, verdict, detail="", site=None):
        if self.scen:
            key = f"{self.scen}: {key}"
        self.obls.append(Obl(key, verdict, detail, site))
        if verdict is False and not self.is_known(key):
            self.bad += 1
        if self.bad:
            if time.time() - self.t0 > 240:
                raise Decided()
            teval.LIMIT[0] = 3
        return verdict

    def fn_site(self, cls, meth=None):
        """(path, function, line) of a class method / function"""
        f = cls
        if isinstance(cls, str):
            try:
                f = self.get(cls)
            except AnalysisGap:
                return (cls, meth or "?", 0)
        if isinstance(f, ClassV):
            path = os.path.relpath(f.module.path, REPO)
            if meth:
                g = f.lookup(meth)
                if g is not None and hasattr(g, "node"):
                    return (os.path.relpath(g.module.path, REPO), f"{f.name}.{meth}", g.node.lineno)
            return (path, f.name + (f".{meth}" if meth else ""), f.node.lineno)
        if isinstance(f, FuncV):
            return (os.path.relpath(f.module.path, REPO), f.name, f.node.lineno)
        return (str(cls), meth or "?", 0)

    def short(self, p):
        s = str(p)
        return s if len(s) < 400 else s[:400] + "..."

    def eq(self, key, got, want, assume=(), site=None, trials=None):
        try:
            if isinstance(got, (bool, Cond)) or isinstance(want, (bool, Cond)):
                got = ite(got, ONE, ZERO) if isinstance(got, (bool, Cond)) else P(got)
                want = ite(want, ONE, ZERO) if isinstance(want, (bool, Cond)) else P(want)
            d = P(got) - P(want)
        except TypeError:
            return self.record(key, None, f"not a scalar: {got!r}", site)
        v, w = teval.decide_zero(d, assume, trials)
        det = ""
        if v is not True:
            det = f"computed {self.short(got)}; required {self.short(want)}" + (f"; differs at {w}" if w else "")
            if v is None:
                det = "undecided: " + det
        return self.record(key, v, det, site)

    def holds(self, key, cond, assume=(), site=None, why=""):
        v, w = teval.decide_cond(cond, assume)
        return self.record(key, v, "" if v is True else f"{why} condition {self.short(cond)}" + (f" fails at {w}" if w else ""), site)

    def shape(self, key, a, want, site=None):
        if a.ndim != len(want):
            return self.record(key, False, f"array of {a.ndim} dimensions {a.shape}, required {tuple(map(str, want))}", site)
        r = True
        for x, y in zip(a.shape, want):
            v, w = teval.decide_zero(x - P(y))
            if v is False:
                return self.record(key, False, f"shape {tuple(map(str, a.shape))}, required {tuple(str(P(z)) for z in want)}", site)
            if v is None:
                r = None
        return self.record(key, r, "" if r else f"shape undecided {a.shape}", site)

    def alive(self, key, site=None):
        """no unconditional exception on this scenario"""
        if self.st.dead:
            rs = self.events("raise")
            e = rs[-1] if rs else None
            return self.record(key, False, f"raises {e.data.get('exc') if e else '?'}: {e.data.get('msg') if e else ''}", e.site if e else site)
        return self.record(key, True, "", site)


def guarded(ctx, name, fn, site=None):
    """run one scenario body; analysis failures become 'undecided' obligations"""
    try:
        fn()
    except AnalysisGap as e:
        ctx.record(f"{name}", None, f"analysis gap: {e}", site)
    except Undecided as e:
        ctx.record(f"{name}", None, f"undecided: {e}", site)
    except (RecursionError, AssertionError, TypeError, AttributeError, KeyError, ValueError, IndexError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.record(f"{name}", None, f"analysis failure {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})", site)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
