"""Random interpretation of normal-form terms (Gulwani/Necula style identity testing).

The value-graph analysis produces *terms*; two terms are compared by their normal form.
Where normal forms differ (reordered sums, fused reshapes, alternative index arithmetic)
this module compares them by interpreting the terms - not the program - at pseudo-random
points of the term algebra: integers exactly, reals in floating point, uninterpreted
operators through a seeded hash (so they behave as independent unknown functions).
"""
import math
import time
import hashlib
import itertools
from fractions import Fraction
from . import terms as T
from .terms import Atom, Poly, Cond, P, bounds_of, is_zero

TRIALS = 10
WORK = 60000
SHRUNK = 30  # a literal size in the thousands is judged by the same code with this size
SEED = 1
LIMIT = [40]  # seconds spent on one question before it is left undecided
SPENT = [0.0]
SPECIAL = [0]


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


def _norm(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def _canon(v):
    if isinstance(v, tuple):
        return tuple(_canon(x) for x in v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, Fraction):
        v = float(v)
    if isinstance(v, float):
        if abs(v) < 1e-9:
            return 0
        if abs(v - round(v)) < 1e-9:
            return int(round(v))
        return "%.6e" % v
    return repr(v)


def _isint(v):
    return isinstance(v, int) or (isinstance(v, Fraction) and v.denominator == 1) or (isinstance(v, float) and v == int(v))


_FN = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "tanh": math.tanh, "sinh": math.sinh,
    "cosh": math.cosh, "log": math.log, "arctan2": math.atan2, "arctan": math.atan, "arcsin": math.asin,
    "arccos": math.acos, "ceil": math.ceil, "floor": math.floor, "deg2rad": math.radians, "rad2deg": math.degrees,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)), "sign": lambda x: (x > 0) - (x < 0), "erf": math.erf,
    "log10": math.log10, "log2": math.log2, "hypot": math.hypot, "max": max, "min": min,
    "pow": lambda a, b: a ** b, "round": round,
    "mod": lambda a, b: math.fmod(math.fmod(a, b) + b, b) if b else 0,
}


class Trial:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.cmemo = {}
        self.depth = 0
        self.uncertain = False
        self.fixed = {}
        self.mag = 1
        self.exact = False  # draw rational numbers: polynomial identities are then decided without rounding
        self.imag = 0
        self.rel = False
        self.mode = None
        self.guard = None
        self.shrink = 0
        self.work = 0

    def h(self, *key):
        s = hashlib.blake2b(repr((SEED, self.seed) + key).encode(), digest_size=8).digest()
        return int.from_bytes(s, "big")

    # -------------------------------------------------------------- polys
    def ipoly(self, p, env=None):
        """the value of a size: literal sizes as small as the trial makes them"""
        if self.shrink and isinstance(p, Poly) and len(p.t) == 1:
            c = p.t.get((), 0)
            if abs(abs(c) - self.shrink) <= 4 and T.is_int(p):
                return int(c) + (SHRUNK - self.shrink) * (1 if c > 0 else -1)
        return self.val(p, env or {})

    def poly(self, p, env=None):
        env = env or {}
        tot = 0
        if self.shrink and len(p.t) > 1:
            c = p.t.get((), 0)
            if c and abs(abs(c) - self.shrink) <= 4 and T.is_int(p):
                tot = (SHRUNK - self.shrink) * (1 if c > 0 else -1)
        for m, c in p.t.items():
            v = c
            for a, e in m:
                x = self.atom(a, env)
                if isinstance(x, tuple):
                    # a function value in a difference of two functions: equal tables, equal numbers
                    x = self._draw(a, ("table", _canon(x)), False, None, None)
                if e == 1:
                    v = v * x
                elif e > 0:
                    v = v * x ** e
                else:
                    if x == 0 or (isinstance(x, float) and abs(x) < 1e-12 * min(1, self.mag) ** 4):
                        raise Infeasible("division by zero")
                    if isinstance(x, int):
                        x = Fraction(x)
                    v = v * x ** e
                v = _norm(v)
                if isinstance(v, complex):
                    raise Infeasible("complex")
            tot = tot + v
        return _norm(tot)

    def scale(self, p, env=None):
        env = env or {}
        mx = 0.0
        tot = 0
        for m, c in p.t.items():
            v = self.poly(Poly({m: c}), env)
            tot += v
            mx = max(mx, abs(float(v)))
        return tot, mx

    def atom(self, a, env):
        if a.kind == "bv":
            if a not in env:
                raise Undecided("free bound variable")
            return env[a]
        bvs = tuple((f, env[f]) for f in a.free if f.kind == "bv" and f in env) if env else ()
        key = (a, frozenset(bvs))
        r = self.memo.get(key)
        if r is not None:
            return r
        self.depth += 1
        if self.depth > 400:
            raise Undecided("depth")
        r = _norm(self._atom(a, env))
        self.depth -= 1
        if isinstance(r, float) and (math.isnan(r) or math.isinf(r)):
            raise Infeasible("overflow")
        self.memo[key] = r
        return r

    def _draw(self, a, key, isint, lo, hi):
        """deterministic pseudo-random value in bounds"""
        n = self.h(*key)
        wide = False
        if isint:
            if lo is not None:
                lo = math.ceil(lo)
            if hi is not None:
                hi = math.floor(hi)
            if lo is None and hi is None:
                if self.imag and (n >> 40) & 1:
                    return (1 if (n >> 41) & 1 else -1) * (self.imag - 2 + n % (12 if self.shrink else 6))
                lo, hi = -2, 5
            elif lo is None:
                lo = hi - 5
            elif hi is None:
                hi = lo + 25
                wide = True
            if hi < lo:
                raise Infeasible("empty range")
            w = hi - lo + 1
            if self.imag and (wide or w > self.imag) and (n >> 40) & 1:
                v = max(lo, self.imag - 2) + n % (12 if self.shrink else 6)
                return v if wide else min(v, hi)
            if w > 6:
                pick = (n >> 20) % 20
                if pick < 13:
                    w = 5
                elif pick < 18:
                    w = min(w, 40)
            return lo + n % w
        if self.mode == "coarse":
            # few different values: coincidences happen
            z = (-1, 0, 1, 2)[n % 4]
            if (lo is None or z >= lo) and (hi is None or z <= hi):
                return z
        u = (n % 1000003) / 1000003.0
        if self.exact:
            u = Fraction(n % 10007, 10007)
        if lo is None and hi is None:
            return (-2 + 4 * u) * self.mag
        if lo is None:
            return hi - 3 * u * self.mag
        if hi is None:
            return lo + (3 * u + Fraction(1, 100) if self.exact else 3 * u + 0.01) * self.mag
        if hi < lo:
            raise Infeasible("empty range")
        if self.mag < 1 and lo < 0 < hi:
            return (lo + (hi - lo) * u) * self.mag
        return lo + (hi - lo) * u

    def _atom(self, a, env):
        k = a.kind
        if a in self.fixed:
            return self.fixed[a]
        if k == "sym":
            lo, hi = bounds_of(a)
            lo = None if lo is None else self.poly(lo, env)
            hi = None if hi is None else self.poly(hi, env)
            nonneg = a in T.NONNEG or a in T.POSITIVE
            if nonneg and lo is None:
                lo = 0 if a not in T.POSITIVE else (1 if a in T.INTS else 0.05)
            return self._draw(a, ("sym", a.args), a in T.INTS, lo, hi)
        if k == "ite":
            return self.poly(a.args[1 if self.cond(a.args[0], env) else 2], env)
        if k == "sqrt":
            x = self.poly(a.args[0], env)
            if x < 0:
                if x > -1e-9:
                    return 0
                raise Infeasible("sqrt of a negative number")
            if isinstance(x, int) and math.isqrt(x) ** 2 == x:
                return math.isqrt(x)
            return math.sqrt(x)
        if k == "abs":
            return abs(self.poly(a.args[0], env))
        if k == "par":
            return self.poly(a.args[0], env)
        if k == "pow":
            b, e = self.poly(a.args[0], env), self.poly(a.args[1], env)
            if isinstance(b, int) and _isint(e) and e < 0:
                b = Fraction(b)
            if b == 0 and e < 0:
                raise Infeasible("0**negative")
            r = b ** (int(e) if _isint(e) else float(e))
            if isinstance(r, complex):
                raise Infeasible("complex power")
            return r
        if k in ("fdiv", "mod"):
            x, y = self.poly(a.args[0], env), self.ipoly(a.args[1], env)
            if y == 0:
                raise Infeasible("division by zero")
            return x // y if k == "fdiv" else x % y
        if k == "trunc":
            x = self.poly(a.args[0], env)
            if isinstance(x, float) and abs(x - round(x)) < 1e-9:
                return int(round(x))
            return int(x)
        if k == "J":
            return self._jacobi(*[self.poly(z, env) for z in a.args])
        if k == "sum":
            n = self._count(a.args[1], env)
            bv = T.atom("bv", a.args[0])
            tot = 0
            for i in range(n):
                e2 = dict(env)
                e2[bv] = i
                tot = tot + self.poly(a.args[2], e2)
            return tot
        if k == "red":
            l, op, cnt, body = a.args
            n = self._count(cnt, env)
            bv = T.atom("bv", l)
            vs = []
            for i in range(n):
                e2 = dict(env)
                e2[bv] = i
                vs.append(self.poly(body, e2))
            if not vs:
                raise Infeasible("reduction over an empty range")
            if op == "max":
                return max(vs)
            if op == "min":
                return min(vs)
            if op in ("prod",):
                r = 1
                for v in vs:
                    r = r * v
                return r
            return self._hash(a, (op,) + tuple(vs))
        if k == "memorder":
            n, i = self.poly(a.args[2], env), self.poly(a.args[1], env)
            if not (_isint(n) and _isint(i)) or not 0 <= i < n or n > 400:
                raise Infeasible("memory order")
            return sorted(range(int(n)), key=lambda q: self.h("memorder", a.args[0], q))[int(i)]
        if k == "argsort":
            l, cnt, body, kk = a.args
            n = self._count(cnt, env)
            bv = T.atom("bv", l)
            vs = []
            for i in range(n):
                e2 = dict(env)
                e2[bv] = i
                vs.append((self.poly(body, e2), i))
            j = self.poly(kk, env)
            if not (0 <= j < n):
                raise Infeasible("argsort position")
            return sorted(vs)[int(j)][1]
        if k == "fn":
            nm = a.args[0]
            if self.shrink and nm in ("min", "max") and all(isinstance(z, Poly) and T.is_int(z) for z in a.args[1:]):
                args = [self.ipoly(z, env) for z in a.args[1:]]
            else:
                args = [self.val(z, env) for z in a.args[1:]]
            if nm == "pi":
                return math.pi
            f = _FN.get(nm)
            if nm == "round" and len(args) == 2:
                # rounding to decimals is no identity at any number of decimals
                return self._hash(a, ("rounded",) + tuple(args))
            if f and all(isinstance(x, (int, float, Fraction)) for x in args):
                try:
                    if nm not in ("max", "min", "floor", "ceil", "sign", "round"):
                        args = [float(x) for x in args]
                    return f(*args)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Infeasible("function domain")
            return self._hash(a, (nm,) + tuple(args))
        if k == "lam":
            return self._lam(a, env)
        if k == "lamc":
            return self._lamc(a, env)
        if k == "selkey":
            return self._selset(a, env)
        if k in ("sel", "selcount"):
            key = a.args[0].single_atom() if isinstance(a.args[0], Poly) else a.args[0]
            if key is not None and key.kind == "selkey":
                ss = self.atom(key, env)
                if k == "selcount":
                    return len(ss)
                d, j = self.poly(a.args[1], env), self.poly(a.args[2], env)
                if not (_isint(j) and 0 <= j < len(ss)):
                    raise Infeasible("selector out of range")
                return ss[int(j)][int(d)]
        if k in ("unk", "phi", "phiarr"):
            self.uncertain = True
        if k in ("gaussx", "gaussw"):
            r = self._gauss(k, a.args, env)
            if r is not None:
                return r
        vals = tuple(self.val(z, env) for z in a.args)
        if self.mode and k.startswith("in:X") and len(vals) in (2, 3) and all(_isint(z) for z in vals) and 0 <= vals[-2] < 4 and 0 <= vals[-1] < 2:
            return self._vertex(vals[:-2], int(vals[-2]), int(vals[-1]), k)
        return self._hash(a, vals)

    def _gauss(self, k, args, env):
        """nodes and weights of the Gauss rules themselves"""
        if self.exact:
            return None
        q, i = self.poly(args[1], env), self.poly(args[2], env)
        if not (_isint(q) and _isint(i)) or not 1 <= q <= 60 or not 0 <= i < q:
            return None
        if args[0][0] == "legendre":
            a = b = 0
        else:
            a, b = (self.poly(P(z), env) for z in args[0][1:3])
            if k == "gaussw" and (a or b):
                return None
        xs = gauss_nodes(int(q), a, b)
        if xs is None:
            return None
        x = xs[int(i)]
        if k == "gaussx":
            return x
        d = _dlegendre(int(q), x)
        return 2 / ((1 - x * x) * d * d)

    def _u(self, *key):
        return (self.h(*key) % 1000003) / 1000003.0

    def _vertex(self, cell, v, d, name):
        """vertices of cells with special relations among them: all valid quadrilaterals"""
        m = self.mode
        if m == "shift":
            # every cell the same shape, elsewhere
            return self._quad("base")[v][d] + 5 * self._u("sh", name, cell, d)
        if m == "turn":
            # the same shape turned by quarter turns, elsewhere: same area, same edge lengths
            x, y = self._quad("base")[v]
            for _ in range(self.h("q", name, cell) % 4):
                x, y = -y, x
            return (x, y)[d] + 5 * self._u("sh", name, cell, d)
        if m == "resize":
            # the same shape at another size, elsewhere
            return self._quad("base")[v][d] * (0.5 + self._u("z", name, cell)) + 5 * self._u("sh", name, cell, d)
        if m == "rect":
            x0, y0 = 5 * self._u("x0", name, cell), 5 * self._u("y0", name, cell)
            w, h = 0.3 + self._u("w", name, cell), 0.3 + self._u("h", name, cell)
            return ((x0, x0 + w, x0 + w, x0)[v], (y0, y0, y0 + h, y0 + h)[v])[d]
        if m == "square":
            x0, y0 = 5 * self._u("x0", name, cell), 5 * self._u("y0", name, cell)
            w = 0.3 + self._u("w", name)
            return ((x0, x0 + w, x0 + w, x0)[v], (y0, y0, y0 + w, y0 + w)[v])[d]
        if m == "parallelogram":
            q = self._quad("p", name, cell)
            if v == 2:
                return q[1][d] + q[3][d] - q[0][d]
            return q[v][d]
        # kites: symmetric about one diagonal
        q = self._quad("k", name, cell)
        i, j = (0, 2) if m == "kite0" else (1, 3)
        a, b = q[i], q[j]
        if v in (i, j):
            return q[v][d]
        px, py = -(b[1] - a[1]), b[0] - a[0]
        t = (0.2 + 0.4 * self._u("t", name, cell, v)) * (-1 if v == (i + 1) % 4 else 1)
        return ((a[0] + b[0]) / 2 + t * px, (a[1] + b[1]) / 2 + t * py)[d]

    def _quad(self, *key):
        """a convex quadrilateral, counter-clockwise"""
        s, r = 0.5 + self._u("s", key), 0.25
        return [(s * (x + r * (self._u("qx", i, key) - 0.5)), s * (y + r * (self._u("qy", i, key) - 0.5))) for i, (x, y) in enumerate(((0, 0), (1, 0.1), (1.1, 1), (-0.1, 0.8)))]

    def _count(self, p, env):
        n = self.ipoly(p, env)
        if not _isint(n):
            raise Infeasible("non-integer count")
        n = int(n)
        if n > 400:
            self.work += n
            if n > 20000 or self.work > WORK:
                raise Infeasible("too long")
        return max(n, 0)

    def _hash(self, a, vals):
        isint = T._atom_int(a)
        lo, hi = bounds_of(a)
        try:
            lo = None if lo is None else self.poly(lo, {}) if not any(f.kind == "bv" for f in lo.free()) else None
            hi = None if hi is None else self.poly(hi, {}) if not any(f.kind == "bv" for f in hi.free()) else None
        except Undecided:
            lo = hi = None
        if lo is None and T._atom_nonneg(a):
            lo = 0
        if hi is None and lo is None and a in T.POSITIVE:
            lo = 0.05
        return self._draw(a, (a.kind, _canon(vals)), isint, lo, hi)

    def val(self, z, env):
        if isinstance(z, Poly):
            s = z.single_atom()
            if s is not None and s.kind in ("lam", "lamc", "selkey"):
                return self.atom(s, env)
            return self.poly(z, env)
        if isinstance(z, Cond):
            return self.cond(z, env)
        if isinstance(z, Atom):
            return self.atom(z, env)
        if isinstance(z, tuple):
            return tuple(self.val(y, env) for y in z)
        if z is None or isinstance(z, (str, int, float, Fraction, bool)):
            return z
        return repr(z)

    def _lam(self, a, env):
        l, body = a.args
        bv = T.atom("bv", l)
        out = []
        for i in range(4):
            e2 = dict(env)
            e2[bv] = i
            try:
                out.append(_canon(self.poly(body, e2)))
            except Infeasible:
                out.append("x")
        return tuple(out)

    def _selset(self, a, env):
        import itertools
        shape, lc = a.args
        lc = lc.single_atom() if isinstance(lc, Poly) else lc
        dims = [self._count(d, env) for d in shape]
        l, nv, c = lc.args
        out = []
        n = 1
        for d in dims:
            n *= d
        if n > 600:
            raise Infeasible("too long")
        for combo in itertools.product(*[range(d) for d in dims]):
            e2 = dict(env)
            for k, i in enumerate(combo):
                e2[T.atom("bv", l - nv + 1 + k)] = i
            if self.val(c, e2) is True:
                out.append(combo)
        return tuple(out)

    def _lamc(self, a, env):
        l, nv, c = a.args
        out = []
        import itertools
        for combo in itertools.product(range(3), repeat=nv):
            e2 = dict(env)
            for k, i in enumerate(combo):
                e2[T.atom("bv", l - nv + 1 + k)] = i
            out.append(self.cond(c, e2))
        return tuple(out)

    def _jacobi(self, n, a, b, x):
        if not _isint(n):
            raise Infeasible("non-integer degree")
        n = int(n)
        if n < 0:
            return self._draw(None, ("badJ", n, _canon(a), _canon(b), _canon(x)), False, None, None)
        a, b = Fraction(a) if _isint(a) or isinstance(a, Fraction) else a, Fraction(b) if _isint(b) or isinstance(b, Fraction) else b
        p0 = 1
        if n == 0:
            return p0
        p1 = (a + 1) + (a + b + 2) * (x - 1) / 2 if not isinstance(x, int) else (a + 1) + (a + b + 2) * Fraction(x - 1, 2)
        for k in range(2, n + 1):
            c = 2 * k + a + b
            if k + a + b == 0 or c - 2 == 0:
                # fall back on the explicit sum
                return self._jac_sum(n, a, b, x)
            a1 = 2 * k * (k + a + b) * (c - 2)
            a2 = (c - 1) * (c * (c - 2) * x + a * a - b * b)
            a3 = 2 * (k + a - 1) * (k + b - 1) * c
            p0, p1 = p1, (a2 * p1 - a3 * p0) / a1
        return p1

    def _jac_sum(self, n, a, b, x):
        r = 0
        for s in range(n + 1):
            r = r + T._binom_poly(Fraction(n + a), n - s) * T._binom_poly(Fraction(n + b), s) * ((x - 1) / Fraction(2)) ** s * ((x + 1) / Fraction(2)) ** (n - s)
        return r

    # -------------------------------------------------------------- conditions
    def cond(self, c, env=None):
        env = env or {}
        if c is True or c is False:
            return c
        if c.op in ("le", "lt", "eq"):
            v = self.poly(c.args[0], env)
            if isinstance(v, float):
                if abs(v) < 1e-9:
                    return c.op != "lt"
            if c.op == "le":
                return v <= 0
            if c.op == "lt":
                return v < 0
            return v == 0
        if c.op == "not":
            return not self.cond(c.args[0], env)
        if c.op == "and":
            return all(self.cond(x, env) for x in c.args)
        if c.op == "or":
            return any(self.cond(x, env) for x in c.args)
        if c.op == "unk":
            self.uncertain = True
        if c in self.cmemo and not c.free:
            return self.cmemo[c]
        if c.op == "atom" and c.args[0] in ("any", "all") and isinstance(c.args[-1], (Poly, Atom)):
            lc = c.args[-1].single_atom() if isinstance(c.args[-1], Poly) else c.args[-1]
            if lc is not None and lc.kind == "lamc":
                dims = c.args[1:-1]
                ss = self._selset(T.atom("selkey", tuple(dims), P(lc)), env)
                n = 1
                for d in dims:
                    n *= self._count(d, env)
                return bool(ss) if c.args[0] == "any" else len(ss) == n
        vals = tuple(self.val(x, env) for x in c.args)
        r = self.h("cond", c.op, _canon(vals)) % 2 == 0
        if not c.free:
            self.cmemo[c] = r
        return r


def _jac_num(n, a, b, x):
    """Jacobi polynomial and derivative, float"""
    def val(n, a, b):
        if n < 0:
            return 0.0
        p0, p1 = 1.0, (a + 1) + (a + b + 2) * (x - 1) / 2
        if n == 0:
            return p0
        for k in range(2, n + 1):
            c = 2 * k + a + b
            a1 = 2 * k * (k + a + b) * (c - 2)
            if a1 == 0:
                raise ZeroDivisionError
            a2 = (c - 1) * (c * (c - 2) * x + a * a - b * b)
            a3 = 2 * (k + a - 1) * (k + b - 1) * c
            p0, p1 = p1, (a2 * p1 - a3 * p0) / a1
        return p1
    return val(n, a, b), 0.5 * (n + a + b + 1) * val(n - 1, a + 1, b + 1)


def _dlegendre(n, x):
    return _jac_num(n, 0.0, 0.0, x)[1]


_NODES = {}


def gauss_nodes(n, a, b):
    """ascending zeros of the Jacobi polynomial, by Newton's iteration with deflation"""
    key = (n, float(a), float(b))
    if key in _NODES:
        return _NODES[key]
    a, b = float(a), float(b)
    xs = []
    try:
        for i in range(n):
            x = -math.cos(math.pi * (4 * i + 3 + 2 * b) / (4 * n + 2 * (a + b) + 2))
            for _ in range(100):
                p, d = _jac_num(n, a, b, x)
                s = sum(1 / (x - z) for z in xs)
                dx = p / (d - p * s)
                x -= dx
                if abs(dx) < 1e-15:
                    break
            xs.append(x)
        xs.sort()
        if not all(-1 < x < 1 for x in xs) or any(y - x < 1e-9 for x, y in zip(xs, xs[1:])):
            xs = None
    except ZeroDivisionError:
        xs = None
    if xs is not None and a == b:
        # symmetric about the origin, exactly
        xs = [0.0 if 2 * i + 1 == n else (xs[i] - xs[n - 1 - i]) / 2 for i in range(n)]
    _NODES[key] = xs
    return xs


class Witness:
    def __init__(self, trial, value, syms):
        self.trial, self.value = trial, value
        self.syms = syms

    def __str__(self):
        t = ", ".join(f"{k}={v}" for k, v in self.syms)
        return t + (f" (with the literal size {self.trial.shrink} reduced to {SHRUNK})" if self.trial and self.trial.shrink else "")


STATS = {"normal_form": 0, "sampled": 0}


def _facts_conds(assume):
    out = []
    for c, v in assume:
        x = c if v else T.cnot(c)
        if x is True:
            continue
        if x is False:
            return None
        for y in (x.args if x.op == "and" else (x,)):
            out.append(y)
    return out


def _repair(tr, conds, syms, rnd):
    """move integer symbols so that the linear facts and the symbol bounds hold"""
    facts = [c.args[0] for c in conds if c.op in ("le", "lt")]
    eqs = [c.args[0] for c in conds if c.op == "eq"]
    for a in syms:
        lo, hi = bounds_of(a)
        if lo is not None:
            facts.append(lo - P(a))
        if hi is not None:
            facts.append(P(a) - hi)
    for a in syms:
        if a not in tr.fixed:
            try:
                tr.fixed[a] = tr.atom(a, {})
            except Infeasible:
                tr.fixed[a] = 1
    for _ in range(60):
        tr.memo = {}
        tr.cmemo = {}
        bad = []
        for f in facts:
            v = tr.poly(f)
            if v > 1e-12:
                bad.append((f, v))
        for f in eqs:
            v = tr.poly(f)
            if abs(v) > 1e-9:
                bad.append((f, v))
        if not bad:
            return True
        f, v = bad[rnd() % len(bad)]
        cand = []
        for m, c in f.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in tr.fixed:
                cand.append((m[0][0], c))
        if not cand:
            return False
        a, c = cand[rnd() % len(cand)]
        step = Fraction(v) / c if not isinstance(v, float) else v / float(c)
        if a in T.INTS:
            step = math.ceil(step) if step > 0 else math.floor(step)
        tr.fixed[a] = _norm(tr.fixed[a] - step)
    return False


_GC = {}


def guard_consts(x):
    """magnitudes of the real constants that conditions, maxima and minima inside x compare with"""
    if isinstance(x, Poly):
        r = frozenset()
        for m in x.t:
            for a, _ in m:
                r |= guard_consts(a)
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= guard_consts(y)
        return r
    if isinstance(x, Cond):
        r = guard_consts(x.args)
        if x.op in ("le", "eq", "lt") and isinstance(x.args[0], Poly):
            r |= _magnitude(x.args[0])
        return r
    if isinstance(x, Atom):
        r = _GC.get(x)
        if r is None:
            _GC[x] = frozenset()
            r = guard_consts(x.args)
            if x.kind in ("fdiv", "mod") and isinstance(x.args[1], Poly) and x.args[1].is_const() and 22 < abs(x.args[1].const()) < 10 ** 7:
                r |= frozenset([-abs(float(x.args[1].const()))])
            if x.kind in ("trunc", "fn") and x.args[0 if x.kind == "trunc" else -1].__class__ is Poly and (x.kind == "trunc" or x.args[0] in ("floor", "ceil")):
                for cf in x.args[-1].t.values():
                    if 22 < cf.denominator < 10 ** 7 and cf.numerator in (1, -1):
                        r |= frozenset([-float(cf.denominator)])
            if x.kind == "fn" and x.args[0] in ("max", "min"):
                zs = x.args[1:]
                if len(zs) == 2 and all(isinstance(z, Poly) for z in zs):
                    r |= _magnitude(zs[0] - zs[1])
            _GC[x] = r
        return r
    return frozenset()


def _magnitude(p):
    c = p.t.get((), 0)
    rest = [abs(float(v)) for m, v in p.t.items() if m]
    if not c:
        return frozenset()
    v = abs(float(c)) / (max(rest) if rest else 1.0)
    if T.is_int(p):
        return frozenset([-v]) if 22 < v < 1e7 else frozenset()
    return frozenset([v]) if v and not 0.3 <= v <= 4 else frozenset()


_GE = {}
MODES = ("shift", "turn", "resize", "rect", "square", "parallelogram", "kite0", "kite1")


def real_guards(x):
    """does a comparison inside x of real quantities hold only at coincidences? (equality, closeness)"""
    if isinstance(x, Poly):
        return any(real_guards(a) for m in x.t for a, _ in m)
    if isinstance(x, tuple):
        return any(real_guards(y) for y in x)
    if isinstance(x, (Cond, Atom)):
        r = _GE.get(x)
        if r is None:
            _GE[x] = False
            r = False
            if isinstance(x, Cond) and x.op in ("eq", "le", "lt") and isinstance(x.args[0], Poly) and not T.is_int(x.args[0]):
                p = x.args[0]
                c = abs(float(p.t.get((), 0)))
                big = max([abs(float(v)) for m, v in p.t.items() if m] or [1.0])
                r = x.op == "eq" or (any(a.kind == "abs" for m in p.t for a, _ in m) and c < 1e-3 * big)
            _GE[x] = r = r or real_guards(x.args)
        return r
    return False


def _cell_inputs(x, seen):
    """does x read vertex coordinates of cells?"""
    if isinstance(x, Poly):
        return any(_cell_inputs(a, seen) for m in x.t for a, _ in m)
    if isinstance(x, tuple):
        return any(_cell_inputs(y, seen) for y in x)
    if isinstance(x, (Cond, Atom)):
        if x in seen:
            return False
        seen.add(x)
        if isinstance(x, Atom) and x.kind.startswith("in:X"):
            return True
        return _cell_inputs(x.args, seen)
    return False


def mode_trials(x, seed):
    """inputs on which comparisons for equality succeed: congruent, turned, rectangular, symmetric
    cells and inputs with few different values"""
    try:
        if not real_guards(x):
            return
        geo = _cell_inputs(x, set())
    except RecursionError:
        return
    k = 0
    for m in (MODES if geo else ("coarse",) * 8):
        for t in range(2):
            k += 1
            tr = Trial((seed, m, k))
            tr.mode = m
            yield tr


_REL = {}


def size_relations(x):
    """equalities between sizes (symbols bounded below only) that comparisons inside x test, as polynomials"""
    if isinstance(x, Poly):
        r = frozenset()
        for m in x.t:
            for a, _ in m:
                r |= size_relations(a)
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= size_relations(y)
        return r
    if isinstance(x, (Cond, Atom)):
        r = _REL.get(x)
        if r is None:
            _REL[x] = frozenset()
            r = size_relations(x.args)
            if isinstance(x, Cond) and x.op == "eq" and isinstance(x.args[0], Poly):
                p = x.args[0]
                if len(p.t) <= 6 and all(a.kind == "sym" and e > 0 for m in p.t for a, e in m) and T.is_int(p) and len(p.free()) >= 2 and all(a.kind == "sym" and bounds_of(a)[1] is None for a in p.free()):
                    r |= frozenset([p])
            _REL[x] = r
        return r
    return frozenset()


def rel_trials(x, seed):
    """sizes for which an equality the code tests holds"""
    try:
        rels = sorted(size_relations(x), key=str)[:8]
    except RecursionError:
        return
    for k, p in enumerate(rels):
        for t in range(4):
            tr = Trial((seed, "rel", k, t))
            tr.rel = True
            for m, cf in sorted(p.t.items(), key=str):
                if len(m) == 1 and m[0][1] == 1 and abs(cf) == 1 and not any(m[0][0] in dict(m2) for m2 in p.t if m2 != m):
                    rest = Poly({m2: -c2 / cf for m2, c2 in p.t.items() if m2 != m})
                    try:
                        v = tr.poly(rest)
                        lo = bounds_of(m[0][0])[0]
                        if v == int(v) and v <= 400 and (lo is None or v >= tr.poly(lo)):
                            tr.memo[(m[0][0], frozenset())] = int(v)
                            yield tr
                            break
                    except (Infeasible, Undecided, OverflowError, ZeroDivisionError):
                        pass


def mag_trials(x, seed):
    try:
        mags = sorted(guard_consts(x))
    except RecursionError:
        return
    for v in (mags[:3] + mags[-3:] if len(mags) > 6 else mags):
        for t in range(3 if v > 0 else 12 if v < -300 else 8):
            tr = Trial((seed, "mag", t))
            if v < 0:
                tr.imag = int(-v)
                tr.guard = v
                if tr.imag > 300 and t % 2 == 0:
                    tr.imag, tr.shrink = SHRUNK, tr.imag
            else:
                tr.mag = Fraction(v * 20 if v > 1 else v / 4).limit_denominator(10 ** 40)
                tr.exact = True
            yield tr


def random_zero(p, assume=(), trials=None, seed=1):
    t0 = time.time()
    try:
        return _random_zero(p, assume, trials, seed, t0 + (LIMIT[0] if SPENT[0] < 400 else 3))
    finally:
        SPENT[0] += time.time() - t0


def _random_zero(p, assume, trials, seed, deadline):
    """-> (verdict, witness): True when p evaluates to zero at every sampled point of the
    assumed region, False with a witness when it does not, None when undecided"""
    trials = trials or TRIALS
    conds = _facts_conds(assume)
    if conds is None:
        return True, None
    syms = set()
    for c in conds:
        syms |= {a for a in c.free if a.kind == "sym"}
    grow = True
    while grow:
        grow = False
        for a in list(syms):
            for b in bounds_of(a):
                if b is not None:
                    for z in b.free():
                        if z.kind == "sym" and z not in syms:
                            syms.add(z)
                            grow = True
    syms = sorted(syms, key=lambda a: a.id)
    done = 0
    tries = 0
    unsure = False
    # values of the size of the constants compared with, so that both sides of every comparison are met
    special = 0
    met, unmet = set(), set()
    for tr in itertools.chain(mag_trials(p, seed), rel_trials((p, tuple(conds)), seed), mode_trials((p, tuple(conds)), seed)):
        if tr.guard is not None:
            unmet.add(tr.guard)
        if time.time() > deadline:
            break
        try:
            if conds and not all(tr.cond(c) for c in conds):
                continue
            w, mx = tr.scale(p)
        except (Infeasible, Undecided, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if tr.guard is not None:
            met.add(tr.guard)
        special += not tr.uncertain and not tr.rel
        if tr.exact and isinstance(w, (int, Fraction)):
            bad = w != 0
        else:
            bad = abs(float(w)) > 1e-6 * (1e-3 * min(1, tr.mag) + mx)
        if bad and not tr.uncertain:
            return False, Witness(tr, w, _syms(tr, p.free()))
    SPECIAL[0] = special
    cap = trials * 12
    if special and conds and real_guards(tuple(conds)):
        cap = trials * 2
    while done < trials and tries < cap:
        if time.time() > deadline:
            if done:
                break
            return None, None
        tries += 1
        tr = Trial((seed, tries))
        try:
            if conds and not all(tr.cond(c) for c in conds):
                ctr = [0]

                def rnd():
                    ctr[0] += 1
                    return tr.h("r", ctr[0])
                if not _repair(tr, conds, syms, rnd):
                    continue
                if not all(tr.cond(c) for c in conds):
                    continue
            v, mx = tr.scale(p)
        except Infeasible:
            continue
        except Undecided:
            return None, None
        except (OverflowError, ZeroDivisionError, RecursionError):
            continue
        if abs(float(v)) > 1e-6 * (1e-3 + mx):
            if tr.uncertain:
                unsure = True
                done += 1
                continue
            return False, Witness(tr, v, _syms(tr, p.free()))
        done += 1
        if tr.work:
            trials = min(trials, 3)
    if unsure or (done == 0 or done < max(2, trials // 4)) and special < 2:
        return None, None
    if unmet - met:
        # a size the code compares with was never reached
        return None, None
    return True, None


def _syms(tr, free):
    out = []
    for a in free:
        if a.kind == "sym":
            v = tr.fixed.get(a, tr.memo.get((a, frozenset())))
            if v is not None:
                out.append((str(a.args[0]).split("#")[0], _canon(v)))
    return sorted(out, key=str)[:12]


def _leaves(p, facts, out, budget):
    """case analysis on gated values; leaves whose normal form is not zero are collected"""
    if budget[0] <= 0:
        out.append((p, facts))
        return
    budget[0] -= 1
    if not p.t:
        return
    if "ite" in p.flags():
        c = T._find_ite(p)
        if c is not None and any(a.kind == "argsort" for x in c.args if isinstance(x, Poly) for m in x.t for a, _ in m):
            # position of an element in a sorted sequence: every case is hit by sampling
            out.append((p, facts))
            return
        if c is not None:
            moved = False
            for v in (True, False):
                nf = facts + ((c, v),)
                if T.infeasible(nf):
                    moved = True
                    continue
                q = p
                if v and c.op == "eq":
                    s = T.eq_subst(c.args[0])
                    if s and s[0] in q.free():
                        q = T.subst(q, {s[0]: s[1]})
                n = T.cnot(c)
                q = T._assume(q, {c: v, **({n: (not v)} if isinstance(n, Cond) else {})})
                if q == p:
                    out.append((p, nf))
                    continue
                _leaves(q, nf, out, budget)
            return
    r = is_zero(p)
    if r is True:
        return
    out.append((p, facts))


def decide_zero(p, assume=(), trials=None):
    """True (proved / identity established), False (refuted), None"""
    p = P(p)
    trials = trials or TRIALS
    if not p.t:
        STATS["normal_form"] += 1
        return True, None
    try:
        lv = []
        _leaves(p, tuple(assume), lv, [80])
        if not lv:
            STATS["normal_form"] += 1
            return True, None
        STATS["sampled"] += 1
        und = False
        for q, facts in lv:
            v, w = random_zero(q, facts, trials if len(lv) < 20 else max(3, trials // 3))
            if v is False:
                return False, w
            if v is None and not _no_point(facts):
                und = True
        if und:
            v, w = random_zero(p, assume, trials)
            return (False, w) if v is False else (True, None) if v and SPECIAL[0] >= 3 else (None, None)
        return True, None
    except RecursionError:
        return random_zero(p, assume, trials)


def _no_point(facts):
    """the case has only linear integer facts and no integer point satisfying them is found"""
    conds = _facts_conds(facts)
    if conds is None:
        return True
    for c in conds:
        x = c.args[0] if c.op == "not" else c
        if x.op not in ("le", "eq") or not T.is_int(x.args[0]):
            return False
        for m in x.args[0].t:
            if len(m) > 1 or any(a.kind != "sym" or e != 1 for a, e in m):
                return False
    return random_zero(T.ONE, facts, 3)[0] is None


def decide_cond(c, assume=(), trials=None, seed=7):
    """does the condition hold at every sampled point?"""
    trials = trials or TRIALS * 2
    if c is True or c is False:
        return c, None
    done = tries = 0
    unsure = False
    for tr in itertools.chain(mag_trials(c, seed), mode_trials((c, tuple(x for x, _ in assume)), seed)):
        try:
            if any(tr.cond(x) is not v for x, v in assume):
                continue
            if not tr.cond(c) and not tr.uncertain:
                return False, Witness(tr, False, _syms(tr, c.free))
        except (Infeasible, Undecided, OverflowError, ZeroDivisionError, RecursionError):
            continue
    while done < trials and tries < trials * 12:
        tries += 1
        tr = Trial((seed, tries))
        try:
            if any(tr.cond(x) is not v for x, v in assume):
                continue
            v = tr.cond(c)
        except Infeasible:
            continue
        except Undecided:
            return None, None
        except (OverflowError, ZeroDivisionError, RecursionError):
            continue
        done += 1
        if not v:
            if tr.uncertain:
                unsure = True
                continue
            return False, Witness(tr, v, _syms(tr, c.free))
    if unsure or done == 0:
        return None, None
    return True, None
