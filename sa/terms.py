"""Algebraic term domain used by the value-graph analysis.

Scalars are multivariate polynomials with rational coefficients over hash-consed
atoms ("value numbers"); conditions are a small boolean algebra over polynomial
comparisons.  Everything is normalised on construction, so two program
expressions that compute the same algebraic value receive the same term.
Nothing here executes repository code and no solver is involved.
"""
import math
from fractions import Fraction
import itertools

Fr = Fraction
_counter = itertools.count(1)


class Atom:
    __slots__ = ("kind", "args", "id", "free", "flags", "lvl")

    def __repr__(self):
        return fmt_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_ATOMS = {}
BOUNDS = {}  # atom -> (lo Poly|None, hi Poly|None)
INTS = set()  # atoms known integer valued
NONNEG = set()


def _scan(x, free, flags):
    """collect free leaf atoms / flags / max bound level of an argument"""
    lvl = 0
    if isinstance(x, Poly):
        free |= x.free()
        flags |= x.flags()
        return x.lvl()
    if isinstance(x, Cond):
        free |= x.free
        flags |= x.flags
        return x.lvl
    if isinstance(x, Atom):
        free |= x.free
        flags |= x.flags
        return x.lvl
    if isinstance(x, tuple):
        for y in x:
            lvl = max(lvl, _scan(y, free, flags))
    return lvl


def atom(kind, *args):
    k = (kind, args)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = next(_counter)
        free = set()
        flags = set()
        lvl = 0
        for x in args:
            lvl = max(lvl, _scan(x, free, flags))
        if kind in ("sum", "red", "argsort", "lam"):
            lvl = max(lvl, args[0])
        if kind == "bv":
            lvl = args[0]
            free.add(a)
        if kind in ("sym",):
            free.add(a)
        if kind == "unk":
            flags.add("unk")
        if kind == "ite":
            flags.add("ite")
        if kind == "par":
            flags.add("par")
        if kind in ("sqrt", "abs"):
            flags.add("root")
        if kind == "J":
            flags.add("J")
        if kind in ("rnd", "lhs"):
            flags.add("rnd")
        if kind in ("phi", "phiarr"):
            flags.add("phi")
            free.add(a)
        a.free = frozenset(free)
        a.flags = frozenset(flags)
        a.lvl = lvl
        _ATOMS[k] = a
    return a


class Poly:
    __slots__ = ("t", "_h", "_f", "_fl", "_l")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._f = None
        self._fl = None
        self._l = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = const(o)
        return isinstance(o, Poly) and self.t == o.t

    def free(self):
        if self._f is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.free
            self._f = frozenset(s)
        return self._f

    def flags(self):
        if self._fl is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.flags
            self._fl = frozenset(s)
        return self._fl

    def lvl(self):
        if self._l is None:
            self._l = max((a.lvl for m in self.t for a, _ in m), default=0)
        return self._l

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = _mulmono(m1, m2)
                if isinstance(r, Poly):
                    r = r * const(c1 * c2)
                    extra = r if extra is None else extra + r
                    continue
                v = t.get(r, 0) + c1 * c2
                if v:
                    t[r] = v
                else:
                    t.pop(r, None)
        p = Poly(t)
        return p if extra is None else p + extra

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        return power(self, P(n))

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        """the value of a constant polynomial"""
        if any(m for m in self.t):
            raise ValueError(f"not a constant: {self}"[:200])
        return self.t.get((), Fr(0))

    def cterm(self):
        """the constant term"""
        return self.t.get((), Fr(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        return fmt(self)


def const(c):
    c = Fr(c)
    return Poly({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fr(1)})
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    if isinstance(x, Cond):
        return ite(x, ONE, ZERO)
    raise TypeError(f"not a scalar: {x!r}")


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    for a, e in d.items():
        if a.kind in ("sqrt", "abs", "sgn1") and e not in (0, 1):
            special = True
        elif a.kind == "par" and e > 0:
            special = True
        elif a.kind == "pow" and e not in (0, 1):
            special = True
    if sum(1 for a in d if a.kind == "pow") > 1:
        special = True
    if not special:
        return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))
    out = ONE
    rest = {}
    pows = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "sqrt" and e not in (0, 1):
            q, r = divmod(e, 2)
            out = out * ipow(a.args[0], q)
            if r:
                rest[a] = 1
        elif a.kind == "abs" and e not in (0, 1):
            q, r = divmod(e, 2)
            out = out * ipow(a.args[0], 2 * q)
            if r:
                rest[a] = 1
        elif a.kind == "par" and e > 0:
            out = out * ipow(a.args[0], e)
        elif a.kind == "pow":
            b = a.args[0]
            pows[b] = pows.get(b, ZERO) + a.args[1] * e
        else:
            rest[a] = rest.get(a, 0) + e
    for b, ex in pows.items():
        out = out * power(b, ex)
    mono = tuple(sorted(((a, e) for a, e in rest.items() if e), key=lambda z: z[0].id))
    return out * Poly({mono: Fr(1)})


def ipow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(ipow(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def _common_mono(p):
    it = iter(p.t)
    d = dict(next(it))
    for m in it:
        md = dict(m)
        for a in list(d):
            e = min(d[a], md.get(a, 0)) if (d[a] > 0 and md.get(a, 0) > 0) else (
                max(d[a], md.get(a, 0)) if (d[a] < 0 and md.get(a, 0) < 0) else 0)
            if e:
                d[a] = e
            else:
                d.pop(a)
        if not d:
            break
    return tuple(sorted(d.items(), key=lambda z: z[0].id))


def _lead(p):
    return max(p.t, key=lambda m: (sum(abs(e) for _, e in m), tuple((a.id, e) for a, e in m)))


def inv(p):
    if not p.t:
        return P(atom("unk", "division by zero"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(1 / c)
        for a, e in m:
            if a.kind == "sqrt":
                r = r * P(a) * inv(a.args[0])
            elif a.kind == "pow":
                r = r * power(a.args[0], -a.args[1])
            elif a.kind == "par":
                r = r * ipow(a.args[0], -e)
            else:
                r = r * Poly({((a, -e),): Fr(1)})
        return r
    cm = _common_mono(p)
    q = p
    if cm:
        q = p * Poly({tuple((a, -e) for a, e in cm): Fr(1)})
    lc = q.t[_lead(q)]
    q = q * const(1 / lc)
    base = Poly({((atom("par", q), -1),): 1 / lc})
    if cm:
        base = base * Poly({tuple((a, -e) for a, e in cm): Fr(1)})
    return base


def _isqrt_frac(c):
    import math
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fr(a, b)
    return None


def sqrt(p):
    if p.is_const():
        r = _isqrt_frac(p.const())
        if r is not None:
            return const(r)
        return P(atom("sqrt", p)) if p.const() > 0 else P(atom("unk", "sqrt of negative"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = ONE
        rest = ONE
        rc = _isqrt_frac(c) if c > 0 else None
        if rc is not None:
            r = r * const(rc)
        else:
            rest = rest * const(c)
        for a, e in m:
            pa = P(a)
            if e % 2 == 0:
                h = ipow(pa, e // 2)
                r = r * (h if (e // 2) % 2 == 0 or nonneg(pa) else absv(h))
            elif nonneg(pa):
                r = r * ipow(pa, e // 2) * P(atom("sqrt", pa))
            else:
                rest = rest * ipow(pa, e)
        if rest == ONE:
            return r
        return r * P(atom("sqrt", rest))
    # perfect square of a linear form?  (a+b)^2
    s = _poly_sqrt(p)
    if s is not None:
        return s if nonneg(s) else absv(s)
    # pull the common factor that is known to be non-negative (rational content, shared atoms)
    g = _common_nonneg(p)
    if g is not None:
        return sqrt(g) * sqrt(p * inv(g))
    return P(atom("sqrt", p))


def _common_nonneg(p):
    import math
    ms = list(p.t)
    num = den = 0
    for m in ms:
        c = p.t[m]
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator) if den else c.denominator
    g = P(const(Fr(num, den)))
    for a, e in ms[0]:
        es = [dict(m).get(a, 0) for m in ms]
        k = min(es, key=abs) if all(x > 0 for x in es) or all(x < 0 for x in es) else 0
        if k and a.kind != "sqrt" and nonneg(P(a)):
            g = g * ipow(P(a), k)
    return None if g == ONE else g


def _poly_sqrt(p):
    # try small candidates: leading monomial square root then verify
    lead = _lead(p)
    c = _isqrt_frac(p.t[lead]) if p.t[lead] > 0 else None
    if c is None or any(e % 2 for _, e in lead):
        return None
    r = Poly({tuple((a, e // 2) for a, e in lead): c})
    rem = p - r * r
    lr = r
    for _ in range(12):
        if not rem.t:
            return r
        m = _lead(rem)
        try:
            q = Poly({m: rem.t[m]}) * inv(lr * 2)
        except Exception:
            return None
        if any(e < 0 for mm in q.t for _, e in mm):
            return None
        r = r + q
        rem = p - r * r
    return None


def absv(p):
    if p.is_const():
        return const(abs(p.const()))
    if nonneg(p):
        return p
    if nonneg(-p):
        return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(abs(c))
        for a, e in m:
            pa = P(a)
            if e % 2 == 0 or nonneg(pa):
                r = r * ipow(pa, e)
            else:
                r = r * ipow(P(atom("abs", pa)), e)
        return r
    cm = _common_mono(p)
    if cm:
        f = Poly({cm: Fr(1)})
        d = dict(cm)
        return absv(f) * absv(Poly({tuple((a, e - d.get(a, 0)) for a, e in m if e != d.get(a, 0)): c for m, c in p.t.items()}))
    lc = p.t[_lead(p)]
    return const(abs(lc)) * P(atom("abs", p * const(1 / lc)))


def power(b, e):
    if e.is_const():
        c = e.const()
        if c.denominator == 1:
            n = int(c)
            if len(b.t) > 1 and abs(n) > 12:
                return P(atom("fn", "pow", b, e))
            if b.is_const() and abs(n) > 400:
                return P(atom("fn", "pow", b, e))
            return ipow(b, n)
        if c.denominator == 2:
            return ipow(sqrt(b), int(c * 2))
        return P(atom("fn", "pow", b, e))
    if b == ONE:
        return ONE
    # symbolic exponent: split constant part
    k = e.cterm()
    if k and k.denominator == 1 and b.t:
        rest = e - const(k)
        if b == const(-1):
            return ipow(b, int(k) % 2) * power(b, rest)
        return ipow(b, int(k)) * power(b, rest)
    if b == const(-1):
        # reduce even multiples, sign of exponent irrelevant
        t = {}
        for m, c in e.t.items():
            if c.denominator == 1 and is_int(Poly({m: Fr(1)})):
                c = Fr(int(c) % 2)
            if c:
                t[m] = c
        e = Poly(t)
        if not e.t:
            return ONE
    return P(atom("pow", b, e))


# ----------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("op", "args", "free", "flags", "lvl", "_h")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        free, flags = set(), set()
        lvl = 0
        for x in args:
            lvl = max(lvl, _scan(x, free, flags))
        if op == "unk":
            flags.add("unk")
        self.free = frozenset(free)
        self.flags = frozenset(flags)
        self.lvl = lvl
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.op == o.op and self.args == o.args

    def __repr__(self):
        return fmt_cond(self)


def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not _atom_int(a):
                return False
    return True


def _atom_int(a):
    if a in INTS or a.kind in ("bv", "fdiv", "mod", "len", "trunc", "argsort", "round"):
        return True
    if a.kind in ("sum",):
        return is_int(a.args[2])
    if a.kind == "pow":
        return is_int(a.args[0]) and is_int(a.args[1]) and nonneg(a.args[1])
    if a.kind == "ite":
        return is_int(a.args[1]) and is_int(a.args[2])
    if a.kind == "abs":
        return is_int(a.args[0])
    return False


def _norm_scale(p):
    """scale to primitive integer coefficients (positive factor)"""
    import math
    den = 1
    for c in p.t.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    num = 0
    for c in p.t.values():
        num = math.gcd(num, int(c * den))
    f = Fr(den, num) if num else Fr(1)
    return p * const(f)


def cle(p):  # p <= 0
    if p.is_const():
        return p.const() <= 0
    if nonneg(-p):
        return True
    if is_int(p):
        if nonneg(p - 1):
            return False
    elif pos(p):
        return False
    return Cond("le", (_norm_scale(p),))


def clt(p):  # p < 0
    if is_int(p):
        return cle(p + 1)
    if p.is_const():
        return p.const() < 0
    if pos(-p):
        return True
    if nonneg(p):
        return False
    return Cond("lt", (_norm_scale(p),))


def ceq(p):  # p == 0
    if p.is_const():
        return p.const() == 0
    if pos(p) or pos(-p):
        return False
    if is_int(p) and (nonneg(p - 1) or nonneg(-p - 1)):
        return False
    q = _norm_scale(p)
    lc = q.t[_lead(q)]
    if lc < 0:
        q = -q
    return Cond("eq", (q,))


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.op == "not":
        return c.args[0]
    if c.op == "le":
        return clt(-c.args[0])
    if c.op == "lt":
        return cle(-c.args[0])
    if c.op == "and":
        return cor(*[cnot(x) for x in c.args])
    if c.op == "or":
        return cand(*[cnot(x) for x in c.args])
    return Cond("not", (c,))


def cand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        for x in (c.args if c.op == "and" else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if cnot(x) in out:
            return False
    # eq with le/lt implied etc. is left to the case splitter
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda z: repr(z))
    return Cond("and", tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        for x in (c.args if c.op == "or" else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if cnot(x) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda z: repr(z))
    return Cond("or", tuple(out))


def cunk(why):
    return Cond("unk", (why,))


def catom(name, *args):
    return Cond("atom", (name,) + args)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    # propagate the condition into branches
    a2 = assume(a, c, True)
    b2 = assume(b, c, False)
    if a2 == b2:
        return a2
    return P(atom("ite", c, a2, b2))


def assume(x, c, val, _memo=None):
    """rewrite x under the assumption c == val (only exact occurrences / conjunct parts,
    plus equality substitution)"""
    if c is True or c is False:
        return x
    if isinstance(x, Poly):
        if val and c.op == "eq":
            s = eq_subst(c.args[0])
            if s:
                a, e = s
                if a in x.free():
                    x = subst(x, {a: e})
        if "ite" not in x.flags():
            return x
    facts = {}

    def add(c, v):
        if c is True or c is False:
            return
        facts[c] = v
        n = cnot(c)
        if isinstance(n, Cond):
            facts[n] = not v
        if v and c.op == "and":
            for y in c.args:
                add(y, True)
        if (not v) and c.op == "or":
            for y in c.args:
                add(y, False)
    add(c, val)
    return _assume(x, facts)


def eq_subst(p):
    """from p == 0 derive (symbol atom -> Poly) when p is linear in a symbol with unit coeff"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym":
            a = m[0][0]
            rest = p - Poly({m: c})
            if a in rest.free():
                continue
            e = rest * const(-1 / c)
            if best is None or a.id > best[0].id:
                best = (a, e)
    return best


def _assume(x, facts):
    if isinstance(x, Poly):
        if "ite" not in x.flags():
            return x
        return rebuild_poly(x, lambda a: _assume_atom(a, facts))
    if isinstance(x, Cond):
        if x in facts:
            return facts[x]
        if x.op == "and":
            return cand(*[_assume(y, facts) for y in x.args])
        if x.op == "or":
            return cor(*[_assume(y, facts) for y in x.args])
        if x.op == "not":
            return cnot(_assume(x.args[0], facts))
        return x
    return x


def _assume_atom(a, facts):
    if a.kind == "ite":
        c = _assume(a.args[0], facts)
        if c is True:
            return _assume(a.args[1], facts)
        if c is False:
            return _assume(a.args[2], facts)
        x, y = _assume(a.args[1], facts), _assume(a.args[2], facts)
        if c == a.args[0] and x == a.args[1] and y == a.args[2]:
            return P(a)
        return ite(c, x, y)
    if "ite" in a.flags:
        na = tuple(_assume_any(z, facts) for z in a.args)
        if na != a.args:
            return rebuild_atom(a, na)
    return P(a)


def _assume_any(z, facts):
    if isinstance(z, (Poly, Cond)):
        return _assume(z, facts)
    if isinstance(z, tuple):
        return tuple(_assume_any(y, facts) for y in z)
    return z


def rebuild_poly(p, f):
    out = ZERO
    plain = {}
    for m, c in p.t.items():
        fs = [(a, e, f(a)) for a, e in m]
        if all(r.single_atom() is a for a, e, r in fs):
            plain[m] = plain.get(m, 0) + c
            continue
        r = const(c)
        for a, e, q in fs:
            r = r * ipow(q, e)
        out = out + r
    return out + Poly({m: c for m, c in plain.items() if c})


def replace_atoms(x, mp, memo=None):
    """rewrite every occurrence of the given atoms (any kind) in a term"""
    memo = {} if memo is None else memo
    if isinstance(x, Poly):
        return rebuild_poly(x, lambda a: _replace_atom(a, mp, memo))
    if isinstance(x, Cond):
        na = tuple(replace_atoms(z, mp, memo) for z in x.args)
        if na == x.args:
            return x
        if x.op in ("le", "lt", "eq"):
            return {"le": cle, "lt": clt, "eq": ceq}[x.op](na[0])
        if x.op == "not":
            return cnot(na[0])
        if x.op in ("and", "or"):
            return (cand if x.op == "and" else cor)(*na)
        return Cond(x.op, na)
    if isinstance(x, tuple):
        return tuple(replace_atoms(z, mp, memo) for z in x)
    if isinstance(x, Atom):
        r = _replace_atom(x, mp, memo)
        s = r.single_atom()
        return s if s is not None else r
    return x


def _replace_atom(a, mp, memo):
    if a in mp:
        return P(mp[a])
    r = memo.get(a)
    if r is None:
        na = tuple(replace_atoms(z, mp, memo) for z in a.args)
        r = P(a) if na == a.args else rebuild_atom(a, na)
        memo[a] = r
    return r


def rebuild_atom(a, na):
    k = a.kind
    if k == "ite":
        return ite(*na)
    if k == "sqrt":
        return sqrt(na[0])
    if k == "abs":
        return absv(na[0])
    if k == "par":
        return na[0]
    if k == "pow":
        return power(na[0], na[1])
    if k == "fdiv":
        return fdiv(*na)
    if k == "mod":
        return mod(*na)
    if k == "J":
        return jac(*na)
    if k == "sum":
        v = fresh("s", ZERO, na[1] - 1)
        return mk_sum(v, na[1], subst(na[2], {atom("bv", na[0]): P(v)}))
    if k == "red":
        v = fresh("s", ZERO, na[2] - 1)
        return mk_red(na[1], v, na[2], subst(na[3], {atom("bv", na[0]): P(v)}))
    if k == "argsort":
        v = fresh("s", ZERO, na[1] - 1)
        return mk_argsort(v, na[1], subst(na[2], {atom("bv", na[0]): P(v)}), na[3])
    if k == "fn":
        return mk_fn(*na)
    if k == "lam":
        v = fresh("s")
        return mk_lam(v, subst(na[1], {atom("bv", na[0]): P(v)}))
    if k == "trunc":
        return trunc(na[0])
    h = REBUILD.get(k)
    if h:
        return h(*na)
    b = atom(k, *na)
    if a in INTS:
        INTS.add(b)
    if a in NONNEG:
        NONNEG.add(b)
    return P(b)


REBUILD = {}


# ------------------------------------------------------------- substitution
def subst(x, mp):
    if not mp:
        return x
    return _subst(x, mp, frozenset(mp), {})


def _subst(x, mp, keys, memo):
    if isinstance(x, Poly):
        if not (x.free() & keys):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild_poly(x, lambda a: _subst_atom(a, mp, keys, memo))
            memo[x] = r
        return r
    if isinstance(x, Cond):
        if not (x.free & keys):
            return x
        return _subst_cond(x, mp, keys, memo)
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, keys, memo) for y in x)
    return x


def _subst_atom(a, mp, keys, memo):
    if a in mp:
        return P(mp[a])
    if not (a.free & keys):
        return P(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == "ite":
        c = _subst(a.args[0], mp, keys, memo)
        if c is True:
            r = _subst(a.args[1], mp, keys, memo)
        elif c is False:
            r = _subst(a.args[2], mp, keys, memo)
        else:
            r = ite(c, _subst(a.args[1], mp, keys, memo), _subst(a.args[2], mp, keys, memo))
    elif a.kind in ("phiarr", "phi") and a not in mp:
        r = P(atom(a.kind, *[_subst(z, mp, keys, memo) for z in a.args]))
    else:
        na = tuple(_subst(z, mp, keys, memo) for z in a.args)
        r = rebuild_atom(a, na)
    memo[a] = r
    return r


def _subst_cond(c, mp, keys, memo):
    if c.op == "le":
        return cle(_subst(c.args[0], mp, keys, memo))
    if c.op == "lt":
        return clt(_subst(c.args[0], mp, keys, memo))
    if c.op == "eq":
        return ceq(_subst(c.args[0], mp, keys, memo))
    if c.op == "not":
        return cnot(_subst(c.args[0], mp, keys, memo))
    if c.op == "and":
        return cand(*[_subst(y, mp, keys, memo) for y in c.args])
    if c.op == "or":
        return cor(*[_subst(y, mp, keys, memo) for y in c.args])
    return Cond(c.op, tuple(_subst(y, mp, keys, memo) for y in c.args))


# ------------------------------------------------------------ symbols, bounds
def sym(name, lo=None, hi=None, integer=False, nonneg_=False):
    a = atom("sym", name)
    if integer:
        INTS.add(a)
    if lo is not None or hi is not None:
        BOUNDS[a] = (None if lo is None else P(lo), None if hi is None else P(hi))
    return P(a)


_fresh = itertools.count()


def fresh(name="v", lo=ZERO, hi=None, integer=True):
    a = atom("sym", f"{name}#{next(_fresh)}")
    if integer:
        INTS.add(a)
    BOUNDS[a] = (lo, hi)
    return a


def bounds_of(a):
    b = BOUNDS.get(a)
    if b:
        return b
    k = a.kind
    if k == "mod":
        return (ZERO, a.args[1] - 1)
    if k == "fdiv":
        e, n = a.args
        lo = ZERO if nonneg(e) else None
        hi = None
        return (lo, hi)
    if k == "argsort":
        return (ZERO, a.args[1] - 1)
    if k in ("len", "abs", "sqrt", "bv"):
        return (ZERO, None)
    if k == "pow":
        if a.args[0].is_const() and a.args[0].const() >= 1 and nonneg(a.args[1]):
            return (ONE, None)
        if nonneg(a.args[0]):
            return (ZERO, None)
    if k == "ite":
        if nonneg(a.args[1]) and nonneg(a.args[2]):
            return (ZERO, None)
    if a in NONNEG:
        return (ZERO, None)
    return (None, None)


_nn_memo = {}


def nonneg(p, depth=0):
    """prove p >= 0 from symbol bounds (sound, incomplete)"""
    if p.is_const():
        return p.const() >= 0
    if depth > 7:
        return False
    if depth == 0:
        key = (p, len(BOUNDS))
        r = _nn_memo.get(p)
        if r is not None and (r is True or r[1] == len(BOUNDS)):
            return r is True
        res = _nonneg(p, 0)
        _nn_memo[p] = True if res else (False, len(BOUNDS))
        return res
    return _nonneg(p, depth)


def _nonneg(p, depth):
    # quick: all monomials with nonneg coefficient and nonneg atoms
    ok = True
    for m, c in p.t.items():
        if c < 0:
            ok = False
            break
        for a, e in m:
            if e % 2 and not _atom_nonneg(a):
                ok = False
                break
        if not ok:
            break
    if ok:
        return True
    ats = sorted(p.atoms(), key=lambda a: -a.id)
    # atoms that occur once, linearly, with a constant coefficient, and in no other atom's bounds: their extreme value decides, no search needed
    if len(ats) > 1:
        tied = set()
        for a in ats:
            for b in bounds_of(a):
                if b is not None and not b.is_const():
                    tied |= b.atoms()
        q = p
        for a in ats:
            if a in tied:
                continue
            ms = [m for m in p.t if any(x is a for x, _ in m)]
            if len(ms) != 1 or ms[0] != ((a, 1),):
                continue
            lo, hi = bounds_of(a)
            k = p.t[ms[0]]
            b = lo if k > 0 else hi
            if b is not None:
                q = q - const(k) * P(a) + const(k) * b
                if not b.is_const():
                    break
            elif b is None and not (a in NONNEG and k > 0):
                return False
        if q is not p:
            return nonneg(q, depth) if depth else _nonneg(q, 0) if not q.is_const() else q.const() >= 0
    # eliminate atoms with symbolic upper bounds first, then constant lower bounds
    for a in ats:
        lo, hi = bounds_of(a)
        if lo is None and hi is None:
            continue
        exps = {dict(m).get(a, 0) for m in p.t}
        if exps - {0, 1, 2}:
            continue
        c1 = Poly({tuple(x for x in m if x[0] is not a): c for m, c in p.t.items() if dict(m).get(a, 0) == 1})
        c2 = Poly({tuple(x for x in m if x[0] is not a): c for m, c in p.t.items() if dict(m).get(a, 0) == 2})
        c0 = Poly({m: c for m, c in p.t.items() if dict(m).get(a, 0) == 0})
        if not c2.t:
            if lo is not None and (lo.t or not lo.is_const() or True) and nonneg(c1, depth + 1):
                if nonneg(c0 + c1 * lo, depth + 1):
                    return True
            if hi is not None and nonneg(-c1, depth + 1):
                if nonneg(c0 + c1 * hi, depth + 1):
                    return True
        if lo is not None and lo.is_const() and hi is None and lo.const() != 0:
            t = fresh_shift(a)
            q = c0 + c1 * (lo + t) + c2 * (lo + t) * (lo + t)
            if nonneg(q, depth + 1):
                return True
        elif lo is not None and hi is not None and c2.t:
            # concave in a: check both endpoints
            if nonneg(-c2, depth + 1):
                e1 = c0 + c1 * lo + c2 * lo * lo
                e2 = c0 + c1 * hi + c2 * hi * hi
                if nonneg(e1, depth + 1) and nonneg(e2, depth + 1):
                    return True
    return False


_shifts = {}


def fresh_shift(a):
    s = _shifts.get(a)
    if s is None:
        s = atom("sym", f"shift#{a.id}")
        if a in INTS:
            INTS.add(s)
        BOUNDS[s] = (ZERO, None)
        _shifts[a] = s
    return P(s)


def _atom_nonneg(a):
    if a in NONNEG:
        return True
    lo, _ = bounds_of(a)
    return lo is not None and (lo.is_const() and lo.const() >= 0 or (not lo.is_const() and nonneg(lo, 3)))


def pos(p):
    if p.is_const():
        return p.const() > 0
    if is_int(p):
        return nonneg(p - 1)
    # sum of nonneg terms with a positive constant
    c = p.cterm()
    if c > 0 and nonneg(p - const(c)):
        return True
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(_atom_pos(a) for a, _ in m):
            return True
    return False


def _atom_pos(a):
    lo, _ = bounds_of(a)
    if lo is not None and lo.is_const() and lo.const() > 0:
        return True
    if a.kind == "pow":
        return pos(a.args[0])
    if a in POSITIVE:
        return True
    return False


POSITIVE = set()


# --------------------------------------------------------------- int div/mod
def _split_multiple(e, n):
    """e = n*q + r with q exact polynomial part"""
    if n.is_const():
        c = n.const()
        q, r = {}, {}
        for m, k in e.t.items():
            d = k / c
            if d.denominator == 1 and is_int(Poly({m: Fr(1)})):
                q[m] = d
            elif m == () and k.denominator == 1 and c.denominator == 1:
                qq, rr = divmod(int(k), int(c))
                if qq:
                    q[m] = Fr(qq)
                if rr:
                    r[m] = Fr(rr)
            elif k.denominator == 1 and c.denominator == 1 and is_int(Poly({m: Fr(1)})):
                qq, rr = divmod(int(k), int(c))
                if qq:
                    q[m] = Fr(qq)
                if rr:
                    r[m] = Fr(rr)
            else:
                r[m] = k
        return Poly(q), Poly(r)
    if len(n.t) == 1:
        (nm, nc), = n.t.items()
        nd = dict(nm)
        q, r = {}, {}
        for m, k in e.t.items():
            md = dict(m)
            if all(md.get(a, 0) >= x for a, x in nd.items()) and (k / nc).denominator == 1:
                for a, x in nd.items():
                    md[a] -= x
                q[tuple(sorted(((a, x) for a, x in md.items() if x), key=lambda z: z[0].id))] = k / nc
            else:
                r[m] = k
        return Poly(q), Poly(r)
    # multi-term divisor: polynomial long division on leading monomial
    q = ZERO
    r = e
    lead = _lead(n)
    ld = dict(lead)
    for _ in range(8):
        done = True
        for m in sorted(r.t, key=lambda m: -sum(x for _, x in m)):
            md = dict(m)
            if all(md.get(a, 0) >= x for a, x in ld.items()):
                for a, x in ld.items():
                    md[a] -= x
                k = r.t[m] / n.t[lead]
                if k.denominator != 1:
                    continue
                t = Poly({tuple(sorted(((a, x) for a, x in md.items() if x), key=lambda z: z[0].id)): k})
                q = q + t
                r = r - t * n
                done = False
                break
        if done:
            break
    return q, r


def fdiv(e, n):
    e, n = P(e), P(n)
    if n == ONE:
        return e if is_int(e) else P(atom("fn", "floor", e))
    if e.is_const() and n.is_const() and n.const() != 0:
        return const(e.const() // n.const())
    if not (is_int(e) and is_int(n)):
        return P(atom("fn", "floor", e / n))
    q, r = _split_multiple(e, n)
    if not r.t:
        return q
    if nonneg(r) and nonneg(n - 1 - r):
        return q
    # r = n*f(..) + mod: unwind mod/fdiv structure
    if (nonneg(r + n) and nonneg(-r - 1)):
        return q - 1
    a = atom("fdiv", r, n)
    if nonneg(r):
        NONNEG.add(a)
    # upper bound when r < n*m
    if a not in BOUNDS:
        hi = _fdiv_hi(r, n)
        BOUNDS[a] = (ZERO if nonneg(r) else None, hi)
    return q + P(a)


def _fdiv_hi(r, n):
    # replace atoms by upper bounds to get max(r), then fdiv if exact
    m = r
    for _ in range(6):
        ch = False
        for a in sorted(m.atoms(), key=lambda z: -z.id):
            lo, hi = bounds_of(a)
            c1 = Poly({tuple(x for x in mm if x[0] is not a): c for mm, c in m.t.items() if dict(mm).get(a, 0) == 1})
            if any(dict(mm).get(a, 0) not in (0, 1) for mm in m.t):
                continue
            if hi is not None and nonneg(c1, 3):
                m = subst(m, {a: hi}) if a.kind == "sym" else m
                ch = a.kind == "sym"
                if ch:
                    break
        if not ch:
            break
    q, rr = _split_multiple(m, n)
    if not rr.t:
        return q
    if nonneg(rr) and nonneg(n - 1 - rr):
        return q
    if nonneg(-rr - 1) and nonneg(rr + n):
        return q - 1
    return None


def mod(e, n):
    e, n = P(e), P(n)
    if e.is_const() and n.is_const() and n.const() != 0:
        return const(e.const() % n.const())
    if n == ONE and is_int(e):
        return ZERO
    if not (is_int(e) and is_int(n)):
        return P(atom("fn", "mod", e, n))
    q, r = _split_multiple(e, n)
    if not r.t:
        return ZERO
    if nonneg(r) and nonneg(n - 1 - r):
        return r
    if nonneg(-r - 1) and nonneg(r + n):
        return r + n
    return P(atom("mod", r, n))


def trunc(p):
    if p.is_const():
        return const(int(p.const()))
    if is_int(p):
        return p
    d = 1
    for c in p.t.values():
        d = d * c.denominator // math.gcd(d, c.denominator)
    if 1 < d <= 10 ** 6 and is_int(p * d) and nonneg(p):
        return fdiv(p * d, const(d))
    return P(atom("trunc", p))


# ------------------------------------------------------------------ binders
def mk_lam(v, body):
    l = body.lvl() + 1 if isinstance(body, (Poly,)) else body.lvl + 1
    return P(atom("lam", l, subst(body, {v: P(atom("bv", l))})))


def mk_sum(v, count, body):
    """sum_{v=0}^{count-1} body"""
    body = P(body)
    if not body.t:
        return ZERO
    if v not in body.free():
        return count * body
    if count.is_const() and count.const().denominator == 1 and 0 <= count.const() <= 8:
        r = ZERO
        for k in range(int(count.const())):
            r = r + subst(body, {v: const(k)})
        return r
    out = ZERO
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            (dep if v in a.free else ind).append((a, e))
        coef = Poly({tuple(ind): c})
        if not dep:
            out = out + coef * count
            continue
        dm = Poly({tuple(dep): Fr(1)})
        # split piecewise bodies at a threshold on v
        l = dm.lvl() + 1
        a = atom("sum", l, count, subst(dm, {v: P(atom("bv", l))}))
        if nonneg(dm):
            NONNEG.add(a)
        out = out + coef * P(a)
    return out


def mk_red(op, v, count, body):
    body = P(body)
    if v not in body.free():
        return body
    if count == ONE:
        return subst(body, {v: ZERO})
    # a positive constant factor can be pulled out
    l = body.lvl() + 1
    a = atom("red", l, op, count, subst(body, {v: P(atom("bv", l))}))
    if nonneg(body):
        NONNEG.add(a)
    return P(a)


def mk_argsort(v, count, body, k):
    l = body.lvl() + 1
    return P(atom("argsort", l, count, subst(body, {v: P(atom("bv", l))}), k))


def mk_fn(name, *args):
    if name == "floor" and is_int(args[0]):
        return args[0]
    if name in ("sin", "tan", "sinh", "tanh", "arctan", "arcsin", "erf") and args[0] == ZERO:
        return ZERO
    if name in ("cos", "exp", "cosh") and args[0] == ZERO:
        return ONE
    if name == "log" and args[0] == ONE:
        return ZERO
    if name in ("max", "min") and len(args) == 2 and args[0] == args[1]:
        return args[0]
    if name == "max" and len(args) == 2:
        if nonneg(args[0] - args[1]):
            return args[0]
        if nonneg(args[1] - args[0]):
            return args[1]
    if name == "min" and len(args) == 2:
        if nonneg(args[0] - args[1]):
            return args[1]
        if nonneg(args[1] - args[0]):
            return args[0]
    if name in ("max", "min"):
        args = tuple(sorted(args, key=repr))
    a = atom("fn", name, *args)
    if name in ("exp", "cosh"):
        NONNEG.add(a)
    return P(a)


# ------------------------------------------------------- orthogonal polynomials
def _binom_poly(al, k):
    r = Fr(1)
    for j in range(k):
        r = r * (Fr(al) - j) / (j + 1)
    return r


def jac(n, a, b, x, _expand=10):
    """Jacobi polynomial P_n^{(a,b)}(x) as a term"""
    a, b = P(a), P(b)
    if n.is_const() and a.is_const() and b.is_const():
        k = n.const()
        if k.denominator != 1 or k < 0:
            return P(atom("bad", f"Jacobi polynomial of invalid degree {k}"))
        k = int(k)
        if k <= _expand or x.is_const():
            aa, bb = a.const(), b.const()
            r = ZERO
            xm = (x - 1) * Fr(1, 2)
            xp = (x + 1) * Fr(1, 2)
            for s in range(k + 1):
                c = _binom_poly(k + aa, k - s) * _binom_poly(k + bb, s)
                r = r + const(c) * ipow(xm, s) * ipow(xp, k - s)
            return r
    if x == const(-1):
        return power(const(-1), n) * jac(n, b, a, ONE)
    if x == ONE and a == ZERO:
        return ONE
    # canonical parity: P_n^{(a,b)}(-y) = (-1)^n P_n^{(b,a)}(y) for a leading-negative argument
    if x.t and not x.is_const():
        lc = x.t[_lead(x)]
        if lc < 0:
            return power(const(-1), n) * jac(n, b, a, -x)
    return P(atom("J", n, a, b, x))


def djac(n, a, b, x, k):
    """k-th derivative of P_n^{(a,b)} at x"""
    a, b = P(a), P(b)
    if k == 0:
        return jac(n, a, b, x)
    if n.is_const() and n.const() < k and n.const() >= 0:
        return ZERO
    c = ONE
    for j in range(k):
        c = c * (n + a + b + 1 + j) * Fr(1, 2)
    if not nonneg(n - k):
        # degree may be below k: guarded form
        lowcase = ZERO
        return ite(clt(n - k), lowcase, c * jac(n - k, a + k, b + k, x))
    return c * jac(n - k, a + k, b + k, x)


def diff(p, v):
    """partial derivative of Poly p with respect to symbol atom v"""
    out = ZERO
    for m, c in p.t.items():
        for idx, (a, e) in enumerate(m):
            if v not in a.free:
                continue
            rest = list(m)
            rest.pop(idx)
            base = Poly({tuple(rest): c})
            if e != 1:
                base = base * const(e) * ipow(P(a), e - 1)
            out = out + base * _diff_atom(a, v)
    return out


def _diff_atom(a, v):
    if a is v:
        return ONE
    k = a.kind
    if k == "J":
        n, al, be, x = a.args
        if v in n.free() or v in al.free() or v in be.free():
            return P(atom("unk", "derivative in the degree"))
        return djac(n, al, be, x, 1) * diff(x, v)
    if k == "par":
        return diff(a.args[0], v)
    if k == "sqrt":
        return diff(a.args[0], v) * inv(P(a) * 2)
    if k == "ite":
        return ite(a.args[0], diff(a.args[1], v), diff(a.args[2], v))
    if k == "abs":
        return diff(a.args[0], v) * P(a) * inv(a.args[0])
    if k == "sum":
        w = fresh("s", ZERO, a.args[1] - 1)
        body = subst(a.args[2], {atom("bv", a.args[0]): P(w)})
        return mk_sum(w, a.args[1], diff(body, v))
    if k == "fn":
        x = a.args[1] if len(a.args) > 1 else None
        nm = a.args[0]
        tab = {"sin": lambda: mk_fn("cos", x), "cos": lambda: -mk_fn("sin", x), "exp": lambda: P(a)}
        if nm in tab:
            return tab[nm]() * diff(x, v)
    return P(atom("unk", f"derivative of {k}"))


# ---------------------------------------------------------------- equality
def _find_ite(x):
    """some condition of an ite atom occurring in Poly x (innermost-first), or None"""
    for m in x.t:
        for a, _ in m:
            if "ite" in a.flags:
                c = _find_ite_atom(a)
                if c is not None:
                    return c
    return None


def _find_ite_atom(a):
    if a.kind == "ite":
        c = a.args[0]
        while c.op in ("and", "or", "not"):
            c = c.args[0]
        return c
    if a.kind in ("sum", "red", "argsort", "lam"):
        body = a.args[-1] if a.kind in ("sum", "red", "lam") else a.args[2]
        for z in a.args:
            if isinstance(z, Poly) and "ite" in z.flags():
                c = _find_ite(z)
                if c is not None and not any(f.kind == "bv" for f in c.free):
                    return c
        return None
    for z in a.args:
        c = None
        if isinstance(z, Poly) and "ite" in z.flags():
            c = _find_ite(z)
        elif isinstance(z, tuple):
            for y in z:
                if isinstance(y, Poly) and "ite" in y.flags():
                    c = _find_ite(y)
                    if c is not None:
                        break
        if c is not None:
            return c
    return None


def clear_denominators(p):
    for _ in range(20):
        den = {}
        for m in p.t:
            for a, e in m:
                if a.kind == "par" and e < 0:
                    den[a] = min(den.get(a, 0), e)
        if not den:
            break
        # multiply the whole by each denominator
        a, e = next(iter(den.items()))
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            k = d.pop(a, 0)
            r = Poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
            out = out + r * ipow(a.args[0], k - e)
            if len(out.t) > 12000:
                return None  # too large to expand: left to the other decision steps
        p = out
    return p


def infeasible(facts):
    """cheap consistency test of a conjunction of (Cond,bool)"""
    les = []
    for c, v in facts:
        x = c if v else cnot(c)
        if x is False:
            return True
        if isinstance(x, Cond) and x.op == "le":
            les.append(x.args[0])
        if isinstance(x, Cond) and x.op == "eq":
            les.append(x.args[0])
            les.append(-x.args[0])
        if isinstance(x, Cond) and x.op == "not" and x.args[0].op == "eq":
            z = x.args[0].args[0]
            if is_int(z):  # z != 0 and one-sided by its bounds: off by at least one
                if nonneg(z):
                    les.append(1 - z)
                elif nonneg(-z):
                    les.append(1 + z)
    for x in les:
        if nonneg(x - 1) if is_int(x) else pos(x):
            return True
    for i in range(len(les)):
        for j in range(i):
            s = les[i] + les[j]  # both <= 0, so sum <= 0
            if is_int(s):
                if nonneg(s - 1):
                    return True
            elif pos(s):
                return True
    return False


def is_zero(p, facts=(), depth=0):
    """True / False / None(undecided).  False means the normal form is a non-trivial
    polynomial over independent atoms."""
    p = P(p)
    if not p.t:
        return True
    if "ite" in p.flags() and depth < 14:
        c = _find_ite(p)
        if c is not None:
            res = []
            for v in (True, False):
                nf = facts + ((c, v),)
                if infeasible(nf):
                    continue
                q = p
                if v and c.op == "eq":
                    s = eq_subst(c.args[0])
                    if s and s[0] in q.free():
                        q = subst(q, {s[0]: s[1]})
                q = _assume(q, {c: v, **({cnot(c): (not v)} if isinstance(cnot(c), Cond) else {})})
                if q == p:
                    res.append(None)
                    continue
                r = is_zero(q, nf, depth + 1)
                res.append(r)
            if all(r is True for r in res):
                return True
            if any(r is False for r in res):
                return False
            return None
    q = clear_denominators(p)
    if q is None:
        return None
    if not q.t:
        return True
    q = _merge_divmod(q)
    if not q.t:
        return True
    if "unk" in q.flags():
        return None
    if "phi" in q.flags():
        return None
    if "J" in q.flags():
        r = _inst_check(q)
        return r
    return False


def _merge_divmod(p):
    """rewrite mod(e,n) = e - n*fdiv(e,n) when both occur"""
    mods = [a for a in p.atoms() if a.kind == "mod"]
    for a in mods:
        e, n = a.args
        f = atom("fdiv", e, n)
        p = rebuild_poly(p, lambda z, a=a, e=e, n=n, f=f: (e - n * P(f)) if z is a else P(z))
    return p


def _collect_atoms(x, kind, out):
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                _collect_atoms(a, kind, out)
    elif isinstance(x, Atom):
        if x.kind == kind:
            out.add(x)
        for z in x.args:
            _collect_atoms(z, kind, out)
    elif isinstance(x, Cond):
        for z in x.args:
            _collect_atoms(z, kind, out)
    elif isinstance(x, tuple):
        for z in x:
            _collect_atoms(z, kind, out)


def collect_atoms(x, kind):
    s = set()
    _collect_atoms(x, kind, s)
    return s


def _inst_check(q):
    """Jacobi atoms of symbolic degree satisfy identities the normal form does not know
    (recurrences); refute only with an explicit degree at which exact expansion differs."""
    js = collect_atoms(q, "J")
    degs = set()
    for j in js:
        degs |= {f for f in j.args[0].free()}
    if not degs:
        return False
    degs = sorted(degs, key=lambda a: a.id)
    if len(degs) > 2:
        return None
    worst = True
    for combo in itertools.product(range(0, 6), repeat=len(degs)):
        mp = {}
        ok = True
        for a, off in zip(degs, combo):
            lo, hi = bounds_of(a)
            base = int(lo.const()) if lo is not None and lo.is_const() else 0
            v = base + off
            mp[a] = const(v)
        r = subst(q, mp)
        r = clear_denominators(r)
        if r is None:
            return None
        if "bad" in {a.kind for a in r.atoms()}:
            return False
        if not r.t:
            continue
        if collect_atoms(r, "J"):
            worst = None
            continue
        if "unk" in r.flags():
            worst = None
            continue
        if "ite" in r.flags():
            if is_zero(r) is not True:
                return False
            continue
        return False
    return worst


# ---------------------------------------------------------------- printing
def fmt_atom(a):
    k = a.kind
    if k == "sym":
        return str(a.args[0])
    if k == "bv":
        return f"${a.args[0]}"
    if k == "sum":
        return f"SUM[${a.args[0]}<{a.args[1]}]({a.args[2]})"
    if k == "ite":
        return f"({a.args[0]} ? {a.args[1]} : {a.args[2]})"
    if k == "par":
        return f"[{a.args[0]}]"
    if k == "app":
        return f"{a.args[0]}({', '.join(map(str, a.args[1:]))})"
    if k == "unk":
        return f"?{a.args[0]}?"
    return f"{k}({', '.join(map(str, a.args))})"


def fmt(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda z: tuple((a.id, e) for a, e in z[0])):
        s = "*".join(fmt_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        out.append(s)
    r = " + ".join(out).replace("+ -", "- ")
    return r


def fmt_cond(c):
    if c.op in ("le", "lt", "eq"):
        return f"{c.args[0]}{ {'le': '<=', 'lt': '<', 'eq': '=='}[c.op]}0"
    if c.op == "not":
        return f"not({c.args[0]})"
    if c.op in ("and", "or"):
        return "(" + f" {c.op} ".join(map(str, c.args)) + ")"
    return f"{c.op}{c.args}"


_prop_memo = {}


def _leaves(c, out):
    if c.op in ("and", "or", "not"):
        for x in c.args:
            if isinstance(x, Cond):
                _leaves(x, out)
    else:
        out.add(c)


def _prop_eval(c, env):
    if c is True or c is False:
        return c
    if c.op == "and":
        return all(_prop_eval(x, env) for x in c.args)
    if c.op == "or":
        return any(_prop_eval(x, env) for x in c.args)
    if c.op == "not":
        return not _prop_eval(c.args[0], env)
    return env[c]


def prop_decide(c, pcs):
    """True/False when the conditions pcs imply c (or its negation) by propositional reasoning over shared parts; else c.
    The parts themselves (comparisons, opaque tests) are treated as independent."""
    pcs = [p for p in pcs if isinstance(p, Cond)]
    if not (c.op in ("and", "or") or any(p.op in ("or", "and") or p.op == "not" and isinstance(p.args[0], Cond) and p.args[0].op in ("and", "or") for p in pcs)):
        return c
    key = (c, tuple(pcs))
    if key in _prop_memo:
        return _prop_memo[key]
    want = set()
    _leaves(c, want)
    lv = [set() for _ in pcs]
    for p, l in zip(pcs, lv):
        _leaves(p, l)
    used, grew = [], True
    rest = list(range(len(pcs)))
    while grew:
        grew = False
        for i in list(rest):
            if lv[i] & want:
                want |= lv[i]
                used.append(pcs[i])
                rest.remove(i)
                grew = True
    r = c
    if used and len(want) <= 7:
        names = sorted(want, key=lambda x: x._h)
        seen = set()
        for m in range(1 << len(names)):
            env = {x: bool(m >> i & 1) for i, x in enumerate(names)}
            if all(_prop_eval(p, env) for p in used):
                seen.add(_prop_eval(c, env))
                if len(seen) == 2:
                    break
        if len(seen) == 1:
            r = seen.pop()
    _prop_memo[key] = r
    return r
