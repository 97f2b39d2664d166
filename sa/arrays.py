"""Array algebra of the value-graph analysis: indexing, broadcasting, reshaping, products,
reductions over symbolic shapes."""
from .values import *
from . import terms as T


def deq(a, b):
    """dimensions provably equal"""
    if a == b:
        return True
    return is_zero(a - b) is True


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


FLOATS = ("float64", "float32", "float16")
RANK = {"bool": 0, "int8": 1, "uint8": 1, "int32": 2, "uint32": 2, "int64": 3, "uint64": 3, "float16": 4, "float32": 5, "float64": 6, "complex128": 7}


def promote(a, b):
    if a == b:
        return a
    if a in RANK and b in RANK:
        if {a, b} == {"float32", "int64"} or {a, b} == {"float32", "int32"}:
            return "float64"
        return a if RANK[a] >= RANK[b] else b
    if a == "object" or b == "object":
        return "object"
    return "?"


def bcast_shapes(shapes):
    """-> (shape, mismatches[(d1,d2)])"""
    nd = max(len(s) for s in shapes)
    out, bad = [], []
    for k in range(nd):
        d = ONE
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if x == ONE:
                continue
            if d == ONE:
                d = x
            elif not deq(d, x):
                bad.append((d, x))
        out.append(d)
    return tuple(out), bad


def bidx(idx, shape, out_shape):
    """index of an operand of `shape` for output index idx"""
    off = len(idx) - len(shape)
    return tuple(ZERO if (shape[k] == ONE and out_shape[k + off] != ONE) else idx[k + off] for k in range(len(shape)))


class ArrOps:
    def __init__(self, interp):
        self.I = interp
        self.assumptions = set()

    # ------------------------------------------------------------ indexing
    def norm_index(self, e, dim):
        if e.is_const():
            if e.const() < 0:
                return dim + e
            return e
        if not nonneg(e) and nonneg(-e - 1):
            return dim + e
        return e

    def norm_slice(self, s, dim):
        """-> (start, length, step) ; None when unsupported"""
        step = s.step
        if step is None:
            step = ONE
        if not isinstance(step, Poly) or not (step.is_const() or pos(step)):
            return None
        lo, hi = s.lo, s.hi
        k = step.const() if step.is_const() else 2
        if k < 0:
            if lo is None and hi is None:
                if k == -1:
                    return (dim - 1, dim, step)
                return (dim - 1, fdiv(dim + (-k - 1), const(-k)), step)
            return None
        if lo is None:
            lo = ZERO
        if not isinstance(lo, Poly) or not (hi is None or isinstance(hi, Poly)):
            return None
        lo = self.clamp(self.norm_index(lo, dim), dim, is_lo=True)
        hi = dim if hi is None else self.clamp(self.norm_index(hi, dim), dim)
        n = hi - lo
        if n.is_const() and n.const() < 0:
            n = ZERO
        if k != 1:
            n = fdiv(n + (step - 1), step)
        return (lo, n, step)

    def clamp(self, e, dim, is_lo=False):
        d = dim - e
        if nonneg(d):
            return e
        if nonneg(-d):
            return dim
        if e.is_const() and not is_lo:
            return mk_fn("min", e, dim)
        self.assumptions.add(f"slice bound {e} is within the axis length {dim}")
        return e

    def parse_spec(self, shape, k, st, n):
        """key value -> resolved spec tuple or None"""
        ks = list(k.items) if isinstance(k, TupleV) else [k]
        # expand ellipsis
        cnt = 0
        for x in ks:
            if x is ELL or x is None:
                continue
            a = self.maybe_arr(x, st)
            if a is not None and a.dt == "bool":
                cnt += a.ndim
            else:
                cnt += 1
        out = []
        if ELL in ks:
            p = ks.index(ELL)
            ks = ks[:p] + [SliceV(None, None, None)] * (len(shape) - cnt) + ks[p + 1:]
        else:
            ks = ks + [SliceV(None, None, None)] * (len(shape) - cnt)
        ax = 0
        for x in ks:
            if x is None:
                out.append(("new",))
                continue
            if ax >= len(shape):
                self.I.raise_(st, "IndexError", n, "too many indices for array")
                return None
            dim = shape[ax]
            if isinstance(x, Poly):
                e = self.norm_index(x, dim)
                if nonneg(e - dim) or nonneg(-e - 1):
                    if not (dim - 1 - e).flags() & {"unk"} and (e.is_const() and dim.is_const() or pos(dim) or nonneg(dim)):
                        self.I.raise_(st, "IndexError", n, f"index {x} is out of bounds for axis {ax} with size {dim}")
                        return None
                out.append(("pt", e))
                ax += 1
            elif isinstance(x, SliceV):
                s = self.norm_slice(x, dim)
                if s is None:
                    return None
                out.append(("sl",) + s)
                ax += 1
            else:
                a = self.maybe_arr(x, st)
                if a is None:
                    return None
                if a.dt == "bool":
                    return ("mask", a, ax) if len(ks) == 1 or True else None
                if a.ndim == 0:
                    out.append(("pt", self.norm_index(P(a.at()), dim)))
                else:
                    out.append(("fancy", a))
                ax += 1
        return tuple(out)

    def maybe_arr(self, x, st):
        if isinstance(x, Arr):
            return x
        if isinstance(x, Ref):
            c = st.heap.get(x.id)
            if isinstance(c, (Arr, ViewC)):
                return self.I.deref(st, x)
            if isinstance(c, ListC):
                return self.I.lib.to_arr(x, st, None)
        if isinstance(x, TupleV):
            return self.I.lib.to_arr(x, st, None)
        if isinstance(x, (OpaqueSeq,)):
            return self.I.lib.to_arr(x, st, None)
        return None

    def index_arr(self, base, spec):
        if spec and spec[0] == "mask":
            return self.mask(base, spec[1], spec[2])
        fancy = [s for s in spec if s[0] == "fancy"]
        shape = []
        fshape, fpos = None, None
        if fancy:
            fshape, _ = bcast_shapes([s[1].shape for s in fancy])
            # position: if all advanced indices (ints count too) adjacent -> in place, else front
            adv = [k for k, s in enumerate(spec) if s[0] in ("fancy", "pt")]
            adj = adv == list(range(adv[0], adv[-1] + 1))
            fpos = None if adj else 0
        plan = []
        if fancy and fpos == 0:
            shape += list(fshape)
            base_off = len(fshape)
        else:
            base_off = 0
        placed = fancy and fpos == 0
        fstart = 0
        for s in spec:
            if s[0] == "pt":
                if fancy and fpos is None and not placed:
                    fstart = len(shape)
                    shape += list(fshape)
                    placed = True
                plan.append(("c", s[1]))
            elif s[0] == "sl":
                plan.append(("s", s[1], s[3], len(shape)))
                shape.append(s[2])
            elif s[0] == "new":
                shape.append(ONE)
            else:
                if not placed:
                    fstart = len(shape)
                    shape += list(fshape)
                    placed = True
                plan.append(("f", s[1]))
        nf = len(fshape) if fancy else 0
        dims = base.shape

        def fn(idx):
            bi = []
            fi = idx[fstart:fstart + nf]
            for k, p in enumerate(plan):
                if p[0] == "c":
                    bi.append(p[1])
                elif p[0] == "s":
                    bi.append(p[1] + idx[p[3]] * p[2])
                else:
                    e = P(p[1].at(*bidx(fi, p[1].shape, fshape)))
                    bi.append(self.norm_index(e, dims[k]))
            return base.at(*bi)
        return Arr(shape, fn, base.dt, base.lib, base.rec, base.dep, base.t0, self.slice_extra(base, spec))

    def slice_extra(self, base, spec):
        return {}

    def mask(self, base, m, ax):
        """boolean selection: the k-th selected element (opaque ordering-preserving selector)"""
        l = atom("lam", 0, ZERO)
        vs = [fresh("m", ZERO, d - 1) for d in m.shape]
        body = m.at(*[P(v) for v in vs])
        if body is True:
            return base
        key = selkey(body, vs, m.shape)
        cnt = P(atom("selcount", key))
        INTS.add(cnt.single_atom())
        NONNEG.add(cnt.single_atom())
        shape = base.shape[:ax] + (cnt,) + base.shape[ax + m.ndim:]

        def fn(idx):
            k = idx[ax]
            sel = []
            for d in range(m.ndim):
                a = atom("sel", key, const(d), k)
                INTS.add(a)
                BOUNDS[a] = (ZERO, m.shape[d] - 1)
                sel.append(P(a))
            return base.at(*(idx[:ax] + tuple(sel) + idx[ax + 1:]))
        return Arr(shape, fn, base.dt, base.lib, base.rec, base.dep, base.t0)

    def where_idx(self, m):
        """np.where(cond) single-argument"""
        ident = [Arr(m.shape, (lambda d: lambda idx: idx[d])(d), "int64") for d in range(m.ndim)]
        return [self.mask(x, m, 0) for x in ident]

    def set_arr(self, base, spec, rhs):
        """functional update base[spec] = rhs (rhs: Arr or scalar)"""
        if spec and spec[0] == "mask":
            m, ax = spec[1], spec[2]
            if isinstance(rhs, Arr) and rhs.ndim and not all(s == ONE for s in rhs.shape):
                return Arr(base.shape, lambda idx: P(atom("unk", "masked array store")), base.dt, base.lib)
            val = rhs if not isinstance(rhs, Arr) else rhs.at(*[ZERO] * rhs.ndim)

            def fn(idx):
                c = m.at(*idx[ax:ax + m.ndim])
                if not isinstance(c, (bool, Cond)):
                    c = cnot(ceq(P(c)))
                return ite_any(c, val, base.at(*idx))
            return Arr(base.shape, fn, base.dt, base.lib)
        if any(s[0] == "fancy" for s in spec):
            return self.set_fancy(base, spec, rhs)
        region = []
        outax = []  # axis in rhs-space for each sliced base axis
        shape = []
        for s in spec:
            if s[0] == "pt":
                region.append(("pt", s[1]))
                outax.append(None)
            elif s[0] == "new":
                shape.append(ONE)
            else:
                if s[3] == ONE:
                    region.append(("sl", s[1], s[2]))
                    outax.append((len(shape), None))
                elif s[3] == const(-1):
                    region.append(("sl", s[1] - s[2] + 1, s[2]))
                    outax.append((len(shape), ("rev", s[2])))
                else:
                    region.append(("st", s[1], s[2], s[3]))
                    outax.append((len(shape), ("step", s[3])))
                shape.append(s[2])

        def val(idx):
            if not isinstance(rhs, Arr):
                return rhs
            loc = [ZERO] * len(shape)
            for k, r in enumerate(region):
                if outax[k] is None:
                    continue
                a, tr = outax[k]
                e = idx[k] - r[1]
                if tr is not None and tr[0] == "rev":
                    e = tr[1] - 1 - e
                elif tr is not None:
                    e = fdiv(e, tr[1])
                loc[a] = e
            # leading unit axes of rhs may exceed the target rank
            if rhs.ndim > len(shape):
                extra = rhs.ndim - len(shape)
                return rhs.at(*([ZERO] * extra + loc))
            return rhs.at(*bidx(tuple(loc), rhs.shape, tuple(shape)))
        # drop a fully covered update of the same region below
        b = base
        while isinstance(b, UpdArr) and all(r == q for r, q in zip(b.region, region)):
            b = b.base
        return UpdArr(b, tuple(region), val)

    def set_fancy(self, base, spec, rhs):
        """permutation-like integer-array store: only identity-shaped index arrays are inverted"""
        return Arr(base.shape, lambda idx: P(atom("unk", "integer-array store")), base.dt, base.lib)

    # ------------------------------------------------------------ shaping
    def reshape(self, a, shape):
        shape = tuple(shape)
        old = a.shape
        so = [d for d in old if d != ONE]
        sn = [d for d in shape if d != ONE]
        if len(so) == len(sn) and all(deq(x, y) for x, y in zip(so, sn)):
            opos = [k for k, d in enumerate(old) if d != ONE]
            npos = [k for k, d in enumerate(shape) if d != ONE]

            def fn(idx):
                bi = [ZERO] * len(old)
                for o, nw in zip(opos, npos):
                    bi[o] = idx[nw]
                return a.at(*bi)
            return Arr(shape, fn, a.dt, a.lib, a.rec, a.dep, a.t0)
        # strip a common leading / trailing block
        def fn(idx):
            flat = ZERO
            for i, d in zip(idx, shape):
                flat = flat * d + i
            bi = []
            rest = flat
            tail = [ONE]
            for d in reversed(old[1:]):
                tail.append(tail[-1] * d)
            tail = list(reversed(tail))
            for k, d in enumerate(old):
                if k == len(old) - 1:
                    bi.append(rest)
                else:
                    bi.append(fdiv(rest, tail[k]))
                    rest = mod(rest, tail[k])
            return a.at(*bi)
        return Arr(shape, fn, a.dt, a.lib, a.rec, a.dep, a.t0)

    def resolve_shape(self, total, dims):
        """dims list of Poly with at most one -1"""
        neg = [k for k, d in enumerate(dims) if d == const(-1)]
        if len(neg) == 1:
            known = prod([d for k, d in enumerate(dims) if k not in neg])
            q, r = T._split_multiple(total, known) if known != ONE else (total, ZERO)
            if not r.t:
                dims[neg[0]] = q
            else:
                dims[neg[0]] = fdiv(total, known)
        return dims

    def transpose(self, a, axes=None):
        nd = a.ndim
        if axes is None:
            axes = list(range(nd))[::-1]
        shape = [a.shape[k] for k in axes]

        def fn(idx):
            bi = [None] * nd
            for o, k in enumerate(axes):
                bi[k] = idx[o]
            return a.at(*bi)
        return Arr(shape, fn, a.dt, a.lib, a.rec, a.dep, a.t0)

    def concat(self, arrs, axis):
        nd = arrs[0].ndim
        if axis < 0:
            axis += nd
        total = ZERO
        offs = []
        for x in arrs:
            offs.append(total)
            total = total + x.shape[axis]
        shape = list(arrs[0].shape)
        for x in arrs[1:]:
            for k in range(nd):
                if shape[k] == ONE and k != axis:
                    shape[k] = x.shape[k]
        shape[axis] = total

        def fn(idx):
            e = idx[axis]
            res = None
            for k in range(len(arrs) - 1, -1, -1):
                x = arrs[k]
                li = idx[:axis] + (e - offs[k],) + idx[axis + 1:]
                if res is None:
                    # avoid evaluating an operand outside of its range when decided
                    if k > 0:
                        c = clt(e - offs[k])
                        if c is True:
                            continue
                    res = x.at(*li)
                    if k > 0 and c is False:
                        return res
                else:
                    c = cle(offs[k + 1] - e)
                    if c is True:
                        return res
                    if c is False:
                        if k == 0 or clt(e - offs[k]) is False:
                            return x.at(*li)
                        res = x.at(*li)
                    else:
                        res = ite_any(c, res, x.at(*li))
            return res
        dt = arrs[0].dt
        for x in arrs[1:]:
            dt = promote(dt, x.dt)
        return Arr(shape, fn, dt, arrs[0].lib)

    def stack(self, arrs, axis):
        nd = arrs[0].ndim + 1
        if axis < 0:
            axis += nd
        shape = list(arrs[0].shape)
        shape.insert(axis, const(len(arrs)))

        def fn(idx):
            e = idx[axis]
            rest = idx[:axis] + idx[axis + 1:]
            if e.is_const():
                k = int(e.const())
                return arrs[k].at(*rest)
            res = arrs[-1].at(*rest)
            for k in range(len(arrs) - 2, -1, -1):
                res = ite_any(ceq(e - k), arrs[k].at(*rest), res)
            return res
        dt = arrs[0].dt
        for x in arrs[1:]:
            dt = promote(dt, x.dt)
        return Arr(shape, fn, dt, arrs[0].lib)

    # ------------------------------------------------------------ products / reductions
    def einsum(self, spec, arrs, st, n):
        spec = spec.replace(" ", "")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            letters = [c for c in ins if c.isalpha()]
            out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        ops = ins.split(",")
        if "." in spec or len(ops) != len(arrs):
            return None
        dims = {}
        for o, a in zip(ops, arrs):
            if len(o) != a.ndim:
                return None
            for c, d in zip(o, a.shape):
                if c in dims and dims[c] != ONE and d != ONE and not deq(dims[c], d):
                    self.I.lib.shape_mismatch(dims[c], d, st, n)
                if c not in dims or dims[c] == ONE:
                    dims[c] = d
        summed = [c for c in dims if c not in out]

        def fn(idx):
            m = {c: i for c, i in zip(out, idx)}
            vs = {}
            for c in summed:
                v = fresh("e", ZERO, dims[c] - 1)
                vs[c] = v
                m[c] = P(v)
            r = ONE
            for o, a in zip(ops, arrs):
                r = r * P(a.at(*[ZERO if a.shape[k] == ONE else m[c] for k, c in enumerate(o)]))
            for c in reversed(summed):
                r = mk_sum(vs[c], dims[c], r)
            return r
        dt = arrs[0].dt
        for x in arrs[1:]:
            dt = promote(dt, x.dt)
        return Arr([dims[c] for c in out], fn, dt, arrs[0].lib)

    def matmul(self, a, b, st, n):
        L = "ijklmnop"
        if a.ndim == 1 and b.ndim == 1:
            return self.einsum("i,i->", [a, b], st, n)
        if a.ndim == 2 and b.ndim == 1:
            return self.einsum("ij,j->i", [a, b], st, n)
        if a.ndim == 1 and b.ndim == 2:
            return self.einsum("i,ij->j", [a, b], st, n)
        if a.ndim == 2 and b.ndim == 2:
            return self.einsum("ij,jk->ik", [a, b], st, n)
        if a.ndim == 3 and b.ndim == 3:
            return self.einsum("bij,bjk->bik", [a, b], st, n)
        if a.ndim == 3 and b.ndim == 2:
            return self.einsum("bij,jk->bik", [a, b], st, n)
        if a.ndim == 2 and b.ndim == 3:
            return self.einsum("ij,bjk->bik", [a, b], st, n)
        if a.ndim == 3 and b.ndim == 1:
            return self.einsum("bij,j->bi", [a, b], st, n)
        return None

    def reduce(self, a, op, axes, keep):
        nd = a.ndim
        if axes is None:
            axes = list(range(nd))
        axes = [x % nd for x in axes]
        shape = []
        for k, d in enumerate(a.shape):
            if k in axes:
                if keep:
                    shape.append(ONE)
            else:
                shape.append(d)

        def fn(idx):
            vs = {}
            bi = []
            p = 0
            for k in range(nd):
                if k in axes:
                    if a.shape[k] == ONE:
                        bi.append(ZERO)
                    else:
                        v = fresh("r", ZERO, a.shape[k] - 1)
                        vs[k] = v
                        bi.append(P(v))
                    if keep:
                        p += 1
                else:
                    bi.append(idx[p])
                    p += 1
            r = a.at(*bi)
            if op in ("any", "all"):
                if not vs:
                    return r
                return catom(op, *[x for k in vs for x in (a.shape[k],)], T.P(0) if isinstance(r, bool) else lamcond(r, list(vs.values())))
            if isinstance(r, (bool, Cond)):
                r = ite(r, ONE, ZERO) if not isinstance(r, bool) else const(int(r))
            if op in ("sum", "mean"):
                for k in sorted(vs, reverse=True):
                    r = mk_sum(vs[k], a.shape[k], r)
                if op == "mean":
                    r = r * inv(prod([a.shape[k] for k in vs])) if vs else r
                return r
            if op in ("max", "min"):
                for k in sorted(vs, reverse=True):
                    r = mk_red(op, vs[k], a.shape[k], r)
                return r
            return P(atom("unk", f"reduction {op}"))
        return Arr(shape, fn, a.dt if op != "mean" or a.dt in FLOATS or not isinstance(a.dt, str) else "float64", a.lib)


def lamcond(c, vs):
    mp = {}
    l = c.lvl if isinstance(c, Cond) else 0
    for k, v in enumerate(vs):
        mp[v] = P(atom("bv", l + 1 + k))
    return P(atom("lamc", l + len(vs), len(vs), subst(c, mp)))


def _re_lamc(l, nv, c):
    if not isinstance(c, Cond):
        return P(atom("lamc", l, nv, c))
    vs = [fresh("s") for _ in range(nv)]
    c = subst(c, {atom("bv", l - nv + 1 + k): P(v) for k, v in enumerate(vs)})
    return lamcond(c, vs)


T.REBUILD["lamc"] = _re_lamc


def selkey(c, vs, shape):
    """canonical closed term describing 'positions where c holds'"""
    if isinstance(c, Poly):
        c = cnot(ceq(c))
    return P(atom("selkey", tuple(shape), lamcond(c, vs)))
