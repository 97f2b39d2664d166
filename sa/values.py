"""Abstract values of the value-graph analysis."""
from .terms import *
from . import terms as T
import itertools


class AnalysisGap(Exception):
    """a construct the analysis does not model was reached (never a silent pass)"""


_ids = itertools.count(1)


def new_id():
    return next(_ids)


def peek_id():
    global _ids
    n = next(_ids)
    _ids = itertools.chain([n], _ids)
    return n


class V:
    pass


class Missing(V):
    def __repr__(self):
        return "<missing>"


MISSING = Missing()


class Unknown(V):
    def __init__(self, why, dep=()):
        self.why = why

    def __repr__(self):
        return f"<unknown: {self.why}>"


class PhiV(V):
    """value carried around a loop back edge that has no algebraic summary"""

    def __init__(self, name, pre=None):
        self.name = name
        self.pre = pre


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return f"@{self.id}"


class TupleV(V):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})"


class NTupleV(TupleV):
    """named tuple"""

    def __init__(self, cls, names, items):
        TupleV.__init__(self, items)
        self.cls, self.names = cls, list(names)


class EnumMember(V):
    def __init__(self, cls, mname, value):
        self.cls, self.mname, self.value = cls, mname, value

    def __repr__(self):
        return f"{self.cls.name}.{self.mname}"


class StrV(V):
    """symbolic string: tuple of literal str and opaque parts (hashable keys)"""

    def __init__(self, parts, path=False):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)
        self.path = path

    def concrete(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __eq__(self, o):
        return isinstance(o, StrV) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "str" + repr(self.parts)


class Arr(V):
    """immutable array value: shape (Poly dims) + element function idx->scalar"""
    _memo_cap = 20000

    def __init__(self, shape, fn, dt="f8", lib="np", rec=None, dep=False, t0=None, extra=None):
        self.shape = tuple(P(s) for s in shape)
        self._fn = fn
        self.dt = dt
        self.lib = lib
        self.rec = rec  # tapes that recorded every variable-dependent op (None: no dependency)
        self.dep = dep
        self.t0 = t0
        self.extra = extra or {}
        self._memo = {}

    def at(self, *idx):
        idx = tuple(P(i) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        r = self._memo.get(idx)
        if r is None:
            r = self._fn(idx)
            if len(self._memo) < self._memo_cap:
                self._memo[idx] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"<Arr {self.lib} {self.dt} {self.shape}>"


class OpaqueV(V):
    """an input of the analysed entry point (or a value derived from one): unknown but fixed"""

    def __init__(self, key, typ=None, attrs=None, methods=None):
        self.key = key
        self.typ = typ
        self.attrs = attrs or {}
        self.methods = methods or {}

    def __eq__(self, o):
        return isinstance(o, OpaqueV) and o.key == self.key

    def __hash__(self):
        return hash(("opq", self.key))

    def __repr__(self):
        return f"<{keystr(self.key)}>"


def keystr(k):
    if isinstance(k, tuple) and k:
        if k[0] == "attr":
            return f"{keystr(k[1])}.{k[2]}"
        if k[0] == "get":
            return f"{keystr(k[1])}[{keystr(k[2])}]"
        if k[0] == "call":
            return f"{keystr(k[1])}({', '.join(keystr(x) for x in k[2:])})"
        return "(" + ",".join(keystr(x) for x in k) + ")"
    return str(k)


class OpaqueDict(OpaqueV):
    """an input mapping with unknown keys; value_of(keyPoly)->value"""

    def __init__(self, name, value_of, key_is_str=False, nonempty=False):
        super().__init__(name, "dict")
        self.value_of = value_of
        self.name = name


class OpaqueSeq(OpaqueV):
    """an input sequence; elem(idx)->value"""

    def __init__(self, name, length, elem):
        super().__init__(name, "seq")
        self.length = length
        self.elem = elem


class UserFn(V):
    """caller supplied function; mode 'scalar' (elementwise on arrays) or 'vector' (returns
    an indexable collection of components)"""

    def __init__(self, key, mode="scalar", handler=None):
        self.key = key
        self.mode = mode
        self.handler = handler

    def __repr__(self):
        return f"<fn {keystr(self.key)}>"

    def __eq__(self, o):
        return isinstance(o, UserFn) and o.key == self.key and o.mode == self.mode

    def __hash__(self):
        return hash(("ufn", self.key))


class VecResult(V):
    def __init__(self, fn):
        self.fn = fn  # component Poly -> value


class LibV(V):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, LibV) and o.name == self.name

    def __hash__(self):
        return hash(("lib", self.name))

    def __repr__(self):
        return f"<lib {self.name}>"


class LibObj(V):
    """result of a library constructor, structural"""

    def __init__(self, kind, **fields):
        self.kind = kind
        self.f = fields

    def __repr__(self):
        return f"<{self.kind} {self.f}>"


class FuncV(V):
    def __init__(self, node, module, env, name, cls=None, decorators=()):
        self.node = node
        self.module = module
        self.env = env  # heap id of enclosing env or None
        self.name = name
        self.cls = cls
        self.decorators = decorators
        self.defaults = None
        self.kw_defaults = None

    def __repr__(self):
        return f"<func {self.name}>"


class BoundV(V):
    def __init__(self, func, self_v):
        self.func = func
        self.self_v = self_v

    def __repr__(self):
        return f"<bound {self.func}>"


class MethodV(V):
    """method of a built-in abstract value (array, list, dict, str ...)"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return f"<method {self.name} of {self.obj}>"


class ClassV(V):
    def __init__(self, node, module, name, bases, attrs):
        self.node = node
        self.module = module
        self.name = name
        self.bases = bases
        self.attrs = attrs

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name]
        return None

    def lib_bases(self):
        return [c for c in self.mro() if isinstance(c, LibV)]

    def __repr__(self):
        return f"<class {self.name}>"


class SuperV(V):
    def __init__(self, cls, self_v):
        self.cls = cls
        self.self_v = self_v


class ModuleV(V):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = {}
        self.source = None
        self.tree = None

    def __repr__(self):
        return f"<module {self.name}>"


class PartialV(V):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class RangeV(V):
    def __init__(self, start, count, step):
        self.start, self.count, self.step = start, count, step


class ZipV(V):
    def __init__(self, its):
        self.its = its


class EnumV(V):
    def __init__(self, it, start):
        self.it, self.start = it, start


class MapV(V):
    def __init__(self, f, its):
        self.f, self.its = f, its


class RevV(V):
    def __init__(self, it):
        self.it = it


class DictViewV(V):
    def __init__(self, d, what):
        self.d, self.what = d, what


class ItersV(V):
    """explicit iteration: list of (count, fn(idxPoly)->value)"""

    def __init__(self, segs):
        self.segs = segs


class SliceV(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class EllipsisV(V):
    pass


ELL = EllipsisV()


class ChoiceV(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"({self.c} ? {self.a} : {self.b})"


class PolyObj(V):
    """callable orthogonal polynomial (scipy.special.jacobi(n,a,b), legendre(n), ...): the
    k-th derivative of P_n^{(a,b)}, times a coefficient; sums of such"""

    def __init__(self, terms):
        self.terms = tuple(terms)  # (coef, n, a, b, k)


class TrainVars(V):
    def __init__(self, ref, sel=None):
        self.ref = ref
        self.sel = sel

    def __repr__(self):
        return f"<trainable_variables of {self.ref}>"


class GradList(V):
    def __init__(self, target, vars_, tape, rec):
        self.target, self.vars, self.tape, self.rec = target, vars_, tape, rec


# --------------------------------------------------------------- heap contents
class EnvC:
    __slots__ = ("d", "parent")

    def __init__(self, d, parent):
        self.d = d
        self.parent = parent


class ListC:
    """segs: ('item', v) | ('comp', atom, count, (segs...))  | ('phi', uid)"""
    __slots__ = ("segs", "tag")

    def __init__(self, segs, tag=None):
        self.segs = tuple(segs)
        self.tag = tag

    def items(self):
        if all(s[0] == "item" for s in self.segs):
            return [s[1] for s in self.segs]
        return None


class UnkListC:
    __slots__ = ("why", "vals")

    def __init__(self, why, vals=()):
        self.why = why
        self.vals = vals


class CondC(UnkListC):
    """content that is a when c holds and b otherwise"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        super().__init__("conditional content", (a, b))
        self.c, self.a, self.b = c, a, b


class DictC:
    """concrete-key entries plus an optional base
    entries: tuple of (key, value); key: str | Poly | other hashable value
    base: None | OpaqueDict | ('phi', uid, pre)
    over: tuple of ('all', atom, value)  -- every key K of base holds value(K)
    """
    __slots__ = ("entries", "base", "over", "default")

    def __init__(self, entries=(), base=None, over=(), default=None):
        self.entries = tuple(entries)
        self.base = base
        self.over = over
        self.default = default


class InstC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class ObjC:
    """mutable library object (tape, layer, file, figure, optimizer, tf.Variable ...)"""
    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind = kind
        self.f = f


class ViewC:
    """numpy view: base ref id and resolved index spec"""
    __slots__ = ("base", "spec")

    def __init__(self, base, spec):
        self.base = base
        self.spec = spec


class UpdArr(Arr):
    """base array with one rectangular region overwritten.
    region: per axis ('pt', e) or ('sl', start, len);  val: full-rank local index -> value"""

    def __init__(self, base, region, val, dt=None):
        self.base = base
        self.region = region
        self.val = val
        super().__init__(base.shape, self._elem, dt or base.dt, base.lib, base.rec, base.dep, base.t0, None)
        self._mval = {}

    def region_cond(self, idx):
        cs = []
        for i, r, dim in zip(idx, self.region, self.shape):
            if r[0] == "pt":
                cs.append(ceq(i - r[1]))
            elif r[0] == "st":
                cs += stride_cond(i, r, dim)
            else:
                cs.append(cle(r[1] - i))
                cs.append(clt(i - r[1] - r[2]))
        return cand(*cs)

    def local(self, idx):
        return tuple(ZERO if r[0] == "pt" else fdiv(i - r[1], r[3]) if r[0] == "st" else i - r[1] for i, r in zip(idx, self.region))

    def _elem(self, idx):
        c = self.region_cond(idx)
        if c is False:
            return self.base.at(*idx)
        v = self.val(idx)
        if c is True:
            return v
        return ite_any(c, v, self.base.at(*idx))


def stride_cond(i, r, dim):
    """position i is one of start, start+step, ... (r[2] of them)"""
    cs = [cle(r[1] - i), ceq(mod(i - r[1], r[3]))]
    if r[2] != fdiv(dim - r[1] + r[3] - 1, r[3]):   # not up to the end of the axis
        cs.insert(1, clt(i - r[1] - r[2] * r[3]))
    return cs


def ite_any(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (Poly, int, Fr)) and isinstance(b, (Poly, int, Fr)):
        return ite(c, P(a), P(b))
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        if a == b:
            return a
        return cor(cand(c, a), cand(cnot(c), b))
    if isinstance(a, (Poly, bool, Cond)) and isinstance(b, (Poly, bool, Cond)):
        return ite(c, P(a), P(b))
    return P(atom("unk", f"merge of {type(a).__name__}/{type(b).__name__}"))


def subst_key(k, mp):
    """substitute inside an opaque key (nested tuples of terms)"""
    if isinstance(k, (Poly, Cond)):
        return subst(k, mp)
    if isinstance(k, tuple):
        return tuple(subst_key(x, mp) for x in k)
    return k
