"""Models: built-in functions and containers, numpy, scipy.special, pyDOE."""
import ast
import itertools
import math
from .lib import *
from .lib import T_seg_len
from .arrays import ArrOps
from fractions import Fraction
from . import terms as T
from . import teval
from .interp import exc_matches  # noqa: F401


def scal(L, v, st):
    return L.num(v, st)


# =============================================================== builtins
def distinct_count(L, v, c, st, n):
    """how many different elements a set built from a sequence has: those equal to no earlier one"""
    ar = L.to_arr(L.I.alloc(st, ListC(c.segs)), st, n)
    if ar is None or ar.ndim not in (1, 2) or ar.ndim == 2 and not ar.shape[1].is_const():
        return None
    N = ar.shape[0]
    i, j = T.fresh("ui", ZERO, N - 1), T.fresh("uj", ZERO, N - 1)

    def row(q):
        return [L.asnum(ar.at(P(q)))] if ar.ndim == 1 else [L.asnum(ar.at(P(q), const(k))) for k in range(int(ar.shape[1].const()))]
    same = cand(*[T.ceq(P(x) - P(y)) for x, y in zip(row(i), row(j))])
    dup = T.mk_sum(j, P(i), T.ite(same, ONE, ZERO))
    return T.mk_sum(i, N, T.ite(T.ceq(dup), ONE, ZERO))


@model("builtins.len")
def _len(L, a, k, st, n):
    v = a[0]
    if isinstance(v, TupleV):
        return const(len(v.items))
    if isinstance(v, StrV):
        c = v.concrete()
        return const(len(c)) if c is not None else lenatom(v.parts)
    if isinstance(v, RangeV):
        return v.count
    if isinstance(v, OpaqueSeq):
        return v.length
    if isinstance(v, (OpaqueDict,)):
        return L.opaque_len(v)
    if isinstance(v, DictViewV):
        return _len(L, [v.d], {}, st, n)
    if isinstance(v, ChoiceV):
        return L.I.merge_vals(v.c, _len(L, [v.a], k, st, n), _len(L, [v.b], k, st, n), st)
    if isinstance(v, Ref):
        c = st.heap.get(v.id)
        if isinstance(c, ListC):
            if c.tag == "set":
                r = distinct_count(L, v, c, st, n)
                return r if r is not None else L.I.gap("len of a set", n)
            ln = T_seg_len(c.segs)
            return ln if ln is not None else P(atom("unk", "list length"))
        if isinstance(c, UnkListC):
            return P(atom("unk", "list length"))
        if isinstance(c, (Arr, ViewC)):
            return L.I.deref(st, v).shape[0]
        if isinstance(c, DictC):
            m = const(len([1 for _, x in c.entries if x is not MISSING]))
            if c.base is None:
                return m
            if isinstance(c.base, OpaqueDict):
                return m + L.opaque_len(c.base)
            return P(atom("unk", "mapping length"))
        if isinstance(c, InstC):
            m = c.cls.lookup("__len__")
            if m:
                return L.I.call(BoundV(m, v), [], {}, n, st)
    if isinstance(v, Arr):
        return v.shape[0]
    if isinstance(v, (ZipV, EnumV, MapV)):
        pass
    if isinstance(v, OpaqueV):
        return lenatom(v.key)
    if isinstance(v, TrainVars):
        return lenatom("trainvars")
    if isinstance(v, Unknown):
        return v
    return L.I.gap(f"len of {type(v).__name__}", n)


def lenatom(key):
    x = atom("len", key)
    NONNEG.add(x)
    INTS.add(x)
    return P(x)


@model("builtins.range")
def _range(L, a, k, st, n):
    v = [L.num(x, st) for x in a]
    if any(x is None for x in v):
        return L.I.gap("range argument", n) if not any(isinstance(x, Unknown) for x in a) else Unknown("range")
    if len(v) == 1:
        return RangeV(ZERO, v[0], ONE)
    step = v[2] if len(v) > 2 else ONE
    d = v[1] - v[0]
    if step == ONE:
        return RangeV(v[0], d if not (d.is_const() and d.const() < 0) else ZERO, ONE)
    if step.is_const():
        s = step.const()
        if s > 0:
            return RangeV(v[0], fdiv(d + (s - 1), step), step)
        return RangeV(v[0], fdiv(-d + (-s - 1), -step), step)
    return RangeV(v[0], fdiv(d + step - 1, step), step)


@model("builtins.zip")
def _zip(L, a, k, st, n):
    return ZipV(list(a))


@model("builtins.enumerate")
def _enum(L, a, k, st, n):
    s = a[1] if len(a) > 1 else k.get("start", ZERO)
    return EnumV(a[0], s)


@model("builtins.map")
def _map(L, a, k, st, n):
    return MapV(a[0], list(a[1:]))


@model("builtins.reversed")
def _rev(L, a, k, st, n):
    return RevV(a[0])


@model("builtins.iter")
def _iter(L, a, k, st, n):
    if len(a) == 1:
        return LibObj("iter", seq=a[0])
    return L.I.gap("iter() with a sentinel", n)


@model("collections.namedtuple")
def _namedtuple(L, a, k, st, n):
    nm = a[0].concrete() if isinstance(a[0], StrV) else None
    f = a[1] if len(a) > 1 else k.get("field_names")
    if isinstance(f, StrV) and f.concrete() is not None:
        names = f.concrete().replace(",", " ").split()
    else:
        it = L.concrete_items(f, st)
        names = None if it is None else [x.concrete() if isinstance(x, StrV) else None for x in it]
    df = L.concrete_items(k["defaults"], st) if k.get("defaults") is not None else []
    if names is None or None in names or df is None or nm is None:
        return L.I.gap("collections.namedtuple", n)
    return LibObj("ntclass", name=nm, names=names, defaults=dict(zip(names[len(names) - len(df):], df)))


@model("itertools.product")
def _product(L, a, k, st, n):
    """pairs in row-major order: element k of the product is (A[k // len(B)], B[k mod len(B)])"""
    from .interp import callfn
    segs = []
    for x in a:
        r = L.iterate(x, st, n)
        if r is None or len(r) != 1 or r[0][0] == "nest" or len(r[0]) != 2:
            return L.I.gap("itertools.product", n)
        segs.append(r[0])
    rep = k.get("repeat")
    if rep is not None:
        if not (isinstance(rep, Poly) and rep.is_const()):
            return L.I.gap("itertools.product", n)
        segs = segs * int(rep.const())
    tot = prod([P(s[0]) for s in segs])

    def at(i, z=None):
        out = []
        r = P(i)
        for s in reversed(segs):
            m = P(s[0])
            out.append(callfn(s[1], mod(r, m), z if z is not None else st))
            r = fdiv(r, m)
        return TupleV(out[::-1])
    at.st = True
    return ItersV([(tot, at)])


@model("builtins.filter")
def _filter(L, a, k, st, n):
    items = L.concrete_items(a[1], st)
    if items is None:
        return L.I.gap("filter", n)
    out = []
    for x in items:
        c = L.I.truth(L.I.call(a[0], [x], {}, n, st) if a[0] is not None else x, st, n)
        if c is True:
            out.append(("item", x))
        elif c is not False:
            return L.I.gap("filter with an undecided predicate", n)
    return L.I.alloc(st, ListC(out))


@model("builtins.print", "tensorflow.print")
def _print(L, a, k, st, n):
    L.I.event(st, "print", n, args=a)
    return None


@model("builtins.int")
def _int(L, a, k, st, n):
    if not a:
        return ZERO
    if isinstance(a[0], StrV):
        c = a[0].concrete()
        if c is not None:
            try:
                return const(int(c))
            except ValueError:
                L.I.raise_(st, "ValueError", n, "int()")
                return Unknown("int")
        x = atom("int", a[0].parts)
        INTS.add(x)
        return P(x)
    if isinstance(a[0], Unknown):
        return a[0]
    p = L.num(a[0], st)
    if p is None:
        return L.I.gap(f"int({a[0]})", n)
    return trunc(p)


@model("builtins.float")
def _float(L, a, k, st, n):
    if not a:
        return ZERO
    if isinstance(a[0], StrV):
        c = a[0].concrete()
        if c is not None:
            try:
                return P(float(c))
            except Exception:
                return P(atom("fn", "const", c))
        return P(atom("float", a[0].parts))
    if isinstance(a[0], Unknown):
        return a[0]
    p = L.num(a[0], st)
    return p if p is not None else L.I.gap("float()", n)


@model("builtins.bool")
def _bool(L, a, k, st, n):
    return L.I.truth(a[0], st, n) if a else False


@model("builtins.str", "builtins.repr", "builtins.format")
def _str(L, a, k, st, n):
    return L.to_str(a[0], st) if a else StrV([""])


@model("builtins.list", "builtins.sorted_list")
def _list(L, a, k, st, n):
    if not a:
        return L.I.alloc(st, ListC(()))
    if isinstance(a[0], Unknown):
        return a[0]
    sg = L.to_segs(a[0], st, n)
    if sg is None:
        return L.I.alloc(st, UnkListC("list()"))
    return L.I.alloc(st, ListC(sg))


@model("builtins.tuple")
def _tuple(L, a, k, st, n):
    if not a:
        return TupleV([])
    it = L.concrete_items(a[0], st)
    if it is not None:
        return TupleV(it)
    return _list(L, a, k, st, n)


@model("builtins.set", "builtins.frozenset")
def _set(L, a, k, st, n):
    if not a:
        return L.I.alloc(st, ListC((), "set"))
    sg = L.to_segs(a[0], st, n)
    return L.I.alloc(st, ListC(sg, "set") if sg is not None else UnkListC("set()"))


@model("builtins.dict", "collections.OrderedDict")
def _dict(L, a, k, st, n):
    base, over, ent, default = None, (), [], None
    if a:
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DictC):
            c = st.heap[v.id]
            ent, base, over, default = list(c.entries), c.base, c.over, None
        elif isinstance(v, OpaqueDict):
            base = v
        elif isinstance(v, OpaqueV):
            base = L.as_opaque_dict(v)
        elif isinstance(v, Unknown):
            return v
        else:
            items = L.concrete_items(v, st)
            if items is not None:
                for x in items:
                    kv = L.unpack(x, 2, st, n)
                    if kv is None:
                        return L.I.gap("dict()", n)
                    kk = L.dkey(kv[0])
                    at = next((i for i, (x, _) in enumerate(ent) if x == kk), None)
                    if at is None:
                        ent.append((kk, kv[1]))
                    else:
                        ent[at] = (kk, kv[1])
            else:
                ref = L.I.alloc(st, DictC(()))
                segs = L.iterate(v, st, n)
                if segs is None:
                    return L.I.gap("dict()", n)
                fr = L.I.stack[-1]

                def bind(s, x):
                    s.memo["__dictbind"] = x

                def body(s):
                    kv = L.unpack(s.memo["__dictbind"], 2, s, n)
                    L.setitem(ref, kv[0], kv[1], s, n)
                for sg in segs:
                    L.I.run_seg(sg, bind, body, st, fr, n)
                for kk, vv in k.items():
                    L.setitem(ref, StrV([kk]), vv, st, n)
                return ref
    for kk, vv in k.items():
        ent = [(x, y) for x, y in ent if x != kk] + [(kk, vv)]
    return L.I.alloc(st, DictC(ent, base, over, default))


@model("collections.defaultdict")
def _defaultdict(L, a, k, st, n):
    return L.I.alloc(st, DictC((), None, (), a[0] if a else None))


@model("collections.deque")
def _deque(L, a, k, st, n):
    return _list(L, a[:1], {}, st, n)


@model("builtins.isinstance")
def _isinstance(L, a, k, st, n):
    v, t = a
    ts = t.items if isinstance(t, TupleV) else [t]
    res = []
    for x in ts:
        res.append(isinst(L, v, x, st))
    return cor(*res)


def isinst(L, v, x, st):
    if isinstance(v, ChoiceV):
        return cor(cand(v.c, isinst(L, v.a, x, st)), cand(cnot(v.c), isinst(L, v.b, x, st)))
    nm = x.name.split(".")[-1] if isinstance(x, LibV) else None
    if isinstance(v, Unknown):
        return cunk("isinstance")
    if isinstance(v, LibV) and isinstance(x, LibV):
        root, leaf = v.name.split(".")[0], v.name.split(".")[-1]
        if leaf in DTYPES and root in ("tensorflow", "numpy", "builtins"):
            if root == "tensorflow":
                return nm == "DType"
            return nm == "type"
    if isinstance(v, LibObj) and v.kind == "dtype" and nm in ("DType", "dtype"):
        return (nm == "DType") == (v.f.get("lib") == "tf")
    if isinstance(x, ClassV):
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), InstC):
            return x in st.heap[v.id].cls.mro()
        if isinstance(v, OpaqueV):
            return catom("isinstance", keystr(v.key), x.name)
        return False
    if isinstance(v, OpaqueDict):
        return nm in ("dict", "Mapping", "MutableMapping", "OrderedDict")
    if isinstance(v, OpaqueSeq):
        return nm in ("list", "Sequence")
    if isinstance(v, OpaqueV):
        if v.typ and v.typ not in ("any", "ext"):
            return {"str": nm == "str", "other": nm == "str", "int": nm == "int", "float": nm == "float", "dict": nm == "dict"}.get(
                v.typ, catom("isinstance", keystr(v.key), str(nm)))
        return catom("isinstance", keystr(v.key), str(nm))
    if isinstance(v, StrV):
        return nm in (("Path", "PurePath", "PathLike") if v.path else ("str",))
    if isinstance(v, (bool, Cond)):
        return nm in ("bool", "int", "Number", "Integral")
    if isinstance(v, Poly):
        if nm in ("int", "Integral", "integer", "int64"):
            return is_int(v)
        if nm in ("float", "floating", "float64", "Real"):
            return not is_int(v) or nm == "Real"
        return nm in ("Number", "Real", "number")
    if isinstance(v, TupleV):
        return nm in ("tuple", "Sequence", "Iterable")
    if v is None:
        return nm == "NoneType"
    if isinstance(v, (FuncV, BoundV, UserFn)):
        return nm in ("Callable", "FunctionType")
    if isinstance(v, Arr):
        return nm in ("Tensor",) if v.lib == "tf" else nm == "ndarray"
    if isinstance(v, Ref):
        c = st.heap.get(v.id)
        if isinstance(c, (Arr, ViewC)):
            return nm == "ndarray"
        if isinstance(c, (ListC, UnkListC)):
            return nm in (("set",) if getattr(c, "tag", None) == "set" else ("list", "Sequence", "Iterable", "MutableSequence"))
        if isinstance(c, DictC):
            return nm in ("dict", "Mapping", "MutableMapping", "OrderedDict")
        if isinstance(c, ObjC):
            if c.kind == "tfvar":
                return nm == "Variable"
            if c.kind == "layer":
                return nm in (c.f.get("cls"), "Layer")
            return catom("isinstance", c.kind, str(nm))
        if isinstance(c, InstC):
            return any(isinstance(b, LibV) and b.name.split(".")[-1] == nm for b in c.cls.mro())
    return cunk("isinstance")


@model("builtins.abs", "numpy.abs")
def _abs(L, a, k, st, n):
    return L.ew(lambda x: absv(P(L.asnum(x))), [a[0]], st, n)


def minmax(op):
    def f(L, a, k, st, n):
        if len(a) == 1:
            sg = L.to_segs(a[0], st, n) if not L.is_arrlike(a[0], st) else None
            if sg is None:
                ar = L.to_arr(a[0], st, n)
                if ar is None:
                    return L.I.gap(op, n)
                return L.ret(L.arr.reduce(ar, op, None, False), st)
            if all(s[0] == "item" for s in sg):
                a = [s[1] for s in sg]
                if "key" in k:
                    return L.I.gap(f"{op} with key", n)
            else:
                ar = L.segs_arr(tuple(sg), st, n, "np")
                return L.ret(L.arr.reduce(ar, op, None, False), st) if ar is not None else L.I.gap(op, n)
        if any(isinstance(x, Unknown) for x in a):
            return Unknown(op)
        v = [L.num(x, st) for x in a]
        if any(x is None for x in v):
            return L.I.gap(f"{op} arguments", n)
        r = v[0]
        for x in v[1:]:
            r = mk_fn(op, r, x)
            t = r.single_atom()
            if t is not None and t.kind == "fn" and is_int(v[0]) and is_int(x):
                INTS.add(t)
        return r
    return f


MODELS["builtins.max"] = minmax("max")
MODELS["builtins.min"] = minmax("min")


@model("builtins.sum", "math.fsum")
def _sumb(L, a, k, st, n):
    v = a[0]
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    if isinstance(v, Unknown):
        return v
    if L.is_arrlike(v, st):
        ar = L.to_arr(v, st, n)
        r = L.arr.reduce(ar, "sum", [0], False)
        return L.binop(__import__("ast").Add(), L.ret(r, st) if ar.lib != "tf" else L.tfres(r, [ar], st), start, st, n) if start != ZERO else (
            L.ret(r, st) if ar.lib != "tf" else L.tfres(r, [ar], st))
    items = L.concrete_items(v, st)
    if items is not None:
        r = start
        import ast
        for x in items:
            r = x if (isinstance(r, Poly) and r == ZERO and L.is_arrlike(x, st)) else L.binop(ast.Add(), r, x, st, n)
        return r
    sg = L.to_segs(v, st, n)
    if sg is None:
        return L.I.gap("sum()", n)
    ar = L.segs_arr(tuple(sg), st, n, "np")
    if ar is None:
        return L.I.gap("sum()", n)
    r = L.arr.reduce(ar, "sum", [0], False)
    if ar.rec:
        r.lib = "tf"
        return L.tfres(r, [ar], st)
    import ast
    return L.binop(ast.Add(), L.ret(r, st), start, st, n)


@model("builtins.round", "numpy.round", "numpy.rint", "numpy.around")
def _round(L, a, k, st, n):
    nd = a[1] if len(a) > 1 else k.get("decimals", k.get("ndigits", ZERO))
    def f(x):
        x = P(L.asnum(x))
        if is_int(x):
            return x
        if not isinstance(nd, Poly):
            return P(atom("unk", "round"))
        return P(atom("round", x)) if nd == ZERO else P(atom("fn", "round", x, nd))
    return L.ew(f, [a[0]], st, n)


@model("builtins.pow", "numpy.power", "tensorflow.pow", "numpy.float_power")
def _pow(L, a, k, st, n):
    import ast
    return L.binop(ast.Pow(), a[0], a[1], st, n)


@model("builtins.divmod")
def _divmod(L, a, k, st, n):
    import ast
    return TupleV([L.binop(ast.FloorDiv(), a[0], a[1], st, n), L.binop(ast.Mod(), a[0], a[1], st, n)])


@model("builtins.type")
def _type(L, a, k, st, n):
    v = a[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), InstC):
        return st.heap[v.id].cls
    if isinstance(v, StrV):
        return LibV("builtins.str")
    if isinstance(v, TupleV):
        return LibV("builtins.tuple")
    kind = L.kind_of(v, st)
    if kind in ("list", "dict", "set"):
        return LibV("builtins." + kind)
    if kind == "arr":
        return LibV("numpy.ndarray")
    if kind == "num":
        return LibV("builtins.int" if is_int(v) else "builtins.float")
    if isinstance(v, OpaqueV):
        return OpaqueV(("type", v.key))
    return LibObj("type", of=v)


@model("builtins.getattr")
def _getattr(L, a, k, st, n):
    nm = a[1].concrete() if isinstance(a[1], StrV) else None
    if nm is None:
        return L.I.gap("getattr with a computed name", n)
    if len(a) > 2:
        o = a[0]
        if isinstance(o, Ref) and isinstance(st.heap.get(o.id), InstC):
            c = st.heap[o.id]
            if nm not in c.attrs and c.cls.lookup(nm) is None and L.inst_lib_attr(o, c, nm, st, n) is None:
                return a[2]
            v = c.attrs.get(nm)
            if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
                return L.I.merge_vals(v.c, a[2] if v.a is MISSING else v.a, a[2] if v.b is MISSING else v.b, st)
            if isinstance(v, PhiV):
                return L.I.note_phi(v, st)
        elif isinstance(o, OpaqueV):
            return ChoiceV(catom("hasattr", keystr(o.key), nm), L.I.getattr(o, nm, st, n), a[2])
    return L.I.getattr(a[0], nm, st, n)


@model("builtins.setattr")
def _setattr(L, a, k, st, n):
    nm = a[1].concrete() if isinstance(a[1], StrV) else None
    if nm is None:
        return L.I.gap("setattr with a computed name", n)
    L.I.setattr(a[0], nm, a[2], st, n)


@model("builtins.hasattr")
def _hasattr(L, a, k, st, n):
    nm = a[1].concrete() if isinstance(a[1], StrV) else None
    o = a[0]
    if isinstance(o, Ref) and isinstance(st.heap.get(o.id), InstC):
        c = st.heap[o.id]
        v = c.attrs.get(nm)
        if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
            return v.c if v.b is MISSING else cnot(v.c)
        if isinstance(v, PhiV) and v.pre is MISSING:
            L.I.note_phi(v, st)
            return cunk("loop-carried attribute exists?")
        return nm in c.attrs or c.cls.lookup(nm) is not None
    return catom("hasattr", repr(o), nm)


@model("builtins.callable")
def _callable(L, a, k, st, n):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, UserFn, LibV, PartialV, ClassV, MethodV)):
        return True
    if isinstance(v, OpaqueV):
        return catom("callable", keystr(v.key))
    return isinstance(v, Ref) and isinstance(st.heap.get(v.id), InstC)


def anyall(op):
    def f(L, a, k, st, n):
        items = L.concrete_items(a[0], st)
        if items is not None:
            cs = [L.I.truth(x, st, n) for x in items]
            return (cor if op == "any" else cand)(*cs)
        sg = L.to_segs(a[0], st, n)
        if sg is not None and all(s[0] in ("item", "comp") for s in sg):
            res = []
            for s in sg:
                if s[0] == "item":
                    res.append(L.I.truth(s[1], st, n))
                elif len(s[3]) == 1 and s[3][0][0] == "item":
                    c = L.I.truth(s[3][0][1], st, n)
                    if isinstance(c, bool):
                        res.append(c if op == "all" or not c else cnot(ceq(s[2])))
                    elif s[1] not in c.free:
                        res.append(c)
                    else:
                        res.append(catom(op, s[2], lamcond(c, [s[1]])))
                else:
                    return cunk(op)
            return (cor if op == "any" else cand)(*res)
        return cunk(op)
    return f


MODELS["builtins.any"] = anyall("any")
MODELS["builtins.all"] = anyall("all")


def small_dims(shape, limit=16):
    """concrete dimensions with few entries"""
    if not all(P(d).is_const() for d in shape):
        return None
    ds = [int(P(d).const()) for d in shape]
    m = 1
    for d in ds:
        m *= d
    return ds if m <= limit else None


def close_cond(x, y, rtol, atol):
    """|x - y| <= atol + rtol |y| as numpy defines it"""
    return T.cle(P(T.absv(x - y)) - atol - rtol * P(T.absv(y)))


def _isclose(nm, L, a, k, st, n):
    if len(a) < 2:
        return cunk("array predicate")
    if nm == "math.isclose":
        rt, at = k.get("rel_tol", Fraction(1, 10 ** 9)), k.get("abs_tol", 0)
    else:
        rt = k.get("rtol", a[2] if len(a) > 2 else Fraction(1, 10 ** 5))
        at = k.get("atol", a[3] if len(a) > 3 else Fraction(1, 10 ** 8))
    rt, at = (P(x) if isinstance(x, (int, Fraction)) else L.num(x, st) for x in (rt, at))
    if rt is None or at is None:
        return cunk("array predicate")
    x, y = L.num(a[0], st), L.num(a[1], st)
    if x is not None and y is not None:
        if nm == "math.isclose":
            return cor(close_cond(x, y, rt, at), close_cond(y, x, rt, at))
        return close_cond(x, y, rt, at)
    r = L.ew(lambda u, v: close_cond(P(L.asnum(u)), P(L.asnum(v)), rt, at), [a[0], a[1]], st, n, "bool")
    if nm == "numpy.isclose":
        return r
    return npany(L, r, "all", st, n)


for _nm in ("numpy.allclose", "numpy.isclose", "math.isclose"):
    MODELS[_nm] = (lambda nm: lambda L, a, k, st, n: _isclose(nm, L, a, k, st, n))(_nm)


@model("numpy.array_equal")
def _array_equal(L, a, k, st, n):
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x is None or y is None:
        return cunk("array predicate")
    if x.ndim != y.ndim:
        return False
    cs = [T.ceq(P(d) - P(e)) for d, e in zip(x.shape, y.shape)]
    cs = cand(*cs)
    if cs is False:
        return False
    if cs is not True:
        return cunk("equality of arrays of different sizes")
    r = L.ew(lambda u, v: T.ceq(P(L.asnum(u)) - P(L.asnum(v))), [a[0], a[1]], st, n, "bool")
    return npany(L, r, "all", st, n)


def _isnan(v, L, a, k, st, n):
    """a number computed in floating point may overflow or be no number: the code then does what it says"""
    def one(x):
        x = P(x)
        if x.is_const() or T.is_int(x) or v == "isinf":
            return v == "isfinite"
        c = Cond("atom", ("nonfinite", x))
        return T.cnot(c) if v == "isfinite" else c
    x = L.num(a[0], st)
    if x is not None:
        return one(x)
    ar = L.to_arr(a[0], st, n)
    if ar is None:
        return cunk("array predicate")
    if ar.dt and not ar.dt.startswith("float"):
        return L.I.alloc(st, Arr(ar.shape, lambda ix: v == "isfinite", "bool"))
    return L.I.alloc(st, Arr(ar.shape, lambda ix: one(L.asnum(ar.at(*ix))), "bool"))


for _nm in ("isnan", "isfinite", "isinf"):
    MODELS["numpy." + _nm] = MODELS["math." + _nm] = MODELS["tensorflow.math.is_" + ("nan" if _nm == "isnan" else "finite" if _nm == "isfinite" else "inf")] = (lambda v: lambda L, a, k, st, n: _isnan(v, L, a, k, st, n))(_nm)


@model("builtins.sorted")
def _sorted(L, a, k, st, n):
    sg = L.to_segs(a[0], st, n)
    if sg is not None and len(sg) == 1 and sg[0][0] == "item":
        return L.I.alloc(st, ListC(sg))
    rev = k.get("reverse", False)
    tup = sg is not None and len(sg) == 1 and sg[0][0] == "comp" and len(sg[0][3]) == 1 and sg[0][3][0][0] == "item" and isinstance(sg[0][3][0][1], TupleV)
    if rev is True or k.get("key") is not None or tup:
        if sg is not None and len(sg) == 1 and sg[0][0] == "comp" and len(sg[0][3]) == 1 and sg[0][3][0][0] == "item" and rev in (True, False):
            _, i, cnt, ((_, v),) = sg[0]
            kv = v if k.get("key") is None else L.I.call(k["key"], [v], {}, n, st)
            if isinstance(kv, TupleV) and kv.items and all(L.num(z, st) is not None for z in kv.items):
                # compared component by component: stable sorts by the last, ..., the first one
                pos = None
                for z in reversed(kv.items):
                    z = P(L.num(z, st))
                    if rev:
                        z = -z
                    pos = (lambda z, prev: lambda q: (lambda w: (prev(w) if prev else w))((lambda u: P(mk_argsort(u[0], cnt, subst(z, {i: prev(P(u[0])) if prev else P(u[0])}), q)))((fresh("s", ZERO, cnt - 1),))))(z, pos)
                kx = fresh("i", ZERO, cnt - 1)
                return L.I.alloc(st, ListC([("comp", kx, cnt, (("item", L.I.instantiate(v, {i: P(pos(P(kx)))}, st)),))]))
            p = L.num(kv, st)
            if p is None:
                return L.I.gap("sorted by a key that is not a number", n)
            vv, kx = fresh("s", ZERO, cnt - 1), fresh("i", ZERO, cnt - 1)
            at = mk_argsort(vv, cnt, subst(P(p), {i: P(vv)}), cnt - 1 - P(kx) if rev else P(kx))
            return L.I.alloc(st, ListC([("comp", kx, cnt, (("item", L.I.instantiate(v, {i: P(at)}, st)),))]))
        if sg is not None and all(s[0] == "item" for s in sg) and rev in (True, False):
            ks = [L.num(s[1] if k.get("key") is None else L.I.call(k["key"], [s[1]], {}, n, st), st) for s in sg]
            if all(x is not None and P(x).is_const() for x in ks):
                return L.I.alloc(st, ListC([sg[i] for i in sorted(range(len(sg)), key=lambda i: P(ks[i]).const(), reverse=rev)]))
        return L.I.gap("sorted with key", n)
    if sg is not None and all(s[0] == "item" and isinstance(s[1], Poly) and s[1].is_const() for s in sg):
        return L.I.alloc(st, ListC(sorted(sg, key=lambda s: s[1].const())))
    if sg is not None and all(s[0] == "item" and isinstance(s[1], StrV) and s[1].concrete() is not None for s in sg):
        return L.I.alloc(st, ListC(sorted(sg, key=lambda s: s[1].concrete())))
    if sg is not None and k.get("key") is None and rev is False:
        # strings: ordered by an unknown but fixed rank of their content
        if all(s[0] == "item" and isinstance(s[1], StrV) for s in sg) and sg:
            key = ("sortedstr", frozenset(s[1].parts for s in sg))
            return L.I.alloc(st, ListC([("item", StrV([("opq", key, i)])) for i in range(len(sg))]))
        if len(sg) == 1 and sg[0][0] == "comp" and len(sg[0][3]) == 1 and sg[0][3][0][0] == "item" and isinstance(sg[0][3][0][1], StrV):
            _, i, cnt, ((_, v),) = sg[0]
            vv, kx = fresh("s", ZERO, cnt - 1), fresh("i", ZERO, cnt - 1)
            at = mk_argsort(vv, cnt, subst(P(atom("strrank", v.parts)), {i: P(vv)}), P(kx))
            return L.I.alloc(st, ListC([("comp", kx, cnt, (("item", L.I.instantiate(v, {i: P(at)}, st)),))]))
    ar = L.to_arr(a[0], st, n)
    if ar is None or ar.ndim != 1:
        return L.I.gap("sorted", n)
    r = sort1(ar)
    kx = fresh("i", ZERO, ar.shape[0] - 1)
    return L.I.alloc(st, ListC([("comp", kx, ar.shape[0], (("item", r.at(P(kx))),))]))


def argsort1(ar):
    v = fresh("s", ZERO, ar.shape[0] - 1)
    body = P(ar.at(P(v)))
    return Arr(ar.shape, lambda idx: mk_argsort(v, ar.shape[0], body, idx[0]), "int64")


def sort1(ar):
    s = argsort1(ar)
    return Arr(ar.shape, lambda idx: ar.at(P(s.at(*idx))), ar.dt)


def argsort_nd(ar, ax):
    """argsort along one axis"""
    m = ar.shape[ax]

    def fn(idx):
        v = fresh("s", ZERO, m - 1)
        return mk_argsort(v, m, P(ar.at(*idx[:ax], P(v), *idx[ax + 1:])), idx[ax])
    return Arr(ar.shape, fn, "int64")


def sort_nd(ar, ax):
    s = argsort_nd(ar, ax)
    return Arr(ar.shape, lambda idx: ar.at(*idx[:ax], P(s.at(*idx)), *idx[ax + 1:]), ar.dt)


def axis_of(v, nd):
    """concrete axis number, None when not known"""
    if isinstance(v, Poly) and v.is_const() and v.const().denominator == 1:
        j = int(v.const())
        return j + nd if -nd <= j < 0 else (j if 0 <= j < nd else None)
    return None


@model("builtins.id", "builtins.hash")
def _id(L, a, k, st, n):
    return P(atom("opq", "id"))


@model("builtins.next")
def _next(L, a, k, st, n):
    arg = n.args[0] if isinstance(n, ast.Call) and n.args else None
    if isinstance(arg, (ast.Name, ast.Attribute, ast.Subscript)):
        return L.I.gap("position of a stored iterator", n)
    it = L.concrete_items(a[0], st)
    if it:
        return it[0]
    segs = L.iterate(a[0], st, n)
    if segs and segs[0][0] != "nest" and len(segs[0]) == 2:
        from .interp import callfn
        return callfn(segs[0][1], ZERO, st)
    return L.I.gap("next()", n)


@model("builtins.slice")
def _slice(L, a, k, st, n):
    v = list(a) + [None] * (3 - len(a))
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(v[0], v[1], v[2])


@model("builtins.object", "builtins.exit", "builtins.quit", "sys.exit")
def _object(L, a, k, st, n):
    return OpaqueV(("object", new_id()))


@model("functools.partial")
def _partial(L, a, k, st, n):
    return PartialV(a[0], list(a[1:]), dict(k))


@model("copy.deepcopy", "copy.copy")
def _deepcopy(L, a, k, st, n):
    return deep(L, a[0], st)


def deep(L, v, st, seen=None):
    if isinstance(v, Ref):
        c = st.heap.get(v.id)
        if isinstance(c, (Arr, ViewC)):
            return L.I.alloc(st, L.I.deref(st, v))
        if isinstance(c, ListC):
            segs = tuple(("item", deep(L, s[1], st)) if s[0] == "item" else s for s in c.segs)
            r = L.I.alloc(st, ListC(segs, c.tag))
            if v.id in st.param:
                st.param[r.id] = st.param[v.id]
            return r
        if isinstance(c, DictC):
            return L.I.alloc(st, DictC([(k, deep(L, x, st)) for k, x in c.entries], c.base, c.over, c.default))
        return v
    if isinstance(v, OpaqueDict):
        return L.I.alloc(st, DictC((), v))
    return v


# =============================================================== containers
@model("list.append", "set.add")
def _append(L, o, a, k, st, n):
    c = st.heap.get(o.id)
    L.I.event(st, "mutate", n, obj=o, how="append")
    if isinstance(c, ListC):
        if c.tag == "set":
            st.heap[o.id] = ListC(c.segs + (("item", a[0]),), c.tag)
        else:
            st.heap[o.id] = ListC(c.segs + (("item", a[0]),), c.tag)


@model("list.extend")
def _extend(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="extend")
    L.list_extend(o, a[0], st, n)


@model("list.insert")
def _insert(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="insert")
    c = st.heap.get(o.id)
    p = a[0]
    if isinstance(c, ListC) and isinstance(p, Poly) and p == ZERO:
        st.heap[o.id] = ListC((("item", a[1]),) + c.segs, c.tag)
        return
    it = c.items() if isinstance(c, ListC) else None
    if it is not None and isinstance(p, Poly) and p.is_const():
        it = list(it)
        it.insert(int(p.const()), a[1])
        st.heap[o.id] = ListC([("item", x) for x in it])
        return
    st.heap[o.id] = UnkListC("insert")


@model("list.pop")
def _pop(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="pop")
    c = st.heap.get(o.id)
    it = c.items() if isinstance(c, ListC) else None
    if it and (not a or (isinstance(a[0], Poly) and a[0].is_const())):
        it = list(it)
        v = it.pop(int(a[0].const()) if a else -1)
        st.heap[o.id] = ListC([("item", x) for x in it])
        return v
    st.heap[o.id] = UnkListC("pop")
    return Unknown("pop")


@model("list.sort", "list.reverse", "list.clear", "list.remove")
def _lmut(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="reorder")
    c = st.heap.get(o.id)
    it = c.items() if isinstance(c, ListC) else None
    st.heap[o.id] = UnkListC("in-place reorder")


@model("list.copy", "set.copy")
def _lcopy(L, o, a, k, st, n):
    c = st.heap.get(o.id)
    return L.I.alloc(st, c)


@model("list.index", "list.count", "tuple.index", "tuple.count")
def _lindex(L, o, a, k, st, n):
    return L.I.gap("list.index", n)


@model("set.update")
def _supdate(L, o, a, k, st, n):
    L.list_extend(o, a[0], st, n)


@model("dict.keys", "opqdict.keys", "opq.keys")
def _keys(L, o, a, k, st, n):
    return DictViewV(o, "keys")


@model("dict.values", "opqdict.values", "opq.values")
def _values(L, o, a, k, st, n):
    return DictViewV(o, "values")


@model("dict.items", "opqdict.items", "opq.items")
def _items(L, o, a, k, st, n):
    return DictViewV(o, "items")


@model("dict.get")
def _dget(L, o, a, k, st, n):
    d = a[1] if len(a) > 1 else k.get("default")
    c = st.heap[o.id]
    kk = L.dkey(a[0])
    if isinstance(c.base, OpaqueDict) and isinstance(kk, (str, Poly)):
        ent = [x for x in c.entries if L.key_eq(x[0], kk) is not False]
        if not ent:
            if isinstance(kk, Poly) and kk.single_atom() in L.key_owner:
                return L.base_get(c, kk, st, n)
            return L.I.merge_vals(L.contains(a[0], c.base, st, n), L.base_get(c, kk, st, n), d, st)
    return L.dict_get(o, DictC(c.entries, c.base, c.over, None), kk, st, n, default=(d,))


@model("opqdict.get", "opq.get")
def _odget(L, o, a, k, st, n):
    d = a[1] if len(a) > 1 else k.get("default")
    c = L.contains(a[0], o if isinstance(o, OpaqueDict) else L.as_opaque_dict(o), st, n)
    v = L.getitem(o, a[0], st, n)
    if c is True:
        return v
    return L.I.merge_vals(c, v, d, st)


@model("dict.update")
def _dupdate(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="update")
    if a:
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DictC):
            c = st.heap[v.id]
            if c.base is not None:
                b = st.heap[o.id]
                if b.base is None and not b.entries:
                    st.heap[o.id] = DictC(c.entries, c.base, c.over, b.default)
                elif b.base is None:
                    st.heap[o.id] = DictC(b.entries, c.base, c.over, b.default)
                    for kk, vv in c.entries:
                        L.setitem(o, L.unkey(kk), vv, st, n)
                else:
                    L.I.gap("dict.update", n)
            else:
                for kk, vv in c.entries:
                    L.setitem(o, L.unkey(kk), vv, st, n)
        elif isinstance(v, OpaqueV):
            b = st.heap[o.id]
            if b.base is None:
                st.heap[o.id] = DictC(b.entries, v if isinstance(v, OpaqueDict) else L.as_opaque_dict(v), (), b.default)
            else:
                L.I.gap("dict.update", n)
        elif isinstance(v, LibObj) and v.kind == "config":
            b = st.heap[o.id]
            st.heap[o.id] = DictC(b.entries, ("config", v), (), b.default)
        else:
            items = L.concrete_items(v, st)
            if items is None:
                L.I.gap("dict.update", n)
                return
            for x in items:
                kv = L.unpack(x, 2, st, n)
                L.setitem(o, kv[0], kv[1], st, n)
    for kk, vv in k.items():
        L.setitem(o, StrV([kk]), vv, st, n)


@model("dict.setdefault")
def _dsetdefault(L, o, a, k, st, n):
    d = a[1] if len(a) > 1 else None
    c = st.heap[o.id]
    has = L.I.decide(L.dict_has(c, L.dkey(a[0]), st, n), st)
    if has is True:
        return L.getitem(o, a[0], st, n)
    if has is False:
        L.setitem(o, a[0], d, st, n)
        return d
    L.I.branch(has, lambda s: None, lambda s: L.setitem(o, a[0], d, s, n), st)
    return L.getitem(o, a[0], st, n)


@model("dict.copy", "opqdict.copy", "opq.copy")
def _dcopy(L, o, a, k, st, n):
    return _dict(L, [o], {}, st, n)


@model("dict.pop")
def _dpop(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="pop")
    c = st.heap[o.id]
    kk = L.dkey(a[0])
    if len(a) > 1:
        v = L.dict_get(o, c, kk, st, n, default=(a[1],))
    else:
        v = L.dict_get(o, c, kk, st, n)
    c = st.heap[o.id]
    st.heap[o.id] = DictC([x for x in c.entries if L.key_eq(x[0], kk) is not True], c.base, c.over, c.default)
    return v


@model("dict.clear", "dict.popitem")
def _dclear(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="clear")
    st.heap[o.id] = DictC(())


@model("opqdict.update", "opqdict.pop", "opqdict.setdefault", "opqdict.clear", "opq.update", "opq.append", "opq.extend", "opq.pop", "opq.sort", "opq.clear",
       "opq.setdefault", "opq.remove", "opq.insert", "opq.reverse", "opqseq.append", "opqseq.extend", "opqseq.sort", "opqseq.pop", "opqseq.insert")
def _omut(L, o, a, k, st, n):
    L.I.event(st, "mutate", n, obj=o, how="method")
    return Unknown("mutated input")


@model("opqseq.copy")
def _oscopy(L, o, a, k, st, n):
    i = fresh("i", ZERO, o.length - 1)
    return L.I.alloc(st, ListC([("comp", i, o.length, (("item", o.elem(P(i))),))]))


# strings
def strm(name):
    def f(L, o, a, k, st, n):
        c = o.concrete()
        cs = [x.concrete() if isinstance(x, StrV) else None for x in a]
        if c is not None and all(x is not None for x in cs):
            r = getattr(c, name)(*cs)
            if isinstance(r, str):
                return StrV([r])
            if isinstance(r, bool):
                return r
            if isinstance(r, int):
                return const(r)
            if isinstance(r, list):
                return L.I.alloc(st, ListC([("item", StrV([x])) for x in r]))
        if name in ("startswith", "endswith"):
            if name == "endswith" and cs and cs[0] is not None and o.parts and isinstance(o.parts[-1], str):
                if o.parts[-1].endswith(cs[0]):
                    return True
                if len(o.parts[-1]) >= len(cs[0]):
                    return False
            if name == "startswith" and cs and cs[0] is not None and o.parts and isinstance(o.parts[0], str):
                if o.parts[0].startswith(cs[0]):
                    return True
                if len(o.parts[0]) >= len(cs[0]):
                    return False
            return catom("str." + name, repr(o.parts), repr(cs))
        if name in ("split", "splitlines", "rsplit", "partition"):
            return OpaqueV(("strsplit", o.parts, tuple(cs)))
        return StrV([(name, o.parts, tuple(x if x is not None else "?" for x in cs))])
    return f


for _nm in ("lower", "upper", "strip", "rstrip", "lstrip", "title", "capitalize", "replace", "startswith", "endswith", "split", "splitlines",
            "rsplit", "isdigit", "find", "zfill", "encode", "center", "ljust", "rjust", "partition"):
    MODELS["str." + _nm] = strm(_nm)


@model("str.format")
def _format(L, o, a, k, st, n):
    r = L.format(o, list(a), k, st)
    if r is not None:
        return r
    parts = list(o.parts)
    for x in list(a) + list(k.values()):
        parts.append(("fmt", "?", -1) + tuple(L.to_str(x, st).parts))
    return StrV(parts)


@model("str.join")
def _join(L, o, a, k, st, n):
    it = L.concrete_items(a[0], st)
    if it is None:
        return StrV([("join",)])
    parts = []
    for j, x in enumerate(it):
        if j:
            parts += list(o.parts)
        parts += list(L.to_str(x, st).parts)
    return StrV(parts)


@model("opq.strip", "opq.lower", "opq.upper")
def _ostr(L, o, a, k, st, n):
    return OpaqueV(("call", ("attr", o.key, "strm")), o.typ)


@model("tuple.__len__")
def _tl(L, o, a, k, st, n):
    return const(len(o.items))


# =============================================================== numpy: constructors
def dims(L, v, st, n):
    d = L.shape_of(v, None, st)
    return d


def np_fill(val):
    def f(L, a, k, st, n):
        A = Args(a, k, ["shape", "fv" if val is None else "dtype", "dtype2"])
        sh = dims(L, A.get("shape"), st, n)
        if sh is None:
            return L.I.gap("array shape", n) if not isinstance(A.get("shape"), Unknown) else Unknown("shape")
        dt = L.dtype_of(A.get("dtype")) or "float64"
        v = val
        if val is None:
            fv = A.get("fv", k.get("fill_value"))
            v = L.num(fv, st)
            if v is None:
                ar = L.to_arr(fv, st, n)
                if ar is None:
                    return L.I.gap("fill value", n)
                return L.I.alloc(st, Arr(sh, lambda idx: ar.at(*bidx(idx, ar.shape, tuple(sh))), dt))
        return L.I.alloc(st, Arr(sh, lambda idx: v, dt))
    return f


MODELS["numpy.zeros"] = np_fill(ZERO)
MODELS["numpy.ones"] = np_fill(ONE)
MODELS["numpy.full"] = np_fill(None)


@model("numpy.empty")
def _empty(L, a, k, st, n):
    A = Args(a, k, ["shape", "dtype"])
    sh = dims(L, A.get("shape"), st, n)
    if sh is None:
        return L.I.gap("array shape", n)
    return L.I.alloc(st, Arr(sh, lambda idx: P(atom("unk", "uninitialised array element")), L.dtype_of(A.get("dtype")) or "float64"))


def like(val):
    def f(L, a, k, st, n):
        A = Args(a, k, ["a", "x", "dtype2"])
        ar = L.to_arr(A.get("a"), st, n)
        if ar is None:
            return L.I.gap("like", n) if not isinstance(A.get("a"), Unknown) else A.get("a")
        v = val if val is not None else L.num(a[1] if len(a) > 1 else k.get("fill_value"), st)
        dt = L.dtype_of(k.get("dtype")) or ar.dt
        if val == "empty":
            v = P(atom("unk", "uninitialised array element"))
        return L.ret(Arr(ar.shape, lambda idx: v, dt, ar.lib), st)
    return f


for _lib in ("numpy", "tensorflow"):
    MODELS[_lib + ".zeros_like"] = like(ZERO)
    MODELS[_lib + ".ones_like"] = like(ONE)
MODELS["numpy.full_like"] = like(None)
MODELS["numpy.empty_like"] = like("empty")


@model("numpy.array", "numpy.asarray", "numpy.copy")
def _array(L, a, k, st, n):
    asarr = L.I.lib_last == "numpy.asarray" and k.get("copy") is not True
    A = Args(a, k, ["object", "dtype"])
    v = A.get("object", k.get("a"))
    if isinstance(v, Unknown):
        return v
    if isinstance(v, Poly) or isinstance(v, (bool, Cond)):
        dt = L.dtype_of(A.get("dtype"))
        return L.I.alloc(st, Arr((), lambda idx: v, dt or ("int64" if isinstance(v, Poly) and is_int(v) else "float64"), "np", None, False, None, {"scalar": True}))
    if isinstance(v, GradList):
        return L.I.gap("array of gradients", n)
    ar = L.to_arr(v, st, n)
    if ar is None:
        if isinstance(v, StrV) or isinstance(v, (OpaqueDict,)):
            return L.I.gap("array()", n)
        if isinstance(v, VecResult):
            return v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC):
            # list of strings or of mixed objects: keep as list
            return v
        return L.I.gap(f"np.array of {type(v).__name__}", n)
    dt = L.dtype_of(A.get("dtype")) or ar.dt
    r = Arr(ar.shape, lambda idx: L.asnum(ar.at(*idx)) if dt != "bool" else ar.at(*idx), dt, "np")
    if isinstance(dt, str) and dt.startswith("int") and not (isinstance(ar.dt, str) and ar.dt.startswith(("int", "uint", "bool"))):
        r = Arr(ar.shape, lambda idx: trunc(P(L.asnum(ar.at(*idx)))), dt, "np")
    if ar.lib == "tf":
        L.I.event(st, "to_numpy", n)
    cp = L.I.truth(k["copy"], st, n) if k.get("copy") is not None and not asarr else True
    if ar.lib != "tf" and isinstance(v, Ref) and isinstance(st.heap.get(v.id), (Arr, ViewC)) and dt == ar.dt and (asarr or cp is not True):
        if asarr or cp is False:
            return v  # no copy is made
        return ChoiceV(cp, L.I.alloc(st, r), v)
    return L.I.alloc(st, r)


@model("numpy.identity", "numpy.eye")
def _eye(L, a, k, st, n):
    p = L.num(a[0], st)
    m = L.num(a[1], st) if len(a) > 1 else p
    return L.I.alloc(st, Arr((p, m), lambda idx: ite(ceq(idx[0] - idx[1]), ONE, ZERO), "float64"))


@model("numpy.diag")
def _diag(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    if ar.ndim == 1:
        return L.I.alloc(st, Arr((ar.shape[0], ar.shape[0]), lambda idx: ite(ceq(idx[0] - idx[1]), P(ar.at(idx[0])), ZERO), ar.dt))
    return L.I.alloc(st, Arr((ar.shape[0],), lambda idx: ar.at(idx[0], idx[0]), ar.dt))


@model("numpy.linspace")
def _linspace(L, a, k, st, n):
    A = Args(a, k, ["start", "stop", "num", "endpoint", "retstep", "dtype"])
    s, e = L.num(A.get("start"), st), L.num(A.get("stop"), st)
    m = L.num(A.get("num", const(50)), st)
    if (s is None or e is None) and m is not None:
        sa, ea = L.to_arr(A.get("start"), st, n), L.to_arr(A.get("stop"), st, n)
        if sa is not None and ea is not None and sa.ndim <= 1 and ea.ndim <= 1 and max(sa.ndim, ea.ndim) == 1 and not ({"axis", "retstep"} & set(k)):
            d = sa.shape[0] if sa.ndim else ea.shape[0]
            ep = A.get("endpoint", True)
            if ep in (True, False) and (sa.ndim != ea.ndim or deq(sa.shape[0], ea.shape[0])):
                den = inv(m - 1 if ep is True else m)
                at1 = lambda x, j: x.at(j) if x.ndim else x.at()
                return L.I.alloc(st, Arr((m, d), lambda idx: at1(sa, idx[1]) + (at1(ea, idx[1]) - at1(sa, idx[1])) * idx[0] * den, "float64"))
    if s is None or e is None or m is None:
        return L.I.gap("linspace", n)
    ep = A.get("endpoint", True)
    div = m - 1 if ep is True else m
    if ep not in (True, False):
        return L.I.gap("linspace endpoint", n)
    step = (e - s) * inv(div)
    if m == ONE:
        step = ZERO
    r = L.I.alloc(st, Arr((m,), lambda idx: s + idx[0] * step, "float64"))
    if A.get("retstep") is True:
        return TupleV([r, step])
    return r


@model("numpy.arange", "tensorflow.range")
def _arange(L, a, k, st, n):
    v = [L.num(x, st) for x in a]
    if any(x is None for x in v):
        return L.I.gap("arange", n)
    if len(v) == 1:
        s, e, t = ZERO, v[0], ONE
    else:
        s, e, t = v[0], v[1], v[2] if len(v) > 2 else ONE
    if is_int(s) and is_int(e) and is_int(t):
        cnt = e - s if t == ONE else fdiv(e - s + t - 1, t)
        dt = "int64"
    else:
        cnt = mk_fn("ceil", (e - s) * inv(t))
        if cnt.single_atom() is not None:
            INTS.add(cnt.single_atom())
            NONNEG.add(cnt.single_atom())
        dt = "float64"
    return L.I.alloc(st, Arr((cnt,), lambda idx: s + idx[0] * t, L.dtype_of(k.get("dtype")) or dt))


@model("numpy.meshgrid", "tensorflow.meshgrid")
def _meshgrid(L, a, k, st, n):
    ars = [L.to_arr(x, st, n) for x in a]
    if any(x is None or x.ndim != 1 for x in ars):
        return L.I.gap("meshgrid", n)
    ix = k.get("indexing")
    ij = isinstance(ix, StrV) and ix.concrete() == "ij"
    if len(ars) != 2:
        if not ij and len(ars) > 2:
            return L.I.gap("meshgrid of more than two axes", n)
        sh = tuple(x.shape[0] for x in ars)
        return L.I.alloc(st, ListC([("item", L.I.alloc(st, Arr(sh, (lambda d, x: lambda idx: x.at(idx[d]))(d, x), x.dt))) for d, x in enumerate(ars)]))
    x, y = ars
    if ij:
        sh = (x.shape[0], y.shape[0])
        X = Arr(sh, lambda idx: x.at(idx[0]), x.dt)
        Y = Arr(sh, lambda idx: y.at(idx[1]), y.dt)
    else:
        sh = (y.shape[0], x.shape[0])
        X = Arr(sh, lambda idx: x.at(idx[1]), x.dt)
        Y = Arr(sh, lambda idx: y.at(idx[0]), y.dt)
    return L.I.alloc(st, ListC([("item", L.I.alloc(st, X)), ("item", L.I.alloc(st, Y))]))


# =============================================================== numpy: shaping
def nret(L, r, ins, st):
    if r is None:
        return None
    if any(x.lib == "tf" for x in ins):
        return L.tfres(r, ins, st)
    return L.I.alloc(st, r)


@model("tensorflow.reshape")
def _tfreshape(L, a, k, st, n):
    A = Args(a, k, ["tensor", "shape", "name"])
    v = MODELS["tensorflow.convert_to_tensor"](L, [A.get("tensor")], {}, st, n)
    return v if isinstance(v, Unknown) else do_reshape(L, v, A.get("shape"), st, n)


@model("numpy.reshape")
def _reshape(L, a, k, st, n):
    A = Args(a, k, ["a", "newshape", "order"])
    v = A.get("a", k.get("tensor"))
    sh = A.get("newshape", k.get("shape"))
    o = A.get("order")
    return do_reshape(L, v, sh, st, n, o.concrete() if isinstance(o, StrV) else None)


def do_reshape(L, v, sh, st, n, order=None, copy=False):
    if isinstance(v, Unknown):
        return v
    ar = L.to_arr(v, st, n)
    if ar is None:
        return L.I.gap("reshape operand", n)
    d = L.shape_of(sh, None, st)
    if d is None:
        return L.I.gap("reshape shape", n)
    total = prod(ar.shape)
    d = L.arr.resolve_shape(total, list(d))
    t2 = prod(d)
    if t2 != total and is_zero(t2 - total) is not True:
        L.shape_mismatch(total, t2, st, n)
        if st.dead:
            return Unknown("reshape")
    if order in ("F",):
        r = L.arr.transpose(L.arr.reshape(L.arr.transpose(ar), list(reversed(d))))
    elif order in (None, "C") or order in ("K", "A") and sum(x != ONE for x in ar.shape) <= 1:
        r = L.arr.reshape(ar, d)
    else:
        if order not in ("K", "A"):
            return L.I.gap("reshape order", n)
        # memory order of an array of unknown layout: some reordering of the entries
        r = L.arr.reshape(ar, d)
        perm = new_id()
        if len(r.shape) != 1:
            return L.I.gap("reshape order", n)
        r = Arr(r.shape, lambda ix, r=r: r.at(_memorder(perm, ix[0], r.shape[0])), r.dt, r.lib)
    if ar.lib == "tf":
        return nret(L, r, [ar], st)
    if order in (None, "C") and not copy and isinstance(v, Ref) and isinstance(st.heap.get(v.id), Arr):
        # contiguous source: the result shares its memory
        osh = ar.shape
        return L.remap(v, r, lambda idx: unflat(idx, d, osh), lambda idx: unflat(idx, osh, d), st)
    return L.I.alloc(st, r)


def _memorder(uid, i, n):
    t = atom("memorder", uid, i, n)
    INTS.add(t)
    NONNEG.add(t)
    return P(t)


def unflat(idx, frm, to):
    """index tuple of a C-ordered array of shape `to` for index `idx` of its reshape to `frm`"""
    got = []
    probe = Arr(to, lambda ix: got.append(list(ix)) or ZERO, "float64")
    ArrOps.reshape(None, probe, frm).at(*idx)
    return got[-1]


@model("arr.reshape")
def _mreshape(L, o, a, k, st, n):
    if len(a) == 1 and not isinstance(a[0], Poly):
        sh = a[0]
    else:
        sh = TupleV(a)
    od = k.get("order")
    return do_reshape(L, o, sh, st, n, od.concrete() if isinstance(od, StrV) else None)


@model("arr.flatten", "arr.ravel", "numpy.ravel")
def _flatten(L, o, a, k, st, n):
    if isinstance(o, list):  # library-function form
        o, a = o[0], o[1:]
    od = k.get("order") if isinstance(k, dict) else None
    if od is None and a and isinstance(a, list) and isinstance(a[0], StrV):
        od = a[0]
    return do_reshape(L, o, const(-1), st, n, od.concrete() if isinstance(od, StrV) else None, copy=True)


MODELS["arr.ravel"] = lambda L, o, a, k, st, n: do_reshape(L, o, const(-1), st, n, *[x.concrete() for x in (list(a) + list(k.values()))[:1] if isinstance(x, StrV)])
MODELS["numpy.ravel"] = lambda L, a, k, st, n: do_reshape(L, a[0], const(-1), st, n)


@model("arr.copy")
def _acopy(L, o, a, k, st, n):
    ar = L.to_arr(o, st, n)
    return L.I.alloc(st, Arr(ar.shape, lambda idx: ar.at(*idx), ar.dt, "np", None, False, None, {"copy": True}))


@model("arr.astype")
def _astype(L, o, a, k, st, n):
    dt = L.dtype_of(a[0] if a else k.get("dtype"))
    if k.get("copy") is False and isinstance(o, Ref) and isinstance(st.heap.get(o.id), (Arr, ViewC)) and L.to_arr(o, st, n).dt == dt:
        return o
    return L.cast(o, dt, st, n)


@model("arr.tobytes")
def _tobytes(L, o, a, k, st, n):
    ar = L.to_arr(o, st, n)
    dims = [d.const() if d.is_const() else None for d in ar.shape]
    if None in dims or math.prod([int(d) for d in dims] or [1]) > 32:
        return L.I.gap("tobytes of a large array", n)
    out = []
    for ix in itertools.product(*[range(int(d)) for d in dims]):
        out.append(P(L.asnum(ar.at(*[const(x) for x in ix]))))
    return TupleV([StrV(["bytes"])] + out)


@model("arr.tolist")
def _tolist(L, o, a, k, st, n):
    ar = L.to_arr(o, st, n)
    return tolist(L, ar, st)


def tolist(L, ar, st):
    if ar.ndim == 0:
        return ar.at()
    i = fresh("i", ZERO, ar.shape[0] - 1)
    if ar.ndim == 1:
        if ar.shape[0].is_const() and ar.shape[0].const() <= 16:
            return L.I.alloc(st, ListC([("item", ar.at(const(j))) for j in range(int(ar.shape[0].const()))]))
        return L.I.alloc(st, ListC([("comp", i, ar.shape[0], (("item", ar.at(P(i))),))]))
    sub = Arr(ar.shape[1:], lambda idx: ar.at(P(i), *idx), ar.dt)
    r = tolist(L, sub, st)
    def mark(v):
        if isinstance(v, Ref):
            st.param[v.id] = tuple(st.param.get(v.id, ())) + (i,)
            for s in st.heap[v.id].segs:
                for y in (s[3] if s[0] == "comp" else (s,)):
                    if y[0] == "item":
                        mark(y[1])
    mark(r)
    return L.I.alloc(st, ListC([("comp", i, ar.shape[0], (("item", r),))]))


@model("arr.item")
def _item(L, o, a, k, st, n):
    ar = L.to_arr(o, st, n)
    if a:
        return L.getitem(o, a[0] if len(a) == 1 else TupleV(a), st, n)
    return P(L.asnum(ar.at(*[ZERO] * ar.ndim)))


@model("arr.fill")
def _afill(L, o, a, k, st, n):
    L.setitem(o, ELL, a[0], st, n)


@model("num.item", "num.numpy", "num.copy")
def _nitem(L, o, a, k, st, n):
    return o


@model("num.reshape", "num.flatten", "num.astype", "num.ravel")
def _nreshape(L, o, a, k, st, n):
    raise_dummy = None
    return L.I.alloc(st, Arr((ONE,) * max(1, len(a)), lambda idx: o, "float64"))


MODELS["num.astype"] = lambda L, o, a, k, st, n: L.cast(o, L.dtype_of(a[0]), st, n)
MODELS["num.is_integer"] = lambda L, o, a, k, st, n: is_int(o) if is_int(o) else cunk("is_integer")
MODELS["bool.any"] = MODELS["bool.all"] = lambda L, o, a, k, st, n: o


@model("numpy.transpose", "tensorflow.transpose", "arr.transpose", "numpy.swapaxes")
def _transpose(L, o, a, k=None, st=None, n=None):
    raise NotImplementedError


def _np_transpose(L, a, k, st, n):
    A = Args(a, k, ["a", "axes"])
    v = A.get("a", k.get("x"))
    ax = A.get("axes", k.get("perm"))
    return do_transpose(L, v, ax, st, n)


def do_transpose(L, v, ax, st, n):
    if isinstance(v, Unknown):
        return v
    ar = L.to_arr(v, st, n)
    if ar is None:
        return L.I.gap("transpose", n)
    axes = None
    if ax is not None:
        it = L.concrete_items(ax, st)
        axes = [int(x.const()) % ar.ndim for x in it]
        if sorted(axes) != list(range(ar.ndim)):
            L.I.raise_(st, "ValueError", n, "axes don't match array")
            return Unknown("transpose")
    return tview(L, v, ar, axes, st)


def tview(L, v, ar, axes, st):
    """transposed array: a view for numpy, a new tensor for tensorflow"""
    r = L.arr.transpose(ar, axes)
    if ar.lib == "tf" or not ar.shape:
        return nret(L, r, [ar], st)
    axes = list(axes) if axes is not None else list(range(ar.ndim))[::-1]

    def fwd(idx):
        bi = [None] * len(axes)
        for o, k in enumerate(axes):
            bi[k] = idx[o]
        return bi
    return L.remap(v, r, fwd, lambda idx: [idx[k] for k in axes], st)


MODELS["numpy.transpose"] = MODELS["tensorflow.transpose"] = _np_transpose
MODELS["arr.transpose"] = lambda L, o, a, k, st, n: do_transpose(L, o, None if not a else (a[0] if len(a) == 1 and not isinstance(a[0], Poly) else TupleV(a)), st, n)


def _swap(L, v, x, y, st, n):
    ar = L.to_arr(v, st, n)
    axes = list(range(ar.ndim))
    x, y = int(x.const()), int(y.const())
    axes[x], axes[y] = axes[y], axes[x]
    return tview(L, v, ar, axes, st)


MODELS["numpy.swapaxes"] = lambda L, a, k, st, n: _swap(L, a[0], a[1], a[2], st, n)
MODELS["arr.swapaxes"] = lambda L, o, a, k, st, n: _swap(L, o, a[0], a[1], st, n)


@model("numpy.moveaxis")
def _moveaxis(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    s, d = int(a[1].const()) % ar.ndim, int(a[2].const()) % ar.ndim
    axes = [x for x in range(ar.ndim) if x != s]
    axes.insert(d, s)
    return tview(L, a[0], ar, axes, st)


def expand(L, v, axis, st, n):
    ar = L.to_arr(v, st, n)
    if ar is None:
        return L.I.gap("expand_dims", n)
    if isinstance(axis, Poly):
        axs = [int(axis.const())]
    else:
        axs = [int(x.const()) for x in L.concrete_items(axis, st)]
    nd = ar.ndim + len(axs)
    axs = sorted(x % nd for x in axs)
    sh = list(ar.shape)
    for x in axs:
        sh.insert(x, ONE)
    keep = [j for j in range(nd) if j not in axs]
    r = Arr(sh, lambda idx: ar.at(*[idx[j] for j in keep]), ar.dt, ar.lib)
    if ar.lib != "tf" and ar.shape:
        def inv(idx):
            it = iter(idx)
            return [next(it) if j in keep else ZERO for j in range(nd)]
        return L.remap(v, r, lambda idx: [idx[j] for j in keep], inv, st)
    return nret(L, r, [ar], st)


MODELS["numpy.expand_dims"] = MODELS["tensorflow.expand_dims"] = lambda L, a, k, st, n: expand(
    L, a[0] if a else k.get("input", k.get("a")), a[1] if len(a) > 1 else k.get("axis", const(-1)), st, n)


def squeeze(L, v, axis, st, n):
    ar = L.to_arr(v, st, n)
    if ar is None:
        return L.I.gap("squeeze", n)
    if axis is None:
        drop = [j for j, d in enumerate(ar.shape) if d == ONE]
    else:
        it = [axis] if isinstance(axis, Poly) else L.concrete_items(axis, st)
        drop = [int(x.const()) % ar.ndim for x in it]
    keep = [j for j in range(ar.ndim) if j not in drop]

    def fn(idx):
        full = [ZERO] * ar.ndim
        for x, j in zip(idx, keep):
            full[j] = x
        return ar.at(*full)
    r = Arr([ar.shape[j] for j in keep], fn, ar.dt, ar.lib)
    if ar.lib == "tf":
        return L.tfres(r, [ar], st)
    if r.shape:
        def fwd(idx):
            full = [ZERO] * ar.ndim
            for x, j in zip(idx, keep):
                full[j] = x
            return full
        return L.remap(v, r, fwd, lambda idx: [idx[j] for j in keep], st)
    return L.ret(r, st)


MODELS["numpy.squeeze"] = MODELS["tensorflow.squeeze"] = lambda L, a, k, st, n: squeeze(L, a[0], a[1] if len(a) > 1 else k.get("axis"), st, n)
MODELS["arr.squeeze"] = lambda L, o, a, k, st, n: squeeze(L, o, a[0] if a else k.get("axis"), st, n)


def arrs_of(L, v, st, n):
    it = L.concrete_items(v, st)
    if it is None:
        return None
    out = [L.to_arr(x, st, n) for x in it]
    return None if any(x is None for x in out) else out


def atl(ar, nd):
    """at least nd dims (leading)"""
    if ar.ndim >= nd:
        return ar
    k = nd - ar.ndim
    return Arr((ONE,) * k + ar.shape, lambda idx: ar.at(*idx[k:]), ar.dt, ar.lib, ar.rec, ar.dep)


def seqstack(L, v, axis, st, n, lib="np"):
    """stack of a list of arrays of symbolic length"""
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC):
        ar = L.segs_arr(st.heap[v.id].segs, st, n, lib)
        if ar is not None and axis == 0:
            return ar
        if ar is not None:
            axes = list(range(1, ar.ndim))
            axes.insert(axis % ar.ndim, 0)
            return L.arr.transpose(ar, axes)
    if isinstance(v, (OpaqueSeq,)):
        return L.to_arr(v, st, n)
    if L.is_arrlike(v, st):
        ar = L.to_arr(v, st, n)
        if axis == 0:
            return ar
        axes = list(range(1, ar.ndim))
        axes.insert(axis % ar.ndim, 0)
        return L.arr.transpose(ar, axes)
    return None


def axis_of(v, d=0):
    if v is None:
        return d
    return int(v.const()) if isinstance(v, Poly) and v.is_const() else None


def check_concat(L, ars, axis, st, n):
    for x in ars[1:]:
        if x.ndim != ars[0].ndim:
            L.I.raise_(st, "ValueError", n, "concatenation of arrays of different rank")
            return False
        for j in range(x.ndim):
            if j != axis % x.ndim and not deq(x.shape[j], ars[0].shape[j]):
                L.shape_mismatch(x.shape[j], ars[0].shape[j], st, n)
                if st.dead:
                    return False
    return True


@model("numpy.stack", "tensorflow.stack")
def _stack(L, a, k, st, n):
    v = a[0] if a else k.get("values", k.get("arrays"))
    ax = axis_of(a[1] if len(a) > 1 else k.get("axis"))
    if isinstance(v, Unknown):
        return v
    if isinstance(v, GradList):
        return L.I.gap("stack of gradients", n)
    tf = n is not None and L.I.lib_last == "tensorflow.stack"
    ars = arrs_of(L, v, st, n)
    if ars is None:
        r = seqstack(L, v, ax, st, n)
        if r is None:
            return L.I.gap("stack", n)
        if tf:
            r = Arr(r.shape, lambda idx, r=r: r.at(*idx), r.dt, "tf", r.rec, r.dep)
            return L.tfres(r, [r], st)
        return L.I.alloc(st, Arr(r.shape, lambda idx: r.at(*idx), r.dt, "np"))
    if not ars:
        L.I.raise_(st, "ValueError", n, "need at least one array to stack")
        return Unknown("stack")
    nd = max(x.ndim for x in ars)
    if any(x.ndim != nd for x in ars):
        L.I.raise_(st, "ValueError", n, "stack of different ranks")
        return Unknown("stack")
    for x in ars[1:]:
        for d1, d2 in zip(x.shape, ars[0].shape):
            if not deq(d1, d2):
                L.shape_mismatch(d1, d2, st, n)
                if st.dead:
                    return Unknown("stack")
    r = L.arr.stack(ars, ax)
    if tf:
        r.lib = "tf"
        return L.tfres(r, ars, st)
    return nret(L, r, ars, st)


def _concat(L, a, k, st, n):
    v = a[0] if a else k.get("values", k.get("arrays"))
    ax = axis_of(a[1] if len(a) > 1 else k.get("axis"))
    if isinstance(v, Unknown):
        return v
    tf = L.I.lib_last == "tensorflow.concat"
    if ax == 0:
        g = group_concat(L, v, st, n)
        if g is not None:
            return g
    ars = arrs_of(L, v, st, n)
    if ars is None:
        # concatenation of a symbolic-length list of equally shaped arrays
        s = seqstack(L, v, 0, st, n)
        if s is None or s.ndim < 2:
            return L.I.gap("concatenate", n)
        x = ax % (s.ndim - 1)
        axes = list(range(1, s.ndim))
        axes.insert(x, 0)
        t = L.arr.transpose(s, axes)
        sh = list(t.shape)
        sh = sh[:x] + [sh[x] * sh[x + 1]] + sh[x + 2:]
        r = L.arr.reshape(t, sh)
        r = Arr(r.shape, lambda idx, r=r: r.at(*idx), r.dt, "tf" if tf else "np")
        if tf:
            return L.tfres(r, [s], st)
        return L.I.alloc(st, r)
    if k.get("axis", 0) is None and "axis" in k:
        ars = [L.arr.reshape(x, (prod(x.shape),)) for x in ars]
        ax = 0
    if not check_concat(L, ars, ax, st, n):
        return Unknown("concatenate")
    r = L.arr.concat(ars, ax)
    if tf:
        r.lib = "tf"
        return L.tfres(r, ars, st)
    return nret(L, r, ars, st)


MODELS["numpy.concatenate"] = MODELS["tensorflow.concat"] = _concat


# ------------------------------------------------------------- grouped accumulation
def gprev_items(L, v, st, n):
    """[placeholder, arrays...] when a sequence to be concatenated holds a group placeholder"""
    it = L.concrete_items(v, st)
    if it is None or not any(isinstance(x, Ref) and isinstance(st.heap.get(x.id), ObjC) and st.heap[x.id].kind == "gprev" for x in it):
        return None
    prev = [x for x in it if isinstance(x, Ref) and isinstance(st.heap.get(x.id), ObjC) and st.heap[x.id].kind == "gprev"]
    rest = [L.to_arr(x, st, n) for x in it if x not in prev]
    if len(prev) != 1 or any(x is None for x in rest) or not rest:
        return None
    g = st.heap[prev[0].id].f
    nd = rest[0].ndim
    m = atom("gprevlen", g["uid"], g["k"])
    INTS.add(m)
    tot = P(m)
    for x in rest:
        tot = tot + x.shape[0]
    return L.I.alloc(st, Arr((tot,) + rest[0].shape[1:], lambda idx: P(atom("unk", "row of a group built in a loop")), rest[0].dt, "np",
                             extra={"gparts": (g["uid"], g["k"], tuple(rest))}))


@model("gprev.append")
def _gpapp(L, o, a, k, st, n):
    g = st.heap[o.id].f
    st.heap[o.id] = ListC((("gprev", g["uid"], g["k"]), ("item", a[0])))


@model("gprev.extend")
def _gpext(L, o, a, k, st, n):
    g = st.heap[o.id].f
    segs = L.to_segs(a[0], st, n)
    if segs is None:
        return L.I.gap("extend of a grouped list", n)
    st.heap[o.id] = ListC((("gprev", g["uid"], g["k"]),) + tuple(segs))


class Group:
    """d[key(i)] collects parts(i) over 0 <= i < count;  form 'rows' | 'list'"""

    def __init__(self, key, i, count, parts, form, dedup=False):
        self.key, self.i, self.count, self.parts, self.form, self.dedup = key, i, count, parts, form, dedup


def group_value(G, kk):
    if G.form == "list":
        return LibObj("grouplist", G=G, k=kk)
    p0 = G.parts[0]
    m = atom("grouplen", id(G), kk, 1 if G.dedup else 0)
    INTS.add(m)
    NONNEG.add(m)
    return Arr((P(m),) + p0.shape[1:], lambda idx: P(atom("groupelem", id(G), kk, 1 if G.dedup else 0, idx)), p0.dt, "np", extra={"group": (G, kk)})


GROUPS = []       # keeps the Group objects alive: their ids name atoms


def group_mapped(ar, f, dt):
    G, kk = ar.extra["group"]
    if G.form != "rows":
        return None
    G2 = Group(G.key, G.i, G.count, tuple(Arr(p.shape, lambda ix, p=p: f(p.at(*ix)), dt) for p in G.parts), "rows", G.dedup)
    GROUPS.append(G2)
    return group_value(G2, kk)


Lib.group_mapper = staticmethod(group_mapped)


def group_summary(L, ph, nxt, pre, i, count, post, unk, node):
    if unk or nxt.base != ph.base or nxt.over or len(nxt.entries) != 1 or pre.entries or pre.base is not None:
        return None
    k, v = nxt.entries[0]
    if not (isinstance(k, Poly) and i in k.free()) or k == P(i):
        return None
    uid = ph.base[1]
    has = catom("inphi", uid, k)

    phase_flags = {"phi", "phiarr", "after", "loopout", "havoc", "unk"}

    def inphis(c):
        if isinstance(c, Cond):
            return ([c] if c.op == "atom" and c.args and c.args[0] == "inphi" else []) + [y for x in c.args for y in inphis(x)]
        return []

    def given(c, present):
        """c once membership of this iteration's own key is known"""
        if c == has:
            return present
        if isinstance(c, Cond) and c.op in ("and", "or", "not"):
            xs = [given(x, present) for x in c.args]
            if c.op == "not":
                return cnot(xs[0])
            r = xs[0]
            for x in xs[1:]:
                r = cand(r, x) if c.op == "and" else cor(r, x)
            return r
        return c

    def occurs_while_present(c):
        """some concrete iteration whose key was already seen satisfies c (a point of the term algebra)"""
        if any(x != has for x in inphis(c)):
            return False
        for seed in range(40):
            for n in (1, 2, 3):
                tr = teval.Trial(seed)
                try:
                    ks = [tr.poly(subst(k, {i: const(j)})) for j in range(n + 1)]
                    if ks[-1] not in ks[:-1] or tr.poly(count) <= n:
                        continue
                    at = subst(has, {i: const(n)})
                    tr.cmemo[at] = True
                    if tr.cond(subst(c, {i: const(n)})) and not tr.uncertain:
                        return True
                except (teval.Undecided, teval.Infeasible):
                    continue
        return False

    def contrib(v, present):
        """(form, parts) this iteration adds to group k, given whether the group exists"""
        if isinstance(v, ChoiceV):
            if v.a is MISSING or v.b is MISSING:
                w, c = (v.a, v.c) if v.b is MISSING else (v.b, cnot(v.c))
                if implied(c, present):
                    return contrib(w, present)
                return None
            if v.c == has or v.c == cnot(has):
                pick = v.a if (v.c == has) == present else v.b
                return contrib(pick, present)
            c = given(v.c, present)
            if c is True or c is False:
                return contrib(v.a if c else v.b, present)
            x, y = contrib(v.a, present), contrib(v.b, present)
            if x is not None and x == y:
                return x
            if present:
                for z, c in ((x, c), (y, cnot(c))):
                    if z is not None and z[0] == "replaced" and not (phase_flags & set(c.flags)) and occurs_while_present(c):
                        return ("replaced", None)
            return None
        if isinstance(v, Ref):
            c = post.heap.get(v.id)
            while isinstance(c, CondC):
                g = given(c.c, present)
                if g is not True and g is not False:
                    return None
                c = c.a if g else c.b
            if isinstance(c, ListC):
                segs = c.segs
                if segs and segs[0][0] == "gprev":
                    if not present or segs[0][1:] != (uid, k):
                        return None
                    segs = segs[1:]
                elif present:
                    return ("replaced", None)
                if any(s[0] != "item" for s in segs):
                    return None
                ps = [L.to_arr(s[1], post, node) for s in segs]
                return None if any(p is None for p in ps) or not ps else ("list", tuple(ps))
            if isinstance(c, (Arr, ViewC)):
                v = L.I.deref(post, v)
        if isinstance(v, Arr):
            g = v.extra.get("gparts")
            if g is not None:
                if not present or g[:2] != (uid, k):
                    return None
                return ("rows", g[2])
            if present:
                return ("replaced", (v,))
            return ("rows", (v,))
        return None

    def implied(c, present):
        want = has if present else cnot(has)
        return c == want or c is True
    a, b = contrib(v, True), contrib(v, False)
    if a is None or b is None:
        return None
    if a[0] == "replaced" or b[0] == "replaced":
        G = Group(k, i, count, (), "replaced")
    else:
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            return None
        for x, y in zip(a[1], b[1]):
            if x is not y:
                j = tuple(P(fresh("g", ZERO, d - 1)) for d in x.shape)
                if len(x.shape) != len(y.shape) or x.at(*j) != y.at(*j):
                    return None
        G = Group(k, i, count, a[1], a[0])
    GROUPS.append(G)
    if G.form == "replaced" or not G.parts:
        return DictC((), OpaqueDict(("group-overwritten", new_id()), lambda kk: Unknown("group overwritten by later iterations")), (), pre.default)
    owner = OpaqueDict(("group", new_id()), lambda kk: group_value(G, kk))
    owner.G = G
    return DictC((), owner, (), pre.default)


MODELS["group_summary"] = group_summary


def group_concat(L, v, st, n):
    r = gprev_items(L, v, st, n)
    if r is not None:
        return r
    if isinstance(v, LibObj) and v.kind == "grouplist":
        G = v.f["G"]
        G2 = Group(G.key, G.i, G.count, G.parts, "rows")
        GROUPS.append(G2)
        return L.I.alloc(st, group_value(G2, v.f["k"]))
    return None


@model("numpy.vstack")
def _vstack(L, a, k, st, n):
    g = group_concat(L, a[0], st, n)
    if g is not None:
        return g
    ars = arrs_of(L, a[0], st, n)
    if ars is None:
        s = seqstack(L, a[0], 0, st, n)
        if s is not None and s.ndim == 2:
            return L.I.alloc(st, Arr(s.shape, lambda idx: s.at(*idx), s.dt))
        if s is not None and s.ndim > 2:
            return L.I.alloc(st, L.arr.reshape(s, (s.shape[0] * s.shape[1],) + s.shape[2:]))
        return L.I.gap("vstack", n)
    ars = [atl(x, 2) for x in ars]
    if not check_concat(L, ars, 0, st, n):
        return Unknown("vstack")
    return nret(L, L.arr.concat(ars, 0), ars, st)


@model("numpy.hstack")
def _hstack(L, a, k, st, n):
    ars = arrs_of(L, a[0], st, n)
    if ars is None:
        ar = seqstack(L, a[0], 0, st, n)
        if ar is None:
            return L.I.gap("hstack", n)
        if ar.ndim == 1:
            return nret(L, ar, [], st)
        return _concat(L, [a[0]], {"axis": ZERO if ar.ndim == 2 else ONE}, st, n)
    ax = 0 if ars[0].ndim <= 1 else 1
    ars = [atl(x, 1) for x in ars]
    if not check_concat(L, ars, ax, st, n):
        return Unknown("hstack")
    return nret(L, L.arr.concat(ars, ax), ars, st)


@model("numpy.column_stack")
def _cstack(L, a, k, st, n):
    ars = arrs_of(L, a[0], st, n)
    if ars is None:
        return L.I.gap("column_stack", n)
    ars = [x if x.ndim == 2 else Arr(x.shape + (ONE,), (lambda x: lambda idx: x.at(idx[0]))(x), x.dt) for x in ars]
    if not check_concat(L, ars, 1, st, n):
        return Unknown("column_stack")
    return nret(L, L.arr.concat(ars, 1), ars, st)


@model("numpy.dstack")
def _dstack(L, a, k, st, n):
    ars = arrs_of(L, a[0], st, n)
    if ars is None:
        return L.I.gap("dstack", n)
    return nret(L, L.arr.stack(ars, 2), ars, st)


@model("numpy.c_")
def _c_(L, a, k, st, n):
    return L.I.gap("np.c_", n)


@model("numpy.append")
def _npappend(L, a, k, st, n):
    if k.get("axis", a[2] if len(a) > 2 else None) == ZERO:
        g = group_concat(L, TupleV(a[:2]), st, n)
        if g is not None:
            return g
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x is None or y is None:
        return L.I.gap("append", n) if not any(isinstance(v, Unknown) for v in a) else Unknown("append")
    ax = a[2] if len(a) > 2 else k.get("axis")
    if ax is None:
        x, y = L.arr.reshape(x, (prod(x.shape),)), L.arr.reshape(y, (prod(y.shape),))
        ax = ZERO
    if not check_concat(L, [x, y], int(ax.const()), st, n):
        return Unknown("append")
    return L.I.alloc(st, L.arr.concat([x, y], int(ax.const())))


@model("numpy.tile")
def _tile(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    reps = L.shape_of(a[1] if len(a) > 1 else k.get("reps"), None, st)
    if ar is None or reps is None:
        return L.I.gap("tile", n)
    nd = max(ar.ndim, len(reps))
    ar = atl(ar, nd)
    reps = [ONE] * (nd - len(reps)) + reps
    sh = [d * r for d, r in zip(ar.shape, reps)]
    return nret(L, Arr(sh, lambda idx: ar.at(*[mod(i, d) if r != ONE else i for i, d, r in zip(idx, ar.shape, reps)]), ar.dt, ar.lib), [ar], st)


MODELS["tensorflow.tile"] = _tile


@model("numpy.resize")
def _resize(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    d = L.shape_of(a[1] if len(a) > 1 else k.get("new_shape"), None, st)
    if ar is None or d is None:
        return L.I.gap("resize", n)
    tot = prod(ar.shape)
    return nret(L, Arr(d, lambda idx: ar.at(*unflat((mod(unflat(idx, d, (prod(d),))[0], tot),), (tot,), ar.shape)), ar.dt, ar.lib), [ar], st)


@model("numpy.repeat", "tensorflow.repeat")
def _repeat(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    r = L.num(a[1] if len(a) > 1 else k.get("repeats"), st)
    ax = a[2] if len(a) > 2 else k.get("axis")
    if ar is None or r is None:
        return L.I.gap("repeat", n)
    if ax is None:
        ar = L.arr.reshape(ar, (prod(ar.shape),))
        x = 0
    else:
        x = int(ax.const()) % ar.ndim
    sh = list(ar.shape)
    sh[x] = sh[x] * r
    return nret(L, Arr(sh, lambda idx: ar.at(*[fdiv(i, r) if j == x else i for j, i in enumerate(idx)]), ar.dt, ar.lib), [ar], st)


def _mrepeat(L, o, a, k, st, n):
    return _repeat(L, [o] + list(a), k, st, n)


MODELS["arr.repeat"] = _mrepeat


@model("numpy.broadcast_to", "tensorflow.broadcast_to")
def _bto(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    sh = L.shape_of(a[1] if len(a) > 1 else k.get("shape"), None, st)
    if ar is None or sh is None:
        return L.I.gap("broadcast_to", n)
    sh = tuple(sh)
    return nret(L, Arr(sh, lambda idx: ar.at(*bidx(idx, ar.shape, sh)), ar.dt, ar.lib), [ar], st)


@model("numpy.atleast_1d", "numpy.atleast_2d")
def _atl(L, a, k, st, n):
    nd = 2 if L.I.lib_last.endswith("2d") else 1
    ar = L.to_arr(a[0], st, n)
    if ar is None:
        return L.I.gap("atleast", n)
    if ar.ndim >= nd and isinstance(a[0], Ref):
        return a[0]
    return L.I.alloc(st, atl(ar, nd))


@model("numpy.roll")
def _roll(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    s = L.num(a[1] if len(a) > 1 else k.get("shift"), st)
    ax = a[2] if len(a) > 2 else k.get("axis")
    if ar is None or s is None:
        return L.I.gap("roll", n)
    if ax is None and ar.ndim > 1:
        return L.I.gap("roll of a flattened array", n)
    x = 0 if ax is None else int(ax.const()) % ar.ndim
    return L.I.alloc(st, Arr(ar.shape, lambda idx: ar.at(*[mod(i - s, ar.shape[x]) if j == x else i for j, i in enumerate(idx)]), ar.dt))


@model("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    ax = a[1] if len(a) > 1 else k.get("axis")
    nm = L.I.lib_last
    if nm.endswith("flipud"):
        axs = [0]
    elif nm.endswith("fliplr"):
        axs = [1]
    elif ax is None:
        axs = list(range(ar.ndim))
    else:
        axs = [int(ax.const()) % ar.ndim]
    return L.I.alloc(st, Arr(ar.shape, lambda idx: ar.at(*[ar.shape[j] - 1 - i if j in axs else i for j, i in enumerate(idx)]), ar.dt))


@model("numpy.split", "numpy.array_split", "tensorflow.split", "tensorflow.unstack")
def _split(L, a, k, st, n):
    ar = L.to_arr(a[0] if a else k.get("value"), st, n)
    nm = L.I.lib_last
    if ar is None:
        return L.I.gap("split", n)
    ax = a[2] if len(a) > 2 else k.get("axis", ZERO)
    x = int(ax.const()) % ar.ndim
    if nm.endswith("unstack"):
        cnt = ar.shape[x]
        if not cnt.is_const():
            return L.I.gap("unstack of symbolic size", n)
        outs = []
        for j in range(int(cnt.const())):
            r = Arr(ar.shape[:x] + ar.shape[x + 1:], (lambda j: lambda idx: ar.at(*(idx[:x] + (const(j),) + idx[x:])))(j), ar.dt, ar.lib)
            outs.append(L.tfres(r, [ar], st))
        return L.I.alloc(st, ListC([("item", r) for r in outs]))
    m = L.num(a[1] if len(a) > 1 else k.get("num_or_size_splits", k.get("indices_or_sections")), st)
    if m is None or not m.is_const():
        return L.I.gap("split", n)
    q = int(m.const())
    w = fdiv(ar.shape[x], m)
    outs = []
    for j in range(q):
        sh = list(ar.shape)
        sh[x] = w
        r = Arr(sh, (lambda j: lambda idx: ar.at(*[i + w * j if t == x else i for t, i in enumerate(idx)]))(j), ar.dt, ar.lib)
        outs.append(nret(L, r, [ar], st))
    return L.I.alloc(st, ListC([("item", r) for r in outs]))


@model("numpy.where", "tensorflow.where")
def _where(L, a, k, st, n):
    if len(a) == 1:
        m = L.to_arr(a[0], st, n)
        if m is None:
            return L.I.gap("where", n)
        return TupleV([L.I.alloc(st, x) for x in L.arr.where_idx(m)])
    return L.ew(lambda c, x, y: ite_any(L.cond(c), x, y), a, st, n, None if True else None)


@model("numpy.nonzero", "numpy.flatnonzero")
def _nonzero(L, a, k, st, n):
    m = L.to_arr(a[0], st, n)
    xs = [L.I.alloc(st, x) for x in L.arr.where_idx(m)]
    return xs[0] if L.I.lib_last.endswith("flatnonzero") else TupleV(xs)


@model("numpy.clip", "tensorflow.clip_by_value")
def _clip(L, a, k, st, n):
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
    r = a[0]
    if lo is not None:
        r = L.ew(lambda x, y: mk_fn("max", P(L.asnum(x)), P(L.asnum(y))), [r, lo], st, n)
    if hi is not None:
        r = L.ew(lambda x, y: mk_fn("min", P(L.asnum(x)), P(L.asnum(y))), [r, hi], st, n)
    return r


# =============================================================== elementwise
def unary(f, dt=None):
    def m(L, a, k, st, n):
        r = L.ew(lambda x: f(P(L.asnum(x))), [a[0] if a else k.get("x")], st, n, dt)
        return outarg(L, r, k, st, n)
    return m


def binary(f, dt=None):
    def m(L, a, k, st, n):
        x = a[0] if a else k.get("x", k.get("x1"))
        y = a[1] if len(a) > 1 else k.get("y", k.get("x2"))
        r = L.ew(lambda p, q: f(P(L.asnum(p)), P(L.asnum(q))), [x, y], st, n, dt)
        return outarg(L, r, k, st, n)
    return m


def outarg(L, r, k, st, n):
    o = k.get("out")
    if o is not None:
        L.setitem(o, ELL, r, st, n)
        return o
    return r


_UN = {"sqrt": sqrt, "square": lambda x: x * x, "negative": lambda x: -x, "absolute": absv, "reciprocal": inv,
       "sign": lambda x: mk_fn("sign", x), "floor": lambda x: mk_fn("floor", x), "ceil": lambda x: mk_fn("ceil", x), "positive": lambda x: x,
       "identity": lambda x: x, "deg2rad": lambda x: mk_fn("deg2rad", x)}
for _f in ("sin", "cos", "tan", "exp", "log", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "log10", "log2", "expm1", "log1p"):
    _UN[_f] = (lambda nm: lambda x: mk_fn(nm, x))(_f)
for _f, _g in _UN.items():
    if _f == "identity":
        MODELS["tensorflow.identity"] = unary(_g)
        continue
    MODELS["numpy." + _f] = unary(_g)
    MODELS["tensorflow." + _f] = unary(_g)
    MODELS["tensorflow.math." + _f] = unary(_g)
MODELS["tensorflow.abs"] = unary(absv)
MODELS["tensorflow.nn.tanh"] = unary(_UN["tanh"])
MODELS["numpy.arctan2"] = binary(lambda y, x: mk_fn("arctan2", y, x))
MODELS["tensorflow.atan2"] = MODELS["numpy.arctan2"]
MODELS["numpy.hypot"] = binary(lambda x, y: sqrt(x * x + y * y))
MODELS["numpy.maximum"] = MODELS["tensorflow.maximum"] = binary(lambda x, y: mk_fn("max", x, y))
MODELS["numpy.minimum"] = MODELS["tensorflow.minimum"] = binary(lambda x, y: mk_fn("min", x, y))
for _l in ("numpy", "tensorflow"):
    MODELS[_l + ".add"] = binary(lambda x, y: x + y)
    MODELS[_l + ".subtract"] = binary(lambda x, y: x - y)
    MODELS[_l + ".multiply"] = binary(lambda x, y: x * y)
    MODELS[_l + ".divide"] = binary(lambda x, y: x * inv(y))
    MODELS[_l + ".floor_divide"] = binary(fdiv)
    MODELS[_l + ".mod"] = binary(mod)
MODELS["numpy.remainder"] = binary(mod)
MODELS["numpy.float64"] = lambda L, a, k, st, n: L.cast(a[0], "float64", st, n) if a else ZERO
MODELS["numpy.equal"] = lambda L, a, k, st, n: L.ew(lambda x, y: ceq(P(L.asnum(x)) - P(L.asnum(y))), a, st, n, "bool")
MODELS["numpy.logical_and"] = lambda L, a, k, st, n: L.elementwise2(a[0], a[1], cand, st, n)
MODELS["numpy.logical_or"] = lambda L, a, k, st, n: L.elementwise2(a[0], a[1], cor, st, n)
MODELS["numpy.logical_not"] = lambda L, a, k, st, n: L.ew(lambda x: cnot(L.cond(x)), [a[0]], st, n, "bool")
MODELS["math.isqrt"] = lambda L, a, k, st, n: trunc(sqrt(L.num(a[0], st)))


@model("numpy.interp", "numpy.histogram", "numpy.percentile", "numpy.median", "numpy.diff", "numpy.gradient", "numpy.convolve")
def _opaque_np(L, a, k, st, n):
    return L.I.gap("numpy function without a model", n)


@model("numpy.cumsum")
def _cumsum(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    ax = a[1] if len(a) > 1 else k.get("axis")
    if ar is not None and ax is None and ar.ndim != 1:
        ar = L.arr.reshape(ar, (prod(ar.shape),))
    if ar is None or not (ax is None or isinstance(ax, Poly) and ax.is_const()):
        return L.I.gap("cumsum", n)
    d = 0 if ax is None else int(ax.const()) % ar.ndim

    def fn(idx):
        v = fresh("c", ZERO, idx[d])
        return mk_sum(v, idx[d] + 1, P(ar.at(*idx[:d], P(v), *idx[d + 1:])))
    return L.I.alloc(st, Arr(ar.shape, fn, ar.dt))


@model("numpy.polyval")
def _polyval(L, a, k, st, n):
    cs = L.concrete_items(a[0], st)
    cs = None if cs is None else [L.num(x, st) for x in cs]
    if not cs or any(c is None for c in cs) or len(a) < 2:
        return L.I.gap("polyval", n)

    def f(x):
        r = ZERO
        for c in cs:
            r = r * x + c
        return r
    return L.ew(lambda x: f(P(x)), [a[1]], st, n)


@model("numpy.fromiter")
def _fromiter(L, a, k, st, n):
    return MODELS["numpy.array"](L, [a[0]], {"dtype": a[1] if len(a) > 1 else k["dtype"]}, st, n)


@model("numpy.take")
def _take(L, a, k, st, n):
    ax = a[2] if len(a) > 2 else k.get("axis")
    v, ix = a[0], a[1] if len(a) > 1 else k.get("indices")
    if ax is None:
        ar = L.to_arr(v, st, n)
        if ar is None or ar.ndim != 1:
            return L.I.gap("take", n)
        return L.getitem(v, ix, st, n)
    if isinstance(ax, Poly) and ax.is_const() and ax.const() >= 0:
        return L.getitem(v, TupleV([SliceV(None, None, None)] * int(ax.const()) + [ix]), st, n)
    return L.I.gap("take", n)


@model("itertools.chain")
def _chain(L, a, k, st, n):
    if len(a) == 1:
        return a[0]
    its = [L.concrete_items(x, st) for x in a]
    if any(x is None for x in its):
        out = []
        for x in a:
            r = L.I.call(LibV("builtins.list"), [x], {}, n, st)
            c = st.heap.get(r.id) if isinstance(r, Ref) else None
            if not isinstance(c, ListC):
                return L.I.gap("itertools.chain", n)
            out += list(c.segs)
        return L.I.alloc(st, ListC(out))
    return L.I.alloc(st, ListC([("item", y) for x in its for y in x]))


OPERATORS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "matmul": "MatMult", "floordiv": "FloorDiv", "mod": "Mod"}
for _nm, _op in OPERATORS.items():
    def _mk(op):
        def f(L, a, k, st, n):
            return L.binop(op, a[0], a[1], st, n)
        return f
    MODELS["operator." + _nm] = _mk(getattr(ast, _op)())


@model("functools.reduce")
def _reduce(L, a, k, st, n):
    it = L.concrete_items(a[1], st)
    if it is None:
        return L.I.gap("reduce over a symbolic sequence", n)
    if len(a) > 2:
        it = [a[2]] + it
    if not it:
        L.I.raise_(st, "TypeError", n, "reduce() of empty iterable")
        return Unknown("reduce")
    r = it[0]
    for x in it[1:]:
        r = L.I.call(a[0], [r, x], {}, n, st)
    return r


@model("builtins.vars")
def _vars(L, a, k, st, n):
    return L.I.getattr(a[0], "__dict__", st, n) if a else L.I.gap("vars()", n)


def grid_obj(which):
    def f(L, k, st, n):
        its = list(k.items) if isinstance(k, TupleV) else [k]
        for j, x in enumerate(its):
            if isinstance(x, SliceV):
                if isinstance(x.step, Poly) and not x.step.is_const() or x.hi is None:
                    return L.I.gap("slice in r_/c_", n)
                its[j] = L.I.call(LibV("numpy.arange"), [x.lo if x.lo is not None else ZERO, x.hi, x.step if x.step is not None else ONE], {}, n, st)
            if isinstance(x, StrV):
                return L.I.gap("directive in r_/c_", n)
        v = L.I.alloc(st, ListC([("item", x) for x in its]))
        return MODELS["numpy.hstack" if which == "r" else "numpy.column_stack"](L, [v], {}, st, n)
    return f


MODELS["getitem:numpy.r_"] = grid_obj("r")
MODELS["getitem:numpy.c_"] = grid_obj("c")


@model("numpy.diff")
def _diff(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    if ar is None or ar.ndim != 1:
        return L.I.gap("diff", n)
    return L.I.alloc(st, Arr((ar.shape[0] - 1,), lambda idx: P(ar.at(idx[0] + 1)) - P(ar.at(idx[0])), ar.dt))


# =============================================================== reductions
def reducer(op):
    def f(L, v, a, k, st, n):
        if isinstance(v, Unknown):
            return v
        ar = L.to_arr(v, st, n)
        if ar is None:
            return L.I.gap(f"reduction of {type(v).__name__}", n)
        ax = a[0] if a else k.get("axis")
        keep = k.get("keepdims", False)
        if ax is None:
            axes = None
        elif isinstance(ax, Poly):
            axes = [int(ax.const())]
        else:
            axes = [int(x.const()) for x in L.concrete_items(ax, st)]
        if axes is not None:
            for x in axes:
                if not -ar.ndim <= x < ar.ndim:
                    L.I.raise_(st, "ValueError", n, "axis out of range")
                    return Unknown("axis")
        r = L.arr.reduce(ar, op, axes, keep is True)
        if ar.lib == "tf":
            return L.tfres(r, [ar], st)
        return L.ret(r, st)
    return f


_RED = {"sum": "sum", "mean": "mean", "max": "max", "min": "min"}
for _n, _o in _RED.items():
    _rf = reducer(_o)
    MODELS["numpy." + _n] = (lambda rf: lambda L, a, k, st, n: rf(L, a[0] if a else k.get("a"), a[1:], k, st, n))(_rf)
    MODELS["arr." + _n] = (lambda rf: lambda L, o, a, k, st, n: rf(L, o, a, k, st, n))(_rf)
    MODELS["tensorflow.reduce_" + _n] = (lambda rf: lambda L, a, k, st, n: rf(L, a[0] if a else k.get("input_tensor"), a[1:], k, st, n))(_rf)
    MODELS["tensorflow.math.reduce_" + _n] = MODELS["tensorflow.reduce_" + _n]
MODELS["numpy.average"] = lambda L, a, k, st, n: (L.I.gap("average with weights", n) if ("weights" in k or len(a) > 2) else MODELS["numpy.mean"](L, a, k, st, n))
MODELS["numpy.nanmax"] = MODELS["numpy.max"]
MODELS["numpy.nanmin"] = MODELS["numpy.min"]
MODELS["arr.any"] = lambda L, o, a, k, st, n: npany(L, o, "any", st, n)
MODELS["arr.all"] = lambda L, o, a, k, st, n: npany(L, o, "all", st, n)
MODELS["numpy.any"] = lambda L, a, k, st, n: npany(L, a[0], "any", st, n)
MODELS["numpy.all"] = lambda L, a, k, st, n: npany(L, a[0], "all", st, n)
MODELS["num.sum"] = MODELS["num.mean"] = MODELS["num.max"] = MODELS["num.min"] = lambda L, o, a, k, st, n: o


def npany(L, v, op, st, n):
    if isinstance(v, (bool, Cond)):
        return v
    ar = L.to_arr(v, st, n)
    if ar is None:
        return cunk(op)
    ds = small_dims(ar.shape)
    if ds is not None:
        import itertools
        cs = [L.cond(ar.at(*[P(x) for x in ix])) for ix in itertools.product(*[range(d) for d in ds])]
        return (cor if op == "any" else cand)(*cs)
    vs = [fresh("q", ZERO, d - 1) for d in ar.shape]
    c = L.cond(ar.at(*[P(x) for x in vs]))
    if isinstance(c, bool):
        return c
    if not any(x in c.free for x in vs):
        return c
    return catom(op, *ar.shape, lamcond(c, vs))


@model("numpy.prod", "math.prod")
def _prod(L, a, k, st, n):
    ax = a[1] if len(a) > 1 else k.get("axis")
    if isinstance(ax, Poly) and ax.is_const() and not k.get("keepdims"):
        ar = L.to_arr(a[0], st, n)
        ax = int(ax.const())
        if ar is not None and -ar.ndim <= ax < ar.ndim and P(ar.shape[ax]).is_const() and P(ar.shape[ax]).const() <= 16:
            ax %= ar.ndim
            m = int(P(ar.shape[ax]).const())

            def fn(idx):
                r = ONE
                for j in range(m):
                    r = r * P(ar.at(*idx[:ax], const(j), *idx[ax:]))
                return r
            return nret(L, Arr(ar.shape[:ax] + ar.shape[ax + 1:], fn, ar.dt, ar.lib), [ar], st)
    it = L.concrete_items(a[0], st)
    if it is None:
        return L.I.gap("prod", n)
    r = ONE
    for x in it:
        r = r * L.num(x, st)
    return r


def std_var(op):
    def f(L, a, k, st, n):
        ar = L.to_arr(a[0], st, n)
        if ar is None or len(a) > 1 or k:
            return L.I.gap(op, n)
        m = L.arr.reduce(ar, "mean", None, False).at()
        d = Arr(ar.shape, lambda idx: (P(ar.at(*idx)) - m) * (P(ar.at(*idx)) - m), "float64")
        v = L.arr.reduce(d, "mean", None, False).at()
        return sqrt(v) if op == "std" else v
    return f


MODELS["numpy.std"] = std_var("std")
MODELS["numpy.var"] = std_var("var")


def sorting(single, f1, fn_):
    def m(L, a, k, st, n):
        ar = L.to_arr(a[0], st, n)
        if ar is None or any(z in k for z in ("order", "key")):
            return L.I.gap("sort", n)
        ax = a[1] if len(a) > 1 else k.get("axis", const(-1))
        if ax is None:
            ar = L.arr.reshape(ar, (prod(ar.shape),))
            ax = ZERO
        if ar.ndim == 0:
            return L.I.gap("sort of a scalar", n)
        j = axis_of(ax, ar.ndim)
        if j is None:
            return L.I.gap("sort axis", n)
        return L.I.alloc(st, f1(ar) if ar.ndim == 1 else fn_(ar, j))
    return m


_argsort = MODELS["numpy.argsort"] = sorting("argsort", argsort1, argsort_nd)
_npsort = MODELS["numpy.sort"] = sorting("sort", sort1, sort_nd)
MODELS["arr.argsort"] = lambda L, o, a, k, st, n: _argsort(L, [o] + list(a), k, st, n)


@model("numpy.lexsort")
def _lexsort(L, a, k, st, n):
    """stable sorts by the first key, then the second, ...: the last key is the primary one"""
    keys = a[0] if a else k.get("keys")
    it = L.concrete_items(keys, st)
    if it is None or not it or k.get("axis") not in (None, const(-1), ZERO) or len(a) > 1:
        return L.I.gap("lexsort", n)
    ks = [L.to_arr(z, st, n) for z in it]
    if any(z is None or z.ndim != 1 for z in ks):
        return L.I.gap("lexsort keys", n)
    m = ks[0].shape[0]
    p = argsort1(ks[0])
    for z in ks[1:]:
        def step(p, z):
            s = argsort1(Arr((m,), lambda ix: z.at(P(p.at(*ix))), z.dt))
            return Arr((m,), lambda ix: P(p.at(P(s.at(*ix)))), "int64")
        p = step(p, z)
    return L.I.alloc(st, p)


for _nm in ("masked_invalid", "filled", "array", "asarray"):
    # no value is invalid over the reals, and nothing else is masked
    MODELS["numpy.ma." + _nm] = (lambda nm: lambda L, a, k, st, n: MODELS["numpy.array"](L, [a[0]], {}, st, n) if nm in ("masked_invalid", "filled") or not ({"mask"} & set(k)) and len(a) == 1 else L.I.gap("masked array", n))(_nm)


@model("arr.sort")
def _inplace_sort(L, o, a, k, st, n):
    r = _npsort(L, [o] + list(a), k, st, n)
    if isinstance(r, Unknown):
        r = P(atom("unk", "sorted in place"))
    L.setitem(o, ELL, r, st, n)


@model("arr.partition", "arr.put", "arr.resize", "arr.itemset", "arr.byteswap")
def _inplace_other(L, o, a, k, st, n):
    L.setitem(o, ELL, P(atom("unk", "changed in place")), st, n)
    L.I.gap("in-place change of an array", n)


@model("numpy.copyto")
def _copyto(L, a, k, st, n):
    if k.get("where") is not None:
        L.setitem(a[0], ELL, P(atom("unk", "changed in place")), st, n)
        return L.I.gap("copyto with a mask", n)
    L.setitem(a[0], ELL, a[1], st, n)


@model("numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis")
def _put(L, a, k, st, n):
    L.setitem(a[0], ELL, P(atom("unk", "changed in place")), st, n)
    L.I.gap("in-place change of an array", n)


@model("numpy.take_along_axis")
def _take_along(L, a, k, st, n):
    A = Args(a, k, ["arr", "indices", "axis"])
    ar, ix = L.to_arr(A.get("arr"), st, n), L.to_arr(A.get("indices"), st, n)
    if ar is None or ix is None or A.get("axis") is None or ar.ndim != ix.ndim:
        return L.I.gap("take_along_axis", n)
    j = axis_of(A.get("axis"), ar.ndim)
    if j is None:
        return L.I.gap("take_along_axis axis", n)
    shape, bad = bcast_shapes([ar.shape[:j] + (ONE,) + ar.shape[j + 1:], ix.shape])
    for d1, d2 in bad:
        L.shape_mismatch(d1, d2, st, n)
        if st.dead:
            return Unknown("shape mismatch")

    def fn(idx):
        z = bidx(idx, ix.shape, shape)
        y = list(idx)
        y[j] = P(ix.at(*z))
        src = [ZERO if q != j and ar.shape[q] == ONE and shape[q] != ONE else y[q] for q in range(len(y))]
        return ar.at(*src)
    return L.I.alloc(st, Arr(shape, fn, ar.dt))


@model("numpy.nan_to_num")
def _nan_to_num(L, a, k, st, n):
    # real arithmetic has no NaN or infinity
    return L.ew(lambda x: x, [a[0]], st, n)


def argext(op):
    def f(L, a, k, st, n):
        ar = L.to_arr(a[0], st, n)
        if ar is None or (len(a) > 1 or k.get("axis") is not None) and ar.ndim != 1:
            return L.I.gap(op, n)
        ar = L.arr.reshape(ar, (prod(ar.shape),))
        v = fresh("s", ZERO, ar.shape[0] - 1)
        body = P(ar.at(P(v)))
        if op == "argmax":
            body = -body
        return mk_argsort(v, ar.shape[0], body, ZERO)
    return f


for _o in ("argmin", "argmax"):
    MODELS["numpy." + _o] = argext(_o)
    MODELS["arr." + _o] = (lambda f: lambda L, o, a, k, st, n: f(L, [o] + list(a), k, st, n))(argext(_o))


@model("numpy.unique")
def _unique(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    if ar is None:
        return L.I.gap("unique", n)
    if ar.ndim == 1:
        if "return_index" in k or "return_inverse" in k or "return_counts" in k:
            return L.I.gap("unique with extra outputs", n)
        v = fresh("s", ZERO, ar.shape[0] - 1)
        key = T.mk_lam(v, P(ar.at(P(v))))
        c = atom("ucount", ar.shape[0], key)
        INTS.add(c)
        NONNEG.add(c)

        def fn(idx):
            x = atom("uelem", ar.shape[0], key, idx[0])
            if ar.dt in ("int64", "int32"):
                INTS.add(x)
            return P(x)
        return L.I.alloc(st, Arr((P(c),), fn, ar.dt))
    if k.get("axis", a[4] if len(a) > 4 else None) == ZERO and not any(z in k for z in ("return_index", "return_inverse", "return_counts")):
        g = ar.extra.get("group")
        if g is not None:
            G = g[0]
            G2 = Group(G.key, G.i, G.count, G.parts, "rows", True)
            GROUPS.append(G2)
            return L.I.alloc(st, group_value(G2, g[1]))
        c = atom("ucount", ar.shape[0], new_id())
        INTS.add(c)
        NONNEG.add(c)
        uid = new_id()
        return L.I.alloc(st, Arr((P(c),) + ar.shape[1:], lambda idx: P(atom("urow", uid, idx)), ar.dt))
    if k.get("axis") is None and len(a) < 5:
        return _unique(L, [L.arr.reshape(ar, (prod(ar.shape),))], k, st, n)
    return L.I.gap("unique of a matrix", n)


@model("numpy.isin", "numpy.in1d")
def _isin(L, a, k, st, n):
    items = L.concrete_items(a[1], st)
    if items is None:
        return L.I.gap("isin", n)
    import ast
    return L.ew(lambda x: cor(*[ceq(P(L.asnum(x)) - L.num(y, st)) for y in items]), [a[0]], st, n, "bool")


# =============================================================== linear algebra
@model("numpy.dot", "numpy.matmul", "arr.dot")
def _dot(L, a, k, st, n):
    if len(a) < 2:
        return L.I.gap("dot", n)
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x is not None and y is not None and (x.ndim == 0 or y.ndim == 0):
        import ast
        return L.binop(ast.Mult(), a[0], a[1], st, n)
    return outarg(L, L.matmul(a[0], a[1], st, n), k, st, n)


MODELS["arr.dot"] = lambda L, o, a, k, st, n: _dot(L, [o] + list(a), k, st, n)


@model("numpy.inner", "numpy.vdot")
def _inner(L, a, k, st, n):
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x.ndim == 1 and y.ndim == 1:
        return L.matmul(a[0], a[1], st, n)
    if x.ndim == 2 and y.ndim == 2:
        return L.ret(L.arr.einsum("ij,kj->ik", [x, y], st, n), st)
    return L.I.gap("inner", n)


@model("numpy.outer")
def _outer(L, a, k, st, n):
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x is None or y is None:
        return L.I.gap("outer", n)
    x, y = L.arr.reshape(x, (prod(x.shape),)), L.arr.reshape(y, (prod(y.shape),))
    return L.ret(L.arr.einsum("i,j->ij", [x, y], st, n), st)


@model("numpy.multiply.outer")
def _mouter(L, a, k, st, n):
    return _outer(L, a, k, st, n)


@model("numpy.kron")
def _kron(L, a, k, st, n):
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x is None or y is None:
        return L.I.gap("kron", n)
    nd = max(x.ndim, y.ndim)
    x, y = atl(x, nd), atl(y, nd)
    sh = [p * q for p, q in zip(x.shape, y.shape)]
    return L.I.alloc(st, Arr(sh, lambda idx: P(x.at(*[fdiv(i, q) for i, q in zip(idx, y.shape)])) * P(
        y.at(*[mod(i, q) for i, q in zip(idx, y.shape)])), promote(x.dt, y.dt)))


@model("numpy.cross")
def _cross(L, a, k, st, n):
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    if x is not None and y is not None and x.ndim == 1 and x.shape[0] == const(2):
        return P(x.at(ZERO)) * P(y.at(ONE)) - P(x.at(ONE)) * P(y.at(ZERO))
    return L.I.gap("cross", n)


@model("numpy.einsum", "tensorflow.einsum")
def _einsum(L, a, k, st, n):
    s = a[0].concrete() if isinstance(a[0], StrV) else None
    ars = [L.to_arr(x, st, n) for x in a[1:]]
    if s is None or any(x is None for x in ars):
        return L.I.gap("einsum", n)
    r = L.arr.einsum(s, ars, st, n)
    if r is None:
        return L.I.gap("einsum spec", n)
    if any(x.lib == "tf" for x in ars):
        for x in ars[1:]:
            if x.dt != ars[0].dt:
                L.I.event(st, "tf_dtype_mix", n, a=ars[0].dt, b=x.dt)
        return L.tfres(r, ars, st)
    return L.ret(r, st)


@model("numpy.tensordot", "tensorflow.tensordot")
def _tdot(L, a, k, st, n):
    x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
    ax = a[2] if len(a) > 2 else k.get("axes", const(2))
    if x is None or y is None:
        return L.I.gap("tensordot", n)
    if isinstance(ax, Poly):
        m = int(ax.const())
        xa = list(range(x.ndim - m, x.ndim))
        ya = list(range(m))
    else:
        p, q = L.concrete_items(ax, st)
        def lst(z):
            return [int(z.const())] if isinstance(z, Poly) else [int(w.const()) for w in L.concrete_items(z, st)]
        xa, ya = [v % x.ndim for v in lst(p)], [v % y.ndim for v in lst(q)]
    letters = iter("abcdefghijklmnopqrstuvw")
    lx = [next(letters) for _ in range(x.ndim)]
    ly = [None] * y.ndim
    for p, q in zip(xa, ya):
        ly[q] = lx[p]
    ly = [c if c else next(letters) for c in ly]
    out = [c for j, c in enumerate(lx) if j not in xa] + [c for j, c in enumerate(ly) if j not in ya]
    return _einsum(L, [StrV(["".join(lx) + "," + "".join(ly) + "->" + "".join(out)]), a[0], a[1]], {}, st, n)


def det(m):
    k = len(m)
    if k == 1:
        return m[0][0]
    if k == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = ZERO
    for j in range(k):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        r = r + m[0][j] * det(minor) * (1 if j % 2 == 0 else -1)
    return r


def matof(L, v, st, n):
    ar = L.to_arr(v, st, n)
    if ar is None or ar.ndim != 2 or not ar.shape[0].is_const() or ar.shape[0] != ar.shape[1] or ar.shape[0].const() > 4:
        return None, ar
    k = int(ar.shape[0].const())
    return [[P(ar.at(const(i), const(j))) for j in range(k)] for i in range(k)], ar


@model("numpy.linalg.det")
def _det(L, a, k, st, n):
    m, ar = matof(L, a[0], st, n)
    if m is None:
        if ar is not None and ar.ndim == 3 and ar.shape[1] == const(2) and ar.shape[2] == const(2):
            return L.I.alloc(st, Arr((ar.shape[0],), lambda idx: det([[P(ar.at(idx[0], const(i), const(j))) for j in range(2)] for i in range(2)]), "float64"))
        return L.I.gap("det", n)
    return det(m)


@model("numpy.linalg.inv", "scipy.linalg.inv")
def _inv(L, a, k, st, n):
    m, ar = matof(L, a[0], st, n)
    if m is None:
        return L.I.gap("inv", n)
    d = inv(det(m))
    q = len(m)

    def cof(i, j):
        if q == 1:
            return ONE
        minor = [row[:j] + row[j + 1:] for r, row in enumerate(m) if r != i]
        return det(minor) * (1 if (i + j) % 2 == 0 else -1)
    ent = [[cof(j, i) * d for j in range(q)] for i in range(q)]
    rows = [L.to_arr(TupleV(r), st, n) for r in ent]
    return L.I.alloc(st, L.arr.stack(rows, 0))


@model("numpy.linalg.solve", "scipy.linalg.solve")
def _solve(L, a, k, st, n):
    m, ar = matof(L, a[0], st, n)
    b = L.to_arr(a[1], st, n)
    if m is None or b is None:
        return L.I.gap("solve", n)
    q = len(m)
    d = inv(det(m))

    def col(i, rhs):
        mm = [row[:i] + [rhs[r]] + row[i + 1:] for r, row in enumerate(m)]
        return det(mm) * d

    def fn(idx):
        rhs = [P(b.at(const(r), *idx[1:])) for r in range(q)]
        e = idx[0]
        if e.is_const():
            return col(int(e.const()), rhs)
        r = col(q - 1, rhs)
        for i in range(q - 2, -1, -1):
            r = ite(ceq(e - i), col(i, rhs), r)
        return r
    return L.I.alloc(st, Arr(b.shape, fn, "float64"))


@model("numpy.linalg.norm", "scipy.linalg.norm", "tensorflow.norm", "tensorflow.linalg.norm")
def _norm(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    if ar is None:
        return L.I.gap("norm", n) if not isinstance(a[0], Unknown) else a[0]
    o = a[1] if len(a) > 1 else k.get("ord")
    ax = a[2] if len(a) > 2 else k.get("axis")
    axes = None if ax is None else [int(ax.const())] if isinstance(ax, Poly) else None
    sq = Arr(ar.shape, lambda idx: P(L.asnum(ar.at(*idx))) * P(L.asnum(ar.at(*idx))), ar.dt, ar.lib)
    ab = Arr(ar.shape, lambda idx: absv(P(L.asnum(ar.at(*idx)))), ar.dt, ar.lib)
    vec = ar.ndim == 1 or axes is not None
    if o is None or (isinstance(o, Poly) and o == const(2) and vec):
        r = L.arr.reduce(sq, "sum", axes, False)
        r2 = Arr(r.shape, lambda idx: sqrt(P(r.at(*idx))), "float64", ar.lib)
    elif isinstance(o, Poly) and o == ONE and vec:
        r2 = L.arr.reduce(ab, "sum", axes, False)
    elif isinstance(o, Poly) and vec and o.single_atom() is not None and o.single_atom().args[:2] == ("const", "inf"):
        r2 = L.arr.reduce(ab, "max", axes, False)
    elif isinstance(o, StrV) and o.concrete() in ("fro", "euclidean"):
        r = L.arr.reduce(sq, "sum", axes, False)
        r2 = Arr(r.shape, lambda idx: sqrt(P(r.at(*idx))), "float64", ar.lib)
    else:
        return L.I.gap("norm order", n)
    if ar.lib == "tf":
        return L.tfres(r2, [ar], st)
    return L.ret(r2, st)


@model("numpy.trace")
def _trace(L, a, k, st, n):
    m, ar = matof(L, a[0], st, n)
    if m is None:
        return L.I.gap("trace", n)
    r = ZERO
    for i in range(len(m)):
        r = r + m[i][i]
    return r


@model("numpy.shape")
def _shape(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    return TupleV(ar.shape) if ar is not None else L.I.gap("shape", n)


@model("numpy.size", "tensorflow.size")
def _size(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    return prod(ar.shape) if ar is not None else L.I.gap("size", n)


@model("numpy.ndim", "tensorflow.rank")
def _ndim(L, a, k, st, n):
    ar = L.to_arr(a[0], st, n)
    return const(ar.ndim) if ar is not None else L.I.gap("ndim", n)


@model("numpy.dtype")
def _dtype(L, a, k, st, n):
    return a[0]


@model("numpy.iscomplexobj", "numpy.isscalar")
def _isscalar(L, a, k, st, n):
    return isinstance(a[0], Poly)


@model("numpy.vectorize")
def _vectorize(L, a, k, st, n):
    return LibObj("vectorized", f=a[0])


@model("calllibobj:vectorized")
def _callvec(L, f, a, k, st, n):
    g = f.f["f"]
    if isinstance(g, UserFn):
        return L.call_user(UserFn(g.key, "scalar"), a, k, st, n)
    ars = [L.to_arr(x, st, n) for x in a]
    if any(x is None for x in ars):
        return L.I.gap("vectorize", n)
    return L.ew(lambda *xs: P(L.asnum(L.num(L.I.call(g, list(xs), {}, n, st.clone()), st))), a, st, n)


@model("numpy.apply_along_axis", "numpy.frombuffer", "numpy.loadtxt", "numpy.genfromtxt", "numpy.load")
def _misc_gap(L, a, k, st, n):
    return L.I.gap("numpy function without a model", n)


@model("numpy.set_printoptions", "numpy.seterr", "warnings.warn", "warnings.filterwarnings", "warnings.simplefilter", "numpy.errstate", "warnings.catch_warnings")
def _noop(L, a, k, st, n):
    return OpaqueV(("noop", 0))


# =============================================================== scipy
@model("scipy.special.jacobi")
def _jacobi(L, a, k, st, n):
    A = Args(a, k, ["n", "alpha", "beta", "monic"])
    v = [L.num(A.get(x), st) for x in ("n", "alpha", "beta")]
    if any(x is None for x in v) or A.get("monic", False) is not False:
        return L.I.gap("jacobi", n)
    return PolyObj([(ONE, v[0], v[1], v[2], 0)])


@model("scipy.special.legendre")
def _legendre(L, a, k, st, n):
    v = L.num(a[0], st)
    if v is None or len(a) > 1 or k:
        return L.I.gap("legendre", n)
    return PolyObj([(ONE, v, ZERO, ZERO, 0)])


@model("scipy.special.chebyu")
def _chebyu(L, a, k, st, n):
    # U_n = (n+1) P_n^{(1/2,1/2)} / P_n^{(1/2,1/2)}(1)
    return L.I.gap("chebyu", n)


@model("scipy.special.eval_legendre")
def _evleg(L, a, k, st, n):
    v = L.num(a[0], st)
    return L.eval_poly(PolyObj([(ONE, v, ZERO, ZERO, 0)]), a[1], st, n)


@model("scipy.special.eval_jacobi")
def _evjac(L, a, k, st, n):
    v = [L.num(x, st) for x in a[:3]]
    return L.eval_poly(PolyObj([(ONE, v[0], v[1], v[2], 0)]), a[3], st, n)


@model("polyobj.deriv")
def _deriv(L, o, a, k, st, n):
    m = L.num(a[0] if a else k.get("m", ONE), st)
    if m is None or not m.is_const():
        return L.I.gap("derivative order", n)
    d = int(m.const())
    return PolyObj([(c, nn, x, y, q + d) for c, nn, x, y, q in o.terms])


@model("numpy.polyder")
def _polyder(L, a, k, st, n):
    return _deriv(L, a[0], a[1:], k, st, n)


MODELS["numpy.polyval"] = lambda L, a, k, st, n: L.eval_poly(a[0], a[1], st, n) if isinstance(a[0], PolyObj) else L.I.gap("polyval", n)


@model("scipy.special.gamma", "math.gamma")
def _gamma(L, a, k, st, n):
    def f(x):
        if x.is_const() and x.const().denominator == 1 and 0 < x.const() < 12:
            r = 1
            for i in range(1, int(x.const())):
                r *= i
            return const(r)
        return P(gammaatom(x))
    return L.ew(lambda x: f(P(L.asnum(x))), [a[0]], st, n)


def gammaatom(x):
    """Gamma(x + k) reduced to Gamma(x0) with x0 the representative without integer constant part"""
    c = x.t.get((), Fr(0))
    k = c.numerator // c.denominator
    base = x - k
    r = P(atom("fn", "gamma", base))
    if k >= 0:
        for j in range(k):
            r = r * (base + j)
    else:
        for j in range(1, -k + 1):
            r = r * inv(base - j)
    return r


MODELS["scipy.special.factorial"] = MODELS["math.factorial"] = lambda L, a, k, st, n: _gamma(L, [L.binop(__import__("ast").Add(), a[0], ONE, st, n)], {}, st, n)


def quad_rule(kind, *keyf):
    def f(L, a, k, st, n):
        v = [L.num(x, st) for x in a]
        if any(x is None for x in v):
            return L.I.gap("quadrature rule", n)
        if kind == "legendre":
            q, key = v[0], ("legendre",)
        else:
            q = v[0]
            key = ("jacobi", v[1], v[2]) if len(v) > 2 else ("jacobi", L.num(k.get("alpha"), st), L.num(k.get("beta"), st))

        def X(idx):
            return P(atom("gaussx", key, q, idx[0]))

        def W(idx):
            t = atom("gaussw", key, q, idx[0])
            NONNEG.add(t)
            POSITIVE.add(t)
            return P(t)
        return TupleV([L.I.alloc(st, Arr((q,), X, "float64")), L.I.alloc(st, Arr((q,), W, "float64"))])
    return f


MODELS["numpy.polynomial.legendre.leggauss"] = quad_rule("legendre")
MODELS["scipy.special.roots_legendre"] = MODELS["scipy.special.p_roots"] = quad_rule("legendre")
MODELS["scipy.special.roots_jacobi"] = MODELS["scipy.special.j_roots"] = quad_rule("jacobi")


# =============================================================== random
def rng_event(L, st, n, name, size, lo=None, hi=None):
    """a draw: elements are opaque fresh atoms"""
    uid = new_id()
    L.I.event(st, "rng", n, fn=name, uid=uid)
    return uid


def rnd(name, integer=False):
    def f(L, a, k, st, n):
        uid = rng_event(L, st, n, name, None)
        loops = tuple(P(i) for i, _ in st.loops)
        if name == "randint":
            A = Args(a, k, ["low", "high", "size"])
            lo, hi, size = L.num(A.get("low"), st), A.get("high"), A.get("size")
            hi = L.num(hi, st) if hi is not None else None
            if hi is None:
                lo, hi = ZERO, lo
        elif name == "uniform":
            A = Args(a, k, ["low", "high", "size"])
            lo, hi, size = L.num(A.get("low", ZERO), st), L.num(A.get("high", ONE), st), A.get("size")
        elif name in ("choice",):
            A = Args(a, k, ["a", "size", "replace", "p"])
            p = A.get("a")
            size = A.get("size")
            ar = L.to_arr(p, st, n) if not isinstance(p, Poly) else None
            hi = p if isinstance(p, Poly) else (ar.shape[0] if ar is not None else None)
            if hi is None:
                return L.I.gap("random choice", n)
            lo = ZERO
        elif name == "permutation":
            p = a[0]
            ar = L.to_arr(p, st, n) if not isinstance(p, Poly) else None
            hi = p if isinstance(p, Poly) else ar.shape[0]
            lo, size = ZERO, hi
        elif name in ("rand", "randn"):
            size = TupleV(a) if a else None
            lo, hi = ZERO, ONE
        else:
            A = Args(a, k, ["size"]) if name in ("random", "random_sample", "ranf") else Args(a, k, ["loc", "scale", "size"])
            size = A.get("size")
            lo, hi = ZERO, ONE
        is_i = name in ("randint", "choice", "permutation", "integers")

        def el(idx):
            x = atom("rnd", name, uid, idx + loops)
            if is_i:
                INTS.add(x)
                if lo is not None and hi is not None:
                    BOUNDS[x] = (lo, hi - 1)
            elif name not in ("normal", "randn"):
                BOUNDS[x] = (lo, hi)
            return P(x)
        src = None
        if name in ("choice", "permutation") and not isinstance(a[0], Poly):
            src = ar
        if size is None:
            v = el(())
            return v if src is None else src.at(v)
        d = L.shape_of(size, None, st)
        if d is None:
            return L.I.gap("random size", n)
        if src is not None:
            return L.I.alloc(st, Arr(d, lambda idx: src.at(el(idx)), src.dt))
        return L.I.alloc(st, Arr(d, lambda idx: el(idx), "int64" if is_i else "float64"))
    return f


for _n in ("randint", "uniform", "rand", "randn", "random", "random_sample", "choice", "permutation", "normal"):
    MODELS["numpy.random." + _n] = rnd(_n)


@model("numpy.random.seed", "random.seed", "tensorflow.random.set_seed", "tensorflow.keras.utils.set_random_seed", "numpy.random.set_state")
def _seed(L, a, k, st, n):
    L.I.event(st, "seed", n, fn=L.I.lib_last)


@model("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random")
def _defrng(L, a, k, st, n):
    args = list(a) + list(k.values())
    drawn = any(isinstance(x, Poly) and "rnd" in x.flags() for x in args)
    known = all(isinstance(x, Poly) or x is None for x in args)
    L.I.event(st, "private_rng", n, fn=L.I.lib_last, seeded=True if drawn else (False if known else None))
    return L.I.alloc(st, ObjC("rng", {"seeded": bool(a or k)}))


for _n in ("integers", "uniform", "random", "choice", "permutation", "normal", "randint", "rand"):
    MODELS["rng." + _n] = (lambda nm: lambda L, o, a, k, st, n: rnd("randint" if nm == "integers" else nm)(L, a, k, st, n))(_n)


@model("numpy.random.shuffle")
def _shuffle(L, a, k, st, n):
    L.I.event(st, "rng", n, fn="shuffle", uid=new_id())
    L.I.event(st, "mutate", n, obj=a[0], how="shuffle")
    ar = L.to_arr(a[0], st, n)
    if ar is not None and isinstance(a[0], Ref) and isinstance(st.heap.get(a[0].id), Arr):
        perm = rnd("permutation")(L, [ar.shape[0]], {}, st, n)
        pa = L.I.deref(st, perm)
        st.heap[a[0].id] = Arr(ar.shape, lambda idx: ar.at(pa.at(idx[0]), *idx[1:]), ar.dt)


for _n in ("random", "uniform", "randint", "choice", "sample", "shuffle", "gauss", "randrange"):
    MODELS["random." + _n] = (lambda nm: lambda L, a, k, st, n: (L.I.event(st, "rng", n, fn="random." + nm, uid=new_id()), P(atom("rnd", nm, new_id())))[1])(_n)


@model("pyDOE.lhs", "pyDOE2.lhs", "pyDOE3.lhs")
def _lhs(L, a, k, st, n):
    A = Args(a, k, ["n", "samples", "criterion", "iterations"])
    d = L.num(A.get("n"), st)
    s = A.get("samples")
    s = L.num(s, st) if s is not None else d
    if d is None or s is None:
        return L.I.gap("lhs", n)
    uid = rng_event(L, st, n, "lhs", None)
    loops = tuple(P(i) for i, _ in st.loops)

    def el(idx):
        x = atom("rnd", "lhs", uid, idx + loops)
        BOUNDS[x] = (ZERO, ONE)
        return P(x)
    return L.I.alloc(st, Arr((s, d), el, "float64"))


@model("time.time", "time.perf_counter", "time.process_time", "timeit.default_timer")
def _time(L, a, k, st, n):
    return P(atom("opq", ("time", new_id())))


@model("datetime.datetime.now", "datetime.datetime.today", "time.strftime")
def _now(L, a, k, st, n):
    return OpaqueV(("time", new_id()))
