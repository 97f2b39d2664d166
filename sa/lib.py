"""Declared models of the language built-ins and of the libraries the analysed code calls.
Each model states the abstract effect of a call; a call without a model is reported as a gap
(the dependent checks become undecided), never guessed."""
import ast
from .values import *
from . import terms as T
from .arrays import ArrOps, bcast_shapes, bidx, deq, prod, promote, FLOATS, lamcond, selkey

MODELS = {}
MODEL_PREFIX = []


def model(*names):
    def deco(f):
        for nm in names:
            MODELS[nm] = f
        return f
    return deco


class Args:
    """argument binding for library models"""

    def __init__(self, args, kwargs, names):
        self.d = {}
        self.extra = list(args[len(names):])
        for nm, v in zip(names, args):
            self.d[nm] = v
        for k, v in kwargs.items():
            self.d[k] = v

    def get(self, nm, default=None):
        return self.d.get(nm, default)

    def has(self, nm):
        return nm in self.d


ALIAS = {
    "numpy.float_": "numpy.float64", "numpy.double": "numpy.float64", "numpy.int_": "numpy.int64",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
    "numpy.bool_": "numpy.bool", "numpy.row_stack": "numpy.vstack",
    "numpy.concat": "numpy.concatenate", "numpy.true_divide": "numpy.divide", "numpy.asfarray": "numpy.asarray", "numpy.single": "numpy.float32", "numpy.half": "numpy.float16",
    "numpy.ascontiguousarray": "numpy.asarray", "numpy.asfortranarray": "numpy.asarray", "numpy.asanyarray": "numpy.asarray",
    "numpy.require": "numpy.asarray", "numpy.asarray_chkfinite": "numpy.asarray",
    "tensorflow.compat.v2": "tensorflow", "keras": "tensorflow.keras", "tensorflow.python.keras": "tensorflow.keras",
    "tensorflow.math.square": "tensorflow.square", "tensorflow.squared_difference": "tensorflow.math.squared_difference", "tensorflow.math.reduce_sum": "tensorflow.reduce_sum",
    "tensorflow.math.reduce_mean": "tensorflow.reduce_mean", "tensorflow.math.add": "tensorflow.add",
    "tensorflow.math.subtract": "tensorflow.subtract", "tensorflow.math.multiply": "tensorflow.multiply",
    "tensorflow.math.divide": "tensorflow.divide", "tensorflow.math.abs": "tensorflow.abs", "tensorflow.math.sqrt": "tensorflow.sqrt",
    "tensorflow.math.pow": "tensorflow.pow", "tensorflow.math.add_n": "tensorflow.add_n", "tensorflow.math.exp": "tensorflow.exp",
    "tensorflow.math.sin": "tensorflow.sin", "tensorflow.math.cos": "tensorflow.cos", "tensorflow.math.tanh": "tensorflow.tanh",
    "tensorflow.linalg.matmul": "tensorflow.matmul", "tensorflow.linalg.einsum": "tensorflow.einsum",
    "tensorflow.linalg.matrix_transpose": "tensorflow.transpose", "tensorflow.math.reduce_max": "tensorflow.reduce_max",
    "tensorflow.negative": "tensorflow.negative", "tensorflow.math.negative": "tensorflow.negative",
    "tensorflow.truediv": "tensorflow.divide", "tensorflow.math.truediv": "tensorflow.divide",
    "scipy.special.orthogonal": "scipy.special", "math.fabs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.sin": "numpy.sin",
    "math.cos": "numpy.cos", "math.exp": "numpy.exp", "math.atan2": "numpy.arctan2", "numpy.atan2": "numpy.arctan2", "math.floor": "numpy.floor",
    "math.ceil": "numpy.ceil", "math.isqrt": "math.isqrt", "math.pow": "builtins.pow", "math.hypot": "numpy.hypot",
    "math.log": "numpy.log", "math.tan": "numpy.tan", "math.tanh": "numpy.tanh", "math.prod": "math.prod",
    "numpy.pow": "numpy.power", "numpy.permute_dims": "numpy.transpose",
    "tensorflow.keras.Model": "tensorflow.keras.Model", "tensorflow.keras.models.Model": "tensorflow.keras.Model",
    "matplotlib.pylab": "matplotlib.pyplot", "pathlib.PurePath": "pathlib.Path", "pathlib.PosixPath": "pathlib.Path",
    "tensorflow.keras.optimizers.legacy": "tensorflow.keras.optimizers", "os.path": "os.path", "posixpath": "os.path",
    "tqdm.auto.tqdm": "tqdm.tqdm", "tqdm.std.tqdm": "tqdm.tqdm", "tqdm.trange": "tqdm.trange",
}

DTYPES = {"float64": "float64", "float32": "float32", "float16": "float16", "int": "int64", "int64": "int64", "int32": "int32",
          "uint64": "uint64", "uint32": "uint32", "float": "float64", "bool": "bool", "double": "float64", "object": "object",
          "f8": "float64", "f4": "float32", "single": "float32", "half": "float16", "f2": "float16", "f": "float32", "i8": "int64", "i4": "int32", "str": "str", "intp": "int64", "d": "float64", "complex128": "complex128"}

CONTAINERS = {"builtins.dict", "builtins.list", "builtins.tuple", "builtins.zip", "builtins.enumerate", "builtins.map", "collections.OrderedDict", "itertools.chain", "copy.copy", "copy.deepcopy"}
EXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "AttributeError",
       "OSError", "IOError", "FileNotFoundError", "FileExistsError", "ZeroDivisionError", "AssertionError", "ImportError",
       "ModuleNotFoundError", "StopIteration", "ArithmeticError", "LookupError", "BaseException", "NameError", "SystemExit",
       "KeyboardInterrupt", "PermissionError", "Warning", "UserWarning", "DeprecationWarning", "RuntimeWarning", "FutureWarning",
       "UnboundLocalError", "OverflowError"}

BUILTINS = {"len", "range", "zip", "enumerate", "print", "int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset",
            "isinstance", "issubclass", "abs", "min", "max", "sum", "sorted", "reversed", "map", "filter", "open", "round", "pow",
            "type", "getattr", "setattr", "hasattr", "callable", "any", "all", "repr", "super", "object", "property", "staticmethod",
            "classmethod", "iter", "next", "id", "divmod", "complex", "locals", "globals", "vars", "format", "hash", "slice", "input",
            "bytes", "ord", "chr", "exit", "quit", "dir", "__import__"} | EXC


def path_suffix(parts):
    """file-name suffix when the last literal piece decides it"""
    last = parts[-1]
    if not isinstance(last, str):
        return None
    base = last.rsplit("/", 1)[-1]
    i = base.rfind(".")
    if i > 0 or i == 0 and len(parts) > 1 and "/" not in last:
        return base[i:] if i < len(base) - 1 else ""
    return "" if len(parts) == 1 or "/" in last else None


def key_atoms(k, out=None):
    """every atom inside a mapping key"""
    out = {} if out is None else out
    if isinstance(k, Poly):
        for a in k.atoms():
            key_atoms(a, out)
    elif isinstance(k, Cond):
        for x in k.args:
            key_atoms(x, out)
    elif isinstance(k, T.Atom):
        if a_seen(out, k):
            for x in k.args:
                key_atoms(x, out)
    elif isinstance(k, tuple):
        for x in k:
            key_atoms(x, out)
    elif isinstance(k, TupleV):
        for x in k.items:
            key_atoms(x, out)
    return out


def a_seen(out, k):
    if k in out:
        return False
    out[k] = True
    return True


def subst_key(k, mp):
    if isinstance(k, TupleV):
        return TupleV([subst_key(x, mp) for x in k.items])
    if isinstance(k, (Poly, Cond)):
        return replace_atoms(k, mp) if any(a.kind.startswith("in:") for a in mp) else subst(k, mp)
    return k


class Lib:
    def __init__(self, interp):
        self.I = interp
        self.arr = ArrOps(interp)
        self.memo_cache = {}
        from .interp import MEMO
        self.memos = MEMO
        self.key_owner = {}
        from . import libnp, libtf, libio  # noqa: F401  (register models)

    # ------------------------------------------------------------ names
    def canon(self, dotted):
        d = ALIAS.get(dotted, dotted)
        parts = d.split(".")
        for k in range(len(parts), 0, -1):
            p = ".".join(parts[:k])
            if p in ALIAS:
                d = ".".join([ALIAS[p]] + parts[k:])
                break
        return d

    def builtin(self, name):
        if name in BUILTINS:
            return LibV("builtins." + name)
        if name == "__name__":
            return StrV(["module"])
        return None

    # ------------------------------------------------------------ conversions
    def dtype_of(self, v, st=None):
        if v is None:
            return None
        if isinstance(v, LibV):
            return DTYPES.get(v.name.split(".")[-1], "?")
        if isinstance(v, StrV) and v.concrete() is not None:
            return DTYPES.get(v.concrete(), "?")
        if isinstance(v, OpaqueV):
            return v.key
        if isinstance(v, LibObj) and v.kind == "dtype":
            return v.f["dt"]
        return "?"

    def dtype_val(self, dt, lib):
        if isinstance(dt, str) and dt in DTYPES:
            return LibV(("tensorflow." if lib == "tf" else "numpy.") + dt)
        return LibObj("dtype", dt=dt)

    def num(self, v, st, n=None):
        """numeric scalar value as Poly, or None"""
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, Cond):
            return ite(v, ONE, ZERO)
        if isinstance(v, Arr):
            if all(s == ONE for s in v.shape):
                return self.num(v.at(*[ZERO] * v.ndim), st)
            return None
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, (Arr, ViewC)):
                return self.num(self.I.deref(st, v), st)
            if isinstance(c, ObjC) and c.kind == "tfvar":
                return None
        if isinstance(v, OpaqueV) and not isinstance(v, (OpaqueDict, OpaqueSeq)):
            a = atom("opq", v.key)
            if v.typ == "int":
                INTS.add(a)
            if v.attrs.get("__bounds__"):
                BOUNDS[a] = v.attrs["__bounds__"]
            return P(a)
        return None

    def read_var(self, v, st):
        """tf.Variable ref -> Arr carrying the dependence marker"""
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ObjC) and c.kind == "tfvar":
                a = c.f["val"]
                return Arr(a.shape, lambda idx: a.at(*idx), a.dt, "tf",
                           {"VAR": None, ("var", v.id): None} if c.f.get("trainable", True) is not False else None, True)
        return None

    def cond_arr(self, c, st, n, lib="np"):
        """one of two lists, as an array"""
        x, y = (self.cond_arr(z, st, n, lib) if isinstance(z, CondC) else self.segs_arr(z.segs, st, n, lib) if isinstance(z, ListC) else None for z in (c.a, c.b))
        return None if x is None or y is None else self.I.merge_arr(c.c, x, y)

    def to_arr(self, v, st, n, lib="np"):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Poly):
            return Arr((), lambda idx: v, "int64" if is_int(v) and self.looks_int(v) else "float64", lib)
        if isinstance(v, (bool, Cond)):
            return Arr((), lambda idx: v, "bool", lib)
        if isinstance(v, TupleV):
            return self.items_arr(list(v.items), st, n, lib)
        if isinstance(v, ChoiceV):
            a, b = self.to_arr(v.a, st, n, lib), self.to_arr(v.b, st, n, lib)
            if a is None or b is None:
                return None
            return self.I.merge_arr(v.c, a, b)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, (Arr, ViewC)):
                return self.I.deref(st, v)
            if isinstance(c, ObjC) and c.kind == "tfvar":
                return self.read_var(v, st)
            if isinstance(c, ListC):
                return self.segs_arr(c.segs, st, n, lib)
            if isinstance(c, CondC):
                return self.cond_arr(c, st, n, lib)
            return None
        if isinstance(v, OpaqueSeq):
            e = v.elem(P(fresh("k", ZERO, v.length - 1)))
            ea = self.to_arr(e, st, n, lib)
            if ea is None:
                return None

            def fn(idx):
                x = v.elem(idx[0])
                if isinstance(x, Poly):
                    return x
                return self.to_arr(x, st, n).at(*idx[1:])
            return Arr((v.length,) + ea.shape, fn, "float64", lib)
        if isinstance(v, RangeV):
            return Arr((v.count,), lambda idx: v.start + idx[0] * v.step, "int64", lib)
        if isinstance(v, OpaqueV) and not isinstance(v, OpaqueDict):
            if v.attrs.get("__arr__") is not None:
                return v.attrs["__arr__"]
            p = self.num(v, st)
            return Arr((), lambda idx: p, "float64", lib)
        if isinstance(v, (ItersV, MapV, ZipV, EnumV, DictViewV)):
            s = self.to_segs(v, st, n)
            if s is not None:
                return self.segs_arr(tuple(s), st, n, lib)
        return None

    def looks_int(self, p):
        return is_int(p)

    def items_arr(self, items, st, n, lib):
        if not items:
            return Arr((ZERO,), lambda idx: P(atom("unk", "element of an empty array")), "float64", lib)
        arrs = [self.to_arr(x, st, n, lib) for x in items]
        if any(a is None for a in arrs):
            return None
        nd = max(a.ndim for a in arrs)
        if any(a.ndim != nd for a in arrs):
            return None
        r = self.arr.stack(arrs, 0)
        if any(a.rec for a in arrs):
            r.rec, r.dep = self.merge_rec(arrs, st), True
        return r

    def segs_arr(self, segs, st, n, lib):
        if all(s[0] == "item" for s in segs):
            return self.items_arr([s[1] for s in segs], st, n, lib)
        total = T_seg_len(segs)
        if total is None:
            return None
        k = P(fresh("k", ZERO, total - 1))
        s2 = st.clone()
        e = self.seg_get(segs, k, s2)
        ea = self.to_arr(e, s2, n, lib)
        if ea is None:
            return None
        ka = k.single_atom()
        simple = not isinstance(e, (Ref, TupleV))

        def fn(idx):
            # evaluate lazily at the requested position
            v = self.seg_get(segs, idx[0], s2)
            a = self.to_arr(v, s2, n, lib)
            if a is None:
                return P(atom("unk", "list element"))
            if isinstance(a.shape, tuple) and len(a.shape) != len(idx) - 1:
                return P(atom("unk", "ragged list"))
            return a.at(*idx[1:])
        shape = ea.shape
        if any(ka in d.free() for d in shape):
            return None
        r = Arr((total,) + shape, fn, ea.dt, lib)
        if ea.rec:
            r.rec, r.dep = ea.rec, True
        return r

    def seg_get(self, segs, idx, st):
        """element at position idx of a segmented list"""
        off = ZERO
        pieces = []
        for s in segs:
            ln = T_seg_len((s,))
            if ln is None:
                return Unknown("list of unknown structure")
            pieces.append((off, ln, s))
            off = off + ln
        cands = []
        for (o, ln, s) in pieces:
            lo = clt(idx - o)       # idx < o: before
            hi = cle(o + ln - idx)  # idx >= end
            if lo is True or hi is True:
                continue
            if lo is False and hi is False:
                cands = [(o, ln, s)]
                break
            cands.append((o, ln, s))
        if not cands:
            return Unknown("index outside the list")
        res = None
        for (o, ln, s) in reversed(cands):
            v = self.seg_elem(s, idx - o, st)
            if res is None:
                res = v
            else:
                res = self.I.merge_vals(clt(idx - o - ln), v, res, st)
        return res

    def seg_elem(self, s, k, st):
        if s[0] == "item":
            return s[1]
        if s[0] == "rep":
            return s[1]
        if s[0] == "comp":
            _, i, count, inner = s
            ln = T_seg_len(inner)
            if ln is None or i in ln.free():
                return Unknown("nested list of varying length")
            if ln == ONE and len(inner) == 1 and inner[0][0] == "item":
                return self.I.instantiate(inner[0][1], {i: k}, st)
            q, r = fdiv(k, ln), mod(k, ln)
            inner2 = tuple(self.I.inst_seg(x, {i: q}, st) for x in inner)
            return self.seg_get(inner2, r, st)
        if s[0] == "phi":
            self.I.phi_used.add(s[1])
            if T_append_only(s[1]) and isinstance(s[2], ListC):
                l0 = T_seg_len(s[2].segs)
                if l0 is not None and clt(k - l0) is True:
                    # appended before the loop: still there
                    return self.seg_get(s[2].segs, k, st)
            return PhiV("list element", None)
        return Unknown("list element")

    def concrete_items(self, v, st):
        if isinstance(v, LibObj) and v.kind == "iter":
            return self.concrete_items(v.f["seq"], st)
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ListC):
                its = c.items()
                if its is None and not isinstance(c, UnkListC):
                    ln = T_seg_len(c.segs)
                    if ln is not None and ln.is_const() and ln.const() <= 64 and all(s[0] in ("item", "comp", "rep") for s in c.segs):
                        its = [self.seg_get(c.segs, const(k), st) for k in range(int(ln.const()))]
                        if not all(isinstance(x, (Poly, StrV, bool)) for x in its):
                            its = None
                return its
            if isinstance(c, (Arr, ViewC)):
                a = self.I.deref(st, v)
                return self.arr_items(a, v, st)
            if isinstance(c, DictC) and c.base is None:
                return [self.unkey(k) for k, x in c.entries if x is not MISSING]
            if isinstance(c, InstC):
                lb = c.cls.lib_bases()
                if any(b.name == "typing.NamedTuple" for b in lb):
                    return list(c.attrs.values())
        if isinstance(v, Arr):
            return self.arr_items(v, v, st)
        if isinstance(v, RangeV) and v.count.is_const() and v.count.const() <= 64:
            return [v.start + v.step * k for k in range(int(v.count.const()))]
        if isinstance(v, (ZipV, EnumV, MapV, RevV, DictViewV, ItersV)):
            segs = self.iterate(v, st, None)
            if segs is None:
                return None
            out = []
            for s in segs:
                if s[0] == "nest" or len(s) > 2 or not s[0].is_const() or s[0].const() > 64:
                    return None
                for k in range(int(s[0].const())):
                    out.append(callfn(s[1], const(k), st))
            return out
        if isinstance(v, StrV) and v.concrete() is not None:
            return [StrV([ch]) for ch in v.concrete()]
        if isinstance(v, OpaqueSeq) and v.length.is_const() and v.length.const() <= 64:
            return [v.elem(const(k)) for k in range(int(v.length.const()))]
        return None

    def arr_items(self, a, v, st):
        if a.ndim >= 1 and a.shape[0].is_const() and a.shape[0].const() <= 64:
            return [self.getitem(v, const(k), st, None) for k in range(int(a.shape[0].const()))]
        return None

    def unpack(self, v, k, st, n):
        it = self.concrete_items(v, st)
        if it is not None:
            if len(it) != k:
                self.I.raise_(st, "ValueError", n, f"unpacking {len(it)} values into {k}")
                return [Unknown("bad unpack")] * k
            return it
        if isinstance(v, ChoiceV):
            a, b = self.unpack(v.a, k, st, n), self.unpack(v.b, k, st, n)
            if a is None or b is None:
                return None
            return [self.I.merge_vals(v.c, x, y, st) for x, y in zip(a, b)]
        if isinstance(v, OpaqueV) and not isinstance(v, (OpaqueDict, OpaqueSeq)):
            return [OpaqueV(("get", v.key, j)) for j in range(k)]
        if isinstance(v, VecResult):
            return [v.fn(const(j)) for j in range(k)]
        if isinstance(v, Unknown):
            return [v] * k
        if isinstance(v, (Arr, Ref)) and self.I.is_arr(st, v):
            a = self.to_arr(v, st, n)
            if a.ndim and is_zero(a.shape[0] - k) is True:
                return [self.getitem(v, const(j), st, n) for j in range(k)]
        return None

    def to_segs(self, v, st, n):
        """list segments holding the elements of an iterable"""
        if isinstance(v, TupleV):
            return [("item", x) for x in v.items]
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ListC):
                return list(c.segs)
            if isinstance(c, UnkListC):
                return None
        segs = self.iterate(v, st, n)
        if segs is None:
            return None
        out = []
        for s in segs:
            if s[0] == "nest":
                i = s[3] if s[3] is not None else fresh("i", ZERO, s[1] - 1)
                s2 = st.clone()
                s2.loops = s2.loops + ((i, s[1]),)
                sub = []
                for x in s[2](P(i), s2):
                    if x[0] == "nest" or len(x) > 2:
                        return None
                    j = fresh("i", ZERO, x[0] - 1)
                    sub.append(("comp", j, x[0], (("item", callfn(x[1], P(j), s2)),)))
                out.append(("comp", i, s[1], tuple(sub)))
                continue
            if s[0].is_const() and s[0].const() <= 64 and len(s) == 2:
                out += [("item", callfn(s[1], const(k), st)) for k in range(int(s[0].const()))]
                continue
            i = s[2] if len(s) > 2 and s[2] is not None else fresh("i", ZERO, s[0] - 1)
            before = set(st.heap)
            val = callfn(s[1], P(i), st)
            for k in set(st.heap) - before:
                st.param[k] = tuple(st.param.get(k, ())) + (i,)
            out.append(("comp", i, s[0], (("item", val),)))
        return out

    def list_extend(self, ref, rhs, st, n):
        c = st.heap.get(ref.id)
        sg = self.to_segs(rhs, st, n)
        if isinstance(c, ListC) and sg is not None:
            st.heap[ref.id] = ListC(c.segs + tuple(sg), c.tag)
        else:
            st.heap[ref.id] = UnkListC("extend with an unknown sequence")

    # ------------------------------------------------------------ iteration
    def pick(self, items):
        """element function of a sequence of known items; a symbolic index selects among them"""
        items = list(items)

        def f(k, st):
            if k.is_const():
                return items[int(k.const())]
            v = items[-1]
            for j in range(len(items) - 2, -1, -1):
                v = self.I.merge_vals(cle(k - j), items[j], v, st)
            return v
        f.st = True
        f.concrete = True
        return f

    def alternatives(self, v, st):
        """(condition, value when it holds, value otherwise) of a value that is one sequence or another"""
        if isinstance(v, ChoiceV) and v.a is not MISSING and v.b is not MISSING:
            return v.c, v.a, v.b
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), CondC):
            c = st.heap[v.id]
            if all(isinstance(z, (ListC, CondC)) for z in (c.a, c.b)):
                return c.c, self.I.alloc(st, c.a), self.I.alloc(st, c.b)
        if isinstance(v, EnumV):
            r = self.alternatives(v.it, st)
            return r and (r[0], EnumV(r[1], v.start), EnumV(r[2], v.start))
        if isinstance(v, RevV):
            r = self.alternatives(v.it, st)
            return r and (r[0], RevV(r[1]), RevV(r[2]))
        if isinstance(v, (ZipV, MapV)):
            for q, z in enumerate(v.its):
                r = self.alternatives(z, st)
                if r is not None:
                    mk = lambda w: (lambda its: ZipV(its) if isinstance(v, ZipV) else MapV(v.f, its))(list(v.its[:q]) + [w] + list(v.its[q + 1:]))
                    return r[0], mk(r[1]), mk(r[2])
        return None

    def iterate(self, it, st, n):
        if isinstance(it, TupleV):
            items = it.items
            return [(const(len(items)), self.pick(items))]
        if isinstance(it, RangeV):
            return [(it.count, lambda k: it.start + k * it.step)]
        if isinstance(it, Ref):
            c = st.heap.get(it.id)
            if isinstance(c, ListC):
                return self.iter_segs(c.segs, st)
            if isinstance(c, (Arr, ViewC)):
                a = self.I.deref(st, it)
                if not a.ndim:
                    return None
                f = lambda k, s: self.getitem(it, k, s, n)
                f.st = True
                return [(a.shape[0], f)]
            if isinstance(c, DictC):
                return self.iter_dict(it, c, "keys", st)
            if isinstance(c, InstC):
                g = c.cls.lookup("__iter__")
                if g is not None:
                    r = self.I.call(BoundV(g, it), [], {}, n, st)
                    return self.iterate(r, st, n)
            if isinstance(c, ObjC) and c.kind in ("file",):
                a = fresh("nlines", ZERO, None)
                return [(P(a), lambda k: OpaqueV(("line", it.id, k), "str"))]
            return None
        if isinstance(it, Arr):
            if not it.ndim:
                return None
            f = lambda k, s: self.getitem(it, k, s, n)
            f.st = True
            return [(it.shape[0], f)]
        if isinstance(it, DictViewV):
            d = it.d
            if isinstance(d, OpaqueDict):
                return self.iter_opaque(d, it.what)
            if isinstance(d, OpaqueV):
                return self.iter_opaque(self.as_opaque_dict(d), it.what)
            c = st.heap.get(d.id) if isinstance(d, Ref) else None
            if isinstance(c, DictC):
                return self.iter_dict(d, c, it.what, st)
            return None
        if isinstance(it, OpaqueDict):
            return self.iter_opaque(it, "keys")
        if isinstance(it, OpaqueSeq):
            return [(it.length, it.elem)]
        if isinstance(it, LibObj) and it.kind == "iter":
            return self.iterate(it.f["seq"], st, n)
        if isinstance(it, ItersV):
            return it.segs
        if isinstance(it, (ZipV, EnumV, MapV, RevV)):
            return self.iter_combo(it, st, n)
        if isinstance(it, StrV) and it.concrete() is not None:
            s = it.concrete()
            return [(const(len(s)), self.pick([StrV([x]) for x in s]))]
        if isinstance(it, OpaqueV):
            a = atom("len", it.key)
            INTS.add(a)
            NONNEG.add(a)
            return [(P(a), lambda k: OpaqueV(("get", it.key, k)))]
        if isinstance(it, ChoiceV):
            a, b = self.iterate(it.a, st, n), self.iterate(it.b, st, n)
            if a and b and len(a) == len(b) == 1 and a[0][0] != "nest" and b[0][0] != "nest" and a[0][0] == b[0][0]:
                f = lambda k, s: self.I.merge_vals(it.c, callfn(a[0][1], k, s), callfn(b[0][1], k, s), s)
                f.st = True
                return [(a[0][0], f)]
            return None
        return None

    def iter_segs(self, segs, st):
        out = []
        k = 0
        segs = list(segs)
        while k < len(segs):
            s = segs[k]
            if s[0] == "item":
                run = []
                while k < len(segs) and segs[k][0] == "item":
                    run.append(segs[k][1])
                    k += 1
                out.append((const(len(run)), self.pick(run)))
                continue
            k += 1
            if s[0] == "rep":
                out.append((s[2], (lambda s: lambda j: s[1])(s)))
            elif s[0] == "comp":
                inner = s[3]
                if len(inner) == 1 and inner[0][0] == "item":
                    f = (lambda s: lambda j, z: self.I.instantiate(s[3][0][1], {s[1]: j}, z))(s)
                    f.st = True
                    out.append((s[2], f))
                else:
                    def fn(v, z, s=s):
                        return self.iter_segs([self.I.inst_seg(x, {s[1]: v}, z) for x in s[3]], z)
                    out.append(("nest", s[2], fn, None))
            else:
                return None
        return out

    def as_opaque_dict(self, v):
        return OpaqueDict(v.key, lambda k: OpaqueV(("get", v.key, k)))

    def iter_opaque(self, d, what):
        ln = self.opaque_len(d)
        i = fresh("key", ZERO, ln - 1)
        self.key_owner[i] = d

        def fn(v):
            if what == "keys":
                return v
            if what == "values":
                return d.value_of(v)
            return TupleV([v, d.value_of(v)])
        return [(ln, fn, i)]

    def opaque_len(self, d):
        a = atom("len", d.key)
        NONNEG.add(a)
        return P(a)

    def iter_dict(self, ref, c, what, st):
        segs = []
        items = [(k, v) for k, v in c.entries if v is not MISSING]
        if any(isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING) for k, v in items):
            return None

        def mk(k, v):
            if what == "keys":
                return k
            if what == "values":
                return v
            return TupleV([k, v])
        if items:
            vals = [mk(self.unkey(k), v) for k, v in items]
            segs.append((const(len(items)), self.pick(vals)))
        if c.base is not None:
            if isinstance(c.base, OpaqueDict) and c.over:
                o = c.over[-1]
                ln = self.opaque_len(c.base)
                i = fresh("key", ZERO, ln - 1)
                self.key_owner[i] = c.base

                def fn(v, z):
                    return mk(v, self.I.instantiate(o[2], {o[1]: v}, z))
                fn.st = True
                segs.append((ln, fn, i))
            elif isinstance(c.base, OpaqueDict):
                segs += self.iter_opaque(c.base, what)
            else:
                return None
        return segs

    def unkey(self, k):
        return StrV([k]) if isinstance(k, str) else k

    def iter_combo(self, it, st, n):
        if isinstance(it, EnumV):
            a = self.iterate(it.it, st, n)
            if a is None:
                return None
            out = []
            off = it.start
            for s in a:
                if s[0] == "nest":
                    return None
                f = (lambda s, off: lambda k, z: TupleV([off + k, callfn(s[1], k, z)]))(s, off)
                f.st = True
                if getattr(s[1], "concrete", False):
                    f.concrete = True
                if len(s) > 2:
                    return None
                out.append((s[0], f))
                off = off + s[0]
            return out
        if isinstance(it, MapV):
            z0 = self.iter_combo(ZipV(it.its), st, n)
            if z0 is None:
                return None
            out = []
            for s in z0:
                f = (lambda s: lambda k, z: self.I.call(it.f, list(callfn(s[1], k, z).items), {}, n, z))(s)
                f.st = True
                f.concrete = getattr(s[1], "concrete", False)
                out.append((s[0], f) + tuple(s[2:]))
            return out
        if isinstance(it, RevV):
            a = self.iterate(it.it, st, n)
            if a is None or any(s[0] == "nest" or len(s) > 2 for s in a):
                return None
            out = []
            for s in reversed(a):
                f = (lambda s: lambda k, z: callfn(s[1], s[0] - 1 - k, z))(s)
                f.st = True
                f.concrete = getattr(s[1], "concrete", False)
                out.append((s[0], f))
            return out
        # zip
        lists = [self.iterate(x, st, n) for x in it.its]
        if any(x is None for x in lists):
            return None
        if len(lists) == 1:
            out = []
            for s in lists[0]:
                if s[0] == "nest":
                    return None
                f = (lambda s: lambda k, z: TupleV([callfn(s[1], k, z)]))(s)
                f.st = True
                f.concrete = getattr(s[1], "concrete", False)
                out.append((s[0], f) + tuple(s[2:]))
            return out
        # flatten to common segmentation
        if all(len(x) == 1 and x[0][0] != "nest" for x in lists):
            xs = [x[0] for x in lists]
            if any(len(x) > 2 for x in xs):
                return None
            cnts = [x[0] for x in xs]
            c = cnts[0]
            for d in cnts[1:]:
                if c != d:
                    if is_zero(c - d) is True:
                        continue
                    c = mk_fn("min", c, d)
                    if c.single_atom() is not None and c.single_atom().kind == "fn":
                        INTS.add(c.single_atom())
                        NONNEG.add(c.single_atom())
            f = lambda k, z: TupleV([callfn(x[1], k, z) for x in xs])
            f.st = True
            f.concrete = any(getattr(x[1], "concrete", False) for x in xs)
            return [(c, f)]
        its = [self.concrete_items(x, st) for x in it.its]
        if all(x is not None for x in its):
            m = min(len(x) for x in its)
            rows = [TupleV([x[k] for x in its]) for k in range(m)]
            return [(const(m), self.pick(rows))]
        segl = [self.to_segs(x, st, n) for x in it.its]
        if all(s is not None for s in segl):
            lens = [T_seg_len(s) for s in segl]
            if all(x is not None for x in lens) and all(deq(lens[0], y) for y in lens[1:]):
                f = lambda k, z: TupleV([self.seg_get(s, k, z) for s in segl])
                f.st = True
                return [(lens[0], f)]
        return None

    # ------------------------------------------------------------ strings
    def to_str(self, v, st):
        if isinstance(v, StrV):
            return StrV(v.parts)
        if isinstance(v, Poly):
            if v.is_const() and v.const().denominator == 1:
                return StrV([str(v.const())])
            return StrV([("num", v)])
        if v is None or isinstance(v, bool):
            return StrV([str(v)])
        if isinstance(v, OpaqueV):
            return StrV([("opq", v.key)])
        if isinstance(v, Ref):
            return StrV([("obj", v.id)])
        if isinstance(v, TupleV):
            parts = ["("]
            for i, x in enumerate(v.items):
                if i:
                    parts.append(", ")
                q = self.to_str(x, st)
                parts += (["'"] + list(q.parts) + ["'"]) if isinstance(x, StrV) else list(q.parts)
            return StrV(parts + [",)" if len(v.items) == 1 else ")"])
        if isinstance(v, LibV):
            return StrV([("lib", v.name)])
        return StrV([("val", type(v).__name__)])

    def fmt_parts(self, v, spec, conv, st):
        """the parts a formatted value contributes to a string (f-string, str.format and % alike)"""
        ps = list(self.to_str(v, st).parts)
        if spec in ("", "s", "d", "i") and conv in (-1, None, ord("s")):
            return ps
        if isinstance(v, StrV) and spec.lstrip("<>^").isdigit() and v.concrete() is not None:
            return [format(v.concrete(), spec)]
        if conv == ord("s"):
            conv = -1
        return [("fmt", spec, conv) + tuple(ps)]

    def format(self, tmpl, args, kwargs, st):
        """str.format"""
        import string
        parts, auto = [], 0
        for z in tmpl.parts:
            if not isinstance(z, str):
                parts.append(z)
                continue
            try:
                fields = list(string.Formatter().parse(z))
            except ValueError:
                return None
            for lit, name, spec, conv in fields:
                if lit:
                    parts.append(lit)
                if name is None:
                    continue
                if name == "":
                    name, auto = str(auto), auto + 1
                if spec and "{" in spec:
                    return None
                head = name
                for ch in ".[":
                    head = head.split(ch)[0]
                v = args[int(head)] if head.isdigit() and int(head) < len(args) else kwargs.get(head)
                if v is None and head not in kwargs and not (head.isdigit() and int(head) < len(args)) or head != name:
                    return None
                parts += self.fmt_parts(v, spec or "", ord(conv) if conv else -1, st)
        return StrV(parts)

    def percent(self, tmpl, items, st):
        import re
        parts, items = [], list(items)
        for z in tmpl.parts:
            if not isinstance(z, str):
                parts.append(z)
                continue
            pos_ = 0
            for m in re.finditer(r"%([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", z):
                parts.append(z[pos_:m.start()])
                pos_ = m.end()
                fl, w, pr, t = m.groups()
                if t == "%":
                    parts.append("%")
                    continue
                v = items.pop(0) if items else Unknown("format argument")
                if t == "r":
                    parts += self.fmt_parts(v, "", ord("r"), st)
                    continue
                sp = ("<" if "-" in fl else "") + ("+" if "+" in fl else "") + ("0" if "0" in fl else "") + w + ("." + pr if pr else "")
                if t in "eEfgG" and not pr:
                    sp += ".6"
                parts += self.fmt_parts(v, sp + t if sp or t in "eEfgGxXo" else "", -1, st)
            parts.append(z[pos_:])
        return StrV(parts)

    def dkey(self, v):
        if isinstance(v, StrV):
            c = v.concrete()
            return c if c is not None else v
        if isinstance(v, bool):
            return const(int(v))
        return v

    # ------------------------------------------------------------ attribute access
    def getattr(self, o, name, st, n):
        if isinstance(o, Unknown):
            return o
        if isinstance(o, LibV):
            return self.lib_attr(o, name)
        if isinstance(o, Arr):
            return self.arr_attr(o, o, name, st, n)
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if isinstance(c, (Arr, ViewC)):
                return self.arr_attr(o, self.I.deref(st, o), name, st, n)
            if isinstance(c, (ListC, UnkListC, DictC)):
                return MethodV(o, name)
            if isinstance(c, ObjC):
                return self.obj_attr(o, c, name, st, n)
        if isinstance(o, Poly):
            if name in ("real",):
                return o
            if name in ("shape",):
                return TupleV([])
            if name == "ndim":
                return ZERO
            if name == "size":
                return ONE
            if name == "dtype":
                return self.dtype_val("int64" if is_int(o) else "float64", "np")
            return MethodV(o, name)
        if isinstance(o, (bool, Cond)):
            return MethodV(o, name)
        if isinstance(o, StrV):
            if o.path:
                return self.path_attr(o, name, st, n)
            return MethodV(o, name)
        if isinstance(o, OpaqueV):
            if name in o.attrs:
                return o.attrs[name]
            if name in o.methods:
                return LibObj("opqmethod", f=o.methods[name])
            if isinstance(o, (OpaqueDict, OpaqueSeq)) or name in ("keys", "values", "items", "append", "update", "extend", "pop", "copy", "get",
                                                                  "sort", "clear", "setdefault", "remove", "insert", "reverse", "numpy", "suggest"):
                return MethodV(o, name)
            return OpaqueV(("attr", o.key, name))
        if isinstance(o, (TupleV, DictViewV, TrainVars, PolyObj, RangeV)):
            if isinstance(o, PolyObj) and name in ("deriv",):
                return MethodV(o, name)
            return MethodV(o, name)
        if isinstance(o, LibObj):
            if name in o.f:
                return o.f[name]
            if o.kind == "dtype" and name == "name":
                return StrV([("dt", o.f["dt"])])
            if o.kind == "df":
                from .libio import df_attr
                r = df_attr(self, o, name, st, n)
                if r is not None:
                    return r
            return MethodV(o, name)
        if isinstance(o, FuncV) and name in ("__name__", "__qualname__"):
            return StrV([o.name])
        if isinstance(o, UserFn) and name in ("__name__", "__qualname__"):
            return StrV([("opq", ("attr", o.key, name))])
        if isinstance(o, VecResult):
            return MethodV(o, name)
        if o is None:
            self.I.raise_(st, "AttributeError", n, f"'NoneType' object has no attribute '{name}'")
            return Unknown("attribute of None")
        if isinstance(o, PhiV):
            return Unknown("attribute of a loop-carried value")
        return self.I.gap(f"attribute {name} of {type(o).__name__}", n)

    def lib_attr(self, o, name):
        d = self.canon(o.name + "." + name)
        if d in ("numpy.newaxis", "tensorflow.newaxis"):
            return None
        if d in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
            a = atom("fn", "pi")
            NONNEG.add(a)
            POSITIVE.add(a)
            return P(a)
        if d in ("numpy.inf", "math.inf", "numpy.nan", "math.nan", "math.e", "numpy.e"):
            return P(atom("fn", "const", d.split(".")[-1]))
        return LibV(d)

    def arr_attr(self, o, a, name, st, n):
        if name == "shape":
            if a.lib == "tf":
                return TupleV(a.shape)
            return TupleV(a.shape)
        if name == "T":
            nd = a.ndim
            r = self.arr.transpose(a)
            return self.wrap(r, st, o) if a.lib == "tf" else self.remap(o, r, lambda i: list(i)[::-1], lambda i: list(i)[::-1], st)
        if name == "size":
            return prod(a.shape)
        if name == "ndim":
            return const(a.ndim)
        if name == "dtype":
            return self.dtype_val(a.dt, a.lib)
        if name in ("real",):
            return o
        if name == "flat":
            return self.wrap(self.arr.reshape(a, (prod(a.shape),)), st, o)
        if a.extra.get("df"):
            return MethodV(o, name)
        if name == "name":
            return StrV([("opq", "tensor-name")])
        return MethodV(o, name)

    def remap(self, o, r, fwd, inv, st):
        """numpy result that shares the memory of `o`: element i of r is element fwd(i) of o"""
        if isinstance(o, Ref) and isinstance(st.heap.get(o.id), (Arr, ViewC)):
            return self.I.alloc(st, ViewC(o.id, ("remap", r, fwd, inv)))
        return self.I.alloc(st, r)

    def wrap(self, a, st, like=None):
        """np results live in the heap, tf results are plain values"""
        if a.lib == "tf":
            return a
        return self.I.alloc(st, a)

    def ret(self, a, st):
        if a is None:
            return None
        if a.lib == "tf":
            return a
        if not a.shape:
            return a.at()
        return self.I.alloc(st, a)

    def path_attr(self, o, name, st, n):
        if name == "parent":
            return StrV([("parent", o.parts)], True)
        if name == "suffix" and o.parts:
            x = path_suffix(o.parts)
            if x is not None:
                return StrV([x] if x else [])
        if name in ("name", "stem", "suffix"):
            return StrV([(name, o.parts)])
        return MethodV(o, name)

    # ------------------------------------------------------------ tape bookkeeping
    def merge_rec(self, arrs, st):
        """sources of differentiation and the tapes that recorded every step from them"""
        srcs = {}
        active = frozenset(st.tapes)
        for a in arrs:
            r = dict(a.rec) if a.rec else {}
            # a watched tensor becomes a source at its first use
            wid = a.extra.get("tid") if a.extra else None
            if wid is not None:
                tapes = frozenset(t for t in st.tapes if wid in self.watched(st, t))
                if tapes:
                    r[("t", wid)] = tapes
                elif wid in st.memo.get("everwatched", ()):
                    r.setdefault(("t", wid), frozenset())
            for s, tp in r.items():
                tp = active if tp is None else (tp & active)
                if s in srcs:
                    srcs[s] = srcs[s] & tp
                else:
                    srcs[s] = tp
        return srcs or None

    def watched(self, st, t):
        c = st.heap.get(t)
        return c.f.get("watched", frozenset()) if isinstance(c, ObjC) else frozenset()

    def tfres(self, a, inputs, st, cut=False):
        a.lib = "tf"
        r = self.merge_rec(inputs, st)
        if r and cut:
            r = {s: frozenset() for s in r}
        a.rec = r
        a.dep = bool(r)
        return a

    # ------------------------------------------------------------ arithmetic
    def shape_mismatch(self, d1, d2, st, n):
        c = ceq(d1 - d2)
        if c is True:
            return
        if c is False:
            self.I.raise_(st, "ValueError", n, f"incompatible array dimensions {d1} and {d2}")
        else:
            s2 = st.clone()
            s2.pc = s2.pc + (cnot(c),)
            self.I.event(s2, "raise", n, exc="ValueError", msg=f"incompatible array dimensions {d1} and {d2}")
            st.events = s2.events

    def grad_ew(self, f, vals, st, n):
        """arithmetic on whole gradients: a linear combination of gradients of one variable is the gradient of
        the combined objective; anything else is a transformed gradient"""
        gs, xs = {}, []
        for v in vals:
            if isinstance(v, Unknown):
                return v
            if isinstance(v, LibObj) and v.kind in ("grad", "xgrad"):
                a = atom("in:gradval", const(len(gs)))
                gs[a] = v
                xs.append(P(a))
                continue
            x = self.to_arr(v, st, n)
            if x is None:
                return self.I.gap(f"gradient operand {type(v).__name__}", n)
            xs.append(P(self.asnum(x.at(*[P(fresh("g", ZERO, d - 1)) for d in x.shape]))))
        r = f(*xs)
        if not isinstance(r, Poly):
            return self.I.gap("test of a gradient", n)
        vs = {v.f["var"].id if isinstance(v.f["var"], Ref) else id(v.f["var"]) for v in gs.values()}
        g0 = next(iter(gs.values()))
        if len(vs) != 1:
            return self.I.gap("combination of gradients of several variables", n)
        parts = []
        for m, c in r.t.items():
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in gs:
                return LibObj("xgrad", var=g0.f["var"], how="transformed", ok=g0.f["ok"])
            parts.append((gs[m[0][0]], const(c)))
        if not parts:
            return LibObj("xgrad", var=g0.f["var"], how="replaced by zero", ok=g0.f["ok"])
        if len(parts) == 1 and parts[0][1] == ONE:
            return parts[0][0]
        if any(g.kind != "grad" for g, _ in parts):
            return LibObj("xgrad", var=g0.f["var"], how=g0.f.get("how", "transformed"), ok=g0.f["ok"])
        from . import libtf
        t = sum((libtf.total(self, g.f["target"]) * c for g, c in parts), ZERO)
        return LibObj("grad", target=Arr((), lambda i: t, g0.f["target"].dt, "tf"), var=g0.f["var"], ok=all(g.f["ok"] for g, _ in parts), tape=g0.f["tape"])

    def ew(self, f, vals, st, n, dt=None, cut=False):
        """elementwise application with broadcasting over arrays/scalars"""
        if any(isinstance(v, LibObj) and v.kind in ("grad", "xgrad") for v in vals):
            return self.grad_ew(f, vals, st, n)
        arrs = []
        tf = False
        for v in vals:
            if isinstance(v, Unknown):
                return v
            a = self.to_arr(v, st, n)
            if a is None:
                return self.I.gap(f"array operand {type(v).__name__} {v!r}"[:120], n)
            arrs.append(a)
            if a.lib == "tf":
                tf = True
        shape, bad = bcast_shapes([a.shape for a in arrs])
        for d1, d2 in bad:
            self.shape_mismatch(d1, d2, st, n)
            if st.dead:
                return Unknown("shape mismatch")
        scal = [isinstance(v, (Poly, bool, Cond)) for v in vals]
        if dt is None:
            nd = [a.dt for a, s in zip(arrs, scal) if not s]
            if not nd:
                nd = [a.dt for a in arrs]
            d = nd[0]
            for x in nd[1:]:
                if tf and x != d:
                    self.I.event(st, "tf_dtype_mix", n, a=d, b=x)
                d = promote(d, x)
            if not tf and any(s and a.dt == "float64" for a, s in zip(arrs, scal)) and d in ("int64", "int32", "bool"):
                d = "float64"
            dt = d

        def fn(idx):
            return f(*[a.at(*bidx(idx, a.shape, shape)) for a in arrs])
        r = Arr(shape, fn, dt, "tf" if tf else "np")
        if tf:
            self.tfres(r, arrs, st, cut)
            return r
        grp = [k for k, a in enumerate(arrs) if a.extra.get("group")]
        if len(grp) == 1 and all(k == grp[0] or (a.ndim == 0 and P(a.at()).is_const()) for k, a in enumerate(arrs)):
            g = self.group_map(arrs[grp[0]], lambda x, q=grp[0]: f(*[x if k == q else a.at() for k, a in enumerate(arrs)]), dt)
            if g is not None:
                r = g
        return self.ret(r, st)

    def group_map(self, ar, f, dt):
        """elementwise function of the rows gathered under one key: the same function of every contribution"""
        h = self.group_mapper
        return h(ar, f, dt) if h else None

    group_mapper = None

    def elementwise2(self, a, b, fn, st, n):
        return self.ew(lambda x, y: fn(self.cond(x), self.cond(y)), [a, b], st, n, "bool")

    def cond(self, x):
        if isinstance(x, (bool, Cond)):
            return x
        return cnot(ceq(P(x)))

    def is_arrlike(self, v, st):
        if isinstance(v, Arr):
            return True
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            return isinstance(c, (Arr, ViewC)) or (isinstance(c, ObjC) and c.kind == "tfvar")
        return False

    NUMOPS = {
        ast.Add: lambda a, b: P(a) + P(b), ast.Sub: lambda a, b: P(a) - P(b), ast.Mult: lambda a, b: P(a) * P(b),
        ast.Div: lambda a, b: P(a) * inv(P(b)), ast.Pow: lambda a, b: power(P(a), P(b)),
        ast.FloorDiv: lambda a, b: fdiv(P(a), P(b)), ast.Mod: lambda a, b: mod(P(a), P(b)),
    }

    def asnum(self, x):
        if isinstance(x, bool):
            return const(int(x))
        if isinstance(x, Cond):
            return ite(x, ONE, ZERO)
        return x

    def binop(self, op, a, b, st, n):
        t = type(op)
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, ChoiceV) or isinstance(b, ChoiceV):
            c = a.c if isinstance(a, ChoiceV) else b.c
            x = self.binop(op, a.a if isinstance(a, ChoiceV) else a, b.a if isinstance(b, ChoiceV) and b.c == c else b, st, n)
            y = self.binop(op, a.b if isinstance(a, ChoiceV) else a, b.b if isinstance(b, ChoiceV) and b.c == c else b, st, n)
            return self.I.merge_vals(c, x, y, st)
        if isinstance(a, StrV) or isinstance(b, StrV):
            return self.strop(t, a, b, st, n)
        if isinstance(a, PolyObj) or isinstance(b, PolyObj):
            return self.polyop(t, a, b, st, n)
        if self.NUMOPS.get(t) and any(isinstance(v, LibObj) and v.kind in ("grad", "xgrad") for v in (a, b)) and not any(v is None for v in (a, b)):
            return self.grad_ew(self.NUMOPS[t], [a, b], st, n)
        if t is ast.MatMult:
            return self.matmul(a, b, st, n)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
                if t is ast.BitXor:
                    return cor(cand(a, cnot(b)), cand(cnot(a), b))
                return cand(a, b) if t is ast.BitAnd else cor(a, b)
            if self.is_arrlike(a, st) or self.is_arrlike(b, st):
                return self.elementwise2(a, b, cand if t is ast.BitAnd else cor, st, n)
            if t is ast.BitOr and isinstance(a, Ref) and isinstance(st.heap.get(a.id), DictC):
                r = self.I.alloc(st, st.heap[a.id])
                self.call_method(r, "update", [b], {}, st, n)
                return r
        la = isinstance(a, TupleV) or (isinstance(a, Ref) and isinstance(st.heap.get(a.id), (ListC, UnkListC)))
        lb = isinstance(b, TupleV) or (isinstance(b, Ref) and isinstance(st.heap.get(b.id), (ListC, UnkListC)))
        if la and not self.is_arrlike(b, st) or lb and not self.is_arrlike(a, st):
            return self.seqop(t, a, b, st, n)
        f = self.NUMOPS.get(t)
        if f is None:
            return self.I.gap(f"operator {t.__name__}", n)
        if self.is_arrlike(a, st) or self.is_arrlike(b, st):
            dt = None
            if t is ast.Div:
                x, y = self.to_arr(a, st, n), self.to_arr(b, st, n)
                if x is not None and y is not None and x.lib != "tf" and y.lib != "tf":
                    dt = promote(x.dt, y.dt)
                    if dt in ("int64", "int32", "bool"):
                        dt = "float64"
            return self.ew(lambda x, y: f(self.asnum(x), self.asnum(y)), [a, b], st, n, dt)
        if isinstance(a, OpaqueSeq) or isinstance(b, OpaqueSeq):
            return self.seqop(t, a, b, st, n)
        x, y = self.num(a, st), self.num(b, st)
        if x is None or y is None:
            if isinstance(a, (OpaqueV, PhiV)) or isinstance(b, (OpaqueV, PhiV)):
                return Unknown("operation on an opaque value")
            if isinstance(a, Ref):
                m = self.dunder(a, t, b, st, n)
                if m is not None:
                    return m
            if a is None or b is None:
                self.I.raise_(st, "TypeError", n, "unsupported operand NoneType")
                return Unknown("None operand")
            return self.I.gap(f"operator {t.__name__} on {type(a).__name__},{type(b).__name__}", n)
        if t in (ast.Div, ast.FloorDiv, ast.Mod):
            if y == ZERO:
                self.I.raise_(st, "ZeroDivisionError", n, "division by zero")
                return Unknown("division by zero")
            if t is not ast.Div and not pos(y) and not pos(-y):
                self.I.event(st, "divisor", n, value=y)
        return f(x, y)

    def dunder(self, a, t, b, st, n):
        c = st.heap.get(a.id)
        if isinstance(c, InstC):
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(t)
            m = c.cls.lookup(nm) if nm else None
            if m is not None:
                return self.I.call(BoundV(m, a), [b], {}, n, st)
        return None

    def polyop(self, t, a, b, st, n):
        if t in (ast.Add, ast.Sub) and isinstance(a, PolyObj) and isinstance(b, PolyObj):
            s = 1 if t is ast.Add else -1
            return PolyObj(a.terms + tuple((c * s, nn, x, y, k) for c, nn, x, y, k in b.terms))
        if t is ast.Mult:
            p, q = (a, b) if isinstance(a, PolyObj) else (b, a)
            k = self.num(q, st)
            if k is not None:
                return PolyObj(tuple((c * k, nn, x, y, d) for c, nn, x, y, d in p.terms))
        if t is ast.Div and isinstance(a, PolyObj):
            k = self.num(b, st)
            if k is not None:
                return PolyObj(tuple((c * inv(k), nn, x, y, d) for c, nn, x, y, d in a.terms))
        return self.I.gap("polynomial object arithmetic", n)

    def strop(self, t, a, b, st, n):
        if t is ast.Add and isinstance(a, StrV) and isinstance(b, StrV):
            return StrV(a.parts + b.parts, a.path or b.path)
        if t is ast.Add:
            s = self.to_str(a, st).parts + self.to_str(b, st).parts
            return StrV(s)
        if t is ast.Div:
            pa = a if isinstance(a, StrV) else self.to_str(a, st)
            pb = b if isinstance(b, StrV) else self.to_str(b, st)
            return path_join([pa, pb])
        if t is ast.Mod:
            return self.percent(a, list(b.items) if isinstance(b, TupleV) else [b], st)
        if t is ast.Mult:
            c = a.concrete() if isinstance(a, StrV) else None
            if c is not None and isinstance(b, Poly) and b.is_const():
                return StrV([c * int(b.const())])
            return StrV([("rep",)])
        return self.I.gap("string operator", n)

    def seqop(self, t, a, b, st, n):
        if t is ast.Add:
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            x, y = self.to_segs(a, st, n), self.to_segs(b, st, n)
            if x is None or y is None:
                return self.I.alloc(st, UnkListC("concatenation"))
            if isinstance(a, TupleV) and isinstance(b, (Ref,)) or isinstance(b, TupleV):
                pass
            return self.I.alloc(st, ListC(x + y))
        if t is ast.Mult:
            l, k = (a, b) if not isinstance(a, Poly) else (b, a)
            sg = self.to_segs(l, st, n)
            k = self.num(k, st)
            if sg is None or k is None:
                return self.I.alloc(st, UnkListC("repetition"))
            if k.is_const() and k.const() <= 16:
                r = sg * int(k.const())
                return TupleV([x[1] for x in r]) if isinstance(l, TupleV) else self.I.alloc(st, ListC(r))
            if len(sg) == 1 and sg[0][0] == "item":
                return self.I.alloc(st, ListC([("rep", sg[0][1], k)]))
            i = fresh("i", ZERO, k - 1)
            return self.I.alloc(st, ListC([("comp", i, k, tuple(sg))]))
        return self.I.gap(f"sequence operator {t.__name__}", n)

    def matmul(self, a, b, st, n):
        x, y = self.to_arr(a, st, n), self.to_arr(b, st, n)
        if x is None or y is None:
            return self.I.gap("matmul operand", n)
        if x.lib == "tf" and x.dt != y.dt:
            self.I.event(st, "tf_dtype_mix", n, a=x.dt, b=y.dt)
        r = self.arr.matmul(x, y, st, n)
        if r is None:
            return self.I.gap("matmul ranks", n)
        if x.lib == "tf" or y.lib == "tf":
            return self.tfres(r, [x, y], st)
        return self.ret(r, st)

    def unop(self, op, v, st, n):
        if isinstance(v, Unknown):
            return v
        if isinstance(op, ast.Not):
            c = self.I.truth(v, st, n)
            return cnot(c)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.USub):
            if self.is_arrlike(v, st):
                return self.ew(lambda x: -P(self.asnum(x)), [v], st, n)
            if isinstance(v, LibObj) and v.kind in ("grad", "xgrad"):
                return self.grad_ew(lambda x: -x, [v], st, n)
            if isinstance(v, PolyObj):
                return self.polyop(ast.Mult, v, const(-1), st, n)
            p = self.num(v, st)
            return -p if p is not None else self.I.gap("negation", n)
        if isinstance(op, ast.Invert):
            if isinstance(v, (bool, Cond)):
                return cnot(v)
            return self.ew(lambda x: cnot(self.cond(x)), [v], st, n, "bool")
        return self.I.gap("unary operator", n)

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b, st, n):
        t = type(op)
        if t is ast.NotEq:
            r = self.compare(ast.Eq(), a, b, st, n)
            if isinstance(r, (bool, Cond)):
                return cnot(r)
            return self.ew(lambda x: cnot(self.cond(x)), [r], st, n, "bool")
        if t is ast.IsNot:
            return cnot(self.compare(ast.Is(), a, b, st, n))
        if t is ast.NotIn:
            return cnot(self.compare(ast.In(), a, b, st, n))
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return cunk("comparison of an unknown value")
        if isinstance(a, ChoiceV):
            return cor(cand(a.c, self.condv(self.compare(op, a.a, b, st, n))), cand(cnot(a.c), self.condv(self.compare(op, a.b, b, st, n))))
        if isinstance(b, ChoiceV) and t is not ast.In:
            return cor(cand(b.c, self.condv(self.compare(op, a, b.a, st, n))), cand(cnot(b.c), self.condv(self.compare(op, a, b.b, st, n))))
        if t is ast.In:
            return self.contains(a, b, st, n)
        if t is ast.Is:
            if a is None or b is None:
                x = b if a is None else a
                if x is None:
                    return True
                if isinstance(x, OpaqueV) and x.typ == "any":
                    return catom("isnone", keystr(x.key))
                if isinstance(x, PhiV):
                    return cunk("loop-carried value is None?")
                return False
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, Cond) and isinstance(b, bool):
                return a if b else cnot(a)
            if isinstance(a, Ref) and isinstance(b, Ref):
                return a == b
            if isinstance(a, (LibV, ClassV)) and isinstance(b, (LibV, ClassV)):
                return a == b if isinstance(a, LibV) and isinstance(b, LibV) else a is b
            if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                if isinstance(a, OpaqueV) and isinstance(b, OpaqueV) and a == b:
                    return True
                return catom("is", str(a), str(b))
            return self.compare(ast.Eq(), a, b, st, n)
        if self.is_arrlike(a, st) or self.is_arrlike(b, st):
            if a is None or b is None:
                return t is ast.NotEq
            def f(x, y):
                return self.numcmp(t, self.asnum(x), self.asnum(y))
            return self.ew(f, [a, b], st, n, "bool")
        if isinstance(a, StrV) or isinstance(b, StrV):
            return self.strcmp(t, a, b, st, n)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if t is ast.Eq:
                if len(a.items) != len(b.items):
                    return False
                return cand(*[self.condv(self.compare(op, x, y, st, n)) for x, y in zip(a.items, b.items)])
        if a is None or b is None:
            if t is ast.Eq:
                x = b if a is None else a
                if isinstance(x, OpaqueV) and x.typ == "any":
                    return catom("isnone", keystr(x.key))
                return a is b
        if isinstance(a, (LibV, LibObj)) or isinstance(b, (LibV, LibObj)):
            da, db = self.dtype_of(a), self.dtype_of(b)
            if da != "?" and db != "?" and da is not None and db is not None:
                if isinstance(da, str) and isinstance(db, str):
                    return da == db
                return True if da == db else catom("dteq", da, db)
            if isinstance(a, LibV) and isinstance(b, LibV):
                return a.name == b.name
            return catom("libeq", str(a), str(b))
        if isinstance(a, (FuncV, ClassV)) or isinstance(b, (FuncV, ClassV)):
            return a is b
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            if a == b and t in (ast.Eq, ast.LtE, ast.GtE):
                return True
        x, y = self.num(a, st), self.num(b, st)
        if x is not None and y is not None:
            return self.numcmp(t, x, y)
        if t is ast.Eq:
            la, lb = self.concrete_items(a, st), self.concrete_items(b, st)
            if la is not None and lb is not None:
                if len(la) != len(lb):
                    return False
                return cand(*[self.condv(self.compare(op, p, q, st, n)) for p, q in zip(la, lb)])
            if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
                return True
        return cunk(f"comparison {t.__name__} of {type(a).__name__} and {type(b).__name__}")

    def condv(self, c):
        if isinstance(c, (bool, Cond)):
            return c
        return cunk("array truth value")

    def numcmp(self, t, x, y):
        d = x - y
        if t is ast.Eq:
            return ceq(d)
        if t is ast.Lt:
            return clt(d)
        if t is ast.LtE:
            return cle(d)
        if t is ast.Gt:
            return clt(-d)
        if t is ast.GtE:
            return cle(-d)
        return cunk("comparison")

    def strcmp(self, t, a, b, st, n):
        if t is not ast.Eq:
            return catom("strcmp", t.__name__, repr(a), repr(b))
        if isinstance(a, StrV) and isinstance(b, StrV):
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                return ca == cb
            if a.parts == b.parts:
                return True
            if not a.parts or not b.parts:
                return cnot(catom("truthy", repr((a if a.parts else b).parts)))
            return catom("streq", *sorted([repr(a.parts), repr(b.parts)]))
        o, s = (a, b) if isinstance(b, StrV) else (b, a)
        if isinstance(o, OpaqueV):
            if o.typ == "other":
                return False
            return catom("streq", keystr(o.key), repr(s.parts))
        if isinstance(o, Poly) and o.single_atom() is not None and o.single_atom() in self.key_owner:
            return catom("streq", str(o), repr(s.parts))
        return False

    def contains(self, a, b, st, n):
        if isinstance(b, ChoiceV):
            return cor(cand(b.c, self.contains(a, b.a, st, n)), cand(cnot(b.c), self.contains(a, b.b, st, n)))
        if isinstance(b, StrV) and isinstance(a, StrV):
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                return ca in cb
            return catom("substr", repr(a.parts), repr(b.parts))
        if isinstance(b, OpaqueDict) or (isinstance(b, DictViewV) and isinstance(b.d, OpaqueDict)):
            d = b if isinstance(b, OpaqueDict) else b.d
            p = a if isinstance(a, Poly) else None
            if p is not None and p.single_atom() in self.key_owner and self.key_owner[p.single_atom()] == d:
                return True
            return catom("haskey", keystr(d.key), repr(self.dkey(a)) if not isinstance(a, Poly) else a)
        if isinstance(b, DictViewV):
            b2 = b.d
            if b.what == "keys":
                return self.contains(a, b2, st, n)
        if isinstance(b, RangeV):
            x = self.num(a, st)
            if x is not None and b.step == ONE:
                return cand(cle(b.start - x), clt(x - b.start - b.count))
        if isinstance(b, Ref):
            c = st.heap.get(b.id)
            if isinstance(c, DictC):
                return self.dict_has(c, self.dkey(a), st, n)
        items = self.concrete_items(b, st)
        if items is not None:
            return cor(*[self.condv(self.compare(ast.Eq(), a, x, st, n)) for x in items])
        if isinstance(b, OpaqueV):
            return catom("in", repr(a), keystr(b.key))
        return cunk("membership test")

    def key_eq(self, k1, k2):
        """True/False/Cond"""
        if k1 is k2:
            return True
        if isinstance(k1, str) and isinstance(k2, str):
            return k1 == k2
        if isinstance(k1, Poly) and isinstance(k2, Poly):
            return ceq(k1 - k2)
        if isinstance(k1, Poly) and isinstance(k2, str) or isinstance(k1, str) and isinstance(k2, Poly):
            p = k1 if isinstance(k1, Poly) else k2
            if p.single_atom() in self.key_owner:
                return catom("streq", str(p), repr((k1 if isinstance(k1, str) else k2,)))
            return False
        if isinstance(k1, TupleV) and isinstance(k2, TupleV):
            if len(k1.items) != len(k2.items):
                return False
            return cand(*[self.key_eq(self.dkey(x), self.dkey(y)) for x, y in zip(k1.items, k2.items)])
        s1, s2 = (StrV((k,)) if isinstance(k, str) else k for k in (k1, k2))
        if isinstance(s1, StrV) and isinstance(s2, (StrV, OpaqueV)) or isinstance(s2, StrV) and isinstance(s1, (StrV, OpaqueV)):
            return self.strcmp(ast.Eq, s1, s2, None, None)
        try:
            if type(k1) is type(k2) and k1 == k2:
                return True
        except Exception:
            pass
        return catom("keyeq", repr(k1), repr(k2))

    def dict_has(self, c, k, st, n):
        res = False
        for kk, v in c.entries:
            e = self.key_eq(kk, k)
            if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
                e = cand(e, v.c if v.b is MISSING else cnot(v.c))
            elif v is MISSING:
                continue
            res = cor(res, e)
            if res is True:
                return True
        if c.base is not None:
            if isinstance(c.base, OpaqueDict):
                return cor(res, self.contains(self.unkey(k), c.base, st, n))
            if c.base[0] == "memo":
                return cor(res, self.dict_has(c.base[3], k, st, n), self.memo_at(c.base, k)[0])
            if c.base[0] == "phi" and c.base[1] in self.memos:
                i, kt, vt = self.memos[c.base[1]]
                return cor(res, self.dict_has(c.base[2], k, st, n), self.memo_at(("memo", c.base[1], (i, kt, vt, P(i)), c.base[2]), k)[0])
            if c.base[0] == "phi" and isinstance(k, Poly):
                return cor(res, catom("inphi", c.base[1], k))
            return cunk("membership in a loop-carried mapping") if c.base[0] == "phi" else cor(res, cunk("membership"))
        return res

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k, st, n):
        if isinstance(o, (Unknown, OpaqueDict, OpaqueV)):
            self.I.risk += 1
        if isinstance(o, Unknown):
            return o
        if isinstance(o, ChoiceV):
            if o.a is MISSING or o.b is MISSING:
                return self.getitem(o.b if o.a is MISSING else o.a, k, st, n)
            return self.I.merge_vals(o.c, self.getitem(o.a, k, st, n), self.getitem(o.b, k, st, n), st)
        if isinstance(k, ChoiceV):
            return self.I.merge_vals(k.c, self.getitem(o, k.a, st, n), self.getitem(o, k.b, st, n), st)
        if isinstance(k, OpaqueV) and not isinstance(o, (OpaqueDict,)) and not (isinstance(o, Ref) and isinstance(st.heap.get(o.id), DictC)):
            kk = self.num(k, st)
            if kk is not None and (isinstance(o, Arr) or isinstance(o, Ref) or isinstance(o, TupleV)):
                INTS.add(kk.single_atom())
                k = kk
        if isinstance(o, Arr):
            spec = self.arr.parse_spec(o.shape, k, st, n)
            if spec is None:
                return Unknown("index") if st.dead else self.I.gap(f"array index {k}", n)
            r = self.arr.index_arr(o, spec)
            if o.lib == "tf":
                return self.tfres(r, [o], st)
            return self.ret(r, st)
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if isinstance(c, (Arr, ViewC)):
                a = self.I.deref(st, o)
                if a.extra.get("fields"):
                    kc = self.dkey(k)
                    if isinstance(kc, str):
                        return a.extra["fields"](kc)
                spec = self.arr.parse_spec(a.shape, k, st, n)
                if spec is None:
                    return Unknown("index") if st.dead else self.I.gap(f"array index {k}", n)
                if all(s[0] == "pt" for s in spec):
                    return a.at(*[s[1] for s in spec])
                if spec[0] != "mask" and all(s[0] in ("pt", "sl", "new") for s in spec):
                    return self.I.alloc(st, ViewC(o.id, spec))
                r = self.arr.index_arr(a, spec)
                return self.ret(r, st)
            if isinstance(c, ListC):
                return self.list_get(o, c, k, st, n)
            if isinstance(c, DictC):
                return self.dict_get(o, c, self.dkey(k), st, n)
            if isinstance(c, ObjC):
                if c.kind == "tfvar":
                    return self.getitem(self.read_var(o, st), k, st, n)
                if c.kind == "figarr":
                    return o
            if isinstance(c, InstC):
                g = c.cls.lookup("__getitem__")
                if g is not None:
                    return self.I.call(BoundV(g, o), [k], {}, n, st)
                its = self.concrete_items(o, st)
                if its is not None:
                    return self.getitem(TupleV(its), k, st, n)
            return self.I.gap(f"subscript of {type(c).__name__}", n)
        if isinstance(o, TupleV):
            if isinstance(k, Poly) and k.is_const():
                j = int(k.const())
                if -len(o.items) <= j < len(o.items):
                    return o.items[j]
                self.I.raise_(st, "IndexError", n, "tuple index out of range")
                return Unknown("index")
            if isinstance(k, SliceV):
                sl = self.pyslice(k)
                if sl is not None:
                    return TupleV(o.items[sl])
            if isinstance(k, Poly):
                return self.seg_get([("item", x) for x in o.items], k, st)
            return self.I.gap("tuple index", n)
        if isinstance(o, OpaqueDict):
            kk = self.dkey(k)
            if isinstance(kk, str):
                v = o.attrs.get(("item", kk))
                if v is not None:
                    return v
                return o.value_of(P(atom("str", kk)))
            if isinstance(kk, Poly):
                return o.value_of(kk)
            p = self.num(kk, st)
            return o.value_of(p if p is not None else P(atom("opq", repr(kk))))
        if isinstance(o, OpaqueSeq):
            if isinstance(k, Poly):
                if k.is_const() and k.const() < 0:
                    k = o.length + k
                return o.elem(k)
            if isinstance(k, SliceV):
                s = self.arr.norm_slice(k, o.length)
                if s is not None:
                    return OpaqueSeq(("slice", o.key, s[0], s[1], s[2]), s[1], lambda j: o.elem(s[0] + j * s[2]))
            return self.I.gap("sequence index", n)
        if isinstance(o, VecResult):
            if isinstance(k, Poly):
                return o.fn(k)
        if isinstance(o, TrainVars):
            return LibObj("trainvars_item", of=o, key=k)
        if isinstance(o, DictViewV) or isinstance(o, (RangeV, MapV, ZipV, EnumV)):
            sg = self.to_segs(o, st, n)
            if sg is not None and isinstance(k, Poly):
                if k.is_const() and k.const() < 0:
                    k = T_seg_len(sg) + k
                return self.seg_get(sg, k, st)
        if isinstance(o, StrV):
            c = o.concrete()
            if c is not None and isinstance(k, Poly) and k.is_const():
                return StrV([c[int(k.const())]])
            sl = self.pyslice(k) if isinstance(k, SliceV) else None
            if c is not None and sl is not None:
                return StrV([c[sl]])
            if sl is not None:
                if sl.start in (None, 0) and sl.stop is None and sl.step in (None, 1):
                    return o
                return OpaqueV(("slice", o.parts, repr(sl)), "str")
            if isinstance(k, SliceV):
                return OpaqueV(("slice?", o.parts, tuple(repr(self.keyof(x, st)) for x in (k.lo, k.hi, k.step))), "str")
            return OpaqueV(("get", o.parts, repr(k)), "str")
        if isinstance(o, OpaqueV):
            kk = self.dkey(k)
            if ("item", kk) in o.attrs:
                return o.attrs[("item", kk)]
            return OpaqueV(("get", o.key, kk if isinstance(kk, (str, Poly)) else repr(kk)))
        if isinstance(o, LibV) and "getitem:" + o.name in MODELS:
            return MODELS["getitem:" + o.name](self, k, st, n)
        if isinstance(o, LibObj):
            h = MODELS.get("getitem:" + o.kind)
            if h:
                return h(self, o, k, st, n)
            kk = self.dkey(k)
            if kk in o.f:
                return o.f[kk]
        if isinstance(o, (Poly,)):
            self.I.raise_(st, "TypeError", n, "number is not subscriptable")
            return Unknown("subscript of a number")
        if isinstance(o, LibV):
            return o  # typing subscripts
        if o is None:
            self.I.raise_(st, "TypeError", n, "'NoneType' object is not subscriptable")
            return Unknown("subscript of None")
        if isinstance(o, GradList):
            return LibObj("grad_item", of=o, key=k)
        return self.I.gap(f"subscript of {type(o).__name__}", n)

    def pyslice(self, k):
        out = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                out.append(None)
            elif isinstance(x, Poly) and x.is_const():
                out.append(int(x.const()))
            else:
                return None
        return slice(*out)

    def list_get(self, o, c, k, st, n):
        items = c.items()
        if isinstance(k, SliceV):
            sl = self.pyslice(k)
            if items is not None and sl is not None:
                return self.I.alloc(st, ListC([("item", x) for x in items[sl]], c.tag))
            ln = T_seg_len(c.segs)
            if ln is None:
                return self.I.gap("list slice", n)
            s = self.arr.norm_slice(k, ln)
            if s is None:
                return self.I.gap("list slice", n)
            i = fresh("i", ZERO, s[1] - 1)
            v = self.seg_get(c.segs, s[0] + P(i) * s[2], st)
            if isinstance(v, Ref) and v.id not in st.param:
                st.param[v.id] = (i,)
            return self.I.alloc(st, ListC([("comp", i, s[1], (("item", v),))]))
        if not isinstance(k, Poly):
            k2 = self.num(k, st)
            if k2 is None:
                return self.I.gap(f"list index {k}", n)
            k = k2
        if items is not None and k.is_const():
            j = int(k.const())
            if -len(items) <= j < len(items):
                return items[j]
            self.I.raise_(st, "IndexError", n, "list index out of range")
            return Unknown("index")
        ln = T_seg_len(c.segs)
        if ln is None:
            return Unknown("element of a loop-carried list")
        if k.is_const() and k.const() < 0:
            k = ln + k
        elif not nonneg(k) and nonneg(-k - 1):
            k = ln + k
        if nonneg(k - ln) and not (k - ln).flags() & {"unk"}:
            self.I.raise_(st, "IndexError", n, f"list index {k} out of range {ln}")
            return Unknown("index")
        return self.seg_get(c.segs, k, st)

    def dict_get(self, o, c, k, st, n, default=("raise",)):
        res = []
        decided = False
        for kk, v in reversed(c.entries):
            if v is MISSING:
                continue
            e = self.key_eq(kk, k)
            if e is False:
                continue
            if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
                has = v.c if v.b is MISSING else cnot(v.c)
                vv = v.a if v.b is MISSING else v.b
                if self.I.decide(has, st) is True:
                    v = vv
                else:
                    e = cand(e, has)
                    v = vv
            res.append((e, v))
            if e is True:
                decided = True
                break
        tail = None
        if not decided:
            if isinstance(c.base, tuple) and (c.base[0] == "memo" or c.base[0] == "phi" and c.base[1] in self.memos):
                b = c.base
                if b[0] == "phi":
                    i, kt, vt = self.memos[b[1]]
                    b = ("memo", b[1], (i, kt, vt, P(i)), b[2])
                cond, f = self.memo_at(b, k)
                v = self.I.thaw(b[2][2], st, f)
                old = b[3]
                if old is not None and (old.entries or old.base is not None):
                    v = self.I.merge_vals(self.dict_has(old, k, st, n), self.dict_get(o, old, k, st, n, (Unknown("entry"),)), v, st)
                if default == ("raise",):
                    allc = cor(cond, self.dict_has(old, k, st, n))
                    if not any(e == cnot(allc) or e == cnot(cond) for e, _ in res) and self.I.decide(cor(allc, *[e for e, _ in res]), st) is not True:
                        v = self.I.merge_vals(cond, v, Unknown("missing key"), st)
                else:
                    v = self.I.merge_vals(cor(cond, self.dict_has(old, k, st, n)), v, default[0], st)
                for e, x in reversed(res):
                    v = self.I.merge_vals(e, x, v, st)
                return v
            if c.base is not None and isinstance(c.base, tuple) and c.base[0] == "phi" and isinstance(k, Poly) and isinstance(o, Ref):
                return self.phi_get(o, c, k, st, n, default)
            if c.base is not None:
                tail = self.base_get(c, k, st, n)
            elif c.default is not None:
                tail = self.I.call(c.default, [], {}, n, st)
                self.setitem(o, self.unkey(k), tail, st, n)
                if not res:
                    return tail
            elif default == ("raise",):
                if not res:
                    self.I.raise_(st, "KeyError", n, f"{k!r}")
                    return Unknown(f"missing key {k}")
                # some entry must match
                cc = cor(*[e for e, _ in res])
                if cc is not True:
                    d = self.I.decide(cc, st)
                    if d is False:
                        self.I.raise_(st, "KeyError", n, f"{k!r}")
                        return Unknown("missing key")
                    if d is not True:
                        s2 = st.clone()
                        s2.pc = s2.pc + (cnot(cc),)
                        self.I.event(s2, "raise", n, exc="KeyError", msg=repr(k))
                        st.events = s2.events
                        st.pc = st.pc + (cc,)
                tail = res.pop()[1]
            else:
                tail = default[0]
        else:
            tail = res.pop()[1]
        for e, v in reversed(res):
            tail = self.I.merge_vals(e, v, tail, st)
        return tail

    def solve_keys(self, kj, k, J):
        """(condition, substitution of J's inputs) making the two keys equal, when the equations are linear; else None"""
        def flat(x, y):
            if isinstance(x, TupleV) and isinstance(y, TupleV):
                if len(x.items) != len(y.items):
                    return None
                out = []
                for a, b in zip(x.items, y.items):
                    r = flat(a, b)
                    if r is None:
                        return None
                    out += r
                return out
            if isinstance(x, TupleV) or isinstance(y, TupleV):
                return None
            return [(x, y)]
        prs = flat(kj, k)
        if prs is None:
            return False, {}
        mp = {}
        hit = True
        for x, y in prs:
            x, y = self.dkey(x), self.dkey(y)
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                if isinstance(x, TupleV) and isinstance(y, TupleV):
                    return None
                hit = cand(hit, self.key_eq(x, y))
                continue
            eq = replace_atoms(x, mp) - y
            if eq == ZERO:
                continue
            if eq.is_const():
                return False, {}
            got = None
            for m, c in eq.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if a.kind.startswith("in:") and any(isinstance(z, Poly) and J in z.free() for z in a.args):
                        rest = P(a) - eq * const(1 / Fr(c))
                        if a not in key_atoms(rest):
                            got = (a, rest)
                            break
            if got is None:
                if not any(J in z.free() for z in [eq]):
                    hit = cand(hit, ceq(eq))  # a condition on this configuration's own parameters
                    continue
                return None
            mp = {b: replace_atoms(e, {got[0]: got[1]}) for b, e in mp.items()}
            mp[got[0]] = got[1]
        return hit, mp

    def memo_at(self, base, k):
        """(membership condition, term map) of entry k of a mapping filled on demand: an earlier iteration J
        stored it under the same key.  J's inputs relate to the current ones in one of a few ways (equal but
        for one of them, shifted, scaled, sheared, rotated), chosen by a free integer; the condition states
        the key equality, so any point that satisfies it is a feasible history."""
        _, uid, (i, kt, vt, hi), old = base
        ck = (uid, keystr(k) if not isinstance(k, Poly) else k, hi)
        r = self.memo_cache.get(ck)
        if r is not None:
            return r
        J = fresh("earlier", ZERO, hi - 1)
        kj = subst_key(kt, {i: P(J)})
        aj = [a for a in key_atoms(kj) if a.kind.startswith("in:") and any(isinstance(x, Poly) and J in x.free() for x in a.args)]
        ai = [a for a in key_atoms(k) if a.kind.startswith("in:")]
        sig = lambda a: tuple(x if isinstance(x, Poly) and x.is_const() else None for x in a.args)
        pairs = {}
        for a in aj:
            m = [b for b in ai if sig(b) == sig(a)]
            if m:
                pairs[a] = m[0]
        sol = self.solve_keys(kj, k, J)
        if sol is not None:
            hit, mp = sol
            f = lambda x: replace_atoms(subst(x, {i: P(J)}), mp)
            r = self.memo_cache[ck] = (cand(cle(1 - hi), hit, catom("stored-before", uid, P(J))), f)
            return r
        case = sym(f"memo_case{J.id}", ZERO, const(len(pairs) + 5), True)
        t = [sym(f"memo_t{d}_{J.id}", const(Fr(1, 2)), const(2)) for d in (0, 1)]
        mp = {}
        n = len(pairs)
        for pos_, (a, b) in enumerate(pairs.items()):
            last = sig(a)[-1] if sig(a) else None
            d = int(last.const()) if last is not None and last.const() in (0, 1) else 0
            other = next((x for x in ai if sig(x)[:-1] == sig(b)[:-1] and sig(x)[-1] == const(1 - d)), b)
            B = P(b)
            alt = [P(a) if q == pos_ else B for q in range(n)]
            alt += [B + t[d], B * t[0], B * (t[0] if d == 0 else inv(t[0])), P(other) if d == 0 else -P(other), B + (P(other) * t[1] if d == 0 else ZERO), P(a)]
            e = alt[-1]
            for q in range(len(alt) - 2, -1, -1):
                if alt[q] != e:
                    e = ite(ceq(case - q), alt[q], e)
            mp[a] = e
        f = lambda x: replace_atoms(subst(x, {i: P(J)}), mp)
        cond = cand(cle(1 - hi), self.key_eq(subst_key(kj, mp), k))
        r = self.memo_cache[ck] = (cond, f)
        return r

    def phi_get(self, o, c, k, st, n, default):
        """entry k of a mapping that earlier iterations of the loop may have written: a group
        placeholder, remembered in the mapping so that in-place updates of it are kept"""
        uid, pre = c.base[1], c.base[2]
        ka = k.single_atom()
        if ka is not None and ka in self.key_owner and pre is not None and pre.base is self.key_owner[ka] and not any(
                self.key_eq(kk, k) is True for kk, _ in c.entries):
            # a loop over the mapping's own keys: this key has not been written by other iterations
            return self.base_get(pre, k, st, n)
        has = catom("inphi", uid, k)
        own = [(kk, v) for kk, v in c.entries if self.key_eq(kk, k) is True]
        ph = self.I.alloc(st, ObjC("gprev", {"uid": uid, "k": k}))
        val = ph
        if own:
            v = own[-1][1]
            if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
                val = ChoiceV(v.c, v.a if v.a is not MISSING else ph, v.b if v.b is not MISSING else ph)
        elif c.default is not None and default == ("raise",):
            d = self.I.call(c.default, [], {}, n, st)
            val = ChoiceV(has, ph, d)
        elif default != ("raise",):
            # a plain .get(): the default is not stored
            return ChoiceV(has, ph, default[0])
        ent = [x for x in c.entries if self.key_eq(x[0], k) is not True] + [(k, val)]
        st.heap[o.id] = DictC(ent, c.base, c.over, c.default)
        return val

    def base_get(self, c, k, st, n):
        if isinstance(c.base, OpaqueDict):
            if c.over:
                o = c.over[-1]
                kp = k if isinstance(k, Poly) else P(atom("str", k)) if isinstance(k, str) else None
                if kp is not None:
                    return self.I.instantiate(o[2], {o[1]: kp}, st)
            return self.getitem(c.base, self.unkey(k), st, n)
        if isinstance(c.base, tuple) and c.base[0] == "phi":
            # reading the pre-loop content (or an entry written by an earlier iteration)
            if c.base[2] is not None and not c.base[2].entries and c.base[2].base is None:
                return PhiV(c.base[1] + "[]")
            return PhiV(c.base[1] + "[]")
        if isinstance(c.base, tuple) and c.base[0] == "group":
            h = MODELS.get("group_get")
            return h(self, c, k, st, n)
        return Unknown("mapping entry")

    def setitem(self, o, k, v, st, n):
        if isinstance(o, Unknown):
            return
        if isinstance(o, Ref) and o.id in self.I.dict_owner:
            nm = k.concrete() if isinstance(k, StrV) else None
            if nm is None:
                self.I.gap("attribute dictionary written with a computed name", n)
                return
            self.I.setattr(self.I.dict_owner[o.id], nm, v, st, n)
        if isinstance(o, ChoiceV):
            self.I.gap("subscript store on a merged object", n)
            return
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if isinstance(c, (Arr, ViewC)):
                a = self.I.deref(st, o)
                spec = self.arr.parse_spec(a.shape, k, st, n) if k is not ELL else tuple(("sl", ZERO, d, ONE) for d in a.shape)
                if spec is None:
                    if not st.dead:
                        self.I.gap(f"array store index {k}", n)
                        st.heap[o.id] = Arr(a.shape, lambda idx: P(atom("unk", "array store")), a.dt, a.lib)
                    return
                rhs = v
                if not isinstance(v, (Poly, bool, Cond)):
                    rhs = self.to_arr(v, st, n)
                    if rhs is None:
                        if isinstance(v, Unknown):
                            rhs = P(atom("unk", v.why))
                        elif isinstance(v, PhiV):
                            rhs = P(atom("unk", "loop-carried value"))
                        else:
                            self.I.gap(f"value stored into an array: {v}", n)
                            rhs = P(atom("unk", "stored value"))
                    else:
                        # shape check
                        tgt = [s[2] for s in spec if s[0] == "sl"] if spec[0] != "mask" and not any(s[0] == "fancy" for s in spec) else None
                        if tgt is not None:
                            rs = list(rhs.shape)
                            while len(rs) > len(tgt) and rs[0] == ONE:
                                rs = rs[1:]
                            for d1, d2 in zip(reversed(tgt), reversed(rs)):
                                if d2 != ONE and not deq(d1, d2):
                                    self.shape_mismatch(d1, d2, st, n)
                                    if st.dead:
                                        return
                        if rhs.ndim == 0:
                            rhs = rhs.at()
                self.I.event(st, "mutate", n, obj=o, how="item store")
                self.store(o.id, spec, rhs, st)
                return
            if isinstance(c, ListC):
                items = c.items()
                kk = self.num(k, st) if not isinstance(k, SliceV) else None
                self.I.event(st, "mutate", n, obj=o, how="item store")
                if items is not None and kk is not None and kk.is_const():
                    j = int(kk.const())
                    if not -len(items) <= j < len(items):
                        self.I.raise_(st, "IndexError", n, "list assignment index out of range")
                        return
                    items = list(items)
                    items[j] = v
                    st.heap[o.id] = ListC([("item", x) for x in items], c.tag)
                    return
                if kk is not None:
                    st.heap[o.id] = ListC(c.segs + (("set", kk, v),), c.tag)
                    return
                st.heap[o.id] = UnkListC("item store")
                return
            if isinstance(c, DictC):
                kk = self.dkey(k)
                self.I.event(st, "mutate", n, obj=o, how="item store")
                ent = []
                done = False
                for a, b in c.entries:
                    e = self.key_eq(a, kk)
                    if e is True:
                        ent.append((a, v))
                        done = True
                    elif e is False:
                        ent.append((a, b))
                    else:
                        ent.append((a, b))
                if not done:
                    ent.append((kk, v))
                st.heap[o.id] = DictC(ent, c.base, c.over, c.default)
                return
            if isinstance(c, InstC):
                g = c.cls.lookup("__setitem__")
                if g is not None:
                    self.I.call(BoundV(g, o), [k, v], {}, n, st)
                    return
            if isinstance(c, ObjC):
                self.I.event(st, "mutate", n, obj=o, how="item store")
                return
        if isinstance(o, OpaqueV):
            self.I.event(st, "mutate", n, obj=o, how="item store")
            return
        if isinstance(o, LibV):
            self.I.event(st, "global_write", n, name=str(self.dkey(k)), module=o.name)
            return
        if isinstance(o, Arr):
            self.I.raise_(st, "TypeError", n, "tensor does not support item assignment")
            return
        if isinstance(o, (TupleV, Poly)):
            self.I.raise_(st, "TypeError", n, "object does not support item assignment")
            return
        self.I.gap(f"subscript store on {type(o).__name__}", n)

    def store(self, rid, spec, rhs, st):
        c = st.heap[rid]
        if isinstance(c, ViewC) and c.spec[0] == "remap":
            new = self.arr.set_arr(self.I.deref(st, Ref(rid)), spec, rhs)
            base = self.I.deref(st, Ref(c.base))
            inv = c.spec[3]
            back = Arr(base.shape, lambda idx: new.at(*inv(idx)), new.dt, "np")
            self.store(c.base, tuple(("sl", ZERO, d, ONE) for d in base.shape), back, st)
            return
        if isinstance(c, ViewC):
            if c.spec[0] == "mask" or spec[0] == "mask" or any(s[0] == "fancy" for s in spec):
                base = self.I.deref(st, Ref(rid))
                new = self.arr.set_arr(base, spec, rhs)
                full = tuple(("sl", ZERO, d, ONE) for d in base.shape)
                self.store(c.base, self.compose(c.spec, full), new, st)
                return
            if isinstance(rhs, Arr):
                # align rhs to the composed region: expand to the view-region rank
                pass
            self.store(c.base, self.compose(c.spec, spec), rhs, st)
            return
        st.heap[rid] = self.arr.set_arr(c, spec, rhs)

    def compose(self, outer, inner):
        """spec into the base for indexing `inner` on the view base[outer]"""
        out = []
        it = iter(inner)
        pend = []
        k = 0
        inner = list(inner)

        def take():
            nonlocal k
            res = []
            while k < len(inner) and inner[k][0] == "new":
                res.append(inner[k])
                k += 1
            e = inner[k]
            k += 1
            return res, e
        for s in outer:
            if s[0] == "pt":
                out.append(s)
            elif s[0] == "new":
                news, e = take()
                out += news
                if e[0] == "sl":
                    out.append(("new",))
            else:
                news, e = take()
                out += news
                if e[0] == "pt":
                    out.append(("pt", s[1] + e[1] * s[3]))
                else:
                    out.append(("sl", s[1] + e[1] * s[3], e[2], s[3] * e[3]))
        return tuple(out)

    # ------------------------------------------------------------ dict loop summary
    def post_dict(self, ph, nxt, pre, i, count, post, unk, node):
        if nxt.base == ph.base and not nxt.entries:
            return pre
        if ph.base[1] in self.memos and not unk:
            j, kt, vt = self.memos[ph.base[1]]
            return DictC(pre.entries, ("memo", ph.base[1], (j, kt, vt, count), DictC((), pre.base, pre.over, pre.default)), (), pre.default)
        h = MODELS.get("group_summary")
        if h is not None:
            r = h(self, ph, nxt, pre, i, count, post, unk, node)
            if r is not None:
                return r
        if not unk and len(nxt.entries) >= 1 and nxt.base == ph.base and not nxt.over:
            keyed = [(k, v) for k, v in nxt.entries if isinstance(k, Poly) and i in k.free()]
            rest = [(k, v) for k, v in nxt.entries if not (isinstance(k, Poly) and i in k.free())]
            if len(keyed) == 1 and not rest:
                k, v = keyed[0]
                if k == P(i) and i in self.key_owner and not contains_phi(v):
                    owner = self.key_owner[i]
                    if pre.base is None:
                        return DictC(pre.entries, owner, pre.over + (("all", i, v),), pre.default)
                    if pre.base == owner:
                        return DictC(pre.entries, owner, pre.over + (("all", i, v),), pre.default)
                if k == P(i) and i not in self.key_owner and not pre.entries and pre.base is None:
                    # d[j] = v(j) for j in range(count)
                    owner = OpaqueDict(("intdict", new_id()), lambda kk: self.I.instantiate(v, {i: kk}, post))
                    a = atom("len", owner.key)
                    return DictC((), owner, (("all", i, v),), pre.default)
            if not keyed:
                # the same keys written every iteration: last value
                ent = list(pre.entries)
                for k, v in rest:
                    v2 = self.I.instantiate(v, {i: count - 1}, post)
                    ent = [(a, b) for a, b in ent if a != k] + [(k, v2)]
                return DictC(ent, pre.base, pre.over, pre.default)
        return DictC(pre.entries, OpaqueDict(("loopdict", new_id()), lambda kk: Unknown("entry of a mapping built irregularly in a loop")), (), pre.default)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st, n):
        if isinstance(f, LibV):
            return self.call_lib(f.name, args, kwargs, st, n)
        if isinstance(f, MethodV):
            return self.call_method(f.obj, f.name, args, kwargs, st, n)
        if isinstance(f, UserFn):
            return self.call_user(f, args, kwargs, st, n)
        if isinstance(f, PolyObj):
            return self.eval_poly(f, args[0], st, n)
        if isinstance(f, Ref):
            c = st.heap.get(f.id)
            if isinstance(c, ObjC):
                h = MODELS.get("callobj:" + c.kind)
                if h:
                    return h(self, f, c, args, kwargs, st, n)
            if isinstance(c, InstC):
                lb = c.cls.lib_bases()
                self.I.raise_(st, "TypeError", n, f"{c.cls.name} object is not callable")
                return Unknown("not callable")
        if isinstance(f, LibObj):
            if f.kind == "opqmethod":
                return f.f["f"](args, kwargs, st, n)
            h = MODELS.get("calllibobj:" + f.kind)
            if h:
                return h(self, f, args, kwargs, st, n)
        if isinstance(f, OpaqueV):
            self.I.event(st, "opaque_call", n, f=f, args=args, kwargs=kwargs)
            return OpaqueV(("call", f.key) + tuple(self.keyof(a, st) for a in args) + tuple((k, self.keyof(v, st)) for k, v in kwargs.items()))
        if isinstance(f, Unknown):
            for a in list(args) + list(kwargs.values()):
                self.escape(a, st)
            return f
        if f is None or isinstance(f, (Poly, TupleV, StrV)):
            self.I.raise_(st, "TypeError", n, "object is not callable")
            return Unknown("not callable")
        return self.I.gap(f"call of {type(f).__name__} {f}", n)

    def escape(self, a, st):
        pass

    def keyof(self, v, st):
        if isinstance(v, (Poly, Cond, bool)) or v is None:
            return v
        if isinstance(v, StrV):
            return v.parts
        if isinstance(v, OpaqueV):
            return v.key
        if isinstance(v, TupleV):
            return tuple(self.keyof(x, st) for x in v.items)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ListC) and c.items() is not None:
                return tuple(self.keyof(x, st) for x in c.items())
            return ("ref", v.id)
        return repr(v)

    def call_user(self, f, args, kwargs, st, n):
        self.I.risk += 1
        if f.handler is not None:
            return f.handler(self, args, kwargs, st, n)
        vals = list(args) + [v for _, v in sorted(kwargs.items())]
        self.I.event(st, "user_call", n, f=f, args=vals)
        if any(isinstance(v, Unknown) for v in vals):
            return next(v for v in vals if isinstance(v, Unknown))
        if f.mode == "scalar":
            def g(*xs):
                return P(atom("app", f.key, *[P(self.asnum(x)) for x in xs]))
            if not vals:
                return P(atom("app", f.key))
            return self.ew(g, vals, st, n, "float64")
        if f.mode == "vector":
            def comp(k):
                def g(*xs):
                    return P(atom("app", f.key, ("comp", k), *[P(self.asnum(x)) for x in xs]))
                return self.ew(g, vals, st, n, "float64")
            return VecResult(comp)
        return OpaqueV(("call", f.key) + tuple(self.keyof(v, st) for v in vals))

    def eval_poly(self, p, x, st, n):
        def g(v):
            r = ZERO
            for c, nn, a, b, k in p.terms:
                r = r + c * T.djac(nn, a, b, P(self.asnum(v)), k)
            return r
        for c, nn, a, b, k in p.terms:
            cc = clt(nn)
            if cc is True:
                self.I.raise_(st, "ValueError", n, "polynomial of negative degree")
                return Unknown("negative degree")
        return self.ew(g, [x], st, n, "float64")

    def call_lib(self, name, args, kwargs, st, n):
        c = self.str_choice(args, kwargs) if name not in CONTAINERS else None
        if c is not None:
            return self.spread(c, args, kwargs, st, lambda a, k, s: self.call_lib(name, a, k, s, n))
        alt = [(q, self.alternatives(v, st)) for q, v in enumerate(args)] if name.startswith(("numpy.", "tensorflow.", "builtins.len", "builtins.list", "builtins.sum", "builtins.sorted")) else ()
        alt = [(q, z) for q, z in alt if z is not None]
        if len(alt) == 1 and not st.dead:
            s0 = st.clone()
            r = self.call_lib1(name, args, kwargs, st, n)
            if not isinstance(r, Unknown) or st.dead:
                return r
            # the call made on either alternative
            st.assign_from(s0)
            q, (c, x, y) = alt[0]
            sub = lambda z, s: self.call_lib(name, args[:q] + [z] + args[q + 1:], kwargs, s, n)
            args = list(args)
            r1, r2 = self.I.branch(c, lambda s: sub(x, s), lambda s: sub(y, s), st)
            if st.dead:
                return Unknown("dead")
            d = self.I.decide(c, st)
            return r1 if d is True else r2 if d is False else self.I.merge_vals(c, r1, r2, st)
        return self.call_lib1(name, args, kwargs, st, n)

    def call_lib1(self, name, args, kwargs, st, n):
        self.I.lib_calls[name] = self.I.lib_calls.get(name, 0) + 1
        self.I.lib_last = name
        if name.startswith("numpy.") and (self.narrow(kwargs.get("dtype")) or (name in ("numpy.array", "numpy.asarray", "numpy.zeros", "numpy.ones", "numpy.empty") and len(args) > 1 and self.narrow(args[1])) or (args and self.narrow(LibV(name)))):
            self.I.narrowed(n, name)
        x = self.I.ext.get(tuple(name.rsplit(".", 1)))
        if x is not None:
            return self.I.call(x, args, kwargs, n, st)
        h = MODELS.get(name)
        if h is not None:
            return h(self, args, kwargs, st, n)
        for pre, hh in MODEL_PREFIX:
            if name.startswith(pre):
                return hh(self, name, args, kwargs, st, n)
        last = name.split(".")[-1]
        if name.startswith("builtins.") and last in EXC:
            return LibObj("exception", name=name, args=TupleV(args))
        if name.split(".")[0] in ("numpy", "tensorflow") and last in DTYPES:
            return self.cast(args[0], DTYPES[last], st, n) if args else ZERO
        return self.I.gap(f"library call {name}", n)

    def str_choice(self, args, kwargs):
        """an argument that is one string or another, depending on a condition"""
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, ChoiceV) and self.str_leaf(v):
                return v.c
        return None

    def str_leaf(self, v):
        if isinstance(v, ChoiceV):
            return self.str_leaf(v.a) or self.str_leaf(v.b)
        return isinstance(v, StrV)

    def spread(self, c, args, kwargs, st, f):
        pick = lambda v, side: (v.a if side else v.b) if isinstance(v, ChoiceV) and v.c == c else v
        r1, r2 = self.I.branch(c, lambda s: f([pick(v, True) for v in args], {k: pick(v, True) for k, v in kwargs.items()}, s),
                               lambda s: f([pick(v, False) for v in args], {k: pick(v, False) for k, v in kwargs.items()}, s), st)
        if st.dead:
            return Unknown("dead")
        d = self.I.decide(c, st)
        return r1 if d is True else r2 if d is False else self.I.merge_vals(c, r1, r2, st)

    def narrow(self, v):
        """a literal floating type with less precision than the inputs carry"""
        return isinstance(v, (LibV, StrV)) and self.dtype_of(v) in ("float32", "float16")

    def autocast(self, ref, c, args, kwargs, st, n):
        """a keras model casts floating inputs to its own dtype policy before call()"""
        if not any(b.name.startswith("tensorflow.keras") for b in c.cls.lib_bases()):
            return
        pol, on = c.attrs.get("__policy__"), c.attrs.get("__autocast__", True)
        if on is False:
            return
        pol = self.dtype_of(pol) if pol is not None else "float32"
        x = args[0] if args else kwargs.get("inputs")
        a = self.to_arr(x, st, n) if isinstance(x, (Arr, Ref)) else None
        if a is not None and isinstance(a.dt, str) and a.dt.startswith("float") and a.dt != pol:
            self.I.event(st, "autocast", n, frm=a.dt, to=pol)

    def call_bound(self, name, self_v, args, kwargs, st, n):
        h = MODELS.get("bound:" + name.split(".")[-1])
        if h is not None:
            return h(self, name, self_v, args, kwargs, st, n)
        if name.endswith(".__init__"):
            if name.startswith("tensorflow.keras") and isinstance(self_v, Ref) and isinstance(st.heap.get(self_v.id), InstC):
                c = st.heap[self_v.id]
                d = dict(c.attrs)
                d["__policy__"] = kwargs.get("dtype")
                d["__autocast__"] = kwargs.get("autocast", True)
                st.heap[self_v.id] = type(c)(c.cls, d)
            return None
        if name.startswith("object."):
            return None
        return self.I.gap(f"inherited method {name}", n)

    def inst_lib_attr(self, o, c, name, st, n):
        lb = [b for b in c.cls.lib_bases()]
        h = MODELS.get("instattr")
        if h is not None and lb:
            return h(self, o, c, name, lb, st, n)
        return None

    def cast(self, v, dt, st, n):
        if isinstance(v, Unknown):
            return v
        if self.is_arrlike(v, st):
            a = self.to_arr(v, st, n)
            intdt = isinstance(dt, str) and dt.startswith(("int", "uint"))
            if intdt and not (isinstance(a.dt, str) and a.dt.startswith(("int", "uint"))):
                f = lambda idx: trunc(P(self.asnum(a.at(*idx))))
            elif dt == "bool":
                f = lambda idx: self.cond(a.at(*idx))
            elif a.dt == "bool":
                f = lambda idx: P(self.asnum(a.at(*idx)))
            else:
                f = lambda idx: a.at(*idx)
            r = Arr(a.shape, f, dt, a.lib, None, False, None, dict(a.extra) if a.extra.get("tid") is None else None)
            if a.lib == "tf":
                return self.tfres(r, [a], st, cut=intdt)
            return self.ret(r, st)
        p = self.num(v, st)
        if p is None:
            a = self.to_arr(v, st, n)
            if a is None:
                return self.I.gap("cast", n)
            return self.cast(self.I.alloc(st, a), dt, st, n)
        if isinstance(dt, str) and dt.startswith(("int", "uint")):
            return trunc(p)
        return p

    def call_method(self, o, name, args, kwargs, st, n):
        if isinstance(o, Unknown):
            return o
        c = self.str_choice(args, kwargs)
        if c is not None and not (name in ("append", "insert", "setdefault", "add", "extend")):
            return self.spread(c, args, kwargs, st, lambda a, k, s: self.call_method(o, name, a, k, s, n))
        kind = self.kind_of(o, st)
        h = MODELS.get(f"{kind}.{name}")
        if name in ("astype", "view") and kind in ("arr", "num") and self.narrow(args[0] if args else kwargs.get("dtype")):
            self.I.narrowed(n, name)
        if h is not None:
            return h(self, o, args, kwargs, st, n)
        if isinstance(o, ChoiceV):
            r1, r2 = self.I.branch(o.c, lambda s: self.call_method(o.a, name, args, kwargs, s, n),
                                   lambda s: self.call_method(o.b, name, args, kwargs, s, n), st)
            if st.dead:
                return Unknown("dead")
            return self.I.merge_vals(o.c, r1, r2, st)
        if isinstance(o, LibObj):
            hh = MODELS.get("libobj_method")
            if hh is not None:
                r = hh(self, o, name, args, kwargs, st, n)
                if r is not NotImplemented:
                    return r
        if isinstance(o, OpaqueV):
            self.I.event(st, "opaque_call", n, f=OpaqueV(("attr", o.key, name)), args=args, kwargs=kwargs)
            return OpaqueV(("call", ("attr", o.key, name)) + tuple(self.keyof(a, st) for a in args))
        return self.I.gap(f"method {kind}.{name}", n)

    def obj_attr(self, o, c, name, st, n):
        if name in c.f and not name.startswith("_"):
            return c.f[name]
        h = MODELS.get(f"attr:{c.kind}")
        if h is not None:
            r = h(self, o, c, name, st, n)
            if r is not NotImplemented:
                return r
        return MethodV(o, name)

    def kind_of(self, o, st):
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if isinstance(c, (Arr, ViewC)):
                return "arr"
            if isinstance(c, (ListC, UnkListC)):
                return "set" if getattr(c, "tag", None) == "set" else "list"
            if isinstance(c, DictC):
                return "dict"
            if isinstance(c, ObjC):
                return c.kind
            if isinstance(c, InstC):
                return "inst"
        if isinstance(o, Arr):
            return "arr"
        if isinstance(o, StrV):
            return "path" if o.path else "str"
        if isinstance(o, Poly):
            return "num"
        if isinstance(o, (bool, Cond)):
            return "bool"
        if isinstance(o, OpaqueDict):
            return "opqdict"
        if isinstance(o, OpaqueSeq):
            return "opqseq"
        if isinstance(o, OpaqueV):
            return "opq"
        if isinstance(o, TupleV):
            return "tuple"
        if isinstance(o, PolyObj):
            return "polyobj"
        if isinstance(o, TrainVars):
            return "trainvars"
        if isinstance(o, LibObj):
            return o.kind
        if isinstance(o, VecResult):
            return "vec"
        return type(o).__name__

    def enter(self, cm, st, n):
        kind = self.kind_of(cm, st)
        h = MODELS.get(f"enter:{kind}")
        if h:
            return h(self, cm, st, n)
        if isinstance(cm, Ref) and isinstance(st.heap.get(cm.id), InstC):
            c = st.heap[cm.id]
            m = c.cls.lookup("__enter__")
            if m is not None:
                return self.I.call(BoundV(m, cm), [], {}, n, st)
        return cm

    def exit(self, cm, st, n):
        kind = self.kind_of(cm, st)
        h = MODELS.get(f"exit:{kind}")
        if h:
            d = st.dead
            st.dead = None
            h(self, cm, st, n)
            st.dead = d
            return
        if isinstance(cm, Ref) and isinstance(st.heap.get(cm.id), InstC):
            c = st.heap[cm.id]
            m = c.cls.lookup("__exit__")
            if m is not None:
                self.I.call(BoundV(m, cm), [None, None, None], {}, n, st)

    def shape_of(self, v, total, st, arr=None, n=None):
        """value -> list of dims"""
        if isinstance(v, Poly):
            return [v]
        it = self.concrete_items(v, st)
        if it is None:
            return None
        out = []
        for x in it:
            p = self.num(x, st)
            if p is None:
                return None
            out.append(p)
        return out


def contains_phi(v):
    if isinstance(v, PhiV):
        return True
    if isinstance(v, Poly):
        return "phi" in v.flags()
    return False


def callfn(fn, k, st):
    if getattr(fn, "st", False):
        return fn(k, st)
    return fn(k)


def T_seg_len(segs):
    from .interp import seg_len
    return seg_len(tuple(segs))


def path_join(parts):
    out = []
    for k, p in enumerate(parts):
        if k and out and not (isinstance(out[-1], str) and out[-1].endswith("/")):
            out.append("/")
        out += list(p.parts)
    # normalise duplicated separators in literals
    s = StrV(out, True)
    return s


def T_append_only(uid):
    """is the loop-carried list known to be only appended to?"""
    from .interp import PHILEN
    return uid in PHILEN
