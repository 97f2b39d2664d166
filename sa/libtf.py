"""Models: tensorflow and tf.keras (tensors are immutable values; tapes, variables, layers,
optimizers are heap objects)."""
import ast
from .lib import *
from .lib import T_seg_len
from . import terms as T


def tensor(L, v, st, n):
    if isinstance(v, Unknown):
        return None
    return L.to_arr(v, st, n)


def default_dt(L, v, a):
    """dtype tf infers for a python/numpy value"""
    if a.lib == "tf":
        return a.dt
    if isinstance(v, Poly) or (isinstance(v, Ref) is False and isinstance(v, TupleV)):
        return "int32" if a.dt == "int64" else ("float32" if a.dt == "float64" else a.dt)
    return a.dt


def to_tensor(L, v, dt, st, n, shape=None, cut=False):
    if isinstance(v, Unknown):
        return v
    a = L.to_arr(v, st, n)
    if a is None:
        return L.I.gap(f"tensor conversion of {type(v).__name__} {v!r}"[:140], n)
    d = dt or default_dt(L, v, a)
    intdt = isinstance(d, str) and d.startswith(("int", "uint"))
    src = a
    if intdt and not (isinstance(a.dt, str) and a.dt.startswith(("int", "uint"))) and a.dt != "bool":
        f = lambda idx: trunc(P(L.asnum(src.at(*idx))))
    elif a.dt == "bool" and d != "bool":
        f = lambda idx: P(L.asnum(src.at(*idx)))
    else:
        f = lambda idx: src.at(*idx)
    if shape is not None:
        sh = L.shape_of(shape, None, st)
        if sh is not None and a.ndim == 0:
            r = Arr(sh, lambda idx: f(()), d, "tf")
            return L.tfres(r, [a], st, cut)
        if sh is not None:
            r0 = L.arr.reshape(Arr(a.shape, f, d, "tf"), L.arr.resolve_shape(a, sh) if hasattr(L.arr, "resolve_shape") else sh)
            return L.tfres(r0, [a], st, cut)
    if a.lib == "tf" and (dt is None or a.dt == dt) and not cut:
        return a
    r = Arr(a.shape, f, d, "tf")
    return L.tfres(r, [a], st, cut or (intdt and a.dt != d))


@model("tensorflow.constant")
def _constant(L, a, k, st, n):
    A = Args(a, k, ["value", "dtype", "shape", "name"])
    v = A.get("value")
    x = L.to_arr(v, st, n) if not isinstance(v, Unknown) else None
    if x is not None and x.lib == "tf" and x.rec:
        # constant() of a recorded tensor severs nothing in graph mode; keep recording
        pass
    if isinstance(v, StrV):
        return v
    return to_tensor(L, v, L.dtype_of(A.get("dtype")), st, n, A.get("shape"))


@model("tensorflow.convert_to_tensor")
def _convert(L, a, k, st, n):
    A = Args(a, k, ["value", "dtype", "dtype_hint", "name"])
    return to_tensor(L, A.get("value"), L.dtype_of(A.get("dtype")), st, n)


@model("tensorflow.cast", "tensorflow.saturate_cast")
def _cast(L, a, k, st, n):
    A = Args(a, k, ["x", "dtype", "name"])
    v = A.get("x")
    dt = L.dtype_of(A.get("dtype"))
    return to_tensor(L, v, dt, st, n)


@model("tensorflow.stop_gradient")
def _stopgrad(L, a, k, st, n):
    v = tensor(L, a[0], st, n)
    if v is None:
        return L.I.gap("stop_gradient operand", n)
    r = Arr(v.shape, lambda idx: v.at(*idx), v.dt, "tf")
    L.tfres(r, [v], st, cut=True)
    return r


@model("arr.numpy")
def _numpy(L, o, a, k, st, n):
    v = L.to_arr(o, st, n)
    L.I.event(st, "to_numpy", n, value=v)
    return L.ret(Arr(v.shape, lambda idx: v.at(*idx), v.dt, "np"), st)


@model("tfvar.numpy")
def _vnumpy(L, o, a, k, st, n):
    v = L.read_var(o, st)
    L.I.event(st, "to_numpy", n, value=v)
    return L.ret(Arr(v.shape, lambda idx: v.at(*idx), v.dt, "np"), st)


@model("tensorflow.Variable")
def _variable(L, a, k, st, n):
    A = Args(a, k, ["initial_value", "trainable", "validate_shape", "caching_device", "name", "variable_def", "dtype", "import_scope", "constraint"])
    v = A.get("initial_value")
    if isinstance(v, Unknown):
        return v
    t = to_tensor(L, v, L.dtype_of(A.get("dtype")), st, n)
    if not isinstance(t, Arr):
        return t
    tr = A.get("trainable", True)
    if tr is None:
        tr = True
    init = t
    uid = new_id()
    ref = L.I.alloc(st, None)
    val = Arr(init.shape, lambda idx: P(atom("var", ref.id, *idx)), init.dt, "tf")
    st.heap[ref.id] = ObjC("tfvar", {"val": val, "init": init, "trainable": tr, "name": A.get("name"), "constraint": A.get("constraint"), "dt": init.dt})
    L.I.event(st, "tfvar_new", n, ref=ref, init=init, trainable=tr)
    return ref


@model("attr:tfvar")
def _var_attr(L, o, c, name, st, n):
    v = c.f["val"]
    if name == "shape":
        return TupleV(v.shape)
    if name == "dtype":
        return L.dtype_val(v.dt, "tf")
    if name == "name":
        return StrV([("opq", ("varname", o.id))])
    return NotImplemented


@model("tfvar.value", "tfvar.read_value")
def _var_value(L, o, a, k, st, n):
    v = L.read_var(o, st)
    return L.tfres(Arr(v.shape, lambda idx: v.at(*idx), v.dt, "tf"), [v], st)


def _assign(how):
    def f(L, o, a, k, st, n):
        L.I.event(st, "var_assign", n, var=o, how=how, value=a[0] if a else k.get("value"))
        return o
    return f


for _h in ("assign", "assign_add", "assign_sub"):
    MODELS["tfvar." + _h] = _assign(_h)


# ----------------------------------------------------------------- shaping extras
def _as2(L, n, *vs):
    return all(v is not None for v in vs)


@model("tensorflow.linalg.matvec")
def _matvec(L, a, k, st, n):
    A = Args(a, k, ["a", "b", "transpose_a", "adjoint_a"])
    x, y = tensor(L, A.get("a"), st, n), tensor(L, A.get("b"), st, n)
    if x is None or y is None:
        return Unknown("matvec operand") if isinstance(A.get("a"), Unknown) or isinstance(A.get("b"), Unknown) else L.I.gap("matvec operand", n)
    if A.get("transpose_a") is True or A.get("adjoint_a") is True:
        ax = list(range(x.ndim))
        ax[-1], ax[-2] = ax[-2], ax[-1]
        x = L.arr.transpose(x, ax)
    if x.ndim < 2 or y.ndim < 1:
        L.I.raise_(st, "ValueError", n, "matvec rank")
        return Unknown("matvec rank")
    if x.dt != y.dt:
        L.I.event(st, "tf_dtype_mix", n, a=x.dt, b=y.dt)
    if not deq(x.shape[-1], y.shape[-1]):
        L.shape_mismatch(x.shape[-1], y.shape[-1], st, n)
        if st.dead:
            return Unknown("matvec shape")
    bx, by = x.shape[:-2], y.shape[:-1]
    batch, bad = bcast_shapes([bx, by])
    for d1, d2 in bad:
        L.shape_mismatch(d1, d2, st, n)
        if st.dead:
            return Unknown("matvec batch")
    K = x.shape[-1]

    def fn(idx):
        bi, r = idx[:-1], idx[-1]
        kk = fresh("k", ZERO, K - 1)
        xb = bidx(bi, bx, batch) if bx else ()
        yb = bidx(bi, by, batch) if by else ()
        return mk_sum(kk, K, P(x.at(*xb, r, P(kk))) * P(y.at(*yb, P(kk))))
    return L.tfres(Arr(tuple(batch) + (x.shape[-2],), fn, x.dt, "tf"), [x, y], st)


@model("tensorflow.matmul")
def _tfmatmul(L, a, k, st, n):
    A = Args(a, k, ["a", "b", "transpose_a", "transpose_b"])
    x, y = tensor(L, A.get("a"), st, n), tensor(L, A.get("b"), st, n)
    if x is None or y is None:
        return L.I.gap("matmul operand", n)

    def tr(z):
        ax = list(range(z.ndim))
        ax[-1], ax[-2] = ax[-2], ax[-1]
        return L.arr.transpose(z, ax)
    if A.get("transpose_a") is True:
        x = carry(tr(x), x)
    if A.get("transpose_b") is True:
        y = carry(tr(y), y)
    return L.matmul(x, y, st, n)


def carry(r, src):
    r.rec, r.dep, r.lib = src.rec, src.dep, src.lib
    return r


@model("tensorflow.add_n")
def _addn(L, a, k, st, n):
    it = L.concrete_items(a[0], st)
    if it is None:
        return L.I.gap("add_n", n)
    r = it[0]
    for x in it[1:]:
        r = L.binop(ast.Add(), r, x, st, n)
    return r


@model("tensorflow.gather")
def _gather(L, a, k, st, n):
    A = Args(a, k, ["params", "indices", "validate_indices", "axis", "batch_dims", "name"])
    ax = A.get("axis")
    ax = int(ax.const()) if isinstance(ax, Poly) and ax.is_const() else 0
    x = tensor(L, A.get("params"), st, n)
    i = L.num(A.get("indices"), st)
    if x is None:
        return L.I.gap("gather operand", n)
    if ax < 0:
        ax += x.ndim
    if i is not None:
        key = TupleV([SliceV(None, None, None)] * ax + [i])
        return L.getitem(x, key, st, n)
    ia = tensor(L, A.get("indices"), st, n)
    if ia is None or ia.ndim != 1:
        return L.I.gap("gather indices", n)
    sh = x.shape[:ax] + ia.shape + x.shape[ax + 1:]
    return L.tfres(Arr(sh, lambda idx: x.at(*idx[:ax], P(L.asnum(ia.at(idx[ax]))), *idx[ax + 1:]), x.dt, "tf"), [x], st)


def _tfsort(fn):
    def m(L, a, k, st, n):
        A = Args(a, k, ["values", "axis", "direction", "stable", "name"])
        d = A.get("direction")
        d = d.concrete() if isinstance(d, StrV) else None
        x = tensor(L, A.get("values"), st, n)
        if x is None or d not in (None, "ASCENDING", "DESCENDING"):
            return L.I.gap("tensor sort", n)
        ax = A.get("axis")
        r = MODELS["numpy." + fn](L, [L.I.alloc(st, x), const(-1) if ax is None else ax], {}, st, n)
        if not isinstance(r, Ref):
            return r
        r = L.I.deref(st, r)
        if d == "DESCENDING":
            j = -1 if ax is None else int(ax.const())
            j = j % x.ndim
            r0 = r
            r = Arr(x.shape, lambda idx: r0.at(*idx[:j], x.shape[j] - 1 - P(idx[j]), *idx[j + 1:]), r0.dt, "tf")
        return L.tfres(Arr(x.shape, lambda idx: r.at(*idx), "int32" if fn == "argsort" else x.dt, "tf"), [x], st)
    return m


MODELS["tensorflow.argsort"] = _tfsort("argsort")
MODELS["tensorflow.sort"] = _tfsort("sort")


@model("tensorflow.reverse")
def _tfreverse(L, a, k, st, n):
    A = Args(a, k, ["tensor", "axis"])
    x = tensor(L, A.get("tensor"), st, n)
    it = L.concrete_items(A.get("axis"), st)
    if x is None or it is None or not all(isinstance(z, Poly) and z.is_const() for z in it):
        return L.I.gap("tensorflow.reverse", n)
    axs = {int(z.const()) % x.ndim for z in it}
    return L.tfres(Arr(x.shape, lambda idx: x.at(*[x.shape[d] - 1 - P(q) if d in axs else q for d, q in enumerate(idx)]), x.dt, "tf"), [x], st)


@model("tensorflow.random.shuffle")
def _tfshuffle(L, a, k, st, n):
    x = tensor(L, a[0] if a else k.get("value"), st, n)
    if x is None:
        return L.I.gap("tensorflow.random.shuffle", n)
    pa = L.I.deref(st, MODELS["numpy.random.permutation"](L, [x.shape[0]], {}, st, n))
    return L.tfres(Arr(x.shape, lambda idx: x.at(pa.at(idx[0]), *idx[1:]), x.dt, "tf"), [x], st)


@model("tensorflow.shape")
def _tfshape(L, a, k, st, n):
    x = tensor(L, a[0] if a else k.get("input"), st, n)
    if x is None:
        return L.I.gap("shape operand", n)
    return TupleV(x.shape)


@model("tensorflow.slice")
def _tfslice(L, a, k, st, n):
    A = Args(a, k, ["input_", "begin", "size"])
    x = tensor(L, A.get("input_"), st, n)
    b = L.concrete_items(A.get("begin"), st)
    s = L.concrete_items(A.get("size"), st)
    if x is None or b is None or s is None:
        return L.I.gap("tf.slice", n)
    key = []
    for b_, s_ in zip(b, s):
        hi = None if s_ == const(-1) else b_ + s_
        key.append(SliceV(b_, hi, None))
    return L.getitem(x, TupleV(key), st, n)


@model("tensorflow.nn.relu")
def _relu(L, a, k, st, n):
    return L.ew(lambda x: mk_fn("max", P(x), ZERO), [a[0]], st, n)


@model("tensorflow.nn.sigmoid", "tensorflow.sigmoid", "tensorflow.math.sigmoid")
def _sigm(L, a, k, st, n):
    return L.ew(lambda x: mk_fn("sigmoid", P(x)), [a[0]], st, n)


@model("tensorflow.keras.losses.MSE", "tensorflow.keras.losses.mse", "tensorflow.keras.losses.mean_squared_error",
       "tensorflow.keras.metrics.mean_squared_error")
def _mse(L, a, k, st, n):
    d = L.binop(ast.Sub(), a[0], a[1], st, n)
    sq = L.call_lib("tensorflow.square", [d], {}, st, n)
    return L.call_lib("tensorflow.reduce_mean", [sq], {"axis": const(-1)}, st, n)


@model("tensorflow.math.squared_difference")
def _sqdiff(L, a, k, st, n):
    A = Args(a, k, ["x", "y", "name"])
    d = L.binop(ast.Sub(), A.get("x"), A.get("y"), st, n)
    return L.call_lib("tensorflow.square", [d], {}, st, n)


@model("tensorflow.ensure_shape", "tensorflow.debugging.check_numerics")
def _ensure(L, a, k, st, n):
    return a[0]


@model("tensorflow.function")
def _tffunction(L, a, k, st, n):
    if a and not isinstance(a[0], (bool, Poly)):
        return a[0]
    return LibObj("deco", name="tensorflow.function")


@model("tensorflow.device", "tensorflow.name_scope", "tensorflow.init_scope", "tensorflow.keras.backend.name_scope")
def _device(L, a, k, st, n):
    L.I.event(st, "device", n, spec=a[0] if a else None)
    return LibObj("nullctx")


@model("enter:nullctx")
def _nenter(L, cm, st, n):
    return cm


@model("exit:nullctx")
def _nexit(L, cm, st, n):
    return None


@model("tensorflow.config.list_physical_devices", "tensorflow.config.experimental.list_physical_devices", "tensorflow.config.list_logical_devices")
def _devices(L, a, k, st, n):
    ln = atom("len", ("devices", a[0].concrete() if a and isinstance(a[0], StrV) else "all"))
    NONNEG.add(ln)
    INTS.add(ln)
    return OpaqueSeq(("devices", a[0].concrete() if a and isinstance(a[0], StrV) else "all"), P(ln),
                     lambda i: OpaqueV(("device", i)))


def _tfconfig(L, name, a, k, st, n):
    L.I.event(st, "tf_config", n, name=name, args=a)
    return None


MODEL_PREFIX.append(("tensorflow.config.", _tfconfig))
MODEL_PREFIX.append(("tensorflow.debugging.", lambda L, name, a, k, st, n: None))
MODEL_PREFIX.append(("tensorflow.summary.", lambda L, name, a, k, st, n: OpaqueV((name, new_id()))))
MODEL_PREFIX.append(("tensorflow.get_logger", lambda L, name, a, k, st, n: OpaqueV((name, new_id()))))
MODEL_PREFIX.append(("tensorflow.autograph.", lambda L, name, a, k, st, n: None))


# ----------------------------------------------------------------- gradient tape
@model("tensorflow.GradientTape")
def _tape(L, a, k, st, n):
    A = Args(a, k, ["persistent", "watch_accessed_variables"])
    return L.I.alloc(st, ObjC("tape", {"persistent": A.get("persistent", False), "wav": A.get("watch_accessed_variables", True),
                                       "watched": frozenset(), "used": 0}))


@model("enter:tape")
def _tenter(L, cm, st, n):
    st.tapes = st.tapes + (cm.id,)
    return cm


@model("exit:tape")
def _texit(L, cm, st, n):
    st.tapes = tuple(t for t in st.tapes if t != cm.id)


def watch_one(L, tape, v, st, n):
    if isinstance(v, Arr):
        tid = v.extra.get("tid")
        if tid is None:
            tid = new_id()
            v.extra["tid"] = tid
        c = st.heap[tape.id]
        f = dict(c.f)
        f["watched"] = f["watched"] | {tid}
        st.heap[tape.id] = ObjC("tape", f)
        st.memo["everwatched"] = frozenset(st.memo.get("everwatched", ())) | {tid}
        L.I.event(st, "watch", n, tape=tape, value=v, active=tape.id in st.tapes)
    elif isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjC) and st.heap[v.id].kind == "tfvar":
        pass
    else:
        it = L.concrete_items(v, st)
        if it is None:
            L.I.gap("watch operand", n)
            return
        for x in it:
            watch_one(L, tape, x, st, n)


@model("tape.watch")
def _watch(L, o, a, k, st, n):
    watch_one(L, o, a[0] if a else k.get("tensor"), st, n)


@model("tape.reset")
def _treset(L, o, a, k, st, n):
    L.I.gap("tape.reset", n)


@model("tape.stop_recording")
def _tstop(L, o, a, k, st, n):
    return LibObj("stoprec", tape=o)


@model("enter:stoprec")
def _sre(L, cm, st, n):
    st.tapes = tuple(t for t in st.tapes if t != cm.f["tape"].id)
    return cm


@model("exit:stoprec")
def _srx(L, cm, st, n):
    st.tapes = st.tapes + (cm.f["tape"].id,)


def total(L, t):
    """sum over all elements of a tensor (what the tape differentiates)"""
    def go(k, idx):
        if k == t.ndim:
            return P(L.asnum(t.at(*idx)))
        if t.shape[k] == ONE:
            return go(k + 1, idx + (ZERO,))
        i = fresh("s", ZERO, t.shape[k] - 1)
        return mk_sum(i, t.shape[k], go(k + 1, idx + (P(i),)))
    return go(0, ())


def src_lam(src):
    vs = [fresh("x", ZERO, d - 1) for d in src.shape]
    t = P(src.at(*[P(v) for v in vs]))
    for v in reversed(vs):
        t = P(mk_lam(v, t))
    return t


@model("tape.gradient")
def _gradient(L, o, a, k, st, n):
    A = Args(a, k, ["target", "sources", "output_gradients", "unconnected_gradients"])
    tgt, srcs = A.get("target"), A.get("sources")
    if isinstance(tgt, Unknown):
        return tgt
    if A.get("output_gradients") is not None:
        return L.I.gap("output_gradients", n)
    c = st.heap[o.id]
    if c.f["used"] and L.I.decide(L.I.truth(c.f["persistent"], st, n), st) is not True:
        L.I.raise_(st, "RuntimeError", n, "A non-persistent GradientTape can only be used to compute one set of gradients")
        return Unknown("tape already used")
    f = dict(c.f)
    f["used"] = f["used"] + 1
    st.heap[o.id] = ObjC("tape", f)
    t = L.to_arr(tgt, st, n)
    if t is None:
        its = L.concrete_items(tgt, st)
        return L.I.gap(f"gradient target {tgt!r}"[:120], n)
    zero = isinstance(A.get("unconnected_gradients"), (StrV, LibV)) and "ZERO" in repr(A.get("unconnected_gradients")).upper()
    return grad_of(L, o, t, srcs, zero, st, n)


def grad_of(L, tape, t, src, zero, st, n):
    if isinstance(src, Unknown):
        return src
    if isinstance(src, Ref):
        c = st.heap.get(src.id)
        if isinstance(c, ObjC) and c.kind == "tfvar":
            tapes = (t.rec or {}).get(("var", src.id))
            ok = tapes is None and ("var", src.id) in (t.rec or {}) or tapes is not None and tape.id in tapes
            L.I.event(st, "gradient", n, target=t, source=src, ok=ok, tape=tape)
            return LibObj("grad", target=t, var=src, ok=ok, tape=tape)
        if isinstance(c, ListC):
            out = []
            for s in c.segs:
                if s[0] != "item":
                    return L.I.gap("gradient with respect to a list of unknown length", n)
                out.append(("item", grad_of(L, tape, t, s[1], zero, st, n)))
            return L.I.alloc(st, ListC(out))
        if isinstance(c, DictC) and c.base is None:
            return L.I.alloc(st, DictC([(kk, grad_of(L, tape, t, v, zero, st, n)) for kk, v in c.entries]))
    if isinstance(src, TupleV):
        return TupleV([grad_of(L, tape, t, s, zero, st, n) for s in src.items])
    if isinstance(src, Arr):
        tid = src.extra.get("tid")
        tapes = (t.rec or {}).get(("t", tid)) if tid is not None else None
        ok = tid is not None and ("t", tid) in (t.rec or {}) and (tapes is None or tape.id in tapes)
        L.I.event(st, "gradient", n, target=t, source=src, ok=ok, tape=tape)
        if not ok and not t.rec and L.I.loops_over_layers(t):
            return L.I.gap("gradient of a value computed by a loop of unknown length", n)
        if not ok:
            if zero:
                return Arr(src.shape, lambda idx: ZERO, src.dt, "tf")
            return None
        memo = {}

        def fn(idx):
            if "S" not in memo:
                memo["S"] = total(L, t)
                memo["L"] = src_lam(src)
            return P(atom("gr", memo["S"], memo["L"], *idx))
        return L.tfres(Arr(src.shape, fn, src.dt, "tf"), [t, src], st)
    it = L.concrete_items(src, st)
    if it is not None:
        return L.I.alloc(st, ListC([("item", grad_of(L, tape, t, s, zero, st, n)) for s in it]))
    return L.I.gap(f"gradient source {src!r}"[:120], n)


@model("tape.jacobian", "tape.batch_jacobian")
def _jacobian(L, o, a, k, st, n):
    return L.I.gap("tape.jacobian", n)


# ----------------------------------------------------------------- keras layers
def reachable_vars(L, v, st, seen, out, trainable=True):
    """variables reachable through keras attribute tracking"""
    if isinstance(v, ChoiceV):
        reachable_vars(L, v.a, st, seen, out, trainable)
        reachable_vars(L, v.b, st, seen, out, trainable)
        return
    if isinstance(v, TupleV):
        for x in v.items:
            reachable_vars(L, x, st, seen, out, trainable)
        return
    if isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
        c = st.heap.get(v.id)
        if isinstance(c, ObjC):
            if c.kind == "tfvar":
                if not trainable or L.I.truth(c.f.get("trainable", True), st, None) is not False:
                    out.append(v)
                return
            if c.kind == "layer":
                if trainable and c.f.get("trainable", True) is False:
                    return
                for x in c.f["vars"]:
                    reachable_vars(L, x, st, seen, out, trainable)
                for x in c.f.get("sub", ()):
                    reachable_vars(L, x, st, seen, out, trainable)
                return
        if isinstance(c, ListC):
            for s in c.segs:
                if s[0] == "item":
                    reachable_vars(L, s[1], st, seen, out, trainable)
                else:
                    out.append(None)
        elif isinstance(c, DictC):
            for _, x in c.entries:
                if x is not MISSING:
                    reachable_vars(L, x, st, seen, out, trainable)
            if c.base is not None:
                out.append(None)
        elif isinstance(c, InstC):
            if any(b.name.startswith("tensorflow.keras") for b in c.cls.lib_bases()):
                for nm, x in c.attrs.items():
                    if nm.startswith("__"):
                        continue
                    reachable_vars(L, x, st, seen, out, trainable)


def new_layer(L, typ, cfg, st, n, nvars):
    ref = L.I.alloc(st, None)
    vs = []
    for nm in nvars:
        vr = L.I.alloc(st, None)
        d = (P(atom("dim", ref.id, nm)),)
        st.heap[vr.id] = ObjC("tfvar", {"val": Arr(d, (lambda vr: lambda idx: P(atom("var", vr.id, *idx)))(vr), cfg.get("dtype_") or "float32", "tf"),
                                        "trainable": True, "name": nm, "layer": ref, "dt": cfg.get("dtype_")})
        vs.append(vr)
    st.heap[ref.id] = ObjC("layer", {"type": typ, "cfg": cfg, "vars": tuple(vs), "trainable": cfg.get("trainable", True), "order": new_id()})
    L.I.event(st, "layer_new", n, ref=ref, type=typ, cfg=cfg)
    return ref


DENSE_ARGS = ["units", "activation", "use_bias", "kernel_initializer", "bias_initializer", "kernel_regularizer", "bias_regularizer",
              "activity_regularizer", "kernel_constraint", "bias_constraint"]


@model("tensorflow.keras.layers.Dense")
def _dense(L, a, k, st, n):
    A = Args(a, k, DENSE_ARGS)
    cfg = dict(A.d)
    cfg.setdefault("activation", None)
    cfg.setdefault("use_bias", True)
    cfg["dtype_"] = L.dtype_of(cfg.get("dtype")) or "float32"
    vs = ["kernel"] + (["bias"] if L.I.decide(L.I.truth(cfg["use_bias"], st, n), st) is not False else [])
    return new_layer(L, "Dense", cfg, st, n, vs)


@model("tensorflow.keras.layers.Attention")
def _attention(L, a, k, st, n):
    A = Args(a, k, ["use_scale", "score_mode"])
    cfg = dict(A.d)
    cfg["dtype_"] = L.dtype_of(cfg.get("dtype")) or "float32"
    vs = ["scale"] if A.get("use_scale") is True else []
    return new_layer(L, "Attention", cfg, st, n, vs)


@model("tensorflow.keras.layers.Activation")
def _activation(L, a, k, st, n):
    A = Args(a, k, ["activation"])
    return new_layer(L, "Activation", dict(A.d), st, n, [])


@model("tensorflow.keras.layers.Lambda")
def _lambda(L, a, k, st, n):
    A = Args(a, k, ["function"])
    return new_layer(L, "Lambda", dict(A.d), st, n, [])


@model("tensorflow.keras.Sequential", "tensorflow.keras.models.Sequential")
def _sequential(L, a, k, st, n):
    its = L.concrete_items(a[0], st) if a else []
    if its is None:
        return L.I.gap("Sequential of unknown layers", n)
    r = new_layer(L, "Sequential", {}, st, n, [])
    c = st.heap[r.id]
    f = dict(c.f)
    f["sub"] = tuple(its)
    st.heap[r.id] = ObjC("layer", f)
    return r


@model("layer.add")
def _seqadd(L, o, a, k, st, n):
    c = st.heap[o.id]
    f = dict(c.f)
    f["sub"] = tuple(f.get("sub", ())) + (a[0],)
    st.heap[o.id] = ObjC("layer", f)


def _other_layer(L, name, a, k, st, n):
    return new_layer(L, name.split(".")[-1], {**{("arg", i): x for i, x in enumerate(a)}, **k}, st, n, ["weights"])


MODEL_PREFIX.append(("tensorflow.keras.layers.", _other_layer))
MODEL_PREFIX.append(("tensorflow.keras.initializers.", lambda L, name, a, k, st, n: LibObj("initializer", name=name, args=tuple(a), kw=tuple(sorted(k.items(), key=lambda z: z[0])))))
MODEL_PREFIX.append(("tensorflow.keras.activations.", lambda L, name, a, k, st, n: OpaqueV((name, new_id()))))
MODEL_PREFIX.append(("tensorflow.keras.backend.", lambda L, name, a, k, st, n: _kbackend(L, name, a, k, st, n)))


def _kbackend(L, name, a, k, st, n):
    last = name.split(".")[-1]
    if last in ("set_floatx", "clear_session"):
        L.I.event(st, "tf_config", n, name=name, args=a)
        return None
    return L.I.gap(f"library call {name}", n)


@model("tensorflow.keras.utils.register_keras_serializable", "tensorflow.keras.saving.register_keras_serializable")
def _reg(L, a, k, st, n):
    return LibObj("deco", name="dataclass-free")


@model("functools.lru_cache", "functools.cache")
def _lru(L, a, k, st, n):
    return LibObj("deco", name="functools.lru_cache")


@model("callobj:layer")
def _call_layer(L, f, c, a, k, st, n):
    typ = c.f["type"]
    x = a[0] if a else k.get("inputs")
    if isinstance(x, Unknown):
        return x
    if typ == "Sequential":
        for l in c.f.get("sub", ()):
            x = L.I.call(l, [x], {}, n, st)
        return x
    if typ == "Lambda":
        return L.I.call(c.f["cfg"]["function"], [x], {}, n, st)
    cfg = c.f["cfg"]
    vs = [L.read_var(v, st) for v in c.f["vars"]]
    dt = cfg.get("dtype_") or "float32"
    if typ == "Attention":
        its = L.concrete_items(x, st) if not isinstance(x, Arr) else None
        if its is None:
            return L.I.gap("attention operands", n)
        xs = [L.to_arr(v, st, n) for v in its]
        if any(v is None for v in xs):
            return L.I.gap("attention operands", n)
        lams = []

        def fn(idx):
            if not lams:
                lams.extend(src_lam(v) for v in xs)
            return P(atom("att", f.id, *lams, *idx))
        return L.tfres(Arr(xs[0].shape, fn, dt, "tf"), xs + vs, st)
    xa = L.to_arr(x, st, n)
    if xa is None:
        return L.I.gap(f"layer input {x!r}"[:100], n)
    if typ == "Activation":
        ac = cfg.get("activation")
        key = ac.concrete() if isinstance(ac, StrV) else repr(ac)
        return L.ew(lambda z: mk_fn("act:" + str(key), P(z)), [xa], st, n, xa.dt)
    if typ == "Dense":
        units = L.num(cfg["units"], st)
        if units is None:
            return L.I.gap("Dense units", n)
        lead = xa.shape[:-1]

        def fn(idx):
            row, j = idx[:-1], idx[-1]
            cc = fresh("c", ZERO, xa.shape[-1] - 1)
            lam = P(mk_lam(cc, P(xa.at(*row, P(cc)))))
            return P(atom("dense", f.id, j, lam))
        return L.tfres(Arr(lead + (units,), fn, dt, "tf"), [xa] + vs, st)
    lam = []

    def fn2(idx):
        if not lam:
            lam.append(src_lam(xa))
        return P(atom("layer", typ, f.id, lam[0], *idx))
    return L.tfres(Arr(xa.shape, fn2, dt, "tf"), [xa] + vs, st)


@model("attr:layer")
def _layer_attr(L, o, c, name, st, n):
    if name in ("trainable_variables", "trainable_weights", "variables", "weights"):
        out = []
        reachable_vars(L, o, st, set(), out, "trainable" in name)
        return L.I.alloc(st, ListC([("item", x) for x in out]))
    if name == "kernel" and c.f["vars"]:
        return c.f["vars"][0]
    if name == "bias" and len(c.f["vars"]) > 1:
        return c.f["vars"][1]
    if name in c.f["cfg"]:
        return c.f["cfg"][name]
    if name in ("name", "input_shape", "output_shape", "built"):
        return OpaqueV(("layerattr", o.id, name))
    return NotImplemented


@model("layer.build", "layer.summary", "layer.compile")
def _lbuild(L, o, a, k, st, n):
    return None


@model("layer.get_config")
def _lgc(L, o, a, k, st, n):
    return L.I.alloc(st, DictC([(kk, v) for kk, v in st.heap[o.id].f["cfg"].items() if isinstance(kk, str)]))


# ----------------------------------------------------------------- keras Model subclass hooks
KM = ("compile", "build", "summary", "get_config", "add_weight", "add_loss", "add_metric", "save", "save_weights", "load_weights",
      "predict", "fit", "evaluate", "get_weights", "set_weights", "count_params", "get_layer", "reset_states", "from_config", "__call__",
      "to_json", "call", "train_step")


@model("instattr")
def _instattr(L, o, c, name, lb, st, n):
    if not any(b.name.startswith("tensorflow.") for b in lb):
        return None
    if name in ("trainable_variables", "trainable_weights", "variables", "weights"):
        out = []
        reachable_vars(L, o, st, set(), out, "trainable" in name)
        if any(x is None for x in out):
            return L.I.gap("tracked variables in a collection of unknown size", n)
        L.I.event(st, "read_trainables", n, vars=tuple(out), trainable="trainable" in name)
        return L.I.alloc(st, ListC([("item", x) for x in out]))
    if name == "layers":
        out = []
        for nm, v in c.attrs.items():
            collect_layers(L, v, st, out)
        return L.I.alloc(st, ListC([("item", x) for x in out]))
    if name in KM:
        return BoundV(LibV("tensorflow.keras.Model." + name), o)
    if name in ("name", "losses", "built", "dtype", "metrics", "inputs", "outputs", "non_trainable_variables", "trainable", "compute_dtype", "stop_training"):
        return OpaqueV(("modelattr", name))
    return None


def collect_layers(L, v, st, out):
    if isinstance(v, ChoiceV):
        collect_layers(L, v.a, st, out)
        collect_layers(L, v.b, st, out)
    elif isinstance(v, TupleV):
        for x in v.items:
            collect_layers(L, x, st, out)
    elif isinstance(v, Ref):
        c = st.heap.get(v.id)
        if isinstance(c, ObjC) and c.kind == "layer" and v not in out:
            out.append(v)
        elif isinstance(c, ListC) and c.items() is not None:
            for x in c.items():
                collect_layers(L, x, st, out)


@model("bound:get_config")
def _bgc(L, name, self_v, a, k, st, n):
    return L.I.alloc(st, DictC([]))


@model("bound:compile")
def _bcompile(L, name, self_v, a, k, st, n):
    A = Args(a, k, ["optimizer", "loss", "metrics"])
    L.I.event(st, "compile", n, obj=self_v, kw=dict(A.d))
    if A.has("optimizer"):
        c = st.heap[self_v.id]
        d = dict(c.attrs)
        d["optimizer"] = A.get("optimizer")
        st.heap[self_v.id] = InstC(c.cls, d)
    return None


@model("bound:build")
def _bbuild(L, name, self_v, a, k, st, n):
    L.I.event(st, "build", n, obj=self_v)
    # keras runs the model's call() once on a placeholder of the given shape
    A = Args(a, k, ["input_shape"])
    c = st.heap.get(self_v.id)
    sh = A.get("input_shape")
    sh = L.I.deref(st, sh) if isinstance(sh, Ref) else sh
    items = sh.items if isinstance(sh, TupleV) else sh.items() if isinstance(sh, ListC) else None
    if isinstance(c, InstC) and c.cls.lookup("call") is not None and items is not None:
        dims = []
        for x in items:
            d = L.num(x, st) if x is not None else None
            dims.append(P(fresh("batch", ONE, None)) if d is None else P(d))
        s2 = st.clone()
        n0 = len(s2.events)
        ph = L.I.alloc(s2, Arr(tuple(dims), lambda ix: P(atom("placeholder", *ix)), "float32", "tf"))
        gaps = len(L.I.gaps)
        L.I.call(L.I.getattr(self_v, "call", s2, n), [ph], {}, n, s2)
        del L.I.gaps[gaps:]
        bad = [e for e in s2.events[n0:] if e.kind == "raise" and str(e.data.get("exc")) in ("AttributeError", "NameError", "KeyError", "IndexError")]
        if bad:
            st.events = st.events + tuple(bad) if isinstance(st.events, tuple) else st.events + bad
            if s2.dead == "raise":
                st.dead = "raise"
    return None


@model("bound:summary", "bound:add_loss", "bound:add_metric", "bound:count_params", "bound:reset_states")
def _bsummary(L, name, self_v, a, k, st, n):
    return None


@model("bound:add_weight")
def _baddweight(L, name, self_v, a, k, st, n):
    A = Args(a, k, ["name", "shape", "dtype", "initializer", "regularizer", "trainable"])
    sh = L.shape_of(A.get("shape", TupleV([])), None, st)
    if sh is None:
        return L.I.gap("add_weight shape", n)
    ref = L.I.alloc(st, None)
    dt = L.dtype_of(A.get("dtype")) or "float32"
    init = A.get("initializer")
    st.heap[ref.id] = ObjC("tfvar", {"val": Arr(sh, lambda idx: P(atom("var", ref.id, *idx)), dt, "tf"), "init": None, "trainable": A.get("trainable", True),
                                     "name": A.get("name"), "initializer": init, "dt": dt})
    L.I.event(st, "tfvar_new", n, ref=ref, init=init, trainable=A.get("trainable", True))
    # tracked by the owner even when not stored in an attribute
    c = st.heap[self_v.id]
    d = dict(c.attrs)
    d[("weight", ref.id).__repr__()] = ref
    st.heap[self_v.id] = InstC(c.cls, d)
    return ref


@model("bound:__call__")
def _bcall(L, name, self_v, a, k, st, n):
    return L.I.call(self_v, a, k, n, st)


@model("bound:__setattr__")
def _bsetattr(L, name, self_v, a, k, st, n):
    nm = a[0].concrete()
    c = st.heap[self_v.id]
    d = dict(c.attrs)
    d[nm] = a[1]
    st.heap[self_v.id] = InstC(c.cls, d)


# ----------------------------------------------------------------- optimizers
def _optimizer(L, name, a, k, st, n):
    short = name.split(".")[-1]
    if ".schedules." in name:
        sig = {"ExponentialDecay": ["initial_learning_rate", "decay_steps", "decay_rate", "staircase", "name"],
               "PiecewiseConstantDecay": ["boundaries", "values", "name"],
               "CosineDecay": ["initial_learning_rate", "decay_steps", "alpha"],
               "InverseTimeDecay": ["initial_learning_rate", "decay_steps", "decay_rate", "staircase", "name"],
               "PolynomialDecay": ["initial_learning_rate", "decay_steps", "end_learning_rate", "power"]}.get(short)
        if sig is None:
            return LibObj("schedule", name=short, cfg={**{("arg", i): v for i, v in enumerate(a)}, **k})
        A = Args(a, k, sig)
        o = LibObj("schedule", name=short, cfg=dict(A.d))
        L.I.event(st, "schedule_new", n, name=short, cfg=dict(A.d))
        return o
    A = Args(a, k, ["learning_rate"])
    ref = L.I.alloc(st, ObjC("optimizer", {"name": short, "cfg": dict(A.d)}))
    L.I.event(st, "optimizer_new", n, ref=ref, name=short, cfg=dict(A.d))
    return ref


MODEL_PREFIX.append(("tensorflow.keras.optimizers.", _optimizer))


@model("attr:optimizer")
def _optattr(L, o, c, name, st, n):
    if name in ("learning_rate", "lr"):
        return c.f["cfg"].get("learning_rate", OpaqueV(("optlr", o.id)))
    if name in ("iterations", "variables", "weights"):
        return OpaqueV(("optattr", name))
    return NotImplemented


def alternatives(c, conds, cap=40):
    """the contents a conditionally built list may have, each with its conditions (the first few)"""
    if isinstance(c, CondC):
        out = []
        for x, y in ((c.a, c.c), (c.b, T.cnot(c.c))):
            r = alternatives(x, conds + (y,), cap)
            if r is None:
                return None
            out += r
            if len(out) > cap:
                break
        return out
    if isinstance(c, ListC) and c.items() is not None:
        return [(conds, c.items())]
    return None


@model("optimizer.apply_gradients")
def _apply(L, o, a, k, st, n):
    A = Args(a, k, ["grads_and_vars", "name"])
    gv = A.get("grads_and_vars")
    its = L.concrete_items(gv, st)
    pairs, alts = None, None

    def pairs_of(its):
        pairs = []
        for x in its:
            p = L.concrete_items(x, st)
            pairs.append(tuple(p) if p is not None and len(p) == 2 else (Unknown("pair"), Unknown("pair")))
        return pairs
    if its is not None:
        pairs = pairs_of(its)
    else:
        c = st.heap.get(gv.id) if isinstance(gv, Ref) else None
        if isinstance(c, CondC):
            alts = alternatives(c, ())
        if alts is not None:
            alts = [(cs, pairs_of(its)) for cs, its in alts]
            pairs = alts[0][1]
        else:
            L.I.gap("apply_gradients with an unresolved sequence", n)
    L.I.event(st, "apply_gradients", n, opt=o, pairs=pairs, alts=alts)
    return OpaqueV(("iterations",))


@model("optimizer.minimize")
def _minimize(L, o, a, k, st, n):
    return L.I.gap("optimizer.minimize", n)


@model("optimizer.build", "optimizer.get_config")
def _optbuild(L, o, a, k, st, n):
    return OpaqueV(("optbuild",))


def xgrad(g, how):
    return LibObj("xgrad", var=g.f["var"], how=how, ok=g.f["ok"])


def is_grad(v):
    return isinstance(v, LibObj) and v.kind in ("grad", "xgrad")


@model("tensorflow.clip_by_norm")
def _clipnorm(L, a, k, st, n):
    A = Args(a, k, ["t", "clip_norm", "axes"])
    if is_grad(A.get("t")):
        return xgrad(A.get("t"), "clipped by norm")
    return L.I.gap("clip_by_norm", n)


@model("tensorflow.clip_by_global_norm")
def _clipgnorm(L, a, k, st, n):
    A = Args(a, k, ["t_list", "clip_norm", "use_norm"])
    its = L.concrete_items(A.get("t_list"), st)
    if its is None or not all(g is None or is_grad(g) for g in its):
        return L.I.gap("clip_by_global_norm", n)
    out = L.I.alloc(st, ListC([("item", None if g is None else xgrad(g, "clipped by the global norm")) for g in its]))
    return TupleV([out, L.arr_opaque("globalnorm") if hasattr(L, "arr_opaque") else Arr((), lambda i: P(atom("globalnorm", ZERO)), "float64", "tf")])
