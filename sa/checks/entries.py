"""Entry-point scenarios of the public API, shared by the effect checks (C24-C28)."""
from ..scen import *
from .fe import *
from .data import *
from .models import build, MODELS_, bil, M
from .geometry import GEO, rectangle

PLOT = "fastvpinns.utils.plot_utils:"
CU = "fastvpinns.utils.compute_utils:"
OUT = ("outdir",)
TUNER = "fastvpinns.hyperparameter_tuning.optuna_tuner:OptunaTuner"
OBJECTIVE = "fastvpinns.hyperparameter_tuning.objective:objective"


class Step:
    """one traced call of the public API"""
    __slots__ = ("label", "site", "ev0", "ev1", "figs0", "figs1", "owned", "dead", "value", "heap0", "heap1", "args")


class Tracer:
    """runs public calls and records, per call, its effects and the caller-owned objects it was given"""

    def __init__(self, c):
        self.c = c
        self.steps = []
        self.given = {}

    def run(self, label, site, args, go, extra=()):
        c = self.c
        if c.st.dead:
            raise Undecided(f"{label}: earlier call raised")
        s = Step()
        s.label, s.site = label, site
        s.owned = {}
        s.args = list(args)
        for nm, a in list(args) + list(extra):
            reach(c, a, nm, s.owned)
        # what an earlier call was given is still the caller's
        for i, nm in self.given.items():
            if i not in s.owned and i in c.st.heap:
                s.owned[i] = nm
        self.given.update(s.owned)
        s.heap0 = {i: c.st.heap.get(i) for i in s.owned}
        if not c.st.figs and not self.steps:
            # the caller has a figure open
            c.st.figs = (c.I.alloc(c.st, ObjC("fig", {"drawn": 1})).id,)
        s.ev0, s.figs0 = len(c.st.events), c.st.figs
        s.value = go()
        s.ev1, s.figs1, s.dead = len(c.st.events), c.st.figs, c.st.dead
        s.heap1 = {i: c.st.heap.get(i) for i in s.owned}
        self.steps.append(s)
        return s.value

    def call(self, f, *a, _extra=(), **k):
        c = self.c
        label = f.split(":")[-1] if isinstance(f, str) else getattr(f, "name", str(f))
        fv = c.get(f) if isinstance(f, str) else f
        site = c.fn_site(fv, "__init__") if isinstance(fv, ClassV) else c.fn_site(fv)
        return self.run(label, site, [(str(i), x) for i, x in enumerate(a)] + list(k.items()), lambda: c.call(fv, *a, **k), _extra)

    def meth(self, o, name, *a, _extra=(), **k):
        c = self.c
        cls = c.deref(o).cls
        return self.run(f"{cls.name}.{name}", c.fn_site(cls, name), [(str(i), x) for i, x in enumerate(a)] + list(k.items()), lambda: c.meth(o, name, *a, **k), _extra)

    def events(self, s, kind=None):
        return [e for e in self.c.st.events[s.ev0:s.ev1] if kind is None or e.kind == kind]


def reach(c, v, nm, out, depth=0):
    """heap objects reachable from a caller's argument, package instances excluded"""
    if depth > 6:
        return
    if isinstance(v, ChoiceV):
        reach(c, v.a, nm, out, depth + 1)
        reach(c, v.b, nm, out, depth + 1)
    elif isinstance(v, TupleV):
        for x in v.items:
            reach(c, x, nm, out, depth + 1)
    elif isinstance(v, OpaqueV):
        for k, x in (v.attrs or {}).items():
            reach(c, x, f"{nm}.{k}", out, depth + 1)
    elif isinstance(v, Ref):
        k = c.st.heap.get(v.id)
        if isinstance(k, InstC) or v.id in out:
            return
        out[v.id] = nm
        if isinstance(k, ListC):
            for s in k.segs:
                if s[0] == "item":
                    reach(c, s[1], nm + "[]", out, depth + 1)
        elif isinstance(k, DictC):
            for kk, x in k.entries:
                reach(c, x, f"{nm}[{kk}]", out, depth + 1)


# ---------------------------------------------------------------- entries
def fe_inputs(c, tt="bilinear", plot=True, **over):
    N, Q, nc = order(), qorder(), nat("nc")
    mp = inarr("meshpt", (nat("npts"), 3))
    mesh = OpaqueV("mesh", attrs={"points": c.alloc(mp)})
    bp = c.dct([(const(1000), c.arr("bp0", (nat("m0"), 2))), (const(1001), c.arr("bp1", (nat("m1"), 2)))])
    bf = c.dct([(const(1000), UserFn("g0")), (const(1001), UserFn("g1"))])
    bc = c.dct([(const(1000), c.s("dirichlet")), (const(1001), c.s("dirichlet"))])
    kw = dict(mesh=mesh, cells=c.alloc(cells_arr("X", nc, tt)), boundary_points=bp, cell_type=c.s("quadrilateral"), fe_order=N, fe_type=c.s("legendre"),
              quad_order=Q, quad_type=c.s("gauss-legendre"), fe_transformation_type=c.s(tt), bound_function_dict=bf, bound_condition_dict=bc,
              forcing_function=UserFn("f"), output_path=StrV([OUT]), generate_mesh_plot=plot)
    kw.update(over)
    return kw, nc


ACCESSORS = ("get_shape_function_val", "get_shape_function_grad_x", "get_shape_function_grad_x_ref", "get_shape_function_grad_y", "get_shape_function_grad_y_ref",
             "get_quadrature_actual_coordinates", "get_forcing_function_values", "get_quadrature_weights")


def e_fespace(c, t):
    kw, nc = fe_inputs(c)
    o = t.call(FESP, **kw)
    cell = idx("cell", nc)
    for m in ACCESSORS:
        t.meth(o, m, cell)
    t.meth(o, "generate_dirichlet_boundary_data")
    return o


def e_fespace_vector(c, t):
    kw, nc = fe_inputs(c, plot=False)
    o = t.call(FESP, **kw)
    g = UserFn("gv", "vector")
    c.I.setattr(o, "bound_function_dict", c.dct([(const(1000), g), (const(1001), UserFn("gw", "vector"))]), c.st, None)
    comp = idx("comp", nat("ncomp"))
    t.meth(o, "generate_dirichlet_boundary_data_vector", comp)


def e_sensors(c, t):
    kw, nc = fe_inputs(c, plot=False)
    o = t.call(FESP, **kw)
    u = UserFn("u")
    t.meth(o, "get_sensor_data", u, nat("ns", 2))


def e_sensors_ext(c, t):
    kw, nc = fe_inputs(c, plot=False)
    o = t.call(FESP, **kw)
    t.meth(o, "get_sensor_data_external", UserFn("u"), nat("ns", 2), StrV([("file",)]))


def geo(c, t, method, opt=False):
    return t.call(GEO, c.s("quadrilateral"), c.s(method), nat("ntx", 2), nat("nty", 2), StrV([OUT]), is_optimized=opt)


def e_geo_internal(c, t, opt=False):
    g = geo(c, t, "internal", opt)
    x0, x1, y0, y1 = rectangle()
    t.meth(g, "generate_quad_mesh_internal", c.lst([x0, x1]), c.lst([y0, y1]), nat("ncx"), nat("ncy"), nat("nbd", 4))
    return g


def e_geo_internal_opt(c, t):
    e_geo_internal(c, t, True)


def e_geo_external(c, t, samp="uniform"):
    g = geo(c, t, "external")
    t.meth(g, "read_mesh", StrV([("mesh",), ".mesh"]), nat("lev", 0), c.s(samp), nat("ref", 0))
    return g


def e_geo_external_lhs(c, t):
    return e_geo_external(c, t, "lhs")


def e_test_points(c, t):
    g = e_geo_internal(c, t)
    t.meth(g, "get_test_points")


def e_test_points_ext(c, t):
    g = e_geo_external(c, t)
    t.meth(g, "get_test_points")


def e_write_vtk(c, t):
    g = e_geo_internal(c, t)
    nc = nat("ncol")
    t.meth(g, "write_vtk", c.arr("sol", (nat("npts"), nc)), StrV([OUT]), StrV([("fn",)]), OpaqueSeq("names", nc, lambda i: StrV([("name", P(i))])))


def e_write_vtk_ext(c, t):
    g = e_geo_external(c, t)
    nc = nat("ncol")
    t.meth(g, "write_vtk", c.arr("sol", (nat("npts"), nc)), StrV([OUT]), StrV([("fn",)]), OpaqueSeq("names", nc, lambda i: StrV([("name", P(i))])))


def e_adaptive(c, t):
    g = e_geo_internal(c, t)
    nc = nat("nac")
    t.meth(g, "plot_adaptive_mesh", c.arr("acell", (nc, 4, 2)), c.arr("aloss", (nc,)), nat("epoch", 0))


def e_adaptive_named(c, t):
    g = e_geo_internal(c, t)
    nc = nat("nac")
    t.meth(g, "plot_adaptive_mesh", c.arr("acell", (nc, 4, 2)), c.arr("aloss", (nc,)), nat("epoch", 0), StrV([("fn",)]))


def e_handler(c, t):
    kw, nc = fe_inputs(c, plot=False)
    o = t.call(FESP, **kw)
    g = geo(c, t, "internal")
    x0, x1, y0, y1 = rectangle()
    c.meth(g, "generate_quad_mesh_internal", c.lst([x0, x1]), c.lst([y0, y1]), nat("ncx"), nat("ncy"), nat("nbd", 4))
    h = t.call(DH, o, g, LibV("tensorflow.float32"))
    t.meth(h, "get_dirichlet_input")
    t.meth(h, "get_test_points")
    for m in ("get_bilinear_params_dict_as_tensors", "get_inverse_params"):
        d = c.dct([(c.s("eps"), sym("v_eps")), (c.s("b_x"), sym("v_bx"))])
        f = UserFn("params", handler=lambda L, a, k, st, n, d=d: d)
        t.meth(h, m, f, _extra=[("dictionary returned by the function", d)])
    t.meth(h, "get_sensor_data", UserFn("u"), nat("ns", 2), c.s("internal"))
    t.meth(h, "get_sensor_data", UserFn("u"), nat("ns", 2), c.s("external"), StrV([("file",)]))


def mk_model(kind):
    def go(c, t):
        m = build(c, kind, owned=True) if False else None
        own = {}
        box = {}

        def cons():
            box["m"] = build(c, kind)
            return box["m"].o
        # the inputs are allocated inside build(): trace through the class itself
        real = c.call
        hit = []

        def traced(f, *a, **k):
            if isinstance(f, ClassV) and not hit:
                hit.append(1)
                return t.call(f, *a, **k)
            return real(f, *a, **k)
        c.call = traced
        try:
            cons()
        finally:
            c.call = real
        m = box["m"]
        p = bil(c, m.dt)
        t.meth(m.o, "train_step", sym("beta"), p)
        t.meth(m.o, "train_step", sym("beta2"), p)
        t.run(f"{m.cls.name}.call", c.fn_site(m.cls, "call"), [], lambda: c.call(m.o, m.XD))
        t.meth(m.o, "get_config")
    return go


def e_plots(c, t):
    n = nat("nit")
    a = lambda nm: c.arr(nm, (n,))
    o = StrV([OUT])
    t.call(PLOT + "plot_loss_function", a("l"), o)
    t.call(PLOT + "plot_array", a("l"), o, StrV([("fn",)]), StrV([("title",)]))
    t.call(PLOT + "plot_multiple_loss_function", c.lst([a("l1"), a("l2")]), o, StrV([("fn",)]), c.lst([c.s("A"), c.s("B")]), StrV([("yl",)]), StrV([("title",)]))
    t.call(PLOT + "plot_inverse_test_loss_function", a("l"), o)
    t.call(PLOT + "plot_test_loss_function", a("l"), o)
    t.call(PLOT + "plot_test_loss_function", a("l"), o, StrV([("fn",)]))
    t.call(PLOT + "plot_test_time_loss_function", a("tm"), a("l"), o)
    g = nat("ngr")
    b = lambda nm: c.arr(nm, (g, g))
    t.call(PLOT + "plot_contour", b("gx"), b("gy"), b("gz"), o, StrV([("fn",)]), StrV([("title",)]))
    t.call(PLOT + "plot_inverse_param_function", a("ip"), StrV([("pname",)]), real("actual"), o, StrV([("fn",)]))


def e_plots_any(c, t):
    """any number of series (also none), series of any length (also empty)"""
    o = StrV([OUT])
    ns, n = nat("nseries", 0), nat("nit0", 0)
    a = lambda nm: c.arr(nm, (n,))
    ser = OpaqueSeq("series", ns, lambda i: Arr((n,), lambda j: P(atom("in:series", i, *j)), "float64"))
    lab = OpaqueSeq("labels", ns, lambda i: StrV([("label", P(i))]))
    t.call(PLOT + "plot_multiple_loss_function", ser, o, StrV([("fn",)]), lab, StrV([("yl",)]), StrV([("title",)]))
    t.call(PLOT + "plot_multiple_loss_function", c.lst([]), o, StrV([("fn",)]), c.lst([]), StrV([("yl",)]), StrV([("title",)]))
    t.call(PLOT + "plot_loss_function", a("l"), o)
    t.call(PLOT + "plot_array", a("l"), o, StrV([("fn",)]), StrV([("title",)]))
    t.call(PLOT + "plot_inverse_test_loss_function", a("l"), o)
    t.call(PLOT + "plot_test_loss_function", a("l"), o)
    t.call(PLOT + "plot_test_loss_function", a("l"), o, StrV([("fn",)]))
    t.call(PLOT + "plot_test_time_loss_function", a("tm"), a("l"), o)
    t.call(PLOT + "plot_inverse_param_function", a("ip"), StrV([("pname",)]), real("actual"), o, StrV([("fn",)]))


METRICS = ("compute_l2_error", "compute_l1_error", "compute_linf_error", "compute_l2_error_relative", "compute_linf_error_relative", "compute_l1_error_relative", "compute_errors_combined")


def e_metrics(c, t):
    n = nat("nerr")
    for m in METRICS:
        t.call(CU + m, c.arr("ue", (n,)), c.arr("ua", (n,)))


def e_print(c, t):
    t.call("fastvpinns.utils.print_utils:print_table", StrV([("title",)]), c.lst([c.s("A"), c.s("B")]), c.lst([c.s("r1"), c.s("r2")]), c.lst([real("v1"), nat("v2")]))


def e_basis(c, t, fam="legendre"):
    s = t.call(SETUP, c.s("quadrilateral"), order(), c.s(fam), qorder(), c.s("gauss-legendre"))
    b = t.meth(s, "assign_basis_function")
    t.meth(s, "assign_quadrature_rules")
    X = c.alloc(cells_arr("Y", nat("nq1"), "bilinear"))
    xi, eta = c.arr("xi", (nat("nx1"),)), c.arr("eta", (nat("nx1"),))
    for m in ("value", "gradx", "grady", "gradxx", "gradxy", "gradyy"):
        t.meth(b, m, xi, eta)


def e_transf(c, t):
    s = t.call(SETUP, c.s("quadrilateral"), order(), c.s("legendre"), qorder(), c.s("gauss-legendre"))
    for tt in TRANSF:
        X = c.arr(f"V{tt}", (const(4), const(2)))
        o = t.meth(s, "assign_fe_transformation", c.s(tt), X)
        xi, eta = c.arr("xi", (nat("nx1"),)), c.arr("eta", (nat("nx1"),))
        t.meth(o, "get_original_from_ref", xi, eta)
        t.meth(o, "get_jacobian", xi, eta)
        K = nat("nk1")
        gx, gy = c.arr("rgx", (K, nat("nx1"))), c.arr("rgy", (K, nat("nx1")))
        t.meth(o, "get_orig_from_ref_derivative", gx, gy, xi, eta)


def trial_obj(c, calls, depth=None):
    def sug(kind):
        def h(L, a, k, st, n):
            names = {"int": ("name", "low", "high"), "uniform": ("name", "low", "high"), "loguniform": ("name", "low", "high"), "float": ("name", "low", "high"),
                     "categorical": ("name", "choices")}[kind]
            d = dict(zip(names, a))
            d.update(k)
            nm = L.to_str(d["name"], st)
            calls.append((kind, nm, d, n))
            L.I.event(st, "suggest", n, how=kind, name=nm, args=d)
            key = ("trial",) + nm.parts
            if kind == "categorical":
                it = L.concrete_items(d["choices"], st)
                return ("CHOICES", nm, it) and OpaqueV(key, "str") if it is None else sel_choice(L, key, it)
            if nm.concrete() == "n_layers" and depth is not None:
                return const(depth)
            v = sym("trial_" + "".join(str(x) for x in nm.parts), L.num(d["low"], st), L.num(d["high"], st), kind == "int")
            return v
        return UserFn("suggest_" + kind, handler=h)
    return OpaqueV("trial", attrs={"number": sym("trial_number", 0, None, True)},
                   methods=None) if False else OpaqueV("trial", attrs={"number": sym("trial_number", 0, None, True), **{"suggest_" + k: sug(k) for k in ("int", "uniform", "loguniform", "float", "categorical")}})


def sel_choice(L, key, items):
    v = items[-1]
    for i, x in enumerate(items[:-1]):
        v = ChoiceV(catom("choice", key, i), x, v)
    return v


def bind_example(c):
    """the example module the tuner imports: boundary, forcing, exact and coefficient functions of the user"""
    def dict_fn(items):
        def h(L, a, k, st, n):
            return L.I.alloc(st, DictC(tuple((L.dkey(x), y) for x, y in items())))
        return h
    tags = (1000, 1001, 1002, 1003)
    for nm in ("rhs", "exact_solution"):
        c.I.ext[("sin_cos", nm)] = UserFn(nm)
    c.I.ext[("sin_cos", "get_boundary_function_dict")] = UserFn("bdict", handler=dict_fn(lambda: [(const(t), UserFn(f"g{t}")) for t in tags]))
    c.I.ext[("sin_cos", "get_bound_cond_dict")] = UserFn("cdict", handler=dict_fn(lambda: [(const(t), c.s("dirichlet")) for t in tags]))
    c.I.ext[("sin_cos", "get_bilinear_params_dict")] = UserFn("pdict", handler=dict_fn(lambda: [(c.s("eps"), sym("v_eps"))]))


def e_objective(c, t):
    calls = []
    bind_example(c)
    t.call(OBJECTIVE, trial_obj(c, calls, 3), nat("nep"))


ENTRIES = [("function space", e_fespace), ("vector boundary data", e_fespace_vector), ("internal sensors", e_sensors), ("sensors from file", e_sensors_ext),
           ("internal mesh", e_geo_internal), ("internal mesh, optimised", e_geo_internal_opt), ("external mesh", e_geo_external), ("external mesh, latin hypercube", e_geo_external_lhs),
           ("test points", e_test_points), ("external test points", e_test_points_ext), ("solution file", e_write_vtk), ("external solution file", e_write_vtk_ext),
           ("adaptive mesh plot", e_adaptive), ("adaptive mesh plot, named", e_adaptive_named), ("data handler", e_handler)] + \
          [(f"{k} model", mk_model(k)) for k in MODELS_] + \
          [("loss plots", e_plots), ("loss plots, any number of points", e_plots_any), ("error metrics", e_metrics), ("table printer", e_print), ("reference element", e_basis), ("cell maps", e_transf), ("tuner objective", e_objective)]


def each(c, fn, names=None):
    """run fn(tracer, name) on every entry scenario"""
    for name, e in ENTRIES:
        if names and name not in names:
            continue

        def body(name=name, e=e):
            c.scenario(name)
            t = Tracer(c)
            try:
                e(c, t)
            finally:
                fn(t, name)
        guarded(c, name, body, None)
