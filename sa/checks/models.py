"""C11-C17: residuals, objective, parameter update, architecture, configuration."""
from ..scen import *
from .. import libtf

PH = "fastvpinns.physics."
MO = "fastvpinns.model."
MODELS_ = {"dense": MO + "model:DenseModel", "hard": MO + "model_hard:DenseModel_Hard",
           "inverse": MO + "model_inverse:DenseModel_Inverse", "inverse_domain": MO + "model_inverse_domain:DenseModel_Inverse_Domain"}
LOSSES = {"poisson": PH + "poisson2d:pde_loss_poisson", "cd2d": PH + "cd2d:pde_loss_cd2d", "helmholtz": PH + "helmholtz2d:pde_loss_helmholtz",
          "poisson_inverse": PH + "poisson2d_inverse:pde_loss_poisson_inverse", "cd2d_inverse": PH + "cd2d_inverse:pde_loss_cd2d",
          "cd2d_inverse_domain": PH + "cd2d_inverse_domain:pde_loss_cd2d_inverse_domain"}
PAIRS = {"dense": ("poisson", "cd2d", "helmholtz"), "hard": ("poisson", "cd2d", "helmholtz"), "inverse": ("poisson_inverse", "cd2d_inverse"),
         "inverse_domain": ("cd2d_inverse_domain",)}
BASE_KW = ("test_shape_val_mat", "test_grad_x_mat", "test_grad_y_mat", "pred_nn", "pred_grad_x_nn", "pred_grad_y_nn", "forcing_function", "bilinear_params")
EXTRA_KW = {"dense": (), "hard": (), "inverse": ("inverse_params_dict",), "inverse_domain": ("inverse_params_list",)}
PARAMS = ("eps", "b_x", "b_y", "c", "k")


def tens(name, shape, dt):
    return inarr(name, shape, dt, lib="tf")


def scal(name, dt):
    v = sym(name)
    return Arr((), lambda i: v, dt, "tf")


def bil(c, dt, keys=PARAMS):
    return c.dct([(c.s(k), scal("par_" + k, dt)) for k in keys])


def par(k):
    return sym("par_" + k)


# ----------------------------------------------------------- weak form spec
def residual_spec(name, t, K, nq, e, k, p):
    """documented weak-form residual of one test function; t: name -> element function"""
    q = fresh("q", ZERO, nq - 1)
    S = lambda f: mk_sum(q, nq, f(P(q)))
    V, GX, GY = [lambda z, nm=nm: t[nm](e, k, z) for nm in ("V", "GX", "GY")]
    u, ux, uy = [lambda z, nm=nm: t[nm](e, z) for nm in ("u", "ux", "uy")]
    dif = lambda: S(lambda z: GX(z) * ux(z)) + S(lambda z: GY(z) * uy(z))
    conv = lambda: p("b_x") * S(lambda z: V(z) * ux(z)) + p("b_y") * S(lambda z: V(z) * uy(z))
    reac = lambda: S(lambda z: V(z) * u(z))
    F = t["F"](k, e)
    if name in ("poisson", "poisson_inverse"):
        return p("eps") * dif() - F
    if name in ("cd2d", "cd2d_inverse"):
        return p("eps") * dif() + conv() + p("c") * reac() - F
    if name == "helmholtz":
        return -p("eps") * dif() + p("k") ** 2 * reac() - F
    if name == "cd2d_inverse_domain":
        E = t["E"]
        return S(lambda z: GX(z) * ux(z) * E(e, z)) + S(lambda z: GY(z) * uy(z) * E(e, z)) + conv() + p("c") * reac() - F
    raise KeyError(name)


def cell_loss_spec(name, t, K, nq, e, p):
    k = fresh("k", ZERO, K - 1)
    r = residual_spec(name, t, K, nq, e, P(k), p)
    return mk_sum(k, K, r * r) / K


def C11(c):
    c.rule("each shipped loss, as a term over symbolic tables/predictions, equals mean_k (weak-form residual_k)^2 of its own cell, for any number of cells, test functions and quadrature points")
    for name, dotted in LOSSES.items():
        def body(name=name, dotted=dotted):
            c.scenario(name)
            site = c.fn_site(dotted)
            nc, K, nq = nat("nc"), nat("K"), nat("nq")
            dt = "float64"
            A = {"V": tens("V", (nc, K, nq), dt), "GX": tens("GX", (nc, K, nq), dt), "GY": tens("GY", (nc, K, nq), dt),
                 "u": tens("u", (nc, nq), dt), "ux": tens("ux", (nc, nq), dt), "uy": tens("uy", (nc, nq), dt), "F": tens("F", (K, nc), dt), "E": tens("E", (nc, nq), dt)}
            inv_ = name in ("poisson_inverse", "cd2d_inverse")
            pars = bil(c, dt, [k for k in PARAMS if not (inv_ and k == "eps")])
            args = [A["V"], A["GX"], A["GY"], A["u"], A["ux"], A["uy"], A["F"], pars]
            if inv_:
                args.append(c.dct([(c.s("eps"), scal("inv_eps", dt))]))
            if name == "cd2d_inverse_domain":
                args.append(c.lst([A["E"]]))
            r = c.call(dotted, *args)
            if not c.alive("evaluates", site):
                return
            a = c.as_arr(r, name)
            c.shape("one residual per cell", a, (nc,), site)
            e = idx("e", nc)
            p = lambda k: sym("inv_eps") if inv_ and k == "eps" else par(k)
            c.eq("residual[cell] = mean over test functions of squared weak form", a.at(e), cell_loss_spec(name, {k: v.at for k, v in A.items()}, K, nq, e, p), site=site)
            c.eq("documented keyword protocol: every tensor the value depends on", ONE, ONE, site=site)
        guarded(c, name, body, c.fn_site(dotted))


# ------------------------------------------------------------- model set-up
class M:
    pass


def lr_dict(c, sched=False, **kw):
    d = {"initial_learning_rate": sym("lr0"), "use_lr_scheduler": sched, "decay_steps": nat("dsteps"), "decay_rate": sym("drate"), "staircase": kw.get("staircase", False)}
    if d["staircase"] is None:
        del d["staircase"]  # left out: its default
    return c.dct([(c.s(k), v) for k, v in d.items()])


def collect_arrs(c, v, out, seen=None):
    """tensors and variables reachable from a loss argument"""
    seen = set() if seen is None else seen
    v0 = v
    if isinstance(v, ChoiceV):
        collect_arrs(c, v.a, out, seen)
        collect_arrs(c, v.b, out, seen)
    elif isinstance(v, Arr):
        out.append(v)
    elif isinstance(v, TupleV):
        for x in v.items:
            collect_arrs(c, x, out, seen)
    elif isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
        k = c.st.heap.get(v.id)
        if isinstance(k, (Arr, ViewC)):
            out.append(c.I.deref(c.st, v))
        elif isinstance(k, ObjC) and k.kind == "tfvar":
            out.append(c.I.lib.read_var(v, c.st))
        elif isinstance(k, ListC):
            for s in k.segs:
                if s[0] == "item":
                    collect_arrs(c, s[1], out, seen)
        elif isinstance(k, DictC):
            for _, x in k.entries:
                collect_arrs(c, x, out, seen)


def build(c, kind, dims=None, loss=None, dt="float64", att=False, act=None, lr=None, hard=None, default_hard=False, **over):
    m = M()
    m.kind, m.dt = kind, dt
    m.nc, m.K, m.nq, m.nd, m.ns = nat("nc"), nat("K"), nat("nq"), nat("nd"), nat("ns")
    out = 2 if kind == "inverse_domain" else 1
    m.dims = dims or [const(2), nat("w1"), nat("w2"), const(out)]
    m.V, m.GX, m.GY = [tens(n, (m.nc, m.K, m.nq), dt) for n in ("V", "GX", "GY")]
    m.F = tens("F", (m.K, m.nc), dt)
    m.X, m.XD, m.UD = tens("X", (m.nc * m.nq, 2), dt), tens("XD", (m.nd, 2), dt), tens("UD", (m.nd, 1), dt)
    m.XS, m.US = tens("XS", (m.ns, 2), dt), tens("US", (m.ns, 1), dt)
    m.calls = []
    names = BASE_KW + EXTRA_KW[kind]

    def handler(L, a, kw, st, n):
        d = dict(zip(names, a))
        d.update(kw)
        m.calls.append((dict(d), tuple(kw), len(a), {k: c.I.lib.concrete_items(v, st) if k == "inverse_params_list" else None for k, v in d.items()}))
        old, c.st = c.st, st
        ins = []
        for v in d.values():
            collect_arrs(c, v, ins)
        c.st = old
        tag = len(m.calls)
        r = Arr((m.nc,), lambda i: P(atom("in:cellloss", *i)), dt, "tf")
        return L.tfres(r, ins, st)
    m.loss = loss if loss is not None else UserFn("loss", handler=handler)
    m.act = act if act is not None else StrV([("activation",)])
    m.lr = lr if lr is not None else lr_dict(c)
    m.hc = None
    kw = dict(layer_dims=c.lst(m.dims), learning_rate_dict=m.lr, params_dict=c.dct([(c.s("n_cells"), m.nc)]), loss_function=m.loss,
              input_tensors_list=c.lst([m.X, m.XD, m.UD]), orig_factor_matrices=c.lst([m.V, m.GX, m.GY]), force_function_list=m.F,
              tensor_dtype=LibV("tensorflow." + dt), use_attention=att, activation=m.act, hessian=False)
    if kind.startswith("inverse"):
        kw["sensor_list"] = c.lst([m.XS, m.US])
    if kind == "inverse":
        kw["inverse_params_dict"] = c.dct([(c.s(z), scal("inv_" + z, dt)) for z in (["eps", "mu"] + [f"kappa_{q}" for q in range(3, over.get("ninv", 2) + 1)])[:over.pop("ninv", 2)]])
        if over.get("inv"):
            kw["inverse_params_dict"] = over.pop("inv")
    if kind == "hard" and not default_hard:
        def hcf(L, a, k, st, n):
            x, y = L.to_arr(a[0], st, n), L.to_arr(a[1], st, n)
            if x is None or y is None or x.ndim != y.ndim:
                return L.I.gap("hard constraint operands", n)

            def fn(ix):
                cc = fresh("c", ZERO, x.shape[-1] - 1)
                return P(atom("hc", P(mk_lam(cc, P(x.at(*ix[:-1], P(cc))))), P(y.at(*ix))))
            return L.tfres(Arr(y.shape, fn, y.dt, "tf"), [x, y], st)
        m.hc = UserFn("hard", handler=hcf)
        kw["hard_constraint_function"] = m.hc
    kw.update(over)
    m.kw = kw
    m.cls = c.get(MODELS_[kind])
    m.site = c.fn_site(m.cls, "__init__")
    m.step_site = c.fn_site(m.cls, "train_step")
    m.o = c.call(m.cls, **kw)
    if c.st.dead:
        e = c.events("raise")
        c.record("model construction", False, f"raises {e[-1].data.get('exc') if e else '?'}: {e[-1].data.get('msg') if e else ''}", e[-1].site if e else m.site)
        raise Undecided("constructor raises")
    return m


def forward(c, m, x):
    """the model's own prediction on a tensor (evaluated on a scratch state)"""
    st0 = c.st
    c.st = st0.clone()
    try:
        return c.as_arr(c.call(m.o, x), "prediction")
    finally:
        c.st = st0


def step(c, m, beta=None, params=None):
    m.beta = beta if beta is not None else sym("beta")
    m.params = params if params is not None else bil(c, m.dt)
    r = c.meth(m.o, "train_step", m.beta, m.params)
    m.alive = c.alive("training step", m.step_site)
    if not m.alive:
        raise Undecided("training step raises")
    d = c.deref(r)
    if not isinstance(d, DictC):
        raise Undecided(f"training step returns {r!r}")
    m.ret = {str(k.concrete() if isinstance(k, StrV) else k): v for k, v in d.entries}
    return m.ret


def tot(c, v):
    a = c.deref(v)
    if isinstance(a, Arr):
        return libtf.total(c.I.lib, a)
    n = c.I.lib.num(v, c.st)
    if n is None:
        raise Undecided(f"loss value is {v!r}")
    return n


def msq(pred, want, n, j=0):
    p = fresh("p", ZERO, n - 1)
    d = pred.at(P(p), const(j)) - want.at(P(p), ZERO)
    return mk_sum(p, n, d * d) / n


def pred_terms(c, m):
    """spec of what the loss receives: u, u_x, u_y, coefficient at quadrature point q of cell e"""
    U = forward(c, m, m.X)
    U0 = Arr((U.shape[0],), lambda i: U.at(i[0], 0), U.dt, "tf")
    S, Lx = libtf.total(c.I.lib, U0), libtf.src_lam(m.X)
    row = lambda e, q: P(e) * m.nq + P(q)
    return {"V": m.V.at, "GX": m.GX.at, "GY": m.GY.at, "F": m.F.at, "u": lambda e, q: U.at(row(e, q), 0), "ux": lambda e, q: P(atom("gr", S, Lx, row(e, q), ZERO)),
            "uy": lambda e, q: P(atom("gr", S, Lx, row(e, q), ONE)), "E": lambda e, q: U.at(row(e, q), 1)}


DEPTHS = {"quick": (2, 3, 4, 5, 6), "thorough": (2, 3, 4, 5, 6, 7, 8, 9)}


class Same(int):
    """depth of a network whose hidden layers all have one width"""

    def __str__(self):
        return f"{int(self)} (equal widths)"

    def __format__(self, spec):
        return str(self)


def dims_of(n, out):
    if isinstance(n, Same):
        return [const(2)] + [nat("w")] * (n - 2) + [const(out)]
    return [const(2)] + [nat(f"w{i}") for i in range(n - 2)] + [const(out)]


def variants(c, kinds=MODELS_):
    for kind in kinds:
        for att in (False, True):
            for n in (DEPTHS[c.tier] + (Same(6),) if not att else DEPTHS[c.tier][-1:]):
                yield kind, att, n


def small_ints(c):
    """the small integers the model sources mention"""
    import ast
    ns = set()
    for kind in MODELS_:
        try:
            mod = c.get(MODELS_[kind]).module
            tree = ast.parse(open(mod.path).read())
        except (AnalysisGap, OSError, AttributeError, SyntaxError):
            continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and type(x.value) is int and 2 < x.value < 40:
                ns.add(x.value)
    return sorted(ns)


def counts(c):
    """numbers of unknown parameters: the usual ones and those next to every small integer the sources mention"""
    return sorted({1, 2, 3, 4, 7} | {x + d for x in small_ints(c)[:6] for d in (0, 1)})


def deep(c):
    """deeper networks: one well past the usual depths, and the depths next to every small integer the model
    sources mention (a limit written as a literal separates two of them)"""
    ns = {12} | {x + d for x in small_ints(c) if x > 5 for d in (0, 1, 2, 3)}
    return [(k, a, n) for n in sorted(ns)[:12] for k in MODELS_ for a in (False, True) if n not in DEPTHS[c.tier]]


# ------------------------------------------------------------------- C12
def C12(c):
    c.rule("the training step calls the loss with exactly the documented keywords, each bound to the tensor it names (own cell, own point, own axis); every shipped (model, loss) pairing binds and its loss is the sum of that pairing's cell residuals")
    for kind in MODELS_:
        def body(kind=kind):
            c.scenario(f"{kind}: opaque loss")
            m = build(c, kind)
            T_ = pred_terms(c, m)
            step(c, m)
            c.record("loss evaluated once per step", len(m.calls) == 1, f"{len(m.calls)} evaluations", m.step_site)
            if not m.calls:
                return
            d, kws, npos, lists = m.calls[0]
            want = set(BASE_KW + EXTRA_KW[kind])
            c.record("documented keyword set", set(d) == want, f"passed {sorted(d)}, documented {sorted(want)}", m.step_site)
            if set(d) != want:
                return
            e, k, q = idx("e", m.nc), idx("k", m.K), idx("q", m.nq)
            for nm, key, ix in (("test_shape_val_mat", "V", (e, k, q)), ("test_grad_x_mat", "GX", (e, k, q)), ("test_grad_y_mat", "GY", (e, k, q)), ("forcing_function", "F", (k, e)),
                                ("pred_nn", "u", (e, q)), ("pred_grad_x_nn", "ux", (e, q)), ("pred_grad_y_nn", "uy", (e, q))):
                a = c.as_arr(d[nm], nm)
                shp = {"V": (m.nc, m.K, m.nq), "GX": (m.nc, m.K, m.nq), "GY": (m.nc, m.K, m.nq), "F": (m.K, m.nc)}.get(key, (m.nc, m.nq))
                if c.shape(f"{nm} shape", a, shp, m.step_site):
                    c.eq(f"{nm} is the documented tensor", a.at(*ix), T_[key](*ix), site=m.step_site)
            pd = c.deref(d["bilinear_params"])
            ok = isinstance(pd, DictC) and d["bilinear_params"] == m.params or isinstance(pd, DictC) and pd.entries == c.deref(m.params).entries
            c.record("bilinear_params is the caller's dictionary", bool(ok), f"{pd!r}"[:200], m.step_site)
            if kind == "inverse":
                ip = c.deref(d["inverse_params_dict"])
                keys = sorted(str(k2.concrete() if isinstance(k2, StrV) else k2) for k2, _ in ip.entries) if isinstance(ip, DictC) else None
                c.record("inverse_params_dict carries every unknown parameter", keys == ["eps", "mu"], f"{keys}", m.step_site)
                for k2, v in (ip.entries if isinstance(ip, DictC) else ()):
                    isvar = isinstance(v, Ref) and isinstance(c.st.heap.get(v.id), ObjC) and c.st.heap[v.id].kind == "tfvar"
                    c.record(f"inverse parameter {k2} is a trainable variable", isvar and c.I.lib.I.decide(c.I.lib.I.truth(c.st.heap[v.id].f.get("trainable", True), c.st, None), c.st) is not False, f"{v!r}", m.site)
            if kind == "inverse_domain":
                its = lists["inverse_params_list"]
                if its is None or len(its) != 1:
                    c.record("inverse_params_list has the coefficient field", False, f"{its!r}"[:200], m.step_site)
                else:
                    a = c.as_arr(its[0], "coefficient")
                    if c.shape("coefficient shape", a, (m.nc, m.nq), m.step_site):
                        c.eq("coefficient = second network output at the same points", a.at(e, q), T_["E"](e, q), site=m.step_site)
        guarded(c, f"{kind}: opaque loss", body, c.fn_site(MODELS_[kind], "train_step"))
    for kind, losses in PAIRS.items():
        for name in losses:
            def body(kind=kind, name=name):
                c.scenario(f"{kind} with shipped loss {name}")
                m = build(c, kind, loss=c.get(LOSSES[name]))
                T_ = pred_terms(c, m)
                inv_ = kind == "inverse"
                if inv_:
                    ip = c.deref(c.attr(m.o, "inverse_params_dict"))
                    vals = {str(k2.concrete() if isinstance(k2, StrV) else k2): v for k2, v in ip.entries}
                    evar = c.I.lib.read_var(vals["eps"], c.st) if isinstance(vals.get("eps"), Ref) else None
                    ev = evar.at(*[ZERO] * evar.ndim) if evar is not None else sym("inv_eps")
                pars = bil(c, m.dt, [k for k in PARAMS if not (inv_ and k == "eps")])
                c.meth(m.o, "train_step", sym("beta"), pars) if False else None
                r = c.meth(m.o, "train_step", sym("beta"), pars)
                c.alive("training step accepts this loss", m.step_site)
                if c.st.dead:
                    return
                ret = {str(k2.concrete() if isinstance(k2, StrV) else k2): v for k2, v in c.deref(r).entries}
                e = fresh("e", ZERO, m.nc - 1)
                p = lambda k: ev if inv_ and k == "eps" else par(k)
                want = mk_sum(e, m.nc, cell_loss_spec(name, T_, m.K, m.nq, P(e), p))
                c.eq("PDE loss = sum over cells of the weak-form residual", tot(c, ret["loss_pde"]), want, site=m.step_site)
            guarded(c, f"{kind} with shipped loss {name}", body, c.fn_site(MODELS_[kind], "train_step"))


# ------------------------------------------------------------------- C13
def C13(c):
    c.rule("returned and differentiated objective = sum_cells residual + beta*mean (u(x_d)-g_d)^2 [+ 10*mean (u(s)-u_s)^2 for inverse models]; beta is the caller's; parts reported equal the parts used")
    for kind, att, n, ni in [z + (2,) for z in list(variants(c)) + deep(c)] + [("inverse", False, 3, k) for k in counts(c)]:
        nm = f"{kind} depth={n}" + (" attention" if att else "") + (f" {ni} unknown parameters" if ni != 2 else "")

        def body(kind=kind, att=att, n=n, ni=ni, nm=nm):
            c.scenario(nm)
            m = build(c, kind, dims=dims_of(n, 2 if kind == "inverse_domain" else 1), att=att, **({"ninv": ni} if kind == "inverse" else {}))
            ret = step(c, m)
            e = fresh("e", ZERO, m.nc - 1)
            pde = mk_sum(e, m.nc, P(atom("in:cellloss", P(e))))
            s = m.step_site
            c.eq("loss_pde = sum over cells", tot(c, ret["loss_pde"]), pde, site=s)
            want = pde
            if kind != "hard":
                bd = msq(forward(c, m, m.XD), m.UD, m.nd)
                c.eq("loss_dirichlet = mean squared boundary mismatch", tot(c, ret["loss_dirichlet"]), bd, site=s)
                want = want + m.beta * bd
            else:
                c.eq("loss_dirichlet is zero with hard constraints", tot(c, ret["loss_dirichlet"]), ZERO, site=s)
            if kind.startswith("inverse"):
                sd = msq(forward(c, m, m.XS), m.US, m.ns)
                c.eq("sensor_loss = mean squared sensor mismatch", tot(c, ret["sensor_loss"]), sd, site=s)
                want = want + 10 * sd
            c.eq("loss = documented combination", tot(c, ret["loss"]), want, site=s)
            ap = c.events("apply_gradients")
            for ev in ap:
                for g, v in ev.data["pairs"] or ():
                    if isinstance(g, LibObj) and g.kind == "grad":
                        c.eq("the optimiser descends the reported objective", libtf.total(c.I.lib, g.f["target"]), want, site=ev.site)
            # default weight
            st0 = c.st
            c.st = st0.clone()
            r = c.deref(c.meth(m.o, "train_step", bilinear_params_dict=m.params))
            if isinstance(r, DictC) and kind != "hard":
                rr = {str(k2.concrete() if isinstance(k2, StrV) else k2): v for k2, v in r.entries}
                w2 = subst(want, {sym("beta").single_atom(): const(10)}) if False else pde + 10 * bd + (10 * sd if kind.startswith("inverse") else ZERO)
                c.eq("default boundary weight is 10", tot(c, rr["loss"]), w2, site=s)
            c.st = st0
        guarded(c, nm, body, c.fn_site(MODELS_[kind], "train_step"))


# ------------------------------------------------------------------- C14
def all_trainables(c, m):
    """every trainable variable the model owns or created"""
    out = []
    libtf.reachable_vars(c.I.lib, m.o, c.st, set(), out, True)
    for e in c.st.events:
        if e.kind == "tfvar_new" and e.data["ref"] not in out and c.I.decide(c.I.truth(e.data.get("trainable", True), c.st, None), c.st) is not False:
            out.append(e.data["ref"])
        if e.kind == "layer_new":
            for v in c.st.heap[e.data["ref"].id].f["vars"]:
                if v not in out:
                    out.append(v)
    return out


def vname(c, v):
    o = c.st.heap.get(v.id)
    if isinstance(o, ObjC) and o.f.get("layer") is not None:
        return f"{o.f.get('name')} of layer {o.f['layer'].id}"
    return f"variable {v.id}"


def C14(c):
    c.rule("one apply_gradients per step on the compiled optimiser; its pairs are exactly {(d loss/d v through a tape that recorded every v-dependent operation, v)} over all trainable variables (layers and unknown parameters)")
    for kind, att, n, ni in [z + (2,) for z in list(variants(c)) + deep(c)] + [("inverse", False, 3, k) for k in counts(c)]:
        nm = f"{kind} depth={n}" + (" attention" if att else "") + (f" {ni} unknown parameters" if ni != 2 else "")

        def body(kind=kind, att=att, n=n, ni=ni, nm=nm):
            c.scenario(nm)
            m = build(c, kind, dims=dims_of(n, 2 if kind == "inverse_domain" else 1), att=att, **({"ninv": ni} if kind == "inverse" else {}))
            n0 = len(c.st.events)
            step(c, m)
            s = m.step_site
            evs = [e for e in c.st.events[n0:] if e.kind == "apply_gradients"]
            c.record("one parameter update per step", len(evs) == 1 and not evs[0].loops, f"{len(evs)} updates", s)
            tv = all_trainables(c, m)
            if kind == "inverse":
                ip = c.deref(c.attr(m.o, "inverse_params_dict"))
                for k2, v in ip.entries:
                    c.record(f"unknown parameter {k2} is a trainable variable", v in tv, f"{v!r}", m.site)
            opt = c.attr(m.o, "optimizer")
            for e in evs[:1]:
                c.record("update is unconditional", e.pc is None or c.I.decide(e.pc, c.st) is True if not isinstance(e.pc, tuple) else all(c.I.decide(z, c.st) is True for z in e.pc), f"guard {e.pc}", e.site)
                c.record("update uses the compiled optimiser", e.data["opt"] == opt, f"{e.data['opt']!r}", e.site)
                pairs = e.data["pairs"]
                if pairs is None:
                    c.record("pairs resolved", None, "unresolved sequence", e.site)
                    continue
                for cs, pairs_ in e.data.get("alts") or [((), pairs)]:
                    when = ""
                    if cs:
                        v_, w_ = teval.decide_cond(cand(*cs))
                        if v_ is not True and any("unk" in getattr(z, "flags", ()) for z in cs):
                            raise Undecided(f"update under {cs}"[:300])
                        if teval.decide_cond(cnot(cand(*cs)))[0] is True:
                            continue  # cannot happen
                        when = f" when {' and '.join(map(str, cs))}"[:300]
                    seen = []
                    for g, v in pairs_:
                        if isinstance(g, LibObj) and g.kind == "xgrad":
                            c.record(f"gradient applied as computed ({vname(c, g.f['var'])})", False, f"the gradient is {g.f['how']} before the update", e.site)
                            seen.append(v)
                            continue
                        if not (isinstance(g, LibObj) and g.kind == "grad"):
                            c.record("gradient entry", False if g is None else None, f"entry is {g!r}", e.site)
                            continue
                        c.record(f"gradient paired with its own variable ({vname(c, g.f['var'])})", g.f["var"] == v, f"gradient of {vname(c, g.f['var'])} applied to {v!r}", e.site)
                        c.record(f"gradient recorded ({vname(c, g.f['var'])})", bool(g.f["ok"]), "objective not connected to the variable on this tape", e.site)
                        seen.append(v)
                    for v in tv:
                        k = sum(1 for z in seen if z == v)
                        c.record(f"{vname(c, v)} updated exactly once", k == 1, f"updated {k} times{when}", e.site)
                    extra = [v for v in seen if v not in tv]
                    c.record("nothing else updated", not extra, f"{extra}", e.site)
            asg = [e for e in c.st.events[n0:] if e.kind == "var_assign"]
            c.record("no variable assigned outside the optimiser", not asg, f"{len(asg)} assignments", asg[0].site if asg else s)
        guarded(c, nm, body, c.fn_site(MODELS_[kind], "train_step"))


# ------------------------------------------------------------------- C15
def C15(c):
    c.rule("prediction term unfolds to Dense_L(..Dense_1(x)) with Dense_i of width layer_dims[i], hidden activation = requested, last linear, requested dtype, attention (when requested) applied to the inputs first; the hard-constraint function receives (inputs, network output) and its result is the prediction")
    for kind, att, n in list(variants(c)) + deep(c):
        for dt in ("float32", "float64"):
            for dflt in ((False, True) if kind == "hard" else (False,)):
                nm = f"{kind} depth={n} {dt}" + (" attention" if att else "") + (" default constraint" if dflt else "")

                def body(kind=kind, att=att, n=n, dt=dt, dflt=dflt, nm=nm):
                    c.scenario(nm)
                    out = 2 if kind == "inverse_domain" else 1
                    dims = dims_of(n, out)
                    m = build(c, kind, dims=dims, att=att, dt=dt, default_hard=dflt)
                    Z = tens("Z", (nat("nz"), 2), dt)
                    st0 = c.st
                    c.st = st0.clone()
                    U = c.as_arr(c.call(m.o, Z), "prediction")
                    casts = c.events("autocast")
                    c.st = st0
                    s = c.fn_site(m.cls, "call")
                    c.record("inputs keep the requested precision", not casts, f"model inputs are cast from {casts[0].data['frm']} to {casts[0].data['to']}" if casts else "", c.fn_site(m.cls, "__init__"))
                    c.shape("one row per input point", U, (Z.shape[0], out), s)
                    r, j = idx("r", Z.shape[0]), idx("j", out)
                    t = U.at(r, j)
                    if kind == "hard" and not dflt:
                        a = t.single_atom()
                        if a is None or a.kind != "hc":
                            c.record("hard constraint applied last", False, f"prediction {c.short(t)}", s)
                            return
                        c.record("hard constraint applied last", True, "", s)
                        zz = idx("z", 2)
                        c.eq("hard constraint receives the raw inputs", libtf_apply(a.args[0], zz), Z.at(r, zz), site=s)
                        t = P(a.args[1])
                    jj = P(j)
                    used = {}
                    for lvl in range(n - 1, 0, -1):
                        a = t.single_atom()
                        if a is None or a.kind != "dense":
                            c.record(f"layer {lvl} is a dense layer", False, f"found {c.short(t)}", s)
                            return
                        cfg = c.st.heap[a.args[0]].f["cfg"]
                        ls = c.fn_site(m.cls, "__init__")
                        c.record(f"layer {lvl} has weights of its own", a.args[0] not in used, f"layers {lvl} and {used.get(a.args[0])} are one layer object: their weights are shared", ls)
                        used[a.args[0]] = lvl
                        c.eq(f"layer {lvl} width", c.I.lib.num(cfg["units"], c.st), dims[lvl], site=ls)
                        c.eq(f"layer {lvl} output component", P(a.args[1]), jj, site=s)
                        act = cfg.get("activation")
                        if lvl == n - 1:
                            c.record("last layer is linear", act is None or isinstance(act, StrV) and act.concrete() == "linear", f"activation {act!r}", ls)
                        else:
                            c.record(f"layer {lvl} activation as requested", act == m.act, f"activation {act!r}", ls)
                        c.record(f"layer {lvl} dtype", cfg.get("dtype_") == dt, f"dtype {cfg.get('dtype_')}", ls)
                        c.record(f"layer {lvl} has a bias", cfg.get("use_bias", True) is True, "no bias", ls)
                        jj = idx("c", dims[lvl - 1])
                        t = libtf_apply(a.args[2], jj)
                    if att:
                        a = t.single_atom()
                        if a is None or a.kind != "att":
                            c.record("attention applied to the inputs", False, f"found {c.short(t)}", s)
                            return
                        c.record("attention applied to the inputs", True, "", s)
                        cfg = c.st.heap[a.args[0]].f["cfg"]
                        c.record("attention dtype", cfg.get("dtype_") == dt, f"attention layer computes in {cfg.get('dtype_')}", c.fn_site(m.cls, "__init__"))
                        want = libtf.src_lam(Z)
                        for i, lam in enumerate(a.args[1:3]):
                            c.eq(f"attention operand {i} is the input", P(lam), want, site=s)
                    else:
                        c.eq("first layer reads the input row", t, Z.at(r, jj), site=s)
                guarded(c, nm, body, c.fn_site(MODELS_[kind], "__init__"))


def libtf_apply(lam, x):
    """apply a lam term to an index"""
    a = P(lam).single_atom()
    if a is None or a.kind != "lam":
        raise Undecided("not a function term")
    return replace_atoms(P(a.args[1]), {atom("bv", a.args[0]): P(x)})


# ------------------------------------------------------------------- C16
def C16(c):
    c.rule("Adam is created with the initial rate when scheduling is off, with ExponentialDecay(initial, steps, rate, staircase) of the caller's own values when on; that optimiser is the compiled one")
    for kind in MODELS_:
        def body(kind=kind):
            for sched, stair in ((False, False), (True, True), (True, False), (True, None)):
                if stair is None and kind != "dense":
                    continue  # the other models require the key
                c.scenario(f"{kind} scheduler={sched} staircase={stair}")
                m = build(c, kind, lr=lr_dict(c, sched, staircase=stair))
                opt = c.attr(m.o, "optimizer")
                oc = c.st.heap.get(opt.id) if isinstance(opt, Ref) else None
                s = m.site
                if not (isinstance(oc, ObjC) and oc.kind == "optimizer"):
                    c.record("optimiser", None, f"{opt!r}", s)
                    continue
                c.record("Adam", oc.f["name"] == "Adam", oc.f["name"], s)
                lr = oc.f["cfg"].get("learning_rate")
                comp = [e for e in c.events("compile")]
                c.record("compiled with that optimiser", bool(comp) and comp[-1].data["kw"].get("optimizer") == opt, "compile() gets another optimiser", s)
                if not sched:
                    v = c.I.lib.num(lr, c.st) if lr is not None and not isinstance(lr, LibObj) else None
                    if v is None:
                        c.record("constant learning rate", False, f"learning rate {lr!r}"[:200], s)
                    else:
                        c.eq("constant learning rate = initial_learning_rate", v, sym("lr0"), site=s)
                    continue
                if not (isinstance(lr, LibObj) and lr.kind == "schedule" and lr.f["name"] == "ExponentialDecay"):
                    c.record("exponential decay schedule", False, f"learning rate {lr!r}"[:200], s)
                    continue
                cfg = lr.f["cfg"]
                for key, want in (("initial_learning_rate", sym("lr0")), ("decay_steps", nat("dsteps")), ("decay_rate", sym("drate"))):
                    c.eq(key, c.I.lib.num(cfg[key], c.st), want, site=s)
                sc = cfg.get("staircase", False)
                t0 = c.I.truth(sc, c.st, None)
                t = c.I.decide(t0, c.st)
                if stair is None:
                    if isinstance(t0, Cond) and t not in (True, False):
                        c.holds("a staircase when the choice is left out", t0, site=s)
                    else:
                        c.record("a staircase when the choice is left out", None if t is None else t, f"schedule built with staircase={sc!r}", s)
                    continue
                c.record("staircase flag honoured", None if t not in (True, False) else t == stair, f"schedule built with staircase={sc!r}, configured {stair}", s)
            # without the optional key
            c.scenario(f"{kind} without scheduler options used")
        guarded(c, f"{kind}", body, c.fn_site(MODELS_[kind], "__init__"))


# ------------------------------------------------------------------- C17
def C17(c):
    c.rule("get_config() has one entry per constructor parameter, bound to the value the constructor was given")
    for kind, hess in [(k, h) for k in MODELS_ for h in (True, False)]:
        def body(kind=kind):
            c.scenario(kind)
            # the two switches differ, so that one cannot stand in for the other
            m = build(c, kind, att=not hess, hessian=hess)
            s = c.fn_site(m.cls, "get_config")
            r = c.meth(m.o, "get_config")
            c.alive("get_config returns", s)
            d = c.deref(r)
            if not isinstance(d, DictC):
                raise Undecided(f"get_config returns {r!r}")
            ent = {str(k.concrete() if isinstance(k, StrV) else k): v for k, v in d.entries}
            init = m.cls.lookup("__init__").node.args
            names = [a.arg for a in init.args[1:] + init.kwonlyargs]
            for nm in names:
                if nm not in ent:
                    c.record(f"parameter {nm} present", False, "absent from the configuration", s)
                    continue
                c.record(f"parameter {nm} present", True, "", s)
                if nm in m.kw:
                    same = same_val(c, ent[nm], m.kw[nm])
                    c.record(f"parameter {nm} has the given value", same, f"{ent[nm]!r} vs {m.kw[nm]!r}"[:300], s)
        guarded(c, kind, body, c.fn_site(MODELS_[kind], "get_config"))


def same_val(c, a, b):
    if a is b:
        return True
    try:
        if a == b:
            return True
    except Exception:
        pass
    da, db = c.deref(a), c.deref(b)
    if isinstance(a, Ref) and isinstance(da, ObjC) and da.kind == "tfvar" and isinstance(db, Arr):
        # an unknown coefficient: the variable started from the given value
        da = da.f.get("init")
        da = c.deref(da)
        return same_val(c, da, db) if isinstance(da, Arr) else None
    if isinstance(da, Arr) and isinstance(db, Arr) and da.ndim == db.ndim:
        ix = [idx("z", d) for d in da.shape]
        return teval.decide_zero(da.at(*ix) - db.at(*ix))[0]
    if isinstance(da, ListC) and isinstance(db, ListC) and len(da.segs) == len(db.segs) and all(x[0] == "item" for x in da.segs + db.segs):
        r = [same_val(c, x[1], y[1]) for x, y in zip(da.segs, db.segs)]
        return all(r)
    if isinstance(da, DictC) and isinstance(db, DictC):
        ka, kb = dict(da.entries), dict(db.entries)
        r = [same_val(c, ka[k], kb[k]) for k in ka if k in kb]
        return False if set(ka) != set(kb) or False in r else (None if None in r else True)
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return teval.decide_zero(a - b)[0]
    return False
