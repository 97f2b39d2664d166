"""C10, C21, C22: tensors handed to the models, boundary data, sensor data."""
from ..scen import *
from .fe import *

DH = "fastvpinns.data.datahandler2d:DataHandler2D"
TF = "tensorflow"


def dtype_val(c, name, lib="tensorflow"):
    return LibV(f"{lib}.{name}")


def handler(c, o, dt, domain=None):
    h = c.call(DH, o, domain if domain is not None else OpaqueV("domain"), dt)
    if c.st.dead:
        e = c.events("raise")
        c.record("data handler constructed", False, f"raises {e[-1].data.get('exc') if e else '?'}: {e[-1].data.get('msg') if e else ''}", e[-1].site if e else None)
        raise Undecided("constructor raises")
    return h


def is_dtype(c, key, a, dt, site, lib="tf"):
    return c.record(key, bool(a.dt == dt and a.lib == lib), f"element type {a.lib}.{a.dt}, required {lib}.{dt}", site)


def C10(c):
    c.rule("row cell*Q^2+q of the point tensor, column cell of the load tensor and slice cell of each table tensor carry exactly the value numbers of that cell's accessors; every tensor has the requested dtype")
    combos = [("legendre", "bilinear", "gauss-legendre")] if c.tier == "quick" else grid(c)
    for fam, tt, qt in combos:
        for dt in ("float32", "float64"):
            def body(fam=fam, tt=tt, qt=qt, dt=dt):
                c.scenario(f"{fam}/{tt}/{qt}/{dt}")
                o, N, Q, nc = fespace(c, fam, tt, qt)
                e = cell_symbol(nc)
                k, q = idx("k", N * N), idx("q", Q * Q)
                st0 = c.st.clone()
                h = handler(c, o, dtype_val(c, dt))
                site = c.fn_site(DH, "__init__")
                ref = lambda m: c.as_arr(_on(c, st0, o, m, e), m)
                for nm, m in (("shape_val_mat_list", "get_shape_function_val"), ("grad_x_mat_list", "get_shape_function_grad_x"), ("grad_y_mat_list", "get_shape_function_grad_y")):
                    a = c.as_arr(c.attr(h, nm), nm)
                    c.shape(f"{nm} shape", a, (nc, N * N, Q * Q), site)
                    is_dtype(c, f"{nm} dtype", a, dt, site)
                    c.eq(f"{nm}[cell,k,q]", a.at(e, k, q), ref(m).at(k, q), site=site)
                a = c.as_arr(c.attr(h, "x_pde_list"), "x_pde_list")
                c.shape("x_pde_list shape", a, (nc * Q * Q, 2), site)
                is_dtype(c, "x_pde_list dtype", a, dt, site)
                xy = ref("get_quadrature_actual_coordinates")
                for d in (0, 1):
                    c.eq(f"x_pde_list[cell*Q^2+q,{d}]", a.at(e * Q * Q + q, d), xy.at(q, d), site=site)
                a = c.as_arr(c.attr(h, "forcing_function_list"), "forcing_function_list")
                c.shape("forcing_function_list shape", a, (N * N, nc), site)
                is_dtype(c, "forcing_function_list dtype", a, dt, site)
                c.eq("forcing_function_list[k,cell]", a.at(k, e), ref("get_forcing_function_values").at(k, 0), site=site)
                # test points
                tp = inarr("tp", (nat("nt"), 2))
                dom = OpaqueV("domain", attrs={"get_test_points": UserFn("tp", handler=lambda L, a, kw, st, n: L.I.alloc(st, tp))})
                c.I.setattr(h, "domain", dom, c.st, None)
                s2 = c.fn_site(DH, "get_test_points")
                a = c.as_arr(c.meth(h, "get_test_points"), "test points")
                c.shape("test points shape", a, tp.shape, s2)
                is_dtype(c, "test points dtype", a, dt, s2)
                r, d = idx("r", tp.shape[0]), idx("d", 2)
                c.eq("test points values", a.at(r, d), tp.at(r, d), site=s2)
                # parameters converted key by key
                for meth in ("get_bilinear_params_dict_as_tensors", "get_inverse_params"):
                    s3 = c.fn_site(DH, meth)
                    want = {"eps": sym("p_eps"), "b_x": sym("p_bx")}
                    d_ = c.dct([(c.s(z), w) for z, w in want.items()])
                    r_ = c.deref(c.meth(h, meth, UserFn("params", handler=lambda L, a, kw, st, n, d_=d_: d_)))
                    if not isinstance(r_, DictC):
                        raise Undecided(f"{meth} does not return a dict")
                    keys = [skey(k2) for k2, _ in r_.entries]
                    c.record(f"{meth} keeps every key", sorted(keys) == sorted(want), f"keys {keys}", s3)
                    for k2, v in r_.entries:
                        a = c.as_arr(v, meth)
                        is_dtype(c, f"{meth}[{skey(k2)}] dtype", a, dt, s3)
                        c.eq(f"{meth}[{skey(k2)}] value", a.at(*[ZERO] * a.ndim), want.get(skey(k2), ZERO), site=s3)
            guarded(c, f"{fam}/{tt}/{qt}/{dt}", body, c.fn_site(DH, "__init__"))

    def body():
        c.scenario("non-TensorFlow dtype")
        o, N, Q, nc = fespace(c)
        for nm, v in (("numpy dtype", dtype_val(c, "float32", "numpy")), ("string", c.s("float32")), ("None", None)):
            st0 = c.st
            c.st = st0.clone()
            c.call(DH, o, OpaqueV("domain"), v)
            exc = c.raised()
            c.record(f"{nm} rejected with TypeError", bool(c.st.dead and exc and exc[-1] == "TypeError"), f"accepted or raised {exc[-1:]}", c.fn_site(DH, "__init__"))
            c.st = st0
    guarded(c, "non-TensorFlow dtype", body, c.fn_site(DH, "__init__"))


def skey(k):
    """dictionary key as text"""
    if isinstance(k, StrV):
        k = k.concrete()
    return str(k)


def _on(c, st, o, m, *a):
    old = c.st
    c.st = st.clone()
    try:
        r = c.meth(o, m, *a)
        return c.deref(r)
    finally:
        c.st = old


# ------------------------------------------------------------------ C21
def C21(c):
    c.rule("each boundary point is emitted once, in order, paired with the function registered for its own boundary id evaluated at exactly that point; tensors keep the pairing")
    site = c.fn_site(FESP, "generate_dirichlet_boundary_data")
    sitev = c.fn_site(FESP, "generate_dirichlet_boundary_data_vector")

    def setup_(mode):
        m = [nat("m0"), nat("m1"), nat("m2")]
        B = [inarr(f"bp{i}", (m[i], 2)) for i in range(3)]
        ids = [sym(f"tag{i}", 1, None, True) for i in range(3)] if False else [const(1000), const(1003), const(7)]
        G = [UserFn(f"g{i}", mode) for i in range(3)]
        bp = c.dct([(ids[i], c.alloc(B[i])) for i in range(3)])
        # the dictionaries need not list the boundaries in the same order
        order_ = [2, 0, 1]
        bf = c.dct([(ids[i], G[i]) for i in order_])
        bc = c.dct([(ids[i], c.s("dirichlet")) for i in order_])
        o, N, Q, nc = fespace(c, bp=bp, bf=bf, bc=bc, forcing=UserFn("f", "scalar"))
        return o, m, B, G

    def gval(mode, G, x, y, comp):
        if mode == "vector":
            return user_component(c, G, x, y, comp)
        return P(c.I.lib.num(c.I.call(G, [x, y], {}, None, c.st), c.st))

    for mode in ("scalar", "vector"):
        def body(mode=mode):
            c.scenario(f"{mode} boundary data")
            if mode == "vector":
                # the constructor itself evaluates the scalar variant
                o, m, B, G0 = setup_("scalar")
                G = [UserFn(f"g{i}", "vector") for i in range(3)]
                c.I.setattr(o, "bound_function_dict", c.dct([((const(1000), const(1003), const(7))[k], G[k]) for k in (2, 0, 1)]), c.st, None)
                comp = idx("comp", nat("ncomp"))
                r = c.meth(o, "generate_dirichlet_boundary_data_vector", comp)
                s = sitev
            else:
                o, m, B, G = setup_("scalar")
                comp = None
                r = c.meth(o, "generate_dirichlet_boundary_data")
                s = site
            c.alive("boundary data computed", s)
            r = c.deref(r)
            if not isinstance(r, TupleV) or len(r.items) != 2:
                raise Undecided(f"boundary data is {r!r}")
            x = c.I.lib.to_arr(r.items[0], c.st, None)
            y = c.I.lib.to_arr(r.items[1], c.st, None)
            if x is None or y is None:
                raise Undecided(f"boundary data lists not array-like: {[tuple(z) for v in r.items for z in getattr(c.deref(v), chr(115)+"egs", ())]}"[:900])
            check_pairs(x, y, m, B, G, mode, comp, s)
            if mode == "scalar":
                for dt in ("float32", "float64"):
                    h = handler(c, o, dtype_val(c, dt))
                    s2 = c.fn_site(DH, "get_dirichlet_input")
                    r = c.deref(c.meth(h, "get_dirichlet_input"))
                    if not isinstance(r, TupleV) or len(r.items) != 2:
                        raise Undecided(f"dirichlet input is {r!r}")
                    x, y = c.as_arr(r.items[0]), c.as_arr(r.items[1])
                    tot = m[0] + m[1] + m[2]
                    c.shape(f"{dt} input tensor shape", x, (tot, 2), s2)
                    c.shape(f"{dt} value tensor shape", y, (tot, 1), s2)
                    is_dtype(c, f"{dt} input dtype", x, dt, s2)
                    is_dtype(c, f"{dt} value dtype", y, dt, s2)
                    check_pairs(x, y, m, B, G, mode, comp, s2, f"{dt} tensor: ")

        def check_pairs(x, y, m, B, G, mode, comp, s, pre=""):
            off = ZERO
            c.eq(f"{pre}one row per boundary point", x.shape[0], m[0] + m[1] + m[2], site=s)
            c.eq(f"{pre}one value per boundary point", y.shape[0], m[0] + m[1] + m[2], site=s)
            for i in range(3):
                p = idx("p", m[i])
                for d in (0, 1):
                    c.eq(f"{pre}boundary {i} point coordinate {d}", x.at(off + p, d), B[i].at(p, d), site=s)
                yv = y.at(off + p, *[ZERO] * (y.ndim - 1))
                c.eq(f"{pre}boundary {i} value = its own function at that point", yv, gval(mode, G[i], B[i].at(p, 0), B[i].at(p, 1), comp), site=s)
                off = off + m[i]
        guarded(c, f"{mode} boundary data", body, site)

    def lacking():
        # a boundary without a registered function has no value to give
        c.scenario("a boundary without a function")
        o, m, B, G = setup_("scalar")
        n0 = len(c.events("raise"))
        c.I.setattr(o, "bound_function_dict", c.dct([(const(1000), G[0]), (const(7), G[2])]), c.st, None)
        r = c.meth(o, "generate_dirichlet_boundary_data")
        rs = c.events("raise")[n0:]
        c.record("boundary points without a function of their own are reported, not given a value", bool(rs) or c.st.dead is not None, f"returns {r!r}"[:200], site)
    guarded(c, "a boundary without a function", lacking, site)


# ------------------------------------------------------------------ C22
def C22(c):
    c.rule("observation k is the exact-solution function at point k (internal), or column 2 of the same record whose columns 0,1 give point k (external); internal points lie in the mesh bounding box; tensors keep the pairing")

    for kind in ("internal", "external"):
        def body(kind=kind):
            c.scenario(kind)
            npts = nat("npts")
            mp = inarr("meshpt", (npts, 3))
            mesh = OpaqueV("mesh", attrs={"points": c.alloc(mp)})
            o, N, Q, nc = fespace(c, mesh=mesh)
            ns = nat("ns", 2)
            f = UserFn("u")
            meth = "get_sensor_data" if kind == "internal" else "get_sensor_data_external"
            site = c.fn_site(FESP, meth)
            file_ = StrV([("file",)])

            def query():
                if kind == "internal":
                    return c.meth(o, meth, f, ns)
                return c.meth(o, meth, f, ns, file_)
            r = c.deref(query())
            c.alive("sensor data computed", site)
            if not isinstance(r, TupleV) or len(r.items) != 2:
                raise Undecided(f"sensor data is {r!r}")
            x, u = c.as_arr(r.items[0]), c.as_arr(r.items[1])
            verify(x, u, kind, ns, npts, mp, file_, site, "")
            for dt in ("float32", "float64"):
                h = handler(c, o, dtype_val(c, dt))
                s2 = c.fn_site(DH, "get_sensor_data")
                r = c.deref(c.meth(h, "get_sensor_data", f, ns, c.s(kind), file_))
                if not isinstance(r, TupleV) or len(r.items) != 2:
                    raise Undecided(f"sensor tensors are {r!r}")
                x, u = c.as_arr(r.items[0]), c.as_arr(r.items[1])
                c.shape(f"{dt} points shape", x, (x.shape[0], 2), s2)
                c.shape(f"{dt} values shape", u, (x.shape[0], 1), s2)
                is_dtype(c, f"{dt} points dtype", x, dt, s2)
                is_dtype(c, f"{dt} values dtype", u, dt, s2)
                verify(x, u, kind, ns, npts, mp, file_, s2, f"{dt} tensors: ")

        def verify(x, u, kind, ns, npts, mp, file_, site, pre):
            k = idx("k", x.shape[0])
            c.eq(f"{pre}as many values as points", u.shape[0], x.shape[0], site=site)
            uv = u.at(k, *[ZERO] * (u.ndim - 1))
            if kind == "internal":
                c.eq(f"{pre}value k = exact(point k)", uv, P(atom("app", "u", x.at(k, 0), x.at(k, 1))), site=site)
                used = []
                for d, nm in ((0, "x"), (1, "y")):
                    p = fresh("p", ZERO, npts - 1)
                    lo, hi = [T.mk_red(op, p, npts, mp.at(P(p), d)) for op in ("min", "max")]
                    at = random_affine(c, f"{pre}{nm} spans exactly the mesh bounding box", x.at(k, d), lo, hi, site)
                    used.append(at)
                if None not in used:
                    c.record(f"{pre}x and y are drawn independently", used[0] != used[1], "both coordinates use the same random number", site)
            else:
                A = [collect_atoms(z, "csv") for z in (x.at(k, 0), x.at(k, 1), uv)]
                if len(A[0]) != 1:
                    raise Undecided("external sensor data is not one record of the file per entry")
                row = list(A[0])[0].args[1]
                for z, col, nm in ((x.at(k, 0), 0, "point x"), (x.at(k, 1), 1, "point y"), (uv, 2, "value")):
                    c.eq(f"{pre}{nm} k = column {col} of the record chosen for k", z, P(atom("csv", list(A[0])[0].args[0], row, P(col))), site=site)
                nrows = P(atom("len", ("csv", list(A[0])[0].args[0])))
                c.holds(f"{pre}record index inside the file", cand(cle(-P(row)), cle(P(row) - nrows + 1)), site=site)
                c.eq(f"{pre}number of records", x.shape[0], ns, site=site)
        guarded(c, kind, body, c.fn_site(FESP))


def random_affine(c, key, e, lo, hi, site):
    """e is an affine image of one random number whose range is mapped onto [lo, hi]"""
    A = list(collect_atoms(e, "rnd"))
    if len(A) != 1:
        c.record(key, None, f"{len(A)} random numbers in {c.short(e)}", site)
        return None
    a = A[0]
    l, h = BOUNDS.get(a, (None, None))
    if l is None or h is None:
        c.record(key, False, "unbounded random number", site)
        return None
    t = sym("t_rnd")
    f = replace_atoms(e, {a: t})
    ta = t.single_atom()
    v1 = teval.decide_zero(diff(diff(f, ta), ta))[0]
    at_ = lambda z: subst(f, {ta: z})
    v2 = teval.decide_zero(at_(l) - lo)[0]
    v3 = teval.decide_zero(at_(h) - hi)[0]
    v4 = teval.decide_zero(at_(l) - hi)[0]
    v5 = teval.decide_zero(at_(h) - lo)[0]
    ok = v1 is True and ((v2 is True and v3 is True) or (v4 is True and v5 is True))
    bad = v1 is not None and None not in (v2, v3, v4, v5)
    c.record(key, True if ok else (False if bad else None), "" if ok else f"coordinate {c.short(e)}", site)
    return a
