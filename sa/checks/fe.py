"""C01-C09: finite element tables, quadrature, transformations, cell assembly."""
from ..scen import *

FE = "fastvpinns.FE."
SETUP = FE + "fe2d_setup_main:FE2DSetupMain"
FESP = FE + "fespace2d:Fespace2D"
QUAD = FE + "quadratureformulas_quad2d:Quadratureformulas_Quad2D"
FAMILIES = ("legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain")
QTYPES = ("gauss-legendre", "gauss-jacobi")
TRANSF = ("affine", "bilinear")


def order(name="N"):
    return sym(name, const(2), const(999), True)


def qorder(name="Q"):
    return sym(name, const(3), const(9999), True)


def setup(c, fam, N, Q=None, qt="gauss-legendre"):
    return c.call(SETUP, c.s("quadrilateral"), N, c.s(fam), Q if Q is not None else qorder(), c.s(qt))


def basis(c, fam, N, Q=None):
    b = c.meth(setup(c, fam, N, Q), "assign_basis_function")
    if c.st.dead or not isinstance(c.deref(b), InstC):
        raise Undecided(f"no basis object for fe_type {fam!r}")
    return b


def bsite(c, b, meth):
    return c.fn_site(c.deref(b).cls, meth)


def phi1(fam, n, x):
    """n-th (from 0) 1-D test function of the family, as documented"""
    z = ZERO
    if fam in ("legendre", "jacobi", "legendre_special"):
        return jac(n + 2, z, z, x) - jac(n, z, z, x)
    if fam == "jacobi_plain":
        return jac(n, z, z, x)
    h = const(Fr(-1, 2))
    return jac(n + 2, h, h, x) / jac(n + 2, h, h, ONE) - jac(n, h, h, x) / jac(n, h, h, ONE)


def table(c, b, meth, xi, eta):
    s2 = c.st.clone()
    old, c.st = c.st, s2
    try:
        r = c.meth(b, meth, c.alloc(xi), c.alloc(eta))
        if s2.dead:
            e = c.events("raise")
            c.record(f"{meth} returns", False, f"raises {e[-1].data.get('exc') if e else '?'}", e[-1].site if e else None)
            raise Undecided(f"{meth} raises")
        a = c.as_arr(r, meth)
    finally:
        c.st = old
    return a


DERIVS = (("gradx", (0,)), ("grady", (1,)), ("gradxx", (0, 0)), ("gradxy", (0, 1)), ("gradyy", (1, 1)))


def other_setups(c, fam, qt, N, Q, xi=None, eta=None):
    """history: objects of the other kinds, and of the same kind with another order, were built and used
    before in the same process with the same symbolic orders and point counts"""
    st = c.st
    n2 = order("N_other")
    pts = (xi, eta) if xi is not None else (inarr("xi_o", (nat("nq_o"),), lo=-1, hi=1),) * 2
    other = (inarr("xi_p", pts[0].shape, lo=-1, hi=1), inarr("eta_p", pts[0].shape, lo=-1, hi=1))
    for f, n in [(f, N) for f in FAMILIES if f != fam] + [(fam, n2), (fam, N)]:
        b = basis(c, f, n, Q)
        for pp in ((pts, other) if f == fam else (pts,)):
            for m in ("value",) + tuple(d[0] for d in DERIVS):
                if pp is pts and f == fam and n is N:
                    continue
                c.meth(b, m, c.alloc(pp[0]), c.alloc(pp[1]))
    for t in QTYPES:
        if t != qt:
            quad(c, Q, t)
    quad(c, qorder("Q_other"), qt)
    quad(c, Q, qt)
    for tt in TRANSF:
        Z = cell_arr(c, tt, "Zhist")
        t = transf(c, tt, Z)
        c.meth(t, "get_jacobian", c.alloc(pts[0]), c.alloc(pts[1]))
        g = inarr("ghist", (N * N, pts[0].shape[0]))
        c.meth(t, "get_orig_from_ref_derivative", c.alloc(g), c.alloc(g), c.alloc(pts[0]), c.alloc(pts[1]))
    if st.dead:
        raise Undecided("the preceding use raises")


HIST = ("", " after other set-ups")


def C01(c):
    c.rule("each derivative table, as a closed term in (degree i, degree j, point q), equals the symbolic partial derivative of the term the same object's value() computes")
    for fam, hist in [(f, h) for h in HIST for f in FAMILIES]:
        def body(fam=fam, hist=hist):
            c.scenario(f"fe_type={fam}{hist}")
            N, Qn = order(), nat("nq")
            pts = (inarr("xi", (Qn,), lo=-1, hi=1), inarr("eta", (Qn,), lo=-1, hi=1))
            if hist:
                other_setups(c, fam, "gauss-legendre", N, qorder(), *pts)
            b = basis(c, fam, N)
            xi, eta = pts
            i, j, q = idx("i", N), idx("j", N), idx("q", Qn)
            X, Y = sym("X"), sym("Y")
            BOUNDS[X.single_atom()] = BOUNDS[Y.single_atom()] = (const(-1), ONE)
            mp = {xi.at(q).single_atom(): X, eta.at(q).single_atom(): Y}
            V = table(c, b, "value", xi, eta)
            v = replace_atoms(V.at(i * N + j, q), mp)
            for meth, ds in DERIVS:
                site = bsite(c, b, meth)
                D = table(c, b, meth, xi, eta)
                c.shape(f"{meth} shape", D, (N * N, Qn), site)
                want = v
                for d in ds:
                    want = diff(want, (X, Y)[d].single_atom())
                got = replace_atoms(D.at(i * N + j, q), mp)
                c.eq(f"{meth}[i*N+j,q] = d value", got, want, site=site)
        guarded(c, f"fe_type={fam}{hist}", body, c.fn_site(SETUP))


def C02(c):
    c.rule("value()[i*N+j, q] has the value number of phi_i(xi_q)*phi_j(eta_q) of the selected 1-D family, N = fe_order; every table has N^2 rows and one column per point")
    for fam, hist in [(f, h) for h in HIST for f in FAMILIES]:
        def body(fam=fam, hist=hist):
            c.scenario(f"fe_type={fam}{hist}")
            N, Qn = order(), nat("nq")
            pts = (inarr("xi", (Qn,), lo=-1, hi=1), inarr("eta", (Qn,), lo=-1, hi=1))
            if hist:
                other_setups(c, fam, "gauss-legendre", N, qorder(), *pts)
            b = basis(c, fam, N)
            xi, eta = pts
            i, j, q = idx("i", N), idx("j", N), idx("q", Qn)
            site = bsite(c, b, "value")
            V = table(c, b, "value", xi, eta)
            c.shape("value shape", V, (N * N, Qn), site)
            c.eq("value[i*N+j,q] = phi_i(xi_q) phi_j(eta_q)", V.at(i * N + j, q), phi1(fam, i, xi.at(q)) * phi1(fam, j, eta.at(q)), site=site)
            X, Y = sym("X"), sym("Y")
            BOUNDS[X.single_atom()] = BOUNDS[Y.single_atom()] = (const(-1), ONE)
            mp = {xi.at(q).single_atom(): X, eta.at(q).single_atom(): Y}
            for meth, ds in DERIVS:
                D = table(c, b, meth, xi, eta)
                want = phi1(fam, i, X) * phi1(fam, j, Y)
                for d in ds:
                    want = diff(want, (X, Y)[d].single_atom())
                c.shape(f"{meth} shape", D, (N * N, Qn), bsite(c, b, meth))
                c.eq(f"{meth}[i*N+j,q] in the same order", replace_atoms(D.at(i * N + j, q), mp), want, site=bsite(c, b, meth))
            n = c.attr(b, "num_shape_functions")
            c.eq("number of shape functions", n, N * N, site=bsite(c, b, "__init__"))
        guarded(c, f"fe_type={fam}{hist}", body, c.fn_site(SETUP))


def C03(c):
    c.rule("value() term with xi or eta replaced by -1/+1 normalises to zero for every degree pair")
    for fam, hist in [(f, h) for h in HIST for f in ("legendre", "jacobi", "legendre_special", "chebyshev_2")]:
        def body(fam=fam, hist=hist):
            c.scenario(f"fe_type={fam}{hist}")
            N, Qn = order(), nat("nq")
            pts = (inarr("xi", (Qn,), lo=-1, hi=1), inarr("eta", (Qn,), lo=-1, hi=1))
            if hist:
                other_setups(c, fam, "gauss-legendre", N, qorder(), *pts)
            b = basis(c, fam, N)
            i, j, q = idx("i", N), idx("j", N), idx("q", Qn)
            site = bsite(c, b, "value")
            free = inarr("t", (Qn,), lo=-1, hi=1)
            for e in (-1, 1):
                edge = Arr((Qn,), lambda k, e=e: const(e), "float64")
                c.eq(f"value at xi={e:+d}", table(c, b, "value", edge, free).at(i * N + j, q), ZERO, site=site)
                c.eq(f"value at eta={e:+d}", table(c, b, "value", free, edge).at(i * N + j, q), ZERO, site=site)
        guarded(c, f"fe_type={fam}{hist}", body, c.fn_site(SETUP))


# ------------------------------------------------------------------ quadrature
def rule1d(qt, Q, k):
    if qt == "gauss-legendre":
        return gx(("legendre",), Q, k), gw(("legendre",), Q, k)
    Q1 = Q - 1
    inner = gx(("jacobi", 1, 1), Q - 2, k - 1)
    x = ite(ceq(k), const(-1), ite(ceq(k - Q1), ONE, inner))
    w = const(2) / (Q * Q1 * jac(Q1, ZERO, ZERO, x) ** 2)
    return x, w


def gx(kind, Q, k):
    return P(atom("gaussx", kind, Q, k))


def gw(kind, Q, k):
    return P(atom("gaussw", kind, Q, k))


def quad(c, Q, qt):
    s = setup(c, "legendre", order(), Q, qt)
    r = c.meth(s, "assign_quadrature_rules")
    if not isinstance(r, TupleV) or len(r.items) != 3:
        raise Undecided("assign_quadrature_rules does not return a triple")
    return [c.as_arr(x, "quadrature") for x in r.items]


def C04(c):
    c.rule("entry a*Q+b of the 2-D rule is (W_a*W_b, X_s, X_t) with {s,t}={a,b} of one 1-D Gauss-Legendre / Gauss-Lobatto rule; all Q^2 pairs occur once")
    for qt, hist in [(t, h) for h in HIST for t in QTYPES]:
        def body(qt=qt, hist=hist):
            c.scenario(f"quad_type={qt}{hist}")
            Q = qorder()
            if hist:
                other_setups(c, "legendre", qt, order(), Q)
            site = c.fn_site(QUAD, "__init__")
            w, xi, eta = quad(c, Q, qt)
            for nm, a in (("weights", w), ("xi", xi), ("eta", eta)):
                c.shape(f"{nm} shape", a, (Q * Q,), site)
            a, b = idx("a", Q), idx("b", Q)
            k = a * Q + b
            Xa, Wa = rule1d(qt, Q, a)
            Xb, Wb = rule1d(qt, Q, b)
            # either coordinate may run fastest: the pairing is what matters
            d1 = teval.decide_zero(xi.at(k) - Xb)[0]
            first, second = (Xb, Xa) if d1 is not False else (Xa, Xb)
            c.eq("xi[a*Q+b] is a 1-D node of its own index", xi.at(k), first, site=site)
            c.eq("eta[a*Q+b] is the 1-D node of the other index", eta.at(k), second, site=site)
            c.eq("weight[a*Q+b] = W_a*W_b of the same nodes", w.at(k), Wa * Wb, site=site)
            # the same rule through the class itself
            o = c.call(QUAD, Q, c.s(qt))
            r = c.meth(o, "get_quad_values")
            if isinstance(r, TupleV) and len(r.items) == 3:
                for nm, x, y in zip(("weights", "xi", "eta"), r.items, (w, xi, eta)):
                    c.eq(f"get_quad_values returns {nm} in the documented position", c.as_arr(x).at(k), y.at(k), site=c.fn_site(QUAD, "get_quad_values"))
            else:
                c.record("get_quad_values returns (weights, xi, eta)", None, f"{r!r}", c.fn_site(QUAD, "get_quad_values"))
        guarded(c, f"quad_type={qt}{hist}", body, c.fn_site(QUAD))


# ------------------------------------------------------------ transformations
REFV = ((-1, -1), (1, -1), (1, 1), (-1, 1))


def cell_arr(c, tt, name="X"):
    """vertex coordinates: arbitrary for bilinear, a parallelogram for affine"""
    base = inarr(name, (4, 2))
    if tt == "bilinear":
        return base

    def f(ix):
        k, d = ix
        if k.is_const() and k.const() == 2:
            return base.at(1, d) + base.at(3, d) - base.at(0, d)
        if k.is_const():
            return base.at(k, d)
        return ite(ceq(k - 2), base.at(1, d) + base.at(3, d) - base.at(0, d), base.at(k, d))
    return Arr((4, 2), f, "float64")


def transf(c, tt, X):
    s = setup(c, "legendre", order())
    t = c.meth(s, "assign_fe_transformation", c.s(tt), c.alloc(X))
    if not isinstance(c.deref(t), InstC):
        raise Undecided(f"no transformation object for {tt!r}")
    return t


def fmap(c, t, xi, eta):
    r = c.as_arr(c.meth(t, "get_original_from_ref", xi, eta), "get_original_from_ref")
    return r.at(0), r.at(1)


def jacobian_terms(c, t):
    x, y = sym("xi", -1, 1), sym("eta", -1, 1)
    mx, my = fmap(c, t, x, y)
    ax, ay = x.single_atom(), y.single_atom()
    return x, y, (diff(mx, ax), diff(mx, ay), diff(my, ax), diff(my, ay))


def at_pt(p, x, y, X, Y):
    return subst(p, {x.single_atom(): X, y.single_atom(): Y})


def scalar(c, v):
    v = c.deref(v)
    if isinstance(v, Arr):
        return v.at(*[ZERO] * v.ndim)
    return v


def C05(c):
    c.rule("map at the 4 reference corners equals the 4 vertices in order; Jacobian term = |det| of the symbolic derivative of the map, at scalar and at array arguments")
    for tt, hist in [(t, h) for h in HIST for t in TRANSF]:
        def body(tt=tt, hist=hist):
            c.scenario(f"transformation={tt}{hist}")
            if hist:
                n_ = nat("nq")
                other_setups(c, "legendre", "gauss-legendre", order(), qorder(), inarr("xi", (n_,)), inarr("eta", (n_,)))
            X = cell_arr(c, tt)
            t = transf(c, tt, X)
            cls = c.deref(t).cls
            for k, (a, b) in enumerate(REFV):
                mx, my = fmap(c, t, const(a), const(b))
                s = c.fn_site(cls, "get_original_from_ref")
                c.eq(f"vertex {k} x", mx, X.at(k, 0), site=s)
                c.eq(f"vertex {k} y", my, X.at(k, 1), site=s)
            x, y, (xx, xe, yx, ye) = jacobian_terms(c, t)
            det = absv(xx * ye - xe * yx)
            s = c.fn_site(cls, "get_jacobian")
            c.eq("jacobian = |det D map|", scalar(c, c.meth(t, "get_jacobian", x, y)), det, site=s)
            n = nat("nq")
            A, B = inarr("xi", (n,)), inarr("eta", (n,))
            r = c.deref(c.meth(t, "get_jacobian", c.alloc(A), c.alloc(B)))
            q = idx("q", n)
            if isinstance(r, Arr) and r.ndim == 1 and not r.shape[0] == ONE:
                got = r.at(q)
            else:
                got = scalar(c, r)
            c.eq("jacobian at quadrature arrays", got, at_pt(det, x, y, A.at(q), B.at(q)), site=s)
            # the same object asked at other points, in another order
            A2, B2 = inarr("xi_again", (n,)), inarr("eta_again", (n,))
            again = c.meth(t, "get_jacobian", c.alloc(A2), c.alloc(B2))

            def jac_at(r, q):
                r = c.deref(r)
                return r.at(q) if isinstance(r, Arr) and r.ndim == 1 and not r.shape[0] == ONE else scalar(c, r)
            c.eq("jacobian at further quadrature arrays", jac_at(again, q), at_pt(det, x, y, A2.at(q), B2.at(q)), site=s)
            c.eq("jacobian asked again at the first point", scalar(c, c.meth(t, "get_jacobian", x, y)), det, site=s)
            # re-targeting an object to its (changed) coordinates
            Z = cell_arr(c, tt, "Z")
            c.I.setattr(t, "co_ordinates", c.alloc(Z), c.st, None)
            c.meth(t, "set_cell")
            detz = lambda: (lambda x_, y_, J: absv(J[0] * J[3] - J[1] * J[2]))(*jacobian_terms(c, t))
            c.eq("jacobian after set_cell", jac_at(c.meth(t, "get_jacobian", c.alloc(A), c.alloc(B)), q), at_pt(detz(), x, y, A.at(q), B.at(q)), site=s)
            mx, my = fmap(c, t, ONE, const(-1))
            c.eq("set_cell re-reads vertex 1 x", mx, Z.at(1, 0), site=c.fn_site(cls, "set_cell"))
            c.eq("set_cell re-reads vertex 1 y", my, Z.at(1, 1), site=c.fn_site(cls, "set_cell"))
        guarded(c, f"transformation={tt}{hist}", body, c.fn_site(SETUP))


def C06(c):
    c.rule("returned physical derivatives g satisfy (D map)^T g = reference gradient (and (D map)^T H (D map) = reference Hessian for affine cells), with D map the symbolic derivative of the object's own map")
    for tt, hist in [(t, h) for h in HIST for t in TRANSF]:
        def body(tt=tt, hist=hist):
            c.scenario(f"transformation={tt}{hist}")
            if hist:
                n_ = nat("nq")
                other_setups(c, "legendre", "gauss-legendre", order(), qorder(), inarr("xi", (n_,)), inarr("eta", (n_,)))
            X = cell_arr(c, tt)
            t = transf(c, tt, X)
            cls = c.deref(t).cls
            x, y, J = jacobian_terms(c, t)
            M, n = nat("M"), nat("nq")
            A, B = inarr("xi", (n,)), inarr("eta", (n,))
            ga, gb = inarr("ga", (M, n)), inarr("gb", (M, n))
            k, q = idx("k", M), idx("q", n)
            site = c.fn_site(cls, "get_orig_from_ref_derivative")

            def tables(tag, J, A, B, ga, gb):
                # the tables are requested right after the Jacobian, as the cell set-up does
                c.meth(t, "get_jacobian", c.alloc(A), c.alloc(B))
                r = c.meth(t, "get_orig_from_ref_derivative", c.alloc(ga), c.alloc(gb), c.alloc(A), c.alloc(B))
                if not isinstance(r, TupleV) or len(r.items) != 2:
                    raise Undecided(f"get_orig_from_ref_derivative returned {r!r}")
                gx_, gy_ = [c.as_arr(z) for z in r.items]
                c.shape("gradient table shape" + tag, gx_, (M, n), site)
                u, v = gx_.at(k, q), gy_.at(k, q)
                xx, xe, yx, ye = [at_pt(p, x, y, A.at(q), B.at(q)) for p in J]
                c.eq("x_xi*g_x + y_xi*g_y = g_xi" + tag, xx * u + yx * v, ga.at(k, q), site=site)
                c.eq("x_eta*g_x + y_eta*g_y = g_eta" + tag, xe * u + ye * v, gb.at(k, q), site=site)
                return r
            first = tables("", J, A, B, ga, gb)
            mem = [c.as_arr(z).at(k, q) for z in first.items]
            A2, B2 = inarr("xi_again", (n,)), inarr("eta_again", (n,))
            ga2, gb2 = inarr("ga_again", (M, n)), inarr("gb_again", (M, n))
            tables(", asked again at other points", J, A2, B2, ga2, gb2)
            for nm, z, m in zip("xy", first.items, mem):
                c.eq(f"the g_{nm} returned first keeps its value", c.as_arr(z).at(k, q), m, site=site)
            xx, xe, yx, ye = [at_pt(p, x, y, A.at(q), B.at(q)) for p in J]
            if tt != "affine":
                Z = cell_arr(c, tt, "Z")
                c.I.setattr(t, "co_ordinates", c.alloc(Z), c.st, None)
                c.meth(t, "set_cell")
                tables(", after set_cell", jacobian_terms(c, t)[2], A, B, ga, gb)
                return
            site = c.fn_site(cls, "get_orig_from_ref_second_derivative")
            h = [inarr(nm, (M, n)) for nm in ("haa", "hab", "hbb")]
            r = c.meth(t, "get_orig_from_ref_second_derivative", *[c.alloc(z) for z in h], c.alloc(A), c.alloc(B))
            if not isinstance(r, TupleV) or len(r.items) != 3:
                raise Undecided(f"second derivative returned {r!r}")
            hxx, hxy, hyy = [c.as_arr(z).at(k, q) for z in r.items]
            d = lambda a, b, e, f: a * e * hxx + (a * f + b * e) * hxy + b * f * hyy
            c.eq("H_xi,xi", d(xx, yx, xx, yx), h[0].at(k, q), site=site)
            c.eq("H_xi,eta", d(xx, yx, xe, ye), h[1].at(k, q), site=site)
            c.eq("H_eta,eta", d(xe, ye, xe, ye), h[2].at(k, q), site=site)
            Z = cell_arr(c, tt, "Z")
            c.I.setattr(t, "co_ordinates", c.alloc(Z), c.st, None)
            c.meth(t, "set_cell")
            J = jacobian_terms(c, t)[2]
            site = c.fn_site(cls, "get_orig_from_ref_derivative")
            tables(", after set_cell", J, A, B, ga, gb)
        guarded(c, f"transformation={tt}{hist}", body, c.fn_site(SETUP))


# -------------------------------------------------------------- cell assembly
def cells_arr(name, nc, tt):
    base = inarr(name, (nc, 4, 2))
    if tt == "bilinear":
        return base

    def f(ix):
        e, k, d = ix
        v = lambda z: base.at(e, z, d)
        p = v(1) + v(3) - v(0)
        if k.is_const():
            return p if k.const() == 2 else v(k)
        return ite(ceq(k - 2), p, v(k))
    return Arr((nc, 4, 2), f, "float64")


def fespace(c, fam="legendre", tt="affine", qt="gauss-legendre", N=None, Q=None, nc=None, forcing=None, bp=None, bf=None, bc=None, mesh=None, plot=False, cells=None, out=None):
    N = N if N is not None else order()
    Q = Q if Q is not None else qorder()
    nc = nc if nc is not None else nat("nc")
    cells = cells if cells is not None else c.alloc(cells_arr("X", nc, tt))
    if bp is None:
        bp = c.dct([(const(1000), c.arr("bp0", (nat("m0"), 2))), (const(1001), c.arr("bp1", (nat("m1"), 2)))])
        bf = c.dct([(const(1000), UserFn("g0")), (const(1001), UserFn("g1"))])
        bc = c.dct([(const(1000), c.s("dirichlet")), (const(1001), c.s("dirichlet"))])
    o = c.call(FESP, mesh=mesh or OpaqueV("mesh"), cells=cells, boundary_points=bp, cell_type=c.s("quadrilateral"), fe_order=N, fe_type=c.s(fam), quad_order=Q, quad_type=c.s(qt), fe_transformation_type=c.s(tt), bound_function_dict=bf, bound_condition_dict=bc, forcing_function=forcing or UserFn("f"), output_path=out or StrV([("outdir",)]), generate_mesh_plot=plot)
    if c.st.dead:
        e = c.events("raise")
        c.record("construction succeeds on valid input", False, f"raises {e[-1].data.get('exc') if e else '?'}: {e[-1].data.get('msg') if e else ''}", e[-1].site if e else None)
        raise Undecided("constructor raises")
    return o, N, Q, nc


def spec_cell(c, fam, tt, qt, N, Q, X):
    """component level closed forms (own basis/quadrature/transformation objects) for one cell"""
    w, xi, eta = quad(c, Q, qt)
    b = basis(c, fam, N)
    t = transf(c, tt, X)
    x, y, J = jacobian_terms(c, t)
    mx, my = fmap(c, t, x, y)
    V = table(c, b, "value", xi, eta)
    GX = table(c, b, "gradx", xi, eta)
    GY = table(c, b, "grady", xi, eta)

    def at(k, q):
        X_, Y_ = xi.at(q), eta.at(q)
        j = [at_pt(p, x, y, X_, Y_) for p in J]
        det = j[0] * j[3] - j[1] * j[2]
        return dict(v=V.at(k, q), ga=GX.at(k, q), gb=GY.at(k, q), J=j, det=absv(det), w=w.at(q), x=at_pt(mx, x, y, X_, Y_), y=at_pt(my, x, y, X_, Y_))
    return at


GRID = [(f, t, q) for f in ("legendre",) for t in TRANSF for q in QTYPES] + [(f, t, "gauss-legendre") for f in FAMILIES[2:] for t in TRANSF]
QGRID = [("legendre", "affine", "gauss-legendre"), ("legendre", "bilinear", "gauss-jacobi"), ("chebyshev_2", "bilinear", "gauss-legendre"), ("jacobi_plain", "affine", "gauss-legendre"), ("legendre_special", "bilinear", "gauss-legendre")]


def grid(c):
    return GRID if c.tier == "thorough" else QGRID


def cell_symbol(nc):
    return idx("cell", nc)


def other_space(c, fam, tt, qt, N, Q, nc):
    """history: a space over other cells (same sizes), of another kind, was built and read before"""
    for f2, t2, q2 in (("legendre" if fam != "legendre" else "chebyshev_2", "bilinear", "gauss-legendre" if qt != "gauss-legendre" else "gauss-jacobi"), (fam, tt, qt)):
        o, _, _, _ = fespace(c, f2, t2, q2, N, Q, nc, cells=c.alloc(cells_arr("Xo" + t2[0], nc, t2)), forcing=UserFn("fo"))
        e = cell_symbol(nc)
        for m in ACCESSORS:
            c.meth(o, m, e)


SECOND = ("basis_gradxx_at_quad", "basis_gradxy_at_quad", "basis_gradyy_at_quad")


def C07(c):
    c.rule("every accessor table of cell e at (k,q) = component value * weight_q * |J_e(q)| once, with e's own vertices; reference gradients unscaled; coordinates = map_e(node_q)")
    G = grid(c)[:2] if SMALL[0] and c.tier == "quick" else grid(c)
    for fam, tt, qt, hist in [(*g, "") for g in G] + [(*g, " after another space") for g in ([] if SMALL[0] else G[1:3] if c.tier == "quick" else G)]:
        def body(fam=fam, tt=tt, qt=qt, hist=hist):
            c.scenario(f"{fam}/{tt}/{qt}{hist}")
            N, Q = order(), qorder()
            nc = nat("nc")
            if hist:
                other_space(c, fam, tt, qt, N, Q, nc)
            o, N, Q, nc = fespace(c, fam, tt, qt, N, Q, nc)
            e = cell_symbol(nc)
            CA = cells_arr("X", nc, tt)
            st0, c.st = c.st, c.I.new_state()
            S = spec_cell(c, fam, tt, qt, N, Q, Arr((4, 2), lambda ix: CA.at(e, *ix), "float64"))
            c.st = st0
            i, j = idx("i", N), idx("j", N)
            k = i * N + j
            a_, b_ = idx("a", Q), idx("b", Q)
            q = a_ * Q + b_
            s = S(k, q)
            m = s["w"] * s["det"]
            # structured (parallelogram / arbitrary quadrilateral) cells of the whole mesh
            def acc(meth):
                st0 = c.st
                c.st = st0.clone()
                try:
                    r = c.meth(o, meth, e)
                    if c.st.dead:
                        ev = c.events("raise")
                        c.record(f"{meth} of a valid cell", False, f"raises {ev[-1].data.get('exc') if ev else '?'}", ev[-1].site if ev else None)
                        raise Undecided(f"{meth} raises for a valid cell")
                    return c.as_arr(r, meth)
                finally:
                    c.st = st0
            fs = lambda meth: c.fn_site(FESP, meth)
            A = acc("get_shape_function_val")
            c.shape("values shape", A, (N * N, Q * Q), fs("get_shape_function_val"))
            c.eq("values = phi*w*|J|", A.at(k, q), s["v"] * m, site=fs("get_shape_function_val"))
            gx_, gy_ = acc("get_shape_function_grad_x"), acc("get_shape_function_grad_y")
            c.shape("grad_x shape", gx_, (N * N, Q * Q), fs("get_shape_function_grad_x"))
            c.shape("grad_y shape", gy_, (N * N, Q * Q), fs("get_shape_function_grad_y"))
            u, v = gx_.at(k, q), gy_.at(k, q)
            xx, xe, yx, ye = s["J"]
            c.eq("x_xi*G_x+y_xi*G_y = phi_xi*w*|J|", xx * u + yx * v, s["ga"] * m, site=fs("get_shape_function_grad_x"))
            c.eq("x_eta*G_x+y_eta*G_y = phi_eta*w*|J|", xe * u + ye * v, s["gb"] * m, site=fs("get_shape_function_grad_y"))
            c.eq("reference grad_x unscaled", acc("get_shape_function_grad_x_ref").at(k, q), s["ga"], site=fs("get_shape_function_grad_x_ref"))
            c.eq("reference grad_y unscaled", acc("get_shape_function_grad_y_ref").at(k, q), s["gb"], site=fs("get_shape_function_grad_y_ref"))
            W = acc("get_quadrature_weights")
            W1 = W.at(q) if W.ndim == 1 else W.at(q, *[ZERO] * (W.ndim - 1))
            c.eq("weights = w*|J|", W1, m, site=fs("get_quadrature_weights"))
            XY = acc("get_quadrature_actual_coordinates")
            c.shape("coordinates shape", XY, (Q * Q, 2), fs("get_quadrature_actual_coordinates"))
            c.eq("x of quadrature point", XY.at(q, 0), s["x"], site=fs("get_quadrature_actual_coordinates"))
            c.eq("y of quadrature point", XY.at(q, 1), s["y"], site=fs("get_quadrature_actual_coordinates"))
        guarded(c, f"{fam}/{tt}/{qt}{hist}", body, c.fn_site(FESP))
        if not hist:
            def second(fam=fam, tt=tt, qt=qt):
                c.scenario(f"{fam}/{tt}/{qt}, second derivatives")
                o, N, Q, nc = fespace(c, fam, tt, qt)
                e = cell_symbol(nc)
                CA = cells_arr("X", nc, tt)
                site = c.fn_site(FESP)
                cell = c.I.lib.getitem(c.attr(o, "fe_cell"), e, c.st, None)
                got = [c.as_arr(c.attr(cell, nm), nm) for nm in SECOND]
                st0, c.st = c.st, c.I.new_state()
                try:
                    w, xi, eta = quad(c, Q, qt)
                    b = basis(c, fam, N)
                    t = transf(c, tt, Arr((4, 2), lambda ix: CA.at(e, *ix), "float64"))
                    x, y, J = jacobian_terms(c, t)
                    ref = [c.alloc(table(c, b, nm, xi, eta)) for nm in ("gradxx", "gradxy", "gradyy")]
                    own = c.deref(c.meth(t, "get_orig_from_ref_second_derivative", *ref, c.alloc(xi), c.alloc(eta)))
                    own = [c.as_arr(z, nm) for z, nm in zip(own.items if isinstance(own, TupleV) else own.items(), SECOND)]
                finally:
                    c.st = st0
                k, q = idx("i", N) * N + idx("j", N), idx("a", Q) * Q + idx("b", Q)
                j = [at_pt(p, x, y, xi.at(q), eta.at(q)) for p in J]
                m = w.at(q) * absv(j[0] * j[3] - j[1] * j[2])
                names = ("xx", "xy", "yy")
                for g, z, nm in zip(got, (own[0], own[1], own[2]), names):
                    c.eq(f"second derivative {nm} carries w*|J| once", g.at(k, q), z.at(k, q) * m, site=site)
            guarded(c, f"{fam}/{tt}/{qt}, second derivatives", second, c.fn_site(FESP))


def C08(c):
    c.rule("load entry k of cell e = sum over q of (value table entry)*(forcing at the mapped point); the vector variant uses the requested component only; also after other queries on the same space (another component, the other variant, another cell, the same query)")
    combos = [("legendre", "affine", "gauss-legendre"), ("legendre_special", "bilinear", "gauss-jacobi")] if c.tier == "quick" else grid(c)
    for fam, tt, qt in combos:
        for mode in ("scalar", "vector", "constant"):
            for hist in ("", " after another space", " after other queries")[:1 if mode == "constant" else 3]:
                def body(fam=fam, tt=tt, qt=qt, mode=mode, hist=hist):
                    load_vector(c, fam, tt, qt, mode, hist)
                guarded(c, f"{mode} {fam}/{tt}/{qt}{hist}", body, c.fn_site(FESP))


def load_vector(c, fam, tt, qt, mode, hist):
    c.scenario(f"{mode} {fam}/{tt}/{qt}{hist}")
    f = UserFn("f", mode)
    if mode == "constant":
        # a right-hand side that does not depend on the position may come as plain numbers
        consts = [real("f_const0"), real("f_const1")]
        f = UserFn("f", handler=lambda L, a, kw, st, n: L.I.alloc(st, ListC([("item", v) for v in consts])))
    N, Q, nc = order(), qorder(), nat("nc")
    if "space" in hist:
        other_space(c, fam, tt, qt, N, Q, nc)
    o, N, Q, nc = fespace(c, fam, tt, qt, N, Q, nc, forcing=f)
    e = cell_symbol(nc)
    ncomp = nat("ncomp")
    vec = "get_forcing_function_values_vector"
    if "queries" in hist:
        for cell in (cell_symbol(nc), e):
            if mode == "vector":
                c.meth(o, vec, cell, idx("other_comp", ncomp))
            else:
                # a space may serve both variants: the forcing's values broadcast in the vector variant
                c.meth(o, "get_forcing_function_values", cell)
            for m in ACCESSORS[:-1]:
                c.meth(o, m, cell)
    vals = c.as_arr(c.meth(o, "get_shape_function_val", e), "values")
    xy = c.as_arr(c.meth(o, "get_quadrature_actual_coordinates", e), "coords")
    k = idx("k", N * N)
    q = fresh("q", ZERO, Q * Q - 1)
    X, Y = xy.at(P(q), 0), xy.at(P(q), 1)
    if mode == "scalar":
        site = c.fn_site(FESP, "get_forcing_function_values")
        r = c.meth(o, "get_forcing_function_values", e)
        fv = P(atom("app", "f", X, Y))
    else:
        site = c.fn_site(FESP, vec)
        comp = idx("comp", ncomp) if mode == "vector" else ONE
        r = c.meth(o, vec, e, comp)
        fv = user_component(c, f, X, Y, comp) if mode == "vector" else consts[1]
    c.alive("load vector computed", site)
    a = c.as_arr(r, "load vector")
    c.shape("load vector shape", a, (N * N, 1), site)
    want = mk_sum(q, Q * Q, vals.at(k, P(q)) * fv)
    c.eq("load[k] = sum_q values[k,q] * f(x_q,y_q)", a.at(k, 0), want, site=site)


def user_component(c, f, x, y, comp):
    r = c.I.call(f, [x, y], {}, None, c.st)
    v = c.I.lib.getitem(r, comp, c.st, None)
    v = c.deref(v) if isinstance(v, Ref) else v
    return v.at(*[ZERO] * v.ndim) if isinstance(v, Arr) else P(v)


ACCESSORS = ("get_shape_function_val", "get_shape_function_grad_x", "get_shape_function_grad_x_ref", "get_shape_function_grad_y", "get_shape_function_grad_y_ref", "get_quadrature_actual_coordinates", "get_quadrature_weights", "get_forcing_function_values")


def reach_ids(c, v, seen=None, depth=0):
    """heap cells reachable from a value"""
    seen = set() if seen is None else seen
    st = c.st
    if isinstance(v, Ref):
        if v.id in seen:
            return seen
        seen.add(v.id)
        x = v.id
        while x in c.I.origin:  # per-iteration instances: the loop's template object is the same state
            x = c.I.origin[x]
            seen.add(x)
        cont = st.heap.get(v.id)
        if isinstance(cont, ViewC):
            reach_ids(c, Ref(cont.base), seen)
        elif isinstance(cont, InstC):
            for x in cont.attrs.values():
                reach_ids(c, x, seen)
        elif isinstance(cont, ListC):
            for s in cont.segs:
                reach_segs(c, s, seen)
        elif isinstance(cont, DictC):
            for _, x in cont.entries:
                reach_ids(c, x, seen)
    elif isinstance(v, TupleV):
        for x in v.items:
            reach_ids(c, x, seen)
    elif isinstance(v, ChoiceV):
        reach_ids(c, v.a, seen)
        reach_ids(c, v.b, seen)
    return seen


def reach_segs(c, s, seen):
    if s[0] == "item":
        reach_ids(c, s[1], seen)
    elif s[0] == "comp":
        for y in s[3]:
            reach_segs(c, y, seen)


def C09(c):
    c.rule("for cell_index outside [0, n_cells) every accessor's only exit is raise ValueError; inside, it returns; the returned array is not (a view of) any array reachable from the space object")
    for mode in ("scalar", "vector"):
        def body(mode=mode):
            c.scenario(f"index {mode}")
            o, N, Q, nc = fespace(c, forcing=UserFn("f", mode))
            names = [(m, ()) for m in ACCESSORS if mode == "scalar" or m != "get_forcing_function_values"]
            if mode == "vector":
                names = [("get_forcing_function_values_vector", (ZERO,))]
            st0 = c.st
            for meth, extra in names:
                site = c.fn_site(FESP, meth)
                hi = sym("over", ZERO, None, True)
                for nm, ix in (("index = n_cells", nc), ("index > n_cells", nc + 1 + hi), ("index = -1", const(-1)), ("index < -1", -2 - hi)):
                    c.st = st0.clone()
                    c.meth(o, meth, ix, *extra)
                    exc = c.raised()
                    c.record(f"{meth}({nm}) rejected", bool(c.st.dead == "raise" and exc and exc[-1] == "ValueError"), f"index accepted or raised {exc[-1:]}", site)
                c.st = st0.clone()
                r = c.meth(o, meth, cell_symbol(nc), *extra)
                ok = not c.st.dead
                c.record(f"{meth}(valid) returns", ok, "raises for a valid cell index", site)
                if ok and isinstance(r, Ref):
                    rr = reach_ids(c, r)
                    oo = reach_ids(c, o)
                    c.record(f"{meth} returns a fresh array", not (rr & oo), "the returned array aliases state of the space", site)
                elif ok and isinstance(r, ChoiceV):
                    while isinstance(r, ChoiceV):
                        for leaf, cond in ((r.a, r.c), (r.b, cnot(r.c))):
                            if isinstance(leaf, ChoiceV):
                                continue
                            shared = isinstance(leaf, Ref) and bool(reach_ids(c, leaf) & reach_ids(c, o))
                            if shared:
                                c.holds(f"{meth} returns a fresh array", cnot(cond), site=site, why="the returned array aliases state of the space;")
                            else:
                                c.record(f"{meth} returns a fresh array", True if isinstance(leaf, (Ref, Arr)) else None, f"returned {leaf!r}", site)
                        r = r.b if isinstance(r.b, ChoiceV) else r.a
                elif ok:
                    c.record(f"{meth} returns a fresh array", True if isinstance(r, Arr) else None, f"returned {r!r}", site)
                # repeated queries are idempotent
                if ok:
                    a1 = c.as_arr(r, meth)
                    e2 = cell_symbol(nc)
                    r1 = c.as_arr(c.meth(o, meth, e2, *extra), meth)
                    r2 = c.as_arr(c.meth(o, meth, e2, *extra), meth)
                    ixs = [idx("z", d) for d in r1.shape]
                    c.eq(f"{meth} is idempotent", r2.at(*ixs), r1.at(*ixs), site=site)
                    h1, h2 = c.meth(o, meth, e2, *extra), c.meth(o, meth, e2, *extra)
                    if isinstance(h1, Ref) and isinstance(h2, Ref):
                        c.record(f"{meth} returns a fresh array on every call", not (reach_ids(c, h1) & reach_ids(c, h2)), "two calls hand out the same array", site)
            c.st = st0
        guarded(c, f"index {mode}", body, c.fn_site(FESP))
