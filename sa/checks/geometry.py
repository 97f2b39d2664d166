"""C18-C20, C30, C31: meshes, boundary points, visualisation output, test points."""
import re
from ..scen import *
from .fe import *
from .data import random_affine, skey

GEO = "fastvpinns.Geometry.geometry_2d:Geometry_2D"


def geometry(c, method="internal", **kw):
    a, b = nat("ntx", 2), nat("nty", 2)
    g = c.call(GEO, c.s("quadrilateral"), c.s(method), a, b, StrV([("out",)]), **kw)
    if c.st.dead:
        c.alive("geometry object constructed", c.fn_site(GEO, "__init__"))
        raise Undecided("constructor raises")
    return g, a, b


def rectangle(ints=False, tag=""):
    """x0, x0+lx, y0, y0+ly with positive extents"""
    if ints:
        x0, y0 = sym("ix0", None, None, True), sym("iy0", None, None, True)
        return x0, x0 + nat("ilx"), y0, y0 + nat("ily")
    if tag:
        x0, y0 = sym("x0" + tag), sym("y0" + tag)
        return x0, x0 + sym("lx" + tag, Fraction(1, 8), None), y0, y0 + sym("ly" + tag, Fraction(1, 8), None)
    x0, y0 = sym("x0"), sym("y0")
    return x0, x0 + sym("lx", Fraction(1, 8), None), y0, y0 + sym("ly", Fraction(1, 8), None)


def internal(c, nbd=None, seq="tuple", ints=False, again=None, **kw):
    if again is None:
        g, a, b = geometry(c, "internal", **kw)
        x0, x1, y0, y1 = rectangle(ints)
        nx, ny = nat("ncx"), nat("ncy")
    else:
        # another mesh made with the same object
        g, a, b = again
        x0, x1, y0, y1 = rectangle(ints, "n")
        nx, ny = nat("ncxn"), nat("ncyn")
    nb = nbd if nbd is not None else nat("nbd", 4)
    pair = (lambda u, v: TupleV([u, v])) if seq == "tuple" else (lambda u, v: c.lst([u, v]))
    r = c.meth(g, "generate_quad_mesh_internal", pair(x0, x1), pair(y0, y1), nx, ny, nb)
    if not c.alive("mesh generation completes", c.fn_site(GEO, "generate_quad_mesh_internal")):
        raise Undecided("mesh generation raises")
    r = c.deref(r)
    items = r.items if isinstance(r, TupleV) else (r.items() if isinstance(r, ListC) else None)
    if not items or len(items) != 2:
        raise Undecided(f"mesh generation returns {r!r}")
    return g, (x0, x1, y0, y1), (nx, ny, nb), (a, b), items


# ------------------------------------------------------------------ C18
def C18(c):
    c.rule("cell i*ny+j has, in counter-clockwise order, the corners of [x_i,x_i+1]x[y_j,y_j+1] of the uniform grid; count nx*ny; stored mesh object: point 4e+k is corner k of cell e, quad e = (4e..4e+3) as integers")
    site = c.fn_site(GEO, "generate_quad_mesh_internal")

    for opt in ((False, "tuple"), (True, "list"), (False, "tuple", "whole"), (False, "tuple", "again")):
        def body(opt=opt):
            c.scenario(f"internal mesh, is_optimized={opt[0]}, limits as {opt[1]}" + {"whole": " of whole numbers", "again": ", generated a second time"}.get(opt[-1], ""))
            if opt[-1] == "again":
                g, _, _, ab, _ = internal(c, is_optimized=opt[0], seq=opt[1])
                g, (x0, x1, y0, y1), (nx, ny, nb), _, items = internal(c, is_optimized=opt[0], seq=opt[1], again=(g,) + ab)
            else:
                g, (x0, x1, y0, y1), (nx, ny, nb), _, items = internal(c, is_optimized=opt[0], seq=opt[1], ints=opt[-1] == "whole")
            cells = c.as_arr(items[0], "cells")
            c.shape("cell array shape", cells, (nx * ny, 4, 2), site)
            c.record("cell coordinates in double precision", cells.dt == "float64", f"dtype {cells.dt}", site)
            i, j = idx("i", nx), idx("j", ny)
            X = lambda k: x0 + (x1 - x0) * k * inv(nx)
            Y = lambda k: y0 + (y1 - y0) * k * inv(ny)
            e = i * ny + j
            corner = [(X(i), Y(j)), (X(i + 1), Y(j)), (X(i + 1), Y(j + 1)), (X(i), Y(j + 1))]
            # counter-clockwise order may start anywhere
            rot = 0
            for r in range(4):
                if all(teval.decide_zero(cells.at(e, const(k), const(d)) - corner[(k + r) % 4][d])[0] is True for k in range(4) for d in (0, 1)):
                    rot = r
                    break
            for k in range(4):
                for d in (0, 1):
                    c.eq(f"corner {k} coordinate {d}", cells.at(e, const(k), const(d)), corner[(k + rot) % 4][d], site=site)
            # attribute kept by the object and the value returned agree
            cp = c.as_arr(c.attr(g, "cell_points"), "cell_points")
            kk, dd = idx("k", 4), idx("d", 2)
            z = idx("e", nx * ny)
            c.eq("stored cell_points equal the returned cells", cp.at(z, kk, dd), cells.at(z, kk, dd), site=site)
            # mesh object
            m = c.deref(c.attr(g, "mesh"))
            if not (isinstance(m, LibObj) and m.kind == "mesh"):
                raise Undecided(f"mesh attribute {m!r}")
            pts = c.as_arr(m.f.get("points"), "mesh points")
            cin = c.deref(m.f.get("cells_in"))
            q = None
            if isinstance(cin, ListC) and cin.items() and len(cin.items()) == 1:
                t = c.deref(cin.items()[0])
                t = t.items if isinstance(t, TupleV) else t.items() if isinstance(t, ListC) else None
                if t and len(t) == 2 and isinstance(t[0], StrV):
                    c.record("connectivity block is of quadrilaterals", t[0].concrete() == "quad", f"block type {t[0]!r}", site)
                    q = c.as_arr(t[1], "connectivity")
            elif isinstance(cin, DictC) and len(cin.entries) == 1:
                c.record("connectivity block is of quadrilaterals", skey(cin.entries[0][0]) == "quad", f"block type {cin.entries[0][0]!r}", site)
                q = c.as_arr(cin.entries[0][1], "connectivity")
            if q is None:
                raise Undecided("connectivity of the stored mesh not recognised")
            c.shape("connectivity shape", q, (nx * ny, 4), site)
            c.record("connectivity is of integer type", q.dt in ("int64", "int32"), f"dtype {q.dt}: coordinates used as node numbers", site)
            if q.dt in ("int64", "int32") and q.ndim == 2 and pts.ndim == 2:
                for d in (0, 1):
                    c.eq(f"mesh point of corner k of cell e, coordinate {d}", pts.at(q.at(z, kk), const(d)), cells.at(z, kk, const(d)), site=site)
        guarded(c, f"internal mesh {opt}", body, site)


# ------------------------------------------------------------------ C19
def C19(c):
    c.rule("boundary ids 1000 bottom, 1001 right, 1002 top, 1003 left; floor(n/4) points each; the normal coordinate is the edge's, the tangential one an affine image of one fresh uniform number covering the whole edge")
    site = c.fn_site(GEO, "generate_quad_mesh_internal")

    def body(kind=""):
        c.scenario("internal boundary points" + {"whole": ", limits of whole numbers", "again": ", a second mesh"}.get(kind, ""))
        n4, rem = nat("n4"), sym("rem", ZERO, const(3), True)
        g, (x0, x1, y0, y1), (nx, ny, nb), ab, items = internal(c, nbd=4 * n4 + rem, ints=kind == "whole")
        if kind == "again":
            n4, rem = nat("n4n"), sym("remn", ZERO, const(3), True)
            g, (x0, x1, y0, y1), (nx, ny, nb), _, items = internal(c, nbd=4 * n4 + rem, again=(g,) + ab)
        bd = c.deref(items[1])
        if not isinstance(bd, DictC) or bd.base is not None:
            raise Undecided(f"boundary data {bd!r}")
        spec = {1000: (1, y0, 0, x0, x1), 1001: (0, x1, 1, y0, y1), 1002: (1, y1, 0, x0, x1), 1003: (0, x0, 1, y0, y1)}
        got = {}
        for k, v in bd.entries:
            p = k if isinstance(k, Poly) else None
            got[int(p.const()) if p is not None and p.is_const() else str(k)] = v
        c.record("boundary ids are exactly 1000..1003", sorted(map(str, got)) == sorted(map(str, spec)), f"ids {sorted(map(str, got))}", site)
        used = set()
        for k, (nd, nv, td, lo, hi) in spec.items():
            if k not in got:
                continue
            a = c.as_arr(got[k], f"boundary {k}")
            c.shape(f"boundary {k}: floor(n/4) points in the plane", a, (n4, 2), site)
            r = idx("r", n4)
            c.eq(f"boundary {k}: fixed coordinate", a.at(r, const(nd)), nv, site=site)
            t = a.at(r, const(td))
            at = random_affine(c, f"boundary {k}: sampled coordinate covers the edge", t, lo, hi, site)
            if at is not None:
                fam = at.args[:-1]
                c.record(f"boundary {k}: one independent random number per point", (r.single_atom() is None or r.single_atom() in P(at).free()) and fam not in used,
                         f"random number {at} does not vary per point or is shared with another edge", site)
                used.add(fam)
        st_bd = c.deref(c.attr(g, "bd_dict"))
        c.record("stored boundary data is the returned one", st_bd is bd, "bd_dict differs from the returned mapping", site)
    for kind in ("", "whole", "again"):
        guarded(c, f"internal boundary points {kind}".strip(), lambda kind=kind: body(kind), site)


# ------------------------------------------------------------------ C20
def turns_left(src, got, trials=24):
    """(verdict, detail): for four points src in convex position, got lists the same points counter-clockwise"""
    def area2(a, b, d):
        return (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])
    done = 0
    for seed in range(trials * 6):
        tr = teval.Trial(("ccw", seed))
        try:
            S = [[tr.poly(P(x)) for x in v] for v in src]
            order = sorted(range(4), key=lambda i: __import__("math").atan2(float(S[i][1] - sum(s[1] for s in S) / 4), float(S[i][0] - sum(s[0] for s in S) / 4)))
            if any(area2(S[order[i]], S[order[(i + 1) % 4]], S[order[(i + 2) % 4]]) <= 0 for i in range(4)):
                continue
            G = [[tr.poly(P(x)) for x in v] for v in got]
        except teval.Infeasible:
            continue
        except (teval.Undecided, OverflowError, ZeroDivisionError, RecursionError) as ex:
            return None, f"undecided: {ex}"[:200]
        if tr.uncertain:
            return None, "undecided: a value without summary"
        want = [S[i] for i in order]
        near = lambda a, b: all(abs(float(x - y)) <= 1e-9 * (1 + abs(float(y))) for x, y in zip(a, b))
        if not any(all(near(G[k], want[(k + r) % 4]) for k in range(4)) for r in range(4)):
            return False, f"vertices {[[round(float(x), 3) for x in v] for v in S]} are listed as {[[round(float(x), 3) for x in v] for v in G]}"
        done += 1
        if done >= trials:
            break
    return (True, "") if done >= 4 else (None, "undecided: no convex cell sampled")


def C20(c):
    c.rule("cell e is the e-th quadrilateral with vertices sorted counter-clockwise about its centroid; every line element contributes 2^level+1 points of its own segment to the group of its own tag, groups keep all contributions (duplicates may be merged)")
    site = c.fn_site(GEO, "read_mesh")
    for samp, again in (("uniform", False), ("lhs", False), ("uniform", True)):
        def body(samp=samp, again=again):
            c.scenario(f"external mesh, {samp} sampling" + (", read after another mesh" if again else ""))
            g, _, _ = geometry(c, "external")
            lev = nat("lev", 0)
            path = StrV([("mesh",), ".mesh"])
            if again:
                c.meth(g, "read_mesh", StrV([("mesh0",), ".mesh"]), nat("lev0", 0), c.s(samp), nat("ref0", 0))
            r = c.deref(c.meth(g, "read_mesh", path, lev, c.s(samp), nat("ref", 0)))
            if not c.alive("mesh reading completes", site):
                return
            items = r.items if isinstance(r, TupleV) else (r.items() if isinstance(r, ListC) else None)
            if not items or len(items) != 2:
                raise Undecided(f"returns {r!r}")
            rd = [e for e in c.events("mesh_read")]
            c.record("the given file is the one read", any(e.data["path"] == path for e in rd), f"reads {[str(e.data['path']) for e in rd]}", site)
            key = ("meshfile", path.parts)

            def mk(kind, *a):
                t = atom(kind, key, *a)
                return t
            nq, nl = P(atom("len", (key, "quad"))), P(atom("len", (key, "line")))
            cells = c.as_arr(items[0], "cells")
            c.shape("cell array shape", cells, (nq, 4, 2), site)
            e = idx("e", nq)

            def pt(nm, el, v, d):
                t = mk("conn", nm, el, P(v))
                INTS.add(t)
                return P(mk("meshpt", P(t), P(d)))
            cen = [sum((pt("quad", e, const(k), const(d)) for k in range(4)), ZERO) * Fraction(1, 4) for d in (0, 1)]
            w = fresh("w", ZERO, const(3))
            body_ = mk_fn("arctan2", pt("quad", e, P(w), ONE) - cen[1], pt("quad", e, P(w), ZERO) - cen[0])
            got = [[cells.at(e, const(k), const(d)) for d in (0, 1)] for k in range(4)]
            want = [[pt("quad", e, mk_argsort(w, const(4), body_, const(k)), const(d)) for d in (0, 1)] for k in range(4)]
            if all(teval.decide_zero(P(got[k][d]) - P(want[k][d]))[0] is True for k in range(4) for d in (0, 1)):
                for k in range(4):
                    for d in (0, 1):
                        c.record(f"vertex {k} coordinate {d} (counter-clockwise order)", True)
            else:
                src = [[pt("quad", e, const(k), const(d)) for d in (0, 1)] for k in range(4)]
                v, why = turns_left(src, got)
                c.record("the cell's own vertices in counter-clockwise order", v, why, site)
            cp = c.as_arr(c.attr(g, "cell_points"), "cell_points")
            kk, dd = idx("k", 4), idx("d", 2)
            c.eq("stored cell_points equal the returned cells", cp.at(e, kk, dd), cells.at(e, kk, dd), site=site)
            # boundary groups
            bd = c.deref(items[1])
            if not isinstance(bd, DictC) or bd.entries or not isinstance(bd.base, OpaqueDict):
                raise Undecided(f"boundary mapping {bd!r}")
            c.record("earlier contributions to a boundary group are kept", not str(bd.base.key).startswith("('group-overwritten"),
                     "a line element replaces the points gathered so far for its tag", site)
            kp = P(fresh("tag"))
            v = c.I.instantiate(bd.over[-1][2], {bd.over[-1][1]: kp}, c.st) if bd.over else bd.base.value_of(kp)
            v = c.deref(v)
            G = v.extra.get("group") if isinstance(v, Arr) else None
            if G is None:
                raise Undecided(f"boundary group {v!r}")
            G, kk_ = G
            c.eq("group is looked up under its own tag", kk_, kp, site=site)
            i = P(G.i)
            tag = mk("celltag", "line", i)
            INTS.add(tag)
            c.eq("points are filed under the tag of their own line element", G.key, P(tag), site=site)
            c.eq("every line element contributes", G.count, nl, site=site)
            c.record("one block of points per line element", len(G.parts) == 1, f"{len(G.parts)} blocks", site)
            p = G.parts[0]
            npt = mk_pow2(c, lev) + 1
            c.eq("number of points per line element", p.shape[0], npt, site=site)
            if p.ndim != 2:
                raise Undecided("points are not rows of coordinates")
            j = idx("j", p.shape[0])
            A = [pt("line", i, ZERO, const(d)) for d in (0, 1)]
            B = [pt("line", i, ONE, const(d)) for d in (0, 1)]
            xy = [p.at(j, const(d)) for d in (0, 1)]
            if samp == "uniform":
                for d in (0, 1):
                    c.eq(f"equally spaced points of the element, coordinate {d}", xy[d], A[d] + (B[d] - A[d]) * j * inv(npt - 1), site=site)
            else:
                c.eq("sampled points lie on the line through the element", (xy[0] - A[0]) * (B[1] - A[1]), (xy[1] - A[1]) * (B[0] - A[0]), site=site)
                for d in (0, 1):
                    at = random_affine(c, f"sampled points cover the element, coordinate {d}", xy[d], A[d], B[d], site)
                    if at is not None:
                        c.record(f"one random number per point, coordinate {d}", (j.single_atom() is None or j.single_atom() in P(at).free()), f"{at}", site)
            st_bd = c.deref(c.attr(g, "bd_dict"))
            c.record("stored boundary data is the returned one", st_bd is bd, "bd_dict differs from the returned mapping", site)
        guarded(c, f"external mesh {samp}" + (" again" if again else ""), body, site)


def mk_pow2(c, lev):
    """2**lev as the engine writes it"""
    return P(c.I.lib.num(c.I.lib.call_lib("builtins.pow", [const(2), lev], {}, c.st, None), c.st))


# ------------------------------------------------------------------ C31
def C31(c):
    c.rule("internal: row b*nx+a is (a-th of nx equally spaced x, b-th of ny equally spaced y), inclusive of both ends; external: the first two coordinates, in order, of the points of the visualisation mesh written for the same input")
    site = c.fn_site(GEO, "get_test_points")

    def body(kind=""):
        c.scenario("internal" + {"whole": ", limits of whole numbers", "again": ", a second mesh"}.get(kind, ""))
        g, (x0, x1, y0, y1), _, (nx, ny), _ = internal(c, ints=kind == "whole")
        if kind == "again":
            c.meth(g, "get_test_points")
            g, (x0, x1, y0, y1), _, _, _ = internal(c, again=(g, nx, ny))
        t = c.as_arr(c.meth(g, "get_test_points"), "test points")
        c.shape("number of points", t, (nx * ny, 2), site)
        a, b = idx("a", nx), idx("b", ny)
        c.eq("x of grid point", t.at(b * nx + a, ZERO), x0 + (x1 - x0) * a * inv(nx - 1), site=site)
        c.eq("y of grid point", t.at(b * nx + a, ONE), y0 + (y1 - y0) * b * inv(ny - 1), site=site)
        # asking again gives the same points
        t2 = c.as_arr(c.meth(g, "get_test_points"), "test points")
        r, d = idx("r", nx * ny), idx("d", 2)
        c.eq("a second request returns the same points", t2.at(r, d), t.at(r, d), site=site)
    guarded(c, "internal", body, site)
    for kind in ("whole", "again"):
        guarded(c, f"internal {kind}", lambda kind=kind: body(kind), site)

    def body(again=False):
        c.scenario("external" + (", a second mesh" if again else ""))
        g, _, _ = geometry(c, "external")
        path = StrV([("mesh",), ".mesh"])
        if again:
            c.meth(g, "read_mesh", StrV([("mesh0",), ".mesh"]), nat("lev0", 0), c.s("uniform"), nat("ref0", 0))
            c.meth(g, "get_test_points")
        c.meth(g, "read_mesh", path, nat("lev", 0), c.s("uniform"), nat("ref", 0))
        if not c.alive("mesh reading completes", site):
            return
        n0 = len(c.st.events)
        t = c.as_arr(c.meth(g, "get_test_points"), "test points")
        wr = [e for e in c.events("write_path") if "mesh" in e.data]
        rd = [e for e in c.st.events[n0:] if e.kind == "mesh_read"]
        c.record("one mesh file is read", len(rd) == 1, f"{len(rd)} reads", site)
        if len(rd) == 1:
            src = rd[0].data["path"]
            m = [e for e in wr if e.data["path"] == src]
            c.record("the points come from the visualisation mesh written for this input", bool(m), f"read {src}, written {[str(e.data['path']) for e in wr]}", site)
            for e in m[-1:]:
                k = e.data["mesh"].f.get("__key__") if isinstance(e.data["mesh"], LibObj) else None
                c.record("the visualisation mesh is a copy of the input mesh", k == ("meshfile", path.parts), f"mesh {k}", site)
            key = ("meshfile", src.parts)
            np_ = P(atom("len", (key, "points")))
            c.shape("all points, two coordinates", t, (np_, 2), site)
            r = idx("r", np_)
            for d in (0, 1):
                c.eq(f"coordinate {d}", t.at(r, const(d)), P(atom("meshpt", key, r, const(d))), site=site)
    guarded(c, "external", body, site)
    guarded(c, "external again", lambda: body(True), site)


# ------------------------------------------------------------------ C30
def C30(c):
    c.rule("after a matching check of names and columns, the output file is: the template's lines up to and including POINT_DATA, then per column in order a SCALARS header with that column's name, a lookup-table line, the column's values, a separator; mismatch raises before the output is touched; the template covers the domain")
    site = c.fn_site(GEO, "write_vtk")
    for method in ("internal", "external"):
        def body(method=method):
            c.scenario(method)
            if method == "internal":
                g, (x0, x1, y0, y1), _, _, _ = internal(c)
                template_rect(c, x0, x1, y0, y1)
                n_before = 0
            else:
                g, _, _ = geometry(c, "external")
                c.meth(g, "read_mesh", StrV([("mesh",), ".mesh"]), nat("lev", 0), c.s("uniform"), nat("ref", 0))
            written = [e.data["path"] for e in c.events("write_path")]
            npt, nc, nn = nat("npts"), nat("ncol"), nat("nnames")
            sol = c.arr("sol", (npt, nc))
            names = OpaqueSeq("names", nn, lambda i: StrV([("name", P(i))]))
            outp, fn = StrV([("outp",)]), StrV([("fn",)])
            n0 = len(c.st.events)
            c.meth(g, "write_vtk", sol, outp, fn, names)
            ev = c.st.events[n0:]
            raises = [e for e in ev if e.kind == "raise"]
            opens = [e for e in ev if e.kind == "open_file"]
            # mismatch
            mism = cnot(ceq(nc - nn))
            ok = [e for e in raises if str(e.data.get("exc")).endswith("ValueError") and pc_is(e.pc, mism)]
            c.record("a name/column mismatch raises ValueError", len(ok) >= 1, f"raises {[(e.data.get('exc'), [str(x) for x in e.pc]) for e in raises]}", site)
            c.record("nothing else raises", len(raises) == len(ok), f"{[str(e.data.get('exc')) for e in raises if e not in ok]}", raises[0].site if raises else site)
            outs = [e for e in opens if not c.mode_read(e)] if hasattr(c, "mode_read") else [e for e in opens if mode_of(e) not in ("r", "rt")]
            ins = [e for e in opens if mode_of(e) in ("r", "rt")]
            want_out = [outp, fn]
            c.record("exactly one output file is opened", len(outs) == 1, f"{[str(e.data['path']) for e in outs]}", site)
            if len(outs) != 1:
                return
            o = outs[0]
            c.record("the output is truncated, not appended to", mode_of(o) in ("w", "wt"), f"mode {mode_of(o)}", o.site)
            c.record("output path is <output folder>/<file name>", path_parts(o.data["path"]) == [("outp",), "/", ("fn",)], f"path {o.data['path']}", o.site)
            c.record("the output is opened only when names and columns match", implies_pc(o.pc, cnot(mism)), f"opened under {[str(x) for x in o.pc]}", o.site)
            if not ins:
                c.record("the template read is the one generated for this mesh", None, "no file read recognised", site)
            else:
                c.record("the template read is the one generated for this mesh", len(ins) == 1 and ins[0].data["path"] in written,
                         f"reads {[str(e.data['path']) for e in ins]}, generated {[str(x) for x in written]}", ins[0].site if ins else site)
            ref = o.data["ref"]
            W = [e for e in ev if e.kind == "file_write" and e.data["ref"] == ref]
            base = tuple(o.pc)
            head = [e for e in W if is_line(e.data["value"], ins[0].data["ref"] if ins else None)]
            rest = [e for e in W if e not in head]
            if len(head) != 1 or head[0].loops is None:
                raise Undecided(f"copy of the template not recognised ({len(head)} line writes)")
            h = head[0]
            brk = [e for e in ev if e.kind == "break" and e.loops == h.loops]
            if not brk and "phi" in str(h.pc[len(base):]):
                raise Undecided(f"copying depends on state of earlier lines: {[str(x) for x in h.pc[len(base):]]}"[:200])
            c.record("template lines are copied unconditionally until the data section", tuple(h.pc) == base, f"written under {[str(x) for x in h.pc[len(base):]]}", h.site)
            if len(brk) == 1:
                b = brk[0]
                c.record("copying stops after the POINT_DATA line has been written", ev.index(b) > ev.index(h) and "POINT_DATA" in str(b.pc[-1]) and not neg(b.pc[-1]),
                         f"stops at {[str(x) for x in b.pc]}", b.site)
                more = [y for x in b.pc[len(base):] for y in (x.args if isinstance(x, Cond) and x.op == "and" else (x,)) if "POINT_DATA" not in str(y)]
                for y in more:
                    if isinstance(y, Cond) and y.op in ("le", "lt", "eq", "or", "not"):
                        c.holds("nothing else decides where copying stops", y, site=b.site)
                    else:
                        raise Undecided(f"copying stops only if {y}"[:200])
            elif not brk:
                c.record("copying stops at the data section", False, "every template line is copied, including its own data section", h.site)
            else:
                raise Undecided("several exits from the copy loop")
            # per-column block
            c.record("columns follow the template", all(ev.index(e) > ev.index(h) for e in rest), "data written before the template", site)
            blocks = [e for e in rest]
            nested = [e for e in blocks if len(e.loops) == 2]
            loops = {tuple(e.loops)[:1] if e in nested else tuple(e.loops) for e in blocks}
            if len(loops) != 1 or len(list(loops)[0]) != 1:
                raise Undecided("per-column output loop not recognised")
            (i, cnt), = list(loops)[0]
            c.eq("one block per column", cnt, nc, assume=[(ceq(nc - nn), True)], site=site)
            c.record("blocks are unconditional", all(tuple(e.pc) == base for e in blocks), f"conditions {[[str(x) for x in e.pc[len(base):]] for e in blocks]}", site)
            text, vals = [], []
            for e in blocks:
                v = e.data["value"]
                a = c.deref(v)
                if isinstance(a, Arr):
                    text.append(("VALUES",))
                    vals.append((a, e, None))
                elif isinstance(v, StrV) and e in nested:
                    # one line per value, written by a loop over the points
                    pt = [x for x in v.parts if not isinstance(x, str)]
                    if len(pt) != 1 or len([x for x in nested if x.loops == e.loops]) != 1 or list(v.parts) != [pt[0], "\n"]:
                        raise Undecided(f"written value {v!r}")
                    z, spec = pt[0], "r"
                    if z[0] == "fmt" and len(z) == 4:
                        spec, z = z[1], z[3]
                    if z[0] != "num":
                        raise Undecided(f"written value {v!r}")
                    r_, cnt_ = e.loops[1]
                    text.append(("VALUES",))
                    vals.append((Arr([cnt_], lambda ix, p_=P(z[1]), r_=r_: subst(p_, {r_: P(ix[0])}), "float64", "np"), e, "%" + spec.lstrip("%") if spec != "r" else "%r"))
                elif isinstance(v, StrV):
                    text += list(v.parts)
                else:
                    raise Undecided(f"written value {v!r}")
            txt = "".join(x if isinstance(x, str) else "\x00%s\x00" % ("V" if x == ("VALUES",) else "N" if x[0] == "name" else "?") for x in text)
            toks = txt.replace("\x00", " \x00 ").split()
            want = "SCALARS \x00 N \x00 float LOOKUP_TABLE default \x00 V \x00".split()
            c.record("block is: SCALARS <name> float / LOOKUP_TABLE default / values", toks == want and layout_ok(txt), f"block text {txt!r}", site)
            nm = [x for x in text if not isinstance(x, str) and x[0] == "name"]
            if len(nm) == 1:
                c.eq("block i carries the i-th name", nm[0][1], P(i), site=site)
            c.record("values of one column per block", len(vals) == 1, f"{len(vals)} arrays", site)
            for a, e, sfmt in vals[:1]:
                c.shape("all points written", a, (npt,), e.site)
                r = idx("r", npt)
                c.eq("block i carries the values of column i in point order", a.at(r), P(atom("in:sol", r, P(i))), site=e.site)
                if e.data.get("how") == "savetxt" or sfmt is not None:
                    fmt = e.data["kw"].get("fmt") if sfmt is None else StrV([sfmt])
                    fmt = fmt.concrete() if isinstance(fmt, StrV) else "%.18e" if fmt is None else None
                    mt = re.fullmatch(r"%[-+ 0#]*\d*(?:\.(\d+))?([a-zA-Z])", fmt or "")
                    dig = None
                    if mt:
                        k_, kind_ = int(mt.group(1) or 6), mt.group(2)
                        dig = {"e": k_ + 1, "g": max(k_, 1), "f": 0, "d": 0, "i": 0, "s": 17, "r": 17}.get(kind_.lower())
                    c.record("every value is written with single-precision accuracy or better", None if dig is None else dig >= 9,
                             f"format {fmt!r} keeps {'no fixed number of' if dig == 0 else dig} significant digits", e.site)
                    hd = [k_ for k_ in ("header", "footer") if sfmt is None and not (isinstance(e.data["kw"].get(k_), StrV) and e.data["kw"][k_].concrete() == "" or k_ not in e.data["kw"])]
                    c.record("only the values are written", not hd, f"{hd} added to the values", e.site)
            closed = [e for e in ev if e.kind == "close_file" and e.data["ref"] == ref]
            c.record("the output file is closed", bool(closed), "left open", o.site)
        guarded(c, method, body, site)


def layout_ok(txt):
    """SCALARS starts a line, the lookup line is its own line, values start on a new line"""
    return txt.startswith("SCALARS") and " float\nLOOKUP_TABLE default\n\x00V" in txt and txt.endswith("\n")


def mode_of(e):
    m = e.data.get("mode")
    if isinstance(m, StrV):
        m = m.concrete()
    return "r" if m is None else str(m)


def path_parts(p):
    return list(p.parts) if isinstance(p, StrV) else [p]


def neg(cond):
    return str(cond).startswith("not(")


def pc_is(pc, want):
    return any(x == want for x in pc)


def implies_pc(pc, want):
    return any(x == want for x in pc)


def is_line(v, ref):
    k = getattr(v, "key", None)
    if isinstance(v, StrV) and len(v.parts) == 2 and v.parts[1] == "\n" and isinstance(v.parts[0], tuple) and v.parts[0][0] == "bareline":
        return True
    if isinstance(v, StrV) and len(v.parts) == 1 and not isinstance(v.parts[0], str):
        k = v.parts[0]
    return isinstance(k, tuple) and k and k[0] == "line"


def template_rect(c, x0, x1, y0, y1):
    """the gmsh template is the rectangle whose sides carry the boundary ids"""
    site = c.fn_site(GEO, "generate_vtk_for_test")
    ev = [e for e in c.events("gmsh")]
    pts = [e for e in ev if e.data["fn"].split(".")[-1] in ("add_point", "addPoint")]
    if len(pts) != 4:
        raise Undecided("template geometry not recognised")
    want = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    ok = True
    for e, w in zip(pts, want):
        a = [c.I.lib.num(x, c.st) for x in e.data["args"][:3]]
        for got, ww in zip(a, (w[0], w[1], ZERO)):
            v, _ = teval.decide_zero(P(got) - ww)
            ok = ok and v is True
    c.record("template corners are the domain's corners in order", ok, f"{[[str(x) for x in e.data['args'][:2]] for e in pts]}", site)
