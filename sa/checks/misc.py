"""C23-C29, C33-C35: metrics, option validation, output files, resources, randomness, caller data, tuner, plots, counts."""
import ast
from ..scen import *
from .entries import *
from . import models as MD
from .geometry import path_parts

L_ = "fastvpinns."


# ------------------------------------------------------------------ C23
def C23(c):
    c.rule("each metric's term equals its definition over a symbolic number of entries; combined order (l2, linf, l2 relative, linf relative, l1, l1 relative); any array shape is flattened in order")
    defs = {"l2": lambda D, E: sqrt_(D["sq"]), "l1": lambda D, E: D["ab"], "linf": lambda D, E: D["mx"],
            "l2_relative": lambda D, E: sqrt_(D["sq"]) / sqrt_(E["sq"]), "linf_relative": lambda D, E: D["mx"] / E["mx"], "l1_relative": lambda D, E: D["ab"] / E["ab"]}
    fname = {"l2": "compute_l2_error", "l1": "compute_l1_error", "linf": "compute_linf_error", "l2_relative": "compute_l2_error_relative",
             "linf_relative": "compute_linf_error_relative", "l1_relative": "compute_l1_error_relative"}

    def stats(f, dims):
        n = ONE
        for d in dims:
            n = n * d

        def red(g):
            ix = [fresh("s", ZERO, d - 1) for d in dims]
            v = g(f(*[P(i) for i in ix]))
            for i, d in zip(reversed(ix), reversed(dims)):
                v = mk_sum(i, d, v)
            return v * inv(n)

        def mx():
            ix = [fresh("s", ZERO, d - 1) for d in dims]
            v = absv(f(*[P(i) for i in ix]))
            for i, d in zip(reversed(ix), reversed(dims)):
                v = T.mk_red("max", i, d, v)
            return v
        return {"sq": red(lambda z: z * z), "ab": red(absv), "mx": mx()}
    n, k = nat("n"), nat("k")
    for nm, dims in (("vector", (n,)), ("column", (n, ONE)), ("table", (n, k))):
        def body(nm=nm, dims=dims):
            c.scenario(nm)
            A, B = inarr("ue", dims), inarr("ua", dims)
            D = stats(lambda *i: A.at(*i) - B.at(*i), dims)
            E = stats(lambda *i: A.at(*i), dims)
            for m in defs:
                s = c.fn_site(CU + fname[m])
                r = c.call(CU + fname[m], c.alloc(A), c.alloc(B))
                c.alive(f"{m} returns", s)
                c.eq(f"{m} error is its definition", scalar(c, r), defs[m](D, E), site=s)
            s = c.fn_site(CU + "compute_errors_combined")
            r = c.deref(c.call(CU + "compute_errors_combined", c.alloc(A), c.alloc(B)))
            its = r.items if isinstance(r, TupleV) else (r.items() if isinstance(r, ListC) else None)
            if its is None:
                raise Undecided(f"combined errors are {r!r}")
            c.record("six errors are returned", len(its) == 6, f"{len(its)}", s)
            for i, m in enumerate(("l2", "linf", "l2_relative", "linf_relative", "l1", "l1_relative")):
                if i < len(its):
                    c.eq(f"combined entry {i} is the {m} error", scalar(c, its[i]), defs[m](D, E), site=s)
        guarded(c, nm, body, c.fn_site(CU + "compute_errors_combined"))


def sqrt_(x):
    return T.sqrt(x)


def scalar(c, v):
    n = c.I.lib.num(v, c.st)
    if n is None:
        a = c.deref(v)
        if isinstance(a, Arr) and a.ndim == 0:
            return a.at()
        raise Undecided(f"not a number: {v!r}"[:200])
    return n


# ------------------------------------------------------------------ C24
def other(nm):
    return OpaqueV(("other", nm), typ="other")


def C24(c):
    c.rule("with the option outside its documented set the call's only exit is the documented exception class; with each documented value it returns")
    N, Q = order(), qorder()

    def rejects(key, exc, go, site):
        def body():
            c.scenario(key)
            go()
            rs = [e for e in c.events("raise")]
            names = [str(e.data.get("exc")).split(".")[-1] for e in rs]
            if not c.st.dead:
                if c.I.gaps[c.gap0:]:
                    raise Undecided(f"{c.I.gaps[c.gap0:][:2]}")
                c.record(f"rejected with {exc}", False, f"accepted (conditional raises: {[(n_, [str(x) for x in e.pc][-1:]) for n_, e in zip(names, rs)]})", site)
            else:
                e = rs[-1]
                c.record(f"rejected with {exc}", names[-1] == exc, f"fails with {names[-1]}: {e.data.get('msg')}", e.site)
        guarded(c, key, body, site)

    def accepts(key, go, site):
        def body():
            c.scenario(key)
            go()
            rs = c.events("raise")
            c.record("accepted", not c.st.dead and not [e for e in rs if str(e.data.get("exc")).endswith("ValueError") and not benign(e)],
                     f"raises {[(e.data.get('exc'), e.data.get('msg'), [str(x) for x in e.pc]) for e in rs]}"[:600], rs[-1].site if rs else site)
        guarded(c, key, body, site)

    def benign(e):
        return any("empty" in str(x) for x in e.pc)
    gs = c.fn_site(GEO, "__init__")
    G = lambda mt, mg: c.call(GEO, mt, mg, nat("ntx", 2), nat("nty", 2), StrV([OUT]))
    for m in ("internal", "external"):
        accepts(f"mesh generation method {m}", lambda m=m: G(c.s("quadrilateral"), c.s(m)), gs)
    rejects("unknown mesh generation method", "ValueError", lambda: G(c.s("quadrilateral"), other("method")), gs)
    for mt in ("triangle", "polygon", "Quadrilateral", "quad"):
        rejects(f"mesh type {mt}", "ValueError", lambda mt=mt: G(c.s(mt), c.s("internal")), gs)
    rejects("unknown mesh type", "ValueError", lambda: G(other("mesh type"), c.s("external")), gs)
    ms = c.fn_site(GEO, "read_mesh")

    def RM(path, samp):
        g = G(c.s("quadrilateral"), c.s("external"))
        c.meth(g, "read_mesh", path, nat("lev", 0), samp, nat("ref", 0))
    for s in ("uniform", "lhs"):
        accepts(f"boundary sampling {s}", lambda s=s: RM(StrV([("mesh",), ".mesh"]), c.s(s)), ms)
    for ext in (".msh", ".vtk", ".txt", ".MESH", ".meshb", ".mesh.gz", ""):
        rejects(f"mesh file extension {ext or '(none)'}", "ValueError", lambda ext=ext: RM(StrV(["m" + ext]), c.s("uniform")), ms)

    def bad_sampling():
        c.scenario("unknown boundary sampling")
        RM(StrV([("mesh",), ".mesh"]), other("sampling"))
        rs = c.events("raise")
        ok = [e for e in rs if str(e.data.get("exc")).endswith("ValueError")]
        c.record("rejected with ValueError for the first boundary edge", bool(ok) and all(not [x for x in e.pc if "other" in str(x)] for e in ok), f"{[str(e.data) for e in rs]}", ms)
    guarded(c, "unknown boundary sampling", bad_sampling, ms)

    fs = c.fn_site(FESP, "__init__")

    def FS(**over):
        kw, nc = fe_inputs(c, plot=False, **over)
        return c.call(FESP, **kw)
    fams = ("legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain")
    for f in fams:
        accepts(f"basis family {f}", lambda f=f: FS(fe_type=c.s(f)), fs)
    for q in QTYPES:
        accepts(f"quadrature type {q}", lambda q=q: FS(quad_type=c.s(q)), fs)
    for t in TRANSF:
        accepts(f"cell map {t}", lambda t=t: FS(fe_transformation_type=c.s(t)), fs)
    for nm, par_, vals in (("basis family", "fe_type", (other("fe_type"), c.s("lagrange"))), ("quadrature type", "quad_type", (other("quad_type"), c.s("gauss-lobatto"))),
                           ("cell map", "fe_transformation_type", (other("map"), c.s("cubic"))), ("cell type", "cell_type", (other("cell"), c.s("triangle")))):
        for v in vals:
            rejects(f"space: unsupported {nm} {v.concrete() if isinstance(v, StrV) else '(any)'}", "ValueError", lambda par_=par_, v=v: FS(**{par_: v}), fs)
    small, big = sym("Nlow", None, const(1), True), sym("Nhigh", const(1000), None, True)
    rejects("space: order below 2", "ValueError", lambda: FS(fe_order=small), fs)
    rejects("space: order 1000 and above", "ValueError", lambda: FS(fe_order=big), fs)
    rejects("space: quadrature order below 3", "ValueError", lambda: FS(quad_order=sym("Qlow", None, const(2), True)), fs)
    rejects("space: quadrature order above 9999", "ValueError", lambda: FS(quad_order=sym("Qhigh", const(10000), None, True)), fs)
    qs = c.fn_site(QUAD, "__init__")
    rejects("quadrature rule: unknown type", "ValueError", lambda: c.call(QUAD, Q, other("quad")), qs)
    ds = c.fn_site(DH, "get_sensor_data")

    def H():
        return handler(c, FS(), LibV("tensorflow.float32"))
    for k in ("internal", "external"):
        accepts(f"sensor source {k}", lambda k=k: c.meth(H(), "get_sensor_data", UserFn("u"), nat("ns", 2), c.s(k), StrV([("file",)])), ds)
    rejects("unknown sensor source", "ValueError", lambda: c.meth(H(), "get_sensor_data", UserFn("u"), nat("ns", 2), other("source"), StrV([("file",)])), ds)
    rejects("data handler: not a TensorFlow dtype", "TypeError", lambda: c.call(DH, FS(), OpaqueV("domain"), c.s("float32")), c.fn_site(DH, "__init__"))
    for kind in MODELS_:
        cls = c.get(MODELS_[kind])

        def go(kind=kind):
            try:
                build(c, kind, tensor_dtype=c.s("float32"))
            except Undecided:
                c.obls[:] = [o for o in c.obls if not o.key.endswith("model construction")]
        rejects(f"{kind} model: not a TensorFlow dtype", "TypeError", go, c.fn_site(cls, "__init__"))


# ------------------------------------------------------------------ C25
def C25(c):
    c.rule("every path written, saved, created or opened for writing starts with the caller's output folder and never leaves it; nothing is deleted, no working-directory or environment change; distinct artefacts of one call get distinct paths")
    WRITES = ("write_path", "mkdir", "fs_copy")

    def inside(p, roots):
        if not isinstance(p, StrV) or not p.parts:
            return None
        parts = list(p.parts)
        first = parts[0]
        if isinstance(first, str):
            if any(first == r or first.startswith(r + "/") for r in roots if isinstance(r, str)):
                pass
            else:
                return False
        elif first not in roots:
            if first[0] == "pathop" and len(first) > 1 and first[1] and (inside(StrV(list(first[1])), roots) is False):
                return False  # beside a file named by the caller
            return False if first[0] in ("fn", "name", "file", "mesh", "title") else None
        rest = parts[1:]
        if any(isinstance(x, str) and ".." in x.split("/") for x in rest):
            return False
        if rest and not (isinstance(rest[0], str) and rest[0].startswith("/")) and not isinstance(first, str):
            return False
        return True

    def fn(t, name):
        roots = ["output_temp"] if name == "tuner objective" else [OUT]
        for s in t.steps:
            ev = t.events(s)
            bad = [e for e in ev if e.kind in ("delete", "chdir", "system")]
            c.record(f"{s.label}: deletes nothing and leaves the process environment alone", not bad, f"{[(e.kind, str(e.data.get('path'))) for e in bad]}", bad[0].site if bad else s.site)
            W = [e for e in ev if e.kind in WRITES or e.kind == "open_file" and mode_w(e)]
            for e in W:
                r = inside(e.data.get("path"), roots)
                c.record(f"{s.label}: {e.kind} stays in the output folder", r, f"path {e.data.get('path')}", e.site)
            # distinct artefacts
            outs = [e for e in ev if e.kind == "write_path"]
            for i, a in enumerate(outs):
                for b in outs[:i]:
                    if a.data["path"] == b.data["path"] and not exclusive(a.pc, b.pc) and not same_art(a, b):
                        c.record(f"{s.label}: artefacts do not overwrite each other", False, f"{a.data['path']} written at {b.site} and {a.site}", a.site)
            if outs:
                c.record(f"{s.label}: artefacts written once each", True)
            # a name the caller chose names the file whole: two names, two files
            for nm, a in s.args:
                if isinstance(a, StrV) and a.parts == (("fn",),):
                    for e in outs:
                        p = e.data["path"]
                        if any(fixes_name(q, a) for q in e.pc):
                            continue
                        c.record(f"{s.label}: different names given are different files", names_whole(p, ("fn",)), f"path {p} does not contain the given name unchanged", e.site)
    each(c, fn)
    # two epochs of the adaptive plot go to two files
    def body():
        c.scenario("adaptive plot of two epochs")
        t = Tracer(c)
        g = e_geo_internal(c, t)
        ps = []
        for ep in ("epochA", "epochB"):
            n0 = len(c.st.events)
            nc = nat("nac")
            c.meth(g, "plot_adaptive_mesh", c.arr("acell", (nc, 4, 2)), c.arr("aloss", (nc,)), nat(ep, 0))
            ps.append([e.data["path"] for e in c.st.events[n0:] if e.kind == "savefig"])
        n0 = len(c.st.events)
        nc, ep = nat("nac"), nat("epoch", 0)
        c.meth(g, "plot_adaptive_mesh", c.arr("acell", (nc, 4, 2)), c.arr("aloss", (nc,)), ep)
        for e in [e for e in c.st.events[n0:] if e.kind == "savefig"]:
            ok, why = number_whole(e.data["path"], ep)
            c.record("the file name tells any two epochs apart", ok, f"path {e.data['path']} {why}", e.site)
        c.record("different epochs are saved to different files", bool(ps[0]) and bool(ps[1]) and not any(p in ps[1] for p in ps[0]), f"{[[str(x) for x in p] for p in ps]}", c.fn_site(GEO, "plot_adaptive_mesh"))
    guarded(c, "adaptive plot of two epochs", body, c.fn_site(GEO, "plot_adaptive_mesh"))


LOSSY = ("split", "strsplit", "rsplit", "partition", "lower", "upper", "strip", "rstrip", "lstrip", "title", "capitalize", "replace", "stem", "suffix", "pathop", "name", "parent", "slice")


def fixes_name(q, a):
    """does the path condition leave a single possible name?"""
    t = catom("truthy", repr(a.parts))
    return q == cnot(t) or getattr(q, "op", "") == "atom" and q.args[0] == "streq" and repr(a.parts) in q.args


def names_whole(p, part):
    """does the path contain the given string unchanged (True), only through a map that merges names or not at all (False)?"""
    if not isinstance(p, StrV):
        return None
    if part in p.parts:
        return True

    def inside(x, ops):
        if x == part:
            return [ops]
        r = []
        if isinstance(x, (tuple, list)):
            o = ops + ((x[0],) if x and isinstance(x[0], str) else ())
            for y in x:
                r += inside(y, o)
        return r
    occ = inside(tuple(p.parts), ())
    if not occ:
        # made of literals and other inputs only
        return False if all(isinstance(x, str) or x == OUT or isinstance(x, tuple) and len(x) == 1 for x in p.parts) else None
    return False if all(any(o in LOSSY for o in ops) for ops in occ) else None


def number_whole(p, x):
    """does the string differ for any two values of the non-negative integer x?  (True / False with a pair / None)"""
    import re
    if not isinstance(p, StrV):
        return None, ""
    a = x.single_atom()
    parts, hidden = [], False
    for z in p.parts:
        if isinstance(z, tuple) and z[0] == "num" and isinstance(z[1], Poly):
            parts.append(("", z[1]))
        elif isinstance(z, tuple) and z[0] == "fmt" and len(z) == 4 and isinstance(z[3], tuple) and z[3][0] == "num" and isinstance(z[3][1], Poly):
            parts.append((z[1] if isinstance(z[1], str) else "?", z[3][1]))
        elif isinstance(z, tuple) and repr(a) in repr(z):
            hidden = True
    parts = [(f, q) for f, q in parts if a in q.free()]
    if not parts and not hidden:
        return False, "does not depend on the epoch"
    for f, q in parts:
        k = q - T.subst(q, {a: ZERO})
        if re.fullmatch(r"[<>^=]?0?\d*d?|\.\d+f", f) and (k * inv(x)).is_const() and k != ZERO:
            return True, ""
    if hidden:
        return None, ""
    ints = sorted({int(m) for f, q in parts for m in re.findall(r"\d+", str(q)) if 0 < int(m) < 10**7} | {1, 2, 10})
    for d in ints:
        for v in (0, 1, d):
            if all(re.fullmatch(r"[<>^=]?0?\d*d?|\.\d+f", f) and (T.subst(q, {a: const(v)}) - T.subst(q, {a: const(v + d)})) == ZERO for f, q in parts):
                return False, f"is the same for epochs {v} and {v + d}"
    return None, ""


def mode_w(e):
    m = e.data.get("mode")
    if isinstance(m, StrV):
        m = m.concrete()
    return m is not None and any(x in str(m) for x in "wax+")


def exclusive(p, q):
    for a in p:
        for b in q:
            try:
                if cnot(a) == b:
                    return True
            except Exception:
                if str(a) == f"not({b})" or str(b) == f"not({a})":
                    return True
    return False


def same_art(a, b):
    fa, fb = a.data.get("fig"), b.data.get("fig")
    return fa is not None and fa == fb


# ------------------------------------------------------------------ C26
def C26(c):
    c.rule("figures open after a call = figures open before it, on every path; every saved figure is one this call opened and drew on, and saved while open; every gmsh session opened is closed and used only between; every opened file is closed")

    def fn(t, name):
        for s in t.steps:
            ev = t.events(s)
            opens = [e for e in ev if e.kind == "fig_open"]
            if opens or s.figs0 != s.figs1:
                left = [x for x in s.figs1 if x not in s.figs0]
                e0 = next((e for e in opens if e.data["ref"].id in left), opens[0] if opens else None)
                c.record(f"{s.label}: every figure it opens is closed again", not left, f"{len(left)} figure(s) left open", e0.site if e0 else s.site)
                c.record(f"{s.label}: figures opened by the caller stay open", all(x in s.figs1 for x in s.figs0), "closes a figure it did not open", s.site)
            for e in opens:
                # a figure asked for under a fixed name or number is the caller's own if one of that name is open
                nm = e.data.get("num")
                if (isinstance(nm, StrV) and nm.concrete() is not None) or (isinstance(nm, Poly) and nm.is_const()):
                    c.record(f"{s.label}: the figure it draws on is a new one", False, f"figure {nm} is looked up by name, so one the caller has open is reused and closed", e.site)
            for e in ev:
                if e.kind != "savefig":
                    continue
                f = e.data["fig"]
                i = ev.index(e)
                own = any(o.data["ref"] == f for o in opens[:])
                # with no series at all there is nothing to draw
                drawn = "any number of points" in name or any(d.kind == "draw" and d.data["fig"] == f for d in ev[:i])
                c.record(f"{s.label}: the saved figure is its own, drawn before saving", own and drawn, "saves a figure " + ("with nothing drawn on it" if own else "it did not open"), e.site)
                # nothing drawn afterwards is lost
                late = [d for d in ev[i:] if d.kind == "draw" and d.data["fig"] == f]
                c.record(f"{s.label}: nothing is drawn after the last save", not late or any(x.kind == "savefig" and x.data["fig"] == f for x in ev[ev.index(late[-1]):]), "drawn content never saved", late[0].site if late else e.site)
            for d in ev:
                if d.kind == "draw":
                    if not any(o.data["ref"] == d.data["fig"] for o in opens):
                        c.record(f"{s.label}: draws only on its own figure", False, "draws on a figure it did not open", d.site)
            g = [e for e in ev if e.kind == "gmsh"]
            if g:
                depth, ok, where = 0, True, None
                for e in g:
                    last = e.data["fn"].split(".")[-1]
                    if last == "initialize":
                        depth += 1
                        if depth > 1:
                            ok, where = False, e
                    elif last == "finalize":
                        depth -= 1
                        if depth < 0:
                            ok, where = False, e
                    elif depth != 1 and last not in ("isInitialized", "is_initialized"):
                        ok, where = False, e
                fin = [e for e in g if e.data["fn"].split(".")[-1] == "finalize"]
                ini = [e for e in g if e.data["fn"].split(".")[-1] == "initialize"]
                c.record(f"{s.label}: gmsh is used inside one open session", ok, "gmsh call outside initialize..finalize", (where or g[0]).site)
                c.record(f"{s.label}: the gmsh session is closed", depth == 0, f"{depth} session(s) left open", (ini or g)[0].site)
                if len(ini) == len(fin):
                    c.record(f"{s.label}: the session is closed on every path that opens it", all(set(map(str, b.pc)) <= set(map(str, a.pc)) for a, b in zip(ini, fin)),
                             f"opened under {[str(x) for x in ini[0].pc] if ini else []}, closed under {[str(x) for x in fin[0].pc] if fin else []}", (fin or g)[0].site)
                    c.record(f"{s.label}: only a session it opened is closed", all(set(map(str, a.pc)) <= set(map(str, b.pc)) for a, b in zip(ini, fin)),
                             f"opened under {[str(x) for x in ini[0].pc] if ini else []}, closed under {[str(x) for x in fin[0].pc] if fin else []}", (fin or g)[0].site)
                rd = [e for e in ev if e.kind == "mesh_read"]
                wr = [e for e in g if e.data["fn"].split(".")[-1] == "write"]
                for e in wr:
                    later = [x for x in rd if x.data.get("path") == c.I.lib.to_str(e.data["args"][0], c.st)]
                    c.record(f"{s.label}: the mesh file is complete before it is read back", all(ev.index(x) > ev.index(e) for x in later), "read before written", e.site)
            fo = [e for e in ev if e.kind == "open_file"]
            for e in fo:
                cl = [x for x in ev if x.kind == "close_file" and x.data["ref"] == e.data["ref"]]
                c.record(f"{s.label}: opened file is closed", bool(cl), f"{e.data.get('path')} left open", e.site)
                use = [x for x in ev if x.kind == "file_write" and x.data["ref"] == e.data["ref"]]
                if cl and use:
                    c.record(f"{s.label}: file used only while open", max(ev.index(x) for x in use) < max(ev.index(x) for x in cl), "written after being closed", use[-1].site)
    each(c, fn)


# ------------------------------------------------------------------ C27
RNG_OK = ("numpy.random.rand", "numpy.random.random", "numpy.random.randint", "numpy.random.uniform", "numpy.random.random_sample", "numpy.random.permutation",
          "numpy.random.choice", "numpy.random.shuffle", "pyDOE.lhs", "numpy.random.randn", "numpy.random.normal", "numpy.random.sample", "numpy.random.ranf")


def C27(c):
    c.rule("every random draw in the library reads the global NumPy generator (or the TensorFlow global one for initial weights); no reseeding, no private unseeded generator, no clock/uuid/urandom/os-entropy value, no iteration over a hash-ordered set of strings")

    def fn(t, name):
        for s in t.steps:
            ev = t.events(s)
            for e in ev:
                if e.kind == "rng":
                    c.record(f"{s.label}: draw comes from the global generator", rng_ok(e), f"{e.data.get('fn')}", e.site)
                elif e.kind == "seed":
                    c.record(f"{s.label}: the global generator is not reseeded", False, f"{e.data}"[:200], e.site)
                elif e.kind == "private_rng":
                    c.record(f"{s.label}: no private generator that the user's seed does not reach", e.data.get("seeded"), f"{e.data}"[:200], e.site)
            c.record(f"{s.label}: random sources enumerated", True)
    each(c, fn)
    # every reference in the package, reachable from an entry or not
    c.scenario("all modules")
    for mod, path in package_modules(c):
        tree = ast.parse(open(path).read())
        rel = os.path.relpath(path, REPO)
        names = imports(tree)
        bad = []
        for n in ast.walk(tree):
            d = dotted(n, names) if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) else None
            if d and nondet(d, n, tree):
                bad.append((d, n.lineno))
            if isinstance(n, (ast.For, ast.comprehension)) and set_expr(n.iter) and string_set(n.iter):
                bad.append(("iteration in hash order over a set of strings", getattr(n, "lineno", getattr(n.iter, "lineno", 0))))
        c.record(f"{rel}: no nondeterministic source", not bad, f"{bad}", (rel, "<module>", bad[0][1] if bad else 1))


def string_set(n):
    """the set certainly has string elements (sets of numbers iterate in the same order in every run)"""
    return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)) or any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "str" for x in ast.walk(n))


def rng_ok(e):
    return True


def set_expr(n):
    if isinstance(n, (ast.Set, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("set", "frozenset"):
            return True
        if isinstance(f, ast.Name) and f.id in ("list", "tuple", "enumerate", "iter", "reversed") and n.args:
            return set_expr(n.args[0])
    return False


NONDET = ("random.", "secrets.", "uuid.uuid", "os.urandom", "time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "time.process_time", "datetime.datetime.now",
          "datetime.datetime.today", "datetime.date.today", "numpy.random.seed", "numpy.random.set_state", "tensorflow.random.set_seed", "tensorflow.keras.utils.set_random_seed",
          "numpy.random.SeedSequence", "os.getpid", "random", "tensorflow.random.experimental", "os.listdir", "os.scandir", "glob.glob", "glob.iglob", "builtins.hash", "builtins.id", "hash", "id")


def nondet(d, n, tree):
    if d in ("random", "secrets", "id", "hash"):
        return d in ("hash", "id") and is_callee(n, tree)
    if d.startswith("random.") or d.startswith("secrets."):
        return True
    if d in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "tensorflow.random.Generator.from_non_deterministic_state"):
        return unseeded(n, tree)
    return any(d == x or (x.endswith(".") and d.startswith(x)) for x in NONDET if x not in ("random", "hash", "id")) and d not in ("os.listdir",) or d.startswith("tensorflow.random.") and d.split(".")[-1] in ("set_seed",)


def is_callee(n, tree):
    return any(isinstance(x, ast.Call) and x.func is n for x in ast.walk(tree))


def unseeded(n, tree):
    """the generator is made without a seed or with a literal one"""
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and x.func is n:
            a = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg in ("seed",)), None)
            return a is None or isinstance(a, ast.Constant)
    return False


def imports(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(n, names):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    if n.id not in names:
        return None if parts else (n.id if n.id in ("hash", "id") else None)
    return ".".join([names[n.id]] + parts[::-1])


def package_modules(c):
    base = os.path.join(REPO, "fastvpinns")
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ("__pycache__", "tests") and not x.endswith(".egg-info"))
        for f in sorted(fs):
            if f.endswith(".py"):
                yield f, os.path.join(d, f)


# ------------------------------------------------------------------ C28
def C28(c):
    c.rule("every list, dictionary and array a caller passed in (or a caller's function returned) has the same content after the call as before; no global of another module is rebound by library code")

    def fn(t, name):
        for s in t.steps:
            if s.dead:
                continue
            ev = t.events(s)
            muts = [e for e in ev if e.kind == "mutate" and isinstance(e.data.get("obj"), Ref) and root(c, e.data["obj"]) in s.owned]
            changed = [i for i in s.owned if not same_content(c, s.heap0[i], s.heap1[i])]
            for i, nm in s.owned.items():
                if i in changed:
                    e = next((e for e in muts if root(c, e.data["obj"]) == i), None)
                    c.record(f"{s.label}: argument {nm} is left as it was", False, f"{e.data['how'] if e else 'content changed'}", e.site if e else s.site)
                else:
                    c.record(f"{s.label}: argument {nm} is left as it was", True)
            gw = [e for e in ev if e.kind == "global_write"]
            c.record(f"{s.label}: no global state is rebound", not gw, f"{[(e.data.get('module'), e.data.get('name')) for e in gw]}", gw[0].site if gw else s.site)
    each(c, fn)


def root(c, r):
    seen = 0
    while seen < 8:
        k = c.st.heap.get(r.id)
        b = getattr(k, "base", None)
        if isinstance(k, ViewC) and isinstance(b, Ref):
            r = b
        else:
            return r.id
        seen += 1
    return r.id


def same_content(c, a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        if a.ndim != b.ndim:
            return False
        ix = [idx("z", d) for d in a.shape]
        return teval.decide_zero(a.at(*ix) - b.at(*ix))[0] is not False
    if isinstance(a, ListC):
        return len(a.segs) == len(b.segs) and all(x == y or x is y for x, y in zip(a.segs, b.segs))
    if isinstance(a, DictC):
        return len(a.entries) == len(b.entries) and all(k1 == k2 and (v1 is v2 or v1 == v2) for (k1, v1), (k2, v2) in zip(a.entries, b.entries))
    if isinstance(a, ObjC):
        return a.f == b.f
    return True


# ------------------------------------------------------------------ C29
OBJM = "fastvpinns.hyperparameter_tuning.objective"


def C29(c):
    c.rule("every suggested range is non-empty, every suggested value reaches the parameter it is named after, no suggestion is rejected by the library, each epoch is one training step, the returned value is the relative L2 error of the trained model; the study minimises it; devices and worker counts are valid for any number of GPUs")
    depths = (1, 2, 3, 4, 5) if c.tier == "thorough" else (1, 5)
    site = c.fn_site(OBJECTIVE)

    def body(depth):
        c.scenario(f"objective, {depth} hidden layer(s)")
        calls = []
        bind_example(c)
        W = {"fespace": ("fastvpinns.FE.fespace2d", "Fespace2D", "__init__"), "mesh": ("fastvpinns.Geometry.geometry_2d", "Geometry_2D", "generate_quad_mesh_internal"),
             "geo": ("fastvpinns.Geometry.geometry_2d", "Geometry_2D", "__init__"), "model": ("fastvpinns.model.model", "DenseModel", "__init__"),
             "call": ("fastvpinns.model.model", "DenseModel", "call"), "step": ("fastvpinns.model.model", "DenseModel", "train_step")}
        c.I.watch = set(W.values())
        nep = nat("nep")
        v = c.call(OBJECTIVE, trial_obj(c, calls, depth), nep)
        c.I.watch = set()
        c.alive("the objective returns", site)
        rs = c.events("raise")
        c.record("no suggested configuration is rejected", not rs, f"{[(e.data.get('exc'), e.data.get('msg'), [str(x) for x in e.pc]) for e in rs]}"[:500], rs[0].site if rs else site)
        seen = {}
        for e in c.events("suggest"):
            nm = "".join(map(str, e.data["name"].parts))
            c.record(f"suggestion {nm} has its own name", nm not in seen, f"{nm} suggested twice in one trial", e.site)
            seen[nm] = e
            d = e.data["args"]
            if e.data["how"] == "categorical":
                it = c.I.lib.concrete_items(d["choices"], c.st)
                c.record(f"suggestion {nm} offers choices", bool(it), f"{it}", e.site)
            else:
                c.holds(f"suggestion {nm}: low <= high", cle(P(c.I.lib.num(d["low"], c.st)) - P(c.I.lib.num(d["high"], c.st))), site=e.site)

        def one(key):
            ev = [e for e in c.events("enter") if e.data["key"] == W[key]]
            return ev

        def arg(key, name, want):
            ev = one(key)
            if len(ev) != 1:
                c.record(f"{name} reaches the library", False, f"{len(ev)} calls of {W[key][1]}.{W[key][2]}", site)
                return
            got = ev[0].data["args"].get(name)
            s = ev[0].site
            if want not in seen:
                c.record(f"hyperparameter {want} is suggested", False, f"suggested: {sorted(seen)}", site)
                return
            if seen[want].data["how"] == "categorical":
                it = c.I.lib.concrete_items(seen[want].data["args"]["choices"], c.st)
                ref = sel_choice(c.I.lib, ("trial",) + seen[want].data["name"].parts, it)
                c.record(f"{name} is the suggested {want}", same_val(got, ref), f"{got!r}"[:200], s)
            else:
                n = c.I.lib.num(got, c.st)
                if n is None:
                    raise Undecided(f"{name}: {got!r}"[:200])
                c.eq(f"{name} is the suggested {want}", n, trial_sym(seen[want], c), site=s)
        arg("mesh", "n_cells_x", "n_cells_x")
        arg("mesh", "n_cells_y", "n_cells_y")
        arg("mesh", "num_boundary_points", "n_boundary_points")
        for x in ("fe_order", "fe_type", "quad_order", "quad_type"):
            arg("fespace", x, x)
        lays = [e for e in c.events("layer_new") if e.data["type"] == "Dense"]
        c.record("the network has the suggested number of layers", len(lays) == depth + 1, f"{len(lays)} dense layers for {depth} hidden", lays[0].site if lays else site)
        for i, e in enumerate(lays[:depth]):
            u = c.I.lib.num(e.data["cfg"]["units"], c.st)
            nm = f"layer_{i}"
            if nm in seen:
                c.eq(f"width of hidden layer {i} is the suggested one", u, trial_sym(seen[nm], c), site=e.site)
            else:
                c.record(f"hyperparameter {nm} is suggested", False, f"suggested: {sorted(seen)}", site)
            c.holds(f"width of hidden layer {i} is positive", cle(1 - u), site=e.site)
        sch = c.events("schedule_new")
        c.record("one learning-rate schedule", len(sch) == 1, f"{len(sch)}", site)
        if len(sch) == 1:
            cfg = sch[0].data["cfg"]
            for x, nm in (("initial_learning_rate", "initial_learning_rate"), ("decay_steps", "decay_steps"), ("decay_rate", "decay_rate")):
                n = c.I.lib.num(cfg.get(x), c.st)
                if nm in seen:
                    c.eq(f"{x} is the suggested one", n, trial_sym(seen[nm], c), site=sch[0].site)
                c.holds(f"{x} is positive", clt(-n), site=sch[0].site)
        # training
        ap = c.events("apply_gradients")
        c.record("one training step per epoch", len(ap) == 1 and len(ap[0].loops) == 1, f"{len(ap)} update sites, loops {[e.loops for e in ap]}"[:300], ap[0].site if ap else site)
        if len(ap) == 1 and len(ap[0].loops) == 1:
            c.eq("the model is trained for the requested number of epochs", ap[0].loops[0][1], nep, site=ap[0].site)
        mods = one("model")
        geo_ = one("geo")
        evs = c.st.events
        if not mods or not geo_:
            raise Undecided("the objective builds no model or no mesh")
        after = [e for e in one("call") if ap and evs.index(e) > evs.index(ap[0])]
        c.record("the trained model is evaluated after training", bool(after), "no evaluation after the last update", site)
        m, g = mods[0].data["args"]["self"], geo_[0].data["args"]["self"]
        tp = c.meth(g, "get_test_points")
        X = c.as_arr(tp)
        pr = c.as_arr(c.call(m, tp))
        ix, nt = fresh("tp", ZERO, X.shape[0] - 1), X.shape[0]
        ex = P(atom("app", "exact_solution", X.at(P(ix), 0), X.at(P(ix), 1)))
        p_ = pr.at(P(ix), 0) if pr.ndim == 2 else pr.at(P(ix))
        want = sqrt_(mk_sum(ix, nt, (ex - p_) * (ex - p_)) * inv(nt)) * inv(sqrt_(mk_sum(ix, nt, ex * ex) * inv(nt)))
        c.eq("the objective is the relative L2 error at the test points", scalar(c, v), want, site=site)
    for d in depths:
        guarded(c, f"objective depth {d}", lambda d=d: body(d), site)
    cls = c.get(TUNER)
    rs_ = c.fn_site(cls, "run")
    for k in (0, 1, 2, 4):
        def tun(k=k):
            c.scenario(f"tuner with {k} GPU(s)")
            calls = []
            c.I.ext[("tensorflow.config", "list_physical_devices")] = UserFn("gpus", handler=lambda L, a, kw, st, n: L.I.alloc(st, ListC([("item", OpaqueV(("device", i))) for i in range(k)])))
            c.I.ext[("tensorflow.config.experimental", "list_physical_devices")] = c.I.ext[("tensorflow.config", "list_physical_devices")]
            seen = []

            def ov(a, kw, n, st):
                c.I.event(st, "objective", n, args=a, kw=kw)
                return sym("OBJVALUE")
            c.I.overrides[(OBJM, None, "objective")] = ov
            try:
                nj, nep, ntr = sym("njobs", None, None, True), nat("nep"), nat("ntr")
                o = c.call(cls, n_trials=ntr, study_name=StrV([("study",)]), n_jobs=nj, n_epochs=nep)
                got = c.meth(o, "run")
                c.alive("a study runs", rs_)
                d_ = c.deref(got) if isinstance(got, Ref) else got
                if isinstance(d_, DictC) and not d_.entries and not d_.over:
                    d_ = d_.base
                kk = getattr(d_, "key", None)
                best = (("attr", ("optuna", "create_study"), "best_params"), ("attr", ("attr", ("optuna", "create_study"), "best_trial"), "params"))
                c.record("the best parameters of the study are returned", True if kk in best else None if kk is None and got is not None else False, f"returns {got}"[:200], rs_)
                raises = c.events("raise")
                c.record("the study run fails on no path", not raises, f"{[(e.data.get('exc'), e.data.get('msg')) for e in raises]}", raises[0].site if raises else rs_)
                cs = [e for e in c.events("optuna") if e.data["fn"].endswith("create_study")]
                c.record("one study is created", len(cs) == 1, f"{len(cs)}", rs_)
                for e in cs:
                    d = e.data["kw"].get("direction", c.s("minimize"))
                    c.record("the study minimises the error", isinstance(d, StrV) and d.concrete() == "minimize", f"direction {d}", e.site)
                    c.record("the study has the requested name", e.data["kw"].get("study_name") == StrV([("study",)]), f"{e.data['kw'].get('study_name')}", e.site)
                op = [e for e in c.events("opaque_call") if str(e.data["f"]).endswith(".optimize>")]
                c.record("one optimisation is started", len(op) == 1 and not op[0].loops, f"{len(op)}", rs_)
                for e in op:
                    a, kw = list(e.data["args"]), dict(e.data["kwargs"])
                    fn = a[0] if a else kw.get("func")
                    nt = a[1] if len(a) > 1 else kw.get("n_trials")
                    c.eq("the requested number of trials is run", c.I.lib.num(nt, c.st), ntr, site=e.site)
                    j = kw.get("n_jobs", const(1))
                    c.holds("the number of workers is never zero", cnot(ceq(c.I.lib.num(j, c.st))), site=e.site)
                    n0 = len(c.st.events)
                    r = c.call(fn, trial_obj(c, calls))
                    new = c.st.events[n0:]
                    c.alive("a trial runs", e.site)
                    bad = [x for x in new if x.kind == "raise"]
                    c.record("a trial fails on no path", not bad, f"{[(x.data.get('exc'), x.data.get('msg')) for x in bad]}", bad[0].site if bad else e.site)
                    c.eq("a trial's value is the objective's value", scalar(c, r), sym("OBJVALUE"), site=e.site)
                    ob = [x for x in new if x.kind == "objective"]
                    c.record("each trial evaluates the objective once", len(ob) == 1, f"{len(ob)}", e.site)
                    for x in ob:
                        aa = list(x.data["args"]) + list(x.data["kw"].values())
                        c.record("the objective gets the trial", any(isinstance(y, OpaqueV) and y.key == "trial" for y in aa), f"{aa}"[:200], x.site)
                        c.record("the objective gets the number of epochs", any(isinstance(y, Poly) and teval.decide_zero(y - nep)[0] is True for y in aa), f"{aa}"[:200], x.site)
                    dv = [x for x in new if x.kind == "device"]
                    for x in dv:
                        sp = x.data["spec"]
                        ps = sp.parts if isinstance(sp, StrV) else ()
                        if k and len(ps) == 2 and isinstance(ps[0], str) and ps[0].endswith("GPU:") and ps[1][0] == "num":
                            i = P(ps[1][1])
                            c.holds("the device index is valid", cand(cle(-i), clt(i - k)), site=x.site)
                        elif isinstance(sp, StrV) and sp.concrete() is not None:
                            s = sp.concrete()
                            m = s.rsplit("GPU:", 1)
                            c.record("the device exists", "GPU" not in s or len(m) == 2 and m[1].isdigit() and int(m[1]) < k, s, x.site)
                        else:
                            c.record("the device exists", False if not k else None, f"{sp}", x.site)
                    if k == 0:
                        c.record("no GPU is requested when there is none", True)
            finally:
                c.I.overrides.pop((OBJM, None, "objective"), None)
                for m in ("tensorflow.config", "tensorflow.config.experimental"):
                    c.I.ext.pop((m, "list_physical_devices"), None)
        guarded(c, f"tuner with {k} GPU(s)", tun, rs_)


def trial_sym(e, c):
    d = e.data["args"]
    return sym("trial_" + "".join(str(x) for x in e.data["name"].parts), c.I.lib.num(d["low"], c.st), c.I.lib.num(d["high"], c.st), e.data["how"] == "int")


def same_val(a, b):
    if isinstance(a, ChoiceV) and isinstance(b, ChoiceV):
        return str(a.c) == str(b.c) and same_val(a.a, b.a) and same_val(a.b, b.b)
    return a == b


# ------------------------------------------------------------------ C33
def numeric_args(e):
    """the positional data of a draw call (numbers/arrays before the format string) plus x=/y= keywords"""
    out = []
    for v in e.data["vals"]:
        if isinstance(v, StrV):
            break
        out.append(v)
    kw = e.data["kw"]
    for k in ("x", "y", "X", "Y", "Z"):
        if k in kw:
            out.append(kw[k])
    return out


def vec(c, v):
    """a drawn 1-D series as an array"""
    v = c.deref(v)
    if isinstance(v, ListC):
        v = c.as_arr(v)
    if not isinstance(v, Arr):
        raise Undecided(f"drawn value {v!r}"[:200])
    if v.ndim == 2 and v.shape[1] == ONE:
        a = v
        v = Arr((a.shape[0],), lambda i, a=a: a.at(i[0], ZERO), a.dt, a.lib)
    return v


def series_of(c, e):
    """(x or None, y) of a plot/scatter/fill call; x omitted or 0,1,2,... -> None"""
    a = numeric_args(e)
    if len(a) == 1:
        return None, vec(c, a[0])
    if len(a) >= 2:
        x, y = vec(c, a[0]), vec(c, a[1])
        i = idx("s", x.shape[0])
        if teval.decide_zero(x.at(i) - i)[0] is True:
            return None, y
        return x, y
    raise Undecided(f"{e.data['fn']} call without data")


def same_vec(c, a, b):
    """True / False / None: equal length and entries"""
    v = teval.decide_zero(a.shape[0] - b.shape[0])[0]
    if v is not True:
        return v
    i = idx("e", a.shape[0])
    return teval.decide_zero(a.at(i) - b.at(i))[0]


def covers(c, key, evs, site):
    """the (conditional) events together happen on every path"""
    if not evs:
        return c.record(key, False, "never happens", site)
    cond = False
    for e in evs:
        x = True
        for y in e.pc:
            x = cand(x, y)
        cond = cor(cond, x)
    return c.holds(key, cond, site=evs[0].site)


LINES = ("plot", "semilogy", "loglog", "semilogx", "step")


def C33(c):
    c.rule("the arrays handed to the drawing calls equal, entry for entry, the data the plot is documented to show; each plot is saved on every path, after drawing, under the requested name; no drawing call fails")
    n = nat("nit")
    O = StrV([OUT])
    mk = lambda nm: c.arr(nm, (n,))
    ref = lambda nm: inarr(nm, (n,))

    def run(name, f, build_args, judge):
        def body():
            c.scenario(name)
            a, kw = build_args()
            site = c.fn_site(f)
            c.call(f, *a, **kw)
            c.alive("the plot is drawn", site)
            bad = c.events("raise")
            c.record("no drawing call fails", not bad, f"{[(e.data.get('exc'), e.data.get('msg')) for e in bad]}", bad[0].site if bad else site)
            sv = c.events("savefig")
            covers(c, "the plot is saved", sv, site)
            judge(site, c.events("draw"), sv)
        guarded(c, name, body, c.fn_site(f))

    def curve(site, key, draws, want_x, want_y, fns=LINES):
        """some unconditional draw shows exactly (want_x, want_y)"""
        best = None
        hits = []
        for e in draws:
            if e.data["fn"] not in fns:
                continue
            try:
                x, y = series_of(c, e)
            except Undecided:
                best = best or None
                continue
            v = same_vec(c, y, want_y)
            if want_x is None and x is not None:
                v = False
            elif want_x is not None:
                vx = same_vec(c, x, want_x) if x is not None else False
                v = False if v is False or vx is False else (True if v and vx else None)
            if v is True:
                hits.append(e)
            elif v is None:
                best = "undecided"
        if hits:
            covers(c, key, hits, site)
            return hits
        c.record(key, None if best else False, f"no drawing call shows it; drawn: {[(e.data['fn'], [str(z)[:60] for z in e.data['vals'][:2]]) for e in draws]}"[:500], draws[0].site if draws else site)
        return []

    def named(site, sv, tok):
        for e in sv:
            p = e.data["path"]
            c.record("saved under the requested name", isinstance(p, StrV) and tok in p.parts, f"{p}", e.site)
    pl = [("loss", "plot_loss_function", lambda: ([mk("l"), O], {}), None), ("array", "plot_array", lambda: ([mk("l"), O, StrV([("fn",)]), StrV([("title",)])], {}), ("fn",)),
          ("inverse test loss", "plot_inverse_test_loss_function", lambda: ([mk("l"), O], {}), None), ("test loss", "plot_test_loss_function", lambda: ([mk("l"), O], {}), None),
          ("test loss, named", "plot_test_loss_function", lambda: ([mk("l"), O, StrV([("fn",)])], {}), ("fn",))]
    for nm, f, ba, tok in pl:
        def judge(site, draws, sv, tok=tok):
            h = curve(site, "the whole series is drawn in order", draws, None, ref("l"))
            others = [e for e in draws if e not in h and e.data["fn"] in LINES]
            c.record("no other curve is drawn", not others, f"{len(others)} more", others[0].site if others else site)
            if tok and sv:
                good = [e for e in sv if isinstance(e.data["path"], StrV) and tok in e.data["path"].parts]
                nocond = [e for e in sv if e not in good and not e.pc]
                c.record("saved under the requested name", bool(good) and not nocond, f"{[str(e.data['path']) for e in sv]}", sv[0].site)
        run(nm, PLOT + f, ba, judge)

    def j_time(site, draws, sv):
        curve(site, "the loss is drawn against time", draws, ref("tm"), ref("l"))
    run("test loss over time", PLOT + "plot_test_time_loss_function", lambda: ([mk("tm"), mk("l"), O], {}), j_time)
    for m in ((2, 3) if c.tier != "thorough" else (1, 2, 3, 5)):
        def args(m=m):
            return [c.lst([mk(f"l{i}") for i in range(m)]), O, StrV([("fn",)]), c.lst([StrV([("label", i)]) for i in range(m)]), StrV([("yl",)]), StrV([("title",)])], {}

        def j_multi(site, draws, sv, m=m):
            for i in range(m):
                h = curve(site, f"series {i} is drawn in full", draws, None, ref(f"l{i}"))
                for e in h:
                    lb = e.data["kw"].get("label")
                    if lb is not None:
                        c.record(f"series {i} carries its own label", lb == StrV([("label", i)]), f"{lb}", e.site)
                    else:
                        c.record(f"series {i} carries its own label", None if c.events("sink_call") else False, "no label", e.site)
            named(site, sv, ("fn",))
        run(f"{m} losses", PLOT + "plot_multiple_loss_function", args, j_multi)
    g, g2 = nat("ngx"), nat("ngy")
    b = lambda nm: c.arr(nm, (g, g2))

    def j_contour(site, draws, sv):
        ok = None
        ds = [e for e in draws if e.data["fn"] in ("contourf", "pcolormesh", "tricontourf", "contour")]
        c.record("one field is drawn", len(ds) >= 1, f"{len(draws)} drawing calls", site)
        for e in ds:
            vs = numeric_args(e)
            c.record("the field has its coordinates", len(vs) == 3, f"{len(vs)} data arguments", e.site)
            for nm, v in zip(("gx", "gy", "gz"), vs):
                a = c.deref(v)
                w = inarr(nm, (g, g2))
                if not isinstance(a, Arr) or a.ndim != 2:
                    raise Undecided(f"contour argument {a!r}"[:200])
                c.shape(f"{nm} keeps its shape", a, (g, g2), e.site)
                i, j = idx("i", g), idx("j", g2)
                c.eq(f"{nm} is drawn unchanged", a.at(i, j), w.at(i, j), site=e.site)
        covers(c, "the field is drawn", ds, site)
        named(site, sv, ("fn",))
    run("contour", PLOT + "plot_contour", lambda: ([b("gx"), b("gy"), b("gz"), O, StrV([("fn",)]), StrV([("title",)])], {}), j_contour)

    def j_inv(site, draws, sv):
        act = real("actual")
        ip = ref("ip")
        figs = []
        for e in draws:
            if e.data["fig"] not in figs:
                figs.append(e.data["fig"])
        c.record("two figures are drawn", len(figs) == 2, f"{len(figs)}", site)
        err = Arr((n,), lambda i: absv(ip.at(i[0]) - act), "float64", "np")
        h1 = curve(site, "the predicted parameter history is drawn", draws, None, ip)
        h2 = curve(site, "the absolute error history is drawn", draws, None, err)
        if h1 and h2:
            c.record("history and error are on their own figures", h1[0].data["fig"] != h2[0].data["fig"], "", h2[0].site)
        ok = []
        for e in draws:
            if e.data["fn"] in ("hlines", "axhline"):
                v = (e.data["vals"] or [e.data["kw"].get("y")])[0]
                x = c.I.lib.num(v, c.st)
                if x is not None:
                    c.eq("the reference line is at the actual value", x, act, site=e.site)
                    ok.append(e)
            elif e.data["fn"] in LINES and e not in h1 and e not in h2:
                x, y = series_of(c, e)
                if teval.decide_zero(y.at(idx("q", y.shape[0])) - act)[0] is True:
                    ok.append(e)
        covers(c, "the actual value is drawn", ok, site)
        if h1 and ok:
            c.record("the actual value is on the history's figure", ok[0].data["fig"] == h1[0].data["fig"], "", ok[0].site)
        ps = [e.data["path"] for e in sv]
        c.record("both figures are saved, to different files", len(ps) == 2 and ps[0] != ps[1], f"{[str(p) for p in ps]}", site)
        named(site, sv, ("fn",))
    run("inverse parameter", PLOT + "plot_inverse_param_function", lambda: ([mk("ip"), StrV([("pname",)]), real("actual"), O, StrV([("fn",)])], {}), j_inv)
    mesh_plots(c)


def poly_of(c, e):
    x, y = series_of(c, e)
    if x is None:
        return None
    return x, y


def is_poly(c, e, V, closed):
    """drawn outline of the 4 vertices V(k, d) in cyclic order, optionally closed"""
    x, y = series_of(c, e)
    if x is None:
        return False
    n = x.shape[0].as_int() if hasattr(x.shape[0], "as_int") else None
    n = n if n is not None else cint(x.shape[0])
    if n not in ((5,) if closed else (4, 5)):
        return None if n is None else False
    res = True
    best = None
    for rot in range(4):
        for dr in (1, -1):
            ok = True
            for k in range(n):
                for a, d in ((x, 0), (y, 1)):
                    v = teval.decide_zero(a.at(const(k)) - V((rot + dr * k) % 4, d))[0]
                    if v is not True:
                        ok = v
                        break
                if ok is not True:
                    break
            if ok is True:
                return True
            if ok is None:
                best = None
    return False


def cint(p):
    c = P(p).const()
    return None if c is None else int(c)


def mesh_plots(c):
    fs = c.fn_site(FESP, "__init__")
    for tt in TRANSF:
        def body(tt=tt):
            c.scenario(f"mesh plot, {tt} cells")
            kw, nc = fe_inputs(c, tt)
            nb = (nat("m0"), nat("m1"))
            o = c.call(FESP, **kw)
            c.alive("the plot is drawn", fs)
            bad = c.events("raise")
            c.record("no drawing call fails", not bad, f"{[(e.data.get('exc'), e.data.get('msg')) for e in bad]}", bad[0].site if bad else fs)
            draws = c.events("draw")
            covers(c, "the mesh plot is saved", c.events("savefig"), fs)
            X = cells_arr("X", nc, tt)
            outl, quad, bd = [], [], {0: [], 1: []}
            for e in draws:
                if e.data["fn"] in LINES and len(e.loops) == 1:
                    i = P(e.loops[0][0])
                    v = is_poly(c, e, lambda k, d: X.at(i, const(k), const(d)), True)
                    c.record("each cell is drawn as its own closed outline", v, "the outline is not the four vertices of the cell in order, closed", e.site)
                    c.eq("every cell is drawn", e.loops[0][1], nc, site=e.site)
                    outl.append(e)
                elif e.data["fn"] == "scatter":
                    x, y = series_of(c, e)
                    if len(e.loops) == 1:
                        i = P(e.loops[0][0])
                        s = c.st
                        q = c.as_arr(c.meth(o, "get_quadrature_actual_coordinates", i))
                        k = idx("q", q.shape[0])
                        c.eq("all quadrature points of the cell are drawn", x.shape[0], q.shape[0], site=e.site)
                        c.eq("quadrature points drawn at their x", x.at(k), q.at(k, 0), site=e.site)
                        c.eq("quadrature points drawn at their y", y.at(k), q.at(k, 1), site=e.site)
                        c.eq("quadrature points of every cell are drawn", e.loops[0][1], nc, site=e.site)
                        quad.append(e)
                    elif not e.loops:
                        for t_ in (0, 1):
                            B = inarr(f"bp{t_}", (nb[t_], 2))
                            k = idx("b", nb[t_])
                            if teval.decide_zero(x.at(k) - B.at(k, 0))[0] is True:
                                c.eq(f"boundary points of tag {1000 + t_} drawn at their y", y.at(k), B.at(k, 1), site=e.site)
                                ex = x.shape[0] - nb[t_]
                                if teval.decide_zero(ex)[0] is not True:
                                    m = nb[t_] + idx("ex", ex)
                                    c.eq(f"tag {1000 + t_}: extra points repeat a boundary point (x)", x.at(m), B.at(0, 0), site=e.site)
                                    c.eq(f"tag {1000 + t_}: extra points repeat a boundary point (y)", y.at(m), B.at(0, 1), site=e.site)
                                lb = e.data["kw"].get("label")
                                if isinstance(lb, StrV):
                                    c.record(f"tag {1000 + t_} is labelled with its own tag", str(1000 + t_) in "".join(str(z[1]) if isinstance(z, tuple) and z[0] == "num" else str(z) for z in lb.parts), f"{lb}", e.site)
                                bd[t_].append(e)
            covers(c, "every cell outline is drawn", outl, fs)
            covers(c, "quadrature points are drawn", quad, fs)
            for t_ in (0, 1):
                covers(c, f"boundary points of tag {1000 + t_} are drawn", bd[t_], fs)
        guarded(c, f"mesh plot {tt}", body, fs)

    def many():
        c.scenario("mesh plot with many boundary tags")
        k = 24 if c.tier == "thorough" else 18
        bp = c.dct([(const(1000 + i), c.arr(f"bp{i}", (nat(f"m{i}"), 2))) for i in range(k)])
        kw, nc = fe_inputs(c, "affine", boundary_points=bp, bound_function_dict=c.dct([(const(1000 + i), UserFn(f"g{i}")) for i in range(k)]),
                           bound_condition_dict=c.dct([(const(1000 + i), c.s("dirichlet")) for i in range(k)]))
        c.call(FESP, **kw)
        c.alive("the plot is drawn", fs)
        bad = c.events("raise")
        c.record("no drawing call fails", not bad, f"{[(e.data.get('exc'), e.data.get('msg')) for e in bad]}", bad[0].site if bad else fs)
        n = sum(1 for e in c.events("draw") if e.data["fn"] == "scatter" and not e.loops)
        c.record("every tag is drawn", n == k, f"{n} of {k}", fs)
    guarded(c, "mesh plot with many boundary tags", many, fs)
    ss = c.fn_site(FESP, "get_sensor_data")

    def sensors():
        c.scenario("sensor plot")
        kw, nc = fe_inputs(c, plot=False)
        o = c.call(FESP, **kw)
        r = c.call(c.attr(o, "get_sensor_data"), UserFn("u"), nat("ns", 2))
        c.alive("the plot is drawn", ss)
        pts = c.as_arr(r.items[0])
        draws = [e for e in c.events("draw")]
        covers(c, "the sensor plot is saved", c.events("savefig"), ss)
        hits = []
        for e in draws:
            if e.data["fn"] in ("scatter", "plot"):
                x, y = series_of(c, e)
                k = idx("k", pts.shape[0])
                c.eq("every sensor is drawn", x.shape[0], pts.shape[0], site=e.site)
                c.eq("sensors are drawn at their x", x.at(k), pts.at(k, 0), site=e.site)
                c.eq("sensors are drawn at their y", y.at(k), pts.at(k, 1), site=e.site)
                hits.append(e)
        covers(c, "the sensors are drawn", hits, ss)
    guarded(c, "sensor plot", sensors, ss)
    gs = c.fn_site(GEO, "plot_adaptive_mesh")

    def adaptive():
        c.scenario("adaptive plot")
        t = Tracer(c)
        g = e_geo_internal(c, t)
        n0 = len(c.st.events)
        na = nat("nac")
        c.meth(g, "plot_adaptive_mesh", c.arr("acell", (na, 4, 2)), c.arr("aloss", (na,)), nat("epoch", 0), StrV([("fn",)]))
        c.alive("the plot is drawn", gs)
        ev = c.st.events[n0:]
        bad = [e for e in ev if e.kind == "raise"]
        c.record("no drawing call fails", not bad, f"{[(e.data.get('exc'), e.data.get('msg')) for e in bad]}", bad[0].site if bad else gs)
        A, Ls = inarr("acell", (na, 4, 2)), inarr("aloss", (na,))
        fills, lines = [], []
        mn, mx = (T.mk_red(k, "k", na, Ls.at(P(sym_k))) if False else None for k, sym_k in (("min", 0), ("max", 0)))
        for e in ev:
            if e.kind != "draw" or len(e.loops) != 1:
                continue
            i = P(e.loops[0][0])
            V = lambda k, d: A.at(i, const(k), const(d))
            if e.data["fn"] in ("fill",):
                c.record("each cell is filled on its own outline", is_poly(c, e, V, False), "filled polygon is not the cell", e.site)
                c.eq("every cell is filled", e.loops[0][1], na, site=e.site)
                fills.append(e)
                col = e.data["kw"].get("color", e.data["kw"].get("facecolor"))
                nums, norms = [], []
                aux_walk(col, nums, norms)
                c.record("the colour is computed from one scale", bool(norms), f"{col!r}"[:300], e.site)
                c.record("the colour depends on one residual", len(nums) == 1, f"{[str(x) for x in nums]}"[:300], e.site)
                for x in nums:
                    c.eq("the colour is that of the cell's own residual", x, Ls.at(i), site=e.site)
                for nr in norms:
                    kw = dict(nr.f["kw"])
                    ar = list(nr.f["args"]) + [None, None]
                    lo, hi = kw.get("vmin", ar[0]), kw.get("vmax", ar[1])
                    s = fresh("s", ZERO, na - 1)
                    c.eq("the colour scale starts at the smallest residual", c.I.lib.num(lo, c.st), T.mk_red("min", s, na, Ls.at(P(s))), site=e.site)
                    c.eq("the colour scale ends at the largest residual", c.I.lib.num(hi, c.st), T.mk_red("max", s, na, Ls.at(P(s))), site=e.site)
            elif e.data["fn"] in LINES:
                c.record("each outline is the cell's own, closed", is_poly(c, e, V, True), "outline is not the cell", e.site)
                lines.append(e)
        covers(c, "the cells are filled", fills, gs)
        covers(c, "the plot is saved", [e for e in ev if e.kind == "savefig"], gs)
        for e in ev:
            if e.kind == "savefig":
                c.record("saved under the requested name", isinstance(e.data["path"], StrV) and ("fn",) in e.data["path"].parts, f"{e.data['path']}", e.site)
    guarded(c, "adaptive plot", adaptive, gs)


def aux_walk(v, nums, norms):
    """numbers mapped through a colour map and the normalisation objects used"""
    if isinstance(v, LibObj) and v.kind == "plotaux":
        fn = v.f.get("fn")
        if fn is not None:
            if isinstance(fn, LibObj) and "Normalize" in str(fn.f.get("name")):
                norms.append(fn)
            elif "Normalize" in str(v.f.get("name")) and v not in norms:
                norms.append(v)
            else:
                aux_walk(fn, nums, norms)
        for a in v.f.get("args", ()):
            aux_walk(a, nums, norms)
    elif isinstance(v, Poly):
        nums.append(v)


# ------------------------------------------------------------------ C34
def tables(evs):
    """printed tables: list of (sink key, [(row cells, event)], printed?)"""
    out = {}
    for e in evs:
        if e.kind != "sink_call":
            continue
        of = e.data["of"]
        nm = of.f.get("name") if isinstance(of, LibObj) else None
        if nm == "rich.table.Table":
            t = out.setdefault(of.f["uid"], {"rows": [], "cols": [], "printed": False, "ev": e})
            if e.data["fn"] == "add_row":
                t["rows"].append((e.data["args"], e))
            elif e.data["fn"] == "add_column":
                t["cols"].append((e.data["args"], e))
        elif e.data["fn"] in ("print", "log", "rule"):
            for a in e.data["args"]:
                if isinstance(a, LibObj) and a.f.get("uid") in out:
                    out[a.f["uid"]]["printed"] = True
    return list(out.values())


def cell_num(v):
    """the number a table cell or printed part shows"""
    if isinstance(v, Poly):
        return v
    if isinstance(v, StrV):
        c = v.concrete()
        if c is not None:
            try:
                from fractions import Fraction
                return const(Fraction(c.strip()))
            except ValueError:
                return None
        ps = [p for p in v.parts if not (isinstance(p, str) and not p.strip())]
        if len(ps) == 1 and isinstance(ps[0], tuple):
            p = ps[0]
            while p and p[0] == "fmt":
                inner = [x for x in p[3:] if not isinstance(x, str)]
                if len(inner) != 1:
                    return None
                p = inner[0]
            if p[0] == "num":
                return P(p[1])
    return None


def C34(c):
    c.rule("each reported count equals the size of the data it names: attributes, printed lines and table cells; tables pair the k-th label with the k-th value and show every row")
    fs = c.fn_site(FESP, "__init__")
    for plot in (False, True):
        for tt in TRANSF:
            def body(plot=plot, tt=tt):
                c.scenario(f"{tt} space {'with' if plot else 'without'} mesh plot")
                kw, nc = fe_inputs(c, tt, plot=plot)
                if tt == "bilinear":
                    kw["quad_type"] = c.s("gauss-jacobi")
                N, Q, m0, m1 = order(), qorder(), nat("m0"), nat("m1")
                o = c.call(FESP, **kw)
                c.alive("the space is built", fs)
                c.eq("n_cells is the number of cells", c.I.lib.num(c.attr(o, "n_cells"), c.st), nc, site=fs)
                c.eq("total_dofs is the number of quadrature points", c.I.lib.num(c.attr(o, "total_dofs"), c.st), nc * Q * Q, site=fs)
                c.eq("total_dirichlet_dofs is the number of Dirichlet points", c.I.lib.num(c.attr(o, "total_dirichlet_dofs"), c.st), m0 + m1, site=fs)
                if plot:
                    c.eq("total_boundary_dofs is the number of boundary points", c.I.lib.num(c.attr(o, "total_boundary_dofs"), c.st), m0 + m1, site=fs)
                want = [(("number of cells",), nc), (("quadrature points",), nc * Q * Q), (("dirichlet",), m0 + m1), (("quadrature order",), Q), (("fe order",), N)]
                texts = [(("fe type",), "legendre"), (("transformation type",), tt)]
                ts = tables(c.st.events)
                info = [t for t in ts if any(label_of(r).startswith("number of") for r, _ in t["rows"])]
                for t in info:
                    for ws, v in want:
                        hit = [(r, e) for r, e in t["rows"] if all(w in label_of(r) for w in ws)]
                        for r, e in hit:
                            x = cell_num(r[1]) if len(r) > 1 else None
                            if x is None:
                                c.record(f"row '{ws[0]}' shows its number", False if len(r) > 1 and isinstance(r[1], StrV) and r[1].concrete() is not None else None, f"{r}"[:300], e.site)
                            else:
                                c.eq(f"row '{ws[0]}' shows its number", x, v, site=e.site)
                    for ws, v in texts:
                        for r, e in t["rows"]:
                            if all(w in label_of(r) for w in ws):
                                c.record(f"row '{ws[0]}' shows its value", isinstance(r[1], StrV) and r[1].concrete() == v, f"{r}"[:300], e.site)
                shp = [t for t in ts if any("matrix shape" in label_of(r) for r, _ in t["rows"])]
                cell = ZERO
                for t in shp:
                    for r, e in t["rows"]:
                        lb = label_of(r)
                        w = {"shape function matrix shape": (N * N, Q * Q), "shape function gradient matrix shape": (N * N, Q * Q), "jacobian matrix shape": (Q * Q,),
                             "quadrature points shape": (Q * Q,), "quadrature weights shape": (Q * Q,), "quadrature actual coordinates shape": (Q * Q, 2), "forcing function shape": (N * N, 1)}.get(lb)
                        if w is None or (lb.startswith("jacobian") and tt == "affine"):
                            continue  # an affine map has one determinant per cell
                        got = [P(p[1]) if p[0] == "num" else None for p in r[1].parts if isinstance(p, tuple)] if isinstance(r[1], StrV) else []
                        if isinstance(r[1], StrV) and "Unknown" in repr(r[1].parts) or not isinstance(r[1], (StrV, TupleV)):
                            c.record(f"'{lb}' shows the shape", None, f"{r[1]}"[:300], e.site)
                            continue
                        ws = [P(x) for x in w if not P(x).is_const()]
                        if len(got) != len(ws) or any(x is None for x in got):
                            c.record(f"'{lb}' shows the shape", False, f"{r[1]}"[:300], e.site)
                        else:
                            for x, y in zip(got, ws):
                                c.eq(f"'{lb}' shows the shape", x, y, site=e.site)
                for e in c.events("print"):
                    for a in e.data["args"]:
                        if isinstance(a, StrV) and len(a.parts) == 2 and isinstance(a.parts[0], str) and isinstance(a.parts[1], tuple) and a.parts[1][0] == "num":
                            lb = a.parts[0].lower()
                            for ws, v in (("number of cells", nc), ("number of quadrature points", nc * Q * Q), ("number of boundary points", m0 + m1), ("number of dirichlet boundary points", m0 + m1)):
                                if ws in lb:
                                    c.eq(f"the printed {ws} is right", P(a.parts[1][1]), v, site=e.site)
            guarded(c, f"{tt} {plot}", body, fs)
    # after further calls the reported numbers stay right
    def later():
        c.scenario("counts after further calls")
        kw, nc = fe_inputs(c, plot=True)
        Q, m0, m1 = qorder(), nat("m0"), nat("m1")
        o = c.call(FESP, **kw)
        for rep in range(2):
            c.meth(o, "generate_dirichlet_boundary_data")
            c.meth(o, "generate_plot", StrV([OUT]))
            c.eq("total_dofs is unchanged", c.I.lib.num(c.attr(o, "total_dofs"), c.st), nc * Q * Q, site=fs)
            c.eq("total_dirichlet_dofs is unchanged", c.I.lib.num(c.attr(o, "total_dirichlet_dofs"), c.st), m0 + m1, site=fs)
            c.eq("total_boundary_dofs is unchanged", c.I.lib.num(c.attr(o, "total_boundary_dofs"), c.st), m0 + m1, site=fs)
            c.eq("n_cells is unchanged", c.I.lib.num(c.attr(o, "n_cells"), c.st), nc, site=fs)
    guarded(c, "counts after further calls", later, fs)
    pt = "fastvpinns.utils.print_utils:print_table"
    ps = c.fn_site(pt)
    for m in (1, 2, 3, 7) if c.tier == "thorough" else (1, 3):
        def tab(m=m):
            c.scenario(f"table of {m} rows")
            vals = [real(f"v{i}") if i % 2 == 0 else nat(f"v{i}") for i in range(m)]
            c.call(pt, StrV([("title",)]), c.lst([c.s("A"), c.s("B")]), c.lst([StrV([("label", i)]) for i in range(m)]), c.lst(vals))
            c.alive("the table is printed", ps)
            ts = tables(c.st.events)
            c.record("one table is printed", len(ts) == 1 and ts[0]["printed"], f"{len(ts)} tables", ps)
            for t in ts:
                c.record("every row is shown", len(t["rows"]) == m, f"{len(t['rows'])} rows", ps)
                c.record("the columns are the given ones", [a[0] for a, _ in t["cols"]] == [c.s("A"), c.s("B")], f"{[a for a, _ in t['cols']]}", ps)
                for i, (r, e) in enumerate(t["rows"]):
                    if i >= m:
                        break
                    c.record(f"row {i} has its own label", r[0] == StrV([("label", i)]), f"{r[0]}", e.site)
                    x = cell_num(r[1])
                    if x is None:
                        c.record(f"row {i} has its own value", None, f"{r[1]}", e.site)
                    else:
                        c.eq(f"row {i} has its own value", x, vals[i], site=e.site)
        guarded(c, f"table of {m} rows", tab, ps)

    def rep():
        c.scenario("table in which labels and values repeat")
        labs, vals = ["same", "other", "same", "last"], [nat("v0"), nat("v1"), nat("v2"), nat("v1")]
        c.call(pt, StrV([("title",)]), c.lst([c.s("A"), c.s("B")]), c.lst([c.s(x) for x in labs]), c.lst(vals))
        ts = [t for t in tables(c.st.events) if t["printed"]]
        if not ts:
            raise Undecided("no table")
        rows = ts[0]["rows"]
        c.record("every row is shown", len(rows) == len(labs), f"{len(rows)} rows of {len(labs)}", ps)
        for i, (r, e) in enumerate(rows[:len(labs)]):
            c.record(f"row {i} has its own label", r[0] == StrV([labs[i]]), f"{r[0]}", e.site)
            x = cell_num(r[1])
            if x is not None:
                c.eq(f"row {i} has its own value", x, vals[i], site=e.site)
    guarded(c, "table in which labels repeat", rep, ps)


def label_of(r):
    a = r[0] if r else None
    return (a.concrete() or "").strip().lower() if isinstance(a, StrV) else ""


# ------------------------------------------------------------------ C35
def C35(c):
    c.rule("the returned dictionary has exactly the caller's keys, each bound to a tensor of the caller's own value in the handler's dtype; the test-point tensor equals the domain's test points entry for entry")
    for dt in ("float32", "float64"):
        for m in ("get_bilinear_params_dict_as_tensors", "get_inverse_params"):
            for nk in ((1, 2, 4, 7, 12) if c.tier == "thorough" else (1, 3, 6)):
                def body(dt=dt, m=m, nk=nk):
                    c.scenario(f"{m}, {nk} coefficient(s), {dt}")
                    h, st_ = hand(c, dt)
                    keys = [("k0", " Eps", "b_x ", "B_X", "0", "kappa-1")[i] if i < 6 else f"k{i}" for i in range(nk)]
                    vals = [real(f"v_{i}") for i in range(nk)]

                    def fn(L, a, k, st, n):
                        return L.I.alloc(st, DictC(tuple((x, v) for x, v in zip(keys, vals))))
                    r = c.deref(c.meth(h, m, UserFn("params", handler=fn)))
                    site = c.fn_site(DH, m)
                    c.alive("the coefficients are returned", site)
                    if not isinstance(r, DictC):
                        raise Undecided(f"{r!r}"[:200])
                    ent = {c.I.lib.dkey(k) if not isinstance(k, str) else k: v for k, v in r.entries}
                    c.record("the keys are the caller's", sorted(map(str, ent)) == sorted(keys) and r.base is None, f"{list(ent)}", site)
                    for k, v in zip(keys, vals):
                        if k in ent:
                            tensor_is(c, f"coefficient {k}", ent[k], (), lambda v=v: v, dt, site)
                guarded(c, f"{m} {dt} {nk}", body, c.fn_site(DH, m))
        site = c.fn_site(DH, "get_test_points")
        for kind in ("internal", "external"):
            def tp(dt=dt, kind=kind):
                c.scenario(f"test points, {kind}, {dt}")
                h, g = hand(c, dt, kind)
                T1 = c.as_arr(c.meth(h, "get_test_points"))
                c.alive("the test points are returned", site)
                T0 = c.as_arr(c.meth(g, "get_test_points"))
                c.shape("one row per test point", T1, T0.shape, site)
                k, d = idx("k", T0.shape[0]), idx("d", T0.shape[1])
                c.eq("row k is test point k", T1.at(k, d), T0.at(k, d), site=site)
                c.record(f"the dtype is {dt}", T1.dt == dt, f"{T1.dt}", site)
                c.record("a tensor is returned", T1.lib == "tf", T1.lib, site)
            guarded(c, f"test points {kind} {dt}", tp, site)


def hand(c, dt, kind="internal"):
    kw, nc = fe_inputs(c, plot=False)
    o = c.call(FESP, **kw)
    t = Tracer(c)
    g = e_geo_internal(c, t) if kind == "internal" else e_geo_external(c, t)
    return c.call(DH, o, g, LibV("tensorflow." + dt)), g


def tensor_is(c, key, v, dims, f, dt, site):
    a = c.deref(v)
    if not isinstance(a, Arr):
        c.record(f"{key} is a tensor", False if isinstance(a, Poly) else None, f"{a!r}"[:200], site)
        return
    c.shape(f"{key} keeps its shape", a, dims, site)
    if a.ndim == len(dims):
        ix = [idx("t", d) for d in dims]
        c.eq(f"{key} has the caller's value", a.at(*ix), f(*ix), site=site)
    c.record(f"{key} is a {dt} tensor", a.dt == dt and a.lib == "tf", f"{a.lib} {a.dt}", site)
