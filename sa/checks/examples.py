"""C32: the shipped example programs fit the library's public interface"""
import ast
import os
from ..interp import AnalysisGap
from ..scen import *
from ..scen import REPO, Undecided, guarded
from ..values import ClassV, FuncV, LibObj, MISSING
from .entries import OUT
from .fe import FESP, fespace
from .geometry import GEO


def scripts():
    base = os.path.join(REPO, "examples")
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.join(d, f)


def dynamic(cls):
    """attributes may be created under computed names"""
    for k in cls.mro():
        if isinstance(k, ClassV):
            for n in ast.walk(k.node):
                if isinstance(n, ast.Name) and n.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__") or isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__"):
                    return True
            if k.node.decorator_list:
                return True
    return False


def instance_attrs(cls):
    out = set()
    for k in cls.mro():
        if not isinstance(k, ClassV):
            continue
        out |= set(k.attrs)
        # attributes set from outside the methods (helpers that take the object) count as well
        out |= {n.attr for n in ast.walk(k.module.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for m in ast.walk(k.node):
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and m.args.args:
                me = m.args.args[0].arg
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
            if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                out.add(m.target.id)
    return out


def bind(f, call, bound):
    """None when the call fits f's parameters, otherwise why not"""
    a = f.node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
    allpos = len(a.posonlyargs + a.args)
    need = [x.arg for x in (a.posonlyargs + a.args)[:allpos - len(a.defaults)]][1 if bound else 0:]
    kwo = [x.arg for x in a.kwonlyargs]
    needk = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    if len(call.args) > len(pos) and a.vararg is None:
        return f"{len(call.args)} positional arguments for {len(pos)} parameters"
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return f"parameter {k.arg} given twice"
        if k.arg not in pos and k.arg not in kwo and a.kwarg is None:
            return f"no parameter {k.arg}"
        given.add(k.arg)
    miss = [x for x in need + needk if x not in given]
    return f"missing {', '.join(miss)}" if miss else None


def own_returns(node):
    todo, out = list(node.body), []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Return):
            out.append(n.value)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        todo += list(ast.iter_child_nodes(n))
    return out


def arity(f):
    """number of values every return hands over, when that is evident"""
    rs = own_returns(f.node)
    if not rs or not all(isinstance(r, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.elts) for r in rs):
        return None
    ns = {len(r.elts) for r in rs}
    return ns.pop() if len(ns) == 1 else None


def keys_of(f):
    """names that may be keys of the dictionary f returns; None when they are not evident"""
    out = set()
    for r in own_returns(f.node) or [None]:
        if isinstance(r, ast.Dict) and all(isinstance(k, ast.Constant) for k in r.keys):
            out |= {k.value for k in r.keys}
        elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "dict" and not r.args and all(k.arg for k in r.keywords):
            out |= {k.arg for k in r.keywords}
        else:
            return None
    return out


def C32(c):
    c.rule("in every example program each name imported from the library exists, each call of a library class, function or method fits its parameters, each method or attribute used on a library object is one its class has, results are unpacked into as many names as are returned, and result dictionaries are read under keys they have")
    for path in scripts():
        rel = os.path.relpath(path, REPO)

        def body(path=path, rel=rel):
            tree = ast.parse(open(path, encoding="utf-8").read(), path)
            c.scenario(rel)
            site = (rel, "<module>", 1)
            known, opaque = {}, False
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] == "fastvpinns":
                    for al in n.names:
                        if al.name == "*":
                            try:
                                mod = c.I.modules[n.module] if n.module in c.I.modules else None
                            except AttributeError:
                                mod = None
                            tr = getattr(mod, "tree", None)
                            for s in (tr.body if tr is not None else ()):
                                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                                    try:
                                        known[s.name] = c.get(f"{n.module}:{s.name}")
                                    except AnalysisGap:
                                        pass
                            c.record(f"module {n.module} exists", tr is not None, "no such module", (rel, "<module>", n.lineno))
                            continue
                        v = None
                        if n.module in c.I.modules:
                            try:
                                v = c.get(f"{n.module}:{al.name}")
                            except (AnalysisGap, KeyError, AttributeError):
                                v = None
                            if v is None and f"{n.module}.{al.name}" in c.I.modules:
                                continue
                            ok = v is not None and v is not MISSING
                        else:
                            ok = False
                        c.record(f"{n.module}.{al.name} can be imported", ok, "the library has no such name", (rel, "<module>", n.lineno))
                        if ok:
                            known[al.asname or al.name] = v
            if not known:
                return
            # variables that hold one kind of library object or result throughout the program
            vals = {}

            def result(e):
                """what an expression gives: ('obj', class), ('call', function) or None"""
                if isinstance(e, ast.Call):
                    t = target(e.func)
                    if t is not None:
                        v, _ = t
                        return ("obj", v) if isinstance(v, ClassV) else ("call", v) if isinstance(v, FuncV) else None
                return None

            def target(fn):
                """(value, bound?) of a called expression"""
                if isinstance(fn, ast.Name) and fn.id in known and fn.id not in vals:
                    return known[fn.id], False
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in vals:
                    k = vals[fn.value.id]
                    if k and k[0] == "obj":
                        m = k[1].lookup(fn.attr)
                        if isinstance(m, LibObj) and m.kind in ("staticmethod", "classmethod") and isinstance(m.f.get("f"), FuncV):
                            return m.f["f"], m.kind == "classmethod"
                        if isinstance(m, FuncV):
                            return m, True
                return None
            for _ in range(2):
                new = {}
                for n in ast.walk(tree):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for z in ast.walk(t):
                                if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store):
                                    r = result(n.value) if z is t else None
                                    new[z.id] = r if z.id not in new or new[z.id] == r else None
                    elif isinstance(n, (ast.For, ast.AugAssign, ast.AnnAssign)):
                        for z in ast.walk(n.target):
                            if isinstance(z, ast.Name):
                                new[z.id] = None
                    elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                        for z in ast.walk(n.optional_vars):
                            if isinstance(z, ast.Name):
                                new[z.id] = None
                vals.clear()
                vals.update(new)
            for n in ast.walk(tree):
                at = (rel, "<module>", getattr(n, "lineno", 1))
                if isinstance(n, ast.Call):
                    t = target(n.func)
                    if t is None:
                        continue
                    v, bound = t
                    nm = ast.unparse(n.func)
                    if isinstance(v, ClassV):
                        init = v.lookup("__init__")
                        if isinstance(init, FuncV):
                            why = bind(init, n, True)
                            c.record(f"line {n.lineno}: {nm}(...) fits its parameters", why is None, why or "", at)
                    elif isinstance(v, FuncV):
                        why = bind(v, n, bound)
                        c.record(f"line {n.lineno}: {nm}(...) fits its parameters", why is None, why or "", at)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                    k = vals.get(n.value.id)
                    if k and k[0] == "obj" and not k[1].lib_bases() and not dynamic(k[1]):
                        c.record(f"line {n.lineno}: {ast.unparse(n)} exists", n.attr in instance_attrs(k[1]), f"{k[1].name} has no {n.attr}", at)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple):
                    r = result(n.value)
                    if r and r[0] == "call" and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
                        a = arity(r[1])
                        if a is not None:
                            c.record(f"line {n.lineno}: result is unpacked into as many names as are returned", a == len(n.targets[0].elts), f"{a} values returned, {len(n.targets[0].elts)} names", at)
                elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    k = vals.get(n.value.id)
                    if k and k[0] == "call":
                        ks = keys_of(k[1])
                        if ks is not None:
                            c.record(f"line {n.lineno}: {ast.unparse(n)} is a key of the result", n.slice.value in ks, f"keys {sorted(map(str, ks))}", at)
        guarded(c, rel, body, (rel, "<module>", 1))
    configs(c)


# ------------------------------------------------------------------ configuration files
def load_config(path):
    """nested mappings of scalars and flow lists; None when the file uses anything else"""
    root, stack = {}, []
    for ln in open(path, encoding="utf-8"):
        s, q, out = ln.rstrip("\n"), None, ""
        for ch in s:
            if q:
                q = None if ch == q else q
            elif ch in "'\"":
                q = ch
            elif ch == "#":
                break
            out += ch
        if not out.strip():
            continue
        ind = len(out) - len(out.lstrip())
        k, sep, v = out.strip().partition(":")
        if not sep or k.startswith("-"):
            return None
        while stack and stack[-1][0] >= ind:
            stack.pop()
        cur = stack[-1][1] if stack else root
        v = v.strip()
        if not v:
            cur[k] = {}
            stack.append((ind, cur[k]))
        else:
            cur[k] = scalar(v)
    return root


def scalar(v):
    if v[:1] in "'\"":
        return v[1:-1]
    if v.lower() in ("true", "false"):
        return v.lower() == "true"
    for t in (int, float):
        try:
            return t(v)
        except ValueError:
            pass
    return v


def config_reads(tree):
    """chains of literal keys under which the program reads the loaded configuration"""
    names = {t.id for n in ast.walk(tree) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith("yaml.") for t in n.targets if isinstance(t, ast.Name)}
    for n in ast.walk(tree):
        ks, x = [], n
        while isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
            ks.append(x.slice.value)
            x = x.value
        if ks and isinstance(x, ast.Name) and x.id in names and isinstance(n.ctx, ast.Load):
            yield tuple(reversed(ks)), n.lineno


def configs(c):
    """every option an example's configuration file sets is one the library takes"""
    done = set()
    for path in scripts():
        d = os.path.dirname(path)
        ys = sorted(f for f in os.listdir(d) if f.endswith((".yaml", ".yml")))
        cf = os.path.join(d, ys[0] if len(ys) == 1 else "input.yaml")
        tree = ast.parse(open(path, encoding="utf-8").read(), path)
        reads = list(config_reads(tree))
        if not reads or not os.path.exists(cf):
            continue
        rel = os.path.relpath(cf, REPO)
        cfg = load_config(cf)
        if cfg is None:
            continue

        def keys(rel=rel, cfg=cfg, reads=reads, path=path):
            c.scenario(rel)
            for ks, ln in reads:
                x, ok = cfg, True
                for k in ks:
                    ok = isinstance(x, dict) and k in x
                    if not ok:
                        break
                    x = x[k]
                c.record(f"{'/'.join(ks)} is configured", ok, "the program reads a key the file does not have", (os.path.relpath(path, REPO), "<module>", ln))
        guarded(c, rel, keys, (rel, "<file>", 1))
        maps = {k.value.value for n in ast.walk(tree) if isinstance(n, ast.Call) for k in n.keywords if k.arg == "fe_transformation_type" and isinstance(k.value, ast.Constant)}
        fe, geo = cfg.get("fe", {}), cfg.get("geometry", {})

        def opt(kind, vals, go, site):
            if any(v is None for v in vals) or (kind, vals) in done:
                return
            done.add((kind, vals))

            def body():
                c.scenario(f"{rel}: {kind} {', '.join(map(str, vals))}")
                go()
                rs = [e for e in c.events("raise") if str(e.data.get("exc")).split(".")[-1] in ("ValueError", "TypeError") and (c.st.dead or not e.pc)]
                c.record("accepted", not c.st.dead and not rs, f"raises {[(e.data.get('exc'), e.data.get('msg')) for e in rs]}"[:300], rs[-1].site if rs else site)
            guarded(c, f"{rel}: {kind}", body, site)
        fs, gs, ms = c.fn_site(FESP, "__init__"), c.fn_site(GEO, "__init__"), c.fn_site(GEO, "read_mesh")
        for mp in sorted(maps):
            v = (fe.get("fe_type"), fe.get("quad_type"), mp, fe.get("fe_order"), fe.get("quad_order"))
            def space(v=v):
                try:
                    fespace(c, v[0], v[2], v[1], N=const(v[3]), Q=const(v[4]), nc=nat("nc"))
                except Undecided:
                    if not c.st.dead:
                        raise
                    c.obls.pop()
            opt("function space", v, space, fs)
        G = lambda: c.call(GEO, c.s(geo["mesh_type"]), c.s(geo["mesh_generation_method"]), nat("ntx", 2), nat("nty", 2), StrV([OUT]))
        opt("domain", (geo.get("mesh_type"), geo.get("mesh_generation_method")), G, gs)
        ex = geo.get("external_mesh_params", {})
        ext = os.path.splitext(str(ex.get("mesh_file_name") or ""))[1]
        if geo.get("mesh_generation_method") == "external":
            opt("mesh file", (ext, ex.get("boundary_sampling_method"), ex.get("boundary_refinement_level")),
                lambda: c.meth(G(), "read_mesh", StrV([("mesh",), ext]), const(ex["boundary_refinement_level"]), c.s(ex["boundary_sampling_method"]), ZERO), ms)
