"""Abstract interpreter: one pass over each function body per calling context, building a
gated value graph.  Branches are joined (gated merge), loops are summarised once with a
symbolic iteration variable (induction / reduction / scatter recognition), calls into the
repository are resolved and analysed, library calls go to declared models.  No repository
code is executed."""
import ast
import os
from .values import *
from . import terms as T

UNROLL = 12


class Event:
    __slots__ = ("kind", "data", "pc", "site", "loops", "stack")

    def __init__(self, kind, data, pc, site, loops, stack):
        self.kind, self.data, self.pc, self.site, self.loops, self.stack = kind, data, pc, site, loops, stack

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.site} if {self.pc}>"


class State:
    __slots__ = ("heap", "events", "pc", "dead", "tapes", "param", "loops", "memo", "clock", "figs")

    def __init__(self):
        self.heap = {}
        self.events = []
        self.pc = ()
        self.dead = None
        self.tapes = ()
        self.param = {}
        self.loops = ()
        self.memo = {}
        self.clock = 0
        self.figs = ()

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.events = list(self.events)
        s.pc = self.pc
        s.dead = self.dead
        s.tapes = self.tapes
        s.param = dict(self.param)
        s.loops = self.loops
        s.memo = dict(self.memo)
        s.clock = self.clock
        s.figs = self.figs
        return s

    def assign_from(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))


class Frame:
    def __init__(self, env, module, func=None, cls=None, self_v=None):
        self.env = env
        self.module = module
        self.func = func
        self.cls = cls
        self.self_v = self_v
        self.exits = []
        self.breaks = []
        self.continues = []
        self.loop_depth = 0
        self.pc0 = 0
        self.globals = set()
        self.nonlocals = set()
        self.yield_cb = None
        self.yield_list = None
        self.return_in_loop = False


class Interp:
    def __init__(self, repo, package="fastvpinns"):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.stack = []
        self.gaps = []
        self.risk = 0
        self.errors = []
        self.functions = {}
        self.call_sites = set()
        self.branches = 0
        self.loops = 0
        self.lib_calls = {}
        self.narrow_sites = []
        self.phi_used = set()
        self.origin = {}  # per-iteration instance -> the loop's template object
        self.quiet = 0
        self.root = State()
        self.overrides = {}
        self.ext = {}  # (module outside the package, name) -> value
        self.watch = set()  # (module, class, function) whose calls are recorded as "enter" events
        self.lib_last = ""
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ utilities
    def site(self, node):
        m = self.stack[-1].module if self.stack else None
        f = self.stack[-1].func if self.stack else None
        path = os.path.relpath(m.path, self.repo) if m is not None and m.path else "?"
        return (path, f or "<module>", getattr(node, "lineno", 0))

    def gap(self, why, node=None):
        self.risk += 1
        s = self.site(node) if node is not None else None
        w = f"{why}" + (f" at {s[0]}:{s[2]} in {s[1]}" if s else "")
        if w not in self.gaps:
            self.gaps.append(w)
        return Unknown(w)

    def event(self, st, kind, node, **data):
        st.clock += 1
        st.events.append(Event(kind, data, st.pc, self.site(node), st.loops,
                               tuple(f.func for f in self.stack)))

    def raise_(self, st, exc, node, msg=""):
        self.event(st, "raise", node, exc=exc, msg=msg)
        st.dead = "raise"

    def narrowed(self, n, how):
        """a literal request for less floating precision, at this source site"""
        self.narrow_sites.append((self.site(n), how))

    def alloc(self, st, content):
        i = new_id()
        st.heap[i] = content
        return Ref(i)

    def deref(self, st, v):
        """content of a Ref (views resolved to Arr)"""
        c = st.heap.get(v.id)
        if isinstance(c, ViewC):
            base = self.deref(st, Ref(c.base))
            if c.spec[0] == "remap":
                r, fwd = c.spec[1], c.spec[2]
                return Arr(r.shape, lambda idx: base.at(*fwd(idx)), base.dt, "np", base.rec, base.dep, base.t0)
            return self.lib.arr.index_arr(base, c.spec)
        return c

    def is_arr(self, st, v):
        if isinstance(v, Arr):
            return True
        if isinstance(v, Ref):
            return isinstance(st.heap.get(v.id), (Arr, ViewC))
        return False

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        for cand_ in (os.path.join(self.repo, rel + ".py"), os.path.join(self.repo, rel, "__init__.py")):
            if os.path.isfile(cand_):
                m = ModuleV(name, cand_)
                self.modules[name] = m
                with open(cand_, encoding="utf-8") as fh:
                    m.source = fh.read()
                m.tree = ast.parse(m.source, cand_)
                st = self.root
                ref = self.alloc(st, EnvC({"__name__": StrV([name]), "__file__": StrV([cand_])}, None))
                m.env_id = ref.id
                fr = Frame(ref.id, m, None)
                self.stack.append(fr)
                try:
                    self.exec_block(m.tree.body, st, fr)
                    st.dead = None
                finally:
                    self.stack.pop()
                return m
        return None

    def module_attr(self, m, name):
        env = self.root.heap[m.env_id]
        if name in env.d:
            return env.d[name]
        sub = self.load_module(m.name + "." + name) if not isinstance(m, LibV) else None
        return sub

    def get(self, dotted):
        """'fastvpinns.FE.quad_affine:QuadAffin' -> value"""
        mn, _, nm = dotted.partition(":")
        m = self.load_module(mn)
        if m is None:
            raise AnalysisGap(f"anchor module {mn} not found")
        v = self.module_attr(m, nm)
        if v is None:
            raise AnalysisGap(f"anchor {dotted} not found")
        return v

    def preload(self, package="fastvpinns"):
        """run every module body of the package once: module and class level objects exist in every scenario's state"""
        top = os.path.join(self.repo, package)
        for d, sub, fs in os.walk(top):
            sub.sort()
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    try:
                        self.load_module(rel)
                    except SyntaxError:
                        pass

    def new_state(self):
        s = self.root.clone()
        s.events = []
        s.pc = ()
        s.dead = None
        return s

    # ------------------------------------------------------------ env access
    def lookup(self, st, env_id, name):
        while env_id is not None:
            e = st.heap.get(env_id)
            if e is None:
                e = self.root.heap.get(env_id)
            if name in e.d:
                return e.d[name]
            env_id = e.parent
        return MISSING

    def setvar(self, st, fr, name, v):
        env_id = fr.env
        if name in fr.globals:
            env_id = fr.module.env_id
            if fr.func is not None:
                self.event(st, "global_write", None, name=name, module=fr.module.name)
        elif name in fr.nonlocals:
            e = st.heap[env_id].parent
            while e is not None and name not in st.heap[e].d:
                e = st.heap[e].parent
            env_id = e if e is not None else env_id
        e = st.heap[env_id]
        d = dict(e.d)
        d[name] = v
        st.heap[env_id] = EnvC(d, e.parent)

    # ------------------------------------------------------------ merging
    def same_val(self, a, b):
        """the same immutable value, built twice"""
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, ChoiceV):
            return a.c == b.c and self.same_val(a.a, b.a) and self.same_val(a.b, b.b)
        if isinstance(a, TupleV):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        return isinstance(a, (StrV, Poly, LibV, Ref)) and a == b

    def merge_vals(self, c, a, b, st):
        if a is b or isinstance(a, (ChoiceV, TupleV, StrV)) and self.same_val(a, b):
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return ite_any(c, a, b)
        if isinstance(a, (Poly, bool, Cond)) and isinstance(b, (Poly, bool, Cond)):
            if a == b:
                return a
            return ite(c, P(a), P(b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            ca, cb = st.heap.get(a.id), st.heap.get(b.id)
            if isinstance(ca, (Arr, ViewC)) and isinstance(cb, (Arr, ViewC)):
                m = self.merge_arr(c, self.deref(st, a), self.deref(st, b))
                if m is not None:
                    return self.alloc(st, m)
                return ChoiceV(c, a, b)
            m = self.merge_content(c, ca, cb, st)
            if m is not None and not isinstance(m, UnkListC):
                return self.alloc(st, m)
            return ChoiceV(c, a, b)
        if self.is_arr(st, a) and self.is_arr(st, b):
            x = a if isinstance(a, Arr) else self.deref(st, a)
            y = b if isinstance(b, Arr) else self.deref(st, b)
            m = self.merge_arr(c, x, y)
            if m is not None:
                return m if m.lib == "tf" else self.alloc(st, m)
            return ChoiceV(c, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_vals(c, x, y, st) for x, y in zip(a.items, b.items)])
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        return ChoiceV(c, a, b)

    def merge_arr(self, c, a, b):
        if a is b:
            return a
        if len(a.shape) != len(b.shape):
            return None
        if any(x != y for x, y in zip(a.shape, b.shape)):
            # sizes that depend on the condition (not where one side would broadcast)
            if a.extra or b.extra or isinstance(c, bool) or any(x != y and ONE in (x, y) for x, y in zip(a.shape, b.shape)) or a.lib != b.lib:
                return None
            return Arr(tuple(x if x == y else ite(c, x, y) for x, y in zip(a.shape, b.shape)), lambda idx: ite_any(c, a.at(*idx), b.at(*idx)), a.dt if a.dt == b.dt else "?", a.lib, merge_recs(a.rec, b.rec), a.dep or b.dep, a.t0 if a.t0 is not None else b.t0)
        if a.extra.get("opaque") or b.extra.get("opaque"):
            return None
        # keep scatter structure over a common base
        if isinstance(a, UpdArr) and a.base is b:
            return UpdArr(b, a.region, lambda idx: ite_any(c, a.val(idx), b.at(*idx)))
        if isinstance(b, UpdArr) and b.base is a:
            return UpdArr(a, b.region, lambda idx: ite_any(c, a.at(*idx), b.val(idx)))
        if isinstance(a, UpdArr) and isinstance(b, UpdArr) and a.region == b.region and a.base is b.base:
            return UpdArr(a.base, a.region, lambda idx: ite_any(c, a.val(idx), b.val(idx)))
        rec = merge_recs(a.rec, b.rec)
        return Arr(a.shape, lambda idx: ite_any(c, a.at(*idx), b.at(*idx)), a.dt if a.dt == b.dt else "?",
                   a.lib, rec, a.dep or b.dep, a.t0 if a.t0 is not None else b.t0)

    def merge_content(self, c, a, b, st):
        if a is b:
            return a
        if isinstance(a, EnvC) and isinstance(b, EnvC):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                d[k] = self.merge_vals(c, a.d.get(k, MISSING), b.d.get(k, MISSING), st)
            return EnvC(d, a.parent)
        if isinstance(a, InstC) and isinstance(b, InstC) and a.cls is b.cls:
            d = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                d[k] = self.merge_vals(c, a.attrs.get(k, MISSING), b.attrs.get(k, MISSING), st)
            return InstC(a.cls, d)
        if isinstance(a, Arr) and isinstance(b, Arr):
            m = self.merge_arr(c, a, b)
            if m is not None:
                return m
            return Arr(a.shape, lambda idx: P(T.atom("unk", "merge of arrays of different shape")), a.dt, a.lib)
        if isinstance(a, ListC) and isinstance(b, ListC):
            if len(a.segs) == len(b.segs):
                out = []
                for x, y in zip(a.segs, b.segs):
                    if x is y:
                        out.append(x)
                    elif x[0] == "item" and y[0] == "item":
                        out.append(("item", self.merge_vals(c, x[1], y[1], st)))
                    elif x[0] == y[0] and x[:3] == y[:3] and x[0] == "phi":
                        out.append(x)
                    else:
                        out = None
                        break
                if out is not None:
                    return ListC(out, a.tag)
            return CondC(c, a, b)
        if isinstance(a, DictC) and isinstance(b, DictC) and a.base == b.base and a.over == b.over:
            ka = {k: v for k, v in a.entries}
            kb = {k: v for k, v in b.entries}
            out = []
            for k in list(ka) + [k for k in kb if k not in ka]:
                out.append((k, self.merge_vals(c, ka.get(k, MISSING), kb.get(k, MISSING), st)))
            return DictC(out, a.base, a.over, a.default)
        if isinstance(a, ObjC) and isinstance(b, ObjC) and a.kind == b.kind:
            d = {}
            for k in set(a.f) | set(b.f):
                x, y = a.f.get(k), b.f.get(k)
                d[k] = x if x is y else ("merged", x, y)
            return ObjC(a.kind, d)
        gp = lambda x: isinstance(x, ObjC) and x.kind == "gprev" or isinstance(x, (ListC, CondC))
        if gp(a) and gp(b):
            return CondC(c, a, b)
        if isinstance(a, UnkListC) or isinstance(b, UnkListC):
            return UnkListC("merged")
        return None

    def join(self, c, s1, s2, base_pc):
        """gated join of two live states"""
        s = State()
        s.pc = base_pc
        s.tapes = s1.tapes
        s.loops = s1.loops
        s.clock = max(s1.clock, s2.clock)
        s.param = {**s1.param, **s2.param}
        s.memo = {**s1.memo, **{k: v for k, v in s2.memo.items()}}
        n = 0
        e1, e2 = s1.events, s2.events
        while n < len(e1) and n < len(e2) and e1[n] is e2[n]:
            n += 1
        s.events = e1[:n] + e1[n:] + e2[n:]
        s.figs = s1.figs if s1.figs == s2.figs else (("choice", c, s1.figs, s2.figs),)
        s.heap = dict(s2.heap)
        s.heap.update(s1.heap)
        diffs = [k for k, v in s1.heap.items() if k in s2.heap and s2.heap[k] is not v]
        for k in diffs:
            a, b = s1.heap[k], s2.heap[k]
            m = self.merge_content(c, a, b, s)
            if m is None:
                m = ObjC("unknown", {"why": "merge of different kinds"})
            s.heap[k] = m
        return s

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.exec(s, st, fr)

    def exec(self, n, st, fr):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            self.gap(f"statement {type(n).__name__}", n)
            return
        m(n, st, fr)

    def x_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, (ast.Yield,)):
            self.do_yield(n.value, st, fr)
            return
        self.eval(n.value, st, fr)

    def do_yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else None
        if fr.yield_cb is not None:
            fr.yield_cb(v, st)
            return None
        if fr.yield_list is not None:
            c = st.heap[fr.yield_list]
            st.heap[fr.yield_list] = ListC(c.segs + (("item", v),)) if isinstance(c, ListC) else c
            return None
        self.gap("yield", n)

    def x_Pass(self, n, st, fr):
        pass

    def x_Global(self, n, st, fr):
        fr.globals |= set(n.names)

    def x_Nonlocal(self, n, st, fr):
        fr.nonlocals |= set(n.names)

    def x_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.setvar(st, fr, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                k = self.eval(t.slice, st, fr)
                self.event(st, "del_item", n, obj=o, key=k)
                c = st.heap.get(o.id) if isinstance(o, Ref) else None
                if isinstance(c, DictC):
                    kk = self.lib.dkey(k)
                    st.heap[o.id] = DictC([(a, b) for a, b in c.entries if a != kk], c.base, c.over, c.default)
                else:
                    self.gap("del of item", n)

    def x_Import(self, n, st, fr):
        for a in n.names:
            if a.name.split(".")[0] == self.package:
                m = self.load_module(a.name)
                if a.asname:
                    self.setvar(st, fr, a.asname, m)
                else:
                    self.setvar(st, fr, a.name.split(".")[0], self.load_module(a.name.split(".")[0]))
                continue
            if a.asname:
                self.setvar(st, fr, a.asname, LibV(self.lib.canon(a.name)))
            else:
                self.setvar(st, fr, a.name.split(".")[0], LibV(self.lib.canon(a.name.split(".")[0])))

    def x_ImportFrom(self, n, st, fr):
        base = n.module or ""
        if n.level:
            pk = fr.module.name.split(".")
            if not fr.module.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[: len(pk) - (n.level - 1)]
            base = ".".join(pk + ([n.module] if n.module else []))
        if base.split(".")[0] == self.package:
            m = self.load_module(base)
            if m is None:
                self.raise_(st, "ModuleNotFoundError", n, base)
                return
            for a in n.names:
                if a.name == "*":
                    env = self.root.heap[m.env_id]
                    allv = env.d.get("__all__")
                    names = None
                    if isinstance(allv, Ref):
                        it = self.root.heap[allv.id]
                        if isinstance(it, ListC) and it.items() is not None:
                            names = [x.concrete() for x in it.items()]
                    for k, v in list(env.d.items()):
                        if (names is None and not k.startswith("_")) or (names is not None and k in names):
                            self.setvar(st, fr, k, v)
                    continue
                v = self.module_attr(m, a.name)
                if v is None:
                    self.raise_(st, "ImportError", n, f"{a.name} from {base}")
                    return
                self.setvar(st, fr, a.asname or a.name, v)
            return
        for a in n.names:
            if a.name == "*":
                fr.module.__dict__.setdefault("star_ext", []).append(base)
                continue
            x = self.ext.get((base, a.name))
            self.setvar(st, fr, a.asname or a.name, x if x is not None else LibV(self.lib.canon(base + "." + a.name)))

    def x_FunctionDef(self, n, st, fr):
        f = FuncV(n, fr.module, fr.env, n.name)
        decs = []
        for d in n.decorator_list:
            decs.append(self.eval(d, st, fr))
        f.decorators = decs
        f.defaults = [self.eval(d, st, fr) for d in n.args.defaults]
        f.kw_defaults = [None if d is None else (self.eval(d, st, fr),) for d in n.args.kw_defaults]
        f.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(n))
        self.setvar(st, fr, n.name, self.apply_decorators(f, decs, st, n))

    x_AsyncFunctionDef = x_FunctionDef

    def apply_decorators(self, f, decs, st, n):
        v = f
        for d in reversed(decs):
            nm = d.name.removeprefix("builtins.") if isinstance(d, LibV) else None
            if nm in ("property", "staticmethod", "classmethod", "functools.cached_property"):
                v = LibObj(nm.split(".")[-1].replace("cached_property", "property"), f=v)
            elif isinstance(d, MethodV) and d.name == "setter":
                prop = d.obj
                v = LibObj("property", f=prop.f["f"], setter=v)
            elif nm in ("tensorflow.function", "abc.abstractmethod", "functools.wraps", "contextlib.contextmanager",
                        "functools.lru_cache", "functools.cache", "typing.no_type_check", "typing.overload",
                        "tensorflow.autograph.experimental.do_not_convert", "abc.abstractclassmethod"):
                if nm == "contextlib.contextmanager":
                    f.is_ctx = True
                if nm in ("functools.lru_cache", "functools.cache"):
                    f.memo = self.alloc(st, EnvC({}, None)).id
            elif isinstance(d, LibObj) and d.kind in ("deco",):
                if d.f.get("name") == "functools.lru_cache":
                    f.memo = self.alloc(st, EnvC({}, None)).id
            elif isinstance(d, (FuncV, BoundV, PartialV)):
                v = self.call(d, [v], {}, n, st)
            else:
                self.gap(f"decorator {d}", n)
        return v

    def x_ClassDef(self, n, st, fr):
        bases = [self.eval(b, st, fr) for b in n.bases]
        ref = self.alloc(st, EnvC({}, fr.env))
        sub = Frame(ref.id, fr.module, fr.func)
        sub.exits = []
        self.stack.append(sub)
        try:
            self.exec_block(n.body, st, sub)
        finally:
            self.stack.pop()
        attrs = dict(st.heap[ref.id].d)
        c = ClassV(n, fr.module, n.name, bases, attrs)
        if any(isinstance(b, LibV) and b.name in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag") for b in c.mro()):
            for k, v in list(attrs.items()):
                if not k.startswith("_") and isinstance(v, (StrV, Poly, TupleV, bool)):
                    c.attrs[k] = EnumMember(c, k, v)
        for k, v in attrs.items():
            f = v
            if isinstance(v, LibObj) and v.kind in ("property", "staticmethod", "classmethod"):
                f = v.f["f"]
            if isinstance(f, FuncV):
                f.cls = c
                f.env = fr.env
        for d in n.decorator_list:
            dv = self.eval(d, st, fr)
            nm = getattr(dv, "name", None) or (dv.f.get("name") if isinstance(dv, LibObj) else None)
            if nm == "enum.unique":
                continue
            if nm == "dataclasses.dataclass":
                c.dataclass = [(s.target.id, s.value) for s in n.body if isinstance(s, ast.AnnAssign)]
            else:
                self.gap(f"class decorator {dv}", n)
        self.setvar(st, fr, n.name, c)

    def x_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else None
        if st.dead:
            return
        if fr.loop_depth:
            fr.return_in_loop = True
        fr.exits.append((st.pc, v, st.clone()))
        st.dead = "return"

    def x_Raise(self, n, st, fr):
        exc = "Exception"
        msg = None
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                fv = self.eval(e.func, st, fr)
                msg = [self.eval(a, st, fr) for a in e.args]
            else:
                fv = self.eval(e, st, fr)
            if isinstance(fv, LibV):
                exc = fv.name
            elif isinstance(fv, ClassV):
                exc = fv.name
                lb = fv.lib_bases()
                if lb:
                    exc = lb[0].name
            elif isinstance(fv, LibObj) and fv.kind == "exception":
                exc = fv.f["name"]
        self.event(st, "raise", n, exc=exc, msg=msg)
        st.dead = "raise"

    def x_Assert(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st, n)
        if c is False:
            self.raise_(st, "AssertionError", n)
        elif c is not True:
            s2 = st.clone()
            s2.pc = s2.pc + (cnot(c),)
            self.event(s2, "raise", n, exc="AssertionError", msg=None)
            st.events = s2.events
            st.pc = st.pc + (c,)

    def x_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        if st.dead:
            return
        for t in n.targets:
            self.assign(t, v, st, fr)

    def x_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.eval(n.value, st, fr)
            if not st.dead:
                self.assign(n.target, v, st, fr)

    def x_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    e_NamedExpr = x_NamedExpr

    def x_AugAssign(self, n, st, fr):
        rhs = self.eval(n.value, st, fr)
        if st.dead:
            return
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, fr, t)
            new = self.aug(cur, n.op, rhs, st, n)
            if new is not None:
                self.assign(t, new[0], st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            cur = self.getattr(o, t.attr, st, t)
            new = self.aug(cur, n.op, rhs, st, n)
            if new is not None:
                self.setattr(o, t.attr, new[0], st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval(t.slice, st, fr)
            cur = self.lib.getitem(o, k, st, t)
            new = self.lib.binop(n.op, cur, rhs, st, n)
            self.lib.setitem(o, k, new, st, t)

    def aug(self, cur, op, rhs, st, n):
        """in-place update; returns None when the object was mutated in place, else (value,)"""
        if isinstance(cur, Ref):
            c = st.heap.get(cur.id)
            if isinstance(c, (Arr, ViewC)):
                new = self.lib.binop(op, cur, rhs, st, n)
                self.event(st, "mutate", n, obj=cur, how="augassign")
                self.lib.setitem(cur, ELL, new, st, n)
                return None
            if isinstance(c, (ListC, UnkListC)) and isinstance(op, ast.Add):
                self.lib.list_extend(cur, rhs, st, n)
                return None
        return (self.lib.binop(op, cur, rhs, st, n),)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.lib.concrete_items(v, st)
                if items is None and isinstance(v, Ref) and isinstance(st.heap.get(v.id), (ListC, Arr)):
                    k = star[0]
                    after = len(t.elts) - k - 1
                    vals = [self.lib.getitem(v, T.const(j), st, t) for j in range(k)]
                    vals.append(self.lib.getitem(v, SliceV(T.const(k), T.const(-after) if after else None, None), st, t))
                    vals += [self.lib.getitem(v, T.const(j), st, t) for j in range(-after, 0)]
                    for e, x in zip(t.elts, vals):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
                    return
                if items is None:
                    u = self.gap("starred unpacking", t)
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, u, st, fr)
                    return
                k = star[0]
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, st, fr)
                mid = items[k:len(items) - after]
                self.assign(t.elts[k].value, self.alloc(st, ListC([("item", x) for x in mid])), st, fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, st, fr)
                return
            vals = self.lib.unpack(v, len(t.elts), st, t)
            if vals is None:
                u = self.gap(f"unpacking of {v}", t)
                vals = [u] * len(t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval(t.slice, st, fr)
            self.lib.setitem(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            self.gap("assignment target", t)

    def x_If(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st, n)
        if st.dead:
            return
        self.branch(c, lambda s: self.exec_block(n.body, s, fr), lambda s: self.exec_block(n.orelse, s, fr), st)

    def x_Match(self, n, st, fr):
        """match statement as the equivalent chain of conditions"""
        low = getattr(n, "_lowered", None)
        if low is None:
            low = n._lowered = lower_match(n)
        if low is False:
            self.gap("match pattern", n)
            return
        self.exec_block(low, st, fr)

    def branch(self, c, f1, f2, st):
        """run both arms (or the decided one) and join into st; returns (r1, r2)"""
        self.branches += 1
        c = self.decide(c, st)
        if c is True:
            return f1(st), None
        if c is False:
            return None, f2(st)
        base = st.pc
        s1, s2 = st.clone(), st.clone()
        s1.pc = base + (c,)
        s2.pc = base + (cnot(c),)
        r1 = f1(s1)
        r2 = f2(s2)
        if s1.dead and s2.dead:
            # both arms ended: keep events of both
            n = 0
            while n < len(s1.events) and n < len(s2.events) and s1.events[n] is s2.events[n]:
                n += 1
            ev = s1.events + s2.events[n:]
            st.assign_from(s1)
            st.events = ev
            if s1.dead != s2.dead:
                st.dead = "return" if "return" in (s1.dead, s2.dead) else s1.dead
            return r1, r2
        if s1.dead or s2.dead:
            live, dead = (s2, s1) if s1.dead else (s1, s2)
            n = 0
            while n < len(live.events) and n < len(dead.events) and live.events[n] is dead.events[n]:
                n += 1
            live.events = live.events[:n] + dead.events[n:] + live.events[n:]
            # objects allocated by the dead arm are kept (exits may reference them)
            st.assign_from(live)
            return r1, r2
        st.assign_from(self.join(c, s1, s2, base))
        return r1, r2

    def loops_over_layers(self, a):
        """the value went through a loop whose number of rounds is not known"""
        try:
            x = a.at(*[P(fresh("z", ZERO, d - 1)) for d in a.shape])
        except AnalysisGap:
            return True
        return bool({"phi", "phiarr", "after", "loopout", "havoc"} & set(x.flags())) or "dense" not in str(x)[:20000]

    def decide(self, c, st):
        """use the path condition to decide c when it is syntactically implied"""
        if c is True or c is False:
            return c
        for p in reversed(st.pc):
            if isinstance(p, Cond):
                r = assume_cond(c, p)
                if r is True or r is False:
                    return r
                c = r
        if isinstance(c, Cond) and len(st.pc) > 0:
            return T.prop_decide(c, st.pc)
        return c

    def x_With(self, n, st, fr):
        self.with_items(n.items, 0, n.body, st, fr, n)

    def with_items(self, items, k, body, st, fr, n):
        if k == len(items):
            self.exec_block(body, st, fr)
            return
        it = items[k]
        # contextmanager helper written in the repository
        e = it.context_expr
        if isinstance(e, ast.Call):
            fv = self.eval(e.func, st, fr)
            base = fv.func if isinstance(fv, BoundV) else fv
            if isinstance(base, FuncV) and getattr(base, "is_ctx", False):
                args, kw = self.eval_args(e, st, fr)

                def cb(v, s):
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, s, fr)
                    self.stack.append(fr)
                    try:
                        self.with_items(items, k + 1, body, s, fr, n)
                    finally:
                        self.stack.pop()
                self.call(fv, args, kw, e, st, yield_cb=cb)
                return
        cm = self.eval(e, st, fr)
        if st.dead:
            return
        v = self.lib.enter(cm, st, e)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, fr)
        self.with_items(items, k + 1, body, st, fr, n)
        self.lib.exit(cm, st, e)

    x_AsyncWith = x_With

    def x_Try(self, n, st, fr):
        start = st.clone()
        ev0 = len(st.events)
        nex = len(fr.exits)
        risk0 = self.risk
        self.exec_block(n.body, st, fr)
        exact = self.risk == risk0  # no subscript or call in the body is outside the models
        raises = [e for e in st.events[ev0:] if e.kind == "raise"]
        if not st.dead:
            self.exec_block(n.orelse, st, fr)
        if n.handlers:
            caught_all = False
            for h in n.handlers:
                names = set()
                if h.type is not None:
                    hv = self.eval(h.type, start, fr)
                    for x in (hv.items if isinstance(hv, TupleV) else [hv]):
                        names.add(getattr(x, "name", "?"))
                explicit = [e for e in raises if exc_matches(e.data["exc"], names) or h.type is None]
                s = start.clone()
                if explicit:
                    c = cor(*[cand(*e.pc[len(start.pc):]) for e in explicit])
                    for e in explicit:
                        st.events = [x for x in st.events if x is not e]
                    s.events = [x for x in st.events]
                    st.events = list(st.events)
                    raises = [e for e in raises if not any(e is x for x in explicit)]
                elif exact and names and names <= {"KeyError", "LookupError", "AttributeError", "NameError"}:
                    continue  # every such failure is modelled, and there is none
                else:
                    c = catom("exception-in-try", self.site(n))
                s.pc = start.pc + ((c,) if c is not True and c is not False else ())
                if h.name:
                    self.setvar(s, fr, h.name, OpaqueV(("exc", h.name)))
                self.exec_block(h.body, s, fr)
                if st.dead == "raise" and explicit:
                    st.assign_from(s)
                elif not st.dead and not s.dead:
                    j = self.join(c, s, st, start.pc)
                    st.assign_from(j)
                elif not st.dead and s.dead == "raise" and not explicit:
                    pass  # translates an exception that would have left the function anyway
                elif not st.dead and s.dead:
                    k = 0
                    while k < len(st.events) and k < len(s.events) and st.events[k] is s.events[k]:
                        k += 1
                    st.events = st.events + s.events[k:]
        if n.finalbody:
            # run the finalizer for every exit that happened inside the body as well
            dead = st.dead
            for j in range(nex, len(fr.exits)):
                pc, v, s = fr.exits[j]
                d = s.dead
                s.dead = None
                self.exec_block(n.finalbody, s, fr)
                s.dead = d
            st.dead = None
            s2 = st
            self.exec_block(n.finalbody, s2, fr)
            if not s2.dead:
                s2.dead = dead

    x_TryStar = x_Try

    def x_Break(self, n, st, fr):
        self.event(st, "break", n)
        fr.breaks.append(st.clone())
        st.dead = "break"

    def x_Continue(self, n, st, fr):
        fr.continues.append(st.clone())
        st.dead = "continue"

    def x_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)
        if st.dead:
            return

        def bind(s, v):
            self.assign(n.target, v, s, fr)

        def body(s):
            self.exec_block(n.body, s, fr)
        done = self.loop(it, bind, body, st, fr, n)
        if not st.dead and n.orelse:
            if done == "break":
                self.gap("for/else with break", n)
            self.exec_block(n.orelse, st, fr)

    x_AsyncFor = x_For

    def x_While(self, n, st, fr):
        # while v < E (or <=, !=) with v advanced by a constant: counted loop
        self.loops += 1
        t = n.test
        s0 = st.clone()
        # find increments by a summarised dry run with unknown trip count
        cnt_atom = fresh("trip", ZERO, None)
        POSITIVE.add(cnt_atom)
        self.while_broke = None
        res = self.counted_while(n, st, fr)
        if res:
            if not st.dead and n.orelse:
                if self.while_broke == "break":
                    self.gap("while/else with break", n)
                self.exec_block(n.orelse, st, fr)
            return
        c0 = self.truth(self.eval(t, st, fr), st, n)
        if c0 is False:
            return
        # unknown trip count: havoc everything the body may modify
        self.quiet += 1

        def bind(s, v):
            pass

        def body(s):
            self.eval(t, s, fr)
            self.exec_block(n.body, s, fr)
        self.summarise(st, fr, P(cnt_atom), bind, body, n, unknown_trip=True)
        self.quiet -= 1
        if not st.dead and n.orelse:
            self.gap("while/else", n)

    def counted_while(self, n, st, fr):
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return False
        for cand_side, bound_side, flip in ((t.left, t.comparators[0], False), (t.comparators[0], t.left, True)):
            if not isinstance(cand_side, ast.Name):
                continue
            v0 = self.load_name(cand_side.id, st, fr, n)
            if not isinstance(v0, Poly):
                continue
            bound = self.eval(bound_side, st.clone(), fr)
            if not isinstance(bound, Poly):
                continue
            op = type(t.ops[0])
            if flip:
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
            # dry run one iteration to learn the step
            s = st.clone()
            probe = T.fresh("w", None, None)
            self.setvar(s, fr, cand_side.id, P(probe))
            sv = (len(fr.exits), len(fr.breaks), len(fr.continues))
            gl, el = len(self.gaps), len(self.errors)
            fr.loop_depth += 1
            self.exec_block(n.body, s, fr)
            fr.loop_depth -= 1
            del fr.exits[sv[0]:], fr.breaks[sv[1]:], fr.continues[sv[2]:]
            del self.gaps[gl:]
            if s.dead:
                continue
            nv = self.load_name(cand_side.id, s, fr, n)
            if not isinstance(nv, Poly):
                continue
            step = nv - P(probe)
            if not step.is_const() or not step.t:
                continue
            b2 = self.eval(bound_side, s.clone(), fr)
            if not isinstance(b2, Poly) or b2 != bound:
                continue
            k = step.const()
            if op is ast.Lt and k == 1:
                count = bound - v0
            elif op is ast.LtE and k == 1:
                count = bound - v0 + 1
            elif op is ast.NotEq and k == 1:
                count = bound - v0
            elif op is ast.Gt and k == -1:
                count = v0 - bound
            elif op is ast.GtE and k == -1:
                count = v0 - bound + 1
            elif op is ast.Lt and k > 1:
                count = fdiv(bound - v0 + (k - 1), const(k))
            else:
                continue
            def nothing(k):
                return None
            nothing.concrete = True
            self.while_broke = self.run_seg((count, nothing), lambda s, v: None, lambda s: self.exec_block(n.body, s, fr), st, fr, n)
            return True
        return False

    # ------------------------------------------------------------ loops
    def loop(self, it, bind, body, st, fr, n):
        """iterate abstract iterable `it`"""
        self.loops += 1
        segs = self.lib.iterate(it, st, n)
        if segs is None:
            alt = self.lib.alternatives(it, st)
            if alt is not None:
                c, a, b = alt
                r1, r2 = self.branch(c, lambda s: self.loop(a, bind, body, s, fr, n), lambda s: self.loop(b, bind, body, s, fr, n), st)
                return r1 if r1 == r2 else "break" if r1 or r2 else None
            u = self.gap(f"iteration over {it}", n)
            segs = [(P(fresh("len", ZERO, None)), lambda k: u)]
        res = None
        for seg in segs:
            if st.dead:
                return res
            r = self.run_seg(seg, bind, body, st, fr, n)
            res = r or res
            if r == "break!":
                break
        return res

    def run_seg(self, seg, bind, body, st, fr, n):
        if seg[0] == "nest":
            # ('nest', atom, count, fn(atomPoly, st)->segs, keyed)
            _, cnt, fn, keysym = seg

            def ibind(s, v):
                pass
            holder = {}

            def ibody(s):
                for sub in fn(holder["v"], s):
                    self.run_seg(sub, bind, body, s, fr, n)

            def ibind2(s, v):
                holder["v"] = v
            self.summarise(st, fr, cnt, ibind2, ibody, n, keysym=keysym)
            return None
        if len(seg) == 3:
            count, fn, keysym = seg
        else:
            count, fn = seg
            keysym = None
        nb = len(fr.breaks)
        if keysym is None and count.is_const() and count.const().denominator == 1 and (
                count.const() <= UNROLL or count.const() <= 48 and getattr(fn, "concrete", False)):
            outs = []
            for k in range(int(count.const())):
                s_c = len(fr.continues)
                bind(st, callfn(fn, const(k), st))
                if st.dead:
                    return None
                body(st)
                self.merge_side(st, fr.continues, s_c, "continue")
                if len(fr.breaks) > nb:
                    if st.dead == "break":
                        bs = fr.breaks[nb:]
                        del fr.breaks[nb:]
                        outs += bs
                        break
                    outs += fr.breaks[nb:]
                    del fr.breaks[nb:]
                if st.dead:
                    break
            if outs:
                if st.dead == "break":
                    b = outs.pop()
                    ev = st.events
                    st.assign_from(b)
                    st.events = ev
                    st.dead = None
                for b in reversed(outs):
                    c = cand(*b.pc[len(st.pc):]) if len(b.pc) > len(st.pc) else cunk("break")
                    if st.dead:
                        ev = st.events
                        st.assign_from(b)
                        st.events = ev
                        st.dead = None
                    else:
                        common = common_prefix(b.pc, st.pc)
                        c = cand(*b.pc[len(common):])
                        ev = st.events
                        j = self.join(c, b, st, common)
                        j.events = ev
                        st.assign_from(j)
                return "break"
            return None
        self.summarise(st, fr, count, lambda s, v: bind(s, callfn(fn, v, s)), body, n, keysym=keysym)
        return None

    def merge_side(self, st, lst, start, kind):
        """merge states stored by `continue` back into st"""
        side = lst[start:]
        del lst[start:]
        for b in reversed(side):
            b = b.clone()
            b.dead = None
            if st.dead == kind:
                ev = st.events
                st.assign_from(b)
                st.events = merge_ev(b.events, ev)
            elif st.dead:
                ev = st.events
                st.assign_from(b)
                st.events = merge_ev(b.events, ev)
            else:
                common = common_prefix(b.pc, st.pc)
                c = cand(*b.pc[len(common):])
                j = self.join(c, b, st, common)
                st.assign_from(j)
        if st.dead == kind:
            st.dead = None

    def summarise(self, st, fr, count, bind, body, node, unknown_trip=False, keysym=None, peeled=False):
        if keysym is not None:
            i = keysym
        else:
            i = fresh("i", ZERO, count - 1)
        depth_sv = (len(fr.exits), len(fr.breaks), len(fr.continues))
        pre_ids = st.heap
        phis = {}  # loc -> phi value
        order = []
        closed = {}  # loc -> Poly (value at iteration i)
        shifted = {}  # loc -> value left behind by the previous iteration

        def install(s):
            for loc, ph in phis.items():
                v = closed.get(loc, ph)
                if loc in shifted:
                    v = shifted[loc]
                    if isinstance(v, Arr) and not isinstance(self.get_loc(st, loc), Arr):
                        v = self.alloc(s, v)
                self.set_loc(s, loc, v)

        def run():
            s = st.clone()
            s.loops = s.loops + ((i, count),)
            install(s)
            ref = dict(s.heap)
            ne, nb, nc = len(fr.exits), len(fr.breaks), len(fr.continues)
            fr.loop_depth += 1
            try:
                bind(s, P(i))
                if not s.dead:
                    body(s)
            finally:
                fr.loop_depth -= 1
            self.merge_side(s, fr.continues, nc, "continue")
            had_break = len(fr.breaks) > nb
            brk = fr.breaks[nb:]
            del fr.breaks[nb:]
            if s.dead == "break":
                had_break = True
                s.dead = None
                s.assign_from(brk[-1])
            return s, ref, had_break, len(fr.exits) > ne, brk

        gap_mark = len(self.gaps)
        had_break = False
        for rnd in range(6):
            s, ref, hb, he, brk = run()
            had_break = had_break or hb
            mods = self.diff(ref, s.heap, pre_ids)
            for b in brk:
                mods |= self.diff(ref, b.heap, pre_ids)
            new = [m for m in mods if m not in phis]
            if not new:
                break
            del fr.exits[depth_sv[0]:]
            del self.gaps[gap_mark:]
            for loc in sorted(new, key=repr):
                phis[loc] = self.make_phi(st, loc)
        # closed forms of induction variables
        if not unknown_trip and not had_break and not s.dead:
            for rnd in range(3):
                progress = False
                for loc, ph in phis.items():
                    if loc in closed or not isinstance(ph, Poly):
                        continue
                    nxt = self.get_loc(s, loc)
                    cf = self.closed_form(ph, nxt, st, loc, i, phis)
                    if cf is not None:
                        closed[loc] = cf
                        progress = True
                if not progress:
                    break
                del fr.exits[depth_sv[0]:]
                del self.gaps[gap_mark:]
                s, ref, hb, he, brk = run()
        known = False
        if any(isinstance(ph, ListC) and ph.segs[0][1] in self.phi_used for ph in phis.values() if isinstance(ph, ListC) and ph.segs and ph.segs[0][0] == "phi"):
            known = self.appended(phis, s, i)
            if known:
                for ph in phis.values():
                    if isinstance(ph, ListC) and ph.segs and ph.segs[0][0] == "phi":
                        self.phi_used.discard(ph.segs[0][1])
                del fr.exits[depth_sv[0]:]
                del self.gaps[gap_mark:]
                s, ref, hb, he, brk = run()
        if not unknown_trip and not had_break and not s.dead and not he:
            # state that the first iteration creates ("if x is None: x = ..."): the first iteration is analysed on its own
            if not peeled and keysym is None and pos(count) and any(self.first_write(ph, self.get_loc(st, loc), self.get_loc(s, loc), i) for loc, ph in phis.items()):
                del fr.exits[depth_sv[0]:]
                del self.gaps[gap_mark:]
                nc = len(fr.continues)
                bind(st, ZERO)
                if not st.dead:
                    body(st)
                self.merge_side(st, fr.continues, nc, "continue")
                if not st.dead:
                    self.summarise(st, fr, count - 1, lambda s_, v: bind(s_, v + 1), body, node, peeled=True)
                return
            # values left behind by the previous iteration
            again = False
            for loc, ph in phis.items():
                if loc in closed or loc[0] == "cont":
                    continue
                v = self.previous(ph, self.get_loc(s, loc), self.get_loc(st, loc), i, st, s)
                if v is not None:
                    shifted[loc] = v
                    again = True
            # mappings filled on demand: entry k holds what the iteration that first met key k stored
            for loc, ph in phis.items():
                if loc[0] == "cont" and isinstance(ph, DictC) and isinstance(self.get_loc(s, loc), DictC):
                    m = self.memo_entry(ph, self.get_loc(s, loc), i, s)
                    if m is not None:
                        MEMO[ph.base[1]] = (i, *m)
                        again = True
            if again:
                del fr.exits[depth_sv[0]:]
                del self.gaps[gap_mark:]
                s, ref, hb, he, brk = run()
        # lists only appended to: their length at iteration i is known, so an element appended in this iteration can be read
        # back within it
        known = not known and self.appended(phis, s, i)
        if known:
            del fr.exits[depth_sv[0]:]
            del self.gaps[gap_mark:]
            s, ref, hb, he, brk = run()
        # build the post state
        if s.dead:
            # the body always raises/returns
            ev = s.events
            st.events = ev
            if pos(count):
                st.dead = s.dead
            return
        unk = unknown_trip or had_break
        if he:
            fr.return_in_loop = True
            unk = True
        post = st.clone()
        post.events = s.events
        post.clock = s.clock
        for k, v in s.heap.items():
            if k not in pre_ids:
                post.heap[k] = v
                post.param[k] = tuple(s.param.get(k, ())) + (i,)
        for k, v in s.param.items():
            if k not in post.param:
                post.param[k] = v
        post.memo = s.memo
        post.figs = st.figs if s.figs == st.figs else (("loop", s.figs),)
        for loc, ph in phis.items():
            nxt = self.get_loc(s, loc)
            pre = self.get_loc(st, loc)
            v = self.post_value(loc, ph, nxt, pre, closed, i, count, post, unk, node)
            self.set_loc(post, loc, v)
        st.assign_from(post)

    def appended(self, phis, s, i):
        known = False
        for loc, ph in phis.items():
            nxt = self.get_loc(s, loc) if not s.dead else None
            if isinstance(ph, ListC) and isinstance(nxt, ListC) and nxt.segs and ph.segs == nxt.segs[:1] \
                    and len(nxt.segs) > 1 and all(x[0] == "item" for x in nxt.segs[1:]):
                l0 = seg_len(ph.segs[0][2].segs)
                if l0 is not None:
                    PHILEN[ph.segs[0][1]] = l0 + P(i) * (len(nxt.segs) - 1)
                    known = True
        return known

    def first_write(self, ph, pre, nxt, i):
        if isinstance(ph, PhiV):
            return ph.name in self.phi_used and (pre is None or pre is MISSING)
        if isinstance(ph, DictC) and isinstance(nxt, DictC) and nxt.base == ph.base and not nxt.over:
            return any(isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING or "inphi" in repr(v.c)[:60]) and not self.mentions(k, i) for k, v in nxt.entries)
        if isinstance(ph, ListC) and isinstance(nxt, ListC) and isinstance(pre, ListC):
            # elements of a list that starts empty are read back by later iterations
            return not pre.segs and len(ph.segs) == 1 and ph.segs[0][0] == "phi" and ph.segs[0][1] in self.phi_used and nxt.segs[:1] == ph.segs and len(nxt.segs) > 1
        return False

    def mentions(self, k, i):
        if isinstance(k, (Poly, Cond)):
            return i in k.free()
        if isinstance(k, TupleV):
            return any(self.mentions(x, i) for x in k.items)
        if isinstance(k, StrV):
            return any(self.mentions(y, i) for x in k.parts for y in (x if isinstance(x, tuple) else (x,)))
        return not isinstance(k, (str, bool, type(None)))

    def previous(self, ph, nxt, pre, i, st, s):
        if isinstance(ph, Poly) and isinstance(nxt, Poly) and isinstance(pre, Poly):
            a = ph.single_atom()
            if a is not None and a.args[0] in self.phi_used and "phi" not in nxt.flags() and "phi" not in pre.flags():
                return ite(cle(P(i)), pre, subst(nxt, {i: P(i) - 1}))
            return None
        if isinstance(ph, Ref) and self.is_arr(s, nxt) and self.is_arr(st, pre) and ph.id in s.heap:
            pa = self.deref(s, ph)
            if not isinstance(pa, Arr) or pa.extra.get("phi") not in self.phi_used:
                return None
            x = nxt if isinstance(nxt, Arr) else self.deref(s, nxt)
            y = pre if isinstance(pre, Arr) else self.deref(st, pre)
            if x.ndim != y.ndim or any("phi" in P(x.at(*[P(fresh("z", ZERO, d - 1)) for d in x.shape])).flags() for _ in (0,)):
                return None
            if any("phi" in P(d).flags() for d in x.shape):
                return None
            x1 = self.subst_arr(x, {i: P(i) - 1})
            sh = tuple(b if a == b else ite(cle(P(i)), b, a) for a, b in zip(x1.shape, y.shape))
            return Arr(sh, lambda ix: ite(cle(P(i)), P(y.at(*ix)), P(x1.at(*ix))), x.dt, x.lib)
        return None

    def memo_entry(self, ph, nxt, i, s):
        """(key, stored value) of a mapping whose only update is `insert when absent`"""
        if nxt.base != ph.base or nxt.over or len(nxt.entries) != 1 or ph.base[1] in MEMO:
            return None
        k, v = nxt.entries[0]
        if not isinstance(k, (Poly, TupleV)) or not self.mentions(k, i):
            return None
        if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
            v = v.a if v.b is MISSING else v.b
        elif isinstance(v, ChoiceV):
            old = lambda x: isinstance(x, PhiV) or isinstance(x, Ref) and isinstance(s.heap.get(x.id), ObjC) and s.heap[x.id].kind == "gprev" and set(s.heap[x.id].f) == {"uid", "k"}
            if old(v.a) == old(v.b):
                return None
            v = v.b if old(v.a) else v.a
        else:
            return None
        if isinstance(v, Ref) and isinstance(s.heap.get(v.id), ObjC) and s.heap[v.id].kind == "gprev":
            return None
        v = self.frozen(v, s)
        return None if v is None else (k, v)

    def frozen(self, v, s):
        """a value that does not refer to heap cells of the state (immutable snapshot), or None"""
        if isinstance(v, (Poly, Cond, bool)):
            return v if not isinstance(v, (Poly,)) or "phi" not in v.flags() else None
        if isinstance(v, Arr):
            return v
        if isinstance(v, Ref):
            c = s.heap.get(v.id)
            if isinstance(c, (Arr, ViewC)):
                a = self.deref(s, v)
                if "phi" in P(a.at(*[P(fresh("z", ZERO, d - 1)) for d in a.shape])).flags():
                    return None
                return ("ref", a)
            return None
        if isinstance(v, TupleV):
            xs = [self.frozen(x, s) for x in v.items]
            return None if any(x is None for x in xs) else ("tuple", xs)
        return None

    def thaw(self, v, st, f):
        """the value a frozen snapshot stands for, with f applied to its terms"""
        if isinstance(v, tuple) and v[0] == "tuple":
            return TupleV([self.thaw(x, st, f) for x in v[1]])
        if isinstance(v, tuple):
            return self.alloc(st, self.thaw(v[1], st, f))
        if isinstance(v, Arr):
            return Arr(tuple(f(P(d)) for d in v.shape), lambda ix: f(v.at(*ix)), v.dt, v.lib)
        return f(v)

    def diff(self, h0, h1, pre_ids):
        out = set()
        for k, a in h0.items():
            if k not in pre_ids:
                continue
            b = h1.get(k)
            if a is b or b is None:
                continue
            if isinstance(a, EnvC) and isinstance(b, EnvC):
                for nm, v in b.d.items():
                    if not same(a.d.get(nm, MISSING), v):
                        out.add(("env", k, nm))
            elif isinstance(a, InstC) and isinstance(b, InstC):
                for nm, v in b.attrs.items():
                    if not same(a.attrs.get(nm, MISSING), v):
                        out.add(("attr", k, nm))
            else:
                out.add(("cont", k, ""))
        return out

    def get_loc(self, st, loc):
        kind, k, nm = loc
        c = st.heap.get(k)
        if kind == "env":
            return c.d.get(nm, MISSING)
        if kind == "attr":
            return c.attrs.get(nm, MISSING)
        return c

    def set_loc(self, st, loc, v):
        kind, k, nm = loc
        c = st.heap.get(k)
        if kind == "env":
            d = dict(c.d)
            d[nm] = v
            st.heap[k] = EnvC(d, c.parent)
        elif kind == "attr":
            d = dict(c.attrs)
            d[nm] = v
            st.heap[k] = InstC(c.cls, d)
        else:
            st.heap[k] = v

    dict_owner = {}

    def make_phi(self, st, loc):
        pre = self.get_loc(st, loc)
        uid = f"phi#{new_id()}:{loc[2]}"
        if loc[0] in ("env", "attr"):
            if isinstance(pre, Poly):
                a = atom("phi", uid)
                if is_int(pre):
                    INTS.add(a)
                return P(a)
            if isinstance(pre, (bool, Cond)):
                return catom("phi", P(atom("phi", uid)))
            if self.is_arr(st, pre):
                arr = pre if isinstance(pre, Arr) else self.deref(st, pre)
                ph = Arr(arr.shape, lambda idx: P(atom("phiarr", uid, idx)), arr.dt, arr.lib, arr.rec, arr.dep, arr.t0,
                         {"phi": uid})
                if isinstance(pre, Arr):
                    return ph
                return self.alloc(st, ph)
            if isinstance(pre, Ref) and type(st.heap.get(pre.id)) is ListC and st.heap[pre.id].tag == ListC(()).tag:
                # a list rebuilt by every iteration (out = out + [..])
                return self.alloc(st, ListC((("phi", uid, st.heap[pre.id]),), st.heap[pre.id].tag))
            return PhiV(uid, pre)
        if isinstance(pre, Arr):
            return Arr(pre.shape, lambda idx: P(atom("phiarr", uid, idx)), pre.dt, pre.lib, pre.rec, pre.dep, pre.t0,
                       {"phi": uid})
        if isinstance(pre, ListC):
            return ListC((("phi", uid, pre),), pre.tag)
        if isinstance(pre, DictC):
            return DictC((), ("phi", uid, pre), (), pre.default)
        if isinstance(pre, ObjC):
            return pre
        return UnkListC("loop-carried")

    def closed_form(self, ph, nxt, st, loc, i, phis):
        if not isinstance(nxt, Poly):
            return None
        pa = ph.single_atom()
        pre = self.get_loc(st, loc)
        if nxt == ph:
            return pre
        d = strip_phi(nxt, pa)
        if d is None:
            return None
        kind, e = d
        if "phi" in e.flags():
            return None
        if kind == "add":
            w = fresh("s", ZERO, P(i) - 1)
            if i in e.free():
                return pre + mk_sum(w, P(i), subst(e, {i: P(w)}))
            return pre + P(i) * e
        if kind == "mul" and i not in e.free():
            return pre * power(e, P(i))
        return None

    def post_value(self, loc, ph, nxt, pre, closed, i, count, post, unk, node):
        if loc[0] == "cont":
            return self.post_content(loc, ph, nxt, pre, i, count, post, unk, node)
        if same(nxt, ph) and loc not in closed:
            return pre
        if unk:
            if isinstance(nxt, (Poly, bool, Cond)) or isinstance(pre, (Poly, bool, Cond)):
                return P(atom("unk", f"{loc[2]} after a loop of unknown trip count"))
            return self.mk_unknown(f"{loc[2]} after a loop of unknown trip count")
        if loc in closed:
            return subst(closed[loc], {i: count})
        if isinstance(nxt, Poly) and isinstance(ph, Poly):
            pa = ph.single_atom()
            d = strip_phi(nxt, pa)
            if d is not None and "phi" not in d[1].flags():
                kind, e = d
                if kind == "add":
                    return pre + mk_sum(i, count, e)
                if kind == "set":
                    pass
                if kind in ("max", "min"):
                    return mk_fn(kind, pre, mk_red(kind, i, count, e))
            if "phi" not in nxt.flags():
                return self.last(nxt, pre, i, count, post)
            # reductions through the max/min atom
            return P(atom("unk", f"loop-carried value of {loc[2]}"))
        if isinstance(nxt, Poly):
            if "phi" in nxt.flags():
                return P(atom("unk", f"loop-carried value of {loc[2]}"))
            return self.last(nxt, pre, i, count, post)
        if isinstance(nxt, Cond) and "phi" in nxt.flags:
            if isinstance(ph, Cond):
                w = nxt
                # first-iteration flags: set once, never cleared
                return cunk(f"loop-carried flag {loc[2]}")
            return cunk(f"loop-carried flag {loc[2]}")
        if self.is_arr(post, nxt):
            arr = nxt if isinstance(nxt, Arr) else self.deref(post, nxt)
            pharr = None
            if self.is_arr(post, ph):
                pharr = ph if isinstance(ph, Arr) else post.heap.get(ph.id)
            if pharr is not None and isinstance(pharr, Arr) and pharr.extra.get("phi"):
                uid = pharr.extra["phi"]
                prearr = pre if isinstance(pre, Arr) else self.deref(post, pre)
                v = self.post_array(uid, arr, prearr, i, count)
                if isinstance(nxt, Arr):
                    return v
                return self.alloc(post, v)
            return self.instantiate(nxt, {i: count - 1}, post)
        if isinstance(nxt, PhiV):
            return pre
        c0 = post.heap.get(ph.id) if isinstance(ph, Ref) else None
        if isinstance(c0, (ListC, UnkListC)):
            if not (isinstance(c0, ListC) and len(c0.segs) == 1 and c0.segs[0][0] == "phi"):
                post.heap[pre.id] = UnkListC("rebound and changed in a loop")
                return self.mk_unknown(f"{loc[2]} after a loop")
            c1 = post.heap.get(nxt.id) if isinstance(nxt, Ref) else None
            if isinstance(c1, ListC) and any(s[0] == "phi" and s[1] == c0.segs[0][1] for s in c1.segs):
                r = self.post_content(loc, c0, c1, c0.segs[0][2], i, count, post, unk, node)
                return self.alloc(post, r)
            if not isinstance(nxt, Ref):
                return self.mk_unknown(f"{loc[2]} after a loop")
        return self.instantiate(nxt, {i: count - 1}, post)

    def mk_unknown(self, why):
        return Unknown(why)

    def last(self, nxt, pre, i, count, post):
        v = subst(nxt, {i: count - 1})
        if pos(count) or not isinstance(pre, (Poly, bool, Cond)):
            return v
        return ite(cle(1 - count), v, P(pre))

    def post_content(self, loc, ph, nxt, pre, i, count, post, unk, node):
        if nxt is ph:
            return pre
        if isinstance(ph, ListC) and isinstance(nxt, ListC):
            if unk:
                return UnkListC("list extended in a loop of unknown trip count", (pre, nxt))
            if nxt.segs and nxt.segs[0][0] == "phi" and nxt.segs[0][1] == ph.segs[0][1] and not any(
                    s[0] == "phi" for s in nxt.segs[1:]):
                tail = nxt.segs[1:]
                if not tail:
                    return pre
                sets = [s for s in tail if s[0] == "set"]
                if sets:
                    return self.post_list_sets(pre, tail, i, count)
                return ListC(pre.segs + (("comp", i, count, tail),), pre.tag)
            if len(nxt.segs) > 1 and nxt.segs[-1][0] == "phi" and nxt.segs[-1][1] == ph.segs[0][1] and all(s[0] == "item" for s in nxt.segs[:-1]):
                # every iteration puts its elements in front: the last iteration's come first
                j = fresh("i", ZERO, count - 1)
                head = tuple(("item", self.instantiate(s[1], {i: count - 1 - P(j)}, post)) for s in nxt.segs[:-1])
                return ListC((("comp", j, count, head),) + tuple(pre.segs), pre.tag)
            return UnkListC("list updated irregularly in a loop")
        if isinstance(ph, Arr) and isinstance(nxt, Arr):
            if unk:
                return Arr(pre.shape, lambda idx: P(atom("unk", "array written in a loop of unknown trip count")), pre.dt, pre.lib)
            return self.post_array(ph.extra.get("phi"), nxt, pre, i, count)
        if isinstance(ph, DictC) and isinstance(nxt, DictC):
            return self.lib.post_dict(ph, nxt, pre, i, count, post, unk, node)
        if isinstance(nxt, ObjC):
            return nxt
        if isinstance(nxt, EnvC) or isinstance(nxt, InstC):
            return nxt
        return UnkListC("loop-carried container")

    def post_list_sets(self, pre, tail, i, count):
        items = pre.items()
        sets = [s for s in tail if s[0] == "set"]
        if len(sets) == len(tail) == 1:
            idx, v = sets[0][1], sets[0][2]
            total = seg_len(pre.segs)
            if isinstance(idx, Poly) and total is not None and idx == P(i) and total == count:
                return ListC((("comp", i, count, (("item", v),)),), pre.tag)
        return UnkListC("list item assignment in a loop")

    def post_array(self, uid, nxt, pre, i, count):
        chain = []
        cur = nxt
        while isinstance(cur, UpdArr):
            chain.append(cur)
            cur = cur.base
        if not (cur.extra.get("phi") == uid):
            # whole-array replacement each iteration
            full = tuple(("sl", ZERO, s) for s in nxt.shape)
            chain = [None]
            upds = [(full, lambda idx: nxt.at(*idx), nxt)]
        else:
            upds = [(u.region, u.val, u) for u in reversed(chain)]
        res = pre
        rec = nxt.rec
        for region, val, u in upds:
            res = self.scatter(uid, res, pre, region, val, i, count, u)
        if nxt.lib == "tf":
            res.rec, res.dep, res.t0 = nxt.rec, nxt.dep, nxt.t0
        return res

    def scatter(self, uid, base, pre, region, val, i, count, u):
        def region_dep(r):
            return any(i in x.free() for x in r[1:])
        dep_axes = [k for k, r in enumerate(region) if region_dep(r)]

        def clean(v, idx, axis, own):
            """replace reads of the loop-carried array inside iteration i"""
            if not isinstance(v, Poly) or "phi" not in v.flags():
                return v
            for _ in range(4):          # reads nested in the index of other reads need another round
                mp = {}
                for a in collect_atoms(v, "phiarr"):
                    if a.args[0] != uid:
                        continue
                    idx2 = a.args[1]
                    ok = False
                    if axis is not None:
                        r = region[axis]
                        d = idx2[axis]
                        if r[0] == "pt":
                            ok = d == r[1]
                        elif r[0] == "st":
                            ok = False
                        else:
                            ok = d == own or (nonneg(d - r[1]) and nonneg(r[1] + r[2] - 1 - d))
                    if ok:
                        mp[a] = pre.at(*idx2)
                if not mp:
                    break
                v = subst(v, mp)
                if not isinstance(v, Poly) or "phi" not in v.flags():
                    break
            return v
        if not dep_axes:
            def acc(idx):
                v = val(idx)
                if not isinstance(v, Poly):
                    if isinstance(v, Cond) and i in v.free:
                        return cunk("loop-carried boolean array element")
                    return v
                if "phi" not in v.flags():
                    return subst(v, {i: count - 1})
                pa = atom("phiarr", uid, idx)
                d = strip_phi(v, pa)
                if d is not None and "phi" not in d[1].flags():
                    if d[0] == "add":
                        return P(base.at(*idx)) + mk_sum(i, count, d[1])
                    if d[0] in ("max", "min"):
                        return mk_fn(d[0], P(base.at(*idx)), mk_red(d[0], i, count, d[1]))
                return P(atom("unk", "loop-carried array element"))
            return UpdArr(base, region, acc)
        ax = None
        for k in dep_axes:
            r = region[k]
            e = r[1]
            c = e - subst(e, {i: ZERO})
            q, rr = _split_by(c, i)
            if q is not None and rr == ZERO and i not in q.free():
                ax = (k, q, subst(e, {i: ZERO}))
                break
        if ax is None:
            return Arr(base.shape, lambda idx: P(atom("unk", "array write at an index the loop summary cannot invert")),
                       base.dt, base.lib)
        k, c, d = ax
        r = region[k]
        simple = len(dep_axes) == 1
        if any(rg[0] == "st" for rg in region):
            if not (simple and r[0] == "st" and c == ONE and nonneg(r[3] - count)) or i in r[3].free():
                return Arr(base.shape, lambda idx: P(atom("unk", "strided writes the loop summary cannot invert")), base.dt, base.lib)

            def strided(idx):
                # the writes of different iterations interleave without overlap
                s = mod(idx[k] - d, r[3])
                v = clean(val(idx), idx, k, None)
                v = subst(v, {i: s}) if isinstance(v, (Poly, Cond)) else v
                cs = [cle(d - idx[k]), clt(s - count)]
                if r[2] != fdiv(base.shape[k] - r[1] + r[3] - 1, r[3]):
                    cs.append(clt(fdiv(idx[k] - d, r[3]) - subst(r[2], {i: s})))
                for q, rg in enumerate(region):
                    if q != k:
                        cs += [ceq(idx[q] - rg[1])] if rg[0] == "pt" else [cle(rg[1] - idx[q]), clt(idx[q] - rg[1] - rg[2])]
                cc = cand(*cs)
                return base.at(*idx) if cc is False else ite_any(cc, v, base.at(*idx))
            return Arr(base.shape, strided, base.dt, base.lib)

        def istar(idx):
            e = idx[k] - d
            if c == ONE:
                if r[0] == "pt":
                    return e
                return fdiv(e, ONE) if r[2] == ONE else None
            if c == const(-1):
                return -e if r[0] == "pt" else None
            return fdiv(e, c)

        def newval(idx):
            s = istar(idx)
            if s is None:
                return P(atom("unk", "overlapping slice writes"))
            v = val(idx)
            v = clean(v, idx, k, idx[k])
            if isinstance(v, (Poly, Cond)):
                if "phi" in v.flags() if isinstance(v, Poly) else False:
                    v2 = subst(v, {i: s})
                    return v2
                return subst(v, {i: s})
            return v
        if simple and r[0] == "pt" and c == ONE:
            nr = ("sl", d, count)
        elif simple and r[0] == "pt" and c == const(-1):
            nr = ("sl", d - count + 1, count)
        elif simple and r[0] == "sl" and r[2] == c and i not in r[2].free():
            nr = ("sl", d, c * count)
        else:
            nr = None
        if nr is not None:
            region2 = tuple(nr if j == k else rg for j, rg in enumerate(region))
            return UpdArr(base, region2, newval)

        # general scatter
        def elem(idx):
            s = istar(idx)
            if s is None:
                return P(atom("unk", "overlapping slice writes"))
            cs = [cle(-s), clt(s - count)]
            for j, rg in enumerate(region):
                x = tuple(subst(y, {i: s}) for y in rg[1:])
                if rg[0] == "pt":
                    cs.append(ceq(idx[j] - x[0]))
                else:
                    cs.append(cle(x[0] - idx[j]))
                    cs.append(clt(idx[j] - x[0] - x[1]))
            cc = cand(*cs)
            if cc is False:
                return base.at(*idx)
            return ite_any(cc, newval(idx), base.at(*idx))
        return Arr(base.shape, elem, base.dt, base.lib, base.rec, base.dep, base.t0)

    # ------------------------------------------------------ instantiation
    def instantiate(self, v, mp, st):
        """substitute loop atoms in a value; objects created per iteration are copied"""
        if isinstance(v, (Poly, Cond)):
            return subst(v, mp)
        if v is None or isinstance(v, (bool, LibV, ClassV, ModuleV)) or v is MISSING:
            return v
        if isinstance(v, Arr):
            return self.subst_arr(v, mp)
        if isinstance(v, TupleV):
            return TupleV([self.instantiate(x, mp, st) for x in v.items])
        if isinstance(v, Ref):
            pr = st.param.get(v.id, ())
            hit = [a for a in pr if a in mp]
            if not hit:
                return v
            key = (v.id, tuple((a, mp[a]) for a in hit))
            r = st.memo.get(key)
            if r is not None and r in st.heap:
                return Ref(r)
            nid = new_id()
            st.memo[key] = nid
            self.origin[nid] = v.id
            c = st.heap[v.id]
            st.heap[nid] = None
            st.heap[nid] = self.inst_content(c, mp, st)
            rest = tuple(a for a in pr if a not in mp)
            if rest:
                st.param[nid] = rest
            return Ref(nid)
        if isinstance(v, StrV):
            return StrV([subst(p, mp) if isinstance(p, (Poly, tuple)) else p for p in v.parts], v.path)
        if isinstance(v, ChoiceV):
            c = subst(v.c, mp)
            if c is True:
                return self.instantiate(v.a, mp, st)
            if c is False:
                return self.instantiate(v.b, mp, st)
            return self.merge_vals(c, self.instantiate(v.a, mp, st), self.instantiate(v.b, mp, st), st)
        if isinstance(v, BoundV):
            return BoundV(v.func, self.instantiate(v.self_v, mp, st))
        if isinstance(v, FuncV):
            pr = st.param.get(v.env, ()) if v.env is not None else ()
            if any(a in mp for a in pr):
                f = FuncV(v.node, v.module, self.instantiate(Ref(v.env), mp, st).id, v.name, v.cls, v.decorators)
                f.defaults, f.kw_defaults = v.defaults, v.kw_defaults
                f.is_gen = getattr(v, "is_gen", False)
                return f
            return v
        if isinstance(v, LibObj):
            return LibObj(v.kind, **{k: self.instantiate(x, mp, st) if isinstance(x, (V, Poly, Cond)) else x
                                     for k, x in v.f.items()})
        if isinstance(v, PolyObj):
            return PolyObj([(subst(c, mp), subst(n, mp), a, b, k) for c, n, a, b, k in v.terms])
        if isinstance(v, OpaqueDict):
            return OpaqueDict(subst_key(v.key, mp), lambda k: self.instantiate(v.value_of(k), mp, st))
        if isinstance(v, OpaqueSeq):
            return OpaqueSeq(subst_key(v.key, mp), subst(v.length, mp), lambda k: self.instantiate(v.elem(k), mp, st))
        if isinstance(v, VecResult):
            return VecResult(lambda k: self.inst_at(v.fn, k, mp, st))
        if isinstance(v, PartialV):
            return PartialV(self.instantiate(v.f, mp, st), [self.instantiate(x, mp, st) for x in v.args], {k: self.instantiate(x, mp, st) for k, x in v.kwargs.items()})
        if isinstance(v, RangeV):
            return RangeV(*[subst(x, mp) if isinstance(x, Poly) else x for x in (v.start, v.count, v.step)])
        if isinstance(v, (ZipV, MapV)):
            its = [self.instantiate(x, mp, st) for x in v.its]
            return ZipV(its) if isinstance(v, ZipV) else MapV(self.instantiate(v.f, mp, st), its)
        if isinstance(v, EnumV):
            return EnumV(self.instantiate(v.it, mp, st), self.instantiate(v.start, mp, st))
        if isinstance(v, RevV):
            return RevV(self.instantiate(v.it, mp, st))
        if isinstance(v, DictViewV):
            return DictViewV(self.instantiate(v.d, mp, st), v.what)
        if isinstance(v, OpaqueV):
            return OpaqueV(subst_key(v.key, mp), v.typ, v.attrs, v.methods)
        if isinstance(v, UserFn):
            return UserFn(subst_key(v.key, mp), v.mode, v.handler)
        if isinstance(v, SliceV):
            return SliceV(*[self.instantiate(x, mp, st) for x in (v.lo, v.hi, v.step)])
        return v

    def inst_at(self, fn, k, mp, st):
        """instantiate fn(k) without touching k itself, which belongs to the reader"""
        if not isinstance(k, Poly) or subst(k, mp) == k:
            return self.instantiate(fn(k), mp, st)
        z = T.fresh("k")
        return self.instantiate(self.instantiate(fn(P(z)), mp, st), {z: k}, st)

    def subst_arr(self, v, mp):
        keys = mp

        def f(idx):
            r = v.at(*idx)
            return subst(r, keys) if isinstance(r, (Poly, Cond)) else r
        ex = {}
        for k, x in v.extra.items():
            ex[k] = self._subst_extra(x, mp)
        return Arr([subst(s, mp) for s in v.shape], f, v.dt, v.lib, v.rec, v.dep, v.t0, ex)

    def _subst_extra(self, x, mp):
        if isinstance(x, (Poly, Cond)):
            return subst(x, mp)
        if isinstance(x, Arr):
            return self.subst_arr(x, mp)
        if isinstance(x, tuple):
            return tuple(self._subst_extra(y, mp) for y in x)
        if isinstance(x, list):
            return [self._subst_extra(y, mp) for y in x]
        return x

    def inst_content(self, c, mp, st):
        if isinstance(c, Arr):
            return self.subst_arr(c, mp)
        if isinstance(c, ListC):
            return ListC([self.inst_seg(s, mp, st) for s in c.segs], c.tag)
        if isinstance(c, InstC):
            return InstC(c.cls, {k: self.instantiate(x, mp, st) for k, x in c.attrs.items()})
        if isinstance(c, EnvC):
            return EnvC({k: self.instantiate(x, mp, st) for k, x in c.d.items()}, c.parent)
        if isinstance(c, DictC):
            return DictC([(subst(k, mp) if isinstance(k, Poly) else k, self.instantiate(x, mp, st)) for k, x in c.entries],
                         c.base, tuple((o[0], o[1], self.instantiate(o[2], mp, st)) for o in c.over), c.default)
        if isinstance(c, ObjC):
            return ObjC(c.kind, {k: (self.instantiate(x, mp, st) if isinstance(x, (V, Poly, Cond)) else x) for k, x in c.f.items()})
        if isinstance(c, ViewC) and c.spec[0] == "remap":
            b = self.instantiate(Ref(c.base), mp, st)
            r, fwd = c.spec[1], c.spec[2]
            ba = self.deref(st, b)
            return Arr(tuple(subst(d, mp) for d in r.shape), lambda idx: ba.at(*[subst(z, mp) for z in fwd(idx)]), ba.dt, "np")
        if isinstance(c, ViewC):
            return ViewC(self.instantiate(Ref(c.base), mp, st).id, self._subst_spec(c.spec, mp))
        return c

    def _subst_spec(self, spec, mp):
        return tuple(tuple(subst(y, mp) if isinstance(y, (Poly, Cond)) else y for y in x) if isinstance(x, tuple) else x for x in spec)

    def inst_seg(self, s, mp, st):
        if s[0] == "item":
            return ("item", self.instantiate(s[1], mp, st))
        if s[0] == "comp":
            return ("comp", s[1], subst(s[2], mp), tuple(self.inst_seg(x, mp, st) for x in s[3]))
        if s[0] == "rep":
            return ("rep", self.instantiate(s[1], mp, st), subst(s[2], mp))
        return s

    # ------------------------------------------------------------ expressions
    def eval(self, n, st, fr):
        if st.dead:
            return Unknown("dead code")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.gap(f"expression {type(n).__name__}", n)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        v = n.value
        if v is None or v is True or v is False:
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return P(atom("fn", "const", repr(v)))
            p = P(v)
            return p
        if isinstance(v, str):
            return StrV([v])
        if v is Ellipsis:
            return ELL
        return OpaqueV(("const", repr(v)))

    def load_name(self, name, st, fr, n):
        v = self.lookup(st, fr.env, name)
        if v is MISSING:
            b = self.lib.builtin(name)
            if b is not None:
                return b
            stars = fr.module.__dict__.get("star_ext")
            for m in stars or ():
                if (m, name) in self.ext:
                    return self.ext[(m, name)]
            if stars:
                return OpaqueV(("ext", stars[0], name), "ext")
            self.raise_(st, "NameError", n, name)
            return Unknown(f"unbound name {name}")
        if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
            return self.maybe_unbound(v, name, "NameError", st, n)
        return v

    def maybe_unbound(self, v, name, exc, st, n):
        """a name or attribute bound on some paths only"""
        c = v.c if v.a is MISSING else cnot(v.c)  # condition under which it is unbound
        c = self.decide(c, st)
        if c is True:
            self.raise_(st, exc, n, name)
            return Unknown("unbound")
        if c is not False:
            s2 = st.clone()
            s2.pc = s2.pc + (c,)
            self.event(s2, "raise", n, exc=exc, msg=name)
            st.events = s2.events
            st.pc = st.pc + (cnot(c),)
        return v.b if v.a is MISSING else v.a

    def e_Name(self, n, st, fr):
        return self.note_phi(self.load_name(n.id, st, fr, n), st)

    def note_phi(self, v, st):
        """a loop-carried value is read before this iteration has written it"""
        if isinstance(v, PhiV):
            self.phi_used.add(v.name)
        elif isinstance(v, Poly):
            a = v.single_atom()
            if a is not None and a.kind == "phi":
                self.phi_used.add(a.args[0])
        elif isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, Arr) and c.extra.get("phi"):
                self.phi_used.add(c.extra["phi"])
        return v

    def e_Tuple(self, n, st, fr):
        items = self.elts(n.elts, st, fr, n)
        if items is None:
            return self.gap("starred tuple", n)
        return TupleV(items)

    def elts(self, elts, st, fr, n):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                it = self.lib.concrete_items(v, st)
                if it is None:
                    return None
                out += it
            else:
                out.append(self.eval(e, st, fr))
        return out

    def e_List(self, n, st, fr):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                sg = self.lib.to_segs(v, st, n)
                if sg is None:
                    return self.gap("starred list", n)
                segs += list(sg)
            else:
                segs.append(("item", self.eval(e, st, fr)))
        return self.alloc(st, ListC(segs))

    def e_Set(self, n, st, fr):
        items = self.elts(n.elts, st, fr, n)
        return self.alloc(st, ListC([("item", x) for x in items], "set"))

    def e_Dict(self, n, st, fr):
        entries = []
        base = None
        over = ()
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st, fr)
                if isinstance(d, Ref) and isinstance(st.heap.get(d.id), DictC):
                    dc = st.heap[d.id]
                    for kk, vv in dc.entries:
                        entries = [(a, b) for a, b in entries if a != kk] + [(kk, vv)]
                    if dc.base is not None:
                        base = dc.base
                        over = dc.over
                elif isinstance(d, OpaqueDict):
                    base = d
                elif isinstance(d, OpaqueV):
                    base = self.lib.as_opaque_dict(d)
                else:
                    return self.gap("dict unpack", n)
                continue
            kv = self.lib.dkey(self.eval(k, st, fr))
            vv = self.eval(v, st, fr)
            entries = [(a, b) for a, b in entries if a != kv] + [(kv, vv)]
        return self.alloc(st, DictC(entries, base, over))

    def e_JoinedStr(self, n, st, fr):
        vals = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                vals.append((StrV([v.value]), "", -1))
            else:
                x = self.eval(v.value, st, fr)
                spec = ""
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st, fr)
                    spec = sp.concrete() if isinstance(sp, StrV) and sp.concrete() is not None else repr(getattr(sp, "parts", sp))
                vals.append((x, spec, v.conversion if v.conversion is not None else -1))
        if st.dead:
            return Unknown("dead")

        def build(xs):
            c = self.lib.str_choice(xs, {})
            if c is not None:
                pick = lambda v, side: (v.a if side else v.b) if isinstance(v, ChoiceV) and v.c == c else v
                return self.merge_vals(c, build([pick(v, True) for v in xs]), build([pick(v, False) for v in xs]), st)
            parts = []
            for x, (_, spec, conv) in zip(xs, vals):
                parts += self.lib.fmt_parts(x, spec, conv, st)
            return StrV(parts)
        return build([x for x, _, _ in vals])

    def e_FormattedValue(self, n, st, fr):
        return self.lib.to_str(self.eval(n.value, st, fr), st)

    def e_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        if st.dead:
            return Unknown("dead")
        return self.note_phi(self.getattr(o, n.attr, st, n), st)

    def getattr(self, o, name, st, n):
        if isinstance(o, EnumMember):
            if name in ("value", "_value_"):
                return o.value
            if name == "name":
                return StrV([o.mname])
            v = o.cls.lookup(name)
            return self.bind(v, o, o.cls, st, n) if v is not None else self.gap(f"enum attribute {name}", n)
        if isinstance(o, NTupleV):
            if name in o.names:
                return o.items[o.names.index(name)]
            if name == "_fields":
                return TupleV([StrV([x]) for x in o.names])
            v = o.cls.lookup(name) if isinstance(o.cls, ClassV) else None
            if v is not None:
                return self.bind(v, o, o.cls, st, n)
            if name in ("_asdict", "_replace", "index", "count"):
                return MethodV(o, name)
            self.raise_(st, "AttributeError", n, name)
            return Unknown(f"missing attribute {name}")
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if isinstance(c, InstC):
                if name in c.attrs:
                    v = c.attrs[name]
                    if v is MISSING:
                        self.raise_(st, "AttributeError", n, name)
                        return Unknown("missing attribute")
                    if isinstance(v, ChoiceV) and (v.a is MISSING or v.b is MISSING):
                        return self.maybe_unbound(v, name, "AttributeError", st, n)
                    return v
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    r = self.alloc(st, DictC([(k, v) for k, v in c.attrs.items()]))
                    self.dict_owner[r.id] = o
                    return r
                v = c.cls.lookup(name)
                if v is not None:
                    return self.bind(v, o, c.cls, st, n)
                lv = self.lib.inst_lib_attr(o, c, name, st, n)
                if lv is not None:
                    return lv
                ga = c.cls.lookup("__getattr__")
                if ga is not None:
                    return self.call(BoundV(ga, o), [StrV([name])], {}, n, st)
                self.raise_(st, "AttributeError", n, f"{c.cls.name}.{name}")
                return Unknown(f"missing attribute {name}")
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, LibObj) and v.kind == "staticmethod":
                    return v.f["f"]
                if isinstance(v, LibObj) and v.kind == "classmethod":
                    return BoundV(v.f["f"], o)
                return v
            if name == "__name__":
                return StrV([o.name])
            if name == "__init__":
                return LibV("object.__init__")
            self.raise_(st, "AttributeError", n, f"{o.name}.{name}")
            return Unknown(name)
        if isinstance(o, ModuleV):
            v = self.module_attr(o, name)
            if v is None:
                self.raise_(st, "AttributeError", n, f"{o.name}.{name}")
                return Unknown(name)
            return v
        if isinstance(o, SuperV):
            cls = o.cls
            inst_cls = st.heap[o.self_v.id].cls if isinstance(o.self_v, Ref) and isinstance(st.heap.get(o.self_v.id), InstC) else cls
            mro = inst_cls.mro()
            k = mro.index(cls) + 1 if cls in mro else 1
            for b in mro[k:]:
                if isinstance(b, ClassV) and name in b.attrs:
                    return self.bind(b.attrs[name], o.self_v, b, st, n)
                if isinstance(b, LibV):
                    return BoundV(LibV(b.name + "." + name), o.self_v)
            return BoundV(LibV("object." + name), o.self_v)
        if isinstance(o, ChoiceV):
            if o.a is MISSING or o.b is MISSING:
                return self.getattr(o.b if o.a is MISSING else o.a, name, st, n)
            a = self.getattr(o.a, name, st, n)
            b = self.getattr(o.b, name, st, n)
            if isinstance(a, (BoundV, MethodV, LibV, FuncV)) or isinstance(b, (BoundV, MethodV)):
                return ChoiceV(o.c, a, b)
            return self.merge_vals(o.c, a, b, st)
        return self.lib.getattr(o, name, st, n)

    def bind(self, v, self_v, cls, st, n):
        if isinstance(v, LibObj):
            if v.kind == "property":
                return self.call(v.f["f"], [self_v], {}, n, st)
            if v.kind == "staticmethod":
                return v.f["f"]
            if v.kind == "classmethod":
                c = st.heap[self_v.id].cls if isinstance(self_v, Ref) else self_v
                return BoundV(v.f["f"], c)
        if isinstance(v, FuncV):
            return BoundV(v, self_v)
        return v

    def setattr(self, o, name, v, st, n):
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if isinstance(c, InstC):
                p = c.cls.lookup(name)
                if isinstance(p, LibObj) and p.kind == "property" and p.f.get("setter"):
                    self.call(p.f["setter"], [o, v], {}, n, st)
                    return
                d = dict(c.attrs)
                d[name] = v
                st.heap[o.id] = InstC(c.cls, d)
                self.event(st, "setattr", n, obj=o, name=name, cls=c.cls.name, value=v)
                return
            if isinstance(c, ObjC):
                f = dict(c.f)
                f[name] = v
                st.heap[o.id] = ObjC(c.kind, f)
                return
            if isinstance(c, Arr) and name == "shape":
                st.heap[o.id] = self.lib.arr.reshape(c, self.lib.shape_of(v, c.size if hasattr(c, 'size') else None, st, c))
                return
        if isinstance(o, ChoiceV):
            self.gap("attribute store on a merged object", n)
            return
        if isinstance(o, OpaqueV):
            self.event(st, "mutate", n, obj=o, how=f"attribute {name}")
            return
        if isinstance(o, (LibV, ModuleV)):
            self.event(st, "global_write", n, name=name, module=getattr(o, "name", "?"))
            return
        if isinstance(o, ClassV):
            self.event(st, "global_write", n, name=name, module=o.name)
            o.attrs[name] = v
            return
        self.gap(f"attribute store on {o}", n)

    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        k = self.eval(n.slice, st, fr)
        if st.dead:
            return Unknown("dead")
        return self.lib.getitem(o, k, st, n)

    def e_Slice(self, n, st, fr):
        f = lambda x: None if x is None else self.eval(x, st, fr)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        return self.lib.unop(n.op, v, st, n)

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        if st.dead:
            return Unknown("dead")
        return self.lib.binop(n.op, a, b, st, n)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        cur = self.eval(n.values[0], st, fr)
        for e in n.values[1:]:
            c = self.decide(self.truth(cur, st, n), st)
            if st.dead:
                return Unknown("dead")
            if c is True:
                if not isand:
                    return cur
                cur = self.eval(e, st, fr)
                continue
            if c is False:
                if isand:
                    return cur
                cur = self.eval(e, st, fr)
                continue
            holder = {}

            def f(s):
                holder["v"] = self.eval(e, s, fr)
            if isand:
                self.branch(c, f, lambda s: None, st)
            else:
                self.branch(c, lambda s: None, f, st)
            nv = holder.get("v", Unknown("dead"))
            if isinstance(cur, (bool, Cond)) and isinstance(nv, (bool, Cond)):
                cur = cand(cur, nv) if isand else cor(cur, nv)
            elif isand:
                if isinstance(nv, (bool, Cond)):
                    cur = cand(c, nv)
                else:
                    cur = self.merge_vals(c, nv, cur, st)
            else:
                if isinstance(nv, (bool, Cond)) and isinstance(cur, (bool, Cond)):
                    cur = cor(c, nv)
                else:
                    cur = self.merge_vals(c, cur, nv, st)
        return cur

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            if st.dead:
                return Unknown("dead")
            c = self.lib.compare(op, left, right, st, n)
            if res is True:
                res = c
            elif isinstance(res, (bool, Cond)) and isinstance(c, (bool, Cond)):
                res = cand(res, c)
            else:
                res = self.lib.elementwise2(res, c, cand, st, n)
            left = right
        return res

    def e_IfExp(self, n, st, fr):
        c = self.decide(self.truth(self.eval(n.test, st, fr), st, n), st)
        if c is True:
            return self.eval(n.body, st, fr)
        if c is False:
            return self.eval(n.orelse, st, fr)
        h = {}

        def f1(s):
            h["a"] = self.eval(n.body, s, fr)

        def f2(s):
            h["b"] = self.eval(n.orelse, s, fr)
        self.branch(c, f1, f2, st)
        return self.merge_vals(c, h["a"], h["b"], st)

    def e_Lambda(self, n, st, fr):
        f = FuncV(n, fr.module, fr.env, "<lambda>")
        f.defaults = [self.eval(d, st, fr) for d in n.args.defaults]
        f.kw_defaults = [None if d is None else (self.eval(d, st, fr),) for d in n.args.kw_defaults]
        f.is_gen = False
        return f

    def comp(self, gens, k, emit, st, fr, n):
        if k == len(gens):
            emit(st)
            return
        g = gens[k]
        it = self.eval(g.iter, st, fr)

        def bind(s, v):
            self.assign(g.target, v, s, fr)

        def body(s):
            conds = []
            for t in g.ifs:
                c = self.decide(self.truth(self.eval(t, s, fr), s, n), s)
                if c is False:
                    return
                if c is not True:
                    conds.append(c)
            if conds:
                self.branch(cand(*conds), lambda z: self.comp(gens, k + 1, emit, z, fr, n), lambda z: None, s)
            else:
                self.comp(gens, k + 1, emit, s, fr, n)
        self.loop(it, bind, body, st, fr, n)

    def e_ListComp(self, n, st, fr):
        ref = self.alloc(st, ListC(()))
        env = self.alloc(st, EnvC({}, fr.env))
        sub = Frame(env.id, fr.module, fr.func, fr.cls, fr.self_v)
        sub.pc0 = fr.pc0
        sub.yield_cb, sub.yield_list = fr.yield_cb, fr.yield_list

        def emit(s):
            v = self.eval(n.elt, s, sub)
            c = s.heap[ref.id]
            if isinstance(c, ListC):
                s.heap[ref.id] = ListC(c.segs + (("item", v),))
        self.comp(n.generators, 0, emit, st, sub, n)
        return ref

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr):
        r = self.e_ListComp(n, st, fr)
        c = st.heap[r.id]
        if isinstance(c, ListC):
            st.heap[r.id] = ListC(c.segs, "set")
        return r

    def e_DictComp(self, n, st, fr):
        ref = self.alloc(st, DictC(()))
        env = self.alloc(st, EnvC({}, fr.env))
        sub = Frame(env.id, fr.module, fr.func, fr.cls, fr.self_v)

        def emit(s):
            k = self.eval(n.key, s, sub)
            v = self.eval(n.value, s, sub)
            self.lib.setitem(ref, k, v, s, n)
        self.comp(n.generators, 0, emit, st, sub, n)
        return ref

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        return self.do_yield(n, st, fr)

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def eval_args(self, n, st, fr):
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                it = self.lib.concrete_items(v, st)
                if it is None:
                    self.gap("starred argument", n)
                    args.append(Unknown("starred argument"))
                else:
                    args += it
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DictC) and st.heap[v.id].base is None:
                    for kk, vv in st.heap[v.id].entries:
                        kwargs[kk if isinstance(kk, str) else str(kk)] = vv
                else:
                    self.gap("** argument", n)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, n, st, fr):
        f = self.eval(n.func, st, fr)
        if st.dead:
            return Unknown("dead")
        if isinstance(f, LibV) and f.name == "builtins.super":
            if not n.args:
                return SuperV(fr.cls, fr.self_v)
            a = [self.eval(x, st, fr) for x in n.args]
            return SuperV(a[0], a[1])
        if isinstance(f, LibV) and f.name == "builtins.locals":
            return self.alloc(st, DictC([(k, v) for k, v in st.heap[fr.env].d.items()]))
        args, kwargs = self.eval_args(n, st, fr)
        if st.dead:
            return Unknown("dead")
        self.call_sites.add((fr.module.name, n.lineno, n.col_offset))
        return self.call(f, args, kwargs, n, st)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, n, st, yield_cb=None):
        if st.dead:
            return Unknown("dead")
        if isinstance(f, BoundV):
            if isinstance(f.func, LibV):
                return self.lib.call_bound(f.func.name, f.self_v, args, kwargs, st, n)
            return self.call(f.func, [f.self_v] + list(args), kwargs, n, st, yield_cb)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, n, st, yield_cb)
        if isinstance(f, ClassV):
            return self.construct(f, args, kwargs, n, st)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, n, st)
        if isinstance(f, LibObj) and f.kind == "ntclass":
            return self.new_ntuple(f, f.f["names"], f.f["defaults"], args, kwargs, st, n)
        if isinstance(f, LibObj) and f.kind in ("staticmethod", "deco"):
            if f.kind == "deco":
                return args[0] if args else f
            return self.call(f.f["f"], args, kwargs, n, st)
        if isinstance(f, ChoiceV):
            h = {}

            def f1(s):
                h["a"] = self.call(f.a, args, kwargs, n, s)

            def f2(s):
                h["b"] = self.call(f.b, args, kwargs, n, s)
            self.branch(f.c, f1, f2, st)
            return self.merge_vals(f.c, h.get("a", MISSING), h.get("b", MISSING), st)
        if isinstance(f, Ref):
            c = st.heap.get(f.id)
            if isinstance(c, InstC):
                m = c.cls.lookup("__call__")
                if m is not None:
                    return self.call(BoundV(m, f), args, kwargs, n, st)
                lb = c.cls.lib_bases()
                m = c.cls.lookup("call")
                if lb and m is not None:
                    self.lib.autocast(f, c, args, kwargs, st, n)
                    return self.call(BoundV(m, f), args, kwargs, n, st)
        return self.lib.call(f, args, kwargs, st, n)

    def construct(self, cls, args, kwargs, n, st):
        ref = self.alloc(st, InstC(cls, {}))
        if getattr(cls, "dataclass", None):
            names = [x for x, _ in cls.dataclass]
            d = {}
            for nm, dv in cls.dataclass:
                if dv is not None:
                    fr = Frame(cls.module.env_id, cls.module)
                    d[nm] = self.eval(dv, st, fr)
            for nm, v in zip(names, args):
                d[nm] = v
            d.update(kwargs)
            st.heap[ref.id] = InstC(cls, d)
            pi = cls.lookup("__post_init__")
            if pi:
                self.call(BoundV(pi, ref), [], {}, n, st)
            return ref
        if any(b.name in ("typing.NamedTuple", "collections.namedtuple") for b in cls.lib_bases()):
            names, d = [], {}
            for s in cls.node.body:
                if isinstance(s, ast.AnnAssign):
                    names.append(s.target.id)
                    if s.value is not None:
                        d[s.target.id] = self.eval(s.value, st, Frame(cls.module.env_id, cls.module))
            return self.new_ntuple(cls, names, d, args, kwargs, st, n)
        if args and any(isinstance(b, LibV) and b.name.startswith("enum.") for b in cls.mro()):
            for m in cls.attrs.values():
                if isinstance(m, EnumMember):
                    eq = self.lib.compare(ast.Eq(), args[0], m.value, st, n) if args[0] is not m else True
                    if eq is True:
                        return m
                    if eq is not False:
                        return self.gap("enumeration member of an unknown value", n)
            self.raise_(st, "ValueError", n, f"not a valid {cls.name}")
            return Unknown("enum")
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundV(init, ref), args, kwargs, n, st)
        elif any(True for b in cls.lib_bases() if b.name not in ("builtins.object", "abc.ABC")):
            self.lib.call_bound(cls.lib_bases()[0].name + ".__init__", ref, args, kwargs, st, n)
        elif args or kwargs:
            self.raise_(st, "TypeError", n, f"{cls.name}() takes no arguments")
        return ref

    def new_ntuple(self, cls, names, defaults, args, kwargs, st, n):
        d = dict(defaults)
        if len(args) > len(names) or any(k not in names for k in kwargs):
            self.raise_(st, "TypeError", n, "named tuple arguments")
            return Unknown("named tuple")
        d.update(zip(names, args))
        d.update(kwargs)
        if any(x not in d for x in names):
            self.raise_(st, "TypeError", n, "named tuple arguments")
            return Unknown("named tuple")
        return NTupleV(cls, names, [d[x] for x in names])

    def bind_params(self, f, args, kwargs, n, st):
        a = f.node.args
        pos_ = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        err = None
        if len(args) > len(pos_):
            if a.vararg:
                d[a.vararg.arg] = TupleV(args[len(pos_):])
            else:
                err = f"{f.name}() takes {len(pos_)} positional arguments but {len(args)} were given"
        elif a.vararg:
            d[a.vararg.arg] = TupleV([])
        for nm, v in zip(pos_, args):
            d[nm] = v
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos_ or k in kwonly:
                if k in d:
                    err = err or f"{f.name}() got multiple values for argument '{k}'"
                d[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                err = err or f"{f.name}() got an unexpected keyword argument '{k}'"
        if a.kwarg:
            d[a.kwarg.arg] = self.alloc(st, DictC(extra))
        nd = len(f.defaults)
        for k, nm in enumerate(pos_):
            if nm not in d:
                j = k - (len(pos_) - nd)
                if j >= 0:
                    d[nm] = f.defaults[j]
                else:
                    err = err or f"{f.name}() missing required argument '{nm}'"
                    d[nm] = Unknown("missing argument")
        for nm, dv in zip(kwonly, f.kw_defaults):
            if nm not in d:
                if dv is not None:
                    d[nm] = dv[0]
                else:
                    err = err or f"{f.name}() missing keyword-only argument '{nm}'"
        return d, err

    def call_func(self, f, args, kwargs, n, st, yield_cb=None):
        ov = self.overrides.get((f.module.name, f.cls.name if f.cls else None, f.name))
        if ov is not None:
            return ov(args, kwargs, n, st)
        depth = sum(1 for fr in self.stack if getattr(fr, "node", None) is f.node)
        if depth > 2 or len(self.stack) > 60:
            return self.gap(f"recursion in {f.name}", n)
        d, err = self.bind_params(f, args, kwargs, n, st)
        if err:
            self.raise_(st, "TypeError", n, err)
            return Unknown(err)
        key = (f.module.name, f.cls.name if f.cls else "", f.name)
        self.functions[key] = self.functions.get(key, 0) + 1
        if key in self.watch:
            self.event(st, "enter", n, key=key, args=dict(d))
        memo = getattr(f, "memo", None)
        if memo is not None:
            # one result per combination of arguments, kept for the life of the program
            mk = self.memo_key(d, st)
            if mk is None:
                return self.gap("cached function called with arguments that have no fixed hash", n)
            if memo in st.heap:
                got = st.heap[memo].d.get(mk, MISSING)
                if isinstance(got, PhiV):
                    self.phi_used.add(got.name)
                if got is not MISSING and not isinstance(got, Unknown):
                    return got
        env = self.alloc(st, EnvC(d, f.env))
        fr = Frame(env.id, f.module, (f.cls.name + "." if f.cls else "") + f.name, f.cls)
        fr.node = f.node
        fr.pc0 = len(st.pc)
        fr.yield_cb = yield_cb
        if getattr(f, "is_gen", False) and yield_cb is None:
            fr.yield_list = self.alloc(st, ListC(())).id
        params = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and params:
            fr.self_v = d.get(params[0])
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st, fr)
                return v
            self.exec_block(f.node.body, st, fr)
            if fr.yield_list is not None:
                if st.dead == "return":
                    st.dead = None
                return Ref(fr.yield_list)
            r = self.finish(fr, st, n)
            if memo is not None and memo in st.heap and not st.dead:
                c = st.heap[memo]
                st.heap[memo] = EnvC({**c.d, mk: r}, c.parent)
            return r
        finally:
            self.stack.pop()

    def memo_key(self, d, st):
        out = []
        for k, v in sorted(d.items()):
            if isinstance(v, (TupleV, list)):
                xs = [self.memo_key({"x": x}, st) for x in (v.items if isinstance(v, TupleV) else v)]
                if any(x is None for x in xs):
                    return None
                out.append(f"{k}={xs}")
            elif isinstance(v, Ref):
                c = st.heap.get(v.id)
                if not isinstance(c, InstC):
                    return None
                out.append(f"{k}=obj{v.id}")
            elif isinstance(v, (Poly, StrV, FuncV, ClassV, LibV, bool, type(None), UserFn)):
                out.append(f"{k}={v}")
            else:
                return None
        return "memo:" + ";".join(out)

    def finish(self, fr, st, n):
        if not st.dead:
            fr.exits.append((st.pc, None, st.clone()))
        if fr.return_in_loop:
            u = self.gap(f"return inside a loop in {fr.func}", n)
            if fr.exits:
                ev = st.events
                for pc, v, s in fr.exits:
                    ev = merge_ev(ev, s.events)
                if st.dead:
                    st.assign_from(fr.exits[-1][2])
                    st.dead = None
                st.events = ev
                st.pc = st.pc[:fr.pc0]
            return u
        if not fr.exits:
            # every path raises
            return Unknown("no normal exit")
        allev = st.events
        exits = fr.exits
        pc, v, s = exits[-1]
        cur_s, cur_v = s, v
        cur_s.dead = None
        base = s.pc[:fr.pc0]
        if len(exits) == 1:
            # path condition of the only normal exit is kept (later code runs only under it)
            ev = merge_ev(allev, s.events)
            st.assign_from(cur_s)
            st.events = ev
            return cur_v
        conds = [cand(*pc[fr.pc0:]) for pc, _, _ in exits]
        total_ok = cor(*conds)
        for (pc, v, s), c in zip(reversed(exits[:-1]), reversed(conds[:-1])):
            s = s.clone()
            s.dead = None
            j = self.join(c, s, cur_s, base)
            cur_v = self.merge_vals(c, v, cur_v, j)
            cur_s = j
        cur_s.pc = base + ((total_ok,) if any(e.kind == "raise" and len(e.pc) >= fr.pc0 for e in allev) and isinstance(total_ok, Cond) else ())
        ev = merge_ev(allev, cur_s.events)
        st.assign_from(cur_s)
        st.events = ev
        return cur_v

    # ------------------------------------------------------------ truth
    def truth(self, v, st, n):
        if isinstance(v, (bool, Cond)):
            return v
        if v is None:
            return False
        if isinstance(v, Poly):
            return cnot(ceq(v))
        if isinstance(v, StrV):
            c = v.concrete()
            if c is not None:
                return bool(c)
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return catom("truthy", repr(v.parts))
        if isinstance(v, TupleV):
            return bool(v.items)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ListC):
                l = seg_len(c.segs)
                return cnot(ceq(l)) if l is not None else catom("truthy", f"list{v.id}")
            if isinstance(c, DictC):
                if c.entries:
                    return True
                if c.base is None:
                    return False
                return catom("truthy", f"dict{v.id}")
            if isinstance(c, (InstC, ObjC)):
                return True
            if isinstance(c, (Arr, ViewC)):
                a = self.deref(st, v)
                if not a.shape:
                    return self.truth(a.at(), st, n)
                if all(s == ONE for s in a.shape):
                    return self.truth(a.at(*[ZERO] * len(a.shape)), st, n)
                return cunk("truth of array")
        if isinstance(v, Arr):
            if not v.shape:
                return self.truth(v.at(), st, n)
            return cunk("truth of array")
        if isinstance(v, OpaqueV):
            if isinstance(v, (OpaqueDict, OpaqueSeq)):
                return catom("nonempty", keystr(v.key))
            return catom("truthy", keystr(v.key))
        if isinstance(v, ChoiceV):
            a, b = self.truth(v.a, st, n), self.truth(v.b, st, n)
            return cor(cand(v.c, a), cand(cnot(v.c), b))
        if isinstance(v, (FuncV, BoundV, ClassV, LibV, LibObj, UserFn, ModuleV)):
            return True
        if isinstance(v, RangeV):
            return cnot(ceq(v.count))
        if isinstance(v, Unknown):
            return cunk(v.why)
        return cunk(f"truth of {type(v).__name__}")


def callfn(fn, k, st):
    return fn(k, st) if getattr(fn, "st", False) else fn(k)


def merge_recs(a, b):
    if not a or not b:
        return a or b
    r = dict(a)
    for s, t in b.items():
        if s in r:
            r[s] = t if r[s] is None else (r[s] if t is None else r[s] & t)
        else:
            r[s] = t
    return r


def walk_own(fn):
    """walk a function body without descending into nested functions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Poly, Ref, StrV, Cond, OpaqueV, LibV, UserFn)) and type(a) is type(b):
        return a == b
    if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
        return all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return False


def merge_ev(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    seen = set(map(id, a))
    return a + [e for e in b[n:] if id(e) not in seen]


def common_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


def assume_cond(c, p):
    if c == p:
        return True
    if c == cnot(p):
        return False
    parts = p.args if p.op == "and" else (p,)
    for q in parts:
        if c == q:
            return True
        n = cnot(q)
        if c == n:
            return False
        if isinstance(n, Cond) and n.op == "or" and c in n.args:
            return False
    if p.op == "not" and isinstance(p.args[0], Cond) and p.args[0].op == "or" and c in p.args[0].args:
        return False
    if c.op in ("le", "eq"):
        for q in parts:
            if isinstance(q, Cond) and q.op in ("le", "eq"):
                # q: a<=0 implies c: b<=0 when b <= a;  contradiction when -b < ... 
                bs = c.args[0]
                as_ = [q.args[0]] + ([-q.args[0]] if q.op == "eq" else [])
                for a in as_:
                    if c.op == "le" and nonneg(a - bs):
                        return True
                    if c.op == "le" and is_int(bs) and is_int(a) and nonneg(a + bs - 1):
                        return False
                    if c.op == "eq" and is_int(bs) and is_int(a):
                        if nonneg(a + bs - 1) or nonneg(a - bs - 1):
                            return False
    if c.op in ("and", "or"):
        xs = [assume_cond(x, p) if isinstance(x, Cond) else x for x in c.args]
        return cand(*xs) if c.op == "and" else cor(*xs)
    if c.op == "not":
        return cnot(assume_cond(c.args[0], p)) if isinstance(c.args[0], Cond) else c
    return c


MEMO = {}  # loop-carried mapping filled on demand -> (iteration atom, key, stored value)
PHILEN = {}  # loop-carried list -> its length at the current iteration


def seg_len(segs):
    n = ZERO
    for s in segs:
        if s[0] == "item":
            n = n + 1
        elif s[0] == "comp":
            inner = seg_len(s[3])
            if inner is None:
                return None
            if s[1] in inner.free():
                n = n + mk_sum(s[1], s[2], inner)
            else:
                n = n + s[2] * inner
        elif s[0] == "rep":
            n = n + s[2]
        elif s[0] == "phi":
            if s[1] in PHILEN:
                n = n + PHILEN[s[1]]
                continue
            a = atom("phi", s[1])
            INTS.add(a)
            n = n + P(a)
        else:
            return None
    return n


def _split_by(c, i):
    """c = q*i + r"""
    q, r = {}, {}
    for m, k in c.t.items():
        d = dict(m)
        if d.get(i, 0) == 1:
            q[tuple(x for x in m if x[0] is not i)] = k
        elif i in Poly({m: k}).free():
            return None, None
        else:
            r[m] = k
    return Poly(q), Poly(r)


def strip_phi(nxt, pa):
    """classify nxt as phi+e ('add'), phi*e ('mul'), max/min(phi, e)"""
    ph = P(pa)
    d = push_diff(nxt, pa)
    if d is not None and pa not in d.free():
        return ("add", d)
    q, r = _split_by(nxt, pa)
    if q is not None and not r.t and pa not in q.free():
        return ("mul", q)
    a = nxt.single_atom()
    if a is not None and a.kind == "fn" and a.args[0] in ("max", "min"):
        xs = [x for x in a.args[1:] if x != ph]
        if len(xs) == 1 and len(a.args) == 3 and pa not in xs[0].free():
            return (a.args[0], xs[0])
    if a is not None and a.kind == "ite":
        # if e > phi: phi = e
        c, x, y = a.args
        for (p, q_) in ((x, y), (y, x)):
            if q_ == ph and pa not in p.free() and c.op in ("le", "lt"):
                e = c.args[0]
                neg = (p is y)
                for sgn, op in ((1, "max"), (-1, "min")):
                    want = (ph - p) * sgn  # phi - e < 0  -> max
                    if T._norm_scale(want) == e and not neg:
                        return (op, p)
                    if T._norm_scale(-want) == e and neg:
                        return (op, p)
    return None


def push_diff(nxt, pa):
    """nxt - phi with the subtraction pushed into gated merges"""
    d = nxt - P(pa)
    if pa not in d.free():
        return d
    a = nxt.single_atom()
    if a is not None and a.kind == "ite" and pa not in a.args[0].free:
        x = push_diff(a.args[1], pa)
        y = push_diff(a.args[2], pa)
        if x is not None and y is not None:
            return ite(a.args[0], x, y)
        return None
    # phi + c*ite(...) style sums: nothing more
    return None


def exc_matches(exc, names):
    hier = {
        "ValueError": {"ValueError", "Exception"}, "TypeError": {"TypeError", "Exception"},
        "KeyError": {"KeyError", "LookupError", "Exception"}, "IndexError": {"IndexError", "LookupError", "Exception"},
    }
    short = {n.split(".")[-1] for n in names}
    e = exc.split(".")[-1]
    return e in short or bool(hier.get(e, {"Exception", e}) & short) or "BaseException" in short


def lower_match(n):
    """the if/elif chain a match statement stands for; False when a pattern is not covered"""
    subj = f"__match_{n.lineno}_{n.col_offset}"

    def fix(x):
        return ast.copy_location(x, n)

    def name(ctx=ast.Load):
        return fix(ast.Name(subj, ctx()))

    def test(p, e):
        """(condition expressions, bindings) of pattern p on expression e, None when not covered"""
        if isinstance(p, ast.MatchValue):
            return [fix(ast.Compare(e, [ast.Eq()], [p.value]))], []
        if isinstance(p, ast.MatchSingleton):
            return [fix(ast.Compare(e, [ast.Is()], [fix(ast.Constant(p.value))]))], []
        if isinstance(p, ast.MatchAs):
            c, b = ([], []) if p.pattern is None else (test(p.pattern, e) or (None, None))
            if c is None:
                return None
            return c, b + ([(p.name, e)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            r = [test(x, e) for x in p.patterns]
            if any(x is None or x[1] for x in r):
                return None
            conj = [fix(ast.BoolOp(ast.And(), x[0])) if len(x[0]) > 1 else x[0][0] if x[0] else fix(ast.Constant(True)) for x in r]
            return [fix(ast.BoolOp(ast.Or(), conj))], []
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            cs = [fix(ast.Compare(fix(ast.Call(fix(ast.Name("len", ast.Load())), [e], [])), [ast.Eq()], [fix(ast.Constant(len(p.patterns)))]))]
            bs = []
            for i, x in enumerate(p.patterns):
                r = test(x, fix(ast.Subscript(e, fix(ast.Constant(i)), ast.Load())))
                if r is None:
                    return None
                cs += r[0]
                bs += r[1]
            return cs, bs
        return None
    out, chain = [fix(ast.Assign([name(ast.Store)], n.subject))], []
    for case in reversed(n.cases):
        r = test(case.pattern, name())
        if r is None:
            return False
        cs, bs = r
        binds = [fix(ast.Assign([fix(ast.Name(v, ast.Store()))], e)) for v, e in bs]
        body = binds + case.body
        if case.guard is not None:
            if binds and cs:
                return False
            if binds:
                chain = binds + [fix(ast.If(case.guard, case.body, chain))]
                continue
            cs = cs + [case.guard]
        if not cs:
            chain = body
        else:
            chain = [fix(ast.If(cs[0] if len(cs) == 1 else fix(ast.BoolOp(ast.And(), cs)), body, chain))]
    return [ast.fix_missing_locations(x) for x in out + chain]
