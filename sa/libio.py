"""Models: files and paths, plotting, mesh libraries, logging / progress / table printers."""
from .lib import *
from .lib import path_join, T_seg_len
from . import terms as T
from .libnp import strm


# =============================================================== paths
@model("pathlib.Path")
def _path(L, a, k, st, n):
    if not a:
        return StrV(["."], True)
    return path_join([L.to_str(x, st) for x in a])


@model("os.path.join")
def _opj(L, a, k, st, n):
    r = path_join([L.to_str(x, st) for x in a])
    return StrV(r.parts)


@model("os.fspath", "os.path.normpath", "os.path.abspath", "os.path.realpath", "os.path.expanduser")
def _fsp(L, a, k, st, n):
    return L.to_str(a[0], st)


@model("os.path.exists", "os.path.isfile", "os.path.isdir", "path.exists", "path.is_dir", "path.is_file", "os.access")
def _exists(L, *args):
    a, k, st, n = args[-4:]
    o = args[0] if len(args) == 5 else None
    if len(args) == 5:
        p = args[0]
    else:
        p = a[0] if a else None
    return catom("exists", repr(L.to_str(p, st).parts), st.clock)


@model("os.path.basename", "os.path.dirname", "os.path.splitext")
def _bn(L, a, k, st, n):
    s = L.to_str(a[0], st)
    last = L.I.lib_last.split(".")[-1]
    c = s.concrete()
    import posixpath
    if last == "splitext":
        if c is not None:
            return TupleV([StrV([x]) for x in posixpath.splitext(c)])
        from .lib import path_suffix
        x = path_suffix(s.parts) if s.parts else None
        if x is not None:
            st_ = list(s.parts[:-1]) + ([s.parts[-1][:len(s.parts[-1]) - len(x)]] if x else [s.parts[-1]])
            return TupleV([StrV(st_), StrV([x] if x else [])])
        return TupleV([StrV([("stem", s.parts)]), StrV([("suffix", s.parts)])])
    if c is not None:
        return StrV([getattr(posixpath, last)(c)])
    return StrV([(last, s.parts)])


def _fsw(how):
    def f(L, a, k, st, n):
        L.I.event(st, how, n, path=L.to_str(a[0], st) if a else None, args=a, kw=k)
        return None
    return f


for _nm, _how in (("os.makedirs", "mkdir"), ("os.mkdir", "mkdir"), ("os.remove", "delete"), ("os.unlink", "delete"), ("os.rmdir", "delete"),
                  ("shutil.rmtree", "delete"), ("os.rename", "delete"), ("shutil.move", "delete"), ("os.chdir", "chdir"), ("os.system", "system"),
                  ("shutil.copy", "fs_copy"), ("shutil.copyfile", "fs_copy"), ("os.replace", "delete"), ("subprocess.run", "system"),
                  ("subprocess.call", "system"), ("os.putenv", "system")):
    MODELS[_nm] = _fsw(_how)


def _pathw(how):
    def f(L, o, a, k, st, n):
        L.I.event(st, how, n, path=L.to_str(o, st), args=a, kw=k)
        return None
    return f


MODELS["path.mkdir"] = _pathw("mkdir")
MODELS["path.touch"] = _pathw("write_path")
MODELS["path.write_bytes"] = _pathw("write_path")
MODELS["path.unlink"] = _pathw("delete")
MODELS["path.rmdir"] = _pathw("delete")
MODELS["path.rename"] = _pathw("delete")


@model("path.open")
def _popen(L, o, a, k, st, n):
    return _open(L, [o] + list(a), k, st, n)


@model("path.as_posix", "path.resolve", "path.absolute", "path.expanduser", "path.__str__")
def _pposix(L, o, a, k, st, n):
    return StrV(o.parts, L.I.lib_last != "x" and False)


@model("path.joinpath")
def _pjoin(L, o, a, k, st, n):
    return path_join([o] + [L.to_str(x, st) for x in a])


def _tail(o):
    """literal last component of a path: (parts before it, component)"""
    if o.parts and isinstance(o.parts[-1], str):
        h, sep, t = o.parts[-1].rpartition("/")
        if t and (sep or len(o.parts) == 1):
            return tuple(o.parts[:-1]) + ((h + sep,) if h + sep else ()), t
    return None


@model("path.with_suffix")
def _pwithsuffix(L, o, a, k, st, n):
    x, t = (a[0] if a else k.get("suffix")), _tail(o)
    x = L.to_str(x, st).concrete()
    if t is not None and x is not None:
        stem = t[1].rpartition(".")[0] or t[1]
        return StrV(t[0] + (stem + x,), True)
    if x is not None and len(o.parts) > 1 and isinstance(o.parts[-1], str) and "/" not in o.parts[-1] and o.parts[-1].startswith(".") and o.parts[-1].count(".") == 1:
        return StrV(tuple(o.parts[:-1]) + (x,), True)
    return _pmisc(L, o, a, k, st, n)


@model("path.with_name")
def _pwithname(L, o, a, k, st, n):
    t = _tail(o)
    if t is not None:
        return StrV(t[0] + tuple(L.to_str(a[0] if a else k.get("name"), st).parts), True)
    return _pmisc(L, o, a, k, st, n)


@model("path.relative_to", "path.iterdir", "path.glob")
def _pmisc(L, o, a, k, st, n):
    return StrV([("pathop", o.parts, tuple(L.to_str(x, st).parts for x in a))], True)


for _nm in ("startswith", "endswith", "split", "replace", "lower", "upper"):
    MODELS["path." + _nm] = strm(_nm)


@model("os.getcwd", "os.getenv", "os.environ.get", "os.cpu_count", "os.getpid")
def _cwd(L, a, k, st, n):
    return OpaqueV(("env", L.I.lib_last, tuple(L.keyof(x, st) for x in a)))


@model("tempfile.mkdtemp", "tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile", "tempfile.gettempdir")
def _tmp(L, a, k, st, n):
    u = ("unique", new_id())
    L.I.event(st, "tempdir", n, path=StrV([u]))
    if L.I.lib_last.endswith("TemporaryDirectory"):
        return LibObj("tempdir", name=StrV([u]))
    return StrV([u])


@model("enter:tempdir")
def _tde(L, cm, st, n):
    return cm.f["name"]


@model("exit:tempdir")
def _tdx(L, cm, st, n):
    return None


@model("uuid.uuid4", "uuid.uuid1")
def _uuid(L, a, k, st, n):
    return LibObj("uuid", hex=StrV([("unique", new_id())]))


# =============================================================== files
@model("builtins.open", "io.open", "codecs.open")
def _open(L, a, k, st, n):
    A = Args(a, k, ["file", "mode", "buffering", "encoding"])
    m = A.get("mode")
    mode = m.concrete() if isinstance(m, StrV) else ("r" if m is None else "?")
    p = L.to_str(A.get("file"), st)
    ref = L.I.alloc(st, ObjC("file", {"path": p, "mode": mode}))
    L.I.event(st, "open_file", n, ref=ref, path=p, mode=mode)
    if mode is None or any(c in mode for c in "wax+?"):
        L.I.event(st, "write_path", n, path=p, how="open")
    return ref


@model("enter:file")
def _fenter(L, cm, st, n):
    return cm


@model("exit:file")
def _fexit(L, cm, st, n):
    L.I.event(st, "close_file", n, ref=cm)


@model("file.close")
def _fclose(L, o, a, k, st, n):
    L.I.event(st, "close_file", n, ref=o)


@model("file.writelines")
def _fwritelines(L, o, a, k, st, n):
    """one write per element, in order"""
    v = a[0]
    if isinstance(v, StrV):
        L.I.event(st, "file_write", n, ref=o, value=v, how="write")
        return None
    items = L.concrete_items(v, st)
    if items is not None:
        for x in items:
            L.I.event(st, "file_write", n, ref=o, value=x, how="write")
        return None
    from .interp import Frame
    fr = Frame(None, None)
    fr.pc0 = len(st.pc)
    got = {}
    L.I.loop(v, lambda s, x: got.__setitem__("x", x), lambda s: L.I.event(s, "file_write", n, ref=o, value=got["x"], how="write"), st, fr, n)
    return None


@model("file.write")
def _fwrite(L, o, a, k, st, n):
    L.I.event(st, "file_write", n, ref=o, value=a[0], how="write")
    return None


@model("file.flush", "file.seek", "file.truncate", "file.tell")
def _fmisc(L, o, a, k, st, n):
    return None


@model("file.readlines")
def _freadlines(L, o, a, k, st, n):
    c = st.heap[o.id]
    key = ("lines", c.f["path"].parts)
    ln = atom("len", key)
    NONNEG.add(ln)
    INTS.add(ln)
    i = fresh("i", ZERO, P(ln) - 1)
    return L.I.alloc(st, ListC([("comp", i, P(ln), (("item", StrV([("line", c.f["path"].parts, P(i))])),))]))


@model("path.read_text")
def _preadtext(L, o, a, k, st, n):
    f = _open(L, [o, StrV(["r"])], {}, st, n)
    L.I.event(st, "close_file", n, ref=f)
    return StrV([("content", o.parts)])


@model("path.write_text")
def _pwritetext(L, o, a, k, st, n):
    f = _open(L, [o, StrV(["w"])], {}, st, n)
    L.I.event(st, "file_write", n, ref=f, value=a[0] if a else k.get("data"), how="write")
    L.I.event(st, "close_file", n, ref=f)
    return Unknown("number of characters written")


_splitlines0 = MODELS["str.splitlines"]


@model("str.splitlines")
def _splitlines(L, o, a, k, st, n):
    """the lines of a file's whole content"""
    p = o.parts[0] if len(o.parts) == 1 else None
    keep = a[0] if a else k.get("keepends", False)
    if not (isinstance(p, tuple) and p[0] == "content") or keep not in (True, False):
        return _splitlines0(L, o, a, k, st, n)
    ln = atom("len", ("lines", p[1]))
    NONNEG.add(ln)
    INTS.add(ln)
    i = fresh("i", ZERO, P(ln) - 1)
    return L.I.alloc(st, ListC([("comp", i, P(ln), (("item", StrV([("line" if keep else "bareline", p[1], P(i))])),))]))


@model("file.read", "file.readline")
def _fread(L, o, a, k, st, n):
    c = st.heap[o.id]
    return StrV([("content", c.f["path"].parts)])


@model("numpy.savetxt", "numpy.save", "numpy.savez")
def _savetxt(L, a, k, st, n):
    A = Args(a, k, ["fname", "X", "fmt"])
    f = A.get("fname")
    x = L.to_arr(A.get("X"), st, n) if not isinstance(A.get("X"), Unknown) and A.get("X") is not None else None
    if isinstance(f, Ref):
        L.I.event(st, "file_write", n, ref=f, value=x, how="savetxt", kw={**({"fmt": A.get("fmt")} if A.get("fmt") is not None else {}), **{q: v for q, v in k.items() if q in ("header", "footer", "delimiter", "newline")}})
    else:
        L.I.event(st, "write_path", n, path=L.to_str(f, st), how="savetxt", value=x)
    return None


@model("arr.tofile")
def _tofile(L, o, a, k, st, n):
    L.I.event(st, "write_path", n, path=L.to_str(a[0], st), how="tofile")


@model("json.dump", "pickle.dump", "yaml.dump", "yaml.safe_dump")
def _dump(L, a, k, st, n):
    if len(a) > 1:
        L.I.event(st, "file_write", n, ref=a[1], value=a[0], how="dump")
    return None


@model("yaml.safe_load", "yaml.load", "json.load", "pickle.load", "yaml.full_load")
def _load(L, a, k, st, n):
    return OpaqueV(("loaded", L.keyof(a[0], st)))


# =============================================================== pandas
@model("pandas.read_csv")
def _read_csv(L, a, k, st, n):
    A = Args(a, k, ["filepath_or_buffer", "sep"])
    p = L.to_str(A.get("filepath_or_buffer"), st)
    ln = atom("len", ("csv", p.parts))
    NONNEG.add(ln)
    INTS.add(ln)
    nc = atom("len", ("csvcols", p.parts))
    NONNEG.add(nc)
    INTS.add(nc)
    BOUNDS[nc] = (const(3), None)  # x, y, value[, ...]: what the documented file format has
    L.I.event(st, "read_csv", n, path=p, kw=k)
    arr = Arr((P(ln), P(nc)), lambda idx: P(atom("csv", p.parts, *idx)), "float64", "np", extra={"df": True})
    return LibObj("df", arr=arr, path=p)


def df_sel(L, o, key, st, n):
    arr = o.f["arr"]
    r = L.I.alloc(st, arr)
    v = L.getitem(r, key, st, n)
    if isinstance(v, Ref):
        return LibObj("df", arr=L.I.deref(st, v), path=o.f["path"])
    return v


@model("getitem:df")
def _dfget(L, o, k, st, n):
    kk = L.dkey(k)
    if isinstance(kk, str):
        arr = o.f["arr"]
        return LibObj("df", arr=Arr((arr.shape[0],), lambda idx: P(atom("csvcol", kk, o.f["path"].parts, *idx)), "float64"), path=o.f["path"])
    return L.I.gap("data frame selection", n)


@model("getitem:iloc")
def _iloc(L, o, k, st, n):
    return df_sel(L, o.f["df"], k, st, n)


def df_attr(L, o, name, st, n):
    if name in ("iloc",):
        return LibObj("iloc", df=o)
    if name == "values":
        return L.I.alloc(st, o.f["arr"])
    if name == "shape":
        return TupleV(o.f["arr"].shape)
    if name == "columns":
        return OpaqueV(("columns", o.f["path"].parts))
    return None


@model("df.to_numpy")
def _dfnp(L, o, a, k, st, n):
    return L.I.alloc(st, o.f["arr"])


@model("builtins.len:df")
def _dflen(L, o, st, n):
    return o.f["arr"].shape[0]


@model("df.to_csv")
def _tocsv(L, o, a, k, st, n):
    L.I.event(st, "write_path", n, path=L.to_str(a[0] if a else k.get("path_or_buf"), st), how="to_csv")


@model("df.sort_values")
def _dfsort(L, o, a, k, st, n):
    by = a[0] if a else k.get("by")
    arr = o.f["arr"]
    by = L.concrete_items(by, st)[0] if isinstance(by, Ref) and L.concrete_items(by, st) else by
    if isinstance(by, Ref) or k.get("inplace"):
        return L.I.gap("DataFrame.sort_values", n)
    if isinstance(by, OpaqueV) and by.key[:1] in (("elem",), ("item",)) or not isinstance(by, (StrV, Poly)):
        j = next((z for z in getattr(by, "key", ()) if isinstance(z, Poly)), None)
    else:
        j = None
    col = (lambda i: P(arr.at(i, j))) if j is not None else (lambda i: P(atom("csvcol", str(getattr(by, "parts", by)), o.f["path"].parts, P(i))))
    v = fresh("s", ZERO, arr.shape[0] - 1)
    body = col(P(v))
    desc = k.get("ascending") is False
    at = lambda i: mk_argsort(v, arr.shape[0], body, arr.shape[0] - 1 - P(i) if desc else P(i))
    return LibObj("df", arr=Arr(arr.shape, lambda idx: arr.at(at(idx[0]), *idx[1:]), arr.dt), path=o.f["path"])


@model("df.sample")
def _dfsample(L, o, a, k, st, n):
    return L.I.gap("DataFrame.sample", n)


def _pandas(L, name, a, k, st, n):
    if name == "pandas.DataFrame":
        return LibObj("dfout", src=a[0] if a else None)
    return L.I.gap(f"library call {name}", n)


MODEL_PREFIX.append(("pandas.", _pandas))


@model("dfout.to_csv")
def _dfo(L, o, a, k, st, n):
    L.I.event(st, "write_path", n, path=L.to_str(a[0] if a else k.get("path_or_buf"), st), how="to_csv")


# =============================================================== meshio
class MeshInfo:
    pass


def mesh_fields(L, key, st, tag):
    """abstract mesh object read from a file (or built by the caller)"""
    def cnt(nm):
        a = atom("len", (key, nm))
        NONNEG.add(a)
        INTS.add(a)
        return P(a)
    npts = cnt("points")
    f = {}
    f["points"] = L.I.alloc(st, Arr((npts, const(3)), lambda idx: P(atom("meshpt", key, *idx)), "float64"))

    def conn(idx, nm):
        a = atom("conn", key, nm, *idx)
        INTS.add(a)
        BOUNDS[a] = (ZERO, npts - 1)
        return P(a)
    ql = (cnt("quad"), const(4))
    ll = (cnt("line"), const(2))
    quad = L.I.alloc(st, Arr(ql, lambda idx: conn(idx, "quad"), "int64"))
    line = L.I.alloc(st, Arr(ll, lambda idx: conn(idx, "line"), "int64"))
    f["cells_dict"] = L.I.alloc(st, DictC([("quad", quad), ("line", line)]))

    def tags(nm):
        def e(idx):
            a = atom("celltag", key, nm, *idx)
            INTS.add(a)
            return P(a)
        return e
    qt = L.I.alloc(st, Arr(ql[:1], tags("quad"), "int64"))
    lt = L.I.alloc(st, Arr(ll[:1], tags("line"), "int64"))
    f["cell_data_dict"] = L.I.alloc(st, DictC([("medit:ref", L.I.alloc(st, DictC([("line", lt), ("quad", qt)])))]))
    nb = cnt("blocks")

    def block(b):
        def e(idx):
            a = atom("blocktag", key, b, *idx)
            INTS.add(a)
            return P(a)
        la = atom("blocklen", key, b)
        NONNEG.add(la)
        INTS.add(la)
        return Arr((P(la),), e, "int64")
    f["cell_data"] = L.I.alloc(st, DictC([("medit:ref", OpaqueSeq((key, "ref-blocks"), nb, block))]))
    f["cells"] = OpaqueSeq((key, "cells"), nb, lambda b: LibObj("cellblock", key=key, b=b, type=OpaqueV((key, "blocktype", b), "str"),
                                                                data=OpaqueV((key, "blockdata", b))))
    f["point_data"] = L.I.alloc(st, DictC([]))
    f["__key__"] = key
    return f


@model("meshio.read", "meshio.gmsh.read", "meshio.medit.read", "meshio.vtk.read")
def _mread(L, a, k, st, n):
    p = L.to_str(a[0] if a else k.get("filename"), st)
    L.I.event(st, "mesh_read", n, path=p)
    return LibObj("mesh", **mesh_fields(L, ("meshfile", p.parts), st, "read"))


@model("meshio.Mesh")
def _mesh(L, a, k, st, n):
    A = Args(a, k, ["points", "cells", "point_data", "cell_data"])
    L.I.event(st, "mesh_new", n, args=dict(A.d))
    f = dict(A.d)
    f["cells_in"] = A.get("cells")
    r = LibObj("mesh", **f)
    return r


@model("mesh.get_cells_type")
def _gct(L, o, a, k, st, n):
    return L.getitem(o.f["cells_dict"], a[0], st, n)


@model("mesh.get_cell_data")
def _gcd(L, o, a, k, st, n):
    return L.getitem(L.getitem(o.f["cell_data_dict"], a[0], st, n), a[1], st, n)


@model("mesh.write")
def _mwrite(L, o, a, k, st, n):
    L.I.event(st, "write_path", n, path=L.to_str(a[0], st), how="mesh.write", mesh=o)


@model("meshio.vtk.write", "meshio.write", "meshio.gmsh.write")
def _mvw(L, a, k, st, n):
    A = Args(a, k, ["filename", "mesh"])
    L.I.event(st, "write_path", n, path=L.to_str(A.get("filename"), st), how="meshio.write", mesh=A.get("mesh"), kw=k)


@model("meshio.write_points_cells")
def _mwpc(L, a, k, st, n):
    L.I.event(st, "write_path", n, path=L.to_str(a[0], st), how="meshio.write_points_cells")


# =============================================================== gmsh
def _gmsh(L, name, a, k, st, n):
    last = name.split(".")[-1]
    L.I.event(st, "gmsh", n, fn=name[5:], args=a, kw=k)
    if last == "write":
        L.I.event(st, "write_path", n, path=L.to_str(a[0] if a else k.get("fileName"), st), how="gmsh")
        return None
    if last.startswith("add"):
        return P(atom("gmshtag", last, new_id()))
    if last in ("isInitialized", "is_initialized"):
        return catom("gmsh-initialised", st.clock)
    if last in ("initialize", "finalize", "synchronize", "generate", "clear"):
        return None
    return OpaqueV(("gmsh", name, new_id()))


MODEL_PREFIX.append(("gmsh.", _gmsh))


# =============================================================== matplotlib
def fig_new(L, st, n, sub=False, num=None):
    ref = L.I.alloc(st, ObjC("fig", {"drawn": 0}))
    st.figs = st.figs + (ref.id,)
    L.I.event(st, "fig_open", n, ref=ref, num=num)
    return ref


def fig_cur(L, st, n):
    for x in reversed(st.figs):
        if isinstance(x, int):
            return Ref(x)
        return None
    return fig_new(L, st, n)


DRAW = {"plot", "scatter", "contourf", "contour", "fill", "hlines", "vlines", "bar", "imshow", "pcolormesh", "tricontourf", "semilogy", "loglog",
        "quiver", "triplot", "tripcolor", "errorbar", "step", "stem", "hist", "fill_between", "axhline", "axvline", "pcolor", "boxplot", "semilogx"}


MAPPABLE = {"scatter", "contourf", "contour", "imshow", "pcolormesh", "tricontourf", "tripcolor", "pcolor", "quiver"}


def _plt(L, name, a, k, st, n):
    last = name.split(".")[-1]
    if name.startswith("matplotlib.pyplot.cm.") or name.startswith("matplotlib.cm."):
        return LibObj("plotaux", name=last, args=tuple(a), kw=dict(k))
    if last == "figure":
        return fig_new(L, st, n, num=a[0] if a else k.get("num"))
    if last == "subplots":
        r = fig_new(L, st, n, num=k.get("num"))
        ax = L.I.alloc(st, ObjC("axes", {"fig": r}))
        return TupleV([r, ax])
    if last == "close":
        v = a[0] if a else k.get("fig")
        L.I.event(st, "fig_close", n, arg=v)
        if v is None:
            if st.figs:
                st.figs = st.figs[:-1]
        elif isinstance(v, StrV) and v.concrete() == "all":
            st.figs = ()
        elif isinstance(v, Ref):
            st.figs = tuple(x for x in st.figs if x != v.id)
        elif isinstance(v, Unknown):
            pass
        else:
            L.I.gap("plt.close argument", n)
        return None
    if last in ("clf", "cla", "ion", "ioff", "rc", "switch_backend", "set_cmap", "rcdefaults", "use", "pause", "draw", "show"):
        if last == "show":
            L.I.event(st, "show", n)
        return None
    if last in ("gcf",):
        return fig_cur(L, st, n)
    if last in ("gca", "subplot", "axes", "subplot2grid", "twinx"):
        f = fig_cur(L, st, n)
        return L.I.alloc(st, ObjC("axes", {"fig": f}))
    if last in ("savefig", "imsave"):
        f = fig_cur(L, st, n) if last == "savefig" else None
        p = L.to_str(a[0] if a else k.get("fname"), st)
        L.I.event(st, "savefig", n, fig=f, path=p)
        L.I.event(st, "write_path", n, path=p, how="savefig")
        return None
    f = fig_cur(L, st, n)
    if last in DRAW:
        L.I.event(st, "draw", n, fig=f, fn=last, args=a, kw=k, vals=[L.I.deref(st, x) if isinstance(x, Ref) else x for x in a])
    if last == "colorbar" and not ("ax" in k or "cax" in k or len(a) > 1):
        m = a[0] if a else k.get("mappable")
        if isinstance(m, LibObj) and m.f.get("name") == "ScalarMappable":
            L.I.raise_(st, "ValueError", n, "Unable to determine Axes to steal space for Colorbar")
            return Unknown("colorbar without axes")
        if m is None and not any(e.kind == "draw" and e.data["fig"] == f and e.data["fn"] in MAPPABLE for e in st.events):
            L.I.raise_(st, "RuntimeError", n, "No mappable was found to use for colorbar creation")
            return Unknown("colorbar without mappable")
    return LibObj("plotaux", name=last, args=tuple(a), kw=dict(k))


MODEL_PREFIX.append(("matplotlib.pyplot.", _plt))
MODEL_PREFIX.append(("matplotlib.", lambda L, name, a, k, st, n: LibObj("plotaux", name=name, args=tuple(a), kw=dict(k))))
MODEL_PREFIX.append(("cycler", lambda L, name, a, k, st, n: LibObj("plotaux", name=name)))


@model("fig.savefig")
def _fsave(L, o, a, k, st, n):
    p = L.to_str(a[0] if a else k.get("fname"), st)
    L.I.event(st, "savefig", n, fig=o, path=p)
    L.I.event(st, "write_path", n, path=p, how="savefig")


@model("fig.add_subplot", "fig.gca", "fig.add_axes", "fig.subplots")
def _fax(L, o, a, k, st, n):
    return L.I.alloc(st, ObjC("axes", {"fig": o}))


@model("fig.clf", "fig.clear", "fig.tight_layout", "fig.suptitle", "fig.colorbar", "fig.set_size_inches", "fig.subplots_adjust", "fig.set_tight_layout",
       "fig.legend", "fig.autofmt_xdate", "fig.set_dpi")
def _fmis(L, o, a, k, st, n):
    return LibObj("plotaux", name="x")


@model("attr:axes")
def _axattr(L, o, c, name, st, n):
    if name == "figure":
        return c.f["fig"]
    return LibObj("axmethod", fig=c.f["fig"], name=name)


@model("calllibobj:axmethod")
def _axcall(L, f, a, k, st, n):
    if f.f["name"] in DRAW:
        L.I.event(st, "draw", n, fig=f.f["fig"], fn=f.f["name"], args=a, kw=k, vals=[L.I.deref(st, x) if isinstance(x, Ref) else x for x in a])
    return LibObj("plotaux", name=f.f["name"])


@model("calllibobj:plotaux")
def _auxcall(L, f, a, k, st, n):
    return LibObj("plotaux", name="r", fn=f, args=tuple(a), kw=dict(k))


@model("enter:plotaux")
def _auxenter(L, cm, st, n):
    return cm


@model("exit:plotaux")
def _auxexit(L, cm, st, n):
    return None


@model("getitem:plotaux")
def _auxget(L, o, k, st, n):
    return LibObj("plotaux", name="i")


# =============================================================== printers, progress, logging
def _sinkobj(L, name, a, k, st, n):
    return LibObj("sink", name=name, uid=new_id(), kw=dict(k), args=tuple(a))


for _p in ("rich.", "tabulate", "logging.", "loguru.", "termcolor.", "colorama."):
    MODEL_PREFIX.append((_p, _sinkobj))


@model("calllibobj:sink")
def _sinkcall(L, f, a, k, st, n):
    if f.f.get("of") is not None:
        L.I.event(st, "sink_call", n, of=f.f["of"], fn=f.f["name"], args=a, kw=k)
    return LibObj("sink", name="r")


@model("enter:sink")
def _sinkenter(L, cm, st, n):
    return cm


@model("exit:sink")
def _sinkexit(L, cm, st, n):
    return None


@model("tqdm.tqdm")
def _tqdm(L, a, k, st, n):
    A = Args(a, k, ["iterable", "desc", "total"])
    it = A.get("iterable")
    if it is None:
        return LibObj("sink", name="tqdm")
    return it


@model("tqdm.trange")
def _trange(L, a, k, st, n):
    return MODELS["builtins.range"](L, a, {}, st, n)


@model("libobj_method")
def _libobj_method(L, o, name, a, k, st, n):
    if o.kind == "sink":
        return MODELS["calllibobj:sink"](L, LibObj("sink", name=name, of=o), a, k, st, n)
    if o.kind in ("plotaux", "uuid"):
        return LibObj(o.kind, name=name)
    return NotImplemented


# =============================================================== typing, abc, dataclasses, misc
def _typing(L, name, a, k, st, n):
    if name in ("typing.cast",):
        return a[1]
    return LibV(name)


MODEL_PREFIX.append(("typing.", _typing))
MODEL_PREFIX.append(("abc.", lambda L, name, a, k, st, n: LibV(name)))


@model("dataclasses.dataclass")
def _dc(L, a, k, st, n):
    return LibObj("decoclass", name="dataclasses.dataclass")


@model("contextlib.closing", "contextlib.nullcontext", "contextlib.suppress")
def _ctxl(L, a, k, st, n):
    return LibObj("nullctx")


# =============================================================== optuna / other externals (opaque)
def _optuna(L, name, a, k, st, n):
    last = name.split(".")[-1]
    L.I.event(st, "optuna", n, fn=name, args=a, kw=k)
    return OpaqueV(("optuna", last))


MODEL_PREFIX.append(("optuna.", _optuna))
MODEL_PREFIX.append(("sin_cos.", lambda L, name, a, k, st, n: _extcall(L, name, a, k, st, n)))


def _extcall(L, name, a, k, st, n):
    L.I.event(st, "opaque_call", n, f=OpaqueV(name), args=a, kwargs=k)
    return OpaqueV(("call", name) + tuple(L.keyof(x, st) for x in a))
