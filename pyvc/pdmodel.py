"""Assumed contract of the few pandas operations the post-processing uses, on
concrete tables with arbitrary entries.  Anything else is 'unsupported'."""
from .core import PyDict, PyList, PyRaise, Unsupported, Arr
from .interp import Ext, RangeVal, SliceVal
from .npmodel import Host, ext_module


def seq(ctx, v):
    return ctx.interp.iterate(v)


class Frame(Host):
    name = "DataFrame"

    def __init__(self, rows, index=None, columns=None):
        super().__init__()
        self.rows = [dict(r) for r in rows]
        self.idx = list(range(len(rows))) if index is None else list(index)
        self.columns = list(columns) if columns is not None else list(dict.fromkeys(k for r in rows for k in r))

    def dup(self):
        return Frame(self.rows, self.idx, self.columns)

    def p_columns(self):
        return PyList(list(self.columns))

    def p_index(self):
        return PyList(list(self.idx))

    def p_empty(self):
        return not self.rows

    def p_loc(self):
        return Loc(self)

    def m_copy(self, ctx, *a, **k):
        return self.dup()

    def items(self):
        return self.columns

    def col(self, c):
        if c not in self.columns:
            raise PyRaise(KeyError, (c,))
        return Series([r.get(c) for r in self.rows], self.idx)

    def getitem(self, ctx, i):
        if isinstance(i, str):
            return self.col(i)
        if isinstance(i, PyList):
            for c in i.l:
                self.col(c)
            return Frame([{c: r.get(c) for c in i.l} for r in self.rows], self.idx, i.l)
        raise Unsupported(f"DataFrame[{i!r}]")

    def setitem(self, ctx, c, v):
        vals = v.v if isinstance(v, Series) else seq(ctx, v)
        if len(vals) != len(self.rows):
            raise PyRaise(ValueError, ("Length of values does not match length of index",))
        for r, x in zip(self.rows, vals):
            r[c] = x
        if c not in self.columns:
            self.columns.append(c)

    def m_to_dict(self, ctx, orient="dict", **k):
        if orient != "records" or k:
            raise Unsupported("DataFrame.to_dict other than records")
        return PyList([PyDict({c: r.get(c) for c in self.columns}) for r in self.rows])

    def m_iterrows(self, ctx):
        raise Unsupported("iterrows")

    def m_merge(self, ctx, right, on=None, how="inner", **k):
        if k or not isinstance(on, str) or how not in ("left", "inner") or not isinstance(right, Frame):
            raise Unsupported("merge")
        self.col(on), right.col(on)
        both = [c for c in self.columns if c in right.columns and c != on]
        out, cols = [], [c + "_x" if c in both else c for c in self.columns] + [c + "_y" if c in both else c for c in right.columns if c != on]
        for r in self.rows:
            hit = [q for q in right.rows if q.get(on) == r.get(on)]
            if not hit and how == "left":
                hit = [{}]
            for q in hit:
                n = {(c + "_x" if c in both else c): r.get(c) for c in self.columns}
                n.update({(c + "_y" if c in both else c): q.get(c) for c in right.columns if c != on})
                out.append(n)
        return Frame(out, None, cols)

    def write(self, ctx, fmt, path):
        ctx.files[path if isinstance(path, str) else getattr(path, "path", None)] = (fmt, self.dup())
        ctx.events.append(("file", path, fmt, self.dup()))

    def m_to_parquet(self, ctx, path, **k):
        self.write(ctx, "parquet", path)

    def m_to_json(self, ctx, path, **k):
        self.write(ctx, "json", path)

    def m_to_csv(self, ctx, path, index=True, **k):
        self.write(ctx, "csv" if index is False else "csv with index", path)


class Loc(Host):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def getitem(self, ctx, i):
        f = self.f
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], SliceVal) and i[0].lo is None and i[0].hi is None and i[0].step is None:
            return f.getitem(ctx, i[1])
        if isinstance(i, (PyList, RangeVal)):
            want, rows = [], []
            for x in seq(ctx, i):
                hit = [q for q, y in enumerate(f.idx) if y == x]
                if not hit:
                    raise PyRaise(KeyError, (f"{x} not in index",))
                for q in hit:
                    want.append(x)
                    rows.append(f.rows[q])
            return Frame(rows, want, f.columns)
        raise Unsupported("DataFrame.loc")


class Series(Host):
    name = "Series"

    def __init__(self, v, idx=None):
        super().__init__()
        self.v, self.idx = list(v), idx

    def items(self):
        return self.v

    def m_dropna(self, ctx):
        return Series([x for x in self.v if x is not None])

    def m_unique(self, ctx):
        return Series(list(dict.fromkeys(self.v)))

    def m_tolist(self, ctx):
        return PyList(list(self.v))

    def m_to_list(self, ctx):
        return PyList(list(self.v))

    def p_values(self):
        return PyList(list(self.v))

    def m_astype(self, ctx, t):
        if any(not isinstance(x, int) for x in self.v):
            raise Unsupported("astype")
        return Series(self.v, self.idx)

    def m_sum(self, ctx):
        return sum(1 for x in self.v if x is True) if all(isinstance(x, bool) for x in self.v) else self.no()

    def no(self):
        raise Unsupported("Series.sum")

    def compare(self, ctx, op, other):
        if op not in ("==", "!="):
            raise Unsupported("Series comparison")
        return Series([(x == other) == (op == "==") for x in self.v], self.idx)


class Path(Host):
    name = "Path"

    def __init__(self, path):
        super().__init__()
        self.path = path

    def m_exists(self, ctx):
        return self.path in ctx.files

    m_is_file = m_exists

    def m_mkdir(self, ctx, *a, **k):
        return None


class Module(Host):
    """pd with the operations above"""
    name = "pd"

    def p_DataFrame(self):
        return Ext("DataFrame", self.frame)

    @staticmethod
    def frame(ctx, a, k):
        cols = k.pop("columns", None)
        if k or len(a) > 1:
            raise Unsupported("DataFrame options")
        rows = []
        for r in seq(ctx, a[0]) if a else []:
            if not isinstance(r, PyDict) or r.log:
                raise Unsupported("DataFrame of something else than records")
            rows.append(r.d)
        return Frame(rows, None, None if cols is None else seq(ctx, cols))

    def m_array(self, ctx, v, dtype=None):
        return Series(seq(ctx, v))

    def m_Series(self, ctx, v, **k):
        return Series(seq(ctx, v))

    def m_read_parquet(self, ctx, path, **k):
        path = getattr(path, "path", path)
        if path not in ctx.files:
            raise PyRaise(FileNotFoundError, (path,))
        return ctx.files[path][1].dup()


def install(ctx, modules, **names):
    ctx.files = {}
    pd = Module()
    for m in modules:
        v = ctx.prog.load(m).env.vars
        v["pd"] = pd
        if "Path" in v:
            v["Path"] = Ext("Path", lambda c, a, k: Path(getattr(a[0], "path", a[0])))
    v = ctx.prog.load(modules[0]).env.vars
    v.update(names)
    return v
