"""Provenance of the tables handled by run_scenarios.

Every pandas/scmdata value the analysed code builds is an opaque term that
records how it was made.  This module classifies such terms in a small domain:

  tab   the scenario table (any stage: input, filtered, with metadata, wide)
  row   one row of it as a series          vals  its values as a plain array
  one   a one-row table made from a row    axis  time points of a row
  lab   one label of a row                 out   labelled model output

plus `top`: unknown (banned=False) or known to alter the data (banned=True)."""
from . import nf
from . import terms as tm


class AV:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def but(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return AV(**d)

    def __repr__(self):
        return "AV(%s)" % ", ".join("%s=%s" % (k, tm.show(v) if isinstance(v, tm.T) else v) for k, v in self.__dict__.items() if k not in ("meta", "sets"))


ALLTIMES = "time axis of the table of all scenarios"


def top(why, banned=False):
    return AV("top", why=why, banned=banned)


def opn(t):
    return t.args[0] if isinstance(t, tm.T) and t.op in ("opq", "bopq", "fn") else None


def lit(t):
    """python value of a literal term, or the term"""
    if not isinstance(t, tm.T):
        return t
    if t.op == "num":
        return t.args[0]
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    if t.op == "cat" and all(isinstance(a, str) for a in t.args):
        return "".join(t.args)
    if opn(t) == "const" and t.args[1] == "None":
        return None
    return t


def split(args):
    """positional and keyword terms of an opaque call"""
    pos, kw = [], {}
    it = iter(args)
    for a in it:
        k = a if isinstance(a, str) else lit(a)
        if isinstance(k, str) and k.startswith("kw:"):
            kw[k[3:]] = next(it)
        else:
            pos.append(a)
    return pos, kw


ALTER = {
    "fillna", "interpolate", "ffill", "bfill", "pad", "backfill", "clip", "round", "shift", "cumsum", "cumprod", "cummax",
    "cummin", "rolling", "expanding", "ewm", "abs", "sort_values", "sort", "head", "tail", "replace", "where", "mask", "mean", "median",
    "rank", "pct_change", "resample", "sample", "nlargest", "nsmallest", "drop_duplicates", "duplicated", "truncate", "asfreq", "sum", "groupby",
    "combine", "combine_first", "update", "add", "sub", "mul", "div", "truediv", "pow", "reindex", "std", "var", "max", "min",
    "convert_unit", "process_over", "time_mean", "drop_meta", "relative_to_ref_period_mean", "unique", "nan_to_num",
    "subtract", "divide", "multiply", "linear_regression", "integrate", "delta_per_delta_time", "adjust_median_to_target",
}
KEEP_ROW = {"copy", "astype", "convert_dtypes", "infer_objects", "squeeze", "ravel", "flatten", "view", "rename", "to_series", "rename_axis"}
TO_VALS = {"to_numpy", "to_list", "tolist", "__array__"}
FLOATS = ("float", "float64", "numpy.float64", "builtins.float", "numpy.float_", "f8", "numpy.double")


def is_float_dtype(a):
    s = lit(a)
    if isinstance(s, str):
        return s in FLOATS
    return opn(a) == "lib" and a.args[1] in FLOATS


def full_slice(t):
    if opn(t) == "slice":
        return all(lit(a) is None for a in t.args[1:])
    if opn(t) == "tuple":
        return all(full_slice(a) or lit(a) == 0 for a in t.args[1:]) and any(full_slice(a) for a in t.args[1:])
    return opn(t) == "const" and t.args[1] == "Ellipsis"


class Flow:
    def __init__(self, source, ivar=None, complete=()):
        self.source = source
        self.ivar = ivar
        self.memo = {}
        self.blocked = []  # conditions that decide what a value is
        self.complete = complete  # rows known to have no missing values

    def choice_hit(self, x, what):
        self.blocked.append(x.cond)
        return top("%s depends on %s" % (what, tm.show(x.cond)[:160]))

    def ab(self, t):
        if not isinstance(t, tm.T):
            return top("literal %r" % (t,))
        r = self.memo.get(id(t))
        if r is None:
            v = self._ab(t)
            if v.kind == "tab":
                v = v.but(term=t)
            r = self.memo[id(t)] = (t, v)
        return r[1]

    # ------------------------------------------------------------ dispatch
    def _ab(self, t):
        if t is self.source:
            return AV("tab", form="src", filters=[], meta=[], notes=[])
        if t.op == "ite":
            a, b = self.ab(t.args[1]), self.ab(t.args[2])
            return AV("choice", cond=t.args[0], a=a, b=b)
        if t.op == "prod" and len(t.args[0]) == 1 and t.args[0][0][1] == 1:
            return self.ab(t.args[0][0][0])
        o = opn(t)
        if o is None:
            if t.op == "cat":
                return AV("text", term=t)
            if t.op in ("num", "atom", "sum", "prod"):
                if t.op in ("sum", "prod") and self.uses_data(t):
                    return top("arithmetic on the data: " + tm.show(t)[:160], banned=True)
                return AV("number", term=t)
            return top("node %s" % t.op)
        if o == "row":
            return self.row_of(self.ab(t.args[1]), t.args[2])
        if o == "rowlabel":
            x = self.ab(t.args[1])
            if x.kind == "choice":
                return self.choice_hit(x, "row label")
            return AV("labels", tab=x, i=t.args[2]) if x.kind == "tab" else x
        if o == "ScmRun":
            pos, kw = split(t.args[1:])
            return self.scmrun(pos, kw)
        if o == "array":
            return AV("array", body=t.args[1], shape=t.args[2:])
        if o.startswith("m:"):
            pos, kw = split(t.args[2:])
            return self.method(o[2:], t.args[1], pos, kw)
        if o.startswith("mut:"):
            return self.mutation(o[4:], t.args[1], t.args[2:])
        if o == "attr":
            return self.attribute(t.args[1], t.args[2] if isinstance(t.args[2], str) else lit(t.args[2]))
        if o == "getitem":
            return self.item(t.args[1], t.args[2])
        if o == "elem":
            return self.elem(t.args[1], t.args[2])
        if o.startswith("call:"):
            pos, kw = split(t.args[1:])
            return self.libcall(o[5:], pos, kw)
        if o.startswith("op:"):
            return self.operator(o[3:], t.args[1:])
        if o == "dictof":
            return self.dictof(t)
        if o in ("list", "tuple", "gen"):
            return AV("list", items=t.args[1:])
        if o.startswith("fn:"):
            return self.libcall("numpy." + o[3:], list(t.args[1:]), {})
        if o == "cast":
            x = self.ab(t.args[1])
            return x if is_float_dtype(t.args[2]) else top("values cast to %s" % tm.show(t.args[2]), banned=True)
        return top("operation %s" % o)

    def uses_data(self, t):
        return any(s is self.source for s in tm.subterms(t))

    def row_of(self, x, i):
        if x.kind == "choice":
            return self.choice_hit(x, "row")
        if x.kind == "tab":
            return AV("row", tab=x, i=i, nn=i in self.complete)
        if x.kind == "one":
            return AV("row", tab=x.tab, i=x.i, nn=x.nn, sets=x.sets)
        return x if x.kind == "top" else top("row of %s" % x.kind)

    def scmrun(self, pos, kw):
        if not pos:
            pos = [kw.pop("data")] if "data" in kw else pos
        kw.pop("copy_data", None)
        if not pos:
            return top("ScmRun without data")
        x = self.ab(pos[0])
        if x.kind == "choice":
            return self.choice_hit(x, "ScmRun")
        if x.kind == "tab" and not kw and len(pos) == 1:
            return x.but(form="run")
        if x.kind == "one" and not kw and len(pos) == 1:
            return x.but(form="run")
        if x.kind in ("cat", "list") and not kw:
            return x if x.kind == "cat" else self.concat(x)
        if x.kind == "row" and not kw:
            return AV("one", tab=x.tab, i=x.i, nn=x.nn, form="run", sets=[], vals=None, meta=[])
        return x if x.kind == "top" else top("ScmRun of %s" % x.kind)

    def concat(self, x):
        return AV("cat", items=x.items, meta=[])

    # ------------------------------------------------------------ methods
    def method(self, name, recv, pos, kw):
        x = self.ab(recv)
        if x.kind == "choice":
            return self.choice_hit(x, "method %s" % name)
        if x.kind == "top":
            return x
        if name in ("copy", "__copy__", "__deepcopy__", "sort_index", "rename_axis") and x.kind in ("tab", "one", "row", "vals", "cat", "axis"):
            return x
        f = getattr(self, "m_" + x.kind, None)
        r = f(x, name, pos, kw) if f else None
        if r is not None:
            return r
        if name in ALTER and x.kind in ("tab", "one", "row", "vals", "axis", "cat"):
            return top("%s() on %s" % (name, x.kind), banned=True)
        return top("method %s of %s" % (name, x.kind))

    def m_tabmask(self, x, name, pos, kw):
        if name in ("all", "any") and not pos and lit(kw.get("axis", tm.ZERO)) in (0, "index"):
            # (times at which no scenario has a value do not matter)
            if (name == "all") != x.neg:
                return top("the times at which all scenarios have values", banned=True)
            return top("the times at which no scenario has values") if x.neg else AV("anycols", tab=x.tab)
        if name in ("to_numpy", "copy"):
            return x
        return None

    def m_tab(self, x, name, pos, kw):
        if name in ("notna", "notnull", "isna", "isnull") and not pos:
            return AV("tabmask", tab=x, neg=name in ("isna", "isnull"))
        if name == "filter":
            kw = {k: lit(v) for k, v in kw.items()}
            for flag in ("log_if_empty", "log_if_not_found"):
                kw.pop(flag, None)
            if pos:
                return top("filter with positional arguments")
            return x.but(filters=x.filters + [kw])
        if name in ("timeseries", "to_timeseries", "long_data"):
            if name == "long_data":
                return None
            bad = self.meta_args(pos, kw)
            if bad:
                return top("timeseries(%s)" % ", ".join(sorted(bad)))
            return x.but(form="frame")
        if name in ("reorder_levels", "sort_index", "to_frame"):
            return x
        if name == "dropna":
            how, axis = lit(kw.get("how", pos[1] if len(pos) > 1 else None)), lit(kw.get("axis", pos[0] if pos else 0))
            if how == "all" and axis in (1, "columns"):
                return x
            return top("dropna(how=%s, axis=%s) on the table of all scenarios" % (how or "any", axis), banned=True)
        if name in ("astype",) and pos and is_float_dtype(pos[0]):
            return x
        if name in ("transpose",):
            return AV("tabT", tab=x)
        if name == "set_meta" or name == "assign":
            return None
        if name in ("items", "iterrows"):
            return None
        if name in ("get_unique_meta",):
            return top("%s of the table of all scenarios" % name, banned=True)
        return None

    def m_tabT(self, x, name, pos, kw):
        if name == "items":
            return AV("rowitems", tab=x.tab)
        return None

    def m_tabindex(self, x, name, pos, kw):
        if name == "get_level_values" and pos:
            return AV("labcol", tab=x.tab, key=pos[0])
        return None

    def m_labcol(self, x, name, pos, kw):
        if name in TO_VALS or name in ("astype", "copy", "reset_index"):
            return x
        if name in ("unique", "mode", "max", "min", "nunique", "item"):
            return top("%s of the labels of all scenarios" % name, banned=True)
        return None

    def m_names(self, x, name, pos, kw):
        if name in ("tolist", "to_list", "copy"):
            return x
        if name in ("index", "get_loc") and len(pos) == 1:
            return AV("nameindex", key=pos[0])
        return None

    def m_catmeta(self, x, name, pos, kw):
        if name in ("tolist", "to_list", "copy"):
            return x
        return None

    def all_meta(self, t):
        """every metadata column (or the default, which is that)"""
        if lit(t) is None:
            return True
        return self.ab(t).kind in ("catmeta", "names")

    def meta_args(self, pos, kw):
        """arguments of timeseries() that are not understood"""
        bad = {k for k, v in kw.items() if k not in ("check_duplicated", "drop_all_nan_times", "axis", "meta") and lit(v) is not None}
        for m in list(pos[:1]) + ([kw["meta"]] if "meta" in kw else []):
            if not self.all_meta(m):
                bad.add("meta")
        if len(pos) > 1:
            bad.add("positional arguments")
        return bad

    def m_row(self, x, name, pos, kw):
        if name == "dropna":
            return x.but(nn=True)
        if name == "astype":
            a = pos[0] if pos else kw.get("dtype")
            return x if a is not None and is_float_dtype(a) else top("values cast to %s" % tm.show(a), banned=True)
        if name in ("rename",):
            return x
        if name in KEEP_ROW:
            return x
        if name in ("notna", "notnull"):
            return AV("nnmask", i=x.i, nn=x.nn)
        if name in ("isna", "isnull"):
            return AV("nanmask", i=x.i, nn=x.nn)
        if name in TO_VALS:
            return AV("vals", tab=x.tab, i=x.i, nn=x.nn)
        if name == "to_frame":
            return AV("oneT", tab=x.tab, i=x.i, nn=x.nn)
        if name == "first_valid_index" or name == "last_valid_index":
            return None
        return None

    def m_vals(self, x, name, pos, kw):
        if name == "astype":
            a = pos[0] if pos else kw.get("dtype")
            return x if a is not None and is_float_dtype(a) else top("values cast to %s" % tm.show(a), banned=True)
        if name in ("squeeze", "ravel", "flatten", "copy", "view") or name in TO_VALS:
            return x
        if name == "reshape" and len(pos) == 1 and lit(pos[0]) == -1:
            return x
        return None

    def m_oneT(self, x, name, pos, kw):
        if name == "transpose":
            return self.one(x)
        if name == "dropna" and lit(kw.get("axis", 0)) in (0, "index", "rows"):
            return x.but(nn=True)
        if name == "squeeze":
            return AV("row", tab=x.tab, i=x.i, nn=x.nn)
        return None

    def one(self, x, form="frame"):
        return AV("one", tab=x.tab, i=x.i, nn=x.nn, form=form, sets=list(getattr(x, "sets", [])), vals=None, meta=[])

    def m_one(self, x, name, pos, kw):
        if name == "dropna":
            how, axis = lit(kw.get("how", None)), lit(kw.get("axis", pos[0] if pos else 0))
            if axis in (1, "columns"):
                return x.but(nn=True)
            return top("dropna drops the scenario", banned=True)
        if name in ("timeseries",):
            bad = self.meta_args(pos, kw)
            return top("timeseries(%s)" % ", ".join(sorted(bad))) if bad else x.but(form="frame")
        if name in ("reorder_levels", "sort_index", "rename_axis"):
            return x
        if name in ("astype",) and pos and is_float_dtype(pos[0]):
            return x
        if name in ("get_unique_meta",) and pos:
            return self.label(x, pos[0])
        if name in ("squeeze",):
            return AV("row", tab=x.tab, i=x.i, nn=x.nn, sets=x.sets) if x.vals is None else None
        if name in ("set_index", "set_axis", "reset_index"):
            return None
        if name in TO_VALS:
            return AV("vals2", one=x) if x.vals is None else None
        return None

    def m_oneindex(self, x, name, pos, kw):
        if name == "set_levels":
            lv = kw.get("levels", pos[0] if pos else None)
            key = kw.get("level", pos[1] if len(pos) > 1 else None)
            if lv is None or key is None or opn(lv) not in ("list", "tuple") or len(lv.args) != 2:
                return top("set_levels")
            return AV("oneindex", one=x.one, sets=x.sets + [(key, lv.args[1])])
        if name == "get_level_values" and pos:
            return AV("onelab", one=x.one.but(sets=x.sets), key=pos[0])
        if name in ("copy", "reorder_levels", "set_names", "rename"):
            return x
        if name == "to_frame":
            return AV("labframe", one=x.one, sets=x.sets)
        if name in ("tolist", "to_list", "to_flat_index") and not x.sets:
            return AV("list", items=[tm.opq("rowlabel", self.term(x.one.tab), x.one.i)])
        return None

    def m_labframe(self, x, name, pos, kw):
        if name == "copy" or name == "reset_index" and lit(kw.get("drop", tm.FALSE)) is True:
            return x
        if name == "assign" and not pos:
            return x.but(sets=x.sets + [(tm.cat(k), v) for k, v in kw.items()])
        return None

    def m_vals2(self, x, name, pos, kw):
        if name in ("squeeze", "ravel", "flatten") or name == "reshape" and len(pos) == 1 and lit(pos[0]) == -1:
            return AV("vals", tab=x.one.tab, i=x.one.i, nn=x.one.nn)
        return None

    def m_labels(self, x, name, pos, kw):
        return None

    def m_cat(self, x, name, pos, kw):
        if name in ("timeseries", "reorder_levels", "sort_index"):
            bad = self.meta_args(pos, kw) if name == "timeseries" else ()
            if bad:
                return top("timeseries(%s)" % ", ".join(sorted(bad)))
            return x
        if name == "filter":
            return top("results are filtered", banned=True)
        if name == "dropna":
            return top("dropna on the results", banned=True)
        if name == "append":
            return None
        return None

    def label(self, x, key):
        for k, v in reversed(x.sets):
            if k is key:
                return AV("setlab", term=v)
        return AV("lab", tab=x.tab, i=x.i, key=key)

    # ------------------------------------------------------------ mutation
    def mutation(self, how, recv, args):
        x = self.ab(recv)
        if x.kind == "choice":
            return self.choice_hit(x, "modified object")
        if x.kind == "top":
            return x
        if how == "ScmRun-format":
            return x
        if how.startswith("m:"):
            pos, kw = split(args)
            f = getattr(self, "m_" + x.kind, None)
            if how == "m:rename_axis":
                return x
            r = f(x, how[2:], pos, kw) if f else None
            return r if r is not None else top("in-place %s on %s" % (how[2:], x.kind), how[2:] in ALTER)
        if x.kind == "labframe":
            if how == "setitem" and isinstance(lit(args[0]), str):
                return x.but(sets=x.sets + [(args[0], args[1])])
            return top("%s on an index" % how)
        if how.startswith("via:meta:") and x.kind in ("one", "tab", "cat"):
            return x  # ScmRun.meta is built anew on every access: writing to it changes nothing
        if how in ("setitem", "via:iloc:setitem", "via:loc:setitem", "via:values:setitem", "via:T:setitem"):
            key, val = args[0], args[1]
            if how == "setitem":
                k = lit(key)
                if x.kind == "tab":
                    return x.but(meta=x.meta + [(key, val)])
                if x.kind in ("one", "cat"):
                    if isinstance(k, str) or (isinstance(key, tm.T) and key.op == "cat"):
                        return x.but(meta=x.meta + [(key, val)])
            if x.kind == "one" and (full_slice(key) or lit(key) == 0):
                return x.but(vals=val)
            return top("%s on %s" % (how, x.kind), banned=x.kind in ("row", "vals", "tab", "axis"))
        if how.endswith("setattr:names") or how.endswith("setattr:name"):
            return x
        if how == "setattr:index" and x.kind == "one":
            ix = self.ab(args[0])
            if ix.kind == "oneindex" and ix.one.i is x.i:
                return x.but(sets=ix.sets)
            if ix.kind == "midx":
                return x.but(sets=x.sets + ix.sets)
            return top("index set to %s" % ix.kind)
        if how == "setattr:columns":
            c = self.ab(args[0])
            if x.kind in ("one",) and c.kind == "axis" and c.i is x.i and c.nn == x.nn:
                return x
            return top("columns set")
        if how.startswith("via:"):
            return top("%s on %s" % (how, x.kind))
        return top("%s on %s" % (how, x.kind))

    # ------------------------------------------------------------ attributes
    def attribute(self, recv, name):
        x = self.ab(recv)
        if x.kind == "choice":
            return self.choice_hit(x, "attribute")
        k = x.kind
        if k == "top":
            return x
        if k == "tab":
            if name == "T":
                return AV("tabT", tab=x)
            if name == "index":
                return AV("tabindex", tab=x)
            if name in ("iloc", "loc"):
                return AV("tabloc", tab=x, how=name)
            if name == "columns":
                return top(ALLTIMES, banned=True)
            if name in ("shape", "empty", "size"):
                return AV("tabshape", tab=x, what=name)
            if name == "meta":
                return AV("tabmeta", tab=x)
            if name in ("values",):
                return AV("tabvals", tab=x)
        if k == "tabindex" and name in ("names", "nlevels"):
            return AV("names", tab=x.tab)
        if k == "tabmeta" and name in ("columns", "index", "shape"):
            return AV("names", tab=x.tab)
        if k == "labcol" and name in ("values", "iloc", "array"):
            return x
        if k == "row":
            if name in ("values", "array"):
                return AV("vals", tab=x.tab, i=x.i, nn=x.nn)
            if name == "index":
                return AV("axis", tab=x.tab, i=x.i, nn=x.nn, what="time")
            if name == "name":
                return AV("labels", tab=x.tab, i=x.i)
            if name in ("iloc", "loc"):
                return AV("rowloc", row=x)
            if name in ("shape", "size"):
                return AV("rowsize", row=x)
        if k == "vals" and name in ("T", "flat", "real"):
            return x
        if k == "vals" and name in ("shape", "size"):
            return AV("rowsize", row=x)
        if k == "oneT" and name == "T":
            return self.one(x)
        if k == "one":
            if name == "T":
                return AV("oneT", tab=x.tab, i=x.i, nn=x.nn)
            if name == "index":
                return AV("oneindex", one=x, sets=x.sets)
            if name == "columns":
                return AV("axis", tab=x.tab, i=x.i, nn=x.nn, what="time")
            if name in ("time_points", "iloc", "loc"):
                return AV("oneloc", one=x) if name != "time_points" else AV("timepoints", one=x)
            if name == "values":
                return AV("vals2", one=x)
            if name in ("shape", "size"):
                return AV("rowsize", row=x)
            if name == "meta":
                return AV("onemeta", one=x)
        if k == "oneindex" and name == "names":
            return AV("names", tab=x.one.tab)
        if k == "axis":
            if name in ("year", "dt"):
                return x.but(what="year" if name == "year" else x.what)
            if name == "values":
                return x
        if k == "cat" and name == "meta":
            return AV("catmeta")
        if k == "catmeta":
            return AV("catmeta")
        return top("attribute %s of %s" % (name, k))

    # ------------------------------------------------------------ items
    def item(self, recv, key):
        x = self.ab(recv)
        if x.kind == "choice":
            return self.choice_hit(x, "item")
        k = x.kind
        if k == "top":
            return x
        if k == "tabloc":
            if opn(key) == "list" and len(key.args) == 2:
                return self.one(AV("x", tab=x.tab, i=key.args[1], nn=False))
            if opn(key) == "slice":
                lo, hi = key.args[1], key.args[2]
                if isinstance(lo, tm.T) and isinstance(hi, tm.T) and lit(key.args[3]) is None and lit(lo) is not None and lit(hi) is not None and x.how == "iloc" and tm.sub(hi, lo) is tm.ONE:
                    return self.one(AV("x", tab=x.tab, i=lo, nn=False))
                return top("slice of the table", banned=True)
            if x.how == "iloc":
                if opn(key) == "tuple" and len(key.args) == 3 and full_slice(key.args[2]):
                    key = key.args[1]
                if opn(key) == "tuple":
                    return top("part of a row", banned=True)
                return AV("row", tab=x.tab, i=key, nn=False)
            if opn(key) == "tuple" and len(key.args) == 3 and full_slice(key.args[1]):
                cols = self.ab(key.args[2])
                if cols.kind == "anycols":
                    return x.tab
                if cols.kind == "top" and cols.banned:
                    return cols
            lab = self.ab(key)
            if lab.kind == "labels":
                return AV("row", tab=x.tab, i=lab.i, nn=False)
            if lab.kind == "top" and lab.banned:
                return lab
            return top("loc")
        if k == "tabvals":
            return AV("vals", tab=x.tab, i=key, nn=False) if opn(key) not in ("slice", "tuple") else top("part of the values")
        if k == "tabindex":
            return AV("labels", tab=x.tab, i=key)
        if k == "labcol":
            return AV("lab", tab=x.tab, i=key, key=x.key)
        if k == "labels":
            pos = self.ab(key)
            if pos.kind == "nameindex":
                return AV("lab", tab=x.tab, i=x.i, key=pos.key)
            return top("label at position %s" % tm.show(key))
        if k == "labeldict":
            return AV("lab", tab=x.tab, i=x.i, key=key)
        if k == "onelab":
            return self.label(x.one, x.key) if lit(key) in (0, -1) else top("label")
        if k == "tab":
            if lit(key) in ("year", "time", "month", "day") and not getattr(x, "single", False):
                return top(ALLTIMES, banned=True)
            if isinstance(lit(key), str):
                return AV("labcol", tab=x, key=key)
            m = self.ab(key)
            if m.kind == "top" and m.banned:
                return m
            return top("mask %s of the scenario table" % tm.show(key)[:80])
        if k == "tabmeta" and isinstance(lit(key), str):
            return AV("labcol", tab=x.tab, key=key)
        if k in ("row", "vals"):
            m = self.ab(key)
            if m.kind == "nnmask" and m.i is x.i:
                return x.but(nn=True)
            if m.kind == "top" and m.banned:
                return m
            if full_slice(key):
                return x
            if opn(key) == "slice":
                return top("slice of a row", banned=True)
            return AV("cell", of=x, key=key)
        if k == "rowloc":
            if full_slice(key):
                return x.row
            m = self.ab(key)
            if m.kind == "top" and m.banned:
                return m
            if m.kind == "nnmask" and m.i is x.row.i:
                return x.row.but(nn=True)
            if opn(key) == "slice":
                return top("slice of a row", banned=True)
            return AV("cell", of=x.row, key=key)
        if k == "one":
            what = lit(key)
            if x.form == "run" and what in ("year", "time", "month", "day"):
                return AV("axis", tab=x.tab, i=x.i, nn=x.nn, what=what)
            if x.form == "run" and isinstance(what, str):
                return AV("onelab", one=x, key=key)
            return top("item %s of a one-row table" % tm.show(key)[:60])
        if k == "oneloc":
            if lit(key) == 0 or (opn(key) == "tuple" and lit(key.args[1]) == 0 and full_slice(key.args[2])):
                return AV("row", tab=x.one.tab, i=x.one.i, nn=x.one.nn, sets=x.one.sets) if x.one.vals is None else top("row of an output")
            return top("part of a row", banned=True)
        if k == "vals2":
            if lit(key) == 0 or opn(key) == "tuple" and lit(key.args[1]) == 0 and full_slice(key.args[2]):
                return AV("vals", tab=x.one.tab, i=x.one.i, nn=x.one.nn)
            return top("part of the values")
        if k == "onemeta":
            return AV("onelab", one=x.one, key=key)
        if k == "nonzero":
            return x.mask if lit(key) == 0 else top("nonzero")
        if k == "axis":
            m = self.ab(key)
            if m.kind == "nnmask" and m.i is x.i:
                return x.but(nn=True)
            return AV("axisitem", axis=x, key=key)
        if k == "tabshape":
            return AV("tabcount", tab=x.tab) if lit(key) == 0 else top("shape")
        if k == "onlab":
            return top("label")
        if k == "rowsize":
            return x
        return top("item of %s" % k)

    def elem(self, recv, i):
        x = self.ab(recv)
        if x.kind == "choice":
            return self.choice_hit(x, "element")
        if x.kind == "rowitems":
            return AV("list", items=[tm.opq("rowlabel", self.term(x.tab), i), tm.opq("row", self.term(x.tab), i)])
        if x.kind == "tabindex":
            return AV("labels", tab=x.tab, i=i)
        if x.kind == "oneindex" and not x.sets:
            return AV("labels", tab=x.one.tab, i=x.one.i)
        if x.kind == "labels":
            return AV("lab", tab=x.tab, i=x.i, key=i)
        if x.kind == "labcol":
            return AV("lab", tab=x.tab, i=i, key=x.key)
        if x.kind == "tabvals":
            return AV("vals", tab=x.tab, i=i, nn=False)
        if x.kind == "cat" or x.kind == "list":
            return self.cat_elem(x, i)
        return x if x.kind == "top" else top("element of %s" % x.kind)

    def cat_elem(self, x, i):
        if len(x.items) == 1 and opn(x.items[0]) == "seg":
            s = x.items[0]
            return self.ab(tm.subst(s.args[4], {s.args[1]: i}))
        return top("element of a list")

    def term(self, tab):
        return tab.term

    def dictof(self, t):
        ks = [a for a in t.args[1:] if isinstance(a, tm.T)]
        names = labels = None
        for a in ks:
            o = opn(a)
            if o in ("elem", "getitem"):
                v = self.ab(a.args[1])
                if v.kind == "choice":
                    return self.choice_hit(v, "dictionary")
                if v.kind == "names":
                    names = v
                if v.kind == "labels":
                    labels = v
        if names is not None and labels is not None:
            return AV("labeldict", tab=labels.tab, i=labels.i)
        return top("dictionary")

    # ------------------------------------------------------------ library
    def libcall(self, path, pos, kw):
        root, _, name = path.rpartition(".")
        for a in pos[:1]:
            x = self.ab(a)
            if x.kind == "choice":
                return self.choice_hit(x, path)
        if name in ("asarray", "array", "asanyarray", "ascontiguousarray", "atleast_1d", "squeeze", "ravel", "copy", "deepcopy", "list", "tuple", "asfarray", "float64", "array"):
            if pos:
                x = self.ab(pos[0])
                d = kw.get("dtype", pos[1] if len(pos) > 1 and name in ("asarray", "array") else None)
                if d is not None and lit(d) is not None and not is_float_dtype(d):
                    return top("values cast to %s" % tm.show(d), banned=True)
                if x.kind == "row":
                    return AV("vals", tab=x.tab, i=x.i, nn=x.nn)
                if x.kind == "vals2" and name in ("squeeze", "ravel"):
                    return AV("vals", tab=x.one.tab, i=x.one.i, nn=x.one.nn)
                if x.kind in ("vals", "axis", "list", "labels", "names", "one", "tab", "array", "catmeta", "labcol"):
                    return x
                return x if x.kind == "top" else top("%s of %s" % (path, x.kind))
        if path in ("pandas.concat", "scmdata.run.run_append", "scmdata.run_append") and pos:
            x = self.ab(pos[0])
            axis = lit(kw.get("axis", 0))
            if x.kind in ("list", "cat") and axis in (0, "index", "rows") and not (set(kw) - {"axis", "sort", "copy", "join", "verify_integrity"}):
                if lit(kw.get("join", "outer")) == "outer" or all(self.ab(it).kind == "one" for it in x.items if opn(it) not in ("seg", "guarded")) and not any(opn(it) == "seg" for it in x.items):
                    return self.concat(x)
                return top("only the time points which all results share are kept", banned=True)
            return x if x.kind == "top" else top("%s over %s" % (path, x.kind))
        if path in ("pandas.DataFrame",):
            return self.dataframe(pos, kw)
        if path.startswith("pandas.MultiIndex.from_") or path.startswith("pandas.core.indexes.multi.MultiIndex.from_"):
            return self.multiindex(name, pos, kw)
        if path in ("numpy.isnan", "pandas.isna", "pandas.isnull") and pos:
            x = self.ab(pos[0])
            if x.kind in ("row", "vals"):
                return AV("nanmask", i=x.i, nn=x.nn)
        if path in ("pandas.notna", "pandas.notnull", "numpy.isfinite") and pos:
            x = self.ab(pos[0])
            if x.kind in ("row", "vals"):
                return AV("nnmask", i=x.i, nn=x.nn)
        if path in ("numpy.logical_not", "numpy.invert") and pos:
            x = self.ab(pos[0])
            if x.kind in ("nanmask", "nnmask"):
                return AV("nnmask" if x.kind == "nanmask" else "nanmask", i=x.i, nn=x.nn)
        if path in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(pos) == 1:
            x = self.ab(pos[0])
            if x.kind == "nnmask":
                return x if name == "flatnonzero" else AV("nonzero", mask=x)
        if path in ("builtins.len",) and pos:
            x = self.ab(pos[0])
            if x.kind == "tab":
                return AV("tabcount", tab=x)
        if name in ALTER and pos and self.ab(pos[0]).kind in ("row", "vals", "tab", "one"):
            return top("%s applied to the data" % path, banned=True)
        for a in list(pos) + list(kw.values()):
            x = self.ab(a)
            if x.kind == "top" and x.banned:
                return x
        return top("call of %s" % path)

    def dataframe(self, pos, kw):
        data = pos[0] if pos else kw.get("data")
        index = kw.get("index", pos[1] if len(pos) > 1 else None)
        cols = kw.get("columns", pos[2] if len(pos) > 2 else None)
        if data is None:
            return top("empty DataFrame")
        x = self.ab(data)
        if x.kind == "row" and index is None and cols is None:
            return AV("oneT", tab=x.tab, i=x.i, nn=x.nn)
        if x.kind == "list" and len(x.items) == 1:
            r = self.ab(x.items[0])
            if r.kind == "row" and index is None and cols is None:
                return self.one(r)
            c = self.ab(cols) if cols is not None else None
            ix = self.ab(index) if index is not None else None
            if c is not None and ix is not None and c.kind == "axis" and ix.kind in ("oneindex", "midx"):
                base = ix.one if ix.kind == "oneindex" else self.one(c)
                if r.kind in ("row", "vals") and r.i is c.i and r.nn == c.nn:
                    return base.but(nn=c.nn, sets=ix.sets, vals=None)
                return base.but(nn=c.nn, sets=ix.sets, vals=x.items[0], meta=[])
        c = self.ab(cols) if cols is not None else None
        ix = self.ab(index) if index is not None else None
        if c is not None and c.kind == "axis" and ix is not None and ix.kind in ("oneindex", "midx"):
            base = ix.one if ix.kind == "oneindex" else self.one(c)
            v = strip2d(data)
            if v is not None:
                return base.but(nn=c.nn, sets=ix.sets, vals=v, meta=[])
        return x if x.kind == "top" else top("DataFrame")

    def multiindex(self, how, pos, kw):
        """the index of a one-row table, built from the labels of its row"""
        if not pos:
            pos = [kw[k] for k in ("tuples", "arrays", "df", "iterables") if k in kw]
        x = self.ab(pos[0]) if pos else top("index")
        if x.kind == "choice":
            return self.choice_hit(x, "index")
        if how == "from_frame":
            return AV("oneindex", one=x.one, sets=x.sets) if x.kind == "labframe" else top("index from %s" % x.kind)
        nm = kw.get("names", pos[2] if len(pos) > 2 else None)
        names = self.ab(nm) if nm is not None else None
        if names is not None and names.kind != "names":
            return top("index with other names")
        if x.kind == "list" and len(x.items) == 1:
            it = x.items[0]
            if how == "from_tuples" and opn(it) != "seg":
                e = self.ab(it)
                if e.kind == "labels":
                    return AV("oneindex", one=self.one(AV("row", tab=e.tab, i=e.i, nn=False)), sets=[])
                got = self.relabelled(e)
                if got:
                    return got
            if how == "from_tuples" and opn(it) == "seg" and it.args[3] is tm.TRUE:
                n = self.ab(it.args[2].args[1]) if opn(it.args[2]) == "len" else None
                if n is not None and n.kind == "oneindex":
                    got = self.relabelled(self.ab(it.args[4]))
                    if got:
                        return got
            if how in ("from_arrays", "from_product") and opn(it) == "seg" and it.args[3] is tm.TRUE:
                v = self.ab(it.args[4])
                if v.kind == "list" and len(v.items) == 1 and opn(v.items[0]) != "seg":
                    got = self.relabelled(AV("list", items=[tm.opq("seg", it.args[1], it.args[2], tm.TRUE, v.items[0])]))
                    if got:
                        return got
        return top("index from %s" % x.kind)

    def relabelled(self, e):
        """[label or replacement for every level] of one row, as an index"""
        if e.kind == "labels":
            return AV("oneindex", one=self.one(AV("row", tab=e.tab, i=e.i, nn=False)), sets=[])
        if e.kind != "list" or len(e.items) != 1 or opn(e.items[0]) != "seg" or e.items[0].args[3] is not tm.TRUE:
            return None
        iv, n, _, val = e.items[0].args[1:5]
        sets = []
        known = sorted({k for c in tm.subterms(val) for k in [self.name_is(c, iv)] if k is not None})
        for name in known + [None]:
            try:
                v = self.for_name(val, iv, name)
            except LookupError:
                return None
            l = self.ab(v)
            if l.kind == "lab" and l.key is iv:
                continue
            if name is None:
                return None
            sets.append((tm.cat(name), v))
        l = self.ab(self.for_name(val, iv, None))
        return AV("oneindex", one=self.one(AV("row", tab=l.tab, i=l.i, nn=False)), sets=sets)

    def for_name(self, val, iv, name):
        """the label of the level that has the given name (None: another)"""
        while val.op == "ite":
            val = val.args[1] if self.name_cond(val.args[0], iv, name) else val.args[2]
        return val

    def name_cond(self, c, iv, name):
        if c in (tm.TRUE, tm.FALSE):
            return c is tm.TRUE
        if c.op == "not":
            return not self.name_cond(c.args[0], iv, name)
        if c.op in ("and", "or"):
            vs = [self.name_cond(x, iv, name) for x in c.args]
            return all(vs) if c.op == "and" else any(vs)
        if opn(c) == "truth":
            return self.name_cond(c.args[-1], iv, name)
        if opn(c) in ("op:Invert", "op:Not"):
            return not self.name_cond(c.args[1], iv, name)
        if opn(c) == "op:NotEq":
            return not self.name_cond(tm.opq("op:Eq", *c.args[1:]), iv, name)
        k = self.name_is(c, iv)
        if k is None:
            raise LookupError
        return k == name

    def name_is(self, c, iv):
        """the name that the condition compares the name of the level at iv to"""
        if opn(c) in ("eq", "op:Eq", "op:NotEq"):
            for a, b in ((c.args[-2], c.args[-1]), (c.args[-1], c.args[-2])):
                if isinstance(a, tm.T) and isinstance(b, tm.T) and isinstance(lit(a), str) and opn(b) in ("elem", "getitem") and b.args[2] is iv and self.ab(b.args[1]).kind == "names":
                    return lit(a)
        return None

    def operator(self, op, args):
        a = self.ab(args[0])
        for x in (a, self.ab(args[1]) if len(args) == 2 else a):
            if x.kind == "choice":
                return self.choice_hit(x, "operator %s" % op)
        if len(args) == 1 and a.kind == "top" and a.banned:
            return a
        if op == "Invert" and a.kind in ("nanmask", "nnmask"):
            return AV("nnmask" if a.kind == "nanmask" else "nanmask", i=a.i, nn=a.nn)
        if len(args) == 2:
            b = self.ab(args[1])
            if op == "Mult":
                if lit(args[1]) == 1:
                    return a
                if lit(args[0]) == 1:
                    return b
            if op in ("Div", "FloorDiv") and lit(args[1]) == 1:
                return a
            for x in (a, b):
                if x.kind == "top" and x.banned:
                    return x
            if a.kind in ("row", "vals", "tab") or b.kind in ("row", "vals", "tab"):
                if op in ("Add", "Sub", "Mult", "Div", "Pow", "Mod", "FloorDiv"):
                    return top("arithmetic %s on the data" % op, banned=True)
            if a.kind in ("row", "vals") and op in ("Eq", "NotEq") and args[0] is args[1]:
                return AV("nnmask" if op == "Eq" else "nanmask", i=a.i, nn=a.nn)
            if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE") and (a.kind in ("row", "vals", "tab") and b.kind == "number" or b.kind in ("row", "vals", "tab") and a.kind == "number"):
                n = args[1] if b.kind == "number" else args[0]
                if tm.is_num(n):
                    return top("selection by the values (%s %s)" % (op, tm.show(n)), banned=True)
        return top("operator %s" % op)


def strip2d(t):
    """the one-dimensional values of v[np.newaxis, :], [v], v.reshape(1, -1)"""
    o = opn(t)
    if o == "list" and len(t.args) == 2:
        return t.args[1]
    if o == "m:reshape" and len(t.args) == 4 and lit(t.args[2]) == 1 and lit(t.args[3]) == -1:
        return t.args[1]
    if o == "call:numpy.atleast_2d":
        return t.args[1]
    if o == "getitem" and opn(t.args[2]) == "tuple":
        a = t.args[2].args[1:]
        if len(a) == 2 and lit(a[0]) is None and full_slice(a[1]):
            return t.args[1]
    return None
