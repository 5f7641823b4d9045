"""P20: every feature tree of the menus, every primitive with every argument, written and read back through every transport."""
import inspect
import io
import itertools
import json
import os
import shutil
import tempfile

from .. import calc, model, spaces
from ..core import Check
from . import p02, p04
from .p02 import A, idf
from .p04 import D, T, GB, top
from .p07 import SC

NAN = float("nan")


def where_trees():
    w, x, c, f, t, d = (idf("C", n) for n in ("w", "x", "c", "f", "t", "d"))
    ws = [f, T("not", f), T("gt_s:value=0", x), T("eq_s:value=a", c), T("is_null", x), T("and", f, T("gt_s:value=0", x)), T("gt_s:value=1", D(A("count", [idf("C", "id")]), 0)), T("eq_s:value=a", D(idf("R", "c"), 0)),
          T("gt", x, w), T("not", T("eq_s:value=b", c)), ("named", T("gt_s:value=0", x), "chosen")]
    out = [A("sum", [w], where=q) for q in ws] + [A("count", [idf("C", "id")], where=q) for q in ws[:4]] + [A("minmax", [x], where=ws[2]), A("last", [c], where=ws[0], up=("o", 2)), A("trend", [w, t], where=f)]
    out += [A("sum", [w], up=("o", n)) for n in (1, 3)] + [A("sum", [w], up=("t", [(n, u)])) for n in (1, 2) for u in ("ms", "s", "m", "h", "d", "w", "mo", "Y")]
    out += [A("max", [w], up=("t", u)) for u in ([(1, "d"), (2, "h")], [(2, "h"), (1, "d")], [(1, "mo"), (3, "d"), (4, "h")], [(1, "Y"), (1, "ms")])] + [A("count", [idf("C", "id")], where=f, up=("t", [(2, "h")]))]
    return out


GROUPS = {
    "flat": (3, lambda: p02.flat() + p02.timed()), "deep": (3, lambda: p02.flat("G", (0, 1)) + p02.timed("G", (0, 1))), "stacked": (3, p02.stacked), "where": (3, where_trees),
    "c": (3, lambda: p04.on_c() + p04.timed_c()), "c3": (3, p04.on_c3), "r": (3, p04.on_r), "g": (3, p04.on_g),
    "same": (3, lambda: [GB("cum_count", [idf("C", "c")], idf("C", "c")), GB("cum_count", [idf("C", "r_id")], idf("C", "r_id")), T("add", idf("C", "w"), idf("C", "w")), GB("wpair", [idf("C", "w"), idf("C", "x")], idf("C", "c")) if False else T("mul", idf("C", "x"), idf("C", "x")),
                         T("sub", A("sum", [idf("G", "w")], "C", (1,)), A("sum", [idf("G", "w")], "C", (1,))), GB("cum_count", [D(idf("R", "c"), 0)], D(idf("R", "c"), 0)),
                         GB("cum_sum", [GB("cum_sum", [idf("C", "w")], idf("C", "c"))], idf("C", "c"))]),
    "double": ("double", lambda: p02.two_paths("double")), "double g": ("double", lambda: p04.paths("double")), "diamond": ("diamond", lambda: p02.two_paths("diamond")), "diamond g": ("diamond", lambda: p04.paths("diamond")),
    "direct": ("direct", lambda: p02.two_paths("direct")), "direct g": ("direct", lambda: p04.paths("direct")),
    "under": ("under", lambda: p02.two_paths("under")), "under g": ("under", lambda: p04.paths("under")), "over": ("over", lambda: p02.two_paths("over")), "over g": ("over", lambda: p04.paths("over")),
}


def target(t):
    k = t[0]
    return t[1] if k == "id" else t[3] if k == "agg" else None


def renamings(t, n=0):
    """the tree with one node at a time under a name of its own"""
    yield ("named", t, "my \u00e9 name")
    k = t[0]
    if k == "agg":
        for i, b in enumerate(t[2]):
            for v in renamings(b):
                yield t[:2] + (t[2][:i] + [v] + t[2][i + 1:],) + t[3:]
        if t[5] is not None:
            for v in renamings(t[5]):
                yield t[:5] + (v,) + t[6:]
    elif k in ("dir", "slice", "named"):
        for v in renamings(t[1]):
            yield (k, v) + t[2:]
    elif k == "tr":
        for i, b in enumerate(t[2]):
            for v in renamings(b):
                yield (k, t[1], t[2][:i] + [v] + t[2][i + 1:])
    elif k == "gb":
        for i, b in enumerate(t[2]):
            for v in renamings(b):
                yield (k, t[1], t[2][:i] + [v] + t[2][i + 1:], t[3])
        for v in renamings(t[3]):
            yield (k, t[1], t[2], v)


def value(x):
    """an argument with its type; containers and number kinds that JSON does not tell apart are the same"""
    import numpy as np
    import pandas as pd
    import datetime
    if isinstance(x, (list, tuple, np.ndarray, pd.Series, pd.Index)):
        return [value(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((value(i) for i in x), key=repr)
    if isinstance(x, (np.datetime64, datetime.datetime, pd.Timestamp)) or x is pd.NaT:
        return ("time", str(pd.Timestamp(x)))
    if isinstance(x, (np.timedelta64, datetime.timedelta)):
        return ("span", str(pd.Timedelta(x)))
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)          # an argument equal to the default is not written
    return (type(x).__name__, repr(x))


def full(f):
    """everything that makes the feature"""
    import featuretools as ft
    out = {"class": type(f).__name__, "name": f.get_name(), "names": list(f.get_feature_names()), "unique": f.unique_name(), "entity": f.entity.id, "inputs": [full(b) for b in f.base_features],
           "primitive": type(f.primitive).__name__, "module": type(f.primitive).__module__, "outputs": f.number_output_features, "type": f.variable_type.__name__, "default": repr(f.default_value), "depth": f.get_depth(),
           "parameters": sorted((k, value(getattr(f.primitive, k))) for k in inspect.signature(type(f.primitive).__init__).parameters if hasattr(f.primitive, k)),
           "path": [(a, repr(r)) for a, r in f.relationship_path]}
    if isinstance(f, ft.AggregationFeature):
        out["where"] = None if f.where is None else full(f.where)
        out["span"] = None if f.use_previous is None else (list(f.use_previous.times.items()), repr(f.use_previous.delta_obj))
        out["parent"] = f.parent_entity.id
    if isinstance(f, ft.GroupByTransformFeature):
        out["groupby"] = full(f.groupby)
    if isinstance(f, ft.IdentityFeature):
        out["variable"] = (f.variable.id, f.variable.entity_id, type(f.variable).__name__)
    if hasattr(f, "n"):
        out["n"] = f.n
    return out


def first(a, b, where=""):
    """where two definitions first differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] != b.get(k):
                return first(a[k], b.get(k), where + "." + k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first(x, y, where + "[%d]" % i)
    return "%s: %r became %r" % (where, a if not isinstance(a, dict) else a["name"], b if not isinstance(b, dict) else b["name"])


def arguments(name):
    import datetime
    import numpy as np
    import pandas as pd
    if name == "unit":
        return ["seconds", "years", "months", "days", "hours", "minutes", "milliseconds", "nanoseconds", "miles", "kilometers"]
    if name in ("skipna", "dropna", "commutative"):
        return [True, False]
    if name == "base":
        return [None, 2, 10, 2.718281828459045]
    if name == "n":
        return [1, 2, 3, 7]
    numbers = [0, 1, -3, 2.5, 0.1 + 0.2, 1e300, 2 ** 60, True, NAN, float("inf"), np.int64(4), np.float64(1.5), np.float32(0.1), np.int8(-1)]
    times = [pd.Timestamp("2020-01-01 00:00:00.000000001"), datetime.datetime(2020, 1, 2, 3), np.datetime64("2020-01-03"), pd.NaT]
    other = ["a", "", "\u00e9\"'\\\n", "1", None, False, np.bool_(True), pd.Timedelta("1 days 00:00:00.5"), datetime.timedelta(-1)]
    if name == "value":
        return numbers + times + other
    if name == "list_of_outputs":
        return [None, [], ["a", "b"], ("a", "b"), {"a", "b"}, [1, 2], [1, "a", None], np.array([1, 2]), np.array(["a"]), pd.Series([1.5, 2.5]), pd.to_datetime(["2020-01-01"]), times[:2], [True], [np.int64(3), NAN]]
    return []


def prim_es():
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    es = ft.EntitySet("e")
    t = pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-04"])
    es.entity_from_dataframe("R", pd.DataFrame({"id": [1, 2]}), index="id")
    es.entity_from_dataframe("C", pd.DataFrame({"k": [1, 2, 3], "r": [1, 1, 2], "t": t, "x": [1.5, 2.0, None], "y": [1, 2, 3], "f": [True, False, True], "g": [False, False, True], "c": ["a", "b", "a"], "d": t, "d2": t[::-1], "b": t,
                                                 "l": [(1.0, 2.0), (3.0, 4.0), (0.0, 0.0)], "m": [(1.5, 2.0), (3.0, 4.0), (9.0, 0.0)], "n": ["a b", "", "x"], "o": [1, 2, 2]}), index="k", time_index="t",
                             variable_types={"r": V.Id, "c": V.Categorical, "b": V.DateOfBirth, "l": V.LatLong, "m": V.LatLong, "n": V.NaturalLanguage, "d": V.Datetime, "d2": V.Datetime, "f": V.Boolean, "g": V.Boolean, "o": V.Ordinal})
    es.add_relationship(ft.Relationship(es["R"]["id"], es["C"]["r"]))
    return es


COLS = {"Numeric": ["y", "x"], "Boolean": ["f", "g"], "Discrete": ["c", "r"], "Categorical": ["c"], "Datetime": ["d", "d2"], "DatetimeTimeIndex": ["t"], "DateOfBirth": ["b"], "LatLong": ["l", "m"], "NaturalLanguage": ["n"], "Id": ["r"], "Index": ["k"], "Ordinal": ["o"]}


def prim_cases():
    """(class name, input columns, arguments) of every standard primitive"""
    import featuretools.primitives as fp
    from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
    out = []
    for d in (get_aggregation_primitives(), get_transform_primitives()):
        for n in sorted(d):
            c = d[n]
            types = c.input_types if isinstance(c.input_types[0], list) else [c.input_types]
            ps = [p for p in inspect.signature(c.__init__).parameters if p not in ("self", "args", "kwargs")]
            combos = list(itertools.product(*[range(len(arguments(p))) for p in ps]))
            if ps and all(len(arguments(p)) for p in ps):
                combos.append(None)          # not given at all
            for ts in types:
                names = [t.__name__ for t in ts]
                sets = [["c", "x"][:len(names)], ["d", "d2"][:len(names)], ["y", "y"][:len(names)]] if "Variable" in names else [[COLS[k][names[:i].count(k) % len(COLS[k])] for i, k in enumerate(names)]]
                for cols in sets:
                    for combo in combos:
                        out.append((c.__name__, cols, None if combo is None else [[p, i] for p, i in zip(ps, combo)]))
    return out


class P20(Check):
    id = "P20"
    rule = ("every feature of the menus of P02-P04 (all feature kinds stacked to depth 4, several paths, conditions, spans of every unit, slices, names on every single node), every standard primitive with every argument of an alphabet "
            "of numbers, texts, times and lists, and synthesised feature lists; alone and in whole lists in both orders and with repetitions, through string, path and streams, read twice and from the loaded features; each loaded definition "
            "compared in depth and its matrix with the original's. Non-trivial: distinct (definition, transport)")
    assumptions = ("features of one saved list are defined on the same state of one entity set and have distinct names", "parameters are JSON values, numpy scalars, times, spans or flat containers of them (which come back as lists)")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.cache = {}
        self.prim_list = prim_cases()

    def world(self, shape):
        if shape not in self.cache:
            if isinstance(shape, int):
                w = spaces.tree_world(SC, depth=shape, ti=("R", "C", "G"), order="mix")
                es = model.to_es(w)
            else:
                blocks = [b for b in p02.multi(2, (0, 1))][:40]
                w = spaces.multi_world(blocks, shape)
                es = model.to_es(w)
            self.cache[shape] = (w, es)
        return self.cache[shape]

    def cases(self, tier):
        for g, (shape, trees) in GROUPS.items():
            n = len(trees())
            yield {"m": "list", "g": g}
            for i in range(0, n, 3):
                yield {"m": "alone", "g": g, "i": i}
            for i in range(n):
                yield {"m": "named", "g": g, "i": i}
            if self.th:
                for i in range(n):
                    yield {"m": "pairs", "g": g, "i": i}
        for i in range(0, len(self.prim_list), 40):
            yield {"m": "prims", "i": i}
        for i in range(len(self.dfs_args())):
            yield {"m": "dfs", "i": i}
        yield {"m": "files"}

    def dfs_args(self):
        out = []
        for t in ("R", "C", "G"):
            for d in (1, 2, 3):
                out += [dict(target_entity=t, max_depth=d), dict(target_entity=t, max_depth=d, agg_primitives=["n_most_common", "last", "trend", "count"], trans_primitives=["cum_sum", "is_null", "day"], groupby_trans_primitives=["cum_count"],
                                                                  where_primitives=["count", "last"], max_features=150)]
        return out

    def run(self, case, st):
        st.sample(case)
        d = tempfile.mkdtemp(prefix="p20-")
        try:
            return getattr(self, case["m"])(case, st, d)[:3]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def roundtrip(self, fs, how, d):
        import featuretools as ft
        if how == "string":
            return ft.load_features(ft.save_features(fs))
        p = os.path.join(d, "f.json")
        if how == "path":
            ft.save_features(fs, p)
            return ft.load_features(p)
        if how == "stream":
            with open(p, "w") as fh:
                ft.save_features(fs, fh)
            with open(p) as fh:
                return ft.load_features(fh)
        b = io.StringIO()
        ft.save_features(fs, b)
        b.seek(0)
        return ft.load_features(b)

    def same(self, fs, st, d, hows=("string", "path", "stream", "buffer"), again=True):
        """problems, loaded features of the last transport"""
        import featuretools as ft
        want = [full(f) for f in fs]
        bad, new = [], None
        for how in hows:
            new = self.roundtrip(fs, how, d)
            st.add("evaluations", len(fs))
            for x in want:
                st.seen("nontrivial", (x["unique"], how))
            if len(new) != len(fs):
                return ["%d features became %d" % (len(fs), len(new))], new
            for x, y in zip(want, new):
                y = full(y)
                if x != y:
                    bad.append("%s through %s, %s" % (x["name"], how, first(x, y)))
                    break
        if [full(f) for f in fs] != want:
            bad.append("saving changed the features")
        if not bad and again:
            if [full(f) for f in ft.load_features(ft.save_features(new))] != want:
                bad.append("saved again from the loaded features it differs")
        return bad, new

    def matrix(self, fs, es, **kw):
        import featuretools as ft
        fm = ft.calculate_feature_matrix(fs, es, **kw)
        return {"columns": list(fm.columns), "index": [model.norm(i) for i in fm.index], "values": {c: [model.norm(v) for v in (fm[c] if list(fm.columns).count(c) == 1 else fm[c].iloc[:, 0])] for c in set(fm.columns)}}

    def values(self, fs, new, es, when):
        a, b = self.matrix(fs, es, cutoff_time=when), self.matrix(new, es, cutoff_time=when)
        bad = [k for k in ("columns", "index") if a[k] != b[k]]
        bad += [c for c, v in a["values"].items() if not bad and v != b["values"][c]]
        return ["the matrix of the loaded features differs in %s: %r became %r" % (k, a.get(k, a["values"].get(k)), b.get(k, b["values"].get(k))) for k in bad[:2]]

    def built(self, g, trees=None):
        shape, menu = GROUPS[g]
        w, es = self.world(shape)
        return w, es, model.to_features(es, w, trees if trees is not None else menu())

    def by_entity(self, fs):
        out = {}
        for f in fs:
            if type(f).__name__ != "FeatureOutputSlice":
                out.setdefault(f.entity.id, []).append(f)
        return out.values()

    def list(self, case, st, d):
        import featuretools as ft
        w, es, fs = self.built(case["g"])
        fs = list({f.unique_name(): f for f in fs}.values())
        bad = []
        for x in (fs, fs[::-1], fs + fs[:2], fs[len(fs) // 2:] + fs[:len(fs) // 2]):
            b, new = self.same(x, st, d)
            bad += b
        for part in self.by_entity(fs):
            new = self.roundtrip(part, "string", d)
            for t in (2, 4):
                bad += self.values(part, new, es, w.time(t))
        return bad

    def alone(self, case, st, d):
        w, es, fs = self.built(case["g"])
        bad = []
        for f in fs[case["i"]:case["i"] + 3]:
            b, new = self.same([f], st, d, ("string", "path", "stream", "buffer") if self.th else ("stream",))
            bad += b
            if not b and type(f).__name__ != "FeatureOutputSlice":
                bad += self.values([f], new, es, w.time(4))
        return bad

    def named(self, case, st, d):
        trees = list(renamings(GROUPS[case["g"]][1]()[case["i"]]))
        w, es, fs = self.built(case["g"], trees)
        bad = []
        last = {}
        for f in fs:
            b, last[id(f)] = self.same([f], st, d, ("string",), again=self.th)
            bad += b
        # names of the variants repeat, so they are calculated one by one
        for f in fs[:1] + (fs[1:] if self.th else fs[-1:]):
            if type(f).__name__ != "FeatureOutputSlice" and not bad:
                bad += self.values([f], last[id(f)], es, w.time(4))
        return bad

    def pairs(self, case, st, d):
        w, es, fs = self.built(case["g"])
        bad = []
        f = fs[case["i"]]
        for g in fs:
            if g.unique_name() != f.unique_name():
                bad += self.same([f, g], st, d, ("string",))[0]
        return bad

    def prims(self, case, st, d):
        import pandas as pd
        import featuretools as ft
        import featuretools.primitives as fp
        if "prims" not in self.cache:
            self.cache["prims"] = prim_es()
        es = self.cache["prims"]
        bad, groups = [], {}
        for name, cols, args in self.prim_list[case["i"]:case["i"] + 40]:
            cls = getattr(fp, name)
            try:
                p = cls(**{k: arguments(k)[i] for k, i in args or []})
            except ValueError:
                continue                      # an argument that the primitive refuses
            base = [ft.Feature(es["C"][c]) for c in cols]
            f = ft.Feature(base, parent_entity=es["R"], primitive=p) if issubclass(cls, fp.AggregationPrimitive) else ft.Feature(base, primitive=p)
            try:
                self.matrix([f], es)
            except Exception:
                ok = False                    # an argument that the column cannot be calculated with
            else:
                ok = True
            groups.setdefault((issubclass(cls, fp.AggregationPrimitive), ok), {})[f.get_name()] = f
            if self.th:
                bad += self.same([f], st, d, ("string", "buffer"))[0]
        for (_, ok), fs in groups.items():
            fs = list(fs.values())
            b, new = self.same(fs, st, d, ("string", "buffer"))
            bad += b
            if ok and not b:
                bad += self.values(fs, new, es, pd.Timestamp("2020-01-05"))
        return bad

    def dfs(self, case, st, d):
        import featuretools as ft
        w, es = self.world(3)
        for k, v in (("C", "c"), ("R", "x"), ("G", "c")):
            es[k][v].interesting_values = [x for x in es[k].df[v].dropna().unique()][:2]
        es["C"]["t"].interesting_values = es["C"].df["t"].dropna().unique()[:2]
        fs = ft.dfs(entityset=es, features_only=True, **self.dfs_args()[case["i"]])
        bad, new = self.same(fs, st, d)
        if not bad:
            bad += self.values(fs, new, es, w.time(4))
        return bad

    def files(self, case, st, d):
        """names of files, and what is in the place already"""
        import featuretools as ft
        w, es, fs = self.built("r")
        want = [full(f) for f in fs]
        bad = []
        old = os.getcwd()
        os.chdir(d)
        try:
            for name in ("f", "f.json", "1", "null", "true", "1.5", "\u00e9 f.json", "[1]", "sub/f.json", "./x", '"quoted"', "{}"):
                if "/" in name and name.startswith("sub"):
                    os.makedirs("sub")
                ft.save_features(fs[:3], name)
                ft.save_features(fs, name)
                st.add("evaluations")
                st.seen("nontrivial", ("file", name))
                if name == "{}":
                    continue                      # this one is an (empty) JSON object
                if [full(f) for f in ft.load_features(name)] != want:
                    bad.append("loaded from the file %r it differs" % name)
        finally:
            os.chdir(old)
        return bad


CHECK = P20()
