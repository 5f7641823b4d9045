"""P13: no call changes what the caller passed in, so every call answers the same after every history of other calls."""
import itertools
import json
import os
import shutil
import tempfile

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave
from .p04 import D, T, GB
from .p07 import SC

WORLD = dict(ti=("R", "C", "G"), order="mix", secondary={"C": {"d": ["x", "c"]}, "R": {"d": ["x"]}}, dangling=True)


def trees():
    w, x, c, gw = idf("C", "w"), idf("C", "x"), idf("C", "c"), idf("G", "w")
    cnt = A("count", [idf("C", "id")])
    return [idf("R", "x"), idf("R", "c"), cnt, A("sum", [x]), A("mode", [c]), A("last", [x]), A("minmax", [w]), A("sum", [w], where=T("eq_s:value=a", c)), A("sum", [gw], "R", (0, 1)),
            T("cum_sum", idf("R", "w")), T("percentile", cnt), GB("cum_sum", [idf("R", "w")], idf("R", "c")), A("sum", [w], up=("o", 1)), A("sum", [w], up=("t", [(2, "h")])),
            A("sum", [T("cum_sum", x)]), A("trend", [w, idf("C", "t")])]


def trees_c():
    w, x, c = idf("C", "w"), idf("C", "x"), idf("C", "c")
    return [x, c, T("cum_sum", x), D(idf("R", "x"), 0), D(A("sum", [x]), 0), D(A("count", [idf("C", "id")]), 0), GB("cum_sum", [w], c), T("since_prev", idf("C", "t")), A("sum", [idf("G", "w")], "C", (1,))]


class Ctx(object):
    """everything a caller owns"""

    def __init__(self):
        import featuretools as ft
        import pandas as pd
        w = self.w = spaces.tree_world(SC, depth=3, **WORLD)
        es = self.es = model.to_es(w, lti=True)
        es["C"]["c"].interesting_values = ["a", "b"]
        self.f = model.to_features(es, w, trees())
        self.fc = model.to_features(es, w, trees_c())
        ids = [r["id"] for r in w.tables["R"].rows]
        rows = [(ids[k % 4], t) for k, t in enumerate((2, 1, 2, 3, 0, 4))] + [("nobody", 2)]
        self.ct = calc.cutoff_df(w, rows, extra={"label": list("abcdefg")})
        self.ct.index = [9, 8, 7, 6, 5, 4, 4]
        cids = [r["id"] for r in w.tables["C"].rows][:5]
        self.ctc = pd.DataFrame({"when": [1, 2, 3, 4, 5], "t": [w.time(t) for t in (3, 2, 3, 1, 2)], "id": cids})
        self.ids = list(ids)[:3] + ["nobody"]
        self.idser = pd.Series(ids, index=list("wxyz"), name="q")
        self.opt = {"sum": {"ignore_variables": {"C": ["y"]}}, ("count", "mode"): {"ignore_entities": ["G"]}, "cum_sum": {"ignore_groupby_variables": {"C": ["c"]}, "include_entities": ["C"]}}
        self.agg = ["sum", "count", ft.primitives.Mode, ft.primitives.Min(), "last"]
        self.tr = ["cum_sum", "is_null", ft.primitives.AddNumericScalar(3), "hour"]
        self.gb = ["cum_sum", "cum_count"]
        self.wh = ["sum", ft.primitives.Count]
        self.seeds = [self.f[3] > 1, self.fc[0] > 0]
        self.igv = {"C": ["y"], "R": ["d"]}
        self.ige = ["G"]
        self.drop = ["COUNT(C)"]
        self.base = [es["C"]["w"]]
        self.bases = [ft.Feature(es["C"]["w"]), ft.Feature(es["C"]["y"])]
        self.fm = ft.calculate_feature_matrix(self.f, es, cutoff_time=calc.cutoff_df(w, rows), cutoff_time_in_index=True)
        self.fml = ft.calculate_feature_matrix(self.f, es)
        self.entities = {"R": (model.frame(w, w.tables["R"]), "id", "t", {"x": ft.variable_types.Categorical}), "C": (model.frame(w, w.tables["C"]), "id", "t")}
        self.rels = [("R", "id", "C", "r_id")]
        self.enc = ["c"]
        self.topn = {"c": 2}
        self.td = ft.Timedelta({"h": 2})

    def parts(self):
        """name -> fingerprint of everything the caller owns"""
        out = {}
        for e in self.es.entities:
            out["data of " + e.id] = frame(e.df)
            out["definition of " + e.id] = [e.id, e.index, e.time_index, {k: list(v) for k, v in (e.secondary_time_index or {}).items()},
                                            [(v.id, type(v).__name__, v.name, list(v.interesting_values)) for v in e.variables]]
            lti = e.last_time_index
            out["last times of " + e.id] = None if lti is None else [str(lti.dtype), [model.norm(v) for v in lti.index], [model.norm(v) for v in lti]]
        out["relationships"] = [str(r) for r in self.es.relationships] + [self.es.id, str(self.es.time_type), [e.id for e in self.es.entities]]
        for n in ("f", "fc", "seeds", "bases"):
            out["features " + n] = [definition(f) for f in getattr(self, n)]
        for n in ("ct", "ctc", "fm", "fml"):
            out["table " + n] = frame(getattr(self, n))
        for k, v in self.entities.items():
            out["table of entities " + k] = [frame(v[0]), repr(v[1:])]
        out["series"] = [self.idser.name, list(self.idser.index), list(self.idser)]
        for n in ("ids", "opt", "agg", "tr", "gb", "wh", "igv", "ige", "drop", "rels", "enc", "topn"):
            out["option " + n] = describe(getattr(self, n))
        out["option base"] = [v.id for v in self.base]
        out["option td"] = repr(self.td.times)
        return out


def describe(x):
    if isinstance(x, dict):
        return ["dict"] + [[describe(k), describe(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [describe(y) for y in x]
    if isinstance(x, (str, int, float, type(None), type)):
        return repr(x)
    return [type(x).__name__, repr(sorted((k, repr(v)) for k, v in vars(x).items()))]


def definition(f):
    w = getattr(f, "where", None)
    return [f.unique_name(), f.get_name(), f.get_feature_names(), type(f).__name__, [definition(b) for b in f.base_features], type(f.primitive).__name__,
            f.primitive.get_arguments(), repr(f.get_arguments()), definition(w) if w is not None else None]


def frame(df):
    return [list(map(str, df.columns)), [str(d) for d in df.dtypes], list(map(str, df.index.names)), [model.norm(v) if not isinstance(v, tuple) else repr(v) for v in df.index],
            [[model.norm(v) for v in df[c]] if list(df.columns).count(c) == 1 else "duplicate" for c in df.columns]]


def ops():
    """name -> function(ctx) giving a comparable answer"""
    import featuretools as ft

    def cfm(fs, ct=None, **kw):
        def go(c):
            a = {k: (v(c) if callable(v) else v) for k, v in kw.items()}
            fm = ft.calculate_feature_matrix(getattr(c, fs), c.es, cutoff_time=ct(c) if callable(ct) else ct, **a)
            out = frame(fm)
            for col in fm.columns:       # whatever the caller does with the answer is their business
                fm[col].values[:] = fm[col].values[::-1].copy()
            return out
        return go

    def dfs(**kw):
        def go(c):
            a = {k: (v(c) if callable(v) else v) for k, v in kw.items()}
            r = ft.dfs(entityset=c.es, **a)
            return [frame(r[0]), [definition(f) for f in r[1]]] if isinstance(r, tuple) else [definition(f) for f in r]
        return go

    def saved(c):
        d = tempfile.mkdtemp(prefix="p13")
        try:
            return frame(ft.calculate_feature_matrix(c.f, c.es, cutoff_time=c.ct, save_progress=d))
        finally:
            shutil.rmtree(d)

    def tofile(fmt):
        def go(c):
            d = tempfile.mkdtemp(prefix="p13")
            try:
                getattr(c.es, "to_" + fmt)(d)
                return [frame(e.df) for e in ft.read_entityset(d).entities]
            finally:
                shutil.rmtree(d)
        return go

    def sel(fn, both=True, **kw):
        def go(c):
            r = fn(c.fml, c.f, **kw) if both else fn(c.fml, **kw)
            return [frame(r[0]), [definition(f) for f in r[1]]] if both else frame(r)
        return go
    R = lambda c: c.ct
    C = lambda c: c.ctc
    tick = lambda t: (lambda c: c.w.time(t))
    out = {
        "table": cfm("f", R), "excl": cfm("f", R, include_cutoff_time=False), "window": cfm("f", R, training_window="2 hours"), "windowtd": cfm("f", R, training_window=lambda c: c.td),
        "approx": cfm("f", R, approximate="2h"), "approxc": cfm("fc", C, approximate="2h"), "tablec": cfm("fc", C, cutoff_time_in_index=True), "chunk": cfm("fc", C, chunk_size=2),
        "single2": cfm("f", tick(2), instance_ids=lambda c: c.ids), "single0": cfm("f", tick(0)), "singlec1": cfm("fc", tick(1)), "series": cfm("f", tick(3), instance_ids=lambda c: c.idser),
        "now": cfm("f"), "nowc": cfm("fc"), "both": cfm("f", R, instance_ids=lambda c: c.ids), "verbose": cfm("f", R, progress_callback=lambda c: (lambda *a: None)), "saved": saved,
        "entities": lambda c: frame(ft.calculate_feature_matrix([ft.Feature(c.es["R"]["c"]), c.f[2]], entities=c.entities, relationships=c.rels, cutoff_time=c.w.time(2))),
        "dfs": dfs(target_entity="R", agg_primitives=lambda c: c.agg, trans_primitives=lambda c: c.tr, features_only=True),
        "dfsopt": dfs(target_entity="C", agg_primitives=lambda c: c.agg, trans_primitives=lambda c: c.tr, groupby_trans_primitives=lambda c: c.gb, where_primitives=lambda c: c.wh,
                      primitive_options=lambda c: c.opt, ignore_variables=lambda c: c.igv, drop_contains=lambda c: c.drop, features_only=True),
        "dfsopt2": dfs(target_entity="R", agg_primitives=lambda c: c.agg, trans_primitives=lambda c: c.tr, where_primitives=lambda c: c.wh, primitive_options=lambda c: c.opt,
                       ignore_entities=lambda c: c.ige, drop_exact=lambda c: c.drop, seed_features=lambda c: c.seeds, max_depth=2, features_only=True),
        "dfsseed": dfs(target_entity="R", agg_primitives=lambda c: c.agg[:2], trans_primitives=[], seed_features=lambda c: c.seeds, where_primitives=lambda c: c.wh, max_features=12, features_only=True),
        "dfsmatrix": dfs(target_entity="R", agg_primitives=["sum", "last"], trans_primitives=["cum_sum"], cutoff_time=R, max_features=15),
        "dfsent": lambda c: [definition(f) for f in ft.dfs(entities=c.entities, relationships=c.rels, target_entity="R", agg_primitives=c.agg, trans_primitives=c.tr, features_only=True)],
        "encode": lambda c: [(lambda r: [frame(r[0]), [definition(f) for f in r[1]]])(ft.encode_features(c.fml, c.f, to_encode=c.enc, top_n=c.topn))],
        "encode2": lambda c: [(lambda r: [frame(r[0]), [definition(f) for f in r[1]]])(ft.encode_features(c.fm, c.f, top_n=3, drop_first=True))],
        "lowinfo": sel(ft.selection.remove_low_information_features), "null": sel(ft.selection.remove_highly_null_features, pct_null_threshold=0.2),
        "singleval": sel(ft.selection.remove_single_value_features), "corr": sel(ft.selection.remove_highly_correlated_features),
        "savefeat": lambda c: [definition(f) for f in ft.load_features(ft.save_features(c.f))],
        "describe": lambda c: [ft.describe_feature(f) for f in c.f],
        "gbfeature": lambda c: [definition(ft.feature_base.GroupByTransformFeature(c.bases[:1], ft.primitives.CumSum, groupby=ft.Feature(c.es["C"]["c"]))),
                                definition(ft.Feature(c.bases, groupby=ft.Feature(c.es["C"]["c"]), primitive=ft.primitives.AddNumeric))],
        "gbfeature2": lambda c: [definition(ft.feature_base.GroupByTransformFeature(c.bases, ft.primitives.AddNumeric, groupby=ft.Feature(c.es["C"]["c"])))],
        "rename": lambda c: [definition(f.rename("new " + f.get_name())) for f in c.f], "slices": lambda c: [definition(c.f[6][1] > 3), definition(c.f[3] + c.f[2])],
        "metadata": lambda c: frame(c.es.metadata["C"].df), "equal": lambda c: c.es.__eq__(Ctx().es, deep=True), "copyeq": lambda c: c.es == c.es,
        "query": lambda c: frame(c.es.query_by_values("C", None, time_last=c.w.time(1), columns=["id", "x", "d"])),
        "query2": lambda c: frame(c.es.query_by_values("C", c.ids[:2], variable_id="r_id", time_last=c.w.time(3), training_window=c.td)),
        "pickle": tofile("pickle"), "csv": tofile("csv"),
        "paths": lambda c: [str(p) for p in c.es.find_backward_paths("R", "G")],
        "cutoffs": lambda c: frame(ft.utils.time_utils.make_temporal_cutoffs(c.idser, [c.w.time(5)] * 4, window_size="1h", num_windows=2)) if hasattr(ft, "utils") else None,
        "inf": lambda c: frame(ft.utils.entity_utils.__class__ and ft.computational_backends.replace_inf_values(c.fml)) if hasattr(ft.computational_backends, "replace_inf_values") else None,
    }
    return out


class P13(Check):
    id = "P13"
    level = "model_checking"
    technique = "explicit-state exploration of call sequences on the implementation: every sequence of calls to a depth, with a full fingerprint of everything the caller owns after each call"
    rule = ("every sequence of library calls up to length 2 (thorough: 3) over an alphabet of calculations, syntheses, encoding, selection, saving and queries on one set of "
            "caller-owned objects; after each call everything the caller owns must have its initial fingerprint and the answer must be that of a fresh process. "
            "States are fingerprints of the caller's objects, transitions are calls")
    assumptions = ("one entity set of three entities with secondary time indexes and last time indexes", "answers are compared exactly")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.ops = ops()
        # "now" calculations use the current time: pin what depends on it
        c = Ctx()
        self.start = c.parts()
        self.base = {}
        for n, f in self.ops.items():
            self.base[n] = json.dumps(f(Ctx()), default=str)

    def cases(self, tier):
        names = list(self.ops)
        for n in names:
            yield [n]
        for k, a in enumerate(names):
            yield [a] + names          # one long history behind every first call
            if self.th or k % 8 == 0:
                yield [a] + names[::-1]
        for k, p in enumerate(itertools.product(names, repeat=2)):
            if self.th or k % 17 == 0:
                yield list(p)
        if self.th:
            for a, b in itertools.product(names, repeat=2):
                yield [a, b] + names[names.index(a):] + names[:names.index(a)]

    def run(self, case, st):
        c = Ctx()
        bad = []
        self.visit(st, c)
        for k, n in enumerate(case):
            got = json.dumps(self.ops[n](c), default=str)
            st.add("transitions")
            if got != self.base[n]:
                bad.append("after %r the answer of %s is %s, on its own it is %s" % ((case[:k],) + (n,) + diff(got, self.base[n])))
                break
            now = c.parts()
            st.seen("states", now)
            for part, v in self.start.items():
                if now[part] != v:
                    bad.append("%s (after %r) changes %s from %s to %s" % ((n, case[:k], part) + diff(json.dumps(v, default=str), json.dumps(now[part], default=str))))
            if bad:
                break
        st.add("traces")
        st.sample(case[:3])
        return bad[:2]

    def visit(self, st, c):
        st.seen("states", c.parts())


def diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%s..." % a[max(0, k - 60):k + 80], "...%s..." % b[max(0, k - 60):k + 80]


CHECK = P13()
