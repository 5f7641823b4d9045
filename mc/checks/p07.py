"""P07: the row of an (instance, cutoff) pair is the same in every request that contains it."""
import itertools

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave
from .p04 import D, T, GB, on_c, on_c3, on_r, timed_c, top

# one irregular world: shared times, missing values and links, an empty root
SC = [(0, [(0, 1, [(0, 1), (2, 0)]), (2, 0, [(1, 1)]), (0, None, [])]), (1, [(1, 2, [(1, 1), (1, 0)]), (0, 1, [])]), (2, []), (0, [(3, 1, [(3, 1)])])]
WORLDS = {"plain": dict(ti=("C", "G")), "noti": dict(ti=("G",), order="mix"), "all": dict(ti=("R", "C", "G"), order="desc"),
          "sec": dict(ti=("C", "G"), secondary={"C": {"d": ["x", "c"]}, "R": {"d": ["x"]}}),
          "window": dict(ti=("R", "C", "G"))}
KW = {"window": dict(training_window="2h"), "excl": {}}


def feats(target, wname):
    if target == "C":
        fs = top(on_c()) + (top(on_c3()) if True else [])
        fs += timed_c() if "C" in WORLDS[wname]["ti"] else []
    else:
        gw = idf("G", "w")
        fs = top(on_r()) + [A("sum", [gw], "R", (0, 1)), A("sum", [A("sum", [gw], "C", (1,))]), A("mode", [idf("C", "c")]), A("std", [idf("C", "w")]), A("std", [gw], "R", (0, 1)),
                            A("sum", [idf("C", "w")], where=idf("C", "f")), A("count", [idf("C", "id")], where=T("gt_s:value=0", idf("C", "x"))),
                            A("sum", [T("cum_sum", gw)], "R", (0, 1)), A("skew", [idf("C", "w")]), A("minmax", [idf("C", "x")]), A("entropy", [idf("C", "c")]),
                            A("nmost", [idf("C", "c")]), A("last", [idf("C", "x")])]
        if "C" in WORLDS[wname]["ti"]:
            fs += [A("trend", [idf("C", "w"), idf("C", "t")]), A("since_last", [idf("C", "t")]), A("sum", [idf("C", "w")], up=("t", [(2, "h")])),
                   A("sum", [idf("C", "w")], up=("o", 1)), A("max", [T("since_prev", idf("C", "t"))])]
    fs += [("named", f, "again %d" % n) for n, f in enumerate(fs) if f[0] == "agg"][:6]
    seen, out = set(), []
    for f in fs:
        if repr(f) not in seen:
            seen.add(repr(f))
            out.append(f)
    return out


def pairs(world, target):
    ids = [r["id"] for r in world.tables[target].rows]
    ids = sorted(ids)[:4] if target == "R" else sorted(ids)[:3] + sorted(ids)[-1:]
    ps = [(ids[0], 2), (ids[1], 2), (ids[0], 0), (ids[2], 1), (ids[3], 2), ("nobody", 2), (ids[1], 4), (ids[0], 4)]
    return ps


def typed():
    """three entities with columns of every type, each with missing values, missing links and parts without rows"""
    import featuretools as ft
    import pandas as pd
    V = ft.variable_types
    nan = float("nan")
    T = lambda hs: pd.to_datetime([pd.NaT if h is None else pd.Timestamp("2020-01-01") + pd.Timedelta(hours=h) for h in hs])  # noqa: E731
    C = pd.DataFrame({"id": list("uvwxyz"), "rid": ["a", "a", "b", "a", None, "b"], "t": T([0, 1, 1, 3, 3, 5]), "x": [1., 2., 4., None, 8., 16.], "c": ["m", "n", None, "n", "m", "m"],
                      "b": pd.Series([True, False, True, True, False, None], dtype=object), "d": T([1, None, 2, 4, 5, 0]), "dob": T([0, 1, None, 1, 2, 3]),
                      "p": [(1., 2.), (3., 4.), (nan, nan), (5., 6.), (1., 1.), (2., 2.)], "n": ["a b", "c", None, "d e f", "", None], "o": [1, 2, 3, 1, 2, 3]})
    R = pd.DataFrame({"id": list("abcd"), "gid": ["p", "q", None, "q"], "t": T([0, 0, 1, 4]), "y": [1., None, 3., 4.], "p2": [(1., 2.), (3., 4.), (nan, nan), (5., 6.)], "d2": T([None, 0, 1, 2])})
    G = pd.DataFrame({"id": list("pq"), "t": T([0, 6]), "p3": [(1., 2.), (3., 4.)], "d3": T([0, 3]), "n3": ["k l", "m"], "b3": [True, False]})
    es = ft.EntitySet("e")
    es.entity_from_dataframe("C", C, index="id", time_index="t", variable_types={"rid": V.Id, "b": V.Boolean, "dob": V.DateOfBirth, "p": V.LatLong, "n": V.NaturalLanguage, "o": V.Ordinal, "c": V.Categorical})
    es.entity_from_dataframe("R", R, index="id", time_index="t", variable_types={"gid": V.Id, "p2": V.LatLong})
    es.entity_from_dataframe("G", G, index="id", time_index="t", variable_types={"p3": V.LatLong, "n3": V.NaturalLanguage, "b3": V.Boolean})
    es.add_relationship(ft.Relationship(es["R"]["id"], es["C"]["rid"]))
    es.add_relationship(ft.Relationship(es["G"]["id"], es["R"]["gid"]))
    es["C"]["c"].interesting_values = ["m"]
    return es


TYPED_ALL = ("equal", "not_equal", "percentile", "is_null", "and", "or", "absolute", "isin")
TYPED_PAIRS = {"R": [("a", 5), ("c", 5), ("d", 5), ("b", 0), ("a", 0), ("nobody", 5), ("d", 0), ("b", 5)], "G": [("p", 5), ("q", 5), ("q", 6), ("q", 8), ("p", 0), ("p", 3), ("nobody", 5)], "C": [("u", 5), ("y", 5), ("z", 5), ("z", 0), ("u", 0), ("nobody", 5), ("w", 1), ("x", 7)]}


class P07(Check):
    id = "P07"
    technique = "bounded exhaustive exploration of request compositions on the implementation, differential against single-pair requests"
    rule = ("every ordered selection of up to 3 (thorough: 4) of 8 (instance, cutoff) pairs x chunk sizes x worlds (time indexes, secondary time index, training window) "
            "x targets, every ordered pair of features in one request, and every standard primitive over columns and features of every variable type (synthesised, with aggregations that are missing "
            "in whole batches); each value compared with the request of that pair (and feature) alone. "
            "Non-trivial: distinct (world, target, request, chunk size) with at least two pairs or features")
    assumptions = ("one world shape of 4 roots, 7 children, 7 grandchildren", "values compared to 1e-9 relative")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.cache = {}

    def ctx(self, wname, target):
        """world, entity set, features and baseline rows (each pair alone, all features), cached per process"""
        k = (wname, target)
        if k not in self.cache:
            w = spaces.tree_world(SC, depth=3, **WORLDS[wname])
            es = model.to_es(w, lti=(wname == "window"))
            trees = feats(target, wname)
            fs = model.to_features(es, w, trees)
            ps = pairs(w, target)
            base = {}
            for p in ps:
                fm = self.call(fs, es, w, [p], wname, None)
                base[p] = {c: model.norm(fm[c].iloc[0]) for c in fm.columns}
            self.cache[k] = (w, es, trees, fs, ps, base)
        return self.cache[k]

    def call(self, fs, es, w, rows, wname, chunk):
        import featuretools as ft
        kw = dict(KW.get(wname, {}))
        if chunk is not None:
            kw["chunk_size"] = chunk
        return ft.calculate_feature_matrix(fs, es, cutoff_time=calc.cutoff_df(w, rows), cutoff_time_in_index=True, **kw)

    def cases(self, tier):
        reqs, fpairs, types = [], [], []
        from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
        for name in sorted(get_transform_primitives()):
            for target in "RC":
                types.append({"type": name, "target": target})
        for name in sorted(get_aggregation_primitives()):
            for target in "RGC":
                types.append({"type": name, "target": target, "agg": True})
        for wname in WORLDS:
            for target in ("R", "C"):
                for n in (2, 3, 4) if self.th else (2, 3):
                    for k, sel in enumerate(itertools.permutations(range(8), n)):
                        chunks = (None, 1, 2) if n < 4 else (None, 1, 2, 3, 0.5)
                        if n == 3 and not self.th:
                            chunks = ((None, 1, 2)[(k + len(wname)) % 3],) if (k % 6 == 0) else ()
                        if n == 4:
                            chunks = (chunks[k % 5],)
                        for c in chunks:
                            reqs.append({"w": wname, "target": target, "sel": list(sel), "chunk": c})
                reqs.append({"w": wname, "target": target, "sel": list(range(8)), "chunk": None})
                for c in (1, 2, 3, 5, 7, 0.3, 0.99):
                    reqs.append({"w": wname, "target": target, "sel": list(range(8)), "chunk": c})
                    reqs.append({"w": wname, "target": target, "sel": list(range(8))[::-1], "chunk": c})
                n = len(feats(target, wname))
                step = 1 if self.th else 13
                for k, (i, j) in enumerate(itertools.permutations(range(n), 2)):
                    if k % step == 0 or i in (0,):
                        fpairs.append({"w": wname, "target": target, "f": [i, j]})
                for i in range(n):
                    fpairs.append({"w": wname, "target": target, "f": [i]})
        reqs.sort(key=lambda c: len(c["sel"]))
        return itertools.chain(types, interleave(reqs, fpairs))

    def typed(self, case, st):
        """every feature with that primitive over features of every type: rows alone and together"""
        import featuretools as ft
        import pandas as pd
        import warnings
        st.sample(case)
        es, name, target = typed(), case["type"], case["target"]
        wide = name in TYPED_ALL or "scalar" in name or "_by_feature" in name or "numeric" in name
        cum = name.startswith("cum_") or name in ("diff", "percentile", "time_since_previous")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fs = []
            for kw in [dict(agg_primitives=[name], trans_primitives=["hour"], where_primitives=[name], max_depth=2), dict(agg_primitives=[name, "last"], trans_primitives=[], where_primitives=[], max_depth=3)] if "agg" in case else [dict(agg_primitives=["last", "first", "mode"] if not wide else ["last", "mode"], trans_primitives=[name], max_depth=2 if wide else 3, where_primitives=["last"])] + \
                    ([dict(agg_primitives=["last"], trans_primitives=[], groupby_trans_primitives=[name], max_depth=2)] if not wide or cum else []):
                fs += ft.dfs(entityset=es, target_entity=target, features_only=True, return_variable_types="all", **kw)
            # what a whole entity's rows decide is not a property of the pair alone only if it is of the target
            fs = list({f.unique_name(): f for f in fs}.values())[:400 if self.th else 150]
            ps = TYPED_PAIRS[target]
            ct = pd.DataFrame({"instance_id": [p for p, _ in ps], "time": [pd.Timestamp("2020-01-01") + pd.Timedelta(hours=h) for _, h in ps]})
            many = ft.calculate_feature_matrix(fs, es, cutoff_time=ct, cutoff_time_in_index=True)
            out = []
            for i, p in enumerate(ps):
                one = ft.calculate_feature_matrix(fs, es, cutoff_time=ct.iloc[[i]], cutoff_time_in_index=True)
                st.seen("nontrivial", (name, target, i))
                for c in one.columns:
                    st.add("evaluations")
                    a, b = many[c].iloc[i], one[c].iloc[0]
                    a, b = [model.norm(v) if not isinstance(v, tuple) else [model.norm(x) for x in v] for v in (a, b)]
                    if not (model.close(a, b, 1e-9) if not isinstance(a, list) else isinstance(b, list) and all(model.close(x, y, 1e-9) for x, y in zip(a, b))):
                        out.append("%s of %r is %r in a request of %d pairs and %r when requested alone" % (c, p, a, len(ps), b))
        return out[:2]

    def run(self, case, st):
        if "type" in case:
            return self.typed(case, st)
        w, es, trees, fs, ps, base = self.ctx(case["w"], case["target"])
        if "f" in case:
            rows = [ps[i] for i in (0, 1, 2, 3, 4)]
            use = [fs[i] for i in case["f"]]
            chunk = None
        else:
            rows = [ps[i] for i in case["sel"]]
            use, chunk = fs, case["chunk"]
        st.add("calls")
        st.sample(case)
        if len(rows) > 1 or len(use) > 1:
            st.seen("nontrivial", case)
        fm = self.call(use, es, w, rows, case["w"], chunk)
        bad = []
        names = [n for f in use for n in f.get_feature_names()]
        if list(fm.columns) != names:
            return ["columns %r, expected %r" % (list(fm.columns), names)]
        if len(fm) != len(rows):
            return ["%d rows for %d requested pairs" % (len(fm), len(rows))]
        for c in names:
            vals = list(fm[c])
            for v, p in zip(vals, rows):
                st.add("evaluations")
                if not model.close(model.norm(v), base[p][c], 1e-9):
                    bad.append("%s of %r is %r in this request and %r when requested alone" % (c, p, model.norm(v), base[p][c]))
        return bad[:2]


CHECK = P07()
