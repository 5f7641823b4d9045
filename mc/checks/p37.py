"""P37: synthesis and calculation in one call against the two steps, for every combination of options, and what it reports as unused."""
import itertools
import json
import os
import shutil
import tempfile
import warnings

from ..core import Check
from ..dfsops import build, kind, nodes, tree
from .p13 import frame

AXES = [("cutoff_time", ("none", "moment", "table", "extra")), ("instance_ids", (None, "some")), ("training_window", (None, "2h")), ("approximate", (None, "2h")),
        ("chunk_size", (None, 1, 0.5, 3)), ("cutoff_time_in_index", (False, True)), ("include_cutoff_time", (True, False)), ("progress", (None, "save", "call"))]
LISTS = ("agg_primitives", "trans_primitives", "groupby_trans_primitives", "where_primitives")
PRIMS = dict(agg_primitives=["sum", "mode", "last"], trans_primitives=["hour", "cum_count"], groupby_trans_primitives=["cum_sum"], where_primitives=["sum"])
FORMS = ("es", "short", "times", "types", "made")
OPTIONS = {
    "agg_primitives": [None, [], ["count"], ["max", "n_most_common"]], "trans_primitives": [None, [], ["is_null"]], "groupby_trans_primitives": [None, [], ["cum_mean"]],
    "where_primitives": [None, [], ["last"]], "allowed_paths": [None, [["R"]], [["R"], ["R", "C"]]], "max_depth": [2, 1, 3, -1], "ignore_entities": [None, ["G"]],
    "ignore_variables": [None, {"C": ["x"]}], "primitive_options": [None, {"sum": {"ignore_entities": ["C"]}}, {("mode", "last"): {"ignore_variables": {"C": ["c"]}}}],
    "seed_features": [None, "seed"], "drop_contains": [None, ["SUM("]], "drop_exact": [None, ["SUM(C.x)"]], "max_features": [-1, 2], "return_variable_types": [None, "all", "dt"],
}
MENUS = {"agg_primitives": [["sum", "count"], ["SUM"], ["trend", "Mode", "percent_true"], ["n_most_common"], []], "trans_primitives": [["day"], ["Add_Numeric", "haversine"], ["not"], []],
         "groupby_trans_primitives": [[], ["cum_sum"], ["CUM_MEAN", "year"]], "where_primitives": [None, [], ["sum", "count"], ["Last", "num_unique"]]}


class P37(Check):
    id = "P37"
    technique = "bounded exhaustive exploration of option combinations on the implementation, differential between one call and its two steps"
    rule = ("every combination of the calculation options (cutoff times, instance list, training window, approximation, chunk size, cutoff in the index, cutoff included, progress saved or reported) x 2 targets; every form of giving "
            "entities and relationships x cutoff times x targets; every pair of synthesis options; every combination of primitive lists, given as names in any spelling, classes or instances, "
            "x targets x depths x interesting values for the primitives reported as unused. Non-trivial: distinct (call, result)")
    assumptions = ("one data set of 3 regions, 4 roots and 6 children with ties in time and missing values; calculation itself is judged by the other checks",
                   "a primitive counts as used if a returned feature, or one it is made from, has it")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for form in FORMS:
            for target in "RC":
                yield {"sub": "forms", "form": form, "target": target}
        names = sorted(OPTIONS)
        for a, b in itertools.combinations(names, 2):
            yield {"sub": "synth", "pair": [a, b]}
        for target in "RC":
            for c, i, w, a in itertools.product(*[v for _, v in AXES[:4]]):
                yield {"sub": "options", "target": target, "fixed": [c, i, w, a]}
        for edges in ([["A", "B"]], [["A", "B"], ["B", "C"]], [["A", "B"], ["A", "C"]]):
            for agg in range(len(MENUS["agg_primitives"])):
                yield {"sub": "unused", "edges": edges, "agg": agg}

    # -- data
    def frames(self):
        import pandas as pd
        T = lambda hs: pd.to_datetime("2020-01-01") + pd.to_timedelta(hs, unit="h")  # noqa: E731
        G = pd.DataFrame({"id": ["p", "q", "r"], "k": ["1", "2", "1"]})
        R = pd.DataFrame({"id": ["a", "b", "c", "d"], "gid": ["p", "q", "p", "q"], "t": T([0, 0, 1, 4]), "y": [1.0, None, 3.0, 4.0]})
        C = pd.DataFrame({"id": list("uvwxyz"), "rid": ["a", "a", "b", "a", "c", "b"], "t": T([0, 1, 1, 3, 3, 5]), "x": [1.0, 2.0, 4.0, None, 8.0, 16.0], "c": ["m", "n", "m", "n", "m", "m"]})
        return G, R, C

    def types(self, which):
        from featuretools import variable_types as vt
        return {"G": {"k": vt.Categorical}, "R": {"gid": vt.Id, "y": vt.Numeric}, "C": {"rid": vt.Id, "x": vt.Numeric, "c": vt.Categorical}}[which]

    def es(self, form="types"):
        """the entity set by separate calls"""
        import featuretools as ft
        es = ft.EntitySet("dfs")
        for n, f in zip("GRC", self.frames()):
            kw = dict(index="id")
            if form != "short" and n != "G":
                kw["time_index"] = "t"
            if form in ("types", "made", "es"):
                kw["variable_types"] = self.types(n)
            if form == "made" and n == "C":
                kw.update(make_index=True, index="made")
                kw["variable_types"] = dict(kw["variable_types"])
            es.entity_from_dataframe(n, f, **kw)
        es.add_relationship(ft.Relationship(es["G"]["id"], es["R"]["gid"]))
        es.add_relationship(ft.Relationship(es["R"]["id"], es["C"]["rid"]))
        if form == "es":
            es["C"]["c"].interesting_values = ["m", "n"]
        return es

    def given(self, form):
        """the same as arguments of the call"""
        if form == "es":
            return {"entityset": self.es("es")}
        G, R, C = self.frames()
        if form == "short":
            d = {"G": (G, "id"), "R": (R, "id"), "C": (C, "id")}
        elif form == "times":
            d = {"G": (G, "id"), "R": (R, "id", "t"), "C": (C, "id", "t")}
        else:
            d = {"G": (G, "id", None, self.types("G")), "R": (R, "id", "t", self.types("R")), "C": (C, "id", "t", self.types("C"))}
            if form == "made":
                d["C"] = (C, "made", "t", self.types("C"), True)
        return {"entities": d, "relationships": [("G", "id", "R", "gid"), ("R", "id", "C", "rid")]}

    def cutoff(self, name, target, made=False):
        import pandas as pd
        base = pd.Timestamp("2020-01-01")
        if name == "none":
            return None
        if name == "moment":
            return base + pd.Timedelta("3h")
        ids = (["a", "b", "a", "d", "c"] if target == "R" else ([0, 2, 0, 3, 5] if made else ["u", "w", "u", "x", "z"]))
        ct = pd.DataFrame({"instance_id": ids, "time": base + pd.to_timedelta([3, 1, 5, 4, 3], unit="h")})
        if name == "extra":
            ct["label"] = [1, 2, 3, 4, 5]
        return ct

    def ids(self, name, target):
        return None if name is None else (["c", "a"] if target == "R" else ["z", "u", "v"])

    # -- the two steps
    def both(self, one, es, target, sk, ck, st):
        """problems of dfs(**one, **sk, **ck) against build_features and calculate_feature_matrix"""
        import featuretools as ft
        from featuretools.synthesis import DeepFeatureSynthesis
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st.add("transitions", 4)
            rvt = {k: sk[k] for k in ("return_variable_types",) if k in sk}
            want = DeepFeatureSynthesis(target, es, **{k: v for k, v in sk.items() if k not in rvt}).build_features(**rvt)
            only = ft.dfs(target_entity=target, features_only=True, **dict(one(), **dict(sk, **ck())))
            if [tree(f) for f in only] != [tree(f) for f in want]:
                return ["only the features: %r, synthesis gives %r" % ([f.get_name() for f in only], [f.get_name() for f in want])]
            if not want:
                return []
            a, b = ck(), ck()
            try:
                ref, failed = ft.calculate_feature_matrix(want, es, **b), None
            except Exception as e:
                failed = type(e)     # no instance is visible
            try:
                fm, fs = ft.dfs(target_entity=target, **dict(one(), **dict(sk, **a)))
            except Exception as e:
                st.add("refused")
                return [] if failed is type(e) else ["fails: %s: %s" % (type(e).__name__, str(e)[:200])]
            if failed:
                return ["does not fail as the two steps do with %s" % failed.__name__]
            if [tree(f) for f in fs] != [tree(f) for f in want]:
                return ["features: %r, synthesis gives %r" % ([f.get_name() for f in fs], [f.get_name() for f in want])]
        g, r = frame(fm), frame(ref)
        d = ["%s: %r, by the two steps %r" % (n, x, y) for n, x, y in zip(("columns", "types", "index names", "index", "values"), g, r) if x != y]
        st.seen("nontrivial", (target, [f.get_name() for f in fs], fm.to_csv()))
        st.add("states", len(fm))
        out = ["feature matrix: " + str(x)[:600] for x in d[:2]]
        return out

    def run(self, case, st):
        st.sample(case)
        return getattr(self, case["sub"])(case, st)

    def forms(self, case, st):
        form, t = case["form"], case["target"]
        out = []
        es = self.es(form)
        menus = [dict(PRIMS), dict(PRIMS, max_depth=1), {}] if form != "short" else [dict(PRIMS, agg_primitives=["sum", "mode"]), {}]
        for sk in menus:
            for c in ("none", "moment", "table", "extra"):
                if form == "short" and c != "none":
                    continue
                for i in (None, "some"):
                    if i and (form == "made" and t == "C" or c in ("table", "extra")):
                        continue
                    ck = lambda: {"cutoff_time": self.cutoff(c, t, form == "made"), "instance_ids": self.ids(i, t)}  # noqa: E731
                    out += ["%s, cutoff %s, instances %s: %s" % (form, c, i, m) for m in self.both(lambda: self.given(form), es, t, sk, ck, st)]
        return out[:3]

    def synth(self, case, st):
        out = []
        a, b = case["pair"]
        for va, vb in itertools.product(OPTIONS[a], OPTIONS[b]):
            es = self.es("es")
            sk = dict(PRIMS)
            for k, v in ((a, va), (b, vb)):
                sk[k] = self.option(k, v, es)
            ck = lambda: {"cutoff_time": self.cutoff("moment", "R")}  # noqa: E731
            out += ["%s=%r, %s=%r: %s" % (a, va, b, vb, m) for m in self.both(lambda: {"entityset": es}, es, "R", sk, ck, st)]
        return out[:3]

    def option(self, k, v, es):
        import featuretools as ft
        if k == "seed_features" and v:
            return [ft.Feature(es["C"]["x"]) > 1, ft.Feature(es["R"]["y"]) + 1]
        if k == "return_variable_types" and v == "dt":
            return [ft.variable_types.Datetime]
        return v

    def options(self, case, st):
        t = case["target"]
        out = []
        es = self.es("es")
        c, i, w, a = case["fixed"]
        if i and c in ("table", "extra"):
            return []
        for ch, ix, inc, pr in itertools.product(*[v for _, v in AXES[4:]]):
            if ix and c == "none":
                continue      # the index holds the present moment
            if not self.th and pr and (ch in (1, 0.5)) and ix:
                continue
            dirs = []

            def ck():
                d = {"cutoff_time": self.cutoff(c, t), "instance_ids": self.ids(i, t), "training_window": w, "approximate": a, "chunk_size": ch, "cutoff_time_in_index": ix, "include_cutoff_time": inc}
                calls = []
                if pr == "save":
                    dirs.append(tempfile.mkdtemp(prefix="p37-"))
                    d["save_progress"] = dirs[-1]
                elif pr == "call":
                    d["progress_callback"] = lambda *x: calls.append(x[:2])
                    dirs.append(calls)
                return d
            try:
                ms = self.both(lambda: {"entityset": es}, es, t, dict(PRIMS), ck, st)
                if pr:
                    # (the call for only the features, the one call, the two steps): the first reports nothing
                    seen = [sorted(os.listdir(d)) if pr == "save" else d for d in dirs]
                    seen = [[self.content(os.path.join(d, n)) for n in s] if pr == "save" else s for d, s in zip(dirs, seen)]
                    seen = [sorted(map(repr, s)) if pr == "save" else s for s in seen]
                    if len(seen) != 3 or seen[0] or (c in ("table", "extra") and not seen[1]) or seen[1] != seen[2]:
                        ms.append("progress: %r for the one call, %r for the two steps" % (seen[1:2], seen[2:]))
            finally:
                for d in dirs:
                    if pr == "save":
                        shutil.rmtree(d)
            out += ["cutoff %s, instances %s, window %s, approximate %s, chunk %r, in index %s, included %s, progress %s: %s" % (c, i, w, a, ch, ix, inc, pr, m) for m in ms]
        return out[:3]

    def content(self, path):
        with open(path) as fh:
            return sorted(fh.read().splitlines())

    # -- what is reported as unused
    def unused(self, case, st):
        import featuretools as ft
        from featuretools.exceptions import UnusedPrimitiveWarning
        from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
        cls = dict(get_aggregation_primitives(), **get_transform_primitives())
        edges = [tuple(e) for e in case["edges"]]
        out = []
        rest = [MENUS[k] for k in LISTS[1:]]
        for interesting in (True, False):
            es = build(edges, interesting=interesting)
            for lists in itertools.product([MENUS["agg_primitives"][case["agg"]]], *rest):
                for target in sorted({x for e in edges for x in e}):
                    for depth in (1, 2) + ((3,) if self.th else ()):
                        for how in ("names", "classes", "instances") if self.th or depth == 2 else ("names",):
                            given = {k: None if v is None else [n if how == "names" else cls[n.lower()] if how == "classes" else cls[n.lower()]() for n in v] for k, v in zip(LISTS, lists)}
                            with warnings.catch_warnings(record=True) as got:
                                warnings.simplefilter("always")
                                fs = ft.dfs(entityset=es, target_entity=target, max_depth=depth, features_only=True, **given)
                            st.add("transitions")
                            used = {k: set() for k in LISTS}
                            for f in fs:
                                for x in nodes(f):
                                    k = kind(x)
                                    if k == "AggregationFeature":
                                        used["agg_primitives" if x.where is None else "where_primitives"].add(type(x.primitive))
                                    elif k == "GroupByTransformFeature":
                                        used["groupby_trans_primitives"].add(type(x.primitive))
                                    elif k == "TransformFeature":
                                        used["trans_primitives"].add(type(x.primitive))
                            want = {k: sorted({n.lower() for n in v or [] if cls[n.lower()] not in used[k]}) for k, v in zip(LISTS, lists)}
                            want = {k: v for k, v in want.items() if v}
                            said = [str(x.message) for x in got if issubclass(x.category, UnusedPrimitiveWarning)]
                            have = {}
                            for line in "".join(said).splitlines():
                                k, _, v = line.strip().partition(": ")
                                if k in LISTS:
                                    have[k] = sorted(n.lower() for n in json.loads(v.replace("'", '"')))
                            st.seen("reports", (edges, target, depth, lists))
                            st.seen("nontrivial", (edges, target, depth, lists, how, sorted(want.items())))
                            if want != have or len(said) != bool(want):
                                out.append("%s of %r on %s to depth %d (interesting values: %s): reported %r as unused, but not used are %r" % (how, lists, target, depth, interesting, have, want))
                                if len(out) > 3:
                                    return out
        return out

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        if 20 * counts.get("refused", 0) > counts.get("transitions", 0):
            return {}, ["too many calls are refused: %d" % counts["refused"]]
        return {"calls": counts.get("transitions", 0), "refused": counts.get("refused", 0)}, ([] if n > 300 else ["only %d distinct results" % n])


CHECK = P37()
