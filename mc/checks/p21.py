"""P21: synthesis over every small schema, target and option; well-formed features, options that filter exactly, complete one-primitive combinations."""
import itertools

from ..core import Check
from ..dfsops import backward_paths, build, depth, kind, leaves, nodes, paths, schemas, synth, touched, tree

MENU = {
    "plain": dict(agg_primitives=["sum", "count", "mode"], trans_primitives=["day", "add_numeric"], groupby_trans_primitives=["cum_sum"], where_primitives=["count", "sum"]),
    "multi": dict(agg_primitives=["n_most_common", "last", "trend", "percent_true"], trans_primitives=["not", "divide_numeric", "is_null"], groupby_trans_primitives=["cum_count"], where_primitives=["last", "n_most_common"]),
    "default": dict(),
}
CLASS = {"sum": "Sum", "count": "Count", "mode": "Mode", "day": "Day", "add_numeric": "AddNumeric", "cum_sum": "CumSum", "n_most_common": "NMostCommon", "last": "Last", "trend": "Trend", "percent_true": "PercentTrue",
         "not": "Not", "divide_numeric": "DivideNumeric", "is_null": "IsNull", "cum_count": "CumCount"}
DEFAULT = dict(agg_primitives=["sum", "std", "max", "skew", "min", "mean", "count", "percent_true", "num_unique", "mode"], trans_primitives=["day", "year", "month", "weekday", "haversine", "num_words", "num_characters"], groupby_trans_primitives=[], where_primitives=["count"])
LISTS = ("agg_primitives", "trans_primitives", "groupby_trans_primitives", "where_primitives")
CALC_MAX = 60


def classes(names):
    from featuretools.primitives.utils import get_aggregation_primitives, get_transform_primitives
    d = dict(get_aggregation_primitives(), **get_transform_primitives())
    return {d[n] for n in names}


def accepts(p, bases):
    ts = p.input_types if isinstance(p.input_types[0], list) else [p.input_types]
    return any(len(t) == len(bases) and all(issubclass(b.variable_type, v) for b, v in zip(bases, t)) for t in ts)


class P21(Check):
    id = "P21"
    rule = ("every connected acyclic multigraph of relationships on 2 entities (up to 2 relationships) and 3 entities (up to 3; thorough: 4 entities with 3 relationships, 3 with 4) x every target x three sets of primitives x maximum depth 1..3 x "
            "every option of the menu: each variable and entity ignored, each primitive left out or not allowed conditions, each set of return types, each name dropped, each prefix-closed set of allowed paths, seed features. "
            "Non-trivial: distinct (schema, target, options) with at least one feature")
    assumptions = ("the option where_stacking_limit is not reachable through dfs and stays at its default", "on schemas where an entity is reached by several paths, ignoring entities or paths and raising the depth are judged by inclusion, not equality")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.cache = {}

    def cases(self, tier):
        shapes = [(2, 1), (2, 2), (3, 2), (3, 3)] + ([(2, 3), (3, 4), (4, 3)] if self.th else [])
        for n, e in shapes:
            for s in schemas(n, e):
                for t in "ABCD"[:n]:
                    for menu in ("plain", "multi", "default") if self.th or e < n else ("plain",):
                        yield {"n": n, "s": [list(x) for x in s], "t": t, "menu": menu}

    def run(self, case, st):
        s = [tuple(x) for x in case["s"]]
        es = build(s, case["n"])
        K = dict(MENU[case["menu"]])
        lists = dict(DEFAULT, **K)
        names = "ABCD"[:case["n"]]
        t = case["t"]
        st.sample(case)
        is_tree = len(s) == case["n"] - 1
        bad = []
        count = [0]

        def go(**kw):
            o = dict(K, **kw)
            fs = synth(es, t, **o)
            st.add("evaluations")
            count[0] += 1
            if fs:
                st.seen("nontrivial", (s, t, case["menu"], sorted((k, str(v)) for k, v in kw.items())))
            bad.extend("%s: %s" % (self.show(kw), m) for m in self.formed(es, s, t, dict(lists, **{k: v for k, v in o.items() if k in LISTS}), o, fs)[:2])
            return fs

        def same(what, got, want, order=True):
            # of two definitions with one name only the first is synthesised, which one can depend on the options
            a, b = {f.unique_name(): tree(f) for f in got}, {f.unique_name(): tree(f) for f in base}
            twice = {n for n in a if n in b and a[n] != b[n]}
            got, want = [f for f in got if f.unique_name() not in twice], [f for f in want if f.unique_name() not in twice]
            g, w = [tree(f) for f in got], [tree(f) for f in want]
            if (g if order else sorted(map(repr, g))) != (w if order else sorted(map(repr, w))):
                extra, lost = [f.get_name() for f in got if tree(f) not in w], [f.get_name() for f in want if tree(f) not in g]
                bad.append("%s: additional %r, missing %r%s" % (what, extra[:3], lost[:3], "" if extra or lost else " (order differs)"))

        def within(what, got, want):
            w, n = [tree(f) for f in want], {f.unique_name() for f in want}
            extra = [f.get_name() for f in got if tree(f) not in w and f.unique_name() not in n]
            if extra:
                bad.append("%s: %r" % (what, extra[:3]))
        base = ()
        full = {d: go(max_depth=d) for d in (1, 2) + ((3,) if self.th or is_tree else ())}
        for d in sorted(full)[:-1]:
            within("features at depth %d that depth %d does not have" % (d, d + 1), full[d], full[d + 1])
        self.single(es, s, t, lists, full[1], bad)
        for d in (1, 2):
            f0 = base = full[d]
            for e in names:
                for v in ["n", "m", "c", "b"] + ([] if not self.th else ["t"]):
                    same("depth %d, variable %s of %s ignored" % (d, v, e), go(max_depth=d, ignore_variables={e: [v]}), [f for f in f0 if (e, v) not in leaves(f)])
                if e != t:
                    got, want = go(max_depth=d, ignore_entities=[e]), [f for f in f0 if e not in touched(f)]
                    if is_tree:
                        same("depth %d, entity %s ignored" % (d, e), got, want)
                    elif any(e in touched(f) for f in got):
                        bad.append("depth %d, entity %s ignored but used by %r" % (d, e, [f.get_name() for f in got if e in touched(f)][:3]))
            if len(bad) > 3:
                return bad[:3]
            same("depth %d, variables c and n ignored" % d, go(max_depth=d, ignore_variables={names[0]: ["c"], names[-1]: ["n", "b"]}),
                 [f for f in f0 if not leaves(f) & {(names[0], "c"), (names[-1], "n"), (names[-1], "b")}])
            if K:
                for lst in LISTS[:3]:
                    for p in K[lst]:
                        less = dict(K, **{lst: [x for x in K[lst] if x != p]})
                        same("depth %d without %s" % (d, p), go(max_depth=d, **{lst: less[lst]}), [f for f in f0 if CLASS[p] not in [type(x.primitive).__name__ for x in nodes(f)]])
                for w in [[]] + [[p] for p in K["where_primitives"]]:
                    allowed = [CLASS[p] for p in w]
                    same("depth %d with conditions for %r" % (d, w), go(max_depth=d, where_primitives=w),
                         [f for f in f0 if all(getattr(x, "where", None) is None or type(x.primitive).__name__ in allowed for x in nodes(f))])
            # names
            f1 = [f.get_name() for f in f0]
            for sub in sorted({x[:k] for x in f1 for k in (1, 4)} | {x[-3:] for x in f1} if self.th else {"SUM", "(", "n", " WHERE", ".", "id", "[0]", "DAY(t)", ""}):
                same("depth %d, names with %r dropped" % (d, sub), go(max_depth=d, drop_contains=[sub]), [f for f in f0 if sub not in f.get_name()])
            for x in f1[:: 1 if self.th or d == 1 else 7]:
                same("depth %d, name %r dropped" % (d, x), go(max_depth=d, drop_exact=[x]), [f for f in f0 if f.get_name() != x])
            self.types(d, go, same, f0)
            if len(bad) > 3:
                return bad[:3]
        self.allowed(t, go, same, within, full[2], is_tree)
        self.seeds(es, t, names, go, within, full)
        if not bad:
            bad += self.calculable(es, full[2], st)
        return bad[:3]

    def show(self, kw):
        return ", ".join("%s=%r" % x for x in sorted(kw.items(), key=lambda x: x[0]) if x[0] != "seed_features") or "no options"

    def types(self, d, go, same, f0):
        import featuretools as ft
        V = ft.variable_types
        every = [V.Numeric, V.Boolean, V.Discrete, V.Datetime, V.Id, V.Categorical]
        for k in (0, 1, 2):
            for ts in itertools.combinations(every, k):
                same("depth %d, returning %s" % (d, [x.__name__ for x in ts]), go(max_depth=d, return_variable_types=list(ts)), [f for f in f0 if any(issubclass(f.variable_type, x) for x in ts)])
        same("depth %d, returning the default types" % d, go(max_depth=d, return_variable_types=None), [f for f in f0 if issubclass(f.variable_type, (V.Numeric, V.Discrete, V.Boolean))])

    def allowed(self, t, go, same, within, f0, is_tree):
        ps = sorted(set().union(*[paths(f, t) for f in f0]) - {(t,)}) if f0 else []
        n = 0
        for k in range(1, len(ps) + 1):
            for sel in itertools.combinations(ps, k):
                if any(len(p) > 2 and p[:-1] not in sel for p in sel):
                    continue
                n += 1
                if n > (40 if self.th else 8):
                    return
                got = go(max_depth=2, allowed_paths=[list(p) for p in sel])
                want = [f for f in f0 if paths(f, t) - {(t,)} <= set(sel)]
                simple = {p for p in ps if len(set(p)) == len(p)}
                if is_tree and all(p in sel for f in want for p in simple if p[-1] in touched(f)):
                    same("allowed paths %r" % (sel,), got, want)
                else:
                    for f in got:
                        if not paths(f, t) - {(t,)} <= set(sel):
                            within("allowed paths %r" % (sel,), [f], [])
                            break

    def seeds(self, es, t, names, go, within, full):
        import featuretools as ft
        for e in names:
            for sd in (ft.Feature(es[e]["n"]) > 1, ft.Feature(es[e]["c"]).isin(["a"]), ft.Feature([es[e]["n"], es[e]["m"]], primitive=ft.primitives.MultiplyNumeric).rename("own name")):
                got = go(max_depth=2, seed_features=[sd])
                within("features lost by a seed feature of %s" % e, full[2], got)
                if e == t:
                    within("the seed feature is missing", [sd], got)

    def calculable(self, es, fs, st):
        import featuretools as ft
        import pandas as pd
        step = 1 if self.th else max(1, len(fs) // CALC_MAX)
        fs = fs[::step]
        if not fs:
            return []
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=pd.Timestamp("2020-01-03"))
        st.add("calculated", len(fs))
        want = [n for f in fs for n in f.get_feature_names()]
        return [] if list(fm.columns) == want else ["the matrix of the synthesised features has columns %r instead of %r" % (list(fm.columns)[:5], want[:5])]

    def formed(self, es, s, t, lists, o, fs):
        seeds = {f.unique_name() for f in o.get("seed_features") or ()}
        agg, trans, group, where = (classes(lists[k]) for k in LISTS)
        out = []
        names = [n for f in fs for n in f.get_feature_names()]
        if len(set(names)) != len(names):
            out.append("name %r occurs twice" % next(n for n in names if names.count(n) > 1))
        ig_e, ig_v = set(o.get("ignore_entities") or ()), {(e, v) for e, vs in (o.get("ignore_variables") or {}).items() for v in vs}
        last = 0
        for f in fs:
            n = f.get_name()
            if f.entity.id != t or f.entityset.id != es.id:
                out.append("%s belongs to %s" % (n, f.entity.id))
            if kind(f) == "FeatureOutputSlice":
                out.append("%s is one output of a feature" % n)
            if kind(f) == "IdentityFeature" and f.variable.id == "id":
                out.append("the index is a feature")
            if depth(f, seeds) > o["max_depth"]:
                out.append("%s has depth %d" % (n, depth(f, seeds)))
            full_depth = f.get_depth()
            if full_depth < last:
                out.append("%s is shallower than a feature before it" % n)
            last = full_depth
            if touched(f) & ig_e or leaves(f) & ig_v:
                out.append("%s uses what is ignored" % n)
            out += self.node(f, seeds, agg, trans, group, where, es)
        return out

    def node(self, f, seeds, agg, trans, group, where, es):
        out = []
        if f.unique_name() in seeds:
            return out
        k, p, n = kind(f), type(f.primitive), f.get_name()
        if k == "AggregationFeature":
            if p not in agg:
                out.append("%s: primitive %s was not asked for" % (n, p.__name__))
            if not accepts(f.primitive, f.base_features):
                out.append("%s: inputs have the wrong types" % n)
            if f.use_previous is not None:
                out.append("%s has a span" % n)
            if f.where is not None:
                w = f.where
                if p not in where:
                    out.append("%s: no condition was allowed" % n)
                b = w.base_features[0]
                while kind(b) == "DirectFeature":
                    b = b.base_features[0]
                if type(w.primitive).__name__ != "EqualScalar" or kind(b) != "IdentityFeature" or w.primitive.value not in list(es[b.entity.id][b.variable.id].interesting_values):
                    out.append("%s: the condition is not about an interesting value" % n)
                if w.entity.id != f.base_features[0].entity.id:
                    out.append("%s: the condition belongs to another entity" % n)
        elif k == "GroupByTransformFeature":
            if p not in group:
                out.append("%s: primitive %s was not asked for" % (n, p.__name__))
            if not accepts(f.primitive, f.base_features[:-1]):
                out.append("%s: inputs have the wrong types" % n)
            if f.groupby.variable_type.__name__ not in ("Id",):
                out.append("%s: grouped by %s" % (n, f.groupby.variable_type.__name__))
        elif k == "TransformFeature":
            if p not in trans:
                out.append("%s: primitive %s was not asked for" % (n, p.__name__))
            if not accepts(f.primitive, f.base_features):
                out.append("%s: inputs have the wrong types" % n)
        for b in f.base_features:
            out += self.node(b, seeds, agg, trans, group, where, es)
        return out

    def single(self, es, s, t, lists, f1, bad):
        """everything that consists of one primitive or one step to a parent"""
        V = {e.id: {v.id: type(v) for v in e.variables} for e in es.entities}
        got = {}
        for f in f1:
            if depth(f) <= 1 and all(kind(b) == "IdentityFeature" for b in f.base_features):
                b = [x.variable.id for x in f.base_features]
                g = b.pop() if kind(f) == "GroupByTransformFeature" else None
                w = None
                if getattr(f, "where", None) is not None:
                    w = (f.where.base_features[0].variable.id, f.where.primitive.value) if kind(f.where.base_features[0]) == "IdentityFeature" else "other"
                if f.primitive.commutative:
                    b = sorted(b)
                got.setdefault((kind(f), type(f.primitive).__name__, tuple((s.index((r.parent_entity.id, r.child_entity.id)) if s.count((r.parent_entity.id, r.child_entity.id)) == 1 else int(r.child_variable.id[1:])) for _, r in f.relationship_path),
                                tuple(b) if kind(f) != "IdentityFeature" else (f.variable.id,), g, w), f)
        must, may = set(), set()
        for v in V[t]:
            if v != "id":
                must.add(("IdentityFeature", "PrimitiveBase", (), (v,), None, None))
        for i, (p, c) in enumerate(s):
            if c == t:
                must |= {("DirectFeature", "PrimitiveBase", (i,), (v,), None, None) for v in V[p] if v != "id"}
        lib = {k: sorted(classes(lists[k]), key=lambda c: c.__name__) for k in LISTS}
        for path in backward_paths(s, t):
            e = s[path[-1]][1]
            keys = {(s[i][1], "f%d" % i) for i in path}
            own = {v: x for v, x in V[e].items() if (e, v) not in keys}
            # the index of an entity on the way is a key as well
            if len(path) > 1:
                pass
            for cls in lib["agg_primitives"]:
                for b in self.combos(cls(), own):
                    one = ("AggregationFeature", cls.__name__, tuple(path), b, None, None)
                    (must if len(path) == 1 else may).add(one)
                    if cls in lib["where_primitives"]:
                        for v in own:
                            for val in es[e][v].interesting_values:
                                if v not in b:
                                    (must if len(path) == 1 else may).add(one[:5] + ((v, val),))
        for cls in lib["trans_primitives"]:
            must |= {("TransformFeature", cls.__name__, (), b, None, None) for b in self.combos(cls(), V[t])}
        for cls in lib["groupby_trans_primitives"]:
            for b in self.combos(cls(), V[t]):
                for g, x in V[t].items():
                    if x.__name__ == "Id":
                        must.add(("GroupByTransformFeature", cls.__name__, (), b, g, None))
        lost = sorted(must - set(got), key=repr)
        extra = sorted((x for x in set(got) - must - may if x[5] != "other"), key=repr)
        if lost:
            bad.append("combinations of one primitive are missing: %r" % (lost[:3],))
        if extra:
            bad.append("unexpected combinations of one primitive: %r" % (extra[:3],))

    def combos(self, p, own):
        types = p.input_types[0] if isinstance(p.input_types[0], list) else p.input_types
        out = set()
        for b in itertools.permutations(own, len(types)):
            if all(issubclass(own[v], x) for v, x in zip(b, types)):
                out.add(tuple(sorted(b)) if p.commutative else b)
        return out


CHECK = P21()
