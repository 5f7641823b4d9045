"""P10: approximation moves the cutoff of approximable features to the bin start, and nothing else."""
import datetime
import math

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf, interleave, multi
from .p04 import D, T, GB
from .p05 import three

EPOCH = (model.BASE - datetime.datetime(1970, 1, 1)).total_seconds()
KEY = "P10:approximation-without-exact-aggregations-ignores-cutoff"


def periods(ft, name):
    """the argument and its length in seconds"""
    return {"30m": ("30m", 1800), "1h": ("1h", 3600), "2h": ("2 hours", 7200), "90m": (ft.Timedelta(90, "m"), 5400), "1d": (ft.Timedelta(1, "d"), 86400),
            "1w": ("1 week", 7 * 86400), "5s": (ft.Timedelta(5, "s"), 5), "2d": ("2 days", 2 * 86400), "2w": (ft.Timedelta(2, "weeks"), 14 * 86400), "n2": (2, 2), "n3": (3, 3)}[name]


def feats(shape, target):
    w, i, x, c, f, t = (idf("C", n) for n in ("w", "id", "x", "c", "f", "t"))
    gw, gi = idf("G", "w"), idf("G", "id")
    cnt, sm = A("count", [i]), A("sum", [w])
    if shape == "tree" and target == "C":
        approx = [D(cnt, 0), D(sm, 0), D(A("minmax", [w]), 0), D(A("last", [w]), 0), D(A("sum", [gw], "R", (0, 1)), 0), D(A("max", [A("sum", [gw], "C", (1,))]), 0),
                  D(A("sum", [w], where=f), 0), D(A("sum", [w], up=("t", [(2, "h")])), 0), D(A("mode", [c]), 0), D(A("sum", [T("cum_sum", w)]), 0)]
        exact = [x, w, c, D(idf("R", "x"), 0), A("sum", [gw], "C", (1,)), A("count", [gi], "C", (1,)), T("negate", A("count", [gi], "C", (1,))), T("cum_sum", w),
                 GB("cum_sum", [w], c), D(T("negate", idf("R", "w")), 0), T("negate", D(A("mean", [w]), 0)), T("cum_sum", D(A("max", [w]), 0)),
                 D(T("negate", A("min", [w])), 0), D(T("cum_sum", idf("R", "w")), 0), ("named", A("max", [gw], "C", (1,)), "big")]
    elif shape == "tree":
        approx = [D(A("sum", [gw], "C", (1,)), 1), D(A("count", [gi], "C", (1,)), 1), D(D(cnt, 0), 1), D(D(sm, 0), 1), D(D(A("sum", [gw], "R", (0, 1)), 0), 1),
                  D(A("last", [gw], "C", (1,)), 1), D(D(A("minmax", [w]), 0), 1)]
        exact = [gw, D(x, 1), D(D(idf("R", "x"), 0), 1), T("cum_sum", gw), D(T("cum_sum", w), 1), T("negate", D(A("max", [gw], "C", (1,)), 1)),
                 T("sub", gw, D(D(A("max", [w]), 0), 1)), GB("cum_sum", [gw], idf("G", "c_id"))]
    else:
        links = {"diamond": [(2, 0), (3, 1)], "double": [(0,), (1,)], "direct": [(1,), (2, 0)]}[shape]
        paths = {"diamond": [(0, 2), (1, 3)], "double": [(0,), (1,)], "direct": [(1,), (0, 2)]}[shape]
        approx, exact = [], [gw]
        for k, link in enumerate(links):
            for q in (k, 1 - k):
                a = A("sum", [gw], "R", paths[q])
                for r in link[::-1]:
                    a = D(a, r)
                approx.append(a)
            b = idf("R", "w")
            for r in link[::-1]:
                b = D(b, r)
            exact.append(b)
            m = A("max", [gw], "R", paths[k])
            for r in link[::-1]:
                m = D(m, r)
            exact.append(T("negate", m))
    return approx, exact


def whole(target):
    """requested together with a feature over the whole entity that builds on it, an otherwise approximable feature is exact"""
    w, i, c, gw = idf("C", "w"), idf("C", "id"), idf("C", "c"), idf("G", "w")
    cnt, sm, last = D(A("count", [i]), 0), D(A("sum", [w]), 0), D(A("last", [w]), 0)
    if target == "C":
        return [sm, cnt, last, T("cum_sum", sm), GB("cum_max", [last], c), D(A("max", [w]), 0)], [sm, last]
    gs, gn = D(A("sum", [gw], "C", (1,)), 1), D(A("count", [idf("G", "id")], "C", (1,)), 1)
    return [T("diff", gs), gs, gn, D(cnt, 1), T("negate", T("cum_max", D(sm, 1))), D(sm, 1)], [gs, D(sm, 1)]


class AppRef(object):
    """reference of one cutoff: exact features at `t`, approximable ones with their aggregation at `tb`"""

    def __init__(self, refs, t, tb, exact=()):
        self.ref, self.bin, self.exact = refs(t), refs(tb), exact
        self.default = self.ref.default

    def target(self, f, rid):
        base = f
        while base[0] == "dir":
            base = base[1]
        if f[0] != "dir" or base[0] != "agg" or f in self.exact:
            return self.ref.target(f, rid)
        ref = self.ref
        r = ref.by_id[ref.entity(f)].get(rid)
        g = f
        while g[0] == "dir":
            p, c, cv = ref.w.rels[g[2]]
            r = ref.by_id[p].get(r[cv]) if r is not None and r[cv] is not None else None
            g = g[1]
        if r is None:
            return ref.default(f)
        return self.bin.target(base, r["id"])


class P10(Check):
    id = "P10"
    rule = ("worlds with exhaustive root/child/grandchild times (also several paths to one ancestor) x periods x cutoffs on and off the bin boundaries, several per instance and bin "
            "x chunk sizes x training windows x include_cutoff_time x mixes of approximable and exact features; each cell compared with the reference at the rounded "
            "or the exact cutoff, rows and passed columns with the request. Non-trivial: distinct (world, request, instance, cutoff) with a non-default value")
    assumptions = ("features that build on an approximable aggregation through something else than direct features are only required to be answered", "times from 5 ticks of an hour or a day, numeric times from -3")
    NB = 70

    def prepare(self, tier):
        self.th = tier == "thorough"
        a = three((0, 2), (0, 1, 3), (0, 2, 4), 1, 2)
        b = three((0, 1), (0, 2), (1, 3), 2, 1)
        c = three((None, 1, 3), (None, 2), (0, None), 2, 1)
        self.sp = {"tree": a + b + c, "diamond": multi(2, (0, 2)), "double": multi(2, (0, 2)), "direct": multi(2, (0, 2))}

    def cases(self, tier):
        out, n = [], 0
        for shape, sc in self.sp.items():
            for target in ("C", "G") if shape == "tree" else ("G",):
                for lo in range(0, len(sc), self.NB):
                    for per in ("1h", "2h", "90m", "30m", "1d", "1w", "5s"):
                        for sub in ("mix", "approx", "exact", "pair"):
                            for win in (None, 2):
                                for incl in (True, False):
                                    for ti in (["C", "G"], ["R", "C", "G"], ["G"]) if shape == "tree" else (["G"], ["R", "A", "B", "G"]):
                                        n += 1
                                        if self.th or n % (23 if shape == "tree" else 41) == 0:
                                            out.append({"shape": shape, "from": lo, "n": self.NB, "target": target, "per": per, "sub": sub, "win": win, "incl": incl, "ti": ti,
                                                        "chunk": (None, 7, 1000, 0.3)[n % 4], "k": n, "num": False})
                    for per in ("n2", "n3"):
                        for sub in ("mix", "pair", "approx"):
                            for incl in (True, False):
                                n += 1
                                if shape == "tree" and (self.th or n % 5 == 0):
                                    out.append({"shape": shape, "from": lo, "n": self.NB, "target": target, "per": per, "sub": sub, "win": None, "incl": incl,
                                                "ti": ["C", "G"], "chunk": (None, 7)[n % 2], "k": n, "num": True})
        for lo in range(0, len(self.sp["tree"]), self.NB):
            # bins of days and weeks among times that are days apart, and negative numbers for times
            for per in ("1w", "2d", "2w", "1d"):
                for target in ("C", "G"):
                    n += 1
                    if self.th or n % 5 == 0:
                        out.append({"shape": "tree", "from": lo, "n": self.NB, "target": target, "per": per, "sub": ("mix", "pair", "approx")[n % 3], "win": (None, 2)[n % 2], "incl": n % 3 > 0,
                                    "ti": ["C", "G"], "chunk": None, "k": n, "num": False, "tick": 86400})
            for per in ("n2", "n3"):
                for target in ("C", "G"):
                    n += 1
                    if self.th or n % 3 == 0:
                        out.append({"shape": "tree", "from": lo, "n": self.NB, "target": target, "per": per, "sub": ("mix", "approx")[n % 2], "win": None, "incl": n % 3 > 0,
                                    "ti": ["C", "G"], "chunk": None, "k": n, "num": True, "shift": -3})
        for lo in range(0, len(self.sp["tree"]), self.NB):
            for per in ("1h", "2h", "90m", "1d"):
                for target in ("C", "G"):
                    n += 1
                    if self.th or n % 7 == 0:
                        out.append({"shape": "tree", "from": lo, "n": self.NB, "target": target, "per": per, "sub": "whole", "win": (None, 2)[n % 2], "incl": n % 3 > 0,
                                    "ti": ["C", "G"] if n % 2 else ["R", "C", "G"], "chunk": (None, 7)[n % 2], "k": n, "num": False})
        for i in range(0, len(self.sp["tree"]), 1 if self.th else 9):
            for per in ("2h", "90m"):
                out.append({"shape": "tree", "from": i, "n": 1, "target": "CG"[i % 2], "per": per, "sub": ("mix", "approx", "pair")[i % 3], "win": None, "incl": True,
                            "ti": ["R", "C", "G"] if i % 4 < 2 else ["C", "G"], "chunk": None, "k": i, "num": False})
        for bad in ("1 mo", "1 y", "multi"):
            out.append({"bad": bad})
        return sorted(out, key=lambda c: (c.get("n", 0) > 1, c.get("from", 0)))

    def run(self, case, st):
        import featuretools as ft
        if "bad" in case:
            w = spaces.tree_world(self.sp["tree"][100:130], depth=3)
            es = model.to_es(w)
            fs = model.to_features(es, w, feats("tree", "C")[0][:2])
            app = ft.Timedelta({"d": 1, "h": 12}) if case["bad"] == "multi" else case["bad"]
            st.add("evaluations")
            try:
                fm = ft.calculate_feature_matrix(fs, es, cutoff_time=calc.cutoff_df(w, [(r["id"], 2.5) for r in w.tables["C"].rows]), approximate=app)
            except Exception:
                return []
            return ["approximation by %s was answered with %d rows" % (case["bad"], len(fm))]
        sc = self.sp[case["shape"]][case["from"]:case["from"] + case["n"]]
        tk = "num" if case["num"] else "dt"
        by = case.get("shift", 0)
        if by:
            sc = [shifted(x, by) for x in sc]
        if case["shape"] == "tree":
            w = spaces.tree_world(sc, depth=3, ti=case["ti"], order="mix", dangling=case["n"] > 1, time_kind=tk, tick=case.get("tick", 3600))
        else:
            w = spaces.multi_world(sc, case["shape"], ti=case["ti"], order="mix")
        target = case["target"]
        approx, exact = feats(case["shape"], target)
        if "C" not in case["ti"]:
            approx = [f for f in approx if "('t', [" not in repr(f)]
        if case["num"]:
            approx = [f for f in approx if "('t', [" not in repr(f)]
        k = case["k"]
        every, anyway = whole(target) if case["sub"] == "whole" else ([], [])
        if every and k % 3:
            every = every[::-1] if k % 3 == 1 else every[3:] + every[:3]
        trees = {"whole": every, "mix": exact + approx, "approx": approx, "exact": exact, "pair": [approx[k % len(approx)], exact[(k // 7) % len(exact)]]}[case["sub"]]
        ids = [r["id"] for r in w.tables[target].rows]
        if not ids:
            return []
        arg, secs = periods(ft, case["per"])
        offs = (0, 0.5, 1, 1.75, 2, 2.5, 3, 4, -0.25) if not case["num"] else tuple(x + by for x in (0, 1, 2, 3, 4, 5))
        rows = []
        for n, i in enumerate(ids):
            for j in range(3 if case["n"] > 1 else 6):
                rows.append((i, offs[(n * 2 + j * 4 + k) % len(offs)]))
        rows.append(("nobody", offs[k % len(offs)]))
        rows.append(("nobody", offs[(k + 1) % len(offs)]))
        rows = list(dict.fromkeys(rows))
        rows = rows[1::2] + rows[0::2]

        def floor(t):
            if case["num"]:
                return t // secs * secs
            return (math.floor((EPOCH + t * w.tick) / secs) * secs - EPOCH) / w.tick
        kw = {"approximate": arg}
        if case["win"]:
            kw["training_window"] = calc.window_arg(w, case["win"])
        if not case["incl"]:
            kw["include_cutoff_time"] = False
        if case["chunk"]:
            kw["chunk_size"] = case["chunk"]
        es = model.to_es(w)
        fs = model.to_features(es, w, trees)
        label = [float(n) for n in range(len(rows))]
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=calc.cutoff_df(w, rows, extra={"label": label}), cutoff_time_in_index=True, **kw)
        tag = "%(shape)s+%(from)d/%(target)s/%(per)s/%(sub)s/win%(win)s/incl%(incl)s/ti%(ti)s" % case
        st.sample(tag)
        st.add("calls")
        names = [n for f in fs for n in f.get_feature_names()]
        if list(fm.columns) != names + ["label"]:
            return ["%s columns %r, expected %r" % (tag, list(fm.columns), names + ["label"])]
        got = [(model.norm(a), model.norm(b)) for a, b in fm.index]
        want = [(r[0], model.nref(model.Tick(r[1]), w)) for r in rows]
        if got != want:
            return ["%s rows are not the requested ones: got %r..., expected %r..." % (tag, got[:4], want[:4])]
        if list(fm["label"]) != label:
            return ["%s passed labels are %r" % (tag, list(fm["label"])[:10])]
        lt = None
        refs = calc.Refs(w, case["win"], case["incl"], lt)
        pick = [(t, f) for t, f in zip(trees, fs) if case["sub"] == "whole" or self.decided(t)]
        memo = {}

        def ref_of(t):
            if t not in memo:
                memo[t] = AppRef(refs, t, floor(t), anyway)
            return memo[t]
        cells = [(n, r[0], r[1]) for n, r in enumerate(rows)]
        sub = fm[[n for _, f in pick for n in f.get_feature_names()]]
        bad = model.compare(w, ref_of, [t for t, _ in pick], [f for _, f in pick], sub, cells, st, tag)
        if not bad:
            return []
        # the known finding: with nothing left to calculate exactly the present replaces the cutoff and the window is dropped
        now = 10 ** 7

        class Shortcut(AppRef):
            def __init__(self, t):
                self.ref, self.bin = far(now), refs(floor(t))
                self.default, self.exact = self.ref.default, ()
        far = calc.Refs(w, None, case["incl"], lt)
        memo2 = {}
        if shortcut(trees) and not model.compare(w, lambda t: memo2.setdefault(t, Shortcut(t)), [t for t, _ in pick], [f for _, f in pick], sub, cells):
            return [Problem("%s %s" % (tag, bad[0]), KEY)]
        return ["%s %s" % (tag, b) for b in bad[:3]]

    @staticmethod
    def decided(f):
        """approximable, or not built on an aggregation of an ancestor"""
        base = f
        while base[0] == "dir":
            base = base[1]
        if base[0] == "agg":
            return True

        def reads(g):
            if g[0] == "id":
                return False
            if g[0] == "dir":
                return "'agg'" in repr(g)
            if g[0] in ("tr", "gb"):
                return any(reads(b) for b in g[2])
            if g[0] in ("named", "slice"):
                return reads(g[1])
            return False
        return not reads(f)

    def finish(self, tier, counts, sets):
        n = len(sets.get("nontrivial", ()))
        return {}, ([] if n > 2000 else ["only %d non-trivial rows" % n])


def shifted(sc, by):
    t, children = sc[0], sc[1]
    move = lambda x: None if x is None else x + by
    return (move(t), [(move(c[0]), c[1], [(move(g[0]),) + tuple(g[1:]) for g in c[2]]) + tuple(c[3:]) for c in children]) + tuple(sc[2:])


def shortcut(trees):
    """no aggregation is left besides the approximated ones"""
    approx = set()
    for f in trees:
        if f[0] == "dir":
            base = f
            while base[0] == "dir":
                base = base[1]
            if base[0] == "agg":
                approx.add(repr(base))

    def left(f):
        if repr(f) in approx:
            return False
        if f[0] == "agg":
            return True
        if f[0] == "id":
            return False
        if f[0] in ("tr", "gb"):
            return any(left(b) for b in f[2])
        return left(f[1])
    return not any(left(f) for f in trees)


CHECK = P10()
