"""P12: every progress report of every calculation."""
import itertools

from .. import calc, model, spaces
from ..core import Check
from .p02 import A, idf
from .p04 import D, T, GB
from .p07 import SC, feats as feats7

EMPTY = [(0, []), (1, []), (2, [])]
WORLDS = {"plain": (SC, dict(ti=("C", "G"))), "noti": (SC, dict(ti=("G",), order="mix")), "all": (SC, dict(ti=("R", "C", "G"))), "childless": (EMPTY, dict(ti=("R", "C", "G"), dangling=False)),
          "single": ([(0, [(0, 1, [(0, 1)])])], dict(ti=("R", "C", "G"), dangling=False))}


class P12(Check):
    id = "P12"
    technique = "bounded exhaustive exploration of calculations on the implementation with every progress report monitored"
    rule = ("worlds (including empty entities and all-missing times) x targets x every single feature, every ordered pair from a step, all features, every prefix length "
            "x cutoff tables and single cutoffs (also before all data, unknown instances) x chunk sizes x approximation x training window; every report of every call "
            "monitored. Non-trivial: distinct (world, features, request) with at least two reports")
    assumptions = ("reports compared to 1e-6 of a percent", "parallel calculations are P08's")

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.cache = {}

    def ctx(self, wname, target):
        k = wname, target
        if k not in self.cache:
            sc, kw = WORLDS[wname]
            w = spaces.tree_world(sc, depth=3, **kw)
            es = model.to_es(w)
            trees = feats7(target, {"childless": "all", "single": "all"}.get(wname, wname))
            self.cache[k] = (w, es, trees, model.to_features(es, w, trees))
        return self.cache[k]

    def cases(self, tier):
        out, n = [], 0
        for wname in WORLDS:
            for target in ("R", "C"):
                m = len(feats7(target, {"childless": "all", "single": "all"}.get(wname, wname)))
                sets = [[i] for i in range(m)] + [list(range(k)) for k in range(2, m + 1, 1 if self.th else 7)] + [list(range(m))[::-1], list(range(m))[::2]]
                sets += [list(p) for p in itertools.permutations(range(m), 2)][::1 if self.th else 37]
                reqs = ["table", "one", "many", "single", "before", "unknown", "approx", "window", "none"]
                for k, s in enumerate(sets):
                    for j, r in enumerate(reqs):
                        if r == "none" and wname == "childless" and target == "C":
                            continue
                        for chunk in (None, 1, 2, 0.4):
                            n += 1
                            if self.th or n % 13 == 0 or len(s) > m - 2:
                                out.append({"w": wname, "target": target, "f": s, "req": r, "chunk": chunk})
        return sorted(out, key=lambda c: len(c["f"]))

    def run(self, case, st):
        import featuretools as ft
        w, es, trees, fs = self.ctx(case["w"], case["target"])
        use = [fs[i] for i in case["f"]]
        ids = [r["id"] for r in w.tables[case["target"]].rows][:5] or ["nobody"]
        kw = {"chunk_size": case["chunk"]} if case["chunk"] else {}
        r = case["req"]
        if r in ("table", "many", "approx", "window"):
            rows = [(i, t) for n, i in enumerate(ids) for t in ((0, 1, 2, 4) if r == "many" else (n % 3, 2))]
            rows = list(dict.fromkeys(rows))
            ct = calc.cutoff_df(w, rows)
            if r == "approx":
                kw["approximate"] = "2h"
            if r == "window":
                kw["training_window"] = "2h"
        elif r == "one":
            ct = calc.cutoff_df(w, [(ids[0], 2)])
        elif r == "unknown":
            ct = calc.cutoff_df(w, [("nobody", 2), (ids[0], 1), ("else", 2), ("nobody", 0)])
        elif r == "before":
            ct = calc.cutoff_df(w, [(i, -3) for i in ids])
        else:
            ct = w.time(2) if r == "single" else None
            if r == "single":
                kw["instance_ids"] = ids + ["no one"]
        reports = []
        ft.calculate_feature_matrix(use, es, cutoff_time=ct, progress_callback=lambda u, p, t: reports.append((u, p, t)), **kw)
        st.add("calls")
        st.add("evaluations", len(reports))
        if len(reports) > 1:
            st.seen("nontrivial", case)
        st.sample(case)
        total, last, clock, bad = 0.0, 0.0, 0.0, []
        for k, (u, p, t) in enumerate(reports):
            total += u
            if u < -1e-6:
                bad.append("update %r in report %d of %d" % (u, k, len(reports)))
            if p > 100 + 1e-6 or p < last - 1e-6:
                bad.append("percentage %r after %r" % (p, last))
            if abs(p - total) > 1e-6:
                bad.append("percentage %r but the updates add up to %r" % (p, total))
            if t < clock:
                bad.append("elapsed %r after %r" % (t, clock))
            last, clock = p, t
        if not reports or abs(last - 100) > 1e-6:
            bad.append("last report is %r" % (reports[-1:],))
        return ["%s: %s" % ([f.get_name() for f in use][:4], b) for b in bad[:2]]


CHECK = P12()
