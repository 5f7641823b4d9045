"""P31: generated cutoff series for every small instance list and every pair of window size, start and number of windows."""
import itertools

from ..core import Check, Problem

H = 3600 * 10 ** 9


class P31(Check):
    id = "P31"
    rule = ("all lists of up to 3 instances (repeated ids included) over 2 ids x all cutoffs from a grid x window sizes {1h, 90min, 24h, 1ns} x number of windows 1-5 (thorough 1-8) x start offsets (before, on and off the grid, equal to the "
            "cutoff), as lists, arrays and series, compared with an arithmetic reference; all three options together are refused. Non-trivial: distinct requests with more than one time per instance")
    assumptions = ("with a start and a number of windows, times may differ from exact division by less than one nanosecond per window",)

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for n in (1, 2, 3):
            for ids in itertools.product("ab", repeat=n):
                for kind in ("list", "array", "series"):
                    yield {"ids": list(ids), "kind": kind}

    def run(self, case, st):
        import featuretools as ft
        import numpy as np
        import pandas as pd
        st.sample(case)
        ids, kind = case["ids"], case["kind"]
        n = len(ids)
        base = pd.Timestamp("2020-02-28 22:30").value
        wrap = {"list": list, "array": np.array, "series": lambda x: pd.Series(list(x), index=range(7, 7 + len(list(x))))}[kind]
        nums = range(1, 9 if self.th else 6)
        bad = []

        def call(want, tag, slack=0, **kw):
            st.add("evaluations")
            try:
                got = ft.make_temporal_cutoffs(wrap(ids), wrap([pd.Timestamp(c) for c in cuts]), **kw)
            except Exception as e:
                bad.append("%s: %s: %s" % (tag, type(e).__name__, e))
                return
            rows = [(i, t.value) for i, t in zip(got["instance_id"], got["time"])]
            if len(rows) > n:
                st.seen("nontrivial", tag)
            if list(got.columns) != ["time", "instance_id"] or list(got.index) != list(range(len(got))):
                bad.append("%s: columns %r index %r" % (tag, list(got.columns), list(got.index)))
            elif [r[0] for r in rows] != [r[0] for r in want] or any(abs(a[1] - b[1]) > slack for a, b in zip(rows, want)):
                bad.append("%s: %r, expected %r" % (tag, [(i, str(pd.Timestamp(t))) for i, t in rows], [(i, str(pd.Timestamp(t))) for i, t in want]))
        for cuts in itertools.product((base, base + 5 * H, base - H // 4), repeat=n):
            for w in (H, 3 * H // 2, 24 * H, 1):
                for k in nums:
                    want = [(i, c - (k - 1 - j) * w) for i, c in zip(ids, cuts) for j in range(k)]
                    call(want, "%r cutoffs %r window %d, %d windows (%s)" % (ids, cuts, w, k, kind), window_size=pd.Timedelta(w, "ns"), num_windows=k)
                if w == 1:
                    continue
                for offs in itertools.product((0, 2 * H, 5 * H // 2, 3 * H - 1), repeat=n) if n < 3 or self.th else [(0, 2 * H, 3 * H), (3 * H // 2, H, 1)]:
                    start = [c - o for c, o in zip(cuts, offs)]
                    want = [(i, s + j * w) for i, c, s in zip(ids, cuts, start) for j in range((c - s) // w + 1)]
                    call(want, "%r cutoffs %r window %d, starts %r (%s)" % (ids, cuts, w, offs, kind), window_size=pd.Timedelta(w, "ns"), start=[pd.Timestamp(s) for s in start])
            for k in nums:
                if k < 2:
                    continue
                for offs in itertools.product((H, 2 * H, 5 * H // 2), repeat=n) if n < 3 or self.th else [(H, 2 * H, 3 * H), (3 * H // 2, H, 7)]:
                    start = [c - o for c, o in zip(cuts, offs)]
                    if min(offs) < k:
                        continue
                    want = [(i, s + j * (c - s) // (k - 1)) for i, c, s in zip(ids, cuts, start) for j in range(k)]
                    call(want, "%r cutoffs %r starts %r, %d windows (%s)" % (ids, cuts, offs, k, kind), slack=k, num_windows=k, start=[pd.Timestamp(s) for s in start])
            for kw in ({"window_size": pd.Timedelta(H, "ns"), "num_windows": 2, "start": [pd.Timestamp(c) for c in cuts]},):
                st.add("evaluations")
                try:
                    got = ft.make_temporal_cutoffs(wrap(ids), wrap([pd.Timestamp(c) for c in cuts]), **kw)
                except Exception:
                    continue
                if kw:
                    bad.append("%r accepted, result %r" % (sorted(kw), got.to_dict("list")))
            if bad:
                return bad[:2]
        return []


CHECK = P31()
