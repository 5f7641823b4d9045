"""P14: last time indexes against the reference, computed at once, after data updates and for partial refreshes."""
import itertools

from .. import model, spaces
from ..core import Check, Problem
from .p02 import interleave, multi
from .p05 import three, two


def compare(es, world, tag, st):
    want = model.last_times(world)
    bad = []
    for n, t in world.tables.items():
        lti = es[n].last_time_index
        ids = [r[t.index] for r in t.rows]
        if lti is None:
            bad.append("%s: no last time index on %s" % (tag, n))
            continue
        got = {model.norm(i): model.norm(v) for i, v in lti.items()}
        if ids and (len(lti) != len(ids) or set(got) != set(model.norm(i) for i in ids)):
            bad.append("%s: last time index of %s has labels %r, expected %r" % (tag, n, list(lti.index)[:8], ids[:8]))
            continue
        for i in ids:
            w = want[n][i]
            e = None if w is None else model.nref(model.Tick(w), world)
            st.add("evaluations")
            if not model.close(got[model.norm(i)], e):
                bad.append("%s: last time of %s %r is %r, expected %r" % (tag, n, i, got[model.norm(i)], e))
            own = None
            if w is not None:
                st.seen("nontrivial", (tag, n, i))
    return bad


def build(case, th):
    if case["shape"] in ("two", "three"):
        sc = {"two": lambda: two(3, (None, 0, 2), (None, 0, 1, 3)), "three": lambda: three((None, 0, 2), (None, 0, 1), (None, 0, 2, 4), 2 if th else 1, 2)
              + three((1,), (0, 3), (None, 2), 2, 1)}[case["shape"]]()
        sc = sc[case["from"]:case["from"] + case["n"]]
        return spaces.tree_world(sc, depth=2 if case["shape"] == "two" else 3, ti=case["ti"], order=case["order"], time_kind=case["kind"],
                                 dangling=case["dang"], idk=case["idk"])
    blocks = multi(2, (0, 3, None))[case["from"]:case["from"] + case["n"]]
    return spaces.multi_world(blocks, case["shape"], order=case["order"], ti=case["ti"], time_kind=case["kind"])


def to_es(world, ents, rels):
    """entity set with entities and relationships added in the given orders"""
    import featuretools as ft
    w2 = model.World([world.tables[n] for n in ents], [world.rels[i] for i in rels], world.time_kind, world.tick)
    return model.to_es(w2)


class P14(Check):
    id = "P14"
    rule = ("exhaustive times (including missing) of all rows over chains, diamond, double and direct-plus-indirect schemas x which entities have a "
            "time index x row order x id type x datetime or numeric times x orders of adding entities and relationships; then every single-entity "
            "data replacement between two worlds and every partial refresh, compared with the reference maximum. "
            "Non-trivial: distinct (world, entity, row) with a last time")
    assumptions = ("times from 4 ticks",)

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        full, upd = [], []
        for shape, tis, total in [("two", [["C"], ["R", "C"], ["R"], []], 3 * 85), ("three", [["C", "G"], ["R", "C", "G"], ["G"], ["C"], ["R"], ["R", "G"], []], 300),
                                  ("diamond", [["G"], ["R", "A", "B", "G"], ["A", "G"], ["A", "B"], ["R"]], 757),
                                  ("double", [["G"], ["R", "G"], ["R"]], 757), ("direct", [["G"], ["R", "A", "G"], ["A"]], 757)]:
            step = 60
            for lo in range(0, total, step):
                for ti in tis:
                    for kind in ("dt", "num"):
                        for k, (order, idk) in enumerate([("asc", "str"), ("mix", "int")] if shape in ("two", "three") else [("asc", "str"), ("mix", "str")]):
                            ents = list({"two": "RC", "three": "RCG", "diamond": "RABG", "double": "RG", "direct": "RAG"}[shape])
                            nr = {"two": 1, "three": 2, "diamond": 4, "double": 2, "direct": 3}[shape]
                            perms = [(ents, list(range(nr)))]
                            if lo == 0:
                                perms = list(itertools.product(itertools.permutations(ents), itertools.permutations(range(nr))))
                                perms = perms if self.th else perms[::max(1, len(perms) // 24)]
                            for e, r in perms:
                                full.append({"m": "full", "shape": shape, "from": lo, "n": step, "ti": ti, "kind": kind, "order": order, "idk": idk,
                                             "dang": k == 0, "ents": list(e), "rels": list(r)})
        for shape, ti, n in [("two", ["C"], 12), ("three", ["C", "G"], 40), ("three", ["R", "C", "G"], 40), ("diamond", ["G"], 60), ("diamond", ["A", "G"], 40), ("double", ["G"], 40),
                             ("direct", ["G"], 40), ("direct", ["A", "G"], 30)]:
            for a in range(0, n, 5):
                for b in range(0, n, 7):
                    for order in ("asc", "mix"):
                        upd.append({"m": "upd", "shape": shape, "from": a, "b": b + 3, "n": 3, "ti": ti, "kind": "dt" if (a + b) % 3 else "num", "order": order, "idk": "str",
                                    "dang": False})
        return interleave(sorted(full, key=lambda c: c["from"]), upd)

    def run(self, case, st):
        w = build(case, self.th)
        tag = repr(sorted(case.items()))
        st.sample({k: case[k] for k in ("m", "shape", "from", "ti", "kind", "order")})
        if case["m"] == "full":
            es = to_es(w, case["ents"], case["rels"])
            es.add_last_time_indexes()
            bad = compare(es, w, tag, st)
            es.add_last_time_indexes()
            bad += compare(es, w, tag + " (computed twice)", st)
            return bad[:2]
        other = build(dict(case, **{"from": case["b"]}), self.th)
        bad = []
        names = list(w.tables)
        for first in names:
            es = model.to_es(w)
            es.add_last_time_indexes()
            cur = dict(w.tables)
            for n in [first] + [m for m in names[::-1] if m != first]:
                # roots keep their ids: a new table for n may refer to rows that do not exist (that is allowed)
                cur[n] = other.tables[n]
                df = model.frame(w, other.tables[n])
                es[n].update_data(df)
                now = model.World([cur[m] for m in names], w.rels, w.time_kind, w.tick)
                bad += compare(es, now, tag + " after replacing %s starting with %s" % (n, first), st)
                st.add("updates")
                if bad:
                    return bad[:2]
            es[first].last_time_index = None
            es.add_last_time_indexes(updated_entities=[first])
            now = model.World([other.tables[m] for m in names], w.rels, w.time_kind, w.tick)
            bad += compare(es, now, tag + " refreshed %s" % first, st)
        return bad[:2]


CHECK = P14()
