"""P15: breadth-first search over operation sequences on entity sets; every state must be consistent and be the one the table model predicts."""
import copy

from .. import esops
from ..core import Check, Problem

SKIP = ("setiv", "desc", "nolti")
# the deepest level uses the operations that move data or keys around
CORE = ("rel:cust-tx", "norm:kind", "norm:kind_s", "norm:code_d", "norm:cid", "norm:fk", "norm:k", "norm:un", "rel:grp-ev", "update:tx:reverse", "update:tx:add", "update:tx:dup",
        "update:ev:reverse", "update:ev:dup", "del:amt", "del:d", "del:g", "ti:d", "ti:un", "sti:un", "conv:score", "concat", "concat_in", "add:cust", "add:tx", "add:ev")
STEPS = 4


def apply(es, op):
    """(entity set after the operation, error or None)"""
    try:
        out = op[1](es)
    except esops.Broken:
        raise
    except Exception as e:
        return es, e
    return (out if type(out).__name__ == "EntitySet" else es), None


def step(es, before, name, op, tag, st):
    """apply one operation to its own copy; returns (new es, new snapshot, problems)"""
    nxt = copy.deepcopy(es)
    want = op[2](before)
    try:
        nxt, err = apply(nxt, op)
    except esops.Broken as e:
        return None, None, ["%s: %s" % (tag, e)]
    after = esops.snap(nxt)
    st.add("transitions")
    st.seen("operations", name)
    if want == "refuse":
        st.add("refusals")
        if err is None:
            return None, None, ["%s: the operation was not refused" % tag]
        if after != before:
            d = esops.differs(after, before) or ["types, last times or interesting values: %r" % [
                (k, f) for k in before["ents"] for f in before["ents"][k] if before["ents"][k][f] != after["ents"].get(k, {}).get(f)]]
            return None, None, ["%s: the operation was refused (%s) but changed the entity set: %s" % (tag, type(err).__name__, "; ".join(d[:3]))]
    else:
        if err is not None:
            return None, None, ["%s: refused with %s: %s" % (tag, type(err).__name__, str(err)[:200])]
        bad = esops.differs(after, want)
        if bad:
            return None, None, ["%s: %s" % (tag, "; ".join(bad[:3]))]
    bad = esops.invariants(nxt)
    if bad:
        return None, None, ["%s: %s" % (tag, "; ".join(bad[:3]))]
    return nxt, after, []


class P15(Check):
    id = "P15"
    level = "model_checking"
    technique = "explicit-state breadth-first search over operation sequences of the implementation, every transition compared with a table model"
    rule = ("breadth-first search from 5 initial entity sets over a menu of about 55 operations (adding, relating, splitting, replacing data, converting, deleting, time indexes, "
            "combining, and calls that must be refused) to depth 2 with the whole menu and one level deeper with the core menu; states identified by a full snapshot; "
            "every transition executed on the real entity set and compared with the table model, invariants checked in every state")
    assumptions = ("tables of at most 4 rows", "deleted variables are no keys")

    def prepare(self, tier):
        self.th = tier == "thorough"

    def cases(self, tier):
        for init in ("A", "AR", "N", "NG", "0"):
            m = esops.menu(init)
            names = [n for n in m if n not in SKIP]
            yield {"init": init, "first": None}
            for n in names:
                yield {"init": init, "first": n}

    def run(self, case, st):
        m = {k: v for k, v in esops.menu(case["init"]).items() if k not in SKIP}
        es = esops.initial(case["init"])
        s = esops.snap(es)
        st.sample(case)
        if case["first"] is None:
            bad = esops.invariants(es)
            st.seen("states", repr(s))
            st.add("traces")
            return ["initial %s: %s" % (case["init"], b) for b in bad]
        start, n = repr(s), case["first"]
        if not m[n][0](s):
            return []
        tag = "%s: %s" % (case["init"], n)
        es, s, bad = step(es, s, n, m[n], tag, st)
        if bad:
            return bad
        seen = {repr(s)}
        st.seen("states", repr(s))
        front = [] if repr(s) == start else [(es, s, tag)]
        for depth in range(2, (STEPS if self.th else 3) + 1):
            use = m if depth <= (3 if self.th else 2) else {k: v for k, v in m.items() if k in CORE}
            if depth == 4 and case["first"] not in CORE:
                break
            nxt = []
            for es, s, tag in front:
                for n, op in use.items():
                    if not op[0](s):
                        continue
                    e2, s2, bad = step(es, s, n, op, tag + " > " + n, st)
                    if bad:
                        return bad
                    st.add("traces")
                    k = repr(s2)
                    if k in seen:
                        continue
                    seen.add(k)
                    st.seen("states", k)
                    nxt.append((e2, s2, tag + " > " + n))
            front = nxt
        return []

    def finish(self, tier, counts, sets):
        vac = []
        if len(sets.get("states", ())) < 500 or not counts.get("refusals"):
            vac.append("too few states or refusals")
        return {}, vac


CHECK = P15()
