"""P27: path and neighbour queries on every directed multigraph of up to 5 entities."""
import itertools

from ..core import Check, Problem
from .p02 import interleave

MAXM = 3      # parallel relationships between one ordered pair


def graphs(n, th):
    """edge multiplicities (child, parent) -> count"""
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    if n == 1:
        yield {}
        yield {(0, 0): 1}
        return
    if n == 2:
        for m in itertools.product(range(4), repeat=2):
            for loops in itertools.product(range(2), repeat=2):
                yield dict(zip(pairs, m), **{}) | {(i, i): l for i, l in enumerate(loops)}
    elif n == 3:
        for m in itertools.product(range(3), repeat=6):
            yield dict(zip(pairs, m))
        for m in itertools.product(range(2), repeat=6):
            for loops in itertools.product(range(2), repeat=3):
                if any(loops):
                    yield dict(zip(pairs, m)) | {(i, i): l for i, l in enumerate(loops)}
    elif n == 5:
        up = [(a, b) for a, b in pairs if a < b]
        for m in itertools.product(range(2), repeat=10):
            yield dict(zip(up, m))
            if th:
                yield dict(zip(up, m)) | {(4, 0): 1}
                yield dict(zip(up, m)) | {(3, 1): 1, (4, 2): 1}
    else:
        for m in itertools.product(range(2), repeat=12):
            yield dict(zip(pairs, m))
        # acyclic with parallel edges
        up = [(a, b) for a, b in pairs if a < b]
        for m in itertools.product(range(3), repeat=6):
            if max(m) > 1:
                yield dict(zip(up, m))


class P27(Check):
    id = "P27"
    rule = ("every directed multigraph of relationships on 1-5 entities (multiplicity up to 3 on two, 2 on three, 1 on four entities, acyclic ones on four up to 2, all acyclic simple ones on five, self relationships on up to three), "
            "relationships added in two orders: all forward and backward path queries, uniqueness queries, direct and deep neighbour queries of every pair against a reference enumeration. "
            "Non-trivial: distinct (graph, pair) with a path of at least one edge")
    assumptions = ("deep neighbour queries are judged on graphs without self relationships",)

    def prepare(self, tier):
        import featuretools as ft
        import pandas as pd
        self.th = tier == "thorough"
        self.es = ft.EntitySet("g")
        names = ["e%d" % i for i in range(5)]
        for n in names:
            cols = {"id": [1]}
            for p in names:
                for k in range(MAXM):
                    cols["%s_%d" % (p, k)] = [1]
            self.es.entity_from_dataframe(n, pd.DataFrame(cols), index="id", variable_types={c: ft.variable_types.Id for c in cols if c != "id"})

    def cases(self, tier):
        for n in (1, 2, 3, 4, 5):
            total = sum(1 for _ in graphs(n, self.th))
            for lo in range(0, total, 40):
                yield {"n": n, "lo": lo}

    def run(self, case, st):
        n = case["n"]
        st.sample(case)
        for g in itertools.islice(graphs(n, self.th), case["lo"], case["lo"] + 40):
            edges = [(a, b, k) for (a, b), m in sorted(g.items()) for k in range(m)]
            for order in (edges, edges[::-1]) if len(edges) > 1 and (self.th or n < 4) else (edges,):
                bad = self.one(n, order, st)
                if bad:
                    return bad
        return []

    def one(self, n, edges, st):
        import featuretools as ft
        es = self.es
        es.relationships = []
        rel = {}
        for a, b, k in edges:
            r = ft.Relationship(es["e%d" % b]["id"], es["e%d" % a]["e%d_%d" % (b, k)])
            es.add_relationship(r)
            rel[a, b, k] = r
        out = [[e for e in edges if e[0] == i] for i in range(n)]

        def paths(i, seen):
            yield i, []
            for e in out[i]:
                if e[1] not in seen:
                    for j, p in paths(e[1], seen | {e[1]}):
                        yield j, [e] + p
        tag = "relationships %r" % (edges,)

        def key(r):
            return (int(r._child_entity_id[1:]), int(r._parent_entity_id[1:]), int(r._child_variable_id[-1]))
        bad = []
        want = {}
        for i in range(n):
            for j, p in paths(i, {i}):
                want.setdefault((i, j), []).append(tuple(p))
        loops = any(a == b for a, b, _ in edges)
        for i in range(n):
            for j in range(n):
                w = sorted(want.get((i, j), []))
                st.add("evaluations")
                if any(w):
                    st.seen("nontrivial", (n, sorted(edges), i, j))
                got = [tuple(key(r) for r in p) for p in es.find_forward_paths("e%d" % i, "e%d" % j)]
                if sorted(got) != w:
                    bad.append("%s: forward paths from %d to %d are %r, expected %r" % (tag, i, j, got, w))
                back = [tuple(key(r) for r in p)[::-1] for p in es.find_backward_paths("e%d" % j, "e%d" % i)]
                if sorted(back) != w:
                    bad.append("%s: backward paths from %d to %d are (reversed) %r, expected %r" % (tag, j, i, back, w))
                if w:
                    u = es.has_unique_forward_path("e%d" % i, "e%d" % j)
                    if u != (len(w) == 1):
                        bad.append("%s: unique forward path from %d to %d: %r, there are %d" % (tag, i, j, u, len(w)))
            for fwd in (True, False):
                name = "forward" if fwd else "backward"
                q = es.get_forward_entities if fwd else es.get_backward_entities
                direct = sorted((e[1] if fwd else e[0], ((fwd, e),)) for e in edges if (e[0] if fwd else e[1]) == i)
                got = sorted((int(k[1:]), tuple((f, key(r)) for f, r in p)) for k, p in q("e%d" % i))
                if got != direct:
                    bad.append("%s: direct %s entities of %d are %r, expected %r" % (tag, name, i, got, direct))
                rr = es.get_forward_relationships("e%d" % i) if fwd else es.get_backward_relationships("e%d" % i)
                if sorted(map(key, rr)) != sorted(e for _, ((_, e),) in direct):
                    bad.append("%s: %s relationships of %d are %r" % (tag, name, i, rr))
                if not loops:
                    ref = sorted((j, tuple((fwd, e) for e in (p if fwd else p[::-1]))) for (a, b), ps in want.items() for p in ps if p
                                 for j in [b if fwd else a] if (a if fwd else b) == i)
                    try:
                        got = sorted((int(k[1:]), tuple((f, key(r)) for f, r in p)) for k, p in itertools.islice(q("e%d" % i, deep=True), 20000))
                    except RecursionError:
                        got = "endless recursion"
                    if got != ref:
                        bad.append("%s: deep %s entities of %d are %s, expected %r" % (tag, name, i, str(got)[:600], ref))
            if bad:
                return bad[:2]
        return []


CHECK = P27()
