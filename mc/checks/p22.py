"""P22: synthesis under every order of the sets it works with, in processes with other hash seeds, after other calls, and cut at every length."""
import hashlib
import itertools
import json
import os
import subprocess
import sys

from ..core import REPO, ROOT, Check
from ..dfsops import build, schemas, synth, tree
from .p21 import MENU

SHAPES = [(2, 1), (2, 2), (3, 2), (3, 3)]


def option_menu():
    import featuretools as ft
    fp = ft.primitives
    return [dict(max_depth=2, **MENU["plain"]), dict(max_depth=2, **MENU["multi"]), dict(max_depth=1), dict(max_depth=2, return_variable_types=None, agg_primitives=[fp.Sum, fp.Count(), "last"], trans_primitives=[fp.Day()], where_primitives=[fp.Last, "sum"]),
            dict(max_depth=2, primitive_options={"sum": {"ignore_variables": {"A": ["n"], "B": ["n"]}}, ("count", "mode"): {"include_entities": ["B", "C"]}, "add_numeric": [{"include_variables": {"A": ["n"]}}, {"ignore_variables": {"B": ["n", "m"]}}]}, **MENU["plain"]),
            dict(max_depth=2, ignore_variables={"A": ["n"], "B": ["c", "m"]}, drop_contains=["SUM", "MODE"], drop_exact=["n", "c"], **MENU["plain"]),
            dict(max_depth=2, primitive_options={"cum_sum": {"include_groupby_variables": {"A": ["c", "n"], "B": ["c"], "C": ["c", "f1"]}}}, **MENU["plain"])]


def configurations(th):
    for n, e in SHAPES:
        for s in schemas(n, e):
            for t in "ABCD"[:n]:
                for o in range(len(option_menu())):
                    if not th and e == 3 and o not in (0, 4):
                        continue
                    yield n, s, t, o


def digest(fs):
    return hashlib.sha256(repr([(f.unique_name(), tree(f)) for f in fs]).encode()).hexdigest()[:16]


def everything(th):
    out = {}
    for n, s, t, o in configurations(th):
        es = build(s, n)
        fs = synth(es, t, **option_menu()[o])
        out["%r %s options %d" % (s, t, o)] = [digest(fs), len(fs)]
    return out


def child(th, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=REPO, PYTHONPATH=ROOT)
    p = subprocess.run([sys.executable, "-c", "import json\nfrom mc.core import setup_import\nsetup_import()\nfrom mc.checks import p22\nprint('RESULT ' + json.dumps(p22.everything(%r)))" % th], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT)
    for line in p.stdout.decode().splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise RuntimeError("synthesis in a process of its own failed: " + p.stderr.decode()[-300:])


class P22(Check):
    id = "P22"
    rule = ("every order of iteration over sets of up to 4 conditions and of up to 4 commutative inputs (all rankings of their hash values, imposed on the real code) on chains and double relationships; every configuration (schema x target x options) in "
            "processes with hash seeds 0..k; every pair of calls in one process; every length of the list. Non-trivial: distinct (configuration, order or length) with at least two features")
    assumptions = ("the order of sets of texts is varied by hash seeds (8 in quick runs, 40 in thorough ones), not exhaustively", "features with equal names on one entity are one feature")
    case_timeout = 600

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.base = child(self.th, 0)

    def cases(self, tier):
        for seed in range(1, 41 if self.th else 9):
            yield {"m": "seed", "seed": seed}
        for s in ([("A", "B")], [("A", "B"), ("A", "B")], [("A", "B"), ("B", "C")]):
            for t in sorted({x for e in s for x in e}):
                for what in ("conditions", "inputs", "both"):
                    yield {"m": "orders", "s": s, "t": t, "what": what}
        for n, s, t, o in configurations(self.th):
            if o in (0, 1, 2, 3) or self.th:
                yield {"m": "lengths", "n": n, "s": s, "t": t, "o": o}
        for n, e in ((2, 1), (3, 2)):
            for s in schemas(n, e):
                for t in "ABC"[:n]:
                    yield {"m": "pairs", "n": n, "s": s, "t": t}

    def run(self, case, st):
        st.sample(case)
        return getattr(self, case["m"])(case, st)[:3]

    def seed(self, case, st):
        got = child(self.th, case["seed"])
        st.add("evaluations", len(got))
        for k, v in got.items():
            if v[1] > 1:
                st.seen("nontrivial", (k, case["seed"]))
        bad = [k for k in self.base if got.get(k) != self.base[k]]
        return ["with hash seed %d the features of %s differ from those with hash seed 0" % (case["seed"], k) for k in bad]

    def orders(self, case, st):
        """the hash value of each of a few features decides where it comes in a set"""
        import featuretools as ft
        from featuretools.feature_base import FeatureBase
        s = [tuple(x) for x in case["s"]]
        es = build(s, cols=("n", "m", "k", "c") if False else ("n", "m", "c", "b"))
        for e in es.entities:
            e["c"].interesting_values = ["a", "b", "x"]
            e["b"].interesting_values = [True]
        kw = dict(agg_primitives=["sum", "count", "min"], trans_primitives=["add_numeric", "multiply_numeric"], where_primitives=["count", "sum"], max_depth=2)
        groups = []
        names = sorted({x for e in s for x in e})
        conditions = ["c = a", "c = b", "c = x", "b = True"]
        inputs = ["n", "m"] + ["SUM(%s.n)" % n for n in names] + ["COUNT(%s)" % n for n in names]
        if case["what"] != "inputs":
            groups.append(conditions)
        if case["what"] != "conditions":
            groups.append(inputs[:4] if case["what"] == "inputs" else inputs[:3])
        base = synth(es, case["t"], **kw)
        want = [tree(f) for f in base]
        original = FeatureBase.__hash__
        bad = []
        try:
            for perm in itertools.product(*[itertools.permutations(range(len(g))) for g in groups]):
                rank = {}
                for g, p in zip(groups, perm):
                    for name, r in zip(g, p):
                        rank[name] = r

                def chosen(f, rank=rank):
                    r = rank.get(f.get_name())
                    return original(f) if r is None else r
                FeatureBase.__hash__ = chosen
                got = synth(es, case["t"], **kw)
                st.add("evaluations")
                st.seen("nontrivial", (s, case["t"], case["what"], perm))
                if [tree(f) for f in got] != want:
                    i = next((i for i, (a, b) in enumerate(zip(got, base)) if tree(a) != tree(b)), min(len(got), len(base)))
                    bad.append("hash values %r change the features: number %d is %s instead of %s" % (rank, i, got[i].get_name() if i < len(got) else "missing", base[i].get_name() if i < len(base) else "missing"))
                    if len(bad) > 2:
                        break
        finally:
            FeatureBase.__hash__ = original
        return bad

    def lengths(self, case, st):
        s = [tuple(x) for x in case["s"]]
        es = build(s, case["n"])
        o = option_menu()[case["o"]]
        full = synth(es, case["t"], **o)
        want = [tree(f) for f in full]
        size = len(want)
        every = range(1, size + 3) if self.th and case["n"] < 3 else sorted({1, 2, 3, size // 2, size - 1, size, size + 1} | set(range(5, size, 23))) if size > 12 else range(1, size + 3)
        bad = []
        for n in every:
            if n < 1:
                continue
            got = [tree(f) for f in synth(es, case["t"], max_features=n, **o)]
            st.add("evaluations")
            st.seen("nontrivial", (s, case["t"], case["o"], n))
            if got != want[:n]:
                bad.append("%s of %s, options %d: limited to %d features of %d it gives %d, first difference at %s" % (case["t"], s, case["o"], n, size, len(got), next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), "the end")))
        return bad

    def pairs(self, case, st):
        """a call is not influenced by the calls before it, and leaves its arguments as they are"""
        s = [tuple(x) for x in case["s"]]
        es = build(s, case["n"])
        fresh = [[tree(f) for f in synth(build(s, case["n"]), case["t"], **o)] for o in option_menu()]
        menu = option_menu()
        bad = []
        for i, j in itertools.product(range(len(menu)), repeat=2):
            before = repr(sorted(menu[i].items(), key=lambda x: x[0]))
            for k in (i, j, i):
                got = [tree(f) for f in synth(es, case["t"], **menu[k])]
                st.add("evaluations")
                if got != fresh[k]:
                    bad.append("%s of %s: options %d after options %d and %d give other features than in a first call" % (case["t"], s, k, i, j))
            if repr(sorted(menu[i].items(), key=lambda x: x[0])) != before:
                bad.append("the arguments (options %d) were changed: %s" % (i, before[:200]))
                menu = option_menu()
            st.seen("nontrivial", (s, case["t"], i, j))
        return bad


CHECK = P22()
