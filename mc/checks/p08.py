"""P08: parallel calculation under every completion order, batching, worker assignment and fault of a controlled cluster.

`distributed` is replaced by a deterministic stand-in: scattering and task submission pickle what crosses the process boundary,
every worker owns its copy of the scattered entity set, tasks run when the enumerated schedule says so and results come back in
the enumerated batches.  Faults are injected at every call the library makes to the cluster.
"""
import contextlib
import io
import itertools
import os
import pickle

from .. import calc, model, spaces
from ..core import Check, Problem
from .p02 import A, idf
from .p04 import D, T, GB
from .p07 import SC
from .p13 import frame


class Boom(Exception):
    pass


class World(object):
    """the third-party side of one run"""

    def __init__(self, schedule=None, fault=None, assign=0, memory=None):
        self.schedule, self.fault, self.assign, self.memory = schedule, fault, assign, memory
        self.calls = []
        self.clusters, self.clients = [], []
        self.tasks = 0

    def call(self, name):
        self.calls.append(name)
        k = sum(1 for c in self.calls if c == name) - 1
        if self.fault == [name, k]:
            raise Boom("%s %d" % (name, k))


class Cluster(object):
    def __init__(self, world, workers, memory):
        self.world, self.n, self.memory = world, workers, memory
        self.datasets, self.closed, self.scheduler = {}, 0, None
        self.store = {}

    def close(self):
        self.closed += 1
        self.world.calls.append("cluster.close")


class Fut(object):
    def __init__(self, key, client=None):
        self.key, self.run, self.state = key, None, None


class Client(object):
    def __init__(self, world, cluster):
        self.world, self.cluster, self.closed = world, cluster, 0
        world.clients.append(self)

    def scheduler_info(self):
        self.world.call("scheduler_info")
        m = self.world.memory
        return {"workers": {"w%d" % i: {"memory_limit": m if m is not None else self.cluster.memory} for i in range(self.cluster.n)}}

    def list_datasets(self):
        self.world.call("list_datasets")
        return tuple(self.cluster.datasets)

    def get_dataset(self, name):
        self.world.call("get_dataset")
        return self.cluster.datasets[name]

    def scatter(self, data):
        self.world.call("scatter")
        if isinstance(data, list):
            return [self._put(d) for d in data]
        return self._put(data)

    def _put(self, d):
        import cloudpickle
        from dask.base import tokenize
        f = Fut("%s-%s" % (type(d).__name__, tokenize(d)))
        blob = cloudpickle.dumps(d)
        self.cluster.store[f.key] = [pickle.loads(blob) for _ in range(self.cluster.n)]
        return f

    def publish_dataset(self, **kw):
        self.world.call("publish_dataset")
        self.cluster.datasets.update(kw)

    def replicate(self, futures):
        self.world.call("replicate")

    def who_has(self, futures):
        self.world.call("who_has")
        return {f.key: tuple("w%d" % i for i in range(self.cluster.n)) for f in futures if f.key in self.cluster.store}

    def map(self, fn, *iters, **kw):
        import cloudpickle
        self.world.call("map")
        out = []
        for n, args in enumerate(zip(*iters)):
            blob = cloudpickle.dumps((fn, args, {k: v for k, v in kw.items() if not isinstance(v, Fut)}))
            refs = {k: v.key for k, v in kw.items() if isinstance(v, Fut)}
            f = Fut("task-%d" % n)
            f.run = self._task(blob, refs, n)
            out.append(f)
        self.world.tasks = len(out)
        return out

    def _task(self, blob, refs, n):
        def go():
            import cloudpickle
            self.world.call("task")
            worker = 0 if self.world.assign == 0 else (n if self.world.assign == 1 else n // 2) % self.cluster.n
            fn, args, kw = pickle.loads(blob)
            kw.update({k: self.cluster.store[key][worker] for k, key in refs.items()})
            return pickle.loads(cloudpickle.dumps(fn(*args, **kw)))
        return go

    def gather(self, batch):
        self.world.call("gather")
        out = []
        for f in batch:
            if isinstance(f.state, Exception):
                raise f.state
            out.append(f.state)
        return out

    def close(self):
        self.closed += 1
        self.world.calls.append("client.close")


class Completed(object):
    """as_completed(futures).batches() under the world's schedule"""

    def __init__(self, world, futures):
        self.world, self.futures = world, list(futures)

    def batches(self):
        order = self.world.schedule(len(self.futures)) if self.world.schedule else [[i] for i in range(len(self.futures))]
        assert sorted(i for b in order for i in b) == list(range(len(self.futures)))
        for b in order:
            for i in b:
                f = self.futures[i]
                try:
                    f.state = f.run()
                except Exception as e:
                    f.state = e
            self.world.call("batch")
            yield [self.futures[i] for i in b]


@contextlib.contextmanager
def installed(world):
    import distributed
    from featuretools.computational_backends import utils

    def local(n_workers=1, threads_per_worker=1, diagnostics_port=None, memory_limit=None, **kw):
        world.call("LocalCluster")
        c = Cluster(world, n_workers, memory_limit if isinstance(memory_limit, int) else 10 ** 12)
        c.args = dict(kw, diagnostics_port=diagnostics_port, memory_limit=memory_limit)
        world.clusters.append(c)
        return c

    def client(cluster):
        world.call("Client")
        if isinstance(cluster, str):
            cluster = world.named[cluster]
        return Client(world, cluster)
    old = distributed.as_completed, distributed.Future, utils.get_client_cluster
    distributed.as_completed, distributed.Future = (lambda fs: Completed(world, fs)), Fut
    utils.get_client_cluster = lambda: (client, local)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        distributed.as_completed, distributed.Future, utils.get_client_cluster = old


def partitions(n):
    """all ordered set partitions of range(n)"""
    if n == 0:
        return [[]]
    out = []
    for size in range(1, n + 1):
        for first in itertools.permutations(range(n), size):
            rest = [i for i in range(n) if i not in first]
            for tail in partitions(len(rest)):
                out.append([list(first)] + [[rest[i] for i in b] for b in tail])
    return out


def partitions_sets(n):
    seen, out = set(), []
    for p in partitions(n):
        key = repr([sorted(b) for b in p])
        if key not in seen:
            seen.add(key)
            out.append([sorted(b) for b in p])
    return out


FAULTS = ["LocalCluster", "Client", "scheduler_info", "list_datasets", "get_dataset", "scatter", "publish_dataset", "replicate", "who_has", "map", "gather", "task", "batch"]
REQS = ["table", "two", "single", "singleids", "approx", "window", "excl", "c", "label", "chunky"]
# (n_jobs, dask_kwargs name)
MODES = [(2, None), (3, None), (-1, None), (1, "empty"), (2, "memory"), (2, "port"), (1, "cluster"), (2, "address"), (-2, "auto")]


def trees():
    w, x, c, gw = idf("C", "w"), idf("C", "x"), idf("C", "c"), idf("G", "w")
    cnt = A("count", [idf("C", "id")])
    return [idf("R", "c"), cnt, A("sum", [x]), A("minmax", [w]), A("sum", [gw], "R", (0, 1)), T("cum_sum", idf("R", "w")), A("sum", [w], up=("t", [(2, "h")]))]


def trees_c():
    w, x = idf("C", "w"), idf("C", "x")
    return [x, T("cum_sum", x), D(idf("R", "x"), 0), D(A("sum", [x]), 0), D(A("count", [idf("C", "id")]), 0), T("negate", A("sum", [idf("G", "w")], "C", (1,)))]


class P08(Check):
    id = "P08"
    level = "model_checking"
    technique = ("stateless model checking of the implementation under a controlled cluster: all completion orders and batchings of the submitted tasks, worker assignments "
                 "and single faults at every cluster call; the stand-in cluster is replayed against a real LocalCluster")
    rule = ("requests (tables, single cutoffs, approximation, windows, passed columns) x worker counts and cluster options x chunk sizes giving up to 4 (thorough: 5) tasks x "
            "every ordered partition of the tasks into completion batches x task-to-worker assignments, and a fault at every single cluster call, task and gather; "
            "matrices compared with the serial one, releases and errors with the fault. States are distinct (request, schedule prefix) points, transitions task completions")
    assumptions = ("the stand-in pickles everything that crosses the process boundary and gives every worker its own copy", "reuse of a published entity set with the same metadata is documented")

    def prepare(self, tier):
        self.th = tier == "thorough"
        # opt in to nothing real: the stand-in is installed around every call
        w = self.w = spaces.tree_world(SC, depth=3, ti=("R", "C", "G"), order="mix", secondary={"C": {"d": ["x", "c"]}})
        self.es = model.to_es(w, lti=True)
        self.f = model.to_features(self.es, w, trees())
        self.fc = model.to_features(self.es, w, trees_c())
        self.parts = {n: partitions_sets(n) for n in range(1, 6 if self.th else 5)}
        self.serial = {}

    def request(self, req):
        w = self.w
        ids = [r["id"] for r in w.tables["R"].rows]
        rows = [(ids[0], 2), (ids[1], 1), (ids[2], 2), (ids[3], 3), (ids[1], 2), ("nobody", 3), (ids[0], 3)]
        kw = {}
        fs = self.f
        if req == "table":
            ct = calc.cutoff_df(w, rows)
        elif req == "two":
            ct = calc.cutoff_df(w, [(i, t) for i, t in rows if t != 1])
        elif req == "single":
            ct = w.time(2)
        elif req == "singleids":
            ct = w.time(3)
            kw["instance_ids"] = [ids[2], "nobody", ids[0], ids[1]]
        elif req == "approx":
            ct, fs = calc.cutoff_df(w, [(r["id"], k % 4) for k, r in enumerate(w.tables["C"].rows[:6])]), self.fc
            kw["approximate"] = "2h"
        elif req == "window":
            ct = calc.cutoff_df(w, rows)
            kw["training_window"] = "2h"
        elif req == "excl":
            ct = calc.cutoff_df(w, rows[::-1])
            kw["include_cutoff_time"] = False
        elif req == "c":
            ct, fs = calc.cutoff_df(w, [(r["id"], 2 + k % 2) for k, r in enumerate(w.tables["C"].rows)]), self.fc
        elif req == "label":
            ct = calc.cutoff_df(w, rows, extra={"label": list("gfedcba"), "n": [1, 2, None, 4, 5, 6, 7]})
            kw["cutoff_time_in_index"] = True
        elif req == "chunky":
            ct = calc.cutoff_df(w, [(i, 2) for i in ids])
        return fs, ct, kw

    def cases(self, tier):
        out, n = [], 0
        cap = 5 if self.th else 4
        for req in REQS:
            for mode in range(len(MODES)):
                for chunk in (None, 1, 2, 3, 4, 7, 0.5, 0.25):
                    n += 1
                    for assign in (0, 1, 2):
                        if self.th or (n + 3 * assign) % 29 == 0:
                            out.append({"req": req, "mode": mode, "chunk": chunk, "assign": assign, "cap": cap})
        for req in ("table", "single", "chunky", "approx"):
            for mode in range(len(MODES)):
                for chunk in (None, 2):
                    n += 1
                    if self.th or n % 7 == 0:
                        out.append({"req": req, "mode": mode, "chunk": chunk, "faults": True})
        for req in ("table", "single"):
            for mode in range(len(MODES)):
                out.append({"req": req, "mode": mode, "chunk": 3, "memory": True})
        for a, b in itertools.product(("table", "approx", "single"), repeat=2):
            out.append({"again": [a, b]})
        out.append({"real": "table"})
        if self.th:
            out += [{"real": r} for r in ("single", "approx", "label")]
        return sorted(out, key=lambda c: 0 if "real" in c else 1)

    def kwargs(self, world, mode, chunk):
        n_jobs, opt = MODES[mode]
        kw = {"n_jobs": n_jobs}
        if opt == "empty":
            kw["dask_kwargs"] = {}
        elif opt == "memory":
            kw["dask_kwargs"] = {"memory_limit": 10 ** 9}
        elif opt == "auto":
            kw["dask_kwargs"] = {"memory_limit": "auto", "silence_logs": 50}
        elif opt == "port":
            kw["dask_kwargs"] = {"diagnostics_port": 8789, "processes": True}
        elif opt in ("cluster", "address"):
            world.own = Cluster(world, 2, 10 ** 12)
            world.named = {"tcp://here:1": world.own}
            kw["dask_kwargs"] = {"cluster": world.own if opt == "cluster" else "tcp://here:1"}
        if chunk is not None:
            kw["chunk_size"] = chunk
        return kw

    def baseline(self, req):
        import featuretools as ft
        if req not in self.serial:
            fs, ct, kw = self.request(req)
            self.serial[req] = frame(ft.calculate_feature_matrix(fs, self.es, cutoff_time=ct, **kw))
        return self.serial[req]

    def released(self, world):
        bad = []
        for c in world.clients:
            if not c.closed:
                bad.append("a client that the call created is not closed")
        for c in world.clusters:
            if not c.closed:
                bad.append("a cluster that the call created is not closed")
        if getattr(world, "own", None) is not None and world.own.closed:
            bad.append("the caller's cluster was closed")
        return bad

    def go(self, world, case, kw=None):
        import featuretools as ft
        fs, ct, rk = self.request(case["req"])
        kw = self.kwargs(world, case["mode"], case["chunk"]) if kw is None else kw
        given = repr(kw.get("dask_kwargs"))
        reports = []
        error = fm = None
        with installed(world):
            try:
                fm = ft.calculate_feature_matrix(fs, self.es, cutoff_time=ct, progress_callback=lambda *a: reports.append(a), **rk, **kw)
            except Exception as e:
                error = e
        bad = self.released(world)
        if repr(kw.get("dask_kwargs")) != given:
            bad.append("dask_kwargs changed from %s to %r" % (given, kw.get("dask_kwargs")))
        last = total = 0.0
        for u, p, t in reports:
            total += u
            if u < -1e-6 or p < last - 1e-6 or p > 100 + 1e-6 or abs(p - total) > 1e-6:
                bad.append("progress report %r after %r" % ((u, p), last))
            last = p
        if error is None and abs(last - 100) > 1e-6:
            bad.append("last progress report is %r" % (reports[-1:],))
        return fm, error, bad

    def run(self, case, st):
        if "real" in case:
            return self.real(case, st)
        if "again" in case:
            return self.again(case, st)
        base = self.baseline(case["req"])
        st.sample(case)
        out = []
        if case.get("memory"):
            world = World(memory=10)
            fm, error, bad = self.go(world, case)
            st.add("traces")
            if error is None:
                bad.append("workers too small for the entity set were accepted")
            return ["%r: %s" % (case, b) for b in bad[:2]]
        if case.get("faults"):
            probe = World(assign=1)
            fm, error, bad = self.go(probe, case)
            if error is not None or frame(fm) != base:
                return ["%r: %r instead of the serial matrix" % (case, error or frame(fm))]
            for name in FAULTS:
                for k in range(sum(1 for c in probe.calls if c == name)):
                    world = World(fault=[name, k], assign=1)
                    fm, error, bad = self.go(world, case)
                    st.seen("states", [case["req"], case["mode"], case["chunk"], name, k])
                    st.add("transitions")
                    st.add("traces")
                    if error is None:
                        bad.append("no error although %s %d failed; %s rows" % (name, k, len(fm)))
                    out += ["%r fault in call %d of %s: %s" % (case, k, name, b) for b in bad[:1]]
            return out[:3]
        # every schedule of the tasks this request is split into
        first = World(assign=case["assign"])
        fm, error, bad = self.go(first, case)
        n = first.tasks
        out += bad
        if error is not None:
            return ["%r: %s: %s" % (case, type(error).__name__, error)]
        if frame(fm) != base:
            out.append("in submission order the matrix is %s, serially %s" % diff(frame(fm), base))
        todo = self.parts.get(n)
        if todo is None or n > case["cap"]:
            # too many tasks for every partition: all rotations, the reverse, pairs and one batch
            todo = [[[(i + k) % n] for i in range(n)] for k in range(n)] + [[[i] for i in range(n)][::-1], [list(range(n))], [list(range(n))[::-1]],
                                                                           [list(range(n))[k:k + 2] for k in range(0, n, 2)][::-1]]
            st.add("requests_with_capped_schedules")
        elif not self.th and n == 4:
            todo = todo[(len(repr(case)) % 3)::3]
        for p in todo:
            world = World(schedule=lambda m: p, assign=case["assign"])
            fm, error, bad = self.go(world, case)
            st.add("traces")
            st.add("transitions", n)
            for k in range(len(p) + 1):
                st.seen("states", [case["req"], case["mode"], case["chunk"], case["assign"], p[:k]])
            if error is not None:
                bad.append("%s: %s" % (type(error).__name__, error))
            elif frame(fm) != base:
                bad.append("matrix is %s, serially %s" % diff(frame(fm), base))
            out += ["%r completed as %r: %s" % (case, p, b) for b in bad[:1]]
        return out[:3]

    def again(self, case, st):
        """two calculations on one persistent cluster"""
        a, b = case["again"]
        own = Cluster(None, 2, 10 ** 12)
        out = []
        for req in (a, b, a):
            world = World(assign=1)
            own.world = world
            world.own, world.named = own, {"tcp://x": own}
            fm, error, bad = self.go(world, {"req": req}, {"n_jobs": 2, "dask_kwargs": {"cluster": own}, "chunk_size": 3})
            st.add("traces")
            st.add("transitions", world.tasks)
            st.seen("states", [case, len(out)])
            if error is not None:
                bad.append(repr(error))
            elif frame(fm) != self.baseline(req):
                bad.append("matrix on a reused cluster is %s, serially %s" % diff(frame(fm), self.baseline(req)))
            out += ["%r: %s" % (case, x) for x in bad]
        return out[:2]

    def real(self, case, st):
        """conformance of the stand-in: the same request on real worker processes"""
        import subprocess
        import sys
        code = ("import sys; sys.path.insert(0, %r)\n"
                "from mc import core; core.setup_import()\n"
                "from mc.checks.p08 import CHECK as c, frame\n"
                "import featuretools as ft, json\n"
                "if __name__ == '__main__':\n"
                "    c.prepare('quick'); fs, ct, kw = c.request(%r)\n"
                "    fm = ft.calculate_feature_matrix(fs, c.es, cutoff_time=ct, n_jobs=2, chunk_size=2, **kw)\n"
                "    print('RESULT ' + json.dumps(frame(fm), default=str))\n") % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), case["real"])
        import json
        import tempfile
        d = tempfile.mkdtemp(prefix="p08")
        try:
            path = os.path.join(d, "real.py")
            with open(path, "w") as fh:
                fh.write(code)
            try:
                r = subprocess.run([sys.executable, path], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
            except subprocess.TimeoutExpired:
                st.add("real_runs_without_answer")
                return []
            line = [x for x in r.stdout.decode(errors="replace").splitlines() if x.startswith("RESULT ")]
            if not line:
                # the sandbox may not allow worker processes; the schedules above do not depend on it
                st.add("real_runs_without_answer")
                return []
            st.add("real_runs")
            got, want = json.loads(line[0][7:]), json.loads(json.dumps(self.baseline(case["real"]), default=str))
            if got != want:
                return ["on a real cluster the matrix is %s, serially %s" % diff(got, want)]
            return []
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)

    def finish(self, tier, counts, sets):
        return {}, ([] if counts.get("traces", 0) > 500 else ["only %d schedules" % counts.get("traces", 0)])


def diff(a, b):
    a, b = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%s..." % a[max(0, k - 80):k + 100], "...%s..." % b[max(0, k - 80):k + 100]


CHECK = P08()
