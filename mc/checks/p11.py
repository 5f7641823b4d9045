"""P11: saved progress at every crash point, torn write, failing step and interleaving of concurrent workers."""
import builtins
import csv
import itertools
import os
import resource
import shutil
import signal
import sys
import tempfile
import threading

from .. import calc, model, spaces
from ..core import Check
from .p02 import A, idf
from .p04 import D, T
from .p07 import SC
from . import p08

# the one audit hook of this process dispatches to whoever is watching
_WATCH = {"fn": None}
_INSTALLED = []


def watch(fn):
    if not _INSTALLED:
        sys.addaudithook(lambda ev, args: _WATCH["fn"](ev, args) if _WATCH["fn"] is not None else None)
        _INSTALLED.append(1)
    _WATCH["fn"] = fn


EVENTS = ("open", "os.rename", "os.mkdir", "os.remove", "os.rmdir", "shutil.rmtree", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile")


def fs_event(ev, args, root):
    return ev in EVENTS and any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(root) for a in args)


class Fails(Exception):
    pass


def read_files(root):
    """{name: rows} of every result file; a row is the tuple of its texts"""
    out = {}
    for name in sorted(os.listdir(root)):
        path = os.path.join(root, name)
        if os.path.isfile(path):
            with open(path, newline="") as fh:
                text = fh.read()
            out[name] = (text, [tuple(r) for r in csv.reader(text.splitlines())])
    return out


class P11(Check):
    id = "P11"
    level = "model_checking"
    technique = ("fault-injecting model checking of the implementation: process death before every file system event and after every number of written bytes, write errors at "
                 "every byte, failing calculation steps, and all interleavings of two workers at file system calls")
    rule = ("requests (several chunks per time, times twelve hours apart, numeric times, approximation, passed columns, single bins) x {kill before the k-th file system event, kill "
            "or error after b written bytes of any file, the k-th calculation step fails} for every k and b, and every interleaving of two concurrently running tasks at file "
            "system calls; the folder is checked after each. States are (request, fault point) pairs, transitions are file system events")
    assumptions = ("a kill keeps what the kernel was given (no power loss)", "at most 4 chunks per request")
    case_timeout = 300

    def prepare(self, tier):
        self.th = tier == "thorough"
        self.base = os.path.realpath(tempfile.gettempdir())

    REQS = ["hours", "chunks", "numeric", "approx", "label", "onebin", "sametime", "micro", "again"]

    def build(self, req):
        num = req == "numeric"
        w = spaces.tree_world(SC, depth=2, ti=("C",), tick=3600, time_kind="num" if num else "dt")
        es = model.to_es(w)
        ids = [r["id"] for r in w.tables["R"].rows]
        fs = model.to_features(es, w, [A("sum", [idf("C", "w")]), idf("R", "x"), A("mode", [idf("C", "c")])])
        kw = {}
        extra = None
        rows = [(ids[0], 1), (ids[1], 1), (ids[0], 13), (ids[1], 13), (ids[2], 2), (ids[3], 0)]
        if req in ("chunks", "sametime", "again"):
            rows = [(i, 2) for i in ids] + [("nobody", 2), (ids[0], 3)]
            kw["chunk_size"] = 2 if req != "sametime" else 1
        if req == "numeric":
            rows = [(ids[0], 1), (ids[1], 1), (ids[0], 2), (ids[3], 3)]
        if req == "micro":
            rows = [(ids[0], 1.0), (ids[0], 1.0 + 1e-3 / 3600), (ids[0], 1.0 + 1.0 / 3600), (ids[1], 1.0 + 1e-3 / 3600)]
        if req == "approx":
            fs = model.to_features(es, w, [D(A("sum", [idf("C", "w")]), 0), idf("C", "w"), T("negate", D(A("max", [idf("C", "w")]), 0))])
            rows = [(r["id"], k % 3) for k, r in enumerate(w.tables["C"].rows[:6])] + [(w.tables["C"].rows[0]["id"], 2)]
            rows = list(dict.fromkeys(rows))
            kw["approximate"] = "2h"
        if req == "onebin":
            fs = model.to_features(es, w, [D(A("sum", [idf("C", "w")]), 0), idf("C", "w")])
            rows = [(r["id"], k % 3) for k, r in enumerate(w.tables["C"].rows[:5])]
            kw["approximate"] = "1d"
        if req == "label":
            extra = {"label": list("abcdef")}
        return w, es, fs, rows, calc.cutoff_df(w, rows, extra=extra), kw

    def calc(self, root, req, **more):
        import featuretools as ft
        w, es, fs, rows, ct, kw = self.build(req)
        kw.update(more)
        return ft.calculate_feature_matrix(fs, es, cutoff_time=ct, save_progress=root, **kw)

    def cases(self, tier):
        out = []
        for req in self.REQS:
            out.append({"req": req, "kind": "complete"})
            if req == "again":
                continue
            for kind in ("kill", "bytes", "error", "step"):
                out.append({"req": req, "kind": kind})
        for req in ("hours", "sametime", "chunks", "micro"):
            for first in range(0, 2 if not self.th else 4):
                out.append({"req": req, "kind": "race", "pair": first})
            out.append({"req": req, "kind": "parallel"})
        return sorted(out, key=lambda c: c["kind"] != "race")

    # -- the folder

    def expected(self, req):
        """the rows of the matrix as texts, and the files of an undisturbed run"""
        root = tempfile.mkdtemp(prefix="p11", dir=self.base)
        try:
            fm = self.calc(root, req)
            return self.rows_of(fm, req), read_files(root), sorted(os.listdir(root))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def rows_of(self, fm, req):
        w, es, fs, rows, ct, kw = self.build(req)
        names = [n for f in fs for n in f.get_feature_names()]
        out = []
        for k, i in enumerate(fm.index):
            out.append((str(i),) + tuple(text(fm[n].iloc[k]) for n in names))
        return names, out

    def complete(self, req, files, matrix, listing, where):
        names, rows = matrix
        bad = []
        left = [n for n in listing if n not in files]
        if left:
            bad.append("%s: %r is left in the folder" % (where, left))
        got = []
        for name, (txt, rs) in files.items():
            if not rs or rs[0][1:] != tuple(names):
                bad.append("%s: file %s has header %r" % (where, name, rs[:1]))
            got += [(r[0],) + tuple(text(v) for v in r[1:]) for r in rs[1:]]
        if sorted(got, key=repr) != sorted(rows, key=repr):
            missing = [r for r in rows if r not in got]
            bad.append("%s: the files hold %d rows %r, the matrix %d; missing %r" % (where, len(got), sorted(got)[:4], len(rows), missing[:3]))
        return bad

    def torn(self, req, files, want, matrix, where):
        """every result file is one complete chunk of the undisturbed run"""
        whole = sorted(txt for txt, _ in want.values())
        bad = []
        for name, (txt, rs) in files.items():
            if txt not in whole:
                bad.append("%s: file %s is not a complete chunk: %r" % (where, name, txt[:200]))
        if len(set(t for t, _ in files.values())) == len(files) and len(files) > len(want):
            bad.append("%s: %d files, an undisturbed run has %d" % (where, len(files), len(want)))
        return bad

    def child(self, root, req, setup):
        """run the calculation in a child process that `setup` may kill"""
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                sys.stdout.flush = lambda: None
                setup(root)
                self.calc(root, req)
                code = 0
            except BaseException:
                code = 7
            finally:
                os._exit(code)
        return os.waitpid(pid, 0)[1]

    def run(self, case, st):
        req, kind = case["req"], case["kind"]
        st.sample(case)
        if kind == "race":
            return self.race(case, st)
        if kind == "parallel":
            return self.parallel(case, st)
        matrix, want, listing = self.expected(req)
        bad = self.complete(req, want, matrix, listing, "%s, undisturbed" % req)
        st.add("transitions", len(want))
        st.add("traces")
        st.seen("states", [req, "complete"])
        if bad or kind == "complete":
            if kind == "complete" and not bad:
                bad = self.completions(req, matrix, st)
            return bad[:3]
        if kind == "kill":
            k = 0
            while True:
                root = tempfile.mkdtemp(prefix="p11", dir=self.base)
                try:
                    def setup(root, k=k):
                        n = [0]

                        def hook(ev, args):
                            if fs_event(ev, args, root):
                                n[0] += 1
                                if n[0] > k:
                                    os._exit(9)
                        watch(hook)
                    status = self.child(root, req, setup)
                    st.add("transitions")
                    st.add("traces")
                    st.seen("states", [req, kind, k])
                    files = read_files(root)
                    bad += self.torn(req, files, want, matrix, "%s, killed before file system event %d" % (req, k))
                    if os.WEXITSTATUS(status) == 0 or bad or k > 400:
                        break
                finally:
                    shutil.rmtree(root, ignore_errors=True)
                k += 1
            if k < 4 and not bad:
                bad.append("%s: only %d file system events seen while saving" % (req, k))
        elif kind in ("bytes", "error"):
            longest = max(len(txt) for txt, _ in want.values())
            for b in range(0, longest + 1, 1 if self.th or kind == "bytes" else 3):
                root = tempfile.mkdtemp(prefix="p11", dir=self.base)
                try:
                    def setup(root, b=b):
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "bytes" else signal.SIG_IGN)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (b, resource.RLIM_INFINITY))
                    status = self.child(root, req, setup)
                    st.add("transitions")
                    st.add("traces")
                    st.seen("states", [req, kind, b])
                    files = read_files(root)
                    bad += self.torn(req, files, want, matrix, "%s, %s after %d bytes of a file" % (req, kind, b))
                    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 and b < longest:
                        bad.append("%s: success reported although files over %d bytes cannot be written" % (req, b))
                    if bad:
                        break
                finally:
                    shutil.rmtree(root, ignore_errors=True)
        elif kind == "step":
            from featuretools.computational_backends.feature_set_calculator import FeatureSetCalculator as F
            old = F.run
            k = 0
            while True:
                root = tempfile.mkdtemp(prefix="p11", dir=self.base)
                n = [0]

                def run(self_, *a, **kw):
                    n[0] += 1
                    if n[0] > k:
                        raise Fails("step %d" % k)
                    return old(self_, *a, **kw)
                error = None
                try:
                    F.run = run
                    try:
                        self.calc(root, req)
                    except Fails as e:
                        error = e
                    finally:
                        F.run = old
                    st.add("transitions")
                    st.add("traces")
                    st.seen("states", [req, kind, k])
                    files = read_files(root)
                    bad += self.torn(req, files, want, matrix, "%s, step %d fails" % (req, k))
                    if n[0] > k and error is None:
                        bad.append("%s: the failure of step %d was swallowed" % (req, k))
                    if error is None or bad:
                        break
                finally:
                    shutil.rmtree(root, ignore_errors=True)
                k += 1
        return bad[:3]

    def completions(self, req, matrix, st):
        """other ways to complete: chunk sizes, an existing folder of an earlier killed run, a second run"""
        bad = []
        for chunk in (1, 2, 3, 0.3, None):
            root = tempfile.mkdtemp(prefix="p11", dir=self.base)
            try:
                for times in range(2 if req == "again" else 1):
                    fm = self.calc(root, req, chunk_size=chunk)
                    st.add("traces")
                    st.add("transitions")
                    st.seen("states", [req, "complete", chunk, times])
                bad += self.complete(req, read_files(root), self.rows_of(fm, req), os.listdir(root), "%s with chunk size %r" % (req, chunk))
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return bad

    def parallel(self, case, st):
        """the controlled cluster of P08: every completion order of the tasks"""
        req = case["req"]
        out = []
        for n_jobs, chunk in ((2, 2), (3, 3), (2, None), (2, 1)):
            first = p08.World(assign=1)
            orders = [None]
            k = 0
            while k < len(orders) and k < (40 if self.th else 8):
                world = p08.World(schedule=(lambda m, p=orders[k]: p) if orders[k] else None, assign=1)
                root = tempfile.mkdtemp(prefix="p11", dir=self.base)
                try:
                    with p08.installed(world):
                        fm = self.calc(root, req, n_jobs=n_jobs, chunk_size=chunk)
                    st.add("traces")
                    st.add("transitions", world.tasks)
                    st.seen("states", [req, "parallel", n_jobs, chunk, k])
                    out += self.complete(req, read_files(root), self.rows_of(fm, req), os.listdir(root), "%s in parallel (%d workers, chunk %r)" % (req, n_jobs, chunk))
                finally:
                    shutil.rmtree(root, ignore_errors=True)
                if k == 0 and world.tasks <= 4:
                    orders += p08.partitions_sets(world.tasks)
                k += 1
        return out[:3]

    # -- two workers at once

    def race(self, case, st):
        """all interleavings of two tasks of one parallel calculation at their file system calls"""
        req = case["req"]
        matrix, want, _ = self.expected(req)
        out = []
        prefix = []
        runs = 0
        cap = 4000 if self.th else 150
        import featuretools  # noqa
        while prefix is not None and runs < cap:
            root = tempfile.mkdtemp(prefix="p11", dir=self.base)
            try:
                ctl = Controller(root, prefix)
                world = p08.World(assign=1)
                fm, error = None, None
                try:
                    with p08.installed(world), ctl.installed(case["pair"]):
                        fm = self.calc(root, req, n_jobs=2)
                except Exception as e:
                    error = e
                runs += 1
                st.add("traces")
                st.add("transitions", len(ctl.taken))
                for k in range(len(ctl.taken)):
                    st.seen("states", [req, case["pair"], ctl.taken[:k + 1]])
                sched = "".join(str(c) for c, _ in ctl.taken)
                if error is not None:
                    out.append("%s, tasks interleaved as %s: %s: %s" % (req, sched, type(error).__name__, error))
                else:
                    out += self.complete(req, read_files(root), self.rows_of(fm, req), os.listdir(root), "%s, tasks interleaved as %s" % (req, sched))
            finally:
                shutil.rmtree(root, ignore_errors=True)
            if out:
                break
            prefix = ctl.next()
        if prefix is not None and runs >= cap:
            st.add("races_capped")
        return out[:2]


def text(v):
    """one spelling for a value of the matrix and its text in a file"""
    v = model.norm(v) if not isinstance(v, str) else v
    if v is None or v == "":
        return ""
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return str(v)


class Controller(object):
    """runs two tasks in threads, one at a time, switching only at file system calls as the choice sequence says"""

    def __init__(self, root, prefix):
        self.root, self.prefix, self.taken = root, list(prefix), []
        self.turn = {}
        self.alive = []

    def next(self):
        t = self.taken
        while t:
            c, n = t[-1]
            if c + 1 < n:
                return [x for x, _ in t[:-1]] + [c + 1]
            t.pop()
        return None

    def choose(self):
        """which live task goes on"""
        n = len(self.alive)
        if n == 1:
            return self.alive[0]
        k = len(self.taken)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.taken.append((c, n))
        return self.alive[c]

    def point(self):
        me = getattr(threading.current_thread(), "task", None)
        if me is None:
            return
        nxt = self.choose()
        if nxt is not me:
            self.turn[nxt].release()
            self.turn[me].acquire()

    def finish(self, me):
        self.alive.remove(me)
        if self.alive:
            self.turn[self.choose()].release()

    def run_pair(self, futs):
        def body(f):
            me = f.key
            self.turn[me].acquire()
            try:
                f.state = f.run()
            except Exception as e:
                f.state = e
            finally:
                self.finish(me)
        self.alive = [f.key for f in futs]
        self.turn = {f.key: threading.Semaphore(0) for f in futs}
        ths = []
        for f in futs:
            t = threading.Thread(target=body, args=(f,))
            t.task = f.key
            t.daemon = True
            ths.append(t)
        for t in ths:
            t.start()
        self.turn[self.choose()].release()
        for t in ths:
            t.join(60)
            if t.is_alive():
                raise RuntimeError("deadlock between the tasks")

    def installed(self, pair):
        import contextlib
        ctl = self

        @contextlib.contextmanager
        def cm():
            old = p08.Completed.batches
            exists = os.path.exists

            def batches(c):
                fs = c.futures
                k = pair % max(1, len(fs) - 1)
                both = fs[k:k + 2]
                for f in fs:
                    if f not in both:
                        try:
                            f.state = f.run()
                        except Exception as e:
                            f.state = e
                ctl.run_pair(both)
                yield fs

            def hook(ev, args):
                if fs_event(ev, args, ctl.root):
                    ctl.point()

            def seen(path):
                r = exists(path)
                if isinstance(path, str) and path.startswith(ctl.root):
                    ctl.point()
                return r
            p08.Completed.batches = batches
            os.path.exists = seen
            watch(hook)
            try:
                yield
            finally:
                watch(None)
                os.path.exists = exists
                p08.Completed.batches = old
        return cm()


CHECK = P11()
