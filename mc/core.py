"""Exploration runner: deterministic enumeration sharded over processes, counting, replay, evidence."""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")     # development aid: explore a scratch copy instead


def setup_import():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import featuretools as ft
    got = os.path.dirname(os.path.dirname(os.path.abspath(ft.__file__)))
    if got != os.path.abspath(REPO):
        raise SystemExit("harness error: featuretools imported from %s, not %s" % (got, REPO))
    warnings.filterwarnings("ignore")
    return ft


def h64(x):
    if not isinstance(x, (str, bytes)):
        x = json.dumps(x, sort_keys=True, default=str)
    if isinstance(x, str):
        x = x.encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


class Stats(object):
    """Counters of one worker; merged by the runner."""

    def __init__(self):
        self.counts = {}
        self.sets = {}
        self.samples = []

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, key):
        """Record a member of the named set of distinct things; returns True if new in this worker."""
        s = self.sets.setdefault(name, set())
        k = h64(key)
        if k in s:
            return False
        s.add(k)
        return True

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)


class Problem(object):
    """One broken expectation. `key` identifies the failing input/site for known-findings matching."""

    def __init__(self, msg, key=None, case=None):
        self.msg = msg
        self.key = key
        self.case = case


class Check(object):
    id = None
    level = "exploration"
    rule = ""
    technique = "bounded exhaustive exploration of the implementation: every world of a finite space, each result compared with a reference model"
    assumptions = ()
    # wall-clock budget after which a run stops enumerating and reports itself as capped
    budget = {"quick": 420, "thorough": 840}
    isolate = False      # True: the check runs its cases in this process only (it manages its own workers)
    max_violations = 3   # per worker
    case_timeout = 200   # seconds; a case that takes longer counts as not terminating

    def prepare(self, tier):
        """Called once in the parent, after import of featuretools and before forking."""

    def cases(self, tier):
        """Yield JSON-able cases, simplest first, deterministically."""
        raise NotImplementedError

    def run(self, case, st):
        """Run one case on the real code; return a list of Problem (or strings)."""
        raise NotImplementedError

    def finish(self, tier, counts, sets):
        """Extra coverage entries and vacuity problems (list of strings)."""
        return {}, []


def _norm(ps, case):
    out = []
    for p in ps or []:
        if not isinstance(p, Problem):
            p = Problem(str(p))
        if p.case is None:
            p.case = case
        out.append(p)
    return out


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("the calls of this case did not terminate in time")


def run_case(check, case, st):
    import signal
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, check.case_timeout)
    try:
        return _norm(check.run(case, st), case)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        return [Problem("unexpected %s: %s" % (type(e).__name__, str(e)[:300]), key="exception:" + type(e).__name__, case=case), ] \
            if not os.environ.get("VERIF_DEBUG") else [Problem(tb, key="exception:" + type(e).__name__, case=case)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(check, tier, i, n, deadline, known, q, turn=None):
    st = Stats()
    problems = []
    known_hit = {}
    capped = False
    try:
        done = 0
        claimed = None      # every worker enumerates all cases and runs those whose turn it drew
        for idx, case in enumerate(check.cases(tier)):
            if turn is None:
                mine = True
            elif claimed is None or idx > claimed:
                with turn.get_lock():
                    claimed = turn.value
                    turn.value += 1
                mine = idx == claimed
            else:
                mine = idx == claimed
            if not mine:
                continue
            if time.time() > deadline:
                capped = True
                break
            for p in run_case(check, case, st):
                kf = match_known(known, p)
                if kf is not None:
                    known_hit[kf] = known_hit.get(kf, 0) + 1
                else:
                    problems.append((p.msg, p.key, p.case, idx))
            done += 1
            if len(problems) >= check.max_violations:
                break
        st.add("cases", done)
        q.put((i, st.counts, st.sets, st.samples, problems, known_hit, capped, None))
    except BaseException:
        q.put((i, st.counts, st.sets, st.samples, problems, known_hit, capped, traceback.format_exc()))


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def match_known(known, p):
    for i, k in enumerate(known):
        if p.key is not None and p.key in k["keys"]:
            return i
    return None


def explore(check, tier, seed):
    t0 = time.time()
    try:
        check.prepare(tier)
    except Exception as e:
        # preparation only uses the library the way every case does
        msg = "unexpected %s while preparing: %s" % (type(e).__name__, str(e)[:300])
        return dict(counts={}, sets={}, samples=[], problems=[(msg, None, None, 0)], known=[], known_hit={}, capped=True, errors=[],
                    wall=time.time() - t0, nproc=0)
    deadline = t0 + float(os.environ.get("VERIF_BUDGET", check.budget[tier]))
    known = load_known(check.id)
    nproc = 1 if check.isolate else int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    counts, sets, samples, problems, known_hit = {}, {}, [], [], {}
    capped = False
    errors = []
    if nproc == 1:
        import queue
        q = queue.Queue()
        _worker(check, tier, 0, 1, deadline, known, q)
        results = [q.get()]
    else:
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        turn = ctx.Value("q", 0)
        procs = [ctx.Process(target=_worker, args=(check, tier, i, nproc, deadline, known, q, turn)) for i in range(nproc)]
        for p in procs:
            p.start()
        results = []
        while len(results) < nproc:
            try:
                results.append(q.get(timeout=5))
            except Exception:
                # a worker that died (killed, crashed) without reporting
                dead = [k for k, p in enumerate(procs) if not p.is_alive() and k not in [r[0] for r in results]]
                if dead:
                    time.sleep(1)
                    try:
                        while True:
                            results.append(q.get(timeout=1))
                    except Exception:
                        pass
                    for k in dead:
                        if k not in [r[0] for r in results]:
                            errors.append("worker %d died (exit code %s)" % (k, procs[k].exitcode))
                            results.append((k, {}, {}, [], [], {}, True, None))
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.terminate()
    for (i, c, s, sa, pr, kh, cap, err) in sorted(results, key=lambda r: r[0]):
        for k, v in c.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in s.items():
            sets.setdefault(k, set()).update(v)
        samples.extend(sa)
        problems.extend(pr)
        for k, v in kh.items():
            known_hit[k] = known_hit.get(k, 0) + v
        capped = capped or cap
        if err:
            errors.append(err)
    problems.sort(key=lambda p: p[3])
    return dict(counts=counts, sets=sets, samples=samples, problems=problems, known=known, known_hit=known_hit,
                capped=capped, errors=errors, wall=time.time() - t0, nproc=nproc)


def write_evidence(check, tier, seed, r, extra):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    c = r["counts"]
    cov = {}
    if check.level == "model_checking":
        cov["states"] = len(r["sets"].get("states", ()))
        cov["transitions"] = c.get("transitions", 0)
        cov["traces_validated_against_impl"] = c.get("traces", 0)
    else:
        cov["evaluations"] = c.get("evaluations", 0)
        cov["distinct_nontrivial"] = len(r["sets"].get("nontrivial", ()))
    cov["rule"] = check.rule
    cov["samples"] = r["samples"][:6]
    cov["exhaustive"] = bool(not r["capped"] and not r["problems"])
    cov["cases"] = c.get("cases", 0)
    for k, v in sorted(c.items()):
        if k not in ("cases", "evaluations", "transitions", "traces"):
            cov.setdefault("n_" + k, v)
    for k, v in sorted(r["sets"].items()):
        if k not in ("states", "nontrivial"):
            cov.setdefault("distinct_" + k, len(v))
    if r["capped"]:
        cov["capped"] = "time budget reached; every case before the cap was explored in enumeration order"
    cov.update(extra)
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(r["wall"], 2), "violations": len(r["problems"])}
    path = os.path.join(ROOT, "evidence", check.id + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(path + ".tmp", path)
    return ev


def main(check, tier, seed, replay=None):
    setup_import()
    if replay:
        with open(replay) as fh:
            data = json.load(fh)
        check.prepare(data.get("tier", tier))
        if data["case"] is None:
            print("replay: preparation succeeds on this tree")
            return 0
        st = Stats()
        ps = run_case(check, data["case"], st)
        for p in ps:
            print("REPLAYED:", p.msg)
        if not ps:
            print("replay: no problem on this tree")
        return 1 if ps else 0
    r = explore(check, tier, seed)
    extra, vac = ({}, [])
    if not r["problems"] and not r["errors"]:
        extra, vac = check.finish(tier, r["counts"], r["sets"])
    ev = write_evidence(check, tier, seed, r, extra)
    for k, n in sorted(r["known_hit"].items()):
        print("KNOWN-FINDING: property=%s %s" % (check.id, r["known"][k]["what"]))
    rc = 0
    if r["problems"]:
        os.makedirs(os.path.join(ROOT, "out", check.id), exist_ok=True)
        for n, (msg, key, case, idx) in enumerate(r["problems"][:5]):
            path = os.path.join(ROOT, "out", check.id, "violation-%d.json" % n)
            with open(path, "w") as fh:
                json.dump({"property": check.id, "tier": tier, "case": case, "problem": msg, "key": key,
                           "how": "bin/check %s --replay %s" % (check.id, path)}, fh, indent=1, default=str)
            print("PROBLEM:", msg[:1500])
            print("VIOLATION property=%s replay=%s" % (check.id, path))
        rc = 1
    elif r["errors"]:
        for e in r["errors"]:
            print("HARNESS ERROR:", e)
        rc = 2
    elif vac:
        for e in vac:
            print("HARNESS ERROR (vacuous exploration):", e)
        rc = 2
    cov = ev["coverage"]
    brief = {k: v for k, v in cov.items() if isinstance(v, (int, bool)) and k != "samples"}
    print("%s %s: rc=%d wall=%.1fs %s" % (check.id, tier, rc, r["wall"], json.dumps(brief)))
    sys.stdout.flush()
    return rc
