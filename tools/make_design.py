#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below, and per property what the check itself states, the defects it found and the planted bugs."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HEAD = """# Model checking Featuretools

Generated by `tools/make_design.py` (which holds the hand-written parts) from the checks, `properties.jsonl`, `known_findings.json`
and `seeded/`.

## Approach

Featuretools is mostly a sequential Python library, so the executions to be explored are *calls*: data histories, operation
sequences, option combinations and feature programs, plus the places with a real environment: the parallel scheduler, the file system
while progress is saved, partitions of out-of-core tables, and per-process hash order.  Every check is a stateless or explicit-state
exploration **of the real code in /repo**: a driver enumerates *every* element of a stated finite space (an alphabet up to a bound, with
a deterministic order and no sampling), runs the real public calls on it, and an oracle decides each execution.  No model is checked
in place of the code, so there is no abstraction to keep bound to it; where a stand-in replaces a third-party seam (the cluster of P08, the file
system calls of P11), the stand-in itself is validated against the real one, and the number of validated traces is reported.

Oracles are of four kinds:

* a *reference model* in pure Python (`mc/model.py`: tables as lists of dicts, features as small trees, `None` for missing), evaluated
  row by row without pandas;
* *two-run properties*: the same row computed from two histories, requests or schedules must be identical;
* *state invariants* and transition oracles checked in every state of a breadth-first search over operation sequences;
* *round trips and differentials*: saved and loaded, in one call and in steps, partitioned and in memory.

No solver and no symbolic execution takes part.  A case that exceeds its time limit or raises where the model has a value counts as a violation.

### Machinery

* `bin/check PID [--tier thorough] [--replay FILE]` runs one check from the working tree of /repo (pure Python, imported directly, no build needed;
  `VERIF_REPO` points it elsewhere for development).  Exit 0 / 1, `VIOLATION property=PID replay=...`, `KNOWN-FINDING: ...`.
* `mc/core.py`: enumeration sharded deterministically over 8 processes, deduplication of states by 64-bit fingerprints, counting, replay artefacts
  (the case as JSON: `--replay` runs exactly that case), known findings matched by key, evidence.  A check has a wall-clock budget (420 s quick, 840 s thorough);
  if it ends first the evidence says `exhaustive: false`.  Cases are ordered simplest first so that counterexamples are small.
* `mc/spaces.py`, `mc/model.py`, `mc/calc.py`: worlds (small histories over chains, trees and diamonds of entities), the reference evaluator and the
  comparison of a whole feature matrix with it.  `mc/prims.py`: made primitives with trivial definitions, so that the calculation machinery and the standard primitives are judged separately.
* `mc/esops.py`: operations on entity sets and normalised snapshots; `mc/dfsops.py`: schemas and what a synthesised feature is made of (read from its inputs, not its name).
* Each check has a vacuity floor: it fails if it explored fewer distinct non-trivial executions than it must on any tree, so a check cannot turn silent.

### What "small" covers

Bounds are on the size of the data (2-4 rows per entity, 2-3 entities, 3-5 points in time including equal ones, alphabets of 2-4 values including missing ones), the
length of operation sequences (2-3, thorough up to 4), and the sizes of requests.  The defects found here, and those planted, all need only such small inputs in the right
constellation, which is what enumeration guarantees and fixtures do not.

### Hooks

None.  The checks use public calls and replace third-party seams (`distributed`, file system calls) in their own processes at run time.
"""

# property -> (how it is decided, against what oracle; why it reaches what tests cannot)
NOTES = {
"P01": "Two-run: a world is calculated, then every possible future (rows after the cutoff removed, altered, moved, added; secondary values not yet known altered) is put in its place and all rows of earlier cutoffs must be bit-identical. No reference values are needed, so every feature kind and option can take part.",
"P02": "Each world is a full assignment of links, times and values; every aggregation (count, sum, mode, last, several outputs, several inputs...) through every path is compared with the reference evaluator. Reaches missing links, empty groups, descendants in any order, two relationships between a pair, unknown instances.",
"P03": "As P02 with every condition and window; every pair of features is calculated together because filtering is shared by groups of features (the defects found were exactly there).",
"P04": "Every pair of stacked features in both orders of depth; the oracle evaluates each feature alone, so any interference between features calculated together (shared frames, recalculation on filtered data) shows.",
"P05": "Interval semantics on every combination of unit, boundary and inclusion, with month/year windows on calendar boundary dates, against an independent calendar in plain Python.",
"P06": "Masking of governed columns against the model for each pair of times, through identity, transform, aggregation and direct features.",
"P07": "Differential: every composition of a request against single-pair requests; additionally every standard primitive over features of every variable type where whole batches have missing values.",
"P08": "The distributed client is replaced by a controlled one whose completion order, batching, worker assignment and faults are enumerated exhaustively; the result must equal the sequential one or fail without a wrong matrix. The controlled client is replayed against a real LocalCluster (`traces_validated_against_impl`).",
"P09": "All spellings of one request must give the same matrix; the row set is also compared with the model.",
"P10": "The reference evaluator with binned times for exactly those aggregations the documentation says are approximated, exact for the rest.",
"P11": "Every crash point: process death before each file system event and after each number of written bytes, write errors at each byte, failing calculation steps, and all interleavings of two workers at file system calls. Whatever is on disk must be complete rows with right values.",
"P12": "A monitor on every progress report of every explored calculation (sequential and partitioned): nondecreasing, consistent, ends at 100.",
"P13": "Explicit-state search over call sequences; after each call the fingerprint of everything the caller owns must be unchanged: the state space must have exactly one state.",
"P14": "Reference computation of last times over all descendants, before and after data updates in every order.",
"P15": "BFS over operation sequences (add entities, relationships, normalize, convert, update, concat, delete...); every transition is compared with a table model, and refusals must leave the state unchanged.",
"P16": "BFS with metadata reads at every position; the metadata of each state must equal a fresh description.",
"P17": "Split and rejoined tables against the model: nothing lost, no value changed.",
"P18": "Concatenation of all pairs of splits against the union in the model.",
"P19": "Round trips through every format and container and every type with hard values (NaN in tuples, precision, time zones of day, categories).",
"P20": "Round trip of features: definition trees compared structurally, values calculated from the loaded features compared with the originals; schema versions; several entity sets.",
"P21": "Every schema, target and option: well-formedness of each feature, options filter exactly the features they name, completeness of one-primitive combinations.",
"P22": "Two-run over hash seeds, list orders and option spellings: the same list in the same order.",
"P23": "Each option alone and pairwise: the result is the unrestricted synthesis filtered by an independent reading of the documentation.",
"P24": "Encoded matrix compared with the definition, then the encoded features recalculated from the data.",
"P25": "Definition of each selection computed independently from the cells.",
"P26": "Time spans over all spellings; arithmetic against an independent calendar.",
"P27": "Independent path enumeration on every small multigraph.",
"P28": "Independent implementation of every documented function in plain Python over every column.",
"P29": "Same for transforms, with row alignment over every order of rows.",
"P30": "Each placement of rows in partitions (in time order) against the same request in memory.",
"P31": "The series is computed from its definition.",
"P32": "Every pair of a family in which each member differs in exactly one aspect.",
"P33": "The documented stacking rules evaluated independently for every combination; made primitives against the plain function.",
"P34": "Every question to one entity against filtering the rows of the model one by one.",
"P35": "The thresholds and order computed from the counts; ties are open.",
"P36": "Expression trees evaluated in Python on each row.",
"P37": "Differential between one call and its parts; the report of unused primitives is computed from the tree of each returned feature.",
"P38": "Interpretation of declared types, inferred types and conversions against the column in the caller's table.",
}

TAIL = """
## Known findings (recorded, not repaired)

%(findings)s

## Repaired defects

Each is one `fix:` commit in /repo, found by the named check on the tree before it; the check reports it again if it returns (recorded in `known_findings.json`, where these entries suppress nothing).

%(fixed)s

## Planted bugs

Each was written from the property and the code, passes the stable tests, and has a demonstration (`seeded/<id>/`).

| planted bug | property | needs | caught by |
|---|---|---|---|
%(seeds)s

Besides these, a few hundred smaller mutations of the code behind each property (conditions, boundaries, dropped arguments, swapped order) were run against the checks while they were built;
those that survived led to the strengthened spaces (features calculated in pairs, wide tables, both row orders, stale last times, two unrelated options together) or were found equivalent.

## False alarms and corrections

While the checks grew, some alarms turned out to be the check's: comparison of missing with present values where the documentation says nothing (now "open" values, not compared),
ties between equally frequent values, order of equal times among different parents, the present moment in an index (two calls at two moments), requests for which no instance is visible (refused by
the code with an assertion; both sides must refuse), duplicate names of two different features in one synthesis (only the first is made), and pandas behaviour of duplicate instance ids with a single cutoff (unsupported).
In each case the property text or the space was corrected; none is listed as a finding.

## Assumptions and what is not covered

* Koalas is not installed; only the pandas and Dask (0.24-compatible, query planning off) implementations are explored.  pyarrow's parquet engine is unusable here; parquet goes through fastparquet.
* S3 and URL reading need a network and are outside.
* Not specified, hence not compared: which of equally frequent values a mode gives, values of comparisons with missing operands, division by zero, percentile ties, a missing id of a split-off entity,
  a primitive's own `where` condition under its options, keys of group-bys across paths.
* Cyclic relationship graphs make `add_last_time_indexes` run forever; entity sets with cycles are not generated there.
* `created_index` is not restored on load; arguments of made primitives are not part of their names nor saved: not claimed by any property.
* The docstring of `dfs` still offers `chunk_size="cutoff time"`, which the calculation no longer has; not judged.
"""


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    seeds = []
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        seeds.append((os.path.basename(os.path.dirname(d)), m))
    out = [HEAD, "\n## Properties\n"]
    for p in props:
        pid = p["id"]
        c = importlib.import_module("mc.checks." + pid.lower()).CHECK
        out.append("### %s — %s\n" % (pid, p["title"]))
        out.append(p["statement"] + "\n")
        out.append("*Decided by* %s. %s\n" % (c.technique, NOTES[pid]))
        out.append("*Space (quick; thorough where marked).* %s.\n" % c.rule)
        out.append("*Assumes* %s.\n" % ("; ".join(c.assumptions) or "nothing further"))
        out.append("*Beyond the tests:* %s *Cost:* %s\n" % (p["why_tests_cant"], COST.get(pid, "about a minute on 8 cores")))
        n = sum(1 for f in known["fixed"] if f.startswith("fixed: property=%s " % pid))
        mine = [s for s, m in seeds if m["property"] == pid]
        bits = []
        if n:
            bits.append("%d defect%s found and repaired" % (n, "s" if n > 1 else ""))
        k = [x for f in known["findings"] if f["property"] == pid for x in f["keys"]]
        if k:
            bits.append("known finding" + ("s " if len(k) > 1 else " ") + ", ".join(k))
        if mine:
            bits.append("planted: " + ", ".join(mine))
        if bits:
            out.append("*Outcome:* %s.\n" % "; ".join(bits))
    body = "\n".join(out)
    body += TAIL % {
        "findings": "\n".join("* **%s** (%s): %s." % (f["property"], ", ".join(f["keys"]), f["what"]) for f in known["findings"]),
        "fixed": "\n".join("* " + f[len("fixed: property="):] for f in known["fixed"]),
        "seeds": "\n".join("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/").replace("\n", " "), m.get("caught_by", m["property"])) for s, m in seeds)}
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(body)
    print(len(props), "properties,", len(body), "characters")


COST = {}
if __name__ == "__main__":
    for f in glob.glob(os.path.join(ROOT, "evidence", "P*.json")):
        try:
            d = json.load(open(f))
        except ValueError:
            continue
        if d["tier"] == "quick" and d["coverage"].get("exhaustive"):
            COST[d["property"]] = "about %d s on 8 cores (quick)." % max(5, round(d["wall_s"] / 5.0) * 5)
    main()
