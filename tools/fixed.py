#!/usr/bin/env python3
"""Writes the "fixed" list of known_findings.json (entries suppress nothing) from the fix: commits and the property each was found by."""
import json, os, subprocess, sys
PROPS = ("P03 P03 P03 P04 P04 P14 P14 P14 P19 P13 P03 P01 P10 P09 P10 P13 P08 P08 P11 P15 P15 P15 P15 P15 P15 P15 P16 P27 P25 P25 P26 P26 "
         "P17 P17 P17 P17 P19 P19 P19 P19 P19 P32 P32 P32 P18 P19 P19 P20 P20 P20 P20 P21 P21 P21 P22 P21 P23 P24 P28 P28 P29 P30 P30 P33 P35 P07 P37").split()
PROPS += [p for p in sys.argv[1:]]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s", "80b77c3..HEAD"],
                     capture_output=True, text=True, check=True).stdout.splitlines()
fixes = [line.split(" ", 1) for line in log]
assert len(fixes) == len(PROPS) and all(s.startswith("fix: ") for _, s in fixes), (len(fixes), len(PROPS))
path = os.path.join(here, "known_findings.json")
d = json.load(open(path))
d["fixed"] = ["fixed: property=%s %s %s" % (p, h, s[5:]) for p, (h, s) in zip(PROPS, fixes)]
json.dump(d, open(path, "w"), indent=1)
print(len(fixes), "fixed")
