#!/bin/bash
# development aid: re-run the recorded violations of a check with full tracebacks
cd /verif; . /tmp/w/env.sh
for f in out/$1/violation-*.json; do /opt/venv/bin/python -c "import json;print(json.load(open('$f'))['case'])"; /opt/venv/bin/python /tmp/w/rep.py $1 $f 2>&1 | tail -${2:-7}; done
