#!/bin/bash
# author's helper: run the oracle of one property: orc.sh C02 [budget] [seed]
cd /verif; out=$(mktemp)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${REPO:-/repo}:/verif /opt/venv/bin/python oracle/run_oracle.py $1 ${3:-1} ${2:-15} 8 $out
python3 - $out <<'PY'
import json,sys
d=json.load(open(sys.argv[1])); print({k:d[k] for k in('evaluations','distinct','fixed','wall')})
for b in d['bad'][:4]: print('BAD',b['msg'][:300],json.dumps(b['case'])[:400])
for e in d['err'][:2]: print('ERR',e[-1500:])
PY
rm $out
