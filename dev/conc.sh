#!/bin/bash
# dev helper: run the run-time contract of one property
cd /verif
export PYTHONDONTWRITEBYTECODE=1 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 PYTHONPATH=/verif PYTHONHASHSEED=0
/opt/venv/bin/python -m pyvc.concrun $1 ${2:-quick} ${3:-1} /tmp/conc_$1.json ${4:-60} > /tmp/conc_$1.log 2>&1
tail -3 /tmp/conc_$1.log
python3 - $1 <<'P'
import json,sys
d=json.load(open('/tmp/conc_%s.json'%sys.argv[1]))
print(d['evaluations'],'skipped',d['skipped'],d['skip_reasons'],d['kinds'],'wall',d['wall_s'],d['error'] or '', 'TRUNC' if d.get('truncated') else '', 'known',len(d['known']))
for v in d['violations'][:6]: print(' V',str(v)[:900])
P
