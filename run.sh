#!/bin/bash
# dev helper: run the symbolic worker of one property and print a summary
cd /verif
export PYTHONDONTWRITEBYTECODE=1 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 PYTHONHASHSEED=0 PYTHONPATH=/verif
/opt/venv/bin/python -m pyvc.symrun $1 ${2:-quick} /tmp/sym_$1.json > /tmp/sym_$1.log 2>&1
tail -5 /tmp/sym_$1.log
python3 - $1 <<'P'
import json,sys
d=json.load(open('/tmp/sym_%s.json'%sys.argv[1]))
if d['error']: print('ERROR',d['error'])
for k,v in d['units'].items(): print('UNIT',k,v['status'],'paths',v.get('paths'),'ob',v.get('obligations'),'t',v.get('wall_s'),v.get('reason','')[:1500])
for o in d['obligations']:
    print('  %-10s %5d %s | %s %s'%(o['status'],o['instances'],','.join(o['backend']),o['unit'][:30],o['label']), (str(o['model'])[:500]+' '+o['reason'][:700]) if o['status']!='discharged' else '')
P
