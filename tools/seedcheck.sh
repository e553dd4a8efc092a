#!/bin/bash
# tools/seedcheck.sh ID [PROPERTY...]: run checks on a scratch copy with the planted bug applied
id=$1; shift
S=/tmp/seedscan; [ -d $S/repo ] || { mkdir -p $S; cp -a /repo $S/repo; }
cd $S/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git apply /verif/seeded/$id/patch.diff || exit 1
p=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
python3 /verif/tools/scan.py $S/repo $S/build $p 2>/dev/null | python3 -c "
import json,sys
for p,r in json.load(sys.stdin).items():
    if p=='build': print('$id DOES NOT BUILD'); continue
    print('$id', p, 'CAUGHT' if r['n']['NE'] else 'missed', r['n'], r['stopped'] or '', str(r['t'])+'s', ' '.join(str(x)[:int('${W:-200}')] for x in r['bad'][:2]))"
git checkout -q -f .
