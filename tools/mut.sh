#!/bin/bash
# mut.sh PROP 'python-expr replacing s' file
cd /repo; f=${3:-htmltools/_core.py}
python3 - "$f" "$2" <<'P'
import sys
f,code=sys.argv[1:]
s=open(f).read(); o=s
ns={'s':s}; exec(code,ns); s=ns['s']
assert s!=o,'no change'
open(f,'w').write(s)
P
[ $? = 0 ] || exit 9
bash /opt/vp/test.sh /tmp/mt.json | tail -1
cd /verif; for p in ${1//,/ }; do ./check $p quick 2>&1 | tail -${T:-25} | cut -c1-400; done
git -C /repo checkout -q -- .
