#!/bin/bash
# mut.sh "python expr file|old|new" ids...
spec=$1; shift
python3 - "$spec" <<'P' || exit 3
import sys
f,o,n=sys.argv[1].split('@@')
p='/repo/'+f; s=open(p).read()
o=o.replace('\\n','\n').replace('\\t','\t'); n=n.replace('\\n','\n').replace('\\t','\t')
assert s.count(o)>=1,("not found",o)
s=s.replace(o,n,1); open(p,'w').write(s)
P
bash /tmp/t.sh | head -1
for i in "$@"; do echo "== $i"; timeout 300 bash /verif/check.sh $i | head -3 | cut -c1-400; done
git -C /repo checkout -- .
