#!/bin/bash
# usage: tools/mut.sh PROP FILE(relative to lib/b_asic) 'python-regex' 'replacement' [count-index]
# Runs the check of PROP against a scratch copy of /repo with one textual change (sanity test of the engine).
D=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/lib $D/lib
python3 - "$D/lib/b_asic/$2" "$3" "$4" "${5:-0}" <<'P' || { rm -rf "$D"; exit 9; }
import re,sys
f,p,r,n=sys.argv[1:5]; n=int(n)
s=open(f).read(); ms=list(re.finditer(p,s))
if len(ms)<=n: print("NO MATCH"); sys.exit(1)
m=ms[n]; s=s[:m.start()]+m.expand(r)+s[m.end():]; open(f,'w').write(s)
l=s[:m.start()].count('\n'); print('MUT', f.split('/')[-1], l+1, s.split('\n')[l].strip())
P
cd "$(dirname "$0")/.." && PV_REPO=$D ./run.sh $1 | cut -c1-400 | grep -v "^ *also"; rm -rf "$D"
