#!/bin/bash
# strip comments + blank lines
python3 - "$@" <<'P'
import re,sys
for f in sys.argv[1:]:
    s=open(f,errors='replace').read()
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S)
    s='\n'.join(l.rstrip() for l in s.split('\n') if l.strip())
    print('//////',f); print(s)
P
