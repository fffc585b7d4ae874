#!/usr/bin/env python3
"""setst.py ID [statement|title] < text : edits the table in props.py (by hand; no check runs it)."""
import re,sys,json
id=sys.argv[1]; what=sys.argv[2] if len(sys.argv)>2 else "statement"
text=' '.join(sys.stdin.read().split())
p='/verif/tools/props.py'; L=open(p).read().split('\n')
for i,l in enumerate(L):
    if l.startswith('prop("%s"'%id):
        if what=="title": L[i]='prop("%s", %s,'%(id,json.dumps(text,ensure_ascii=False))
        else: L[i+1]=' %s,'%json.dumps(text,ensure_ascii=False)
open(p,'w').write('\n'.join(L))
