#!/usr/bin/env python3
"""tools/addfix.py PROP HASH-OR-SUBJECT-SUBSTRING [what]  -> KNOWN_FINDINGS.jsonl (run by hand)"""
import json, subprocess, sys
p, key = sys.argv[1], sys.argv[2]
for l in subprocess.run(['git', '-C', '/repo', 'log', '--oneline'], capture_output=True, text=True).stdout.splitlines():
    h, sub = l.split(' ', 1)
    if sub.startswith('fix:') and (key in sub or h.startswith(key)):
        w = sys.argv[3] if len(sys.argv) > 3 else sub[5:]
        open('/verif/KNOWN_FINDINGS.jsonl', 'a').write(json.dumps(
            {"status": "fixed", "property": p, "commit": h, "what": "fixed: property=%s %s %s" % (p, h, w)}) + '\n')
        print(h, w)
        break
else:
    sys.exit('no such fix')
