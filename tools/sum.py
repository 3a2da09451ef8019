#!/usr/bin/env python3
"""Summarise the output of dev.sh: first violation of each key, case numbers per key."""
import sys, re
n = {}
w = int(sys.argv[1]) if len(sys.argv) > 1 else 900
for l in sys.stdin:
    m = re.search(r'"case":(\d+),"key":"([^"]*)"', l)
    if m:
        k = m.group(2)
        n.setdefault(k, []).append(m.group(1))
        if len(n[k]) <= 1:
            print(l[:w].replace("\\u000a", "\n  "))
    else:
        print(l.rstrip()[:700])
print({k: v[:14] for k, v in n.items()})
