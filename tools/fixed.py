#!/usr/bin/env python3
"""Rewrites the 'fixed' entries of known_findings.jsonl from /repo's fix: commits (property and text come from the table below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [('sr_skip_char_limited', 'C01'), ('Python traceback that ends', 'C06'), ('empty Java exception message', 'C07'), ('suppressed Java exception', 'C07'), ('gdb function name that ends', 'C03'),
 ("ends right after '('", 'C03'), ('missing gdb function name', 'C03'), ('compare integer fields', 'C10'), ('all frames of Java threads', 'C11'), ('duplicate of a core stacktrace', 'C12'), ('creating a core stacktrace', 'C40')]
PROP += [tuple(l.rstrip('\n').split('\t')) for l in open(os.path.join(V, 'tools', 'fixed.tsv'))] if os.path.exists(os.path.join(V, 'tools', 'fixed.tsv')) else []
kf = os.path.join(V, 'known_findings.jsonl')
old = [json.loads(l) for l in open(kf)] if os.path.exists(kf) else []
out = [k for k in old if k.get('status') == 'known']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    m = [p for t, p in PROP if t in s]
    if not m: print('no property for', l); continue
    out.append(dict(status='fixed', property=m[0], commit=h, what=s[5:], line='fixed: property=%s %s %s' % (m[0], h, s[5:])))
open(kf, 'w').writelines(json.dumps(k) + '\n' for k in out); print(len(out), 'entries')
