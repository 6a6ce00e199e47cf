#!/usr/bin/env python3
"""tools/seedtest.py SEED... [--nocheck] [--checks C01,C02] : confirms planted bugs in a scratch copy bind-mounted over /repo in a
private mount namespace: builds, stable tests pass, demo passes clean and fails patched, and which checks report it."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def ns(d, cmd, t=1200):
    return run(['unshare', '-m', 'sh', '-c', 'mount --make-rprivate / && mount --bind %s /repo && cd /repo && %s' % (d, cmd)], timeout=t)
def main():
    a = sys.argv[1:]; check = '--nocheck' not in a; extra = []
    if '--checks' in a: i = a.index('--checks'); extra = a[i + 1].split(','); del a[i:i + 2]
    a = [x for x in a if not x.startswith('--')]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in a:
        sd = os.path.join(V, 'seeded', s); meta = json.load(open(os.path.join(sd, 'meta.json'))); d = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); w = os.path.join(d, 'repo')
        try:
            run(['cp', '-a', '/repo', w]); demo = os.path.join(d, 'demo'); shutil.copytree(sd, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            r = ns(w, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % demo); ok0 = r.returncode == 0
            if not ok0: print(s, 'DEMO FAILS CLEAN:', r.stdout.decode()[-600:])
            r = run(['git', '-C', w, 'apply', os.path.join(sd, 'patch.diff')])
            if r.returncode: print(s, 'PATCH DOES NOT APPLY', r.stdout.decode()); continue
            r = ns(w, 'bash /opt/vp/test.sh %s/o.json' % d)
            o = json.load(open(d + '/o.json')); miss = stable - set(o['passed'])
            if miss: print(s, 'TESTS FAIL', sorted(miss)[:5], r.stdout.decode()[-500:] if len(miss) > 50 else '')
            r = ns(w, 'bash %s/demo.sh' % demo); ok1 = r.returncode != 0
            if not ok1: print(s, 'DEMO PASSES PATCHED', r.stdout.decode()[-300:])
            res = []
            if check:
                for c in [meta['property']] + extra:
                    r = run(['python3', os.path.join(V, 'run.py'), c], env=dict(os.environ, VERIF_REPO=w), timeout=1000)
                    out = r.stdout.decode(); v = [l for l in out.splitlines() if l.startswith(c + '/')]
                    res.append('%s: exit %d %s' % (c, r.returncode, v[:1] or out.splitlines()[-2:]))
            print(s, 'OK' if ok0 and ok1 and not miss else 'BAD', '|', ' | '.join(res)); sys.stdout.flush()
        finally: shutil.rmtree(d, True)
main()
