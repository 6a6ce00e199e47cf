#!/usr/bin/env python3
"""Driver: decides one property (or several) by symbolic execution of /repo's current sources.

usage: run.py ID [--tier quick|thorough] [--only HARNESS] [-v] [--keep]
"""
import sys, os, json, glob, subprocess, time, shutil, hashlib, tempfile, re, random, atexit
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
CLANG = 'clang-18'
PKG = None
SAN = 'signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable'
JOBS = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def pkg():
    global PKG
    if PKG is None:
        r = sh(['pkg-config', '--cflags', 'glib-2.0', 'json-c', 'libelf', 'libdw', 'rpm'])
        if r.returncode:
            r = sh(['pkg-config', '--cflags', 'glib-2.0', 'json-c'])
        PKG = r.stdout.decode().split()
    return PKG

class Fatal(Exception):
    pass

def newer(dst, srcs):
    return os.path.exists(dst) and all(os.path.getmtime(s) <= os.path.getmtime(dst) for s in srcs)

def build_tools():
    """symx and the model bitcode (setup; also done on demand)."""
    b = os.path.join(V, 'build'); os.makedirs(b, exist_ok=True)
    import fcntl
    with open(os.path.join(b, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [os.path.join(V, 'symx', f) for f in ('symx.cpp', 'expr.cpp', 'expr.h', 'Makefile')]
        if not newer(os.path.join(b, 'symx'), srcs):
            r = sh(['make', '-B', '-C', os.path.join(V, 'symx'), 'OUT=' + b])
            if r.returncode: raise Fatal('building symx failed:\n' + r.stderr.decode()[-3000:])
        out = os.path.join(b, 'models.bc'); ms = sorted(glob.glob(os.path.join(V, 'models', '*.[ch]')))
        if not newer(out, ms):
            os.makedirs(os.path.join(b, 'm'), exist_ok=True); bcs = []
            for f in ms:
                if f.endswith('.h') or f.endswith('sx_native.c'): continue
                o = os.path.join(b, 'm', os.path.basename(f)[:-2] + '.bc'); bcs.append(o)
                r = sh([CLANG, '-O1', '-g1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-pic', '-emit-llvm', '-c', '-w', '-D_DEFAULT_SOURCE', '-I', os.path.join(V, 'models')] + pkg() + [f, '-o', o])
                if r.returncode: raise Fatal(r.stderr.decode()[-3000:])
            r = sh(['llvm-link-18', '-o', out] + bcs)
            if r.returncode: raise Fatal(r.stderr.decode())
    return b

CONFIG_H = '''#define PACKAGE "satyr"
#define PACKAGE_NAME "satyr"
#define PACKAGE_STRING "satyr 0.43"
#define PACKAGE_VERSION "0.43"
#define VERSION "0.43"
#define HAVE_LIBDW 1
#define HAVE_LIBELF 1
#define HAVE_LIBRPM 1
#define WITH_LIBDWFL 1
'''

def noise_table(gp):
    """The source list of noise functions (normalize_hash.gperf) as a plain C table for the C36/C21 oracles."""
    rows = []
    if os.path.exists(gp):
        body = open(gp, encoding='utf-8', errors='replace').read().split('\n%%\n')
        for ln in (body[1] if len(body) > 1 else '').split('\n'):
            m = re.match(r'([^#|][^|]*)\|\s*\{(.*)\}', ln)
            if m: rows.append('{ "%s", { %s } },' % (m.group(1).replace('\\', '\\\\').replace('"', '\\"'), ', '.join(re.findall(r'"[^"]*"', m.group(2)) + ['0'])))
    return 'static const struct noise { const char *name; const char *files[8]; } noise_tab[] = {\n' + '\n'.join(rows) + '\n{ 0, { 0 } } };\n#define NOISE_N %d\n' % len(rows)

class Build:
    """One snapshot of /repo's library sources, compiled to bitcode and (with sanitizers) natively."""
    def __init__(self, work):
        self.w = work; self.src = os.path.join(work, 'satyr'); self.lib = os.path.join(self.src, 'lib')
        os.makedirs(self.lib)
        shutil.copytree(os.path.join(REPO, 'include'), os.path.join(self.src, 'include'), ignore=shutil.ignore_patterns('Makefile*'))
        for f in sorted(glob.glob(os.path.join(REPO, 'lib', '*'))):
            bn = os.path.basename(f)
            if bn.endswith(('.c', '.h', '.gperf')) and bn not in ('normalize_hash.h', 'config.h'):
                shutil.copy(f, self.lib)
        gp = os.path.join(self.lib, 'normalize_hash.gperf')
        if os.path.exists(gp):
            r = sh(['gperf', '--output-file=' + os.path.join(self.lib, 'normalize_hash.h'), gp])
            if r.returncode: raise Fatal('gperf failed: ' + r.stderr.decode())
        open(os.path.join(self.lib, 'config.h'), 'w').write(CONFIG_H)
        open(os.path.join(self.lib, 'sx_noise_tab.h'), 'w').write(noise_table(gp))
        self.cfiles = sorted(glob.glob(os.path.join(self.lib, '*.c')))
        self.py = os.path.join(self.src, 'python'); os.makedirs(self.py)
        for f in sorted(glob.glob(os.path.join(REPO, 'python', '*.[ch]'))):
            if os.path.basename(f) != 'py_module.c': shutil.copy(f, self.py)
        self.pyfiles = sorted(glob.glob(os.path.join(self.py, '*.c')))
        self.inc = ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-std=gnu99', '-I', self.lib, '-I', os.path.join(self.src, 'include'), '-I', os.path.join(self.src, 'python'), '-I', os.path.join(V, 'models'), '-I', os.path.join(V, 'harness')]
        self.bc = {}; self.nat = {}
        self.pool = ThreadPoolExecutor(JOBS)

    def _par(self, cmds):
        rs = list(self.pool.map(sh, cmds))
        for c, r in zip(cmds, rs):
            if r.returncode: raise Fatal('compile failed: ' + ' '.join(c) + '\n' + r.stderr.decode()[-2000:])

    def libbc(self, defs):
        k = tuple(defs)
        if k not in self.bc:
            d = tempfile.mkdtemp(prefix='bc', dir=self.w); outs = []; cmds = []
            for f in self.cfiles + (self.pyfiles if '-DVF_PYTHON' in k else []):
                o = os.path.join(d, os.path.basename(f)[:-2] + '.bc'); outs.append(o)
                cmds.append([CLANG, '-O1', '-g1', '-w', '-fno-builtin', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing', '-fno-pic', '-fsanitize=' + SAN, '-fsanitize-trap=' + SAN, '-emit-llvm', '-c'] + list(defs) + self.inc + pkg() + [f, '-o', o])
            self._par(cmds); o = os.path.join(d, 'lib.bc')
            r = sh(['llvm-link-18', '-o', o] + outs)
            if r.returncode: raise Fatal(r.stderr.decode()[-2000:])
            self.bc[k] = o
        return self.bc[k]

    def harness_bc(self, h):
        lib = self.libbc(h.libdefs); b = os.path.join(V, 'build')
        base = os.path.join(self.w, h.tag); o = base + '.h.bc'
        r = sh([CLANG, '-O1', '-g1', '-w', '-fno-builtin', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-pic', '-DSYMX', '-emit-llvm', '-c'] + h.defs + list(h.libdefs) + self.inc + pkg() + [h.path, '-o', o])
        if r.returncode: raise Fatal('harness %s: %s' % (h.tag, r.stderr.decode()[-3000:]))
        l = base + '.l.bc'
        r = sh(['llvm-link-18', '-o', l, o, '--override', lib] if False else ['llvm-link-18', '-o', l, o, lib, os.path.join(b, 'models.bc')])
        if r.returncode: raise Fatal('link %s: %s' % (h.tag, r.stderr.decode()[-3000:]))
        f = base + '.bc'
        r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=sx_main', l, '-o', f])
        if r.returncode: raise Fatal(r.stderr.decode()[-2000:])
        return f

    def libnative(self, defs, plain=False):
        k = (tuple(defs), plain)
        if k not in self.nat:
            d = tempfile.mkdtemp(prefix='nat', dir=self.w); outs = []; cmds = []
            fl = ['-O0', '-g'] if plain else ['-O1', '-g', '-U_FORTIFY_SOURCE', '-fsanitize=address,' + SAN, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
            for f in self.cfiles + (self.pyfiles if '-DVF_PYTHON' in defs else []):
                o = os.path.join(d, os.path.basename(f)[:-2] + '.o'); outs.append(o)
                cmds.append(['gcc', '-w'] + fl + ['-c'] + list(defs) + self.inc + pkg() + [f, '-o', o])
            self._par(cmds); self.nat[k] = outs
        return self.nat[k]

    def native(self, h, plain=False):
        outs = self.libnative(h.libdefs, plain); exe = os.path.join(self.w, h.tag + ('.plain' if plain else '.nat'))
        if os.path.exists(exe): return exe
        fl = ['-O0', '-g'] if plain else ['-O1', '-g', '-U_FORTIFY_SOURCE', '-fsanitize=address,' + SAN, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        r = sh(['gcc', '-w'] + fl + h.defs + list(h.libdefs) + self.inc + pkg() + [h.path, os.path.join(V, 'models', 'sx_native.c')] + outs + ['-o', exe, '-Wl,--copy-dt-needed-entries', '-lglib-2.0', '-ljson-c', '-lelf', '-ldw', '-lrpm', '-lrpmio', '-lstdc++', '-lm'])
        if r.returncode: raise Fatal('native link %s: %s' % (h.tag, r.stderr.decode()[-3000:]))
        return exe

from vf_h import H

def write_input(path, ins):
    with open(path, 'w') as f:
        for r in ins:
            f.write('%s %d %d %s\n' % (r['n'] or '_', r['k'], len(r['v']), ' '.join(map(str, r['v']))))

def esc_native(line):
    return line

def conv_obs(o):
    # executor logs raw bytes; the native runtime prints \xNN for non-printables
    out = ''
    for ch in o:
        c = ord(ch)
        out += '\\x%02x' % c if (c < 32 or c > 126 or ch == '\\') else ch
    return out

def run_native(exe, inp, timeout=20, pre=()):
    env = dict(os.environ, SX_INPUT=inp, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', G_DEBUG='', MALLOC_PERTURB_='165')
    try:
        r = subprocess.run(list(pre) + [exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1')

class Check:
    def __init__(self, pid, tier, only=None, verbose=False, keep=False):
        import props
        self.pid = pid; self.tier = tier; self.spec = props.PROPS[pid]; self.only = only; self.verbose = verbose
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        base = os.path.join(V, 'build'); os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=base)
        if not keep: atexit.register(shutil.rmtree, self.work, True)
        self.known = []
        kf = os.path.join(V, 'known_findings.jsonl')
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l:
                    k = json.loads(l)
                    if k.get('status') == 'known' and k['property'] == pid: self.known.append(k)

    def is_known(self, h, v):
        for k in self.known:
            if k.get('harness') and k['harness'] != h.name: continue
            if k.get('kind') and k['kind'] != v['kind']: continue
            if k.get('msg') and k['msg'] not in v['msg']: continue
            if k.get('loc') and not v['loc'].startswith(k['loc'] + ' '): continue
            return k
        return None

    def run(self):
        t0 = time.time(); tools = build_tools(); self.b = Build(self.work)
        hs = [h for h in self.spec['harnesses'] if not (h.thorough_only and self.tier == 'quick')]
        for i, h in enumerate(hs): h.prep(self.tier, i)
        if self.only: hs = [h for h in hs if self.only in h.name]
        budget = self.spec.get('budget', 600) if self.tier == 'quick' else self.spec.get('tbudget', 3600)
        agg = dict(completed=0, assumed_out=0, errors=0, inconclusive=0, forks=0, insts=0, queries=0, qsat=0, qunsat=0, qunk=0, qcvc5=0, cachehits=0, domdec=0, modeldec=0, asserts_sym=0, asserts_const=0, unexplored=0, xchecks=0, ztime=0.0)
        funcs = set(); perh = []; validated = 0; mism = []; samples = []; knownhit = {}; viols = []; unconf = []
        # native sanitizer objects are compiled while the symbolic runs proceed
        for h in hs: self.b.libbc(h.libdefs)
        natf = [ThreadPoolExecutor(1).submit(self.b.libnative, h.libdefs) for h in {h.libdefs: h for h in hs}.values()]
        for f in natf: f.result()
        rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(os.path.join(rdir, self.pid + '-*')): os.unlink(f)
        stop = False
        for hi, h in enumerate(hs):
            left = budget - (time.time() - t0)
            if stop: break
            bc = self.b.harness_bc(h); out = os.path.join(self.work, h.tag + '.out')
            lim = (h.time if self.tier == 'quick' else (h.ttime or h.time)) or max(20.0, left / max(1, len(hs) - hi) * 1.5)
            lim = max(10.0, min(lim, left))
            cmd = [os.path.join(tools, 'symx'), bc, '--entry', 'sx_main', '--out', out, '--jobs', str(JOBS), '--time', '%.0f' % lim, '--repo', self.b.lib, '--samples', str(h.samples), '--seed', str(self.seed)]
            if h.mem: cmd += ['--mem', str(h.mem)]
            if h.maxinst: cmd += ['--max-inst', str(h.maxinst)]
            if h.rlimit: cmd += ['--rlimit', str(h.rlimit)]
            if self.verbose: cmd.append('-v')
            ts = time.time(); r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if self.verbose else subprocess.PIPE)
            if r.returncode: raise Fatal('symx failed on %s: %s' % (h.tag, (r.stderr or b'').decode()[-2000:]))
            st = dict.fromkeys(agg, 0); cover = {}; inc = {}; vs = []; sm = []; hf = set(); crashed = 0
            for fn in glob.glob(out + ".[0-9]*"):
                for l in open(fn, encoding='latin1'):
                    try: d = json.loads(l)
                    except ValueError: crashed += 1; continue
                    if d['t'] == 'stats':
                        for k in agg: st[k] += d[k]
                        for k, v in d['cover'].items(): cover[k] = cover.get(k, 0) + v
                        for k, v in d['inconcl'].items(): inc[k] = inc.get(k, 0) + v
                        hf.update(d['funcs'])
                    elif d['t'] == 'viol': vs.append(d)
                    elif d['t'] == 'sample': sm.append(d)
                    elif d['t'] == 'root': crashed += d['crashed']
            for k in agg: agg[k] += st[k]
            funcs |= hf
            # ---- violations: replay natively before reporting
            groups = {}
            for v in vs: groups.setdefault((v['kind'], v['msg'] if v['kind'] == 'assert' else v['loc']), []).append(v)
            exe = self.b.native(h)
            def rp(v, n):
                f = os.path.join(self.work, '%s-v%d.in' % (h.tag, n)); write_input(f, v['in'])
                rc, so, se = run_native(exe, f)
                ok = False
                if v['kind'] == 'timeout': ok = rc == 'timeout'
                elif v['kind'] == 'assert': ok = ('ASSERT-FAIL ' + v['msg']) in so or (rc not in (0, 77))
                else: ok = rc not in (0, 77)
                if rc == 77: ok = False
                if v['kind'] == 'uninit' and not ok and rc != 77:
                    pe = self.b.native(h, plain=True)
                    rc, so, se = run_native(pe, f, 60, ('valgrind', '-q', '--error-exitcode=43', '--track-origins=yes')); ok = rc == 43 or rc == 42
                return ok, f, rc, so, se
            n = 0
            for key, g in sorted(groups.items()):
                k = self.is_known(h, g[0]); conf = None
                for v in g[:4]:
                    n += 1; ok, f, rc, so, se = rp(v, n)
                    if ok: conf = (v, f, rc, so, se); break
                if conf is None:
                    unconf.append('%s: %s %s at %s' % (h.name, g[0]['kind'], g[0]['msg'], g[0]['loc'])); 
                    if self.verbose: print('UNCONFIRMED', unconf[-1], 'rc', rc, so[-300:], se[-600:], g[0]['in'])
                    continue
                v, f, rc, so, se = conf
                if k is not None: knownhit[k['id']] = k; continue
                rf = os.path.join(rdir, '%s-%s-%d.txt' % (self.pid, h.name, n))
                with open(rf, 'w') as o:
                    o.write('# property %s harness %s (%s)\n# %s: %s\n# at %s\n# call stack %s\n# bounds %s\n# native replay exit status %s\n' % (self.pid, h.name, h.file, v['kind'], v['msg'], v['loc'], v['bt'], json.dumps(h.bounds), rc))
                    o.write('# replay: %s/run.py %s --replay %s\n' % (V, self.pid, rf))
                    o.write('@harness %s %s\n' % (h.name, json.dumps(h.bounds))); o.write(open(f).read())
                    o.write('# ---- native stdout\n' + ''.join('# ' + x + '\n' for x in so.splitlines()[:60])); o.write('# ---- native stderr\n' + ''.join('# ' + x + '\n' for x in se.splitlines()[:60]))
                viols.append((v, rf)); print('%s/%s: %s: %s (at %s)' % (self.pid, h.name, v['kind'], v['msg'], v['loc']))
                print('VIOLATION property=%s replay=%s' % (self.pid, rf)); sys.stdout.flush()
            # ---- trace validation of sampled completed paths
            rnd = random.Random(self.seed); rnd.shuffle(sm); use = sm[:h.samples]
            def val(a):
                i, s = a; f = os.path.join(self.work, '%s-s%d.in' % (h.tag, i)); write_input(f, s['in']); rc, so, se = run_native(exe, f)
                exp = [conv_obs(o) for o in s['obs']]; got = [x[4:] for x in so.split('\n') if x.startswith('OBS ')]
                return rc, exp, got, so, se, s
            hv = 0
            for rc, exp, got, so, se, s in self.b.pool.map(val, enumerate(use)):
                if rc == 0 and exp == got: validated += 1; hv += 1
                elif rc not in (0, 77) and exp != got[:len(exp)] or rc not in (0, 77, 42):
                    mism.append('%s: native run failed rc=%s %s' % (h.name, rc, (so + se)[-400:]))
                else: mism.append('%s: rc=%s expected %s got %s %s' % (h.name, rc, exp[:6], got[:6], se[-200:]))
            samples += [dict(harness=h.name, inputs=[(r['n'], r['v'][:16]) for r in s['in']][:12], observed=s['obs'][:6]) for s in use[:2]]
            missing = [c for c in h.cover if not cover.get(c)]
            exhausted = st['unexplored'] == 0 and st['inconclusive'] == 0 and not crashed
            perh.append(dict(harness=h.name, bounds=h.bounds, paths=st['completed'], infeasible_or_assumed_out=st['assumed_out'], error_paths=st['errors'], forks=st['forks'], queries=st['queries'], sat=st['qsat'], unsat=st['qunsat'], unknown=st['qunk'], solver_s=round(st['ztime'], 3), assertions_decided_by_solver=st['asserts_sym'], assertions_constant_on_path=st['asserts_const'], exhausted=exhausted, unexplored_states=st['unexplored'], inconclusive=inc, cover=cover, cover_missing=missing, functions=len(hf), wall_s=round(time.time() - ts, 2)))
            if self.verbose or os.environ.get('VF_SUMMARY'):
                p = perh[-1]; print('  [%s] paths %d forks %d queries %d (%.1fs) asserts %d/%d exhausted=%s unexpl=%d inc=%s cover=%s missing=%s validated=%d/%d %.1fs' % (h.name, p['paths'], p['forks'], p['queries'], p['solver_s'], p['assertions_decided_by_solver'], p['assertions_constant_on_path'], exhausted, st['unexplored'], inc, cover, missing, hv, len(use), p['wall_s'])); sys.stdout.flush()
            if viols and self.tier == 'quick' and not os.environ.get('VF_ALL'): stop = True
        for k in knownhit.values(): print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for k in self.known:
            if k['id'] not in knownhit and not viols: print('note: known finding %s did not show on this tree' % k['id'])
        for m in mism[:5]: print('note: trace mismatch: ' + m)
        for u in unconf[:5]: print('note: counterexample not reproduced natively: ' + u)
        ex = all(p['exhausted'] for p in perh)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=dict(states=agg['completed'] + agg['forks'], transitions=agg['insts'], traces_validated_against_impl=validated, samples=samples[:12] or ['none'], exhaustive=ex,
                paths_completed=agg['completed'], paths_cut_by_assumptions=agg['assumed_out'], solver_queries=agg['queries'], solver_sat=agg['qsat'], solver_unsat=agg['qunsat'], solver_unknown=agg['qunk'], decided_by_cvc5_integer_encoding=agg['qcvc5'], solver_seconds=round(agg['ztime'], 3), query_cache_hits=agg['cachehits'], branches_decided_by_byte_domains=agg['domdec'], solver_cross_checks_of_byte_domains_and_path_conditions=agg['xchecks'],
                assertions_decided_by_solver=agg['asserts_sym'], assertions_constant_after_path_split=agg['asserts_const'], functions_encoded=sorted(funcs), harnesses=perh, trace_mismatches=len(mism), unreproduced_counterexamples=unconf[:10], known_findings_seen=sorted(knownhit),
                explanation='Each state is one symbolic path prefix (completed path or fork) of the current /repo sources compiled to LLVM IR; transitions are IR instructions executed symbolically; traces_validated_against_impl counts sampled paths whose solver model was run through the real library (glib, json-c, ASan+UBSan) with identical observations.'),
            assumptions=self.spec.get('assumptions', []) + props_common(), wall_s=round(time.time() - t0, 2), violations=len(viols))
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        miss = [(p['harness'], p['cover_missing']) for p in perh if p['cover_missing']]
        for a, c in miss: print('note: vacuity witness not reached in %s: %s' % (a, c))
        print('%s %s: %d harnesses, %d paths, %d queries, %d/%d traces validated, exhausted=%s, violations=%d, %.1fs' % (self.pid, self.tier, len(perh), agg['completed'], agg['queries'], validated, validated + len(mism), ex, len(viols), time.time() - t0))
        if viols: return 1
        if agg['completed'] == 0 and not knownhit: print('error: no path completed'); return 2
        return 0

def props_common():
    return ['environment models in /verif/models (libc, glib, json-c) agree with the real libraries; sampled paths of every run are replayed against the real ones',
            'memory allocation does not fail', 'stated input bounds (see coverage.harnesses[].bounds); larger inputs are outside the claim', 'clang 18 -O1 translation of the C sources, "C" locale']

def replay(pid, path):
    import props
    txt = [l for l in open(path) if not l.startswith('#')]; name, b = txt[0].split(' ', 2)[1:]
    build_tools(); w = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(V, 'build')); atexit.register(shutil.rmtree, w, True)
    bd = Build(w); h = [h for h in props.PROPS[pid]['harnesses'] if h.name == name][0]; h.qdefs = json.loads(b); h.prep('quick', 0); h.defs = ['-D%s=%s' % kv for kv in json.loads(b).items()]
    f = os.path.join(w, 'in'); open(f, 'w').writelines(txt[1:]); rc, so, se = run_native(bd.native(h), f); print(so); print(se); print('exit', rc); return 0 if rc == 0 else 1

def main():
    a = sys.argv[1:]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False; keep = False; ids = []; rp = None
    i = 0
    while i < len(a):
        if a[i] == '--tier': i += 1; tier = a[i]
        elif a[i] == '--only': i += 1; only = a[i]
        elif a[i] == '--replay': i += 1; rp = a[i]
        elif a[i] == '-v': verbose = True
        elif a[i] == '--keep': keep = True
        elif a[i] == '--setup': build_tools(); return 0
        else: ids.append(a[i])
        i += 1
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if rp: return replay(ids[0], rp)
    rc = 0
    for x in ids:
        try: r = Check(x, tier, only, verbose, keep).run()
        except Fatal as e: print('error: %s' % e); r = 2
        rc = max(rc, r)
    return rc
if __name__ == '__main__': sys.exit(main())
