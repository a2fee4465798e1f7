#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--case PAT] [--time S] [-v] [--replay FILE]
Builds the harness of a property from /repo's current sources (clang -> LLVM IR -> instrumented IR), explores it
symbolically, replays every candidate counterexample against a native build of the same sources linked with the
real BLAS/LAPACK/FFTW, writes evidence/<property>.json and reports."""
import os, sys, json, subprocess, tempfile, shutil, hashlib, time, glob, re, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'engine'))
import instrument
import config
ENG = os.path.join(HERE, 'engine')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(tempfile.gettempdir(), 'ropt_sym_cache_%d' % os.getuid()))
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
if not os.path.exists(Z3 + '/lib/libz3.so'): Z3 = None
DEFS = ['-DDRIVERCPP', '-DROPTLIB_WITH_FFTW']
SLOT = 4096

def incdirs():
    t = open(REPO + '/Makefile').read(); out = []
    m = re.search(r'^INCDIRS\s*[:?]?=(.*)$', t, re.M)
    if m: out = re.findall(r'-I\s*(\S+)', m.group(1).replace('$(ROOTPATH)', REPO))
    out = [o for o in out if os.path.isdir(o)]
    for d in ('', 'BinaryFiles', 'Julia', 'Manifolds', 'Matlab', 'Matlab/ForCpp', 'Matlab/ForMatlab', 'Others', 'Others/SparseBLAS', 'Others/fftw', 'Others/wavelet', 'cwrapper', 'cwrapper/blas', 'cwrapper/lapack', 'Problems', 'Solvers'):
        p = os.path.join(REPO, d).rstrip('/')
        if os.path.isdir(p) and p not in out and p + '/' not in out: out.append(p)
    return ['-I' + o for o in out]

def allsources():
    out = []
    for d in ('Manifolds', 'Solvers', 'Problems', 'Others', 'Others/SparseBLAS', 'Others/wavelet'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.cpp'))):
            if os.path.basename(f) in ('mexProblem.cpp', 'juliaProblem.cpp'): continue
            out.append(os.path.relpath(f, REPO))
    return out

def run(cmd, **kw):
    for i in range(3):      # a compiler killed or crashed by a shortage of memory is run again
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
        if r.returncode == 0 or 'error:' in r.stdout or 'undefined reference' in r.stdout: break
    return r

class BuildError(Exception): pass
def sha(*xs):
    h = hashlib.sha256()
    for x in xs: h.update(x if isinstance(x, bytes) else x.encode()); h.update(b'\0')
    return h.hexdigest()

class Builder:
    def __init__(self, wd):
        self.wd = wd; self.inc = incdirs(); self.all = allsources()
        self.slot = {f: i + 1 for i, f in enumerate(self.all)}
        self.names = {}
        self.cache = None
        try: os.makedirs(CACHE, exist_ok=True); self.cache = CACHE
        except OSError: pass
    def _cached(self, key, outs, make):
        """outs: list of produced files in wd"""
        if self.cache:
            src = [os.path.join(self.cache, key + '_%d' % i) for i in range(len(outs))]
            if all(os.path.exists(s) for s in src):
                for s, o in zip(src, outs): shutil.copyfile(s, o)
                return
        make()
        if self.cache:
            for i, o in enumerate(outs):
                t = os.path.join(self.cache, '%s_%d.%d' % (key, i, os.getpid()))
                try: shutil.copyfile(o, t); os.rename(t, os.path.join(self.cache, key + '_%d' % i))
                except OSError: pass
    def pre(self, path, flags):
        p = subprocess.run(['clang++', '-E', '-w'] + flags + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode: raise BuildError('preprocessing %s failed:\n%s' % (path, p.stderr.decode()[-3000:]))
        return re.sub(rb'(?m)^# \d+.*$', b'', p.stdout)
    def sym(self, path, tag, slot, extra=(), std='-std=c++11', cover=True, alloc=True):
        flags = [std] + DEFS + self.inc + ['-I' + ENG, '-I' + os.path.join(HERE, 'harness')] + list(extra)
        key = 's' + sha(self.pre(path, flags), open(ENG + '/instrument.py', 'rb').read(), ' '.join(extra), str(slot), str(cover), str(alloc), 'v4')[:40]
        o = os.path.join(self.wd, tag + '.o'); nm = os.path.join(self.wd, tag + '.names')
        def make():
            ll, l2 = o[:-2] + '.ll', o[:-2] + '.i.ll'
            r = run(['clang++', '-O1', '-w', '-S', '-emit-llvm', '-ffp-model=strict', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops'] + flags + [path, '-o', ll])
            if r.returncode: raise BuildError('compiling %s failed:\n%s' % (path, r.stdout[-3000:]))
            names = instrument.run(ll, l2, slot * SLOT, cover=cover, alloc=alloc)
            if len(names) > SLOT: raise BuildError('too many functions in ' + path)
            r = run(['clang', '-c', '-O1', '-w', '-ffunction-sections', l2, '-o', o])
            if r.returncode: raise BuildError('assembling %s failed:\n%s' % (path, r.stdout[-3000:]))
            open(nm, 'w').write('\n'.join(names)); os.unlink(ll); os.unlink(l2)
        self._cached(key, [o, nm], make)
        self.names[slot] = (path, open(nm).read().split('\n'))
        return o
    def native(self, path, tag, extra=(), std='-std=c++11', opt='-O1'):
        flags = [std] + DEFS + self.inc + ['-I' + ENG, '-I' + os.path.join(HERE, 'harness')] + list(extra)
        key = 'n' + sha(self.pre(path, flags), ' '.join(extra), opt, 'v2')[:40]
        o = os.path.join(self.wd, tag + '.no')
        def make():
            r = run(['g++', opt, '-w', '-c', '-ffunction-sections'] + flags + [path, '-o', o])
            if r.returncode: raise BuildError('native compile of %s failed:\n%s' % (path, r.stdout[-3000:]))
        self._cached(key, [o], make); return o
    def rt(self):
        o = os.path.join(self.wd, 'symrt.o'); key = 'r' + sha(open(ENG + '/symrt.cpp', 'rb').read(), open(ENG + '/sym.h', 'rb').read(), str(Z3), 'v1')[:40]
        def make():
            r = run(['g++', '-O2', '-w', '-std=c++17', '-frounding-math'] + (['-I' + Z3 + '/include'] if Z3 else []) + ['-c', ENG + '/symrt.cpp', '-o', o])
            if r.returncode: raise BuildError('engine: ' + r.stdout[-3000:])
        self._cached(key, [o], make); return o

BASE = ['Manifolds/Element.cpp', 'Manifolds/SmartSpace.cpp', 'Manifolds/Manifold.cpp', 'Manifolds/Euclidean.cpp', 'Problems/Problem.cpp', 'Others/BlasLapackCppWrapper.cpp',
        'Others/ForDebug.cpp', 'Others/SparseMatrix.cpp', 'Others/SparseBLAS/nist_spblas.cpp', 'Others/wavelet/wavelet.cpp']
SOLV = ['Solvers/Solvers.cpp', 'Solvers/SolversSM.cpp', 'Solvers/SolversSMLS.cpp']

def tagof(f): return f.replace('/', '_').replace('.cpp', '')

def build(b, cfg, symbolic, pool, srcs=None):
    harness = [os.path.join(HERE, 'harness', h) for h in cfg['harness']]
    real = set(cfg.get('real', []))
    if srcs is None:
        srcs = list(dict.fromkeys(BASE + cfg.get('sources', [])))
    srcs = [s for s in srcs if s in b.slot and s not in ('Others/randgen.cpp', 'Others/Timer.cpp') or s in real]
    pre = ['-Dprotected=public', '-Dprivate=public'] if cfg.get('open', True) else []
    pre = ['-include', os.path.join(HERE, 'harness', 'prelude.h')] if cfg.get('open', True) else []
    hflags = pre + cfg.get('hflags', [])
    stubs = os.path.join(HERE, 'harness', 'stubs.cpp'); stubflags = ['-DREAL_RANDGEN'] if 'Others/randgen.cpp' in real else []
    fs = []
    if symbolic:
        fs.append(pool.submit(b.rt))
        for i, h in enumerate(harness): fs.append(pool.submit(b.sym, h, 'h%d' % i, 200 + i, hflags, '-std=c++17', False, False))
        for s in srcs: fs.append(pool.submit(b.sym, os.path.join(REPO, s), tagof(s), b.slot[s]))
        fs.append(pool.submit(b.sym, ENG + '/blas_model.cpp', 'blas', 190, (), '-std=c++11', False, False))
        fs.append(pool.submit(b.sym, stubs, 'stubs', 191, stubflags, '-std=c++11', False, False))
    else:
        fs.append(pool.submit(b.native, ENG + '/replayrt.cpp', 'replayrt', (), '-std=c++17'))
        for i, h in enumerate(harness): fs.append(pool.submit(b.native, h, 'h%d' % i, hflags + ['-DSYM_REPLAY'], '-std=c++17'))
        for s in srcs: fs.append(pool.submit(b.native, os.path.join(REPO, s), tagof(s)))
        fs.append(pool.submit(b.native, stubs, 'stubs', tuple(stubflags)))
    objs = [f.result() for f in fs]
    exe = os.path.join(b.wd, 'symexe' if symbolic else 'replayexe')
    if symbolic:
        # unmodelled Fortran / FFTW entry points
        und = set(run(['nm', '-u'] + objs).stdout.split()); dfn = set()
        for l in run(['nm', '--defined-only'] + objs).stdout.split('\n'):
            p = l.split()
            if len(p) == 3: dfn.add(p[2])
        miss = sorted(u for u in und if re.match(r'^([a-z0-9]+_|fftwf?_\w+)$', u) and u not in dfn)
        c = os.path.join(b.wd, 'miss.c'); open(c, 'w').write('void sym_unsupported(const char *);\n' + ''.join('int %s() { sym_unsupported("%s"); return 0; }\n' % (m, m) for m in miss))
        r = run(['gcc', '-w', '-c', c, '-o', c + '.o'])
        if r.returncode: raise BuildError(r.stdout)
        cmd = ['g++', '-o', exe] + objs + [c + '.o', '-Wl,--gc-sections']
        cmd += (['-L' + Z3 + '/lib', '-lz3', '-Wl,-rpath,' + Z3 + '/lib'] if Z3 else ['-lz3']) + ['-lgmpxx', '-lgmp']
    else: cmd = ['g++', '-o', exe] + objs + ['-Wl,--gc-sections', '-llapack', '-lblas', '-lfftw3', '-lm']
    r = run(cmd)
    if r.returncode:
        if 'undefined reference' in r.stdout and set(srcs) != set(b.all):
            if os.environ.get('VERIF_LINKDEBUG'): print(r.stdout[:3000])
            r2 = set(b.all) - set(['Others/randgen.cpp', 'Others/Timer.cpp']); return build(b, cfg, symbolic, pool, sorted(r2 | real))
        raise BuildError('link failed:\n' + r.stdout[-4000:])
    return exe

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'): out.append(json.loads(l))
    return out

def replay_file(path, case, cex, loose=False):
    kind, label, asg = cex.split('\t', 2)
    with open(path, 'w') as f:
        f.write('case %s\nlabel %s\n%s' % (case, label.split('[')[0], 'loose\n' if loose else ''))
        for a in asg.split():
            f.write(a + '\n')
def run_replay(exe, path):
    env = dict(os.environ); env['MALLOC_PERTURB_'] = '190'; env['OPENBLAS_NUM_THREADS'] = '1'
    try: r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, env=env)
    except subprocess.TimeoutExpired: return 9, 'timeout'
    return r.returncode, r.stdout.decode(errors='replace')

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--case'); ap.add_argument('--time', type=float)
    ap.add_argument('-v', action='store_true'); ap.add_argument('--replay'); ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8); ap.add_argument('--keep')
    a = ap.parse_args()
    cfg = config.PROPS[a.prop]; tier = 1 if a.tier == 'thorough' else 0; t0 = time.time()
    wd = a.keep or tempfile.mkdtemp(prefix='roptsym_'); os.makedirs(wd, exist_ok=True)
    try: return go(a, cfg, tier, t0, wd)
    finally:
        if not a.keep: shutil.rmtree(wd, ignore_errors=True)

def go(a, cfg, tier, t0, wd):
    b = Builder(wd); pool = ThreadPoolExecutor(a.jobs)
    try:
        if a.replay:
            exe = build(b, cfg, False, pool); rc, out = run_replay(exe, os.path.abspath(a.replay)); print(out); print('reproduced' if rc == 1 else 'not reproduced (%d)' % rc); return 0 if rc != 1 else 1
        exe = build(b, cfg, True, pool)
    except BuildError as e:
        print('BUILD ERROR', e); return 3
    tb = time.time() - t0
    limit = a.time or cfg.get('time', [60, 400])[tier]
    js = os.path.join(wd, 'out.json')
    cmd = [exe, '--out', js, '--jobs', str(a.jobs), '--time', str(limit), '--tier', str(tier)] + cfg.get('opts', [])
    if tier: cmd += cfg.get('topts', ['--qt', '20', '--pathtime', '240'])
    if a.case: cmd += ['--case', a.case, '--alltiers']
    elif cfg.get('cases'): cmd += ['--case', cfg['cases'] + ((',' + cfg['tcases']) if tier and cfg.get('tcases') else '')]
    nat = ThreadPoolExecutor(3); natbuild = ThreadPoolExecutor(1).submit(build, b, cfg, False, nat)
    senv = dict(os.environ); senv['MALLOC_PERTURB_'] = '190'; senv['GLIBC_TUNABLES'] = 'glibc.malloc.perturb=190'   # plain fields left uninitialised get a fixed odd value
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=senv)
    if r.returncode or not os.path.exists(js):
        print('ENGINE ERROR', r.returncode, r.stderr.decode(errors='replace')[-3000:]); return 3
    if a.v: sys.stderr.write(r.stderr.decode(errors='replace')[-5000:])
    res = json.load(open(js)); cases = res['cases']
    # ---- replay candidates
    cand = {}
    for c in cases:
        for x in c['cex']: cand.setdefault((c['case'], x.split('\t')[1].split('[')[0]), []).append(x)
    viol, kf, unrep = [], [], []
    kl = [k for k in known() if k.get('property') == a.prop and k.get('status') == 'known']
    try: rexe = natbuild.result()
    except BuildError as e: print('BUILD ERROR', e); return 3
    # concrete points of explored paths, run against the real code with the real libraries
    agree, diverge = 0, []
    def wit(item):
        i, (case, x) = item; p = os.path.join(wd, 'w_%d' % i); replay_file(p, case, x, True); return case, x, p, run_replay(rexe, p)
    rd = os.path.join(HERE, 'replays')
    def pts(c): return [x for x in c['wit'] if x.split('\t')[1] == '-'][:cfg.get('wit', 2)] + [x for x in c['wit'] if x.split('\t')[1] == 'u']
    bad = {}
    for case, x, p, (rc, out) in pool.map(wit, enumerate([(c['case'], x) for c in cases for x in pts(c)])):
        m = re.search(r'^FAIL ([^:\n]*):', out, re.M)
        if not m: agree += rc == 0; continue
        if x.split('\t')[1] == '-' or a.prop[0] == 'S': diverge.append({'case': case, 'point': x, 'replay': 'rc %d %s' % (rc, out[-300:])}); continue   # decided in real arithmetic (rounding may take the other side of a comparison)
        # the part of the path after this point could not be decided symbolically, and the real code fails there
        lab = m.group(1).split('[')[0]
        if (case, lab) in cand or (case, lab) in bad: continue
        k = [k for k in kl if k['case'] == case and lab in k['labels']]
        bad[case, lab] = 1
        if k: kf.append((k[0], case, lab, x)); continue
        os.makedirs(rd, exist_ok=True); dst = os.path.join(rd, '%s_%s.cex' % (a.prop, re.sub(r'\W+', '_', case + '_' + lab)[:100])); replay_file(dst, case, 'wit\t' + lab + '\t' + x.split('\t', 2)[2], True)
        viol.append((dst, case, lab, x, out))
    if cand:
        os.makedirs(rd, exist_ok=True)
        def one(item):
            (case, lab), xs = item; n = 0; last = ''
            for i, x in enumerate(xs[:12]):
                p = os.path.join(wd, 'r_%s_%d' % (hashlib.md5((case + lab).encode()).hexdigest()[:10], i)); replay_file(p, case, x); rc, out = run_replay(rexe, p); last = 'rc %d %s' % (rc, out[-300:])
                if rc == 1: return (case, lab, p, x, out)
            return (case, lab, None, xs[0], last)
        for case, lab, p, x, out in pool.map(one, sorted(cand.items())):
            if p is None: unrep.append({'case': case, 'label': lab, 'candidate': x, 'replay': out}); continue
            m = [k for k in kl if k['case'] == case and lab in k['labels']]
            if m: kf.append((m[0], case, lab, x)); continue
            dst = os.path.join(rd, '%s_%s.cex' % (a.prop, re.sub(r'\W+', '_', case + '_' + lab)[:100])); shutil.copyfile(p, dst)
            viol.append((dst, case, lab, x, out))
    # ---- evidence
    tot = lambda k: sum(c[k] for c in cases)
    fns = {}
    for i in res['covered']:
        s, k = divmod(i, SLOT)
        if s in b.names and k < len(b.names[s][1]): fns[b.names[s][1][k]] = os.path.relpath(b.names[s][0], REPO)
    fl = sorted(fns)
    dm = subprocess.run(['c++filt'], input='\n'.join(fl), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    enc = sorted({d for d, f in zip(dm, fl) if 'ROPTLIB::' in d or fns[f].startswith('Others')})
    complete = [c['case'] for c in cases if not (c['unsupported'] or c['timeout'] or c['pending'] or c['inconclusive'] or c['crashed'] or c['exceptions']) and c['ok'] > 0]
    vac = [c['case'] for c in cases if c['asserts'] == 0]
    ev = {
        'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': cfg.get('level', 'model_checking'),
        'coverage': {
            'states': tot('paths'), 'transitions': tot('decisions'), 'traces_validated_against_impl': agree + len(viol) + len(kf), 'traces_diverging_from_impl': diverge[:20],
            'samples': [{'case': c['case'], 'paths': c['paths'], 'paths_ok': c['ok'], 'paths_excluded_by_assumption': c['assumed'], 'unsupported': c['unsupported'], 'timeout': c['timeout'], 'unexplored': c['pending'],
                         'assertions': c['asserts'], 'inconclusive': c['inconclusive'], 'unsup': c['unsup'], 'reach': c['reach'], 'complete': c['case'] in complete} for c in cases],
            'functions_encoded': enc, 'functions_encoded_count': len(enc),
            'bounds': cfg.get('bounds', ''), 'outside': cfg.get('outside', ''),
            'queries': {'assertions': tot('asserts'), 'decided_syntactically': tot('syn'), 'decided_by_polynomial_normal_form': tot('alg'), 'z3_queries': tot('q_z3'), 'cvc5_queries': tot('q_cvc5'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown')},
            'solver_time_s': round(tot('z3time') + tot('cvctime'), 2), 'normal_form_time_s': round(tot('algtime'), 2),
            'cases': len(cases), 'cases_complete': len(complete), 'cases_incomplete': [c['case'] for c in cases if c['case'] not in complete], 'cases_without_assertion': vac,
            'known_findings': [{'case': k[1], 'label': k[2], 'input': k[3]} for k in kf], 'unreproduced_candidates': unrep[:20],
            'build_s': round(tb, 1), 'exploration_timed_out': res['timed_out'],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': cfg.get('assumptions', []) + config.COMMON_ASSUMPTIONS,
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for c in cases:
        if a.v or not c['ok']: print('  %-40s paths=%d ok=%d assumed=%d unsup=%d exc=%d crash=%d to=%d pend=%d asserts=%d(syn %d alg %d) z3=%d/%.1fs cvc5=%d inconcl=%s cex=%d wall=%.1f unsup=%s' % (c['case'], c['paths'], c['ok'], c['assumed'], c['unsupported'], c['exceptions'], c['crashed'], c['timeout'], c['pending'], c['asserts'], c['syn'], c['alg'], c['q_z3'], c['z3time'], c['q_cvc5'], list(c['inconclusive'].items())[:4], len(c['cex']), c['wall'], list(c['unsup'].items())[:3]))
        if a.v:
            for n in c['notes'][:10]: print('      note', n)
    for u in diverge: print('point of a path behaves differently with the real libraries : %s %s | %s' % (u['case'], u['point'][:200], u['replay'].replace('\n', ' / ')[-200:]))
    for u in unrep: print('unreproduced candidate (not reported): case=%s label=%s %s | %s' % (u['case'], u['label'], u['candidate'][:200], u['replay'].replace('\n', ' / ')[-200:]))
    print('%s %s: %d cases (%d complete), %d paths, %d assertions (%d syntactic, %d normal form), z3 %d cvc5 %d queries, %.1f s solver, %d functions encoded, build %.1f s, total %.1f s%s' % (a.prop, a.tier, len(cases), len(complete), tot('paths'), tot('asserts'), tot('syn'), tot('alg'), tot('q_z3'), tot('q_cvc5'), tot('z3time') + tot('cvctime'), len(enc), tb, time.time() - t0, ' TIMED OUT' if res['timed_out'] else ''))
    seen = set()
    for k, case, lab, x in kf:
        if k['what'] in seen: continue
        seen.add(k['what']); print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for dst, case, lab, x, out in viol:
        print('violation: case=%s label=%s\n   %s\n   replay: %s' % (case, lab, x[:300], out.strip().replace('\n', '\n           ')[:600]))
    for dst, case, lab, x, out in viol: print('VIOLATION property=%s replay=%s' % (a.prop, dst))
    return 1 if viol else 0
if __name__ == '__main__': sys.exit(main())
