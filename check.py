#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decides one property by symbolic execution of /repo's current sources.
Exit 0: held on everything explored; exit 1 + 'VIOLATION property=<id> replay=<path>': a counterexample that reproduces natively."""
import sys, os, re, json, time, subprocess, glob, shutil, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('MPART_REPO', '/repo')
sys.path.insert(0, V)
from checks_config import CHECKS, GROUPS
T0 = time.time()
NCPU = min(8, os.cpu_count() or 8)
DEFS = ['-DKOKKOS_ENABLE_CXX17', '-DMPART_HAS_CEREAL', '-DMPART_HAS_NLOPT']
def log(*a): print(*a, file=sys.stderr, flush=True)
def run(cmd, timeout=600, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[prop]; quick = tier == 'quick'
    work = os.path.join(V, 'build', prop + '-' + tier + ('-dbg' if only else '')); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    outd = os.path.join(V, 'evidence'); os.makedirs(outd, exist_ok=True)
    repd = os.path.join(V, 'build', 'replay', prop); shutil.rmtree(repd, ignore_errors=True); os.makedirs(repd)
    budget = cfg.get('budget', 300) if quick else cfg.get('budget_thorough', 3000)
    heavy = cfg.get('heavy', 20) if quick else cfg.get('heavy_thorough', 120)
    r = run(['bash', os.path.join(V, 'setup.sh')])
    if r.returncode: log(r.stdout); return finish_error('setup failed')
    shim = os.path.join(V, 'build', 'shim')
    INC = ['-include', 'stdlib.h', '-include', 'math.h', '-I' + os.path.join(V, 'harness', 'overlay')] + ['-I' + shim, '-I' + os.path.join(V, 'harness'), '-I' + REPO, '-I' + REPO + '/MParT', '-I/usr/include/eigen3', '-DTIER=%d' % (0 if quick else 1)] + DEFS
    srcs = []
    for s in cfg['repo']:
        for t in GROUPS.get(s, [s]):
            g = sorted(glob.glob(os.path.join(REPO, t)))
            for x in g:
                if x not in srcs: srcs.append(x)
    harn = [os.path.join(V, 'harness', h) for h in cfg['harness']]
    rt = [os.path.join(V, 'shim', 'rt_kokkos.cpp')]
    # ---------------------------------------------------------------- bitcode
    BC = ['clang++', '-std=c++17', '-O1', '-gline-tables-only', '-w', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-unroll-loops', '-emit-llvm', '-c'] + INC
    def comp(a):
        i, s = a; o = os.path.join(work, '%d_%s.bc' % (i, os.path.basename(s)[:-4])); r = run(BC + [s, '-o', o]); return s, o, r
    allsrc = harn + srcs + rt
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(comp, enumerate(allsrc)))
    bad = [(s, r) for s, o, r in res if r.returncode]
    if bad:
        for s, r in bad: log('COMPILE ERROR', s, r.stdout[:3000])
        return finish_error('compile failed')
    bc = os.path.join(work, 'all.bc')
    r = run(['llvm-link-18'] + [o for _, o, _ in res] + [os.path.join(V, 'build', 'rt_std.bc'), '-o', bc])
    if r.returncode: log(r.stdout); return finish_error('link failed')
    nmout = run(['llvm-nm-18', '--defined-only', bc]).stdout
    entries = sorted(set(re.findall(r'\bT (h_\w+)$', nmout, re.M)))
    if only: entries = [e for e in entries if e[2:] in only]
    t_comp = time.time() - T0
    # ---------------------------------------------------------------- native build starts in the background
    nat = Native(work, allsrc, INC); nat.start()
    # ---------------------------------------------------------------- symbolic execution, all entries sharing the cores
    tl = max(20, budget - (time.time() - T0))
    opts = cfg.get('entries', {})
    def one(e):
        f = os.path.join(work, e + '.jsonl'); o = opts.get(e[2:], {})
        mp = o.get('maxproc', max(2, NCPU // max(1, min(len(entries), 4))))
        left = max(10, budget - (time.time() - T0))
        p = subprocess.run([os.path.join(V, 'build', 'symex'), bc, '--entry', e, '--out', f, '--maxproc', str(mp), '--time', str(left), '--heavy', str(o.get('heavy', heavy)), '--samples', str(o.get('samples', 4 if quick else 12))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        rec = []
        try:
            for l in open(f, errors='replace'):
                try: rec.append(json.loads(l))
                except ValueError: pass
        except OSError: pass
        return e, rec, p.stderr[-2000:]
    order = sorted(entries, key=lambda e: -opts.get(e[2:], {}).get('weight', 1))
    with ThreadPoolExecutor(4) as ex: results = list(ex.map(one, order))
    t_sym = time.time() - T0
    # ---------------------------------------------------------------- replay
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json'))) if k.get('property') == prop and k.get('status') == 'known']
    viol = []; knownhit = {}; unrepro = []; inconc = []; tot = dict(paths=0, insts=0, asserts=0, held=0, trivial=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, incomplete=0, inconclusive=0, candidates=0)
    funcs = set(); per = {}; labels = {}; samples = []; notes = []
    for e, rec, err in results:
        if only: log(err)
        st = [r for r in rec if r['kind'] == 'stats']
        if not st: notes.append(e + ': no result ' + err[-300:]); tot['incomplete'] += 1
        for s in st:
            for k in tot: tot[k] += s.get(k, 0)
            funcs.update(s['functions']); per[e] = {k: s[k] for k in ('paths', 'asserts', 'held', 'candidates', 'inconclusive', 'incomplete', 'queries', 'solver_s', 'wall_s')}
        for r in rec:
            if r['kind'] == 'reach': labels.setdefault(e, set()).add(r['label'])
            elif r['kind'] == 'inconclusive': inconc.append(r)
            elif r['kind'] in ('unsupported', 'crash'): notes.append('%s: %s %s %s' % (e, r['kind'], r.get('msg', ''), r.get('loc', '')))
            elif r['kind'] == 'sample': samples.append(r)
    groups = {}
    for e, rec, err in results:
        for r in rec:
            if r['kind'] == 'candidate': groups.setdefault((e, r['what'], r['msg'], re.sub(r':\d+', '', r['loc'].split(' <- ')[0])), []).append(r)
    jobs = []
    for k, rs in groups.items():
        kf = {}; rest = []
        for r in rs:
            m = next((i for i, x in enumerate(known) if matches(x, r)), None)
            if m is None: rest.append(r)
            else: kf.setdefault(m, r)
        for m, r in kf.items(): knownhit.setdefault(m, r)
        jobs += [(k, r) for r in rest[:4]]
    seen_ok = set(); validated = 0; mismatch = []
    def rep(a):
        k, r = a; ok, how = nat.replay(r, repd); return k, r, ok, how
    if jobs:
        nat.need()
        with ThreadPoolExecutor(NCPU) as ex:
            for k, r, ok, how in ex.map(rep, jobs[:60]):
                if ok: viol.append((k, r, how)) if k not in seen_ok else None; seen_ok.add(k)
                else: unrepro.append((k, r, how))
        unrepro = [u for u in unrepro if u[0] not in seen_ok]
    khits = []
    for m, r in knownhit.items():
        nat.need(); ok, how = nat.replay(r, repd)
        if ok: khits.append(known[m]); print('KNOWN-FINDING: property=%s %s' % (prop, known[m]['what']))
        else: notes.append('known finding did not reproduce: ' + known[m]['what'])
    # encoding validation: completed paths re-run natively on a model of their path condition
    if samples and not viol and cfg.get('validate', True):
        nat.need()
        with ThreadPoolExecutor(NCPU) as ex:
            for r, rc, o in ex.map(lambda r: (r,) + nat.runvals(r), samples[:200]):
                if rc == 0: validated += 1
                elif rc == 78: pass
                elif any(matches(x, dict(r, msg=o, what='', loc='')) for x in known): pass
                else: mismatch.append((r, rc, o[-400:]))
    for k, r, how in viol:
        path = os.path.join(repd, re.sub(r'\W+', '_', k[0] + '_' + k[2])[:80] + '.json')
        json.dump(dict(property=prop, entry=k[0], what=k[1], message=k[2], location=r['loc'], values=r['vals'], native_result=how, rerun='%s <values file: one "name value" per line>' % (nat.exe)), open(path, 'w'), indent=1)
        log('  %s: %s [%s] at %s  values %s -> %s' % (k[0], k[2], k[1], r['loc'][:200], json.dumps(r['vals'])[:600], how[:200]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for k, r, how in unrepro: log('  not reproduced natively: %s %s [%s] %s vals %s -> %s' % (k[0], k[2], k[1], r['loc'][:160], json.dumps(r['vals'])[:400], how[:200]))
    for r in inconc[:10]: log('  inconclusive:', r['entry'], r['msg'], r['loc'][:160])
    for n in sorted(set(notes))[:20]: log('  note:', n[:400])
    for r, rc, o in mismatch[:10]: log('  encoding mismatch:', r['entry'], rc, o[-200:], json.dumps(r['vals'])[:400])
    nat.finish()
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(viol),
        coverage=dict(states=tot['paths'], transitions=tot['insts'], traces_validated_against_impl=validated,
            explanation='bounded symbolic execution of clang bitcode compiled from the current tree; states = completed execution paths, transitions = IR instructions executed symbolically; each assertion on each path decided by z3 for all values of the symbolic inputs on that path',
            obligations=tot['asserts'], discharged=tot['held'], discharged_by_simplification=tot['trivial'], solver_queries=tot['queries'], unsat=tot['unsat'], sat=tot['sat'], unknown=tot['unknown'], solver_seconds=round(tot['solver_s'], 2),
            undecided_assertions=tot['inconclusive'], incomplete_paths=tot['incomplete'], not_reproduced=len(unrepro), encoding_mismatches=len(mismatch), compile_seconds=round(t_comp, 1), symbolic_seconds=round(t_sym - t_comp, 1),
            functions_encoded=sorted(funcs), entries=per, reached={e: sorted(l) for e, l in labels.items()}, bounds=cfg.get('bounds', ''), outside=cfg.get('outside', ''),
            exhaustive=(tot['incomplete'] == 0 and tot['inconclusive'] == 0), known_findings=[k['what'] for k in khits], notes=sorted(set(notes))[:20],
            samples=[dict(entry=r['entry'], values=r['vals']) for r in samples[:5]] or [dict(entry=e) for e in entries[:3]]),
        assumptions=cfg.get('assumptions', []) + ['doubles are exact reals (rounding outside the claim)', 'clang -O1 IR stands for the compiled code', 'Kokkos Serial overlay in place of the OpenMP back end'])
    if not only: json.dump(ev, open(os.path.join(outd, prop + '.json'), 'w'), indent=1)
    log('%s %s: paths=%d asserts=%d held=%d cand=%d undecided=%d incomplete=%d unrepro=%d validated=%d mismatch=%d queries=%d solver=%.1fs compile=%.1fs wall=%.1fs' % (prop, tier, tot['paths'], tot['asserts'], tot['held'], tot['candidates'], tot['inconclusive'], tot['incomplete'], len(unrepro), validated, len(mismatch), tot['queries'], tot['solver_s'], t_comp, time.time() - T0))
    if only:
        for e in per: log('   ', e, per[e])
    if not os.environ.get('VK_KEEP'): shutil.rmtree(work, ignore_errors=True) if not viol else [os.remove(f) for f in glob.glob(work + '/*.bc') + glob.glob(work + '/*.o')]
    vac = [e for e in per if not per[e]['asserts']] + [e for e, rec, err in results if e not in per]
    if vac and not viol: print('%s: no answer, nothing was decided for %s' % (prop, ' '.join(vac))); return 2
    if tot['incomplete'] and not viol: log('  part of the exploration is incomplete (see the evidence file)')
    print('%s: %s' % (prop, 'violated' if viol else 'held on everything explored'))
    return 1 if viol else 0

def matches(k, r):
    if k.get('entry') and not re.fullmatch(k['entry'], r['entry']): return False
    if k.get('msg') and not re.search(k['msg'], r['msg']): return False
    if k.get('what_kind') and k['what_kind'] != r.get('what'): return False
    if k.get('loc') and not re.search(k['loc'], r.get('loc', '')): return False
    if k.get('when'):
        v = {re.sub(r'\W', '_', n): (float.fromhex(x) if 'x' in x else int(x)) for n, x in r['vals'].items()}
        class D(dict):
            def __missing__(s, key): return None
        try:
            if not eval(k['when'], {'__builtins__': {}}, D(v)): return False
        except Exception: return False
    return True

class Native:
    """The same harness compiled natively (clang, AddressSanitizer); a second build without it runs under valgrind."""
    def __init__(s, work, srcs, inc): s.work = work; s.srcs = srcs + [os.path.join(V, 'harness', 'native.cpp')]; s.inc = inc; s.exe = os.path.join(work, 'native_asan'); s.exe2 = os.path.join(work, 'native_plain'); s.th = None; s.err = None; s.lock = threading.Lock(); s.plain = False
    def build(s, exe, flags):
        def c(a):
            i, f = a; o = '%s_%d.o' % (exe, i); r = run(['nice', 'clang++', '-std=c++17', '-O1', '-g1', '-w', '-DVK_NATIVE', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern'] + flags + s.inc + ['-c', f, '-o', o], 800); return o, r
        with ThreadPoolExecutor(4) as ex: res = list(ex.map(c, enumerate(s.srcs)))
        for o, r in res:
            if r.returncode: return r.stdout[:2000]
        r = run(['clang++', '-o', exe] + flags + [o for o, _ in res] + ['-lpthread', '-ldl'])
        return r.stdout[:2000] if r.returncode else None
    def start(s): s.th = threading.Thread(target=lambda: None if os.environ.get('VK_NONATIVE') else setattr(s, 'err', s.build(s.exe, ['-fsanitize=address,integer-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']))); s.th.start()
    def need(s):
        s.th.join()
        if s.err: log('native build failed', s.err)
    def finish(s):
        if s.th: s.th.join()
    def needplain(s):
        with s.lock:
            if not s.plain: s.plain = True; s.err2 = s.build(s.exe2, []); 
            if s.err2: log('native build failed', s.err2)
    def write(s, r, path):
        with open(path, 'w') as f:
            for k, v in r['vals'].items(): f.write('%s %s\n' % (k, v))
    def exec(s, exe, r, pre=[], env={}):
        s_id = hashlib.md5(json.dumps(r, sort_keys=True).encode()).hexdigest()[:10]; p = os.path.join(s.work, 'v_%s.txt' % s_id); s.write(r, p)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', **env)
        try: x = run(pre + [exe, r['entry'], p], 120, env=e, cwd=s.work); return x.returncode, x.stdout
        except subprocess.TimeoutExpired: return 124, 'timeout'
    def runvals(s, r):
        if s.err or os.environ.get('VK_NONATIVE'): return 78, 'no native build'
        return s.exec(s.exe, r)
    def replay(s, r, repd):
        if s.err or os.environ.get('VK_NONATIVE'): return False, 'native build failed'
        rc, o = s.exec(s.exe, r); w = r['what']; tail = o.strip()[-300:]
        if rc == 77: return True, tail
        if rc == 78: return False, 'assumption not met natively'
        if w in ('assert', 'exception', 'abort', 'memory', 'arith', 'ub', 'stack', 'uninit') and rc in (99, 76) : return True, (re.search(r'ERROR: AddressSanitizer[^\n]*|REPRODUCED[^\n]*|runtime error[^\n]*', o) or re.search(r'.*', tail)).group(0)
        if rc not in (0, 77, 78, 124, 2): return True, 'exit %s %s' % (rc, tail)
        if w == 'race': return s.race(r)
        if rc == 124 and w in ('stack', 'ub'): return True, 'does not terminate'
        if w in ('uninit', 'memory'):
            s.needplain()
            if s.err2: return False, 'native build failed'
            rc, o = s.exec(s.exe2, r, ['valgrind', '-q', '--error-exitcode=98', '--leak-check=no', '--track-origins=no'], {'VK_NOFILL': '1'})
            if rc == 98: return True, 'valgrind: ' + (re.search(r'(Conditional jump|Use of uninit|Invalid (read|write)|Syscall param)[^\n]*', o) or re.search(r'.*', o)).group(0)
            return False, 'valgrind rc %s %s' % (rc, o[-200:])
        return False, 'rc %s %s' % (rc, tail)
    def race(s, r):
        exe = os.path.join(s.work, 'native_tsan')
        with s.lock:
            if not os.path.exists(exe):
                e = s.build(exe, ['-fsanitize=thread', '-DVK_THREADS'])
                if e: return False, 'tsan build failed ' + e
        rc, o = s.exec(exe, r, env={'TSAN_OPTIONS': 'exitcode=97 halt_on_error=1'})
        return rc == 97, (re.search(r'WARNING: ThreadSanitizer[^\n]*', o) or re.search(r'.*', o[-200:])).group(0)

def finish_error(msg):
    log('CHECK ERROR:', msg); return 2
if __name__ == '__main__': sys.exit(main())
