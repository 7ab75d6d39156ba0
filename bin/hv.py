"""Driver: builds bitcode of /repo's current tree, runs symx on the harness
entries of a property, replays counterexamples natively, writes evidence."""
import sys, os, re, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HV_REPO', '/repo')
SYMX = VERIF + '/build/symx'
LIB = VERIF + '/symx/lib'
NPROC = os.cpu_count() or 8
DEFS = ['-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE']
SEM = ['-fwrapv', '-fno-pic', '-fno-pie', '-fno-delete-null-pointer-checks', '-ffp-contract=off']
CL = ['clang', '-std=c11', '-O1', '-g0', '-Wno-everything', '-emit-llvm', '-c', '-fno-strict-aliasing',
      '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-jump-tables'] + SEM + DEFS

IO = ['-include', LIB + '/sx_io.h']

class BuildError(Exception): pass

def sh(cmd, cwd=None, timeout=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors='replace')

def sources():
    out = []
    for mk in ('hob3lbase.mk', 'hob3lmat.mk', 'hob3lop.mk', 'hob3l.mk'):
        t = open(REPO + '/' + mk).read().replace('\\\n', ' ')
        for m in re.finditer(r'^MOD_C\.(\S+)\s*:=\s*(.*)$', t, re.M):
            if m.group(1) in ('libhob3lbase.a', 'libhob3lmat.a', 'libhob3lop.a', 'libhob3l.a'):
                out += [x for x in m.group(2).split() if x.endswith('.c')]
    return [s for s in out if os.path.exists(REPO + '/src/' + s)]

def gen(dirn):
    """generated headers, exactly as hob3l.mk makes them"""
    d = dirn + '/inc'; os.makedirs(d, exist_ok=True)
    for s in os.listdir(REPO + '/src/hob3l'):
        b, e = os.path.splitext(s)
        tool = {'.sieve': 'mksieve', '.switch': 'mkswitch'}.get(e)
        if not tool: continue
        p = subprocess.run(['%s/script/%s' % (REPO, tool), REPO + '/src/hob3l/' + s], stdout=open(d + '/' + b + '.inc', 'wb'), stderr=subprocess.PIPE, cwd=REPO)
        if p.returncode: raise BuildError('%s %s: %s' % (tool, s, p.stderr.decode()))
    return d

def incs(dirn): return ['-I' + REPO + '/include', '-I' + dirn + '/inc', '-I' + REPO + '/src', '-I' + LIB, '-I' + VERIF + '/harness']

def feat(s):
    """sx_io.h includes system headers first: it has to see the feature macros that a source defines"""
    try: t = open(REPO + '/src/' + s, errors='replace').read()
    except OSError: return []
    return ['-D%s=%s' % (m.group(1), m.group(2).strip()) for m in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+(_(?:GNU|DEFAULT|POSIX_C|XOPEN|BSD)_SOURCE)\b(.*)$', t, re.M)]

def par(cmds):
    with ThreadPoolExecutor(NPROC) as ex:
        for (c, (rc, o)) in zip(cmds, ex.map(lambda c: sh(c), cmds)):
            if rc: raise BuildError(' '.join(c) + '\n' + o[-3000:])

def build_bc(dirn):
    gen(dirn); cmds = []; bcs = []
    for s in sources():
        o = dirn + '/' + s.replace('/', '_')[:-2] + '.bc'; bcs.append(o)
        cmds.append(CL + feat(s) + IO + incs(dirn) + [REPO + '/src/' + s, '-o', o])
    lc = dirn + '/_libc.bc'
    cmds.append(CL + ['-ffreestanding', '-fno-builtin', '-I' + LIB, LIB + '/libc.c', '-o', lc])
    par(cmds)
    return bcs, lc

def link_harness(dirn, h, bcs, lc):
    base = dirn + '/H_' + h.replace('.c', '').replace('/', '_')
    rc, o = sh(CL + IO + incs(dirn) + [VERIF + '/harness/' + h, '-o', base + '.bc'])
    if rc: raise BuildError('harness %s does not compile against the current tree:\n%s' % (h, o[-3000:]))
    rc, o = sh(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link', base + '.bc'] + bcs + [lc, '-o', base + '.full.bc'])
    if rc: raise BuildError('link %s: %s' % (h, o[-3000:]))
    return base + '.full.bc'

NAT = ['gcc', '-std=c11', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-strict-overflow', '-fno-strict-aliasing'] + SEM + DEFS
def build_native(dirn, log=None):
    nd = dirn + '/nat'; os.makedirs(nd, exist_ok=True); cmds = []; objs = []
    for s in sources():
        o = nd + '/' + s.replace('/', '_')[:-2] + '.o'; objs.append(o)
        cmds.append(NAT + feat(s) + IO + ['-c'] + incs(dirn) + [REPO + '/src/' + s, '-o', o])
    par(cmds)
    return objs

def native_exe(dirn, h, entry, objs):
    exe = dirn + '/nat/' + h.replace('/', '_') + '.' + entry
    if os.path.exists(exe): return exe
    for c in (IO + [VERIF + '/harness/' + h, '-o', exe + '.h.o'], [LIB + '/sx_native.c', '-o', exe + '.n.o']):
        rc, o = sh(NAT + incs(dirn) + ['-DSX_ENTRY=' + entry, '-DSX_NATIVE=1', '-c'] + c)
        if rc: raise BuildError('native harness: ' + o[-3000:])
    rc, o = sh(NAT + [exe + '.h.o', exe + '.n.o'] + objs + ['-no-pie', '-lm', '-o', exe])
    if rc: raise BuildError('native harness: ' + o[-3000:])
    return exe

def replay(exe, inputs, params, dirn, timeout=20):
    """returns (confirmed, text)"""
    d = tempfile.mkdtemp(dir=dirn); f = d + '/inputs.txt'
    with open(f, 'w') as fo:
        for n, v in inputs: fo.write('%s %s\n' % (n, v))
    env = dict(os.environ, SX_REPLAY=f, SX_PARAMS=','.join('%s=%s' % kv for kv in params.items()), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')
    try:
        p = subprocess.run([exe], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', 'no result within %ds' % timeout
    return rc, out

def load_known():
    p = VERIF + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def known_match(kf, pid, entry, msg, inputs):
    for k in kf.get('findings', []):
        if k['property'] != pid or k['entry'] != entry or k['message'] != msg: continue
        iv = {}
        for n, v in inputs: iv.setdefault(n, []).append(int(v))
        if all(iv.get(n) == v for n, v in k.get('inputs', {}).items()): return k
    return None

def run_check(pid, tier, reg, only=None, verbose=False):
    t0 = time.time(); P = reg[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ents = [e for e in P['entries'] if (only is None or e['entry'] in only) and (tier == 'thorough' or not e.get('thorough_only'))]
    scratch = tempfile.mkdtemp(prefix='hv_')
    res = []; viol = []; knownhit = []; unconf = []; err = None
    try:
        if not os.path.exists(SYMX): raise BuildError('symx not built: run setup_cmd')
        bcs, lc = build_bc(scratch); full = {}
        for h in sorted({e['file'] for e in ents}): full[h] = link_harness(scratch, h, bcs, lc)
        objs = None; kf = load_known()
        for e in ents:
            cfg = dict(e.get('quick', {})); 
            if tier == 'thorough': cfg.update(e.get('thorough', {}))
            params = cfg.get('params', {}); tl = cfg.get('time', 20)
            out = scratch + '/out.json'
            if os.path.exists(out): os.unlink(out)
            cmd = [SYMX, '--bc', full[e['file']], '--entry', e['entry'], '--jobs', str(NPROC), '--time', str(tl), '--out', out]
            for k, v in params.items(): cmd += ['--set', '%s=%d' % (k, v)]
            rc, o = sh(cmd, timeout=tl + 120)
            if rc or not os.path.exists(out): raise BuildError('symx failed on %s: %s' % (e['entry'], o[-2000:]))
            r = json.load(open(out)); r['bound'] = e.get('bound', ''); r['params'] = params; r['stderr'] = o[-300:]
            if verbose: print('  %-28s complete=%s paths=%d pruned=%d q=%d unk=%d cap=%d div=%d fpc=%d asserts=%d viol=%d wall=%.1f solver=%.1f %s' % (e['entry'], r['complete'], r['paths'], r['pruned'], r['queries'], r['unknown'], r['capped'], r['diverged'], r['fp_concretized'], r['asserts'], len(r['violations']), r['wall_s'], r['solver_s'], o.strip()[:200])); sys.stdout.flush()
            for v in r['violations']:
                if verbose: print('    cex', v['kind'], v['msg'], ' '.join('%s=%s' % tuple(x) for x in v['inputs'])[:400])
                if objs is None: objs = build_native(scratch)
                exe = native_exe(scratch, e['file'], e['entry'], objs)
                if v['kind'] == 'engine': unconf.append({'entry': e['entry'], 'kind': v['kind'], 'msg': v['msg']}); continue
                nrc, txt = replay(exe, v['inputs'], params, scratch)
                ok = nrc not in (0, 78)
                if verbose: print('    replay rc', nrc, txt.strip().split('\n')[0][:200] if not ok or True else '')
                if not ok: unconf.append({'entry': e['entry'], 'kind': v['kind'], 'msg': v['msg'], 'inputs': v['inputs']}); continue
                k = known_match(kf, pid, e['entry'], v['msg'], v['inputs'])
                if k: knownhit.append(k); continue
                viol.append({'entry': e['entry'], 'file': e['file'], 'kind': v['kind'], 'msg': v['msg'], 'inputs': v['inputs'], 'params': params, 'native': txt[-1500:], 'native_rc': nrc})
            # vacuity
            miss = [l for l in e.get('reach', []) if r['reach'].get(l, 0) == 0]
            r['vacuous'] = miss; 
            if miss and not viol and r['complete']: err = 'entry %s never reached %s' % (e['entry'], miss)
            if verbose and miss: print('    NOT REACHED:', miss)
            res.append(r)
            if viol and tier == 'quick': break
    except BuildError as x:
        err = str(x)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fns = sorted({f for r in res for f in r['functions'] if re.match(r'^_?_?(cp_|cq_)', f) or f in P.get('extra_fns', [])})
    allf = sorted({f for r in res for f in r['functions']})
    q = sum(r['queries'] for r in res); unk = sum(r['unknown'] for r in res)
    complete = bool(res) and all(r['complete'] and not r['unknown'] and not r['capped'] and not r['diverged'] for r in res)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
      'assumptions': P.get('assumptions', []),
      'coverage': {
        'states': sum(r['paths'] for r in res), 'transitions': sum(r['decisions'] for r in res),
        'traces_validated_against_impl': len(viol) + len(unconf) + len(knownhit),
        'samples': [{'entry': r['entry'], 'bound': r['bound'], 'params': r['params'], 'paths': r['paths'], 'assert_sites': r['assert_counts'], 'reached': r['reach']} for r in res][:20] or [{'error': err}],
        'explanation': 'states = symbolic paths of the real code executed to their end (each stands for all inputs satisfying its path condition); transitions = symbolic branch/choice constraints; assertions are decided by Z3 for all values on the path',
        'exhaustive': complete,
        'solver_queries': q, 'solver_sat': sum(r['sat'] for r in res), 'solver_unsat': sum(r['unsat'] for r in res), 'solver_unknown': unk, 'solver_cache_hits': sum(r['cache_hits'] for r in res), 'decided_by_finite_domain_table': sum(r.get('finite_domain', 0) for r in res), 'finite_domain_tables': sum(r.get('tables', 0) for r in res), 'finite_domain_tables_confirmed_by_z3': sum(r.get('tables_confirmed', 0) for r in res), 'solver_time_s': round(sum(r['solver_s'] for r in res), 2),
        'assertions_checked': sum(r['asserts'] for r in res), 'assertion_queries': sum(r['assert_queries'] for r in res),
        'instructions_executed': sum(r['instrs'] for r in res), 'inputs_outside_assumptions': sum(r['pruned'] for r in res),
        'value_choices_capped': sum(r['capped'] for r in res), 'diverged': sum(r['diverged'] for r in res),
        'functions_encoded': fns, 'functions_executed_total': len(allf),
        'entries': [{k: r[k] for k in ('entry', 'complete', 'paths', 'left', 'queries', 'unknown', 'solver_s', 'wall_s', 'bound', 'params', 'vacuous')} for r in res],
        'unconfirmed_counterexamples': unconf, 'error': err}}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in knownhit}:
        print('KNOWN-FINDING: property=%s %s' % (pid, json.loads(k)['what']))
    if unconf and verbose: print('  unconfirmed:', json.dumps(unconf)[:1500])
    if viol:
        v = viol[0]; rp = '%s/evidence/%s.replay.json' % (VERIF, pid); json.dump(viol, open(rp, 'w'), indent=1)
        print('violated: %s [%s] %s' % (v['entry'], v['kind'], v['msg'])); print('inputs: ' + ' '.join('%s=%s' % tuple(x) for x in v['inputs'])[:1000]); print(v['native'][-600:])
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if err: print('ERROR: ' + err, file=sys.stderr); return 2
    print('%s %s: held on %d paths, %d queries (%d unknown), %s, %.1fs' % (pid, tier, sum(r['paths'] for r in res), q, unk, 'bounded space exhausted' if complete else 'NOT exhausted within the budget', time.time() - t0))
    return 0
