#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE | --list

Builds LLVM bitcode of /repo's current sources, links it with the environment model and the
property's harnesses, lets usym (bin/usym, sources in engine/) decide every configuration, replays
each counterexample natively against the real objects, and writes evidence/<property>.json."""
import sys, os, json, subprocess, hashlib, tempfile, shutil, time, concurrent.futures as cf, fnmatch, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('URKEL_REPO', '/repo')
sys.path.insert(0, V)
import props
DEFS = ['-D_POSIX_C_SOURCE=200112', '-DURKEL_DEBUG', '-DURKEL_TLS=__thread', '-DURKEL_BUILD']
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + V + '/model', '-I' + V + '/harness']
SKIP = {'urkel.c', 'io_posix.c', 'io_win.c'}
class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0: raise BuildError(' '.join(cmd[:12]) + '\n' + p.stdout[-3000:])
    return p.stdout

def engine(tmp):
    """the symbolic executor: the committed binary when it matches its sources, else a fresh build"""
    src = [os.path.join(V, 'engine', f) for f in ('usym.cc', 'aig.h', 'sat.h')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    b = os.path.join(V, 'bin', 'usym')
    try:
        if open(b + '.sha256').read().split() == [h, hashlib.sha256(open(b, 'rb').read()).hexdigest()] and subprocess.run([b, '--version'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: return b
    except OSError: pass
    out = os.path.join(tmp, 'usym')
    run(['clang++-18', '-std=c++17', '-O2', '-w', '-I/usr/lib/llvm-18/include', src[0], '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-o', out])
    return out

def libsrc(cfg):
    fs = sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.c') and f not in SKIP)
    if cfg.get('hash', 'ideal') == 'ideal': fs = [f for f in fs if f != 'blake2b.c']
    if cfg.get('cli'): fs.append('urkel.c')
    return [REPO + '/src/' + f for f in fs]
def models(cfg):
    r = [V + '/model/posix.c']
    if cfg.get('hash', 'ideal') == 'ideal': r.append(V + '/model/hash.c')
    if cfg.get('cli'): r.append(V + '/model/stdio.c')
    return r
BC = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-U__clang__', '-ffp-contract=off', '-emit-llvm', '-c']
def bitcode(cfg, tmp):
    """compile the library, model and harness to one optimised bitcode module"""
    key = hashlib.sha1(json.dumps([cfg['h'], cfg.get('hash'), cfg.get('libdefs'), cfg.get('hdefs'), cfg.get('cli')]).encode()).hexdigest()[:12]
    d = os.path.join(tmp, key); out = d + '/all.bc'
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True); jobs = []
    for f in libsrc(cfg): jobs.append(BC + ['-std=gnu90'] + DEFS + (['-Dmain=cli_main'] if f.endswith('/urkel.c') else []) + cfg.get('libdefs', []) + INC + [f, '-o', d + '/L_' + os.path.basename(f)[:-2] + '.bc'])
    for f in models(cfg) + [V + '/model/libc.c', V + '/harness/' + cfg['h']]: jobs.append(BC + ['-std=gnu99'] + cfg.get('hdefs', []) + INC + [f, '-o', d + '/M_' + os.path.basename(f)[:-2] + '.bc'])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    parts = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.bc'))
    run(['llvm-link-18'] + parts + ['-o', d + '/link.bc'])
    run(['opt-18', '-passes=mem2reg,instsimplify,simplifycfg', d + '/link.bc', '-o', d + '/all.tmp']); os.rename(d + '/all.tmp', out)
    return out

# ---------------------------------------------------------------- replay
SAN = {'asan': ('gcc', ['-fsanitize=address,undefined', '-fno-sanitize=alignment'], True), 'msan': ('clang-18', ['-fsanitize=memory', '-fsanitize-memory-track-origins', '-U__clang__'], True), 'tsan': ('gcc', ['-fsanitize=thread'], False)}
def native(cfg, tmp, san):
    key = hashlib.sha1(json.dumps([cfg['h'], cfg.get('hash'), cfg.get('libdefs'), cfg.get('hdefs'), cfg.get('cli'), san]).encode()).hexdigest()[:12]
    d = os.path.join(tmp, 'n' + key); exe = d + '/replay'
    if os.path.exists(exe): return exe
    os.makedirs(d, exist_ok=True); cc, fl, allobj = SAN[san]; jobs = []
    base = [cc, '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-c']
    libs = []; mods = []
    for f in libsrc(cfg):
        o = d + '/L_' + os.path.basename(f)[:-2] + '.o'; libs.append(o)
        jobs.append(base + fl + ['-std=gnu90'] + DEFS + (['-Dmain=cli_main'] if f.endswith('/urkel.c') else []) + cfg.get('libdefs', []) + INC + [f, '-o', o])
    for f in models(cfg) + [V + '/harness/' + cfg['h'], V + '/model/native.c']:
        o = d + '/M_' + os.path.basename(f)[:-2] + '.o'; mods.append(o)
        jobs.append(base + (fl if allobj else []) + ['-std=gnu99'] + cfg.get('hdefs', []) + INC + [f, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    names = set()
    for o in mods:
        for l in run(['nm', '--defined-only', '-g', o]).splitlines():
            p = l.split()
            if len(p) >= 3 and p[-1].startswith('m_'): names.add(p[-1][2:])
    with open(d + '/map', 'w') as f:
        for n in sorted(names): f.write('%s m_%s\n' % (n, n))
        for n in ('malloc', 'calloc', 'realloc', 'free'): f.write('%s sxn_%s\n' % (n, n))
    for o in libs: run(['objcopy', '--redefine-syms=' + d + '/map', o])
    run([cc] + fl + libs + mods + ['-lpthread', '-o', exe])
    return exe
def replay(cfg, viol, tmp, path):
    """run the counterexample against the natively compiled code; returns (confirmed, text)"""
    with open(path, 'w') as f: json.dump({'config': cfg, 'violation': viol}, f, indent=1)
    inp = os.path.join(tmp, 'in%d' % (time.time_ns() % 10**12))
    with open(inp, 'w') as f:
        for n, h in viol['inputs']: f.write('%s %s\n' % (n, h)) if h else None
    order = {'race': ['tsan'], 'uninit': ['msan', 'asan']}.get(viol['kind'], ['asan'])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1:exitcode=66:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=66', MSAN_OPTIONS='exit_code=66', TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_atomic_races=0')
    txt = ''
    for san in order:
        exe = native(cfg, tmp, san)
        try:
            p = subprocess.run([exe, inp] + ['%s=%d' % kv for kv in cfg.get('P', {}).items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=40, env=env); rc = p.returncode; txt = p.stderr[-2500:]
        except subprocess.TimeoutExpired: rc = 'timeout'; txt = 'the replay does not finish'
        if rc == 77: return True, txt
        if rc == 66 or (isinstance(rc, int) and (rc < 0 or rc > 120)): return True, txt
        if rc == 'timeout' and viol['kind'] == 'hang': return True, txt
    return False, txt

# ---------------------------------------------------------------- known findings
def findings():
    try: return json.load(open(V + '/known-findings.json'))['findings']
    except OSError: return []
def match(fd, prop, cfg, v):
    return fd.get('status') == 'known' and fd['property'] == prop and fnmatch.fnmatch(v['msg'], fd['msg']) and fnmatch.fnmatch(v['loc'].split(' ')[0], fd.get('function', '*')) and fnmatch.fnmatch(cfg['name'], fd.get('config', '*'))

def validate(cfg, r, tmp, n):
    """translator validation: solver-chosen inputs of completed paths must also pass natively"""
    exe = native(cfg, tmp, 'asan'); ok = 0; bad = []
    for k, vec in enumerate(r['vectors'][:n]):
        inp = os.path.join(tmp, 'vec%d.%d' % (k, time.time_ns() % 10**12))
        with open(inp, 'w') as f:
            for nm, h in vec: f.write('%s %s\n' % (nm, h)) if h else None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=66', UBSAN_OPTIONS='halt_on_error=1:exitcode=66')
        try: p = subprocess.run([exe, inp] + ['%s=%d' % kv for kv in cfg.get('P', {}).items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=60, env=env)
        except subprocess.TimeoutExpired: bad.append('timeout'); continue
        if p.returncode == 0: ok += 1
        else: bad.append('%s %s' % (p.returncode, p.stderr[-400:]))
    return ok, bad

def decide(prop, cfg, tier, tmp, eng):
    bc = bitcode(cfg, tmp); out = os.path.join(tmp, '%s.%s.json' % (cfg['name'], prop))
    t = cfg.get('t', 60) * (6 if tier == 'thorough' else 1)
    cmd = [eng, bc, '-t', str(t), '-o', out, '-v', str(cfg.get('maxviol', 3)), '-i', str(cfg.get('insts', 60000000)), '-z', str(cfg.get('z3', 20))]
    if cfg.get('norace'): cmd.append('-R')
    if cfg.get('paths'): cmd += ['-p', str(cfg['paths'])]
    for k, x in cfg.get('P', {}).items(): cmd += ['-P', '%s=%d' % (k, x)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t + 240)
    if not os.path.exists(out): raise BuildError('the engine failed: ' + p.stdout[-800:])
    r = json.load(open(out))
    for v in r['violations']: # a limit of the environment model is not a finding about the code
        if v['msg'].startswith('model:'): v['kind'] = 'engine'; r['complete'] = False
    return r

def check(prop, tier):
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix='usym-'); rc = 0; ev = os.path.join(V, 'evidence'); os.makedirs(ev + '/replay', exist_ok=True)
    res = []; lines = []
    try:
        eng = engine(tmp); P = props.PROPS[prop]
        cfgs = [c for c in P['configs'] if tier == 'thorough' or not c.get('thorough')]
        # build each distinct module first, then decide all configurations in parallel
        seen = {}
        for c in cfgs: seen.setdefault(json.dumps([c['h'], c.get('hash'), c.get('libdefs'), c.get('hdefs'), c.get('cli')]), c)
        builderr = None
        for c in seen.values():
            try: bitcode(c, tmp)
            except BuildError as e: builderr = str(e); print('BUILD-PROBLEM', prop, c['h'], str(e)[-600:])
        hit = []
        def one(c): # once something is found, the rest only gets a short look
            try:
                r = decide(prop, dict(c, t=min(c.get('t', 60), 15)) if hit else c, tier, tmp, eng)
                if any(v['kind'] != 'engine' and not any(match(f, prop, c, v) for f in findings()) for v in r['violations']): hit.append(1)
                return c, r, None
            except Exception as e: return c, None, str(e)
        budget = P.get('budget', 240) if tier == 'quick' else 780
        ex = cf.ThreadPoolExecutor(P.get('jobs', 8))
        futs = [ex.submit(one, c) for c in sorted(cfgs, key=lambda c: -c.get('w', 1))]
        for f in cf.as_completed(futs):
            c, r, err = f.result(); res.append((c, r, err))
            if err: print('PROBLEM', prop, c['name'], err[-400:])
        ex.shutdown()
        res.sort(key=lambda x: x[0]['name'])
        nrep = 0; known = set(); viols = []; unconf = []; vac = []
        for c, r, err in res:
            if not r: continue
            for w in c.get('reach', []):
                if not r['reach'].get(w) and r['complete'] and not r['violations']: vac.append(c['name'] + ':' + w)
            for v in r['violations']:
                if v['kind'] == 'engine': unconf.append((c['name'], v['msg'])); continue
                kf = [f for f in findings() if match(f, prop, c, v)]
                if kf: known.add(kf[0]['id']); continue
                if nrep >= 6 and viols: continue
                nrep += 1; path = '%s/replay/%s-%d.json' % (ev, prop, nrep)
                try: ok, txt = replay(c, v, tmp, path)
                except BuildError as e: ok, txt = False, str(e)
                v['confirmed'] = ok
                if ok: viols.append({'config': c['name'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'stack': v['stack'], 'replay': path, 'output': txt[-1200:]}); lines.append('VIOLATION property=%s replay=%s' % (prop, path)); print('%s: %s: %s at %s [%s]' % (c['name'], v['kind'], v['msg'], v['loc'], v['stack']))
                else: unconf.append((c['name'], '%s: %s at %s [%s] did not reproduce: %s' % (v['kind'], v['msg'], v['loc'], v['stack'], txt[-300:])))
        nval = 0
        if not viols:
            pick = [x for x in res if x[1] and x[1]['vectors'] and not x[0].get('noval')]
            for c, r, err in (pick if tier == 'thorough' else pick[:P.get('validate', 1)]):
                try:
                    k, bad = validate(c, r, tmp, 3); nval += k
                    for b in bad: unconf.append((c['name'], 'a path that passes symbolically fails natively: ' + b))
                except BuildError as e: unconf.append((c['name'], str(e)[-400:]))
        for f in findings():
            if f['property'] == prop and f.get('status') == 'known': print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        for u in unconf: print('UNCONFIRMED', u[0], u[1])
        for u in vac: print('UNREACHED', u)
        for l in lines[:5]: print(l)
        rc = 1 if lines else 0
        evidence(prop, tier, P, res, viols, unconf, vac, known, time.time() - t0, nval)
        done = sum(1 for c, r, e in res if r and r['complete'])
        print('%s: %d/%d configurations decided completely, %d paths, %d queries, %.1f s' % (prop, done, len(cfgs), sum(r['paths'] for c, r, e in res if r), sum(r['queries'] for c, r, e in res if r), time.time() - t0))
    except BuildError as e:
        print('PROBLEM', prop, e); evidence(prop, tier, props.PROPS[prop], res, [], [('build', str(e))], [], set(), time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc

def evidence(prop, tier, P, res, viols, unconf, vac, known, wall, nval=0):
    S = lambda k: sum(r[k] for c, r, e in res if r)
    fns = {}
    for c, r, e in res:
        if r:
            for f, (a, b) in r['functions'].items():
                o = fns.get(f, [0, b]); fns[f] = [max(o[0], a), b]
    cov = {'states': S('paths') if res else 0, 'transitions': S('insts') if res else 0, 'traces_validated_against_impl': len(viols), 'samples': [s for c, r, e in res if r for s in r['samples']][:6] or ['none'],
      'explanation': 'Symbolic execution of the LLVM IR of /repo\'s sources: every listed path is a class of inputs; the solver decides every branch and assertion over all values within the bounds.',
      'bounds': P['bounds'], 'outside': P.get('outside', ''),
      'configurations': [{'name': c['name'], 'harness': c['h'], 'params': c.get('P', {}), 'complete': bool(r and r['complete']), 'error': e, **({k: r[k] for k in ('paths', 'forks', 'insts', 'queries', 'sat', 'unsat', 'unknown', 'asserts', 'asserts_by_rewriting', 'asserts_by_solver', 'z3_checked', 'z3_agreed', 'solver_s', 'z3_s', 'wall_s', 'reach', 'assert_counts', 'errors')} if r else {})} for c, r, e in res],
      'functions_encoded': {f: '%d/%d blocks' % tuple(x) for f, x in sorted(fns.items())},
      'queries': S('queries') if res else 0, 'solver_s': round(S('solver_s'), 3) if res else 0, 'z3_cross_checked': S('z3_checked') if res else 0, 'z3_agreed': S('z3_agreed') if res else 0,
      'violations': viols, 'unconfirmed_counterexamples': unconf, 'unreached_witnesses': vac, 'known_findings': sorted(known)}
    cov['traces_validated_against_impl'] = nval + len(viols)
    e = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov, 'wall_s': round(wall, 2),
         'assumptions': props.ASSUME + P.get('assume', []), 'violations': len(viols)}
    json.dump(e, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)

def main(a):
    if not a or a[0] == '--list':
        for p in sorted(props.PROPS): print(p, len(props.PROPS[p]['configs']))
        return 0
    if a[0] == '--replay':
        d = json.load(open(a[1])); tmp = tempfile.mkdtemp(prefix='usym-')
        ok, txt = replay(d['config'], d['violation'], tmp, os.path.join(tmp, 'r.json')); print(txt); print('reproduced' if ok else 'not reproduced'); shutil.rmtree(tmp, ignore_errors=True); return 1 if ok else 0
    tier = 'quick'
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    return check(a[0], tier)
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
