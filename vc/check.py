#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]  -- decide one property of /repo.

Compiles the real sources of /repo with the property's contract harness to LLVM IR,
generates the proof obligations, discharges them, replays counterexamples natively.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line otherwise.
"""
import os, sys, re, json, glob, time, subprocess, tempfile, shutil, hashlib, traceback, signal, resource
import multiprocessing as mp
from multiprocessing.pool import ThreadPool
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
CXX = 'clang++-18'
COMMON = ['-std=c++20', '-fno-exceptions', '-w', '-ffp-contract=off', '-fno-math-errno', '-I' + HERE, '-I' + os.path.join(VERIF, 'shims'), '-I' + HARN]
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-discard-value-names', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-fno-threadsafe-statics', '-fno-vectorize', '-DVC_SYMBOLIC=1', '-fno-access-control', '-fno-builtin']
PASSES = 'function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts;bonus-inst-threshold=0>,lower-expect,loop-simplify),globaldce'


def parse_harness(path):
    cfg = {'sources': [], 'stubs': [], 'opts': {}, 'flags': [], 'target': []}
    for l in open(path):
        m = re.match(r'//\s*VC-(\w+):\s*(.*)', l)
        if not m: continue
        k, v = m.group(1).lower(), m.group(2).strip()
        if k == 'sources': cfg['sources'] += v.split()
        elif k == 'stub':
            a, b = v.split('=>'); cfg['stubs'].append((a.strip(), b.strip()))
        elif k == 'flags': cfg['flags'] += v.split()
        elif k == 'opt':
            for kv in v.split():
                a, b = kv.split('='); cfg['opts'][a] = int(b) if b.lstrip('-').isdigit() else b
        elif k == 'target': cfg['target'].append(v)
    return cfg


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def build_ir(harness, cfg, tmp):
    """-> (ll path, None) or (None, error)"""
    jobs = []
    srcs = [(harness, 'h')] + [(os.path.join(REPO, s), 's%d' % i) for i, s in enumerate(cfg['sources'])]
    outs = []
    for s, n in srcs:
        o = os.path.join(tmp, n + '.ll')
        outs.append(o)
        jobs.append((s, subprocess.Popen([CXX] + COMMON + ['-I' + REPO] + cfg['flags'] + IRFLAGS + [s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    err = ''
    for s, p in jobs:
        _, e = p.communicate()
        if p.returncode: err += e
    if err: return None, err
    linked = os.path.join(tmp, 'l.ll'); opt = os.path.join(tmp, 'o.ll')
    r = run(['llvm-link-18', '-S'] + outs + ['-o', linked])
    if r.returncode: return None, r.stderr
    # keep only what the proofs reach
    r = run(['opt-18', '-S', '-passes=' + PASSES, linked, '-o', opt])
    if r.returncode: return None, r.stderr
    return opt, None


def build_native(harness, cfg, tmp):
    exe = os.path.join(tmp, 'native')
    objs = []; ps = []
    flags = COMMON + ['-I' + REPO] + cfg['flags'] + ['-O1', '-g1', '-fno-access-control', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=float-divide-by-zero,vptr', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-frtti']
    for i, s in enumerate([harness] + [os.path.join(REPO, x) for x in cfg['sources']] + [os.path.join(HERE, 'vc_native.cc')]):
        o = os.path.join(tmp, 'n%d.o' % i); objs.append(o)
        ps.append(subprocess.Popen([CXX] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    err = ''
    for p in ps:
        _, e = p.communicate()
        if p.returncode: err += e
    if err: return None, err
    r = run([CXX, '-fsanitize=address,undefined', '-rdynamic'] + objs + ['-o', exe, '-Wl,--start-group'] + sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')) + ['-Wl,--end-group', '-Wl,--unresolved-symbols=ignore-all', '-ldl', '-lm', '-lpthread'])
    if r.returncode: return None, r.stderr
    return exe, None


def demangle(names):
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n.lstrip('@').strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))


# ------------------------------------------------------------------ worker
def model_inputs(eng, m):
    import z3
    out = {}
    for nm, (kind, v) in eng.inputs.items():
        x = m.eval(v, model_completion=True)
        out[nm] = encode(kind, x)
    return out


def encode(kind, x):
    import z3, struct
    from fl import fpval_to_py
    try:
        if kind in ('f32', 'f64'):
            if z3.is_fp(x): f = fpval_to_py(x)
            elif z3.is_algebraic_value(x): f = float(x.approx(12).as_fraction())
            else: f = float(x.as_fraction())
            if kind == 'f32':
                try: b = struct.unpack('<I', struct.pack('<f', f))[0]
                except OverflowError: b = 0x7f800000
                return ('f', b)
            return ('d', struct.unpack('<Q', struct.pack('<d', f))[0])
        if kind == 'bool': return ('i', 1 if z3.is_true(x) else 0)
        return ('i', x.as_long() & 0xffffffff if kind == 'int' else x.as_long())
    except Exception:
        return ('i', 0)


SOLVERS = [('z3-new', lambda f, t: ['z3-new', '-T:%d' % t, f]),
           ('cvc5', lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--fp-exp', f]),
           ('z3-4.8', lambda f, t: ['/usr/bin/z3', '-T:%d' % t, f])]


def portfolio(smt, tmo, tag, tmp, inputs):
    """run external solvers in parallel on an SMT-LIB text; first definite answer wins"""
    f = os.path.join(tmp, 'q_%s.smt2' % tag)
    open(f, 'w').write(smt)
    ps = []
    for nm, mk in SOLVERS:
        try:
            ps.append((nm, subprocess.Popen(mk(f, tmo), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        except FileNotFoundError: pass
    t0 = time.time(); res = ('unknown', None)
    live = list(ps)
    while live and time.time() - t0 < tmo + 2:
        for x in list(live):
            nm, p = x
            if p.poll() is not None:
                live.remove(x)
                o = p.stdout.read().strip().split('\n')[0]
                if o in ('sat', 'unsat'):
                    res = (o, nm); break
        if res[1]: break
        time.sleep(0.02)
    for nm, p in ps:
        if p.poll() is None: p.kill()
        p.wait()
    try: os.unlink(f)
    except OSError: pass
    return res


def hints(eng, ob):
    """an assertion named '... [by x; y]' is first tried from the earlier lemmas x and y alone"""
    m = re.search(r'\[by (.*)\]$', ob.name)
    if not m: return []
    ids = {c.get_id() for c in ob.pc}
    return [c for n in m.group(1).split(';') for c in eng.lemma_names.get(n.strip(), []) if c.get_id() in ids]


def solve_obligation(eng, ob, opts, tmp, tag):
    import z3
    t = time.time()
    s = z3.Solver()
    s.set('timeout', int(opts['z3_ms']))
    neg = z3.simplify(z3.Not(ob.cond))
    fs = list(ob.pc) + list(eng.axioms) + [neg]
    if eng.mode == 'real':
        # weaker hypotheses first: algebraic identities need none of them
        import nra
        r = nra.prove(list(ob.pc), list(eng.axioms), neg, eng.lemmas, hints(eng, ob))
        if r:
            ob.status, ob.backend, ob.time = 'proved', r, time.time() - t
            return
    for c in fs: s.add(c)
    r = s.check()
    if r == z3.unsat:
        ob.status, ob.backend = 'proved', 'z3 ' + z3.get_version_string()
    elif r == z3.sat:
        ob.status, ob.backend = 'failed', 'z3 ' + z3.get_version_string()
        ob.model = model_inputs(eng, s.model())
        if eng.mode == 'real':
            # a counterexample made of small dyadic numbers replays exactly in binary32
            s2 = z3.Solver(); s2.set('timeout', 4000)
            for c in fs: s2.add(c)
            for nm, (kind, v) in eng.inputs.items():
                if kind in ('f32', 'f64'):
                    k = z3.Int('k!' + nm)
                    s2.add(4 * v == z3.ToReal(k), k >= -64, k <= 64)
            if s2.check() == z3.sat: ob.model = model_inputs(eng, s2.model())
    else:
        if eng.mode == 'fp':
            import fpabs
            g, ax, n = fpabs.abstract(fs)
            if n:
                s3 = z3.Solver(); s3.set('timeout', int(opts['z3_ms'] * 2))
                for c in g + ax: s3.add(c)
                if s3.check() == z3.unsat:
                    ob.status, ob.backend = 'proved', 'z3 %s over IEEE lemmas' % z3.get_version_string()
                    ob.time = time.time() - t
                    return
        smt = s.to_smt2()
        if os.environ.get('VC_DUMP'):
            with open('/tmp/vcdump_%s.txt' % tag, 'w') as df:
                df.write('OBL %s\nPC\n' % ob.name + '\n'.join(str(c) for c in ob.pc) + '\nAX\n' + '\n'.join(str(c) for c in eng.axioms) + '\nNEG\n' + str(neg) + '\n' + smt)
        rr, who = portfolio(smt, opts['ext_s'], tag, tmp, eng.inputs)
        if rr == 'unsat': ob.status, ob.backend = 'proved', who
        elif rr == 'sat':
            ob.status, ob.backend = 'failed', who
            s.set('timeout', int(opts['ext_s'] * 1000))
            if s.check() == z3.sat: ob.model = model_inputs(eng, s.model())
        else: ob.status = 'unknown'
    ob.time = time.time() - t


def prove_one(args):
    """worker: one harness function"""
    fn, mode, cfg, opts, tmp, deadline = args
    from irparse import Module
    import engine as E
    import z3
    t0 = time.time()
    res = {'fn': fn, 'mode': mode, 'status': 'ok', 'obls': [], 'trivial': 0, 'error': '', 'funcs': [], 'trusted': []}
    eng = None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        mod = G['mod']
        o = dict(cfg['opts'])
        o.update(opts.get('engine', {}))
        o.setdefault('max_time', opts['engine_s'])
        fnopts = cfg.get('fnopts', {}).get(fn, {})
        o.update(fnopts)
        eng = E.Engine(mod, mode, o)
        eng.dem = G['dem']
        for rx, st in cfg['stubs']:
            for nm in list(mod.fn_src) + list(mod.decls):
                if re.search(rx, G['dem'].get(nm, nm)): eng.stubs[nm] = '@' + st
        st = E.State()
        eng.cur = st
        from fl import NeedFork
        if os.environ.get('VC_PROF'):
            import cProfile, pstats
            pr = cProfile.Profile(); pr.enable()
        out = eng.run('@' + fn, [], st)
        if os.environ.get('VC_PROF'):
            pr.disable(); pstats.Stats(pr).sort_stats(os.environ['VC_PROF']).print_stats(30)
        res['paths'] = len(out)
        # vacuity: some path must reach the end of the harness
        reach = None
        for s, _ in out:
            sv = z3.Solver(); sv.set('timeout', 3000)
            for c in s.pc: sv.add(c)
            for c in eng.axioms: sv.add(c)
            r = sv.check()
            if r == z3.sat: reach = True; break
            if r == z3.unknown: reach = reach or 'unknown'
        res['reach'] = reach
    except Exception as e:
        res['status'] = 'undecided'
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
            print('stack', '\n   '.join(x[:150] for x in (getattr(eng, 'err_stack', None) or [])[-8:]))
    if eng is not None:
        res['engine_s'] = time.time() - t0
        res['instrs'] = eng.instrs
        res['checks'] = eng.checks
        res['check_s'] = eng.check_time
        res['trivial'] = sum(eng.trivial.values())
        res['trivial_names'] = sorted({'%s: %s' % k for k in eng.trivial})
        res['funcs'] = sorted({eng.dname(f) for f in eng.fnused})
        res['trusted'] = sorted(eng.trusted)
        res['covers'] = len(eng.covers)
        seen = {}
        for i, ob in enumerate(eng.obls):
            key = (tuple(c.get_id() for c in ob.pc), ob.cond.get_id())
            if key in seen:
                p = seen[key]; ob.status, ob.backend, ob.model = p.status, p.backend, p.model
            elif time.time() > deadline:
                ob.status = 'unknown'
            else:
                try: solve_obligation(eng, ob, opts, tmp, '%s_%d' % (fn[-60:], i))
                except Exception as e:
                    ob.status = 'unknown'; ob.backend = str(e)[:80]
                seen[key] = ob
            if os.environ.get('VC_SLOW') and ob.time > float(os.environ['VC_SLOW']): print('slow', fn[-40:], ob.kind, ob.name, ob.status, ob.backend, round(ob.time, 1), flush=True)
            res['obls'].append({'name': ob.name, 'kind': ob.kind, 'where': ob.where, 'status': ob.status,
                                'backend': ob.backend, 'time': round(ob.time, 3), 'model': ob.model})
            if ob.status == 'failed' and sum(1 for x in res['obls'] if x['status'] == 'failed') >= opts.get('max_fail', 6): 
                res['cut'] = True
                break
    res['wall'] = time.time() - t0
    return res


G = {}


def worker(job, q):
    try: r = prove_one(job)
    except BaseException as e:
        r = {'fn': job[0], 'mode': job[1], 'status': 'undecided', 'obls': [], 'trivial': 0, 'error': repr(e), 'funcs': [], 'trusted': []}
    q.send(r); q.close()
    os._exit(0)


def run_jobs(jobs, hard_deadline, nproc=8):
    """fork one process per harness function, at most nproc at a time"""
    pend = list(jobs); live = []; out = []
    while pend or live:
        while pend and len(live) < nproc:
            j = pend.pop(0)
            a, b = mp.Pipe(False)
            pid = os.fork()
            if pid == 0:
                a.close()
                worker(j, b)
            b.close()
            live.append((pid, a, j))
        done = mp.connection.wait([x[1] for x in live], timeout=0.5)
        for x in list(live):
            if x[1] in done:
                try: r = x[1].recv()
                except EOFError:
                    r = {'fn': x[2][0], 'mode': x[2][1], 'status': 'undecided', 'obls': [], 'trivial': 0, 'error': 'worker died (memory?)', 'funcs': [], 'trusted': []}
                os.waitpid(x[0], 0); live.remove(x); out.append(r)
        if time.time() > hard_deadline:
            for pid, a, j in live:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                out.append({'fn': j[0], 'mode': j[1], 'status': 'undecided', 'obls': [], 'trivial': 0, 'error': 'time budget', 'funcs': [], 'trusted': []})
            for j in pend:
                out.append({'fn': j[0], 'mode': j[1], 'status': 'undecided', 'obls': [], 'trivial': 0, 'error': 'time budget', 'funcs': [], 'trusted': []})
            return out
    return out


import multiprocessing.connection

TIERS = {'quick': dict(z3_ms=3000, ext_s=25, engine_s=120, budget=330, search_s=25, engine={}),
         'thorough': dict(z3_ms=10000, ext_s=120, engine_s=400, budget=700, search_s=60, engine={'thorough': 1})}

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')


def native_replay(exe, fn, model, tmp):
    f = os.path.join(tmp, 'in.txt')
    with open(f, 'w') as h:
        for nm, (k, v) in model.items(): h.write('INPUT %s %s %d\n' % (nm, k, v))
    try: r = run([exe, 'replay', fn, f], timeout=60, env=ENV)
    except subprocess.TimeoutExpired: return None, 'timeout'
    return r.returncode, r.stdout + r.stderr


def native_search(exe, fn, secs, tmp, seed):
    try: r = run([exe, 'search', fn, str(secs), str(seed)], timeout=secs + 60, env=ENV)
    except subprocess.TimeoutExpired: return None, 'timeout'
    return r.returncode, r.stdout + r.stderr


def main():
    import z3
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    opts = TIERS[tier]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    files = sorted(f for f in os.listdir(HARN) if re.match(pid + r'(_\w+)?\.cc$', f))
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    evdir = os.environ.get('VC_EVIDENCE') or os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    known = load_known(pid)
    results = []; errors = []; violations = []; knownhits = []; bounded = []; fps = {}
    base = load_baseline()
    try:
        deadline = t0 + opts['budget']
        units = []
        for hf in files:
            path = os.path.join(HARN, hf)
            cfg = parse_harness(path)
            sub = os.path.join(tmp, hf[:-3]); os.makedirs(sub)
            ll, err = build_ir(path, cfg, sub)
            if err:
                errors.append((hf, 'does not build against the current tree: ' + err[:1500])); continue
            from irparse import Module
            mod = Module(open(ll).read())
            fps[hf] = fingerprint(ll)
            G['mod'] = mod; G['dem'] = demangle(list(mod.fn_src) + list(mod.decls))
            jobs = []
            for nm in mod.fn_src:
                m = re.match(r'@vcproof_(fp|real|fpuf)__(\w+)$', nm)
                if m and (not only or re.search(only, nm)): jobs.append((nm[1:], m.group(1), cfg, opts, sub, deadline))
            rs = run_jobs(jobs, deadline + 30)
            for r in rs: r['file'] = hf
            results += rs
            units.append((path, cfg, sub, rs))
        # ---- failures: confirm natively, search
        nat = {}
        for path, cfg, sub, rs in units:
            bad = [r for r in rs if any(o['status'] == 'failed' for o in r['obls'])]
            und = [r for r in rs if r['status'] != 'ok' or any(o['status'] == 'unknown' for o in r['obls'])
                   or any(o['kind'] == 'unwind' and o['status'] == 'failed' for o in r['obls']) or r.get('reach') is None]
            if not bad and not und: continue
            exe, err = build_native(path, cfg, sub)
            if err: errors.append((os.path.basename(path), 'native build failed: ' + err[:800]))
            for r in bad:
                fails = [o for o in r['obls'] if o['status'] == 'failed' and o['kind'] != 'unwind']
                if not fails: continue
                confirmed = None
                if exe:
                    for o in fails:
                        if not o['model']: continue
                        rc, out = native_replay(exe, r['fn'], o['model'], sub)
                        if rc not in (0, 2, 3, None): confirmed = (o, out); break
                    if not confirmed:
                        rc, out = native_search(exe, r['fn'], opts['search_s'], sub, seed)
                        if rc not in (0, 2, 3, None): confirmed = (fails[0], out)
                violations.append((r, fails, confirmed))
            todo = [r for r in und if not any(v[0] is r for v in violations)]
            budget = min(opts['search_s'], max(5, 760 - (time.time() - t0)))
            with ThreadPool(8) as tp:
                found = tp.map(lambda r: native_search(exe, r['fn'], budget, sub, seed) if exe else (None, 'not built'), todo)
            for r, (rc, out) in zip(todo, found):
                r['searched'] = out.strip().split('\n')[-1][:100]
                if rc not in (0, 2, 3, None):
                    violations.append((r, [{'name': first_fail(out), 'kind': 'search', 'where': r['fn'], 'backend': 'native search', 'model': None}], (None, out)))
                    continue
                bounded.append(r)
                # The verifier discharged this proof on the committed tree (see harness/baseline.json) and does not
                # accept it for the changed code.  When the generated IR is the one already proved, an unanswered
                # query is a matter of solver time only.
                b = base.get(r['file'])
                if b and b['ir'] != fps.get(r['file']) and r['fn'] not in b['open']:
                    fails = [dict(o, model=None) for o in r['obls'] if o['status'] != 'proved']
                    if r['status'] != 'ok' or not fails:
                        fails = [{'name': 'obligations of %s could not be generated: %s' % (r['fn'], r['error'] or 'no path reaches the end'), 'kind': 'undecided', 'where': r['fn'], 'backend': '', 'model': None}]
                    violations.append((r, fails, None))
        for hf, e in errors:
            if hf in base and not any(v[0].get('file') == hf for v in violations) and 'native build' not in e:
                violations.append(({'fn': hf, 'file': hf, 'mode': '-', 'obls': [], 'trivial': 0, 'funcs': [], 'trusted': [], 'status': 'undecided', 'error': e},
                                   [{'name': 'contracts of %s no longer apply to the code: %s' % (hf, e), 'kind': 'undecided', 'where': hf, 'backend': 'clang', 'model': None}], None))
        lines = []
        for n, (r, fails, confirmed) in enumerate(violations):
            key = '%s/%s' % (r['fn'], fails[0]['name'])
            kf = [k for k in known if k['match'] in key or any(k['match'] in '%s/%s' % (r['fn'], f['name']) for f in fails)]
            if kf and all(any(k['match'] in '%s/%s' % (r['fn'], f['name']) for k in kf) for f in fails):
                knownhits.append(kf[0]); continue
            rp = os.path.join(rdir, '%s_%d.txt' % (pid, n))
            with open(rp, 'w') as f:
                f.write('property %s\nharness %s (%s, mode %s)\n' % (pid, r['fn'], r['file'], r['mode']))
                for o in fails:
                    f.write('failed obligation: [%s] %s  (in %s; back end %s)\n' % (o['kind'], o['name'], o['where'], o['backend']))
                    if o['model']:
                        f.write('  verifier counterexample:\n')
                        for nm, (k, v) in o['model'].items(): f.write('  INPUT %s %s %d%s\n' % (nm, k, v, pretty(k, v)))
                if confirmed:
                    f.write('native execution of the real code:\n' + confirmed[1][-6000:])
                    f.write('\nreplay: build harness with vc_native.cc, run  ./native replay %s <this file>\n' % r['fn'])
                else: f.write('no failing input found natively (replay of the model and search)\n')
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if confirmed else ' no-failing-input-found'))
        # confirmed first
        lines.sort(key=lambda l: l.endswith('found'))
        write_evidence(pid, tier, seed, results, errors, violations, lines, bounded, knownhits, time.time() - t0, evdir)
        report(results, errors, bounded)
        for k in knownhits: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
        if os.environ.get('VC_BASELINE') and not lines and not only: save_baseline(pid, fps, results)
        if lines:
            for l in lines[:10]: print(l)
            sys.exit(1)
        if not results:
            print('ERROR nothing could be checked: %s' % errors); sys.exit(3)
        sys.exit(0)
    finally:
        if not os.environ.get('VC_KEEP'): shutil.rmtree(tmp, ignore_errors=True)


def fingerprint(ll):
    """hash of the IR the obligations are generated from (names of source files and metadata left out)"""
    h = hashlib.sha256()
    for l in open(ll):
        if l.startswith((';', 'source_filename', '!')): continue
        h.update(re.sub(r', !\w+ !\d+', '', l.split(' ; ')[0].rstrip()).encode() + b'\n')
    return h.hexdigest()[:24]


BASE = os.path.join(VERIF, 'harness', 'baseline.json')


def load_baseline():
    return json.load(open(BASE)) if os.path.exists(BASE) else {}


def save_baseline(pid, fps, results):
    """called by hand (VC_BASELINE=1) on the committed tree: records which IR was proved and what stayed open"""
    b = load_baseline()
    for k in list(b):
        if re.match(pid + r'(_\w+)?\.cc$', k): del b[k]
    for hf, fp in fps.items():
        b[hf] = {'ir': fp, 'open': sorted(r['fn'] for r in results if r['file'] == hf and (r['status'] != 'ok' or any(o['status'] != 'proved' for o in r['obls']) or r.get('reach') is None))}
    json.dump(b, open(BASE, 'w'), indent=0, sort_keys=True)


def first_fail(out):
    m = re.search(r'^FAIL (.*)$', out, re.M)
    return m.group(1) if m else 'native failure'


def pretty(k, v):
    import struct
    if k == 'f': return '   (%.9g)' % struct.unpack('<f', struct.pack('<I', v))[0]
    if k == 'd': return '   (%.17g)' % struct.unpack('<d', struct.pack('<Q', v))[0]
    return ''


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append({'match': m.group(2), 'text': m.group(3)})
    return out


def report(results, errors, bounded):
    for r in sorted(results, key=lambda r: r['fn']):
        c = {}
        for o in r['obls']: c[o['status']] = c.get(o['status'], 0) + 1
        print('%-60s %-4s %-9s obl=%s trivial=%d paths=%s reach=%s eng=%.1fs wall=%.1fs %s' % (r['fn'], r['mode'], r['status'], c, r['trivial'], r.get('paths'), r.get('reach'), r.get('engine_s', 0), r.get('wall', 0), r['error'][:300]))
        for o in r['obls']:
            if o['status'] != 'proved':
                print('    %s [%s] %s @ %s %.1fs' % (o['status'], o['kind'], o['name'], o['where'][:100], o['time']))
                if os.environ.get('VC_MODEL') and o['model']:
                    for nm, (k, v) in o['model'].items(): print('        ', nm, v, pretty(k, v))
    for e in errors: print('ERROR', e[0], e[1])


def own_function(f):
    # the function itself (not just a template argument or parameter) belongs to namespace ink
    prev = None
    while prev != f:
        prev = f
        f = re.sub(r'<[^<>]*>', '', f)
        f = re.sub(r'\([^()]*\)(?=.)', '', f) if f.count('(') > 1 else f
    head = f.split('(')[0]
    return bool(re.search(r'\bink::', head)) and 'std::' not in head


def write_evidence(pid, tier, seed, results, errors, violations, lines, bounded, knownhits, wall, evdir):
    import z3
    tot = sum(len(r['obls']) + r['trivial'] for r in results)
    disch = sum(sum(1 for o in r['obls'] if o['status'] == 'proved') + r['trivial'] for r in results)
    be = {}
    for r in results:
        for o in r['obls']:
            if o['status'] == 'proved': be[o['backend']] = be.get(o['backend'], 0) + 1
        if r['trivial']: be['syntactic simplification'] = be.get('syntactic simplification', 0) + r['trivial']
    funcs = sorted({f if len(f) <= 240 else f[:240] + '...' for r in results for f in r['funcs'] if own_function(f)})
    trusted = sorted({t for r in results for t in r['trusted']})
    modes = sorted({r['mode'] for r in results})
    meta = load_meta(pid)
    assume = list(meta.get('assumptions', []))
    if 'real' in modes:
        assume.append('proofs in real mode treat machine floating point as mathematical reals: ' + ', '.join(sorted(r['fn'] for r in results if r['mode'] == 'real')))
    if 'fpuf' in modes: assume.append('fpuf proofs treat + - * / on floats as uninterpreted (commutative) functions')
    assume += ['%s is axiomatised (range and identity axioms only)' % t for t in trusted]
    und = [{'proof': r['fn'], 'reason': r['error'] or 'solver gave no answer / loop bound reached', 'stand_in': 'bounded native search: ' + str(r.get('searched', 'not run'))} for r in bounded]
    for r in results:
        if r['status'] != 'ok' and r not in bounded and not any(v[0] is r for v in violations):
            und.append({'proof': r['fn'], 'reason': r['error'], 'stand_in': 'none'})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': meta.get('level', 'proof'),
        'wall_s': round(wall, 2),
        'coverage': {
            'obligations': tot, 'discharged': disch,
            'checker_cmd': './check.sh %s %s' % (pid, tier),
            'trusted_base': ['vc/engine.py (VC generator over LLVM IR)', 'clang 18 front end at -O1 -disable-llvm-passes, then sroa/early-cse/simplifycfg/loop-simplify',
                             'z3 %s, z3-new, cvc5' % z3.get_version_string(), 'shims/absl (stand-ins for the Abseil version /repo needs: CHECK, Status, Str*, flat_hash_*, Mutex)'] + trusted,
            'back_ends': be,
            'solver_s': round(sum(o['time'] for r in results for o in r['obls']), 2),
            'feasibility_checks': sum(r.get('checks', 0) for r in results),
            'feasibility_check_s': round(sum(r.get('check_s', 0) for r in results), 2),
            'instructions_executed_symbolically': sum(r.get('instrs', 0) for r in results),
            'harnesses': [{'name': r['fn'], 'mode': r['mode'], 'status': r['status'], 'obligations': len(r['obls']) + r['trivial'],
                           'discharged': sum(1 for o in r['obls'] if o['status'] == 'proved') + r['trivial'], 'paths': r.get('paths'),
                           'reaches_end': str(r.get('reach')), 'wall_s': round(r.get('wall', 0), 2)} for r in results],
            'functions_under_contract': funcs,
            'bounds': meta.get('bounds', []),
            'undischarged_bounded_only': und,
            'not_built': [{'harness': a, 'error': b[:400]} for a, b in errors],
            'known_findings': [k['text'] for k in knownhits],
        },
        'assumptions': assume,
        'violations': len(lines),
    }
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)


def load_meta(pid):
    p = os.path.join(VERIF, 'harness', 'meta.json')
    if os.path.exists(p): return json.load(open(p)).get(pid, {})
    return {}


if __name__ == '__main__':
    main()
