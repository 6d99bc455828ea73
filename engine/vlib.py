"""Property checks: compile /repo's current sources to LLVM IR, execute the harnesses symbolically,
discharge the obligations, replay counterexamples natively, write evidence."""
import os, sys, time, json, subprocess, hashlib, shutil, tempfile, signal, pickle, select, traceback, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, HERE)
import terms as T
import irparse, execir, solve, discharge
from execir import EngineError

CORE = ['sources/core/%s.cpp' % n for n in ('common', 'params', 'data', 'data_storage', 'vertical_segment', 'function', 'rational_function', 'metrics', 'plugins_manager')]
INC = ['-I', REPO + '/sources', '-I', REPO + '/external', '-I', '/opt/vp/include', '-I', '/usr/include/eigen3', '-I', REPO + '/external/quadprog++', '-I', REPO + '/external/build/include', '-I', VERIF + '/harness']
IRFLAGS = ['-std=gnu++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-ffp-contract=off',
           '-fno-math-errno', '-fno-pic', '-fno-builtin-cos', '-fno-builtin-sin', '-fno-builtin-tan', '-fno-builtin-acos', '-fno-builtin-asin', '-fno-builtin-atan', '-fno-builtin-atan2', '-fno-builtin-exp', '-fno-builtin-log', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DALTA_PLUGIN_DIRECTORY="/usr/lib/alta_plugins"', '-w', '-S', '-emit-llvm']
NATFLAGS = ['-std=gnu++11', '-O1', '-g0', '-fopenmp', '-DSYM_NATIVE', '-DALTA_PLUGIN_DIRECTORY="/usr/lib/alta_plugins"', '-w']

class Unit:
    def __init__(self, name, harness, entry, srcs, mode='real', intmode='I', split=None, timeout=20.0, quick=2.0, max_paths=3000, deadline=300.0, feas=1500,
                 defs=(), gdefs=(), exact=False, tiers=('quick', 'thorough'), expected=(), bound='', env=None, max_steps=30000000, noreach=False, extra_ir=(), tol=None):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.split = split or {}; self.defs = tuple(gdefs) + tuple(defs); self.gdefs = tuple(gdefs)

def srcpath(s):
    return s if s.startswith('/') else os.path.join(REPO, s)

class Build:
    def __init__(self):
        base = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix='altaverif.', dir=base)
        self.ir = {}
        self.native = {}; self.objs = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def compile_all(self, jobs):
        """jobs: set of (source, defs tuple) -> .ll"""
        todo = [j for j in jobs if j not in self.ir]
        def one(j):
            src, defs = j
            out = os.path.join(self.dir, hashlib.sha1(repr(j).encode()).hexdigest()[:16] + '.ll')
            cmd = ['clang++-18'] + IRFLAGS + ['-I', VERIF + '/shim'] + list(defs) + INC + [srcpath(src), '-o', out]
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=self.dir)
            if p.returncode: raise EngineError('compilation of %s failed: %s' % (src, p.stderr[:1500]))
            return j, out
        with cf.ThreadPoolExecutor(8) as ex:
            for j, out in ex.map(one, todo): self.ir[j] = out
    def native_bin(self, unit, kind='asan'):
        key = (unit.harness, tuple(unit.srcs), tuple(unit.defs), kind)
        if key in self.native: return self.native[key]
        d = tempfile.mkdtemp(dir=self.dir)
        flags = NATFLAGS + (['-fsanitize=address', '-fno-omit-frame-pointer'] if kind == 'asan' else [])
        srcs = [VERIF + '/harness/native.cpp', VERIF + '/harness/' + unit.harness] + [srcpath(s) for s in unit.srcs]
        def one(i):
            defs = list(unit.defs) if i == 1 else list(unit.gdefs) if i > 1 else []
            ok = (srcs[i], tuple(defs), kind)
            if ok in self.objs: return self.objs[ok]
            o = os.path.join(d, '%d.o' % i)
            p = subprocess.run(['g++'] + flags + defs + INC + ['-c', srcs[i], '-o', o], capture_output=True, text=True, cwd=d)
            if p.returncode: raise EngineError('native compilation of %s failed: %s' % (srcs[i], p.stderr[:1500]))
            self.objs[ok] = o
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, range(len(srcs))))
        out = os.path.join(d, 'replay')
        p = subprocess.run(['g++'] + flags + ['-rdynamic'] + objs + ['-o', out, '-ldl', '-lrt'], capture_output=True, text=True)
        if p.returncode: raise EngineError('native link failed: ' + p.stderr[:1500])
        self.native[key] = out
        return out

def fmt_inputs(vals, exact=False):
    lines = ['__exact 1'] if exact else []
    for k, v in sorted(vals.items()):
        if isinstance(v, bool): v = int(v)
        lines.append('%s %s' % (k, repr(float(v)) if isinstance(v, float) else v))
    return '\n'.join(lines) + '\n'

def native_run(build, unit, vals, kind='asan', timeout=60):
    """-> (status, output) ; status 'fail' | 'ok' | 'assume' | 'crash'"""
    b = build.native_bin(unit, kind)
    d = tempfile.mkdtemp(dir=build.dir)
    try:
        f = os.path.join(d, 'input.txt')
        open(f, 'w').write(fmt_inputs(vals, unit.exact))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0:allocator_may_return_null=1', OMP_NUM_THREADS='1')
        cmd = [b, unit.entry, f]
        if kind == 'valgrind': cmd = ['valgrind', '-q', '--error-exitcode=97', '--leak-check=no'] + cmd
        try: p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', cwd=d, env=env, timeout=timeout)
        except subprocess.TimeoutExpired: return 'crash', 'timeout'
        o = '\n'.join(l for l in (p.stdout + '\n' + p.stderr).split('\n') if re.match(r'REPLAY|ASSUME|OUT|REACHED|SUMMARY|==|replay|terminate|.*[Aa]ssertion', l))[:4000]
        if p.returncode == 0: return 'ok', o
        if p.returncode == 1: return 'fail', o
        if p.returncode == 3: return 'assume', o
        return 'crash', 'exit %d\n%s\n%s' % (p.returncode, o, p.stderr[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ one task
def run_task(E0, init, unit, choices, tier, t_end, canonical_only=False):
    """executes one (unit, choices) task in this (forked) process"""
    t0 = time.time()
    E = E0
    for k in solve.STATS: solve.STATS[k] = 0 if isinstance(solve.STATS[k], int) else 0.0
    E.choices = dict(choices)
    E.deadline = min(t_end, t0 + unit.deadline)
    E.max_paths = unit.max_paths; E.max_steps = unit.max_steps
    E.feas_timeout = unit.feas
    E.expected_status = set(unit.expected)
    if unit.env: E.env = dict(unit.env)
    res = {'unit': unit.name, 'choices': dict(choices), 'oblig': 0, 'discharged': 0, 'trivial': 0, 'cands': [], 'errors': [], 'strategies': {}, 'labels': {}, 'reach': {}, 'queries': 0}
    try:
        E.run(unit.entry, init=init)
    except EngineError as e:
        res['errors'].append('engine: %s' % e)
    except RecursionError as e:
        res['errors'].append('engine: recursion')
    except Exception as e:
        res['errors'].append('engine: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:])
    res['exec_s'] = time.time() - t0
    res['paths'] = len(E.paths); res['steps'] = E.steps
    res['functions'] = sorted(n for n in E.hits)
    res['path_status'] = {}
    for p in E.paths: res['path_status'][p[0]] = res['path_status'].get(p[0], 0) + 1
    reach = {}
    seen = set()
    for o in E.obligations:
        if o['kind'] == 'reach':
            reach.setdefault(o['label'], []).append(o); continue
        res['oblig'] += 1
        res['labels'][o['label']] = res['labels'].get(o['label'], 0) + 1
        if o['neg'] is False:
            res['discharged'] += 1; res['trivial'] += 1; continue
        key = (frozenset(c.id for c in o['pc']), o['neg'].id if isinstance(o['neg'], T.Term) else o['neg'])
        if key in seen:
            res['discharged'] += 1; continue
        left = t_end - time.time()
        if left <= 0:
            res['errors'].append('out of time before %s' % o['label']); break
        tq = time.time()
        v, m, who = discharge.prove(o['pc'], o['neg'], E.inputs, timeout=min(unit.timeout, left), quick=unit.quick)
        res['queries'] += 1
        res['solver_s'] = res.get('solver_s', 0.0) + time.time() - tq
        if v == 'unsat':
            res['discharged'] += 1; seen.add(key)
            res['strategies'][who] = res['strategies'].get(who, 0) + 1
            continue
        cands = []
        base = {n: t for n, t in E.inputs.items() if not isinstance(t, T.Term)}
        base.update(dict(o.get('trace') or [])); 
        fixed = dict(o.get('trace') or [])
        if m: cands.append(dict(dict(base, **{k: x for k, x in m.items()}), **fixed))
        if E.real:
            for env in discharge.numeric(o['pc'], o['neg'], E.inputs, seconds=min(5.0, max(0.5, left)), start=m):
                cands.append(dict(dict(base, **env), **fixed))
        res['cands'].append({'label': o['label'], 'kind': o['kind'], 'verdict': v, 'who': who, 'vals': cands[:6], 'where': o.get('where'),
                             'neg': repr(o['neg'])[:300], 'pc': [repr(c)[:120] for c in o['pc'][:12]], 'trace': o.get('trace')})
        if len(res['cands']) >= 6: 
            res['errors'].append('stopped after 6 undischarged obligations'); break
    for label, l in reach.items():
        ok = False
        for o in l[:8]:
            r = solve.feasible(o['pc'], True, 4000, want_model=T.PI)[0] if o['pc'] else 'sat'
            if r == 'sat': ok = True; break
        if not ok:
            for o in l[:4]:
                if discharge.numeric(o['pc'], True, E.inputs, seconds=2, want=1): ok = True; break
        res['reach'][label] = ok
    if not reach and not unit.noreach and not res['errors']:
        res['errors'].append('vacuous: no reachability witness')
    for label, ok in res['reach'].items():
        if not ok and not res['cands']: res['unreached'] = res.get('unreached', []) + [label]
    res['feas'] = dict(solve.STATS)
    res['wall'] = time.time() - t0
    res['inputs'] = {n: ([t.lo, t.hi] if isinstance(t, T.Term) and t.sort in ('R', 'I') else str(t.sort) if isinstance(t, T.Term) else t) for n, t in E.inputs.items()}
    return res

def expand(split):
    out = [{}]
    for k, v in split.items():
        vals = list(range(v)) if isinstance(v, int) else list(v)
        out = [dict(o, **{k: x}) for o in out for x in vals]
    return out

def run_parallel(tasks, nproc, t_end):
    """tasks: list of (id, thunk). Fork-based; yields (id, result or Exception)"""
    pend = list(tasks); run = {}; 
    while pend or run:
        while pend and len(run) < nproc:
            tid, fn = pend.pop(0)
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    try: res = fn()
                    except BaseException as e: res = {'fatal': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]}
                    with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
                finally: os._exit(0)
            os.close(w); run[r] = (pid, tid, b'', time.time())
        left = t_end + 25 - time.time()
        if left <= 0:
            for r, (pid, tid, d, s) in run.items():
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
                yield tid, {'fatal': 'time limit'}
            for tid, fn in pend: yield tid, {'fatal': 'time limit (not started)'}
            return
        rd, _, _ = select.select(list(run), [], [], min(left, 5))
        for r in rd:
            pid, tid, d, s = run[r]
            b = os.read(r, 1 << 20)
            if b: run[r] = (pid, tid, d + b, s); continue
            os.close(r); del run[r]
            try: os.waitpid(pid, 0)
            except OSError: pass
            try: res = pickle.loads(d)
            except Exception: res = {'fatal': 'worker died'}
            yield tid, res

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) label=/(.*?)/ (?:choices=(\S+) )?:: (.*)', l.strip())
            if m and m.group(1) == prop:
                ch = dict(x.split('=') for x in m.group(4).split(',')) if m.group(4) else {}
                out.append((m.group(2), re.compile(m.group(3)), ch, m.group(5)))
    return out
def is_known(kf, unit, choices, c):
    allch = dict(choices); allch.update(dict(c.get('trace') or []))
    for u, lab, ch, desc in kf:
        if u == unit and lab.search(c['label']) and all(str(allch.get(k)) == v for k, v in ch.items()): return desc
    return None

# ------------------------------------------------------------------ a property check
def check(prop, units, info, tier='quick', seed=1, verbose=False, budget=None, only=None):
    t0 = time.time()
    budget = budget or (560 if tier == 'quick' else 3000)
    t_end = t0 + budget
    build = Build()
    units = [u for u in units if tier in u.tiers and (not only or u.name in only)]
    kf = known_findings(prop)
    code = 0; out_lines = []; results = []; known = []
    try:
        jobs = set()
        for u in units:
            jobs.add((VERIF + '/harness/' + u.harness, tuple(u.defs)))
            for s in u.srcs: jobs.add((s, u.gdefs))
        jobs.add((VERIF + '/harness/shimrt.cpp', ()))
        build.compile_all(jobs)
        t_comp = time.time() - t0
        engines = {}
        tasks = []
        byid = {}
        for u in units:
            key = (u.harness, tuple(u.srcs), tuple(u.defs), u.mode, u.intmode)
            if key not in engines:
                mods = [irparse.Module(build.ir[(VERIF + '/harness/' + u.harness, tuple(u.defs))], 'h')]
                for i, s in enumerate(u.srcs): mods.append(irparse.Module(build.ir[(s, u.gdefs)], 'm%d' % i))
                mods.append(irparse.Module(build.ir[(VERIF + '/harness/shimrt.cpp', ())], 'rt'))
                E = execir.Engine(mods, mode=u.mode, intmode=u.intmode)
                init = E.boot()
                engines[key] = (E, init)
            E, init = engines[key]
            for ch in expand(u.split):
                tid = len(tasks)
                byid[tid] = (u, ch)
                tasks.append((tid, (lambda E=E, init=init, u=u, ch=ch: run_task(E, init, u, ch, tier, t_end))))
        t_boot = time.time() - t0
        stop = False
        for tid, r in run_parallel(tasks, int(os.environ.get('VERIF_JOBS', '8')), t_end):
            u, ch = byid[tid]
            if 'fatal' in r:
                r = {'unit': u.name, 'choices': ch, 'errors': ['fatal: ' + r['fatal']], 'cands': [], 'oblig': 0, 'discharged': 0, 'paths': 0, 'steps': 0, 'functions': [], 'labels': {}, 'wall': 0}
            results.append(r)
            if verbose:
                print('%-22s %-24s paths %4d steps %8d obl %4d/%4d  exec %.1fs total %.1fs %s %s' % (u.name, ch, r['paths'], r['steps'], r['discharged'], r['oblig'], r.get('exec_s', 0), r['wall'], r.get('strategies', ''), r.get('path_status')), flush=True)
                for e in r['errors']: print('    ERROR', e)
                for l in r.get('unreached', []): print('    UNREACHED', l)
                for c in r['cands']: print('    CAND', c['verdict'], c['label'], c.get('where'), c['neg'][:160] if verbose > 1 else '', c['vals'][:1], c['pc'] if verbose > 1 else '')
            for c in r['cands']:
                desc = is_known(kf, u.name, ch, c)
                if desc:
                    c['known'] = True
                    if desc not in known:
                        known.append(desc); print('KNOWN-FINDING: property=%s %s' % (prop, desc), flush=True)
                    continue
                if code == 1: continue
                conf = None
                for vals in (c['vals'] or [dict(ch)]):
                    vals = dict(ch, **vals)
                    kinds = ['asan'] + (['valgrind'] if 'uninit' in c['label'] else [])
                    for k in kinds:
                        try: s, o = native_run(build, u, vals, k)
                        except EngineError as e:
                            r['errors'].append(str(e)); s, o = 'ok', ''
                        if verbose > 1: print('      native', k, s, o[:600])
                        if s in ('fail', 'crash'): conf = (vals, s, o, k); break
                    if conf: break
                c['confirmed'] = bool(conf)
                if conf:
                    path = save_replay(prop, u, ch, c, conf)
                    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                    print('  %s: %s' % (u.name, c['label']))
                    print('  native replay: ' + conf[2].strip().split('\n')[0][:300])
                    code = 1
            if code == 1 and not verbose: break
        if code == 0:
            bad = [(r['unit'], r['choices'], e) for r in results for e in r['errors'] if not (all(c.get('known') for c in r['cands']) and 'stopped after' in e)]
            und = [(r['unit'], r['choices'], c['label']) for r in results for c in r['cands'] if not c.get('known')]
            labs = {}
            for r in results:
                for l, ok in r.get('reach', {}).items(): labs.setdefault((r['unit'], l), []).append(ok)
            vac = [k for k, v in labs.items() if not any(v)]
            if len(results) != len(tasks): bad.append(('*', {}, '%d of %d tasks gave a result' % (len(results), len(tasks))))
            if bad or und or vac or not results:
                code = 2
                for b in bad[:10]: print('UNDECIDED property=%s %s' % (prop, b))
                for b in und[:10]: print('UNDECIDED property=%s obligation not discharged and not reproduced: %s' % (prop, b))
                for b in vac[:10]: print('UNDECIDED property=%s vacuous: %s' % (prop, b))
    except EngineError as e:
        print('ERROR property=%s %s' % (prop, e)); code = 2; t_comp = t_boot = time.time() - t0
    finally:
        for k in list(build.native): pass
        val = None
        if code == 0 and info.get('validate', True) and (tier == 'thorough' or info.get('validate_quick')):
            try: val = validate(build, units, results)
            except Exception as e: val = {'error': repr(e)}
        build.close()
    write_evidence(prop, units, info, tier, seed, results, code, known, time.time() - t0, t_comp, val)
    if code == 0:
        print('OK property=%s tier=%s obligations=%d discharged=%d paths=%d wall=%.1fs' % (prop, tier, sum(r['oblig'] for r in results), sum(r['discharged'] for r in results), sum(r['paths'] for r in results), time.time() - t0))
    return code

def validate(build, units, results): return None

def save_replay(prop, u, ch, c, conf):
    d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
    vals, s, o, k = conf
    p = os.path.join(d, '%s_%s.txt' % (prop, re.sub(r'\W+', '_', u.name)))
    with open(p, 'w') as f:
        f.write('# property %s, unit %s, harness %s:%s, choices %r\n# violated: %s\n# native outcome: %s\n' % (prop, u.name, u.harness, u.entry, ch, c['label'].replace('\n', ' '), s))
        for l in o.strip().split('\n')[:12]: f.write('#   ' + l + '\n')
        f.write('# replay with: python3-vt /verif/check.py %s --replay %s\n' % (prop, p))
        f.write('# unit=%s kind=%s\n' % (u.name, k))
        f.write(fmt_inputs(vals, u.exact))
    return p

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return p.stdout.strip().split('\n')
    except Exception: return names

def write_evidence(prop, units, info, tier, seed, results, code, known, wall, t_comp, val):
    os.makedirs(EVID, exist_ok=True)
    fns = sorted(set(f for r in results for f in r['functions']))
    dm = [d for d in demangle(fns) if 'alta::' in d or 'provide_' in d or d.startswith('(anonymous') or not re.match(r'(std::|__gnu|shim::|void std::|Eigen::|sym|h_)', d)] if fns else []
    dm = [d for d in dm if 'std::' not in d.split('(')[0] and 'Eigen::' not in d.split('(')[0]]
    strat = {}
    for r in results:
        for k, v in r.get('strategies', {}).items(): strat[k] = strat.get(k, 0) + v
    samples = []
    for r in results[:6]:
        samples.append({'unit': r['unit'], 'choices': r['choices'], 'symbolic_inputs': dict(list(r.get('inputs', {}).items())[:12]), 'paths': r['paths'], 'obligations': r['oblig'], 'labels': dict(list(r['labels'].items())[:6])})
    cov = {
        'states': sum(r['paths'] for r in results), 'transitions': sum(r['steps'] for r in results),
        'traces_validated_against_impl': (val or {}).get('ok', 0) if val else 0,
        'samples': samples or [{'note': 'no unit ran'}],
        'explanation': info.get('explanation', '') + ' states = symbolic paths executed to completion, transitions = LLVM IR instructions executed.',
        'obligations_total': sum(r['oblig'] for r in results), 'obligations_discharged': sum(r['discharged'] for r in results),
        'obligations_trivial_after_simplification': sum(r.get('trivial', 0) for r in results),
        'solver_queries': sum(r.get('queries', 0) + r.get('feas', {}).get('feas_queries', 0) for r in results),
        'solver_time_s': round(sum(r.get('solver_s', 0) + r.get('feas', {}).get('feas_time', 0) for r in results), 2),
        'strategies': strat, 'functions_encoded': dm[:400], 'functions_encoded_count': len(dm),
        'bounds': [{'unit': u.name, 'bound': u.bound, 'arithmetic': 'exact reals' if u.mode == 'real' else 'IEEE double / bit-precise', 'split': {k: (v if isinstance(v, int) else list(v)) for k, v in u.split.items()}} for u in units],
        'known_findings': known, 'compile_s': round(t_comp, 2), 'exit_code': code,
    }
    if val: cov['validation'] = val
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': info.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

def replay(prop, units, path):
    meta = {}; vals = {}
    for l in open(path):
        m = re.match(r'# unit=(\S+) kind=(\S+)', l)
        if m: meta = {'unit': m.group(1), 'kind': m.group(2)}
        if l.startswith('#') or not l.strip() or l.startswith('__exact'): continue
        k, v = l.rsplit(' ', 1)
        vals[k] = float(v) if re.search(r'[.einf]', v) else int(v)
    u = [u for u in units if u.name == meta['unit']][0]
    b = Build()
    try:
        s, o = native_run(b, u, vals, meta['kind'])
        print(s); print(o)
        return 1 if s in ('fail', 'crash') else 0
    finally: b.close()
