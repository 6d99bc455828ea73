r"""Discharging one obligation: pc /\ neg unsatisfiable?  Portfolio of solver strategies in forked children."""
import os, sys, time, signal, pickle, select, subprocess, tempfile, math, random
from fractions import Fraction
import z3
import terms as T
from terms import Term
import solve, poly, split

def kind(ts):
    k = set()
    for t in T.collect([t for t in ts if isinstance(t, Term)]):
        if t.sort == 'F' or t.op in ('flt', 'fle', 'feq', 'fisnan', 'fisinf', 'fsame'): k.add('fp')
        elif isinstance(t.sort, int): k.add('bv')
        elif t.sort == 'I': k.add('int')
        elif t.sort == 'R': k.add('real')
        if t.op in ('mul', 'div', 'sqrt', 'sin', 'cos'): k.add('nl')
        if t.op in ('floor', 'toreal'): k.add('mix')
    return k

def simplify_eq(neg):
    """replace not(eq0(d)) by a polynomial disequality when the rational normal form is small"""
    if not isinstance(neg, Term): return neg
    if neg.op == 'not' and neg.args[0].op == 'eq0' and neg.args[0].args[0].sort == 'R':
        d = neg.args[0].args[0]
        n = poly.numerator(d)
        if n is None: return False if poly.iszero(d) else neg
        if not isinstance(n, Term): return n != 0
        c = T.not_(T.mk_cmp0('eq0', n))
        return c
    return neg

def build(pc, neg, level, pairs):
    X = solve.Xlate(axioms=level)
    es = [X(c) for c in pc]
    if isinstance(neg, Term): es.append(X(neg))
    side = list(X.side)
    if pairs: side += X.pair_axioms()
    return X, es, side

def model_values(m, inputs, X):
    """python numbers for the harness inputs"""
    out = {}
    for name, t in inputs.items():
        if not isinstance(t, Term): out[name] = t; continue
        try:
            z = X(t)
            v = m.eval(z, model_completion=True)
            out[name] = num(v)
            if t.sort == 'R' and t.id in X.trig:
                s, c = X.trig[t.id]
                sv, cv = num(m.eval(s, model_completion=True)), num(m.eval(c, model_completion=True))
                a = math.atan2(sv, cv)
                for k in (0, 1, -1, 2):
                    b = a + 2 * math.pi * k
                    if t.lo <= b <= t.hi: out[name] = b; break
        except Exception as e:
            pass
    return out
def num(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
    if z3.is_bv_value(v): return v.as_signed_long()
    if z3.is_fp(v):
        b = z3.simplify(z3.fpToIEEEBV(v))
        return T.bits_to_f(b.as_long()) if hasattr(T, 'bits_to_f') else __import__('struct').unpack('<d', __import__('struct').pack('<Q', b.as_long()))[0]
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    raise ValueError

def z3_try(pc, neg, level, pairs, tactic, timeout, inputs, seed=1):
    X, es, side = build(pc, neg, level, pairs)
    if tactic is None: s = z3.Solver()
    elif tactic == 'nlsat':
        s = z3.Then(z3.With('simplify', som=False), 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'simplify', 'tseitin-cnf', 'nlsat').solver()
    elif tactic == 'qfnra': s = z3.Tactic('qfnra').solver()
    elif tactic == 'fp': s = z3.Then('simplify', 'fpa2bv', 'simplify', 'propagate-values', 'ctx-simplify' if False else 'simplify', 'solve-eqs', 'bit-blast', 'sat').solver()
    elif tactic == 'smt': s = z3.SimpleSolver()
    s.set('timeout', int(timeout * 1000))
    try: s.set('random_seed', seed)
    except Exception: pass
    for e in side: s.add(e)
    for e in es: s.add(e)
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        try: return 'sat', model_values(s.model(), inputs, X)
        except Exception: return 'sat', {}
    return 'unknown', None

def cvc5_try(pc, neg, level, pairs, timeout, extra=()):
    X, es, side = build(pc, neg, level, pairs)
    s = z3.Solver()
    for e in side: s.add(e)
    for e in es: s.add(e)
    txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt); f.close()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000)] + list(extra) + [f.name], capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        if '(error' in p.stdout: o = 'unknown'
        return (o if o in ('unsat', 'sat') else 'unknown'), None
    except subprocess.TimeoutExpired:
        return 'unknown', None
    finally:
        os.unlink(f.name)

def spawn(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try: res = fn()
            except BaseException as e: res = ('unknown', 'err %r' % e)
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        finally:
            os._exit(0)
    try: os.setpgid(pid, pid)
    except OSError: pass
    os.close(w)
    return pid, r

def portfolio(fns, timeout):
    """run functions in parallel; first 'unsat' wins, 'sat' is kept as candidate unless another strategy answers unsat"""
    ps = {}
    for name, f in fns:
        pid, r = spawn(f); ps[r] = (pid, name)
    end = time.time() + timeout
    best = ('unknown', None, None)
    while ps and time.time() < end:
        rd, _, _ = select.select(list(ps), [], [], max(0, end - time.time()))
        for r in rd:
            pid, name = ps.pop(r)
            data = b''
            while True:
                b = os.read(r, 1 << 16)
                if not b: break
                data += b
            os.close(r)
            try: os.waitpid(pid, 0)
            except OSError: pass
            try: res = pickle.loads(data)
            except Exception: res = ('unknown', None)
            if res[0] == 'unsat':
                best = ('unsat', None, name); end = 0; break
            if res[0] == 'sat' and best[0] == 'unknown':
                best = ('sat', res[1], name)
                end = min(end, time.time() + 3)
    for r, (pid, name) in ps.items():
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
        try: os.waitpid(pid, 0)
        except OSError: pass
        os.close(r)
    return best

def subst_pc_eqs(pc):
    return pc

def prove(pc, neg, inputs, timeout=20.0, quick=2.0, stats=None):
    """-> (verdict, model, strategy)"""
    t0 = time.time()
    pc = pc or []
    if neg is False: return 'unsat', None, 'constant'
    n2 = neg
    if isinstance(neg, Term):
        n2 = simplify_eq(neg)
        if n2 is False: return 'unsat', None, 'normal form'
        if neg.op == 'not' and neg.args[0].op == 'eq0' and neg.args[0].args[0].sort == 'R' and split.iszero(pc, neg.args[0].args[0]):
            return 'unsat', None, 'cases + normal form'
    gv = T.vars_of(n2) if isinstance(n2, Term) else frozenset()
    sl = solve.slice_pc(pc, gv) if isinstance(n2, Term) else list(pc)
    ks = kind(sl + ([n2] if isinstance(n2, Term) else []))
    try:
        r, m = z3_try(sl, n2, 1, False, None, quick, inputs)
        if r == 'unsat': return r, None, 'z3'
        q = (r, m)
    except Exception as e:
        q = ('unknown', None)
    # a disequality of a polynomial with few facts: is the sat answer genuine?  the portfolio tries harder axioms
    fns = []
    def add(name, f): fns.append((name, f))
    tm = timeout
    if 'fp' in ks:
        if q[0] == 'sat': return q[0], q[1], 'z3'
        add('z3-fp', lambda: z3_try(sl, n2, 1, False, None, tm, inputs))
        add('z3-fpbv', lambda: z3_try(sl, n2, 1, False, 'fp', tm, inputs))
        add('cvc5', lambda: cvc5_try(sl, n2, 1, False, tm))
    elif 'bv' in ks and 'real' not in ks:
        if q[0] == 'sat': return q[0], q[1], 'z3'
        add('z3-bv', lambda: z3_try(sl, n2, 1, False, None, tm, inputs))
        add('cvc5', lambda: cvc5_try(sl, n2, 1, False, tm))
    else:
        abstr = any(t.op in ('sin', 'cos', 'acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'pow', 'uf') for t in T.collect([x for x in sl + [n2] if isinstance(x, Term)]))
        if q[0] == 'sat' and not abstr: return q[0], q[1], 'z3'
        if neg is not n2:
            add('z3-raw', lambda: z3_try(sl, neg, 1, True, None, tm, inputs))
        add('z3-1p', lambda: z3_try(sl, n2, 1, True, None, tm, inputs))
        if 'int' not in ks:
            add('nlsat0', lambda: z3_try(sl, n2, 0, False, 'nlsat', tm, inputs))
            add('nlsat1', lambda: z3_try(sl, n2, 1, True, 'nlsat', tm, inputs))
            add('nlsat-raw', lambda: z3_try(sl, neg, 0, False, 'qfnra', tm, inputs))
        if len(pc) != len(sl):
            add('z3-full', lambda: z3_try(pc, n2, 1, True, None, tm, inputs))
        add('z3-2', lambda: z3_try(sl, n2, 2, True, 'smt', tm, inputs))
        add('cvc5', lambda: cvc5_try(sl, n2, 1, True, tm))
        if 'int' not in ks: add('cvc5-cov', lambda: cvc5_try(sl, n2, 0, False, tm, ('--nl-cov',)))
    v, m, who = portfolio(fns, timeout)
    if v == 'unsat': return v, None, who
    if v == 'sat': return v, m if m else q[1], who
    if q[0] == 'sat': return 'sat', q[1], 'z3'
    return 'unknown', None, None

# ------------------------------------------------------------------ numeric candidates
SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e-3]
def sample(rng, t, special):
    if t.sort == 'R':
        lo = t.lo if t.lo > -T.INF else -3.0
        hi = t.hi if t.hi < T.INF else 3.0
        r = rng.random()
        if special and r < 0.25:
            c = [x for x in SPECIAL + [lo, hi] if lo <= x <= hi]
            return rng.choice(c)
        return lo + (hi - lo) * rng.random()
    if t.sort == 'I':
        lo = int(t.lo) if t.lo > -T.INF else -8
        hi = int(t.hi) if t.hi < T.INF else 8
        return rng.randint(lo, hi)
    if t.sort == 'F':
        return rng.choice(SPECIAL + [rng.uniform(-2, 2)])
    return rng.randint(0, 255)

def numeric(pc, neg, inputs, seconds=6.0, want=4, seed=1, start=None):
    """random concrete assignments satisfying pc /\\ neg (candidates for native replay only)"""
    rng = random.Random(seed)
    ts = [c for c in (pc or [])] + ([neg] if isinstance(neg, Term) else [])
    vs = {}
    for t in T.collect([x for x in ts if isinstance(x, Term)]):
        if t.op == 'var' and t is not T.PI: vs[t.args[0]] = t
    for n, t in inputs.items():
        if isinstance(t, Term): vs.setdefault(n, t)
    out = []
    end = time.time() + seconds
    class Env(dict): pass
    while time.time() < end and len(out) < want:
        env = {n: sample(rng, t, rng.random() < 0.5) for n, t in vs.items()}
        if start and rng.random() < 0.4:
            for n in start:
                if n in env and rng.random() < 0.7:
                    env[n] = start[n] if rng.random() < 0.5 or vs[n].sort != 'R' else start[n] + rng.gauss(0, 0.05)
        fe = dict(env)
        for u in T.collect([x for x in ts if isinstance(x, Term)]):
            if u.op == 'uf' and u.args[0] not in fe:
                nm = u.args[0]
                if nm.startswith('arr'): fe[nm] = ufun(nm)
                elif nm.startswith('rnd'): fe[nm] = (lambda d: (lambda x: float('%.*g' % (d, x))))(int(nm[3:]))
        if solve.holds(ts, fe):
            out.append(env)
    return out
def ufun(nm):
    def f(*a):
        h = hash((nm,) + tuple(round(x, 9) for x in a)) & 0xffffffff
        return (h % 100003) / 100003.0
    return f
