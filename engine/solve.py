"""Translation of terms to z3, feasibility queries, discharge of obligations, float evaluation."""
import z3, math, time, struct, subprocess, os, sys, itertools
from fractions import Fraction
import terms as T
from terms import Term

STATS = {'feas_queries': 0, 'feas_time': 0.0, 'feas_unknown': 0, 'proofs': 0, 'proof_time': 0.0, 'algebra': 0}

F64 = z3.Float64()
RNE = z3.RNE()
RTZ = z3.RTZ()

class Xlate:
    """Translate terms into z3 expressions; records the side conditions defining auxiliary symbols."""
    def __init__(self, axioms=1):
        self.cache = {}
        self.side = []
        self.level = axioms
        self.trig = {}
        self.groups = {}
        self.keep = []

    def const(self, v, sort):
        if sort == 'R':
            v = Fraction(v)
            return z3.Q(v.numerator, v.denominator) if v.denominator != 1 else z3.RealVal(v.numerator)
        if sort == 'I': return z3.IntVal(int(v))
        if sort == 'B': return z3.BoolVal(bool(v))
        if sort == 'F':
            return z3.fpBVToFP(z3.BitVecVal(T.fbits(float(v)), 64), F64)
        return z3.BitVecVal(int(v), sort)

    def __call__(self, t, sort=None):
        if not isinstance(t, Term):
            return self.const(t, sort)
        r = self.cache.get(t.id)
        if r is not None: return r
        for u in T.collect([t]):
            if u.id not in self.cache:
                self.cache[u.id] = self.one(u)
                self.keep.append(u)
        return self.cache[t.id]

    def a(self, x, sort):
        if isinstance(x, Term): return self.cache[x.id] if x.id in self.cache else self(x)
        return self.const(x, sort)

    def fresh(self, t, rng=True):
        n = '%s!%d' % (t.op if t.op != 'uf' else t.args[0], t.id)
        v = z3.Real(n) if t.sort == 'R' else z3.Int(n) if t.sort == 'I' else z3.FP(n, F64) if t.sort == 'F' else z3.Bool(n) if t.sort == 'B' else z3.BitVec(n, t.sort)
        return v

    def bound(self, t, v):
        if t.lo != -T.INF: self.side.append(v >= self.const(Fraction(t.lo) if t.sort == 'R' else int(t.lo), t.sort))
        if t.hi != T.INF: self.side.append(v <= self.const(Fraction(t.hi) if t.sort == 'R' else int(t.hi), t.sort))

    def one(self, t):
        op = t.op; A = t.args; s = t.sort
        if op == 'var':
            if s == 'R':
                v = z3.Real(A[0])
                self.bound(t, v)
                return v
            if s == 'I':
                v = z3.Int(A[0]); self.bound(t, v); return v
            if s == 'B': return z3.Bool(A[0])
            if s == 'F': return z3.FP(A[0], F64)
            return z3.BitVec(A[0], s)
        if op == 'lin':
            terms = []
            for a, c in A[0]:
                e = self.a(a, s)
                terms.append(e if c == 1 else self.const(c, s) * e)
            if A[1] != 0: terms.append(self.const(A[1], s))
            return z3.Sum(terms) if len(terms) > 1 else terms[0]
        if op == 'mul':
            r = self.a(A[0], s)
            for x in A[1:]: r = r * self.a(x, s)
            return r
        if op == 'div':
            n = self.a(A[0], 'R'); d = self.a(A[1], 'R')
            q = z3.Real('q!%d' % t.id)
            self.side.append(q * d == n)
            self.side.append(d != 0)
            return q
        if op == 'lt0': return self.a(A[0], A[0].sort) < 0
        if op == 'le0': return self.a(A[0], A[0].sort) <= 0
        if op == 'eq0': return self.a(A[0], A[0].sort) == 0
        if op == 'not': return z3.Not(self.a(A[0], 'B'))
        if op == 'and': return z3.And([self.a(x, 'B') for x in A])
        if op == 'xor': return z3.Xor(self.a(A[0], 'B'), self.a(A[1], 'B'))
        if op == 'ite': return z3.If(self.a(A[0], 'B'), self.a(A[1], s), self.a(A[2], s))
        if op == 'toreal': return z3.ToReal(self.a(A[0], 'I'))
        if op == 'floor':
            return z3.ToInt(self.a(A[0], 'R'))
        if op == 'mod': return self.a(A[0], 'I') % A[1]
        if op == 'idiv': return self.a(A[0], 'I') / A[1]
        if op == 'sqrt':
            v = self.fresh(t); x = self.a(A[0], 'R')
            self.side += [v >= 0, v * v == x]
            if not isinstance(A[0], Term): self.bound(t, v)
            self.group('sqrt', t, v, x)
            return v
        if op in ('sin', 'cos'):
            a = A[0]
            key = a.id if isinstance(a, Term) else ('c', a)
            if key not in self.trig:
                n = '%s' % (a.id if isinstance(a, Term) else 'c%d' % t.id)
                sv, cv = z3.Real('sin!' + n), z3.Real('cos!' + n)
                self.trig[key] = (sv, cv)
                self.side.append(sv * sv + cv * cv == 1)
                self.side += [sv <= 1, sv >= -1, cv <= 1, cv >= -1]
                if isinstance(a, Term): self.angle_axioms(a, sv, cv)
            sv, cv = self.trig[key]
            v = sv if op == 'sin' else cv
            if t.lo != -1.0 or t.hi != 1.0: self.bound(t, v)
            return v
        if op == 'acos':
            v = self.fresh(t); x = self.a(A[0], 'R')
            pi = self.pi()
            self.side += [v >= 0, v <= pi]
            if self.level:
                self.side += [z3.Implies(x == 1, v == 0), z3.Implies(v == 0, x == 1), (2 * v <= pi) == (x >= 0), (2 * v < pi) == (x > 0), (v == pi) == (x == -1)]
                # v in [0, pi/2] : v >= sqrt(2(1-x)) lower bound etc. (chord length)
                self.side += [v * v >= 2 * (1 - x)]
            self.group('acos', t, v, x)
            return v
        if op == 'asin':
            v = self.fresh(t); x = self.a(A[0], 'R'); pi = self.pi()
            self.side += [2 * v >= -pi, 2 * v <= pi, (v >= 0) == (x >= 0), (v > 0) == (x > 0)]
            self.group('asin', t, v, x)
            return v
        if op == 'atan2':
            v = self.fresh(t); y = self.a(A[0], 'R'); x = self.a(A[1], 'R'); pi = self.pi()
            self.side += [v >= -pi, v <= pi]
            self.side += [z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, z3.And(v < 0, v > -pi)),
                          z3.Implies(z3.And(y == 0, x >= 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), z3.Or(v == pi, v == -pi)),
                          z3.Implies(x > 0, z3.And(2 * v < pi, 2 * v > -pi)), z3.Implies(x < 0, z3.Or(2 * v > pi, 2 * v < -pi)),
                          z3.Implies(z3.And(x == 0, y > 0), 2 * v == pi), z3.Implies(z3.And(x == 0, y < 0), 2 * v == -pi)]
            return v
        if op == 'atan':
            v = self.fresh(t); x = self.a(A[0], 'R'); pi = self.pi()
            self.side += [2 * v > -pi, 2 * v < pi, (v >= 0) == (x >= 0), (v > 0) == (x > 0)]
            self.group('atan', t, v, x)
            return v
        if op == 'exp':
            v = self.fresh(t); x = self.a(A[0], 'R')
            self.side += [v > 0]
            if self.level:
                self.side += [v >= 1 + x, z3.Implies(x <= 0, v <= 1), z3.Implies(x < 0, v < 1), z3.Implies(x > 0, v > 1)]
            self.group('exp', t, v, x)
            return v
        if op == 'log':
            v = self.fresh(t); x = self.a(A[0], 'R')
            if self.level:
                self.side += [v <= x - 1, (v > 0) == (x > 1), (v >= 0) == (x >= 1)]
            self.group('log', t, v, x)
            return v
        if op == 'pow':
            v = self.fresh(t); x = self.a(A[0], 'R'); y = self.a(A[1], 'R')
            self.side += [z3.Implies(x > 0, v > 0), v >= 0]
            if self.level:
                self.side += [z3.Implies(z3.And(x > 0, x <= 1, y >= 0), v <= 1), z3.Implies(z3.And(x >= 1, y >= 0), v >= 1),
                              z3.Implies(z3.And(x > 0, y == 0), v == 1), z3.Implies(x == 1, v == 1), z3.Implies(z3.And(x > 0, y == 1), v == x),
                              z3.Implies(z3.And(x == 0, y > 0), v == 0)]
            self.group('pow', t, v, x, y)
            return v
        if op == 'uf':
            fname = A[0]
            args = [self.a(x, T.sort_of(x)) for x in A[1:]]
            if self.level >= 2 or fname.startswith('arr:') or s == 'F':
                f = z3.Function(fname, *([x.sort() for x in args] + [z3.RealSort() if s == 'R' else z3.IntSort() if s == 'I' else F64 if s == 'F' else z3.BoolSort() if s == 'B' else z3.BitVecSort(s)]))
                v = f(*args)
            else:
                v = self.fresh(t)
                self.group('uf:' + fname, t, v, *args)
            if s in ('R', 'I'): self.bound(t, v)
            if fname.startswith('rnd') and s == 'R':
                x = args[0]; h = z3.RealVal(Fraction(1, 2) / 10 ** (int(fname[3:]) - 1))
                self.side += [v - x <= h * z3.If(x >= 0, x, -x), x - v <= h * z3.If(x >= 0, x, -x)]
            return v
        # IEEE
        if op == 'fconst': return z3.fpBVToFP(z3.BitVecVal(A[0], 64), F64)
        if op == 'fadd': return z3.fpAdd(RNE, self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'fsub': return z3.fpSub(RNE, self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'fmul': return z3.fpMul(RNE, self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'fdiv': return z3.fpDiv(RNE, self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'fsqrt': return z3.fpSqrt(RNE, self.a(A[0], 'F'))
        if op == 'fneg': return z3.fpNeg(self.a(A[0], 'F'))
        if op == 'fabs': return z3.fpAbs(self.a(A[0], 'F'))
        if op == 'ffloor': return z3.fpRoundToIntegral(z3.RTN(), self.a(A[0], 'F'))
        if op == 'fceil': return z3.fpRoundToIntegral(z3.RTP(), self.a(A[0], 'F'))
        if op == 'ftrunc': return z3.fpRoundToIntegral(z3.RTZ(), self.a(A[0], 'F'))
        if op == 'fround': return z3.fpRoundToIntegral(z3.RNA(), self.a(A[0], 'F'))
        if op == 'flt': return z3.fpLT(self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'fle': return z3.fpLEQ(self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'feq': return z3.fpEQ(self.a(A[0], 'F'), self.a(A[1], 'F'))
        if op == 'fisnan': return z3.fpIsNaN(self.a(A[0], 'F'))
        if op == 'fisinf': return z3.fpIsInf(self.a(A[0], 'F'))
        if op == 'fsame': return self.a(A[0], 'F') == self.a(A[1], 'F')
        if op == 'ftosbv': return z3.fpToSBV(RTZ, self.a(A[0], 'F'), z3.BitVecSort(s))
        if op == 'ftoubv': return z3.fpToUBV(RTZ, self.a(A[0], 'F'), z3.BitVecSort(s))
        if op == 'sbvtof': return z3.fpSignedToFP(RNE, self.a(A[0], A[0].sort), F64)
        if op == 'ubvtof': return z3.fpUnsignedToFP(RNE, self.a(A[0], A[0].sort), F64)
        if op == 'ftof32': return z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, self.a(A[0], 'F'), z3.Float32()), F64)
        if op == 'fbits2f': return z3.fpBVToFP(self.a(A[0], 64), F64)
        if op == 'f2bits': return z3.fpToIEEEBV(self.a(A[0], 'F'))
        # bit-vectors
        n = A[0].sort if isinstance(A[0], Term) and isinstance(A[0].sort, int) else (A[1].sort if len(A) > 1 and isinstance(A[1], Term) and isinstance(A[1].sort, int) else s)
        if op in BV2:
            return BV2[op](self.a(A[0], n), self.a(A[1], n))
        if op == 'bvnot': return ~self.a(A[0], n)
        if op == 'zext': return z3.ZeroExt(s - A[0].sort, self.a(A[0], n))
        if op == 'sext': return z3.SignExt(s - A[0].sort, self.a(A[0], n))
        if op == 'extract': return z3.Extract(A[1], A[2], self.a(A[0], n))
        if op == 'concat':
            return z3.Concat([self.a(x, 8) for x in A])
        if op == 'bv2int': return z3.BV2Int(self.a(A[0], n), is_signed=True)
        if op == 'int2bv': return z3.Int2BV(self.a(A[0], 'I'), s)
        raise NotImplementedError('xlate ' + op)

    def pi(self):
        return self(T.PI)

    def group(self, kind, t, v, *args):
        self.groups.setdefault(kind, []).append((t, v, args))

    def angle_axioms(self, a, sv, cv):
        if self.level < 1: return
        ang = self(a); pi = self.pi()
        lo, hi = a.lo, a.hi
        # sign axioms inside one period
        if lo >= -3.15 and hi <= 3.15:
            self.side += [z3.Implies(z3.And(ang > 0, ang < pi), sv > 0), z3.Implies(z3.And(ang < 0, ang > -pi), sv < 0),
                          z3.Implies(ang == 0, z3.And(sv == 0, cv == 1)),
                          z3.Implies(z3.And(2 * ang < pi, 2 * ang > -pi), cv > 0),
                          z3.Implies(z3.Or(z3.And(2 * ang > pi, ang < pi), z3.And(2 * ang < -pi, ang > -pi)), cv < 0)]
            if lo >= 0:
                self.side += [sv <= ang]
        elif lo >= 0 and hi <= 6.2832:
            self.side += [z3.Implies(z3.And(ang > 0, ang < pi), sv > 0), z3.Implies(z3.And(ang > pi, ang < 2 * pi), sv < 0),
                          z3.Implies(ang == 0, z3.And(sv == 0, cv == 1)), z3.Implies(ang == pi, z3.And(sv == 0, cv == -1))]

    def pair_axioms(self):
        """monotonicity / congruence between applications of one function (level 2)"""
        out = []
        # cos is strictly decreasing on [0, pi]: acos results and angles of that range
        ac = [(v, a[0]) for t, v, a in self.groups.get('acos', [])]
        if ac:
            angs = [(self.cache[u.id], self.trig[u.id][1]) for u in self.keep if u.id in self.trig and u.sort == 'R' and u.lo >= 0 and u.hi <= 3.1415926535897936]
            for v, x in ac[:8]:
                for w, c in angs[:8]:
                    out.append((x < c) == (v > w)); out.append((x == c) == (v == w))
        for k, l in self.groups.items():
            if len(l) > 12: continue
            for (t1, v1, a1), (t2, v2, a2) in itertools.combinations(l, 2):
                if k in ('sqrt', 'exp', 'log', 'atan', 'asin'):
                    out.append((a1[0] < a2[0]) == (v1 < v2)); out.append((a1[0] == a2[0]) == (v1 == v2))
                elif k == 'acos':
                    out.append((a1[0] < a2[0]) == (v1 > v2)); out.append((a1[0] == a2[0]) == (v1 == v2))
                else:
                    out.append(z3.Implies(z3.And([x == y for x, y in zip(a1, a2)]), v1 == v2))
        return out

BV2 = {
 'bvadd': lambda a, b: a + b, 'bvsub': lambda a, b: a - b, 'bvmul': lambda a, b: a * b,
 'bvudiv': z3.UDiv, 'bvsdiv': lambda a, b: a / b, 'bvurem': z3.URem, 'bvsrem': z3.SRem,
 'bvshl': lambda a, b: a << b, 'bvlshr': z3.LShR, 'bvashr': lambda a, b: a >> b,
 'bvand': lambda a, b: a & b, 'bvor': lambda a, b: a | b, 'bvxor': lambda a, b: a ^ b,
 'bvult': z3.ULT, 'bvule': z3.ULE, 'bvslt': lambda a, b: a < b, 'bvsle': lambda a, b: a <= b, 'bveq': lambda a, b: a == b,
}

def slice_pc(pc, goal_vars):
    """constraints transitively sharing variables with goal_vars"""
    vs = set(goal_vars)
    rest = [(c, T.vars_of(c)) for c in pc]
    out = []
    changed = True
    while changed and rest:
        changed = False
        keep = []
        for c, v in rest:
            if not v or (v & vs):
                out.append(c); vs |= v; changed = True
            else: keep.append((c, v))
        rest = keep
    return out

_feas_cache = {}

def kind_of(ts):
    fp = nl = False
    for t in T.collect(ts):
        if t.sort == 'F' or t.op in ('flt', 'fle', 'feq'): return 'fp'
    return 'other'

def feasible(pc, extra, timeout=1500, want_model=None):
    """'sat' | 'unsat' | 'unknown' for pc and extra"""
    if extra is False: return 'unsat'
    if extra is True and not pc: return 'sat'
    gv = T.vars_of(extra) if isinstance(extra, Term) else frozenset()
    cons = slice_pc(pc, gv) if isinstance(extra, Term) else list(pc)
    key = (frozenset(c.id for c in cons), extra.id if isinstance(extra, Term) else extra)
    if want_model is None and key in _feas_cache: return _feas_cache[key]
    t0 = time.time()
    X = Xlate(axioms=1)
    s = z3.Solver()
    s.set('timeout', timeout)
    es = [X(c) for c in cons]
    if isinstance(extra, Term): es.append(X(extra))
    if isinstance(want_model, Term): X(want_model)
    for e in X.side: s.add(e)
    for e in es: s.add(e)
    if len(X.groups) and any(len(l) > 1 for l in X.groups.values()):
        if any(k in ('exp', 'log', 'pow', 'acos') and len(l) > 1 for k, l in X.groups.items()):
            for e in X.pair_axioms(): s.add(e)
    r = str(s.check())
    STATS['feas_queries'] += 1; STATS['feas_time'] += time.time() - t0
    if r == 'unknown': STATS['feas_unknown'] += 1
    if want_model is None:
        _feas_cache[key] = r
        return r
    m = None
    if r == 'sat':
        m = s.model()
        v = m.eval(X(want_model) if isinstance(want_model, Term) else want_model, model_completion=True)
        return r, v
    return r, None

# ---------------------------------------------------------------- float evaluation
def evalf(roots, env):
    """evaluate terms with python floats; env: var name -> value. Returns dict id -> value"""
    val = {}
    def g(x):
        if isinstance(x, Term): return val[x.id]
        if isinstance(x, Fraction): return float(x)
        return x
    for t in T.collect(roots):
        op = t.op; A = t.args
        try:
            if op == 'var':
                if t is T.PI: v = math.pi
                else:
                    v = env[A[0]]
            elif op == 'lin':
                v = g(A[1])
                for a, c in A[0]: v = v + g(c) * val[a.id]
            elif op == 'mul':
                v = 1
                for a in A: v = v * g(a)
            elif op == 'div': v = g(A[0]) / g(A[1])
            elif op == 'lt0': v = g(A[0]) < 0
            elif op == 'le0': v = g(A[0]) <= 0
            elif op == 'eq0': v = abs(g(A[0])) < 1e-12 if t.args[0].sort == 'R' else g(A[0]) == 0
            elif op == 'not': v = not g(A[0])
            elif op == 'and': v = all(g(a) for a in A)
            elif op == 'xor': v = bool(g(A[0])) != bool(g(A[1]))
            elif op == 'ite': v = g(A[1]) if g(A[0]) else g(A[2])
            elif op == 'toreal': v = float(g(A[0]))
            elif op == 'floor': v = math.floor(g(A[0]))
            elif op == 'mod': v = g(A[0]) % A[1]
            elif op == 'idiv': v = g(A[0]) // A[1]
            elif op == 'sqrt': v = math.sqrt(max(0.0, g(A[0])))
            elif op == 'sin': v = math.sin(g(A[0]))
            elif op == 'cos': v = math.cos(g(A[0]))
            elif op == 'acos': v = math.acos(max(-1.0, min(1.0, g(A[0]))))
            elif op == 'asin': v = math.asin(max(-1.0, min(1.0, g(A[0]))))
            elif op == 'atan2': v = math.atan2(g(A[0]), g(A[1]))
            elif op == 'atan': v = math.atan(g(A[0]))
            elif op == 'exp': v = math.exp(g(A[0]))
            elif op == 'log': v = math.log(g(A[0]))
            elif op == 'pow': v = math.pow(g(A[0]), g(A[1]))
            elif op == 'uf':
                if A[0] == 'erf': v = math.erf(g(A[1]))
                elif A[0] == 'erfc': v = math.erfc(g(A[1]))
                elif A[0] == 'tgamma': v = math.gamma(g(A[1]))
                elif A[0] in env: v = env[A[0]](*[g(a) for a in A[1:]])
                else: v = float('nan')
            elif op == 'fconst': v = T.fval(t)
            elif op == 'fadd': v = g(A[0]) + g(A[1])
            elif op == 'fsub': v = g(A[0]) - g(A[1])
            elif op == 'fmul': v = g(A[0]) * g(A[1])
            elif op == 'fdiv':
                d = g(A[1]); n = g(A[0])
                v = n / d if d != 0 else (float('nan') if n == 0 or n != n else math.copysign(T.INF, n) * math.copysign(1, d))
            elif op == 'fsqrt': v = math.sqrt(g(A[0])) if g(A[0]) >= 0 else float('nan')
            elif op == 'fneg': v = -g(A[0])
            elif op == 'fabs': v = abs(g(A[0]))
            elif op == 'flt': v = g(A[0]) < g(A[1])
            elif op == 'fle': v = g(A[0]) <= g(A[1])
            elif op == 'feq': v = g(A[0]) == g(A[1])
            elif op == 'fisnan': v = g(A[0]) != g(A[0])
            elif op == 'fisinf': v = g(A[0]) in (T.INF, -T.INF)
            elif op == 'fsame': v = T.fbits(g(A[0])) == T.fbits(g(A[1]))
            else:
                v = None
        except (ZeroDivisionError, ValueError, OverflowError, KeyError, TypeError):
            v = float('nan') if t.sort in ('R', 'F') else None
        val[t.id] = v
    return val

def holds(terms, env):
    v = evalf(terms, env)
    for t in terms:
        if isinstance(t, Term):
            if v[t.id] is not True: return False
        elif t is False: return False
    return True
