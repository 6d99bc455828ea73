"""Recognition of algebraic identities on symbolic reals.

A value that is identically equal (modulo sin^2+cos^2=1, sqrt(x)^2=x) to a simpler known term is replaced
by that term: sqrt(k t^2) -> sqrt(k) |t|, acos(cos a) -> a, atan2(r sin a, r cos a) -> a.  Candidates are
found by evaluating both sides at random points; every replacement is then verified exactly with the
rational-function normal form of poly.py, so that the numeric part is a heuristic only.
"""
import random, math, zlib
from fractions import Fraction
import terms as T
from terms import Term
import solve, poly

NP = 3
class Points:
    def __init__(self):
        self.vals = {}
    def var(self, t):
        rng = random.Random(zlib.crc32(t.args[0].encode()))
        lo = t.lo if t.lo > -T.INF else -2.0
        hi = t.hi if t.hi < T.INF else 2.0
        lo2, hi2 = lo + 0.05 * (hi - lo), lo + 0.6 * (hi - lo)
        return tuple(lo2 + (hi2 - lo2) * rng.random() for _ in range(NP))
    def __call__(self, t):
        if not isinstance(t, Term): return (float(t),) * NP
        v = self.vals.get(t.id)
        if v is not None: return v[0]
        for u in T.collect([t]):
            if u.id in self.vals: continue
            self.vals[u.id] = (self.one(u), u)
        return self.vals[t.id][0]
    def one(self, u):
        if u.op == 'var':
            if u is T.PI: return (math.pi,) * NP
            if u.sort == 'R': return self.var(u)
            return (float('nan'),) * NP
        out = []
        for p in range(NP):
            def g(x):
                if isinstance(x, Term):
                    v = self.vals.get(x.id)
                    return v[0][p] if v else float('nan')
                return float(x) if isinstance(x, (int, Fraction)) else x
            try: out.append(self.ev(u, g))
            except (ZeroDivisionError, ValueError, OverflowError, TypeError): out.append(float('nan'))
        return tuple(out)
    def ev(self, t, g):
        op = t.op; A = t.args
        if op == 'lin':
            v = g(A[1])
            for a, c in A[0]: v += float(c) * g(a)
            return v
        if op == 'mul':
            v = 1.0
            for a in A: v *= g(a)
            return v
        if op == 'div': return g(A[0]) / g(A[1])
        if op == 'sqrt':
            x = g(A[0])
            return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-13 else float('nan'))
        if op == 'sin': return math.sin(g(A[0]))
        if op == 'cos': return math.cos(g(A[0]))
        if op == 'acos': return math.acos(g(A[0]))
        if op == 'asin': return math.asin(g(A[0]))
        if op == 'atan2': return math.atan2(g(A[0]), g(A[1]))
        if op == 'atan': return math.atan(g(A[0]))
        if op == 'exp': return math.exp(g(A[0]))
        if op == 'lt0': return g(A[0]) < 0
        if op == 'le0': return g(A[0]) <= 0
        if op == 'eq0': return g(A[0]) == 0
        if op == 'not':
            return not g(A[0])
        if op == 'and': return all(g(a) for a in A)
        if op == 'ite': return g(A[1]) if g(A[0]) else g(A[2])
        return float('nan')

PTS = Points()

def finite(v): return all(x == x and abs(x) < 1e200 for x in v)

def atoms_of(x):
    """trigonometric / square-root atoms and variables of x, with the complementary sine or cosine"""
    out = {}
    for u in T.collect([x]):
        if u.sort != 'R': continue
        if u.op in ('sin', 'cos') and isinstance(u.args[0], Term):
            s, c = T.sincos(u.args[0])
            for w in (s, c):
                if isinstance(w, Term): out[w.id] = w
        elif u.op in ('sqrt', 'var'):
            if u is not T.PI: out[u.id] = u
    return list(out.values())

def angles_of(x):
    out = {}
    for u in T.collect([x]):
        if u.op in ('sin', 'cos') and isinstance(u.args[0], Term): out[u.args[0].id] = u.args[0]
    return list(out.values())

def interesting(x):
    n = 0
    for u in T.collect([x]):
        if u.op in ('sin', 'cos', 'sqrt', 'div'): return True
        n += 1
        if n > 20000: return False
    return False

def ratio(a, b):
    """a = k*b with a simple rational k at all points"""
    if not (finite(a) and finite(b)): return None
    i = max(range(NP), key=lambda i: abs(b[i]))
    if abs(b[i]) < 1e-9: return None
    k = a[i] / b[i]
    for x, y in zip(a, b):
        if abs(x - k * y) > 1e-9 * max(1.0, abs(x), abs(y)): return None
    f = Fraction(k).limit_denominator(64)
    if f == 0 or abs(float(f) - k) > 1e-9 * max(1, abs(k)): return None
    return f

_cache = {}
def match(x):
    """x == k*t for a simple t (atom, product of two atoms, constant); returns the term or None"""
    if not isinstance(x, Term) or x.sort != 'R': return None
    if x.op in ('var', 'sin', 'cos', 'sqrt'): return None
    if x.op == 'mul' and len(x.args) <= 2 and all(a.op in ('var', 'sin', 'cos', 'sqrt') for a in x.args): return None
    r = _cache.get(x.id)
    if r is not None: return r[0]
    r = _match(x)
    _cache[x.id] = (r, x)
    return r

def size(x): return len(T.collect([x]))

def _match(x):
    if not interesting(x): return None
    v = PTS(x)
    if not finite(v): return None
    if max(v) - min(v) < 1e-9 and size(x) > 1:
        f = Fraction(sum(v) / NP).limit_denominator(64)
        if abs(float(f) - v[0]) < 1e-9 and poly.iszero(T.sub(x, f)): return f
    at = atoms_of(x)
    if len(at) > 24: return None
    for t in at:
        k = ratio(v, PTS(t))
        if k is not None and poly.iszero(T.sub(x, T.scale(k, t))): return T.scale(k, t)
    for i, t in enumerate(at):
        for u in at[i:]:
            if t.op == 'var' and u.op == 'var': continue
            p = T.mul(t, u)
            if p is x: return None
            k = ratio(v, PTS(p))
            if k is not None and poly.iszero(T.sub(x, T.scale(k, p))): return T.scale(k, p)
    return None

_scache = {}
def sqrt_arg(x):
    """x == k*t^2 -> (k, t) or None"""
    r = _scache.get(x.id)
    if r is None:
        r = _scache[x.id] = (_sqrt_arg(x), x)
    return r[0]
def _sqrt_arg(x):
    if not interesting(x) and x.op != 'lin': return None
    v = PTS(x)
    if not finite(v) or min(v) < 0: return None
    if max(v) - min(v) < 1e-9:
        f = Fraction(sum(v) / NP).limit_denominator(64)
        if abs(float(f) - v[0]) < 1e-9 and poly.iszero(T.sub(x, f)): return f, Fraction(1)
    sub = T.collect([x])
    if len(sub) > 4000: return None
    at = atoms_of(x)
    cand = list(at)
    for u in sub:
        if u.sort == 'R' and u.op in ('lin', 'div', 'mul') and u is not x: cand.append(u)
    if len(at) <= 16:
        for i, t in enumerate(at):
            for u in at[i + 1:]: cand.append(T.mul(t, u))
    lins = [u for u in sub if u.sort == 'R' and u.op == 'lin'][:24]
    if len(at) <= 16:
        for l in lins:
            for t in at:
                if t.op != 'var': cand.append(T.mul(l, t))
    seen = set()
    for t in cand:
        if not isinstance(t, Term) or t.id in seen: continue
        seen.add(t.id)
        w = PTS(t)
        if not finite(w): continue
        k = ratio(v, tuple(a * a for a in w))
        if k is None or k <= 0: continue
        if poly.iszero(T.sub(x, T.scale(k, T.mul(t, t)))): return k, t
    return None

def angle_of(y, x):
    """(y, x) parallel to (sin a, cos a): candidates a"""
    out = []
    vy, vx = PTS(y), PTS(x)
    if not (finite(vy) and finite(vx)): return out
    angs = angles_of(y) if isinstance(y, Term) else []
    if isinstance(x, Term): angs += [a for a in angles_of(x) if a not in angs]
    cands = []
    for a in angs:
        cands.append(a)
    if len(angs) <= 6:
        for i, a in enumerate(angs):
            for b in angs[i + 1:]:
                cands += [T.add(a, b), T.sub(a, b), T.sub(b, a)]
    cands = [a for a in cands if isinstance(a, Term)]
    for a in cands:
        va = PTS(a)
        if not finite(va): continue
        if any(abs(b * math.cos(w) - c * math.sin(w)) > 1e-9 * max(1, abs(b), abs(c)) for b, c, w in zip(vy, vx, va)): continue
        s, c = T.sincos(a)
        if poly.iszero(T.sub(T.mul2(y, c), T.mul2(x, s))): out.append(a)
    return out
