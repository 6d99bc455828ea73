"""Closed form of a run of memory cells: a term g(K) with g(k) identical to the value of every cell k, so that a load at a
symbolic index of a large array is one term instead of a chain of case distinctions.  Exact: every instance is compared."""
from fractions import Fraction
import terms as T
from terms import Term
import split

class No(Exception): pass

def gen(x, y, a, b, K, sort=None):
    if x is y: return x
    if not isinstance(x, Term) and not isinstance(y, Term):
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, float) or isinstance(y, float): raise No
        if not isinstance(x, (int, Fraction)) or not isinstance(y, (int, Fraction)): raise No
        if x == y: return x
        s = Fraction(y - x) / (b - a)
        if isinstance(x, Fraction): return T.add(T.scale(s, T.add(T.to_real(K), Fraction(-a))), x)
        if s.denominator != 1: raise No
        return T.add(T.scale(int(s), T.add(K, -a)), x)
    if not isinstance(x, Term) or not isinstance(y, Term) or x.op != y.op or x.sort != y.sort: raise No
    op, A, B = x.op, x.args, y.args
    if op == 'var': raise No
    if op == 'lin':
        l = [p for p in A[0] if p not in B[0]]; r = [p for p in B[0] if p not in A[0]]
        s = gen(A[1], B[1], a, b, K)
        for t, k in A[0]:
            if (t, k) not in l: s = T.add(s, T.scale(k, t))
        if len(l) != len(r): raise No
        for (t, k), (u, m) in zip(sorted(l, key=lambda p: (p[1], p[0].id)), sorted(r, key=lambda p: (p[1], p[0].id))):
            if k != m: raise No
            s = T.add(s, T.scale(k, gen(t, u, a, b, K)))
        return s
    if len(A) != len(B): raise No
    if op == 'uf':
        if A[0] != B[0]: raise No
        return T.uf(A[0], [gen(p, q, a, b, K) for p, q in zip(A[1:], B[1:])], min(x.lo, y.lo), max(x.hi, y.hi), x.sort)
    N = [gen(p, q, a, b, K) for p, q in zip(A, B)]
    if op == 'ite': return T.ite(N[0], N[1], N[2], x.sort)
    if op in ('lt0', 'le0', 'eq0'): return T.mk_cmp0(op, N[0])
    if op == 'not': return T.not_(N[0])
    if op == 'and': return T.and_(*N)
    if op == 'toreal': return T.to_real(N[0])
    if op == 'mul' and len(N) == 2: return T.mul2(N[0], N[1])
    if op == 'div': return T.div(N[0], N[1])
    raise No

def closed(vals, idx, maxbad=16):
    """vals: list of (index, value) for every possible value of the integer term idx -> term or None"""
    if len(vals) < 64: return None
    K = T.var('run!K', 'I', vals[0][0], vals[-1][0])
    for i, j in ((len(vals) // 3, len(vals) // 3 + 7), (1, len(vals) - 2)):
        (a, x), (b, y) = vals[i], vals[j]
        try: g = gen(x, y, a, b, K)
        except (No, KeyError, AssertionError): continue
        bad = []
        try:
            for k, v in vals:
                w = split.rebuild(g, {K.id: k})
                if w is v or (not isinstance(w, Term) and not isinstance(v, Term) and type(w) == type(v) and w == v): continue
                bad.append((k, v))
                if len(bad) > maxbad: break
        except KeyError: continue
        if len(bad) > maxbad: continue
        r = split.rebuild(g, {K.id: idx})
        for k, v in bad: r = T.ite(T.eq(idx, k), v, r, r.sort if isinstance(r, Term) else 'R')
        return r
    return None
