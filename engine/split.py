"""Case analysis on the conditions of piecewise terms, each case decided by the rational normal form."""
import z3
from fractions import Fraction
import terms as T, poly
from terms import Term

UN = {'sqrt': T.sqrt, 'sin': T.sin, 'cos': T.cos, 'acos': T.acos, 'asin': T.asin, 'atan': T.atan, 'exp': T.exp, 'log': T.log}

def rebuild(root, m):
    """root with the terms of m (id -> value) replaced, simplified again on the way up"""
    if not isinstance(root, Term): return root
    R = dict(m)
    def g(x): return R[x.id] if isinstance(x, Term) and x.id in R else x
    for t in T.collect([root]):
        if t.id in R: continue
        op = t.op; A = t.args
        if op == 'var': R[t.id] = t; continue
        if op == 'lin':
            if all(g(a) is a for a, k in A[0]): R[t.id] = t; continue
            r = Fraction(A[1]) if t.sort == 'R' else A[1]
            for a, k in A[0]: r = T.add(r, T.scale(k, g(a)))
            R[t.id] = r; continue
        N = [g(a) for a in A]
        if all(x is y for x, y in zip(N, A)): R[t.id] = t; continue
        if op == 'mul':
            r = N[0]
            for x in N[1:]: r = T.mul2(r, x) if isinstance(r, Term) or isinstance(x, Term) else r * x
        elif op == 'div': r = T.div(N[0], N[1])
        elif op in UN: r = UN[op](N[0])
        elif op == 'atan2': r = T.atan2(N[0], N[1])
        elif op == 'pow': r = T.pow_(N[0], N[1])
        elif op in ('lt0', 'le0', 'eq0'): r = T.mk_cmp0(op, N[0])
        elif op == 'not': r = T.not_(N[0])
        elif op == 'and': r = T.and_(*N)
        elif op == 'xor': r = T.xor_(N[0], N[1])
        elif op == 'ite': r = T.ite(N[0], N[1], N[2], t.sort)
        elif op == 'uf': r = T.uf(A[0], N[1:], t.lo, t.hi, t.sort)
        elif op == 'toreal': r = T.to_real(N[0])
        elif op == 'floor': r = T.floor_(N[0])
        else: raise KeyError(op)
        R[t.id] = r
    return R[root.id]

class Lin:
    """linear relaxation: every non-linear subterm is an unknown between its bounds"""
    def __init__(self): self.s = z3.Solver(); self.s.set('timeout', 400); self.v = {}
    def num(self, t):
        if not isinstance(t, Term): return z3.RealVal(str(Fraction(t)))
        if t.op == 'lin':
            r = z3.RealVal(str(Fraction(t.args[1])))
            for a, k in t.args[0]: r = r + z3.RealVal(str(Fraction(k))) * self.num(a)
            return r
        x = self.v.get(t.id)
        if x is None:
            x = self.v[t.id] = z3.Real('t%d' % t.id)
            if t.lo > -T.INF: self.s.add(x >= z3.RealVal(repr(t.lo) if abs(t.lo) > 1e-4 or t.lo == 0 else str(Fraction(t.lo))))
            if t.hi < T.INF: self.s.add(x <= z3.RealVal(repr(t.hi) if abs(t.hi) > 1e-4 or t.hi == 0 else str(Fraction(t.hi))))
        return x
    def bool(self, c):
        if c is True or c is False: return z3.BoolVal(c)
        if c.op in ('lt0', 'le0', 'eq0') and c.args[0].sort in 'RI':
            n = self.num(c.args[0])
            return n < 0 if c.op == 'lt0' else n <= 0 if c.op == 'le0' else n == 0
        if c.op == 'not': return z3.Not(self.bool(c.args[0]))
        if c.op == 'and': return z3.And(*[self.bool(a) for a in c.args])
        return z3.Bool('b%d' % c.id)
    def infeasible(self, cs):
        for c in cs: self.s.add(self.bool(c))
        return self.s.check() == z3.unsat

def pick(d):
    for t in T.collect([d]):
        if t.op == 'ite' and t.sort == 'R' and not T.isabs(t.args[0], t.args[1], t.args[2]): return t.args[0]
    return None

def iszero(pc, d, leaves=48, depth=9):
    """True when d is zero in every case the conditions in it allow"""
    count = [0]
    def rec(d, cs, k):
        if not isinstance(d, Term): return d == 0 or infeasible(cs)
        c = pick(d)
        if c is None or k == 0:
            count[0] += 1
            if count[0] > leaves: return False
            return (not cs and poly.iszero(d)) or infeasible(cs) or poly.iszero(d)
        for val in (True, False):
            cc = c if val else T.not_(c)
            cs2 = cs + [cc]
            if k < depth and infeasible(cs2): continue
            try: d2 = rebuild(d, {c.id: val})
            except ZeroDivisionError:
                if infeasible(cs2): continue
                return False
            except KeyError: return False
            if not rec(d2, cs2, k - 1): return False
        return True
    def infeasible(cs):
        if any(c is False for c in cs): return True
        return Lin().infeasible([c for c in list(pc) + cs if isinstance(c, Term)])
    if not isinstance(d, Term) or pick(d) is None: return False
    if len(T.collect([d])) > 3000: return False
    try: return rec(d, [], depth)
    except (RecursionError, ZeroDivisionError): return False
