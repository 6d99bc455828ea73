"""Symbolic derivative of real terms."""
from fractions import Fraction
import terms as T
from terms import Term

class NotDifferentiable(Exception): pass

def diff(root, v):
    if not isinstance(root, Term): return Fraction(0)
    D = {}
    Z = Fraction(0); ONE = Fraction(1)
    def d(x): return D[x.id] if isinstance(x, Term) else Z
    def zero(x): return not isinstance(x, Term) and x == 0
    def mul(a, b):
        if zero(a) or zero(b): return Z
        return T.mul2(a, b) if isinstance(a, Term) or isinstance(b, Term) else a * b
    for t in T.collect([root]):
        if t.sort != 'R':
            D[t.id] = Z; continue
        op = t.op; A = t.args
        if t is v: r = ONE
        elif op == 'var': r = Z
        elif op == 'lin':
            r = Z
            for a, c in A[0]: r = T.add(r, T.scale(c, d(a)))
        elif op == 'mul':
            r = Z
            for i, a in enumerate(A):
                if zero(d(a)): continue
                p = d(a)
                for j, b in enumerate(A):
                    if j != i: p = mul(p, b)
                r = T.add(r, p)
        elif op == 'div':
            n, q = A
            dn, dq = d(n), d(q)
            r = Z
            if not zero(dn): r = T.div(dn, q)
            if not zero(dq): r = T.sub(r, T.div(mul(t, dq), q))
        elif op == 'sqrt': r = T.div(d(A[0]), T.scale(2, t)) if not zero(d(A[0])) else Z
        elif op == 'sin': r = mul(T.cos(A[0]) , d(A[0])) if not zero(d(A[0])) else Z
        elif op == 'cos': r = mul(T.neg(T.sin(A[0])), d(A[0])) if not zero(d(A[0])) else Z
        elif op == 'exp': r = mul(t, d(A[0]))
        elif op == 'log': r = T.div(d(A[0]), A[0]) if not zero(d(A[0])) else Z
        elif op == 'acos': r = T.neg(T.div(d(A[0]), T.sqrt(T.sub(ONE, T.mul(A[0], A[0]))))) if not zero(d(A[0])) else Z
        elif op == 'asin': r = T.div(d(A[0]), T.sqrt(T.sub(ONE, T.mul(A[0], A[0])))) if not zero(d(A[0])) else Z
        elif op == 'atan': r = T.div(d(A[0]), T.add(ONE, T.mul(A[0], A[0]))) if not zero(d(A[0])) else Z
        elif op == 'atan2':
            y, x = A
            if zero(d(y)) and zero(d(x)): r = Z
            else: r = T.div(T.sub(mul(x, d(y)), mul(y, d(x))), T.add(T.mul2(x, x), T.mul2(y, y)))
        elif op == 'pow':
            x, y = A
            r = Z
            if not zero(d(x)): r = T.div(mul(mul(t, y), d(x)), x)
            if not zero(d(y)): r = T.add(r, mul(mul(t, T.log(x)), d(y)))
        elif op == 'ite':
            r = T.ite(A[0], d(A[1]), d(A[2]), 'R')
        elif op == 'uf':
            if all(zero(d(a)) for a in A[1:]): r = Z
            elif A[0] == 'erf' or A[0] == 'erfc':
                k = T.div(Fraction(2 if A[0] == 'erf' else -2), T.sqrt(T.PI))
                r = mul(mul(k, T.exp(T.neg(T.mul(A[1], A[1])))), d(A[1]))
            else: raise NotDifferentiable(A[0])
        elif op == 'toreal': r = Z
        else: raise NotDifferentiable(op)
        D[t.id] = r
    return D[root.id]
