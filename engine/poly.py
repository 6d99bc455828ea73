"""Rational-function normal form over atoms, modulo sin^2+cos^2=1 and sqrt(x)^2=x.

normal(t) -> (N, D) polynomials (dict monomial -> Fraction); a monomial is a sorted tuple of
(atom id, exponent).  Used to decide equalities that hold identically, and to simplify the
others before they are handed to the SMT solver.
"""
from fractions import Fraction
import terms as T
from terms import Term

class TooBig(Exception): pass
LIMIT = 6000

ONE = {(): Fraction(1)}

class Norm:
    def __init__(self, limit=LIMIT, subst=None):
        self.limit = limit
        self.cache = {}
        self.atoms = {}
        self.red = {}      # atom id -> polynomial equal to atom^2
        self.deg = {}      # atom id -> k when red holds atom^k (k-th roots)
        self.subst = subst or {}

    def atom(self, t):
        self.atoms[t.id] = t
        return {((t.id, 1),): Fraction(1)}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v == 0: r.pop(m, None)
            else: r[m] = v
        if len(r) > self.limit: raise TooBig()
        return r

    def mmul(self, m1, m2):
        if not m1: return m2
        if not m2: return m1
        d = dict(m1)
        for a, e in m2: d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if len(a) * len(b) > self.limit * 12: raise TooBig()
        r = {}
        need = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0: r.pop(m, None)
                else: r[m] = v
        if len(r) > self.limit: raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        if not self.red: return p
        while True:
            todo = None
            for m in p:
                for a, e in m:
                    if a in self.red and e >= self.deg.get(a, 2): todo = (m, a, e); break
                if todo: break
            if not todo: return p
            out = {}
            for m, c in p.items():
                hit = None
                for a, e in m:
                    if a in self.red and e >= self.deg.get(a, 2): hit = (a, e); break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v == 0: out.pop(m, None)
                    else: out[m] = v
                    continue
                a, e = hit
                rest = tuple((x, y) for x, y in m if x != a)
                k = self.deg.get(a, 2)
                if e % k: rest = self.mmul(rest, ((a, e % k),))
                q = {rest: c}
                for _ in range(e // k):
                    q2 = {}
                    for m1, c1 in q.items():
                        for m2, c2 in self.red[a].items():
                            mm = self.mmul(m1, m2); v = q2.get(mm, 0) + c1 * c2
                            if v == 0: q2.pop(mm, None)
                            else: q2[mm] = v
                    q = q2
                for mm, cc in q.items():
                    v = out.get(mm, 0) + cc
                    if v == 0: out.pop(mm, None)
                    else: out[mm] = v
                if len(out) > self.limit * 4: raise TooBig()
            p = out

    def radd(self, x, y, k=1):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2: return self.add(n1, n2, k), d1
        if len(d2) == 1 and () in d2:
            return self.add(n1, self.mul(self.sc(n2, Fraction(1) / d2[()]), d1), k), d1
        if len(d1) == 1 and () in d1:
            return self.add(self.mul(self.sc(n1, Fraction(1) / d1[()]), d2), n2, k), d2
        # cheap gcd for products handled by the term layer; here cross-multiply
        return self.add(self.mul(n1, d2), self.mul(n2, d1), k), self.mul(d1, d2)

    def sc(self, p, k):
        return {m: c * k for m, c in p.items()} if k != 0 else {}

    def rmul(self, x, y):
        n1, d1 = x; n2, d2 = y
        if n1 == d2: n1, d2 = ONE, ONE
        if n2 == d1: n2, d1 = ONE, ONE
        return self.mul(n1, n2), self.mul(d1, d2)

    def __call__(self, t):
        if not isinstance(t, Term):
            return ({(): Fraction(t)} if t != 0 else {}), ONE
        for u in T.collect([t]):
            if u.id not in self.cache: self.cache[u.id] = self.one(u)
        return self.cache[t.id]

    def g(self, x):
        return self.cache[x.id] if isinstance(x, Term) else self(x)

    def one(self, t):
        if t.sort != 'R' and t.sort != 'I': return None
        if t.id in self.subst: return self.subst[t.id]
        op = t.op; A = t.args
        if op == 'lin':
            r = ({(): Fraction(A[1])} if A[1] != 0 else {}), ONE
            for a, k in A[0]:
                n, d = self.g(a)
                r = self.radd(r, (self.sc(n, Fraction(k)), d))
            return r
        if op == 'mul':
            r = (ONE, ONE)
            for x in A: r = self.rmul(r, self.g(x))
            return r
        if op == 'div':
            n, d = self.g(A[1])
            return self.rmul(self.g(A[0]), (d, n))
        if op == 'sqrt':
            n, d = self.g(A[0])
            p = self.atom(t)
            if len(d) == 1 and () in d and t.id not in self.red:
                self.red[t.id] = self.sc(n, 1 / d[()])
            return p, ONE
        if op == 'ite' and isinstance(A[2], Term) and T.isabs(A[0], A[1], A[2]):
            n, d = self.g(A[2])
            p = self.atom(t)
            if len(d) == 1 and () in d and t.id not in self.red:
                self.red[t.id] = self.mul(self.sc(n, 1 / d[()]), self.sc(n, 1 / d[()]))
            return p, ONE
        if op == 'pow' and not isinstance(A[1], Term) and A[1].numerator == 1 and A[1].denominator > 2 and T.lo_of(A[0]) >= 0:
            n, d = self.g(A[0])
            p = self.atom(t)
            if len(d) == 1 and () in d and t.id not in self.red:
                self.red[t.id] = self.sc(n, 1 / d[()]); self.deg[t.id] = A[1].denominator
            return p, ONE
        if op == 'sin':
            c = T.cos(A[0])
            if isinstance(c, Term) and c.op == 'cos':
                p = self.atom(t)
                cp = self.atom(c)
                self.red[t.id] = self.add(ONE, self.mul(cp, cp), -1)
                return p, ONE
        return self.atom(t), ONE

class FNorm(Norm):
    """Same, with the denominator kept as a product of factors: a value is (N, {factor key: exponent})."""
    def __init__(self, limit=LIMIT, subst=None):
        super().__init__(limit, subst)
        self.fac = {}          # key -> polynomial
        self.byred = {}        # key of the polynomial s^2 -> atom s

    def fkey(self, p):
        k = tuple(sorted(p.items())); self.fac[k] = p; return k

    def split(self, p):
        """polynomial -> (constant, {key: exponent})"""
        ms = list(p)
        cont = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(cont):
                e = min(cont[a], d.get(a, 0))
                if e: cont[a] = e
                else: del cont[a]
            if not cont: break
        out = {}
        for a, e in cont.items(): out[self.fkey({((a, 1),): Fraction(1)})] = e
        if cont:
            p = {tuple((a, e - cont.get(a, 0)) for a, e in m if e > cont.get(a, 0)): c for m, c in p.items()}
        lead = p[min(p)]
        if len(p) > 1:
            q = {m: c / lead for m, c in p.items()}
            k = self.fkey(q)
            if k in self.byred:
                s, c = self.byred[k]; k2 = self.fkey({((s, 1),): Fraction(1)}); out[k2] = out.get(k2, 0) + 2; lead = lead * c
            else: out[k] = out.get(k, 0) + 1
        return lead, out

    def note(self, a, p):
        if len(p) > 1:
            lead = p[min(p)]
            self.byred[self.fkey({m: c / lead for m, c in p.items()})] = (a, 1 / lead)

    def cancel(self, n, d):
        if not n: return n, {}
        ms = list(n); cont = dict(ms[0])
        for m in ms[1:]:
            dd = dict(m)
            for a in list(cont):
                e = min(cont[a], dd.get(a, 0))
                if e: cont[a] = e
                else: del cont[a]
            if not cont: return n, d
        cut = {}
        d = dict(d)
        for a, e in cont.items():
            k = (((((a, 1),)), Fraction(1)),)
            if k in d:
                x = min(e, d[k]); cut[a] = x; d[k] -= x
                if not d[k]: del d[k]
        if cut: n = {tuple((a, e - cut.get(a, 0)) for a, e in m if e > cut.get(a, 0)): c for m, c in n.items()}
        return n, d

    def expand(self, n, d):
        for k, e in d.items():
            for _ in range(e): n = self.mul(n, self.fac[k])
        return n

    def radd(self, x, y, k=1):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2: return self.cancel(self.add(n1, n2, k), d1)
        l = dict(d1)
        for f, e in d2.items(): l[f] = max(l.get(f, 0), e)
        n1 = self.expand(n1, {f: e - d1.get(f, 0) for f, e in l.items() if e > d1.get(f, 0)})
        n2 = self.expand(n2, {f: e - d2.get(f, 0) for f, e in l.items() if e > d2.get(f, 0)})
        return self.cancel(self.add(n1, n2, k), l)

    def rmul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        l = dict(d1)
        for f, e in d2.items(): l[f] = l.get(f, 0) + e
        return self.cancel(self.mul(n1, n2), l)

    def rdiv(self, x, y):
        n2, d2 = y
        if not n2: raise TooBig()
        c, f = self.split(n2)
        n1, d1 = x
        n1 = self.sc(n1, 1 / c); d1 = dict(d1); d2 = dict(d2)
        for k in list(d2):      # cancel factors of the divisor's denominator against the new ones
            for dd in (d1, f):
                if k in d2 and k in dd:
                    e = min(dd[k], d2[k]); dd[k] -= e; d2[k] -= e
                    if not dd[k]: del dd[k]
                    if not d2[k]: del d2[k]
        n1 = self.expand(n1, d2)
        for k, e in f.items(): d1[k] = d1.get(k, 0) + e
        return self.cancel(n1, d1)

    def one(self, t):
        if t.sort != 'R' and t.sort != 'I': return None
        op = t.op; A = t.args
        if op == 'div': return self.rdiv(self.g(A[0]), self.g(A[1]))
        if op == 'lin':
            r = ({(): Fraction(A[1])} if A[1] != 0 else {}), {}
            for a, k in A[0]:
                n, d = self.g(a)
                r = self.radd(r, (self.sc(n, Fraction(k)), d))
            return r
        if op == 'mul':
            r = (ONE, {})
            for x in A: r = self.rmul(r, self.g(x))
            return r
        if op == 'sqrt':
            n, d = self.g(A[0])
            p = self.atom(t)
            if not d and t.id not in self.red:
                self.red[t.id] = n; self.note(t.id, n)
            return p, {}
        if op == 'ite' and isinstance(A[2], Term) and T.isabs(A[0], A[1], A[2]):
            n, d = self.g(A[2])
            p = self.atom(t)
            if not d and t.id not in self.red: self.red[t.id] = self.mul(n, n)
            return p, {}
        if op == 'pow': return self.atom(t), {}
        if op == 'sin':
            c = T.cos(A[0])
            if isinstance(c, Term) and c.op == 'cos':
                p = self.atom(t); cp = self.atom(c)
                self.red[t.id] = self.add(ONE, self.mul(cp, cp), -1)
                return p, {}
        return self.atom(t), {}

    def __call__(self, t):
        if not isinstance(t, Term): return ({(): Fraction(t)} if t != 0 else {}), {}
        for u in T.collect([t]):
            if u.id not in self.cache: self.cache[u.id] = self.one(u)
        return self.cache[t.id]

def iszero(t, subst=None):
    """True when t is identically zero as a rational function of its atoms"""
    try:
        n, d = Norm(subst=subst)(t)
        return not n
    except TooBig: pass
    if subst: return False
    try:
        n, d = FNorm(limit=20000)(t)
        return not n
    except TooBig:
        return False

def numerator(t):
    """polynomial term with the same zeros (denominators are non-zero by construction), or None"""
    try:
        N = Norm(limit=1500)
        n, d = N(t)
        if not n: return Fraction(0)
        r = Fraction(0)
        for m, c in sorted(n.items()):
            p = None
            for a, e in m:
                for _ in range(e): p = N.atoms[a] if p is None else T.mul(p, N.atoms[a])
            r = T.add(r, c if p is None else T.scale(c, p))
        return r
    except TooBig:
        return None
