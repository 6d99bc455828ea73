"""Hash-consed term DAG for the symbolic executor.

Sorts: 'B' bool, 'R' real, 'I' mathematical integer, 'F' IEEE double, int n = bit-vector of n bits.
Constants are raw python values: bool, Fraction (R), int (I / BV), float (F).
"""
from fractions import Fraction
import math, struct

INF = float('inf')

class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', 'z', 'names')
    def __repr__(self):
        return show(self)

_table = {}
_next = [1]

def _bounds_default(sort):
    return (-INF, INF)

def mk(op, args, sort, lo=-INF, hi=INF):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op; t.args = args; t.sort = sort
    t.id = _next[0]; _next[0] += 1
    t.lo = lo; t.hi = hi
    t.z = None; t.names = None
    _table[key] = t
    return t

def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, Fraction):
            return str(t) if len(str(t)) < 24 else repr(float(t))
        return repr(t)
    if t.op == 'var':
        return t.args[0]
    if depth == 0:
        return '..%d' % t.id
    if t.op == 'lin':
        return '(' + ' + '.join(['%s*%s' % (show(c, 1), show(a, depth - 1)) for a, c in t.args[0]] + [show(t.args[1], 1)]) + ')'
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))

def var(name, sort, lo=-INF, hi=INF):
    return mk('var', (name,), sort, lo, hi)

# ---------------------------------------------------------------- intervals
def _dn(x):
    return x if x == 0 or x in (INF, -INF) else math.nextafter(x, -INF)
def _up(x):
    return x if x == 0 or x in (INF, -INF) else math.nextafter(x, INF)

def _f(x):
    try:
        return float(x)
    except OverflowError:
        return INF if x > 0 else -INF

def lo_of(a):
    if isinstance(a, Term):
        return a.lo
    if isinstance(a, int):
        return _dn(_f(a)) if abs(a) > 2**52 else float(a)
    f = _f(a)
    return f if f in (INF, -INF) or Fraction(f) <= a else math.nextafter(f, -INF)
def hi_of(a):
    if isinstance(a, Term):
        return a.hi
    if isinstance(a, int):
        return _up(_f(a)) if abs(a) > 2**52 else float(a)
    f = _f(a)
    return f if f in (INF, -INF) or Fraction(f) >= a else math.nextafter(f, INF)

def _exactint(x):
    return x == math.floor(x) and abs(x) < 2**50 if x not in (INF, -INF) else True

def _imul(a, b, c, d):
    ps = []
    for x in (a, b):
        for y in (c, d):
            if x == 0 or y == 0: ps.append((0.0, True)); continue
            p = x * y
            ps.append((p, x in (1.0, -1.0) or y in (1.0, -1.0) or (_exactint(x) and _exactint(y) and abs(p) < 2**50)))
    lo, el = min(ps, key=lambda t: (t[0], t[1])); hi, eh = max(ps, key=lambda t: (t[0], not t[1]))
    return lo if el else _dn(lo), hi if eh else _up(hi)

def _iadd(a, b):
    s = a + b
    return s

# ---------------------------------------------------------------- booleans
def is_true(t): return t is True
def not_(t):
    if t is True: return False
    if t is False: return True
    if t.op == 'not': return t.args[0]
    if t.op in ('lt0', 'le0') and t.args[0].sort in 'RI':
        d = t.args[0]
        nd = neg(d)
        return mk_cmp0('le0' if t.op == 'lt0' else 'lt0', nd)
    return mk('not', (t,), 'B')

def and_(*ts):
    out = []
    for t in ts:
        if t is True: continue
        if t is False: return False
        if t.op == 'and':
            out.extend(t.args)
        else:
            out.append(t)
    u = []
    ids = set()
    for t in out:
        if t.id not in ids:
            ids.add(t.id); u.append(t)
    for t in u:
        n = not_(t)
        if isinstance(n, Term) and n.id in ids:
            return False
    if not u: return True
    if len(u) == 1: return u[0]
    u.sort(key=lambda t: t.id)
    return mk('and', tuple(u), 'B')

def or_(*ts):
    r = and_(*[not_(t) for t in ts])
    return not_(r)

def xor_(a, b):
    if a is True: return not_(b)
    if a is False: return b
    if b is True: return not_(a)
    if b is False: return a
    if a is b: return False
    return mk('xor', (a, b) if a.id < b.id else (b, a), 'B')

def sort_of(v):
    if isinstance(v, Term): return v.sort
    if isinstance(v, bool): return 'B'
    if isinstance(v, Fraction): return 'R'
    if isinstance(v, float): return 'F'
    return 'I'

def isabs(c, a, b):
    """ite(b < 0, -b, b)"""
    return c.op == 'lt0' and c.args[0] is b and neg(b) is a
def _ratio(x, d):
    """constant k <> 0 with x == k d, or None"""
    if not isinstance(x, Term) or not isinstance(d, Term): return None
    if x is d: return 1
    px, pd = _parts(x, x.sort), _parts(d, d.sort)
    (dx, cx), (dd, cd) = px, pd
    dx, dd = dict(dx), dict(dd)
    if len(dx) != len(dd): return None
    k = None
    for a, u in dx.items():
        v = dd.get(a)
        if not v: return None
        r = Fraction(u) / Fraction(v)
        if k is None: k = r
        elif k != r: return None
    if k is None or k == 0 or Fraction(cx) != k * Fraction(cd): return None
    return k

def ite(c, a, b, sort=None):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if sort is None:
        sort = a.sort if isinstance(a, Term) else (b.sort if isinstance(b, Term) else sort_of(a))
    if not isinstance(a, Term) and not isinstance(b, Term) and a == b and type(a) == type(b):
        if sort != 'F' or struct.pack('d', a) == struct.pack('d', b):
            return a
    if sort == 'B':
        if a is True: return or_(c, b)
        if a is False: return and_(not_(c), b)
        if b is True: return or_(not_(c), a)
        if b is False: return and_(c, a)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if sort == 'F':
        return mk('ite', (c, fconst(a), fconst(b)), 'F')
    if sort in ('R', 'I'):
        if isinstance(a, int): a = Fraction(a) if sort == 'R' else a
        if isinstance(b, int): b = Fraction(b) if sort == 'R' else b
        lo = min(lo_of(a), lo_of(b))
        hi = max(hi_of(a), hi_of(b))
        if c.op == 'lt0' and c.args[0] is b and isabs(c, a, b): return mk('ite', (c, a, b), sort, max(lo, 0.0), hi)
        if c.op in ('lt0', 'le0') and c.args[0].sort == sort:
            k = _ratio(sub(a, b), c.args[0])
            if k is not None:
                # minimum or maximum of a and b: the branch taken when they are equal does not matter
                d = c.args[0]; n = neg(d)
                if k < 0: lo = max(lo_of(a), lo_of(b))
                else: hi = min(hi_of(a), hi_of(b))
                if isinstance(n, Term) and n.id < d.id: d, a, b = n, b, a
                c = mk_cmp0('lt0', d)
                if c is True: return a
                if c is False: return b
                if c.op == 'not': c, a, b = c.args[0], b, a
                if c.op == 'lt0' and isabs(c, a, b): lo = max(lo, 0.0)
        return mk('ite', (c, a, b), sort, lo, hi)
    return mk('ite', (c, a, b), sort)

# ---------------------------------------------------------------- reals / ints (linear normal form)
PI = var('PI', 'R', 3.141592653589793, 3.1415926535897936)

def _mklin(d, c, sort):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return c
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    lo = hi = 0.0
    el = eh = _exactint(lo_of(c)) and _exactint(hi_of(c))
    for a, k in items:
        kl = lo_of(k); kh = hi_of(k)
        l, h = _imul(a.lo, a.hi, kl, kh)
        lo += l; hi += h
        if not _exactint(l): el = False
        if not _exactint(h): eh = False
    lo += lo_of(c); hi += hi_of(c)
    if not el: lo = math.nextafter(lo, -INF) if lo == 0 and len(items) > 1 else _dn(lo)
    if not eh: hi = math.nextafter(hi, INF) if hi == 0 and len(items) > 1 else _up(hi)
    if lo != lo: lo = -INF
    if hi != hi: hi = INF
    return mk('lin', (tuple(items), c), sort, lo, hi)

def _parts(a, sort):
    if isinstance(a, Term):
        if a.op == 'lin':
            return a.args
        return (((a, 1 if sort == 'I' else Fraction(1)),), 0 if sort == 'I' else Fraction(0))
    return ((), a)

def add(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a + b
    sort = a.sort if isinstance(a, Term) else b.sort
    if not isinstance(a, Term) and a == 0: return b
    if not isinstance(b, Term) and b == 0: return a
    pa, ca = _parts(a, sort); pb, cb = _parts(b, sort)
    d = dict(pa)
    for t, k in pb:
        d[t] = d.get(t, 0) + k
    return _mklin(d, ca + cb, sort)

def scale(k, a):
    if not isinstance(a, Term): return k * a
    if k == 0: return 0 if a.sort == 'I' else Fraction(0)
    if k == 1: return a
    pa, ca = _parts(a, a.sort)
    return _mklin({t: k * c for t, c in pa}, k * ca, a.sort)

def neg(a):
    if not isinstance(a, Term): return -a
    return scale(-1 if a.sort == 'I' else Fraction(-1), a)

def sub(a, b):
    return add(a, neg(b))

def mul(a, b):
    if not isinstance(a, Term):
        return scale(a, b)
    if not isinstance(b, Term):
        return scale(b, a)
    sort = a.sort
    coef = 1 if sort == 'I' else Fraction(1)
    facs = []
    dens = []
    for x in (a, b):
        if x.op == 'lin' and len(x.args[0]) == 1 and x.args[1] == 0:
            coef = coef * x.args[0][0][1]
            x = x.args[0][0][0]
        if x.op == 'div':
            dens.append(x.args[1])
            x = x.args[0]
            if not isinstance(x, Term):
                coef *= x; continue
            if x.op == 'lin' and len(x.args[0]) == 1 and x.args[1] == 0:
                coef = coef * x.args[0][0][1]
                x = x.args[0][0][0]
        if x.op == 'mul':
            facs.extend(x.args)
        else:
            facs.append(x)
    # cancel identical numerator/denominator factors (denominators are non-zero by construction)
    if dens:
        dl = []
        for d in dens:
            if isinstance(d, Term) and d.op == 'mul': dl.extend(d.args)
            else: dl.append(d)
        for d in list(dl):
            if d in facs:
                facs.remove(d); dl.remove(d)
        den = None
        for d in dl:
            den = d if den is None else mul(den, d)
        num = coef
        for f in facs:
            num = mul(f, num) if not isinstance(num, Term) else mul(num, f)
        if den is None: return num
        return div(num, den)
    # sqrt(t)*sqrt(t) = t ; abs*abs
    i = 0
    facs.sort(key=lambda t: t.id)
    extra = None
    out = []
    while i < len(facs):
        if i + 1 < len(facs) and facs[i] is facs[i + 1] and facs[i].op == 'sqrt':
            extra = facs[i].args[0] if extra is None else mul(extra, facs[i].args[0])
            i += 2
        else:
            out.append(facs[i]); i += 1
    if extra is not None:
        r = coef
        for f in out: r = mul(f, r) if not isinstance(r, Term) else mul(r, f)
        return mul(r, extra)
    facs = out
    if len(facs) == 1:
        return scale(coef, facs[0])
    # interval with even powers
    lo, hi = 1.0, 1.0
    i = 0
    while i < len(facs):
        j = i
        while j < len(facs) and facs[j] is facs[i]: j += 1
        n = j - i
        l, h = facs[i].lo, facs[i].hi
        if n % 2 == 0:
            if l >= 0: pl, ph = l, h
            elif h <= 0: pl, ph = -h, -l
            else: pl, ph = 0.0, max(-l, h)
        else:
            pl, ph = l, h
        ql, qh = 1.0, 1.0
        for _ in range(n): ql, qh = _imul(ql, qh, pl, ph)
        lo, hi = _imul(lo, hi, ql, qh)
        i = j
    m = mk('mul', tuple(facs), sort, lo, hi)
    return scale(coef, m)

def div(a, b):
    """real division; b must be known non-zero"""
    if not isinstance(b, Term):
        return scale(1 / Fraction(b), a) if isinstance(a, Term) else Fraction(a) / b
    if a is b: return Fraction(1)
    if not isinstance(a, Term) and a == 0: return Fraction(0)
    # pull coefficients
    coef = Fraction(1)
    if isinstance(a, Term) and a.op == 'lin' and a.args[1] == 0 and len(a.args[0]) == 1:
        coef *= a.args[0][0][1]; a = a.args[0][0][0]
    elif not isinstance(a, Term):
        coef *= a; a = Fraction(1)
    if b.op == 'lin' and b.args[1] == 0 and len(b.args[0]) == 1:
        coef /= b.args[0][0][1]; b = b.args[0][0][0]
    elif b.op == 'lin':
        k = b.args[0][0][1]
        if k != 1 and k != -1 or k == -1:
            coef /= k; b = scale(1 / k, b)
            if isinstance(a, Term) and a.op == 'lin':
                pass
    if a is b: return coef
    # (x/y)/z, x/(y/z)
    if isinstance(a, Term) and a.op == 'div':
        return scale(coef, div(a.args[0], mul(a.args[1], b)))
    if b.op == 'div':
        return scale(coef, div(mul(a, b.args[1]) if isinstance(a, Term) else scale(a, b.args[1]), b.args[0]))
    nf = list(a.args) if isinstance(a, Term) and a.op == 'mul' else [a]
    df = list(b.args) if b.op == 'mul' else [b]
    changed = False
    for d in list(df):
        if d in nf:
            nf.remove(d); df.remove(d); changed = True
        elif d.op == 'sqrt' and d.args[0] in nf:
            # x/sqrt(x) = sqrt(x)
            nf[nf.index(d.args[0])] = d; df.remove(d); changed = True
    if changed:
        n = Fraction(1)
        for x in nf:
            n = mul(n, x) if isinstance(n, Term) or isinstance(x, Term) else n * x
        if not df: return scale(coef, n)
        dd = df[0]
        for x in df[1:]: dd = mul(dd, x)
        return scale(coef, div(n, dd))
    lo, hi = -INF, INF
    bl, bh = b.lo, b.hi
    if bl > 0 or bh < 0:
        il, ih = (1 / bh if bh != 0 else INF), (1 / bl if bl != 0 else INF)
        if bh == INF: il = 0.0
        if bl == -INF: ih = -0.0
        if bl > 0: il, ih = _dn(il), _up(ih)
        else: il, ih = _dn(min(il, ih)), _up(max(il, ih))
        lo, hi = _imul(lo_of(a), hi_of(a), il, ih)
    elif bl == 0:   # b >= 0 and non zero
        if lo_of(a) >= 0: lo = 0.0
        if hi_of(a) <= 0: hi = 0.0
    if b.op == 'sqrt' and isinstance(a, Term) and isinstance(b.args[0], Term) and b.args[0].op == 'lin':
        # |x| / sqrt(k x^2 + sum of squares) <= 1/sqrt(k)
        ps, c0 = b.args[0].args[0], b.args[0].args[1]
        if c0 >= 0 and all(k > 0 and t.lo >= 0 for t, k in ps):
            sq = mul(a, a); k2 = Fraction(1)
            if isinstance(sq, Term) and sq.op == 'lin' and len(sq.args[0]) == 1 and sq.args[1] == 0: sq, k2 = sq.args[0][0]
            for t, k in ps:
                if t is sq:
                    q = k2 / k
                    m = math.sqrt(q)
                    if Fraction(m) * Fraction(m) != q: m = _up(_up(m))
                    lo, hi = max(lo, -m), min(hi, m)
    return scale(coef, mk('div', (a, b), 'R', lo, hi))

def mk_cmp0(op, d):
    """d op 0, for sort R/I"""
    if not isinstance(d, Term):
        return {'lt0': d < 0, 'le0': d <= 0, 'eq0': d == 0}[op]
    lo, hi = d.lo, d.hi
    if op == 'lt0':
        if hi < 0: return True
        if lo >= 0: return False
    elif op == 'le0':
        if hi <= 0: return True
        if lo > 0: return False
    else:
        if lo > 0 or hi < 0: return False
    if d.op == 'lin' and d.sort == 'R' and op != 'lt0' and lo >= 0 and d.args[1] == 0 and all(k > 0 and t.lo >= 0 for t, k in d.args[0]):
        return and_(*[mk_cmp0('eq0', t) for t, k in d.args[0]])
    if d.op == 'mul' and op == 'eq0' and d.sort == 'R':
        fs = []
        for f in d.args:
            if f not in fs: fs.append(f)
        return or_(*[mk_cmp0('eq0', f) for f in fs])
    if d.op == 'mul' and op == 'le0' and lo >= 0: return mk_cmp0('eq0', d)
    if d.op == 'lin':
        k = d.args[0][0][1]
        if op == 'eq0':
            if k != 1: d = _norm(d, k)
        elif abs(k) != 1:
            d = _norm(d, abs(k))
    elif op == 'eq0' and d.op == 'div':
        return mk_cmp0('eq0', d.args[0])
    elif op == 'eq0' and d.op == 'sqrt':
        return mk_cmp0('eq0', d.args[0])
    elif d.op == 'div' and (lo_of(d.args[1]) >= 0):
        return mk_cmp0(op, d.args[0])
    if not isinstance(d, Term):
        return mk_cmp0(op, d)
    if d.op == 'mul' and op != 'eq0':
        # drop factors whose sign is known strictly/non-strictly
        pos = [f for f in d.args if f.lo > 0]
        if pos:
            rest = [f for f in d.args if f.lo <= 0]
            if not rest: return False
            r = rest[0]
            for x in rest[1:]: r = mul(r, x)
            return mk_cmp0(op, r)
    return mk(op, (d,), 'B')

def _norm(d, k):
    if d.sort == 'R':
        return scale(1 / Fraction(k), d)
    g = 0
    for _, c in d.args[0]: g = math.gcd(g, c)
    g = math.gcd(g, d.args[1])
    if k < 0: g = -g
    if g in (1, 0): return d
    return _mklin({a: c // g for a, c in d.args[0]}, d.args[1] // g, 'I')

def lt(a, b): return mk_cmp0('lt0', sub(a, b))
def le(a, b): return mk_cmp0('le0', sub(a, b))
def eq(a, b):
    if a is b: return True
    d = sub(a, b)
    return mk_cmp0('eq0', d)
def ne(a, b): return not_(eq(a, b))

def to_real(i):
    if not isinstance(i, Term): return Fraction(i)
    if i.op == 'lin':
        r = Fraction(i.args[1])
        for a, c in i.args[0]:
            r = add(r, scale(Fraction(c), to_real(a)))
        return r
    if i.op == 'mul':
        r = to_real(i.args[0])
        for x in i.args[1:]: r = mul(r, to_real(x))
        return r
    if i.op == 'ite':
        return ite(i.args[0], to_real(i.args[1]), to_real(i.args[2]), 'R')
    return mk('toreal', (i,), 'R', i.lo, i.hi)

def floor_(r):
    """real -> int (mathematical)"""
    if not isinstance(r, Term): return math.floor(r)
    if r.op == 'toreal': return r.args[0]
    # split integer-valued parts out of linear combination
    if r.op == 'lin':
        ip = 0; rest = {}; c = r.args[1]
        for a, k in r.args[0]:
            if a.op == 'toreal' and k.denominator == 1:
                ip = add(scale(int(k), a.args[0]), ip)
            else:
                rest[a] = k
        ci = math.floor(c)
        if ci != 0: ip = add(ip, ci)
        if not rest:
            return add(ip, 0) if c - ci == 0 else ip
        if isinstance(ip, Term) or ip != 0:
            return add(floor_(_mklin(rest, c - ci, 'R')), ip)
    lo = r.lo if r.lo == -INF else float(math.floor(r.lo))
    hi = r.hi if r.hi == INF else float(math.floor(r.hi))
    if lo == hi: return int(lo)
    return mk('floor', (r,), 'I', lo, hi)

def trunc_(r):
    if not isinstance(r, Term): return math.trunc(r)
    if r.lo >= 0: return floor_(r)
    if r.hi <= 0: return neg(floor_(neg(r)))
    return ite(lt(r, Fraction(0)), neg(floor_(neg(r))), floor_(r), 'I')

def abs_(a):
    if not isinstance(a, Term): return abs(a)
    if a.lo >= 0: return a
    if a.hi <= 0: return neg(a)
    return ite(lt(a, 0 if a.sort == 'I' else Fraction(0)), neg(a), a, a.sort)

def imod(a, m):
    """mathematical a mod m, m positive int"""
    if not isinstance(a, Term): return a % m
    if a.lo >= 0 and a.hi < m: return a
    return mk('mod', (a, m), 'I', 0.0, float(m - 1))
def idiv(a, m):
    """floor division by positive constant"""
    if not isinstance(a, Term): return a // m
    if m == 1: return a
    lo = a.lo if a.lo == -INF else float(math.floor(a.lo / m))
    hi = a.hi if a.hi == INF else float(math.floor(a.hi / m))
    if lo == hi: return int(lo)
    return mk('idiv', (a, m), 'I', lo, hi)

# ---------------------------------------------------------------- elementary functions (reals)
def is_square(x):
    n, d = x.numerator, x.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d: return Fraction(rn, rd)
    return None

def sqrt(x):
    if not isinstance(x, Term):
        r = is_square(Fraction(x))
        if r is not None: return r
        # constant radicand: pull out nothing, keep symbolic
        f = math.sqrt(x)
        return mk('sqrt', (Fraction(x),), 'R', _dn(f), _up(f))
    if x.op == 'mul':
        ins, outs = [], []
        fs = list(x.args)
        while fs:
            f = fs.pop(0)
            if fs and fs[0] is f:
                fs.pop(0); outs.append(abs_(f))
            else: ins.append(f)
        if outs:
            r = outs[0]
            for o in outs[1:]: r = mul(r, o)
            if ins:
                m = ins[0]
                for o in ins[1:]: m = mul(m, o)
                r = mul(r, sqrt(m))
            return r
    if x.op == 'lin' and len(x.args[0]) == 1 and x.args[1] == 0:
        a, k = x.args[0][0]
        if k > 0:
            q = is_square(k)
            if q is not None and q != 1:
                return scale(q, sqrt(a))
            # sqrt(k*y*y) = |y| sqrt(k)
            if a.op == 'mul':
                sa = sqrt(a)
                if sa.op != 'sqrt' and k > 0 and q is None:
                    return mul(sa, sqrt(k))
    if x.op == 'lin':
        # pythagorean patterns are normalised by the solver front end
        pass
    lo = math.sqrt(x.lo) if x.lo > 0 else 0.0
    hi = math.sqrt(x.hi) if 0 <= x.hi < INF else INF
    return mk('sqrt', (x,), 'R', _dn(lo) if lo > 0 else 0.0, _up(hi))

def _pi_mult(k):
    """k*PI -> (sin, cos) if k multiple of 1/2"""
    k2 = k * 2
    if k2.denominator == 1:
        n = int(k2) % 4
        return [(0, 1), (1, 0), (0, -1), (-1, 0)][n]
    return None

def _atom_sc(a):
    """(sin, cos) of an atomic angle term"""
    if a.op == 'acos':
        x = a.args[0]
        return sqrt(sub(Fraction(1), mul(x, x))), x
    if a.op == 'asin':
        x = a.args[0]
        return x, sqrt(sub(Fraction(1), mul(x, x)))
    if a.op == 'atan2':
        y, x = a.args
        r = sqrt(add(mul(x, x), mul(y, y)))
        return div(y, r), div(x, r)
    if a.op == 'atan':
        x = a.args[0]
        r = sqrt(add(Fraction(1), mul(x, x)))
        return div(x, r), div(Fraction(1), r)
    (sl, sh), (cl, ch) = sinrange(a.lo, a.hi), sinrange(a.lo, a.hi, True)
    return mk('sin', (a,), 'R', sl, sh), mk('cos', (a,), 'R', cl, ch)

def sincos(t):
    if not isinstance(t, Term):
        if t == 0: return Fraction(0), Fraction(1)
        s, c = math.sin(t), math.cos(t)
        return (mk('sin', (Fraction(t),), 'R', _dn(_dn(s)), _up(_up(s))), mk('cos', (Fraction(t),), 'R', _dn(_dn(c)), _up(_up(c))))
    if t.op == 'ite':
        s1, c1 = sincos(t.args[1]); s2, c2 = sincos(t.args[2])
        return ite(t.args[0], s1, s2, 'R'), ite(t.args[0], c1, c2, 'R')
    parts, c0 = _parts(t, 'R')
    S, C = Fraction(0), Fraction(1)
    def comb(s, c):
        nonlocal S, C
        S, C = add(mul2(S, c), mul2(C, s)), sub(mul2(C, c), mul2(S, s))
    if c0 != 0:
        comb(*sincos(c0))
    for a, k in parts:
        if a is PI:
            r = _pi_mult(k)
            if r:
                comb(Fraction(r[0]), Fraction(r[1])); continue
            v = float(k) * math.pi
            s, c = math.sin(v), math.cos(v)
            base = scale(k, PI)
            comb(mk('sin', (base,), 'R', s - 1e-15, s + 1e-15), mk('cos', (base,), 'R', c - 1e-15, c + 1e-15))
            continue
        p, q = k.numerator, k.denominator
        lim = 16 if a.op in ('acos', 'asin', 'atan2') else 6
        if abs(p) > lim:
            base = scale(abs(k), a); n = 1 if k > 0 else -1
        else:
            base = scale(Fraction(1, q), a) if q != 1 else a; n = p
        if q != 1 or abs(p) > lim:
            s1, c1 = _atom_sc(base) if base.op != 'lin' else (mk('sin', (base,), 'R', *_sb(base)[0]), mk('cos', (base,), 'R', *_sb(base)[1]))
        elif base.op == 'ite':
            s1, c1 = sincos(base)
        else:
            s1, c1 = _atom_sc(base)
        for _ in range(abs(n)):
            comb(s1 if n > 0 else neg(s1), c1)
    return S, C

def sinrange(lo, hi, cosine=False):
    """interval of sin (cos) over [lo, hi]; a bound next to a multiple of pi/2 is meant to be that multiple"""
    if lo == -INF or hi == INF or hi - lo >= 6.2831: return (-1.0, 1.0)
    H = math.pi / 2
    off = 1 if cosine else 0           # cos x = sin(x + pi/2)
    def snap(x):
        k = round(x / H)
        return k if abs(x - k * H) <= 1e-15 * max(1.0, abs(k)) * 2 else None
    def val(x):
        k = snap(x)
        if k is not None: return float((0, 1, 0, -1)[(k + off) % 4])
        return math.cos(x) if cosine else math.sin(x)
    a, b = val(lo), val(hi)
    ka = snap(lo); kb = snap(hi)
    k0 = ka if ka is not None else math.ceil(lo / H)
    k1 = kb if kb is not None else math.floor(hi / H)
    ex = [(0, 1, 0, -1)[(k + off) % 4] for k in range(k0, k1 + 1)]
    l = min([a, b] + ex); h = max([a, b] + ex)
    l = l if l in (0.0, 1.0, -1.0) else max(-1.0, l - 1e-15); h = h if h in (0.0, 1.0, -1.0) else min(1.0, h + 1e-15)
    return float(l), float(h)

def _sb(base):
    return sinrange(base.lo, base.hi), sinrange(base.lo, base.hi, True)

def mul2(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term): return a * b
    return mul(a, b)

def sin(t): return sincos(t)[0]
def cos(t): return sincos(t)[1]

def acos(x):
    if not isinstance(x, Term):
        if x == 1: return Fraction(0)
        if x == 0: return scale(Fraction(1, 2), PI)
        if x == -1: return PI
        v = math.acos(x)
        return mk('acos', (Fraction(x),), 'R', _dn(v), _up(v))
    if x.op == 'cos' and isinstance(x.args[0], Term):
        a = x.args[0]
        if a.lo >= 0 and a.hi <= 3.1415926535897936: return a
    return mk('acos', (x,), 'R', 0.0, 3.1415926535897936)

def asin(x):
    if not isinstance(x, Term):
        if x == 0: return Fraction(0)
        v = math.asin(x)
        return mk('asin', (Fraction(x),), 'R', _dn(v), _up(v))
    return mk('asin', (x,), 'R', -1.5707963267948968, 1.5707963267948968)

def atan2(y, x):
    if not isinstance(x, Term) and not isinstance(y, Term):
        if y == 0: return Fraction(0) if x >= 0 else PI
        if x == 0: return scale(Fraction(1 if y > 0 else -1, 2), PI)
        x = Fraction(x); y = Fraction(y)
    if not isinstance(y, Term) and y == 0 and isinstance(x, Term):
        if x.lo >= 0: return Fraction(0)
    lo, hi = -3.1415926535897936, 3.1415926535897936
    if lo_of(y) >= 0: lo = 0.0
    if lo_of(x) >= 0: lo, hi = max(lo, -1.5707963267948968), 1.5707963267948968
    if isinstance(y, int): y = Fraction(y)
    if isinstance(x, int): x = Fraction(x)
    return mk('atan2', (y, x), 'R', lo, hi)

def atan(x):
    if not isinstance(x, Term):
        if x == 0: return Fraction(0)
        x = Fraction(x)
    return mk('atan', (x,), 'R', -1.5707963267948968, 1.5707963267948968)

def exp(x):
    if not isinstance(x, Term):
        if x == 0: return Fraction(1)
        try: v = math.exp(x)
        except OverflowError: v = INF
        return mk('exp', (Fraction(x),), 'R', _dn(_dn(v)), _up(_up(v)))
    if x.op == 'log': return x.args[0]
    lo = math.exp(x.lo) if x.lo < 700 else 1e300
    hi = math.exp(x.hi) if x.hi < 700 else INF
    return mk('exp', (x,), 'R', _dn(_dn(lo)) if lo > 0 else 0.0, _up(_up(hi)))

def log(x):
    if not isinstance(x, Term):
        if x == 1: return Fraction(0)
        v = math.log(x)
        return mk('log', (Fraction(x),), 'R', _dn(_dn(v)), _up(_up(v)))
    if x.op == 'exp': return x.args[0]
    return mk('log', (x,), 'R', math.log(x.lo) - 1e-12 if x.lo > 0 else -INF, math.log(x.hi) + 1e-12 if 0 < x.hi < INF else INF)

def ipow(x, n):
    if n == 0: return Fraction(1)
    if n < 0: return div(Fraction(1), ipow(x, -n)) if isinstance(x, Term) else 1 / (Fraction(x) ** -n)
    if not isinstance(x, Term): return Fraction(x) ** n
    r = x
    for _ in range(n - 1): r = mul(r, x)
    return r

def pow_(x, y):
    """x > 0 or y a non-negative integer constant (caller guards the domain)"""
    if not isinstance(y, Term):
        y = Fraction(y)
        if y.denominator == 1 and abs(y) <= 16:
            return ipow(x, int(y))
        if y.denominator == 2 and abs(y) <= 8:
            return mul2(sqrt(x), ipow(x, int((y - Fraction(1, 2)))))
        if 2 < y.denominator <= 12 and abs(y) <= 8 and isinstance(x, Term):
            k = y.numerator // y.denominator; r = y.numerator - k * y.denominator
            root = mk('pow', (x, Fraction(1, y.denominator)), 'R', 0.0, 1.0 if hi_of(x) <= 1 else INF)
            return mul2(ipow(root, r), ipow(x, k))
    if not isinstance(x, Term) and x == 1: return Fraction(1)
    # x^(e + k) = x^e * x^k for integer constant k
    if isinstance(y, Term) and y.op == 'lin' and y.args[1] != 0 and y.args[1].denominator == 1 and abs(y.args[1]) <= 8:
        k = int(y.args[1])
        e = add(y, Fraction(-k))
        return mul2(pow_(x, e), ipow(x, k))
    lo = 0.0
    hi = INF
    if isinstance(x, (Fraction, int)): x = Fraction(x)
    if hi_of(x) <= 1 and lo_of(y) >= 0: hi = 1.0
    return mk('pow', (x, y), 'R', lo, hi)

def uf(name, args, lo=-INF, hi=INF, sort='R'):
    return mk('uf', (name,) + tuple(args), sort, lo, hi)

# ---------------------------------------------------------------- IEEE doubles
def fbits(v): return struct.unpack('<Q', struct.pack('<d', v))[0]
def fconst(v):
    if isinstance(v, Term): return v
    return mk('fconst', (fbits(float(v)),), 'F')
def fval(t):
    """Term fconst -> float, else the term"""
    if isinstance(t, Term) and t.op == 'fconst':
        return struct.unpack('<d', struct.pack('<Q', t.args[0]))[0]
    return t
def fop(op, *args):
    return mk(op, tuple(fconst(a) for a in args), 'F')
def fcmp(op, a, b):
    return mk(op, (fconst(a), fconst(b)), 'B')

# ---------------------------------------------------------------- bit-vectors
def bvop(op, n, *args):
    return mk(op, tuple(args), n)
def bvcmp(op, a, b):
    return mk(op, (a, b), 'B')

# ---------------------------------------------------------------- traversal
def collect(roots):
    """all terms reachable (post-order, unique)"""
    seen = set(); out = []
    st = [(r, False) for r in roots if isinstance(r, Term)]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        if t.op == 'lin':
            for a, _ in t.args[0]:
                if a.id not in seen: st.append((a, False))
        else:
            for a in t.args:
                if isinstance(a, Term) and a.id not in seen: st.append((a, False))
    return out

def vars_of(t):
    """frozenset of variable ids (memoised)"""
    if not isinstance(t, Term): return frozenset()
    if t.names is not None: return t.names
    for u in collect([t]):
        if u.names is not None: continue
        if u.op == 'var':
            u.names = frozenset() if u is PI else frozenset([u.id])
        elif u.op == 'lin':
            s = frozenset()
            for a, _ in u.args[0]: s = s | a.names
            u.names = s
        else:
            s = frozenset()
            for a in u.args:
                if isinstance(a, Term): s = s | a.names
            u.names = s
    return t.names

def idiv_exact(a, m):
    """a // m where a is known to be a multiple of m when linear coefficients say so"""
    if not isinstance(a, Term): return a // m
    if a.op == 'lin' and all(k % m == 0 for _, k in a.args[0]) and a.args[1] % m == 0:
        return _mklin({t: k // m for t, k in a.args[0]}, a.args[1] // m, 'I')
    return idiv(a, m)
