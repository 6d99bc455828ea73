"""Models of intrinsics, libc, libm, the C++ runtime and the harness API."""
import math, re, struct
from fractions import Fraction
import terms as T
from terms import Term
from mem import *
import solve, canon
from execir import CONTROL, PathEnd, EngineError, sx, NANF, recog_const
import irparse as P

STD_BASES = {
 '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error',
 '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
 '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt8bad_cast': '_ZTISt9exception',
 '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
 '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error',
}

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

def install(E):
    E.models = dict(M)

def find(E, name):
    if name in M: return M[name]
    for pre, f in PREFIX:
        if name.startswith(pre): return f
    return None

PREFIX = []
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

def noop(E, st, a, ctx): return None
for n in ('llvm.lifetime.', 'llvm.dbg.', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.donothing', 'llvm.sideeffect', 'llvm.var.annotation'):
    PREFIX.append((n, noop))

# ------------------------------------------------------------ memory
@model('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def m_malloc(E, st, a, ctx):
    n = E.concretize(st, a[0]) if isinstance(a[0], Term) else a[0]
    if isinstance(n, Undef): E.memerr(st, 'allocation of uninitialised size')
    if n >= 2**40:
        if ctx[2].startswith('_Zn'):
            return throw_std(E, st, ctx, '_ZTISt9bad_alloc')
        return 0
    return E.alloc(st, n, 'heap', 'heap')
@model('calloc')
def m_calloc(E, st, a, ctx):
    p = E.alloc(st, a[0] * a[1], 'heap', 'heap')
    st.mem[p.obj].zero = True
    return p
@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def m_newal(E, st, a, ctx): return E.alloc(st, a[0], 'heap', 'heap')
@model('aligned_alloc')
def m_alal(E, st, a, ctx): return E.alloc(st, a[1], 'heap', 'heap')
@model('posix_memalign')
def m_pmal(E, st, a, ctx):
    p = E.alloc(st, a[2], 'heap', 'heap'); E.store(st, a[0], p, 8); return 0
@model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def m_free(E, st, a, ctx):
    p = a[0]
    if p == 0: return None
    if not isinstance(p, Ptr): E.memerr(st, 'free of invalid pointer %r' % (p,))
    o = E.getobj(st, p.obj)
    if o.kind != 'heap' or p.off != 0: E.memerr(st, 'free of a non-heap pointer')
    if not o.alive: E.memerr(st, 'double free')
    n = Obj(o.size, 'heap', o.name); n.alive = False; n.owner = st.token
    st.mem[p.obj] = n
    return None
@model('realloc')
def m_realloc(E, st, a, ctx):
    n = a[1]
    q = E.alloc(st, n, 'heap', 'heap')
    if a[0] != 0:
        o = E.getobj(st, a[0].obj)
        E.memcpy(st, q, a[0], min(n, o.size))
        m_free(E, st, [a[0]], ctx)
    return q

def conc(E, st, v):
    return E.concretize(st, v) if isinstance(v, Term) else v

def m_memcpy(E, st, a, ctx):
    n = conc(E, st, a[2])
    E.memcpy(st, a[0], a[1], n)
    return a[0]
for n in ('llvm.memcpy.', 'llvm.memmove.'): PREFIX.append((n, m_memcpy))
M['memcpy'] = M['memmove'] = m_memcpy
def m_memset(E, st, a, ctx):
    n = conc(E, st, a[2])
    E.memset(st, a[0], a[1] & 255 if type(a[1]) is int else a[1], n)
    return a[0]
PREFIX.append(('llvm.memset.', m_memset))
M['memset'] = m_memset

def bytecmp(E, st, x, y):
    """-1/0/1 by forking"""
    if type(x) is int and type(y) is int: return (x > y) - (x < y)
    if E.decide(st, E_eq(E, x, y, 8)): return 0
    return -1 if E.decide(st, E.icmp(st, 'ult', x, y, 8, False)) else 1
def E_eq(E, x, y, n):
    r = E.icmp(st=None, pred='eq', a=x, b=y, n=n, isptr=False)
    return r
@model('memcmp', 'bcmp')
def m_memcmp(E, st, a, ctx):
    n = conc(E, st, a[2])
    for i in range(n):
        x = E.load(st, Ptr(a[0].obj, a[0].off + i), P.I[8]); y = E.load(st, Ptr(a[1].obj, a[1].off + i), P.I[8])
        if isinstance(x, Undef) or isinstance(y, Undef): E.memerr(st, 'comparison of uninitialised bytes')
        c = bytecmp(E, st, x, y)
        if c: return c & 0xffffffff
    return 0
@model('strlen')
def m_strlen(E, st, a, ctx): return len(E.cstring(st, a[0]))
@model('strcmp')
def m_strcmp(E, st, a, ctx):
    x = E.cstring(st, a[0]) + [0]; y = E.cstring(st, a[1]) + [0]
    for p, q in zip(x, y):
        c = bytecmp(E, st, p, q)
        if c: return c & 0xffffffff
    return 0
@model('strncpy', '__strncpy_chk')
def m_strncpy(E, st, a, ctx):
    n = conc(E, st, a[2]); end = False
    for i in range(n):
        v = 0 if end else E.load(st, Ptr(a[1].obj, a[1].off + i), P.I[8])
        E.store(st, Ptr(a[0].obj, a[0].off + i), v, 1)
        if not end and (v == 0 if isinstance(v, int) else E.decide(st, E_eq(E, v, 0, 8))): end = True
    return a[0]
@model('strncmp')
def m_strncmp(E, st, a, ctx):
    for i in range(conc(E, st, a[2])):
        x = E.load(st, Ptr(a[0].obj, a[0].off + i), P.I[8]); y = E.load(st, Ptr(a[1].obj, a[1].off + i), P.I[8])
        c = bytecmp(E, st, x, y)
        if c: return c & 0xffffffff
        if E.decide(st, E_eq(E, x, 0, 8)): return 0
    return 0
@model('memchr', 'strchr')
def m_memchr(E, st, a, ctx):
    ch = a[1]
    if isinstance(ch, Term): ch = E.trunc(st, ch, 32, 8)
    else: ch &= 255
    isstr = ctx[2] == 'strchr'
    n = conc(E, st, a[2]) if not isstr else 10**9
    for i in range(n):
        x = E.load(st, Ptr(a[0].obj, a[0].off + i), P.I[8])
        if E.decide(st, E_eq(E, x, ch, 8)): return Ptr(a[0].obj, a[0].off + i)
        if isstr and E.decide(st, E_eq(E, x, 0, 8)): return 0
    return 0
@model('strcpy')
def m_strcpy(E, st, a, ctx):
    n = len(E.cstring(st, a[1]))
    E.memcpy(st, a[0], a[1], n + 1); return a[0]

# ------------------------------------------------------------ integer intrinsics
def bits(ctx): return ctx[0][0].n
def imm(f):
    PREFIX.append(f); return f
def minmax(pred):
    def f(E, st, a, ctx):
        n = bits(ctx)
        c = E.icmp(st, pred, a[0], a[1], n, False)
        if type(c) is int: return a[0] if c else a[1]
        if isinstance(c, Undef): return UNDEF
        return E.sel(st, c, a[0], a[1], ctx[0][0])
    return f
PREFIX += [('llvm.smax.', minmax('sgt')), ('llvm.smin.', minmax('slt')), ('llvm.umax.', minmax('ugt')), ('llvm.umin.', minmax('ult'))]
@prefix('llvm.abs.')
def m_iabs(E, st, a, ctx):
    n = bits(ctx)
    if type(a[0]) is int: return abs(sx(a[0], n)) & ((1 << n) - 1)
    if E.isbv(a[0], 0):
        return T.ite(T.bvcmp('bvslt', a[0], 0), T.bvop('bvsub', n, 0, a[0]), a[0], n)
    return T.abs_(E.toI(a[0], n))
def ovf(op, signed):
    def f(E, st, a, ctx):
        n = bits(ctx); x, y = a
        if type(x) is int and type(y) is int:
            if signed: x, y = sx(x, n), sx(y, n)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            return [r & ((1 << n) - 1), int(not lo <= r <= hi)]
        x = E.concretize(st, x) if isinstance(x, Term) else x
        y = E.concretize(st, y) if isinstance(y, Term) else y
        return f(E, st, [x & ((1 << n) - 1), y & ((1 << n) - 1)], ctx)
    return f
for o in ('add', 'sub', 'mul'):
    PREFIX.append(('llvm.s%s.with.overflow' % o, ovf(o, True))); PREFIX.append(('llvm.u%s.with.overflow' % o, ovf(o, False)))
@prefix('llvm.usub.sat')
def m_usubsat(E, st, a, ctx):
    if type(a[0]) is int and type(a[1]) is int: return max(0, a[0] - a[1])
    c = E.icmp(st, 'ult', a[0], a[1], bits(ctx), False)
    return 0 if E.decide(st, c) else E.binop(st, 'sub', a[0], a[1], bits(ctx))
@prefix('llvm.uadd.sat')
def m_uaddsat(E, st, a, ctx): return min((1 << bits(ctx)) - 1, a[0] + a[1])
@prefix('llvm.ctlz.')
def m_ctlz(E, st, a, ctx):
    v = conc(E, st, a[0]); return bits(ctx) - v.bit_length()
@prefix('llvm.cttz.')
def m_cttz(E, st, a, ctx):
    v = conc(E, st, a[0]); return bits(ctx) if v == 0 else (v & -v).bit_length() - 1
@prefix('llvm.ctpop.')
def m_ctpop(E, st, a, ctx): return bin(conc(E, st, a[0])).count('1')
@prefix('llvm.fshl.')
def m_fshl(E, st, a, ctx):
    n = bits(ctx); x, y, s = a
    if all(type(v) is int for v in a):
        s %= n; return ((x << s) | (y >> (n - s))) & ((1 << n) - 1) if s else x
    if x is y:
        s = conc(E, st, s) % n
        return E.binop(st, 'or', E.binop(st, 'shl', x, s, n), E.binop(st, 'lshr', x, n - s, n), n)
    raise Unsupported('fshl')
@prefix('llvm.bswap.')
def m_bswap(E, st, a, ctx): return int.from_bytes(a[0].to_bytes(bits(ctx) // 8, 'little'), 'big')
@prefix('llvm.expect.')
def m_expect(E, st, a, ctx): return a[0]
@prefix('llvm.is.constant.')
def m_isc(E, st, a, ctx): return 0
@prefix('llvm.objectsize.')
def m_os(E, st, a, ctx): return 2**64 - 1
@prefix('llvm.eh.typeid.for')
def m_etf(E, st, a, ctx): return E.typeid(a[0])
@model('llvm.stacksave', 'llvm.stacksave.p0')
def m_ss(E, st, a, ctx): return 0
@model('llvm.stackrestore', 'llvm.stackrestore.p0')
def m_sr(E, st, a, ctx): return None
@model('llvm.trap')
def m_trap(E, st, a, ctx): raise PathEnd('abort', 'trap')
@model('llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0')
def m_va(E, st, a, ctx): return None
@model('llvm.threadlocal.address.p0')
def m_tls(E, st, a, ctx): return a[0]

# ------------------------------------------------------------ floating point
def fin(E, st, x):
    """normalise a double operand"""
    if type(x) is int: return recog_const(bits2d(x)) if E.real else bits2d(x)
    return x

def unary(real, conc_f, sym_ieee=None):
    def f(E, st, a, ctx):
        x = fin(E, st, a[0])
        if isinstance(x, Undef): return UNDEF
        if isinstance(x, float):
            try: return fl(E, conc_f(x))
            except ValueError: return NANF
            except OverflowError: return T.INF
        if E.real: return real(E, st, x)
        if sym_ieee: return sym_ieee(E, st, x)
        return T.uf(ctx[2].split('.')[-2] if ctx[2].startswith('llvm.') else ctx[2], (x,), sort='F')
    return f
def fl(E, v):
    if E.real and v == v and v not in (T.INF, -T.INF): return recog_const(v)
    return v

def r_sqrt(E, st, x):
    if not isinstance(x, Term):
        if x < 0: return NANF
        return T.sqrt(x)
    k = canon.sqrt_arg(x)
    if k is not None:
        r = T.sqrt(k[0]); t = k[1]
        if not isinstance(t, Term): return r
        if t.lo < 0: t = t if E.decide(st, T.le(Fraction(0), t)) else T.neg(t)
        return T.mul2(r, t)
    if x.lo < 0 and E.decide(st, T.lt(x, Fraction(0))): return NANF
    return T.sqrt(x)
def c_sqrt(x):
    return math.sqrt(x)
def ieee(op):
    return lambda E, st, x: T.fop(op, x)
m_sqrt = unary(r_sqrt, c_sqrt, ieee('fsqrt'))
def r_fabs(E, st, x):
    c = canon.match(x)
    return T.abs_(x if c is None else c) if isinstance(x, Term) and (c is None or isinstance(c, Term)) else abs(x if c is None else c)
m_fabs = unary(r_fabs, abs, ieee('fabs'))
def ri(f):
    return lambda E, st, x: T.to_real(f(x)) if isinstance(x, Term) else Fraction(f(x))
def rceil(x): return T.neg(T.floor_(T.neg(x))) if isinstance(x, Term) else math.ceil(x)
def rround(x):
    if not isinstance(x, Term): return math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))
    h = Fraction(1, 2)
    if x.lo >= 0: return T.floor_(T.add(x, h))
    return T.ite(T.lt(x, Fraction(0)), T.neg(T.floor_(T.add(T.neg(x), h))), T.floor_(T.add(x, h)), 'I')
m_floor = unary(ri(T.floor_), lambda x: float(math.floor(x)) if x == x and abs(x) != T.INF else x, ieee('ffloor'))
m_ceil = unary(ri(rceil), lambda x: float(math.ceil(x)) if x == x and abs(x) != T.INF else x, ieee('fceil'))
m_trunc = unary(ri(T.trunc_), lambda x: float(math.trunc(x)) if x == x and abs(x) != T.INF else x, ieee('ftrunc'))
m_round = unary(ri(rround), lambda x: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1) if x == x and abs(x) != T.INF else x, ieee('fround'))

def dom11(E, st, x):
    if not isinstance(x, Term): return -1 <= x <= 1
    if x.lo >= -1 and x.hi <= 1: return True
    return E.decide(st, T.and_(T.le(Fraction(-1), x), T.le(x, Fraction(1))))
def r_acos(E, st, x):
    c = canon.match(x)
    if c is not None: x = c
    if isinstance(x, Term) and x.op == 'cos' and isinstance(x.args[0], Term):
        return wrap_acos(E, st, x.args[0])
    if isinstance(x, Term):
        n = T.neg(x)
        if isinstance(n, Term) and n.op == 'cos' and isinstance(n.args[0], Term):
            return T.sub(T.PI, wrap_acos(E, st, n.args[0]))
    return T.acos(x) if dom11(E, st, x) else NANF
def wrap_acos(E, st, a):
    """acos(cos a)"""
    if a.lo >= 0 and a.hi <= 3.1415926535897936: return a
    if a.lo >= -3.1415926535897936 and a.hi <= 3.1415926535897936:
        return a if E.decide(st, T.le(Fraction(0), a)) else T.neg(a)
    if a.lo >= 0 and a.hi <= 6.283185307179588:
        return a if E.decide(st, T.le(a, T.PI)) else T.sub(T.scale(Fraction(2), T.PI), a)
    return T.acos(T.cos(a))
def r_asin(E, st, x): return T.asin(x) if dom11(E, st, x) else NANF
def r_log(E, st, x):
    if not isinstance(x, Term):
        if x < 0: return NANF
        if x == 0: return -T.INF
        return T.log(x)
    if x.lo <= 0:
        if E.decide(st, T.le(x, Fraction(0))):
            return -T.INF if E.decide(st, T.eq(x, Fraction(0))) else NANF
    return T.log(x)
def r_tan(E, st, x):
    s, c = T.sincos(x)
    return E.rdiv(st, s, c)
m_sin = unary(lambda E, st, x: T.sin(x), math.sin)
m_cos = unary(lambda E, st, x: T.cos(x), math.cos)
def s_exp(x): return math.exp(x)
m_exp = unary(lambda E, st, x: T.exp(x), lambda x: math.exp(x) if x != -T.INF else 0.0)
m_log = unary(r_log, lambda x: math.log(x) if x > 0 else (-T.INF if x == 0 else NANF))
def erf_like(name, lo, hi):
    f = getattr(math, name)
    return unary(lambda E, st, x: T.uf(name, (x if isinstance(x, Term) else Fraction(x),), lo, hi), f)
TABLE = {
 'sqrt': m_sqrt, 'fabs': m_fabs, 'floor': m_floor, 'ceil': m_ceil, 'trunc': m_trunc, 'round': m_round, 'rint': m_round, 'nearbyint': m_round,
 'acos': unary(r_acos, lambda x: math.acos(x)), 'asin': unary(r_asin, lambda x: math.asin(x)), 'atan': unary(lambda E, st, x: T.atan(x), math.atan),
 'sin': m_sin, 'cos': m_cos, 'tan': unary(r_tan, math.tan), 'exp': m_exp, 'log': m_log,
 'log10': unary(lambda E, st, x: (lambda v: T.div(v, T.log(Fraction(10))) if not isinstance(v, float) else v)(r_log(E, st, x)), lambda x: math.log10(x) if x > 0 else (-T.INF if x == 0 else NANF)),
 'erf': erf_like('erf', -1.0, 1.0), 'erfc': erf_like('erfc', 0.0, 2.0),
 'tgamma': unary(lambda E, st, x: T.uf('tgamma', (x if isinstance(x, Term) else Fraction(x),)), math.gamma),
 'cbrt': unary(lambda E, st, x: T.uf('cbrt', (x,)), lambda x: math.copysign(abs(x) ** (1 / 3), x)),
}
for k, f in TABLE.items():
    M[k] = f; M[k + 'f'] = f
    PREFIX.append(('llvm.%s.' % k, f))

@model('atan2', 'atan2f')
def m_atan2(E, st, a, ctx):
    y, x = fin(E, st, a[0]), fin(E, st, a[1])
    if isinstance(y, Undef) or isinstance(x, Undef): return UNDEF
    if isinstance(x, float) and isinstance(y, float): return fl(E, math.atan2(y, x))
    if not E.real: return T.uf('atan2', (T.fconst(y), T.fconst(x)), sort='F')
    if isinstance(x, float) or isinstance(y, float):
        if (isinstance(x, float) and x != x) or (isinstance(y, float) and y != y): return NANF
        if isinstance(y, float): return T.scale(Fraction(1 if y > 0 else -1, 2), T.PI)
        if x > 0: return Fraction(0)
        return T.neg(T.PI) if E.decide(st, T.lt(y, Fraction(0))) else T.PI
    if isinstance(x, Term) or isinstance(y, Term):
        y = canon.match(y) if canon.match(y) is not None else y
        x = canon.match(x) if canon.match(x) is not None else x
        if not isinstance(x, Term) and not isinstance(y, Term): return T.atan2(y, x)
        for ang in canon.angle_of(y, x):
            sa, ca = T.sincos(ang)
            w = T.add(T.mul2(y, sa), T.mul2(x, ca))
            wm = canon.match(w)
            if wm is not None: w = wm
            if E.decide(st, T.lt(Fraction(0), w)): return principal(E, st, ang)
            if E.decide(st, T.lt(w, Fraction(0))): return principal(E, st, T.add(ang, T.PI))
            return Fraction(0)
        if E.decide(st, T.and_(T.eq(x, Fraction(0)), T.eq(y, Fraction(0)))): return Fraction(0)
    return T.atan2(y, x)
def principal(E, st, a):
    """a reduced to (-pi, pi]"""
    P = 3.141592653589793
    for _ in range(3):
        if isinstance(a, Term) and a.hi <= P + 1e-15 and a.lo > -P + 1e-12: return a
        if E.decide(st, T.lt(T.PI, a)): a = T.sub(a, T.scale(Fraction(2), T.PI)); continue
        if E.decide(st, T.le(a, T.neg(T.PI))): a = T.add(a, T.scale(Fraction(2), T.PI)); continue
        return a
    return a

@model('pow', 'powf')
@prefix('llvm.pow.')
def m_pow(E, st, a, ctx):
    x, y = fin(E, st, a[0]), fin(E, st, a[1])
    if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
    if isinstance(x, float) and isinstance(y, float):
        try: return fl(E, math.pow(x, y))
        except ValueError: return NANF
        except OverflowError: return T.INF
    if not E.real: return T.uf('pow', (T.fconst(x), T.fconst(y)), sort='F')
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, float) and x != x or isinstance(y, float) and y != y: return NANF
        raise Unsupported('pow of infinities')
    if not isinstance(y, Term):
        y = Fraction(y)
        if y.denominator == 1:
            if y >= 0:
                return T.pow_(x, y) if y <= 16 else pw(E, st, x, y)
            if isinstance(x, Term):
                if E.decide(st, T.eq(x, Fraction(0))): return T.INF
                return T.pow_(x, y) if y >= -16 else pw(E, st, x, y)
            return T.INF if x == 0 else Fraction(x) ** int(y)
        z = y.limit_denominator(12)
        if z != y and abs(float(z - y)) <= 2.0 ** -52 * abs(float(y)): y = z      # the double closest to a simple fraction stands for it
    return pw(E, st, x, y)
def pw(E, st, x, y):
    if not isinstance(x, Term):
        if x == 0:
            if not isinstance(y, Term): return Fraction(0) if y > 0 else T.INF
            if E.decide(st, T.eq(y, Fraction(0))): return Fraction(1)
            return Fraction(0) if E.decide(st, T.lt(Fraction(0), y)) else T.INF
        if x < 0: return NANF if not isinstance(y, Term) else NANF
        return T.pow_(Fraction(x), y)
    if x.lo <= 0:
        if E.decide(st, T.le(x, Fraction(0))):
            if E.decide(st, T.eq(x, Fraction(0))): return pw(E, st, Fraction(0), y)
            if isinstance(y, Term) and E.decide(st, T.eq(y, Fraction(0))): return Fraction(1)
            return NANF      # negative base, exponent not known to be an integer
    return T.pow_(x, y)

@prefix('llvm.powi.')
def m_powi(E, st, a, ctx):
    n = sx(conc(E, st, a[1]), 32)
    x = fin(E, st, a[0])
    if isinstance(x, float): return x ** n
    if not E.real:
        r = 1.0
        for _ in range(abs(n)): r = E.fbin(st, 'fmul', r, x)
        return r if n >= 0 else E.fbin(st, 'fdiv', 1.0, r)
    if n >= 0: return T.ipow(x, n)
    return E.rdiv(st, Fraction(1), T.ipow(x, -n))
@prefix('llvm.fmuladd.', 'llvm.fma.')
def m_fma(E, st, a, ctx):
    return E.fbin(st, 'fadd', E.fbin(st, 'fmul', a[0], a[1]), a[2])
@model('fmod')
def m_fmod(E, st, a, ctx): return E.fbin(st, 'frem', fin(E, st, a[0]), fin(E, st, a[1]))
def fminmax(ismax):
    def f(E, st, a, ctx):
        x, y = fin(E, st, a[0]), fin(E, st, a[1])
        if isinstance(x, float) and x != x: return y
        if isinstance(y, float) and y != y: return x
        c = E.fcmp(st, 'olt', x, y)
        if isinstance(c, Undef): return UNDEF
        if type(c) is int or isinstance(c, bool): return (y if c else x) if ismax else (x if c else y)
        if ismax: x, y = y, x
        r = E.sel(st, c, x, y, P.DOUBLE)
        return r
    return f
M['fmax'] = fminmax(True); M['fmin'] = fminmax(False)
PREFIX += [('llvm.maxnum.', M['fmax']), ('llvm.minnum.', M['fmin']), ('llvm.maximum.', M['fmax']), ('llvm.minimum.', M['fmin'])]
@prefix('llvm.copysign.')
def m_copysign(E, st, a, ctx):
    x, y = fin(E, st, a[0]), fin(E, st, a[1])
    if isinstance(x, float) and isinstance(y, float): return math.copysign(x, y)
    if E.real:
        ax = T.abs_(x)
        if isinstance(y, Term): return T.ite(T.lt(y, Fraction(0)), T.neg(ax), ax, 'R')
        return T.neg(ax) if y < 0 else ax
    raise Unsupported('copysign')
@prefix('llvm.is.fpclass.')
def m_fpclass(E, st, a, ctx):
    x = fin(E, st, a[0]); mask = a[1]
    if isinstance(x, Undef): return UNDEF
    if isinstance(x, (Fraction,)) or (E.real and isinstance(x, Term)):
        if isinstance(x, Fraction):
            cls = 0x40 if x == 0 else (0x100 if x > 0 else 0x8)
            return int(bool(mask & cls))
        pos, negf, zero = bool(mask & 0x180), bool(mask & 0x18), bool(mask & 0x60)
        if pos == negf == zero: return int(pos)
        r = T.or_(T.and_(pos, T.lt(Fraction(0), x)), T.and_(negf, T.lt(x, Fraction(0))), T.and_(zero, T.eq(x, Fraction(0))))
        return int(r) if isinstance(r, bool) else r
    if isinstance(x, float):
        if x != x: cls = 3
        elif x == T.INF: cls = 0x200
        elif x == -T.INF: cls = 4
        elif x == 0: cls = 0x40 if math.copysign(1, x) > 0 else 0x20
        else: cls = 0x100 if x > 0 else 8
        return int(bool(mask & cls))
    r = False
    isn = T.mk('fisnan', (x,), 'B'); inf = T.mk('fisinf', (x,), 'B')
    if mask & 3: r = T.or_(r, isn)
    posb, negb = T.fcmp('flt', 0.0, x), T.fcmp('flt', x, 0.0)
    if mask & 0x200: r = T.or_(r, T.and_(inf, posb))
    if mask & 4: r = T.or_(r, T.and_(inf, negb))
    if mask & 0x60: r = T.or_(r, T.fcmp('feq', x, 0.0))
    if mask & 0x180: r = T.or_(r, T.and_(posb, T.not_(inf)))
    if mask & 0x18: r = T.or_(r, T.and_(negb, T.not_(inf)))
    return int(r) if isinstance(r, bool) else r
@model('ldexp')
def m_ldexp(E, st, a, ctx):
    return E.fbin(st, 'fmul', fin(E, st, a[0]), (Fraction(2) ** sx(a[1], 32)) if E.real else 2.0 ** sx(a[1], 32))
@model('sincos')
def m_sincos(E, st, a, ctx):
    E.store(st, a[1], m_sin(E, st, [a[0]], ctx), 8); E.store(st, a[2], m_cos(E, st, [a[0]], ctx), 8)
@model('rand')
def m_rand(E, st, a, ctx):
    return fresh_int(E, st, 'rand', 0, 2**31 - 1)
@model('srand')
def m_srand(E, st, a, ctx): return None
@model('time')
def m_time(E, st, a, ctx): return 1000000
@model('clock')
def m_clock(E, st, a, ctx): return 1000
@model('getpid')
def m_getpid(E, st, a, ctx): return 42
@model('omp_get_thread_num', 'omp_get_max_threads')
def m_omp(E, st, a, ctx): return 0 if 'num' in ctx[2] else 1

# ------------------------------------------------------------ process
@model('abort')
def m_abort(E, st, a, ctx): raise PathEnd('abort', 'abort()')
@model('exit', '_exit')
def m_exit(E, st, a, ctx): raise PathEnd('exit', 'exit(%s)' % a[0])
@model('__assert_fail')
def m_assert(E, st, a, ctx):
    raise PathEnd('abort', 'assertion failed: %s (%s)' % (E.pystr(st, a[0]), E.pystr(st, a[3]) if isinstance(a[3], Ptr) else '?'))
@model('atexit', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_thread_atexit')
def m_zero(E, st, a, ctx): return 0
@model('__cxa_guard_acquire')
def m_guard(E, st, a, ctx):
    v = E.load(st, a[0], P.I[8])
    if v == 0:
        E.store(st, a[0], 1, 1); return 1
    return 0
@model('__cxa_pure_virtual')
def m_pv(E, st, a, ctx): raise PathEnd('abort', 'pure virtual call')
@model('_ZSt9terminatev', '__clang_call_terminate')
def m_term(E, st, a, ctx): raise PathEnd('terminate', 'std::terminate')
@model('getenv', 'secure_getenv')
def m_getenv(E, st, a, ctx):
    nm = E.pystr(st, a[0])
    v = E.env.get(nm) if hasattr(E, 'env') else None
    if v is None: return 0
    return cstr(E, st, v.encode())
def cstr(E, st, b):
    p = E.alloc(st, len(b) + 1, 'heap', 'cstr')
    o = st.mem[p.obj]
    for i, c in enumerate(b + b'\0'): o.cells[i] = (1, c)
    return p
@model('puts', 'putchar', 'printf', 'fprintf', 'fputs', 'fflush', 'fputc', 'perror')
def m_print(E, st, a, ctx): return 1
@model('__errno_location')
def m_errno(E, st, a, ctx):
    E.ginfo.setdefault('x:errno', None)
    return Ptr('x:errno', 0)
@model('strerror')
def m_strerror(E, st, a, ctx): return cstr(E, st, b'err')
@model('isspace')
def m_isspace(E, st, a, ctx):
    x = a[0]
    if type(x) is int: return int(x in (32, 9, 10, 11, 12, 13))
    r = False
    for c in (32, 9, 10, 11, 12, 13):
        e = E.icmp(st, 'eq', x, c, 32, False)
        r = T.or_(r, bool(e) if type(e) is int else e)
    return E.ext(st, r, 1, 32, False) if isinstance(r, Term) else int(r)
@model('isdigit')
def m_isdigit(E, st, a, ctx):
    x = a[0]
    if type(x) is int: return int(48 <= x <= 57)
    return 1 if E.decide(st, E.icmp(st, 'ult', E.binop(st, 'sub', x, 48, 32), 10, 32, False)) else 0
@model('tolower', 'toupper')
def m_tolower(E, st, a, ctx):
    x = a[0]; low = ctx[2] == 'tolower'
    b = 65 if low else 97
    if type(x) is int: return x + (32 if low else -32) if b <= x < b + 26 else x
    if E.decide(st, E.icmp(st, 'ult', E.binop(st, 'sub', x, b, 32), 26, 32, False)): return E.binop(st, 'add', x, (32 if low else -32) & 0xffffffff, 32)
    return x

# ------------------------------------------------------------ exceptions and RTTI
@model('__cxa_allocate_exception')
def m_cae(E, st, a, ctx): return E.alloc(st, a[0], 'heap', 'exception')
@model('__cxa_free_exception', '__cxa_end_catch')
def m_fe(E, st, a, ctx):
    if ctx[2] == '__cxa_end_catch' and st.caught: st.caught.pop()
    return None
@model('__cxa_begin_catch')
def m_bc(E, st, a, ctx):
    st.caught.append(st.exc); return a[0]
@model('__cxa_get_exception_ptr')
def m_gep(E, st, a, ctx): return a[0]
@model('__cxa_throw')
def m_throw(E, st, a, ctx):
    tn = a[1].obj.split(':')[-1]
    E.raise_here(st, (a[0], tn), ctx[1])
    return CONTROL
@model('__cxa_rethrow')
def m_rethrow(E, st, a, ctx):
    if not st.caught: raise PathEnd('terminate', 'throw; without active exception')
    E.raise_here(st, st.caught[-1], ctx[1])
    return CONTROL
def throw_std(E, st, ctx, tn):
    p = E.alloc(st, 64, 'heap', 'exception'); st.mem[p.obj].zero = True
    E.raise_here(st, (p, tn), ctx[1])
    return CONTROL
def thrower(tn):
    return lambda E, st, a, ctx: throw_std(E, st, ctx, tn)
for n, tn in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
              ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
              ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
              ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
              ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error'),
              ('__cxa_bad_cast', '_ZTISt8bad_cast'), ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length')):
    M[n] = thrower(tn)
@prefix('_ZNSt13runtime_errorC', '_ZNSt13runtime_errorD', '_ZNSt11logic_errorC', '_ZNSt11logic_errorD', '_ZNSt12out_of_rangeC', '_ZNSt12out_of_rangeD', '_ZNSt16invalid_argumentC',
        '_ZNSt16invalid_argumentD', '_ZNSt9exceptionD', '_ZNSt12domain_errorC', '_ZNSt12domain_errorD', '_ZNSt9bad_allocD', '_ZNSt12length_errorC', '_ZNSt12length_errorD')
def m_stdexc(E, st, a, ctx): return None
@prefix('_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv', '_ZNKSt9exception4whatEv')
def m_what(E, st, a, ctx): return cstr(E, st, b'what')

@model('__dynamic_cast')
def m_dyncast(E, st, a, ctx):
    p, src, dst = a[0], a[1], a[2]
    if p == 0: return 0
    vt = E.load(st, p, P.PTR)
    ti = E.load(st, Ptr(vt.obj, vt.off - 8), P.PTR)
    otop = E.load(st, Ptr(vt.obj, vt.off - 16), P.I[64])
    base = Ptr(p.obj, p.off + sx(otop, 64))
    target = dst.obj.split(':')[-1]
    offs = subobj(E, st, ti.obj.split(':')[-1], 0, target)
    if not offs: return 0
    return Ptr(base.obj, base.off + offs[0])
def subobj(E, st, name, off, target):
    if name == target: return [off]
    out = []
    for m in E.modules:
        if name in m.globals and 'external' not in m.globals[name][0][:20]:
            ln = m.globals[name][0]
            refs = [P.unq(r) for r in re.findall(r'ptr @("[^"]*"|[\w.$-]+)', ln)]
            bs = [r for r in refs if r.startswith('_ZTI')]
            if '__vmi_class' in ln:
                flags = re.findall(r'i64 (-?\d+)', ln)[-len(bs):]
                for b, f in zip(bs, flags): 
                    out += subobj(E, st, b, off + (int(f) >> 8), target)
            else:
                for b in bs: out += subobj(E, st, b, off, target)
            break
    return out
@model('__cxa_bad_typeid')
def m_bt(E, st, a, ctx): raise PathEnd('abort', 'bad typeid')

# ------------------------------------------------------------ harness API
def uname(E, st, p):
    n = E.pystr(st, p)
    k = st.names.get(n, 0)
    st.names[n] = k + 1
    return n if k == 0 else '%s#%d' % (n, k)

def fresh_double(E, st, name, lo=None, hi=None):
    if E.replay is not None:
        v = E.replay[name]
        E.inputs[name] = v
        return v
    if not E.real:
        v = T.var(name, 'F')
        E.inputs[name] = v
        if lo is not None:
            st.facts_add = None
            add_pc(st, T.fcmp('fle', lo, v)); add_pc(st, T.fcmp('fle', v, hi))
        return v
    kw = {}
    if lo is not None:
        v = T.var(name, 'R', T.lo_of(lo), T.hi_of(hi))
        for c in (T.le(lo, v) if isinstance(lo, Term) else True, T.le(v, hi) if isinstance(hi, Term) else True):
            add_pc(st, c)
    else: v = T.var(name, 'R')
    E.inputs[name] = v
    return v
def add_pc(st, c):
    if isinstance(c, Term):
        if c.id not in st.facts or st.facts[c.id] is not True:
            st.facts[c.id] = True; st.pc.append(c)
            if c.op == 'and':
                for x in c.args: st.facts[x.id] = True
def fresh_int(E, st, name, lo, hi):
    if E.replay is not None:
        if name not in E.replay:
            k = 'rand'
        v = int(E.replay.get(name, lo)); E.inputs[name] = v
        return v & (2**64 - 1)
    if E.intmode == 'I':
        v = T.var(name, 'I', float(lo), float(hi))
    else:
        v = T.var(name, 64)
        add_pc(st, T.bvcmp('bvsle', lo & (2**64 - 1), v)); add_pc(st, T.bvcmp('bvsle', v, hi & (2**64 - 1)))
    E.inputs[name] = v
    return v

@model('sym_double')
def m_symd(E, st, a, ctx): return fresh_double(E, st, uname(E, st, a[0]))
@model('sym_range')
def m_symr(E, st, a, ctx):
    return fresh_double(E, st, uname(E, st, a[0]), fin(E, st, a[1]), fin(E, st, a[2]))
@model('sym_int')
def m_symi(E, st, a, ctx):
    return fresh_int(E, st, uname(E, st, a[0]), sx(a[1], 64), sx(a[2], 64))
@model('sym_byte')
def m_symb(E, st, a, ctx):
    name = uname(E, st, a[0])
    if E.replay is not None: return int(E.replay[name]) & 255
    v = T.var(name, 8) if E.intmode == 'BV' else T.var(name, 'I', -128.0, 127.0)
    E.inputs[name] = v
    return v
@model('sym_choice')
def m_choice(E, st, a, ctx):
    """concrete enumeration of a small configuration space, one path per value"""
    name = E.pystr(st, a[0]); n = a[1]
    k = st.names.get(name, 0)
    full = name if k == 0 else '%s#%d' % (name, k)
    if E.replay is not None:
        st.names[name] = k + 1
        return int(E.replay[full])
    fixed = getattr(E, 'choices', {}).get(full)
    if fixed is not None:
        st.names[name] = k + 1
        E.inputs[full] = fixed
        st.trace.append((full, fixed))
        return fixed
    v = T.var(full, 'I', 0.0, float(n - 1)); E.inputs[full] = v
    for i in range(n - 1):
        if E.decide(st, T.eq(v, i)):
            st.names[name] = k + 1; st.trace.append((full, i))
            return i
    st.names[name] = k + 1; st.trace.append((full, n - 1))
    return n - 1
@model('sym_assume')
def m_assume(E, st, a, ctx):
    c = a[0]
    if isinstance(c, Undef): E.memerr(st, 'assumption on uninitialised value')
    if type(c) is int:
        if not c & 1: raise PathEnd('assume')
        return None
    if isinstance(c, Term) and c.sort != 'B': c = T.ne(c, 0)
    if not isinstance(c, Term):
        if not c: raise PathEnd('assume')
        return None
    r = solve.feasible(st.pc, c, E.feas_timeout)
    if r == 'unsat': raise PathEnd('assume')
    add_pc(st, c)
    return None

def add_check(E, st, cond, label, kind='check'):
    E.reached[label] = E.reached.get(label, 0) + 1
    if cond is True: 
        E.obligations.append({'kind': kind, 'label': label, 'pc': None, 'neg': False, 'trivial': True}); return
    neg = T.not_(cond) if isinstance(cond, Term) else True
    E.obligations.append({'kind': kind, 'label': label, 'pc': list(st.pc), 'neg': neg, 'trace': list(st.trace)})
    if isinstance(cond, Term): add_pc(st, cond)
def tobool(E, st, c):
    if isinstance(c, Undef): E.memerr(st, 'check of uninitialised value')
    if type(c) is int: return bool(c & 1)
    if isinstance(c, Term) and c.sort != 'B':
        return T.ne(c, 0) if c.sort == 'I' else T.not_(T.bvcmp('bveq', c, 0))
    return c
@model('sym_check')
def m_check(E, st, a, ctx):
    add_check(E, st, tobool(E, st, a[0]), E.pystr(st, a[1]))
@model('sym_check_eq')
def m_checkeq(E, st, a, ctx):
    x, y = fin(E, st, a[0]), fin(E, st, a[1]); label = E.pystr(st, a[2])
    if isinstance(x, Undef) or isinstance(y, Undef): E.memerr(st, 'check of uninitialised value (%s)' % label)
    if E.real:
        if isinstance(x, float) or isinstance(y, float):
            c = isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y))
        else: c = T.eq(x, y)
    else:
        if isinstance(x, float) and isinstance(y, float): c = T.fbits(x) == T.fbits(y) or (x != x and y != y) or x == y
        else: c = T.or_(T.fcmp('feq', x, y), T.and_(T.mk('fisnan', (T.fconst(x),), 'B'), T.mk('fisnan', (T.fconst(y),), 'B'))) if x is not y else True
    add_check(E, st, c, label, 'eq')
@model('sym_check_printed')
def m_checkprinted(E, st, a, ctx):
    """the first number is a decimal rendering, with at least p digits, of the second"""
    x, y = fin(E, st, a[0]), fin(E, st, a[1]); p = sx(a[2], 32)
    while isinstance(x, Term) and x.op == 'uf' and str(x.args[0]).startswith('rnd') and int(x.args[0][3:]) >= p: x = x.args[1]
    if isinstance(x, (float, Fraction)) and isinstance(y, (float, Fraction)) and not E.real or isinstance(x, Fraction) and isinstance(y, Fraction):
        add_check(E, st, abs(x - y) <= 6 * abs(y) / 10 ** p, E.pystr(st, a[3]), 'eq'); return None
    return m_checkeq(E, st, [x, y, a[3]], ctx)
@model('sym_check_same')
def m_checksame(E, st, a, ctx):
    """bit-for-bit the same double (ieee mode), equal value (real mode)"""
    x, y = fin(E, st, a[0]), fin(E, st, a[1]); label = E.pystr(st, a[2])
    if isinstance(x, Undef) or isinstance(y, Undef): E.memerr(st, 'check of uninitialised value (%s)' % label)
    if x is y: c = True
    elif E.real: return m_checkeq(E, st, a, ctx)
    elif isinstance(x, float) and isinstance(y, float): c = T.fbits(x) == T.fbits(y)
    else: c = T.mk('fsame', (T.fconst(x), T.fconst(y)), 'B')
    add_check(E, st, c, label, 'eq')
@model('sym_check_angle')
def m_checkangle(E, st, a, ctx):
    """the two angles are equal modulo 2 pi"""
    x, y = fin(E, st, a[0]), fin(E, st, a[1]); label = E.pystr(st, a[2])
    if isinstance(x, Undef) or isinstance(y, Undef): E.memerr(st, 'check of uninitialised value (%s)' % label)
    if isinstance(x, float) or isinstance(y, float): c = False
    elif (x is y) or (not isinstance(x, Term) and not isinstance(y, Term) and x == y): c = True
    else:
        s1, c1 = T.sincos(x); s2, c2 = T.sincos(y)
        add_check(E, st, T.eq(c1, c2), label + ' (cos)', 'eq')
        add_check(E, st, T.eq(s1, s2), label + ' (sin)', 'eq')
        return
    add_check(E, st, c, label, 'eq')
@model('sym_check_finite')
def m_checkfin(E, st, a, ctx):
    x = fin(E, st, a[0]); label = E.pystr(st, a[1])
    if isinstance(x, Undef): E.memerr(st, 'check of uninitialised value (%s)' % label)
    if isinstance(x, float): c = x == x and abs(x) != T.INF
    elif E.real: c = True
    else: c = T.not_(T.or_(T.mk('fisnan', (x,), 'B'), T.mk('fisinf', (x,), 'B')))
    add_check(E, st, c, label)
@model('sym_diff')
def m_diff(E, st, a, ctx):
    """d expr / d var (real mode)"""
    import autodiff
    x, v = fin(E, st, a[0]), fin(E, st, a[1])
    if isinstance(x, float): return x
    if not isinstance(x, Term): return Fraction(0)
    return autodiff.diff(x, v)
@model('sym_is_symbolic')
def m_issym(E, st, a, ctx): return 1
@model('sym_is_undef')
def m_isundef(E, st, a, ctx): return int(isinstance(a[0], Undef))
@model('sym_reach')
def m_reach(E, st, a, ctx):
    """reachability witness: the end of the harness is reached with a satisfiable path condition"""
    label = E.pystr(st, a[0])
    E.obligations.append({'kind': 'reach', 'label': label, 'pc': list(st.pc), 'neg': True})
    return None
@model('sym_lazy_array')
def m_lazy(E, st, a, ctx):
    """char *sym_lazy_array(const char *name, long first, long bytes): the doubles (or floats) from byte first on are
    arbitrary, the bytes before are zero"""
    name = E.pystr(st, a[0]); first = conc(E, st, a[1]); n = conc(E, st, a[2])
    p = E.alloc(st, n, 'heap', name)
    o = st.mem[p.obj]
    def lz(off, k, name=name):
        q = T.sub(off, first) if not isinstance(off, int) else off - first
        if k not in (4, 8): return None
        nm = ('arr:' if k == 8 else 'arr4:') + name
        if isinstance(q, int):
            if q % k == 0 and q >= 0: return T.uf(nm, (q // k,), sort='R' if E.real else 'F')
            return None
        return T.uf(nm, (T.idiv_exact(q, k),), sort='R' if E.real else 'F')
    o.lazy = lz
    for i in range(first): o.cells[i] = (1, 0)
    return p
@model('sym_expect_throw')
def m_expthrow(E, st, a, ctx): return None
@model('sym_note')
def m_note(E, st, a, ctx): return None
@model('sym_out')
def m_out(E, st, a, ctx):
    st.outputs.append((E.pystr(st, a[0]), fin(E, st, a[1]))); return None
@model('sym_round')
def m_round_digits(E, st, a, ctx):
    """value read back from a decimal rendering with p significant digits"""
    x = fin(E, st, a[0]); p = sx(a[1], 32)
    if isinstance(x, Undef): E.memerr(st, 'printing of an uninitialised value')
    if isinstance(x, Fraction): return recog_const(float('%.*g' % (max(p, 1), float(x)))) if p < 17 else x
    if isinstance(x, float): return float('%.*g' % (max(p, 1), x)) if x == x else x
    if p >= 17: return x
    if isinstance(x, Term) and x.op == 'uf' and str(x.args[0]).startswith('rnd') and int(x.args[0][3:]) <= p: return x
    return T.uf('rnd%d' % p, (x,), sort='R' if E.real else 'F')
@model('sym_streq')
def m_streq(E, st, a, ctx): return None
@model('sym_int_is_symbolic')
def m_iis(E, st, a, ctx): return int(isinstance(a[0], Term))
@model('sym_dbl_is_symbolic')
def m_dis(E, st, a, ctx):
    x = fin(E, st, a[0])
    if isinstance(x, Undef): E.memerr(st, 'printing of an uninitialised value')
    return int(isinstance(x, Term))
@model('sym_unmodelled')
def m_unm(E, st, a, ctx): raise EngineError('unmodelled stream feature: ' + E.pystr(st, a[0]))

# ------------------------------------------------------------ text -> number
NUMRE = re.compile(r'[ \t\n\r\v\f]*([+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|inf(?:inity)?|nan))', re.I)
INTRE = re.compile(r'[ \t\n\r\v\f]*([+-]?\d+)')
def token(E, st, bs, want):
    """value of a number token at the start of the byte string, or None"""
    k = 0
    while k < len(bs) and bs[k] in (32, 9, 10, 13): k += 1
    if k + 3 < len(bs) and bs[k] in (1, 2) and bs[k + 3] == 0x81:
        idx = (bs[k + 1] - 0x80) + 64 * (bs[k + 2] - 0x80)
        base = E.global_ref(E.modules[0], '_ZN4shim3tabE')
        off = TABOFF[0] if bs[k] == 1 else TABOFF[1]
        v = E.load(st, Ptr(base.obj, off + 8 * idx), P.DOUBLE if bs[k] == 1 else P.I[64])
        return v, k + 4, bs[k]
    return None
TABOFF = (16 * 80 + 8, 16 * 80 + 8 + 4096 * 8)
def conc_bytes(E, st, p):
    bs = E.cstring(st, p)
    return bs
def numtext(E, st, bs):
    out = []
    for b in bs:
        if not isinstance(b, int):
            b = E.concretize(st, b) & 255
        out.append(b)
        if b not in b' \t\n+-.eE0123456789infatyINFATY': break
    return bytes(out).decode('latin1')
@model('strtod', 'atof', 'strtof')
def m_strtod(E, st, a, ctx):
    bs = conc_bytes(E, st, a[0])
    t = token(E, st, bs, 'd') if all(isinstance(b, int) for b in bs[:5]) else None
    if t: v, n = (t[0] if t[2] == 1 else E.inttofp(st, t[0], 64, True)), t[1]
    else:
        m = NUMRE.match(numtext(E, st, bs))
        if m: v = fl(E, float(m.group(1))); n = m.end()
        else: v = fl(E, 0.0); n = 0
    if ctx[2] != 'atof' and a[1] != 0: E.store(st, a[1], Ptr(a[0].obj, a[0].off + n), 8)
    return v
@model('strtol', 'atoi', 'strtoul', 'atol', 'strtoll', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll', '__isoc23_strtoull')
def m_strtol(E, st, a, ctx):
    bs = conc_bytes(E, st, a[0])
    t = token(E, st, bs, 'i') if all(isinstance(b, int) for b in bs[:5]) else None
    if t:
        if t[2] == 1: raise Unsupported('integer read of a decimal token')
        v, n = t[0], t[1]
    else:
        m = INTRE.match(numtext(E, st, bs))
        if m: v = int(m.group(1)); n = m.end()
        else: v = 0; n = 0
    if not ctx[2].startswith('ato') and a[1] != 0: E.store(st, a[1], Ptr(a[0].obj, a[0].off + n), 8)
    if ctx[2] == 'atoi': return v & 0xffffffff if type(v) is int else E.trunc(st, v, 64, 32)
    return v & (2**64 - 1) if type(v) is int else v
@model('clock_gettime', 'gettimeofday')
def m_cgt(E, st, a, ctx):
    p = a[1] if ctx[2] == 'clock_gettime' else a[0]
    k = st.names.get('__clk', 0)
    s = fresh_int(E, st, 'clock_s#%d' % k, 0, 100000); ns = fresh_int(E, st, 'clock_ns#%d' % k, 0, 999999999)
    st.names['__clk'] = k + 1
    E.store(st, p, s, 8); E.store(st, Ptr(p.obj, T.add(p.off, 8)), ns, 8)
    return 0
@model('sysconf')
def m_sysconf(E, st, a, ctx): return 4096
@model('dlopen')
def m_dlopen(E, st, a, ctx): return 0
@model('dlerror')
def m_dlerror(E, st, a, ctx): return cstr(E, st, b'dl error')
