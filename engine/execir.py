"""Path-forking symbolic executor for LLVM IR."""
import re, time, math, struct, sys
from fractions import Fraction
import terms as T
from terms import Term
import irparse as P
from mem import *
import solve, canon, runs

sys.setrecursionlimit(100000)

class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class PathEnd(Exception):
    def __init__(self, status, msg=''): self.status = status; self.msg = msg
HUGE = Fraction(10) ** 300
class EngineError(Exception):
    pass

class Frame:
    __slots__ = ('fn', 'code', 'blk', 'prev', 'pc', 'regs', 'ret', 'unwind', 'allocas', 'normal')
    def copy(self):
        f = Frame(); f.fn = self.fn; f.code = self.code; f.blk = self.blk; f.prev = self.prev; f.pc = self.pc
        f.regs = dict(self.regs); f.ret = self.ret; f.unwind = self.unwind; f.allocas = list(self.allocas); f.normal = self.normal
        return f

_tok = [0]
class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.facts = {}
        _tok[0] += 1; self.token = _tok[0]
        self.names = {}; self.exc = None; self.caught = []; self.trace = []
        self.outputs = []; self.extra = {}
        self.steps = 0
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem)
        s.pc = list(self.pc); s.facts = dict(self.facts)
        _tok[0] += 1; self.token = _tok[0]
        s.names = dict(self.names); s.exc = self.exc; s.caught = list(self.caught)
        s.trace = list(self.trace); s.outputs = list(self.outputs)
        s.extra = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.extra.items()}
        s.steps = self.steps
        return s

def sx(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

NANF = float('nan')

_kc = []
def KNOWN_CONSTS():
    if not _kc:
        q = Fraction; sp = T.sqrt(T.PI)
        _kc.extend([(math.sqrt(math.pi), sp), (1 / math.sqrt(math.pi), T.div(q(1), sp)), (2 / math.sqrt(math.pi), T.div(q(2), sp)),
            (1 / math.sqrt(2 * math.pi), T.div(q(1), T.mul(T.sqrt(q(2)), sp))), (math.sqrt(2 / math.pi), T.div(T.sqrt(q(2)), sp)), (math.sqrt(2 * math.pi), T.mul(T.sqrt(q(2)), sp)), (math.sqrt(math.pi / 2), T.scale(q(1, 2), T.mul(T.sqrt(q(2)), sp))), (math.sqrt(0.5), T.scale(q(1, 2), T.sqrt(q(2)))), (math.sqrt(2), T.sqrt(q(2)))])
    return _kc
def recog_const(v):
    """double literal -> exact real (Fraction or multiple of PI)"""
    if v != v or v in (T.INF, -T.INF): return v
    if v == 0: return Fraction(0)
    f = Fraction(repr(v)) if abs(v) < 1e300 else Fraction(v)
    if len(repr(v)) >= 12 and 1e-6 < abs(v) < 1e6:
        for q in (1, 2, 3, 4, 6, 8, 180, 360, 90):
            r = v * q / math.pi
            n = round(r)
            if n != 0 and abs(n) <= 16 and abs(r - n) < 4e-16 * abs(r) * 2:
                return T.scale(Fraction(n, q), T.PI)
        for q in (1, 2, 3, 4, 180, 90, 360):
            r = v * math.pi / q
            n = round(r)
            if n != 0 and abs(n) <= 8 and abs(r - n) < 4e-16 * abs(r) * 2:
                return T.div(Fraction(n * q), T.PI)
        # multiples of pi and of 1/pi rounded to single precision
        if struct.unpack('<f', struct.pack('<f', v))[0] == v:
            f32 = lambda x: struct.unpack('<f', struct.pack('<f', x))[0]
            for q in (1, 2, 3, 4, 180, 90, 360):
                n = round(v * q / math.pi)
                if n != 0 and abs(n) <= 16 and f32(n * math.pi / q) == v: return T.scale(Fraction(n, q), T.PI)
                n = round(v * math.pi / q)
                if n != 0 and abs(n) <= 8 and f32(n * q / math.pi) == v: return T.div(Fraction(n * q), T.PI)
        # 1/pi and pi written with ten digits or more
        r = repr(abs(v)); nd = len(r.split('.')[-1])
        for c, t in ((1 / math.pi, lambda: T.div(Fraction(1), T.PI)), (math.pi, lambda: T.PI)):
            if nd >= 10 and 'e' not in r and abs(abs(v) - c) < 10.0 ** -nd: return t() if v > 0 else T.neg(t())
        # constants written with 14 or 15 digits
        for c, t in KNOWN_CONSTS():
            if abs(abs(v) - c) < 2e-14 * c: return t if v > 0 else T.neg(t)
        # square roots of small integers
        r = v * v
        n = round(r)
        if 2 <= n <= 12 and abs(r - n) < 1e-15 * n: return T.sqrt(Fraction(n)) if v > 0 else T.neg(T.sqrt(Fraction(n)))
        r = 1 / r
        n = round(r)
        if 2 <= n <= 12 and abs(r - n) < 1e-15 * n:
            s = T.sqrt(Fraction(1, n)); return s if v > 0 else T.neg(s)
    return f

class Engine:
    def __init__(self, modules, mode='real', intmode='I', max_paths=4000, max_steps=30000000, deadline=None, feas_timeout=1500, replay=None):
        self.modules = modules
        self.real = (mode == 'real')
        self.intmode = intmode
        self.max_paths = max_paths; self.max_steps = max_steps; self.deadline = deadline
        self.feas_timeout = feas_timeout
        self.symtab = {}
        for m in modules:
            for n, f in m.funcs.items():
                if not f.internal: self.symtab.setdefault(n, (m, 'f', f))
            for n, (ln, internal) in m.globals.items():
                if not internal:
                    isdecl = ' external ' in ' ' + ln[:60] or ln.startswith('external')
                    if isdecl: continue
                    self.symtab.setdefault(n, (m, 'g', ln))
            for n, a in m.aliases.items():
                self.symtab.setdefault(n, (m, 'a', a))
        self.gids = {}; self.ginfo = {}
        self.fnptrs = {}
        self.nextobj = 1
        self.obligations = []
        self.reached = {}
        self.paths = []
        self.errors = []
        self.typeids = {}
        self.steps = 0
        self.hits = {}
        self.models = {}
        self.replay = replay      # name -> concrete value: concrete execution mode
        self.inputs = {}          # symbolic input name -> term
        self.assumed = []
        self.domain_mode = 'fork'
        self.bases = {}
        self.nextbase = 0x10000000
        self.notes = set()
        self.expected_status = set()
        self.pathid = 0
        self.trackerr = True
        import models
        models.install(self)

    # ------------------------------------------------------------ naming
    def resolve(self, mod, name):
        """-> ('f', Function) | ('g', gid) | ('x', name)"""
        for _ in range(8):
            if name in mod.funcs and (mod.funcs[name].internal or name not in self.symtab):
                return ('f', mod.funcs[name])
            if name in mod.globals and mod.globals[name][1]:
                return ('g', self.gid(mod, name, mod.globals[name][0]))
            if name in mod.aliases and name not in self.symtab:
                name = mod.aliases[name]; continue
            s = self.symtab.get(name)
            if s is None: return ('x', name)
            if s[1] == 'f': return ('f', s[2])
            if s[1] == 'g': return ('g', self.gid(s[0], name, s[2]))
            mod, name = s[0], s[2]
        raise EngineError('alias loop')

    def gid(self, mod, name, line):
        key = (mod.tag, name)
        g = self.gids.get(key)
        if g is None:
            g = 'g:%s:%s' % key
            self.gids[key] = g
            self.ginfo[g] = (mod, name, line)
        return g

    def fnptr(self, mod, name, fn=None):
        r = ('f', fn) if fn else self.resolve(mod, name)
        if r[0] == 'f': key = id(r[1])
        else: key = r[1]
        p = self.fnptrs.get(key)
        if p is None:
            p = FnPtr(r[1].name if r[0] == 'f' else r[1], r[1] if r[0] == 'f' else None)
            self.fnptrs[key] = p
        return p

    def global_ref(self, mod, name):
        r = self.resolve(mod, name)
        if r[0] == 'f': return self.fnptr(mod, name, r[1])
        if r[0] == 'g': return Ptr(r[1], 0)
        if name in mod.decls or name in self.models:
            return self.fnptr(mod, name)
        g = 'x:' + name
        self.ginfo.setdefault(g, None)
        return Ptr(g, 0)

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, str):
                o = self.make_global(oid)
                st.mem[oid] = o
            else:
                raise PathEnd('error', 'access to dead stack object')
        return o

    def make_global(self, gid):
        info = self.ginfo.get(gid)
        if gid.startswith('x:') or info is None:
            o = Obj(4096, 'ext', gid); o.zero = True
            return o
        mod, name, line = info
        Tk = P.Toks(line, mod)
        while Tk.peek() in P.LINKAGE or Tk.kind() == 'attr' or Tk.peek() == 'thread_local':
            w = Tk.next()
            if w == 'thread_local' and Tk.peek() == '(':
                while Tk.next() != ')': pass
        ty = P.parse_type(Tk)
        o = Obj(ty.size(), 'global', name)
        if Tk.i < len(Tk.l) and Tk.peek() not in (',',):
            v = P.parse_value(Tk, ty)
            self.init_global(o, 0, ty, v, mod)
        return o

    def init_global(self, o, off, ty, v, mod):
        ty = ty.res()
        k = v[0]
        if k == 'zero' or (k == 'null' and ty.k != 'ptr'):
            if off == 0 and ty.size() == o.size: o.zero = True
            else: self.zero_fill(o, off, ty.size())
        elif k == 'undef': pass
        elif k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        elif k == 'agg':
            if ty.k in ('array', 'vector'):
                es = ty.el.size()
                for i, (t, x) in enumerate(v[1]): self.init_global(o, off + i * es, t, x, mod)
            else:
                offs = ty.offsets()
                for i, (t, x) in enumerate(v[1]): self.init_global(o, off + offs[i], t, x, mod)
        else:
            val = self.constval(v, ty, mod)
            o.cells[off] = (ty.size(), val)

    def zero_fill(self, o, off, n):
        i = 0
        while i < n:
            if (off + i) % 8 == 0 and n - i >= 8: o.cells[off + i] = (8, 0); i += 8
            else: o.cells[off + i] = (1, 0); i += 1

    def constval(self, v, ty, mod):
        k = v[0]
        if k == 'c':
            x = v[1]
            if isinstance(x, float) and self.real: return recog_const(x)
            return x
        if k == 'null': return 0
        if k == 'zero':
            t = ty.res()
            if t.k == 'struct' : return [self.constval(('zero',), f, mod) for f in t.fields]
            if t.k in ('array', 'vector'): return [self.constval(('zero',), t.el, mod) for _ in range(t.n)]
            if t.k in ('double', 'float', 'x86_fp80'): return Fraction(0) if self.real else 0.0
            return 0
        if k == 'undef':
            t = ty.res()
            if t.k == 'struct': return [UNDEF for _ in t.fields]
            if t.k in ('array', 'vector'): return [UNDEF for _ in range(t.n)]
            return UNDEF
        if k == 'g': return self.global_ref(mod, v[1])
        if k == 'agg': return [self.constval(x, t, mod) for t, x in v[1]]
        if k == 'str': return list(v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.constval(v[3][0][1], v[3][0][0], mod)
                off = 0; t = v[2]
                for i, (it, iv) in enumerate(v[3][1:]):
                    idx = self.constval(iv, it, mod)
                    idx = sx(idx, it.n)
                    if i == 0: off += idx * t.size()
                    else:
                        t = t.res()
                        if t.k == 'struct':
                            off += t.offsets()[idx]; t = t.fields[idx]
                        else:
                            t = t.el; off += idx * t.size()
                if base == 0: return off & (2**64 - 1)
                return Ptr(base.obj, base.off + off)
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self.constval(v[3], v[2], mod)
            a = self.constval(v[3], v[2], mod); b = self.constval(v[4], v[2], mod)
            if op == 'sub':
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return (a.off - b.off) & (2**64 - 1)
                if isinstance(a, int) and isinstance(b, int): return (a - b) & ((1 << v[2].n) - 1)
            raise EngineError('constexpr ' + op)
        raise EngineError('const ' + repr(v))

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name=''):
        oid = self.nextobj; self.nextobj += 1
        o = Obj(size, kind, name); o.owner = st.token
        st.mem[oid] = o
        return Ptr(oid, 0)

    def wobj(self, st, oid):
        o = self.getobj(st, oid)
        if o.owner != st.token:
            o = o.clone(st.token); st.mem[oid] = o
        return o

    def memerr(self, st, msg):
        raise PathEnd('error', msg + ' in ' + (st.frames[-1].fn.name if st.frames else '?'))

    def chk(self, st, p, n, what):
        """pointer validity; returns (obj, concrete offset or Term)"""
        if not isinstance(p, Ptr):
            if isinstance(p, Undef): self.memerr(st, what + ' through an uninitialised pointer')
            if isinstance(p, FnPtr): self.memerr(st, what + ' through function pointer')
            self.memerr(st, '%s through null/invalid pointer' % what)
        o = self.getobj(st, p.obj)
        if not o.alive: self.memerr(st, what + ' of freed memory')
        off = p.off
        if isinstance(off, int):
            if off < 0 or off + n > o.size:
                self.memerr(st, '%s out of bounds (offset %d size %d of object %s size %d)' % (what, off, n, o.name, o.size))
            return o, off
        if isinstance(off.sort, int):
            off = self.concretize(st, off)
            off = sx(off, 64)
            if off < 0 or off + n > o.size:
                self.memerr(st, '%s out of bounds (offset %d size %d of object %s size %d)' % (what, off, n, o.name, o.size))
            return o, off
        inb = T.and_(T.le(0, off), T.le(off, o.size - n))
        if not self.decide(st, inb):
            self.memerr(st, '%s out of bounds (symbolic offset, object %s size %d)' % (what, o.name, o.size))
        return o, off

    def conv(self, v, ty):
        k = ty.k
        if k == 'double':
            if type(v) is int:
                d = bits2d(v)
                return recog_const(d) if self.real else d
            if isinstance(v, Term) and v.sort == 64:
                if v.op == 'f2bits': return v.args[0]
                return T.mk('fbits2f', (v,), 'F')
            return v
        if k == 'float':
            if type(v) is int:
                d = bits2f(v)
                return recog_const(d) if self.real else d
            return v
        if k == 'int':
            if ty.n == 1 and type(v) is int: return v & 1
            if isinstance(v, bool): return int(v)
            return v
        return v

    def load(self, st, p, ty):
        ty = ty.res()
        if ty.k == 'struct':
            offs = ty.offsets()
            return [self.load(st, Ptr(p.obj, T.add(p.off, o)), f) for o, f in zip(offs, ty.fields)]
        if ty.k in ('array', 'vector'):
            es = ty.el.size()
            return [self.load(st, Ptr(p.obj, T.add(p.off, i * es)), ty.el) for i in range(ty.n)]
        n = ty.size()
        o, off = self.chk(st, p, n, 'read')
        if o.back is not None: return self.conv(self.backload(st, o, off, n, ty), ty)
        if not isinstance(off, int):
            return self.symload(st, o, off, n, ty, p)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if ty.k in ('int', 'ptr') and ty.n != 1 and type(v) is int: return v
            return self.conv(v, ty)
        return self.conv(self.loadslow(o, off, n), ty)

    def loadslow(self, o, off, n):
        cells = o.cells
        # any covering cell?
        bs = []
        i = 0
        while i < n:
            a = off + i
            c = cells.get(a)
            if c is not None:
                m = min(c[0], n - i)
                vb = val_bytes(c[1], c[0])
                bs.extend(vb[:m]); i += m; continue
            for d in range(1, 16):
                c = cells.get(a - d)
                if c is not None:
                    if c[0] > d:
                        vb = val_bytes(c[1], c[0])[d:]
                        m = min(len(vb), n - i)
                        bs.extend(vb[:m]); i += m
                    else: c = None
                    break
            if c is None:
                if o.back is not None: raise EngineError('mixed load over a block')
                if o.lazy is not None:
                    v = o.lazy(off, n)
                    if v is not None: return v
                bs.append(0 if o.zero else UNDEF); i += 1
        return assemble(bs)

    # Objects with a background: o.back is ('st', offset, n, value, previous) for a store at a symbolic
    # offset or ('cp', source, delta, lo, hi, previous) for a block [lo, hi) copied from source at offset-delta;
    # cells are newer than the background, previous and source are frozen snapshots.
    def freeze(self, o):
        q = o.clone(None); q.owner = None; return q
    def multiple(self, d, n):
        if isinstance(d, int): return d % n == 0
        if d.op == 'lin': return d.args[1] % n == 0 and all(k % n == 0 for _, k in d.args[0])
        return False
    def backload(self, st, o, off, n, ty):
        conc = isinstance(off, int)
        if conc:
            c = o.cells.get(off)
            if c is not None and c[0] == n: return self.conv(c[1], ty)
            for k in range(off - 15, off + n):
                c = o.cells.get(k)
                if c is not None and k + c[0] > off: return self.conv(self.loadslow(o, off, n), ty)
        b = o.back
        if b is None:
            if conc: v = self.conv(self.loadslow(o, off, n), ty)
            elif o.lazy is not None: v = o.lazy(off, n)
            elif o.zero: v = self.conv(0, ty)
            else: raise EngineError('symbolic load from a large uninitialised object')
        elif b[0] == 'st':
            v = self.backload(st, b[4], off, n, ty)
            d = T.sub(off, b[1])
            if b[2] != n or not self.multiple(d, n):
                if isinstance(d, int) and (d >= b[2] or d <= -n): return v
                raise EngineError('partial overlap with a store at a symbolic offset')
            v = T.ite(T.eq(d, 0), self.conv(b[3], ty), v) if not isinstance(d, int) else (self.conv(b[3], ty) if d == 0 else v)
        else:
            _, src, delta, lo, hi, prev = b
            if conc:
                if lo <= off and off + n <= hi: v = self.backload(st, src, off - delta, n, ty)
                elif off + n <= lo or off >= hi: v = self.backload(st, prev, off, n, ty)
                else: raise EngineError('load across a copied block')
            elif self.decide(st, T.and_(T.le(lo, off), T.le(off, hi - n))): v = self.backload(st, src, T.sub(off, delta), n, ty)
            else: v = self.backload(st, prev, off, n, ty)
        if not conc and o.cells:
            w = self.runload(o, off, n, ty)
            if w is not None: return w
            for co, (cn, cv) in o.cells.items():
                if co + cn <= off.lo or co >= off.hi + n: continue
                if cn == n:
                    q = T.eq(off, co)
                    if q is False: continue
                    v = T.ite(q, self.conv(cv, ty), v)
                else: raise EngineError('symbolic load over cells of different sizes')
        return v

    def runload(self, o, off, n, ty):
        """load at a symbolic offset of a long run of cells as one closed term, or None"""
        if len(o.cells) < 64: return None
        d = T._parts(off, 'I'); g = 0
        for _, k in d[0]: g = math.gcd(g, k)
        c0 = d[1]
        if g == 0 or g % n: return None
        lo = max(0, int(off.lo) if off.lo != -T.INF else 0); hi = min(o.size - n, int(off.hi) if off.hi != T.INF else o.size)
        start = lo + ((c0 - lo) % g); cells = o.cells; vals = []
        if (hi - start) // g + 1 < 64: return None
        for a in range(start, hi + 1, g):
            c = cells.get(a)
            if c is None or c[0] != n: return None
            vals.append(((a - c0) // g, self.conv(c[1], ty)))
        if any(not isinstance(v, (Term, Fraction)) or (isinstance(v, Term) and v.sort != 'R') for _, v in vals): return None
        idx = 0
        for t, k in d[0]: idx = T.add(idx, T.scale(k // g, t))
        return runs.closed(vals, idx)
    def symload(self, st, o, off, n, ty, p):
        if o.lazy is not None or (o.zero and o.size > 65536): return self.backload(st, o, off, n, ty)
        # stride
        g = 0; c0 = 0
        if off.op == 'lin':
            for _, k in off.args[0]: g = math.gcd(g, k)
            c0 = off.args[1]
        else: g = 1
        lo = max(0, int(off.lo) if off.lo != -T.INF else 0)
        hi = min(o.size - n, int(off.hi) if off.hi != T.INF else o.size)
        start = lo + ((c0 - lo) % g)
        cand = list(range(start, hi + 1, g))
        if len(cand) > 500 and not o.zero and (not o.cells or all(k + c[0] <= lo or k >= hi + n for k, c in o.cells.items())): return UNDEF
        if len(cand) > 500:
            w = self.runload(o, off, n, ty)
            if w is not None: return w
        if len(cand) > 3000:
            raise EngineError('symbolic load over %d candidates' % len(cand))
        vals = []
        for a in cand:
            c = o.cells.get(a)
            if c is not None and c[0] == n: vals.append((a, self.conv(c[1], ty)))
            else:
                v = self.conv(self.loadslow(o, a, n), ty)
                vals.append((a, v))
        if any(isinstance(v, Undef) or isinstance(v, (Ptr, FnPtr, Frag)) for _, v in vals) or not vals:
            a = self.concretize(st, off)
            return self.load(st, Ptr(p.obj, a), ty)
        if ty.k == 'int':
            vals = [(a, sx(v, 8 * n) if isinstance(v, int) else v) for a, v in vals]
            srt = 'I'
            for _, v in vals:
                if isinstance(v, Term) and v.sort != 'I':
                    a = self.concretize(st, off); return self.load(st, Ptr(p.obj, a), ty)
        else:
            srt = 'R' if self.real else 'F'
            if self.real and any(isinstance(v, float) for _, v in vals):
                a = self.concretize(st, off); return self.load(st, Ptr(p.obj, a), ty)
        # group equal values
        r = vals[-1][1]
        for a, v in reversed(vals[:-1]):
            r = T.ite(T.eq(off, a), v, r, srt)
        return r

    def store(self, st, p, v, n):
        o, off = self.chk(st, p, n, 'write')
        if not isinstance(off, int):
            if o.size > 65536:
                if o.owner != st.token: o = o.clone(st.token); st.mem[p.obj] = o
                q = self.freeze(o); o.cells = {}; o.lazy = None; o.back = ('st', off, n, v, q); return
            off = self.concretize(st, off)
        if o.kind == 'const': self.memerr(st, 'write to constant')
        if o.owner != st.token:
            o = o.clone(st.token); st.mem[p.obj] = o
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v); return
        self.clear(o, off, n)
        cells[off] = (n, v)

    def clear(self, o, off, n):
        cells = o.cells
        if not cells: return
        # a cell starting before and overlapping
        for d in range(1, 16):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    vb = val_bytes(c[1], c[0])
                    del cells[off - d]
                    for i in range(c[0]):
                        a = off - d + i
                        if a < off or a >= off + n: cells[a] = (1, vb[i])
                break
        if n > len(cells):
            ks = [k for k in cells if off <= k < off + n]
        else:
            ks = [k for k in range(off, off + n) if k in cells]
        for k in ks:
            c = cells.pop(k)
            if k + c[0] > off + n:
                vb = val_bytes(c[1], c[0])
                for i in range(off + n - k, c[0]): cells[k + i] = (1, vb[i])

    def memcpy(self, st, d, s, n):
        if n == 0: return
        so, soff = self.chk(st, s, n, 'read')
        do, doff = self.chk(st, d, n, 'write')
        if not isinstance(soff, int): soff = self.concretize(st, soff); so, soff = self.chk(st, Ptr(s.obj, soff), n, 'read')
        if not isinstance(doff, int): doff = self.concretize(st, doff)
        items = []
        if n > 65536 and (so.lazy is not None or so.zero or so.back is not None or do.back is not None):
            src = self.freeze(so); prev = self.freeze(do)
            do = self.wobj(st, d.obj); do.cells = {}; do.lazy = None; do.zero = False
            do.back = ('cp', src, doff - soff, doff, doff + n, prev); return
        if so.back is not None:
            unit = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            for i in range(0, n, unit): items.append((i, unit, self.backload(st, so, soff + i, unit, P.DOUBLE if unit == 8 else P.I[unit * 8])))
        elif so.lazy is not None:
            # copy lazily by 8-byte (or smaller) units
            unit = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            for i in range(0, n, unit):
                v = self.loadslow(so, soff + i, unit) if (soff + i) not in so.cells else so.cells[soff + i][1]
                items.append((i, unit, v))
        else:
            cells = so.cells
            if n > 4 * len(cells):
                ks = sorted(k for k in cells if soff - 16 < k < soff + n)
            else:
                ks = [k for k in range(soff - 15, soff + n) if k in cells]
            pos = soff
            for k in ks:
                c = cells[k]
                if k + c[0] <= soff: continue
                if k < soff or k + c[0] > soff + n:
                    vb = val_bytes(c[1], c[0])
                    for i in range(c[0]):
                        if soff <= k + i < soff + n: items.append((k + i - soff, 1, vb[i]))
                else:
                    items.append((k - soff, c[0], c[1]))
        dw = self.wobj(st, d.obj)
        self.clear(dw, doff, n)
        if so.zero or (dw.zero and not so.zero) or dw.lazy is not None or dw.back is not None:
            covered = set()
            for i, m, v in items: covered.update(range(i, i + m))
            for i in range(n):
                if i not in covered: dw.cells[doff + i] = (1, 0 if so.zero else UNDEF)
        for i, m, v in items: dw.cells[doff + i] = (m, v)

    def memset(self, st, d, b, n):
        if n == 0: return
        o, off = self.chk(st, d, n, 'write')
        if not isinstance(off, int): off = self.concretize(st, off)
        o = self.wobj(st, d.obj)
        if b == 0 and off == 0 and n == o.size:
            o.cells = {}; o.zero = True; o.lazy = None; o.back = None; return
        self.clear(o, off, n)
        i = 0
        while i < n:
            if type(b) is int and (off + i) % 8 == 0 and n - i >= 8:
                o.cells[off + i] = (8, int.from_bytes(bytes([b & 255]) * 8, 'little')); i += 8
            elif type(b) is int and (off + i) % 4 == 0 and n - i >= 4:
                o.cells[off + i] = (4, int.from_bytes(bytes([b & 255]) * 4, 'little')); i += 4
            else:
                o.cells[off + i] = (1, b); i += 1

    def cstring(self, st, p):
        """bytes of a NUL terminated string; symbolic bytes stay terms"""
        out = []
        off = p.off
        while True:
            b = self.load(st, Ptr(p.obj, off), P.I[8])
            if isinstance(b, Undef): self.memerr(st, 'read of uninitialised string byte')
            if isinstance(b, Term):
                z = self.eqc(b, 0)
                if self.decide(st, z): break
            elif b == 0: break
            out.append(b); off += 1
        return out

    def pystr(self, st, p):
        bs = self.cstring(st, p)
        return bytes(b if isinstance(b, int) else 63 for b in bs).decode('latin1')

    def eqc(self, t, c):
        if t.sort == 'I': return T.eq(t, c if c < 2**31 else c)
        return T.bvcmp('bveq', t, c)

    # ------------------------------------------------------------ decisions
    def decide(self, st, cond):
        if cond is True or cond is False: return cond
        if isinstance(cond, Undef): self.memerr(st, 'branch on uninitialised value')
        if type(cond) is int: return bool(cond)
        f = st.facts.get(cond.id)
        if f is not None: return f
        n = T.not_(cond)
        f = st.facts.get(n.id)
        if f is not None: return not f
        if cond.op == 'and':
            # decide conjuncts first when some is already known false
            for c in cond.args:
                if st.facts.get(c.id) is False or st.facts.get(T.not_(c).id) is True: return False
        if cond.op == 'not' and cond.args[0].op == 'and':
            for c in cond.args[0].args:
                if st.facts.get(c.id) is False or st.facts.get(T.not_(c).id) is True: return True
        r1 = solve.feasible(st.pc, cond, self.feas_timeout)
        if r1 == 'unsat':
            st.facts[cond.id] = False; return False
        r2 = solve.feasible(st.pc, n, self.feas_timeout)
        if r2 == 'unsat':
            st.facts[cond.id] = True; return True
        raise Fork(cond)

    def concretize(self, st, term):
        if not isinstance(term, Term): return term
        for v in st.extra.get(('conc', term.id), ()):
            if self.decide(st, T.eq(term, v) if term.sort == 'I' else T.bvcmp('bveq', term, v)): return v
        n = 0
        while True:
            n += 1
            if n > 600: raise EngineError('concretisation of an unbounded value')
            x = term
            r, v = solve.feasible(st.pc, True, 5000, want_model=term)
            if r != 'sat': raise EngineError('cannot concretise (%s)' % r)
            v = v.as_long()
            l = list(st.extra.get(('conc', term.id), ())) + [v]
            st.extra[('conc', term.id)] = l
            if self.decide(st, T.eq(term, v) if term.sort == 'I' else T.bvcmp('bveq', term, v)): return v

    def assume_fact(self, st, cond, val):
        if isinstance(cond, Term):
            st.facts[cond.id] = val
            c = cond if val else T.not_(cond)
            if isinstance(c, Term):
                st.pc.append(c); st.facts[c.id] = True
                if c.op == 'and':
                    for x in c.args: st.facts[x.id] = True

    # ------------------------------------------------------------ integer ops
    def toI(self, v, n):
        """signed mathematical view"""
        if isinstance(v, Term):
            if v.sort == 'I': return v
            if v.sort == 'B': return T.ite(v, 1 if n > 1 else -1, 0, 'I')
            if isinstance(v.sort, int): return T.mk('bv2int', (v,), 'I', -2.0**(n - 1), 2.0**(n - 1) - 1)
            raise Unsupported('int op on %s' % v.sort)
        if isinstance(v, (Fraction, float)):
            return sx(d2bits(v), n)
        return sx(v, n)

    def toBV(self, v, n):
        if isinstance(v, Term):
            if isinstance(v.sort, int): return v
            if v.sort == 'B': return T.ite(v, 1, 0, n)
            if v.sort == 'I': return T.mk('int2bv', (v,), n)
            if v.sort == 'F': return T.mk('f2bits', (v,), 64)
            raise Unsupported('bv op on %s' % v.sort)
        if isinstance(v, (Fraction, float)): return d2bits(v)
        return v

    def isbv(self, a, b):
        for x in (a, b):
            if isinstance(x, Term) and isinstance(x.sort, int): return True
            if isinstance(x, Term) and x.sort == 'F': return True
        if self.intmode == 'BV':
            for x in (a, b):
                if isinstance(x, Term) and x.sort == 'I': return False
            return True
        return False

    def wrapI(self, st, r, n):
        lo, hi = -2**(n - 1), 2**(n - 1) - 1
        if not isinstance(r, Term):
            return r & (2**n - 1)
        if r.lo >= lo and r.hi <= hi: return r
        if self.decide(st, T.and_(T.le(lo, r), T.le(r, hi))): return r
        # wrap once or more
        return T.add(T.imod(T.add(r, 2**(n - 1)), 2**n), -2**(n - 1))

    def unsI(self, st, a, n):
        """unsigned view of a signed term"""
        if not isinstance(a, Term): return a & (2**n - 1)
        if a.lo >= 0: return a
        return T.ite(T.lt(a, 0), T.add(a, 2**n), a, 'I')

    def ptrint(self, st, v):
        """concrete address of a pointer value"""
        if isinstance(v, Ptr):
            b = self.bases.get(v.obj)
            if b is None:
                o = self.getobj(st, v.obj)
                b = self.nextbase; self.nextbase += (o.size + 63) // 64 * 64 + 64
                self.bases[v.obj] = b
            off = v.off
            return (b + off) & (2**64 - 1) if isinstance(off, int) else T.add(off, b)
        if isinstance(v, FnPtr):
            b = self.bases.get(v)
            if b is None:
                b = self.nextbase; self.nextbase += 64; self.bases[v] = b
            return b
        return v

    def binop(self, st, op, a, b, n):
        if type(a) is int and type(b) is int:
            return INTOPS[op](a, b, n)
        if isinstance(a, Undef) or isinstance(b, Undef):
            if op == 'and' and (a == 0 or b == 0): return 0
            if op == 'mul' and (a == 0 or b == 0): return 0
            return partial_op(op, a, b, n)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrop(st, op, a, b, n)
        if n == 1:
            a = bool(a) if type(a) is int else a
            b = bool(b) if type(b) is int else b
            if op == 'and': r = T.and_(a, b)
            elif op == 'or': r = T.or_(a, b)
            elif op in ('xor', 'add', 'sub'): r = T.xor_(a, b)
            else: raise Unsupported('i1 ' + op)
            return int(r) if isinstance(r, bool) else r
        if self.isbv(a, b):
            return self.bvbin(st, op, self.toBV(a, n), self.toBV(b, n), n)
        a = self.toI(a, n); b = self.toI(b, n)
        def out(r): return r & (2**n - 1) if not isinstance(r, Term) else r
        if op == 'add': return self.wrapI(st, T.add(a, b), n)
        if op == 'sub': return self.wrapI(st, T.sub(a, b), n)
        if op == 'mul': return self.wrapI(st, T.mul(a, b) if isinstance(a, Term) or isinstance(b, Term) else a * b, n)
        if op == 'shl':
            if isinstance(b, Term): b = self.concretize(st, b); return self.binop(st, op, out(a), out(b), n)
            return self.wrapI(st, T.scale(2**b, a), n)
        if op in ('lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            if isinstance(b, Term):
                b = self.concretize(st, b)
                return self.binop(st, op, out(a), out(b), n)
            if op == 'ashr': return out(T.idiv(a, 2**b))
            if op == 'lshr': return out(T.idiv(self.unsI(st, a, n), 2**b))
            if b == 0: self.memerr(st, 'integer division by zero')
            if op == 'udiv': return self.wrapI(st, T.idiv(self.unsI(st, a, n), b & (2**n - 1)), n)
            if op == 'urem': return self.wrapI(st, T.imod(self.unsI(st, a, n), b & (2**n - 1)), n)
            if a.lo >= 0 or self.decide(st, T.le(0, a)):
                q = T.idiv(a, abs(b)); r = T.imod(a, abs(b))
            else:
                q = T.neg(T.idiv(T.neg(a), abs(b))); r = T.neg(T.imod(T.neg(a), abs(b)))
            if b < 0: q = T.neg(q)
            return out(q if op == 'sdiv' else r)
        if op == 'xor':
            if b == -1: return out(T.sub(-1, a))
            if a == -1: return out(T.sub(-1, b))
        if op == 'and':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                m = b & (2**n - 1)
                if m & (m + 1) == 0: return out(T.imod(a, m + 1))
                if m == (-(m & -m)) & (2**n - 1):      # mask of high bits: clears the low k bits
                    low = (m & -m)
                    return out(T.sub(a, T.imod(a, low)))
        if op == 'or':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b >= 0:
                # disjoint?
                k = b.bit_length()
                if a.op == 'lin' and a.lo >= 0 and all(c % (1 << k) == 0 for _, c in a.args[0]) and a.args[1] % (1 << k) == 0:
                    return out(T.add(a, b))
        # enumerate one side
        t = a if isinstance(a, Term) else b
        v = self.concretize(st, t)
        if t is a: return self.binop(st, op, out(v), out(b), n)
        return self.binop(st, op, out(a), out(v), n)

    def bvbin(self, st, op, a, b, n):
        if type(a) is int and type(b) is int: return INTOPS[op](a, b, n)
        m = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'udiv': 'bvudiv', 'sdiv': 'bvsdiv', 'urem': 'bvurem', 'srem': 'bvsrem',
             'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr', 'and': 'bvand', 'or': 'bvor', 'xor': 'bvxor'}[op]
        if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and b == 0: return a
        if op in ('add', 'or', 'xor') and a == 0: return b
        if op == 'and' and (a == 0 or b == 0): return 0
        if op == 'and' and b == 2**n - 1: return a
        if op == 'mul' and (a == 0 or b == 0): return 0
        if op == 'mul' and b == 1: return a
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if self.decide(st, T.bvcmp('bveq', b, 0) if isinstance(b, Term) else b == 0): self.memerr(st, 'integer division by zero')
        return T.bvop(m, n, a, b)

    def ptrop(self, st, op, a, b, n):
        if op == 'sub':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                r = T.sub(a.off, b.off)
                return r & (2**64 - 1) if isinstance(r, int) else r
            if isinstance(a, Ptr) and not isinstance(b, (Ptr, FnPtr)):
                return self.padd(st, a, b, -1)
        if op == 'add':
            if isinstance(a, Ptr) and not isinstance(b, (Ptr, FnPtr)): return self.padd(st, a, b, 1)
            if isinstance(b, Ptr) and not isinstance(a, (Ptr, FnPtr)): return self.padd(st, b, a, 1)
        x, y = self.ptrint(st, a), self.ptrint(st, b)
        if op == 'and' and isinstance(a, Ptr) and type(b) is int and type(x) is int:
            r = x & b
            if r > 4096 and abs(x - r) <= 64: return Ptr(a.obj, a.off - (x - r))
            return r
        return self.binop(st, op, x, y, n)

    def padd(self, st, p, d, sign):
        if type(d) is int: d = sx(d, 64)
        elif isinstance(d, Term) and isinstance(d.sort, int):
            d = T.mk('bv2int', (d,), 'I', -2.0**63, 2.0**63)
        if sign < 0: d = T.neg(d)
        return Ptr(p.obj, T.add(p.off, d))

    def icmp(self, st, pred, a, b, n, isptr):
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's': a = sx(a, n); b = sx(b, n)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            if pred in ('eq', 'ne') and (isinstance(a, PU) or isinstance(b, PU)):
                ka, va = known_bits(a, n); kb, vb = known_bits(b, n)
                if (va ^ vb) & ka & kb: return int(pred == 'ne')
            return UNDEF
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if pred in ('eq', 'ne'):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.obj != b.obj: r = False
                    else: r = T.eq(a.off, b.off)
                elif isinstance(a, FnPtr) or isinstance(b, FnPtr): r = a is b
                else:
                    # pointer against integer
                    i = a if not isinstance(a, Ptr) else b
                    r = False if type(i) is int and i < 65536 else None
                    if r is None:
                        r = self.ptrint(st, a) == self.ptrint(st, b)
                if pred == 'ne': r = T.not_(r)
                return int(r) if isinstance(r, bool) else r
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                x, y = a.off, b.off
                if isinstance(x, int) and isinstance(y, int):
                    p = pred[1:]
                    return int(x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)
                return self.icmp(st, 's' + pred[1:], x, y, 64, False)
            return self.icmp(st, pred, self.ptrint(st, a), self.ptrint(st, b), 64, False)
        if n == 1:
            a = bool(a) if type(a) is int else a
            b = bool(b) if type(b) is int else b
            r = T.xor_(a, b)
            if pred == 'eq': r = T.not_(r)
            elif pred != 'ne': raise Unsupported('i1 cmp ' + pred)
            return int(r) if isinstance(r, bool) else r
        if isinstance(a, (Fraction, float)): a = d2bits(a)
        if isinstance(b, (Fraction, float)): b = d2bits(b)
        if isinstance(a, Frag): a = self.fragbv(a)
        if isinstance(b, Frag): b = self.fragbv(b)
        if self.isbv(a, b):
            a = self.toBV(a, n); b = self.toBV(b, n)
            if pred == 'eq': r = True if a is b else T.bvcmp('bveq', a, b)
            elif pred == 'ne': r = False if a is b else T.not_(T.bvcmp('bveq', a, b))
            else:
                s, p = pred[0], pred[1:]
                if p in ('gt', 'ge'):
                    a, b = b, a; p = 'lt' if p == 'gt' else 'le'
                r = T.bvcmp('bv' + s + p, a, b)
            return r
        if isinstance(a, Term) and a.sort == 'R' or isinstance(b, Term) and b.sort == 'R':
            raise Unsupported('integer comparison of a real cell')
        a = self.toI(a, n); b = self.toI(b, n)
        if pred == 'eq': r = T.eq(a, b)
        elif pred == 'ne': r = T.ne(a, b)
        else:
            s, p = pred[0], pred[1:]
            if s == 'u':
                na = not isinstance(a, Term); nb = not isinstance(b, Term)
                if nb and b >= 0 and p in ('lt', 'le'):
                    c = T.lt(a, b) if p == 'lt' else T.le(a, b)
                    r = T.and_(T.le(0, a), c)
                    return int(r) if isinstance(r, bool) else r
                if nb and b >= 0:
                    c = T.lt(a, b) if p == 'ge' else T.le(a, b)
                    r = T.not_(T.and_(T.le(0, a), c))
                    return int(r) if isinstance(r, bool) else r
                if na and a >= 0:
                    # a ult b  <=> not (b ule a)
                    q = {'lt': 'le', 'le': 'lt', 'gt': 'ge', 'ge': 'gt'}
                    inner = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[p]
                    return self.icmp(st, 'u' + inner, b, a, n, False)
                a = self.unsI(st, a, n); b = self.unsI(st, b, n)
            if p == 'lt': r = T.lt(a, b)
            elif p == 'le': r = T.le(a, b)
            elif p == 'gt': r = T.lt(b, a)
            else: r = T.le(b, a)
        return int(r) if isinstance(r, bool) else r

    # ------------------------------------------------------------ float ops
    def fbin(self, st, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if self.real:
            fa = isinstance(a, float); fb = isinstance(b, float)
            if type(a) is int: a = recog_const(bits2d(a))
            if type(b) is int: b = recog_const(bits2d(b))
            if fa or fb:
                return self.nonfin(st, op, a, b)
            if op == 'fadd': return T.add(a, b)
            if op == 'fsub': return T.sub(a, b)
            if op == 'fmul':
                return T.mul(a, b) if isinstance(a, Term) or isinstance(b, Term) else a * b
            if op == 'fdiv': return self.rdiv(st, a, b)
            if op == 'frem':
                if not isinstance(a, Term) and not isinstance(b, Term):
                    return a - b * math.trunc(a / b)
                q = self.rdiv(st, a, b)
                if isinstance(q, float): return NANF
                return T.sub(a, T.mul(b, T.to_real(T.trunc_(q))) if isinstance(b, Term) else T.scale(b, T.to_real(T.trunc_(q))))
        else:
            if isinstance(a, float) and isinstance(b, float):
                try:
                    if op == 'fadd': return a + b
                    if op == 'fsub': return a - b
                    if op == 'fmul': return a * b
                    if op == 'fdiv':
                        if b == 0:
                            return NANF if a == 0 or a != a else math.copysign(T.INF, a) * math.copysign(1, b)
                        return a / b
                    if op == 'frem': return math.fmod(a, b) if b != 0 else NANF
                except OverflowError:
                    return T.INF
            if op == 'frem': raise Unsupported('frem')
            return T.fop(op, a, b)

    def rdiv(self, st, a, b):
        if isinstance(b, Term):
            if b.lo > 0 or b.hi < 0 or not self.decide(st, T.eq(b, Fraction(0))):
                r = T.div(a, b)
                c = canon.match(r)
                return r if c is None else c
            b = Fraction(0)
        if b == 0:
            if not isinstance(a, Term):
                return NANF if a == 0 else (T.INF if a > 0 else -T.INF)
            if self.decide(st, T.eq(a, Fraction(0))): return NANF
            return -T.INF if self.decide(st, T.lt(a, Fraction(0))) else T.INF
        return T.div(a, b)

    def nonfin(self, st, op, a, b):
        """real mode arithmetic with an infinite or NaN operand"""
        def sgn(x):
            if isinstance(x, float): return x
            if not isinstance(x, Term): return float((x > 0) - (x < 0))
            if self.decide(st, T.eq(x, Fraction(0))): return 0.0
            return -1.0 if self.decide(st, T.lt(x, Fraction(0))) else 1.0
        if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b): return NANF
        if op == 'fadd':
            return a + b if isinstance(a, float) and isinstance(b, float) else (a if isinstance(a, float) else b)
        if op == 'fsub':
            return a - b if isinstance(a, float) and isinstance(b, float) else (a if isinstance(a, float) else -b)
        if op == 'fmul': return sgn(a) * sgn(b)
        if op == 'fdiv':
            if isinstance(b, float):
                return NANF if isinstance(a, float) else Fraction(0)
            s = sgn(b)
            return a if s >= 0 else -a
        return NANF

    def fcmp(self, st, pred, a, b):
        if pred == 'true': return 1
        if pred == 'false': return 0
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if type(a) is int: a = self.conv(a, P.DOUBLE)
        if type(b) is int: b = self.conv(b, P.DOUBLE)
        if self.real:
            nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
            if pred == 'ord': return int(not nan)
            if pred == 'uno': return int(nan)
            if nan: return 1 if pred[0] == 'u' else 0
            p = pred[1:]
            if isinstance(a, float) or isinstance(b, float):
                x = a if isinstance(a, float) else 0.0
                y = b if isinstance(b, float) else 0.0
                r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
                return int(r)
            if isinstance(a, Term) and a.sort == 'R':
                c = canon.match(a); a = a if c is None else c
            if isinstance(b, Term) and b.sort == 'R':
                c = canon.match(b); b = b if c is None else c
            # real mode stands for runs without overflow: no computed value reaches 1e300 (DBL_MAX is used as "plus infinity")
            big = lambda v: isinstance(v, Fraction) and abs(v) >= HUGE
            if big(a) != big(b) and (isinstance(a, Term) or isinstance(b, Term)):
                x = a if big(a) else 0; y = b if big(b) else 0
                return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
            r = T.eq(a, b) if p == 'eq' else T.ne(a, b) if p == 'ne' else T.lt(a, b) if p == 'lt' else T.le(a, b) if p == 'le' else T.lt(b, a) if p == 'gt' else T.le(b, a)
            return int(r) if isinstance(r, bool) else r
        if isinstance(a, float) and isinstance(b, float):
            nan = a != a or b != b
            if pred == 'ord': return int(not nan)
            if pred == 'uno': return int(nan)
            if nan: return 1 if pred[0] == 'u' else 0
            p = pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        def isn(x): return (x != x) if isinstance(x, float) else T.mk('fisnan', (x,), 'B')
        if pred == 'ord': return T.and_(T.not_(isn(a)), T.not_(isn(b)))
        if pred == 'uno': return T.or_(isn(a), isn(b)) if a is not b else isn(a)
        p = pred[1:]
        u = pred[0] == 'u'
        def oc(p, a, b):
            if p == 'eq': return T.fcmp('feq', a, b)
            if p == 'lt': return T.fcmp('flt', a, b)
            if p == 'le': return T.fcmp('fle', a, b)
            if p == 'gt': return T.fcmp('flt', b, a)
            if p == 'ge': return T.fcmp('fle', b, a)
            if p == 'ne': return T.or_(T.fcmp('flt', a, b), T.fcmp('flt', b, a))
        if not u: return oc(p, a, b)
        # unordered-or-p = not (ordered and not p)
        inv = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[p]
        r = T.not_(oc(inv, a, b))
        return r

    def fptoint(self, st, a, n, signed):
        if isinstance(a, Undef): return UNDEF
        indef = (1 << (n - 1))
        if isinstance(a, float):
            if a != a or a in (T.INF, -T.INF): self.notes.add('float-to-int of non-finite'); return indef
            v = int(a)
            if n == 8 or n == 16: return v & ((1 << n) - 1)
            if not (-(1 << 63) <= v < (1 << 64)): return indef
            if n == 32 and signed and not (-(1 << 31) <= v < (1 << 31)): return indef
            return v & ((1 << n) - 1)
        if isinstance(a, (Fraction, int)):
            v = math.trunc(a)
            if signed and not (-(1 << (n - 1)) <= v < (1 << (n - 1))): return indef
            return v & ((1 << n) - 1)
        if self.real:
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            if not (a.lo > lo - 1 and a.hi < hi + 1):
                if not self.decide(st, T.and_(T.lt(Fraction(lo - 1), a), T.lt(a, Fraction(hi + 1)))):
                    self.notes.add('float-to-int overflow')
                    return indef
            r = T.trunc_(a)
            if not signed: r = self.wrapI(st, r, n)
            return r if isinstance(r, Term) else r & ((1 << n) - 1)
        # IEEE
        lo, hi = (-float(1 << (n - 1)), float(1 << (n - 1))) if signed else (-1.0, float(1 << n))
        if n <= 32 and signed:
            inr = T.and_(T.fcmp('flt', lo - 1, a), T.fcmp('flt', a, hi))
        elif signed:
            inr = T.and_(T.fcmp('fle', lo, a), T.fcmp('flt', a, hi))
        else:
            inr = T.and_(T.fcmp('flt', lo, a), T.fcmp('flt', a, hi))
        if not self.decide(st, inr):
            self.notes.add('float-to-int overflow')
            return indef
        return T.mk('ftosbv' if signed else 'ftoubv', (a,), n)

    def inttofp(self, st, a, n, signed):
        if isinstance(a, Undef): return UNDEF
        if type(a) is int:
            v = sx(a, n) if signed and n > 1 else a
            return Fraction(v) if self.real else float(v)
        if isinstance(a, Term) and a.sort == 'B':
            one = Fraction(1) if self.real else 1.0
            return T.ite(a, one if not signed else -one, one * 0, 'R' if self.real else 'F')
        if self.real:
            a = self.toI(a, n)
            if not signed: a = self.unsI(st, a, n)
            return T.to_real(a)
        a = self.toBV(a, n)
        return T.mk('sbvtof' if signed else 'ubvtof', (a,), 'F')

    # ------------------------------------------------------------ main loop
    def push(self, st, fn, args, ret, normal=None, unwind=None):
        if fn.code is None: self.compile(fn)
        fn.hits += 1; self.hits[fn.name] = 1
        f = Frame(); f.fn = fn; f.code = fn.code; f.blk = fn.order[0]; f.prev = None; f.pc = 0
        regs = {}
        f.allocas = []
        for (t, nm, byval), a in zip(fn.params, args):
            if byval:
                p = self.alloc(st, byval.size() if isinstance(byval, P.Ty) else self.getobj(st, a.obj).size - a.off, 'stack', 'byval')
                self.memcpy(st, p, a, self.getobj(st, p.obj).size)
                f.allocas.append(p.obj)
                a = p
            regs[nm] = a
        f.regs = regs; f.ret = ret; f.normal = normal; f.unwind = unwind
        st.frames.append(f)
        if len(st.frames) > 400: raise EngineError('call depth')

    def do_return(self, st, v):
        f = st.frames.pop()
        for o in f.allocas:
            st.mem.pop(o, None)
        if not st.frames:
            raise PathEnd('ok')
        c = st.frames[-1]
        if f.ret is not None: c.regs[f.ret] = v
        if f.normal is not None: self.goto(st, c, f.normal)
        else: c.pc += 1

    def goto(self, st, fr, label):
        code = fr.code[label]
        phis = code[0]
        if phis:
            prev = fr.blk
            regs = fr.regs
            vals = [(d, g[prev](st, regs)) for d, g in phis]
            for d, v in vals: regs[d] = v
        fr.prev = fr.blk; fr.blk = label; fr.pc = 1

    def unwind(self, st, exc):
        """exc = (Ptr, typeinfo gid name)"""
        st.exc = exc
        while st.frames:
            f = st.frames.pop()
            for o in f.allocas: st.mem.pop(o, None)
            if not st.frames: break
            if f.unwind is not None:
                c = st.frames[-1]
                self.goto(st, c, f.unwind)
                return
        raise PathEnd('uncaught', 'uncaught exception ' + exc[1])

    def raise_here(self, st, exc, unwind):
        """exception raised by a model called from the current frame"""
        if unwind is not None:
            st.exc = exc
            self.goto(st, st.frames[-1], unwind); return
        f = st.frames[-1]
        # treat as if a callee frame without cleanup unwound
        dummy = Frame(); dummy.allocas = []; dummy.unwind = None
        st.frames.append(dummy)
        self.unwind(st, exc)

    def run(self, fname, args=(), init=None):
        r = self.resolve(self.modules[0], fname)
        if r[0] != 'f': raise EngineError('no function ' + fname)
        st = init.copy() if init else State()
        self.push(st, r[1], list(args), None)
        work = [st]
        while work:
            st = work.pop()
            self.pathid += 1
            self.exec_state(st, work)
            if len(self.paths) > self.max_paths:
                raise EngineError('path limit %d' % self.max_paths)
        return self.paths

    def boot(self):
        """run the static constructors of every module concretely"""
        st = State()
        for m in self.modules:
            for c in sorted(m.ctors):
                name = c[1] if isinstance(c, tuple) else c
                r = self.resolve(m, name)
                if r[0] != 'f': continue
                self.push(st, r[1], [], None)
                self.boot_state = None
                work = []
                n = len(self.paths)
                self.exec_state(st, work)
                if work or self.paths[n][0] not in ('return', 'done', 'ok'):
                    raise EngineError('static constructor %s: %r' % (name, self.paths[n]))
                st = self.last_state.copy()
        self.paths = []; self.obligations = []; self.steps = 0
        return st

    def exec_state(self, st, work):
        steps = 0
        try:
            while True:
                fr = st.frames[-1]
                code = fr.code[fr.blk]
                try:
                    while True:
                        steps += 1
                        if code[fr.pc](st, fr):
                            fr2 = st.frames[-1]
                            if fr2 is not fr: fr = fr2
                            code = fr.code[fr.blk]
                            if steps & 0xfff == 0 or steps > self.max_steps:
                                if self.steps + steps > self.max_steps: raise EngineError('step limit')
                                if self.deadline and time.time() > self.deadline: raise EngineError('deadline')
                        else:
                            fr.pc += 1
                except Fork as f:
                    st2 = st.copy()
                    self.assume_fact(st, f.cond, True)
                    self.assume_fact(st2, f.cond, False)
                    work.append(st2)
                    if self.deadline and time.time() > self.deadline: raise EngineError('deadline')
        except PathEnd as e:
            self.steps += steps
            self.paths.append((e.status, e.msg, len(st.pc)))
            if e.status in ('error', 'abort', 'uncaught', 'exit', 'terminate') and e.status not in self.expected_status:
                where = [f.fn.name for f in st.frames][-6:]
                self.obligations.append({'kind': 'crash', 'label': '%s: %s' % (e.status, e.msg), 'pc': list(st.pc), 'neg': True, 'where': where, 'status': e.status})
            self.last_state = st
        except Unsupported as e:
            raise EngineError('unsupported: %s (in %s)' % (e, st.frames[-1].fn.name if st.frames else '?'))

    # ------------------------------------------------------------ compilation
    def compile(self, fn):
        fn.mod.parse_body(fn)
        code = {}
        for lab in fn.order:
            phis = []; ins = []
            for s in fn.blocks[lab]:
                Tk = P.Toks(s, fn.mod)
                dst = None
                if Tk.kind() == 'loc' and Tk.l[1][1] == '=':
                    dst = P.lname(Tk.next()); Tk.next()
                op = Tk.peek()
                if op == 'phi':
                    Tk.next()
                    phis.append((dst, self.c_phi(Tk, fn)))
                else:
                    ins.append(self.c_ins(Tk, dst, fn, s))
            code[lab] = [phis] + ins
        # entry block has no phis: entry pc must be 1
        fn.code = code
        fn.blocks = None
        e = fn.order[0]
        code[e][0] = None
        code[e] = [lambda st, fr: None] + code[e][1:]

    def c_phi(self, Tk, fn):
        ty = P.parse_type(Tk)
        d = {}
        while True:
            Tk.expect('[')
            v = P.parse_value(Tk, ty); Tk.expect(',')
            lab = P.lname(Tk.next()); Tk.expect(']')
            g = self.getter(v, ty, fn)
            d[lab] = (lambda st, regs, g=g: g(regs))
            if not Tk.eat(','): break
        return d

    def getter(self, v, ty, fn):
        if v[0] == 'r':
            n = v[1]
            return lambda regs: regs[n]
        mod = fn.mod
        if v[0] in ('c', 'null', 'undef', 'zero', 'agg', 'g', 'ce', 'str'):
            x = self.constval(v, ty, mod)
            return lambda regs: x
        raise EngineError('operand %r' % (v,))

    def c_ins(self, Tk, dst, fn, s):
        op = Tk.next()
        m = getattr(self, 'c_' + op, None)
        E = self
        if op in ('tail', 'musttail', 'notail'):
            Tk.expect('call'); return self.c_call(Tk, dst, fn)
        if op in INTOPS:
            dis = False
            while Tk.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                if Tk.next() == 'disjoint': dis = True
            ty = P.parse_type(Tk); a = self.getter(P.parse_value(Tk, ty), ty, fn); Tk.expect(','); b = self.getter(P.parse_value(Tk, ty), ty, fn)
            if ty.k == 'vector': 
                n = ty.el.n
                def f(st, fr):
                    r = fr.regs
                    fr.regs[dst] = [E.binop(st, op, x, y, n) for x, y in zip(a(r), b(r))]
                return f
            n = ty.n
            if dis: op = 'add'
            fast = INTOPS[op]; binop = self.binop
            def f(st, fr):
                r = fr.regs
                x = a(r); y = b(r)
                if type(x) is int and type(y) is int: r[dst] = fast(x, y, n)
                else: r[dst] = binop(st, op, x, y, n)
            return f
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while Tk.peek() in FMF: Tk.next()
            ty = P.parse_type(Tk); a = self.getter(P.parse_value(Tk, ty), ty, fn); Tk.expect(','); b = self.getter(P.parse_value(Tk, ty), ty, fn)
            isf = ty.k == 'float'
            if ty.k == 'vector':
                def f(st, fr):
                    r = fr.regs
                    r[dst] = [E.fbin(st, op, x, y) for x, y in zip(a(r), b(r))]
                return f
            def f(st, fr):
                r = fr.regs
                v = E.fbin(st, op, a(r), b(r))
                if isf: v = E.round32(v)
                r[dst] = v
            return f
        if op == 'fneg':
            while Tk.peek() in FMF: Tk.next()
            ty, v = P.parse_tv(Tk); a = self.getter(v, ty, fn)
            def f(st, fr):
                fr.regs[dst] = E.fneg(a(fr.regs))
            return f
        if op == 'icmp':
            pred = Tk.next()
            if pred == 'samesign': pred = Tk.next()
            ty = P.parse_type(Tk); a = self.getter(P.parse_value(Tk, ty), ty, fn); Tk.expect(','); b = self.getter(P.parse_value(Tk, ty), ty, fn)
            n = ty.n if ty.k == 'int' else 64
            isptr = ty.k == 'ptr'
            icmp = self.icmp
            def f(st, fr):
                r = fr.regs
                r[dst] = icmp(st, pred, a(r), b(r), n, isptr)
            return f
        if op == 'fcmp':
            while Tk.peek() in FMF: Tk.next()
            pred = Tk.next()
            ty = P.parse_type(Tk); a = self.getter(P.parse_value(Tk, ty), ty, fn); Tk.expect(','); b = self.getter(P.parse_value(Tk, ty), ty, fn)
            def f(st, fr):
                r = fr.regs
                r[dst] = E.fcmp(st, pred, a(r), b(r))
            return f
        if m is None: raise EngineError('opcode %s in %s: %s' % (op, fn.name, s))
        return m(Tk, dst, fn)

    def round32(self, v):
        if self.real: return v
        if isinstance(v, float):
            return struct.unpack('<f', struct.pack('<f', v))[0] if v == v and abs(v) < 3.4e38 else v
        return T.mk('ftof32', (v,), 'F')

    def fneg(self, v):
        if isinstance(v, Undef): return v
        if isinstance(v, float): return -v
        if self.real: return T.neg(v)
        return T.fop('fneg', v)

    def c_select(self, Tk, dst, fn):
        while Tk.peek() in FMF: Tk.next()
        ct, cv = P.parse_tv(Tk); c = self.getter(cv, ct, fn); Tk.expect(',')
        ta, va = P.parse_tv(Tk); a = self.getter(va, ta, fn); Tk.expect(',')
        tb, vb = P.parse_tv(Tk); b = self.getter(vb, tb, fn)
        E = self; ty = ta.res()
        def f(st, fr):
            r = fr.regs
            cc = c(r)
            if type(cc) is int:
                r[dst] = a(r) if cc else b(r); return
            x = a(r); y = b(r)
            if x is y: r[dst] = x; return
            if isinstance(cc, Undef): r[dst] = UNDEF; return
            r[dst] = E.sel(st, cc, x, y, ty)
        return f

    def sel(self, st, c, x, y, ty):
        k = st.facts.get(c.id)
        if k is not None: return x if k else y
        if ty.k == 'int' and ty.n == 1:
            x = bool(x) if type(x) is int else x
            y = bool(y) if type(y) is int else y
            if isinstance(x, Undef) or isinstance(y, Undef):
                return x if self.decide(st, c) else y
            v = T.or_(T.and_(c, x), T.and_(T.not_(c), y))
            return int(v) if isinstance(v, bool) else v
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)) or isinstance(x, Undef) or isinstance(y, Undef) or isinstance(x, list):
            return x if self.decide(st, c) else y
        if ty.k == 'int':
            if type(x) is int and type(y) is int and x == y: return x
            if self.isbv(x, y):
                return T.ite(c, self.toBV(x, ty.n), self.toBV(y, ty.n), ty.n)
            if any(isinstance(v, (Fraction, float)) or isinstance(v, Term) and v.sort == 'R' for v in (x, y)):
                return x if self.decide(st, c) else y
            return T.ite(c, self.toI(x, ty.n), self.toI(y, ty.n), 'I')
        if ty.k in ('double', 'float'):
            x = self.conv(x, ty); y = self.conv(y, ty)
            if self.real:
                if isinstance(x, float) or isinstance(y, float) or self.split_selects:
                    return x if self.decide(st, c) else y
                return T.ite(c, x, y, 'R')
            return T.ite(c, x, y, 'F')
        return x if self.decide(st, c) else y
    split_selects = False

    def c_br(self, Tk, dst, fn):
        E = self
        if Tk.peek() == 'label':
            Tk.next(); lab = P.lname(Tk.next())
            def f(st, fr):
                E.goto(st, fr, lab); return True
            return f
        ty, v = P.parse_tv(Tk); c = self.getter(v, ty, fn)
        Tk.expect(','); Tk.expect('label'); l1 = P.lname(Tk.next()); Tk.expect(','); Tk.expect('label'); l2 = P.lname(Tk.next())
        def f(st, fr):
            x = c(fr.regs)
            if type(x) is not int: x = E.decide(st, x)
            E.goto(st, fr, l1 if x else l2)
            return True
        return f

    def c_switch(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); c = self.getter(v, ty, fn)
        Tk.expect(','); Tk.expect('label'); d = P.lname(Tk.next()); Tk.expect('[')
        cases = {}
        while not Tk.eat(']'):
            t, x = P.parse_tv(Tk); Tk.expect(','); Tk.expect('label'); cases[x[1]] = P.lname(Tk.next())
        E = self; n = ty.n
        def f(st, fr):
            x = c(fr.regs)
            if type(x) is int:
                E.goto(st, fr, cases.get(x, d)); return True
            if isinstance(x, Undef): E.memerr(st, 'switch on uninitialised value')
            for k, lab in cases.items():
                q = T.eq(x, sx(k, n)) if x.sort == 'I' else T.bvcmp('bveq', x, k)
                if E.decide(st, q):
                    E.goto(st, fr, lab); return True
            E.goto(st, fr, d); return True
        return f

    def c_ret(self, Tk, dst, fn):
        E = self
        if Tk.peek() == 'void':
            def f(st, fr):
                E.do_return(st, None); return True
            return f
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn)
        def f(st, fr):
            E.do_return(st, g(fr.regs)); return True
        return f

    def c_unreachable(self, Tk, dst, fn):
        E = self
        def f(st, fr): raise PathEnd('error', 'unreachable code reached in ' + fn.name)
        return f

    def c_alloca(self, Tk, dst, fn):
        Tk.eat('inalloca')
        ty = P.parse_type(Tk)
        cnt = None
        if Tk.eat(','):
            if Tk.peek() != 'align':
                t, v = P.parse_tv(Tk); cnt = self.getter(v, t, fn)
        E = self; size = ty.size()
        def f(st, fr):
            n = size
            if cnt is not None:
                k = cnt(fr.regs)
                if isinstance(k, Term): k = E.concretize(st, k)
                n = size * k
            p = E.alloc(st, n, 'stack', dst)
            fr.allocas.append(p.obj)
            fr.regs[dst] = p
        return f

    def c_load(self, Tk, dst, fn):
        Tk.eat('volatile'); 
        if Tk.eat('atomic'): Tk.eat('volatile')
        ty = P.parse_type(Tk); Tk.expect(',')
        pt, pv = P.parse_tv(Tk); p = self.getter(pv, pt, fn)
        E = self; load = self.load
        tr = ty.res()
        if tr.k in ('struct', 'array', 'vector'):
            def f(st, fr): fr.regs[dst] = load(st, p(fr.regs), tr)
            return f
        n = tr.size(); simple = tr.k in ('int', 'ptr') and tr.n != 1
        def f(st, fr):
            r = fr.regs
            pp = p(r)
            if type(pp) is Ptr and type(pp.off) is int:
                o = st.mem.get(pp.obj)
                if o is not None and o.alive and pp.off + n <= o.size:
                    c = o.cells.get(pp.off)
                    if c is not None and c[0] == n:
                        v = c[1]
                        if type(v) is int and not simple: v = E.conv(v, tr)
                        r[dst] = v
                        return
            r[dst] = load(st, pp, tr)
        return f

    def c_store(self, Tk, dst, fn):
        Tk.eat('volatile')
        if Tk.eat('atomic'): Tk.eat('volatile')
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn); Tk.expect(',')
        pt, pv = P.parse_tv(Tk); p = self.getter(pv, pt, fn)
        E = self; tr = ty.res(); n = tr.size()
        if tr.k in ('struct', 'array', 'vector'):
            def f(st, fr):
                E.store_agg(st, p(fr.regs), g(fr.regs), tr)
            return f
        store = self.store
        def f(st, fr):
            r = fr.regs
            store(st, p(r), g(r), n)
        return f

    def store_agg(self, st, p, v, ty):
        ty = ty.res()
        if ty.k == 'struct':
            for o, f, x in zip(ty.offsets(), ty.fields, v): self.store_agg(st, Ptr(p.obj, T.add(p.off, o)), x, f)
        elif ty.k in ('array', 'vector'):
            es = ty.el.size()
            for i, x in enumerate(v): self.store_agg(st, Ptr(p.obj, T.add(p.off, i * es)), x, ty.el)
        else: self.store(st, p, v, ty.size())

    def c_getelementptr(self, Tk, dst, fn):
        while Tk.peek() in ('inbounds', 'nuw', 'nusw'): Tk.next()
        bt = P.parse_type(Tk); Tk.expect(',')
        pt, pv = P.parse_tv(Tk); p = self.getter(pv, pt, fn)
        const = 0; dyn = []
        t = bt; first = True
        while Tk.eat(','):
            it, iv = P.parse_tv(Tk)
            if first: stride = t.size(); first = False
            else:
                t = t.res()
                if t.k == 'struct':
                    i = iv[1] if iv[0] == 'c' else 0
                    const += t.offsets()[i]; t = t.fields[i]; continue
                t = t.el; stride = t.size()
            if iv[0] == 'c': const += sx(iv[1], it.n) * stride
            elif iv[0] == 'zero': pass
            else: dyn.append((self.getter(iv, it, fn), stride, it.n))
        E = self
        if not dyn:
            def f(st, fr):
                r = fr.regs
                b = p(r)
                if type(b) is Ptr: r[dst] = Ptr(b.obj, b.off + const if type(b.off) is int else T.add(b.off, const))
                elif isinstance(b, Undef): r[dst] = UNDEF
                elif const == 0: r[dst] = b
                elif type(b) is int: r[dst] = (b + const) & (2**64 - 1)
                else: E.memerr(st, 'pointer arithmetic on ' + repr(b))
            return f
        def f(st, fr):
            r = fr.regs
            b = p(r); off = const
            for g, stride, n in dyn:
                i = g(r)
                if type(i) is int:
                    i = i - (1 << n) if i >> (n - 1) else i
                    if type(off) is int: off += i * stride
                    else: off = T.add(off, i * stride)
                elif isinstance(i, Undef):
                    r[dst] = UNDEF; return
                elif isinstance(i, (Ptr, FnPtr)):
                    i = E.ptrint(st, i); off = T.add(off, i * stride if type(i) is int else T.scale(stride, i))
                else:
                    i = E.toI(i, n)
                    off = T.add(off, T.scale(stride, i))
            if type(b) is Ptr:
                r[dst] = Ptr(b.obj, b.off + off if type(b.off) is int and type(off) is int else T.add(b.off, off))
            elif isinstance(b, Undef): r[dst] = UNDEF
            elif type(b) is int:
                r[dst] = (b + off) & (2**64 - 1) if type(off) is int else T.add(off, b)
            else: E.memerr(st, 'pointer arithmetic')
        return f

    def cast(self, Tk, fn):
        while Tk.peek() in ('nneg', 'nuw', 'nsw'): Tk.next()
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn); Tk.expect('to'); t2 = P.parse_type(Tk)
        return g, ty, t2

    def c_zext(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n, m = ty.n, t2.n
        def f(st, fr):
            v = g(fr.regs)
            if type(v) is not int: v = E.ext(st, v, n, m, False)
            fr.regs[dst] = v
        return f
    def c_sext(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n, m = ty.n, t2.n
        mask = (1 << m) - 1
        def f(st, fr):
            v = g(fr.regs)
            if type(v) is int: v = (v - (1 << n)) & mask if v >> (n - 1) else v
            else: v = E.ext(st, v, n, m, True)
            fr.regs[dst] = v
        return f
    def fragbv(self, v):
        if isinstance(v.val, Term) and v.val.sort == 'F' and v.n == 8:
            return T.mk('extract', (T.mk('f2bits', (v.val,), 64), 8 * v.i + 7, 8 * v.i), 8)
        raise Unsupported('byte of %r' % (v.val,))
    def ext(self, st, v, n, m, signed):
        if isinstance(v, Undef):
            if isinstance(v, PU) and not signed: return mkpu(m, v.k | (((1 << m) - 1) & ~((1 << n) - 1)), v.v)
            return UNDEF
        if isinstance(v, Term):
            if v.sort == 'B':
                one = (2**m - 1) if signed else 1
                if self.intmode == 'BV': return T.ite(v, one, 0, m)
                return T.ite(v, -1 if signed else 1, 0, 'I')
            if v.sort == 'I': return v if signed else self.unsI(st, v, n)
            if isinstance(v.sort, int): return T.mk('sext' if signed else 'zext', (v,), m)
            if v.sort == 'F': return T.mk('zext', (self.toBV(v, 64),), m)
        if isinstance(v, (Fraction, float)): return d2bits(v)
        if isinstance(v, Ptr): return v
        if isinstance(v, Frag):
            if isinstance(v.val, Undef): return UNDEF
            return T.mk('sext' if signed else 'zext', (self.fragbv(v),), m)
        raise Unsupported('ext of %r' % (v,))

    def c_trunc(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n, m = ty.n, t2.n
        mask = (1 << m) - 1
        def f(st, fr):
            v = g(fr.regs)
            if type(v) is int: v &= mask
            else: v = E.trunc(st, v, n, m)
            fr.regs[dst] = v
        return f
    def trunc(self, st, v, n, m):
        if isinstance(v, Undef): return mkpu(m, v.k, v.v) if isinstance(v, PU) else v
        if isinstance(v, Ptr): v = self.ptrint(st, v); return v & ((1 << m) - 1)
        if isinstance(v, (Fraction, float)): return d2bits(v) & ((1 << m) - 1)
        if v.sort == 'I':
            if m == 1: return T.ne(T.imod(v, 2), 0)
            lo, hi = -2**(m - 1), 2**(m - 1) - 1
            if v.lo >= lo and v.hi <= hi: return v
            if v.op == 'ite' and not isinstance(v.args[1], Term) : pass
            if self.decide(st, T.and_(T.le(lo, v), T.le(v, hi))): return v
            return T.add(T.imod(T.add(v, 2**(m - 1)), 2**m), -2**(m - 1))
        v = self.toBV(v, n)
        if m == 1: return T.bvcmp('bveq', T.mk('extract', (v, 0, 0), 1), 1)
        if v.op in ('zext', 'sext') and v.args[0].sort == m: return v.args[0]
        if v.op == 'zext' and v.args[0].sort < m: return T.mk('zext', (v.args[0],), m)
        return T.mk('extract', (v, m - 1, 0), m)

    def c_ptrtoint(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn)
        n = t2.n
        E = self
        def f(st, fr):
            v = g(fr.regs)
            if n < 64: v = E.trunc(st, v, 64, n) if not isinstance(v, int) else v & ((1 << n) - 1)
            fr.regs[dst] = v
        return f
    def c_inttoptr(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn)
        def f(st, fr): fr.regs[dst] = g(fr.regs)
        return f
    c_addrspacecast = c_inttoptr
    def c_bitcast(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; tr = t2.res()
        def f(st, fr):
            v = g(fr.regs)
            if isinstance(v, list) or tr.k == 'vector': raise Unsupported('vector bitcast')
            if isinstance(v, Undef): fr.regs[dst] = v; return
            if tr.k == 'int' and ty.k == 'float' and isinstance(v, (float, Fraction)): v = f2bits(v)
            fr.regs[dst] = E.conv(v, tr)
        return f
    def c_freeze(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn)
        def f(st, fr): fr.regs[dst] = g(fr.regs)
        return f
    def c_fptrunc(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self
        def f(st, fr):
            v = g(fr.regs)
            if not isinstance(v, Undef) and t2.k == 'float': v = E.round32(E.conv(v, P.DOUBLE) if type(v) is int else v)
            fr.regs[dst] = v
        return f
    def c_fpext(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn)
        def f(st, fr): fr.regs[dst] = g(fr.regs)
        return f
    def c_fptosi(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n = t2.n
        def f(st, fr): fr.regs[dst] = E.fptoint(st, g(fr.regs), n, True)
        return f
    def c_fptoui(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n = t2.n
        def f(st, fr): fr.regs[dst] = E.fptoint(st, g(fr.regs), n, False)
        return f
    def c_sitofp(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n = ty.n
        def f(st, fr): fr.regs[dst] = E.inttofp(st, g(fr.regs), n, True)
        return f
    def c_uitofp(self, Tk, dst, fn):
        g, ty, t2 = self.cast(Tk, fn); E = self; n = ty.n
        def f(st, fr): fr.regs[dst] = E.inttofp(st, g(fr.regs), n, False)
        return f

    def c_extractvalue(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn); idx = []
        while Tk.eat(','): idx.append(int(Tk.next()))
        def f(st, fr):
            x = g(fr.regs)
            for i in idx:
                if isinstance(x, Undef): break
                x = x[i]
            fr.regs[dst] = x
        return f
    def c_insertvalue(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn); Tk.expect(',')
        t2, v2 = P.parse_tv(Tk); h = self.getter(v2, t2, fn); idx = []
        while Tk.eat(','): idx.append(int(Tk.next()))
        nf = len(ty.res().fields or []) if ty.res().k == 'struct' else ty.res().n
        def f(st, fr):
            x = g(fr.regs)
            x = list(x) if isinstance(x, list) else [UNDEF] * nf
            if len(idx) == 1: x[idx[0]] = h(fr.regs)
            else:
                y = list(x[idx[0]]) if isinstance(x[idx[0]], list) else [UNDEF] * 8
                y[idx[1]] = h(fr.regs); x[idx[0]] = y
            fr.regs[dst] = x
        return f
    def c_extractelement(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn); Tk.expect(','); t2, v2 = P.parse_tv(Tk); h = self.getter(v2, t2, fn)
        def f(st, fr):
            x = g(fr.regs); fr.regs[dst] = UNDEF if isinstance(x, Undef) else x[h(fr.regs)]
        return f
    def c_insertelement(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn); Tk.expect(','); t1, v1 = P.parse_tv(Tk); e = self.getter(v1, t1, fn); Tk.expect(','); t2, v2 = P.parse_tv(Tk); h = self.getter(v2, t2, fn)
        n = ty.res().n
        def f(st, fr):
            x = g(fr.regs); x = list(x) if isinstance(x, list) else [UNDEF] * n
            x[h(fr.regs)] = e(fr.regs); fr.regs[dst] = x
        return f
    def c_shufflevector(self, Tk, dst, fn):
        ty, v = P.parse_tv(Tk); a = self.getter(v, ty, fn); Tk.expect(','); t1, v1 = P.parse_tv(Tk); b = self.getter(v1, t1, fn); Tk.expect(','); t2, v2 = P.parse_tv(Tk); mk = self.getter(v2, t2, fn)
        n = ty.res().n
        def f(st, fr):
            x = a(fr.regs); y = b(fr.regs)
            x = x if isinstance(x, list) else [UNDEF] * n
            y = y if isinstance(y, list) else [UNDEF] * n
            l = x + y
            fr.regs[dst] = [l[i] if isinstance(i, int) else UNDEF for i in mk(fr.regs)]
        return f

    def c_atomicrmw(self, Tk, dst, fn):
        Tk.eat('volatile'); op = Tk.next()
        pt, pv = P.parse_tv(Tk); p = self.getter(pv, pt, fn); Tk.expect(',')
        ty, v = P.parse_tv(Tk); g = self.getter(v, ty, fn)
        E = self; tr = ty.res()
        def f(st, fr):
            pp = p(fr.regs); old = E.load(st, pp, tr); x = g(fr.regs)
            new = x if op == 'xchg' else E.binop(st, op, old, x, tr.n)
            E.store(st, pp, new, tr.size()); fr.regs[dst] = old
        return f
    def c_fence(self, Tk, dst, fn):
        return lambda st, fr: None

    def c_landingpad(self, Tk, dst, fn):
        ty = P.parse_type(Tk)
        clauses = []
        while Tk.i < len(Tk.l):
            w = Tk.next()
            if w == 'cleanup': clauses.append(('cleanup', None))
            elif w in ('catch', 'filter'):
                t, v = P.parse_tv(Tk)
                clauses.append((w, self.constval(v, t, fn.mod) if w == 'catch' else None))
        E = self
        def f(st, fr):
            p, tn = st.exc
            sel = 0
            for k, c in clauses:
                if k == 'catch':
                    if c == 0 or E.type_match(st, tn, c):
                        sel = E.typeid(c); break
                elif k == 'filter':
                    sel = 0xffffffff; break
            st.extra['sel'] = sel
            fr.regs[dst] = [p, sel]
        return f

    def typeid(self, c):
        if c == 0: return 1
        key = c.obj
        name = key.split(':')[-1]
        return self.typeids.setdefault(name, len(self.typeids) + 2)

    def bases_of(self, st, name):
        """list of base typeinfo names"""
        import models
        if name in models.STD_BASES: return [models.STD_BASES[name]]
        for m in self.modules:
            if name in m.globals:
                ln = m.globals[name][0]
                if 'external' in ln[:20]: continue
                refs = re.findall(r'ptr @("[^"]*"|[\w.$-]+)', ln)
                return [P.unq(r) for r in refs if P.unq(r).startswith('_ZTI')]
        return []

    def type_match(self, st, tn, c):
        target = c.obj.split(':')[-1]
        seen = [tn]
        while seen:
            x = seen.pop()
            if x == target: return True
            seen.extend(self.bases_of(st, x))
        return False

    def c_resume(self, Tk, dst, fn):
        E = self
        def f(st, fr):
            E.unwind_from_top(st); return True
        return f
    def unwind_from_top(self, st):
        self.unwind(st, st.exc)

    def c_invoke(self, Tk, dst, fn): return self.c_call(Tk, dst, fn, invoke=True)

    def c_call(self, Tk, dst, fn, invoke=False):
        while Tk.peek() in FMF or Tk.peek() in ('fastcc', 'ccc', 'coldcc', 'tailcc'): Tk.next()
        P.skip_attrs(Tk)
        rty = P.parse_type(Tk)
        # callee
        callee = P.parse_value(Tk, P.PTR) if Tk.peek() != 'asm' else None
        if callee is None:
            return lambda st, fr: None
        Tk.expect('(')
        args = []; tys = []
        while not Tk.eat(')'):
            t = P.parse_type(Tk)
            P.skip_attrs(Tk)
            if t.k == 'metadata':
                # skip
                d = 0
                while not (d == 0 and Tk.peek() in (',', ')')):
                    x = Tk.next()
                    if x in '({': d += 1
                    if x in ')}': d -= 1
                args.append(lambda r: None)
            else:
                v = P.parse_value(Tk, t); args.append(self.getter(v, t, fn))
            tys.append(t)
            Tk.eat(',')
        normal = unw = None
        if invoke:
            while Tk.peek() != 'to': Tk.next()
            Tk.next(); Tk.expect('label'); normal = P.lname(Tk.next()); Tk.expect('unwind'); Tk.expect('label'); unw = P.lname(Tk.next())
        E = self
        if callee[0] == 'g':
            name = callee[1]
            mod = self.models.get(name)
            if mod is None:
                r = self.resolve(fn.mod, name)
                if r[0] == 'f':
                    target = r[1]
                    if target.name in self.models: mod = self.models[target.name]
                    else:
                        push = self.push
                        def f(st, fr):
                            r = fr.regs
                            push(st, target, [a(r) for a in args], dst, normal, unw)
                            return True
                        return f
                else:
                    mod = self.find_model(name)
            if mod is None:
                def f(st, fr): raise EngineError('unmodelled external %s called from %s' % (name, fn.name))
                return f
            return self.model_call(mod, args, tys, dst, normal, unw, name)
        cg = self.getter(callee, P.PTR, fn)
        def f(st, fr):
            p = cg(fr.regs)
            if not isinstance(p, FnPtr):
                E.memerr(st, 'call through invalid function pointer %r' % (p,))
            m = E.models.get(p.name)
            if m is None and p.fn is not None:
                E.push(st, p.fn, [a(fr.regs) for a in args], dst, normal, unw)
                return True
            if m is None: m = E.find_model(p.name)
            if m is None: raise EngineError('unmodelled external %s (indirect)' % p.name)
            return E.model_call(m, args, tys, dst, normal, unw, p.name)(st, fr)
        return f

    def model_call(self, mod, args, tys, dst, normal, unw, name):
        E = self
        def f(st, fr):
            r = fr.regs
            ctx = (tys, unw, name, dst, normal)
            v = mod(E, st, [a(r) for a in args], ctx)
            if v is CONTROL: return True
            if dst is not None: r[dst] = v
            if normal is not None:
                E.goto(st, fr, normal); return True
        return f

    def find_model(self, name):
        import models
        return models.find(self, name)

CONTROL = object()
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())

def _sdiv(a, b, n):
    if b == 0: raise PathEnd('error', 'integer division by zero')
    a = sx(a, n); b = sx(b, n)
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & ((1 << n) - 1)
def _srem(a, b, n):
    if b == 0: raise PathEnd('error', 'integer division by zero')
    a = sx(a, n); b = sx(b, n)
    r = abs(a) % abs(b)
    return (r if a >= 0 else -r) & ((1 << n) - 1)
def _udiv(a, b, n):
    if b == 0: raise PathEnd('error', 'integer division by zero')
    return a // b
def _urem(a, b, n):
    if b == 0: raise PathEnd('error', 'integer division by zero')
    return a % b

INTOPS = {
 'add': lambda a, b, n: (a + b) & ((1 << n) - 1),
 'sub': lambda a, b, n: (a - b) & ((1 << n) - 1),
 'mul': lambda a, b, n: (a * b) & ((1 << n) - 1),
 'and': lambda a, b, n: a & b,
 'or': lambda a, b, n: a | b,
 'xor': lambda a, b, n: a ^ b,
 'shl': lambda a, b, n: (a << b) & ((1 << n) - 1) if b < n else 0,
 'lshr': lambda a, b, n: a >> b,
 'ashr': lambda a, b, n: (sx(a, n) >> b) & ((1 << n) - 1),
 'udiv': _udiv, 'sdiv': _sdiv, 'urem': _urem, 'srem': _srem,
}
