"""Memory objects, pointers and low level value conversions."""
import struct
from fractions import Fraction
from terms import Term
import terms as T

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()
class PU(Undef):
    """integer of which only the bits of mask k are defined, with value v"""
    __slots__ = ('n', 'k', 'v')
    def __init__(self, n, k, v): self.n = n; self.k = k; self.v = v & k
    def __repr__(self): return 'PU(%d,%x,%x)' % (self.n, self.k, self.v)
class PB(Undef):
    """value of which some bytes are undefined"""
    __slots__ = ('bs',)
    def __init__(self, bs): self.bs = bs
    def __repr__(self): return 'PB(%r)' % (self.bs,)
def mkpu(n, k, v):
    full = (1 << n) - 1
    k &= full
    return v & full if k == full else PU(n, k, v) if k else UNDEF
def known_bits(x, n):
    if type(x) is int: return (1 << n) - 1, x & ((1 << n) - 1)
    if isinstance(x, PU): return x.k, x.v
    return 0, 0
def partial_op(op, a, b, n):
    """integer operation on partially defined operands"""
    if not all(type(x) is int or isinstance(x, Undef) for x in (a, b)): return UNDEF
    ka, va = known_bits(a, n); kb, vb = known_bits(b, n)
    if op == 'and': return mkpu(n, (ka & kb) | (ka & ~va) | (kb & ~vb), va & vb)
    if op == 'or': return mkpu(n, (ka & kb) | (ka & va) | (kb & vb), va | vb)
    if op == 'xor': return mkpu(n, ka & kb, va ^ vb)
    if op in ('shl', 'lshr') and type(b) is int and b < n:
        if op == 'shl': return mkpu(n, (ka << b) | ((1 << b) - 1), va << b)
        return mkpu(n, (ka >> b) | (((1 << b) - 1) << (n - b)), va >> b)
    return UNDEF

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.obj, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off
    def __hash__(self): return hash((self.obj, self.off))

class FnPtr:
    __slots__ = ('name', 'fn')
    def __init__(self, name, fn): self.name = name; self.fn = fn
    def __repr__(self): return 'Fn(%s)' % self.name

class Frag:
    """byte i of an n-byte opaque value"""
    __slots__ = ('val', 'n', 'i')
    def __init__(self, val, n, i): self.val = val; self.n = n; self.i = i

class Obj:
    __slots__ = ('size', 'cells', 'owner', 'kind', 'alive', 'name', 'zero', 'lazy', 'base', 'back')
    def __init__(self, size, kind, name=''):
        self.size = size; self.cells = {}; self.owner = None; self.kind = kind
        self.alive = True; self.name = name; self.zero = False; self.lazy = None; self.base = None; self.back = None
    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells); o.owner = owner; o.alive = self.alive
        o.zero = self.zero; o.lazy = self.lazy; o.base = self.base; o.back = self.back
        return o

def d2bits(v):
    return struct.unpack('<Q', struct.pack('<d', float(v)))[0]
def bits2d(b):
    return struct.unpack('<d', struct.pack('<Q', b & (2**64 - 1)))[0]
def f2bits(v):
    return struct.unpack('<I', struct.pack('<f', float(v)))[0]
def bits2f(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]

def val_bytes(v, n):
    """list of n byte-values (int or Frag)"""
    if isinstance(v, bool): v = int(v)
    if isinstance(v, PB) and n == len(v.bs): return list(v.bs)
    if isinstance(v, PU) and n * 8 >= v.n and n > 1:
        return [mkpu(8, v.k >> (8 * i), v.v >> (8 * i)) for i in range(n)]
    if isinstance(v, int):
        return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    if isinstance(v, float):
        if n == 8: return list(struct.pack('<d', v))
        if n == 4: return list(struct.pack('<f', v))
        return [Frag(v, n, i) for i in range(n)]
    if isinstance(v, Term) and isinstance(v.sort, int) and v.sort == 8 * n and n > 1:
        return [T.mk('extract', (v, 8 * i + 7, 8 * i), 8) for i in range(n)]
    if n == 1: return [v]
    return [Frag(v, n, i) for i in range(n)]

def assemble(bs):
    n = len(bs)
    if all(type(b) is int for b in bs):
        return int.from_bytes(bytes(bs), 'little')
    if n > 1 and any(isinstance(b, Frag) for b in bs):
        bs = [Frag(b.args[0].args[0], 8, b.args[2] // 8) if isinstance(b, Term) and b.op == 'extract' and isinstance(b.args[0], Term) and b.args[0].op == 'f2bits' else b for b in bs]
    b0 = bs[0]
    und = n > 1 and any(isinstance(b, Undef) for b in bs)
    if und and all(b is UNDEF for b in bs): return UNDEF
    if und and all(type(b) is int or isinstance(b, Undef) for b in bs):
        k = v = 0
        for i, b in enumerate(bs):
            x, y = known_bits(b, 8); k |= x << (8 * i); v |= y << (8 * i)
        return mkpu(8 * n, k, v)
    if und and not any(isinstance(b, Frag) and isinstance(b.val, Undef) for b in bs): return PB(list(bs))
    if isinstance(b0, Frag):
        if b0.n == n and all(isinstance(b, Frag) and b.val is b0.val and b.i == i for i, b in enumerate(bs)):
            return b0.val
        # bytes of concrete fractions become IEEE bytes
        out = []
        for b in bs:
            if isinstance(b, Frag) and isinstance(b.val, (Fraction,)):
                out.append(struct.pack('<d' if b.n == 8 else '<f', float(b.val))[b.i])
            else: out.append(b)
        if all(type(b) is int for b in out):
            return int.from_bytes(bytes(out), 'little')
        if any(isinstance(b, Undef) or (isinstance(b, Frag) and isinstance(b.val, Undef)) for b in bs):
            return UNDEF
        if n == 1: return b0
        raise Unsupported('mixed fragments')
    if any(isinstance(b, Undef) for b in bs): return UNDEF
    if any(isinstance(b, Frag) for b in bs):
        if any(isinstance(b, Frag) and isinstance(b.val, Undef) for b in bs): return UNDEF
        raise Unsupported('mixed fragments')
    if n == 1: return bs[0]
    # symbolic bytes
    if all(type(b) is int or (isinstance(b, Term) and isinstance(b.sort, int)) for b in bs):
        r = None
        # peephole: consecutive extracts of one term
        t0 = bs[0]
        if isinstance(t0, Term) and t0.op == 'extract' and all(isinstance(b, Term) and b.op == 'extract' and b.args[0] is t0.args[0] and b.args[2] == 8 * i for i, b in enumerate(bs)) and t0.args[0].sort == 8 * n:
            return t0.args[0]
        return T.mk('concat', tuple(reversed(bs)), 8 * n)
    r = 0
    for i, b in enumerate(bs):
        r = T.add(r, T.scale(256 ** i, b) if isinstance(b, Term) else b * 256 ** i)
    return r

class Unsupported(Exception):
    pass
