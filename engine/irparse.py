"""Lazy parser for LLVM 18 textual IR (opaque pointers)."""
import re, struct

TOK = re.compile(r'''\s*(?:
 (?P<loc>%"(?:[^"])*"|%[\w.$-]+)|
 (?P<glob>@"(?:[^"])*"|@[\w.$-]+)|
 (?P<cstr>c"(?:[^"])*")|
 (?P<str>"(?:[^"])*")|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)|
 (?P<int>-?\d+)|
 (?P<dots>\.\.\.)|
 (?P<word>[A-Za-z_$][\w.$-]*)|
 (?P<meta>![\w."]*)|
 (?P<attr>\#\d+)|
 (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'packed', 'name', 'mod', '_size', '_align', '_offs')
    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None, mod=None):
        self.k = k; self.n = n; self.el = el; self.fields = fields; self.packed = packed
        self.name = name; self.mod = mod; self._size = None; self._align = None; self._offs = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'array': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.fields))
        return self.k
    def res(self):
        t = self
        while t.k == 'named':
            t = t.mod.types[t.name]
        return t
    def align(self):
        t = self.res()
        if t._align is None:
            if t.k == 'int': t._align = 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
            elif t.k == 'double' or t.k == 'ptr': t._align = 8
            elif t.k == 'float': t._align = 4
            elif t.k == 'x86_fp80': t._align = 16
            elif t.k in ('array',): t._align = t.el.align()
            elif t.k == 'vector': t._align = t.el.size() * t.n
            elif t.k == 'struct': t._align = 1 if t.packed else max([f.align() for f in t.fields] or [1])
            else: t._align = 1
        return t._align
    def size(self):
        t = self.res()
        if t._size is None:
            if t.k == 'int':
                b = (t.n + 7) // 8
                a = t.align(); t._size = (b + a - 1) // a * a
            elif t.k in ('double', 'ptr'): t._size = 8
            elif t.k == 'float': t._size = 4
            elif t.k == 'x86_fp80': t._size = 16
            elif t.k in ('array', 'vector'): t._size = t.n * t.el.size()
            elif t.k == 'struct':
                t.offsets()
            else: t._size = 0
        return t._size
    def offsets(self):
        t = self.res()
        if t._offs is None:
            o = 0; offs = []
            for f in t.fields:
                if not t.packed:
                    a = f.align(); o = (o + a - 1) // a * a
                offs.append(o); o += f.size()
            if not t.packed:
                a = t.align(); o = (o + a - 1) // a * a
            t._offs = offs; t._size = o
        return t._offs

I = {n: Ty('int', n) for n in (1, 8, 16, 32, 64, 128)}
DOUBLE = Ty('double'); FLOAT = Ty('float'); PTR = Ty('ptr'); VOID = Ty('void'); X80 = Ty('x86_fp80')

PARAM_ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone returned immarg
 nofree nest swiftself noreturn nounwind allocalign allocptr writable dead_on_unwind'''.split())
PAREN_ATTRS = set('dereferenceable dereferenceable_or_null byval sret inalloca byref elementtype preallocated nofpclass range captures initializes memory align alignstack'.split())
LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
 dso_local dso_preemptable default hidden protected dllimport dllexport unnamed_addr local_unnamed_addr
 thread_local externally_initialized fastcc ccc coldcc tailcc global constant'''.split())

class Toks:
    __slots__ = ('l', 'i', 'mod')
    def __init__(self, s, mod):
        self.mod = mod
        l = []
        for m in TOK.finditer(s):
            l.append((m.lastgroup, m.group(m.lastgroup)))
        self.l = l; self.i = 0
    def peek(self): return self.l[self.i][1] if self.i < len(self.l) else None
    def kind(self): return self.l[self.i][0] if self.i < len(self.l) else None
    def next(self):
        v = self.l[self.i][1]; self.i += 1; return v
    def eat(self, v):
        if self.peek() == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x != v: raise SyntaxError('expected %r got %r near %r' % (v, x, [t[1] for t in self.l[max(0, self.i - 6):self.i + 6]]))

def unq(s):
    if s.startswith('"'): s = s[1:-1]
    return s

def lname(tok):
    s = tok[1:]
    return unq(s)

def parse_type(T):
    t = T.peek(); k = T.kind()
    if k == 'word':
        T.next()
        if t == 'ptr': ty = PTR
        elif t == 'double': ty = DOUBLE
        elif t == 'float': ty = FLOAT
        elif t == 'void': ty = VOID
        elif t == 'x86_fp80': ty = X80
        elif t[0] == 'i' and t[1:].isdigit():
            n = int(t[1:]); ty = I.get(n) or I.setdefault(n, Ty('int', n))
        elif t in ('metadata', 'label', 'token', 'half', 'opaque'): ty = Ty(t)
        else: raise SyntaxError('type ' + t)
    elif k == 'loc':
        T.next(); ty = Ty('named', name=lname(t), mod=T.mod)
    elif t == '[':
        T.next(); n = int(T.next()); T.expect('x'); el = parse_type(T); T.expect(']')
        ty = Ty('array', n, el)
    elif t == '<':
        T.next()
        if T.peek() == '{':
            ty = parse_type(T); ty.packed = True; ty._size = ty._align = ty._offs = None
            T.expect('>')
        else:
            n = int(T.next()); T.expect('x'); el = parse_type(T); T.expect('>')
            ty = Ty('vector', n, el)
    elif t == '{':
        T.next(); fs = []
        if not T.eat('}'):
            while True:
                fs.append(parse_type(T))
                if T.eat('}'): break
                T.expect(',')
        ty = Ty('struct', fields=fs)
    else:
        raise SyntaxError('type token %r' % t)
    while T.peek() == '(' and T.i + 1 < len(T.l) and (ty.k in ('void', 'ptr', 'int', 'double', 'float', 'named', 'struct') and _is_fnty(T)):
        # function type
        T.next(); args = []
        while not T.eat(')'):
            if T.peek() == '...': T.next()
            else: args.append(parse_type(T))
            T.eat(',')
        ty = Ty('fn', el=ty, fields=args)
    return ty

def _is_fnty(T):
    # a '(' directly after a type inside a call: function type signature (varargs) iff first token is a type/.../')'
    j = T.i + 1
    k, v = T.l[j]
    return v in (')', '...', 'ptr', 'double', 'float') or (k == 'word' and re.fullmatch(r'i\d+', v) is not None)

def skip_attrs(T):
    while True:
        k, v = (T.kind(), T.peek())
        if v in PARAM_ATTRS: T.next(); continue
        if v in PAREN_ATTRS:
            T.next()
            if T.peek() == '(':
                d = 0
                while True:
                    x = T.next()
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            elif v in ('align', 'alignstack'):
                T.next()
            continue
        if k == 'str':
            T.next()
            if T.eat('='): T.next()
            continue
        return

def fbits(h):
    if h.startswith('0xK'):
        b = int(h[3:], 16)
        m = b & ((1 << 64) - 1); e = (b >> 64) & 0x7fff; s = b >> 79
        if e == 0 and m == 0: return -0.0 if s else 0.0
        import math
        return (-1 if s else 1) * math.ldexp(m, e - 16383 - 63)
    return struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]

# Operand forms: ('r', name) register, ('c', python value) , ('g', name) global,
# ('zero',) ('undef',), ('agg', [..(ty,op)]), ('str', bytes), ('ce', opcode, ...)
def parse_value(T, ty):
    k = T.kind(); v = T.next()
    if k == 'loc': return ('r', lname(v))
    if k == 'glob': return ('g', lname(v))
    if k == 'int':
        if ty.k in ('double', 'float', 'x86_fp80'): return ('c', float(v))
        return ('c', int(v) & ((1 << ty.n) - 1))
    if k == 'flt': return ('c', float(v))
    if k == 'hex': return ('c', fbits(v))
    if v == 'true': return ('c', 1)
    if v == 'false': return ('c', 0)
    if v == 'null': return ('null',)
    if v in ('undef', 'poison'): return ('undef',)
    if v == 'zeroinitializer': return ('zero',)
    if v == 'none': return ('undef',)
    if k == 'cstr':
        s = v[2:-1]; out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\' and s[i + 1] == '\\':
                out.append(92); i += 2
            elif s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return ('str', bytes(out))
    if v in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[v]
        if v == '<' and T.peek() == '{':
            r = parse_value(T, ty); T.expect('>'); return r
        els = []
        if not T.eat(close):
            while True:
                t = parse_type(T); els.append((t, parse_value(T, t)))
                if T.eat(close): break
                T.expect(',')
        return ('agg', els)
    if v == 'getelementptr':
        while T.peek() in ('inbounds', 'nuw', 'nusw') : T.next()
        if T.eat('inrange'):
            pass
        T.expect('(')
        bt = parse_type(T); T.expect(',')
        ops = []
        while True:
            T.eat('inrange')
            t = parse_type(T); ops.append((t, parse_value(T, t)))
            if T.eat(')'): break
            T.expect(',')
        return ('ce', 'gep', bt, ops)
    if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        T.expect('('); t = parse_type(T); o = parse_value(T, t); T.expect('to'); t2 = parse_type(T); T.expect(')')
        return ('ce', v, t, o, t2)
    if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'icmp'):
        pred = None
        while T.peek() in ('nuw', 'nsw', 'exact'): T.next()
        if v == 'icmp': pred = T.next()
        T.expect('('); t = parse_type(T); a = parse_value(T, t); T.expect(','); t2 = parse_type(T); b = parse_value(T, t2); T.expect(')')
        return ('ce', v, t, a, b, pred)
    if v in ('dso_local_equivalent', 'no_cfi'):
        return parse_value(T, ty)
    raise SyntaxError('value %r (%s) near %r' % (v, k, [t[1] for t in T.l[max(0, T.i - 8):T.i + 6]]))

def parse_tv(T):
    t = parse_type(T); skip_attrs(T)
    return t, parse_value(T, t)

class Function:
    __slots__ = ('name', 'mod', 'ret', 'params', 'lines', 'blocks', 'order', 'internal', 'nregs', 'code', 'hits')
    pass

class Module:
    def __init__(self, path, tag):
        self.tag = tag
        self.types = {}
        self.globals = {}     # name -> (line, internal)
        self.funcs = {}       # name -> Function
        self.decls = {}
        self.aliases = {}
        self.ctors = []
        with open(path, errors='replace') as f:
            self._scan(f.read().split('\n'))

    def _scan(self, lines):
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == 'd' and ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._define(ln, lines[i + 1:j])
                i = j + 1; continue
            if c == '%' and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                T = Toks(rest, self)
                self.types[lname(nm)] = parse_type(T) if rest != 'opaque' else Ty('opaque')
            elif c == '@':
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', ln)
                nm = unq(m.group(1)); rest = m.group(2)
                words = rest.split(' ', 8)
                internal = words[0] in ('private', 'internal')
                if ' alias ' in rest[:80]:
                    a = rest.split(' alias ', 1)[1]
                    mm = re.search(r'@("[^"]*"|[\w.$-]+)', a)
                    self.aliases[nm] = unq(mm.group(1))
                else:
                    self.globals[nm] = (rest, internal)
                    if nm == 'llvm.global_ctors':
                        for mm in re.finditer(r'i32 (\d+), ptr @("[^"]*"|[\w.$-]+)', rest):
                            self.ctors.append((int(mm.group(1)), unq(mm.group(2))))
            elif c == 'd' and ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
                self.decls[unq(m.group(1))] = ln
            i += 1

    def _define(self, ln, body):
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
        f = Function()
        f.name = unq(m.group(1)); f.mod = self
        f.internal = (' internal ' in ln[:40]) or (' private ' in ln[:40])
        f.lines = body; f.blocks = None; f.code = None; f.hits = 0
        f.params = None; f.ret = ln  # header parsed lazily
        self.funcs[f.name] = f

    def parse_header(self, f):
        ln = f.ret
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
        T = Toks(ln[m.end() - 1:], self)
        T.expect('(')
        ps = []
        idx = 0
        while not T.eat(')'):
            if T.peek() == '...':
                T.next(); continue
            t = parse_type(T)
            byval = False
            j = T.i
            skip_attrs(T)
            if any(x[1] == 'byval' for x in T.l[j:T.i]): byval = True
            if T.kind() == 'loc': nm = lname(T.next())
            else: nm = str(idx)
            ps.append((t, nm, byval)); idx += 1
            T.eat(',')
        f.params = ps
        # return type: parse from header start, skipping linkage / attributes
        T = Toks(ln[7:m.start()], self)
        while T.peek() in LINKAGE or T.peek() in PARAM_ATTRS or T.peek() in PAREN_ATTRS or T.kind() == 'attr':
            if T.peek() in PARAM_ATTRS or T.peek() in PAREN_ATTRS: skip_attrs(T)
            else: T.next()
        f.ret = parse_type(T)

    def parse_body(self, f):
        if f.blocks is not None: return
        self.parse_header(f)
        blocks = {}; order = []
        cur = None
        first = str(len([p for p in f.params if p[1].isdigit()]))
        lines = f.lines
        i = 0
        # join multi-line switch / landingpad
        joined = []
        while i < len(lines):
            s = lines[i]
            if s.startswith('  ') and ' switch ' in s[:10] or s.lstrip().startswith('switch '):
                while ']' not in s or s.rstrip().endswith('['):
                    i += 1; s += ' ' + lines[i].strip()
                    if lines[i].strip().startswith(']'): break
            elif 'landingpad ' in s:
                while i + 1 < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i + 1]):
                    i += 1; s += ' ' + lines[i].strip()
            elif re.search(r'= invoke |^\s+invoke ', s):
                i += 1; s += ' ' + lines[i].strip()
            joined.append(s); i += 1
        for s in joined:
            if not s.strip() or s.lstrip().startswith(';'): continue
            if not s.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$-]+):', s)
                cur = unq(m.group(1)); blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = first if f.params is not None else '0'
                # entry label: numbered after unnamed params
                blocks[cur] = []; order.append(cur)
            s = re.sub(r', ![\w.]+ .*$', '', s)
            blocks[cur].append(s)
        f.blocks = blocks; f.order = order
        f.lines = None
