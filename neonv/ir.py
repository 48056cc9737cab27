"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the checks
regenerate from /repo on every run.  Functions are parsed lazily."""
import re, struct

class IRError(Exception):
    pass

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', 'name', '_sz', '_al', '_off')
    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False, name=None):
        self.k, self.w, self.n, self.el, self.els = k, w, n, el, els
        self.packed, self.name = packed, name
        self._sz = self._al = self._off = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ', '.join(map(repr, self.els or []))
        return self.k

_int_cache = {}
def IntTy(w):
    t = _int_cache.get(w)
    if t is None:
        t = _int_cache[w] = Ty('int', w)
    return t
F32, F64, F16, F80, F128 = Ty('float', 32), Ty('double', 64), Ty('half', 16), Ty('x86_fp80', 80), Ty('fp128', 128)
PTR, VOID, LABEL, META, TOKEN = Ty('ptr', 64), Ty('void'), Ty('label'), Ty('metadata'), Ty('token')
NAMED = {'float': F32, 'double': F64, 'half': F16, 'x86_fp80': F80, 'ptr': PTR, 'void': VOID,
         'label': LABEL, 'metadata': META, 'token': TOKEN, 'fp128': F128, 'bfloat': Ty('bfloat', 16)}
FLOATK = ('float', 'double', 'half', 'fp128')

# sizes and alignments (bytes) that differ between targets; a module is only ever executed under its own model
MODEL = {}
def layout(text):
    """data model of a 'target datalayout' string"""
    d = dict(ptr=8, int=dict({8: 1, 16: 2, 32: 4, 64: 4}), f64=8, f80=16)
    for x in text.split('-'):
        m = re.match(r'p:(\d+):', x)
        if m: d['ptr'] = int(m.group(1)) // 8
        m = re.match(r'i(\d+):(\d+)', x)
        if m: d['int'][int(m.group(1))] = int(m.group(2)) // 8
        m = re.match(r'f64:(\d+)', x)
        if m: d['f64'] = int(m.group(1)) // 8
        m = re.match(r'f80:(\d+)', x)
        if m: d['f80'] = int(m.group(1)) // 8
        if x == 'E': raise IRError('big-endian target')
    return d
def set_model(d):
    if MODEL == d: return
    MODEL.clear(); MODEL.update(d)
    PTR.w = 8 * d['ptr']
    for t in list(_int_cache.values()) + list(NAMED.values()): t._sz = t._al = None

def align_of(t):
    if t._al is None:
        k = t.k
        if k == 'int':
            b = 1
            while b * 8 < t.w: b *= 2
            a = min(MODEL['int'].get(8 * b, b), 16)
        elif k == 'float': a = 4
        elif k == 'double': a = MODEL['f64']
        elif k == 'half': a = 2
        elif k == 'x86_fp80': a = MODEL['f80']
        elif k == 'fp128': a = 16
        elif k == 'ptr': a = MODEL['ptr']
        elif k == 'arr': a = align_of(t.el)
        elif k == 'vec':
            a = 1
            while a < (t.n * bits_of(t.el) + 7) // 8: a *= 2
        elif k == 'struct':
            a = 1 if t.packed else max([1] + [align_of(e) for e in t.els])
        else: raise IRError('align of %r' % t)
        t._al = a
    return t._al

def bits_of(t):
    if t.k in ('int', 'ptr') or t.k in FLOATK: return t.w
    if t.k == 'vec': return t.n * bits_of(t.el)
    return size_of(t) * 8

def size_of(t):
    """allocation size in bytes"""
    if t._sz is None:
        k = t.k
        if k == 'int':
            b = (t.w + 7) // 8
            a = align_of(t); s = (b + a - 1) // a * a
        elif k == 'float': s = 4
        elif k == 'double': s = 8
        elif k == 'half': s = 2
        elif k == 'x86_fp80': s = (10 + MODEL['f80'] - 1) // MODEL['f80'] * MODEL['f80']
        elif k == 'fp128': s = 16
        elif k == 'ptr': s = MODEL['ptr']
        elif k == 'arr': s = t.n * size_of(t.el)
        elif k == 'vec':
            s = (t.n * bits_of(t.el) + 7) // 8
            a = align_of(t); s = (s + a - 1) // a * a
        elif k == 'struct':
            if t.els is None: raise IRError('opaque struct %s' % t.name)
            offs, o = [], 0
            for e in t.els:
                if not t.packed:
                    a = align_of(e); o = (o + a - 1) // a * a
                offs.append(o); o += size_of(e)
            a = align_of(t); s = (o + a - 1) // a * a
            t._off = offs
        else: raise IRError('size of %r' % t)
        t._sz = s
    return t._sz

def store_size(t):
    return (bits_of(t) + 7) // 8 if t.k in ('int', 'vec') else size_of(t)

def offsets(t):
    size_of(t)
    return t._off

# ------------------------------------------------------------------ operands
# ('i', int) const int | ('f', bits) | ('null',) | ('undef',) | ('poison',) | ('zero',)
# ('l', name) local | ('g', name) global | ('agg', [(ty, op)]) | ('cstr', bytes)
# ('ce', opcode, ...) constant expression | ('md',)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<com>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][+-]?\d+)?)?)
 | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}<>(),=*:|])
 )''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';': break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise IRError('token at %r' % s[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

PARAM_ATTRS = set('''zeroext signext inreg noalias nocapture nofree nest returned nonnull noundef swiftself
swifterror immarg noinline nounwind readonly readnone writeonly writable allocptr dead_on_unwind'''.split())
FAST = set('nnan ninf nsz arcp contract afn reassoc fast'.split())
CCONV = set('fastcc coldcc ccc tailcc'.split())
LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr
weak_odr external dso_local dso_preemptable default hidden protected dllimport dllexport thread_local
unnamed_addr local_unnamed_addr'''.split())

set_model(layout("i64:64"))

class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v
    def acc(self, s):
        if self.peek() == s and self.kind() != 'str':
            self.i += 1
            return True
        return False
    def exp(self, s):
        if not self.acc(s):
            raise IRError('expected %r near %r' % (s, [x[1] for x in self.t[max(0, self.i - 3):self.i + 6]]))
    # types
    def ty(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                t = IntTy(int(v[1:]))
            elif v in NAMED:
                t = NAMED[v]
                if v == 'ptr' and self.peek() == 'addrspace':
                    raise IRError('addrspace')
            else:
                raise IRError('type %r' % v)
        elif k == 'loc':
            t = self.m.struct(v)
        elif v == '[':
            n = int(self.next()); self.exp('x'); e = self.ty(); self.exp(']')
            t = Ty('arr', n=n, el=e)
        elif v == '{':
            t = self._struct('}')
        elif v == '<':
            if self.peek() == '{':
                self.i += 1
                t = self._struct('}', True); self.exp('>')
            else:
                n = int(self.next())
                self.exp('x'); e = self.ty(); self.exp('>')
                t = Ty('vec', n=n, el=e)
        else:
            raise IRError('type %r' % v)
        if self.peek() == '(' and self.kind() == 'p':   # function type
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            t = Ty('func', el=t)
        return t
    def _struct(self, close, packed=False):
        els = []
        if not self.acc(close):
            while True:
                els.append(self.ty())
                if self.acc(close): break
                self.exp(',')
        return Ty('struct', els=els, packed=packed)
    # constants / operands
    def op(self, t):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc': return ('l', v)
        if k == 'glob': return ('g', v)
        if k == 'num':
            if t.k in FLOATK: return ('f', fbits(float(v), t))
            return ('i', int(v) & ((1 << t.w) - 1))
        if k == 'hex':
            return ('f', hexf(v, t))
        if k == 'str':
            return ('cstr', cstr(v))
        if k == 'id':
            if v == 'true': return ('i', 1)
            if v == 'false': return ('i', 0)
            if v == 'null': return ('null',)
            if v == 'undef': return ('undef',)
            if v == 'poison': return ('poison',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('zero',)
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): self.i += 1
                self.exp('(')
                bt = self.ty(); self.exp(',')
                ops = self._tyops(')')
                return ('ce', 'gep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                ft = self.ty(); o = self.op(ft)
                self.exp('to'); tt = self.ty(); self.exp(')')
                return ('ce', v, ft, o, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek() in ('nsw', 'nuw'): self.i += 1
                self.exp('(')
                ops = self._tyops(')')
                return ('ce', v, t, ops)
            raise IRError('operand %r' % v)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            return ('agg', self._tyops(close))
        if v == '<':
            if self.peek() == '{':
                self.i += 1
                r = self._tyops('}'); self.exp('>')
                return ('agg', r)
            return ('agg', self._tyops('>'))
        raise IRError('operand %r' % v)
    def _tyops(self, close):
        out = []
        if self.acc(close): return out
        while True:
            while self.peek() == 'inrange': self.i += 1
            t = self.ty()
            out.append((t, self.op(t)))
            if self.acc(close): return out
            self.exp(',')
    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            v = self.peek()
            if v in PARAM_ATTRS: self.i += 1
            elif v in ('align',):
                self.i += 1
                if self.acc('('):
                    self.i += 1; self.exp(')')
                else: self.i += 1
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'inalloca', 'byref',
                       'preallocated', 'elementtype', 'nofpclass', 'range', 'allocalign', 'memory', 'alignstack') and self.peek(1) == '(':
                self.i += 1
                self.paren()
            elif v in ('allocalign',): self.i += 1
            elif self.kind() == 'str': self.i += 1
            else: return
    def byval_attr(self):
        """like skip_attrs, but tells whether a byval(T) was among them (returns T)"""
        bv = None
        while True:
            if self.peek() == 'byval' and self.peek(1) == '(':
                self.i += 2; bv = self.ty(); self.exp(')')
                continue
            j = self.i
            if self.peek() in PARAM_ATTRS: self.i += 1; continue
            v = self.peek()
            if v == 'align':
                self.i += 1
                if self.acc('('):
                    self.i += 1; self.exp(')')
                else: self.i += 1
                continue
            if v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'inalloca', 'byref', 'preallocated',
                     'elementtype', 'nofpclass', 'range', 'memory', 'alignstack') and self.peek(1) == '(':
                self.i += 1; self.paren(); continue
            if v == 'allocalign' or self.kind() == 'str':
                self.i += 1; continue
            if j == self.i: return bv
    def paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return

def fbits(x, t):
    if t.k == 'float': return struct.unpack('<I', struct.pack('<f', x))[0]
    if t.k == 'double': return struct.unpack('<Q', struct.pack('<d', x))[0]
    raise IRError('float const of %r' % t)

def hexf(v, t):
    if v[2] == 'K' and t.k == 'x86_fp80': return int(v[3:], 16)
    if v[2] == 'L' and t.k == 'fp128': return int(v[19:], 16) << 64 | int(v[3:19], 16)
    if v[2] in 'KLMR': raise IRError('fp constant %s' % v)
    if v[2] == 'H': return int(v[3:], 16)
    b = int(v[2:], 16)
    if t.k == 'double': return b
    if t.k == 'float':
        # float constants are printed as the (exactly representable) double
        s, e, m = b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1)
        if e == 0x7ff:
            return (s << 31) | (0xff << 23) | (m >> 29)
        d = struct.unpack('<d', struct.pack('<Q', b))[0]
        return struct.unpack('<I', struct.pack('<f', d))[0]
    raise IRError('hex float of %r' % t)

def cstr(v):
    s = v[2:-1] if v[0] == 'c' else v[1:-1]
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'flags', 'extra', 'dbg')
    def __init__(self, op, res):
        self.op, self.res = op, res
        self.ty = self.a = self.b = self.c = self.extra = self.dbg = None
        self.flags = ()

class Block:
    __slots__ = ('name', 'phis', 'ins', 'succ', 'idx')

class Func:
    def __init__(self, mod, name, header, body):
        self.m, self.name, self.header, self.body = mod, name, header, body
        self.params = None
        self._parsed = False
        self.ninstr = 0
    def parse(self):
        if self._parsed: return self
        self._parsed = True
        p = P(self.m, tokenize(self.header))
        p.exp('define')
        while p.peek() in LINKAGE or p.peek() in CCONV or p.peek() in ('noundef',):
            if p.next() == 'thread_local' and p.peek() == '(': p.paren()
        p.skip_attrs()
        self.ret = p.ty()
        assert p.kind() == 'glob'
        p.next(); p.exp('(')
        self.params, self.byval, self.vararg = [], [], False
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    self.vararg = True
                    p.exp(')')
                    break
                t = p.ty(); bv = p.byval_attr()
                self.params.append((t, p.next())); self.byval.append(bv)
                if p.acc(')'): break
                p.exp(',')
        # blocks
        nparam = len(self.params)
        self.blocks, cur = {}, None
        self.order = []
        lines = self.body
        i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            s = ln.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', ln)
            if m and ln[0] not in ' \t':
                cur = self._newblock('%' + (m.group(1) or m.group(2)))
                continue
            if cur is None:
                cur = self._newblock('%' + str(sum(1 for t, n in self.params if n[1:].isdigit())))
            # multi-line constructs: switch, invoke, landingpad
            if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[', 1)[1]:
                while True:
                    nx = lines[i]; i += 1
                    s += ' ' + nx.strip()
                    if nx.strip().startswith(']'): break
            while i < len(lines) and re.match(r'^\s+(to label|unwind|catch|filter|cleanup)\b', lines[i]):
                s += ' ' + lines[i].strip(); i += 1
            ins = self._ins(s)
            if ins is not None:
                self.ninstr += 1
                (cur.phis if ins.op == 'phi' else cur.ins).append(ins)
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = [t.a] if t.c is None else [t.b, t.c]
            elif t.op == 'switch': b.succ = [t.b] + [x[1] for x in t.extra]
            elif t.op == 'invoke': b.succ = [t.extra[1], t.extra[2]]
            else: b.succ = []
            if b.succ: b.succ = list(dict.fromkeys(b.succ))
        self.entry = self.order[0]
        # subscripts whose element is accessed, not merely pointed at (one past the end is a valid address)
        used = set()
        for b in self.blocks.values():
            for I in b.ins:
                if I.op in ('load', 'getelementptr'): q = I.a
                elif I.op == 'store': q = I.b
                else: continue
                if q is None or q[0] != 'l': continue
                if I.op != 'getelementptr' or I.ty.k in ('struct', 'arr') and len(I.extra) > 1 and I.extra[0][1] == ('i', 0): used.add(q[1])
        for b in self.blocks.values():
            for I in b.ins:
                if I.op == 'getelementptr' and I.res in used: I.flags += ('accessed',)
        self._ipdom()
        return self
    def _newblock(self, name):
        b = Block()
        b.name, b.phis, b.ins, b.succ = name, [], [], []
        b.idx = len(self.order)
        self.blocks[name] = b
        self.order.append(name)
        return b
    def _ipdom(self):
        """immediate post-dominators towards the virtual exit EXIT (all 'ret's; blocks that
        cannot reach a ret are ignored)"""
        EXIT = '#exit'
        preds = {}
        for b in self.blocks.values():
            ss = b.succ if b.succ else ([EXIT] if b.ins[-1].op == 'ret' else [])
            for s in ss: preds.setdefault(s, []).append(b.name)
        # reverse reachability
        order, seen = [], {EXIT}
        def dfs(root):
            stack = [(root, iter(preds.get(root, ())))]
            while stack:
                n, it = stack[-1]
                for q in it:
                    if q not in seen:
                        seen.add(q)
                        stack.append((q, iter(preds.get(q, ()))))
                        break
                else:
                    order.append(n); stack.pop()
        dfs(EXIT)
        num = {n: i for i, n in enumerate(order)}   # postorder on reverse graph
        idom = {EXIT: EXIT}
        rpo = [n for n in reversed(order) if n != EXIT]
        def inter(a, b):
            while a != b:
                while num[a] < num[b]: a = idom[a]
                while num[b] < num[a]: b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for n in rpo:
                b = self.blocks[n]
                ss = b.succ if b.succ else [EXIT]
                new = None
                for s in ss:
                    if s in idom:
                        new = s if new is None else inter(s, new)
                if new is not None and idom.get(n) != new:
                    idom[n] = new; ch = True
        self.ipdom = idom
        self.canret = seen
        self._loopbr = {}
    def loop_branch(self, b):
        """can b be reached again from b before its immediate post-dominator?"""
        r = self._loopbr.get(b)
        if r is None:
            j = self.ipdom.get(b)
            st, seen = list(self.blocks[b].succ), set()
            r = False
            while st:
                x = st.pop()
                if x == b: r = True; break
                if x == j or x in seen: continue
                seen.add(x); st.extend(self.blocks[x].succ)
            self._loopbr[b] = r
        return r
    def _ins(self, s):
        s0 = s
        dbg = None
        j = s.find(', !')
        if j >= 0 and not s.startswith('call void @llvm.dbg'):
            md = s[j:]
            m = re.search(r'!dbg !(\d+)', md)
            if m: dbg = int(m.group(1))
            s = s[:j]
        p = P(self.m, tokenize(s))
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        I = Ins(op, res)
        I.dbg = dbg
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FAST: fl.append(p.next())
            I.flags = tuple(fl)
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); I.b = p.op(I.ty)
        elif op == 'fneg':
            while p.peek() in FAST: I.flags += (p.next(),)
            I.ty = p.ty(); I.a = p.op(I.ty)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FAST: I.flags += (p.next(),)
            I.extra = p.next()
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); I.b = p.op(I.ty)
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast',
                    'ptrtoint', 'inttoptr', 'addrspacecast'):
            while p.peek() in ('nneg', 'nsw', 'nuw') or p.peek() in FAST: I.flags += (p.next(),)
            I.extra = p.ty(); I.a = p.op(I.extra); p.exp('to'); I.ty = p.ty()
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'): I.flags += (p.next(),)
            I.ty = p.ty(); p.exp(','); t = p.ty(); I.a = p.op(t)
            skip_order(p)
            if p.acc(',') and p.acc('align'): I.extra = int(p.next())
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'): I.flags += (p.next(),)
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); t = p.ty(); I.b = p.op(t)
            skip_order(p)
            if p.acc(',') and p.acc('align'): I.extra = int(p.next())
        elif op == 'alloca':
            if p.peek() == 'inalloca': p.next()
            I.ty = p.ty()
            I.a = ('i', 1)
            while p.acc(','):
                if p.acc('align'): p.next()
                else:
                    t = p.ty(); I.a = p.op(t)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): I.flags += (p.next(),)
            I.ty = p.ty(); p.exp(',')
            t = p.ty(); I.a = p.op(t)
            if t.k != 'ptr': raise IRError('vector gep')
            idx = []
            while p.acc(','):
                t = p.ty(); idx.append((t, p.op(t)))
            I.extra = idx
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); I.a = p.next()
            else:
                p.ty(); I.a = p.op(IntTy(1)); p.exp(','); p.exp('label'); I.b = p.next()
                p.exp(','); p.exp('label'); I.c = p.next()
        elif op == 'switch':
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); p.exp('label'); I.b = p.next()
            p.exp('['); cases = []
            while not p.acc(']'):
                t = p.ty(); v = p.op(t); p.exp(','); p.exp('label'); cases.append((v[1], p.next()))
            I.extra = cases
        elif op == 'ret':
            I.ty = p.ty()
            I.a = None if I.ty.k == 'void' else p.op(I.ty)
        elif op == 'unreachable': pass
        elif op == 'phi':
            while p.peek() in FAST: p.next()
            I.ty = p.ty(); inc = {}
            while True:
                p.exp('['); v = p.op(I.ty); p.exp(','); lb = p.next(); p.exp(']')
                inc[lb] = v
                if not p.acc(','): break
            I.extra = inc
        elif op == 'select':
            while p.peek() in FAST: p.next()
            I.flags = ()
            ct = p.ty(); I.c = (ct, p.op(ct)); p.exp(',')
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); t = p.ty(); I.b = p.op(t)
        elif op in ('call', 'invoke'):
            while p.peek() in FAST or p.peek() in CCONV:
                q = p.next()
                if q in FAST: I.flags = tuple(I.flags or ()) + (q,)
            p.skip_attrs()
            I.ty = p.ty()
            if I.ty.k == 'func': I.ty = I.ty.el
            if p.peek() == 'asm': raise IRError('inline asm')
            callee = p.op(PTR)
            p.exp('('); args = []
            if not p.acc(')'):
                while True:
                    t = p.ty()
                    if t.k == 'metadata':
                        return None      # debug intrinsics
                    bv = p.byval_attr()
                    args.append((t, p.op(t), bv))
                    if p.acc(')'): break
                    p.exp(',')
            I.a, I.b = callee, args
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.exp('to'); p.exp('label'); n = p.next(); p.exp('unwind'); p.exp('label')
                I.extra = ('inv', n, p.next())
        elif op == 'extractvalue':
            t = p.ty(); I.a = p.op(t); I.ty = t
            ix = []
            while p.acc(','): ix.append(int(p.next()))
            I.extra = ix
        elif op == 'insertvalue':
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(',')
            t = p.ty(); I.b = p.op(t); I.c = t
            ix = []
            while p.acc(','): ix.append(int(p.next()))
            I.extra = ix
        elif op == 'extractelement':
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); t = p.ty(); I.b = p.op(t)
        elif op == 'insertelement':
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); t = p.ty(); I.b = p.op(t); p.exp(',')
            t = p.ty(); I.c = p.op(t)
        elif op == 'shufflevector':
            I.ty = p.ty(); I.a = p.op(I.ty); p.exp(','); t = p.ty(); I.b = p.op(t); p.exp(',')
            I.extra = p.ty(); I.c = p.op(I.extra)
        elif op == 'freeze':
            I.ty = p.ty(); I.a = p.op(I.ty)
        elif op in ('landingpad', 'resume'):
            pass
        elif op == 'atomicrmw':
            while p.peek() == 'volatile': p.next()
            I.extra = p.next()
            t = p.ty(); I.a = p.op(t); p.exp(','); I.ty = p.ty(); I.b = p.op(I.ty)
        elif op == 'cmpxchg':
            while p.peek() in ('volatile', 'weak'): p.next()
            t = p.ty(); I.a = p.op(t); p.exp(','); I.ty = p.ty(); I.b = p.op(I.ty); p.exp(','); t = p.ty(); I.c = p.op(t)
        elif op == 'fence': pass
        else:
            raise IRError('instruction %r' % s0)
        return I

def skip_order(p):
    while p.peek() in ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'syncscope'):
        if p.next() == 'syncscope': p.paren()

class Module:
    def __init__(self, text):
        self.structs, self.struct_src = {}, {}
        self.funcs, self.globals, self.decls, self.aliases = {}, {}, set(), {}
        self.dbgline, self.model = {}, layout('')
        self._ctors = self._mut = None
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln: continue
            c = ln[0]
            if c == '%' and ' = type ' in ln:
                nm, b = ln.split(' = type ', 1)
                self.struct_src[nm] = b
            elif c == '@':
                nm, b = ln.split(' = ', 1)
                if re.search(r'\balias\b', b.split('@')[0]):
                    self.aliases[nm] = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', b)[0]
                else:
                    self.globals[nm] = b
            elif c == 'd':
                if ln.startswith('declare'):
                    m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                    self.decls.add(m.group(0))
                elif ln.startswith('define'):
                    m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                    j = i
                    while lines[j] != '}': j += 1
                    self.funcs[m.group(0)] = Func(self, m.group(0), ln.rsplit('{', 1)[0], lines[i:j])
                    i = j + 1
            elif c == 't' and ln.startswith('target datalayout'): self.model = layout(ln.split('"')[1])
            elif c == '!':
                m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m: self.dbgline[int(m.group(1))] = int(m.group(2))
    def struct(self, nm):
        t = self.structs.get(nm)
        if t is None:
            t = self.structs[nm] = Ty('struct', name=nm)
            src = self.struct_src.get(nm)
            if src is None: raise IRError('struct %s' % nm)
            if src.strip() == 'opaque': return t
            p = P(self, tokenize(src))
            d = p.ty()
            t.els, t.packed = d.els, d.packed
        return t
    def ctors(self):
        """functions run before main (dynamic initialisers of namespace-scope objects)"""
        if self._ctors is None:
            b = self.globals.get('@llvm.global_ctors')
            t = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', b) if isinstance(b, str) else []
            self._ctors = [x for x in t if x in self.funcs]
        return self._ctors
    def mutable(self, nm):
        """may the program write this global after start-up?  Only plain loads, and loads through
        address arithmetic, are read-only uses; everything else counts as a write"""
        if self._mut is None: self._scan()
        return nm in self._mut
    def _scan(self):
        self._mut = set()
        gl = re.compile(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)')
        for f in self.funcs.values():
            if f.name.startswith(('@__cxx_global_var_init', '@_GLOBAL__sub_I', '@_GLOBAL__I')): continue
            derived = {}
            lines = [l for l in f.body]
            for l in lines:
                if '@' not in l or 'dbg.' in l: continue
                for g in gl.findall(l):
                    if g not in self.globals: continue
                    self._use(l, g, g, derived)
            for _ in range(6):
                if not derived: break
                cur, derived = derived, {}
                for reg, g in cur.items():
                    pat = re.compile(re.escape(reg) + r'(?![-a-zA-Z$._0-9])')
                    for l in lines:
                        if reg in l and pat.search(l) and not re.match(r'\s*' + re.escape(reg) + r' = ', l):
                            self._use(l, reg, g, derived)
            else:
                for reg, g in derived.items(): self._mut.add(g)
    def _use(self, l, what, g, derived):
        s = l.strip()
        m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (load|getelementptr|icmp)\b', s)
        if m:
            if m.group(2) == 'getelementptr': derived[m.group(1)] = g
            return                      # load through it, or address comparison
        if re.search(r'call .*@llvm\.mem(cpy|move)\.', s):
            a = s[s.index('@llvm.mem'):].split('(', 1)[1].split(', ')
            if what not in a[0]: return
        self._mut.add(g)
    def func(self, nm):
        while nm in self.aliases: nm = self.aliases[nm]
        f = self.funcs.get(nm)
        return f.parse() if f else None
    def glob(self, nm):
        """-> (type, initialiser operand or None, is_constant, thread_local)"""
        b = self.globals[nm]
        if isinstance(b, tuple): return b
        p = P(self, tokenize(b))
        const = False
        init, tl, ext = None, False, False
        while True:
            v = p.peek()
            if v in ('constant', 'global'):
                const = p.next() == 'constant'
                break
            if v in ('external', 'extern_weak'): ext = True
            if v == 'thread_local': tl = True
            p.next()
        t = p.ty()
        if not ext and p.peek() is not None and p.peek() != ',':
            init = p.op(t)
        r = self.globals[nm] = (t, init, const, tl)
        return r
