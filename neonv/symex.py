"""Symbolic executor for LLVM IR over z3 terms.

Executes one function call from an arbitrary symbolic pre-state, exploring both
sides of every symbolic branch and merging at the immediate post-dominator, so
that a single final state describes all inputs.  Every potential misbehaviour
(out-of-bounds access, use of an uninitialised value, signed overflow, ...) is
recorded as an obligation `pc AND bad` which the caller hands to the solver."""
import sys, time, z3
from . import ir
from .vals import *
from . import vals as V
from .externs import STREAM

class Unsupported(Exception): pass
class Unresolved(Exception):
    def __init__(self, name): self.name = name; Exception.__init__(self, 'unresolved symbol %s' % name)
class Dead(Exception): pass           # every path through here ended (abort, throw, ...)
class StepLimit(Exception): pass

class Obl:
    __slots__ = ('kind', 'pc', 'cond', 'line', 'func', 'info')
    def __init__(self, kind, pc, cond, line, func, info=''):
        self.kind, self.pc, self.cond, self.line, self.func, self.info = kind, pc, cond, line, func, info
    def term(self):
        return conj(list(self.pc) + [self.cond])

class Obj:
    __slots__ = ('id', 'size', 'by', 'kind', 'name', 'alive', 'const', 'tok', 'align')
    def __init__(self, id, size, kind, name, tok, const=False, align=16):
        self.id, self.size, self.kind, self.name, self.tok = id, size, kind, name, tok
        self.by = [None] * size
        self.alive, self.const, self.align = True, const, align
    def copy(self, tok):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.name, o.alive, o.const, o.align = \
            self.id, self.size, self.kind, self.name, self.alive, self.const, self.align
        o.by = list(self.by)
        o.tok = tok
        return o

class State:
    __slots__ = ('mem', 'pc', 'tok')
    def __init__(self):
        self.mem, self.pc, self.tok = {}, [], object()
    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.tok = object()
        self.tok = object()     # both sides must copy before writing
        return s

class Frame:
    __slots__ = ('fn', 'allocas', 'visits')
    def __init__(self, fn):
        self.fn, self.allocas, self.visits = fn, [], {}

ROUNDED = [False]      # has any execution consulted the rounding mode
UB_KINDS = ('signed-overflow', 'shift-range', 'float-cast', 'div-zero', 'misaligned', 'inbounds')

ONCE_TLS = ('@_ZSt11__once_call', '@_ZSt15__once_callable')   # always written before they are read
class Machine:
    def __init__(self, mod, max_steps=400000, max_visits=600, globals_mode='init'):
        self.m = mod
        ir.set_model(mod.model)
        self.ash = 32 if ir.PTR.w == 64 else 16          # an address is object number and offset
        self.nid = 1
        self.obls = []
        self.steps = self.states = self.merges = 0
        self.max_steps, self.max_visits = max_steps, max_visits
        self.gobj, self.fobj, self.objfunc, self.ginit = {}, {}, {}, {}
        self.gmode = globals_mode
        self.greads, self.gwrites = set(), set()
        self.undefs = {}
        self.funcs_run = {}
        self.curline, self.curfn = None, ''
        self.nbranch = 0
        self.solver_calls = 0
        self.solver_time = 0.0
        self.depth = 0
        self.booting, self.active, self.atexit = False, {}, []
        self.atomic, self.guarded, self.racy = False, 0, []
        self.locked, self.locked_writes, self.bare_reads, self.state_writes = 0, set(), [], []
        self.addr, self.addrof = {}, {}                  # operands whose address is symbolic: object -> address; terms made from one
        self.outside = {}                                # values from outside the program: name -> terms
        self._solver = None
        self.dispatch = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.assumes = []       # input constraints
        self.exits = []         # (kind, pc, info): abort / exit / throw
        self.externs = {}

    # ------------------------------------------------------------- helpers
    def undef(self, w, why):
        v = fresh('undef', w)
        self.undefs[v.decl().name()] = (v, why, self.curline, self.curfn)
        return v
    def obl(self, st, kind, cond, info=''):
        if cond is False: return
        if not isinstance(cond, bool):
            if z3.is_false(cond): return
        self.obls.append(Obl(kind, tuple(st.pc), cond, self.curline, self.curfn, info))
    def newobj(self, st, size, kind, name='', const=False, align=16):
        o = Obj(self.nid, size, kind, name, st.tok, const, align)
        self.nid += 1
        st.mem[o.id] = o
        return o
    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.tok is not st.tok:
            o = o.copy(st.tok)
            st.mem[oid] = o
        return o
    def feasible(self, st, c):
        """solver query: may the path continue under c?  unknown counts as yes"""
        import time
        s = z3.Solver(); s.set('timeout', 2000)
        for a in self.assumes: s.add(a)
        for a in axioms: s.add(a)
        for p in st.pc: s.add(zb(p))
        s.add(zb(c))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r != z3.unsat

    def largest(self, st, k, w, cap):
        """the largest value k can have here (None: more than cap).  An object whose size depends on the operands gets that
        size; its exact bounds are then not an obligation, which only arises for calls with a symbolic immediate"""
        if not self.feasible(st, True): raise Dead()
        if self.feasible(st, z3.UGT(k, cap)): return None
        lo, hi = 0, cap
        while lo < hi:
            mid = (lo + hi) // 2
            if self.feasible(st, z3.UGT(k, mid)): lo = mid + 1
            else: hi = mid
        return lo

    # ------------------------------------------------------------- globals
    def gptr(self, st, name):
        while name in self.m.aliases: name = self.m.aliases[name]
        if name in self.gobj:
            oid = self.gobj[name]
            if oid in st.mem: return P1(oid, 0)
            if oid in self.ginit:
                self.fresh_global(st, oid)
                return P1(oid, 0)
        if name in self.m.funcs or name in self.m.decls:
            if name not in self.fobj:
                self.fobj[name] = self.nid
                self.objfunc[self.nid] = name
                self.nid += 1
            return P1(self.fobj[name], 0)
        if name not in self.m.globals: raise Unresolved(name)
        t, init, const, tl = self.m.glob(name)
        try: size = ir.size_of(t)
        except ir.IRError: size = 8
        if name in self.gobj:
            oid = self.gobj[name]
        else:
            oid = self.nid; self.nid += 1
            self.gobj[name] = oid
        mut = not const and self.m.mutable(name)
        o = Obj(oid, size, 'global' if mut else 'const', name, st.tok, const, ir.align_of(t))
        st.mem[oid] = o
        if init is None:
            # external object (stderr, ...): opaque contents
            if t.k == 'ptr':
                x = self.newobj(st, 64, 'extern', name + '*')
                q = P1(x.id, 0)
                o.by[:] = [(q, size, k) for k in range(size)]
            elif not (name.startswith('@_ZT') or name.startswith('@__dso')):
                if name == '@__libc_single_threaded': o.by[:] = [(z3.If(fresh('bit', 1) == 1, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 1, 0)]
                else: o.by[:] = [(self.undef(8, 'external ' + name), 1, 0) for _ in range(size)]
            return P1(oid, 0)
        self._init(st, o, 0, t, init)
        if not const and self.gmode == 'havoc' and not name.startswith('@_ZGV') and mut:
            self._havoc(st, o, t, 0)
        self.ginit[oid] = o.copy(None)
        return P1(oid, 0)
    def fresh_global(self, st, oid):
        """the global in its state before the first access (the same variables in every state)"""
        o = self.ginit[oid].copy(st.tok)
        st.mem[oid] = o
        return o

    # --- floating-point environment: one object holding the rounding mode (0, 0x400, 0x800, 0xc00 as in <fenv.h>)
    def fenv(self, st):
        return self.pseudo(st, '@!fenv')
    def pseudo(self, st, name, init=0):
        """a 32-bit location standing for an effect outside memory (initially 0)"""
        oid = self.gobj.get(name)
        if oid is None:
            oid = self.nid; self.nid += 1
            self.gobj[name] = oid
            o = Obj(oid, 4, 'global', name, None, False, 4)
            o.by[:] = [(init, 4, k) for k in range(4)]
            self.ginit[oid] = o
        if oid not in st.mem: self.fresh_global(st, oid)
        return P1(oid, 0)
    def mark(self, st, name): self.store(st, ir.IntTy(32), self.pseudo(st, name), 1)
    def heap(self, st, d):
        """number of live allocations changes by d (what program start-up and one-time initialisation
        of a static object allocate belongs to that object, not to a call)"""
        if self.booting or self.guarded: return
        p = self.pseudo(st, '@!heap')
        self.store(st, ir.IntTy(32), p, add(self.marked(st, '@!heap'), d, 32))
    def marked(self, st, name):
        """value of the pseudo location on the paths of st"""
        oid = self.gobj.get(name)
        if oid is None or oid not in st.mem: return 0
        return mat(self._get(st, st.mem[oid], 0, ir.IntTy(32)))
    def get_rm(self, st):
        ROUNDED[0] = True
        return mat(self.load(st, ir.IntTy(32), self.fenv(st)))
    def set_rm(self, st, v):
        self.store(st, ir.IntTy(32), self.fenv(st), v)
    FLUSH = 0x1008      # flush-to-zero and denormals-are-zero, as set_rm() keeps them
    def flush(self, st):
        """(flush-to-zero, denormals-are-zero)"""
        v = self.marked(st, '@!fenv')
        if not isc(v): v = cval(z3.simplify(bv(band(v, self.FLUSH, 32), 32)))
        if isc(v): return bool(v & 0x1000), bool(v & 8)
        return tuple(z3.simplify(z3.Extract(k, k, v) == 1) for k in (12, 3))
    def rm(self, st):
        if any(x is not False for x in self.flush(st)): raise Unsupported('flush-to-zero mode')
        return self.rm0(st)
    def rm0(self, st):
        """rounding mode in force"""
        ROUNDED[0] = True
        oid = self.gobj.get('@!fenv')
        if oid is None or oid not in st.mem: return RNE
        v = self.get_rm(st)
        if isc(v):
            if v & 0xc00 == 0: return RNE
            return {0x400: RTN, 0x800: RTP, 0xc00: RTZ}[v & 0xc00]
        x = z3.Extract(11, 10, v)
        r = z3.simplify(z3.If(x == 0, RNE, z3.If(x == 1, RTN, z3.If(x == 2, RTP, RTZ))))
        V._keep.append(r)
        return r
    def boot(self, st):
        """dynamic initialisation of namespace-scope objects, before the first call"""
        for c in self.m.ctors():
            self.booting = True
            try: _, st = self.call(st, c, [])
            finally: self.booting = False
        return st
    def shutdown(self, st):
        """what runs when the program ends: registered destructors and handlers, last registered first"""
        l, self.atexit = self.atexit, []
        for f, a, pc in reversed(l):
            if len(f.alts) != 1 or f.alts[0][1] not in self.objfunc: raise Unsupported('exit handler')
            if any(not z3.is_true(z3.simplify(zb(p))) for p in pc): raise Unsupported('conditionally registered exit handler')
            self.booting = True
            try: _, st = self.call(st, self.objfunc[f.alts[0][1]], a)
            finally: self.booting = False
        return st
    def _havoc(self, st, o, t, off):
        if t.k == 'struct':
            for e, f in zip(t.els, ir.offsets(t)): self._havoc(st, o, e, off + f)
        elif t.k in ('arr', 'vec'):
            s = ir.size_of(t.el)
            for i in range(t.n): self._havoc(st, o, t.el, off + i * s)
        elif t.k == 'int' or t.k in ir.FLOATK:
            n = ir.store_size(t)
            v = z3.BitVec('glob:%s+%d' % (o.name, off), 8 * n)
            x = F(8 * n, bits=v) if t.k in ir.FLOATK else v
            o.by[off:off + n] = [(x, n, k) for k in range(n)]
    def _init(self, st, o, off, t, c):
        if c[0] in ('undef', 'poison'): return
        if c[0] == 'zero':
            n = ir.size_of(t)
            o.by[off:off + n] = [(0, 1, 0)] * n
            return
        if c[0] == 'cstr':
            o.by[off:off + len(c[1])] = [(b, 1, 0) for b in c[1]]
            return
        if c[0] == 'agg':
            if t.k == 'struct':
                for (et, ec), f in zip(c[1], ir.offsets(t)): self._init(st, o, off + f, et, ec)
            else:
                s = ir.size_of(t.el)
                for i, (et, ec) in enumerate(c[1]): self._init(st, o, off + i * s, et, ec)
            return
        v = self.const(st, t, c)
        self._put(o, off, t, v)

    # ------------------------------------------------------------- operands
    def const(self, st, t, c):
        k = c[0]
        if k == 'i': return bool(c[1]) if t.w == 1 else c[1]
        if k == 'f' and t.w == 80:
            b = c[1]
            return F(80, fp=z3.simplify(z3.fpBVToFP(z3.BitVecVal((b >> 64) << 63 | b & M(63), 79), SORT[80])))
        if k == 'f': return F(t.w, bits=c[1])
        if k == 'null': return NULL
        if k in ('undef', 'poison'): return self.undef_of(t)
        if k == 'zero': return self.zero(t)
        if k == 'agg': return tuple(self.const(st, et, ec) for et, ec in c[1])
        if k == 'cstr': return tuple(c[1])
        if k == 'g': return self.gptr(st, c[1])
        if k == 'ce':
            if c[1] == 'gep':
                base = self.const(st, c[3][0][0], c[3][0][1])
                return self.gep(st, c[2], base, [(it, self.const(st, it, iv)) for it, iv in c[3][1:]], False)
            if c[1] in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                a, b = [self.const(st, x, y) for x, y in c[3]]
                return {'add': V.add, 'sub': V.sub, 'mul': V.mul, 'xor': V.bxor, 'and': V.band, 'or': V.bor,
                        'shl': V.shl}[c[1]](a, b, t.w)
            v = self.const(st, c[2], c[3])
            return self.cast(st, c[1], c[2], v, c[4])
        raise Unsupported('constant %r' % (c,))
    def zero(self, t):
        if t.k == 'int': return False if t.w == 1 else 0
        if t.k in ir.FLOATK: return F(t.w, bits=0)
        if t.k == 'x86_fp80': return F(80, fp=z3.FPVal(0.0, SORT[80]))
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return tuple(self.zero(e) for e in t.els)
        if t.k in ('arr', 'vec'): return tuple(self.zero(t.el) for _ in range(t.n))
        raise Unsupported('zero %r' % t)
    def undef_of(self, t):
        if t.k == 'int':
            if t.w == 1: return self.undef(1, 'undef') == 1
            return self.undef(t.w, 'undef')
        if t.k in ir.FLOATK: return F(t.w, bits=self.undef(t.w, 'undef'))
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return tuple(self.undef_of(e) for e in t.els)
        if t.k in ('arr', 'vec'): return tuple(self.undef_of(t.el) for _ in range(t.n))
        if t.k == 'x86_fp80': return F(80, fp=z3.FPVal(0.0, SORT[80]))
        raise Unsupported('undef %r' % t)
    def val(self, st, regs, t, o):
        if o[0] == 'l':
            return regs[o[1]]
        if o[0] == 'i': return bool(o[1]) if t.w == 1 else o[1]
        return self.const(st, t, o)

    # ------------------------------------------------------------- memory
    def _put(self, o, off, t, v):
        k = t.k
        if k == 'int':
            n = (t.w + 7) // 8
            if t.w == 1:
                v = int(v) if isinstance(v, bool) else ite(v, 1, 0, 8)
            elif t.w % 8:
                v = zext(mat(v), t.w, 8 * n)
            if isinstance(v, Parts):
                o.by[off:off + n] = v.parts
            else:
                o.by[off:off + n] = [(v, n, j) for j in range(n)]
        elif k in ir.FLOATK or k == 'x86_fp80':
            n = ir.store_size(t)
            o.by[off:off + n] = [(v, n, j) for j in range(n)]
        elif k == 'ptr':
            n = ir.size_of(t)
            o.by[off:off + n] = [(v, n, j) for j in range(n)]
        elif k == 'struct':
            for e, f, x in zip(t.els, ir.offsets(t), v): self._put(o, off + f, e, x)
        elif k in ('arr', 'vec'):
            s = ir.size_of(t.el)
            for i, x in enumerate(v): self._put(o, off + i * s, t.el, x)
        else: raise Unsupported('store %r' % t)
    def _get(self, st, o, off, t):
        k = t.k
        if k == 'struct':
            return tuple(self._get(st, o, off + f, e) for e, f in zip(t.els, ir.offsets(t)))
        if k in ('arr', 'vec'):
            s = ir.size_of(t.el)
            return tuple(self._get(st, o, off + i * s, t.el) for i in range(t.n))
        n = ir.store_size(t)
        ent = o.by[off:off + n]
        if None in ent:
            o = self.wobj(st, o.id)
            if all(e is None for e in ent) and k != 'ptr':
                u = self.undef(8 * n, 'uninitialised %s+%d' % (o.name, off))
                ent = [(u, n, j) for j in range(n)]
            else:
                ent = [e if e is not None else (self.undef(8, 'uninitialised %s+%d' % (o.name, off + i)), 1, 0)
                       for i, e in enumerate(ent)]
            o.by[off:off + n] = ent
        v0, n0, k0 = ent[0]
        whole = k0 == 0 and n0 == n and all(e[0] is v0 and e[2] == i for i, e in enumerate(ent))
        if k == 'ptr':
            if whole and isinstance(v0, Ptr): return v0
            x = V._parts_value(ent)
            x = mat(x)
            return self.int2ptr(x)
        if k in ir.FLOATK:
            if whole and isinstance(v0, F): return v0
            x = V._parts_value(ent)
            return F(8 * n, bits=mat(x))
        if k == 'x86_fp80':
            if whole and isinstance(v0, F): return v0
            raise Unsupported('x86_fp80 bytes')
        if k == 'int':
            if whole and isinstance(v0, Ptr):
                return self.ptr2int(v0)
            if whole and isinstance(v0, F):
                return Parts(tuple(ent)) if not v0.conc else v0.bits
            v = V._parts_value(ent)
            if t.w == 1:
                v = mat(v)
                return bool(v & 1) if isc(v) else trunc(v, 8, 1) == z3.BitVecVal(1, 1)
            if t.w % 8: return trunc(mat(v), 8 * n, t.w)
            return v
        raise Unsupported('load %r' % t)

    def cands(self, o, alt, n):
        """[(cond, offset)] for a symbolic offset"""
        _, _, c, s, stride = alt
        lo = c % stride
        res = []
        last = o.size - n
        if last >= lo and (last - lo) // stride > 4096: raise Unsupported('symbolic index into large object')
        for off in range(lo, last + 1, stride):
            k = nb(self.simp(s == z3.BitVecVal((off - c) & M(64), 64)))
            if k is False: continue
            res.append((k, off))
        return res
    def simp(self, b):
        return z3.simplify(b)
    def access(self, st, p, n, write, what=''):
        """-> [(cond, obj, offset)]; records out-of-bounds obligations"""
        out = []
        for alt in p.alts:
            cond, oid, c, s, stride = alt
            o = st.mem.get(oid)
            if o is None and oid in self.ginit:     # reached through a pointer before anything named it on this path
                self.fresh_global(st, oid); o = st.mem[oid]
            tag = 'oob-write' if write else 'oob-read'
            if o is None or not o.alive:
                self.obl(st, tag, cond, 'null, dangling or function pointer' + what)
                continue
            if write and o.const and not self.booting:
                self.obl(st, tag, cond, 'write to constant %s' % o.name)
                continue
            if o.kind == 'global' and o.name not in ONCE_TLS:
                (self.gwrites if write else self.greads).add(o.name)
                if write and not self.booting and not o.name.startswith('@!'): self.state_writes.append((tuple(st.pc), cond, o.name))
                if write and self.locked: self.locked_writes.add(o.name)
                if not write and not self.atomic and not self.guarded and not self.booting and o.name in self.m.globals and not self.m.glob(o.name)[3] and not o.name.startswith(('@!', '@_ZGV')):
                    self.bare_reads.append((tuple(st.pc), cond, o.name, self.curline, self.curfn))
                if write and not self.atomic and not self.guarded and not self.booting and not o.name.startswith(('@!', '@_ZGV')) \
                        and o.name in self.m.globals and not self.m.glob(o.name)[3]:
                    self.racy.append((tuple(st.pc), cond, o.name, self.curline, self.curfn))
            if s is None:
                if isinstance(c, int) and 0 <= sgn(c & M(64), 64) and sgn(c & M(64), 64) + n <= o.size:
                    out.append((cond, o, sgn(c & M(64), 64)))
                else:
                    self.obl(st, tag, cond, '%s: bytes %d..%d of %d' % (o.name, sgn(c & M(64), 64), sgn(c & M(64), 64) + n, o.size))
            else:
                cs = self.cands(o, alt, n)
                inside = False
                for k, off in cs:
                    inside = bor1(inside, k)
                    out.append((band1(cond, k), o, off))
                self.obl(st, tag, band1(cond, bnot1(inside)), '%s: symbolic index, size %d' % (o.name, o.size))
        return out
    def load(self, st, t, p):
        if t.k in ('struct', 'arr') :
            # aggregate load: element-wise
            if t.k == 'struct':
                return tuple(self.load(st, e, self.padd(p, f)) for e, f in zip(t.els, ir.offsets(t)))
            s = ir.size_of(t.el)
            return tuple(self.load(st, t.el, self.padd(p, i * s)) for i in range(t.n))
        n = ir.size_of(t) if t.k in ('vec', 'ptr', 'x86_fp80') else ir.store_size(t)
        acc = self.access(st, p, n, False)
        if not acc:
            # every alternative is out of bounds: undefined value
            return self.undef_of(t)
        if len(acc) == 1 and (acc[0][0] is True):
            return self._get(st, acc[0][1], acc[0][2], t)
        # with a symbolic pointer the final else is an undefined value if the
        # candidates are not exhaustive; the oob obligation covers that case
        r = None
        exhaustive = all(a[3] is None for a in p.alts) and len(acc) == len(p.alts)
        if not exhaustive:
            r = self.undef_of(t)
        for c, o, off in reversed(acc):
            v = self._get(st, st.mem[o.id], off, t)
            r = v if r is None else self.mite(c, v, r, t)
        return r
    def store(self, st, t, p, v):
        if t.k == 'struct':
            for e, f, x in zip(t.els, ir.offsets(t), v): self.store(st, e, self.padd(p, f), x)
            return
        if t.k == 'arr':
            s = ir.size_of(t.el)
            for i, x in enumerate(v): self.store(st, t.el, self.padd(p, i * s), x)
            return
        n = ir.size_of(t) if t.k in ('vec', 'ptr', 'x86_fp80') else ir.store_size(t)
        acc = self.access(st, p, n, True)
        for c, o, off in acc:
            ob = self.wobj(st, o.id)
            if c is True: self._put(ob, off, t, v)
            else:
                old = self._get(st, ob, off, t)
                ob = self.wobj(st, o.id)
                self._put(ob, off, t, self.mite(c, v, old, t))
    def padd(self, p, k):
        if k == 0: return p
        return Ptr(tuple((c, o, (f + k), s, d) for c, o, f, s, d in p.alts))
    def ptr2int(self, p):
        r = None
        for c, o, f, s, d in reversed(p.alts):
            b = self.addr.get(o)
            x = ((o << self.ash) + f) & M(64) if b is None else V.add(b, f & M(64), 64)
            if s is not None: x = V.add(x, s, 64)
            if b is not None: self.addrof[x.get_id()] = (o, V.add(f & M(64), s, 64) if s is not None else f & M(64)); V._keep.append(x)
            r = x if r is None else ite(c, x, r, 64)
        return r
    def int2ptr(self, x):
        if isc(x):
            return P1(x >> self.ash, x & M(self.ash)) if x >> self.ash < (1 << 20) else P1(0, x)
        x = z3.simplify(x)
        while kind(x) == OP['CONCAT'] and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0: x = x.arg(1)
        if z3.is_bv_value(x): return self.int2ptr(x.as_long())
        if z3.is_app(x) and kind(x) == OP['ITE']:
            a, b = self.int2ptr(cval(x.arg(1))), self.int2ptr(cval(x.arg(2)))
            return self.mite(x.arg(0), a, b, ir.PTR)
        # computed from the address of one of the caller's operands
        if self.addr:
            k = self.addrof.get(x.get_id())
            fv = set(free_vars(x))
            os_ = [o for o, b in self.addr.items() if free_vars(b) <= fv] if k is None else [k[0]]
            if len(os_) == 1:
                off = k[1] if k else cval(z3.simplify(x - self.addr[os_[0]]))
                return P1(os_[0], sgn(off, 64)) if isc(off) else Ptr(((True, os_[0], 0, off, 1),))
        # base + symbolic
        if kind(x) == OP['BADD'] and z3.is_bv_value(x.arg(0)):
            b = x.arg(0).as_long()
            rest = x.arg(1) if x.num_args() == 2 else z3.simplify(x - b)
            if rest.size() < 64: rest = z3.SignExt(64 - rest.size(), rest)
            return Ptr(((True, b >> self.ash, b & M(self.ash), rest, 1),))
        raise Unsupported("inttoptr of symbolic integer in %s line %s" % (self.curfn, self.curline))

    # ------------------------------------------------------------- merging
    def mite(self, c, a, b, t):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        k = t.k
        if k == 'int':
            if t.w == 1:
                if isinstance(a, bool) and isinstance(b, bool):
                    if a == b: return a
                    return c if a else bnot1(c)
                return z3.If(c, zb(a), zb(b))
            return ite(c, a, b, t.w)
        if k in ir.FLOATK or k == 'x86_fp80': return itef(c, a, b)
        if k == 'ptr':
            if a.alts == b.alts: return a
            return Ptr(tuple((band1(c, x[0]),) + x[1:] for x in a.alts) +
                       tuple((band1(bnot1(c), x[0]),) + x[1:] for x in b.alts))
        if k == 'struct': return tuple(self.mite(c, x, y, e) for x, y, e in zip(a, b, t.els))
        if k in ('arr', 'vec'): return tuple(self.mite(c, x, y, t.el) for x, y in zip(a, b))
        raise Unsupported('merge %r' % t)
    def merge_ent(self, st, c, a, b, o, i):
        """merge two differing byte runs starting at i; returns list of entries"""
    def merge_states(self, arr, base_pc):
        """arr: [(cond-list suffix, state)] -> merged state.  The suffixes are mutually
        exclusive; together they need not be exhaustive (dead paths)."""
        self.merges += 1
        sts = [s for s in arr]
        nb_ = len(base_pc)
        suff = [conj(s.pc[nb_:]) for s in sts]
        res = sts[0]
        out = State()
        out.mem = dict(res.mem)
        out.tok = object()
        cov = suff[0]
        for s, c in zip(sts[1:], suff[1:]):
            self._merge_mem(out, s, c)
            cov = bor1(cov, c)
        cov = nb(z3.simplify(zb(cov)))
        out.pc = list(base_pc) + ([] if cov is True else [cov])
        return out, suff
    def _merge_mem(self, out, s, c):
        """out := ite(c, s, out)"""
        for oid in [x for x in out.mem if x in self.ginit and x not in s.mem]:
            if out.mem[oid].kind == 'global': self.fresh_global(s, oid)
        for oid, so in list(s.mem.items()):
            oo = out.mem.get(oid)
            if oo is None and oid in self.ginit and so.kind == 'global':
                oo = self.fresh_global(out, oid)
            if oo is None:
                out.mem[oid] = so          # allocated on one side only
                continue
            if oo is so or oo.by is so.by: continue
            ow = oo
            i, n = 0, oo.size
            nby = None
            while i < n:
                a, b = so.by[i], oo.by[i]
                if a is b or (a is not None and b is not None and a[0] is b[0] and a[1:] == b[1:]):
                    i += 1; continue
                if a is not None and b is not None and a[2] == b[2] == 0 and isinstance(a[0], int) and isinstance(b[0], int) \
                        and a[1] == b[1] and a[0] == b[0] and self._whole(so.by, i) and self._whole(oo.by, i):
                    i += a[1]; continue
                if nby is None:
                    nby = list(oo.by)
                # whole typed cell on both sides?
                wa, wb = self._whole(so.by, i), self._whole(oo.by, i)
                if wa and wb and a[1] == b[1] and isinstance(a[0], Ptr) == isinstance(b[0], Ptr):
                    k = a[1]
                    x, y = a[0], b[0]
                    if isinstance(x, Ptr): v = self.mite(c, x, y, ir.PTR)
                    elif isinstance(x, F) and isinstance(y, F): v = itef(c, x, y)
                    else:
                        v = ite(c, V.scal_bits(x, k), V.scal_bits(y, k), 8 * k)
                    nby[i:i + k] = [(v, k, j) for j in range(k)]
                    i += k; continue
                if wa and b is None and not isinstance(a[0], Ptr) and all(e is None for e in oo.by[i:i + a[1]]):
                    k = a[1]
                    u = self.undef(8 * k, 'uninitialised %s+%d' % (oo.name, i))
                    if isinstance(a[0], F): v = itef(c, a[0], F(8 * k, bits=u))
                    else: v = ite(c, V.scal_bits(a[0], k), u, 8 * k)
                    nby[i:i + k] = [(v, k, j) for j in range(k)]
                    i += k; continue
                if wb and a is None and not isinstance(b[0], Ptr) and all(e is None for e in so.by[i:i + b[1]]):
                    k = b[1]
                    u = self.undef(8 * k, 'uninitialised %s+%d' % (oo.name, i))
                    if isinstance(b[0], F): v = itef(c, F(8 * k, bits=u), b[0])
                    else: v = ite(c, u, V.scal_bits(b[0], k), 8 * k)
                    nby[i:i + k] = [(v, k, j) for j in range(k)]
                    i += k; continue
                if (wa and isinstance(a[0], Ptr)) or (wb and isinstance(b[0], Ptr)):
                    # pointer on one side, nothing/other on the other: keep the pointer (the other
                    # side can only be read through an uninitialised pointer)
                    src = so.by if (wa and isinstance(a[0], Ptr)) else oo.by
                    k = src[i][1]
                    nby[i:i + k] = src[i:i + k]
                    i += k; continue
                xa = self._byte(a, oo, i); xb = self._byte(b, oo, i)
                nby[i] = (ite(c, xa, xb, 8), 1, 0)
                i += 1
            if nby is not None or oo.alive != so.alive:
                w = Obj.__new__(Obj)
                w.id, w.size, w.kind, w.name, w.const, w.align = oo.id, oo.size, oo.kind, oo.name, oo.const, oo.align
                w.by = nby if nby is not None else list(oo.by)
                w.alive = oo.alive or so.alive
                w.tok = out.tok
                out.mem[oid] = w
    def _whole(self, by, i):
        e = by[i]
        if e is None or e[2] != 0: return False
        n, v = e[1], e[0]
        if i + n > len(by): return False
        for j in range(1, n):
            q = by[i + j]
            if q is None or q[0] is not v or q[2] != j: return False
        return True
    def _byte(self, e, o, i):
        if e is None: return self.undef(8, 'uninitialised %s+%d' % (o.name, i))
        v, n, k = e
        b = V.scal_bits(v, n)
        if isinstance(b, Ptr): raise Unsupported('merge of pointer bytes')
        return extract(b, 8 * n, 8 * k, 8)

    # ------------------------------------------------------------- calls
    def call(self, st, name, args):
        """-> (retval, state); raises Dead if no path returns"""
        while name in self.m.aliases: name = self.m.aliases[name]
        fn = self.m.func(name)
        if fn is None and name in ('@pthread_once', '@call_once', '@__once_proxy'): return self.once(st, name, args)
        if fn is None or STREAM.match(name, 1):
            return self.extern(st, name, args)
        self.funcs_run[name] = fn.ninstr
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion deeper than 60')
        fr = Frame(fn)
        regs = {}
        for (t, n), a in zip(fn.params, args): regs[n] = self.conform(t, a)
        if len(args) < len(fn.params): raise Unsupported('call of %s with too few arguments' % name)
        if fn.vararg: raise Unsupported('variadic function %s' % name)
        sv = (self.curline, self.curfn)
        self.active[name] = self.active.get(name, 0) + 1
        try:
            arr = self.region(fr, regs, st, fn.entry, None, '#exit', None)
        finally:
            self.active[name] -= 1
            self.depth -= 1
            self.curline, self.curfn = sv
        if not arr: raise Dead()
        _, st2, rv = arr[0] if len(arr) == 1 else self.join_ret(arr, fn)
        for oid in fr.allocas:
            if oid in st2.mem:
                del st2.mem[oid]
        return rv, st2
    def once(self, st, name, args):
        """pthread_once / call_once, and the trampoline std::call_once hands to them"""
        if name == '@__once_proxy': p = self.load(st, ir.PTR, self.gptr(st, '@_ZSt11__once_call'))
        else:
            v, p = mat(self.load(st, ir.IntTy(32), args[0])), args[1]
            if not isc(v): v = cval(z3.simplify(v))
            if not isc(v): raise Unsupported('call_once with an unknown flag')
            if v: return 0, st
            self.guarded += 1
        if len(p.alts) != 1 or p.alts[0][1] not in self.objfunc: raise Unsupported('call_once of an unknown function')
        _, st = self.call(st, self.objfunc[p.alts[0][1]], [])
        if name == '@__once_proxy': return None, st
        self.store(st, ir.IntTy(32), args[0], 2)
        self.guarded = max(0, self.guarded - 1)
        return 0, st
    def conform(self, t, a):
        """an argument passed through a declaration of another type arrives as its register image (x86-64)"""
        if t.k in ('float', 'double'):
            if not isinstance(a, F): raise Unsupported('argument class mismatch')
            w = 32 if t.k == 'float' else 64
            if a.w > w: return F(w, bits=trunc(a.bits, a.w, w))
            if a.w < w: return F(w, bits=concat(self.undef(w - a.w, 'upper half of an argument register'), w - a.w, a.bits, a.w))
        elif t.k == 'int' and t.w > 1 and not isinstance(a, (F, Ptr, tuple, Parts)):
            if isinstance(a, int): return a & M(t.w)
            if z3.is_bv(a) and a.size() != t.w:
                if a.size() < t.w: raise Unsupported('argument width mismatch')
                return trunc(a, a.size(), t.w)
        return a
    def join_ret(self, arr, fn):
        base = self.common([a[1].pc for a in arr])
        out, suff = self.merge_states([a[1] for a in arr], base)
        rv = arr[0][2]
        if fn.ret.k != 'void':
            for (r, s, v), c in list(zip(arr, suff))[1:]:
                rv = self.mite(c, v, rv, fn.ret)
        return arr[0][0], out, rv
    def common(self, pcs):
        base = []
        for xs in zip(*pcs):
            x0 = xs[0]
            if all(x is x0 or (not isinstance(x, bool) and not isinstance(x0, bool) and x.eq(x0)) for x in xs):
                base.append(x0)
            else: break
        return base

    def region(self, fr, regs, st, b, prev, stop, pre):
        """run from block b until `stop`; returns arrivals [(regs, state, prev-block | return value)].
        pre: already evaluated phi values of b."""
        fn = fr.fn
        disp = self.dispatch
        while True:
            if b == stop: return [(regs, st, prev)]
            blk = fn.blocks[b]
            self.states += 1
            if blk.phis and pre is None:
                vals_ = [(I.res, self.val(st, regs, I.ty, I.extra[prev])) for I in blk.phis]
                for r, v in vals_: regs[r] = v
            pre = None
            ins = blk.ins
            self.steps += len(ins)
            if self.steps > self.max_steps or time.time() > V.DEADLINE[0]: raise StepLimit('%d instructions' % self.steps)
            for I in ins[:-1]:
                if I.dbg is not None:
                    self.curline = self.m.dbgline.get(I.dbg)
                self.curfn = fn.name
                h = disp.get(I.op)
                if h is None or 'unsupported' in I.flags: raise Unsupported(I.op)
                if I.op == 'call':
                    r = self.op_call(fr, regs, st, I)
                    st = r[1]
                    if I.res: regs[I.res] = r[0]
                else:
                    r = h(fr, regs, st, I)
                    if I.res: regs[I.res] = r
            T = ins[-1]
            op = T.op
            if T.dbg is not None: self.curline = self.m.dbgline.get(T.dbg)
            self.curfn = fn.name
            if op == 'ret':
                rv = None if T.a is None else self.val(st, regs, T.ty, T.a)
                assert stop == '#exit', 'ret inside region'
                return [(regs, st, rv)]
            if op == 'unreachable':
                # reached undefined behaviour (falling off the end etc.)
                self.obl(st, 'unreachable', True)
                self.exits.append(('unreachable', list(st.pc), ''))
                return []
            if op == 'invoke':
                try:
                    r = self.op_call(fr, regs, st, T)
                except Dead:
                    return []
                st = r[1]
                if T.res: regs[T.res] = r[0]
                prev, b = b, T.extra[1]
                continue
            if op in ('resume',): return []
            if op == 'br':
                if T.c is None:
                    prev, b = b, T.a
                    continue
                c = self.val(st, regs, ir.IntTy(1), T.a)
                if not isinstance(c, bool): c = nb(z3.simplify(c))
                if isinstance(c, bool):
                    prev, b = b, (T.b if c else T.c)
                    continue
                cases = [(c, T.b), (bnot1(c), T.c)]
            elif op == 'switch':
                v = mat(self.val(st, regs, T.ty, T.a))
                if not isc(v): v = cval(z3.simplify(v))
                if isc(v):
                    t = T.b
                    for k, l in T.extra:
                        if k == v: t = l; break
                    prev, b = b, t
                    continue
                cases, els = [], True
                for k, l in T.extra:
                    e = nb(z3.simplify(eq(v, k, T.ty.w)))
                    cases.append((e, l)); els = band1(els, bnot1(e))
                cases.append((els, T.b))
                cases = [x for x in cases if x[0] is not False]
                # group equal targets
                g = {}
                for e, l in cases: g[l] = bor1(g.get(l, False), e)
                cases = [(e, l) for l, e in g.items()]
            else:
                raise Unsupported(op)
            # symbolic branch
            self.nbranch += 1
            k = fr.visits.get(b, 0) + 1
            fr.visits[b] = k
            loop = k > 1 and fn.loop_branch(b)
            if k > self.max_visits: raise StepLimit()
            self.undef_branch(st, cases)
            j = fn.ipdom.get(b) if b in fn.canret else None
            arr = []
            live = []
            for e, l in cases:
                if (loop or j is None or l not in fn.canret or self.active.get(fn.name, 0) > 4) and not self.feasible(st, e): continue
                live.append((e, l))
            if len(live) == 1 and len(cases) > 1:
                st.pc.append(live[0][0])
                prev, b = b, live[0][1]
                continue
            base = list(st.pc)
            for e, l in live:
                s2 = st.fork()
                s2.pc.append(e)
                try:
                    arr += self.region(fr, dict(regs), s2, l, b, j if j is not None else '#exit', None)
                except Dead:
                    pass
            if not arr: return []
            if j == stop or j is None: return arr
            if j == '#exit':
                return arr
            # join at j
            jb = fn.blocks[j]
            outs = []
            for r, s, p in arr:
                outs.append([self.val(s, r, I.ty, I.extra[p]) for I in jb.phis])
            if len(arr) == 1:
                regs, st = dict(arr[0][0]), arr[0][1]
                for I, v in zip(jb.phis, outs[0]): regs[I.res] = v
            else:
                st, suff = self.merge_states([a[1] for a in arr], base)
                regs = dict(regs)
                for i, I in enumerate(jb.phis):
                    v = outs[0][i]
                    for q in range(1, len(arr)): v = self.mite(suff[q], outs[q][i], v, I.ty)
                    regs[I.res] = v
            b, prev, pre = j, None, True
    def undef_branch(self, st, cases):
        if not self.undefs: return
        for e, l in cases[:1]:
            us = free_undefs(e, self.undefs)
            if us:
                # can the decision differ for the same inputs?
                sub_ = [(self.undefs[u][0], fresh('undef2', self.undefs[u][0].size())) for u in us]
                e2 = z3.substitute(e, *sub_)
                self.obl(st, 'uninit-branch', z3.Xor(e, e2), self.undefs[us[0]][1])

    # ------------------------------------------------------------- instructions
    def op_alloca(self, fr, regs, st, I):
        n = self.val(st, regs, ir.IntTy(64), I.a)
        if not isc(n): n = self.largest(st, mat(n), 64, 4096 // max(1, ir.size_of(I.ty)))
        if n is None: raise Unsupported('symbolic alloca')
        o = self.newobj(st, ir.size_of(I.ty) * n, 'stack', I.res)
        fr.allocas.append(o.id)
        return P1(o.id, 0)
    def op_load(self, fr, regs, st, I):
        p = self.val(st, regs, ir.PTR, I.a)
        if I.extra: self.alignchk(st, p, I.extra)
        self.atomic = bool(I.flags) and 'atomic' in I.flags
        try: return self.load(st, I.ty, p)
        finally: self.atomic = False
    def alignchk(self, st, p, al):
        for c, oid, f, s, d in p.alts:
            o = st.mem.get(oid)
            if o is not None and o.align < al: self.obl(st, 'misaligned', c, '%s aligned to %d, accessed at %d' % (o.name, o.align, al))
    def op_store(self, fr, regs, st, I):
        p = self.val(st, regs, ir.PTR, I.b)
        if I.extra: self.alignchk(st, p, I.extra)
        v = self.val(st, regs, I.ty, I.a)
        self.atomic = bool(I.flags) and 'atomic' in I.flags
        try: self.store(st, I.ty, p, v)
        finally: self.atomic = False
    def op_fence(self, fr, regs, st, I): return None
    def op_atomicrmw(self, fr, regs, st, I):
        p, x, w = self.val(st, regs, ir.PTR, I.a), self.val(st, regs, I.ty, I.b), I.ty.w
        self.atomic = True
        try:
            old = mat(self.load(st, I.ty, p))
            k, x = I.extra, mat(x)
            if k == 'xchg': r = x
            elif k in ('add', 'sub'): r = (V.add if k == 'add' else V.sub)(old, x, w)
            elif k in ('and', 'or', 'xor'): r = {'and': band, 'or': bor, 'xor': bxor}[k](old, x, w)
            elif k in ('max', 'min', 'umax', 'umin'):
                r = ite(cmp(('u' if k[0] == 'u' else 's') + ('gt' if k.endswith('max') else 'lt'), old, x, w), old, x, w)
            else: raise Unsupported('atomicrmw ' + k)
            self.store(st, I.ty, p, r)
        finally: self.atomic = False
        return old
    def op_cmpxchg(self, fr, regs, st, I):
        p, e, x, w = self.val(st, regs, ir.PTR, I.a), mat(self.val(st, regs, I.ty, I.b)), mat(self.val(st, regs, I.ty, I.c)), I.ty.w
        self.atomic = True
        try:
            old = mat(self.load(st, I.ty, p))
            same = eq(old, e, w)
            self.store(st, I.ty, p, ite(same, x, old, w))
        finally: self.atomic = False
        return (old, same)
    def op_getelementptr(self, fr, regs, st, I):
        p = self.val(st, regs, ir.PTR, I.a)
        return self.gep(st, I.ty, p, [(t, self.val(st, regs, t, o)) for t, o in I.extra], 'inbounds' in I.flags, 'accessed' in I.flags)
    def gep(self, st, t, p, idx, inb, strict=None):
        c, syms = 0, []
        first = True
        for it, v in idx:
            v = mat(v)
            if first:
                sc = ir.size_of(t); first = False
            elif t.k == 'struct':
                k = sgn(v, it.w)
                c += ir.offsets(t)[k]; t = t.els[k]
                continue
            else:
                n = t.n
                sc = ir.size_of(t.el); t = t.el
                if inb and strict is not None and n > 0:
                    lim = n if strict else n + 1
                    if isc(v):
                        if not 0 <= sgn(v, it.w) < lim: self.obl(st, 'array-bounds', True, 'index %d of an array of %d' % (sgn(v, it.w), n))
                    elif it.w >= lim.bit_length(): self.obl(st, 'array-bounds', bnot1(cmp('ult', v, lim, it.w)), 'index of an array of %d' % n)
            if not isc(v): 
                v2 = cval(z3.simplify(v))
                v = v2
            if isc(v): c += sgn(v, it.w) * sc
            else: syms.append((sext(v, it.w, 64) if it.w < 64 else v, sc))
        if not syms:
            return self.padd(p, c)
        s = None; stride = 0
        import math
        for v, sc in syms:
            x = V.mul(v, sc, 64)
            s = x if s is None else V.add(s, x, 64)
            stride = math.gcd(stride, sc)
        out = []
        for (cd, o, f, s0, d0) in p.alts:
            if s0 is None: out.append((cd, o, f + c, s, stride))
            else: out.append((cd, o, f + c, V.add(s0, s, 64), math.gcd(d0, stride)))
        return Ptr(tuple(out))

    def _bin(self, st, op, fl, a, b, w):
        if w == 1:
            if op in ('and', 'mul'): return band1(a, b)
            if op == 'or': return bor1(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return bnot1(a) if b else a
                if isinstance(a, bool): return bnot1(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Parts): a = mat(a)
        if isinstance(b, Parts): b = mat(b)
        if op in ('add', 'sub', 'mul'):
            if op == 'sub' and w == 64 and self.addr and not isc(a) and not isc(b):
                x, y = self.addrof.get(a.get_id()), self.addrof.get(b.get_id())
                if x and y and x[0] == y[0]: return V.sub(x[1], y[1], 64)
            r = (V.add if op == 'add' else V.sub if op == 'sub' else V.mul)(a, b, w)
            if 'nsw' in fl and not (isc(a, b)):
                if not self.noovf(op, a, b, w):
                    self.obl(st, 'signed-overflow', self.ovf(op, a, b, w), op)
            elif 'nsw' in fl:
                x, y = sgn(a, w), sgn(b, w)
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if z != sgn(z & M(w), w): self.obl(st, 'signed-overflow', True, op)
            return r
        if op == 'and': return V.band(a, b, w)
        if op == 'or': return V.bor(a, b, w)
        if op == 'xor': return V.bxor(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if isc(b):
                if b >= w:
                    self.obl(st, 'shift-range', True, op)
                    return self.undef(w, 'shift by %d' % b)
            else:
                bad = cmp('uge', b, w, w)
                bad = nb(z3.simplify(zb(bad)))
                if bad is not False:
                    self.obl(st, 'shift-range', bad, op)
                    if bad is True: return self.undef(w, 'shift')
                    r = {'shl': V.shl, 'lshr': V.lshr, 'ashr': V.ashr}[op](a, b, w)
                    return ite(bad, self.undef(w, 'shift'), r, w)
            if op == 'shl' and 'nsw' in fl:
                # C++ (11..17): the mathematical value must be representable; g++/clang accept
                # shifting into the sign bit, so only losing bits counts
                pass
            return {'shl': V.shl, 'lshr': V.lshr, 'ashr': V.ashr}[op](a, b, w)
        # division
        bad = cmp('eq', b, 0, w)
        if op in ('sdiv', 'srem'):
            bad = bor1(bad, band1(cmp('eq', a, 1 << (w - 1), w), cmp('eq', b, M(w), w)))
        bad = bad if isinstance(bad, bool) else nb(z3.simplify(bad))
        self.obl(st, 'div-zero', bad, op)
        if bad is True: return self.undef(w, 'division')
        if isc(a, b):
            x, y = (sgn(a, w), sgn(b, w)) if op[0] == 's' else (a, b)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op.endswith('div') else x - q * y) & M(w)
        A, B = bv(a, w), bv(b, w)
        if op == 'udiv' and isc(b) and b & (b - 1) == 0: return V.lshr(a, b.bit_length() - 1, w)
        if op == 'urem' and isc(b) and b & (b - 1) == 0: return V.band(a, b - 1, w)
        r = A / B if op == 'sdiv' else z3.UDiv(A, B) if op == 'udiv' else z3.SRem(A, B) if op == 'srem' else z3.URem(A, B)
        V._keep.append(r)
        return r
    def ovf(self, op, a, b, w):
        ew = 2 * w if op == 'mul' else w + 1
        A, B = sext(a, w, ew), sext(b, w, ew)
        r = {'add': V.add, 'sub': V.sub, 'mul': V.mul}[op](A, B, ew)
        n = {'add': V.add, 'sub': V.sub, 'mul': V.mul}[op](a, b, w)
        return bnot1(eq(r, sext(n, w, ew), ew))
    def noovf(self, op, a, b, w):
        """cheap interval test"""
        ra, rb = srange(a, w), srange(b, w)
        if ra is None or rb is None: return False
        if op == 'add': lo, hi = ra[0] + rb[0], ra[1] + rb[1]
        elif op == 'sub': lo, hi = ra[0] - rb[1], ra[1] - rb[0]
        else:
            ps = [x * y for x in ra for y in rb]; lo, hi = min(ps), max(ps)
        return -(1 << (w - 1)) <= lo and hi < (1 << (w - 1))
    def binop(self, fr, regs, st, I):
        a, b, t = self.val(st, regs, I.ty, I.a), self.val(st, regs, I.ty, I.b), I.ty
        if t.k == 'vec': return tuple(self._bin(st, I.op, I.flags, x, y, t.el.w) for x, y in zip(a, b))
        return self._bin(st, I.op, I.flags, a, b, t.w)
    op_add = op_sub = op_mul = op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = binop
    op_udiv = op_sdiv = op_urem = op_srem = binop
    def fbin(self, fr, regs, st, I):
        a, b, t = self.val(st, regs, I.ty, I.a), self.val(st, regs, I.ty, I.b), I.ty
        o = I.op[1:]
        if o == 'rem': raise Unsupported('frem')
        def one(x, y):
            ftz, daz = self.flush(st)
            if daz is not False: x, y = flushed(x, daz), flushed(y, daz)
            r = fop(o, x, y, self.rm0(st))
            if ftz is not False: return flushed(r, ftz)
            return relax(I.flags, o, r, (x, y), self.rm(st)) if I.flags else r
        if t.k == 'vec': return tuple(one(x, y) for x, y in zip(a, b))
        return one(a, b)
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = fbin
    def op_fneg(self, fr, regs, st, I):
        a = self.val(st, regs, I.ty, I.a)
        return tuple(map(fneg, a)) if I.ty.k == 'vec' else fneg(a)
    def op_icmp(self, fr, regs, st, I):
        a, b, t = self.val(st, regs, I.ty, I.a), self.val(st, regs, I.ty, I.b), I.ty
        if t.k == 'vec': return tuple(cmp(I.extra, x, y, t.el.w) for x, y in zip(a, b))
        if t.k == 'ptr':
            if len(a.alts) == 1 and len(b.alts) == 1:
                x, y = a.alts[0], b.alts[0]
                if x[1] != y[1]:
                    if I.extra == 'eq': return False
                    if I.extra == 'ne': return True
                elif x[3] is None and y[3] is None:
                    return cmp(I.extra, x[2] & M(64), y[2] & M(64), 64)
                elif x[1] in self.addr:          # the distance from the start of the operand decides, wherever it lies
                    return cmp(I.extra, *(V.add(p[2] & M(64), p[3], 64) if p[3] is not None else p[2] & M(64) for p in (x, y)), 64)
            return cmp(I.extra, self.ptr2int(a), self.ptr2int(b), 64)
        if t.w == 1:
            if I.extra == 'eq': return bnot1(self._bin(st, 'xor', (), a, b, 1))
            if I.extra == 'ne': return self._bin(st, 'xor', (), a, b, 1)
            a = int(a) if isinstance(a, bool) else ite(a, 1, 0, 8)
            b = int(b) if isinstance(b, bool) else ite(b, 1, 0, 8)
            if I.extra[0] == 's': a, b = V.neg(a, 8), V.neg(b, 8)
            return cmp(I.extra, a, b, 8)
        return cmp(I.extra, a, b, t.w)
    def op_fcmp(self, fr, regs, st, I):
        a, b, t = self.val(st, regs, I.ty, I.a), self.val(st, regs, I.ty, I.b), I.ty
        def one(x, y):
            daz = self.flush(st)[1]
            if daz is not False: x, y = flushed(x, daz), flushed(y, daz)
            r = fcmp(I.extra, x, y)
            g = guard_fast(I.flags, (x, y)) if I.flags else None
            return r if g is None else z3.If(g, freshb('fastcmp'), zb(r))
        if t.k == 'vec': return tuple(one(x, y) for x, y in zip(a, b))
        return one(a, b)
    def opcast(self, fr, regs, st, I):
        return self.cast(st, I.op, I.extra, self.val(st, regs, I.extra, I.a), I.ty)
    op_trunc = op_zext = op_sext = op_fptrunc = op_fpext = op_fptosi = op_fptoui = op_sitofp = op_uitofp = \
        op_bitcast = op_ptrtoint = op_inttoptr = opcast
    def cast(self, st, op, ft, v, tt):
        if ft.k == 'vec' and tt.k == 'vec' and op != 'bitcast':
            return tuple(self.cast(st, op, ft.el, x, tt.el) for x in v)
        if op == 'trunc':
            if tt.w == 1:
                v = mat(v)
                if isc(v): return bool(v & 1)
                x = trunc(v, ft.w, 1)
                if isc(x): return bool(x)
                if kind(x) == OP['ITE']:
                    y = nb(z3.simplify(x == 1)); return y
                return x == z3.BitVecVal(1, 1)
            return trunc(v, ft.w, tt.w)
        if op in ('zext', 'sext'):
            if ft.w == 1:
                one = 1 if op == 'zext' else M(tt.w)
                return (one if v else 0) if isinstance(v, bool) else ite(v, one, 0, tt.w)
            return (zext if op == 'zext' else sext)(mat(v), ft.w, tt.w)
        if op == 'bitcast':
            if ft.k == tt.k and ft.k != 'vec': return v
            if ft.k == 'ptr' or tt.k == 'ptr': return v
            o = Obj(-1, max(ir.size_of(ft), ir.size_of(tt)), 'tmp', 'bitcast', None)
            self._put(o, 0, ft, v)
            return self._get(st, o, 0, tt)
        if op == 'ptrtoint':
            return trunc(self.ptr2int(v), 64, tt.w) if tt.w < 64 else self.ptr2int(v)
        if op == 'inttoptr':
            return self.int2ptr(zext(mat(v), ft.w, 64) if ft.w < 64 else mat(v))
        if op == 'fpext':
            if v.hasbits and not v.conc or v._f is not None or True:
                r = z3.fpFPToFP(RNE, v.fp, SORT[tt.w])
                if v.conc: r = z3.simplify(r)
                V._keep.append(r)
                return F(tt.w, fp=r)
        if op in ('fpext', 'fptosi', 'fptoui') and self.flush(st)[1] is not False: v = flushed(v, self.flush(st)[1])
        if op == 'fptrunc':
            x = v.fp
            k = kind(x)
            # double rounding float->double->op->float is innocuous for one + - * / (Figueroa)
            if ft.k == 'double' and tt.k == 'float' and k in FPOPS and x.arg(0).eq(RNE) and self.rm(st).eq(RNE):
                ins = [narrow(x.arg(i)) for i in range(1, x.num_args())]
                if all(i is not None for i in ins):
                    return fop(FPOPS[k], F(32, fp=ins[0]), F(32, fp=ins[1]))
            n = narrow(x) if tt.k == 'float' else None
            if n is not None: return F(32, fp=n)
            r = z3.fpFPToFP(self.rm(st), x, SORT[tt.w])
            if v.conc: r = z3.simplify(r)
            V._keep.append(r)
            return F(tt.w, fp=r)
        if op in ('sitofp', 'uitofp'):
            if ft.w == 1:
                v = self.cast(st, 'zext' if op[0] == 'u' else 'sext', ft, v, ir.IntTy(32))
                w = 32
            else: w = ft.w
            x = bv(mat(v), w)
            r = (z3.fpSignedToFP if op[0] == 's' else z3.fpUnsignedToFP)(self.rm0(st), x, SORT[tt.w])
            if isc(v): r = z3.simplify(r)
            V._keep.append(r)
            return F(tt.w, fp=r)
        if op in ('fptosi', 'fptoui'):
            w, sg = tt.w, op == 'fptosi'
            x = v.fp
            ok = fp_in_range(v, w, sg)
            if v.conc: ok = nb(z3.simplify(ok))
            if ok is True:
                return cval(z3.simplify((z3.fpToSBV if sg else z3.fpToUBV)(RTZ, x, z3.BitVecSort(w))))
            self.obl(st, 'float-cast', bnot1(ok), op)
            if ok is False: return self.undef(w, 'float cast')
            r = (z3.fpToSBV if sg else z3.fpToUBV)(RTZ, x, z3.BitVecSort(w))
            u = self.undef(w, 'float cast')
            r = z3.If(ok, r, u); V._keep.append(r)
            return r
        raise Unsupported(op)
    def op_select(self, fr, regs, st, I):
        ct, co = I.c
        c = self.val(st, regs, ct, co)
        a, b = self.val(st, regs, I.ty, I.a), self.val(st, regs, I.ty, I.b)
        if ct.k == 'vec':
            return tuple(self.mite(x, y, z, I.ty.el) for x, y, z in zip(c, a, b))
        if not isinstance(c, bool): c = nb(z3.simplify(c))
        return self.mite(c, a, b, I.ty)
    def op_freeze(self, fr, regs, st, I): return self.val(st, regs, I.ty, I.a)
    def op_landingpad(self, fr, regs, st, I): raise Unsupported('landingpad reached')
    def op_extractvalue(self, fr, regs, st, I):
        v = self.val(st, regs, I.ty, I.a)
        for i in I.extra: v = v[i]
        return v
    def op_insertvalue(self, fr, regs, st, I):
        v = self.val(st, regs, I.ty, I.a); x = self.val(st, regs, I.c, I.b)
        def ins(v, ix):
            if not ix: return x
            l = list(v); l[ix[0]] = ins(l[ix[0]], ix[1:])
            return tuple(l)
        return ins(v, I.extra)
    def op_extractelement(self, fr, regs, st, I):
        v = self.val(st, regs, I.ty, I.a); i = self.val(st, regs, ir.IntTy(64), I.b)
        if not isc(i): raise Unsupported('symbolic extractelement')
        return v[i]
    def op_insertelement(self, fr, regs, st, I):
        v = list(self.val(st, regs, I.ty, I.a)); x = self.val(st, regs, I.ty.el, I.b)
        i = self.val(st, regs, ir.IntTy(64), I.c)
        if not isc(i): raise Unsupported('symbolic insertelement')
        v[i] = x
        return tuple(v)
    def op_shufflevector(self, fr, regs, st, I):
        a, b = self.val(st, regs, I.ty, I.a), self.val(st, regs, I.ty, I.b)
        if I.c[0] in ('zero',): ix = [0] * I.extra.n
        elif I.c[0] in ('undef', 'poison'): return self.undef_of(ir.Ty('vec', n=I.extra.n, el=I.ty.el))
        else: ix = [None if o[0] in ('undef', 'poison') else o[1] for t, o in I.c[1]]
        ab = a + b
        return tuple(self.undef_of(I.ty.el) if i is None else ab[i] for i in ix)
    def op_call(self, fr, regs, st, I):
        if I.a[0] == 'g': name = I.a[1]
        elif I.a[0] == 'l':
            p = regs[I.a[1]]
            if len(p.alts) > 1:
                live = [a for a in p.alts if self.feasible(st, a[0])]
                if not live: raise Dead()
                if len(live) == 1: p = Ptr(tuple(live))
            if len(p.alts) != 1 or p.alts[0][1] not in self.objfunc:
                if not self.feasible(st, True): raise Dead()
                raise Unsupported('indirect call')
            name = self.objfunc[p.alts[0][1]]
        else: raise Unsupported('callee')
        args = []
        for t, o, bvt in I.b:
            v = self.val(st, regs, t, o)
            if bvt is not None:
                # callee-owned copy
                ob = self.newobj(st, ir.size_of(bvt), 'stack', 'byval')
                fr.allocas.append(ob.id)
                self.memcpy(st, P1(ob.id, 0), v, ir.size_of(bvt))
                v = P1(ob.id, 0)
            args.append(v)
        sv = (self.curline, self.curfn)
        self.cargs = I.b
        self.crett = I.ty
        r = self.call(st, name, args)
        self.curline, self.curfn = sv
        if I.flags and isinstance(r[0], F) and name.startswith('@llvm.'): r = (relax(I.flags, 'call', r[0], tuple(a for a in args if isinstance(a, F)), self.rm(st)), r[1])
        return r

    # ------------------------------------------------------------- memory intrinsics
    def memcpy(self, st, d, s, n):
        n = mat(n)
        if not isc(n): n = cval(z3.simplify(n))
        if not isc(n): raise Unsupported('symbolic memcpy length')
        if n == 0: return
        src = self.access(st, s, n, False, ' (memcpy source)')
        dst = self.access(st, d, n, True, ' (memcpy destination)')
        if not src or not dst: 
            for c, o, off in dst:
                ob = self.wobj(st, o.id)
                ob.by[off:off + n] = [None] * n
            return
        if len(src) == 1 and len(dst) == 1 and src[0][0] is True and dst[0][0] is True:
            data = st.mem[src[0][1].id].by[src[0][2]:src[0][2] + n]
            o = self.wobj(st, dst[0][1].id)
            o.by[dst[0][2]:dst[0][2] + n] = data
            return
        t = ir.IntTy(8)
        for i in range(n):
            # snapshot semantics are irrelevant: source and destination do not overlap for memcpy
            v = self.load(st, t, self.padd(s, i))
            self.store(st, t, self.padd(d, i), v)
    def memset(self, st, d, v, n):
        n = mat(n)
        if not isc(n): n = cval(z3.simplify(n))
        if not isc(n): raise Unsupported('symbolic memset length')
        v = trunc(mat(v), 32, 8) if not isc(v) and mat(v).size() == 32 else mat(v)
        if isc(v): v &= 255
        if n == 0: return
        for c, o, off in self.access(st, d, n, True, ' (memset)'):
            ob = self.wobj(st, o.id)
            if c is True: ob.by[off:off + n] = [(v, 1, 0)] * n
            else: raise Unsupported('symbolic memset')

    # ------------------------------------------------------------- externals
    def extern(self, st, name, args):
        n = name[1:]
        self.externs[n] = self.externs.get(n, 0) + 1
        from . import externs
        r = externs.call(self, st, n, args)
        if r is NotImplemented:
            if n in externs.KNOWN_DECL or '@' + n in self.m.decls:
                raise Unresolved(n)
            raise Unresolved(n)
        return r, st

# fast-math flags: what the flag promises away becomes an arbitrary choice (a counterexample still has to reproduce)
def guard_fast(fl, xs):
    t = []
    for x in xs:
        if not isinstance(x, F): continue
        if 'nnan' in fl or 'fast' in fl: t.append(zb(V.f_isnan(x)))
        if 'ninf' in fl or 'fast' in fl: t.append(z3.fpIsInf(x.fp))
    return z3.Or(t) if t else None
def relax(fl, op, r, args, rm):
    if 'fast' in fl: fl = ir.FAST
    w = r.w
    if 'arcp' in fl and op == 'div':
        one = F(w, fp=z3.FPVal(1.0, SORT[w]))
        r = itef(freshb('arcp'), fop('mul', args[0], fop('div', one, args[1], rm), rm), r)
    if 'contract' in fl and op in ('add', 'sub'):
        for i in (0, 1):
            m, c = args[i].fp, args[1 - i]
            if m.decl().kind() == z3.Z3_OP_FPA_MUL:
                x, y = F(w, fp=m.arg(1)), F(w, fp=m.arg(2))
                if op == 'sub':
                    if i == 0: c = V.fneg(c)
                    else: x = V.fneg(x)
                r = itef(freshb('contract'), V.fma(x, y, c, rm), r)
    if 'reassoc' in fl and any(a.fp.decl().kind() in FPOPS for a in args):
        r = itef(freshb('reassoc'), F(w, bits=fresh('reassoc', w)), r)
    if 'nsz' in fl:
        r = itef(z3.And(z3.fpIsZero(r.fp), freshb('nsz')), F(w, fp=z3.fpNeg(r.fp)), r)
    g = guard_fast(fl, args + (r,))
    if g is not None: r = itef(g, F(w, bits=fresh('fast', w)), r)
    return r

FPOPS = {z3.Z3_OP_FPA_ADD: 'add', z3.Z3_OP_FPA_SUB: 'sub', z3.Z3_OP_FPA_MUL: 'mul', z3.Z3_OP_FPA_DIV: 'div'}
def narrow(x):
    """the float32 term a float64 term was extended from, if any"""
    if kind(x) == z3.Z3_OP_FPA_TO_FP and x.num_args() == 2 and z3.is_fp(x.arg(1)) and x.arg(1).sort() == SORT[32]:
        return x.arg(1)
    if z3.is_fp_value(x) and not x.isNaN():
        y = z3.simplify(z3.fpFPToFP(RNE, x, SORT[32]))
        z = z3.simplify(z3.fpFPToFP(RNE, y, SORT[64]))
        if z.eq(x): return y
    return None

def fp_in_range(v, w, sg):
    """truncation of v fits the integer type"""
    import fractions
    S = SORT[v.w]
    x = v.fp
    hi = z3.FPVal(2.0 ** (w - 1 if sg else w), S)
    if sg:
        p = {16: 11, 32: 24, 64: 53, 80: 64}[v.w]
        if w < p:      # -2^(w-1)-1 is representable: open interval
            lo = z3.fpGT(x, z3.FPVal(-(2.0 ** (w - 1)) - 1, S))
        else:
            lo = z3.fpGEQ(x, z3.FPVal(-(2.0 ** (w - 1)), S))
    else:
        lo = z3.fpGT(x, z3.FPVal(-1.0, S))
    return z3.And(lo, z3.fpLT(x, hi))

def flushed(a, when=True):
    """a subnormal becomes a zero of its sign"""
    S = SORT[a.w]
    f = z3.If(z3.And(zb(when), z3.fpIsSubnormal(a.fp)), z3.If(z3.fpIsNegative(a.fp), z3.fpMinusZero(S), z3.fpPlusZero(S)), a.fp)
    if a.conc or fpconst(a.fp) is not None: f = z3.simplify(f)
    V._keep.append(f)
    return F(a.w, fp=f)
def fcmp(pred, a, b):
    if pred == 'true': return True
    if pred == 'false': return False
    x, y = a.fp, b.fp
    ord_ = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))
    if pred == 'ord': r = ord_
    elif pred == 'uno': r = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)) if not x.eq(y) else z3.fpIsNaN(x)
    else:
        f = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        p = pred[1:]
        if pred[0] == 'o':
            if p == 'ne': r = z3.And(ord_, z3.Not(z3.fpEQ(x, y)))
            else: r = f[p](x, y)
        else:
            if p == 'ne': r = z3.Not(z3.fpEQ(x, y))
            elif p == 'eq': r = z3.Or(z3.Not(ord_), z3.fpEQ(x, y))
            else:
                # unordered-or-p == not (ordered negation)
                ng = {'lt': z3.fpGEQ, 'le': z3.fpGT, 'gt': z3.fpLEQ, 'ge': z3.fpLT}[p]
                r = z3.Not(ng(x, y))
    if a.conc and b.conc: return nb(z3.simplify(r))
    V._keep.append(r)
    return r

def srange(v, w):
    """crude signed interval of a term"""
    if isc(v): return (sgn(v, w),) * 2
    if isinstance(v, Parts): return None
    k = kind(v)
    if k == OP['ZERO_EXT']:
        n = v.arg(0).size()
        r = urange(cval(v.arg(0)), n)
        return r
    if k == OP['SIGN_EXT']:
        n = v.arg(0).size()
        return srange(cval(v.arg(0)), n) or (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    if k in (OP['BADD'], OP['BMUL'], OP['BSUB']) and v.num_args() == 2:
        a, b = srange(cval(v.arg(0)), w), srange(cval(v.arg(1)), w)
        if a and b:
            if k == OP['BADD']: lo, hi = a[0] + b[0], a[1] + b[1]
            elif k == OP['BSUB']: lo, hi = a[0] - b[1], a[1] - b[0]
            else:
                ps = [x * y for x in a for y in b]; lo, hi = min(ps), max(ps)
            if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)): return (lo, hi)
        return None
    if k == OP['ITE']:
        a, b = srange(cval(v.arg(1)), w), srange(cval(v.arg(2)), w)
        if a and b: return (min(a[0], b[0]), max(a[1], b[1]))
        return None
    return None
def urange(v, w):
    return (0, (1 << w) - 1)

_fv_memo = {}
def free_vars(e):
    """names of free constants of a term"""
    if isinstance(e, (bool, int)): return frozenset()
    key = e.get_id()
    r = _fv_memo.get(key)
    if r is not None: return r
    V._keep.append(e)
    seen, out, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else:
            stack.extend(x.children())
    r = frozenset(out)
    _fv_memo[key] = r
    return r
def free_undefs(e, undefs):
    return [n for n in free_vars(e) if n in undefs]
