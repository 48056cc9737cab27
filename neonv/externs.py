"""Models of the functions outside the translation unit (libc, libm, C++ runtime,
LLVM intrinsics).  Each model is part of the trusted base of the encoding."""
import re, z3
from . import ir
from .vals import *
from . import vals as V

KNOWN_DECL = set()
ENVLEN = 8
IDENTITY = ('pthread_self', 'gettid', 'getpid', 'getppid', 'getpgrp', 'getuid', 'geteuid', 'getgid', 'getegid', 'sched_getcpu')
def cstr(m, st, p):
    b = b''
    while len(b) < 256:
        c = mat(m.load(st, ir.IntTy(8), m.padd(p, len(b))))
        if not isc(c):
            from .symex import Unsupported
            raise Unsupported('symbolic name')
        if c == 0: break
        b += bytes([c])
    return b.decode('latin-1')
# stream output is replaced by a model even where the library's headers define it inline
STREAM = re.compile(r'_ZStlsI|_ZNSolsE|_ZNSo3putE|_ZNSo5flushE|_ZNSo5writeE|_ZNSo9_M_insertI|_ZSt16__ostream_insertI|_ZSt4endlI|_ZSt5flushI|_ZNK?[RO]?St7__cxx1119basic_ostringstreamI')

def call(m, st, n, args):
    from .symex import Dead, Unsupported, fcmp, fp_in_range
    if n.startswith('llvm.'):
        return llvm(m, st, n, args)
    # --- process ends / exceptions
    if n in ('abort', 'exit', '_exit', '_Exit', 'quick_exit', '__assert_fail', '_ZSt9terminatev', '__cxa_pure_virtual',
             '__cxa_bad_cast', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__stack_chk_fail', '__cxa_call_unexpected',
             '__builtin_trap'):
        m.exits.append((n, list(st.pc), m.curline))
        raise Dead()
    if n.startswith('_ZSt') and '__throw_' in n or n in ('__cxa_throw', '__cxa_rethrow', '_Unwind_Resume'):
        m.exits.append(('throw', list(st.pc), n))
        raise Dead()
    # --- output: no effect on results
    if n in ('fprintf', 'printf', 'perror', 'puts', 'fputs', 'putchar', 'fputc', 'putc', 'vfprintf', 'vprintf', 'write'):
        m.mark(st, '@!io'); return 0
    if n == 'fflush': return 0
    if n == 'fwrite':
        m.mark(st, '@!io'); return args[2]
    if STREAM.match(n):
        if '19basic_ostringstreamI' in n[:41]:
            f = n.split('SaIcEE', 1)[1]
            if f.startswith(('C1', 'C2')): m.memset(st, args[0], 0, 8)   # an object nothing else looks into
            elif 'strE' in f:                                            # std::string by hidden pointer: some short text
                p = args[0]
                W = ir.MODEL['ptr']; m.store(st, ir.PTR, p, m.padd(p, 2 * W)); m.store(st, ir.IntTy(8 * W), m.padd(p, W), 1)
                m.store(st, ir.IntTy(8), m.padd(p, 2 * W), 33); m.store(st, ir.IntTy(8), m.padd(p, 2 * W + 1), 0)
            return args[0]
        m.mark(st, '@!io'); return args[0]
    # --- values that come from outside the program
    if n in ('rand', 'random', 'lrand48', 'mrand48', 'time', 'clock'):
        w = 32 if n == 'rand' else 64
        v = m.undef(w, 'value of %s()' % n)
        m.mark(st, '@!outside')
        if n in ('rand', 'random', 'lrand48'): v = band(v, M(31), w)
        elif n == 'time' and args and not (isinstance(args[0], Ptr) and all(x[1] == 0 for x in args[0].alts)): m.store(st, ir.IntTy(64), args[0], v)
        m.outside.setdefault(n, []).append(v)
        return v
    if n in IDENTITY:
        # who calls: the same throughout a call, possibly another thread or process at the next one
        m.mark(st, '@!outside')
        w = 64 if n == 'pthread_self' else 32
        if n not in m.outside: m.outside[n] = [m.undef(w, 'value of %s()' % n)]
        return m.outside[n][0]
    if n == 'pthread_equal': return m.mite(eq(args[0], args[1], 64), 1, 0, ir.IntTy(32))
    if n in ('getenv', 'secure_getenv'):
        # absent, or any text of up to ENVLEN characters; the same at every call
        m.mark(st, '@!outside')
        name = 'getenv(%s)' % cstr(m, st, args[0])
        if name not in m.outside:
            o = m.newobj(st, ENVLEN + 1, 'heap', 'environment')
            bs = [m.undef(8, 'value of ' + name) for _ in range(ENVLEN)]
            m.outside[name] = (m.undef(1, 'value of ' + name), bs, o.id)
            o.by[:] = [(b, 1, 0) for b in bs] + [(0, 1, 0)]
        has, bs, oid = m.outside[name]
        if oid not in st.mem: raise Unsupported('getenv on two paths')
        return m.mite(has == 1, P1(oid, 0), V.NULL, ir.PTR)
    # --- memory
    if n in ('memcpy', '__memcpy_chk', 'memmove'):
        m.memcpy(st, args[0], args[1], args[2])
        return args[0]
    if n == 'memset':
        m.memset(st, args[0], args[1], args[2])
        return args[0]
    if n == 'memcmp':
        k = mat(args[2])
        if not isc(k): return NotImplemented
        r = 0
        for i in reversed(range(k)):
            a = mat(m.load(st, ir.IntTy(8), m.padd(args[0], i)))
            b = mat(m.load(st, ir.IntTy(8), m.padd(args[1], i)))
            r = ite(eq(a, b, 8), r, ite(cmp('ult', a, b, 8), M(32), 1, 32), 32)
        return r
    if n == 'strlen':
        i = 0
        while True:
            c = mat(m.load(st, ir.IntTy(8), m.padd(args[0], i)))
            if not isc(c): break
            if c == 0: return i
            i += 1
        cs = []
        while isc(c) is False or c != 0:
            if len(cs) > 64: raise Unsupported('symbolic strlen')
            cs.append(c); c = mat(m.load(st, ir.IntTy(8), m.padd(args[0], i + len(cs))))
        r = i + len(cs)
        for k in reversed(range(len(cs))):
            if not isc(cs[k]) or cs[k] == 0: r = ite(eq(cs[k], 0, 8), i + k, r, 64)
        return r
    if n in ('strcmp', 'strncmp'):
        k, ps = (mat(args[2]) if n == 'strncmp' else 64), []
        if not isc(k): return NotImplemented
        for i in range(k):
            a, b = (mat(m.load(st, ir.IntTy(8), m.padd(p, i))) for p in args[:2])
            ps.append((a, b))
            if (isc(a) and a == 0) or (isc(b) and b == 0) or (isc(a) and isc(b) and a != b): break
        else:
            if n == 'strcmp': return NotImplemented
        r = 0
        for a, b in reversed(ps):
            r = ite(eq(a, b, 8), ite(eq(a, 0, 8), 0, r, 32), ite(cmp('ult', a, b, 8), M(32), 1, 32), 32)
        return r
    if n in ('malloc', 'aligned_alloc') or re.match(r'_Zn[wa][jmy](RKSt9nothrow_t)?$', n):
        k = mat(args[-1] if n == 'aligned_alloc' else args[0])
        if not isc(k): k = cval(z3.simplify(k))
        if not isc(k): k = m.largest(st, k, ir.PTR.w, 4096)
        if k is None: raise Unsupported('symbolic allocation size')
        m.heap(st, 1)
        return P1(m.newobj(st, k, 'heap', 'heap').id, 0)
    if n == 'calloc':
        k = args[0] * args[1]
        o = m.newobj(st, k, 'heap', 'heap')
        o.by[:] = [(0, 1, 0)] * k
        m.heap(st, 1)
        return P1(o.id, 0)
    if n == 'free' or re.match(r'_Zd[la]Pv[jmy]?$', n):
        for alt in args[0].alts:
            if alt[1] == 0: continue
            o = st.mem.get(alt[1])
            if o is None or not o.alive or o.kind != 'heap' or alt[3] is not None or alt[2] != 0:
                m.obl(st, 'oob-write', alt[0], 'invalid free')
                continue
            m.heap(st, ite(alt[0], M(32), 0, 32) if alt[0] is not True else M(32))
            if alt[0] is True:
                m.wobj(st, alt[1]).alive = False
        return None
    if n in ('posix_memalign',): return NotImplemented
    # --- C++ runtime
    if n == '__cxa_guard_acquire':
        v = mat(m.load(st, ir.IntTy(8), args[0]))
        r = 1 if isc(v) and v == 0 else 0 if isc(v) else ite(cmp('eq', v, 0, 8), 1, 0, 32)
        if not (isc(r) and r == 0): m.guarded += 1
        return r
    if n == '__cxa_guard_release':
        m.store(st, ir.IntTy(8), args[0], 1)
        m.guarded = max(0, m.guarded - 1)
        return None
    if n in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
        m.guarded = max(0, m.guarded + (1 if n.endswith('_lock') else -1))
        m.locked = max(0, m.locked + (1 if n.endswith('_lock') else -1))
        return 0
    if n in ('__gthread_active_p', '__pthread_key_create'): return 1
    if n in ('__cxa_atexit', '__cxa_thread_atexit', 'atexit'):
        m.atexit.append((args[0], list(args[1:2]), list(st.pc))); return 0
    if n in ('__cxa_guard_abort', '__cxa_begin_catch', '__cxa_end_catch'):
        return 0
    if n.startswith('_ZNSt8ios_base4Init'): return None
    # --- integer libc
    if n.startswith(('_ZNSt8__detail15_List_node_base', '_ZSt18_Rb_tree_', '_ZSt29_Rb_tree_insert', '_ZSt28_Rb_tree_rebalance')):
        return containers(m, st, n, args)
    if n in ('abs', 'labs', 'llabs'):
        w = 32 if n == 'abs' else 64
        a = mat(args[0])
        m.obl(st, 'signed-overflow', cmp('eq', a, 1 << (w - 1), w), n)
        return ite(cmp('slt', a, 0, w), V.neg(a, w), a, w)
    if n in ('div', 'ldiv', 'lldiv'):
        w = 32 if n == 'div' else 64
        a, b = mat(args[0]), mat(args[1])
        q, r = m._bin(st, 'sdiv', (), a, b, w), m._bin(st, 'srem', (), a, b, w)
        return V.concat(r, 32, q, 32) if w == 32 else (q, r)
    if n == '__errno_location': return m.pseudo(st, '@!errno', z3.BitVec('errno', 32))
    # --- floating-point environment
    if n == 'fegetround': return band(m.get_rm(st), 0xc00, 32)
    if n == 'fesetround':
        v = mat(args[0])
        ok = eq(band(v, ~0xc00 & M(32), 32), 0, 32)
        m.set_rm(st, ite(ok, bor(v, band(m.get_rm(st), m.FLUSH, 32), 32), m.get_rm(st), 32))
        return ite(ok, 0, 1, 32)
    if n in ('fegetenv', 'feholdexcept', 'fegetexceptflag'):
        if n != 'fegetexceptflag': m.store(st, ir.IntTy(32), args[0], m.get_rm(st))
        return 0
    if n in ('fesetenv', 'feupdateenv'):
        if args[0].alts[0][1] == 0: m.set_rm(st, 0)      # FE_DFL_ENV is (const fenv_t *)-1
        else: m.set_rm(st, band(mat(m.load(st, ir.IntTy(32), args[0])), 0xc00 | m.FLUSH, 32))
        return 0
    if n in ('feclearexcept', 'feraiseexcept', 'fesetexceptflag'): return 0
    # --- libm
    return libm(m, st, n, args)

ROUND = {'rint': None, 'nearbyint': None, 'roundeven': RNE, 'round': RNA, 'trunc': RTZ, 'floor': RTN, 'ceil': RTP}
def containers(m, st, n, a):
    """the node surgery of std::list and std::map/set that lives in libstdc++.so (trees are left unbalanced: no
    observable difference but time)"""
    def get(p, k): return m.load(st, ir.PTR, m.padd(p, ir.MODEL['ptr'] * k))
    def put(p, k, v): m.store(st, ir.PTR, m.padd(p, ir.MODEL['ptr'] * k), v)
    def one(p):
        from .symex import Unsupported
        if len(p.alts) != 1 or p.alts[0][3] is not None: raise Unsupported('container node behind a symbolic pointer')
        return p
    def same(p, q): return one(p).alts[0][1:3] == one(q).alts[0][1:3]
    def nil(p): return one(p).alts[0][1] == 0
    if 'List_node_base' in n:
        NEXT, PREV = 0, 1
        if '7_M_hookE' in n:
            x, pos = a; prev = get(pos, PREV)
            put(x, NEXT, pos); put(x, PREV, prev); put(prev, NEXT, x); put(pos, PREV, x)
        elif '9_M_unhookE' in n:
            nx, pv = get(a[0], NEXT), get(a[0], PREV)
            put(pv, NEXT, nx); put(nx, PREV, pv)
        elif '11_M_transferE' in n:
            pos, first, last = a
            if same(pos, last): return 0
            tail, before, pp = get(last, PREV), get(first, PREV), get(pos, PREV)
            put(tail, NEXT, pos); put(before, NEXT, last); put(pp, NEXT, first)
            put(pos, PREV, tail); put(last, PREV, before); put(first, PREV, pp)
        elif '10_M_reverseE' in n:
            p = a[0]
            for _ in range(600):
                nx, pv = get(p, NEXT), get(p, PREV)
                put(p, NEXT, pv); put(p, PREV, nx)
                p = nx
                if same(p, a[0]): return 0
            return NotImplemented
        else: return NotImplemented
        return 0
    PARENT, LEFT, RIGHT = 1, 2, 3
    if n.startswith('_ZSt29_Rb_tree_insert_and_rebalance'):
        left, x, p, head = a
        if not isc(left): return NotImplemented
        put(x, PARENT, p); put(x, LEFT, V.NULL); put(x, RIGHT, V.NULL)
        m.store(st, ir.IntTy(32), x, 1)        # black: a red root would look like the header to the walks below
        if left:
            put(p, LEFT, x)
            if same(p, head): put(head, PARENT, x); put(head, RIGHT, x)
            elif same(p, get(head, LEFT)): put(head, LEFT, x)
        else:
            put(p, RIGHT, x)
            if same(p, get(head, RIGHT)): put(head, RIGHT, x)
        return 0
    up = 'increment' in n
    if not up and 'decrement' not in n: return NotImplemented
    FWD, BACK = (RIGHT, LEFT) if up else (LEFT, RIGHT)
    x = a[0]
    if not up:
        y = get(x, PARENT)
        c = mat(m.load(st, ir.IntTy(32), x))
        if isc(c) and c == 0 and not nil(y) and same(get(y, PARENT), x): return get(x, RIGHT)   # the header: its rightmost node
    if not nil(get(x, FWD)):
        x = get(x, FWD)
        while not nil(get(x, BACK)): x = get(x, BACK)
        return x
    y = get(x, PARENT)
    while same(x, get(y, FWD)): x, y = y, get(y, PARENT)
    if not up: return y
    return y if not same(get(x, RIGHT), y) else x

def rti(a, rm):
    r = z3.fpRoundToIntegral(rm, a.fp)
    if a.conc: r = z3.simplify(r)
    V._keep.append(r)
    return F(a.w, fp=r)

def minmax(m, a, b, mx):
    """C fmin/fmax: a NaN operand is ignored; the sign of a zero result is unspecified"""
    from .symex import fcmp
    pick = fcmp('ogt' if mx else 'olt', a, b)
    eqz = z3.And(z3.fpIsZero(a.fp), z3.fpIsZero(b.fp))
    ch = m.undef(1, 'sign of zero from fmin/fmax') == 1
    r = itef(eqz, itef(ch, a, b), itef(pick, a, b))
    r = itef(f_isnan(b), a, r)
    r = itef(f_isnan(a), b, r)
    if a.conc and b.conc and r._f is not None and not r.hasbits:
        c = fpconst(r._f)
    return r

def libm(m, st, n, args):
    base, w = (n[:-1], 32) if n.endswith('f') and n not in ('modf', 'erf') else (n, 64)
    if n.endswith('l') and n not in ('ceil',): return NotImplemented
    a = args[0] if args else None
    if not isinstance(a, F): return NotImplemented
    if a.w != w: return NotImplemented
    if base in ROUND: return rti(a, ROUND[base] if ROUND[base] is not None else m.rm(st))
    if base == 'fma': return fma(args[0], args[1], args[2], m.rm(st))
    if base == 'fabs': return fabs_(a)
    if base == 'sqrt':
        r = z3.fpSqrt(m.rm(st), a.fp)
        return F(w, fp=z3.simplify(r) if a.conc else r)
    if base in ('fmin', 'fmax'): return minmax(m, args[0], args[1], base == 'fmax')
    if base == 'copysign':
        return F(w, bits=bor(band(a.bits, M(w - 1), w), band(args[1].bits, 1 << (w - 1), w), w))
    if base in ('lrint', 'llrint', 'lround', 'llround'):
        # out of range: an unspecified value, which is the integer indefinite one on this platform
        return to_i32(m, st, a, m.rm(st) if 'rint' in base else RNA, 64)
    if base in ('ldexp', 'scalbn', 'scalbln'): return ldexp(m, st, a, mat(args[1]), 64 if base == 'scalbln' else 32)
    if base in ('frexp', 'ilogb', 'logb'):
        f, e, fin = frexp(a)
        if base == 'frexp':
            m.store(st, ir.IntTy(32), args[1], e)
            return f
        z, i = z3.fpIsZero(a.fp), z3.fpIsInf(a.fp)
        if base == 'ilogb':
            return cval(z3.simplify(z3.If(i, bv(M(31), 32), z3.If(z3.Or(z, f_isnanz(a)), bv(1 << 31, 32), bv(V.sub(e, 1, 32), 32)))))
        g = z3.fpSignedToFP(RNE, bv(V.sub(e, 1, 32), 32), SORT[w])
        g = z3.If(z, z3.fpMinusInfinity(SORT[w]), z3.If(i, z3.fpPlusInfinity(SORT[w]), z3.If(f_isnanz(a), a.fp, g)))
        return F(w, fp=z3.simplify(g) if a.conc else g)
    if base == 'modf':
        t = rti(a, RTZ)
        m.store(st, ir.F32 if w == 32 else ir.F64, args[1], t)
        d = z3.If(z3.fpIsInf(a.fp), z3.FPVal(0.0, SORT[w]), z3.fpSub(RNE, a.fp, t.fp))
        d = z3.If(f_isnanz(a), a.fp, z3.If(z3.fpIsNegative(a.fp), z3.fpNeg(z3.fpAbs(d)), z3.fpAbs(d)))
        return F(w, fp=z3.simplify(d) if a.conc else d)
    if base == 'fdim':
        b = args[1]
        d = z3.If(z3.fpLEQ(a.fp, b.fp), z3.FPVal(0.0, SORT[w]), z3.fpSub(m.rm(st), a.fp, b.fp))
        return F(w, fp=z3.simplify(d) if a.conc and b.conc else d)
    if base == 'nextafter':
        b = args[1]
        x, y, sb = bv(a.bits, w), bv(b.bits, w), 1 << (w - 1)
        up = z3.fpLT(a.fp, b.fp) == z3.fpIsPositive(a.fp)
        r = z3.If(z3.fpIsZero(a.fp), (y & sb) | 1, z3.If(up, x + 1, x - 1))
        r = z3.If(f_isnanz(a), x, z3.If(f_isnanz(b), y, z3.If(z3.fpEQ(a.fp, b.fp), y, r)))
        return F(w, bits=cval(z3.simplify(r)))
    return NotImplemented

def f_isnanz(a):
    r = f_isnan(a)
    return z3.BoolVal(r) if isinstance(r, bool) else r

BIG = {32: (SORT[64], 11, 53, 400), 64: (z3.FPSort(15, 53), 15, 53, 4400)}
def ldexp(m, st, a, k, kw):
    """a * 2**k, rounded once: the product is exact in a format with a larger exponent range"""
    S, eb, sb, lim = BIG[a.w]
    k = V.ite(cmp('sgt', k, lim, kw), lim, V.ite(cmp('slt', k, -lim & M(kw), kw), -lim & M(kw), k, kw), kw)
    e = bv(trunc(V.add(k, (1 << (eb - 1)) - 1, kw), kw, eb), eb)
    two = z3.fpFP(z3.BitVecVal(0, 1), e, z3.BitVecVal(0, sb - 1))
    r = z3.fpFPToFP(m.rm(st), z3.fpMul(RNE, z3.fpFPToFP(RNE, a.fp, S), two), SORT[a.w])
    if a.conc: r = z3.simplify(r)
    V._keep.append(r)
    return F(a.w, fp=r)

def frexp(a):
    """-> (fraction, exponent) and what is finite and nonzero"""
    w = a.w
    fw, eb = (23, 8) if w == 32 else (52, 11)
    b = bv(a.bits, w)
    ex, man, sg = z3.Extract(w - 2, fw, b), z3.Extract(fw - 1, 0, b), z3.Extract(w - 1, w - 1, b)
    half = (1 << (eb - 1)) - 2
    e = z3.ZeroExt(32 - eb, ex) - half
    r = z3.Concat(sg, z3.BitVecVal(half, eb), man)
    for i in range(fw):        # subnormals: leading one at bit i
        c = z3.And(ex == 0, z3.LShR(man, i) == 1)
        r = z3.If(c, z3.Concat(sg, z3.BitVecVal(half, eb), man << (fw - i)), r)
        e = z3.If(c, z3.BitVecVal((i - fw + 1 - half) & M(32), 32), e)
    odd = z3.Or(ex == (1 << eb) - 1, z3.And(ex == 0, man == 0))
    return F(w, bits=cval(z3.simplify(z3.If(odd, b, r)))), cval(z3.simplify(z3.If(odd, z3.BitVecVal(0, 32), e))), z3.Not(odd)

def llvm(m, st, n, args):
    from .symex import Dead, Unsupported, fcmp, fp_in_range
    p = n.split('.')
    k = p[1]
    if k in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing', 'prefetch', 'stackrestore', 'invariant', 'var'):
        if k == 'experimental': return NotImplemented
        return None
    if k == 'stacksave': return NULL
    if n == 'llvm.get.rounding' or n == 'llvm.flt.rounds': raise Unsupported(n)
    if n == 'llvm.x86.sse.stmxcsr':
        m.store(st, ir.IntTy(32), args[0], bor(0x1f80, V.shl(m.get_rm(st), 3, 32), 32)); return None
    if n == 'llvm.x86.sse.ldmxcsr':
        v = mat(m.load(st, ir.IntTy(32), args[0]))
        if not isc(v): v = cval(z3.simplify(v))
        m.set_rm(st, band(V.lshr(v, 3, 32), 0xc00 | m.FLUSH, 32)); return None
    if k == 'x86': return x86(m, st, n, args)
    if k in ('memcpy', 'memmove'):
        m.memcpy(st, args[0], args[1], args[2]); return None
    if k == 'memset':
        m.memset(st, args[0], args[1], args[2]); return None
    if k in ('trap', 'debugtrap', 'ubsantrap'):
        m.exits.append((n, list(st.pc), m.curline))
        raise Dead()
    if k == 'expect' or k == 'launder' or k == 'strip' or k == 'threadlocal': return args[0]
    ty = p[-1]
    nv = 0
    if ty[0] == 'v' and ty[1].isdigit():
        i = 1
        while ty[i].isdigit(): i += 1
        nv, ty = int(ty[1:i]), ty[i:]
        if k == 'vector': return NotImplemented
        cols = list(zip(*[x if isinstance(x, tuple) else [x] * nv for x in args]))
        r = [llvm1(m, st, p, k, ty, list(c)) for c in cols]
        if any(x is NotImplemented for x in r): return NotImplemented
        if r and isinstance(r[0], tuple):
            return tuple(tuple(x[i] for x in r) for i in range(len(r[0])))
        return tuple(r)
    return llvm1(m, st, p, k, ty, args)

def sat_to(x, w, nw, sg):
    """clamp a signed w-bit value into nw bits"""
    hi = M(nw - 1) if sg else M(nw)
    lo = (-(1 << (nw - 1)) if sg else 0) & M(w)
    return trunc(ite(cmp('sgt', x, hi, w), hi, ite(cmp('slt', x, lo, w), lo, x, w), w), w, nw)

def to_i32(m, st, f, rm, w=32):
    """cvtps2dq and friends: the integer indefinite value for what does not fit"""
    from .symex import fp_in_range
    r = rti(f, rm)
    ok = fp_in_range(r, w, True)
    v = z3.fpToSBV(RTZ, r.fp, z3.BitVecSort(w))
    v = z3.If(z3.BoolVal(ok) if isinstance(ok, bool) else ok, v, z3.BitVecVal(1 << (w - 1), w))
    return cval(z3.simplify(v))

def x86(m, st, n, args):
    """SSE2 operations clang does not express in generic IR"""
    from .symex import fcmp
    p = n.split('.')
    op = '.'.join(p[3:])
    vec = lambda v, f: tuple(f(x) for x in v)
    E = {'b': 8, 'w': 16, 'd': 32, 'q': 64}
    if op in ('mfence', 'sfence', 'lfence', 'pause'): return None
    A = [tuple(x if isinstance(x, F) else mat(x) for x in a) if isinstance(a, tuple) else a for a in args]
    if op in ('pavg.b', 'pavg.w'):
        w = E[op[-1]]
        return tuple(trunc(V.lshr(V.add(V.add(zext(x, w, w + 2), zext(y, w, w + 2), w + 2), 1, w + 2), 1, w + 2), w + 2, w) for x, y in zip(*A))
    if op in ('pmulh.w', 'pmulhu.w'):
        sg = op == 'pmulh.w'
        return tuple(extract(V.mul(ext(x, 16, 32, sg), ext(y, 16, 32, sg), 32), 32, 16, 16) for x, y in zip(*A))
    if op == 'pmadd.wd':
        q = [V.mul(ext(x, 16, 32, True), ext(y, 16, 32, True), 32) for x, y in zip(*A)]
        return tuple(V.add(q[i], q[i + 1], 32) for i in range(0, len(q), 2))
    if op == 'psad.bw':
        r = []
        for i in range(0, len(A[0]), 8):
            t = 0
            for x, y in zip(A[0][i:i + 8], A[1][i:i + 8]):
                d = ite(cmp('ult', x, y, 8), V.sub(y, x, 8), V.sub(x, y, 8), 8)
                t = V.add(t, zext(d, 8, 64), 64)
            r.append(t)
        return tuple(r)
    import re
    h = re.match(r'ps(ll|rl|ra)(i?)\.([wdq])$', op)
    if h:
        w = E[h.group(3)]
        if h.group(2): c = zext(mat(args[1]), 32, 64)
        else:
            c, ew = 0, 64 // len(A[1]) * 2
            for i in reversed(range(64 // ew)): c = V.bor(V.shl(c, ew, 64), zext(A[1][i], ew, 64), 64)
        big = cmp('uge', c, w, 64)
        cc = trunc(c, 64, w)
        f = {'ll': V.shl, 'rl': V.lshr, 'ra': V.ashr}[h.group(1)]
        def one(x):
            o = 0 if h.group(1) != 'ra' else V.ashr(x, w - 1, w)
            if isinstance(big, bool): return o if big else f(x, cc, w)
            return ite(big, o, f(x, ite(big, 0, cc, w), w), w)
        return vec(A[0], one)
    if op in ('packsswb.128', 'packssdw.128', 'packuswb.128'):
        w = 32 if 'dw' in op else 16
        return tuple(sat_to(x, w, w // 2, op[4] == 's') for x in A[0] + A[1])
    if op in ('max.ps', 'min.ps', 'max.ss', 'min.ss', 'max.pd', 'min.pd'):
        r = [itef(fcmp('ogt' if op[:3] == 'max' else 'olt', x, y), x, y) for x, y in zip(*A)]
        return tuple(r if op[4] == 'p' else r[:1] + list(A[0][1:]))
    if op in ('cvttps2dq', 'cvtps2dq'): return vec(A[0], lambda x: to_i32(m, st, x, RTZ if 'tt' in op else m.rm(st)))
    if op in ('cvtss2si', 'cvttss2si', 'cvtsd2si', 'cvttsd2si'): return to_i32(m, st, A[0][0], RTZ if 'tt' in op else m.rm(st))
    if op in ('cvtss2si64', 'cvttss2si64', 'cvtsd2si64', 'cvttsd2si64'): return to_i32(m, st, A[0][0], RTZ if 'tt' in op else m.rm(st), 64)
    if op in ('pmovmskb.128', 'movmsk.ps', 'movmsk.pd'):
        r = 0
        for i, x in enumerate(A[0]):
            b, w = (x.bits, x.w) if isinstance(x, F) else (x, 8)
            r = V.bor(r, V.shl(zext(extract(b, w, w - 1, 1), 1, 32), i, 32), 32)
        return r
    if op in ('cmp.ps', 'cmp.ss', 'cmp.pd', 'cmp.sd'):
        pr = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord'][mat(args[2]) & 7]
        def one(x, y):
            c = fcmp(pr, x, y)
            return F(x.w, bits=(M(x.w) if c else 0) if isinstance(c, bool) else ite(c, M(x.w), 0, x.w))
        r = [one(x, y) for x, y in zip(A[0], A[1])]
        return tuple(r if op[4] == 'p' else r[:1] + list(A[0][1:]))
    return NotImplemented

def llvm1(m, st, p, k, ty, args):
    from .symex import fcmp
    if ty.startswith('i') and ty[1:].isdigit() and not (args and isinstance(args[0], F)):
        w = int(ty[1:])
        a = [mat(x) for x in args]
        if k in ('smax', 'smin', 'umax', 'umin'):
            if w == 1: return NotImplemented
            c = cmp(k[0] + ('gt' if k.endswith('max') else 'lt'), a[0], a[1], w)
            return ite(c, a[0], a[1], w)
        if k == 'abs':
            m.obl(st, 'signed-overflow', band1(args[1], cmp('eq', a[0], 1 << (w - 1), w)), 'abs')
            return ite(cmp('slt', a[0], 0, w), V.neg(a[0], w), a[0], w)
        if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul', 'sshl', 'ushl'):
            op, sg = k[1:], k[0] == 's'
            f = {'add': V.add, 'sub': V.sub, 'mul': V.mul}.get(op)
            if f is None: return NotImplemented
            ew = 2 * w if op == 'mul' else w + 2
            x = f(ext(a[0], w, ew, sg), ext(a[1], w, ew, sg), ew)
            r = f(a[0], a[1], w)
            if p[2] == 'with':
                o = bnot1(eq(x, ext(r, w, ew, sg), ew))
                return (r, o if isinstance(o, bool) else nb(z3.simplify(o)))
            if p[2] == 'sat':
                hi = M(w - 1) if sg else M(w)
                lo = (-(1 << (w - 1)) if sg else 0) & M(ew)
                return trunc(ite(cmp('sgt', x, hi, ew), hi, ite(cmp('slt', x, lo, ew), lo, x, ew), ew), ew, w)
        if k == 'bswap':
            r, rw = None, 0
            for i in range(w // 8):
                b = extract(a[0], w, w - 8 - 8 * i, 8)
                r = b if r is None else concat(b, 8, r, rw)
                rw += 8
            return r
        if k == 'bitreverse':
            r, rw = None, 0
            for i in range(w):
                b = extract(a[0], w, w - 1 - i, 1)
                r = b if r is None else concat(b, 1, r, rw)
                rw += 1
            return r
        if k in ('fshl', 'fshr'):
            x = concat(a[0], w, a[1], w)
            s = a[2] % w if isc(a[2]) else z3.URem(bv(a[2], w), z3.BitVecVal(w, w))
            s = zext(s, w, 2 * w)
            if k == 'fshl': return extract(V.shl(x, s, 2 * w), 2 * w, w, w)
            return trunc(V.lshr(x, s, 2 * w), 2 * w, w)
        if k == 'ctpop':
            r = 0
            for i in range(w): r = V.add(r, zext(extract(a[0], w, i, 1), 1, w), w)
            return r
        if k in ('ctlz', 'cttz'):
            r = w
            z = cmp('eq', a[0], 0, w)
            if len(args) > 1: 
                m.obl(st, 'shift-range', band1(args[1], z if isinstance(z, bool) else nb(z3.simplify(z))), k + ' of zero')
            rng = range(w) if k == 'ctlz' else reversed(range(w))
            for i in rng:
                bit = eq(extract(a[0], w, i, 1), 1, 1)
                r = ite(bit, (w - 1 - i) if k == 'ctlz' else i, r, w)
            return r
        if k in ('fptosi', 'fptoui'): return NotImplemented
        return NotImplemented
    a = args
    if not a or not isinstance(a[0], F): return NotImplemented
    if k in ROUND: return rti(a[0], ROUND[k] if ROUND[k] is not None else m.rm(st))
    if k == 'fma': return fma(a[0], a[1], a[2], m.rm(st))
    if k == 'fmuladd': return fop('add', fop('mul', a[0], a[1], m.rm(st)), a[2], m.rm(st))
    if k == 'fabs': return fabs_(a[0])
    if k == 'sqrt':
        r = z3.fpSqrt(m.rm(st), a[0].fp)
        return F(a[0].w, fp=z3.simplify(r) if a[0].conc else r)
    if k == 'copysign':
        w = a[0].w
        return F(w, bits=bor(band(a[0].bits, M(w - 1), w), band(a[1].bits, 1 << (w - 1), w), w))
    if k in ('minnum', 'maxnum'): return minmax(m, a[0], a[1], k == 'maxnum')
    if k in ('minimum', 'maximum'):
        mx = k == 'maximum'
        x, y = a[0], a[1]
        both0 = z3.And(z3.fpIsZero(x.fp), z3.fpIsZero(y.fp))
        z = itef(z3.fpIsNegative(x.fp), y, x) if mx else itef(z3.fpIsNegative(x.fp), x, y)
        r = itef(both0, z, itef(fcmp('ogt' if mx else 'olt', x, y), x, y))
        nan = F(x.w, fp=z3.fpNaN(SORT[x.w]))
        return itef(z3.Or(f_isnan(x) if not isinstance(f_isnan(x), bool) else z3.BoolVal(f_isnan(x)),
                          f_isnan(y) if not isinstance(f_isnan(y), bool) else z3.BoolVal(f_isnan(y))), nan, r)
    if k == 'is' and p[2] == 'fpclass':
        mask = a[1]
        x = a[0].fp
        t = []
        b = a[0].bits
        w = a[0].w
        q = {32: 22, 64: 51}[w]
        isn = z3.fpIsNaN(x)
        quiet = extract(bv(b, w), w, q, 1)
        quiet = (quiet == 1) if not isinstance(quiet, int) else z3.BoolVal(quiet == 1)
        neg = z3.fpIsNegative(x); pos = z3.Not(neg)
        if mask & 1: t.append(z3.And(isn, z3.Not(quiet)))
        if mask & 2: t.append(z3.And(isn, quiet))
        for bit, sg, pr in ((4, neg, z3.fpIsInf), (8, neg, z3.fpIsNormal), (16, neg, z3.fpIsSubnormal), (32, neg, z3.fpIsZero),
                            (64, pos, z3.fpIsZero), (128, pos, z3.fpIsSubnormal), (256, pos, z3.fpIsNormal), (512, pos, z3.fpIsInf)):
            if mask & bit: t.append(z3.And(sg, pr(x)))
        return nb(z3.simplify(z3.Or(t)))
    if k in ('fptosi', 'fptoui') and p[2] == 'sat':
        w = int(p[3][1:])
        sg = k == 'fptosi'
        from .symex import fp_in_range
        ok = fp_in_range(a[0], w, sg)
        r = (z3.fpToSBV if sg else z3.fpToUBV)(RTZ, a[0].fp, z3.BitVecSort(w))
        lo, hi = (1 << (w - 1), M(w - 1)) if sg else (0, M(w))
        neg = z3.fpIsNegative(a[0].fp)
        r = z3.If(z3.fpIsNaN(a[0].fp), z3.BitVecVal(0, w), z3.If(ok, r, z3.If(neg, z3.BitVecVal(lo, w), z3.BitVecVal(hi, w))))
        if a[0].conc: r = z3.simplify(r)
        return cval(r)
    if k in ('lrint', 'llrint', 'lround', 'llround'):
        return to_i32(m, st, a[0], m.rm(st) if 'rint' in k else RNA, int(p[2][1:]))
    if k == 'ldexp': return ldexp(m, st, a[0], mat(a[1]), int(p[3][1:]))
    return NotImplemented
