"""Value constructors shared by the executor and the oracle.

 iN (N>1)  python int | z3 BitVec | Parts (lazy concatenation of byte ranges)
 i1        python bool | z3 Bool
 float     F  (bits and/or an FP term)
 ptr       Ptr (guarded alternatives (cond, obj, const off, symbolic off, stride))
 aggregate python tuple
"""
import z3, math, struct

Z = z3
_keep = []          # keeps every interesting AST alive so ids stay unique
CTX = z3.main_ctx()
RNE, RTZ = z3.RNE(), z3.RTZ()
RTP, RTN, RNA = z3.RTP(), z3.RTN(), z3.RNA()
SORT = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64), 128: z3.FPSort(15, 113)}

OP = {k: getattr(z3, 'Z3_OP_' + k) for k in
      'BADD BSUB BMUL BAND BOR BXOR BNOT BNEG BSHL BLSHR BASHR CONCAT EXTRACT ZERO_EXT SIGN_EXT ITE BNUM'.split()}

def M(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

_fresh = [0]
axioms = []          # side constraints introduced by bit views of computed floats
def reset():
    """start a new query scope"""
    del axioms[:]
    _bits.clear()
_bits = {}           # bits chosen for a computed float: the same operation on the same operands delivers the same bits
def fresh(name, w):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)
def freshb(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))

QUIET = {16: 9, 32: 22, 64: 51}
DEADLINE = [float('inf')]     # of the current job

class Parts:
    """byte-wise composition; parts = ((value, nbytes, k), ...) least significant first"""
    __slots__ = ('parts', 'z')
    def __init__(self, parts):
        self.parts, self.z = parts, None

class F:
    __slots__ = ('w', '_b', '_f', '_s')
    def __init__(self, w, bits=None, fp=None, sel=None):
        self.w, self._b, self._f, self._s = w, bits, fp, sel     # sel: (condition, F, F) when a choice between values
    @property
    def fp(self):
        if self._f is None:
            b = self._b
            if isinstance(b, int):
                self._f = z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, self.w), SORT[self.w]))
            else:
                self._f = z3.fpBVToFP(bv(b, self.w), SORT[self.w])
        return self._f
    @property
    def bits(self):
        if self._b is None:
            if self.w == 80: raise NotImplementedError('bits of x86_fp80')
            c = fpconst(self._f)
            if c is not None and not c[1]:
                self._b = c[0]
            elif self._s is not None:
                self._b = ite(self._s[0], self._s[1].bits, self._s[2].bits, self.w)
            elif self._f.get_id() in _bits: self._b = _bits[self._f.get_id()][1]
            else:
                b = fresh('fpbits', self.w)
                _bits[self._f.get_id()] = self._f, b
                axioms.append(z3.fpBVToFP(b, SORT[self.w]) == self._f)
                # arithmetic delivers quiet NaNs; their payload is left open
                if self.w in QUIET: axioms.append(z3.Or(z3.Not(z3.fpIsNaN(self._f)), z3.Extract(QUIET[self.w], QUIET[self.w], b) == 1))
                self._b = b
        return self._b
    @property
    def hasbits(self): return self._b is not None
    @property
    def conc(self): return isinstance(self._b, int)

def fpconst(t):
    """(bits, isnan) when t is an FP numeral"""
    t = z3.simplify(t)
    if z3.is_fp_value(t):
        if t.isNaN(): return (0, True)
        v = z3.simplify(z3.fpToIEEEBV(t))
        if z3.is_bv_value(v): return (v.as_long(), False)
    return None

def mat(v):
    """materialise Parts"""
    if isinstance(v, Parts):
        if v.z is None:
            v.z = _compose(v.parts)
        return v.z
    return v

def scal_bits(v, n):
    """stored scalar -> integer bits (int or BV of 8n)"""
    if isinstance(v, F): return v.bits
    if isinstance(v, Parts): return mat(v)
    if isinstance(v, bool): return int(v)
    return v

def _compose(parts):
    # group runs
    runs = []
    for (v, n, k) in parts:
        if runs and runs[-1][0] is v and runs[-1][2] + runs[-1][3] == k:
            runs[-1][3] += 1
        else:
            runs.append([v, n, k, 1])
    out = []
    for v, n, k, c in runs:
        b = scal_bits(v, n)
        if isinstance(b, Ptr): raise NotImplementedError('pointer bytes')
        out.append((extract(b, 8 * n, 8 * k, 8 * c), 8 * c))
    r, w = out[0]
    for x, xw in out[1:]:
        r = concat(x, xw, r, w)
        w += xw
    return r

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
def P1(obj, off): return Ptr(((True, obj, off, None, 1),))
NULL = P1(0, 0)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

# ----------------------------------------------------------------- bit vectors
def bv(v, w):
    if isinstance(v, int): return z3.BitVecVal(v & M(w), w)
    if isinstance(v, Parts): return mat(v)
    return v

def isc(*vs):
    for v in vs:
        if not isinstance(v, int): return False
    return True

def kind(t): return t.decl().kind()

def _ord(a, b):
    return (a, b) if a.get_id() <= b.get_id() else (b, a)

def cval(t):
    """python int if the term is a numeral, else the term"""
    if z3.is_bv_value(t): return t.as_long()
    return t

def _flat(kind_, a, b, w):
    """flatten an associative/commutative chain into a sorted left-leaning one"""
    return None

def add(a, b, w):
    if isc(a, b): return (a + b) & M(w)
    if isc(a):
        if a == 0: return b
        a, b = b, a
    if isc(b) and b == 0: return a
    a, b = bv(a, w), bv(b, w)
    # x + (-y) is not normalised; keep simple
    if z3.is_bv_value(b) and kind(a) == OP['BADD'] and z3.is_bv_value(a.arg(1)):
        return add(a.arg(0), (a.arg(1).as_long() + b.as_long()) & M(w), w)
    if not z3.is_bv_value(b): a, b = _ord(a, b)
    r = a + b; _keep.append(r)
    return r
def sub(a, b, w):
    if isc(a, b): return (a - b) & M(w)
    if isc(b):
        return add(a, -b & M(w), w)
    r = bv(a, w) - bv(b, w); _keep.append(r)
    return r
def mul(a, b, w):
    if isc(a, b): return (a * b) & M(w)
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return shl(a, b.bit_length() - 1, w)
    a, b = bv(a, w), bv(b, w)
    if not z3.is_bv_value(b): a, b = _ord(a, b)
    r = a * b; _keep.append(r)
    return r
def band(a, b, w):
    if isc(a, b): return a & b
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == M(w): return a
        # low mask over an extension of something that fits
        if b & (b + 1) == 0:
            t = bv(a, w)
            n = b.bit_length()
            if kind(t) == OP['ZERO_EXT'] and t.arg(0).size() <= n: return t
            return zext(trunc(t, w, n), n, w)
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return a
    if not z3.is_bv_value(b): a, b = _ord(a, b)
    r = a & b; _keep.append(r)
    return r
def bor(a, b, w):
    if isc(a, b): return a | b
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return a
        if b == M(w): return b
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return a
    if not z3.is_bv_value(b): a, b = _ord(a, b)
    r = a | b; _keep.append(r)
    return r
def bxor(a, b, w):
    if isc(a, b): return a ^ b
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return a
        if b == M(w): return bnot(a, w)
    a, b = bv(a, w), bv(b, w)
    if not z3.is_bv_value(b): a, b = _ord(a, b)
    r = a ^ b; _keep.append(r)
    return r
def bnot(a, w):
    if isc(a): return ~a & M(w)
    a = bv(a, w)
    if kind(a) == OP['BNOT']: return a.arg(0)
    r = ~a; _keep.append(r)
    return r
def neg(a, w): return sub(0, a, w)
def shl(a, k, w):
    if isc(k):
        if k == 0: return a
        if k >= w: return 0
        if isc(a): return (a << k) & M(w)
    elif isc(a) and a == 0: return 0
    r = bv(a, w) << bv(k, w); _keep.append(r)
    return r
def lshr(a, k, w):
    if isc(k):
        if k == 0: return a
        if k >= w: return 0
        if isc(a): return a >> k
        t = bv(a, w)
        r = zext(extract(t, w, k, w - k), w - k, w)
        return r
    elif isc(a) and a == 0: return 0
    r = z3.LShR(bv(a, w), bv(k, w)); _keep.append(r)
    return r
def ashr(a, k, w):
    if isc(k):
        if k == 0: return a
        if isc(a): return (sgn(a, w) >> min(k, w)) & M(w)
        if k < w:
            return sext(extract(bv(a, w), w, k, w - k), w - k, w)
    r = bv(a, w) >> bv(k, w); _keep.append(r)
    return r

PUSH = {OP['BADD']: add, OP['BSUB']: sub, OP['BMUL']: mul}
BITW = {OP['BAND']: band, OP['BOR']: bor, OP['BXOR']: bxor}
_tmemo = {}
def trunc(v, fw, w):
    if fw == w: return v
    if isc(v): return v & M(w)
    if isinstance(v, Parts):
        if w % 8 == 0:
            p = v.parts[:w // 8]
            return _parts_value(p)
        v = mat(v)
        if isc(v): return v & M(w)
    key = (v.get_id(), w)
    r = _tmemo.get(key)
    if r is None:
        r = _trunc(v, fw, w)
        _keep.append(v)
        if not isc(r): _keep.append(r)
        _tmemo[key] = r
    return r
def _args(v):
    """binary view of an n-ary application"""
    return [v.arg(i) for i in range(v.num_args())]
def _trunc(v, fw, w):
    k = kind(v)
    if k in (OP['ZERO_EXT'], OP['SIGN_EXT']):
        x = v.arg(0); iw = x.size()
        if iw == w: return x
        if iw > w: return trunc(x, iw, w)
        return (zext if k == OP['ZERO_EXT'] else sext)(x, iw, w)
    if k in PUSH or k in BITW:
        f = PUSH.get(k) or BITW[k]
        as_ = [trunc(cval(x), fw, w) for x in _args(v)]
        r = as_[0]
        for x in as_[1:]: r = f(r, x, w)
        return r
    if k == OP['BNOT']: return bnot(trunc(cval(v.arg(0)), fw, w), w)
    if k == OP['BSHL'] and z3.is_bv_value(v.arg(1)):
        return shl(trunc(cval(v.arg(0)), fw, w), v.arg(1).as_long(), w)
    if k == OP['CONCAT']:
        as_ = _args(v)[::-1]
        got, r, rw = 0, None, 0
        for x in as_:
            xw = x.size()
            if rw + xw <= w:
                piece, pw = cval(x), xw
            else:
                pw = w - rw
                piece = trunc(cval(x), xw, pw)
            if r is None: r, rw = piece, pw
            else: r, rw = concat(piece, pw, r, rw), rw + pw
            if rw == w: return r
    if k == OP['EXTRACT']:
        hi, lo = v.params()
        return extract(v.arg(0), v.arg(0).size(), lo, w)
    if k == OP['ITE']:
        return ite(v.arg(0), trunc(cval(v.arg(1)), fw, w), trunc(cval(v.arg(2)), fw, w), w)
    return z3.Extract(w - 1, 0, v)
def extract(v, fw, lo, n):
    """n bits starting at lo"""
    if isc(v): return (v >> lo) & M(n)
    if lo == 0: return trunc(v, fw, n)
    v = mat(v)
    if isc(v): return (v >> lo) & M(n)
    k = kind(v)
    if k == OP['EXTRACT']:
        return extract(v.arg(0), v.arg(0).size(), lo + v.params()[1], n)
    if k in (OP['ZERO_EXT'], OP['SIGN_EXT']):
        x = v.arg(0); iw = x.size()
        if lo + n <= iw: return extract(x, iw, lo, n)
        if k == OP['ZERO_EXT']:
            if lo >= iw: return 0
            return zext(extract(x, iw, lo, iw - lo), iw - lo, n)
        if lo < iw:
            return sext(extract(x, iw, lo, iw - lo), iw - lo, n)
        return sext(extract(x, iw, iw - 1, 1), 1, n)
    if k == OP['CONCAT']:
        as_ = _args(v)[::-1]
        pos, r, rw = 0, None, 0
        for x in as_:
            xw = x.size()
            a, b = max(lo, pos), min(lo + n, pos + xw)
            if a < b:
                piece = extract(cval(x), xw, a - pos, b - a)
                r, rw = (piece, b - a) if r is None else (concat(piece, b - a, r, rw), rw + b - a)
            pos += xw
        return r
    if k in BITW:
        as_ = [extract(cval(x), fw, lo, n) for x in _args(v)]
        r = as_[0]
        for x in as_[1:]: r = BITW[k](r, x, n)
        return r
    if k == OP['ITE']:
        return ite(v.arg(0), extract(cval(v.arg(1)), fw, lo, n), extract(cval(v.arg(2)), fw, lo, n), n)
    if k == OP['BSHL'] and z3.is_bv_value(v.arg(1)):
        s = v.arg(1).as_long()
        if lo >= s: return extract(cval(v.arg(0)), fw, lo - s, n)
        if lo + n <= s: return 0
    r = z3.Extract(lo + n - 1, lo, v); _keep.append(r)
    return r
def concat(hi, hw, lo, lw):
    if isc(hi, lo): return hi << lw | lo
    if isc(hi) and hi == 0: return zext(lo, lw, hw + lw)
    h, l = bv(hi, hw), bv(lo, lw)
    if kind(h) == OP['EXTRACT'] and kind(l) == OP['EXTRACT'] and h.arg(0).eq(l.arg(0)) \
            and h.params()[1] == l.params()[0] + 1:
        return extract(h.arg(0), h.arg(0).size(), l.params()[1], hw + lw)
    r = z3.Concat(h, l); _keep.append(r)
    return r
def zext(v, fw, w):
    if fw == w: return v
    if isc(v): return v
    v = bv(v, fw)
    if kind(v) == OP['ZERO_EXT']: return zext(v.arg(0), v.arg(0).size(), w)
    r = z3.ZeroExt(w - fw, v); _keep.append(r)
    return r
def sext(v, fw, w):
    if fw == w: return v
    if isc(v): return sgn(v, fw) & M(w)
    v = bv(v, fw)
    if kind(v) == OP['SIGN_EXT']: return sext(v.arg(0), v.arg(0).size(), w)
    if kind(v) == OP['ZERO_EXT']: return zext(v.arg(0), v.arg(0).size(), w)
    r = z3.SignExt(w - fw, v); _keep.append(r)
    return r
def ext(v, fw, w, signed): return (sext if signed else zext)(v, fw, w)

# ----------------------------------------------------------------- booleans
def nb(b):
    if isinstance(b, bool): return b
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return b
def bnot1(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def band1(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    return z3.And(a, b)
def bor1(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    return z3.Or(a, b)
def conj(l):
    r = True
    for x in l: r = band1(r, x)
    return r
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b

def eq(a, b, w):
    a, b = mat(a), mat(b)
    if isc(a, b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return bv(a, w) == bv(b, w)
def cmp(pred, a, b, w):
    a, b = mat(a), mat(b)
    if isc(a, b):
        if pred[0] == 's': x, y = sgn(a, w), sgn(b, w)
        else: x, y = a, b
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
    if pred == 'eq': return eq(a, b, w)
    if pred == 'ne': return bnot1(eq(a, b, w))
    A, B = bv(a, w), bv(b, w)
    return {'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B,
            'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B),
            'uge': lambda: z3.UGE(A, B)}[pred]()
def ite(c, a, b, w):
    """integer ite"""
    if isinstance(c, bool): return a if c else b
    a, b = mat(a), mat(b)
    if isc(a, b) and a == b: return a
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return cval(a)
    r = z3.If(c, a, b); _keep.append(r)
    return r
def itef(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if a.hasbits and b.hasbits:
        x = ite(c, a.bits, b.bits, a.w)
        if isc(x): return F(a.w, bits=x)
        return F(a.w, bits=x)
    if a.fp.eq(b.fp): return a
    return F(a.w, fp=z3.If(c, a.fp, b.fp), sel=(c, a, b))

def _parts_value(p):
    """entries -> cheapest integer value"""
    v0, n0, k0 = p[0]
    if k0 == 0 and len(p) == n0 and not isinstance(v0, (F, Ptr)):
        if all(q[0] is v0 and q[2] == i for i, q in enumerate(p)):
            return v0
    if all(isinstance(q[0], int) for q in p):
        r = 0
        for i, (v, n, k) in enumerate(p):
            r |= ((v >> (8 * k)) & 255) << (8 * i)
        return r
    return Parts(tuple(p))

# ----------------------------------------------------------------- floats
def fval(bits, w): return F(w, bits=bits)
def fop(op, a, b, rm=RNE):
    w = a.w
    x, y = a.fp, b.fp
    if op in ('add', 'mul') and x.get_id() > y.get_id(): x, y = y, x
    f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
    r = f(rm, x, y)
    if a.conc and b.conc: r = z3.simplify(r)
    _keep.append(r)
    return F(w, fp=r)
def fma(a, b, c, rm=RNE):
    x, y = a.fp, b.fp
    # the product is exact: its sign can be moved to one factor
    neg = False
    if x.decl().kind() == z3.Z3_OP_FPA_NEG: x, neg = x.arg(0), not neg
    if y.decl().kind() == z3.Z3_OP_FPA_NEG: y, neg = y.arg(0), not neg
    if x.get_id() > y.get_id(): x, y = y, x
    if neg: x = z3.fpNeg(x)
    r = z3.fpFMA(rm, x, y, c.fp)
    if a.conc and b.conc and c.conc: r = z3.simplify(r)
    _keep.append(r)
    return F(a.w, fp=r)
def fneg(a):
    if a.hasbits:
        r = F(a.w, bits=bxor(a.bits, 1 << (a.w - 1), a.w))
        if not a.conc: r._f = z3.fpNeg(a.fp)
        return r
    if a._s is not None: return itef(a._s[0], fneg(a._s[1]), fneg(a._s[2]))
    return F(a.w, fp=z3.fpNeg(a.fp))
def fabs_(a):
    if a.hasbits: return F(a.w, bits=band(a.bits, M(a.w - 1), a.w))
    if a._s is not None: return itef(a._s[0], fabs_(a._s[1]), fabs_(a._s[2]))
    return F(a.w, fp=z3.fpAbs(a.fp))
def f_isnan(a):
    if a.conc:
        return nb(z3.simplify(z3.fpIsNaN(a.fp)))
    return z3.fpIsNaN(a.fp)
