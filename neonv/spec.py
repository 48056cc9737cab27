"""The oracle: what every implemented intrinsic must compute, written from the Arm
architecture / ACLE definition of the operation and independent of the code.

oracle(fn, args, imm) -> Out(ret=[lanes], mem={param: [elements]})
Lanes are the value kinds of vals.py; the list of a xK type is register-major."""
import re, z3
from .vals import *
from . import vals as V
from .types import T

class Out:
    __slots__ = ('ret', 'mem', 'mode')
    def __init__(self, ret=None, mem=None, mode='bits'):
        self.ret, self.mem, self.mode = ret, mem or {}, mode

ELT = re.compile(r'_([usf])(8|16|32|64)$')

def split(name):
    """-> (family, element kind, element width) of the first suffix"""
    m = re.match(r'^(.*?)_([usf])(\d+)(?:_([usf])(\d+))?$', name)
    return m.group(1), m.group(2), int(m.group(3)), m.group(4), int(m.group(5) or 0)

# ------------------------------------------------------------- immediates
def imm_range(fn):
    """architectural range (lo, hi) of the trailing immediate, or None"""
    name = fn['name']
    if not fn['params'] or fn['params'][-1][0] != 'int': return None
    f, k, w, _, _ = split(name)
    if re.match(r'^v(ld|st)\dq?_lane$', f):
        return (0, max(T(p[0]).n for p in fn['params'] if p[1] == 'val') - 1)
    if f in ('vget_lane', 'vgetq_lane'): return (0, T(fn['params'][0][0]).n - 1)
    if f in ('vext', 'vextq'): return (0, T(fn['params'][0][0]).n - 1)
    if f in ('vshr_n', 'vsraq_n', 'vshrq_n', 'vsra_n'): return (1, w)
    if f in ('vshl_n', 'vshlq_n'): return (0, w - 1)
    if f == 'vshll_n': return (0, w - 1)
    if f in ('vshrn_n', 'vrshrn_n', 'vqshrn_n', 'vqshrun_n', 'vqrshrun_n'): return (1, w // 2)
    raise KeyError('immediate of ' + name)

def illegal(fn, v):
    """predicate (on a 32-bit term): value outside the range.  vshll_n #w is the SHLL form:
    some toolchains accept it, so it is claimed neither legal nor illegal."""
    lo, hi = imm_range(fn)
    if split(fn['name'])[0] == 'vshll_n': hi += 1
    return z3.Or(v < lo, v > hi)

# ------------------------------------------------------------- helpers
def clamp(x, ew, w, signed):
    """wide (ew-bit signed) -> saturated w-bit"""
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    r = ite(cmp('sgt', x, hi, ew), hi & M(w), ite(cmp('slt', x, lo & M(ew), ew), lo & M(w), trunc(x, ew, w), w), w)
    return r

def fmaxmin(a, b, mx):
    w = a.w
    nan = z3.Or(z3.fpIsNaN(a.fp), z3.fpIsNaN(b.fp))
    zero = z3.And(z3.fpIsZero(a.fp), z3.fpIsZero(b.fp))
    na, nb_ = z3.fpIsNegative(a.fp), z3.fpIsNegative(b.fp)
    z = z3.If(na, b.fp, a.fp) if mx else z3.If(na, a.fp, b.fp)
    pick = z3.fpGT(a.fp, b.fp) if mx else z3.fpLT(a.fp, b.fp)
    r = z3.If(nan, z3.fpNaN(SORT[w]), z3.If(zero, z, z3.If(pick, a.fp, b.fp)))
    if a.conc and b.conc: r = z3.simplify(r)
    return F(w, fp=r)

def cvt(a, w, signed, rm):
    """FPToFixed: saturating, NaN -> 0"""
    S = SORT[a.w]
    x = z3.fpRoundToIntegral(rm, a.fp)
    hi = 2.0 ** (w - 1 if signed else w)
    lo = -(2.0 ** (w - 1)) if signed else 0.0
    conv = (z3.fpToSBV if signed else z3.fpToUBV)(RTZ, x, z3.BitVecSort(w))
    r = z3.If(z3.fpIsNaN(a.fp), z3.BitVecVal(0, w),
        z3.If(z3.fpGEQ(x, z3.FPVal(hi, S)), z3.BitVecVal(M(w - 1) if signed else M(w), w),
        z3.If(z3.fpLEQ(x, z3.FPVal(lo, S)), z3.BitVecVal((1 << (w - 1)) if signed else 0, w), conv)))
    if a.conc: r = z3.simplify(r)
    return cval(r)

# 8-bit reciprocal estimate: computed here from the definition in the architecture manual
# (nearest 1/256 to 1/((a+0.5)/512)), not from the formula used in the implementation.
def recip_table():
    from fractions import Fraction
    t = []
    for a in range(256, 512):
        x = Fraction(2 * a + 1, 1024)            # midpoint of [a, a+1) / 512
        r = Fraction(1) / x * 256                # scaled estimate
        q = int(r + Fraction(1, 2))              # round to nearest, halves up
        t.append(q)
    return t
RECIP = recip_table()

def recpe(a):
    """FPRecipEstimate for single precision, RNE, FZ=0"""
    b = a.bits
    w = 32
    sign = band(b, 1 << 31, w)
    exp = extract(b, w, 23, 8)
    frac = extract(b, w, 0, 23)
    mag = extract(b, w, 0, 31)
    isnan = band1(eq(exp, 255, 8), bnot1(eq(frac, 0, 23)))
    isinf = band1(eq(exp, 255, 8), eq(frac, 0, 23))
    # |a| < 2^-128 overflows to infinity (zero included)
    small = cmp('ult', mag, 0x00200000, 31)
    # scaled mantissa: subnormals >= 2^-128 are renormalised
    top = extract(frac, 23, 22, 1)
    sub_hi = concat(frac, 23, 0, 1)              # fraction << 1
    # exp==0: frac<22>==0 -> exp=-1, frac<<2 ; else frac<<1, exp 0
    f0 = ite(eq(top, 0, 1), V.shl(frac, 2, 23), V.shl(frac, 1, 23), 23)
    e0 = ite(eq(top, 0, 1), M(10), 0, 10)
    isden = eq(exp, 0, 8)
    f = ite(isden, f0, frac, 23)
    e = ite(isden, e0, zext(exp, 8, 10), 10)
    idx = extract(f, 23, 15, 8)
    est = None
    for i, q in reversed(list(enumerate(RECIP))):
        est = (q & 255) if est is None else ite(eq(idx, i, 8), q & 255, est, 8)
    re_ = V.sub(253, e, 10)                       # -1..254 (signed)
    fr = concat(est, 8, 0, 15)                   # estimate<7:0>:Zeros(15)
    # result exponent 0 or -1: denormalise
    fr0 = concat(1, 1, extract(fr, 23, 1, 22), 22)
    fr1 = concat(1, 2, extract(fr, 23, 2, 21), 21)
    rz, rm1 = eq(re_, 0, 10), eq(re_, M(10), 10)
    fr = ite(rm1, fr1, ite(rz, fr0, fr, 23), 23)
    ee = ite(rm1, 0, trunc(re_, 10, 8), 8)
    val = bor(sign, concat(0, 1, concat(ee, 8, fr, 23), 31), w)
    r = ite(isnan, 0x7fc00000, ite(isinf, sign, ite(small, bor(sign, 0x7f800000, w), val, w), w), w)
    return F(32, bits=r)

def recps(a, b):
    """FPRecipStepFused"""
    fm = fma(fneg(a), b, F(32, bits=0x40000000), MODE[0])
    ex = z3.Or(z3.And(z3.fpIsInf(a.fp), z3.fpIsZero(b.fp)), z3.And(z3.fpIsZero(a.fp), z3.fpIsInf(b.fp)))
    if a.conc and b.conc: ex = nb(z3.simplify(ex))
    return itef(ex, F(32, bits=0x40000000), fm)

# rounding mode in force at the call (N29); float arithmetic follows it, nothing else does
MODE = [RNE]
# ------------------------------------------------------------- oracle
def oracle(fn, args, imm=None):
    """args: list parallel to fn['params'] (without the immediate): lane lists"""
    name = fn['name']
    f, k, w, k2, w2 = split(name)
    sg = k == 's'
    R = T(fn['ret'])
    base = re.sub(r'^(v[a-z0-9]*?)q(_(?:n|lane|dup|high))?$', lambda m: m.group(1) + (m.group(2) or ''), f)
    a = args[0] if args else None
    b = args[1] if len(args) > 1 else None
    c = args[2] if len(args) > 2 else None
    E = lambda x: ext(x, w, 2 * w, sg)
    ww = 2 * w

    # ---- loads / stores
    m = re.match(r'^vld(\d)$', base)
    if m:
        K = int(m.group(1)); n = R.n
        return Out([a[i * K + j] for j in range(K) for i in range(n)])
    m = re.match(r'^vld(\d)_dup$', base)
    if m:
        K = int(m.group(1)); n = R.n
        return Out([a[j] for j in range(K) for i in range(n)])
    m = re.match(r'^vld(\d)_lane$', base)
    if m:
        K = int(m.group(1)); n = R.n
        return Out([a[j] if i == imm else b[j * n + i] for j in range(K) for i in range(n)])
    m = re.match(r'^vst(\d)$', base)
    if m:
        K = int(m.group(1)); n = len(b) // K
        return Out(None, {0: [b[j * n + i] for i in range(n) for j in range(K)]})
    m = re.match(r'^vst(\d)_lane$', base)
    if m:
        K = int(m.group(1)); n = len(b) // K
        return Out(None, {0: [b[j * n + imm] for j in range(K)]})

    # ---- float arithmetic
    if k == 'f' and base in ('vadd', 'vsub', 'vmul', 'vdiv'):
        return Out([fop(base[1:], x, y, MODE[0]) for x, y in zip(a, b)], mode='fp')
    if k == 'f' and base == 'vmul_n': return Out([fop('mul', x, b[0], MODE[0]) for x in a], mode='fp')
    if k == 'f' and base == 'vmla': return Out([fop('add', x, fop('mul', y, z, MODE[0]), MODE[0]) for x, y, z in zip(a, b, c)], mode='fp')
    if k == 'f' and base == 'vmla_n': return Out([fop('add', x, fop('mul', y, c[0], MODE[0]), MODE[0]) for x, y in zip(a, b)], mode='fp')

    # ---- modular integer arithmetic
    I = {'vadd': V.add, 'vsub': V.sub, 'vmul': V.mul}
    if base in I: return Out([I[base](x, y, w) for x, y in zip(a, b)])
    if base == 'vmul_n': return Out([V.mul(x, b[0], w) for x in a])
    if base == 'vmla': return Out([V.add(x, V.mul(y, z, w), w) for x, y, z in zip(a, b, c)])
    if base == 'vmla_n': return Out([V.add(x, V.mul(y, c[0], w), w) for x, y in zip(a, b)])

    # ---- long / wide
    if base in ('vaddl', 'vsubl'): return Out([I['v' + base[1:4]](E(x), E(y), ww) for x, y in zip(a, b)])
    if base == 'vaddl_high':
        h = len(a) // 2
        return Out([V.add(E(x), E(y), ww) for x, y in zip(a[h:], b[h:])])
    if base in ('vaddw', 'vsubw'): return Out([I['v' + base[1:4]](x, E(y), ww) for x, y in zip(a, b)])
    if base == 'vaddw_high':
        h = len(b) // 2
        return Out([V.add(x, E(y), ww) for x, y in zip(a, b[h:])])
    if base == 'vmovl': return Out([E(x) for x in a])
    if base == 'vpaddl': return Out([V.add(E(a[2 * i]), E(a[2 * i + 1]), ww) for i in range(len(a) // 2)])
    if base == 'vmull': return Out([V.mul(E(x), E(y), ww) for x, y in zip(a, b)])
    if base == 'vmull_n': return Out([V.mul(E(x), E(b[0]), ww) for x in a])
    if base == 'vmlal': return Out([V.add(x, V.mul(E(y), E(z), ww), ww) for x, y, z in zip(a, b, c)])
    if base == 'vmlsl': return Out([V.sub(x, V.mul(E(y), E(z), ww), ww) for x, y, z in zip(a, b, c)])
    if base == 'vshll_n': return Out([V.shl(E(x), imm, ww) for x in a])

    # ---- saturating
    if base in ('vqadd', 'vqsub'):
        ew = w + 2
        op = V.add if base == 'vqadd' else V.sub
        return Out([clamp(op(ext(x, w, ew, sg), ext(y, w, ew, sg), ew), ew, w, sg) for x, y in zip(a, b)])
    if base == 'vqmovn': return Out([clamp(ext(x, w, w + 1, sg), w + 1, w // 2, sg) for x in a])
    if base == 'vqmovun': return Out([clamp(sext(x, w, w + 1), w + 1, w // 2, False) for x in a])
    if base == 'vqdmull':
        ew = ww + 2
        return Out([clamp(V.shl(V.mul(sext(x, w, ew), sext(y, w, ew), ew), 1, ew), ew, ww, True) for x, y in zip(a, b)])
    if base in ('vqshrn_n', 'vqshrun_n', 'vqrshrun_n'):
        ew = w + 2
        us = base != 'vqshrn_n'
        rnd = (1 << (imm - 1)) if 'qrs' in base else 0
        return Out([clamp(V.ashr(V.add(ext(x, w, ew, sg), rnd, ew), imm, ew), ew, w // 2, sg and not us) for x in a])

    # ---- narrowing
    h = w // 2
    if base == 'vaddhn_high':
        return Out(list(a) + [extract(V.add(x, y, w), w, h, h) for x, y in zip(b, c)])
    if base == 'vsubhn': return Out([extract(V.sub(x, y, w), w, h, h) for x, y in zip(a, b)])
    if base == 'vrsubhn': return Out([extract(V.add(V.sub(x, y, w), 1 << (h - 1), w), w, h, h) for x, y in zip(a, b)])
    if base == 'vmovn': return Out([trunc(x, w, h) for x in a])
    if base in ('vshrn_n', 'vrshrn_n'):
        ew = w + 2
        rnd = (1 << (imm - 1)) if base[1] == 'r' else 0
        return Out([trunc(V.ashr(V.add(ext(x, w, ew, sg), rnd, ew), imm, ew), ew, h) for x in a])

    # ---- halving, shifts
    if base == 'vhsub':
        ew = w + 1
        return Out([extract(V.sub(ext(x, w, ew, sg), ext(y, w, ew, sg), ew), ew, 1, w) for x, y in zip(a, b)])
    if base == 'vshr_n':
        return Out([trunc(V.ashr(ext(x, w, w + 1, sg), imm, w + 1), w + 1, w) for x in a])
    if base == 'vsra_n':
        return Out([V.add(x, trunc(V.ashr(ext(y, w, w + 1, sg), imm, w + 1), w + 1, w), w) for x, y in zip(a, b)])
    if base == 'vshl_n': return Out([V.shl(x, imm, w) for x in a])

    # ---- bitwise
    B = {'vand': V.band, 'vorr': V.bor, 'veor': V.bxor}
    if base in B: return Out([B[base](x, y, w) for x, y in zip(a, b)])
    if base == 'vmvn': return Out([V.bnot(x, w) for x in a])
    if base == 'vbsl':
        out = []
        for m_, x, y in zip(a, b, c):
            xb, yb = (x.bits, y.bits) if k == 'f' else (x, y)
            r = V.bor(V.band(m_, xb, w), V.band(V.bnot(m_, w), yb, w), w)
            out.append(F(w, bits=r) if k == 'f' else r)
        return Out(out)

    # ---- permutations
    m = re.match(r'^vrev(\d+)$', base)
    if m:
        g = int(m.group(1)) // w
        return Out([a[(i // g) * g + g - 1 - i % g] for i in range(len(a))])
    n = len(a) if a else 0
    if base == 'vtrn':
        return Out([x for i in range(0, n, 2) for x in (a[i], b[i])] + [x for i in range(0, n, 2) for x in (a[i + 1], b[i + 1])])
    if base == 'vzip': return Out([x for i in range(n) for x in (a[i], b[i])])
    if base == 'vuzp':
        ab = list(a) + list(b)
        return Out(ab[0::2] + ab[1::2])
    if base == 'vext': return Out([(list(a) + list(b))[imm + i] for i in range(n)])
    if base == 'vcombine': return Out(list(a) + list(b))
    if base == 'vget_low': return Out(list(a[:n // 2]))
    if base == 'vget_high': return Out(list(a[n // 2:]))

    # ---- table lookup
    if re.match(r'^vq?tbl[1-4]$', base):
        out = []
        for ix in b:
            r = 0
            for i in reversed(range(len(a))): r = ite(eq(ix, i, 8), a[i], r, 8)
            out.append(r)
        return Out(out)

    # ---- lanes
    if base == 'vget_lane': return Out([a[imm]])
    if base in ('vdup_n', 'vmov_n'): return Out([a[0]] * R.lanes)

    # ---- reinterpret
    if base == 'vreinterpret':
        P_ = T(fn['params'][0][0])
        img, iw = None, 0
        for x in a:
            bits = x.bits if isinstance(x, F) else x
            img, iw = (bits, P_.w) if img is None else (concat(bits, P_.w, img, iw), iw + P_.w)
        out = [extract(img, iw, i * R.w, R.w) for i in range(R.lanes)]
        if R.kind == 'f': out = [F(R.w, bits=x) for x in out]
        return Out(out)

    # ---- conversions
    if base in ('vcvt', 'vcvtn'):
        if k == 'f':
            g = z3.fpSignedToFP if k2 == 's' else z3.fpUnsignedToFP
            out = []
            for x in a:
                t = g(MODE[0], bv(x, w2), SORT[w])
                if isc(x): t = z3.simplify(t)
                out.append(F(w, fp=t))
            return Out(out, mode='fp')
        return Out([cvt(x, w, sg, RNE if 'tn' in base else RTZ) for x in a])

    # ---- min / max / compare
    if base in ('vmax', 'vmin'):
        mx = base == 'vmax'
        if k == 'f': return Out([fmaxmin(x, y, mx) for x, y in zip(a, b)], mode='fp')
        p = ('s' if sg else 'u') + ('gt' if mx else 'lt')
        return Out([ite(cmp(p, x, y, w), x, y, w) for x, y in zip(a, b)])
    if base in ('vpmax', 'vpmin'):
        ab = list(a) + list(b)
        return Out([fmaxmin(ab[2 * i], ab[2 * i + 1], base == 'vpmax') for i in range(n)], mode='fp')
    if base in ('vcgt', 'vclt', 'vcge', 'vcle', 'vceq'):
        from .symex import fcmp
        p = base[2:]
        out = []
        for x, y in zip(a, b):
            t = fcmp('o' + p, x, y) if k == 'f' else cmp(('' if p == 'eq' else 's' if sg else 'u') + p, x, y, w)
            out.append(ite(t, M(w), 0, w))
        return Out(out)

    # ---- reciprocal
    if base == 'vrecpe': return Out([recpe(x) for x in a], mode='fp')
    if base == 'vrecps': return Out([recps(x, y) for x, y in zip(a, b)], mode='fp')
    raise KeyError('no oracle for ' + name)

# ------------------------------------------------------------- property membership
RULES = [
    ('N01', r'^vld\d'), ('N02', r'^vst\d'),
    ('N16', r'^v(add|sub|mul|div|mla)q?(_n)?_f\d+$'),
    ('N04', r'^v(add|sub|mul|mla)q?(_n)?_[us]\d+$'),
    ('N05', r'^v(addl|addl_high|addw|addw_high|subl|subw|movl|paddlq?|mull|mull_n|mlal|mlsl|shll_n)_[us]\d+$'),
    ('N06', r'^v(qaddq?|qsubq?|qmovn|qmovun|qdmull|qshrn_n|qshrun_n|qrshrun_n)_[us]\d+$'),
    ('N07', r'^v(addhn_high|subhn|rsubhn|movn|shrn_n|rshrn_n)_[us]\d+$'),
    ('N08', r'^vhsubq?_'),
    ('N09', r'^v(shrq?_n|shlq?_n|sraq?_n|shll_n|shrn_n|rshrn_n|qshrn_n|qshrun_n|qrshrun_n)_'),
    ('N10', r'^v(andq?|orrq?|eorq?|mvnq?|bslq?)_'),
    ('N11', r'^v(rev\d+q?|trnq?|zipq?|uzpq?|extq?|combine|get_low|get_high)_'),
    ('N12', r'^vq?tbl\d_'),
    ('N13', r'^v(getq?_lane|dupq?_n|movq_n)_'),
    ('N14', r'^vreinterpretq?_'),
    ('N15', r'^vcvtn?q?_'),
    ('N17', r'^v(p?max|p?min|cgt|clt)q?_'),
    ('N18', r'^vrecp[es]q?_'),
]
def props_of(name):
    return [p for p, r in RULES if re.match(r, name)]
