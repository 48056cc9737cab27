"""N27, array programs: for every implemented function the loop a user writes with it - load the operands of two
consecutive blocks with the matching vld1, call, store with the matching vst1 - against the plain scalar loop.
The scalar side is C++ of its own; it shares nothing with neonv/spec.py."""
import re
from . import harness, spec
from .types import T

HELP = '''
template<class E> static E ns_clamp(__int128 v) {
    const bool neg = E(-1) < E(0); const int w = 8 * sizeof(E);
    const __int128 lo = neg ? -(__int128(1) << (w - 1)) : 0, hi = (__int128(1) << (neg ? w - 1 : w)) - 1;
    return v < lo ? E(lo) : v > hi ? E(hi) : E(v);
}
static float ns_fmax(float x, float y) { if (x != x || y != y) return __builtin_nanf(""); if (x == y) { uint32_t a, b; memcpy(&a, &x, 4); memcpy(&b, &y, 4); a &= b; memcpy(&x, &a, 4); return x; } return x > y ? x : y; }
static float ns_fmin(float x, float y) { if (x != x || y != y) return __builtin_nanf(""); if (x == y) { uint32_t a, b; memcpy(&a, &x, 4); memcpy(&b, &y, 4); a |= b; memcpy(&x, &a, 4); return x; } return x < y ? x : y; }
'''
NAMES = harness.BYNAME
ET = {('u', 8): 'uint8_t', ('u', 16): 'uint16_t', ('u', 32): 'uint32_t', ('u', 64): 'uint64_t', ('s', 8): 'int8_t', ('s', 16): 'int16_t',
      ('s', 32): 'int32_t', ('s', 64): 'int64_t', ('f', 32): 'float32_t', ('f', 64): 'float64_t'}
def et(t): return ET[t.kind, t.w]
def sfx(t): return '%s%d' % (t.kind, t.w)
def q(t): return 'q' if t.n * t.w == 128 else ''

# family -> expression for o[i]; x, y, z the operand arrays of this block, N its lanes, E its element type, n the immediate
U = lambda a: '(uint64_t)%s' % a
FAM = [
    (r'v(add|sub|mul|div)q?_f\d+', lambda f, k: 'x[i] %s y[i]' % {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[k]),
    (r'v(add|sub|mul)q?_[us]\d+', lambda f, k: '(E)(%s %s %s)' % (U('x[i]'), {'add': '+', 'sub': '-', 'mul': '*'}[k], U('y[i]'))),
    (r'v(and|orr|eor)q?_', lambda f, k: 'x[i] %s y[i]' % {'and': '&', 'orr': '|', 'eor': '^'}[k]),
    (r'v(mvn)q?_', lambda f, k: '(E)~x[i]'),
    (r'v(max|min)q_f32', lambda f, k: 'ns_f%s(x[i], y[i])' % k),
    (r'v(max|min)q_', lambda f, k: 'x[i] %s y[i] ? x[i] : y[i]' % ('>' if k == 'max' else '<')),
    (r'vp(max|min)_f32', lambda f, k: 'ns_f%s((i < N / 2 ? x : y)[2 * i %% N], (i < N / 2 ? x : y)[2 * i %% N + 1])' % k),
    (r'v(hsub)q?_', lambda f, k: '(E)(((int64_t)x[i] - (int64_t)y[i]) >> 1)'),
    (r'vq(add|sub)q?_', lambda f, k: 'ns_clamp<E>((__int128)x[i] %s y[i])' % ('+' if k == 'add' else '-')),
    (r'v(addl|subl)_high_', lambda f, k: '(E)(%s %s %s)' % (U('x[i + N]'), '+' if k == 'addl' else '-', U('y[i + N]'))),
    (r'v(addl|subl)_', lambda f, k: '(E)(%s %s %s)' % (U('x[i]'), '+' if k == 'addl' else '-', U('y[i]'))),
    (r'v(addw|subw)_high_', lambda f, k: '(E)(%s %s %s)' % (U('x[i]'), '+' if k == 'addw' else '-', U('y[i + N]'))),
    (r'v(addw|subw)_', lambda f, k: '(E)(%s %s %s)' % (U('x[i]'), '+' if k == 'addw' else '-', U('y[i]'))),
    (r'v(mull)_n_', lambda f, k: '(E)((E)x[i] * (E)y[0])'),
    (r'v(mull)_', lambda f, k: '(E)((E)x[i] * (E)y[i])'),
    (r'v(mlal|mlsl)_', lambda f, k: '(E)(%s %s %s)' % (U('x[i]'), '+' if k == 'mlal' else '-', U('((E)y[i] * (E)z[i])'))),
    (r'v(mla)q?_n_f', lambda f, k: 'x[i] + y[i] * z[0]'),
    (r'v(mla)q?_f', lambda f, k: 'x[i] + y[i] * z[i]'),
    (r'v(mla)q?_', lambda f, k: '(E)(%s + %s * %s)' % (U('x[i]'), U('y[i]'), U('z[i]'))),
    (r'v(mul)q?_n_f', lambda f, k: 'x[i] * y[0]'),
    (r'v(mul)q?_n_', lambda f, k: '(E)(%s * %s)' % (U('x[i]'), U('y[0]'))),
    (r'v(qdmull)_', lambda f, k: 'ns_clamp<E>((int64_t)((int32_t)x[i] * (int32_t)y[i]) * 2)'),
    (r'v(paddl)q?_', lambda f, k: '(E)x[2 * i] + (E)x[2 * i + 1]'),
    (r'v(movl)_', lambda f, k: '(E)x[i]'),
    (r'v(movn)_', lambda f, k: '(E)x[i]'),
    (r'v(qmovu?n)_', lambda f, k: 'ns_clamp<E>(x[i])'),
    (r'v(addhn)_high_', lambda f, k: 'i < N / 2 ? x[i] : (E)((%s + %s) >> 8 * sizeof(E))' % (U('y[i - N / 2]'), U('z[i - N / 2]'))),
    (r'v(r?subhn)_', lambda f, k: '(E)((%s - %s%s) >> 8 * sizeof(E))' % (U('x[i]'), U('y[i]'), ' + ((uint64_t)1 << (8 * sizeof(E) - 1))' if k[0] == 'r' else '')),
    (r'v(qshru?n)_n_', lambda f, k: 'ns_clamp<E>((__int128)x[i] >> n)'),
    (r'v(qrshru?n)_n_', lambda f, k: 'ns_clamp<E>(((__int128)x[i] + (1 << (n - 1))) >> n)'),
    (r'v(rshrn)_n_', lambda f, k: '(E)(((uint64_t)x[i] + (1 << (n - 1))) >> n)'),
    (r'v(shrn)_n_', lambda f, k: '(E)(x[i] >> n)'),
    (r'v(shr)q?_n_', lambda f, k: '(E)((__int128)x[i] >> n)'),
    (r'v(sra)q?_n_', lambda f, k: '(E)(%s + %s)' % (U('x[i]'), U('((int64_t)y[i] >> n)'))),
    (r'v(shl)q?_n_', lambda f, k: '(E)(%s << n)' % U('x[i]')),
    (r'v(shll)_n_', lambda f, k: '(E)x[i] << n'),
    (r'v(dup|mov)q?_n_', lambda f, k: 'x[0]'),
    (r'vget_(low)_', lambda f, k: 'x[i]'),
    (r'vget_(high)_', lambda f, k: 'x[i + N]'),
    (r'v(combine)_', lambda f, k: 'i < N / 2 ? x[i] : y[i - N / 2]'),
    (r'vrev(16|32|64)q?_', lambda f, k: 'x[i / %s * %s + %s - 1 - i %% %s]' % ((str(int(k) // T(f['ret']).w),) * 4)),
    (r'v(ext)q?_', lambda f, k: 'i + n < N ? x[i + n] : y[i + n - N]'),
    (r'v(trn)q?_', lambda f, k: '(i & 1 ? y : x)[(i % (N / 2) & ~1) + i / (N / 2)]'),
    (r'v(zip)q?_', lambda f, k: '(i & 1 ? y : x)[i / 2]'),
    (r'v(uzp)q?_', lambda f, k: '(i % (N / 2) < N / 4 ? x : y)[2 * (i % (N / 4)) + i / (N / 2)]'),
    (r'v(tbl)(\d)_', lambda f, k: 'ns_look(x, %d, y[i])' % (8 * int(re.match(r'vtbl(\d)', f['name']).group(1)))),
    (r'vq(tbl)1q?_', lambda f, k: 'ns_look(x, 16, y[i])'),
    (r'v(c[lg]t)q?_', lambda f, k: 'x[i] %s y[i] ? (E)-1 : (E)0' % ('<' if k == 'clt' else '>')),
    (r'v(cvt)q_f32_s32', lambda f, k: '(float)x[i]'),
    (r'v(cvt)q_s32_f32', lambda f, k: 'x[i] != x[i] ? 0 : x[i] >= 2147483648.0f ? 2147483647 : x[i] < -2147483648.0f ? -2147483647 - 1 : (int32_t)x[i]'),
    (r'v(cvt)q_u32_f32', lambda f, k: '!(x[i] > 0) ? 0u : x[i] >= 4294967296.0f ? 4294967295u : (uint32_t)x[i]'),
    (r'v(cvtn)q_s32_f32', lambda f, k: 'x[i] != x[i] ? 0 : x[i] >= 2147483648.0f ? 2147483647 : x[i] < -2147483648.0f ? -2147483647 - 1 : (int32_t)__builtin_rintf(x[i])'),
]
HELP += '''
static uint8_t ns_look(const uint8_t* t, int n, unsigned k) { uint8_t r = 0; for (int j = 0; j < n; j++) if (k == (unsigned)j) r = t[j]; return r; }
'''

def fetch(t, p):
    """expression: the vector at element pointer p"""
    if not t.n: return '*(%s)' % p
    ld = 'vld1%s_%s' % (q(t), sfx(t))
    if not t.k and ld in NAMES: return '%s(%s)' % (ld, p)
    return 'ns_ld<%s>(%s)' % (t.name, p)
def put(t, p, e):
    if not t.n: return '*(%s) = %s;' % (p, e)
    st = 'vst1%s_%s' % (q(t), sfx(t))
    if not t.k and st in NAMES: return '%s(%s, %s);' % (st, p, e)
    return 'ns_st(%s, %s);' % (p, e)

def programs(Raw):
    """-> [(name, ins, out, body, mode, text)], [functions without a program]"""
    P, left = [], []
    for f in NAMES.values():
        name = f['name']
        r = programs_of(f, Raw)
        if r: P += r
        else: left.append(name)
    return P, left

def imms(f):
    r = spec.imm_range(f)
    if r is None: return [None]
    lo, hi = r
    return range(lo, hi + 1)

def programs_of(f, Raw):
    name, ret = f['name'], f['ret']
    ps = [(T(p[0]), p[1]) for p in f['params']]
    R = T(ret)
    out = []
    m = re.match(r'v(ld|st)([1-4])(q?)_(lane_|dup_)?(\w+)$', name)
    if m:
        K, lane = int(m.group(2)), m.group(4)
        V = R if m.group(1) == 'ld' else ps[1][0]
        E, n, tot = et(V), V.n, V.lanes
        regs = 'for (int j = 0; j < %d; j++) for (int i = 0; i < %d; i++)' % (K, n)
        if lane == 'dup_':
            return [('arr_' + name, [Raw(E, 2)], Raw(E, 2 * n), 'for (int b = 0; b < 2; b++) { %s for (int i = 0; i < %d; i++) r->v[b * %d + i] = p0->v[b]; }' % (
                put(V, 'l->v + b * %d' % n, '%s(p0->v + b)' % name), n, n), 'bits', 'broadcast from memory: ' + name)]
        if lane == 'lane_' and m.group(1) == 'ld':
            # gather: lane j from a place of its own
            at = lambda j: '((%d * %d + 1) %% %d) * %d' % (j, 3, n, K) if K == 1 else '%d' % (((3 * j + 1) % n) * K)
            b = 'memset(l, 0, sizeof *l); %s v; memset(&v, 0, sizeof v); ' % V.name
            b += ' '.join('v = %s(p0->v + %s, v, %d);' % (name, at(j), j) for j in range(n))
            b += ' ns_st(l->v, v); ' + regs + ' r->v[j * %d + i] = p0->v[((3 * i + 1) %% %d) * %d + j];' % (n, n, K)
            return [('arr_' + name, [Raw(E, tot)], Raw(E, tot), b, 'bits', 'gather by lanes: ' + name)]
        if lane == 'lane_':
            b = 'memset(l, 0, sizeof *l); %s v = ns_ld<%s>(p0->v); ' % (V.name, V.name)
            b += ' '.join('%s(l->v + %d, v, %d);' % (name, ((3 * j + 1) % n) * K, j) for j in range(n))
            b += regs + ' r->v[((3 * i + 1) %% %d) * %d + j] = p0->v[j * %d + i];' % (n, K, n)
            return [('arr_' + name, [Raw(E, tot)], Raw(E, tot), b, 'bits', 'scatter by lanes: ' + name)]
        if m.group(1) == 'ld':
            b = 'for (int b = 0; b < 2; b++) { %s v = %s(p0->v + b * %d); ns_st(l->v + b * %d, v); %s r->v[b * %d + j * %d + i] = p0->v[b * %d + i * %d + j]; }' % (
                V.name, name, tot, tot, regs, tot, n, tot, K)
            return [('arr_' + name, [Raw(E, 2 * tot)], Raw(E, 2 * tot), b, 'bits', 'split %d interleaved channels: %s' % (K, name))]
        b = 'for (int b = 0; b < 2; b++) { %s(l->v + b * %d, ns_ld<%s>(p0->v + b * %d)); %s r->v[b * %d + i * %d + j] = p0->v[b * %d + j * %d + i]; }' % (
            name, tot, V.name, tot, regs, tot, K, tot, n)
        return [('arr_' + name, [Raw(E, 2 * tot)], Raw(E, 2 * tot), b, 'bits', 'interleave %d channels: %s' % (K, name))]
    m = re.match(r'vget(q?)_lane_', name)
    if m:
        V, E, n = ps[0][0], et(R), ps[0][0].n
        b = '%s v = %s; ' % (V.name, fetch(V, 'p0->v')) + ' '.join('l->v[%d] = %s(v, %d);' % (j, name, n - 1 - j) for j in range(n))
        b += ' for (int i = 0; i < %d; i++) r->v[i] = p0->v[%d - i];' % (n, n - 1)
        return [('arr_' + name, [Raw(E, n)], Raw(E, n), b, 'bits', 'reverse by lanes: ' + name)]
    m = re.match(r'vreinterpretq?_', name)
    ops = [p for p, how in ps]
    if m:
        A = ops[0]
        b = 'for (int b = 0; b < 2; b++) %s memcpy(r, p0, sizeof *r);' % put(R, 'l->v + b * %d' % R.n, '%s(%s)' % (name, fetch(A, 'p0->v + b * %d' % A.n)))
        return [('arr_' + name, [Raw(et(A), 2 * A.n)], Raw(et(R), 2 * R.n), b, 'bits', 'reinterpret an array: ' + name)]
    imm = None
    if spec.imm_range(f) is not None: ops = ops[:-1]; imm = True
    N = R.lanes
    if name.startswith('vbsl'):
        # bitwise select over raw bits
        Uw = 'uint%d_t' % ops[0].w
        args = ', '.join(fetch(t, '(const %s*)p%d->v + b * %d' % (et(t), i, t.lanes)) for i, t in enumerate(ops))
        b = 'for (int b = 0; b < 2; b++) { %s for (int i = b * %d; i < b * %d + %d; i++) r->v[i] = (p1->v[i] & p0->v[i]) | (p2->v[i] & ~p0->v[i]); }' % (
            put(R, '(%s*)l->v + b * %d' % (et(R), N), '%s(%s)' % (name, args)), N, N, N)
        return [('arr_' + name, [Raw(Uw, 2 * N)] * 3, Raw(Uw, 2 * N), b, 'bits', 'select by mask: ' + name)]
    for rx, g in FAM:
        m = re.match(rx, name)
        if not m: continue
        e = g(f, m.group(1))
        mode = 'fp' if R.kind == 'f' and re.match(r'v(add|sub|mul|div|mla|max|min|pmax|pmin|cvt)', name) else 'bits'
        heavy = R.kind == 'f' and mode == 'fp' or name.startswith('vcvt') or 'mul' in name and R.w >= 32 or 'ml' in name and R.w >= 32 or 'tbl' in name
        blocks = 1 if heavy else 2
        for n in imms(f) if imm else [None]:
            args, decl, ins = [], '', []
            for i, t in enumerate(ops):
                step = t.lanes if t.n else 0        # scalars stay the same for every block
                p = 'p%d->v + b * %d' % (i, step)
                args.append(fetch(t, p)); decl += 'const %s* %s = %s; ' % (et(t), 'xyz'[i], p)
                ins.append(Raw(et(t), blocks * t.lanes if t.n else 1))
            if n is not None: args.append(str(n))
            b = 'enum { N = %d%s }; typedef %s E; for (int b = 0; b < %d; b++) { %s%s E* o = r->v + b * N; for (int i = 0; i < N; i++) o[i] = %s; }' % (
                N, ', n = %d' % n if n is not None else '', et(R), blocks, decl, put(R, 'l->v + b * N', '%s(%s)' % (name, ', '.join(args))), e)
            out.append(('arr_' + name + ('' if n is None else '_%d' % n), ins, Raw(et(R), blocks * N), b, mode,
                        'array loop with %s%s' % (name, '' if n is None else ', #%d' % n)))
        return out
    return None
