"""Laws: small C++ programs over the intrinsics whose two sides must agree for every input.
Used for N03 (round trips), N19 (relations between intrinsics) and N23 (type layout)."""
import re
from . import harness, kernels, spec
from .types import T

NAMES = set(harness.BYNAME)

PRELUDE = '''
#include <string.h>
template<class D, class Q> static D ns_lo(const Q& q) { D d; memcpy(&d, &q, sizeof d); return d; }
template<class D, class Q> static D ns_hi(const Q& q) { D d; memcpy(&d, (const char*)&q + sizeof d, sizeof d); return d; }
template<class Q, class D> static Q ns_cat(const D& a, const D& b) { Q q; memcpy(&q, &a, sizeof a); memcpy((char*)&q + sizeof a, &b, sizeof b); return q; }
template<class E, int N> struct ns_raw { E v[N]; };
template<class V, class E> static V ns_ld(const E* p) { V v; memcpy(&v, p, sizeof v); return v; }
template<class V, class E> static void ns_st(E* p, const V& v) { memcpy(p, &v, sizeof v); }
''' + kernels.HELP

class Raw:
    """untyped memory: n elements of a scalar type"""
    def __init__(self, et, n):
        t = T(et)
        self.kind, self.w, self.lanes, self.esz = t.kind, t.w, n, t.esz
        self.size = n * t.esz
        self.name = 'ns_raw<%s, %d>' % (et, n)

class Law:
    def __init__(self, prop, name, ins, out, body, mode='bits', uses=None, text=''):
        self.prop, self.name, self.body, self.mode, self.text = prop, name, body, mode, text
        self.ins = [T(i) if isinstance(i, str) else i for i in ins]
        self.out = T(out) if isinstance(out, str) else out
        self.uses = sorted(set(uses if uses is not None else [x for x in re.findall(r'\bv[a-z]\w*', body) if x in NAMES]))
    def code(self):
        ps = ['%s* l' % self.out.name, '%s* r' % self.out.name] + ['const %s* p%d' % (t.name, i) for i, t in enumerate(self.ins)]
        return 'extern "C" void nsl_%s(%s) { %s }' % (self.name, ', '.join(ps), self.body)

def vt(k, w, n): return {'u': 'uint', 's': 'int', 'f': 'float'}[k] + '%dx%d_t' % (w, n)
def et(k, w): return {'u': 'uint', 's': 'int', 'f': 'float'}[k] + '%d_t' % w
IDT = [(k, w) for k in 'us' for w in (8, 16, 32, 64)]

def build():
    L = []
    miss = []
    def law(prop, name, ins, out, body, mode='bits', text=''):
        called = set(x for x in re.findall(r'\b(v[a-z0-9]+(?:_[a-z0-9]+)*)\s*\(', body))
        if not called <= NAMES:
            miss.append((name, called - NAMES)); return
        L.append(Law(prop, name, ins, out, body, mode, text=text or body))
    def eqn(name, ins, out, lhs, rhs, mode='bits', pre='', prop='N19'):
        law(prop, name, ins, out, '%s*l = %s; *r = %s;' % (pre, lhs, rhs), mode, '%s == %s' % (lhs, rhs))

    # ------------------------------------------------------------ N03
    for K in (1, 2, 3, 4):
        for q in ('', 'q'):
            for k, w in IDT + [('f', 32), ('f', 64)]:
                n = (128 if q else 64) // w
                V_ = vt(k, w, n) if K == 1 else vt(k, w, n)[:-2] + 'x%d_t' % K
                E_ = et(k, w)
                ld, st = 'vld%d%s_%s%d' % (K, q, k, w), 'vst%d%s_%s%d' % (K, q, k, w)
                law('N03', 'rt_reg_%d%s_%s%d' % (K, q, k, w), [V_], V_,
                    '%s m[%d]; memset(m, 0x5a, sizeof m); %s(m, *p0); *l = %s(m); *r = *p0;' % (E_, n * K, st, ld),
                    text='%s(%s(v)) == v' % (ld, st))
                R = Raw(E_, n * K)
                law('N03', 'rt_mem_%d%s_%s%d' % (K, q, k, w), [R], R,
                    'memset(l, 0x5a, sizeof *l); %s(l->v, %s(p0->v)); *r = *p0;' % (st, ld), text='%s(%s(m)) == m' % (st, ld))
    for k, w in IDT + [('f', 32), ('f', 64)]:
        Q, D, s = vt(k, w, 128 // w), vt(k, w, 64 // w), '%s%d' % (k, w)
        eqn('rt_split_' + s, [Q], Q, 'vcombine_%s(vget_low_%s(*p0), vget_high_%s(*p0))' % (s, s, s), '*p0', prop='N03')
        eqn('rt_low_' + s, [D, D], D, 'vget_low_%s(vcombine_%s(*p0, *p1))' % (s, s), '*p0', prop='N03')
        eqn('rt_high_' + s, [D, D], D, 'vget_high_%s(vcombine_%s(*p0, *p1))' % (s, s), '*p1', prop='N03')

    # ------------------------------------------------------------ N23
    for q in ('', 'q'):
        for k, w in IDT + [('f', 32), ('f', 64)]:
            n = (128 if q else 64) // w
            V_, E_ = vt(k, w, n), et(k, w)
            X = {'f': E_, 'u': 'uint64_t', 's': 'int64_t'}[k]
            for K in (1, 2, 3, 4):
                VK = V_ if K == 1 else V_[:-2] + 'x%d_t' % K
                R, RX, nm = Raw(E_, n * K), Raw(X, n * K), VK[:-2]
                el = lambda j, i: 'v.val[%d]' % i if K == 1 else 'v.val[%d].val[%d]' % (j, i)
                regs = ['{ ' + ', '.join('p0->v[%d]' % (j * n + i) for i in range(n)) + ' }' for j in range(K)]
                init = regs[0] if K == 1 else '{ { ' + ', '.join('{ %s }' % x for x in regs) + ' } }'
                if K == 1: init = '{ { ' + regs[0][2:-2] + ' } }'
                L.append(Law('N23', 'lay_init_' + nm, [R], R, '%s v = %s; memcpy(l, &v, sizeof v); *r = *p0;' % (VK, init), uses=[],
                             text='brace-initialised %s == its memory image' % VK))
                if K == 1:
                    L.append(Law('N23', 'lay_flat_' + nm, [R], R, '%s v = %s; memcpy(l, &v, sizeof v); *r = *p0;' % (VK, regs[0]), uses=[],
                             text='flat brace-initialised %s == its memory image' % VK))
                L.append(Law('N23', 'lay_val_' + nm, [R], RX,
                             '%s v; memcpy(&v, p0, sizeof v); ' % VK + ' '.join(
                                 'l->v[%d] = (%s)%s; r->v[%d] = (%s)p0->v[%d];' % (j * n + i, X, el(j, i), j * n + i, X, j * n + i)
                                 for j in range(K) for i in range(n)), uses=[], text='memory image == val[] members of %s (lane value and signedness)' % VK))
                L.append(Law('N23', 'lay_put_' + nm, [R], R, '%s v; ' % VK + ' '.join(
                    '%s = p0->v[%d];' % (el(j, i), j * n + i) for j in range(K) for i in range(n)) + ' memcpy(l, &v, sizeof v); *r = *p0;', uses=[],
                    text='val[] assignments == memory image of %s' % VK))
                L.append(Law('N23', 'lay_size_' + nm, [Raw('uint64_t', 1)], Raw('uint64_t', 3),
                             'l->v[0] = sizeof(%s); r->v[0] = %d; l->v[1] = sizeof(%s[3]); r->v[1] = %d; '
                             'l->v[2] = p0->v[0]; r->v[2] = p0->v[0];' % (VK, n * K * w // 8, VK, 3 * n * K * w // 8), uses=[],
                             text='sizeof(%s)' % VK))
                L.append(Law('N23', 'lay_arr_' + nm, [Raw(E_, 2 * n * K)], R,
                             '%s v[2]; memcpy(v, p0, %d); memcpy(l, &v[1], %d); memcpy(r, p0->v + %d, %d);' % (
                                 VK, 2 * n * K * w // 8, n * K * w // 8, n * K, n * K * w // 8), uses=[], text='array stride of %s' % VK))

    # ------------------------------------------------------------ N19: quad == two doubles
    def halves(f, q, sfx, kinds, out, mode='bits', imm=None):
        """kinds: list of ('v', k, w) | ('s', k, w)"""
        ins, aq, lo, hi = [], [], [], []
        for i, (c, k, w) in enumerate(kinds):
            if c == 's':
                ins.append(Raw(et(k, w), 1)); aq.append('p%d->v[0]' % i); lo.append('p%d->v[0]' % i); hi.append('p%d->v[0]' % i)
            else:
                ins.append(vt(k, w, 128 // w)); aq.append('*p%d' % i)
                D = vt(k, w, 64 // w)
                lo.append('ns_lo<%s>(*p%d)' % (D, i)); hi.append('ns_hi<%s>(*p%d)' % (D, i))
        ko, wo = out
        eqn('half_%s_%s' % (q, sfx), ins, vt(ko, wo, 128 // wo), '%s_%s(%s)' % (q, sfx, ', '.join(aq)),
            'ns_cat<%s>(%s_%s(%s), %s_%s(%s))' % (vt(ko, wo, 128 // wo), f, sfx, ', '.join(lo), f, sfx, ', '.join(hi)), mode)
    for k, w in IDT + [('f', 32), ('f', 64)]:
        s = '%s%d' % (k, w); v = ('v', k, w)
        fm = 'fp' if k == 'f' else 'bits'
        for f in 'add sub mul div and orr eor max min hsub qadd qsub recps'.split(): halves('v' + f, 'v' + f + 'q', s, [v, v], (k, w), fm)
        for f in 'mvn rev16 rev32 rev64 recpe'.split(): halves('v' + f, 'v' + f + 'q', s, [v], (k, w), fm)
        halves('vmla', 'vmlaq', s, [v, v, v], (k, w), fm)
        halves('vmul_n', 'vmulq_n', s, [v, ('s', k, w)], (k, w), fm)
        halves('vdup_n', 'vdupq_n', s, [('s', k, w)], (k, w))
        if w < 64: halves('vpaddl', 'vpaddlq', s, [v], (k, 2 * w))
    # extraction of the halves themselves
    for k, w in IDT + [('f', 32)]:
        Q, D, s = vt(k, w, 128 // w), vt(k, w, 64 // w), '%s%d' % (k, w)
        eqn('low_' + s, [Q], D, 'vget_low_%s(*p0)' % s, 'ns_lo<%s>(*p0)' % D)
        eqn('high_' + s, [Q], D, 'vget_high_%s(*p0)' % s, 'ns_hi<%s>(*p0)' % D)
    # ------------------------------------------------------------ widening / narrowing / accumulation
    for k in 'us':
        for w in (8, 16, 32):
            s, s2 = '%s%d' % (k, w), '%s%d' % (k, 2 * w)
            D, Q, W = vt(k, w, 64 // w), vt(k, w, 128 // w), vt(k, 2 * w, 64 // w)
            H = 'vget_high_%s' % s
            eqn('addl_' + s, [D, D], W, 'vaddl_%s(*p0, *p1)' % s, 'vaddq_%s(vmovl_%s(*p0), vmovl_%s(*p1))' % (s2, s, s))
            eqn('addl_w_' + s, [D, D], W, 'vaddl_%s(*p0, *p1)' % s, 'vaddw_%s(vmovl_%s(*p0), *p1)' % (s, s))
            eqn('addlh_' + s, [Q, Q], W, 'vaddl_high_%s(*p0, *p1)' % s, 'vaddw_%s(vmovl_%s(%s(*p0)), %s(*p1))' % (s, s, H, H))
            eqn('addlhw_' + s, [Q, Q], W, 'vaddl_high_%s(*p0, *p1)' % s, 'vaddw_high_%s(vmovl_%s(%s(*p0)), *p1)' % (s, s, H))
            eqn('addlhl_' + s, [Q, Q], W, 'vaddl_high_%s(*p0, *p1)' % s, 'vaddl_%s(%s(*p0), %s(*p1))' % (s, H, H))
            eqn('addwh_' + s, [W, Q], W, 'vaddw_high_%s(*p0, *p1)' % s, 'vaddw_%s(*p0, %s(*p1))' % (s, H))
            eqn('addw_' + s, [W, D], W, 'vaddw_%s(*p0, *p1)' % s, 'vaddq_%s(*p0, vmovl_%s(*p1))' % (s2, s))
            eqn('subw_' + s, [W, D], W, 'vsubw_%s(*p0, *p1)' % s, 'vsubq_%s(*p0, vmovl_%s(*p1))' % (s2, s))
            eqn('subl_' + s, [D, D], W, 'vsubl_%s(*p0, *p1)' % s, 'vsubq_%s(vmovl_%s(*p0), vmovl_%s(*p1))' % (s2, s, s))
            eqn('subl_w_' + s, [D, D], W, 'vsubl_%s(*p0, *p1)' % s, 'vsubw_%s(vmovl_%s(*p0), *p1)' % (s, s))
            eqn('subw_undo_' + s, [W, D], W, 'vsubw_%s(vaddw_%s(*p0, *p1), *p1)' % (s, s), '*p0')
            eqn('mlal_' + s, [W, D, D], W, 'vmlal_%s(*p0, *p1, *p2)' % s, 'vaddq_%s(*p0, vmull_%s(*p1, *p2))' % (s2, s))
            eqn('mlsl_' + s, [W, D, D], W, 'vmlsl_%s(*p0, *p1, *p2)' % s, 'vsubq_%s(*p0, vmull_%s(*p1, *p2))' % (s2, s))
            eqn('mull_comm_' + s, [D, D], W, 'vmull_%s(*p0, *p1)' % s, 'vmull_%s(*p1, *p0)' % s)
            eqn('mulln_' + s, [D, Raw(et(k, w), 1)], W, 'vmull_n_%s(*p0, p1->v[0])' % s, 'vmull_%s(*p0, vdup_n_%s(p1->v[0]))' % (s, s))
            eqn('mull_one_' + s, [D], W, 'vmull_%s(*p0, vdup_n_%s(1))' % (s, s), 'vmovl_%s(*p0)' % s)
            eqn('mull_low_' + s, [D, D], D, 'vmovn_%s(vmull_%s(*p0, *p1))' % (s2, s), 'vmul_%s(*p0, *p1)' % s)
            eqn('movn_movl_' + s, [D], D, 'vmovn_%s(vmovl_%s(*p0))' % (s2, s), '*p0')
            eqn('qmovn_movl_' + s, [D], D, 'vqmovn_%s(vmovl_%s(*p0))' % (s2, s), '*p0')
            eqn('addl_low_' + s, [D, D], D, 'vmovn_%s(vaddw_%s(vmovl_%s(*p0), *p1))' % (s2, s, s), 'vadd_%s(*p0, *p1)' % s)
            eqn('subl_low_' + s, [D, D], D, 'vmovn_%s(vsubl_%s(*p0, *p1))' % (s2, s), 'vsub_%s(*p0, *p1)' % s)
            eqn('hsub_' + s, [D, D], D, 'vhsub_%s(*p0, *p1)' % s, 'vshrn_n_%s(vsubl_%s(*p0, *p1), 1)' % (s2, s))
            eqn('subhn_' + s2, [W, W], D, 'vsubhn_%s(*p0, *p1)' % s2, 'vshrn_n_%s(vsubq_%s(*p0, *p1), %d)' % (s2, s2, w))
            eqn('rsubhn_' + s2, [W, W], D, 'vrsubhn_%s(*p0, *p1)' % s2, 'vrshrn_n_%s(vsubq_%s(*p0, *p1), %d)' % (s2, s2, w))
            eqn('rsubhn_b_' + s2, [W, W], D, 'vrsubhn_%s(*p0, *p1)' % s2,
                'vsubhn_%s(vaddq_%s(*p0, *c), *p1)' % (s2, s2), pre='%s cc; for (int i = 0; i < %d; i++) cc.val[i] = (%s)1 << %d; const %s* c = &cc; ' % (
                    W, 64 // w, et(k, 2 * w), w - 1, W))
            law('N19', 'addhn_high_low_' + s2, [D, W, W], D, '*l = ns_lo<%s>(vaddhn_high_%s(*p0, *p1, *p2)); *r = *p0;' % (D, s2))
            law('N19', 'addhn_high_high_' + s2, [D, W, W], D, '*l = ns_hi<%s>(vaddhn_high_%s(*p0, *p1, *p2)); *r = vshrn_n_%s(vaddq_%s(*p1, *p2), %d);' % (D, s2, s2, s2, w))
            for n in (1, w // 2, w):
                eqn('qshrn_fit_%s_%d' % (s2, n), [D], D, 'vqshrn_n_%s(vmovl_%s(*p0), %d)' % (s2, s, n), 'vshrn_n_%s(vmovl_%s(*p0), %d)' % (s2, s, n))
    for s, n in (('u16', 8),):
        for i in range(1, 9):
            eqn('rshrn_u16_%d' % i, ['uint16x8_t'], 'uint8x8_t', 'vrshrn_n_u16(*p0, %d)' % i, 'vshrn_n_u16(vaddq_u16(*p0, vdupq_n_u16(%d)), %d)' % (1 << (i - 1), i))
            eqn('qrshrun_nn_%d' % i, ['uint8x8_t'], 'uint8x8_t', 'vqrshrun_n_s16(vreinterpretq_s16_u16(vmovl_u8(*p0)), %d)' % i, 'vrshrn_n_u16(vmovl_u8(*p0), %d)' % i)
            eqn('qshrun_nn_%d' % i, ['uint8x8_t'], 'uint8x8_t', 'vqshrun_n_s16(vreinterpretq_s16_u16(vmovl_u8(*p0)), %d)' % i, 'vshrn_n_u16(vmovl_u8(*p0), %d)' % i)
            eqn('qshrn_min_%d' % i, ['uint16x8_t'], 'uint8x8_t', 'vqshrn_n_u16(*p0, %d)' % i,
                'vmovn_u16(vminq_u16(vcombine_u16(vshr_n_u16(vget_low_u16(*p0), %d), vshr_n_u16(vget_high_u16(*p0), %d)), vdupq_n_u16(255)))' % (i, i))
        eqn('qmovn_min', ['uint16x8_t'], 'uint8x8_t', 'vqmovn_u16(*p0)', 'vmovn_u16(vminq_u16(*p0, vdupq_n_u16(255)))')
        eqn('qmovun_clamp', ['int16x8_t'], 'uint8x8_t', 'vqmovun_s16(*p0)',
            'vmovn_u16(vreinterpretq_u16_s16(vmaxq_s16(vminq_s16(*p0, vdupq_n_s16(255)), vdupq_n_s16(0))))')
        eqn('qmovun_movl', ['uint8x8_t'], 'uint8x8_t', 'vqmovun_s16(vreinterpretq_s16_u16(vmovl_u8(*p0)))', '*p0')
    for n in range(1, 17):
        eqn('shr_shrn_%d' % n, ['uint16x4_t'], 'uint16x4_t', 'vshr_n_u16(*p0, %d)' % n, 'vshrn_n_u32(vmovl_u16(*p0), %d)' % n)
    for n in range(0, 8):
        eqn('shll_mul_%d' % n, ['uint8x8_t'], 'uint16x8_t', 'vshll_n_u8(*p0, %d)' % n, 'vmulq_n_u16(vmovl_u8(*p0), %d)' % (1 << n))
    for n in range(0, 32):
        eqn('shl_mul_%d' % n, ['int32x4_t'], 'int32x4_t', 'vshlq_n_s32(*p0, %d)' % n, 'vmulq_n_s32(*p0, (int32_t)(1u << %d))' % n)
    for n in range(1, 33):
        eqn('sra_split_%d' % n, ['int32x4_t', 'int32x4_t'], 'int32x4_t', 'vsraq_n_s32(*p0, *p1, %d)' % n, 'vaddq_s32(*p0, vsraq_n_s32(vdupq_n_s32(0), *p1, %d))' % n)
    # ------------------------------------------------------------ lanewise algebra
    for q in ('', 'q'):
        for k, w in IDT:
            s = '%s%d' % (k, w); S = q + '_' + s
            V_ = vt(k, w, (128 if q else 64) // w)
            t = s + q
            eqn('sub_undo_' + t, [V_, V_], V_, 'vsub%s(vadd%s(*p0, *p1), *p1)' % (S, S), '*p0')
            eqn('add_comm_' + t, [V_, V_], V_, 'vadd%s(*p0, *p1)' % S, 'vadd%s(*p1, *p0)' % S)
            eqn('sub_anti_' + t, [V_, V_], V_, 'vadd%s(vsub%s(*p0, *p1), vsub%s(*p1, *p0))' % (S, S, S), 'vsub%s(*p0, *p0)' % S)
            eqn('mla_' + t, [V_, V_, V_], V_, 'vmla%s(*p0, *p1, *p2)' % S, 'vadd%s(*p0, vmul%s(*p1, *p2))' % (S, S))
            eqn('mul_n_' + t, [V_, Raw(et(k, w), 1)], V_, 'vmul%s_n_%s(*p0, p1->v[0])' % (q, s), 'vmul%s(*p0, vdup%s_n_%s(p1->v[0]))' % (S, q, s))
            eqn('mul_two_' + t, [V_], V_, 'vmul%s(*p0, vdup%s_n_%s(2))' % (S, q, s), 'vadd%s(*p0, *p0)' % S)
            eqn('mul_comm_' + t, [V_, V_], V_, 'vmul%s(*p0, *p1)' % S, 'vmul%s(*p1, *p0)' % S)
            eqn('mvn_mvn_' + t, [V_], V_, 'vmvn%s(vmvn%s(*p0))' % (S, S), '*p0')
            eqn('mvn_sub_' + t, [V_], V_, 'vmvn%s(*p0)' % S, 'vsub%s(vdup%s_n_%s(-1), *p0)' % (S, q, s))
            eqn('demorgan_' + t, [V_, V_], V_, 'vmvn%s(vand%s(*p0, *p1))' % (S, S), 'vorr%s(vmvn%s(*p0), vmvn%s(*p1))' % (S, S, S))
            eqn('eor_eor_' + t, [V_, V_], V_, 'veor%s(veor%s(*p0, *p1), *p1)' % (S, S), '*p0')
            eqn('eor_split_' + t, [V_, V_], V_, 'vadd%s(vand%s(*p0, *p1), vorr%s(*p0, *p1))' % (S, S, S), 'vadd%s(*p0, *p1)' % S)
            eqn('eor_def_' + t, [V_, V_], V_, 'veor%s(*p0, *p1)' % S, 'vsub%s(vorr%s(*p0, *p1), vand%s(*p0, *p1))' % (S, S, S))
            eqn('minmax_' + t, [V_, V_], V_, 'vadd%s(vmax%s(*p0, *p1), vmin%s(*p0, *p1))' % (S, S, S), 'vadd%s(*p0, *p1)' % S)
            eqn('max_comm_' + t, [V_, V_], V_, 'vmax%s(*p0, *p1)' % S, 'vmax%s(*p1, *p0)' % S)
            eqn('min_comm_' + t, [V_, V_], V_, 'vmin%s(*p0, *p1)' % S, 'vmin%s(*p1, *p0)' % S)
            eqn('qsub_self_' + t, [V_], V_, 'vqsub%s(*p0, *p0)' % S, 'vsub%s(*p0, *p0)' % S)
            if k == 'u':
                eqn('qsub_max_' + t, [V_, V_], V_, 'vadd%s(vqsub%s(*p0, *p1), *p1)' % (S, S), 'vmax%s(*p0, *p1)' % S)
                eqn('qsub_min_' + t, [V_, V_], V_, 'vsub%s(*p0, vqsub%s(*p0, *p1))' % (S, S), 'vmin%s(*p0, *p1)' % S)
                eqn('qadd_qsub_' + t, [V_, V_], V_, 'vqadd%s(*p0, *p1)' % S, 'vmvn%s(vqsub%s(vmvn%s(*p0), *p1))' % (S, S, S))
            eqn('bsl_' + t, ['uint%dx%d_t' % (w, (128 if q else 64) // w), V_, V_], V_, 'vbsl%s(*p0, *p1, *p2)' % S,
                'vorr%s(vand%s(*p0, *p1), vand%s(vmvn%s(*p0), *p2))' % (S, S, S, S)) if k == 'u' else None
            eqn('bsl_same_' + t, ['uint%dx%d_t' % (w, (128 if q else 64) // w), V_], V_, 'vbsl%s(*p0, *p1, *p1)' % S, '*p1')
            eqn('sel_max_' + t, [V_, V_], V_, 'vbsl%s(vcgt%s(*p0, *p1), *p0, *p1)' % (S, S), 'vmax%s(*p0, *p1)' % S)
            eqn('sel_min_' + t, [V_, V_], V_, 'vbsl%s(vcgt%s(*p0, *p1), *p1, *p0)' % (S, S), 'vmin%s(*p0, *p1)' % S)
            for b in (16, 32, 64):
                eqn('rev%d_%s' % (b, t), [V_], V_, 'vrev%d%s(vrev%d%s(*p0))' % (b, S, b, S), '*p0')
            eqn('rev_%s' % t, [V_], V_, 'vrev64%s(vrev32%s(*p0))' % (S, S), 'vrev32%s(vrev64%s(*p0))' % (S, S))
            # transpose / zip / unzip
            VX = V_[:-2] + 'x2_t'
            law('N19', 'trn2_' + t, [VX], VX, '%s t = vtrn%s(p0->val[0], p0->val[1]); *l = vtrn%s(t.val[0], t.val[1]); *r = *p0;' % (VX, S, S), text='vtrn twice == identity')
            law('N19', 'uzp_zip_' + t, [VX], VX, '%s t = vzip%s(p0->val[0], p0->val[1]); *l = vuzp%s(t.val[0], t.val[1]); *r = *p0;' % (VX, S, S), text='vuzp after vzip == identity')
            law('N19', 'zip_uzp_' + t, [VX], VX, '%s t = vuzp%s(p0->val[0], p0->val[1]); *l = vzip%s(t.val[0], t.val[1]); *r = *p0;' % (VX, S, S), text='vzip after vuzp == identity')
            n = (128 if q else 64) // w
            law('N19', 'zip_st2_' + t, [VX], Raw(et(k, w), 2 * n), 'vst2%s(l->v, *p0); %s t = vzip%s(p0->val[0], p0->val[1]); vst1%s(r->v, t.val[0]); vst1%s(r->v + %d, t.val[1]);' % (S, VX, S, S, S, n),
                text='vst2 == vst1 of vzip')
            law('N19', 'uzp_ld2_' + t, [Raw(et(k, w), 2 * n)], VX, '*l = vld2%s(p0->v); *r = vuzp%s(vld1%s(p0->v), vld1%s(p0->v + %d));' % (S, S, S, S, n),
                text='vld2 == vuzp of vld1')
            law('N19', 'st2_zip_' + t, [VX], VX, '%s m[%d]; vst2%s(m, *p0); l->val[0] = vld1%s(m); l->val[1] = vld1%s(m + %d); *r = vzip%s(p0->val[0], p0->val[1]);' % (et(k, w), 2 * n, S, S, S, n, S),
                text='vld1 of vst2 == vzip')
            for K in (2, 3, 4):
                VK = V_[:-2] + 'x%d_t' % K
                law('N19', 'ld%d_rep_%s' % (K, t), [V_], VK, '%s m[%d]; for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) m[i * %d + j] = p0->val[i]; *l = vld%d%s(m); for (int j = 0; j < %d; j++) r->val[j] = *p0;' % (
                    et(k, w), n * K, n, K, K, K, S, K), text='vld%d of replicated elements' % K)
            for i in range(1, n):
                eqn('ext_rot_%s_%d' % (t, i), [V_], V_, 'vext%s(vext%s(*p0, *p0, %d), vext%s(*p0, *p0, %d), %d)' % (S, S, i, S, i, n - i), '*p0')
            eqn('ext_0_' + t, [V_, V_], V_, 'vext%s(*p0, *p1, 0)' % S, '*p0')
            for i in range(1, n):
                eqn('ext_swap_%s_%d' % (t, i), [V_, V_], V_, 'vext%s(vext%s(*p0, *p1, %d), vext%s(*p1, *p0, %d), %d)' % (S, S, i, S, i, n - i), '*p1')
    for q in ('', 'q'):
        for k, w in (('f', 32), ('f', 64)):
            n = (128 if q else 64) // w
            s = '%s%d' % (k, w); S = q + '_' + s; V_ = vt(k, w, n); t = s + q
            eqn('mla_' + t, [V_, V_, V_], V_, 'vmla%s(*p0, *p1, *p2)' % S, 'vadd%s(*p0, vmul%s(*p1, *p2))' % (S, S), 'fp')
            eqn('mla_n_' + t, [V_, V_, Raw(et(k, w), 1)], V_, 'vmla%s_n_%s(*p0, *p1, p2->v[0])' % (q, s), 'vmla%s(*p0, *p1, vdup%s_n_%s(p2->v[0]))' % (S, q, s), 'fp')
            eqn('mul_n_' + t, [V_, Raw(et(k, w), 1)], V_, 'vmul%s_n_%s(*p0, p1->v[0])' % (q, s), 'vmul%s(*p0, vdup%s_n_%s(p1->v[0]))' % (S, q, s), 'fp')
            eqn('mov_n_' + t, [Raw(et(k, w), 1)], V_, 'vmov%s_n_%s(p0->v[0])' % (q, s), 'vdup%s_n_%s(p0->v[0])' % (q, s))
            for f in ('add', 'mul', 'max', 'min', 'recps'):
                eqn('%s_comm_%s' % (f, t), [V_, V_], V_, 'v%s%s(*p0, *p1)' % (f, S), 'v%s%s(*p1, *p0)' % (f, S), 'fp')
            eqn('mul_one_' + t, [V_], V_, 'vmul%s_n_%s(*p0, 1)' % (q, s), '*p0', 'fp')
            eqn('sub_zero_' + t, [V_, V_], V_, 'vsub%s(*p0, vsub%s(*p1, *p1))' % (S, S), 'vsub%s(*p0, vsub%s(*p1, *p1))' % (S, S), 'fp') if 0 else None
            for b in (64,):
                eqn('rev%d_%s' % (b, t), [V_], V_, 'vrev%d%s(vrev%d%s(*p0))' % (b, S, b, S), '*p0')
            eqn('bsl_same_' + t, ['uint%dx%d_t' % (w, n), V_], V_, 'vbsl%s(*p0, *p1, *p1)' % S, '*p1')
    eqn('mulq_mul_n_f32', ['float32x4_t', Raw('float32_t', 1)], 'float32x4_t', 'vmulq_n_f32(*p0, p1->v[0])',
        'ns_cat<float32x4_t>(vmul_n_f32(ns_lo<float32x2_t>(*p0), p1->v[0]), vmul_n_f32(ns_hi<float32x2_t>(*p0), p1->v[0]))', 'fp')
    eqn('lt_swap_f32', ['float32x4_t', 'float32x4_t'], 'uint32x4_t', 'vandq_u32(vcltq_f32(*p0, *p1), vcltq_f32(*p1, *p0))', 'vdupq_n_u32(0)')
    eqn('pmax_f32', ['float32x2_t'], 'float32x2_t', 'vpmax_f32(*p0, *p0)', 'vpmax_f32(vrev64_f32(*p0), vrev64_f32(*p0))', 'fp')
    eqn('pmin_f32', ['float32x2_t'], 'float32x2_t', 'vpmin_f32(*p0, *p0)', 'vpmin_f32(vrev64_f32(*p0), vrev64_f32(*p0))', 'fp')
    for f in ('max', 'min'):
        eqn('p%s_vs_%sq' % (f, f), ['float32x4_t'], 'float32x2_t', 'vp%s_f32(vget_low_f32(*p0), vget_high_f32(*p0))' % f,
            'a', 'fp', pre='float32x4_t y = *p0; for (int i = 0; i < 4; i++) y.val[i] = p0->val[i ^ 1]; float32x4_t m = v%sq_f32(*p0, y); float32x2_t a = {{ m.val[0], m.val[2] }}; ' % f)
    # conversions on the exactly representable range
    eqn('cvt_rt_s32', ['int32x4_t'], 'int32x4_t', 'vcvtq_s32_f32(vcvtq_f32_s32(x))', 'x', pre='int32x4_t x = vsraq_n_s32(vdupq_n_s32(0), *p0, 8); ')
    eqn('cvtn_rt_s32', ['int32x4_t'], 'int32x4_t', 'vcvtnq_s32_f32(vcvtq_f32_s32(x))', 'x', pre='int32x4_t x = vsraq_n_s32(vdupq_n_s32(0), *p0, 8); ')
    eqn('cvt_u_max', ['float32x4_t'], 'uint32x4_t', 'vcvtq_u32_f32(*p0)', 'vcvtq_u32_f32(vmaxq_f32(*p0, vdupq_n_f32(0)))')
    # ------------------------------------------------------------ lanes, broadcast, tables
    for k, w in IDT + [('f', 32), ('f', 64)]:
        s = '%s%d' % (k, w)
        for q in ('', 'q'):
            n = (128 if q else 64) // w
            V_ = vt(k, w, n); R1 = Raw(et(k, w), 1)
            for i in range(n):
                eqn('lane_dup_%s%s_%d' % (s, q, i), [R1], R1, 'vget%s_lane_%s(vdup%s_n_%s(p0->v[0]), %d)' % (q, s, q, s, i), 'p0->v[0]',
                    prop='N19') if 0 else law('N19', 'lane_dup_%s%s_%d' % (s, q, i), [R1], R1, 'l->v[0] = vget%s_lane_%s(vdup%s_n_%s(p0->v[0]), %d); *r = *p0;' % (q, s, q, s, i))
                law('N19', 'lane_ld_%s%s_%d' % (s, q, i), [Raw(et(k, w), n)], R1, 'l->v[0] = vget%s_lane_%s(vld1%s_%s(p0->v), %d); r->v[0] = p0->v[%d];' % (q, s, q, s, i, i))
            eqn('lddup_%s%s' % (s, q), [R1], V_, 'vld1%s_dup_%s(p0->v)' % (q, s), 'vdup%s_n_%s(p0->v[0])' % (q, s))
    U8, U16 = 'uint8x8_t', 'uint8x16_t'
    for i in range(8):
        for K in (2, 3, 4):
            VK = 'uint8x8x%d_t' % K
            law('N19', 'ldlane%d_u8_%d' % (K, i), [Raw('uint8_t', K), VK], VK, '*l = vld%d_lane_u8(p0->v, *p1, %d); for (int j = 0; j < %d; j++) r->val[j] = vld1_lane_u8(p0->v + j, p1->val[j], %d);' % (K, i, K, i))
        eqn('ext_tbl2_%d' % i, [U8, U8], U8, 'vext_u8(*p0, *p1, %d)' % i, 'vtbl2_u8(t, x)', pre='uint8x8x2_t t = {{ *p0, *p1 }}; uint8x8_t x = {{ %s }}; ' % ', '.join(str(i + j) for j in range(8)))
    eqn('tbl1_tbl2', [U8, U8], U8, 'vtbl1_u8(*p0, *p1)', 'vtbl2_u8(t, *p1)', pre='uint8x8x2_t t = {{ *p0, vdup_n_u8(0) }}; ')
    eqn('tbl2_tbl4', [U8, U8, U8], U8, 'vtbl2_u8(t, *p2)', 'vtbl4_u8(u, *p2)', pre='uint8x8x2_t t = {{ *p0, *p1 }}; uint8x8x4_t u = {{ *p0, *p1, vdup_n_u8(0), vdup_n_u8(0) }}; ')
    eqn('qtbl1_tbl2', [U8, U8, U8], U8, 'vqtbl1_u8(vcombine_u8(*p0, *p1), *p2)', 'vtbl2_u8(t, *p2)', pre='uint8x8x2_t t = {{ *p0, *p1 }}; ')
    eqn('tbl1_rev64', [U8], U8, 'vtbl1_u8(*p0, x)', 'vrev64_u8(*p0)', pre='uint8x8_t x = {{ 7, 6, 5, 4, 3, 2, 1, 0 }}; ')
    eqn('tbl1_rev32', [U8], U8, 'vtbl1_u8(*p0, x)', 'vrev32_u8(*p0)', pre='uint8x8_t x = {{ 3, 2, 1, 0, 7, 6, 5, 4 }}; ')
    eqn('tbl1_rev16', [U8], U8, 'vtbl1_u8(*p0, x)', 'vrev16_u8(*p0)', pre='uint8x8_t x = {{ 1, 0, 3, 2, 5, 4, 7, 6 }}; ')
    eqn('tbl1_id', [U8], U8, 'vtbl1_u8(*p0, x)', '*p0', pre='uint8x8_t x = {{ 0, 1, 2, 3, 4, 5, 6, 7 }}; ')
    eqn('rev64_8_32', [U8], U8, 'vrev64_u8(*p0)', 'vreinterpret_u8_u32(vrev64_u32(vreinterpret_u32_u8(vrev32_u8(*p0))))')
    eqn('rev32_16_8', [U8], 'uint32x2_t', 'vreinterpret_u32_u8(vrev32_u8(*p0))', 'vreinterpret_u32_u16(vrev32_u16(vreinterpret_u16_u8(vrev16_u8(*p0))))')
    # signed and unsigned copies of sign-agnostic operations
    for w in (8, 16, 32, 64):
        for q in ('', 'q'):
            n = (128 if q else 64) // w
            U, S = vt('u', w, n), vt('s', w, n)
            for f in 'add sub mul and orr eor'.split():
                law('N19', 'sign_%s%s_%d' % (f, q, w), [U, U], U, '%s a, b, c; memcpy(&a, p0, sizeof a); memcpy(&b, p1, sizeof b); c = v%s%s_s%d(a, b); memcpy(l, &c, sizeof c); *r = v%s%s_u%d(*p0, *p1);' % (S, f, q, w, f, q, w))
            for f in 'mvn rev16 rev32 rev64'.split():
                law('N19', 'sign_%s%s_%d' % (f, q, w), [U], U, '%s a, c; memcpy(&a, p0, sizeof a); c = v%s%s_s%d(a); memcpy(l, &c, sizeof c); *r = v%s%s_u%d(*p0);' % (S, f, q, w, f, q, w))
            for f in 'trn zip uzp'.split():
                U2, S2 = U[:-2] + 'x2_t', S[:-2] + 'x2_t'
                law('N19', 'sign_%s%s_%d' % (f, q, w), [U, U], U2, '%s a, b; memcpy(&a, p0, sizeof a); memcpy(&b, p1, sizeof b); %s c = v%s%s_s%d(a, b); memcpy(l, &c, sizeof c); *r = v%s%s_u%d(*p0, *p1);' % (S, S2, f, q, w, f, q, w))
    # ------------------------------------------------------------ reinterpret
    rei = [n for n in NAMES if n.startswith('vreinterpret')]
    def parts(n):
        m = re.match(r'^vreinterpret(q?)_([usf])(\d+)_([usf])(\d+)$', n)
        return m.group(1), (m.group(2), int(m.group(3))), (m.group(4), int(m.group(5)))
    for a in sorted(rei):
        q, to, fr = parts(a)
        B = 128 if q else 64
        F_, T_ = vt(*fr, B // fr[1]), vt(*to, B // to[1])
        law('N19', 'rei_' + a, [F_], T_, '*l = %s(*p0); memcpy(r, p0, sizeof *r);' % a, text='%s keeps the register bytes' % a)
        for b in sorted(rei):
            q2, to2, fr2 = parts(b)
            if q2 != q or fr2 != to: continue
            if to2 == fr: eqn('rei_back_%s_%s' % (a, b), [F_], F_, '%s(%s(*p0))' % (b, a), '*p0')
            c = 'vreinterpret%s_%s%d_%s%d' % (q, to2[0], to2[1], fr[0], fr[1])
            if c in NAMES: eqn('rei_chain_%s_%s' % (a, b), [F_], vt(*to2, B // to2[1]), '%s(%s(*p0))' % (b, a), '%s(*p0)' % c)
    # ------------------------------------------------------------ N27: composed programs against scalar code
    def prog(name, ins, out, body, mode='bits', text=''):
        law('N27', 'prog_' + name, ins, out, body, mode, text or name)
    def B8(n): return Raw('uint8_t', n)
    def FOR(n, st): return ' for (int i = 0; i < %d; i++) { %s }' % (n, st)
    prog('gray', [B8(24)], B8(8), 'uint8x8x3_t p = vld3_u8(p0->v); uint16x8_t a = vmull_u8(p.val[0], vdup_n_u8(77)); a = vmlal_u8(a, p.val[1], vdup_n_u8(150)); '
         'a = vmlal_u8(a, p.val[2], vdup_n_u8(29)); vst1_u8(l->v, vshrn_n_u16(a, 8));' + FOR(8, 'const uint8_t* q = p0->v + 3 * i; r->v[i] = (77 * q[0] + 150 * q[1] + 29 * q[2]) >> 8;'),
         text='RGB to grey: vld3, vmull, vmlal, vshrn, vst1')
    prog('bgr', [B8(48)], B8(48), 'uint8x16x3_t p = vld3q_u8(p0->v); uint8x16_t t = p.val[0]; p.val[0] = p.val[2]; p.val[2] = t; vst3q_u8(l->v, p);' +
         FOR(48, 'r->v[i] = p0->v[i / 3 * 3 + 2 - i % 3];'), text='RGB to BGR: vld3q, exchange, vst3q')
    prog('argb', [B8(32)], B8(32), 'uint8x8x4_t p = vld4_u8(p0->v), q; for (int j = 0; j < 4; j++) q.val[j] = p.val[(j + 1) & 3]; vst4_u8(l->v, q);' +
         FOR(32, 'r->v[i] = p0->v[i / 4 * 4 + (i + 1) % 4];'), text='rotate the channels of RGBA pixels: vld4, vst4')
    prog('blend', [B8(8), B8(8), B8(8)], B8(8), 'uint8x8_t s = vld1_u8(p0->v), d = vld1_u8(p1->v), a = vld1_u8(p2->v); uint16x8_t t = vmull_u8(s, a); t = vmlal_u8(t, d, vmvn_u8(a)); vst1_u8(l->v, vrshrn_n_u16(t, 8));' +
         FOR(8, 'uint16_t t = (uint16_t)((uint16_t)(p0->v[i] * p2->v[i]) + (uint16_t)(p1->v[i] * (uint8_t)~p2->v[i])); r->v[i] = (t + 128) >> 8;'), text='alpha blending: vmull, vmvn, vmlal, vrshrn')
    prog('div255', [B8(8), B8(8)], B8(8), 'uint16x8_t t = vaddq_u16(vmull_u8(vld1_u8(p0->v), vld1_u8(p1->v)), vdupq_n_u16(128)); vst1_u8(l->v, vshrn_n_u16(vaddw_u8(t, vshrn_n_u16(t, 8)), 8));' +
         FOR(8, 'r->v[i] = (p0->v[i] * p1->v[i] + 127) / 255;'), text='exact rounded a*b/255')
    for w in (8, 16, 32, 64):
        for q in ('', 'q'):
            n = (128 if q else 64) // w; R = Raw('uint%d_t' % w, n); S = '%s_u%d' % (q, w); V_ = vt('u', w, n)
            prog('absdiff%s_u%d' % (q, w), [R, R], R, '%s a = vld1%s(p0->v), b = vld1%s(p1->v); vst1%s(l->v, vorr%s(vqsub%s(a, b), vqsub%s(b, a)));' % (V_, S, S, S, S, S, S) +
                 FOR(n, 'r->v[i] = p0->v[i] > p1->v[i] ? p0->v[i] - p1->v[i] : p1->v[i] - p0->v[i];'), text='|a-b| from two saturating subtractions')
    for k, w in [(k, w) for k in 'us' for w in (8, 16, 32)]:
        n = 128 // w; R = Raw(et(k, w), n); S = '_%s%d' % (k, w); V_ = vt(k, w, n); U = 'uint%d_t' % w
        prog('spread_%s%d' % (k, w), [R, R], R, '%s a = vld1q%s(p0->v), b = vld1q%s(p1->v); vst1q%s(l->v, vsubq%s(vmaxq%s(a, b), vminq%s(a, b)));' % (V_, S, S, S, S, S, S) +
             FOR(n, 'r->v[i] = (%s)(p0->v[i] > p1->v[i] ? (%s)p0->v[i] - (%s)p1->v[i] : (%s)p1->v[i] - (%s)p0->v[i]);' % (et(k, w), U, U, U, U)), text='max - min == |a-b| modulo 2^%d' % w)
        prog('clamp_%s%d' % (k, w), [R, R, R], R, '%s x = vld1q%s(p0->v), lo = vld1q%s(p1->v), hi = vld1q%s(p2->v); vst1q%s(l->v, vmaxq%s(vminq%s(x, hi), lo));' % (V_, S, S, S, S, S, S) +
             FOR(n, '%s t = p0->v[i] < p2->v[i] ? p0->v[i] : p2->v[i]; r->v[i] = t < p1->v[i] ? p1->v[i] : t;' % et(k, w)), text='clamp(x, lo, hi)')
        prog('horner_%s%d' % (k, w), [R, R], R, '%s x = vld1q%s(p0->v), c = vld1q%s(p1->v); vst1q%s(l->v, vmlaq%s(c, vmlaq%s(c, x, x), x));' % (V_, S, S, S, S, S) +
             FOR(n, 'uint64_t x = p0->v[i], c = p1->v[i]; r->v[i] = (%s)(c + (c + x * x) * x);' % et(k, w)), text='polynomial c + (c + x*x)*x')
    prog('sad', [B8(8), B8(8)], Raw('uint32_t', 1), 'uint8x8_t a = vld1_u8(p0->v), b = vld1_u8(p1->v); uint16x4_t s = vpaddl_u8(vorr_u8(vqsub_u8(a, b), vqsub_u8(b, a))); uint16_t m[4]; vst1_u16(m, s); '
         'l->v[0] = m[0] + m[1] + m[2] + m[3]; uint32_t t = 0;' + FOR(8, 't += p0->v[i] > p1->v[i] ? p0->v[i] - p1->v[i] : p1->v[i] - p0->v[i];') + ' r->v[0] = t;', text='sum of absolute differences: vqsub, vorr, vpaddl')
    prog('sum16', [B8(16)], Raw('uint32_t', 1), 'uint32x4_t s = vpaddlq_u16(vpaddlq_u8(vld1q_u8(p0->v))); l->v[0] = vgetq_lane_u32(s, 0) + vgetq_lane_u32(s, 1) + vgetq_lane_u32(s, 2) + vgetq_lane_u32(s, 3); '
         'uint32_t t = 0;' + FOR(16, 't += p0->v[i];') + ' r->v[0] = t;', text='sum of 16 bytes: vpaddlq twice')
    prog('dot_s16', [Raw('int16_t', 8), Raw('int16_t', 8)], Raw('uint32_t', 1), 'int16x8_t a = vld1q_s16(p0->v), b = vld1q_s16(p1->v); int32x4_t s = vmull_s16(vget_low_s16(a), vget_low_s16(b)); '
         's = vmlal_s16(s, vget_high_s16(a), vget_high_s16(b)); l->v[0] = (uint32_t)vgetq_lane_s32(s, 0) + (uint32_t)vgetq_lane_s32(s, 1) + (uint32_t)vgetq_lane_s32(s, 2) + (uint32_t)vgetq_lane_s32(s, 3); '
         'uint32_t t = 0;' + FOR(4, 't += (uint32_t)(p0->v[i] * p1->v[i]) + (uint32_t)(p0->v[i + 4] * p1->v[i + 4]);') + ' r->v[0] = t;', text='dot product of 8 int16: vmull, vmlal on halves')
    prog('mulhi_u32', [Raw('uint32_t', 2), Raw('uint32_t', 2)], Raw('uint32_t', 2), 'vst1_u32(l->v, vshrn_n_u64(vmull_u32(vld1_u32(p0->v), vld1_u32(p1->v)), 32));' + FOR(2, 'r->v[i] = ((uint64_t)p0->v[i] * p1->v[i]) >> 32;'), text='high half of the 64-bit product')
    prog('mulhi_s32', [Raw('int32_t', 2), Raw('int32_t', 2)], Raw('int32_t', 2), 'vst1_s32(l->v, vshrn_n_s64(vmull_s32(vld1_s32(p0->v), vld1_s32(p1->v)), 32));' + FOR(2, 'r->v[i] = ((int64_t)p0->v[i] * p1->v[i]) >> 32;'), text='high half of the signed 64-bit product')
    prog('mulhi_s16', [Raw('int16_t', 4), Raw('int16_t', 4)], Raw('int16_t', 4), 'int16x4_t h = vshrn_n_s32(vmull_s16(vld1_s16(p0->v), vld1_s16(p1->v)), 16); vst1_s16(l->v, h);' + FOR(4, 'r->v[i] = (p0->v[i] * p1->v[i]) >> 16;'), text='high half of the signed 32-bit product')
    prog('cmul_s16', [Raw('int16_t', 8), Raw('int16_t', 8)], Raw('int32_t', 8), 'int16x4x2_t a = vld2_s16(p0->v), b = vld2_s16(p1->v); int32x4x2_t c; c.val[0] = vmlsl_s16(vmull_s16(a.val[0], b.val[0]), a.val[1], b.val[1]); '
         'c.val[1] = vmlal_s16(vmull_s16(a.val[0], b.val[1]), a.val[1], b.val[0]); vst2q_s32(l->v, c);' + FOR(4, 'int ar = p0->v[2 * i], ai = p0->v[2 * i + 1], br = p1->v[2 * i], bi = p1->v[2 * i + 1]; '
         'r->v[2 * i] = (int32_t)((uint32_t)(ar * br) - (uint32_t)(ai * bi)); r->v[2 * i + 1] = (int32_t)((uint32_t)(ar * bi) + (uint32_t)(ai * br));'), text='complex multiplication: vld2, vmull, vmlsl, vmlal, vst2q')
    prog('average_u16', [Raw('uint16_t', 4), Raw('uint16_t', 4)], Raw('uint16_t', 4), 'uint16x4_t a = vld1_u16(p0->v), b = vld1_u16(p1->v); vst1_u16(l->v, vadd_u16(vand_u16(a, b), vshr_n_u16(veor_u16(a, b), 1)));' +
         FOR(4, 'r->v[i] = (p0->v[i] + p1->v[i]) >> 1;'), text='average without overflow: vand, veor, vshr, vadd')
    prog('brighten', [B8(16), B8(1)], B8(16), 'vst1q_u8(l->v, vqaddq_u8(vld1q_u8(p0->v), vdupq_n_u8(p1->v[0])));' + FOR(16, 'int t = p0->v[i] + p1->v[0]; r->v[i] = t > 255 ? 255 : t;'), text='saturating brightness')
    prog('threshold', [B8(16), B8(1)], B8(16), 'vst1q_u8(l->v, vbslq_u8(vcgtq_u8(vld1q_u8(p0->v), vdupq_n_u8(p1->v[0])), vdupq_n_u8(255), vdupq_n_u8(0)));' + FOR(16, 'r->v[i] = p0->v[i] > p1->v[0] ? 255 : 0;'), text='threshold: vcgtq, vbslq')
    prog('reverse16', [B8(16)], B8(16), 'uint8x16_t v = vrev64q_u8(vld1q_u8(p0->v)); vst1q_u8(l->v, vcombine_u8(vget_high_u8(v), vget_low_u8(v)));' + FOR(16, 'r->v[i] = p0->v[15 - i];'), text='reverse 16 bytes')
    prog('be32', [B8(8)], Raw('uint32_t', 2), 'vst1_u32(l->v, vreinterpret_u32_u8(vrev32_u8(vld1_u8(p0->v))));' + FOR(2, 'const uint8_t* q = p0->v + 4 * i; r->v[i] = (uint32_t)q[0] << 24 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 8 | q[3];'), text='big-endian 32-bit load')
    prog('be16', [B8(8)], Raw('uint16_t', 4), 'vst1_u16(l->v, vreinterpret_u16_u8(vrev16_u8(vld1_u8(p0->v))));' + FOR(4, 'r->v[i] = (uint16_t)(p0->v[2 * i] << 8 | p0->v[2 * i + 1]);'), text='big-endian 16-bit load')
    prog('transpose8x8', [B8(64)], B8(64), 'uint8x8_t x[8]; for (int i = 0; i < 8; i++) x[i] = vld1_u8(p0->v + 8 * i); '
         'uint8x8x2_t a[4]; for (int i = 0; i < 4; i++) a[i] = vtrn_u8(x[2 * i], x[2 * i + 1]); '
         'uint16x4x2_t b[4]; for (int h = 0; h < 2; h++) for (int j = 0; j < 2; j++) b[2 * h + j] = vtrn_u16(vreinterpret_u16_u8(a[2 * h].val[j]), vreinterpret_u16_u8(a[2 * h + 1].val[j])); '
         'for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { uint32x2_t s0, s1; memcpy(&s0, &b[j].val[k], 8); memcpy(&s1, &b[2 + j].val[k], 8); uint32x2x2_t c = vtrn_u32(s0, s1); '
         'for (int m = 0; m < 2; m++) { uint32_t o[2]; vst1_u32(o, c.val[m]); memcpy(l->v + 8 * (4 * m + 2 * k + j), o, 8); } }' + FOR(64, 'r->v[i] = p0->v[i % 8 * 8 + i / 8];'), text='8x8 byte transpose by vtrn_u8, vtrn_u16, vtrn_u32')
    prog('transpose4x4_s16', [Raw('int16_t', 16)], Raw('int16_t', 16), 'int16x4x2_t a = vtrn_s16(vld1_s16(p0->v), vld1_s16(p0->v + 4)), b = vtrn_s16(vld1_s16(p0->v + 8), vld1_s16(p0->v + 12)); '
         'for (int j = 0; j < 2; j++) { int32x2_t s0, s1; memcpy(&s0, &a.val[j], 8); memcpy(&s1, &b.val[j], 8); int32x2x2_t c = vtrn_s32(s0, s1); memcpy(l->v + 4 * j, &c.val[0], 8); memcpy(l->v + 4 * (j + 2), &c.val[1], 8); }' +
         FOR(16, 'r->v[i] = p0->v[i % 4 * 4 + i / 4];'), text='4x4 int16 transpose by vtrn')
    prog('transpose4x4_f32', [Raw('float32_t', 16)], Raw('float32_t', 16), 'uint32x4x2_t a = vtrnq_u32(vreinterpretq_u32_f32(vld1q_f32(p0->v)), vreinterpretq_u32_f32(vld1q_f32(p0->v + 4))), b = vtrnq_u32(vreinterpretq_u32_f32(vld1q_f32(p0->v + 8)), vreinterpretq_u32_f32(vld1q_f32(p0->v + 12))); '
         'for (int j = 0; j < 2; j++) { vst1q_u32((uint32_t*)(void*)(l->v + 4 * j), vcombine_u32(vget_low_u32(a.val[j]), vget_low_u32(b.val[j]))); vst1q_u32((uint32_t*)(void*)(l->v + 4 * (j + 2)), vcombine_u32(vget_high_u32(a.val[j]), vget_high_u32(b.val[j]))); }' +
         FOR(16, 'r->v[i] = p0->v[i % 4 * 4 + i / 4];'), text='4x4 float transpose: vtrnq_u32, vget_low/high, vcombine')
    prog('matvec', [Raw('float32_t', 16), Raw('float32_t', 4)], Raw('float32_t', 4), 'float32x4_t a = vmulq_n_f32(vld1q_f32(p0->v), p1->v[0]); for (int j = 1; j < 4; j++) a = vmlaq_n_f32(a, vld1q_f32(p0->v + 4 * j), p1->v[j]); vst1q_f32(l->v, a);' +
         FOR(4, 'float t = p0->v[i] * p1->v[0]; for (int j = 1; j < 4; j++) t = t + p0->v[4 * j + i] * p1->v[j]; r->v[i] = t;'), 'fp', text='4x4 matrix times vector: vmulq_n, vmlaq_n')
    prog('axpy', [Raw('float32_t', 4), Raw('float32_t', 4), Raw('float32_t', 1)], Raw('float32_t', 4), 'vst1q_f32(l->v, vmlaq_f32(vld1q_f32(p1->v), vld1q_f32(p0->v), vld1q_dup_f32(p2->v)));' + FOR(4, 'r->v[i] = p1->v[i] + p0->v[i] * p2->v[0];'), 'fp', text='y + a*x')
    prog('lerp', [Raw('float32_t', 4), Raw('float32_t', 4), Raw('float32_t', 4)], Raw('float32_t', 4), 'float32x4_t a = vld1q_f32(p0->v), b = vld1q_f32(p1->v); vst1q_f32(l->v, vmlaq_f32(a, vsubq_f32(b, a), vld1q_f32(p2->v)));' + FOR(4, 'r->v[i] = p0->v[i] + (p1->v[i] - p0->v[i]) * p2->v[i];'), 'fp', text='linear interpolation')
    prog('neg_f32', [Raw('float32_t', 4)], Raw('uint32_t', 4), 'vst1q_u32(l->v, veorq_u32(vreinterpretq_u32_f32(vld1q_f32(p0->v)), vdupq_n_u32(0x80000000u)));' + FOR(4, 'uint32_t b; memcpy(&b, &p0->v[i], 4); r->v[i] = b ^ 0x80000000u;'), text='negate floats by their sign bits')
    prog('abs_f32', [Raw('float32_t', 4)], Raw('float32_t', 4), 'uint32_t m[4]; vst1q_u32(m, vandq_u32(vreinterpretq_u32_f32(vld1q_f32(p0->v)), vdupq_n_u32(0x7fffffffu))); memcpy(l->v, m, 16);' + FOR(4, 'uint32_t b; memcpy(&b, &p0->v[i], 4); b &= 0x7fffffffu; memcpy(&r->v[i], &b, 4);'), text='absolute value of floats by their sign bits')
    prog('select_lt_f32', [Raw('float32_t', 4), Raw('float32_t', 4)], Raw('float32_t', 4), 'float32x4_t a = vld1q_f32(p0->v), b = vld1q_f32(p1->v); vst1q_f32(l->v, vbslq_f32(vcltq_f32(a, b), a, b));' + FOR(4, 'memcpy(&r->v[i], p0->v[i] < p1->v[i] ? &p0->v[i] : &p1->v[i], 4);'), text='a < b ? a : b on floats, bit for bit')
    prog('f32_to_u8', [Raw('float32_t', 4)], Raw('uint16_t', 4), 'vst1_u16(l->v, vmovn_u32(vminq_u32(vcvtq_u32_f32(vld1q_f32(p0->v)), vdupq_n_u32(255))));' + FOR(4, 'float f = p0->v[i]; r->v[i] = f != f || f <= 0 ? 0 : f >= 255 ? 255 : (uint16_t)f;'), text='float to clamped pixel: vcvtq_u32, vminq, vmovn')
    prog('round_scale', [Raw('int16_t', 4)], Raw('int32_t', 4), 'vst1q_s32(l->v, vcvtnq_s32_f32(vmulq_n_f32(vcvtq_f32_s32(vmovl_s16(vld1_s16(p0->v))), 0.25f)));' + FOR(4, 'int32_t x = p0->v[i]; r->v[i] = (x + 1 + ((x >> 2) & 1)) >> 2;'), text='scale by 1/4 and round to nearest even')
    prog('lut64', [B8(64), B8(8)], B8(8), 'uint8x8x4_t t, u; for (int j = 0; j < 4; j++) { t.val[j] = vld1_u8(p0->v + 8 * j); u.val[j] = vld1_u8(p0->v + 32 + 8 * j); } uint8x8_t x = vld1_u8(p1->v); '
         'vst1_u8(l->v, vorr_u8(vtbl4_u8(t, x), vtbl4_u8(u, vsub_u8(x, vdup_n_u8(32)))));' + FOR(8, 'unsigned x = p1->v[i]; uint8_t y = 0; for (unsigned j = 0; j < 64; j++) if (x == j) y = p0->v[j]; r->v[i] = y;'), text='64-entry table from two vtbl4')
    prog('popcount', [B8(8)], B8(8), 'static const uint8_t t[16] = { 0, 1, 1, 2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4 }; uint8x8_t x = vld1_u8(p0->v); uint8x16_t c = vld1q_u8(t); '
         'vst1_u8(l->v, vadd_u8(vqtbl1_u8(c, vand_u8(x, vdup_n_u8(15))), vqtbl1_u8(c, vshrn_n_u16(vmovl_u8(x), 4))));' + FOR(8, 'uint8_t n = 0; for (int b = 0; b < 8; b++) n += p0->v[i] >> b & 1; r->v[i] = n;'), text='population count by nibble table')
    prog('fir3', [B8(16)], Raw('uint16_t', 8), 'uint8x8_t a = vld1_u8(p0->v), b = vld1_u8(p0->v + 8); uint16x8_t s = vaddl_u8(a, vext_u8(a, b, 2)); s = vmlal_u8(s, vext_u8(a, b, 1), vdup_n_u8(2)); vst1q_u16(l->v, s);' +
         FOR(8, 'r->v[i] = p0->v[i] + 2 * p0->v[i + 1] + p0->v[i + 2];'), text='3-tap filter: vext, vaddl, vmlal')
    prog('fir5_u16', [Raw('uint16_t', 16)], Raw('uint16_t', 8), 'uint16x8_t a = vld1q_u16(p0->v), b = vld1q_u16(p0->v + 8); uint16x8_t s = vaddq_u16(a, vextq_u16(a, b, 4)); s = vmlaq_u16(s, vaddq_u16(vextq_u16(a, b, 1), vextq_u16(a, b, 3)), vdupq_n_u16(4)); s = vmlaq_u16(s, vextq_u16(a, b, 2), vdupq_n_u16(6)); vst1q_u16(l->v, s);' +
         FOR(8, 'const uint16_t* q = p0->v + i; r->v[i] = (uint16_t)(q[0] + 4 * q[1] + 6 * q[2] + 4 * q[3] + q[4]);'), text='5-tap binomial filter: vextq, vmlaq')
    prog('q15mul', [Raw('int16_t', 4), Raw('int16_t', 4)], Raw('int16_t', 4), 'vst1_s16(l->v, vshrn_n_s32(vqdmull_s16(vld1_s16(p0->v), vld1_s16(p1->v)), 16));' +
         FOR(4, 'int t = p0->v[i] * p1->v[i]; r->v[i] = p0->v[i] == -32768 && p1->v[i] == -32768 ? 32767 : (int16_t)(t * 2 >> 16);'), text='Q15 multiplication: vqdmull, vshrn')
    prog('yuv_r', [B8(8), B8(8)], B8(8), 'int16x8_t y = vreinterpretq_s16_u16(vshll_n_u8(vld1_u8(p0->v), 6)), v = vreinterpretq_s16_u16(vsubl_u8(vld1_u8(p1->v), vdup_n_u8(128))); vst1_u8(l->v, vqrshrun_n_s16(vaddq_s16(y, vmulq_n_s16(v, 90)), 6));' +
         FOR(8, 'int t = (64 * p0->v[i] + 90 * (p1->v[i] - 128) + 32) >> 6; r->v[i] = t < 0 ? 0 : t > 255 ? 255 : t;'), text='red of a YUV pixel: vshll, vsubl, vmulq_n, vqrshrun')
    prog('sobel', [B8(10)], Raw('int16_t', 8), 'int16x8_t g = vreinterpretq_s16_u16(vsubl_u8(vld1_u8(p0->v + 2), vld1_u8(p0->v))); vst1q_s16(l->v, g);' + FOR(8, 'r->v[i] = p0->v[i + 2] - p0->v[i];'), text='signed gradient of unsigned pixels: vsubl_u8 reinterpreted')
    prog('rgb565', [B8(24)], Raw('uint16_t', 8), 'uint8x8x3_t p = vld3_u8(p0->v); uint16x8_t x = vshll_n_u8(p.val[0], 7), g = vshll_n_u8(p.val[1], 3), b = vmovl_u8(vshrn_n_u16(vmovl_u8(p.val[2]), 3)); x = vandq_u16(vaddq_u16(x, x), vdupq_n_u16(0xf800)); '
         'vst1q_u16(l->v, vorrq_u16(x, vorrq_u16(vandq_u16(g, vdupq_n_u16(0x07e0)), b)));' + FOR(8, 'const uint8_t* q = p0->v + 3 * i; r->v[i] = (uint16_t)((q[0] >> 3) << 11 | (q[1] >> 2) << 5 | q[2] >> 3);'), text='pack RGB565: vld3, vshll, vshrn, vand, vorr')
    prog('hmax', [Raw('float32_t', 4)], Raw('float32_t', 1), 'float32x4_t v = vld1q_f32(p0->v); float32x2_t m = vpmax_f32(vget_low_f32(v), vget_high_f32(v)); m = vpmax_f32(m, m); l->v[0] = vget_lane_f32(m, 0); '
         'float t = p0->v[0]; for (int i = 1; i < 4; i++) if (t != t) ; else if (p0->v[i] != p0->v[i] || p0->v[i] > t) t = p0->v[i]; else if (p0->v[i] == t && t == 0) { uint32_t a, b; memcpy(&a, &t, 4); memcpy(&b, &p0->v[i], 4); a &= b; memcpy(&t, &a, 4); } r->v[0] = t;', 'fp', text='horizontal maximum of four floats by vpmax')
    prog('hmin', [Raw('float32_t', 4)], Raw('float32_t', 1), 'float32x4_t v = vld1q_f32(p0->v); float32x2_t m = vpmin_f32(vget_low_f32(v), vget_high_f32(v)); m = vpmin_f32(m, m); l->v[0] = vget_lane_f32(m, 1); '
         'float t = p0->v[0]; for (int i = 1; i < 4; i++) if (t != t) ; else if (p0->v[i] != p0->v[i] || p0->v[i] < t) t = p0->v[i]; else if (p0->v[i] == t && t == 0) { uint32_t a, b; memcpy(&a, &t, 4); memcpy(&b, &p0->v[i], 4); a |= b; memcpy(&t, &a, 4); } r->v[0] = t;', 'fp', text='horizontal minimum of four floats by vpmin')
    prog('deinterleave16', [Raw('uint16_t', 16)], Raw('uint16_t', 16), 'uint16x8x2_t v = vld2q_u16(p0->v); vst1q_u16(l->v, v.val[0]); vst1q_u16(l->v + 8, v.val[1]);' + FOR(16, 'r->v[i] = p0->v[i % 8 * 2 + i / 8];'), text='split even and odd samples')
    prog('copy64', [B8(64)], B8(64), 'for (int i = 0; i < 64; i += 16) vst1q_u8(l->v + i, vld1q_u8(p0->v + i)); *r = *p0;', text='memcpy by vld1q/vst1q')
    prog('checksum', [Raw('uint16_t', 8)], Raw('uint32_t', 1), 'uint32x4_t s = vpaddlq_u16(vld1q_u16(p0->v)); uint32x2_t h = vadd_u32(vget_low_u32(s), vget_high_u32(s)); uint32_t m[2]; vst1_u32(m, h); l->v[0] = m[0] + m[1]; uint32_t t = 0;' +
         FOR(8, 't += p0->v[i];') + ' r->v[0] = t;', text='sum of 8 uint16 without overflow')
    prog('quarter_sat', [Raw('int32_t', 4)], Raw('int16_t', 4), 'vst1_s16(l->v, vqshrn_n_s32(vld1q_s32(p0->v), 2));' + FOR(4, 'int32_t t = p0->v[i] >> 2; r->v[i] = t > 32767 ? 32767 : t < -32768 ? -32768 : t;'), text='PCM: 32 to 16 bits with saturation')
    prog('mean4', [Raw('uint8_t', 32)], B8(8), 'uint16x8_t s = vaddl_u8(vld1_u8(p0->v), vld1_u8(p0->v + 8)); s = vaddw_u8(s, vld1_u8(p0->v + 16)); s = vaddw_u8(s, vld1_u8(p0->v + 24)); vst1_u8(l->v, vrshrn_n_u16(s, 2));' +
         FOR(8, 'r->v[i] = (p0->v[i] + p0->v[i + 8] + p0->v[i + 16] + p0->v[i + 24] + 2) >> 2;'), text='rounded mean of four rows: vaddl, vaddw, vrshrn')
    # ------------------------------------------------------------ sign-agnostic copies of data movement and narrowing
    def cast(n_, T_, src): return '%s %s; memcpy(&%s, %s, sizeof %s); ' % (T_, n_, n_, src, n_)
    for w in (8, 16, 32, 64):
        UD, SD, UQ, SQ = vt('u', w, 64 // w), vt('s', w, 64 // w), vt('u', w, 128 // w), vt('s', w, 128 // w)
        law('N19', 'sign_combine_%d' % w, [UD, UD], UQ, cast('a', SD, 'p0') + cast('b', SD, 'p1') + '%s c = vcombine_s%d(a, b); memcpy(l, &c, sizeof c); *r = vcombine_u%d(*p0, *p1);' % (SQ, w, w))
        for h in ('low', 'high'):
            law('N19', 'sign_get_%s_%d' % (h, w), [UQ], UD, cast('a', SQ, 'p0') + '%s c = vget_%s_s%d(a); memcpy(l, &c, sizeof c); *r = vget_%s_u%d(*p0);' % (SD, h, w, h, w))
        for q, U, S in (('', UD, SD), ('q', UQ, SQ)):
            n = U and (128 if q else 64) // w
            for K in (1, 2, 3, 4):
                UK, SK = (U, S) if K == 1 else (U[:-2] + 'x%d_t' % K, S[:-2] + 'x%d_t' % K)
                R = Raw('uint%d_t' % w, n * K)
                law('N19', 'sign_ld%d%s_%d' % (K, q, w), [R], UK, '%s c = vld%d%s_s%d((const int%d_t*)p0->v); memcpy(l, &c, sizeof c); *r = vld%d%s_u%d(p0->v);' % (SK, K, q, w, w, K, q, w))
                law('N19', 'sign_st%d%s_%d' % (K, q, w), [UK], R, cast('a', SK, 'p0') + 'vst%d%s_s%d((int%d_t*)l->v, a); vst%d%s_u%d(r->v, *p0);' % (K, q, w, w, K, q, w))
            for i in range(n):
                law('N19', 'sign_lane%s_%d_%d' % (q, w, i), [U], Raw('uint%d_t' % w, 1), cast('a', S, 'p0') + 'l->v[0] = (uint%d_t)vget%s_lane_s%d(a, %d); r->v[0] = vget%s_lane_u%d(*p0, %d);' % (w, q, w, i, q, w, i))
                law('N19', 'sign_ext%s_%d_%d' % (q, w, i), [U, U], U, cast('a', S, 'p0') + cast('b', S, 'p1') + '%s c = vext%s_s%d(a, b, %d); memcpy(l, &c, sizeof c); *r = vext%s_u%d(*p0, *p1, %d);' % (S, q, w, i, q, w, i))
            law('N19', 'sign_dup%s_%d' % (q, w), [Raw('uint%d_t' % w, 1)], U, '%s c = vdup%s_n_s%d((int%d_t)p0->v[0]); memcpy(l, &c, sizeof c); *r = vdup%s_n_u%d(p0->v[0]);' % (S, q, w, w, q, w))
            law('N19', 'sign_mla%s_%d' % (q, w), [U, U, U], U, cast('a', S, 'p0') + cast('b', S, 'p1') + cast('d', S, 'p2') + '%s c = vmla%s_s%d(a, b, d); memcpy(l, &c, sizeof c); *r = vmla%s_u%d(*p0, *p1, *p2);' % (S, q, w, q, w))
            law('N19', 'sign_muln%s_%d' % (q, w), [U, Raw('uint%d_t' % w, 1)], U, cast('a', S, 'p0') + '%s c = vmul%s_n_s%d(a, (int%d_t)p1->v[0]); memcpy(l, &c, sizeof c); *r = vmul%s_n_u%d(*p0, p1->v[0]);' % (S, q, w, w, q, w))
        if w < 64:
            W = 2 * w; UW, SW = vt('u', W, 128 // W), vt('s', W, 128 // W)
            law('N19', 'sign_movn_%d' % W, [UW], UD, cast('a', SW, 'p0') + '%s c = vmovn_s%d(a); memcpy(l, &c, sizeof c); *r = vmovn_u%d(*p0);' % (SD, W, W))
            for f in ('subhn', 'rsubhn'):
                law('N19', 'sign_%s_%d' % (f, W), [UW, UW], UD, cast('a', SW, 'p0') + cast('b', SW, 'p1') + '%s c = v%s_s%d(a, b); memcpy(l, &c, sizeof c); *r = v%s_u%d(*p0, *p1);' % (SD, f, W, f, W))
            law('N19', 'sign_addhn_%d' % W, [UD, UW, UW], UQ, cast('a', SW, 'p1') + cast('b', SW, 'p2') + cast('z', SD, 'p0') + '%s c = vaddhn_high_s%d(z, a, b); memcpy(l, &c, sizeof c); *r = vaddhn_high_u%d(*p0, *p1, *p2);' % (SQ, W, W))
            for n in range(1, w + 1):
                law('N19', 'sign_shrn_%d_%d' % (W, n), [UW], UD, cast('a', SW, 'p0') + '%s c = vshrn_n_s%d(a, %d); memcpy(l, &c, sizeof c); *r = vshrn_n_u%d(*p0, %d);' % (SD, W, n, W, n))
    for a in kernels.programs(Raw)[0]: prog(*a)
    assert len(set(l.name for l in L)) == len(L), 'duplicate law'
    return L, miss

LAWS, MISSING = build()
def of(prop): return [l for l in LAWS if l.prop == prop]
