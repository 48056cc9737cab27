"""One verification case = one intrinsic (and one immediate), executed symbolically from
an arbitrary operand state, compared with the oracle, every obligation discharged."""
import re, time, random, z3
from . import ir, symex, spec, vals as V
from .symex import Machine, State, Unsupported, Unresolved, Dead, StepLimit
from .vals import *
from .types import T

SAFETY = ('oob-read', 'oob-write', 'unreachable')
RM = [0]        # rounding mode of the caller, as in <fenv.h>
UB = ('signed-overflow', 'shift-range', 'float-cast', 'div-zero', 'misaligned', 'array-bounds')

class Stats:
    def __init__(self):
        self.d = dict(states=0, transitions=0, queries=0, trivial=0, solver_time=0.0, unsat=0, sat=0, unknown=0,
                      branches=0, merges=0, traces=0, cases=0, feas=0, witnesses=0, cross=0)
        self.funcs = {}
        self.externs = {}
        self.unknowns = []
    def add(self, o):
        for k, v in o.d.items(): self.d[k] += v
        for k, v in o.funcs.items(): self.funcs[k] = v
        for k, v in o.externs.items(): self.externs[k] = self.externs.get(k, 0) + v
        self.unknowns += o.unknowns

class Solver:
    """decides satisfiability of one term under side constraints"""
    def __init__(self, stats, timeout=20000, cross=False):
        self.st, self.timeout, self.cross = stats, timeout, cross
    def check(self, term, side=(), timeout=None, want_model=True):
        """-> ('unsat', None) | ('sat', model) | ('unknown', None)"""
        self.st.d['queries'] += 1
        if isinstance(term, bool): term = z3.BoolVal(term)
        t0 = time.time()
        g = z3.simplify(term)
        triv = z3.is_false(g)
        tm = timeout or self.timeout
        try:
            if triv:
                self.st.d['trivial'] += 1
                s = z3.Solver(); s.add(g)
                r = s.check()
            else:
                r, s = self._solve(g, side, tm)
        finally:
            self.st.d['solver_time'] += time.time() - t0
        if r == z3.unsat:
            self.st.d['unsat'] += 1
            if self.cross and not triv: self.crosscheck(g, side)
            return 'unsat', None
        if r == z3.sat:
            self.st.d['sat'] += 1
            return 'sat', s.model()
        self.st.d['unknown'] += 1
        return 'unknown', None
    def _solve(self, g, side, tm):
        fp = has_fp(g) or any(has_fp(x) for x in side)
        last = (z3.unknown, None)
        for strat in (('default', min(tm, 4000)), ('tactic', tm), ('guided', 6000), ('smt2', tm)):
            if strat[0] == 'guided':
                s = self._guided(g, side, min(6.0, tm / 1000, V.DEADLINE[0] - time.time()))
                if s is not None: return z3.sat, s
                continue
            if strat[0] == 'default':
                s = z3.Solver()
            elif strat[0] == 'tactic':
                s = z3.Tactic('qffpbv' if fp else 'qfbv').solver()
            else:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver()
            left = V.DEADLINE[0] - time.time()
            if left < 0.05: return last
            s.set('timeout', int(min(strat[1], left * 1000)))
            for x in side: s.add(x)
            s.add(g)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown: return r, s
        return last
    def _guided(self, g, side, budget):
        """the same query with all but one or two operand elements fixed to simple values: a shortcut to a model, never to unsat"""
        vs = sorted((x for x in consts(g) if INPUT.match(x.decl().name())), key=lambda x: x.decl().name())
        if not vs or budget < 0.2: return None
        end, rnd = time.time() + budget, random.Random(len(vs))
        for k in range(40):
            if time.time() > end: break
            free = [vs[k % len(vs)]] if k < len(vs) or k % 2 else rnd.sample(vs, min(2, len(vs)))
            s = z3.Solver()
            s.set('timeout', int(max(50, min(800, 1000 * (end - time.time())))))
            for x in side: s.add(x)
            fl = has_fp(g)
            one = {32: 0x3f800000, 64: 0x3ff0000000000000} if fl else {}
            for v in vs:
                if any(v is f or v.eq(f) for f in free): continue
                w = v.size()
                s.add(v == [one.get(w, 1), 0, M(w), one.get(w, 2), rnd.getrandbits(w)][0 if k < len(vs) else rnd.randrange(5)])
            s.add(g)
            try:
                if s.check() == z3.sat: return s
            except z3.Z3Exception: pass
        return None
    def crosscheck(self, g, side):
        """second solver (cvc5) on the same query; disagreement is fatal"""
        import subprocess, tempfile, os
        s = z3.Solver()
        for x in side: s.add(x)
        s.add(g)
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('fp.to_ieee_bv', 'fp.to_ieee_bv')
        if 'fp.to_ieee_bv' in txt: return
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f.write(txt); f.close()
        try:
            t0 = time.time()
            r = subprocess.run(['cvc5', '--tlimit=60000', f.name], capture_output=True, text=True)
            self.st.d['solver_time'] += time.time() - t0
            o = r.stdout.strip().split('\n')[0]
            if o == 'unsat': self.st.d['cross'] += 1
            elif o == 'sat': raise RuntimeError('z3 says unsat, cvc5 says sat: ' + txt[:2000])
        finally:
            os.unlink(f.name)

INPUT = re.compile(r"^[\w':]*p\d+\.\d+'?$")
def consts(t):
    seen, stack, out = set(), [t], []
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() == 0:
            if z3.is_bv(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: stack.extend(x.children())
    return out

_hasfp = {}
def has_fp(t):
    k = t.get_id()
    r = _hasfp.get(k)
    if r is None:
        seen, stack, r = set(), [t], False
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_fp(x) or z3.is_fprm(x): r = True; break
            stack.extend(x.children())
        V._keep.append(t)
        _hasfp[k] = r
    return r

# ------------------------------------------------------------------ case set-up
ADDRBITS = 13
class Case:
    """symbolic (or concrete) execution of one wrapper"""
    def __init__(self, mod, fn, imm=None, conc=None, pre='', machine=None, state=None, prefix='nsv_'):
        self.fn, self.imm = fn, imm
        self.m = machine or Machine(mod)
        self.st = state or State()
        if state is None and mod.ctors(): self.st = self.m.boot(self.st)
        self.inputs = []          # (param index, element index, var)
        self.args, self.lanes, self.pobj, self.addrs = [], [], [], []
        self.pre = pre
        m, st = self.m, self.st
        if RM[0] and state is None: m.set_rm(st, RM[0])
        self.outobj = None
        if fn['ret'] != 'void':
            self.outobj = m.newobj(st, T(fn['ret']).size, 'param', 'result', align=16)
            self.args.append(P1(self.outobj.id, 0))
        self.R = T(fn['ret'])
        for i, (t, k, nm) in enumerate(fn['params']):
            if t == 'int':
                self.args.append(imm if not isinstance(imm, int) else imm & M(32))
                self.pobj.append(None)
                continue
            ty = T(t)
            n = mem_elems(fn, i) if k != 'val' else ty.lanes
            o = m.newobj(st, n * ty.esz, 'param', nm or 'p%d' % i, align=(ty.esz if k != 'val' else 16))
            if k != 'val' and conc is None and ir.PTR.w == 64:
                # the caller's memory lies anywhere its element type may, as far as a page and a half can tell
                sh = ty.esz.bit_length() - 1
                v = z3.BitVec('%saddr%d' % (pre, i), ADDRBITS - sh)
                m.addr[o.id] = z3.Concat(z3.BitVecVal(o.id << (32 - ADDRBITS), 64 - ADDRBITS), v, *([z3.BitVecVal(0, sh)] if sh else []))
                self.addrs.append((i, v, sh))
            ls = []
            for j in range(n):
                if conc is not None:
                    v = int.from_bytes(conc[i][j * ty.esz:(j + 1) * ty.esz], 'little')
                else:
                    v = z3.BitVec('%sp%d.%d' % (pre, i, j), ty.w)
                    self.inputs.append((i, j, v))
                x = F(ty.w, bits=v) if ty.kind == 'f' else v
                o.by[j * ty.esz:(j + 1) * ty.esz] = [(x, ty.esz, b) for b in range(ty.esz)]
                ls.append(x)
            self.lanes.append(ls)
            self.pobj.append(o.id)
            self.args.append(P1(o.id, 0))
        self.entry = '@' + prefix + fn['name']
        self.returned = False
    def run(self):
        m = self.m
        try:
            _, self.st = m.call(self.st, self.entry, self.args)
            self.returned = True
        except Dead:
            self.returned = False
        return self
    def elt(self, t):
        return ir.IntTy(t.w) if t.kind != 'f' else {16: ir.F16, 32: ir.F32, 64: ir.F64}[t.w]
    def ret_lanes(self):
        o = self.st.mem[self.outobj.id]
        e = self.elt(self.R)
        return [self.m._get(self.st, self.st.mem[o.id], j * self.R.esz, e) for j in range(self.R.lanes)]
    def mem_lanes(self, i):
        t = T(self.fn['params'][i][0])
        o = self.st.mem[self.pobj[i]]
        e = self.elt(t)
        return [self.m._get(self.st, self.st.mem[o.id], j * t.esz, e) for j in range(o.size // t.esz)]

def mem_elems(fn, i):
    """number of elements a pointer parameter addresses: exactly what the architecture touches"""
    import re
    name = fn['name']
    m = re.match(r'^v(ld|st)(\d)(q?)_(lane|dup)?', name)
    K = int(m.group(2))
    if m.group(4): return K
    vt = T(fn['ret']) if m.group(1) == 'ld' else T(fn['params'][1][0])
    return vt.lanes

def lane_diff(x, y, w, mode):
    """Bool term / bool: lane x (implementation) differs from lane y (oracle)"""
    if isinstance(x, F) or isinstance(y, F):
        if not isinstance(x, F): x = F(w, bits=mat(x))
        if not isinstance(y, F): y = F(w, bits=mat(y))
        if mode == 'bits' and (y.hasbits or x.hasbits):
            return bnot1(eq(x.bits, y.bits, w))
        if x.hasbits and y.hasbits:
            a, b = x.bits, y.bits
            if isc(a, b) and a == b: return False
            if not isc(a) and not isc(b) and a.eq(b): return False
        if x.fp.eq(y.fp): return False
        return z3.Not(x.fp == y.fp)
    return bnot1(eq(mat(x), mat(y), w))

class Cand:
    """a candidate violation: concrete inputs found by the solver"""
    def __init__(self, fn, kind, detail, inputs, imm, extra=None):
        self.fn, self.kind, self.detail, self.inputs, self.imm, self.extra = fn, kind, detail, inputs, imm, extra

def model_inputs(case, model, rnd=None):
    """model -> bytes per pointer-passed parameter index"""
    vals_ = {}
    for i, j, v in case.inputs:
        x = model.eval(v) if model is not None else None
        vals_[(i, j)] = x.as_long() if x is not None and z3.is_bv_value(x) else 0
    r = Inputs(pack(case.fn, vals_))
    if model is not None:
        for i, v, sh in getattr(case, 'addrs', ()):
            x = model.eval(v)
            if z3.is_bv_value(x): r.at[i] = x.as_long() << sh
        m = getattr(case, 'm', None)
        if m is not None and (m.outside or '@!errno' in m.gobj): r.outside = outside_values(m, model, out=getattr(case, 'outside', None))
    return r
def outside_values(m, model, rename=None, out=None):
    """what the world outside the program answers in a model: {call: text or None, list of numbers}"""
    def num(t):
        if isc(t): return t
        if rename: t = z3.substitute(t, *rename)
        return model.eval(t, model_completion=True).as_long()
    r = {}
    if '@!errno' in m.gobj and out is None: r['errno'] = [num(z3.BitVec('errno', 32))]
    for n, t in (m.outside if out is None else out).items():
        if isinstance(t, tuple): r[n] = bytes(map(num, t[1])).split(b'\0')[0] if num(t[0]) else None
        else: r[n] = [num(x) for x in t]
    return r
class Inputs(dict):
    """operand bytes, with the addresses of memory operands (modulo 2^ADDRBITS) and the answers from outside the program"""
    def __init__(self, d=()):
        dict.__init__(self, d); self.at = {}; self.outside = {}
def pack(fn, vals_):
    out = {}
    for i, (t, k, _) in enumerate(fn['params']):
        if t == 'int': continue
        ty = T(t)
        n = mem_elems(fn, i) if k != 'val' else ty.lanes
        out[i] = b''.join((vals_.get((i, j), 0) & M(ty.w)).to_bytes(ty.esz, 'little') for j in range(n))
    return out
def model_imm(case, model):
    if isinstance(case.imm, int) or case.imm is None: return case.imm
    x = model.eval(case.imm)
    return sgn(x.as_long(), 32) if z3.is_bv_value(x) else None

SPECIALS32 = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1, 0x80000001,
              0x7f7fffff, 0xff7fffff, 0x00800000, 0x4f000000, 0xcf000000, 0x4f800000, 0x3f000000, 0x3fc00000, 0x40200000,
              0x3f800001, 0x34000000, 0xb4000000, 0x7e800000, 0x7e7fffff, 0x00200000, 0x00400000, 0x007fffff, 0x40490fdb]
def specials(ty, rnd):
    w = ty.w
    if ty.kind == 'f':
        if w == 32:
            l = list(SPECIALS32)
        else:
            l = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
                 0x7ff8000000000000, 0x7ff0000000000001, 1, 0x7fefffffffffffff, 0x0010000000000000, 0x3fe0000000000000,
                 0x3ff0000000000001]
        return rnd.choice(l + [rnd.getrandbits(w)] * 12)
    l = [0, 1, M(w), 1 << (w - 1), M(w - 1), (1 << (w // 2)) - 1, 1 << (w // 2), 2, w - 1, M(w) - 1]
    return rnd.choice(l + [rnd.getrandbits(w)] * 10 + [rnd.getrandbits(max(1, w // 2))] * 3)

def random_inputs(fn, rnd):
    out = {}
    for i, (t, k, _) in enumerate(fn['params']):
        if t == 'int': continue
        ty = T(t)
        n = mem_elems(fn, i) if k != 'val' else ty.lanes
        out[i] = b''.join(specials(ty, rnd).to_bytes(ty.esz, 'little') for _ in range(n))
    return out

def concrete_oracle(fn, inputs, imm):
    """oracle on concrete inputs -> (expected return [(bits|None for NaN)], {param: [...]})"""
    args = []
    for i, (t, k, _) in enumerate(fn['params']):
        if t == 'int': continue
        ty = T(t)
        b = inputs[i]
        ls = []
        for j in range(len(b) // ty.esz):
            v = int.from_bytes(b[j * ty.esz:(j + 1) * ty.esz], 'little')
            ls.append(F(ty.w, bits=v) if ty.kind == 'f' else v)
        args.append(ls)
    o = spec.oracle(fn, args, imm)
    def conc(x, mode):
        if isinstance(x, F):
            if x.hasbits and x.conc:
                if mode == 'fp' and nb(z3.simplify(z3.fpIsNaN(x.fp))) is True: return None
                return x.bits
            c = fpconst(x.fp)
            return None if c[1] else c[0]
        x = mat(x)
        if not isc(x): x = z3.simplify(x).as_long()
        return x
    return ([conc(x, o.mode) for x in o.ret] if o.ret is not None else None,
            {p: [conc(x, o.mode) for x in l] for p, l in o.mem.items()}, o)

def legal_imms(fn):
    r = spec.imm_range(fn)
    return [None] if r is None else list(range(r[0], r[1] + 1))
