"""Per-function checks.  Each returns a list of Finding dicts (confirmed) and records statistics."""
import os, random, time, traceback, z3, hashlib
from . import ir, symex, spec, harness, replay, engine, vals as V
from .engine import *

class Env:
    """everything a worker needs"""
    def __init__(self, mod, prop, tier, seed, d, so=None, badsig=None, undefined=()):
        self.mod, self.prop, self.tier, self.seed, self.d = mod, prop, tier, seed, d
        self.so, self.badsig, self.undefined = so, badsig or {}, undefined
        self.outdir = os.path.join(os.path.dirname(harness.HERE), 'evidence', 'replay')
        self.native = None
        self.modes = None      # the ways to build a replay, when the property is about one
    def nat(self):
        if self.native is None: self.native = harness.Native(self.so)
        return self.native

class Result:
    def __init__(self, name):
        self.name = name
        self.violations = []      # dict(kind, detail, replay)
        self.undecided = []       # strings
        self.samples = []
        self.stats = Stats()

def fail(res, env, fn, kind, detail, path):
    res.violations.append(dict(kind=kind, detail=detail, replay=path, fn=fn['name']))

def write_replay(env, fn, kind, text, suffix='.cpp'):
    os.makedirs(env.outdir, exist_ok=True)
    p = os.path.join(env.outdir, '%s_%s_%s%s' % (env.prop, fn['name'], kind.replace('-', '_'), suffix))
    open(p, 'w').write(text)
    return p

CONFIRM = {'mismatch': ('plain', 'pattern', 'zero', 'O0'), 'abort': ('plain',), 'oob-read': ('asan', 'guardhi', 'guardlo', 'ubsan', 'objsize'),
           'oob-write': ('plain', 'asan', 'guardhi', 'guardlo', 'ubsan', 'objsize'), 'unreachable': ('ubsan', 'plain'), 'hang': ('plain',),
           'uninit': ('pattern', 'zero', 'msan'), 'illegal': ('plain',),
           'signed-overflow': ('ubsan',), 'shift-range': ('ubsan',), 'float-cast': ('ubsan',), 'div-zero': ('ubsan', 'plain'),
           'misaligned': ('align', 'ubsan'), 'array-bounds': ('bounds', 'ubsan', 'asan'), 'io': ('plain',), 'errno': ('plain',), 'lanes': ('plain', 'pattern', 'zero', 'O0'), 'leak': ('plain', 'O0'), 'race': ('tsan', 'plain'), 'repeat': ('plain',), 'outside': ('plain',), 'history': ('plain',), 'uninit-branch': ('msan', 'pattern', 'zero')}
for _k in ('round-down', 'round-up', 'round-zero'): CONFIRM[_k] = ('plain', 'O0')
for _k in ('before-main', 'after-main'): CONFIRM[_k] = ('plain', 'O0', 'asan')
ROUND_KIND = {0x400: 'round-down', 0x800: 'round-up', 0xc00: 'round-zero'}

def confirm(env, fn, kind, calls, note, timeout=60):
    """-> (path, output) if the real code shows the violation on these inputs"""
    if kind == 'mismatch' and engine.RM[0]: kind = ROUND_KIND[engine.RM[0]]
    src = replay.program(calls, note, kind if kind in replay.VARIANTS else None)
    p = write_replay(env, fn, kind, src)
    for mode in env.modes or CONFIRM[kind]:
        rc, out = replay.run(p, mode, env.d, timeout)
        if rc is None: continue
        if rc == 'build':
            continue
        if rc != 0:
            if kind == 'illegal' and rc == -6: continue      # refused, as it must
            with open(p, 'a') as f:
                f.write('\n// reproduced with: %s\n' % ' '.join(replay.MODES[mode]))
                for l in out.strip().split('\n')[:12]: f.write('//   %s\n' % l)
            return p, '%s [%s]' % ((out.strip().split('\n') or [''])[0][:200], mode)
    os.unlink(p)
    return None, ''

def expected_call(fn, inputs, imm, **kw):
    e, mem, _ = concrete_oracle(fn, inputs, imm)
    return dict(fn=fn, imm=imm, inputs=inputs, expect=e, mem=mem, **kw)

def new_case(env, fn, imm, **kw):
    V.reset()
    return Case(env.mod, fn, imm, **kw)

def account(res, m):
    d = res.stats.d
    d['states'] += m.states; d['transitions'] += m.steps; d['branches'] += m.nbranch; d['merges'] += m.merges
    d['feas'] += m.solver_calls; d['solver_time'] += m.solver_time; d['cases'] += 1
    for k, v in m.funcs_run.items():
        if not k.startswith('@nsv'): res.stats.funcs[k] = v
    for k, v in m.externs.items(): res.stats.externs[k] = res.stats.externs.get(k, 0) + v

def unresolved(env, res, fn, sym, why):
    text = ('%s cannot be called as documented: %s\n' % (fn['name'], why))
    prog = ('// %s\n// build: g++ -std=gnu++11 -I/repo THIS.cpp %s   (fails to compile or link = property broken)\n'
            '#include "neon_sim.h"\n%s\nint main() { return 0; }\n' % (text.replace('\n', ' '), harness.srcs_text(), harness.wrapper(fn)[0]))
    p = write_replay(env, fn, 'unresolved', prog)
    import subprocess
    exe = os.path.join(env.d, 'u%d' % os.getpid())
    r = subprocess.run(['g++', '-std=gnu++11', '-w'] + harness.incs() + [p] + harness.sources() + ['-o', exe],
                       capture_output=True, text=True)
    if r.returncode:
        fail(res, env, fn, 'unresolved', text.strip(), p)
    else:
        os.unlink(p); os.unlink(exe)
        res.undecided.append('%s: symbol %s not modelled' % (fn['name'], sym))

def solve_diffs(res, solver, side, pc, diffs):
    """diffs: list of (label, term); -> ('unsat'|'sat'|'unknown', model, label)"""
    live = []
    base = conj(list(pc))
    for lab, t in diffs:
        if t is False: continue
        g = z3.simplify(band1(base, t)) if not isinstance(band1(base, t), bool) else z3.BoolVal(band1(base, t))
        if z3.is_false(g): continue
        live.append((lab, g))
    if not live:
        r, m = solver.check(False)
        return 'unsat', None, None
    if len(live) <= 4 or not any(has_fp(t) for _, t in live):
        r, m = solver.check(z3.Or([t for _, t in live]) if len(live) > 1 else live[0][1], side, timeout=5000 if len(live) > 1 else None)
        if r != 'unknown':
            lab = None
            if r == 'sat':
                for l, t in live:
                    if z3.is_true(m.eval(t, model_completion=True)): lab = l; break
            return r, m, lab
    unknown = None
    seen = {}
    for lab, t in live:
        if not side:
            t2, inv = canon(t)
            k = t2.get_id()
            if seen.get(k) == 'unsat': continue
        else: k = None
        r, m = solver.check(t, side)
        if k is not None: seen[k] = r
        if r == 'sat': return r, m, lab
        if r == 'unknown': unknown = lab
    return ('unknown', None, unknown) if unknown is not None else ('unsat', None, None)

def canon(t):
    """rename free constants in order of first occurrence"""
    order, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: order.append(x)
        else: stack.extend(reversed(x.children()))
    sub_ = []
    for n, x in enumerate(order):
        y = z3.BitVec('c!%d' % n, x.size()) if z3.is_bv(x) else z3.Bool('c!%d' % n)
        sub_.append((x, y))
    r = z3.substitute(t, *sub_) if sub_ else t
    V._keep.append(r)
    return r, sub_

def search_concrete(env, fn, imm, rnd, n):
    """differential search on the native library: used only to FIND a counterexample where the
    solver could not decide, never to conclude that the property holds"""
    nat = env.nat()
    for _ in range(n):
        inp = random_inputs(fn, rnd)
        e, mem, _o = concrete_oracle(fn, inp, imm)
        r = nat.call(fn, [inp[i] for i in sorted(inp)], imm)
        if r[0] == 'died' or r[0] == 'timeout': return inp
        if r[0] != 'ok': return None
        if not native_ok(fn, r, e, mem, inp): return inp
    return None

def native_ok(fn, r, e, mem, inp):
    def ok(got, want, ty):
        for j, wv in enumerate(want):
            g = int.from_bytes(got[j * ty.esz:(j + 1) * ty.esz], 'little')
            if wv is None:
                if not isnan_bits(g, ty.w): return False
            elif g != wv: return False
        return True
    if r[3]: return False
    if e is not None and not ok(r[1], e, T(fn['ret'])): return False
    idx = sorted(inp)
    for p, want in mem.items():
        if not ok(r[2][idx.index(p)], want, T(fn['params'][p][0])): return False
    return True
def isnan_bits(g, w):
    return (g & M(31)) > 0x7f800000 if w == 32 else (g & M(63)) > 0x7ff0000000000000

# ================================================================== functional
def functional(env, fn, imms=None):
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        unresolved(env, res, fn, fn['name'], env.badsig[fn['name']])
        return res
    rnd = random.Random('%s/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    for imm in (imms if imms is not None else legal_imms(fn)):
        try:
            one_functional(env, res, solver, fn, imm, rnd)
        except Unresolved as e:
            unresolved(env, res, fn, e.name, 'unresolved symbol ' + e.name)
            return res
        except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
            undecided(env, res, fn, imm, rnd, '%s: %s' % (type(e).__name__, e))
        if len(res.violations) >= 2: break
    if not res.violations: validate(env, res, fn, rnd, 2 if env.tier == 'quick' else 24)
    return res

def undecided(env, res, fn, imm, rnd, why):
    inp = search_concrete(env, fn, imm, rnd, 400 if env.tier == 'quick' else 4000)
    if inp is not None:
        kind = 'mismatch'
        c = expected_call(fn, inp, imm)
        p, out = confirm(env, fn, kind, [c], 'property %s: %s%s\n(found by search: the encoding did not decide: %s)' % (
            env.prop, fn['name'], '' if imm is None else ' imm=%s' % imm, why), 30)
        if p:
            fail(res, env, fn, kind, out, p)
            return
    res.undecided.append('%s%s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, why))

def one_functional(env, res, solver, fn, imm, rnd):
    case = new_case(env, fn, imm)
    m = case.m
    try:
        case.run()
    finally:
        account(res, m)
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    # 1. aborts on legal arguments
    for kind, pc, info in m.exits:
        if kind == 'unreachable': continue
        r, mod_ = solver.check(conj(pc), axioms)
        if r == 'sat':
            if report(env, res, fn, imm, 'abort', case, mod_, 'a legal call does not return (%s)' % kind): return
        elif r == 'unknown': undecided(env, res, fn, imm, rnd, 'abort reachability'); return
    # 2. memory safety
    obs = [o for o in m.obls if o.kind in SAFETY]
    if check_obls(env, res, solver, fn, imm, case, obs): return
    if not case.returned:
        if not res.violations: undecided(env, res, fn, imm, rnd, 'no path returns')
        return
    # 3. the result
    o = spec.oracle(fn, case.lanes, imm)
    diffs = []
    try:
        if o.ret is not None:
            got = case.ret_lanes()
            assert len(got) == len(o.ret), 'oracle shape of ' + fn['name']
            for j, (x, y) in enumerate(zip(got, o.ret)):
                diffs.append(('result lane %d' % j, lane_diff(x, y, case.R.w, o.mode)))
        for i, (t, k, nm) in enumerate(fn['params']):
            if t == 'int' or k == 'val': continue
            got = case.mem_lanes(i)
            want = o.mem.get(i) or case.lanes[i]
            ty = T(t)
            for j, (x, y) in enumerate(zip(got, want)):
                diffs.append(('memory element %d' % j, lane_diff(x, y, ty.w, 'bits')))
    except Unsupported:
        raise
    side = list(axioms)
    r, mod_, lab = solve_diffs(res, solver, side, case.st.pc, diffs)
    if r == 'unsat':
        # vacuity witness: the assertion is reachable
        rr, _ = solver.check(conj(case.st.pc), side)
        if rr == 'sat': res.stats.d['witnesses'] += 1
        else: res.undecided.append(tag + ': vacuous')
        if m.greads - {'@!fenv', '@!errno'} and env.prop != 'N22':
            stateful(env, res, solver, fn, imm, rnd)
        if len(res.samples) < 1:
            res.samples.append('%s: %d lanes equal to the oracle for every operand value (unsat)' % (tag, len(diffs)))
        return
    if r == 'unknown':
        undecided(env, res, fn, imm, rnd, 'solver timeout on ' + str(lab))
        return
    # candidate(s): try several models, the first may rely on unspecified bits
    neg = []
    for attempt in range(6):
        if report(env, res, fn, imm, 'mismatch', case, mod_, lab): return
        blk = z3.Or([v != mod_.eval(v, model_completion=True) for _, _, v in case.inputs]) if case.inputs else z3.BoolVal(False)
        neg.append(blk)
        r, mod_, lab = solve_diffs(res, solver, side, list(case.st.pc) + neg, diffs)
        if r != 'sat': break
    undecided(env, res, fn, imm, rnd, 'counterexample does not reproduce natively (%s)' % lab)

def report(env, res, fn, imm, kind, case, model, what):
    inp = model_inputs(case, model)
    c = expected_call(fn, inp, imm)
    note = 'property %s: %s%s\nsolver counterexample: %s' % (env.prop, fn['name'], '' if imm is None else ' immediate %s' % imm, what)
    p, out = confirm(env, fn, kind, [c], note)
    if p:
        fail(res, env, fn, kind, '%s%s: %s; %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, what, out), p)
        return True
    return False

def check_obls(env, res, solver, fn, imm, case, obs):
    """-> True when a confirmed violation was recorded"""
    groups = {}
    for o in obs:
        groups.setdefault((o.kind, o.func, o.line), []).append(o)
    for (kind, f, line), l in groups.items():
        terms = [o.term() for o in l]
        t = terms[0] if len(terms) == 1 else z3.Or([zb(x) for x in terms])
        r, mod_ = solver.check(t, list(axioms))
        if r == 'unsat': continue
        what = '%s at line %s (%s)' % (kind, line, l[0].info)
        if r == 'unknown':
            res.undecided.append('%s: %s' % (fn['name'], what)); continue
        if report(env, res, fn, imm, kind, case, mod_, what): return True
        res.undecided.append('%s: %s not reproduced' % (fn['name'], what))
    return False

def validate(env, res, fn, rnd, n):
    """push concrete vectors through the encoding and through the native library"""
    if env.so is None: return
    imms = legal_imms(fn)
    for _ in range(n):
        imm = rnd.choice(imms)
        inp = random_inputs(fn, rnd)
        try:
            V.reset()
            c = Case(env.mod, fn, imm, conc=inp).run()
        except (Unsupported, Unresolved, NotImplementedError, StepLimit): return
        if not c.returned: return
        r = env.nat().call(fn, [inp[i] for i in sorted(inp)], imm)
        if r[0] != 'ok': 
            res.undecided.append('%s: native call %s during validation' % (fn['name'], r[0])); return
        def conc(x):
            if isinstance(x, F):
                if x.conc: return x.bits
                k = fpconst(x.fp)
                if k is None: return 'sym'
                return None if k[1] else k[0]
            x = mat(x)
            if isc(x): return x
            x = z3.simplify(x)
            return x.as_long() if z3.is_bv_value(x) else 'sym'
        got = [conc(x) for x in c.ret_lanes()] if fn['ret'] != 'void' else None
        mem = {}
        for i, (t, k, _) in enumerate(fn['params']):
            if t != 'int' and k != 'val': mem[i] = [conc(x) for x in c.mem_lanes(i)]
        if 'sym' in (got or []) or any('sym' in l for l in mem.values()): continue
        # NaN payloads are not modelled
        ok = native_nanok(fn, r, got, mem, inp)
        if not ok:
            # either the code's meaning is not unique (undefined behaviour) or the encoding is wrong
            if env.prop not in ('N20', 'N21', 'N22'):
                p, out = confirm(env, fn, 'mismatch', [expected_call(fn, inp, imm)], 'property %s: %s\n(found while validating the encoding)' % (env.prop, fn['name']), 30)
                if p:
                    fail(res, env, fn, 'mismatch', '%s: %s' % (fn['name'], out), p)
                    return
            res.undecided.append('encoding of %s disagrees with the native library on %r imm=%r: %r vs %r' % (
                fn['name'], {k: v.hex() for k, v in inp.items()}, imm, got, r[1].hex()))
            return
        res.stats.d['traces'] += 1

def native_nanok(fn, r, got, mem, inp):
    def ok(raw, want, ty):
        for j, wv in enumerate(want):
            g = int.from_bytes(raw[j * ty.esz:(j + 1) * ty.esz], 'little')
            if wv is None or (ty.kind == 'f' and isnan_bits(wv, ty.w)):
                if not isnan_bits(g, ty.w): return False
            elif g != wv: return False
        return True
    if got is not None and not ok(r[1], got, T(fn['ret'])): return False
    idx = sorted(inp)
    return all(ok(r[2][idx.index(p)], l, T(fn['params'][p][0])) for p, l in mem.items())

# ================================================================== hidden state
def stateful(env, res, solver, fn, imm, rnd, others=(), kmax=None):
    """the call reads mutable static storage.  First ask for an arbitrary content of that storage;
    if the oracle still holds the storage is irrelevant.  Otherwise unroll call histories from the
    initial state (bounded) and look for a concrete one that breaks the oracle."""
    V.reset()
    m = Machine(env.mod, globals_mode='havoc')
    case = Case(env.mod, fn, imm, machine=m)
    try: case.run()
    except Unsupported as e:
        if 'call_once' not in str(e): raise
        case.returned = False
    account(res, m)
    bad = [o.term() for o in m.obls if o.kind in SAFETY] + [conj(pc) for k_, pc, i_ in m.exits if k_ != 'unreachable']
    # a function-local static initialised at run time keeps what the first call put there: that takes (at least) two calls
    lazy = any(g.startswith('@_ZGV') for g in m.gobj)
    if lazy and imm is not None:
        for first in sorted({*spec.imm_range(fn), imm, *(rnd.randint(*spec.imm_range(fn)) for _ in range(2))}):
            if history(env, res, solver, [fn, fn], imm, rnd, first) is True: return
        lazy = False
    if not lazy and case.returned and (not bad or solver.check(z3.Or([zb(x) for x in bad]), list(axioms))[0] == 'unsat'):
        o = spec.oracle(fn, case.lanes, imm)
        d = outdiffs(case, fn, o)
        r, mod_, lab = solve_diffs(res, solver, list(axioms), case.st.pc, d)
        if r == 'unsat':
            res.samples.append('%s reads static storage but its result does not depend on it (unsat over arbitrary contents)' % fn['name'])
            return
    k = kmax or (4 if env.tier == 'quick' else 8)
    hists = [[fn, fn]] + [[o_, fn] for o_ in others] + [[fn] * n for n in range(3, k + 1)] + [[o_, fn, fn] for o_ in others]
    closed = set()
    for h in hists:
        r = history(env, res, solver, h, imm, rnd)
        if r == 'closed' and (len(h) == 2 or h[0] is not fn): closed.add(h[0]['name'])
        if r == 'closed' and (not others or closed >= {fn['name'], *(o_['name'] for o_ in others)}):
            res.samples.append('%s reads static storage that only the first %d call(s) write; all later calls start from the same content' % (fn['name'], len(h) - 1))
            return
        if r and r != 'closed': return
    # counters with a large threshold: confirm the havoc counterexample by repeating the call natively
    for times in (10, 1000, 100000, 5000000):
        inp = random_inputs(fn, rnd)
        r = env.nat().call(fn, [inp[i] for i in sorted(inp)], imm, times=times, timeout=60)
        e, mem, _ = concrete_oracle(fn, inp, imm)
        if r[0] != 'ok' or not native_ok(fn, r, e, mem if fn['ret'] != 'void' else mem, inp):
            c = expected_call(fn, inp, imm, times=times, round=engine.RM[0])
            p, out = confirm(env, fn, 'history', [c], 'property %s: %s called %d times with the same arguments' % (env.prop, fn['name'], times))
            if p:
                fail(res, env, fn, 'history', '%s: result changes after %d identical calls; %s' % (fn['name'], times, out), p)
                return
    res.undecided.append('%s: depends on mutable static storage for some content of it; no breaking history of up to %d calls' % (fn['name'], k))

def outdiffs(case, fn, o):
    diffs = []
    if o.ret is not None:
        for j, (x, y) in enumerate(zip(case.ret_lanes(), o.ret)):
            diffs.append(('result lane %d' % j, lane_diff(x, y, case.R.w, o.mode)))
    for i, (t, k, nm) in enumerate(fn['params']):
        if t == 'int' or k == 'val': continue
        want = o.mem.get(i) or case.lanes[i]
        for j, (x, y) in enumerate(zip(case.mem_lanes(i), want)):
            diffs.append(('memory element %d' % j, lane_diff(x, y, T(t).w, 'bits')))
    return diffs

def history(env, res, solver, fns, imm, rnd, first=None):
    """consecutive calls with independent symbolic operands from the initial program state; the last
    call's result is compared with the oracle (the earlier ones are other histories' last calls)"""
    V.reset()
    m = Machine(env.mod, max_steps=2000000)
    st = m.boot(State()) if env.mod.ctors() else State()
    cases = []
    for n, f in enumerate(fns):
        r = spec.imm_range(f)
        im = first if n == 0 and first is not None else imm if n == len(fns) - 1 and r is not None else (None if r is None else rnd.randint(*r))
        # another rounding mode (N29) is set after the earlier calls
        if engine.RM[0]: m.set_rm(st, engine.RM[0] if n == len(fns) - 1 else 0)
        c = Case(env.mod, f, im, machine=m, state=st, pre='c%d.' % n)
        m.state_writes, m.outside = [], {}
        c.run()
        if n or m.outside: c.outside = m.outside
        if not c.returned: return False
        st = c.st
        cases.append(c)
    account(res, m)
    last = cases[-1]
    o = spec.oracle(fns[-1], last.lanes, last.imm)
    r, mod_, lab = solve_diffs(res, solver, list(axioms), st.pc, outdiffs(last, fns[-1], o))
    if r == 'unsat' and all(spec.imm_range(f) is None for f in fns):
        # a call that writes nothing leaves every later one where it was
        w = [conj(list(pc) + [c]) for pc, c, _ in m.state_writes] + [o_.term() for o_ in m.obls if o_.kind in SAFETY] + [conj(pc) for k_, pc, i_ in m.exits if k_ != 'unreachable']
        if not w or solver.check(z3.Or([zb(x) for x in w]), list(axioms))[0] == 'unsat': return 'closed'
    if r != 'sat': return False
    calls = []
    for c in cases:
        inp = model_inputs(c, mod_)
        mode = spec.MODE[0]
        if c is not last: spec.MODE[0] = z3.RNE()
        calls.append(expected_call(c.fn, inp, c.imm, round=engine.RM[0] if c is last else 0))
        spec.MODE[0] = mode
    p, out = confirm(env, fns[-1], 'history', calls, 'property %s: history %s' % (env.prop, ' ; '.join(f['name'] for f in fns)))
    if p:
        fail(res, env, fns[-1], 'history', '%s after %d earlier call(s): %s' % (fns[-1]['name'], len(fns) - 1, out), p)
        return True
    return False
