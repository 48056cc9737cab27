"""Property drivers on top of checkfn: undefined behaviour (N20), illegal immediates (N21), purity (N22)."""
import os, random, struct, z3
from . import ir, spec, harness, replay, engine, symex, checkfn, vals as V
from .engine import *
from .checkfn import *
from .symex import free_vars

# ================================================================== N20
def ub(env, fn):
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']]))   # reported by the functional property
        return res
    rnd = random.Random('%s/ub/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    for imm in legal_imms(fn):
        try: one_ub(env, res, solver, fn, imm, rnd)
        except Unresolved as e:
            res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name)); return res
        except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
            sanitize(env, res, fn, imm, rnd, '%s: %s' % (type(e).__name__, e))
        if res.violations: break
    if not res.violations: validate(env, res, fn, rnd, 1 if env.tier == 'quick' else 8)
    return res

def sanitize(env, res, fn, imm, rnd, why):
    """not encodable: look for a counterexample only"""
    inp = None
    for _ in range(40):
        i_ = random_inputs(fn, rnd)
        r = env.nat().call(fn, [i_[i] for i in sorted(i_)], imm)
        if r[0] in ('died', 'timeout') or (r[0] == 'ok' and r[3]): inp = i_; break
    if inp is not None:
        p, out = confirm(env, fn, 'oob-write', [expected_call(fn, inp, imm)], 'property %s: %s\n(found by search: %s)' % (env.prop, fn['name'], why), 30)
        if p:
            fail(res, env, fn, 'oob-write', out, p); return
    res.undecided.append('%s%s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, why))

def one_ub(env, res, solver, fn, imm, rnd):
    case = new_case(env, fn, imm)
    m = case.m
    try: case.run()
    finally: account(res, m)
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    for kind, pc, info in m.exits:
        if kind == 'unreachable': continue
        r, mod_ = solver.check(conj(pc), axioms)
        if r == 'sat':
            if report(env, res, fn, imm, 'abort', case, mod_, 'a legal call does not return (%s)' % kind): return
            res.undecided.append(tag + ': abort not reproduced')
        elif r == 'unknown': res.undecided.append(tag + ': abort reachability')
    if check_obls(env, res, solver, fn, imm, case, m.obls): return
    if not case.returned: return
    # the result is a function of the operands: no uninitialised byte reaches it
    out = []
    if fn['ret'] != 'void':
        out += [('result lane %d' % j, x, case.R.w) for j, x in enumerate(case.ret_lanes())]
    for i, (t, k, nm) in enumerate(fn['params']):
        if t != 'int' and k != 'val':
            out += [('memory element %d' % j, x, T(t).w) for j, x in enumerate(case.mem_lanes(i))]
    diffs = []
    for lab, x, w in out:
        isf = isinstance(x, F) and not x.hasbits
        t = x.fp if isf else (x.bits if isinstance(x, F) else mat(x))
        if isc(t): continue
        us = [u for u in free_vars(t) if u in m.undefs]
        if not us: continue
        sub_ = [(m.undefs[u][0], z3.BitVec(u + "'", m.undefs[u][0].size())) for u in us]
        t2 = z3.substitute(t, *sub_)
        diffs.append((lab + ': ' + str(m.undefs[us[0]][1]), z3.Not(t == t2)))
    r, mod_, lab = solve_diffs(res, solver, list(axioms), case.st.pc, diffs)
    if r == 'sat':
        if not report(env, res, fn, imm, 'uninit', case, mod_, 'the result depends on an uninitialised value (%s)' % lab):
            res.undecided.append(tag + ': uninitialised result not reproduced (%s)' % lab)
        return
    if r == 'unknown': res.undecided.append(tag + ': uninitialised result, timeout'); return
    if not res.samples:
        res.samples.append('%s: %d obligations (memory, overflow, shift, cast, division, initialisation), no abort, every path returns' % (tag, len(m.obls) + len(out)))
    rr, _ = solver.check(conj(case.st.pc), list(axioms))
    if rr == 'sat': res.stats.d['witnesses'] += 1

# ================================================================== N21
def illegal_imm(env, fn):
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    rnd = random.Random('%s/imm/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    lo, hi = spec.imm_range(fn)
    try:
        # illegal side: one run with a symbolic 32-bit immediate constrained to be illegal
        V.reset()
        n = z3.BitVec('imm', 32)
        m = Machine(env.mod)
        case = Case(env.mod, fn, n, machine=m)
        ill = spec.illegal(fn, n)
        case.st.pc.append(ill)
        m.assumes.append(ill)
        try: case.run()
        finally: account(res, m)
        bad = []
        if case.returned: bad.append(('returned', conj(case.st.pc)))
        for o in m.obls:
            if o.kind in SAFETY: bad.append((o.kind, o.term()))
        for what, t in bad:
            r, mod_ = solver.check(t, list(axioms))
            if r == 'unsat': continue
            if r == 'sat':
                v = mod_.eval(n, model_completion=True).as_long()
                if refuse(env, res, fn, sgn(v, 32), model_inputs(case, mod_), what): return res
                res.undecided.append('%s: %s for illegal immediate %d not reproduced' % (fn['name'], what, sgn(v, 32)))
            else: res.undecided.append('%s: timeout (%s)' % (fn['name'], what))
        aborts = [conj(pc) for k, pc, i in m.exits if k != 'unreachable']
        r, mod_ = solver.check(z3.Or([zb(x) for x in aborts]) if aborts else False, list(axioms))
        if r == 'sat': res.stats.d['witnesses'] += 1
        # the whole illegal range ends in abort
        if not res.undecided:
            r, mod_ = solver.check(z3.And(ill, z3.Not(z3.Or([zb(x) for x in aborts]))) if aborts else zb(ill), list(axioms))
            if r == 'sat':
                v = mod_.eval(n, model_completion=True).as_long()
                if refuse(env, res, fn, sgn(v, 32), model_inputs(case, mod_), 'not refused'): return res
                res.undecided.append('%s: immediate %d is not refused in the encoding' % (fn['name'], sgn(v, 32)))
        if not res.undecided:
            res.samples.append('%s: every n outside [%d, %d] reaches abort before any access outside the operands' % (fn['name'], lo, hi))
    except Unresolved as e:
        res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name)); return res
    except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
        up = hi + (2 if spec.split(fn['name'])[0] == 'vshll_n' else 1)
        for v in [lo - 1, up, up + 1, 2 * hi + 2, 255, 256, 256 + lo, 2 ** 31 - 1, -2 ** 31, 2 ** 16 + lo]:
            if lo <= v < up: continue
            if refuse(env, res, fn, v, random_inputs(fn, rnd), '%s: %s' % (type(e).__name__, e)): return res
        res.undecided.append('%s: %s: %s' % (fn['name'], type(e).__name__, e))
    # legal side: never refused
    try:
        V.reset()
        n = z3.BitVec('imm', 32)
        m = Machine(env.mod)
        case = Case(env.mod, fn, n, machine=m)
        leg = z3.And(n >= lo, n <= hi)
        case.st.pc.append(leg); m.assumes.append(leg)
        try: case.run()
        finally: account(res, m)
        for k, pc, i in m.exits:
            if k == 'unreachable': continue
            r, mod_ = solver.check(conj(pc), list(axioms))
            if r == 'sat':
                v = mod_.eval(n, model_completion=True).as_long()
                c = model_inputs(case, mod_)
                if abort_legal(env, res, fn, sgn(v, 32), c): return res
                res.undecided.append('%s: legal immediate %d refused in the encoding only' % (fn['name'], v))
            elif r == 'unknown': res.undecided.append('%s: timeout' % fn['name'])
        if case.returned:
            r, _ = solver.check(conj(case.st.pc), list(axioms))
            if r == 'sat': res.stats.d['witnesses'] += 1
        else:
            if abort_legal(env, res, fn, lo, random_inputs(fn, rnd)): return res
    except Unresolved: pass
    except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
        for v in range(lo, hi + 1):
            if abort_legal(env, res, fn, v, random_inputs(fn, rnd), True): return res
    validate(env, res, fn, rnd, 1 if env.tier == 'quick' else 8)
    return res

def abort_legal(env, res, fn, v, inp, quick=False):
    if quick:
        r = env.nat().call(fn, [inp[i] for i in sorted(inp)], v)
        if r[0] != 'died': return False
    p, out = confirm(env, fn, 'abort', [dict(fn=fn, imm=v, inputs=inp)], 'property %s: %s refuses the legal immediate %d' % (env.prop, fn['name'], v))
    if p:
        fail(res, env, fn, 'abort', '%s: legal immediate %d refused; %s' % (fn['name'], v, out), p)
        return True
    return False

def refuse(env, res, fn, v, inp, what):
    p, out = confirm(env, fn, 'illegal', [dict(fn=fn, imm=v, inputs=inp, abort=True)],
                     'property %s: %s must not accept the immediate %d (%s)' % (env.prop, fn['name'], v, what), 20)
    if p:
        fail(res, env, fn, 'illegal', '%s: illegal immediate %d: %s; %s' % (fn['name'], v, what, out), p)
        return True
    return False

# ================================================================== N22
def purity(env, fn, others=()):
    """source operands unchanged; nothing written outside the destination; no result depends on
    storage that outlives a call"""
    res = Result(fn['name'])
    res.greads, res.gwrites = set(), set()
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    rnd = random.Random('%s/pure/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    for imm in legal_imms(fn):
        try:
            case = new_case(env, fn, imm)
            m = case.m
            try: case.run()
            finally: account(res, m)
            res.greads |= m.greads; res.gwrites |= m.gwrites
            if check_obls(env, res, solver, fn, imm, case, [o for o in m.obls if o.kind == 'oob-write']): return res
            if not case.returned: continue
            diffs = []
            for i, (t, k, nm) in enumerate(fn['params']):
                if t == 'int' or k == 'ptr': continue
                for j, (x, y) in enumerate(zip(case.mem_lanes(i), case.lanes[i])):
                    diffs.append(('source operand %d element %d' % (i, j), lane_diff(x, y, T(t).w, 'bits')))
            r, mod_, lab = solve_diffs(res, solver, list(axioms), case.st.pc, diffs)
            if r == 'sat':
                if report(env, res, fn, imm, 'mismatch', case, mod_, lab + ' modified'): return res
                res.undecided.append('%s: %s modified, not reproduced' % (fn['name'], lab))
            elif r == 'unknown': res.undecided.append('%s: timeout' % fn['name'])
            else:
                rr, _ = solver.check(conj(case.st.pc), list(axioms))
                if rr == 'sat': res.stats.d['witnesses'] += 1
            side_effects(env, res, solver, fn, imm, case, rnd)
            if res.violations: return res
            if '@!fenv' in m.gwrites:
                fp_env(env, res, solver, fn, imm, case, rnd)
                if res.violations: return res
            if m.greads - PSEUDO:
                stateful(env, res, solver, fn, imm, rnd, others)
                if res.violations: return res
                if imm is not None and res.undecided: break
        except Unresolved as e:
            res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name))
            res.opaque = True; return res
        except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
            res.undecided.append('%s%s: %s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, type(e).__name__, e))
            res.opaque = True
            break
    if not res.samples:
        res.samples.append('%s: sources unchanged for all values; mutable static storage read: %s, written: %s' % (
            fn['name'], sorted(res.greads) or 'none', sorted(res.gwrites) or 'none'))
    if not res.violations: validate(env, res, fn, rnd, 1 if env.tier == 'quick' else 8)
    return res

def side_effects(env, res, solver, fn, imm, case, rnd):
    """no output, no value from outside the program, no memory left allocated"""
    m, st = case.m, case.st
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    def ask(cond, kind, what):
        r, mod_ = solver.check(conj(list(st.pc) + [cond]), list(axioms))
        if r == 'unsat': return False
        if r == 'sat' and report(env, res, fn, imm, kind, case, mod_, what): return True
        res.undecided.append('%s: %s: %s' % (tag, what, 'timeout' if r == 'unknown' else 'not reproduced'))
        return False
    io = m.marked(st, '@!io')
    if not (isc(io) and io == 0) and ask(bnot1(eq(io, 0, 32)), 'io', 'a legal call writes output'): return
    live = m.marked(st, '@!heap')
    if '@!errno' in m.gobj:
        was, e = z3.BitVec('errno', 32), m.marked(st, '@!errno')
        if m.gobj['@!errno'] in st.mem and not (not isc(e) and e.eq(was)):
            if ask(bnot1(eq(e, was, 32)), 'errno', 'the call changes errno'): return
    if not (isc(live) and live == 0) and ask(bnot1(eq(live, 0, 32)), 'leak', 'memory is not freed'): return
    if '@!outside' in m.gobj or '@!errno' in m.gobj:
        out = [x.fp if isinstance(x, F) and not x.hasbits else x.bits if isinstance(x, F) else mat(x) for x in case.ret_lanes()] if fn['ret'] != 'void' else []
        for t in out:
            if isc(t): continue
            fv = free_vars(t)
            us = [(m.undefs[u][0], m.undefs[u][1]) for u in fv if u in m.undefs and 'value of' in str(m.undefs[u][1])]
            if 'errno' in fv: us.append((z3.BitVec('errno', 32), 'value of errno'))
            if not us: continue
            ren = [(v, z3.BitVec("%s'" % v, v.size())) for v, _ in us]
            t2 = z3.substitute(t, *ren)
            what = 'the result depends on the ' + str(us[0][1])
            r, mod_ = solver.check(conj(list(st.pc) + [z3.Not(t == t2)]), list(axioms))
            if r == 'unsat': continue
            if r == 'sat':
                c = expected_call(fn, model_inputs(case, mod_), imm)
                c['outside'] = [outside_values(m, mod_), outside_values(m, mod_, ren)]
                p, o = confirm(env, fn, 'outside', [c], 'property %s: %s\nsolver counterexample: %s' % (env.prop, tag, what))
                if p: fail(res, env, fn, 'outside', '%s: %s; %s' % (tag, what, o), p); return
            res.undecided.append('%s: %s: %s' % (tag, what, 'timeout' if r == 'unknown' else 'not reproduced'))

# ================================================================== N25
def threads(env, fn):
    """concurrent calls: an interleaving can only matter through a location two calls share.  Every
    unsynchronised write to static storage on a satisfiable path is a data race of the call with itself
    running in another thread; without one, calls share nothing they write and every schedule is
    equivalent to a sequential one"""
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    rnd = random.Random('%s/threads/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    shared = set()
    for imm in legal_imms(fn):
        try:
            case = new_case(env, fn, imm)
            m = case.m
            try: case.run()
            finally: account(res, m)
            shared |= set(x for x in m.gwrites if not x.startswith('@!'))
            # writes without synchronisation, and reads outside the lock of what is written under one
            bare = [x for x in m.bare_reads if x[2] in m.locked_writes]
            if bare and case.returned:
                # what only the first call writes is settled before the lock is given back: does a call after this one write it?
                m.state_writes, racy, m.racy = [], m.racy, []
                Case(env.mod, fn, imm, machine=m, state=case.st.fork(), pre='again.').run()
                m.racy = racy
                late = {}
                for pc, c, nm in m.state_writes: late.setdefault(nm, []).append(conj(list(pc) + [c]))
                bare = [x for x in bare if x[2] in late and solver.check(z3.Or([zb(y) for y in late[x[2]]]), list(axioms))[0] != 'unsat']
            acc = m.racy + bare
            t = [conj(list(pc) + [c]) for pc, c, *_ in acc]
            r, mod_ = solver.check(z3.Or([zb(x) for x in t]) if t else False, list(axioms))
            if r == 'sat':
                k = next(k for k, y in enumerate(t) if z3.is_true(mod_.eval(zb(y), model_completion=True)))
                w = acc[k]
                what = '%s static storage %s (line %s) that a concurrent call %s' % (('writes', w[2], w[3], 'also writes') if k < len(m.racy) else ('reads', w[2], w[3], 'writes'))
                if report(env, res, fn, imm, 'race', case, mod_, what): return res
                res.undecided.append('%s: %s, not reproduced' % (fn['name'], what))
            elif r == 'unknown': res.undecided.append('%s: timeout' % fn['name'])
            rr, _ = solver.check(conj(case.st.pc) if case.returned else False, list(axioms))
            if rr == 'sat': res.stats.d['witnesses'] += 1
            # the thread that calls makes no difference
            if set(m.outside) & {'pthread_self', 'gettid', 'sched_getcpu'}:
                stateful(env, res, solver, fn, imm, rnd)
                if res.violations: return res
        except Unresolved as e:
            res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name)); return res
        except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
            res.undecided.append('%s%s: %s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, type(e).__name__, e))
            if race_search(env, res, fn, imm, rnd): return res
            break
    if not res.samples:
        res.samples.append('%s: no unsynchronised write to storage shared between threads on any satisfiable path%s' % (
            fn['name'], '; written under synchronisation: %s' % sorted(shared) if shared else ''))
    return res

def race_search(env, res, fn, imm, rnd):
    inp = random_inputs(fn, rnd)
    p, out = confirm(env, fn, 'race', [expected_call(fn, inp, imm)], 'property %s: %s (found by search)' % (env.prop, fn['name']))
    if p: fail(res, env, fn, 'race', '%s: %s' % (fn['name'], out), p)
    return bool(p)

# ================================================================== N26
def independence(env, fn):
    """which operand elements a result lane may depend on is read off the architecture's statement (the
    oracle's terms); every other element is replaced by a fresh variable and the lane must not change.
    Lanes the architecture computes by the same function must be equal whenever their inputs are"""
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    rnd = random.Random('%s/indep/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    for imm in legal_imms(fn):
        try:
            if one_indep(env, res, solver, fn, imm, rnd): return res
        except Unresolved as e:
            res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name)); return res
        except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
            if indep_search(env, res, fn, imm, rnd): return res
            res.undecided.append('%s%s: %s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, type(e).__name__, e))
    if not res.violations: validate(env, res, fn, rnd, 1 if env.tier == 'quick' else 8)
    return res

def term_of(x):
    if isinstance(x, F): return x.bits if x.hasbits else x.fp
    return mat(x)
def sub_lane(x, w, pairs):
    t = term_of(x)
    if isc(t): return x
    t2 = z3.substitute(t, *pairs)
    if isinstance(x, F): return F(w, bits=t2) if x.hasbits else F(w, fp=t2)
    return t2

def out_lanes(case, fn, o):
    """[(label, where, implementation lane, oracle lane, width)], where = ('r'|param, element)"""
    l = []
    if o.ret is not None:
        for j, (x, y) in enumerate(zip(case.ret_lanes(), o.ret)): l.append(('result lane %d' % j, ('r', j), x, y, case.R.w))
    for i, want in o.mem.items():
        w = T(fn['params'][i][0]).w
        for j, (x, y) in enumerate(zip(case.mem_lanes(i), want)): l.append(('memory element %d' % j, (i, j), x, y, w))
    return l

def one_indep(env, res, solver, fn, imm, rnd):
    case = new_case(env, fn, imm)
    m = case.m
    try: case.run()
    finally: account(res, m)
    if not case.returned: return False
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    o = spec.oracle(fn, case.lanes, imm)
    var = {v.decl().name(): v for _, _, v in case.inputs}
    pos = {v.decl().name(): (i, j) for i, j, v in case.inputs}
    outs = out_lanes(case, fn, o)
    pc = list(case.st.pc)
    pcv = set().union(*[free_vars(c) for c in pc if not isc(c)]) if pc else set()
    # 1. foreign elements do not matter
    diffs, ren = [], {n: z3.BitVec(n + "'", v.size()) for n, v in var.items()}
    for lab, wh, x, y, w in outs:
        own = free_vars(term_of(y))
        foreign = [n for n in free_vars(term_of(x)) | pcv if n in var and n not in own]
        if not foreign: diffs.append((lab, wh, False, foreign)); continue
        pr = [(var[n], ren[n]) for n in foreign]
        d = lane_diff(x, sub_lane(x, w, pr), w, o.mode)
        pc2 = [z3.substitute(c, *pr) for c in pc if not isc(c)]
        diffs.append((lab, wh, band1(d, conj(pc2)) if pc2 else d, foreign))
    r, mod_, lab = solve_diffs(res, solver, list(axioms), pc, [(l, d) for l, _, d, _ in diffs])
    if r == 'sat':
        wh, foreign = next((wh, f) for l, wh, _, f in diffs if l == lab)
        def val(v):
            x = mod_.eval(v); return x.as_long() if z3.is_bv_value(x) else 0
        a = {pos[n]: val(v) for n, v in var.items()}
        b = dict(a)
        for n in foreign: b[pos[n]] = val(ren[n])
        if indep_hit(env, res, fn, imm, pack(fn, a), pack(fn, b), wh, wh, '%s depends on %s' % (lab, ', '.join('operand %d element %d' % pos[n] for n in foreign[:4])), o.mode): return True
        if indep_search(env, res, fn, imm, rnd): return True
        res.undecided.append('%s: %s, not reproduced' % (tag, lab)); return False
    if r == 'unknown':
        if indep_search(env, res, fn, imm, rnd): return True
        res.undecided.append('%s: dependence of %s, timeout' % (tag, lab)); return False
    # 2. lanes with the same architectural function compute the same function
    groups, same, nsame = {}, [], 0
    for lab, wh, x, y, w in outs:
        t = term_of(y)
        if isc(t): continue
        names = sorted(free_vars(t), key=lambda n: pos.get(n, (-1, 0)))
        if not names or any(n not in var for n in names): continue
        key = (w, tuple(pos[n][0] for n in names))
        g = None
        for q in groups.setdefault(key, []):
            pr = [(var[n], var[n0]) for n, n0 in zip(names, q[3]) if n != n0]
            if z3.simplify(z3.substitute(t, *pr) if pr else t).eq(q[4]): g = q; break
        if g is None:
            if len(groups[key]) < 8: groups[key].append((lab, wh, x, names, z3.simplify(t)))
            continue
        nsame += 1
        # a simultaneous renaming: own elements of this lane become those of the representative
        d = lane_diff(sub_lane(x, w, pr), sub_lane(g[2], w, pr), w, o.mode)
        same.append(('%s and %s' % (g[0], lab), (g[1], wh, pr), d))
    r, mod_, lab = solve_diffs(res, solver, list(axioms), pc, [(l, d) for l, _, d in same])
    if r == 'sat':
        w0, w1, pr = next(q for l, q, _ in same if l == lab)
        to = {a.decl().name(): b for a, b in pr}
        a = {}
        for n, v in var.items():
            x = mod_.eval(to.get(n, v)); a[pos[n]] = x.as_long() if z3.is_bv_value(x) else 0
        if indep_hit(env, res, fn, imm, pack(fn, a), pack(fn, a), w0, w1, '%s get the same inputs and differ' % lab, o.mode): return True
        if indep_search(env, res, fn, imm, rnd): return True
        res.undecided.append('%s: %s, not reproduced' % (tag, lab)); return False
    if r == 'unknown':
        if indep_search(env, res, fn, imm, rnd): return True
        res.undecided.append('%s: equality of %s, timeout' % (tag, lab)); return False
    rr, _ = solver.check(conj(pc), list(axioms))
    if rr == 'sat': res.stats.d['witnesses'] += 1
    if not res.samples:
        res.samples.append('%s: each of %d lanes depends on its own elements only; %d lane pairs compute the same function (unsat)' % (tag, len(outs), len(same)))
    return False

def indep_hit(env, res, fn, imm, a, b, w0, w1, what, mode):
    def call(inp, wh):
        ty = T(fn['ret']) if wh[0] == 'r' else T(fn['params'][wh[0]][0])
        return dict(fn=fn, imm=imm, inputs=inp, grab=(wh[0], wh[1], ty.esz, ty.kind == 'f' and mode == 'fp'))
    p, out = confirm(env, fn, 'lanes', [call(a, w0), call(b, w1)], 'property %s: %s%s\n%s' % (env.prop, fn['name'], '' if imm is None else ' immediate %s' % imm, what))
    if p:
        fail(res, env, fn, 'lanes', '%s%s: %s; %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, what, out), p)
        return True
    return False

def indep_search(env, res, fn, imm, rnd):
    """not decided: look natively for a lane that changes with elements foreign to it"""
    import itertools
    V.reset()
    case = Case(env.mod, fn, imm)
    o = spec.oracle(fn, case.lanes, imm)
    pos = {v.decl().name(): (i, j) for i, j, v in case.inputs}
    want = [(('r', j), y) for j, y in enumerate(o.ret or [])] + [((i, j), y) for i, l in o.mem.items() for j, y in enumerate(l)]
    own = {wh: [pos[n] for n in free_vars(term_of(y)) if n in pos] for wh, y in want}
    nat = env.nat()
    def lanes(inp):
        r = nat.call(fn, [inp[i] for i in sorted(inp)], imm)
        if r[0] != 'ok': return None
        out, idx = {}, sorted(inp)
        for wh in own:
            raw, ty = (r[1], T(fn['ret'])) if wh[0] == 'r' else (r[2][idx.index(wh[0])], T(fn['params'][wh[0]][0]))
            x = int.from_bytes(raw[wh[1] * ty.esz:(wh[1] + 1) * ty.esz], 'little')
            out[wh] = 'nan' if ty.kind == 'f' and o.mode == 'fp' and isnan_bits(x, ty.w) else x
        return out
    def elem(inp, p):
        e = T(fn['params'][p[0]][0]).esz
        return inp[p[0]][p[1] * e:(p[1] + 1) * e]
    for _ in range(60):
        a, b = random_inputs(fn, rnd), random_inputs(fn, rnd)
        la = lanes(a)
        if la is None: return False
        for wh in own:
            c = {i: bytearray(x) for i, x in b.items()}
            for i, j in own[wh]:
                e = T(fn['params'][i][0]).esz
                c[i][j * e:(j + 1) * e] = a[i][j * e:(j + 1) * e]
            c = {i: bytes(x) for i, x in c.items()}
            lc = lanes(c)
            if lc is None: return False
            if lc[wh] != la[wh] and indep_hit(env, res, fn, imm, a, c, wh, wh, 'changes with elements of other lanes (found by search)', o.mode): return True
    return False

PSEUDO = {'@!fenv', '@!errno'}
FPTARGETS = ('vdivq_f32', 'vaddq_f32', 'vmulq_f32', 'vsubq_f32', 'vcvtq_f32_s32', 'vmlaq_f32', 'vrecpsq_f32', 'vcvtnq_s32_f32', 'vaddvq_f32')
def fp_env(env, res, solver, fn, imm, case, rnd):
    """the call writes the floating-point environment: can it return with another rounding or flush-to-zero mode?"""
    rm = case.m.get_rm(case.st)
    t = eq(band(rm, 0xc00 | case.m.FLUSH, 32), 0, 32)
    r, mod_ = solver.check(conj(list(case.st.pc) + [bnot1(t)]), list(axioms))
    if r == 'unsat':
        res.samples.append('%s changes the rounding mode and always restores it (unsat)' % fn['name'])
        return
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    if r == 'unknown': res.undecided.append(tag + ': rounding mode on return, timeout'); return
    inp0 = model_inputs(case, mod_)
    for n_, g in enumerate([harness.BYNAME[x] for x in FPTARGETS if x in harness.BYNAME] * 8):
        i2 = random_inputs(g, rnd)
        for n, (t, k, _) in enumerate(g['params']):      # plain values whose results are inexact
            if t == 'int': continue
            if T(t).kind == 'f': i2[n] = b''.join(struct.pack('<f', rnd.uniform(0.1, 10) * (1 if n_ % 2 else 1e-39)) for _ in range(len(i2[n]) // 4))
            else: i2[n] = b''.join((rnd.getrandbits(30) | 1 << 29 | 1).to_bytes(4, 'little') for _ in range(len(i2[n]) // 4))
        calls = [expected_call(fn, inp0, imm), expected_call(g, i2, None)]
        p, out = confirm(env, g, 'history', calls, 'property %s: %s leaves another floating-point mode behind; history %s ; %s' % (env.prop, tag, fn['name'], g['name']))
        if p:
            fail(res, env, g, 'history', '%s after %s (which leaves another floating-point mode behind): %s' % (g['name'], tag, out), p)
            return
    res.undecided.append(tag + ': may return with another floating-point mode, not reproduced')

def sequences(env, fn, targets):
    """fn could not be encoded: look natively for a history fn ; g that changes g (search only)"""
    res = Result(fn['name'])
    rnd = random.Random('%s/seq/%s' % (env.seed, fn['name']))
    nat = harness.Native(env.so)
    def one(f):
        r = spec.imm_range(f)
        return random_inputs(f, rnd), (None if r is None else rnd.randint(*r))
    try:
        for rep in range(3):
            for g in targets:
                seq = [one(fn) + (fn,) for _ in range(rnd.choice((1, 2, 3)))]
                for inp, imm, f in seq:
                    if nat.call(f, [inp[i] for i in sorted(inp)], imm)[0] != 'ok': return res
                inp, imm = one(g)
                e, mem, _ = concrete_oracle(g, inp, imm)
                r = nat.call(g, [inp[i] for i in sorted(inp)], imm)
                if r[0] == 'ok' and not native_ok(g, r, e, mem, inp):
                    calls = [expected_call(f, i_, im_) for i_, im_, f in seq] + [expected_call(g, inp, imm)]
                    p, out = confirm(env, g, 'history', calls, 'property %s: history %s' % (env.prop, ' ; '.join(c['fn']['name'] for c in calls)))
                    if p:
                        fail(res, env, g, 'history', '%s after %s: %s' % (g['name'], fn['name'], out), p)
                        return res
    finally: nat.close()
    return res

# ================================================================== laws (N03, N19, N23)
from . import laws as lawmod

class LawCase:
    def __init__(self, mod, law, conc=None):
        self.law = law
        self.m = Machine(mod)
        self.st = State()
        if mod.ctors(): self.st = self.m.boot(self.st)
        self.inputs, self.args = [], []
        m, st = self.m, self.st
        self.lo = m.newobj(st, law.out.size, 'param', 'left', align=16)
        self.ro = m.newobj(st, law.out.size, 'param', 'right', align=16)
        self.args += [P1(self.lo.id, 0), P1(self.ro.id, 0)]
        for i, t in enumerate(law.ins):
            o = m.newobj(st, t.size, 'param', 'p%d' % i, align=16)
            for j in range(t.lanes):
                v = z3.BitVec('p%d.%d' % (i, j), t.w)
                self.inputs.append((i, j, v))
                x = F(t.w, bits=v) if t.kind == 'f' else v
                o.by[j * t.esz:(j + 1) * t.esz] = [(x, t.esz, b) for b in range(t.esz)]
            self.args.append(P1(o.id, 0))
        self.returned = False
    def run(self):
        try:
            _, self.st = self.m.call(self.st, '@nsl_' + self.law.name, self.args)
            self.returned = True
        except Dead: pass
        return self
    def lanes(self, o):
        t = self.law.out
        e = ir.IntTy(t.w) if t.kind != 'f' else {32: ir.F32, 64: ir.F64}[t.w]
        return [self.m._get(self.st, self.st.mem[o.id], j * t.esz, e) for j in range(t.lanes)]
    def bytes(self, model, rnd=None):
        out = []
        for i, t in enumerate(self.law.ins):
            b = b''
            for (pi, j, v) in self.inputs:
                if pi != i: continue
                if model is None: x = specials(t, rnd)
                else:
                    y = model.eval(v)
                    x = y.as_long() if z3.is_bv_value(y) else 0
                b += x.to_bytes(t.esz, 'little')
            out.append(b)
        return out

def confirm_law(env, law, inputs, note, modes=('plain', 'pattern', 'zero', 'asan', 'O0')):
    src = replay.law_program(law, inputs, note, lawmod.PRELUDE)
    p = write_replay(env, dict(name=law.name), 'law', src)
    for mode in modes:
        rc, out = replay.run(p, mode, env.d, 60)
        if rc is None: continue
        if rc != 0:
            with open(p, 'a') as f:
                f.write('\n// reproduced with: %s\n' % ' '.join(replay.MODES[mode]))
                for l in out.strip().split('\n')[:12]: f.write('//   %s\n' % l)
            return p, '%s [%s]' % ((out.strip().split('\n') or [''])[0][:200], mode)
    os.unlink(p)
    return None, ''

def run_law(env, law):
    res = Result('law ' + law.name)
    pseudo = dict(name=law.name)
    rnd = random.Random('%s/law/%s' % (env.seed, law.name))
    note = 'property %s, law %s: %s' % (env.prop, law.name, law.text)
    def hit(inputs, what):
        p, out = confirm_law(env, law, inputs, note + '\n' + what)
        if p:
            fail(res, env, pseudo, 'law', '%s (%s): %s; %s' % (law.name, law.text[:100], what, out), p)
            return True
        return False
    def zero(): return [bytes(t.size) for t in law.ins]
    def search(why, n=60):
        V.reset()
        c = LawCase(env.mod, law)
        for _ in range(3):
            if hit(c.bytes(None, rnd), 'found by search (%s)' % why): return True
        res.undecided.append('%s: %s' % (law.name, why))
        return False
    if 'law:' + law.name in env.badsig:
        if not hit(zero(), 'does not compile: ' + env.badsig['law:' + law.name]): res.undecided.append(law.name + ': does not compile with clang')
        return res
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    V.reset()
    try:
        c = LawCase(env.mod, law)
        try: c.run()
        finally: account(res, c.m)
    except Unresolved as e:
        if not hit(zero(), 'unresolved symbol ' + e.name): res.undecided.append('%s: symbol %s not modelled' % (law.name, e.name))
        return res
    except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
        search('%s: %s' % (type(e).__name__, e)); return res
    m = c.m
    for kind, pc, info in m.exits:
        if kind == 'unreachable': continue
        r, mod_ = solver.check(conj(pc), list(axioms))
        if r == 'sat':
            if hit(c.bytes(mod_), 'a legal call does not return (%s)' % kind): return res
    ob = [o for o in m.obls if o.kind in SAFETY]
    if ob:
        r, mod_ = solver.check(z3.Or([zb(o.term()) for o in ob]), list(axioms))
        if r == 'sat' and hit(c.bytes(mod_), 'memory error: ' + ob[0].info): return res
        if r != 'unsat': res.undecided.append('%s: %s' % (law.name, ob[0].info)); return res
    if not c.returned:
        res.undecided.append(law.name + ': no path returns'); return res
    diffs = [('lane %d' % j, lane_diff(x, y, law.out.w, law.mode)) for j, (x, y) in enumerate(zip(c.lanes(c.lo), c.lanes(c.ro)))]
    try: r, mod_, lab = solve_diffs(res, solver, list(axioms), c.st.pc, diffs)
    except Unsupported as e: search(str(e)); return res
    if r == 'unsat':
        rr, _ = solver.check(conj(c.st.pc), list(axioms))
        if rr == 'sat': res.stats.d['witnesses'] += 1
        else: res.undecided.append(law.name + ': vacuous')
        res.samples.append('%s: for all inputs (%d bits): %s (unsat)' % (law.name, sum(t.size * 8 for t in law.ins), law.text[:160]))
        return res
    if r == 'unknown': search('solver timeout on ' + str(lab)); return res
    neg = []
    for attempt in range(4):
        if hit(c.bytes(mod_), 'solver counterexample: ' + str(lab)): return res
        neg.append(z3.Or([v != mod_.eval(v, model_completion=True) for _, _, v in c.inputs]))
        r, mod_, lab = solve_diffs(res, solver, list(axioms), list(c.st.pc) + neg, diffs)
        if r != 'sat': break
    res.undecided.append('%s: counterexample not reproduced (%s)' % (law.name, lab))
    return res

# ------------------------------------------------------------------ N30: before and after main
def lifetime(env, fn):
    """the call made before any dynamic initialiser of the library has run, and after all its destructors have, equals
    the call made in between"""
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    rnd = random.Random('%s/life/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    for imm in legal_imms(fn):
        try:
            if one_life(env, res, solver, fn, imm): return res
        except Unresolved as e:
            res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name)); return res
        except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
            res.undecided.append('%s%s: %s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, type(e).__name__, e)); break
    if not res.violations: validate(env, res, fn, rnd, 1 if env.tier == 'quick' else 8)
    return res

def one_life(env, res, solver, fn, imm):
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    ref = new_case(env, fn, imm)
    try: ref.run()
    finally: account(res, ref.m)
    if not ref.returned:
        res.undecided.append(tag + ': no path returns'); return False
    o = spec.oracle(fn, ref.lanes, imm)
    runs = [('before-main', Case(env.mod, fn, imm, machine=symex.Machine(env.mod), state=symex.State()))]
    m = symex.Machine(env.mod)
    st = symex.State()
    if env.mod.ctors(): st = m.boot(st)
    warm = Case(env.mod, fn, imm, machine=m, state=st, pre='w').run()
    if warm.returned and m.atexit:
        m.obls, m.exits = [], []
        st = m.shutdown(warm.st)
        runs.append(('after-main', Case(env.mod, fn, imm, machine=m, state=st)))
    for kind, c in runs:
        m = c.m
        try: c.run()
        finally: account(res, m)
        conds = [('the call does not return (%s)' % k, conj(pc)) for k, pc, info in m.exits if k != 'unreachable']
        conds += [('%s at line %s (%s)' % (ob.kind, ob.line, ob.info), ob.term()) for ob in m.obls if ob.kind in engine.SAFETY]
        side, live = list(axioms), False
        if c.returned:
            live = True
            for (l, _, x, _, w), (_, _, y, _, _) in zip(out_lanes(c, fn, o), out_lanes(ref, fn, o)):
                d = lane_diff(x, y, w, 'bits')
                if d is not False: conds.append((l, conj(list(c.st.pc) + list(ref.st.pc) + [d])))
        if not conds: solver.check(False)
        for what, t in conds:
            r, mod_ = solver.check(t, side)
            if r == 'unsat': continue
            if r == 'sat' and report(env, res, fn, imm, kind, ref, mod_, what): return True
            res.undecided.append('%s: %s %s: %s' % (tag, kind, what, 'timeout' if r == 'unknown' else 'not reproduced')); break
    if not res.samples:
        res.samples.append('%s: same terms before the initialisers of the library run%s' % (tag, ' and after its destructors' if len(runs) > 1 else '; it registers no destructor'))
    return False

# ------------------------------------------------------------------ N31: build configurations
def configs(env, fn):
    """built in each configuration, library and caller together or the caller alone, a call gives what it gives in the repository's own build"""
    res = Result(fn['name'])
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    rnd = random.Random('%s/cfg/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    for c, e in env.cfgbad.items(): res.undecided.append('%s: %s does not build: %s' % (fn['name'], c, e[:200]))
    own = env.mod
    try:
        for imm in legal_imms(fn):
            try:
                if one_config(env, res, solver, fn, imm): return res
            except Unresolved as e:
                res.undecided.append('%s: unresolved symbol %s' % (fn['name'], e.name)); return res
            except (Unsupported, NotImplementedError, ir.IRError, StepLimit, RecursionError) as e:
                res.undecided.append('%s%s: %s: %s' % (fn['name'], '' if imm is None else ' imm=%s' % imm, type(e).__name__, e)); break
        if spec.imm_range(fn) is not None:
            for c, mod in env.cfgs.items():
                if mod is None: continue
                env.mod, env.modes = mod, (('plat-' if env.prop == 'N32' else 'cfg-') + c,)
                r = illegal_imm(env, fn)
                res.stats.add(r.stats)
                if r.violations:
                    res.violations += r.violations; return res
                res.undecided += ['%s: %s' % (c, u) for u in r.undecided]
    finally: env.mod, env.modes = own, None
    if not res.violations: validate(env, res, fn, rnd, 1 if env.tier == 'quick' else 8)
    return res

def one_config(env, res, solver, fn, imm):
    tag = fn['name'] + ('' if imm is None else ' imm=%s' % imm)
    ref = new_case(env, fn, imm)
    try: ref.run()
    finally: account(res, ref.m)
    if not ref.returned:
        res.undecided.append(tag + ': no path returns'); return False
    o = spec.oracle(fn, ref.lanes, imm)
    kind = 'plat-' if env.prop == 'N32' else 'cfg-'
    runs = [(kind + c, mod, 'nsv_') for c, mod in env.cfgs.items() if mod is not None]
    if kind == 'cfg-': runs += [('user-' + c, env.mod, 'ns%s_' % c) for c in env.cfgs]
    own = env.mod
    for mode, mod, pre in runs:
        c = Case(mod, fn, imm, prefix=pre)
        m = c.m
        try: c.run()
        finally: account(res, m)
        conds = [('the call does not return (%s)' % k, conj(pc)) for k, pc, info in m.exits if k != 'unreachable']
        conds += [('%s at line %s (%s)' % (ob.kind, ob.line, ob.info), ob.term()) for ob in m.obls if ob.kind in SAFETY]
        if c.returned:
            for (l, _, x, _, w), (_, _, y, _, _) in zip(out_lanes(c, fn, o), out_lanes(ref, fn, o)):
                d = lane_diff(x, y, w, 'bits')
                if d is not False: conds.append((l, conj(list(c.st.pc) + list(ref.st.pc) + [d])))
        if not conds: solver.check(False)
        env.modes = (mode,)
        try:
            for what, t in conds:
                r, mod_ = solver.check(t, list(axioms))
                if r == 'unsat': continue
                if r == 'sat' and report(env, res, fn, imm, 'mismatch', ref, mod_, 'built as %s: %s' % (' '.join(replay.MODES[mode] if kind == 'cfg-' else harness.PLATFORMS[mode[5:]]), what)): return True
                res.undecided.append('%s: %s %s: %s' % (tag, mode, what, 'timeout' if r == 'unknown' else 'not reproduced')); break
        finally: env.modes = None
    if not res.samples:
        res.samples.append('%s: same results on %d platforms' % (fn['name'], len(runs)) if kind == 'plat-' else '%s: same terms in %d configurations (%d give the same IR) and for %d callers' % (
            fn['name'], len(env.cfgs), sum(x is None for x in env.cfgs.values()), len(env.cfgs)))
    return False

# ------------------------------------------------------------------ N29: the caller's rounding mode
def rounding(env, fn, modes):
    """the call equals the oracle in each of the other rounding modes; the oracle of everything but float arithmetic
    does not know the mode.  A call that never consults the mode is the same call in all of them."""
    res = Result(fn['name'])
    for k in modes:
        engine.RM[0], spec.MODE[0], symex.ROUNDED[0] = k, {0x400: z3.RTN(), 0x800: z3.RTP(), 0xc00: z3.RTZ()}[k], False
        env.nat().rm = k
        try: r = checkfn.functional(env, fn)
        finally:
            engine.RM[0], spec.MODE[0] = 0, z3.RNE()
            env.nat().rm = 0
        res.stats.add(r.stats)
        res.violations += r.violations; res.undecided += r.undecided
        res.samples += ['%s, %s: %s' % (checkfn.ROUND_KIND[k], 'rounds' if symex.ROUNDED[0] else 'no rounding operation on any path', x) for x in r.samples]
        if res.violations or not symex.ROUNDED[0]: break
    return res

# ------------------------------------------------------------------ N28: the C interface
C_REPLAY = """#!/bin/sh
# %(note)s
# run: sh THIS   (non-zero exit = property broken)
R=${NEONV_REPO:-%(repo)s}; d=$(mktemp -d) || exit 2; trap 'rm -rf "$d"' EXIT
cat > "$d/c.c" <<'END'
#include "neon_sim.h"
%(cw)s
END
cat > "$d/m.cpp" <<'END'
#include "neon_sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" void nsc_%(name)s(%(proto)s);
%(xw)s
static bool same(const char* what, const unsigned char* a, const unsigned char* b, int n, int w, bool flt)
{
  bool ok = true;
  for (int i = 0; i < n; i++) {
    if (!memcmp(a + i * w, b + i * w, w)) continue;
    if (flt && w == 4) { float x, y; memcpy(&x, a + 4 * i, 4); memcpy(&y, b + 4 * i, 4); if (x != x && y != y) continue; }
    if (flt && w == 8) { double x, y; memcpy(&x, a + 8 * i, 8); memcpy(&y, b + 8 * i, 8); if (x != x && y != y) continue; }
    printf("%%s lane %%d: differs between a C and a C++ caller\\n", what, i); ok = false;
  }
  return ok;
}
int main()
{
  bool ok = true;
%(body)s
  return ok ? 0 : 1;
}
END
gcc %(std)s -Werror=implicit-function-declaration -O2 -w -I"$R" -c "$d/c.c" -o "$d/c.o" || { echo "does not compile as C"; exit 1; }
g++ -std=gnu++11 -O2 -w -I"$R" "$d/m.cpp" %(srcs)s "$d/c.o" -o "$d/t" || { echo "does not link with a C caller"; exit 1; }
"$d/t"
"""
def c_confirm(env, res, fn, imm, inputs, what, std=None):
    """a program with a C and a C++ caller of the real library"""
    import subprocess
    lay = fn['name'].startswith('lay_')
    body, args = [], []
    if fn['ret'] != 'void':
        t = T(fn['ret'])
        body.append('  static unsigned char o1[%d + 64], o2[%d + 64]; memset(o1, 0x5a, sizeof o1); memset(o2, 0x5a, sizeof o2);' % (t.size, t.size))
        args.append('(%s*)o@' % fn['ret'])
    for i, (t, k, _) in enumerate(fn['params']):
        if t == 'int': args.append(str(imm)); continue
        b = inputs[i]
        body.append('  static const unsigned char i%d[] = { %s };' % (i, replay.carr(b)))
        for q in '12': body.append('  unsigned char* b%d%s = (unsigned char*)aligned_alloc(64, 512); memset(b%d%s, 0, 512); memcpy(b%d%s, i%d, sizeof i%d);' % (i, q, i, q, i, q, i, i))
        args.append('(%s*)b%d@' % (t, i))
    call = '(' + ', '.join(args) + ');'
    body.append('  nsc_%s%s' % (fn['name'], call.replace('@', '1')))
    if not lay: body.append('  nsx_%s%s' % (fn['name'], call.replace('@', '2')))
    else: body.append('  memcpy(o2, i0, sizeof i0);')
    if fn['ret'] != 'void':
        t = T(fn['ret'])
        body.append('  ok &= same("result", o1, o2, %d, %d, %s);' % (t.lanes, t.esz, 'true' if t.kind == 'f' else 'false'))
        body.append('  ok &= same("behind the result", o1 + %d, o2 + %d, 64, 1, false);' % (t.size, t.size))
    for i, (t, k, _) in enumerate(fn['params']):
        if t == 'int' or lay: continue
        body.append('  ok &= same("operand %d", b%d1, b%d2, 512, 1, false);' % (i, i, i))
    cw = harness.c_wrapper(fn)
    txt = C_REPLAY % dict(std=std or harness.C_STD, note=('property %s: %s%s: %s' % (env.prop, fn['name'], '' if imm is None else ' immediate %s' % imm, what)).replace('\n', ' '),
                          repo=harness.REPO, cw=cw, name=fn['name'], proto=cw[cw.index('(') + 1:cw.index(')')],
                          xw='' if lay else harness.wrapper(fn, 'nsx_')[0], body='\n'.join(body),
                          srcs=' '.join('"$R/%s"' % os.path.relpath(f, harness.REPO) for f in harness.sources()))
    p = write_replay(env, fn, 'c_caller', txt, '.sh')
    try: r = subprocess.run(['sh', p], capture_output=True, text=True, timeout=120, env=dict(os.environ, NEONV_REPO=harness.REPO))
    except subprocess.TimeoutExpired: r = None
    if r is not None and r.returncode not in (0, 2):
        fail(res, env, fn, 'c-caller', '%s: %s; %s' % (fn['name'], what, (r.stdout + r.stderr).strip().split('\n')[-1][:200]), p)
        return True
    os.unlink(p)
    return False

def c_side(env, fn):
    """N28: a C caller of the real functions gets what a C++ caller gets; layouts are the same"""
    res = Result(fn['name'])
    rnd = random.Random('%s/c/%s' % (env.seed, fn['name']))
    solver = Solver(res.stats, 20000 if env.tier == 'quick' else 120000, cross=env.tier == 'thorough')
    lay = fn['name'].startswith('lay_')
    some = random_inputs(fn, rnd)
    if fn['name'] in env.badsig:
        res.undecided.append('%s: %s' % (fn['name'], env.badsig[fn['name']])); return res
    if fn['name'] in env.cbad:
        if not env.cbad[fn['name']]: return res      # the header as a whole: reported once
        if not c_confirm(env, res, fn, (legal_imms(fn) if not lay else [None])[0], some, 'not usable from C: ' + env.cbad[fn['name']]):
            res.undecided.append('%s: %s (clang only)' % (fn['name'], env.cbad[fn['name']]))
        return res
    imms = [None] if lay else legal_imms(fn)
    who = [('nsc_', harness.C_STD)]
    for pre, (std, bad) in env.cother.items():
        if fn['name'] in bad:
            if bad[fn['name']] and not c_confirm(env, res, fn, imms[0], some, 'not usable from C with %s: %s' % (std, bad[fn['name']]), std):
                res.undecided.append('%s: %s (clang %s only)' % (fn['name'], bad[fn['name']], std))
            if res.violations: return res
        elif '@%s%s' % (pre, fn['name']) in env.mod.funcs: who.append((pre, std))
    for imm, (pre, std) in [(i, w) for i in imms for w in who]:
        a = Case_c(env, fn, imm, pre, True)
        try: a.run()
        except Unresolved as e:
            account(res, a.m)
            if not c_confirm(env, res, fn, imm, some, 'a C caller does not link: %s' % e, std):
                res.undecided.append('%s: %s not modelled' % (fn['name'], e))
            return res
        except (Unsupported, StepLimit) as e:
            account(res, a.m); res.undecided.append('%s: %s' % (fn['name'], e)); return res
        account(res, a.m)
        diffs = []
        if lay:
            if not a.returned: continue
            want = a.lanes[0]
            diffs = [('lane %d' % j, lane_diff(x, y, a.R.w, 'bits')) for j, (x, y) in enumerate(zip(a.ret_lanes(), want))]
            pc = list(a.st.pc)
        else:
            b = Case_c(env, fn, imm, 'nsv_', False)
            try: b.run()
            except (Unsupported, Unresolved, StepLimit) as e:
                account(res, b.m); res.undecided.append('%s: %s' % (fn['name'], e)); return res
            account(res, b.m)
            if a.returned != b.returned:
                if not c_confirm(env, res, fn, imm, some, 'returns to one kind of caller only', std): res.undecided.append('%s: returns to one kind of caller only' % fn['name'])
                return res
            if not a.returned: continue
            def d(x, y, w): return lane_diff(x, y, w, 'fp' if isinstance(x, F) and not (x.hasbits and y.hasbits) else 'bits')
            if fn['ret'] != 'void':
                diffs += [('result lane %d' % j, d(x, y, a.R.w)) for j, (x, y) in enumerate(zip(a.ret_lanes(), b.ret_lanes()))]
            for i, (t, k, _) in enumerate(fn['params']):
                if t == 'int': continue
                diffs += [('operand %d element %d' % (i, j), d(x, y, T(t).w)) for j, (x, y) in enumerate(zip(a.mem_lanes(i), b.mem_lanes(i)))]
            pc = list(a.st.pc) + list(b.st.pc)
        # accesses outside the objects mean that a type has another size in C
        obs = [o for o in a.m.obls if o.kind in SAFETY]
        for o in obs: diffs.append((o.kind + ' ' + str(o.info), o.term()))
        r, mod_, lab = solve_diffs(res, solver, list(axioms), pc if not obs else [], diffs)
        if r == 'unsat':
            rr, _ = solver.check(conj(pc), list(axioms))
            if rr == 'sat': res.stats.d['witnesses'] += 1
        elif r == 'sat':
            if c_confirm(env, res, fn, imm, model_inputs(a, mod_), 'a C caller gets another result (%s)' % lab, std): return res
            if c_confirm(env, res, fn, imm, some, 'a C caller gets another result (%s)' % lab, std): return res
            res.undecided.append('%s: %s not reproduced' % (fn['name'], lab)); return res
        else:
            res.undecided.append('%s: timeout on %s' % (fn['name'], lab)); return res
    if not res.samples: res.samples.append('%s: C and C++ callers agree on every operand value (unsat)' % fn['name'])
    return res

def Case_c(env, fn, imm, prefix, first):
    if first: V.reset()
    return Case(env.mod, fn, imm, prefix=prefix)
