#!/usr/bin/env python3-vt
"""Decides one property of /repo's current neon_sim.{h,cpp}:  check.py <property> [--only NAME]
Exit 0: held on everything explored; 1: VIOLATION lines printed; 2: the check itself failed."""
import os, sys, time, json, argparse, multiprocessing, traceback, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True
import z3
from neonv import ir, harness, spec, checkfn, engine, drivers, laws, props, vals

# seconds: per subject, soft end (later subjects are undecided), hard end of the run
LIMITS = dict(quick=(100, 480, 700), thorough=(1800, 6 * 3600, 7 * 3600))

ENV, SOFT = None, 0
def work(job):
    kind, name, arg = job
    t = time.time()
    if t > SOFT:
        r = checkfn.Result(name); r.undecided.append(name + ': not reached within the time budget')
        return name, r, None, 0
    vals.DEADLINE[0] = min(t + LIMITS[ENV.tier][0], SOFT + 60)
    try:
        if kind == 'functional': r = checkfn.functional(ENV, harness.BYNAME[name])
        elif kind == 'ub': r = drivers.ub(ENV, harness.BYNAME[name])
        elif kind == 'illegal': r = drivers.illegal_imm(ENV, harness.BYNAME[name])
        elif kind == 'purity': r = drivers.purity(ENV, harness.BYNAME[name], [harness.BYNAME[x] for x in arg])
        elif kind == 'sequences': r = drivers.sequences(ENV, harness.BYNAME[name], [harness.BYNAME[x] for x in arg])
        elif kind == 'threads': r = drivers.threads(ENV, harness.BYNAME[name])
        elif kind == 'lanes': r = drivers.independence(ENV, harness.BYNAME[name])
        elif kind == 'rounding': r = drivers.rounding(ENV, harness.BYNAME[name], arg)
        elif kind == 'lifetime': r = drivers.lifetime(ENV, harness.BYNAME[name])
        elif kind == 'config': r = drivers.configs(ENV, harness.BYNAME[name])
        elif kind == 'cside': r = drivers.c_side(ENV, harness.BYNAME.get(name) or harness.c_layout(name[4:]))
        elif kind == 'law': r = drivers.run_law(ENV, LAW[name])
        return name, r, None, time.time() - t
    except Exception:
        return name, None, traceback.format_exc(), time.time() - t

LAW = {l.name: l for l in laws.LAWS}

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                # known: property=<id> fn=<name> kind=<kind> <text>
                d = dict(x.split('=', 1) for x in ln[7:].split()[:3])
                out.append((d['property'], d['fn'], d['kind'], ln))
    return out

def main():
    global ENV, SOFT
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--only', action='append'); ap.add_argument('-j', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    lim = LIMITS.setdefault(tier, LIMITS['quick'])
    SOFT = t0 + lim[1]
    z3.set_param('memory_max_size', 3500)
    d = harness.scratch()
    fns, lws, jobs = props.plan(prop)
    if a.only:
        jobs = [j for j in jobs if j[1] in a.only]
    try:
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(2) as ex:
            fi = ex.submit(harness.compile_ir, fns, d, laws.PRELUDE if lws else '', 'h', lws)
            fn_ = ex.submit(harness.build_native, fns, d)
            txt, bad = fi.result()
            if prop == 'N28': txt, cbad, cother = harness.add_c(txt, fns + [harness.c_layout(t) for t in harness.ctypes_()], d)
            if prop == 'N32': cfgs, cfgbad = harness.platforms([f for f in fns if f['name'] not in bad], d)
            if prop == 'N31': cfgs, txt, cfgbad = harness.configs(txt, [f for f in fns if f['name'] not in bad], d)
            try: so, bad2, und = fn_.result()
            except harness.BuildError as e: raise
    except harness.BuildError as e:
        print('CHECK-ERROR: %s' % e)
        return 2
    t_ir = time.time() - t0
    for k, v in bad2.items(): bad.setdefault(k, v)
    ENV = checkfn.Env(ir.Module(txt), prop, tier, seed, d, so, bad, und)
    if prop == 'N28': ENV.cbad, ENV.cother = cbad, cother
    if prop in ('N31', 'N32'): ENV.cfgs, ENV.cfgbad = {c: ir.Module(t) if t else None for c, t in cfgs.items()}, cfgbad
    replaydir = ENV.outdir
    os.makedirs(replaydir, exist_ok=True)
    for f in os.listdir(replaydir):
        if f.startswith(prop + '_'): os.unlink(os.path.join(replaydir, f))
    results, errors = [], []
    def drain(jobs):
        out = []
        if not jobs: return out
        left = set(j[1] for j in jobs)
        pool = multiprocessing.get_context('fork').Pool(min(a.j, len(jobs)))
        it = pool.imap_unordered(work, jobs)
        while left:
            try: name, r, err, dt = it.next(timeout=max(1, t0 + lim[2] - time.time()))
            except StopIteration: break
            except multiprocessing.TimeoutError: break
            left.discard(name)
            if a.v: print('  %-40s %.2fs %s' % (name, dt, '' if r is None else (r.violations and 'VIOLATED' or r.undecided and 'undecided' or 'ok')))
            if err: errors.append((name, err))
            else: results.append(r); out.append(r)
        pool.terminate()
        for n in left: errors.append((n, 'no answer within the time budget'))
        return out
    jobs.sort(key=lambda j: props.weight(j), reverse=True)
    first = drain(jobs)
    if prop == 'N22': props.second_pass(first, drain, results)
    tot = engine.Stats()
    for r in results: tot.add(r.stats)
    kn = known()
    nviol, seen = 0, set()
    for r in sorted(results, key=lambda r: r.name):
        for v in r.violations:
            m = [k for k in kn if k[0] == prop and k[1] == v['fn'] and k[2] == v['kind']]
            if m:
                print('KNOWN-FINDING: property=%s %s' % (prop, v['detail'])); continue
            nviol += 1
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(v['replay'], HERE)))
            print('  %s' % v['detail'])
    und_ = [u for r in results for u in r.undecided]
    und_ += ['%s: %s' % (n, e.strip().split('\n')[-1]) for n, e in errors]
    for u in und_[:40]: print('UNDECIDED: property=%s %s' % (prop, u))
    for n, e in errors[:5]: print('CHECK-ERROR: %s\n%s' % (n, e))
    samples = [s for r in sorted(results, key=lambda r: r.name) for s in r.samples]
    step = max(1, len(samples) // 12)
    s = tot.d
    cov = dict(states=s['states'], transitions=s['transitions'], traces_validated_against_impl=s['traces'],
               samples=samples[::step][:14] or ['none'],
               subjects=len(results), cases_encoded=s['cases'], symbolic_branches=s['branches'], state_merges=s['merges'],
               solver_queries=s['queries'], queries_trivially_decided=s['trivial'], queries_unsat=s['unsat'], queries_sat=s['sat'], queries_unknown=s['unknown'],
               path_feasibility_queries=s['feas'], reachability_witnesses=s['witnesses'], crosschecked_with_cvc5=s['cross'],
               solver_time_s=round(s['solver_time'], 2), build_time_s=round(t_ir, 2),
               functions_encoded=len(tot.funcs), functions_encoded_names=sorted(k for k in tot.funcs)[:60],
               external_models_used=tot.externs, undecided=und_[:100], bounds=props.BOUNDS.get(prop, props.BOUNDS['*']),
               rule='states: basic blocks executed symbolically; transitions: IR instructions executed symbolically; each case covers all operand values',
               exhaustive=not und_ and not errors)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=props.ASSUME,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d subjects, %d cases, %d queries (%d unsat), %d undecided, %d violations, %.1f s' % (
        prop, len(results), s['cases'], s['queries'], s['unsat'], len(und_), nviol, time.time() - t0))
    if nviol: return 1
    # a subject the machinery could not handle is undecided; no subject handled at all is a broken check
    return 2 if errors and not results else 0

if __name__ == '__main__':
    sys.exit(main())
