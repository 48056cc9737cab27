"""Which subjects each property is decided on."""
from . import harness, spec, laws

def fnlist(p): return [f for f in harness.CATALOG if p in spec.props_of(f['name'])]
def hasimm(f): return spec.imm_range(f) is not None
HEAVY = ['vqdmull_s16', 'vcvtq_s32_f32', 'vcvtnq_s32_f32', 'vcvtq_u32_f32', 'vrecpsq_f32', 'vrecpeq_f32', 'vdivq_f64', 'vdiv_f64', 'vmlaq_f32', 'vmlaq_n_f32']
def weight(job):
    n = job[1]
    if n in HEAVY: return 1000 - HEAVY.index(n)
    if n in harness.BYNAME: return 10 + (50 if hasimm(harness.BYNAME[n]) else 0)
    l = n
    if l in ('prog_lut64', 'prog_round_scale', 'prog_sad', 'prog_q15mul'): return 900
    return 500 if l.startswith(('cvt', 'half_vmul', 'half_vrec', 'half_vdiv', 'mul', 'mla', 'mls')) else 1

def plan(prop):
    """-> (functions to wrap, laws to compile, jobs)"""
    C = harness.CATALOG
    if prop in ('N03', 'N19', 'N23', 'N27'):
        ls = laws.of(prop)
        used = set(u for l in ls for u in l.uses)
        fns = [f for f in C if f['name'] in used]
        return fns, ls, [('law', l.name, None) for l in ls]
    if prop == 'N20': return C, [], [('ub', f['name'], None) for f in C]
    if prop == 'N21':
        fs = [f for f in C if hasimm(f)]
        return fs, [], [('illegal', f['name'], None) for f in fs]
    if prop == 'N26': return C, [], [('lanes', f['name'], None) for f in C]
    if prop == 'N25': return C, [], [('threads', f['name'], None) for f in C]
    if prop == 'N28': return C, [], [('cside', f['name'], None) for f in C] + [('cside', 'lay_' + t, None) for t in harness.ctypes_()]
    if prop == 'N30': return C, [], [('lifetime', f['name'], None) for f in C]
    if prop in ('N31', 'N32'): return C, [], [('config', f['name'], None) for f in C]
    if prop == 'N29':
        fs = [f for f in C if not f['name'].startswith('vrecpe')]
        return fs, [], [('rounding', f['name'], m) for f in fs for m in (((0x400,), (0x800,), (0xc00,)) if f['name'] in HEAVY and 'f' in f['name'] else ((0x400, 0x800, 0xc00),))]
    if prop == 'N22': return C, [], [('purity', f['name'], []) for f in C]
    fs = fnlist(prop)
    if not fs: raise SystemExit('unknown property ' + prop)
    return fs, [], [('functional', f['name'], None) for f in fs]

def second_pass(first, drain, results):
    """N22: functions that read static storage some other function writes; functions outside the encoding"""
    writers = {}
    for r in first:
        for g in getattr(r, 'gwrites', ()): writers.setdefault(g, set()).add(r.name)
    jobs = []
    for r in first:
        o = set()
        for g in getattr(r, 'greads', ()): o |= writers.get(g, set())
        o.discard(r.name)
        if o and not r.violations:
            results.remove(r)
            jobs.append(('purity', r.name, sorted(o)[:6]))
        elif getattr(r, 'opaque', False) and not r.violations:
            fl = [f['name'] for f in harness.CATALOG if f['name'] in ('vaddq_f32', 'vmulq_f32', 'vdivq_f32', 'vcvtq_f32_s32', 'vcvtnq_s32_f32',
                  'vrecpsq_f32', 'vmlaq_f32', 'vcvtq_s32_f32')] + [r.name]
            jobs.append(('sequences', r.name, fl))
    drain(jobs)

ASSUME = ['clang 18 -O0 -ffp-contract=off lowers neon_sim.cpp to LLVM IR faithfully for x86-64 (SSE, round to nearest even, no flush to zero)',
          'the symbolic executor, its models of libc/libm/libstdc++ externals and z3 are correct; every violation is replayed on the real code, '
          'and concrete vectors are pushed through both the encoding and the g++ -O2 library on every run',
          'NaN payloads are not claimed for arithmetic results (any NaN is accepted); data movement is bit exact',
          'operand memory does not alias the destination; pointers address exactly the elements the architecture touches']
_c = 'loops of the implementation are executed to completion (at most 600 symbolic visits of one branch, 400000 instructions per call; exceeding either is reported as undecided); '
BOUNDS = {'*': _c + 'all operand bit patterns and every legal immediate; functions: the implemented intrinsics of this family in neonv/catalog.json',
          'N20': _c + 'all operand bit patterns and every legal immediate of the 537 implemented intrinsics; array subscripts are held to their own array, pointer arithmetic to its object',
          'N21': _c + 'all 2^32 immediates (vshll_n by the lane width is claimed neither legal nor illegal) and all operand bit patterns',
          'N22': _c + 'arbitrary contents of static storage; when that does not decide, histories of at most 4 (thorough 8) calls from program start (with at most 6 other functions that write the same storage; for functions with an immediate, up to 5 immediates of the earlier call), then up to 5e6 repetitions natively',
          'N25': _c + 'two concurrent calls of the same intrinsic, any interleaving (calls of different intrinsics conflict only through a location one of them writes, and that write already conflicts with itself)',
          'N26': _c + 'all values of every operand element, own and foreign; which elements are a lane\'s own is read off neonv/spec.py',
          'N27': _c + 'all inputs of each of the listed programs (prog_* in neonv/laws.py, prog_arr_* in neonv/kernels.py)',
          'N28': _c + 'all operand bit patterns and every legal immediate of the 537 implemented intrinsics, called from C (gnu99, c99, c11, gnu17, c2x) and from C++11; all lane values of every vector type',
          'N30': _c + 'all operand bit patterns and every legal immediate of the 537 implemented intrinsics, called with no initialiser of the library run and, after one earlier call, with every registered destructor run',
          'N31': _c + 'all operand bit patterns, every legal immediate and all 2^32 immediates for refusal; configurations: ' + '; '.join('%s = %s' % (k, ' '.join(v[0])) for k, v in harness.CONFIGS.items()),
          'N32': _c + 'all operand bit patterns, every legal immediate and all 2^32 immediates for refusal; platforms (front end of clang, headers of the host): ' + '; '.join('%s = %s' % (k, v[0]) for k, v in harness.PLATFORMS.items()) + '; big-endian platforms are outside',
          'N29': _c + 'rounding modes downward, upward, toward zero; all operand bit patterns and every legal immediate of the implemented intrinsics except vrecpe (whose overflow result depends on FPCR)',
          'N19': _c + 'all inputs of every listed law (neonv/laws.py)', 'N03': _c + 'all inputs of every listed round trip (neonv/laws.py)',
          'N23': 'all lane values of all 64- and 128-bit vector types and x2/x3/x4 array types'}
