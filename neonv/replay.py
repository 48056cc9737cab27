"""Turns a solver counterexample into a stand-alone C++ program against /repo's real code and
runs it: plain g++ -O2 (as the build), sanitised clang, and pattern-initialised locals."""
import os, re, subprocess, json
from . import harness
from .types import T

def carr(b): return ', '.join('0x%02x' % x for x in b) or '0'

def program(calls, note, variant=None):
    """calls: list of dicts fn, imm, inputs {param: bytes}, expect (list of int|None per lane) or None,
    mem {param: [int|None]}, abort (True: the call must not return), srcs: params that must stay unchanged"""
    o = ['// ' + l for l in note.split('\n')]
    o += ['// build: g++ -std=gnu++11 -O2 -I/repo THIS.cpp %s -o t && ./t   (non-zero exit = property broken)' % harness.srcs_text(),
          '#include "neon_sim.h"', '#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>',
          '#include <sys/mman.h>', '#include <unistd.h>', '#include <fcntl.h>', '#include <malloc.h>', '#include <pthread.h>', '#include <fenv.h>', '#include <errno.h>', '',
          '// exactly sized operand memory; canaries unless a sanitizer watches it',
          'struct Mem { unsigned char* base; size_t n; unsigned char* p;',
          '  Mem(const unsigned char* init, size_t n_, size_t al = 16, long at = -1) : n(n_) {',
          '#if defined(EXACT)   // at this address modulo 8192, if one is asked for',
          '    if (at >= 0) { void* q = 0; if (posix_memalign(&q, 8192, n + at)) abort(); base = (unsigned char*)q; p = base + at; memcpy(p, init, n); return; }',
          '#elif !defined(GUARD_HI) && !defined(GUARD_LO) && !defined(ELEMALIGN)',
          '    if (at >= 0) { void* q = 0; if (posix_memalign(&q, 8192, n + at + 8448)) abort(); p = (unsigned char*)q + 8192 + at; base = p - 128; memset(base, 0xa5, n + 256); memcpy(p, init, n); return; }',
          '#endif',
          '#if defined(GUARD_HI) || defined(GUARD_LO)   // an unmapped page right behind / right before the operand',
          '    long pg = sysconf(_SC_PAGESIZE);',
          '    base = (unsigned char*)mmap(0, 3 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);',
          '    mprotect(base, pg, PROT_NONE); mprotect(base + 2 * pg, pg, PROT_NONE);',
          '#ifdef GUARD_HI',
          '    p = base + 2 * pg - n;',
          '#else',
          '    p = base + pg;',
          '#endif',
          '#elif defined(ELEMALIGN)                     // aligned for the element type and no better',
          '    base = (unsigned char*)malloc(n + 512); p = base + 128 + al; memset(base, 0xa5, n + 512);',
          '#elif defined(EXACT)',
          '    base = (unsigned char*)malloc(n ? n : 1); p = base;',
          '#else',
          '    base = (unsigned char*)malloc(n + 256); p = base + 128; memset(base, 0xa5, n + 256);',
          '#endif',
          '    memcpy(p, init, n); }',
          '  bool clean() const {',
          '#if !defined(EXACT) && !defined(GUARD_HI) && !defined(GUARD_LO)',
          '    for (size_t i = 0; i < 128; i++) if (base[i] != 0xa5 || p[n + i] != 0xa5) return false;',
          '#endif',
          '    return true; } };',
          'static int bad = 0;',
          'static void cmp(const char* what, const unsigned char* got, const unsigned long long* want, const char* nan, int lanes, int w, bool flt)',
          '{', '  for (int i = 0; i < lanes; i++) {',
          '    unsigned long long g = 0; memcpy(&g, got + i * w, w);',
          '    bool ok;',
          "    if (nan[i] == 'n') { float f; double d; if (w == 4) { memcpy(&f, &g, 4); ok = f != f; } else { memcpy(&d, &g, 8); ok = d != d; } }",
          '    else ok = g == want[i];',
          '    if (!ok) { bad = 1; printf("%s lane %d: got 0x%llx, must be %s0x%llx\\n", what, i, g, nan[i] == \'n\' ? "a NaN, not " : "", want[i]); }',
          '  }', '}', '']
    outs = [getattr(c['inputs'], 'outside', {}) for c in calls]
    setting = variant != 'outside' if any(outs) or variant == 'outside' else None
    body = []
    for ci, c in enumerate(calls):
        fn, imm = c['fn'], c['imm']
        L = []
        args = []
        for i, (t, k, nm) in enumerate(fn['params']):
            if t == 'int':
                args.append(str(imm) if imm != -2147483648 else '(-2147483647-1)'); continue
            b = c['inputs'][i]
            L.append('  static const unsigned char i%d[] = { %s };' % (i, carr(b)))
            ty = T(t)
            at = getattr(c['inputs'], 'at', {}).get(i)
            L.append('  Mem m%d(i%d, %d, %d%s);' % (i, i, len(b), ty.esz, '' if at is None else ', %d' % at))
            if k == 'val':
                L.append('  %s a%d; memcpy(&a%d, m%d.p, sizeof a%d);' % (t, i, i, i, i))
                args.append('a%d' % i)
            else:
                args.append('(%s%s*)m%d.p' % ('const ' if k == 'cptr' else '', t, i))
        call = '%s(%s)' % (fn['name'], ', '.join(args))
        loop = c.get('times', 1)
        if fn['ret'] != 'void':
            L.append('  %s r; memset(&r, 0xcd, sizeof r);' % fn['ret'])
            st = '  { %s tmp = %s; memcpy(&r, &tmp, sizeof r); }' % (fn['ret'], call)
            if variant in ('repeat', 'outside'): st += ' memcpy(last%d, &r, sizeof r);' % ci
        else:
            st = '  %s;' % call
        if loop > 1: st = '  for (long it = 0; it < %dL; it++) {\n  %s\n  }' % (loop, st)
        if c.get('round'): st = '  fesetround(0x%x);\n%s\n  fesetround(FE_TONEAREST);' % (c['round'], st)
        if setting is not None: st = ('  outside(%d);\n' % ci if setting else '') + '  errno = errno0;\n' + st
        L.append(st)
        if c.get('grab'):
            p, j, e, _ = c['grab']
            L.append('  memcpy(lane%d, %s + %d, %d);' % (ci, '(const unsigned char*)&r' if p == 'r' else '(const unsigned char*)m%d.p' % p, j * e, e))
        if c.get('abort'):
            L.append('  printf("%s returned for the illegal immediate %s\\n"); return 1;' % (fn['name'], imm))
        if c.get('expect') is not None:
            ty = T(fn['ret'])
            e = c['expect']
            L.append('  static const unsigned long long w[] = { %s };' % ', '.join('0x%xULL' % (x or 0) for x in e))
            L.append('  cmp("%s result", (const unsigned char*)&r, w, "%s", %d, %d, %s);' % (
                fn['name'], ''.join('n' if x is None else '.' for x in e), len(e), ty.esz, 'true' if ty.kind == 'f' else 'false'))
        for p, e in (c.get('mem') or {}).items():
            ty = T(fn['params'][p][0])
            L.append('  static const unsigned long long w%d[] = { %s };' % (p, ', '.join('0x%xULL' % (x or 0) for x in e)))
            L.append('  cmp("%s memory", m%d.p, w%d, "%s", %d, %d, %s);' % (
                fn['name'], p, p, ''.join('n' if x is None else '.' for x in e), len(e), ty.esz, 'true' if ty.kind == 'f' else 'false'))
        for i, (t, k, nm) in enumerate(fn['params']):
            if t == 'int': continue
            if k == 'cptr':
                L.append('  if (memcmp(m%d.p, i%d, sizeof i%d)) { bad = 1; printf("source memory modified\\n"); }' % (i, i, i))
            L.append('  if (!m%d.clean()) { bad = 1; printf("wrote outside the operand\\n"); }' % i)
        if variant in ('repeat', 'outside'): body.append('static unsigned char last%d[%d];\n' % (ci, T(fn['ret']).size if fn['ret'] != 'void' else 1))
        if c.get('grab'): body.append('static unsigned char lane%d[%d]; static const bool nan%d = %s;\n' % (ci, c['grab'][2], ci, 'true' if c['grab'][3] else 'false'))
        if variant == 'leak': body.append('static int operands%d()\n{\n%s\n  return 0;\n}\n' % (ci, '\n'.join(x for x in L if 'Mem m' in x or 'static const unsigned char i' in x)))
        body.append('static int call%d()\n{\n%s\n  return 0;\n}\n' % (ci, '\n'.join(L)))
    if any(outs) and variant != 'outside': body = [outside_code(outs)] + body
    if variant == 'outside': o.append(outside_code(calls[0]['outside']))
    o += body
    if variant == 'outside':
        o += VARIANTS['repeat']
        return '\n'.join(o).replace('    call0();', '    outside(i & 1); call0();') + '\n'
    if variant:
        o += VARIANTS[variant]
        return '\n'.join(o) + '\n'
    o.append('int main()\n{')
    for ci in range(len(calls)): o.append('  if (call%d()) return 1;' % ci)
    o.append('  if (bad) return 1;\n  printf("property holds on this input\\n");\n  return 0;\n}')
    return '\n'.join(o) + '\n'

def outside_code(settings):
    """the answers from outside the program, one setting per phase"""
    o = ['static int phase, errno0; static long turn;']
    env, num = [], {}
    for k, st in enumerate(settings):
        for n, v in st.items():
            if n.startswith('getenv('):
                nm = json.dumps(n[7:-1])
                env.append('  if (ph == %d) %s;' % (k, 'unsetenv(%s)' % nm if v is None else 'setenv(%s, (const char[]){ %s }, 1)' % (nm, ', '.join(str(b if b < 128 else b - 256) for b in v + b'\0'))))
            elif n == 'errno': env.append('  if (ph == %d) errno0 = %d;' % (k, (v[0] ^ 0x80000000) - 0x80000000))
            else: num.setdefault(n, {})[k] = v
    for n, d in num.items():
        o.append('extern "C" long neonv_%s(long* p) __asm__("%s");' % (n, n))
        o.append('extern "C" __attribute__((used)) long neonv_%s(long* %s) { static const unsigned long v[%d][8] = { %s }; long r = (long)v[phase][turn++ %% %d];%s return r; }' % (
            n, 'p', len(settings), ', '.join('{ %s }' % ', '.join('0x%xUL' % x for x in (d.get(k) or [0])[:8]) for k in range(len(settings))),
            max(1, min(8, max(map(len, d.values())))), ' if (p) *p = r;' if n == 'time' else ''))
    o += ['static void outside(int ph) { phase = ph; turn = 0;'] + env + ['}',
          'struct Outside { Outside() { outside(0); } } static outside_ __attribute__((init_priority(101)));']
    return '\n'.join(o)

VARIANTS = {
    'outside': None,
    # the call is made by the initialiser of a namespace-scope object of the caller
    'before-main': ['struct First { First() { if (call0() || bad) { printf("(called before main)\\n"); fflush(stdout); _exit(1); } } };',
                    'static First first __attribute__((init_priority(101)));', 'int main() { printf("property holds on this input\\n"); return 0; }'],
    # the call is made once in main and again while the program ends
    'after-main': ['static void last() { if (call0() || bad) { printf("(called while the program ends)\\n"); fflush(stdout); _exit(1); } }',
                   'struct First { First() { atexit(last); } };', 'static First first __attribute__((init_priority(101)));',
                   'int main() { call0(); bad = 0; return 0; }'],
    # the caller has set another rounding mode
    **{'round-' + n: ['int main()', '{', '  fesetround(%s); int r = call0(); fesetround(FE_TONEAREST);' % c, '  if (r || bad) return 1;',
                      '  printf("property holds on this input\\n");', '  return 0;', '}'] for n, c in (('down', 'FE_DOWNWARD'), ('up', 'FE_UPWARD'), ('zero', 'FE_TOWARDZERO'))},
    # a legal call writes nothing to stdout or stderr
    'io': ['int main()', '{', '  char name[] = "/tmp/neonv_io_XXXXXX"; int t = mkstemp(name); unlink(name);',
           '  fflush(stdout); fflush(stderr); int so = dup(1), se = dup(2); dup2(t, 1); dup2(t, 2);',
           '  call0();', '  fflush(stdout); fflush(stderr); off_t n = lseek(t, 0, SEEK_END); dup2(so, 1); dup2(se, 2);',
           '  if (n > 0) { printf("the call wrote %ld bytes of output\\n", (long)n); return 1; }', '  return 0;', '}'],
    # errno survives a call, whatever it was
    'errno': ['#include <errno.h>', 'int main()', '{', '  const int v[] = { 0, EDOM, ERANGE, EINTR, -1, 12345 };',
              '  for (unsigned i = 0; i < sizeof v / sizeof *v; i++) { errno = v[i]; call0(); int e = errno; if (e != v[i]) { printf("the call changes errno from %d to %d\\n", v[i], e); return 1; } }',
              '  return 0;', '}'],
    # a call leaves no allocated memory behind
    'leak': ['int main()', '{', '  call0(); size_t a = mallinfo2().uordblks; for (int i = 0; i < 64; i++) call0(); size_t b = mallinfo2().uordblks;',
             '  // the harness itself keeps its operand copies: compare with a run that makes only those',
             '  size_t own = a; { own = mallinfo2().uordblks; for (int i = 0; i < 64; i++) operands0(); own = mallinfo2().uordblks - own; }',
             '  if (b - a > own) { printf("64 calls leave %ld bytes allocated\\n", (long)(b - a - own)); return 1; }', '  return 0;', '}'],
    # the same call in two threads
    'race': ['static pthread_barrier_t bar;', 'static void* th(void*)', '{', '  pthread_barrier_wait(&bar);', '  for (int i = 0; i < 200; i++) call0();', '  return 0;', '}',
             'int main()', '{', '  pthread_barrier_init(&bar, 0, 2);', '  pthread_t a, b; pthread_create(&a, 0, th, 0); pthread_create(&b, 0, th, 0);',
             '  pthread_join(a, 0); pthread_join(b, 0);', '  if (bad) printf("a concurrent call returned a wrong result\\n");', '  return bad;', '}'],
    # the same lane of two calls that differ in other lanes only, or two lanes with equal inputs
    'lanes': ['static bool isnan_(const unsigned char* p, int n) { float f; double d; if (n == 4) { memcpy(&f, p, 4); return f != f; } memcpy(&d, p, 8); return d != d; }',
              'static unsigned long long num(const unsigned char* p, int n) { unsigned long long x = 0; memcpy(&x, p, n); return x; }',
              'int main()', '{', '  call0(); call1(); int n = sizeof lane0;', '  if (!memcmp(lane0, lane1, n)) return 0;',
              '  if (nan0 && isnan_(lane0, n) && isnan_(lane1, n)) return 0;',
              '  printf("lane values 0x%llx and 0x%llx must be equal\\n", num(lane0, n), num(lane1, n)); return 1;', '}'],
    # the result of the same call does not change
    'repeat': ['int main()', '{', '  unsigned char first[64]; for (int i = 0; i < 3000; i++) {', '    call0();',
               '    if (!i) memcpy(first, last0, sizeof last0);', '    else if (memcmp(first, last0, sizeof last0)) { printf("call %d with the same operands returned another result\\n", i + 1); return 1; }', '  }', '  return 0;', '}'],
}

def law_program(law, inputs, note, prelude):
    o = ['// ' + l for l in note.split('\n')]
    o += ['// build: g++ -std=gnu++11 -O2 -I/repo THIS.cpp %s -o t && ./t   (non-zero exit = property broken)' % harness.srcs_text(),
          '#include "neon_sim.h"', '#include <stdio.h>', '#include <stdlib.h>', prelude, law.code(),
          'static unsigned char* mem(const unsigned char* init, size_t n) { unsigned char* p = (unsigned char*)malloc(n); memcpy(p, init, n); return p; }',
          'int main()', '{', '  int bad = 0;']
    for i, b in enumerate(inputs):
        o.append('  static const unsigned char i%d[] = { %s };' % (i, carr(b)))
    o.append('  static unsigned char z[%d];' % law.out.size)
    o.append('  unsigned char *l = mem(z, sizeof z), *r = mem(z, sizeof z);')
    o.append('  nsl_%s(%s);' % (law.name, ', '.join('(%s*)%s' % (law.out.name, x) for x in 'lr') +
             ''.join(', (const %s*)mem(i%d, sizeof i%d)' % (t.name, i, i) for i, t in enumerate(law.ins))))
    e, w, n = law.out.esz, law.out.kind, law.out.lanes
    o.append('  for (int i = 0; i < %d; i++) {' % n)
    o.append('    bool same = memcmp(l + i * %d, r + i * %d, %d) == 0;' % (e, e, e))
    if w == 'f' and law.mode == 'fp':
        ft = 'float' if e == 4 else 'double'
        o.append('    %s a, b; memcpy(&a, l + i * %d, %d); memcpy(&b, r + i * %d, %d); if (a != a && b != b) same = true;' % (ft, e, e, e, e))
    o.append('    if (!same) { bad = 1; unsigned long long x = 0, y = 0; memcpy(&x, l + i * %d, %d); memcpy(&y, r + i * %d, %d); printf("lane %%d: left side 0x%%llx, right side 0x%%llx\\n", i, x, y); }' % (e, e, e, e))
    o += ['  }', '  if (!bad) printf("the law holds on this input\\n");', '  return bad;', '}']
    return '\n'.join(o) + '\n'

MODES = {
    'plain': ['g++', '-O2'],
    'O0': ['g++', '-O0'],
    'guardhi': ['g++', '-O0', '-DGUARD_HI'],
    'guardlo': ['g++', '-O0', '-DGUARD_LO'],
    'objsize': ['clang++', '-O1', '-g', '-fsanitize=object-size', '-fno-sanitize-recover=all'],
    'pattern': ['g++', '-O1', '-ftrivial-auto-var-init=pattern'],
    'zero': ['g++', '-O1', '-ftrivial-auto-var-init=zero'],
    'asan': ['clang++', '-O1', '-g', '-DEXACT', '-fsanitize=address,bounds', '-fno-sanitize-recover=all'],
    'ubsan': ['clang++', '-O0', '-g', '-fsanitize=signed-integer-overflow,shift-exponent,float-cast-overflow,integer-divide-by-zero,alignment,bounds,unreachable,return,null',
              '-fno-sanitize-recover=all'],
    'bounds': ['g++', '-O0', '-g', '-fsanitize=bounds-strict', '-fno-sanitize-recover=all'],
    'align': ['clang++', '-O0', '-g', '-DELEMALIGN', '-fsanitize=alignment', '-fno-sanitize-recover=all'],
    'tsan': ['clang++', '-O1', '-g', '-fsanitize=thread', '-pthread'],
    'msan': ['clang++', '-O0', '-g', '-fsanitize=memory'],
}
for _c, (_n, _i) in harness.CONFIGS.items(): MODES['cfg-' + _c] = MODES['user-' + _c] = list(_n)
for _c, _f in harness.PLATFORMS.items(): MODES['plat-' + _c] = ['clang++'] + _f
NOHOST = 97
_libs = {}
def lib(mode, d):
    """the repository's translation unit compiled once per mode"""
    if mode.startswith('user-'): mode = 'plain'      # only the caller is built in another configuration
    key = (mode, d)
    if key not in _libs:
        cc = MODES[mode]
        os_, ok = [], True
        for i, f in enumerate(harness.sources()):
            o = os.path.join(d, 'lib_%s_%d_%d.o' % (mode, os.getpid(), i))
            if mode.startswith('plat-'):
                ok = ok and harness.foreign_object(f, mode[5:], o) is None
                os_.append(o)
                continue
            r = subprocess.run([cc[0], '-std=gnu++11'] + cc[1:] + harness.incs() + ['-w', '-c', f, '-o', o], capture_output=True, text=True)
            ok = ok and r.returncode == 0
            os_.append(o)
        _libs[key] = os_ if ok else None
    return _libs[key]

def run(src, mode, d, timeout=60):
    """-> (returncode, output); None when it could not be built"""
    l = lib(mode, d)
    if l is None: return None, 'library does not compile in mode ' + mode
    cc = MODES[mode]
    exe = src + '.' + mode
    if mode.startswith('plat-'):
        e = harness.foreign_object(src, mode[5:], exe + '.o')
        if e: return 'build', e
        cmd = ['g++', '-Wl,--no-demangle', exe + '.o'] + l + ['-o', exe, '-lm', '-lpthread']
        r = subprocess.run(cmd, capture_output=True, text=True)
        und = sorted(set(re.findall(r"undefined reference to `([\w.$]+)'", r.stderr)))
        if r.returncode and und:
            # members of the standard library as this platform's size_t names them, which the host does not have: where only the
            # name differs they lead to the host's, elsewhere a run that reaches one says nothing
            with open(exe + '.s', 'w') as f:
                f.write('.text\n')
                for u in und:
                    h = u.replace('y', 'm') if mode == 'plat-llp64' and re.match(r'_ZNK?S[st]', u) else None
                    f.write('.globl %s\n%s:\n' % (u, u) + ('  jmp %s@PLT\n' % h if h and h != u else '  mov $%d, %%edi\n  call _exit@PLT\n' % NOHOST))
                f.write('.section .note.GNU-stack,"",@progbits\n')
            r = subprocess.run(cmd + [exe + '.s'], capture_output=True, text=True)
            if r.returncode and mode == 'plat-llp64':
                open(exe + '.t', 'w').write(re.sub(r'  jmp .*', '  mov $%d, %%edi\n  call _exit@PLT' % NOHOST, open(exe + '.s').read()))
                os.replace(exe + '.t', exe + '.s')
                r = subprocess.run(cmd + [exe + '.s'], capture_output=True, text=True)
            os.unlink(exe + '.s')
        os.unlink(exe + '.o')
    else: r = subprocess.run([cc[0], '-std=gnu++11'] + cc[1:] + harness.incs() + ['-w', src] + l + ['-o', exe], capture_output=True, text=True)
    if r.returncode: return 'build', r.stderr[:2000]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([exe], capture_output=True, text=True, timeout=timeout, env=env, errors='replace',
                           preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))
        if mode.startswith('plat-') and r.returncode == NOHOST: return 'build', 'the run reaches a function of the standard library that only the platform has'
        return r.returncode, (r.stdout + r.stderr)[:3000]
    except subprocess.TimeoutExpired:
        return 'timeout', 'did not terminate within %d s' % timeout
    finally:
        try: os.unlink(exe)
        except OSError: pass
