"""Generates the wrappers, compiles them with /repo's sources to LLVM IR (for the
executor) and to a native library (for validation and replay)."""
import os, re, json, subprocess, tempfile, shutil, time, ctypes, sys
from .types import T

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NEONV_REPO', '/repo')
CATALOG = json.load(open(os.path.join(HERE, 'catalog.json')))
BYNAME = {c['name']: c for c in CATALOG}
LLVM = os.environ.get('NEONV_CLANG', 'clang++')
CXXFLAGS = ['-std=gnu++11']
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-gline-tables-only',
           '-S', '-emit-llvm', '-ferror-limit=0', '-w']

class BuildError(Exception): pass

def sources():
    """the library's own sources: what CMakeLists.txt puts into the neon_sim target, when that can be read off"""
    out = []
    try:
        txt = re.sub(r'#[^\n]*', '', open(os.path.join(REPO, 'CMakeLists.txt')).read())
        for m in re.finditer(r'(?:add_library|target_sources)\s*\(\s*neon_sim\b([^)]*)\)', txt):
            for w in m.group(1).replace('"', ' ').split():
                w = w.replace('${CMAKE_CURRENT_SOURCE_DIR}', REPO).replace('${CMAKE_SOURCE_DIR}', REPO).replace('${PROJECT_SOURCE_DIR}', REPO)
                f = os.path.join(REPO, w)
                if re.search(r'\.(c|cc|cpp|cxx)$', w) and os.path.isfile(f): out.append(os.path.normpath(f))
                elif '$' in w: out = None; break
            if out is None: break
    except OSError: out = []
    if not out:
        out = []
        for dp, dn, fn in os.walk(REPO):
            dn[:] = sorted(x for x in dn if not re.match(r'[._]|build|cmake-build|tests?$|examples?$|bench|fuzz', x))
            out += [os.path.join(dp, f) for f in sorted(fn) if re.search(r'\.(c|cc|cpp|cxx)$', f)]
    main = os.path.join(REPO, 'neon_sim.cpp')
    out = list(dict.fromkeys(out))
    return ([main] if main in out or not out else []) + [f for f in out if f != main]

def incs():
    ds = [REPO] + [d for d in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src')) if os.path.isdir(d)]
    return [x for d in ds for x in ('-I', d)]

def srcs_text():
    return ' '.join(sources())

def scratch():
    d = tempfile.mkdtemp(prefix='neonv.')
    import atexit
    pid = os.getpid()
    def rm():
        if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
    atexit.register(rm)
    return d

def own_text():
    own = set(sources())
    for dp, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if not re.match(r'[._]|build|cmake-build|tests?$', x)]
        own |= set(os.path.join(dp, f) for f in fn if re.search(r'\.(h|hh|hpp|hxx|inc|inl|ipp|def)$', f))
    return '\n'.join(open(f, errors='replace').read() for f in sorted(own) if os.path.isfile(f))

def fast_flags():
    """code generation options gcc takes from the text itself (clang ignores them): their clang counterparts"""
    t = own_text()
    o = ' '.join(re.findall(r'#[ \t]*pragma[ \t]+GCC[ \t]+optimize\b([^\n]*)|GCC\s+optimize([^)]*)\)|optimize(?:__)?\s*\(([^)]*)\)', t) and
                 [x for m in re.findall(r'#[ \t]*pragma[ \t]+GCC[ \t]+optimize\b([^\n]*)|GCC\s+optimize([^)]*)\)|optimize(?:__)?\s*\(([^)]*)\)', t) for x in m])
    g = ' '.join(re.findall(r'target(?:_clones)?(?:__)?\s*\(([^)]*)\)', t))
    f = []
    if re.search(r'Ofast|fast-math|unsafe-math', o): f.append('-ffast-math')
    if 'finite-math' in o: f.append('-ffinite-math-only')
    if 'no-signed-zeros' in o: f.append('-fno-signed-zeros')
    if 'reciprocal-math' in o: f.append('-freciprocal-math')
    if 'associative-math' in o: f += ['-fassociative-math', '-fno-signed-zeros', '-fno-trapping-math']
    if re.search(r'\bfma|arch=(?!x86-64"|x86-64-v2)', g): f.append('-ffp-contract=fast')
    if f and '-ffp-contract=fast' not in f: f.append('-ffp-contract=off')
    return f

# N31: configurations a user builds in: name -> (native compiler and flags, flags for the encoding)
CONFIGS = {
    'release': (['g++', '-O3', '-DNDEBUG'], ['-DNDEBUG']),
    'debug': (['g++', '-O0', '-D_GLIBCXX_ASSERTIONS'], ['-D_GLIBCXX_ASSERTIONS']),
    'size': (['g++', '-Os', '-fno-pie', '-no-pie'], []),
    'clang': (['clang++', '-O2'], []),
    'cxx20': (['g++', '-O2', '-std=c++20'], ['-std=c++20']),
    'uchar': (['g++', '-O2', '-funsigned-char'], ['-funsigned-char']),
    'avx2': (['g++', '-O2', '-mavx2', '-ffp-contract=off'], ['-mavx2']),
}
# N32: platforms, as the compiler's front end sees them; the host's headers are used for all of them (xinc: word size, no stubs)
PLATFORMS = {
    'ilp32': ['--target=i686-linux-gnu'],
    'llp64': ['--target=x86_64-w64-windows-gnu', '-D_GNU_SOURCE'],
    'arm64': ['--target=aarch64-linux-gnu'],
    'arm32': ['--target=armv7-linux-gnueabihf'],
    'riscv64': ['--target=riscv64-linux-gnu'],
}
_hdr = []
def foreign_flags(p):
    if not _hdr:
        t = subprocess.run([LLVM, '-E', '-v', '-x', 'c++', '/dev/null'], capture_output=True, text=True).stderr
        ds = [l.strip() for l in t.split('search starts here:')[-1].split('End of search')[0].split('\n') if l.strip().startswith('/')]
        _hdr.extend(['-nostdinc'] + [x for d in [os.path.join(HERE, 'xinc')] + ds for x in ('-isystem', d)])
    return PLATFORMS[p] + _hdr
def cfg_flags(c): return [] if not c else CONFIGS[c][1] if c in CONFIGS else foreign_flags(c)
C_STD = '-std=gnu99'
_pre = {}
def macro_prelude(lang='c++', cfg=None, cstd=C_STD):
    """The library is built by gcc -O2 but encoded through clang -O0.  When its text looks at a predefined macro on
    which the two differ (__OPTIMIZE__, __clang__, ...), give the encoding the value the build has: the system headers
    it names come first, then the macro is changed for the library's own text."""
    if (lang, cfg, cstd) in _pre: return _pre[lang, cfg, cstd]
    text = own_text()
    words = set(re.findall(r'\b[A-Za-z_]\w*', text))
    out = []
    if any(w.startswith('_') for w in words):
        def dump(cc, *o):
            r = subprocess.run([cc, '-std=gnu++11' if lang == 'c++' else cstd, '-dM', '-E', '-x', lang, '/dev/null'] + list(o), capture_output=True, text=True)
            d = {}
            for l in r.stdout.split('\n'):
                m = re.match(r'#define (\w+)(?: (.*))?$', l)
                if m: d[m.group(1)] = m.group(2) or ''
            return d
        if cfg in PLATFORMS: b, e = dump('clang++', '-O2', *foreign_flags(cfg)), dump('clang++', '-O0', *foreign_flags(cfg))
        elif cfg is None: b, e = dump('g++', '-O2', '-fPIC'), dump('clang++', '-O0')
        else: b, e = dump(*CONFIGS[cfg][0]), dump('clang++', '-O0', *CONFIGS[cfg][1])
        for w in sorted(words):
            if w.startswith('_') and b.get(w) != e.get(w): out.append((w, b.get(w)))
    r = []
    if out:
        seen = list(dict.fromkeys(re.findall(r'(?m)^[ \t]*#[ \t]*include[ \t]*(<[^>]+>)', text)))
        if lang == 'c': seen = ['<stdint.h>']
        for h in seen: r += ['#if __has_include(%s)' % h, '#include %s' % h, '#endif']
        for w, v in out:
            r.append('#undef ' + w)
            if v is not None: r.append('#define %s %s' % (w, v))
    _pre[lang, cfg, cstd] = r
    return r

def wrapper(fn, pre='nsv_'):
    ps, call = [], []
    if fn['ret'] != 'void': ps.append('%s* out' % fn['ret'])
    for i, (t, k, _) in enumerate(fn['params']):
        if t == 'int': ps.append('int p%d' % i); call.append('p%d' % i)
        elif k == 'val': ps.append('const %s* p%d' % (t, i)); call.append('*p%d' % i)
        elif k == 'cptr': ps.append('const %s* p%d' % (t, i)); call.append('p%d' % i)
        else: ps.append('%s* p%d' % (t, i)); call.append('p%d' % i)
    ret = '' if fn['ret'] == 'void' else '*out = '
    # the _Static_assert-free check that the prototype is the documented one: the call below must
    # compile with exactly these argument types and the address must have exactly this type
    sig = '%s (*f)(%s) = &%s;' % (fn['ret'], ', '.join(
        ('const %s*' % t if k == 'cptr' else t + '*' if k == 'ptr' else t) for t, k, _ in fn['params']), fn['name'])
    return 'extern "C" void %s%s(%s) { %s%s(%s); }' % (pre, fn['name'], ', '.join(ps), ret, fn['name'], ', '.join(call)), sig

def gen(fns, inc, extra='', ir=False, laws=(), cfg=None, pre='nsv_'):
    # implicit instantiation of std::string members, so that their bodies are in the IR
    out = ['#include <bits/c++config.h>', '#undef _GLIBCXX_EXTERN_TEMPLATE', '#define _GLIBCXX_EXTERN_TEMPLATE 0'] if ir else []
    if ir: out += macro_prelude('c++', cfg)
    out += ['#include "%s"' % i for i in inc]
    lines = {}
    for fn in fns:
        w, _ = wrapper(fn, pre)
        out.append(w)
        lines[len(out)] = fn['name']
    if extra: out += extra.strip('\n').split('\n')
    for l in laws:
        out.append(l.code())
        lines[len(out)] = 'law:' + l.name
    return '\n'.join(out) + '\n', lines

def compile_ir(fns, d, extra='', tag='h', laws=(), cfg=None):
    """-> (ir text, {fn: error})"""
    bad = {}
    flags = CXXFLAGS + IRFLAGS + fast_flags() + cfg_flags(cfg)
    src = os.path.join(d, tag + '.cpp')
    dst = os.path.join(d, tag + '.ll')
    srcs = sources()
    main = os.path.join(REPO, 'neon_sim.cpp')
    cpp = main if main in srcs else os.path.join(REPO, 'neon_sim.h')
    rest = []
    for i, f in enumerate(x for x in srcs if x != cpp):
        o = os.path.join(d, '%s_x%d.ll' % (tag, i))
        xs = os.path.join(d, '%s_x%d.cpp' % (tag, i))
        open(xs, 'w').write(gen((), [f], '', True, cfg=cfg)[0])
        r = subprocess.run([LLVM] + flags + incs() + [xs, '-o', o], capture_output=True, text=True)
        if r.returncode: raise BuildError('%s does not compile:\n%s' % (f, r.stderr[:3000]))
        rest.append(o)
    for attempt in range(8):
        todo = [f for f in fns if f['name'] not in bad]
        text, lines = gen(todo, [cpp], extra, True, [l for l in laws if 'law:' + l.name not in bad], cfg)
        open(src, 'w').write(text)
        r = subprocess.run([LLVM] + flags + incs() + [src, '-o', dst], capture_output=True, text=True)
        if r.returncode == 0:
            if rest:
                q = subprocess.run(['llvm-link', '-S', dst] + rest + ['-o', dst + '.l'], capture_output=True, text=True)
                if q.returncode: raise BuildError('the library sources do not link:\n' + q.stderr[:3000])
                dst += '.l'
            return open(dst).read(), bad
        found = False
        for m in re.finditer(re.escape(src) + r':(\d+):\d+: (?:fatal )?error: (.*)', r.stderr):
            n = lines.get(int(m.group(1)))
            if n and n not in bad:
                bad[n] = m.group(2); found = True
        if not found:
            raise BuildError('neon_sim.cpp does not compile:\n' + r.stderr[:3000])
    raise BuildError('could not isolate compile errors')

C_OTHER = {'nsd_': '-std=c99', 'nse_': '-std=c11', 'nsf_': '-std=gnu17', 'nsg_': '-std=c2x'}     # callers by prefix
def ctypes_():
    """every vector and vector-array type of the implemented interface"""
    l = []
    for c in CATALOG:
        for t in [c['ret']] + [p[0] for p in c['params']]:
            if t not in ('void', 'int') and T(t).n and t not in l: l.append(t)
    return sorted(l)

def c_layout(nm):
    """pseudo entry: initialise lane by lane in C, read back through val[]"""
    t = T(nm)
    return {'name': 'lay_' + nm, 'ret': nm, 'params': [[nm, 'val', 'a']]}
def c_wrapper(fn, pre='nsc_'):
    if fn['name'].startswith('lay_'):
        t = T(fn['ret'])
        a = ['p0->val[%d].val[%d]' % (k, j) for k in range(t.k) for j in range(t.n)] if t.k else ['p0->val[%d]' % j for j in range(t.n)]
        put = ['w.' + x[4:] + ' = v.' + x[4:] + ';' for x in a]
        return 'void %s%s(%s* out, const %s* p0) { %s v = { %s }; %s w; %s *out = w; }' % (
            pre, fn['name'], fn['ret'], fn['ret'], fn['ret'], ', '.join(a), fn['ret'], ' '.join(put))
    return wrapper(fn, pre)[0].replace('extern "C" ', '')

def add_c(txt, fns, d):
    """compiles the wrappers as C against neon_sim.h, once per language standard, and links them with the C++ module
    -> (ir text, {fn: error}, {prefix of a caller that differs from the first: (standard, {fn: error})})"""
    cxx = os.path.join(d, 'cxx.ll')
    open(cxx, 'w').write(txt)
    def one(pre, std):
        bad = {}
        src, dst = os.path.join(d, pre + 'c.c'), os.path.join(d, pre + 'c.ll')
        for attempt in range(8):
            out, lines = macro_prelude('c', None, std) + ['#include "neon_sim.h"'], {}
            for fn in fns:
                if fn['name'] in bad: continue
                out.append(c_wrapper(fn, pre)); lines[len(out)] = fn['name']
            open(src, 'w').write('\n'.join(out) + '\n')
            # implicit declarations are errors: a function the header hides from C is not usable from C
            r = subprocess.run(['clang', std, '-Werror=implicit-function-declaration'] + IRFLAGS + incs() + [src, '-o', dst], capture_output=True, text=True)
            if r.returncode == 0: return dst, bad
            n0 = len(bad)
            for m in re.finditer(re.escape(src) + r':(\d+):\d+: (?:fatal )?error: (.*)', r.stderr):
                n = lines.get(int(m.group(1)))
                if n: bad.setdefault(n, m.group(2))
            m = re.search(r'neon_sim[^\n]*error: (.*)', r.stderr)
            if m and len(bad) == n0:
                return None, {f['name']: 'neon_sim.h is not valid C: ' + m.group(1) if f is fns[0] else '' for f in fns}
            if len(bad) == n0: raise BuildError(r.stderr[:2000])
        return None, bad
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(5) as ex:
        fs = {pre: ex.submit(one, pre, std) for pre, std in [('nsc_', C_STD)] + list(C_OTHER.items())}
        rs = {pre: f.result() for pre, f in fs.items()}
    dst, bad = rs.pop('nsc_')
    if dst is None: return txt, bad, {}
    ref = strip_ir(open(dst).read()).replace('nsc_', '')
    link, other = [cxx, dst], {}
    for pre, (o, b) in rs.items():
        if o is not None and not b and strip_ir(open(o).read()).replace(pre, '') == ref: continue
        other[pre] = (C_OTHER[pre], b)
        if o is not None: link.append(o)
    r = subprocess.run(['llvm-link', '-S'] + link + ['-o', cxx + '.l'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:2000])
    return open(cxx + '.l').read(), bad, other

def strip_ir(t):
    """the program in an IR text, without debug metadata, attributes of the file and comments"""
    t = re.sub(r'(?m)^(source_filename|; ModuleID|!|attributes #).*\n', '', t)
    return re.sub(r',? ![\w.]+ !\d+|![\w.]+ !\d+|, align \d+ !\d+', '', t)

def configs(txt, fns, d):
    """-> ({config: IR of the library built that way, None when it is the IR of the repository's own build}, IR of that build
    plus one caller per configuration, {config: error})"""
    import concurrent.futures as cf
    base = os.path.join(d, 'base.ll')
    open(base, 'w').write(txt)
    ref = strip_ir(txt)
    def one(c):
        try: t, bad = compile_ir(fns, d, '', 'cfg_' + c, (), c)
        except BuildError as e: return c, None, str(e), None
        if bad: return c, None, 'wrappers do not compile: %s' % bad, None
        src, dst = os.path.join(d, 'user_%s.cpp' % c), os.path.join(d, 'user_%s.ll' % c)
        open(src, 'w').write(gen(fns, [os.path.join(REPO, 'neon_sim.h')], '', True, (), c, 'ns%s_' % c)[0])
        r = subprocess.run([LLVM] + CXXFLAGS + IRFLAGS + fast_flags() + CONFIGS[c][1] + incs() + [src, '-o', dst], capture_output=True, text=True)
        if r.returncode: return c, None, r.stderr[:500], None
        return c, t if strip_ir(t) != ref else '', None, dst
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, CONFIGS))
    mods = {c: t or None for c, t, e, u in rs if e is None}
    users = [u for c, t, e, u in rs if u]
    r = subprocess.run(['llvm-link', '-S', base] + users + ['-o', base + '.l'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:2000])
    return mods, open(base + '.l').read(), {c: e for c, t, e, u in rs if e}

def platforms(fns, d):
    """-> ({platform: IR of the library}, {platform: error})"""
    import concurrent.futures as cf
    def one(c):
        try: t, bad = compile_ir(fns, d, '', 'plat_' + c, (), c)
        except BuildError as e: return c, None, str(e)
        return (c, None, 'wrappers do not compile: %s' % bad) if bad else (c, t, None)
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, PLATFORMS))
    return {c: t for c, t, e in rs if t}, {c: e for c, t, e in rs if e}

_host = []
def foreign_object(src, p, out, flags=()):
    """a source as the front end for platform p translates it, with the host's code generator behind it -> error or None"""
    if not _host:
        _host.append([l for l in subprocess.run([LLVM, '-S', '-emit-llvm', '-x', 'c++', '/dev/null', '-o', '-'], capture_output=True, text=True).stdout.split('\n') if l.startswith('target ')])
    r = subprocess.run([LLVM] + CXXFLAGS + ['-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-S', '-emit-llvm', '-w'] + fast_flags() + foreign_flags(p) + list(flags) + incs() + [src, '-o', out + '.ll'], capture_output=True, text=True)
    if r.returncode: return r.stderr[:2000]
    t = open(out + '.ll').read()
    t = '\n'.join(_host[0]) + '\n' + re.sub(r'(?m)^target (datalayout|triple) = .*\n', '', t)
    t = re.sub(r'"(target-cpu|target-features|tune-cpu|target-abi)"="[^"]*"', '', t)
    t = re.sub(r'\b(arm_aapcs_vfpcc|arm_aapcscc|x86_stdcallcc|x86_thiscallcc|x86_fastcallcc)\b', '', t).replace('__gxx_personality_seh0', '__gxx_personality_v0')
    t = re.sub(r'(?m)^!llvm\.module\.flags.*\n', '', t)
    open(out + '.ll', 'w').write(t)
    r = subprocess.run([LLVM, '-O1', '-fPIC', '-w', '-c', out + '.ll', '-o', out], capture_output=True, text=True)
    os.unlink(out + '.ll')
    return r.stderr[:2000] if r.returncode else None

def build_native(fns, d, cxx='g++', opt=('-O2',), tag='n'):
    """the library as the build makes it (own translation unit) plus the wrappers -> .so"""
    src = os.path.join(d, tag + '_w.cpp')
    so = os.path.join(d, tag + '.so')
    bad = {}
    objs = [os.path.join(d, '%s_lib%d.o' % (tag, i)) for i, _ in enumerate(sources())]
    ps = [subprocess.Popen([cxx] + CXXFLAGS + list(opt) + incs() + ['-fPIC', '-w', '-c', f, '-o', o],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for f, o in zip(sources(), objs)]
    for attempt in range(8):
        todo = [f for f in fns if f['name'] not in bad]
        text, lines = gen(todo, [os.path.join(REPO, 'neon_sim.h')])
        open(src, 'w').write(text)
        wo = os.path.join(d, tag + '_w.o')
        r = subprocess.run([cxx] + CXXFLAGS + incs() + ['-O1', '-fPIC', '-w', '-c', src, '-o', wo], capture_output=True, text=True)
        if r.returncode == 0: break
        found = False
        for m in re.finditer(re.escape(src) + r':(\d+):\d+: (?:fatal )?error: (.*)', r.stderr):
            n = lines.get(int(m.group(1)))
            if n and n not in bad: bad[n] = m.group(2); found = True
        if not found: raise BuildError(r.stderr[:3000])
    for p in ps:
        o, e = p.communicate()
        if p.returncode: raise BuildError('the library does not compile with %s:\n%s' % (cxx, e[:3000]))
    r = subprocess.run([cxx, '-shared', '-o', so, wo] + objs + ['-Wl,-z,lazy', '-lm'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    und = subprocess.run(['nm', '-D', '-u', so], capture_output=True, text=True).stdout
    undefined = set(x.split()[-1].split('@')[0] for x in und.splitlines() if x.split())
    return so, bad, undefined

# ------------------------------------------------------------- native calls
class Native:
    """calls wrappers in a child process; survives crashes"""
    def __init__(self, so):
        self.so = so
        self.p, self.rm = None, 0
    def start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'nworker.py'), self.so],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def call(self, fn, bufs, imm=None, times=1, timeout=20):
        """bufs: list of bytes, one per pointer-passed parameter (in order).
        -> ('ok', out bytes, [bytes after]) | ('died', signal) | ('timeout',)"""
        if self.p is None or self.p.poll() is not None: self.start()
        osz = T(fn['ret']).size if fn['ret'] != 'void' else 0
        req = {'f': 'nsv_' + fn['name'], 'o': osz, 'b': [x.hex() for x in bufs],
               'k': [('i' if t == 'int' else 'p') for t, k, _ in fn['params']], 'i': imm, 't': times, 'r': self.rm}
        try:
            self.p.stdin.write(json.dumps(req) + '\n'); self.p.stdin.flush()
        except BrokenPipeError:
            pass
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill(); self.p.wait(); self.p = None
            return ('timeout',)
        ln = self.p.stdout.readline()
        if not ln:
            rc = self.p.wait(); self.p = None
            return ('died', -rc)
        j = json.loads(ln)
        if 'err' in j: return ('err', j['err'])
        return ('ok', bytes.fromhex(j['o']), [bytes.fromhex(x) for x in j['b']], j['red'])
    def close(self):
        if self.p is not None:
            try: self.p.stdin.close(); self.p.wait(2)
            except Exception: self.p.kill()
            self.p = None
