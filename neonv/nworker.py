"""child process that calls wrappers of the native library"""
import sys, json, ctypes
lib = ctypes.CDLL(sys.argv[1], mode=1)
PAD = 64
libm = ctypes.CDLL('libm.so.6')
for ln in sys.stdin:
    q = json.loads(ln)
    try:
        f = getattr(lib, q['f'])
    except AttributeError as e:
        print(json.dumps({'err': str(e)}), flush=True); continue
    f.restype = None
    bufs = [bytes.fromhex(x) for x in q['b']]
    mems = []
    def mk(b):
        n = len(b)
        raw = ctypes.create_string_buffer(n + 2 * PAD + 32)
        base = ctypes.addressof(raw)
        off = (-base) % 16 + PAD
        for i in range(len(raw)): raw[i] = b'\xa5'
        ctypes.memmove(base + off, b, n)
        mems.append((raw, off, n))
        return base + off
    args = []
    osz = q['o']
    if osz: args.append(ctypes.c_void_p(mk(b'\xcd' * osz)))
    it = iter(bufs)
    for k in q['k']:
        if k == 'i': args.append(ctypes.c_int(q['i']))
        else: args.append(ctypes.c_void_p(mk(next(it))))
    if q.get('r'): libm.fesetround(q['r'])
    for _ in range(q['t']): f(*args)
    if q.get('r'): libm.fesetround(0)
    outs, red = [], False
    for raw, off, n in mems:
        r = bytes(raw)
        outs.append(r[off:off + n])
        if r[:off] != b'\xa5' * off or r[off + n:] != b'\xa5' * (len(r) - off - n): red = True
    o = outs.pop(0) if osz else b''
    print(json.dumps({'o': o.hex(), 'b': [x.hex() for x in outs], 'red': red}), flush=True)
