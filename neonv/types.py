"""NEON type names -> lane layout."""
import re

class VT:
    """vector / array-of-vectors / scalar type"""
    __slots__ = ('name', 'kind', 'w', 'n', 'k')
    def __init__(self, name):
        self.name = name
        m = re.match(r'^(u?int|float)(\d+)(?:x(\d+))?(?:x(\d+))?_t$', name)
        if m:
            self.kind = {'uint': 'u', 'int': 's', 'float': 'f'}[m.group(1)]
            self.w = int(m.group(2))
            self.n = int(m.group(3)) if m.group(3) else 0      # 0: scalar
            self.k = int(m.group(4)) if m.group(4) else 0      # 0: not an array type
        elif name == 'int':
            self.kind, self.w, self.n, self.k = 's', 32, 0, 0
        elif name == 'float':
            self.kind, self.w, self.n, self.k = 'f', 32, 0, 0
        elif name == 'void':
            self.kind, self.w, self.n, self.k = 'v', 0, 0, 0
        else:
            raise ValueError(name)
    @property
    def lanes(self): return max(self.n, 1) * max(self.k, 1)
    @property
    def esz(self): return self.w // 8
    @property
    def size(self): return self.lanes * self.esz
    @property
    def signed(self): return self.kind == 's'
    def __repr__(self): return self.name

_c = {}
def T(name):
    t = _c.get(name)
    if t is None: t = _c[name] = VT(name)
    return t
