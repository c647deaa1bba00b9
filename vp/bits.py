"""Bit-affine domain: an integer is a vector of bits, each an affine (XOR) form over input bits.

A bit is a frozenset of atoms; the atom 1 stands for the constant one, so the empty set is 0,
{1} is 1 and {x, 1} is the complement of x. TOP marks a bit whose value is not affine.
"""
ZERO = frozenset()
ONE = frozenset([1])
TOP = None

def bxor(a, b):
    if a is TOP or b is TOP: return TOP
    return a ^ b
def bnot(a): return bxor(a, ONE)
def band(a, b):
    if a == ZERO or b == ZERO: return ZERO
    if a == ONE: return b
    if b == ONE: return a
    if a is TOP or b is TOP: return TOP
    if a == b: return a
    if a == bnot(b): return ZERO
    return TOP
def bor(a, b): return bnot(band(bnot(a), bnot(b))) if (a is not TOP and b is not TOP) else (ONE if ONE in (a, b) else (b if a == ZERO else a if b == ZERO else TOP))
def maj(a, b, c):
    # carry of a full adder
    for x, y, z in ((a, b, c), (a, c, b), (b, c, a)):
        if z == ZERO: return band(x, y)
        if z == ONE: return bor(x, y)
        if x == y and x is not TOP: return x
        if x is not TOP and y is not TOP and x == bnot(y): return z
    return TOP

class BV:
    __slots__ = ('w', 'bits')
    def __init__(self, bits):
        self.bits = tuple(bits); self.w = len(self.bits)
    def __eq__(self, o): return isinstance(o, BV) and self.bits == o.bits
    def __hash__(self): return hash(self.bits)
    def const(self):
        v = 0
        for i, b in enumerate(self.bits):
            if b == ONE: v |= 1 << i
            elif b != ZERO: return None
        return v
    def has_top(self): return any(b is TOP for b in self.bits)
    def __repr__(self):
        c = self.const()
        if c is not None: return 'BV%d(%#x)' % (self.w, c)
        return 'BV%d[%s]' % (self.w, ' '.join(fmt(b) for b in reversed(self.bits)))
    def subst(self, m):
        return BV([sub_bit(b, m) for b in self.bits])

def sub_bit(b, m):
    if b is TOP or not b: return b
    r = ZERO; hit = False
    for a in b:
        if a in m: r ^= m[a]; hit = True
        else: r ^= frozenset([a])
    return r if hit else b

def fmt(b):
    if b is TOP: return '?'
    if b == ZERO: return '0'
    if b == ONE: return '1'
    return '^'.join('%s' % ('1' if a == 1 else '.'.join(map(str, a)) if isinstance(a, tuple) else a) for a in sorted(b, key=repr))

def const(v, w): return BV([ONE if (v >> i) & 1 else ZERO for i in range(w)])
def sym(name, w): return BV([frozenset([(name, i)]) for i in range(w)])
def ext(v, w, signed):
    if w <= v.w: return BV(v.bits[:w])
    return BV(v.bits + ((v.bits[-1] if signed else ZERO),) * (w - v.w))
def vxor(a, b): return BV([bxor(x, y) for x, y in zip(a.bits, b.bits)])
def vand(a, b): return BV([band(x, y) for x, y in zip(a.bits, b.bits)])
def vor(a, b): return BV([bor(x, y) for x, y in zip(a.bits, b.bits)])
def vnot(a): return BV([bnot(x) for x in a.bits])
def vadd(a, b, cin=ZERO):
    out = []; c = cin
    for x, y in zip(a.bits, b.bits):
        out.append(bxor(bxor(x, y), c)); c = maj(x, y, c)
    return BV(out)
def vsub(a, b): return vadd(a, vnot(b), ONE)
def vneg(a): return vadd(vnot(a), const(1, a.w))
def shl(a, n): return BV(((ZERO,) * n + a.bits)[:a.w]) if n < a.w else BV((ZERO,) * a.w)
def shr(a, n, signed):
    f = a.bits[-1] if signed else ZERO
    return BV((a.bits[n:] + (f,) * n)[:a.w]) if n < a.w else BV((f,) * a.w)
def vmul(a, k):
    acc = const(0, a.w)
    k &= (1 << a.w) - 1
    # prefer subtraction for -1
    if k == (1 << a.w) - 1: return vneg(a)
    i = 0
    while k:
        if k & 1: acc = vadd(acc, shl(a, i))
        k >>= 1; i += 1
    return acc
