"""Linear-inequality domain (small polyhedra) over opaque integer terms, and path facts."""
from math import gcd

class Lin:
    __slots__ = ('c', 'm', '_h')
    def __init__(self, m, c):
        self.m = m; self.c = c; self._h = None
    def key(self):
        return (self.c, frozenset(self.m.items()))
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m
    def __repr__(self):
        return 'Lin(%s)' % (' + '.join(['%s%s' % ('' if k == 1 else '%d*' % k, short(s)) for s, k in sorted(self.m.items(), key=lambda x: repr(x))] + ([str(self.c)] if self.c or not self.m else [])))

def short(t):
    s = repr(t)
    return s if len(s) < 60 else s[:57] + '...'

def to_lin(v):
    if isinstance(v, Lin): return v
    if isinstance(v, bool): return Lin({}, int(v))
    if isinstance(v, int): return Lin({}, v)
    return Lin({v: 1}, 0)

def norm(l):
    if not l.m: return l.c
    if l.c == 0 and len(l.m) == 1:
        (s, k), = l.m.items()
        if k == 1: return s
    return l

def add(a, b, kb=1):
    a = to_lin(a); b = to_lin(b)
    m = dict(a.m)
    for s, k in b.m.items():
        n = m.get(s, 0) + kb * k
        if n: m[s] = n
        else: m.pop(s, None)
    return norm(Lin(m, a.c + kb * b.c))

def mul(a, k):
    a = to_lin(a)
    if k == 0: return 0
    return norm(Lin({s: x * k for s, x in a.m.items()}, a.c * k))

_GLOBAL = {}
class Facts:
    """Conjunction of linear facts l >= 0 plus disequalities l != 0, with symbol ranges."""
    def __init__(self):
        self.ge = []       # list of Lin, meaning >= 0
        self.ne = set()    # set of normalised Lin keys, meaning != 0
        self.rng = {}      # symbol -> (lo, hi)
        self.cache = {}
        self.fp = 0        # fingerprint of the sequence of facts: paths share prefixes, so do queries
    def set_range(self, s, lo, hi):
        if s not in self.rng:
            self.rng[s] = (lo, hi); self.touch(('r', s, lo, hi))
        else:
            o = self.rng[s]
            n = (max(o[0], lo), min(o[1], hi))
            if n != o:
                self.rng[s] = n; self.touch(('r', s) + n)
    def touch(self, k):
        self.fp = hash((self.fp, k)); self.cache.clear()
    def add_ge(self, l):
        l = to_lin(l); self.ge.append(l); self.touch(('g', l.key()))
    def add_eq(self, l):
        l = to_lin(l); self.add_ge(l); self.add_ge(mul(l, -1))
    def add_ne(self, l):
        self.ne.add(self.nekey(l))
    def nekey(self, l):
        l = to_lin(l)
        if l.m:
            s = min(l.m, key=repr)
            if l.m[s] < 0: l = to_lin(mul(l, -1))
        return l
    def entails_ge(self, l):
        """is l >= 0 implied?"""
        l = to_lin(l)
        if not l.m: return l.c >= 0
        k = l.key()
        if k in self.cache: return self.cache[k]
        g = (self.fp, k)
        r = _GLOBAL.get(g)
        if r is None:
            r = _GLOBAL[g] = self._entails(l)
        self.cache[k] = r
        return r
    def _entails(self, goal):
        # refute: goal <= -1 together with the facts, by Fourier-Motzkin elimination
        lo = goal.c
        for s, k in goal.m.items():
            r = self.rng.get(s)
            b = (r[0] if k > 0 else r[1]) if r else None
            if b is None: lo = None; break
            lo += k * b
        if lo is not None and lo >= 0: return True
        neg = to_lin(add(mul(goal, -1), -1))
        syms = set(neg.m)
        sys = [neg]
        pool = list(self.ge)
        changed = True
        used = [False] * len(pool)
        while changed:
            changed = False
            for i, f in enumerate(pool):
                if not used[i] and (set(f.m) & syms):
                    used[i] = True; sys.append(f); syms |= set(f.m); changed = True
        for s in list(syms):
            if s in self.rng:
                lo, hi = self.rng[s]
                if lo is not None: sys.append(Lin({s: 1}, -lo))
                if hi is not None: sys.append(Lin({s: -1}, hi))
        return refute(sys)
    def eq_status(self, l):
        """True/False/None for l == 0"""
        l = to_lin(l)
        if not l.m: return l.c == 0
        if self.entails_ge(add(l, -1)) or self.entails_ge(add(mul(l, -1), -1)): return False
        if self.nekey(l) in self.ne: return False
        if self.entails_ge(l) and self.entails_ge(mul(l, -1)): return True
        # two-valued facts from disequalities: l in [0,1] and l != 1
        return None
    def ge_status(self, l):
        if self.entails_ge(l): return True
        if self.entails_ge(add(mul(l, -1), -1)): return False
        # l >= 0 with l != 0 tightening
        return None

def refute(sys):
    """is the conjunction of l >= 0 over the integers contradictory? Fourier-Motzkin elimination; rows with the
    same coefficients keep the tightest constant, rows are divided by the gcd of their coefficients"""
    sys = [to_lin(x) for x in sys]
    syms = sorted({s for f in sys for s in f.m}, key=repr); ix = {s: i for i, s in enumerate(syms)}; n = len(syms)
    rows = {}
    def put(rs, v, c):
        """v: sorted tuple of (symbol, coefficient); False on contradiction"""
        if not v: return c >= 0
        g = 0
        for _, x in v: g = gcd(g, x)
        if g > 1: v = tuple((i, x // g) for i, x in v); c = c // g
        o = rs.get(v)
        if o is None or c < o:
            rs[v] = c
            o = rs.get(tuple((i, -x) for i, x in v))
            if o is not None and o + c < 0: return False
        return True
    for f in sys:
        if not put(rows, tuple(sorted((ix[s], k) for s, k in f.m.items())), f.c): return True
    steps = 0
    while rows:
        cp = [0] * n; cn = [0] * n
        for v in rows:
            for i, x in v:
                if x > 0: cp[i] += 1
                else: cn[i] += 1
        best = None
        for i in range(n):
            if cp[i] or cn[i]:
                k = cp[i] * cn[i]
                if best is None or k < best[0]: best = (k, i)
        i = best[1]
        pos = []; neg = []; new = {}
        for v, c in rows.items():
            for j, x in v:
                if j == i: (pos if x > 0 else neg).append((v, c, x)); break
            else: new[v] = c
        for v, c, x in pos:
            for w, d, y in neg:
                m = {j: -y * z for j, z in v}
                for j, z in w:
                    t = m.get(j, 0) + x * z
                    if t: m[j] = t
                    else: m.pop(j, None)
                if not put(new, tuple(sorted(m.items())), -y * c + x * d): return True
        rows = new; steps += 1
        if len(rows) > 600 or steps > 80: return False
    return False
