"""Path-sensitive abstract evaluation of the resolved AST.

Values are provenance terms (nested tuples), linear forms over terms (lin.Lin) or bit vectors of
affine bits (bits.BV). One evaluator run follows one path of the function's flow graph; `explore`
enumerates the paths (loops: bounded generic iterations). Nothing of the program is executed and
no solver is involved: conditions are decided from the facts collected on the path or split.
"""
from .lin import Lin, Facts, to_lin, add, mul, norm
from . import bits as B
from .bits import BV

class Prune(Exception): pass            # path infeasible or beyond the loop bound
class LoopLimit(Prune):
    t = '<loop bound>'
class AnalysisError(Exception): pass
class CppThrow(Exception):
    def __init__(self, t, v=None, line=0): self.t = t; self.v = v; self.line = line
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass

class Struct:
    __slots__ = ('cls', 'base', 'f', '_h')
    def __init__(self, cls, base=None, f=None): self.cls = cls; self.base = base; self.f = f or {}; self._h = None
    def with_(self, k, v):
        f = dict(self.f); f[k] = v
        return Struct(self.cls, self.base, f)
    def key(self): return (self.cls, self.base, frozenset(self.f.items()))
    def __hash__(self):
        if self._h is None: self._h = hash((self.cls, frozenset(self.f)))
        return self._h
    def __eq__(self, o): return isinstance(o, Struct) and self.base == o.base and self.f == o.f
    def __repr__(self): return '%s{%s%s}' % ((self.cls or '').split('::')[-1], ('%r|' % (self.base,)) if self.base is not None else '', ', '.join('%s=%r' % i for i in sorted(self.f.items())))

class Closure:
    """lambda value: AST node, captured environment (by value) or locations (by reference)"""
    __slots__ = ('node', 'env', 'this', 'tu', 'uid', 'fnstack')
    def __init__(self, node, env, this, tu, uid): self.node = node; self.env = env; self.this = this; self.tu = tu; self.uid = uid
    def __hash__(self): return hash(('closure', self.uid))
    def __eq__(self, o): return isinstance(o, Closure) and o.uid == self.uid
    def __repr__(self): return 'closure@%s' % self.node['l']

class Event:
    __slots__ = ('kind', 'q', 'obj', 'args', 'res', 'line', 'file', 'fn', 'held', 'log', 'node', 'extra')
    def __init__(self, kind, q, obj=None, args=(), res=None, line=0, file='', fn='', held=(), log=False, node=None, extra=None):
        self.kind = kind; self.q = q; self.obj = obj; self.args = args; self.res = res; self.line = line; self.file = file; self.fn = fn; self.held = held; self.log = log; self.node = node; self.extra = extra
    def __repr__(self):
        return '<%s %s obj=%r args=%r -> %r @%s:%s held=%r>' % (self.kind, self.q, self.obj, self.args, self.res, self.file.split('/')[-1], self.line, self.held)

MAXI = {('b', True): None}
def irange(b, u):
    if u: return (0, (1 << b) - 1)
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
def wrapc(v, b, u):
    v &= (1 << b) - 1
    if not u and b > 1 and v >> (b - 1): v -= 1 << b
    return v

EXC_BASES = {
    'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::bad_alloc': 'std::exception', 'std::bad_function_call': 'std::exception', 'std::bad_cast': 'std::exception', 'QException': 'std::exception', 'std::system_error': 'std::runtime_error',
}

def strip_t(t):
    t = t.strip()
    while True:
        o = t
        for s in ('const ', 'volatile '):
            if t.startswith(s): t = t[len(s):]
        for s in (' &&', ' &', '&', ' const'):
            if t.endswith(s): t = t[:-len(s)].strip()
        if t == o: return t

def cls_of_type(t):
    """record name of a type string without template arguments"""
    t = strip_t(t)
    r = ''; d = 0
    for c in t:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: r += c
    return r.strip()

class Config:
    """rule-specific knobs of the evaluator"""
    def __init__(self, prog, **kw):
        self.prog = prog
        self.opaque = set()          # qualified names never inlined
        self.opaque_pred = None      # predicate(function) -> bool
        self.maythrow = {}           # qualified name -> tuple of exception types
        self.models = {}             # extra models by qualified name
        self.watch = None            # predicate(root, path) -> label or None : memory access events
        self.loop_max = 2            # undecided loop iterations
        self.loop_hard = 90          # decided loop iterations
        self.loop_havoc = False
        self.divmod = False          # follow / and % by constants exactly
        self.first_call = False      # static locals start with their initial value, not with an unknown one
        self.keep_moves = False      # pass the location of x for std::move(x)
        self.keep_limit = False      # report paths cut at loop_hard (exc is a LoopLimit)
        self.max_paths = 6000
        self.sizes = (0, 1, 2)       # cardinalities explored for opaque containers
        self.bitmode = False
        self.virt_inline = True
        self.max_depth = 40
        self.noexc = set()
        self.on_call = None
        self.on_new = None
        self.on_loop = None          # hook(I, stmt, 'cond'|'begin'|'end', x)
        self.havoc_value = None      # hook(I, root, before, now) -> value
        self.out_value = None        # hook(I, q, i, loc, old) -> value written through a by-reference argument
        for k, v in kw.items(): setattr(self, k, v)

def entry_term(t):
    return isinstance(t, tuple) and bool(t) and t[0] in ('arg', 'stream', 'this')
class Interp:
    def __init__(self, cfg, decisions=()):
        self.cfg = cfg; self.prog = cfg.prog
        self.dec = list(decisions); self.taken = []
        self.store = {}; self.facts = Facts(); self.trace = []
        self.frames = []; self.held = []; self.uid = 0; self.inlog = 0
        self.bsub = {}; self.bnz = []
        self.choices = []           # human-readable path description
        self.fnstack = []
        self.ver = {}
        self.user = {}
        self.ntemp = 0
        self.conns = []
        self.curline = 0

    # ---------- path choices
    def choose(self, n, label=''):
        i = len(self.taken)
        c = self.dec[i] if i < len(self.dec) else 0
        self.taken.append((c, n))
        self.choices.append((label, c, self.curline))
        return c
    def fresh(self, tag):
        self.uid += 1
        return ('fresh', tag, self.uid)

    # ---------- booleans
    def truth(self, v, label=''):
        v = self.bn(v)
        if isinstance(v, (bool, int)): return bool(v)
        if isinstance(v, BV): return self.bv_truth(v)
        if isinstance(v, (Closure, Struct)): return True
        if isinstance(v, tuple):
            if v[0] == 'not': return not self.truth(v[1], label)
            if v[0] == 'cmp': return self.dec_cmp(v[1], v[2], label)
            if v[0] in ('addr', 'fnref', 's', 'dptr', 'rptr'): return True
            if v[0] == 'and': return all(self.truth(x, label) for x in v[1:])
        return not self.dec_cmp('eq', norm(to_lin(v)), label)
    def dec_cmp(self, kind, l, label=''):
        l = to_lin(l)
        if kind == 'eq':
            s = self.facts.eq_status(l)
            if s is None:
                d = self.user.get('decide'); s = d(self, l) if d else None
                if s is None: s = self.choose(2, label or ('eq', norm(l))) == 0
                if s: self.assume_eq(l)
                else: self.assume_ne(l)
            return s
        s = self.facts.ge_status(l)
        if s is None:
            s = self.choose(2, label or ('ge', norm(l))) == 0
            if s: self.facts.add_ge(l)
            else: self.facts.add_ge(add(mul(l, -1), -1))
        return s
    def assume_eq(self, l):
        self.facts.add_eq(l)
        self.after_assume()
    def assume_ne(self, l):
        l = to_lin(l)
        self.facts.add_ne(l)
        # tighten on bounded values
        if self.facts.entails_ge(l): self.facts.add_ge(add(l, -1))
        elif self.facts.entails_ge(mul(l, -1)): self.facts.add_ge(add(mul(l, -1), -1))
        self.after_assume()
    def after_assume(self): pass
    def status(self, v):
        """True/False/None without splitting"""
        v = self.bn(v)
        if isinstance(v, (bool, int)): return bool(v)
        if isinstance(v, BV):
            c = v.const(); return None if c is None else bool(c)
        if isinstance(v, (Closure, Struct)): return True
        if isinstance(v, tuple):
            if v[0] == 'not':
                s = self.status(v[1]); return None if s is None else not s
            if v[0] == 'cmp':
                return self.facts.eq_status(v[2]) if v[1] == 'eq' else self.facts.ge_status(v[2])
            if v[0] in ('addr', 'fnref', 's', 'dptr', 'rptr'): return True
        s = self.facts.eq_status(to_lin(v))
        return None if s is None else not s
    # bit vectors
    def bn(self, v):
        if isinstance(v, BV):
            if self.bsub: v = v.subst(self.bsub)
            return v
        return v
    def bv_truth(self, v):
        c = v.const()
        if c is not None: return c != 0
        if any(b == B.ONE for b in v.bits): return True
        for z in self.bnz:
            z = z.subst(self.bsub)
            if not z.has_top() and set(b for b in z.bits if b != B.ZERO) <= set(v.bits): return True
        non = [b for b in v.bits if b != B.ZERO]
        if any(b is B.TOP for b in non): 
            return self.choose(2, 'bits') == 0
        r = self.choose(2, ('nonzero', v)) == 0
        if not r:
            for b in non: self.bset(sub1(b, self.bsub), B.ZERO)
        else:
            if len(set(non)) == 1: self.bset(sub1(non[0], self.bsub), B.ONE)
            else: self.bnz.append(v)
        for z in self.bnz:
            if z.subst(self.bsub).const() == 0: raise Prune()
        return r
    def bset(self, b, val):
        if b == val: return
        if b in (B.ZERO, B.ONE): raise Prune()
        syms = [a for a in b if a != 1]
        a = sorted(syms, key=repr)[0]
        # a = val ^ (b without a)
        rhs = val ^ (b - frozenset([a]))
        new = {k: B.sub_bit(x, {a: rhs}) for k, x in self.bsub.items()}
        new[a] = rhs
        self.bsub = new

    # ---------- comparison construction
    def mk_eq(self, a, b):
        a = self.bn(a); b = self.bn(b)
        if isinstance(a, BV) or isinstance(b, BV):
            if isinstance(a, BV) and isinstance(b, BV): return ('not', B.vxor(a, B.ext(b, a.w, False))) if a.w == b.w else self.fresh('bveq')
            if isinstance(b, BV): a, b = b, a
            if isinstance(b, int):
                x = B.vxor(a, B.const(b, a.w))
                return ('not', x)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('cast',) and b[:1] == ('cast',) and a[1:3] == b[1:3]:
            ra, rb = (self.facts.rng.get(x[3]) if isinstance(x[3], tuple) else None for x in (a, b))
            if ra and rb and None not in ra + rb and max(ra[1], rb[1]) - min(ra[0], rb[0]) < 1 << a[1]: return self.mk_eq(a[3], b[3])
        if isinstance(a, tuple) and a and a[0] in ('addr', 'fnref', 's', 'dptr') and isinstance(b, int): return 0
        if isinstance(b, tuple) and b and b[0] in ('addr', 'fnref', 's', 'dptr') and isinstance(a, int): return 0
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 's' and b[0] == 's': return int(a == b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'addr' and b[0] == 'addr':
            if a == b: return 1
            if self.distinct_roots(a[1], b[1]): return 0
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ('rptr', 'dptr') and a[1] == b[1]:
            return self.mk_eq(a[2], b[2])
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ('iter', 'mit', 'mend') and b[0] in ('iter', 'mit', 'mend'):
            from . import models
            r = models.iter_eq(self, a, b)
            if r is not NotImplemented: return r
        for x, y in ((a, b), (b, a)):
            # an object created on this path is none of those that existed before
            if isinstance(x, tuple) and x[:1] == ('addr',) and x[1][0][0] == 'heap' and entry_term(y): return 0
        if isinstance(a, (Closure,)) and isinstance(b, int): return 0
        if isinstance(b, (Closure,)) and isinstance(a, int): return 0
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a == b)
        if a == b and not isinstance(a, BV): return 1
        if isinstance(a, Struct) and isinstance(b, Struct) and a.base is None and b.base is None and set(a.f) == set(b.f):
            return ('and',) + tuple(self.mk_eq(a.f[k], b.f[k]) for k in sorted(a.f))
        # booleans compared with constants
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] in ('cmp', 'not', 'and') and isinstance(y, int):
                return x if y else ('not', x)
        d = to_lin(add(a, b, -1))
        return ('cmp', 'eq', norm_sign(d))
    def distinct_roots(self, l1, l2):
        r1, r2 = l1[0], l2[0]
        conc = ('v', 'heap', 'tmp', 'g')
        return r1 != r2 and r1[0] in conc and r2[0] in conc
    def mk_rel(self, op, a, b, b_, u):
        a = self.bn(a); b = self.bn(b)
        if isinstance(a, BV) or isinstance(b, BV):
            ca = a.const() if isinstance(a, BV) else a if isinstance(a, int) else None
            cb = b.const() if isinstance(b, BV) else b if isinstance(b, int) else None
            if ca is not None and cb is not None: a, b = ca, cb
            else:
                # unsigned comparison with a power of two is a test of the upper bits
                r = self.bv_rel(op, a, b, u)
                if r is not None: return r
                return self.fresh('bvrel')
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
        if op == '<': l = add(add(b, a, -1), -1)
        elif op == '<=': l = add(b, a, -1)
        elif op == '>': l = add(add(a, b, -1), -1)
        else: l = add(a, b, -1)
        if isinstance(l, int): return int(l >= 0)
        return ('cmp', 'ge', l)
    def bv_rel(self, op, a, b, u):
        if isinstance(a, BV) and isinstance(b, int):
            sgn = not u
            if sgn and b == 0 and op in ('<', '>='):
                t = BV([a.bits[-1]]); return t if op == '<' else ('not', t)
            if sgn and b == -1 and op in ('>', '<='):
                t = BV([a.bits[-1]]); return ('not', t) if op == '>' else t
            if u or a.bits[-1] == B.ZERO:
                k = None
                if op in ('>=', '<') and b > 0 and b & (b - 1) == 0: k = b.bit_length() - 1; hi = op == '>='
                if op in ('>', '<=') and b >= 0 and (b + 1) & b == 0: k = (b + 1).bit_length() - 1; hi = op == '>'
                if k is not None:
                    if k >= a.w: return int(not hi)
                    t = BV(a.bits[k:]); return t if hi else ('not', t)
                if b == 0 and op == '<=': return ('not', a)
                if b == 0 and op == '<': return 0
                if b == 0 and op == '>=': return 1
                if b == 1 and op == '>=': return a
                if b == 1 and op == '<': return ('not', a)
        if isinstance(b, BV) and isinstance(a, int):
            return self.bv_rel({'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op], b, a, u)
        return None

    # ---------- memory
    def initval(self, root):
        if root[0] == 'this': return ('this',)
        return ('init', root)
    def read(self, loc):
        root, path = loc
        if self.cfg.watch is not None:
            w = self.cfg.watch(self, root, path)
            if w: self.emit('read', w, args=(loc,))
        v = self.store.get(root)
        if v is None: v = self.initval(root)
        for p in path: v = self.proj(v, p)
        return self.bn(v)
    def proj(self, v, p):
        if isinstance(p, tuple) and p[0] == '#':
            from . import models
            return models.elem(self, v, p[1])
        if isinstance(p, tuple) and p[0] == '[]':
            if isinstance(v, Struct):
                if p in v.f: return v.f[p]
                if v.base is None: return ('dflt', p[1])
                v = v.base
            if isinstance(p[1], tuple) and p[1][:2] == ('key', v): return ('val', v, p[1][2])
            return ('at', v, p[1])
        if isinstance(v, Struct):
            if p in v.f: return v.f[p]
            if v.base is not None: return ('fld', v.base, p)
            return ('uninit', v.cls, p)
        return ('fld', v, p)
    def write(self, loc, val):
        root, path = loc
        if self.cfg.watch is not None:
            w = self.cfg.watch(self, root, path)
            if w: self.emit('write', w, args=(loc, val))
        self.rawwrite(loc, val)
    def rawwrite(self, loc, val):
        root, path = loc
        if not path:
            self.store[root] = val; return
        cur = self.store.get(root)
        if cur is None: cur = self.initval(root)
        self.store[root] = self._upd(cur, path, val)
    def _upd(self, v, path, val):
        if not path: return val
        if not isinstance(v, Struct): v = Struct('?', v)
        return v.with_(path[0], self._upd(self.proj(v, path[0]), path[1:], val))
    def newtemp(self, val=None):
        self.ntemp += 1
        loc = (('tmp', self.ntemp), ())
        if val is not None: self.store[loc[0]] = val
        return loc
    def newheap(self, cls, val=None):
        self.ntemp += 1
        loc = (('heap', self.ntemp, cls), ())
        self.store[loc[0]] = val if val is not None else Struct(cls)
        return loc
    def deref(self, p, why=None):
        """location a pointer value designates"""
        if isinstance(p, tuple) and p and p[0] == 'addr': return p[1]
        if isinstance(p, tuple) and p and p[0] == 'iter': return self.models_iter_loc(p)
        return (('deref', p), ())
    def models_iter_loc(self, it):
        from . import models
        return models.iter_loc(self, it)

    # ---------- events
    def emit(self, kind, q, obj=None, args=(), res=None, node=None, extra=None):
        e = Event(kind, q, obj, tuple(args), res, self.curline, self.frames[-1]['file'] if self.frames else '', self.frames[-1]['q'] if self.frames else '', tuple(self.held), bool(self.inlog), node, extra)
        self.trace.append(e)
        return e

    # ---------- frames and variables
    def frame(self): return self.frames[-1]
    def varloc(self, n):
        if 'g' in n and not n.get('sl'):
            key = ('g', n['g']) + ((repr(n['cta']),) if 'cta' in n else ())
            fr = self.frames[-1]['env'].get(('gref', n['g'])) if self.frames else None
            if fr is not None: return fr
            g = self.prog.globals.get(n['g'])
            if g and g.get('const') and key not in self.store and 'init' in g and not self.user.get('noginit'):
                self.store[key] = ('init', key)
                self.frames.append({'env': {}, 'q': n['g'], 'file': g['file'], 'this': None, 'tu': g['_tu'], 'scopes': [[]]})
                try: v = self.ev(g['init'])
                finally: self.frames.pop()
                self.store[key] = v
            return (key, ())
        if 'g' in n and n.get('sl'):
            return (('g', n['g'], n['id']), ())
        for fr in (self.frames[-1],):
            loc = fr['env'].get((fr['tu'], n['id']))
            if loc is not None: return loc
        return (('v', 'unbound', self.frames[-1]['tu'], n['id'], n['n']), ())

    # ---------- expressions
    def ln(self, n):
        l = n.get('l')
        if l and not n.get('f'): self.curline = l
    def lv(self, n):
        k = n['k']
        self.ln(n)
        if k == 'var': return self.varloc(n)
        if k == 'mem':
            if n.get('arrow'):
                p = self.ev(n['o']); base = self.deref_ptr(p, n)
            else: base = self.lv(n['o'])
            loc = (base[0], base[1] + (n['n'],))
            if n['n'] == 'second' and not base[1] and base[0] in self.user.get('mitpair', {}):
                m = self.user['mitpair'][base[0]]; return (m[1][0], m[1][1] + (('[]', m[2]),))
            if n.get('ref'):
                v = self.read(loc)
                if isinstance(v, tuple) and v and v[0] == 'addr': return v[1]
                return (('deref', v), ())
            return loc
        if k == 'this': return self.newtemp(self.frame()['this'])
        if k == 'un' and n['op'] == '*':
            return self.deref_ptr(self.ev(n['e']), n)
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            loc = self.lv(n['e']); self.incdec(n, loc); return loc
        if k == 'idx':
            b = self.ev(n['o']); i = self.ev(n['i'])
            if isinstance(b, tuple) and b and b[0] == 'dptr': return (('byte', b, i), ())
            base = self.deref(b) if not (isinstance(b, tuple) and b and b[0] == 'fld') else (('deref', b), ())
            return (base[0], base[1] + (('i', i),))
        if k == 'asg':
            return self.assign(n)
        if k == 'cond':
            return self.lv(n['a']) if self.truth(self.ev(n['c'])) else self.lv(n['e'])
        if k == 'bin' and n['op'] == ',':
            self.ev(n['a']); return self.lv(n['c'])
        if k in ('call', 'icall'):
            v = self.call(n)
            if isinstance(v, tuple) and v and v[0] == 'lref': return v[1]
            return self.newtemp(v)
        if k == 'ctor':
            loc = self.newtemp(Struct(n['cls'])); self.construct(n, loc); return loc
        if k == 'cast' and n['ck'] in ('LValueBitCast', 'BaseToDerived', 'Dynamic', 'DerivedToBase', 'NoOp'):
            return self.lv(n['e'])
        if k == 'bind' and 'e' in n: return self.lv(n['e'])
        return self.newtemp(self.ev(n))
    def deref_ptr(self, p, n):
        if isinstance(p, tuple) and p and p[0] in ('tptr', 'dptr', 'rptr'): return (('mem', p), ())
        st = self.status(p)
        if st is None or st is False:
            self.emit('deref', 'maybe-null' if st is None else 'null', obj=p, node=n)
        return self.deref(p)
    def ev(self, n):
        if n is None: return None
        k = n['k']
        self.ln(n)
        m = getattr(self, 'e_' + k, None)
        if m is None: raise AnalysisError('unsupported expression %s at line %s' % (k, n.get('l')))
        v = m(n)
        if isinstance(v, tuple) and v and v[0] == 'lref': v = self.readv(v[1])
        if 'b' in n and isinstance(v, tuple) and v and v[0] not in ('cmp', 'not', 'and', 'b', 'addr'):
            lo, hi = (0, 1) if n['b'] == 1 else irange(n['b'], n['u'])
            self.facts.set_range(v, lo, hi)
        return v
    def readv(self, loc):
        r = loc[0]
        if r[0] == 'mem':
            from . import models
            return models.mem_read(self, r[1])
        if r[0] == 'byte':
            from . import models
            return models.byte_read(self, r[1], r[2])
        return self.read(loc)
    def writev(self, loc, v):
        r = loc[0]
        if r[0] == 'mem':
            from . import models
            return models.mem_write(self, r[1], v)
        if r[0] == 'byte':
            from . import models
            return models.byte_write(self, r[1], r[2], v)
        self.write(loc, v)
    def e_int(self, n):
        return int(n['v'])
    def e_str(self, n): return ('s', n['v'])
    def e_flt(self, n): return ('flt', n['v'])
    def e_null(self, n): return 0
    def e_this(self, n): return self.frame()['this']
    def e_var(self, n): return self.readv(self.lv(n))
    def e_mem(self, n):
        if not n.get('arrow') and not n.get('ref'):
            # member of a prvalue or an opaque value: avoid creating temporaries for terms
            pass
        return self.readv(self.lv(n))
    e_idx = e_mem
    def e_bind(self, n): return self.ev(n['e'])
    def e_fieldref(self, n): return ('fieldref', n['q'])
    def e_zero(self, n): return self.zero(n.get('t', ''), n)
    def zero(self, t, n=None):
        if n is not None and 'b' in n: return 0
        if t.endswith('*') or t in ('float', 'double', 'bool', 'int', 'std::nullptr_t'): return 0
        return ('zero', t)
    def e_fn(self, n): return ('fnref', n['id'], n['q'])
    def e_other(self, n):
        for x in n.get('kids', []):
            if x and x.get('k') and hasattr(self, 'e_' + x['k']): self.ev(x)
        return self.fresh('other:' + n.get('cls', ''))
    def e_pdtor(self, n): return 0
    def e_throw(self, n):
        if 'e' not in n:
            ex = self.user.get('curexc') or []
            if ex: raise CppThrow(ex[-1].t, ex[-1].v, self.curline)
            raise CppThrow('?rethrow', None, self.curline)
        v = self.ev(n['e']); t = cls_of_type(n['t'])
        self.emit('throw', t, args=(v,), node=n)
        raise CppThrow(t, v, n['l'])
    def e_bin(self, n):
        op = n['op']
        if op == '&&':
            if not self.truth(self.ev(n['a'])): return 0
            return self.boolv(self.ev(n['c']))
        if op == '||':
            if self.truth(self.ev(n['a'])): return 1
            return self.boolv(self.ev(n['c']))
        if op == ',':
            self.ev(n['a']); return self.ev(n['c'])
        a = self.ev(n['a']); b = self.ev(n['c'])
        return self.binop(op, a, b, n, n['a'], n['c'])
    def boolv(self, v):
        if isinstance(v, BV): return int(self.truth(v))
        return v
    def binop(self, op, a, b, n, na=None, nb=None):
        if op == '==': return self.mk_eq(a, b)
        if op == '!=': return self.neg(self.mk_eq(a, b))
        if op in ('<', '<=', '>', '>='):
            u = bool(na and na.get('u'))
            return self.mk_rel(op, a, b, na.get('b') if na else None, u)
        bw = n.get('b'); u = n.get('u', False)
        return self.arith(op, a, b, bw, u, n)
    def neg(self, v):
        if isinstance(v, int): return int(not v)
        if isinstance(v, tuple) and v and v[0] == 'not': return v[1]
        return ('not', v)
    def arith(self, op, a, b, bw, u, n=None):
        a = self.bn(a); b = self.bn(b)
        if bw and (isinstance(a, BV) or isinstance(b, BV)): return self.bvop(op, a, b, bw, u)
        if self.cfg.bitmode and bw and not (isinstance(a, int) and isinstance(b, int)):
            pass
        if isinstance(a, int) and isinstance(b, int) and bw:
            a = int(a); b = int(b)
            try:
                if op == '+': r = a + b
                elif op == '-': r = a - b
                elif op == '*': r = a * b
                elif op == '/': r = int(a / b) if abs(a) < 1 << 50 else abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif op == '%': r = abs(a) % abs(b) * (1 if a >= 0 else -1)
                elif op == '&': r = a & b
                elif op == '|': r = a | b
                elif op == '^': r = a ^ b
                elif op == '<<':
                    if b >= bw or b < 0: self.emit('ub-shift', '<<', args=(a, b)); r = 0
                    else: r = a << b
                elif op == '>>':
                    if b >= bw or b < 0: self.emit('ub-shift', '>>', args=(a, b)); r = 0
                    else: r = a >> b
                else: return ('op', op, a, b)
            except ZeroDivisionError:
                return ('op', op, a, b)
            return wrapc(r, bw, u)
        # pointers
        if isinstance(a, tuple) and a and a[0] in ('dptr', 'rptr') and op in ('+', '-'):
            return a[:2] + (add(a[2], b, 1 if op == '+' else -1),)
        if isinstance(b, tuple) and b and b[0] in ('dptr', 'rptr') and op == '+':
            return b[:2] + (add(b[2], a),)
        if isinstance(a, tuple) and a and a[0] == 'rptr' and isinstance(b, tuple) and b and b[0] == 'rptr' and op == '-' and a[1] == b[1]:
            return add(a[2], b[2], -1)
        if op in ('+', '-'):
            r = add(a, b, 1 if op == '+' else -1)
            return self.fitw(r, bw, u)
        if op == '*' and isinstance(b, int): return self.fitw(mul(a, b), bw, u)
        if op == '*' and isinstance(a, int): return self.fitw(mul(b, a), bw, u)
        if op == '<<' and isinstance(b, int) and b < 63: return self.fitw(mul(a, 1 << b), bw, u) 
        if op in ('/', '%') and self.cfg.divmod and isinstance(b, int) and b > 0 and bw: return self.divmod(op, a, b, u)
        t = ('op', op, a, b)
        if bw:
            lo, hi = irange(bw, u)
            self.facts.set_range(t, lo, hi)
        return t
    def divmod(self, op, a, b, u):
        """quotient and remainder by a positive constant, tied to the dividend: a = b*q + r, r having the sign of a"""
        q, r = ('op', '/', a, b), ('op', '%', a, b)
        if ('divmod', a, b) not in self.user:
            self.user[('divmod', a, b)] = True
            l = to_lin(a)
            for _ in range(8):          # a modulo b, written without remainders
                x = next((t for t in l.m if isinstance(t, tuple) and t[:2] == ('op', '%') and t[3] % b == 0), None)
                if x is None: break
                l = to_lin(add(add(l, mul(x, -l.m[x])), mul(x[2], l.m[x])))
            if l.c % b == 0 and all(k % b == 0 for k in l.m.values()):
                self.facts.set_range(r, 0, 0); self.facts.add_eq(add(mul(q, b), mul(a, -1))); return q if op == '/' else 0
            pos = u or self.truth(('cmp', 'ge', to_lin(a)))
            if pos and self.facts.entails_ge(add(mul(a, -1), 4 * b - 1)):          # few multiples of b: which one
                k = 0
                while k < 3 and self.truth(('cmp', 'ge', to_lin(add(a, -(k + 1) * b)))): k += 1
                self.facts.set_range(q, k, k)
            self.facts.set_range(r, 0 if pos else 1 - b, b - 1 if pos else 0)
            self.facts.add_eq(add(add(mul(q, b), r), mul(a, -1)))
        return q if op == '/' else r
    def fitw(self, r, bw, u):
        if isinstance(r, int) or not bw: return wrapc(r, bw, u) if (bw and isinstance(r, int)) else r
        if not u: return r
        lo, hi = irange(bw, u)
        if self.facts.entails_ge(add(r, -lo)) and self.facts.entails_ge(add(mul(r, -1), hi)): return r
        t = ('wrap', bw, r)
        self.facts.set_range(t, lo, hi)
        return t
    def bvop(self, op, a, b, bw, u):
        if op in ('<<', '>>'):
            cb = b.const() if isinstance(b, BV) else b if isinstance(b, int) else None
            if not isinstance(a, BV): a = B.const(a, bw) if isinstance(a, int) else None
            if cb is None or a is None: return BV([B.TOP] * bw)
            if a.w != bw: a = B.ext(a, bw, not u)
            if cb >= bw or cb < 0:
                self.emit('ub-shift', op, args=(a, cb)); return BV([B.TOP] * bw)
            return B.shl(a, cb) if op == '<<' else B.shr(a, cb, not u)
        def lift(x):
            if isinstance(x, BV): return x if x.w == bw else B.ext(x, bw, not u)
            if isinstance(x, int): return B.const(x, bw)
            return BV([B.TOP] * bw)
        if op in ('*', '/', '%'):
            ca = a.const() if isinstance(a, BV) else a if isinstance(a, int) else None
            cb = b.const() if isinstance(b, BV) else b if isinstance(b, int) else None
            if op == '*' and ca is not None: a, b, ca, cb = b, a, cb, ca
            if op == '*' and cb is not None: return B.vmul(lift(a), cb)
            if cb and cb & (cb - 1) == 0 and (u or lift(a).bits[-1] == B.ZERO):
                if op == '/': return B.shr(lift(a), cb.bit_length() - 1, False)
                return B.vand(lift(a), B.const(cb - 1, bw))
            return BV([B.TOP] * bw)
        f = {'&': B.vand, '|': B.vor, '^': B.vxor, '+': B.vadd, '-': B.vsub}.get(op)
        if f is None: return BV([B.TOP] * bw)
        r = f(lift(a), lift(b))
        c = r.const()
        return wrapc(c, bw, u) if c is not None else r
    def e_un(self, n):
        op = n['op']
        if op == '&':
            e = n['e']
            if e['k'] == 'fn': return ('fnref', e['id'], e['q'])
            if e['k'] == 'fieldref': return ('fieldref', e['q'])
            loc = self.lv(e)
            if loc[0][0] == 'deref' and not loc[1]: return loc[0][1]
            if loc[0][0] == 'mem': return loc[0][1]
            if loc[0][0] == 'byte': 
                d = loc[0][1]; return d[:2] + (add(d[2], loc[0][2]),)
            return ('addr', loc)
        if op == '*':
            return self.readv(self.lv(n))
        if op in ('++', '--'):
            loc = self.lv(n['e'])
            old = self.incdec(n, loc)
            return old if n.get('post') else self.readv(loc)
        v = self.ev(n['e'])
        if op == '!':
            if isinstance(v, BV): return int(not self.truth(v))
            if isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 'and'): return self.neg(v)
            if isinstance(v, int): return int(not v)
            return ('cmp', 'eq', norm(to_lin(v))) if not (isinstance(v, tuple) and v and v[0] in ('addr', 'fnref', 's')) else 0
        if op == '-':
            if isinstance(v, BV): return B.vneg(v)
            return self.fitw(mul(v, -1), n.get('b'), n.get('u', False)) if n.get('b') else ('op', '-', v)
        if op == '~':
            if isinstance(v, BV): return B.vnot(v)
            if isinstance(v, int): return wrapc(~v, n['b'], n['u'])
            return ('op', '~', v)
        if op == '+': return v
        return ('op', op, v)
    def incdec(self, n, loc):
        old = self.readv(loc)
        d = 1 if n['op'] == '++' else -1
        if isinstance(old, tuple) and old and old[0] == 'iter':
            new = ('iter', old[1], add(old[2], d)) + old[3:]
        else: new = self.arith('+', old, d, n.get('b'), n.get('u', False))
        self.writev(loc, new)
        return old
    def e_asg(self, n):
        loc = self.assign(n)
        return self.readv(loc) if loc[0][0] != 'mem' else 0
    def assign(self, n):
        if n['op'] == '=':
            v = self.ev(n['c']); loc = self.lv(n['a'])
            self.writev(loc, v); return loc
        loc = self.lv(n['a']); b = self.ev(n['c']); a = self.readv(loc)
        ct = n.get('ct', {})
        bw, u = ct.get('b'), ct.get('u', False)
        if isinstance(a, BV) and bw: a = B.ext(a, bw, not n.get('u', False))
        r = self.arith(n['op'][:-1], a, b, bw, u, n)
        r = self.intcast(r, n, {'b': bw, 'u': u}) if bw and n.get('b') else r
        self.writev(loc, r); return loc
    def e_cond(self, n):
        return self.ev(n['a']) if self.truth(self.ev(n['c'])) else self.ev(n['e'])
    def intcast(self, v, n, src=None):
        b, u = n.get('b'), n.get('u', False)
        v = self.bn(v)
        if b is None: return v
        if isinstance(v, int): return wrapc(v, b, u) if b > 1 else int(v != 0)
        if isinstance(v, BV):
            su = bool(src.get('u')) if src else False
            r = B.ext(v, b, not su)
            return r
        if isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 'and'): return v
        if isinstance(v, Struct): return v
        lo, hi = irange(b, u)
        if self.facts.entails_ge(add(v, -lo)) and self.facts.entails_ge(add(mul(v, -1), hi)): return v
        t = ('cast', b, bool(u), v)
        self.facts.set_range(t, lo, hi)
        return t
    def e_cast(self, n):
        ck = n['ck']
        if ck in ('LValueBitCast',):
            return self.readv(self.lv(n))
        v = self.ev(n['e'])
        if ck == 'IntegralCast': return self.intcast(v, n, n['e'] if 'b' in n['e'] else srcinfo(n))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if isinstance(v, BV): return int(self.truth(v))
            if isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 'and'): return v
            if isinstance(v, int): return int(v != 0)
            if isinstance(v, (Closure,)) or (isinstance(v, tuple) and v[0] in ('addr', 'fnref', 's', 'dptr')): return 1
            return ('not', ('cmp', 'eq', norm(to_lin(v))))
        if ck in ('BitCast',):
            t = n['t']
            if isinstance(v, tuple) and v and v[0] == 'vptr' and t.endswith('*'):
                from . import models
                if strip_t(t[:-1]) in ('void', 'char'): return v
                return ('addr', self.newtemp(models.read_variant_as(self, v[1], t[:-1])))
            if isinstance(v, tuple) and v and v[0] in ('dptr', 'rptr', 'tptr'):
                if t.replace('const ', '').strip() in ('char *', 'unsigned char *', 'void *', 'signed char *', 'uchar *'):
                    return v[2] if v[0] == 'tptr' else v
                return ('tptr', strip_t(t[:-1]), v[2] if v[0] == 'tptr' else v)
            if isinstance(v, tuple) and v and v[0] == 'addr' and t.replace('const ', '').strip() in ('char *', 'unsigned char *', 'void *'):
                return ('objptr', v[1], 0)
            if isinstance(v, tuple) and v and v[0] == 'objptr' : return ('addr', v[1]) if t.replace('const ', '').strip() not in ('char *', 'unsigned char *', 'void *') else v
            if isinstance(v, tuple) and v and v[0] == 'voidptr': return v
            if t.replace('const ', '').strip() in ('void *',) or True:
                return v
        if ck in ('BaseToDerived', 'BaseToDerivedMemberPointer', 'ReinterpretMemberPointer'): return v
        if ck == 'Dynamic': return ('op', 'dynamic_cast:' + n['t'], v)
        if ck in ('FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingToBoolean'):
            if isinstance(v, int) and ck == 'IntegralToFloating': return v
            return ('op', ck + ':' + n['t'], v)
        if ck == 'NonAtomicToAtomic' or ck == 'AtomicToNonAtomic': return v
        return ('op', ck, v)
    def e_il(self, n):
        if n.get('fields'):
            st = Struct(cls_of_type(n['t']))
            vals = {}
            for f, e in zip(n['fields'], n['es']): vals[f] = self.ev(e)
            return Struct(cls_of_type(n['t']), None, vals)
        if len(n['es']) == 1 and ('b' in n or n['t'].endswith('*')): return self.ev(n['es'][0])
        return ('cat', tuple(('e', self.ev(e)) for e in n['es']))
    def e_new(self, n):
        cls = cls_of_type(n['t'])
        loc = self.newheap(cls)
        if n.get('init') is not None:
            i = n['init']
            if i['k'] == 'ctor': self.construct(i, loc)
            else: self.rawwrite(loc, self.ev(i))
        self.emit('new', cls, res=('addr', loc), node=n)
        return ('addr', loc)
    def e_del(self, n):
        p = self.ev(n['e'])
        self.emit('delete', '', obj=p, node=n)
        if isinstance(p, tuple) and p and p[0] == 'addr': self.destroy(p[1])
        return 0
    def e_lambda(self, n):
        env = {}; fr = self.frame(); this = fr['this']
        for c in n['caps']:
            if c.get('this'): continue
            key = (fr['tu'], c['id'])
            if c.get('byref'):
                env[key] = ('ref', self.lv(c['init']))
            else:
                e = c.get('vinit') if c.get('initcap') else c['init']
                env[key] = ('val', self.ev(e if e else c['init']))
        self.uid += 1
        return Closure(n, env, this, fr['tu'], self.uid)
    def e_ctor(self, n):
        # copies and moves of classes without a body in the program are value copies
        if n['ck'] in ('copy', 'move') and not self.has_body(n):
            return self.ev(n['args'][0])
        loc = self.newtemp(Struct(n['cls']))
        r = self.construct(n, loc)
        v = self.read(loc)
        # guards created as unnamed temporaries die at once
        from . import models
        models.temp_dtor(self, n['cls'], loc)
        return v
    def has_body(self, n):
        f = self.prog.lookup(n['id'], self.frame()['tu'] if self.frames else None)
        if not f or f.get('defaulted') and not f.get('inits'): return False
        if f.get('defaulted') and n.get('ck') in ('copy', 'move'): return False
        return True
    def construct(self, n, loc):
        """run constructor node n on storage loc"""
        from . import models
        if n['ck'] in ('copy', 'move') and not self.has_body(n):
            self.rawwrite(loc, self.ev(n['args'][0])); return
        f = self.prog.lookup(n['id'], self.frame()['tu'])
        m = self.cfg.models.get(n['q'])
        if m is None and not (f and self.inlinable(f)): m = models.find(n)
        if m is None and f and self.inlinable(f):
            self.inline(f, n['args'], ('addr', loc), n)
            return
        if m is not None:
            v = m(self, n, ('ctor', loc), [self.argval(a, t) for a, t in zip(n['args'], n['pt'])])
            if v is not NotImplemented:
                if v is not None: self.rawwrite(loc, v)
                return
        # aggregate-like default construction of a repo class without body
        args = tuple(self.argval(a, t) for a, t in zip(n['args'], n['pt']))
        args = tuple(self.val(a) for a in args)
        t = ('ctor', cls_of_type(n['t']) if not n.get('cta') else n['t'], ) + args
        self.rawwrite(loc, t)
        self.emit('ctor', n['q'], obj=loc, args=args, res=t, node=n)
    def val(self, a):
        if isinstance(a, tuple) and a and a[0] == 'lref': return self.readv(a[1])
        return a
    def argval(self, a, pt):
        """argument value; ('lref', loc) for non-const lvalue references"""
        t = pt.strip()
        if t.endswith('&') and not t.endswith('&&') and not t.startswith('const '):
            return ('lref', self.lv(a))
        if t.endswith('&&'):
            # forwarding/rvalue references: keep the location when the argument is an lvalue
            if a['k'] in ('var', 'mem'): return ('lref', self.lv(a))
            if self.cfg.keep_moves and a['k'] == 'call' and a.get('q') == 'std::move': return ('lref', self.lv(a['args'][0]))
        if t.endswith('&') and a['k'] in ('var', 'mem', 'this') :
            return ('lref', self.lv(a))
        return self.ev(a)

    # ---------- calls
    def e_call(self, n): return self.call(n)
    def e_icall(self, n): return self.call(n)
    def inlinable(self, f):
        if f['q'] in self.cfg.opaque: return False
        if self.cfg.opaque_pred and self.cfg.opaque_pred(f): return False
        if len(self.frames) > self.cfg.max_depth: return False
        if sum(1 for x in self.fnstack if x == f['id']) >= 2: return False
        return True
    def call(self, n):
        from . import models
        if n['k'] == 'icall':
            fv = self.ev(n['fn'])
            return self.call_value(fv, n['args'], n)
        self.ln(n)
        line = self.curline
        q = n['q']
        if self.cfg.on_call:
            r = self.cfg.on_call(self, n)
            if r is not NotImplemented: return r
        m = self.cfg.models.get(q)
        f = None
        if m is None:
            f = self.resolve(n)
            if f is None or not self.inlinable(f): m = models.find(n)
        if m is not None:
            ob = self.objloc(n)
            args = [self.argval(a, t) for a, t in zip(n['args'], n['pt'] + [''] * len(n['args']))]
            self.curline = line
            r = m(self, n, ob, args)
            if r is not NotImplemented: return r
            return self.opaque_call(n, ob, args)
        if f is not None and self.inlinable(f):
            this = None
            if 'o' in n:
                this = self.objptr(n)
                f = self.resolve_virtual(n, f, this)
                if f is None or not self.inlinable(f):
                    args = [self.argval(a, t) for a, t in zip(n['args'], n['pt'])]
                    return self.opaque_call(n, self.objloc_from(this), args)
            return self.inline(f, n['args'], this, n)
        ob = self.objloc(n)
        args = [self.argval(a, t) for a, t in zip(n['args'], n['pt'] + [''] * len(n['args']))]
        self.curline = line
        if q.endswith('::operator()') and ob is not None:
            fv = self.read_noevent(ob)
            if isinstance(fv, Closure): return self.call_closure(fv, n['args'], n, argvals=args)
        if q.endswith('::operator=') and len(args) == 1 and n.get('cls') and cls_of_type(n['pt'][0]) == n['cls'] and q not in self.cfg.opaque and (f is None or f.get('defaulted')):
            # implicit or library copy/move assignment: the value is copied
            self.writev(ob, self.val(args[0]))
            self.emit('assign', q, obj=ob, args=(self.val(args[0]),), node=n)
            return ('lref', ob)
        return self.opaque_call(n, ob, args)
    def resolve(self, n):
        f = self.prog.lookup(n['id'], self.frame()['tu'] if self.frames else None)
        if n.get('virt') and not n.get('qualcall'):
            ov = [x for x in self.prog.overriders.get(n['id'], []) if x]
            if f is None and len(ov) == 1 and self.cfg.virt_inline: return ov[0]
            if f is None and ov: return ov[0] if self.user.get('dyn') else None
        return f
    def resolve_virtual(self, n, f, this):
        if not n.get('virt') or n.get('qualcall'): return f
        dyn = None
        if isinstance(this, tuple) and this[0] == 'addr':
            r = this[1][0]
            if r[0] == 'heap': dyn = r[2]
            elif r[0] == 'this': dyn = self.user.get('dyn')
        ov = self.all_overriders(n['id'])
        if dyn:
            chain = self.class_chain(dyn)
            for c in chain:
                for x in ov + [f]:
                    if x.get('cls') == c: return x
            return f
        if ov and (len(ov) > 1 or self.prog.lookup(n['id'])): return None
        return f
    def all_overriders(self, fid):
        r = []; todo = [fid]
        while todo:
            x = todo.pop()
            for f in self.prog.overriders.get(x, []):
                r.append(f); todo.append(f['id'])
        return r
    def class_chain(self, cls):
        out = [cls]; i = 0
        while i < len(out):
            for r in self.prog.records.values():
                if r['q'] == out[i]:
                    for b in r['bases']:
                        if b.get('q') and b['q'] not in out: out.append(b['q'])
                    break
            i += 1
        return out
    def objptr(self, n):
        """pointer value of the object a member is called on"""
        if n.get('arrow'):
            p = self.ev(n['o'])
            if isinstance(p, tuple) and p and p[0] in ('addr', 'this'): return p
            self.deref_ptr(p, n)
            if isinstance(p, tuple) and p and p[0] == 'iter': return ('addr', self.deref(p))
            return ('addr', (('deref', p), ())) if not (isinstance(p, tuple) and p[0] == 'addr') else p
        if n['o']['k'] == 'this': return self.frame()['this']
        return ('addr', self.lv(n['o']))
    def objloc_from(self, p):
        if isinstance(p, tuple) and p and p[0] == 'addr': return p[1]
        return (('deref', p), ())
    def objloc(self, n):
        if 'o' not in n: return None
        if n['o']['k'] == 'this': return self.objloc_from(self.frame()['this'])
        if n.get('arrow'):
            return self.deref_ptr(self.ev(n['o']), n)
        return self.lv(n['o'])
    def inline(self, f, argnodes, this, n):
        env = {}; fid = len(self.frames); self.uid += 1; fuid = self.uid
        tu = f['_tu']
        vals = []
        for i, p in enumerate(f['params']):
            if i < len(argnodes):
                a = argnodes[i]
                if p.get('ref'): vals.append(('L', self.lv(a)))
                else: vals.append(('V', self.ev_byval(a, p)))
            else: vals.append(('V', ('arg', p['n'])))
        for p, v in zip(f['params'], vals):
            key = (tu, p['id'])
            if v[0] == 'L': env[key] = v[1]
            else:
                loc = (('v', fuid, p['id'], p['n']), ())
                self.rawwrite(loc, v[1]); env[key] = loc
        return self.run_body(f, env, this, fuid, n)
    def ev_byval(self, a, p):
        v = self.ev(a)
        return v
    def run_body(self, f, env, this, fuid, n=None):
        fr = {'env': env, 'q': f.get('q', 'lambda'), 'file': f.get('file') or (self.frames[-1]['file'] if self.frames else ''), 'this': this, 'tu': f['_tu'], 'scopes': [], 'fuid': fuid, 'f': f}
        sl = self.curline
        self.frames.append(fr); self.fnstack.append(f['id'])
        if self.cfg.watch is not None or self.user.get('trace_enter'): self.emit('enter', fr['q'], obj=this, node=n)
        rv = None
        try:
            try:
                fr['scopes'].append([])
                for i in f.get('inits') or []: self.ctor_init(i, this)
                self.stmt(f['body'])
            except Ret as r:
                rv = r.v
            except CppThrow:
                self.scope_exit(fr['scopes'].pop()); fr['scopes'].append([])
                raise
            self.scope_exit(fr['scopes'].pop())
            if f.get('isdtor'): pass
        finally:
            self.frames.pop(); self.fnstack.pop()
            self.curline = sl
        if rv is None and f.get('ret', {}).get('t') not in ('void', None) and not f.get('isctor') and not f.get('isdtor') and f.get('ret', {}).get('t') != 'auto':
            if not self.user.get('allow_noret'):
                self.emit('missing-return', f.get('q', ''), node=n)
                rv = self.fresh('noreturn')
        if rv is None: rv = 0
        return rv
    def ctor_init(self, i, this):
        loc = self.objloc_from(this)
        e = i['e']
        if 'm' in i:
            l2 = (loc[0], loc[1] + (i['m'],))
            if i.get('ref'):
                self.rawwrite(l2, ('addr', self.lv(e))); return
            if e is None: return
            if e['k'] == 'ctor':
                self.store_struct(l2, e); return
            self.rawwrite(l2, self.ev(e))
        elif e is not None and e['k'] == 'ctor':
            # base or delegating
            f = self.prog.lookup(e['id'], self.frame()['tu'])
            if f and self.inlinable(f): self.inline(f, e['args'], this, e)
            else:
                args = tuple(self.val(self.argval(a, t)) for a, t in zip(e['args'], e['pt']))
                self.emit('basector', e['q'], obj=loc, args=args, node=e)
    def store_struct(self, loc, e):
        if e['ck'] in ('copy', 'move') and not self.has_body(e):
            self.rawwrite(loc, self.ev(e['args'][0])); return
        self.rawwrite(loc, Struct(e['cls']))
        self.construct(e, loc)
    def call_value(self, fv, argnodes, n):
        from . import models
        if isinstance(fv, tuple) and fv and fv[0] == 'lref': fv = self.readv(fv[1])
        if isinstance(fv, tuple) and fv and fv[0] == 'addr': fv = self.readv(fv[1])
        if isinstance(fv, Closure):
            return self.call_closure(fv, argnodes, n)
        if isinstance(fv, tuple) and fv and fv[0] == 'fnref':
            f = self.prog.lookup(fv[1], self.frame()['tu'])
            m = self.cfg.models.get(fv[2])
            if m is None and f and self.inlinable(f): return self.inline(f, argnodes, None, n)
            if m is not None:
                r = m(self, n, None, [self.argval(a, 'x &') if a['k'] in ('var', 'mem') else self.ev(a) for a in argnodes])
                if r is not NotImplemented: return r
            q = fv[2]
        else: q = '*'
        args = [self.argval(a, 'x &') if a['k'] in ('var', 'mem') else self.ev(a) for a in argnodes]
        return self.opaque_call(dict(n, q=q, pt=[], args=argnodes), ('fnvalue', fv), args, indirect=fv)
    def qliteral(self, node):
        """text of a QStringLiteral or QByteArrayLiteral (Qt spells them as a lambda with a static)"""
        if '_lit' in node: return node['_lit']
        found = None; hit = False; st = [node.get('body')]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('n') in ('qstring_literal', 'qbytearray_literal'): hit = True
                if x.get('k') == 'str': found = x['v']
                st.extend(x.values())
            elif isinstance(x, list): st.extend(x)
        node['_lit'] = found if hit and found != '?' else None
        return node['_lit']
    def call_closure(self, c, argnodes, n, argvals=None):
        node = c.node
        if node.get('generic'):
            insts = node.get('inst') or []
            if not insts: return self.opaque_call(dict(n, q='lambda', pt=[]), None, [self.ev(a) for a in argnodes])
            best = None
            ats = [strip_t(a.get('t', '')) for a in argnodes] if argvals is None else None
            for i in insts:
                if ats is None or [strip_t(p['t']) for p in i['params']] == ats: best = i; break
            node = best or insts[0]
        lit = self.qliteral(node)
        if lit is not None: return ('s', lit)
        self.uid += 1; fuid = self.uid
        env = {}
        for k, (kind, v) in c.env.items():
            if kind == 'ref': env[k] = v
            else:
                loc = (('cap', c.uid, k[1]), ())
                if loc[0] not in self.store: self.store[loc[0]] = v
                env[k] = loc
        for i, p in enumerate(node['params']):
            key = (c.tu, p['id'])
            if argvals is not None:
                v = argvals[i] if i < len(argvals) else ('arg', p['n'])
                if isinstance(v, tuple) and v and v[0] == 'lref':
                    if p.get('ref'): env[key] = v[1]; continue
                    v = self.readv(v[1])
                loc = (('v', fuid, p['id'], p['n']), ()); self.rawwrite(loc, v); env[key] = loc
            elif i < len(argnodes):
                if p.get('ref'): env[key] = self.lv(argnodes[i])
                else:
                    loc = (('v', fuid, p['id'], p['n']), ()); self.rawwrite(loc, self.ev(argnodes[i])); env[key] = loc
        f = {'q': 'lambda', 'id': c.node['id'], 'body': node['body'], '_tu': c.tu, 'params': node['params'], 'ret': node.get('ret', {}), 'file': self.frames[-1]['file'] if self.frames else ''}
        if c.node.get('f'): f['file'] = c.node['f']
        if sum(1 for x in self.fnstack if x == f['id']) >= 2: self.emit('recursion', f['q']); return self.fresh('rec')
        return self.run_body(f, env, c.this, fuid, n)
    def opaque_call(self, n, ob, args, indirect=None):
        """a call whose body is not looked at: an event plus a provenance term as the result"""
        q = n['q']
        plain = tuple(self.val(a) for a in args)
        objv = None; objkey = None
        if ob is not None:
            if ob[0] == 'fnvalue': objv = ob[1]; objkey = ob[1]
            else:
                objv = self.read_noevent(ob); objkey = ob if ob[0][0] != 'deref' or ob[1] else ob[0][1]
        pure = n.get('const') or (ob is None and n.get('ext') and all(not (isinstance(a, tuple) and a and a[0] == 'lref' and not pt_const(n, i)) for i, a in enumerate(args)))
        ev = self.emit('call', q, obj=objkey if objkey is not None else None, args=plain, node=n, extra={'objv': objv, 'locs': args, 'indirect': indirect})
        thr = self.cfg.maythrow.get(q)
        if thr and not self.inlog:
            c = self.choose(1 + len(thr), ('throws', q))
            if c:
                ev.res = ('throws', thr[c - 1])
                raise CppThrow(thr[c - 1], ('exc', q), self.curline)
        if n.get('noret'): raise Prune()
        if n.get('t') == 'void' and not pure: res = 0
        elif pure:
            key = ob if ob is not None else None
            vv = self.ver.get(repr(key), 0) if key is not None else 0
            res = ('op', q, objv) + plain + ((('v', vv),) if vv else ()) if ob is not None else ('op', q) + plain
            if n.get('ta') and ob is None or n.get('ta'): res = res + (('ta', repr(n['ta'])),)
        else:
            self.uid += 1
            res = ('res', q, self.uid)
        ev.res = res
        # effects on reference arguments and on the object
        if not pure or True:
            pts = n.get('pt', [])
            for i, a in enumerate(args):
                if isinstance(a, tuple) and a and a[0] == 'lref':
                    t = pts[i] if i < len(pts) else 'x &'
                    if not t.startswith('const ') and not t.endswith('&&') and a[1][0][0] not in ('deref',):
                        self.uid += 1
                        ov = self.cfg.out_value(self, q, i, a[1], plain[i], n) if self.cfg.out_value else None
                        ov = ('out', q, i, self.uid) if ov is None else ov
                        ev.extra.setdefault('outs', {})[i] = ov
                        self.write(a[1], ov)
            if ob is not None and ob[0] != 'fnvalue' and not n.get('const') and not n.get('static'):
                k = repr(ob); self.ver[k] = self.ver.get(k, 0) + 1
                if ob[0][0] in ('v', 'tmp', 'cap') or n.get('cls') in self.containers() and ob[0][0] != 'deref' or n.get('cls') in self.containers() and ob[1]:
                    self.uid += 1
                    old = objv
                    self.rawwrite(ob, ('upd', q, old, plain))
        if n.get('t', '').endswith('&') : pass
        return res
    def containers(self):
        from . import models
        return models.SEQ + models.MAPS
    def read_noevent(self, loc):
        w = self.cfg.watch; self.cfg.watch = None
        try: return self.readv(loc)
        finally: self.cfg.watch = w

    # ---------- destruction
    def destroy(self, loc):
        v = self.read_noevent(loc)
        cls = v.cls if isinstance(v, Struct) else (loc[0][2] if loc[0][0] == 'heap' else None)
        if not cls: return
        for f in self.prog.byq.get(cls + '::~' + cls.split('::')[-1], []):
            if self.inlinable(f):
                self.run_body(f, {}, ('addr', loc), self.uid)
                break
        self.emit('destroyed', cls, obj=loc)
    def scope_exit(self, scope):
        from . import models
        for cls, loc in reversed(scope):
            models.dtor(self, cls, loc)

    # ---------- statements
    def stmt(self, s):
        if s is None: return
        k = s['k']
        self.ln(s)
        m = getattr(self, 's_' + k, None)
        if m is None: raise AnalysisError('unsupported statement %s at line %s' % (k, s.get('l')))
        m(s)
    def s_e(self, s):
        self.ev(s['e'])
    def s_null_s(self, s): pass
    def s_label(self, s): self.stmt(s['s'])
    def s_goto(self, s): raise AnalysisError('goto')
    def s_other_s(self, s): raise AnalysisError('unsupported statement ' + s['cls'])
    def s_log(self, s):
        if not has_effect(s['e']): return
        self.inlog += 1
        try: self.stmt(s['e'])
        finally: self.inlog -= 1
    def s_seq(self, s):
        fr = self.frame(); sc = []; fr['scopes'].append(sc)
        try:
            for x in s['s']: self.stmt(x)
        except (Ret, Brk, Cont, CppThrow):
            fr['scopes'].pop(); self.scope_exit(sc); raise
        fr['scopes'].pop(); self.scope_exit(sc)
    def declare(self, v):
        fr = self.frame(); key = (fr['tu'], v['id'])
        if v.get('static'):
            loc = (('g', 'static', v['n'], v['id']), ())
            fr['env'][key] = loc
            if self.cfg.first_call:
                loc = (('g', v['n'], v['id']), ())
                if loc[0] not in self.store and v.get('init') is None: self.rawwrite(loc, 0)
            # evaluated once; the store may hold it already
            if loc[0] not in self.store and v.get('init') is not None:
                self.held.append((loc, 'once'))          # initialisation of a static local runs once
                try:
                    if v['init']['k'] == 'ctor': self.store_struct(loc, v['init'])
                    else: self.rawwrite(loc, self.ev(v['init']))
                finally: self.held.remove((loc, 'once'))
            return
        if v.get('ref'):
            fr['env'][key] = self.lv(v['init']); return
        loc = (('v', fr['fuid'] if 'fuid' in fr else 0, v['id'], v['n']), ())
        fr['env'][key] = loc
        i = v.get('init')
        if i is None: self.rawwrite(loc, ('uninit', v['n']))
        elif i['k'] == 'ctor': self.store_struct(loc, i)
        else:
            val = self.ev(i)
            self.rawwrite(loc, val)
        if v.get('cls') and v.get('dtor'): fr['scopes'][-1].append((v['cls'], loc))
    def s_decl(self, s):
        for v in s['vars']: self.declare(v)
    def in_scope(self, fn):
        fr = self.frame(); sc = []; fr['scopes'].append(sc)
        try: fn()
        except (Ret, Brk, Cont, CppThrow):
            fr['scopes'].pop(); self.scope_exit(sc); raise
        fr['scopes'].pop(); self.scope_exit(sc)
    def s_if(self, s):
        def go():
            if s.get('init'): self.stmt(s['init'])
            if s.get('cv'): self.declare(s['cv'])
            if self.truth(self.ev(s['c'])): self.stmt(s['th'])
            elif s.get('el'): self.stmt(s['el'])
        self.in_scope(go)
    def loop(self, cond, body, inc, s, do=False):
        it = 0; und = 0; last = None
        first = do; snap = None
        havoc = self.cfg.loop_havoc
        if havoc: snap = dict(self.store)
        while True:
            if havoc and it >= 1: self.havoc_loop(snap, s)
            if not first:
                nt = len(self.taken)
                if cond is not None:
                    self.ln(s)
                    v = cond()
                    decided = self.status(v) is not None
                    if self.cfg.on_loop: self.cfg.on_loop(self, s, 'cond', v)
                    if not decided and und >= self.cfg.loop_max:
                        # leave the loop: assume the condition is false now
                        self.force_false(v)
                        return
                    if not self.truth(v): return
                    if not decided or len(self.taken) > nt: und += 1
            first = False
            it += 1
            if it > (2 if havoc else self.cfg.loop_hard):
                if havoc: raise Prune()
                raise LoopLimit()
            before = len(self.taken)
            self.emit('iter', str(s.get('l')), args=(it,))
            if self.cfg.on_loop: self.cfg.on_loop(self, s, 'begin', it)
            try: body()
            except Brk: return
            except Cont: pass
            if len(self.taken) > before and cond is None and not havoc:
                und += 1
                if und > max(self.cfg.loop_max, self.user.get('loop_inf', 0)): raise Prune()
            if inc: inc()
            if self.cfg.on_loop: self.cfg.on_loop(self, s, 'end', it)
    def havoc_loop(self, snap, s=None):
        """forget what the loop body changed: the next iteration stands for any later one"""
        for r, v in list(self.store.items()):
            if r in snap and snap[r] != v and r[0] in ('v', 'this', 'deref', 'cap', 'heap'):
                self.store[r] = self.havoc_val(r, snap[r], v)
    def havoc_val(self, r, o, v):
        if self.cfg.havoc_value:
            x = self.cfg.havoc_value(self, r, o, v)
            if x is not None: return x
        if isinstance(v, Struct) and isinstance(o, Struct):
            nv = v
            for k in v.f:
                if o.f.get(k) != v.f[k]: nv = nv.with_(k, self.fresh('havoc'))
            return nv
        return self.fresh('havoc')
    def force_false(self, v):
        # record the fact without splitting
        i = len(self.taken)
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            l = to_lin(v[2])
            if v[1] == 'eq': self.assume_ne(l)
            else: self.facts.add_ge(add(mul(l, -1), -1))
        elif isinstance(v, tuple) and v and v[0] == 'not':
            x = v[1]
            if isinstance(x, tuple) and x and x[0] == 'cmp':
                l = to_lin(x[2])
                if x[1] == 'eq': self.assume_eq(l)
                else: self.facts.add_ge(l)
            elif not isinstance(x, BV): self.assume_ne(to_lin(x))
        elif isinstance(v, BV): raise Prune()
        else: self.assume_eq(to_lin(v))
    def s_while(self, s):
        def cond():
            if s.get('cv'): self.declare(s['cv'])
            return self.ev(s['c'])
        self.in_scope(lambda: self.loop(cond, lambda: self.stmt(s['body']), None, s))
    def s_do(self, s):
        self.loop(lambda: self.ev(s['c']), lambda: self.stmt(s['body']), None, s, do=True)
    def s_for(self, s):
        def go():
            if s.get('init'): self.stmt(s['init'])
            def cond():
                if s.get('cv'): self.declare(s['cv'])
                return self.ev(s['c'])
            self.loop(cond if s.get('c') else None, lambda: self.stmt(s['body']), (lambda: self.ev(s['inc'])) if s.get('inc') else None, s)
        self.in_scope(go)
    def s_rfor(self, s):
        from . import models
        rl = self.lv(s['range'])
        models.note_walk(self, rl, s)
        n = models.walk_count(self, rl, s)
        fr = self.frame()
        key = (fr['tu'], s['var']['id'])
        self.user.setdefault('walking', []).append(rl)
        try:
            i = 0
            while i < n:
                self.emit('iter', str(s.get('l')), args=(i + 1,))
                el = models.walk_loc(self, rl, i)
                if s['var'].get('ref'): fr['env'][key] = el
                else:
                    loc = (('v', fr.get('fuid', 0), s['var']['id'], s['var']['n'], i), ())
                    self.rawwrite(loc, self.readv(el)); fr['env'][key] = loc
                try: self.stmt(s['body'])
                except Brk: break
                except Cont: pass
                i += 1
        finally:
            self.user['walking'].pop()
    def s_switch(self, s):
        v = self.ev(s['c'])
        body = s['body']
        items = []   # flat list of ('case', valuenode) / ('default',) / ('stmt', node)
        def flat(x):
            if x['k'] == 'case':
                items.append(('case', x['v'])); flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default',)); flat(x['s'])
            else: items.append(('stmt', x))
        for x in (body['s'] if body['k'] == 'seq' else [body]): flat(x)
        start = None
        for i, it in enumerate(items):
            if it[0] == 'case':
                if self.truth(self.mk_eq(v, self.ev(it[1])), ('case', it[1].get('n') or it[1].get('v'))): start = i; break
        if start is None:
            for i, it in enumerate(items):
                if it[0] == 'default': start = i
        if start is None: return
        def go():
            for it in items[start:]:
                if it[0] == 'stmt': self.stmt(it[1])
        try: self.in_scope(go)
        except Brk: pass
    def s_case(self, s): self.stmt(s['s'])
    def s_default(self, s): self.stmt(s['s'])
    def s_ret(self, s):
        fr = self.frame(); f = fr.get('f', {})
        if 'e' not in s or s['e'] is None: raise Ret(0)
        if f.get('ret', {}).get('ref'):
            raise Ret(('lref', self.lv(s['e'])))
        v = self.ev(s['e'])
        raise Ret(v if v is not None else 0)
    def s_break(self, s): raise Brk()
    def s_continue(self, s): raise Cont()
    def s_try(self, s):
        try: self.stmt(s['body'])
        except CppThrow as ex:
            for c in s['catches']:
                if self.catches(c, ex):
                    self.emit('catch', c.get('t', '...'), args=(ex.t,))
                    st = self.user.setdefault('curexc', [])
                    st.append(ex)
                    fr = self.frame()
                    try:
                        if c.get('var'):
                            loc = (('v', fr.get('fuid', 0), c['var']['id'], c['var']['n']), ())
                            self.rawwrite(loc, ex.v if ex.v is not None else ('exc', ex.t))
                            fr['env'][(fr['tu'], c['var']['id'])] = loc
                        self.stmt(c['body'])
                    finally: st.pop()
                    return
            raise
    def catches(self, c, ex):
        if 't' not in c: return True
        ct = cls_of_type(c['t']); t = ex.t
        if t == '?any':
            # unknown exception type: caught only by catch-all
            return False
        while t:
            if t == ct: return True
            t = EXC_BASES.get(t)
        return False

def sub1(b, m): return B.sub_bit(b, m)
def norm_sign(l):
    l = to_lin(l)
    if l.m:
        s = min(l.m, key=repr)
        if l.m[s] < 0: l = to_lin(mul(l, -1))
    return norm(l)
def srcinfo(n):
    t = n.get('from', '')
    u = t.startswith('unsigned') or t in ('bool', 'char16_t', 'char32_t')
    return {'u': u}
def pt_const(n, i):
    pts = n.get('pt', [])
    return i < len(pts) and pts[i].startswith('const ')

_eff = {}
def has_effect(s):
    """does a logging statement contain something that could matter (calls into the program, ++, assignment)?"""
    if isinstance(s, dict):
        k = s.get('k')
        if k in ('asg',): return True
        if k == 'un' and s['op'] in ('++', '--'): return True
        if k == 'call' and not s.get('ext') and s.get('q') and not s['q'].endswith('log'): return True
        return any(has_effect(v) for v in s.values() if isinstance(v, (dict, list)))
    if isinstance(s, list): return any(has_effect(x) for x in s)
    return False

class PathResult:
    __slots__ = ('I', 'ret', 'exc', 'trace', 'choices', 'hdr')
    def __init__(self, I, ret, exc): self.I = I; self.ret = ret; self.exc = exc; self.trace = I.trace; self.choices = I.choices

def explore(cfg, run, stats=None):
    """run(I) evaluates one path; returns the list of PathResult"""
    stack = [[]]; out = []; n = 0; pruned = 0
    while stack:
        dec = stack.pop()
        I = Interp(cfg, dec)
        n += 1
        if n > cfg.max_paths: raise AnalysisError('path budget exceeded')
        try:
            r = run(I); out.append(PathResult(I, r, None))
        except CppThrow as e: out.append(PathResult(I, None, e))
        except LoopLimit as e:
            pruned += 1
            if cfg.keep_limit: out.append(PathResult(I, None, e))
        except Prune: pruned += 1
        t = I.taken
        for i in range(len(dec), len(t)):
            for alt in range(t[i][0] + 1, t[i][1]):
                stack.append([x[0] for x in t[:i]] + [alt])
    if stats is not None:
        stats['paths'] = stats.get('paths', 0) + len(out); stats['pruned'] = stats.get('pruned', 0) + pruned
    return out

def entry(cfg, f, this=('addr', (('this',), ())), args=None, setup=None, dyn=None):
    """run function f on symbolic arguments"""
    def run(I):
        if dyn: I.user['dyn'] = dyn
        env = {}
        I.frames.append({'env': {}, 'q': '<entry>', 'file': f['file'], 'this': None, 'tu': f['_tu'], 'scopes': [[]], 'fuid': -1})
        if setup: setup(I)
        for p in f['params']:
            loc = (('v', 0, p['id'], p['n']), ())
            v = (args or {}).get(p['n'], ('arg', p['n'])) if not callable(args) else args(I, p)
            if isinstance(v, tuple) and v and v[0] == 'lref': env[(f['_tu'], p['id'])] = v[1]; continue
            I.store[loc[0]] = v
            if 'b' in p and isinstance(v, tuple):
                lo, hi = (0, 1) if p['b'] == 1 else irange(p['b'], p['u']); I.facts.set_range(v, lo, hi)
            env[(f['_tu'], p['id'])] = loc
        r = I.run_body(f, env, None if f.get('static') or not f.get('cls') else this, 0)
        return r
    return run
