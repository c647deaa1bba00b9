"""Meaning of the Qt / standard library operations the analysed code uses, on provenance terms."""
from .lin import to_lin, add, mul, norm
from .interp import Struct, Closure, CppThrow, Prune, cls_of_type, strip_t, wrapc, irange, AnalysisError
from . import bits as B
from .bits import BV

M = {}
def model(*qs):
    def d(f):
        for q in qs: M[q] = f
        return f
    return d

EMPTY = ('cat', ())
SEQ = ('QByteArray', 'QList', 'QVector', 'QStringList', 'QByteArrayList', 'QListSpecialMethods', 'std::vector', 'std::list', 'std::deque', 'QString', 'std::initializer_list', 'QStringBuilder', 'std::array')
MAPS = ('QMap', 'QHash', 'std::unordered_map', 'std::map', 'QMultiMap', 'QMultiHash')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'QSharedPointer', 'QScopedPointer', 'QPointer', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'QWeakPointer', 'std::__weak_ptr')
FUNC = ('std::function',)

def find(n):
    q = n['q']
    m = M.get(q)
    if m: return m
    c = n.get('cls')
    if c:
        name = q[len(c) + 2:] if q.startswith(c + '::') else q.split('::')[-1]
        base = c
        if name == c.split('::')[-1]: name = '<ctor>'
        if c == 'QMetaObject::Connection' and name.startswith('operator ') and '::*' in name: return conn_bool
        for fam, key in ((SEQ, 'seq'), (MAPS, 'map'), (SMART, 'sp'), (FUNC, 'fun')):
            if base in fam:
                if key == 'sp' and name.startswith('operator ') and name.endswith('::*'): name = 'operator bool'   # QSharedPointer::RestrictedBool
                elif key == 'sp' and name.startswith('operator ') and name.endswith(' *') and name != 'operator *': name = 'operator T *'
                m = M.get(key + '::' + name)
                if m: return m
        if is_iter_cls(c):
            m = M.get('it::' + name)
            if m: return m
    return None

def is_iter_cls(c):
    l = c.split('::')[-1]
    return l.endswith('iterator') or l in ('QKeyValueIterator', '_Node_iterator', '_Node_const_iterator', '_Node_iterator_base', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '__normal_iterator', '_List_iterator', '_List_const_iterator', 'key_iterator') or 'iterator' in l.lower()

def V(I, a):
    return I.val(a)
def L(I, a):
    """location of a reference argument (a temporary for values)"""
    if isinstance(a, tuple) and a and a[0] == 'lref': return a[1]
    return I.newtemp(a)

# ---------------------------------------------------------------- sequences
def parts(v):
    if isinstance(v, tuple) and v and v[0] == 'cat': return v[1]
    if isinstance(v, tuple) and v and v[0] == 's': return tuple(('e', ord(c)) for c in v[1]) if v[1] == '' else (v,)
    if v == 0: return ()
    return (v,)
def cat(*vs):
    out = []
    for v in vs: out += list(parts(v))
    return ('cat', tuple(out))
def size(I, v):
    if isinstance(v, tuple) and v and v[0] == 'cat':
        r = 0
        for p in v[1]: r = add(r, psize(I, p))
        return r
    return psize(I, v)
def psize(I, p):
    if isinstance(p, tuple) and p and p[0] == 'e': return 1
    if isinstance(p, tuple) and p and p[0] == 's': return len(p[1])
    if isinstance(p, tuple) and p and p[0] == 'raw': return p[2]
    if isinstance(p, tuple) and p and p[0] == 'cat': return size(I, p)
    if isinstance(p, tuple) and p and p[0] == 'mput': pass
    t = ('size', p)
    I.facts.set_range(t, 0, (1 << 31) - 1)
    return t
def set_obj(I, ob, v):
    I.write(ob, v)
def obval(I, ob):
    return I.readv(ob)

@model('seq::<ctor>')
def seq_ctor(I, n, ob, args):
    cls = n['cls']
    pts = [strip_t(p) for p in n['pt']]
    a = [V(I, x) for x in args]
    if not a: return EMPTY
    if cls == 'QByteArray':
        if len(a) == 2 and pts[0].endswith('*'): return rawslice(I, a[0], a[1], n)
        if len(a) == 1 and pts[0].endswith('*'): return a[0]
        if len(a) == 2 and pts[0] == 'int':
            if pts[1] == 'char' and isinstance(a[0], int): return ('cat', tuple(('e', a[1]) for _ in range(a[0])))
            if isinstance(a[0], int): return ('cat', tuple(('e', ('undef', i)) for i in range(a[0])))
            return ('op', 'filled', a[0], a[1])
    if len(a) == 1 and pts[0].endswith('*'): return a[0]
    if len(a) == 1 and cls_of_type(pts[0]) in SEQ: return a[0]
    if len(a) == 1 and isinstance(a[0], tuple) and a[0] and a[0][0] == 'cat': return a[0]
    if cls == 'QString' and len(a) == 1: return a[0]
    return NotImplemented
def rawslice(I, p, ln, n):
    if isinstance(p, tuple) and p and p[0] == 'objptr':
        return bytes_of(I, I.readv(p[1]), ln)
    I.emit('rawread', 'copy', obj=p, args=(ln,), node=n)
    if isinstance(p, tuple) and p and p[0] == 'rptr' and p[2] == 0 and I.status(I.mk_eq(size(I, p[1]), ln)) is True: return p[1]
    return ('cat', (('raw', p, ln),))
@model('seq::append', 'seq::push_back', 'seq::operator+=', 'seq::operator<<', 'seq::emplace_back')
def seq_append(I, n, ob, args):
    v = obval(I, ob)
    a = [V(I, x) for x in args]
    pts = [strip_t(p) for p in n['pt']]
    cls = n['cls']
    if cls == 'QByteArray' or cls == 'QString':
        if len(a) == 2 and pts[0].endswith('*'): x = rawslice(I, a[0], a[1], n)
        elif len(a) == 2 and pts[0] == 'int': x = ('cat', (('e', a[1]),) * a[0]) if isinstance(a[0], int) else ('op', 'filled', a[0], a[1])
        elif pts[0] in ('char', 'QChar', 'QCharRef', 'signed char', 'unsigned char'): x = ('cat', (('e', byte(I, a[0])),))
        else: x = a[0]
    else:
        x = a[0] if cls_of_type(pts[0]) in SEQ and cls_of_type(pts[0]) == cls or (cls_of_type(pts[0]) in ('QList', 'QVector') and cls in ('QList', 'QVector') and pts[0] == strip_t(n.get('t', '')) ) else ('cat', (('e', a[0]),))
    note_mod(I, ob, n)
    set_obj(I, ob, cat(v, x))
    return ('lref', ob)
def byte(I, v):
    if isinstance(v, BV) and v.w != 8: return B.ext(v, 8, False)
    if isinstance(v, int): return v & 0xff
    return v
@model('seq::prepend', 'seq::push_front')
def seq_prepend(I, n, ob, args):
    v = obval(I, ob); a = [V(I, x) for x in args]; pts = [strip_t(p) for p in n['pt']]
    if n['cls'] == 'QByteArray':
        if len(a) == 2 and pts[0].endswith('*'): x = rawslice(I, a[0], a[1], n)
        elif pts[0] == 'char': x = ('cat', (('e', byte(I, a[0])),))
        elif len(a) == 2: return NotImplemented
        else: x = a[0]
    else: x = a[0] if cls_of_type(pts[0]) in SEQ else ('cat', (('e', a[0]),))
    note_mod(I, ob, n)
    set_obj(I, ob, cat(x, v))
    return ('lref', ob)
@model('seq::insert')
def seq_insert(I, n, ob, args):
    a = [V(I, x) for x in args]
    if n['cls'] in ('QByteArray', 'QList') and a[0] == 0 and len(a) == 2:
        n2 = dict(n, pt=n['pt'][1:])
        return seq_prepend(I, n2, ob, args[1:])
    v = obval(I, ob)
    if len(a) == 2 and n['cls'] == 'QByteArray' and I.status(I.mk_eq(a[0], size(I, v))) is True:
        return seq_append(I, dict(n, pt=n['pt'][1:]), ob, args[1:])
    if len(a) == 2 and n['cls'] == 'QByteArray' and isinstance(a[0], int) and isinstance(v, tuple) and v[0] == 'cat':
        k = a[0]; ps = v[1]
        if k <= len(ps) and all(p[0] == 'e' for p in ps[:k]):
            pts = strip_t(n['pt'][1])
            x = ('cat', (('e', byte(I, a[1])),)) if pts == 'char' else a[1]
            set_obj(I, ob, cat(('cat', ps[:k]), x, ('cat', ps[k:])))
            return ('lref', ob)
    note_mod(I, ob, n)
    return NotImplemented
@model('seq::clear')
def seq_clear(I, n, ob, args):
    note_mod(I, ob, n); set_obj(I, ob, EMPTY); return 0
@model('seq::reserve', 'seq::squeeze', 'seq::detach', 'map::reserve', 'seq::shrink_to_fit')
def seq_nop(I, n, ob, args): return 0
@model('seq::size', 'seq::count', 'seq::length')
def seq_size(I, n, ob, args):
    if args: return NotImplemented
    return size(I, obval(I, ob))
@model('seq::isEmpty', 'seq::empty')
def seq_empty(I, n, ob, args): return I.mk_eq(size(I, obval(I, ob)), 0)
@model('seq::isNull')
def seq_null(I, n, ob, args):
    if n['cls'] == 'QByteArray': return I.mk_eq(size(I, obval(I, ob)), 0)
    return NotImplemented
@model('seq::data')
def seq_data(I, n, ob, args):
    if n.get('const'): return ('rptr', obval(I, ob), 0)
    return ('dptr', ob, 0)
@model('seq::constData')
def seq_cdata(I, n, ob, args): return ('rptr', obval(I, ob), 0)
@model('seq::begin', 'seq::cbegin', 'seq::constBegin')
def seq_begin(I, n, ob, args):
    if n['cls'] == 'QByteArray' : return ('rptr', obval(I, ob), 0) if n.get('const') or 'onst' in n['q'].split('::')[-1] or n['q'].endswith('cbegin') else ('dptr', ob, 0)
    note_walk(I, ob, n); born(I, ob)
    return ('iter', ob, 0)
@model('seq::end', 'seq::cend', 'seq::constEnd')
def seq_end(I, n, ob, args):
    if n['cls'] == 'QByteArray':
        v = obval(I, ob)
        return ('rptr', v, size(I, v)) if n.get('const') or 'onst' in n['q'].split('::')[-1] or n['q'].endswith('cend') else ('dptr', ob, size(I, v))
    return ('iter', ob, 'end')
@model('std::begin', 'std::cbegin')
def std_begin(I, n, ob, args):
    l = L(I, args[0]); t = cls_of_type(n['pt'][0])
    nn = dict(n, cls=t, const=True, q=t + '::begin')
    return seq_begin(I, nn, l, []) if t in SEQ else ('iter', l, 0)
@model('std::end', 'std::cend')
def std_end(I, n, ob, args):
    l = L(I, args[0]); t = cls_of_type(n['pt'][0])
    nn = dict(n, cls=t, const=True, q=t + '::end')
    if t in SEQ: return seq_end(I, nn, l, [])
    if t.startswith('std::'): return ('mend', l)
    return ('iter', l, 'end')
@model('seq::at', 'seq::operator[]', 'seq::value')
def seq_at(I, n, ob, args):
    i = V(I, args[0])
    if n['cls'] == 'QByteArray':
        return ('lref', (('byte', ('dptr', ob, 0), i), ()))
    if len(args) > 1: return NotImplemented
    I.emit('index', n['q'], obj=ob, args=(i, size(I, obval(I, ob))), node=n)
    if isinstance(i, int) and i >= 0:
        return ('lref', (ob[0], ob[1] + (('#', i),)))
    return ('lref', (ob[0], ob[1] + (('#', i),)))
@model('QByteRef::operator=', 'QCharRef::operator=')
def ref_assign(I, n, ob, args):
    I.writev(ob, V(I, args[0])); return ('lref', ob)
@model('QByteRef::operator char', 'QCharRef::operator QChar')
def ref_get(I, n, ob, args): return I.readv(ob)
@model('seq::first', 'seq::front', 'seq::constFirst')
def seq_first(I, n, ob, args):
    I.emit('index', n['q'], obj=ob, args=(0, size(I, obval(I, ob))), node=n)
    return ('lref', (ob[0], ob[1] + (('#', 0),)))
@model('seq::last', 'seq::back', 'seq::constLast')
def seq_last(I, n, ob, args):
    if n['cls'] in ('QByteArray', 'QString') or args: return NotImplemented
    N = add(size(I, obval(I, ob)), -1)
    I.emit('index', n['q'], obj=ob, args=(N, size(I, obval(I, ob))), node=n)
    return ('lref', (ob[0], ob[1] + (('#', N),)))
@model('seq::takeFirst', 'seq::takeLast', 'seq::removeFirst', 'seq::removeLast', 'seq::pop_back', 'seq::pop_front')
def seq_take(I, n, ob, args):
    v = obval(I, ob); nm = n['q'].split('::')[-1]
    if n['cls'] in ('QByteArray', 'QString') or not explicit(v): return NotImplemented
    note_mod(I, ob, n); moved(I, ob)
    N = len(v[1]); i = 0 if nm.lower().endswith(('first', 'front')) else N - 1
    I.emit('index', n['q'], obj=ob, args=(i, N), node=n)
    if not N: return 0
    set_obj(I, ob, ('cat', v[1][:i] + v[1][i + 1:]))
    return v[1][i][1] if nm.startswith('take') else 0
@model('seq::swap')
def seq_swap(I, n, ob, args):
    l = L(I, args[0]); v = obval(I, ob); w = I.readv(l)
    note_mod(I, ob, n); note_mod(I, l, n); set_obj(I, ob, w); set_obj(I, l, v); return 0
@model('seq::operator=')
def seq_assign(I, n, ob, args):
    note_mod(I, ob, n)
    set_obj(I, ob, V(I, args[0])); return ('lref', ob)
@model('operator+')
def op_plus(I, n, ob, args):
    if n['pt'] and cls_of_type(n['pt'][0]) in ('QByteArray',) or cls_of_type(n['pt'][-1]) == 'QByteArray':
        out = []
        for t, a in zip(n['pt'], args):
            v = V(I, a)
            out.append(('cat', (('e', byte(I, v)),)) if strip_t(t) == 'char' else v)
        return cat(*out)
    if n['pt'] and cls_of_type(n['pt'][0]) == 'QString' or cls_of_type(n['pt'][-1]) == 'QString':
        return cat(*[V(I, a) for a in args])
    return NotImplemented
@model('seq::operator+')
def seq_plus(I, n, ob, args):
    return cat(obval(I, ob), V(I, args[0]))
@model('operator==', 'seq::operator==')
def op_eq(I, n, ob, args):
    a = ([obval(I, ob)] if ob is not None else []) + [V(I, x) for x in args]
    if len(a) == 2: return any_eq(I, a[0], a[1])
    return NotImplemented
def any_eq(I, a, b):
    r = iter_eq(I, a, b)
    return I.mk_eq(a, b) if r is NotImplemented else r
@model('operator!=', 'seq::operator!=')
def op_ne(I, n, ob, args):
    a = ([obval(I, ob)] if ob is not None else []) + [V(I, x) for x in args]
    if len(a) == 2: return I.neg(any_eq(I, a[0], a[1]))
    return NotImplemented
for _q in ('std::operator==', 'QtPrivate::operator==', 'std::__detail::operator==', '__gnu_cxx::operator=='): M[_q] = op_eq
for _q in ('std::operator!=', 'QtPrivate::operator!=', 'std::__detail::operator!=', '__gnu_cxx::operator!='): M[_q] = op_ne

def note_walk(I, loc, n): 
    pass
def note_mod(I, ob, n):
    w = I.user.get('walking')
    if w and ob in w: I.emit('modify-while-walking', n['q'], obj=ob, node=n)

# bytes through pointers
SIZES = {'float': 4, 'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'long long': 8, 'unsigned long long': 8}
def sizeof(I, t):
    t = strip_t(t)
    if t in SIZES: return SIZES[t]
    for q, r in I.prog.records.items():
        if q == t:
            return sum(sizeof(I, f['t']) or 0 for f in r['fields'])
    import re
    m = re.match(r'^QtProtobuf::transparent<([a-z ]+),? ?\d*>$', t)
    if m: return SIZES.get(m.group(1))
    return None
def flat_bits(v):
    if isinstance(v, BV): return v
    if isinstance(v, Struct) and len(v.f) == 1: return flat_bits(list(v.f.values())[0])
    return None
def bytes_of(I, v, ln):
    b = flat_bits(v)
    if b is not None and isinstance(ln, int) and b.w == 8 * ln:
        return ('cat', tuple(('e', BV(b.bits[8 * i:8 * i + 8])) for i in range(ln)))
    return ('op', 'bytes', v, ln)
def mem_write(I, p, v):
    if p[0] == 'tptr' and isinstance(p[2], tuple) and p[2][0] == 'dptr' and isinstance(p[2][2], int) and p[2][2] >= 0:
        d = p[2]; cur = I.readv(d[1]); n = sizeof(I, p[1]); o = d[2]
        bs = bytes_of(I, v, n)
        if isinstance(cur, tuple) and cur[0] == 'cat' and n and len(cur[1]) >= o + n and all(x[0] == 'e' for x in cur[1][:o + n]) and bs[0] == 'cat':
            I.rawwrite(d[1], ('cat', cur[1][:o] + bs[1] + cur[1][o + n:])); return
        I.emit('rawwrite', p[1], obj=p, args=(v, size(I, cur), n))
        I.rawwrite(d[1], ('op', 'poked', cur, v)); return
    if p[0] == 'dptr': return byte_write(I, p, 0, v)
    I.emit('rawwrite', '?', obj=p, args=(v, None, None))
def mem_read(I, p):
    if p[0] == 'tptr':
        src = p[2]; n = sizeof(I, p[1])
        I.emit('rawread', p[1], obj=src, args=(n,))
        if src[0] == 'rptr':
            bs = byte_terms(I, src, n)
            if bs is not None: return wrap_type(I, p[1], bs)
        return ('op', 'load', p[1], src)
    if p[0] in ('dptr', 'rptr'):
        return byte_read(I, p, 0)
    return ('op', 'load', p)
def byte_terms(I, src, n):
    if n is None: return None
    out = []
    for i in range(n):
        b = byte_read(I, src, i)
        if not isinstance(b, BV): return None
        out.append(b)
    return BV(sum((b.bits for b in out), ()))
def wrap_type(I, t, bv):
    t = strip_t(t)
    if t in SIZES: return bv
    for q, r in I.prog.records.items():
        if q == t and len(r['fields']) == 1: return Struct(r['q'], None, {r['fields'][0]['n']: bv})
    return Struct('QtProtobuf::transparent', None, {'_t': bv})
def byte_at(v, k):
    """byte k of a sequence value when its position is known"""
    if isinstance(v, tuple) and v and v[0] == 'cat':
        i = 0
        for p in v[1]:
            if p[0] != 'e': return None
            if i == k: return p[1]
            i += 1
    return None
def byte_read(I, d, i):
    off = add(d[2], i)
    v = I.readv(d[1]) if d[0] == 'dptr' else d[1]
    I.emit('byteread', '', obj=d, args=(off, size(I, v)))
    h = I.cfg.models.get('@byte')
    if h:
        r = h(I, v, off)
        if r is not None: return r
    if isinstance(off, int):
        b = byte_at(v, off)
        if b is not None: return b
    # last byte written with .data()[size-1]
    k = last_index(I, v, off)
    if k is not None: return v[1][k][1]
    return ('byte', v, off)
def last_index(I, v, off):
    if isinstance(v, tuple) and v and v[0] == 'cat' and v[1]:
        pos = size(I, v)
        for k in range(len(v[1]) - 1, -1, -1):
            if v[1][k][0] != 'e': return None
            pos = add(pos, -1)
            if pos == off: return k
    return None
def byte_write(I, d, i, val):
    off = add(d[2], i)
    v = I.readv(d[1])
    k = None
    if isinstance(off, int) and isinstance(v, tuple) and v and v[0] == 'cat' and off < len(v[1]) and all(p[0] == 'e' for p in v[1][:off + 1]): k = off
    if k is None: k = last_index(I, v, off)
    if k is None:
        I.emit('rawwrite', 'byte', obj=d, args=(val, size(I, v), off))
        I.rawwrite(d[1], ('op', 'poked', v, off, val)); return
    ps = list(v[1]); ps[k] = ('e', byte(I, val))
    I.rawwrite(d[1], ('cat', tuple(ps)))
@model('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy', '__builtin_memmove')
def m_memcpy(I, n, ob, args):
    d, s, ln = [V(I, a) for a in args]
    if isinstance(s, tuple) and s and s[0] == 'addr': s = ('objptr', s[1], 0)
    if isinstance(d, tuple) and d and d[0] == 'dptr' and isinstance(d[2], int) and d[2] >= 0 and isinstance(s, tuple) and s[0] == 'objptr':
        cur = I.readv(d[1]); bs = bytes_of(I, I.readv(s[1]), ln); o = d[2]
        if isinstance(cur, tuple) and cur[0] == 'cat' and isinstance(ln, int) and len(cur[1]) >= o + ln and all(x[0] == 'e' for x in cur[1][:o + ln]) and bs[0] == 'cat':
            I.rawwrite(d[1], ('cat', cur[1][:o] + bs[1] + cur[1][o + ln:])); return d
    if isinstance(s, tuple) and s and s[0] == 'rptr':
        I.emit('rawread', 'memcpy', obj=s, args=(ln,), node=n)
        if isinstance(d, tuple) and d and d[0] in ('addr', 'objptr'):
            bs = byte_terms(I, s, ln if isinstance(ln, int) else None)
            if bs is not None:
                cur = I.readv(d[1])
                if isinstance(cur, Struct) and len(cur.f) == 1: I.writev(d[1], cur.with_(list(cur.f)[0], bs))
                else: I.writev(d[1], bs)
                return d
    if isinstance(d, tuple) and d and d[0] in ('addr', 'objptr'): I.writev(d[1], I.fresh('memcpy'))
    return d

# ---------------------------------------------------------------- walking containers
def walk_count(I, loc, n=None):
    v = I.readv(loc)
    return count_of(I, v)
def count_of(I, v):
    if isinstance(v, Struct) and v.base is not None: return count_of(I, v.base)
    if isinstance(v, tuple) and v and v[0] == 'cat':
        r = 0
        for p in v[1]: r += 1 if p[0] == 'e' else count_of(I, p)
        return r
    if isinstance(v, tuple) and v and v[0] == 's': return len(v[1])
    s = psize(I, v)
    if isinstance(s, int): return s
    opts = [k for k in I.cfg.sizes if I.facts.eq_status(add(s, -k)) is not False]
    for k in opts:
        if I.facts.eq_status(add(s, -k)) is True: return k
    if not opts: raise Prune()
    k = opts[I.choose(len(opts), ('count', v))] if len(opts) > 1 else opts[0]
    I.assume_eq(add(s, -k))
    return k
def walk_loc(I, loc, i): return (loc[0], loc[1] + (('#', i),))
def elem(I, v, i):
    """element i of a sequence or map value"""
    if isinstance(v, Struct):
        if ('#', i) in v.f: return v.f[('#', i)]
        if v.base is not None: return elem(I, v.base, i)
    if isinstance(v, tuple) and v and v[0] == 'cat' and isinstance(i, int):
        k = 0
        for p in v[1]:
            if p[0] == 'e':
                if k == i: return p[1]
                k += 1
            else:
                c = count_of(I, p)
                if i < k + c: return ('elem', p, i - k)
                k += c
    return ('elem', v, i)
def iter_loc(I, it, n={'q': 'iterator'}):
    stale(I, it, n)
    return (it[1][0], it[1][1] + (('#', it[2]),))

@model('it::<ctor>')
def it_ctor(I, n, ob, args):
    if len(args) == 1: return V(I, args[0])
    return NotImplemented
@model('it::operator!=', 'it::operator==')
def it_cmp(I, n, ob, args):
    a = obval(I, ob) if ob is not None else V(I, args[0]); b = V(I, args[-1])
    r = iter_eq(I, a, b)
    if r is NotImplemented: return NotImplemented
    return r if n['q'].endswith('==') else I.neg(r)
def iter_eq(I, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == 'iter' and b[0] == 'iter':
            if a[1] != b[1]: return I.mk_eq(('it', a), ('it', b))
            x, y = a[2], b[2]
            if x == y: return 1
            if 'end' in (x, y):
                k = x if y == 'end' else y
                if not isinstance(k, int): return I.mk_eq(k, size(I, I.readv(a[1])))
                return int(k >= count_of(I, I.readv(a[1])))
            return I.mk_eq(x, y)
        if {a[0], b[0]} == {'iter', 'mend'} and a[1] == b[1]:
            m = a if a[0] == 'iter' else b
            return iter_eq(I, m, ('iter', m[1], 'end') + m[3:])
        if {a[0], b[0]} == {'mit', 'mend'} and a[1] == b[1]:
            m = a if a[0] == 'mit' else b
            return ('not', contains(I, I.readv(m[1]), m[2])) 
        if {a[0], b[0]} == {'mit', 'iter'}:
            m = a if a[0] == 'mit' else b
            return ('not', contains(I, I.readv(m[1]), m[2]))
    return NotImplemented
def contains(I, mv, k):
    if isinstance(mv, Struct):
        if ('[]', k) in mv.f: return 1
        if mv.base is None: return 0
        mv = mv.base
    while isinstance(mv, tuple) and mv[:1] == ('without',):
        if mv[2] == k: return 0
        mv = mv[1]
    if mv == EMPTY: return 0
    if isinstance(k, tuple) and k[:2] == ('key', mv): return 1
    t = ('contains', mv, k); I.facts.set_range(t, 0, 1)
    return ('not', ('cmp', 'eq', t))
@model('it::operator++', 'it::operator--')
def it_inc(I, n, ob, args):
    v = obval(I, ob); d = 1 if n['q'].endswith('++') else -1
    stale(I, v, n)
    if isinstance(v, tuple) and v and v[0] == 'iter':
        I.rawwrite(ob, ('iter', v[1], add(v[2], d)) + v[3:])
        return v if args else ('lref', ob)
    return NotImplemented
@model('it::operator*')
def it_deref(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, tuple) and v and v[0] == 'iter':
        if len(v) > 3 and v[3] == 'kv': return kvpair(I, v)
        if len(v) > 3 and v[3] == 'pair': return Struct('std::pair', None, {'first': mapkey(I, v), 'second': mapval(I, v)})
        if len(v) > 3 and v[3] == 'map': return mapval(I, v)
        return ('lref', iter_loc(I, v))
    if isinstance(v, tuple) and v and v[0] == 'mit':
        if n['cls'].startswith('std::'): return ('lref', mit_loc(I, v, n))
        mit_pair(I, v, n); return ('lref', (v[1][0], v[1][1] + (('[]', v[2]),)))
    return NotImplemented
@model('it::operator->')
def it_arrow(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, tuple) and v and v[0] == 'iter':
        if len(v) > 3 and v[3] == 'kv': return ('addr', I.newtemp(kvpair(I, v)))
        if len(v) > 3 and v[3] == 'pair': return ('addr', I.newtemp(Struct('std::pair', None, {'first': mapkey(I, v), 'second': mapval(I, v)})))
        if len(v) > 3 and v[3] == 'map': return mapval(I, v)
        return ('addr', iter_loc(I, v))
    if isinstance(v, tuple) and v and v[0] == 'mit': return ('addr', mit_loc(I, v, n))
    return NotImplemented
def mit_loc(I, v, n):
    """the pair an iterator of a std map refers to; its second member is the entry itself"""
    loc = I.newtemp(mit_pair(I, v, n))
    I.user.setdefault('mitpair', {})[loc[0]] = v
    return loc
def mit_pair(I, v, n):
    c = contains(I, I.read_noevent(v[1]), v[2])
    st = I.status(c)
    if st is not True: I.emit('deref', 'maybe-end' if st is None else 'end', obj=v, node=n)
    val = I.readv((v[1][0], v[1][1] + (('[]', v[2]),)))
    return Struct('std::pair', None, {'first': v[2], 'second': val})
@model('it::key')
def it_key(I, n, ob, args):
    v = obval(I, ob)
    return mapkey(I, v) if isinstance(v, tuple) and v[0] == 'iter' else (v[2] if isinstance(v, tuple) and v[0] == 'mit' else NotImplemented)
@model('it::value')
def it_value(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, tuple) and v[0] == 'iter': return mapval(I, v)
    if isinstance(v, tuple) and v[0] == 'mit':
        mit_pair(I, v, n); return ('lref', (v[1][0], v[1][1] + (('[]', v[2]),)))
    return NotImplemented
def kvpair(I, v): return Struct('std::pair', None, {'first': ('addr', I.newtemp(mapkey(I, v))), 'second': ('addr', I.newtemp(mapval(I, v)))})
def mapkey(I, v): return ('key', I.readv(v[1]), v[2])
def mapval(I, v): return ('val', I.readv(v[1]), v[2])
@model('std::distance', 'std::next', 'std::prev')
def m_distance(I, n, ob, args):
    a = [V(I, x) for x in args]
    if n['q'].endswith('distance') and all(isinstance(x, tuple) and x and x[0] == 'rptr' for x in a) and a[0][1] == a[1][1]: return add(a[1][2], a[0][2], -1)
    return NotImplemented

# ---------------------------------------------------------------- maps
@model('map::<ctor>')
def map_ctor(I, n, ob, args):
    if not args: return Struct(n['cls'], None, {})
    a = V(I, args[0])
    if isinstance(a, tuple) and a and a[0] == 'cat':
        st = Struct(n['cls'], None, {})
        for p in a[1]:
            x = p[1]
            if p[0] == 'e' and isinstance(x, Struct) and 'first' in x.f: st = st.with_(('[]', x.f['first']), x.f['second'])
            elif p[0] == 'e' and isinstance(x, tuple) and x[0] == 'pair': st = st.with_(('[]', x[1]), x[2])
            else: return NotImplemented
        return st
    return NotImplemented
@model('std::pair::pair', 'QPair::QPair')
def pair_ctor(I, n, ob, args):
    if len(args) == 2: return Struct('std::pair', None, {'first': V(I, args[0]), 'second': V(I, args[1])})
    if not args: return Struct('std::pair', None, {'first': 0, 'second': 0})
    return NotImplemented
@model('std::make_pair', 'qMakePair')
def m_make_pair(I, n, ob, args): return Struct('std::pair', None, {'first': V(I, args[0]), 'second': V(I, args[1])})
@model('map::operator[]')
def map_idx(I, n, ob, args):
    k = V(I, args[0])
    loc = (ob[0], ob[1] + (('[]', k),))
    if n.get('const'): return I.readv(loc)
    c = contains(I, I.read_noevent(ob), k)
    I.emit('map-insert', n['q'], obj=ob, args=(k, I.status(c)), node=n)
    return ('lref', loc)
@model('map::at')
def map_at(I, n, ob, args):
    k = V(I, args[0])
    if not I.truth(contains(I, I.readv(ob), k)):
        raise CppThrow('std::out_of_range', None, I.curline)
    return ('lref', (ob[0], ob[1] + (('[]', k),)))
@model('map::find', 'map::constFind')
def map_find(I, n, ob, args):
    I.readv(ob)
    return ('mit', ob, V(I, args[0]))
@model('map::contains', 'map::count')
def map_contains(I, n, ob, args):
    if not args: return size(I, obval(I, ob))
    return contains(I, obval(I, ob), V(I, args[0]))
@model('map::end', 'map::cend', 'map::constEnd')
def map_end(I, n, ob, args):
    I.readv(ob)
    return ('mend', ob) if n['cls'].startswith('std::') else ('iter', ob, 'end', 'map')
@model('map::begin', 'map::cbegin', 'map::constBegin')
def map_begin(I, n, ob, args): return ('iter', ob, 0, 'pair' if n['cls'].startswith('std::') else 'map')
@model('map::keyValueBegin', 'map::constKeyValueBegin')
def map_kvb(I, n, ob, args): return ('iter', ob, 0, 'kv')
@model('map::keyValueEnd', 'map::constKeyValueEnd')
def map_kve(I, n, ob, args): return ('iter', ob, 'end', 'kv')
@model('map::keys', 'map::uniqueKeys')
def map_keys(I, n, ob, args):
    v = obval(I, ob)
    if args or isinstance(v, Struct): return NotImplemented
    return ('cat', tuple(('e', ('key', v, i)) for i in range(count_of(I, v))))
@model('map::values')
def map_values(I, n, ob, args):
    v = obval(I, ob)
    if args or isinstance(v, Struct): return NotImplemented
    return ('cat', tuple(('e', ('val', v, i)) for i in range(count_of(I, v))))
@model('map::size')
def map_size(I, n, ob, args): return size(I, obval(I, ob))
@model('map::isEmpty', 'map::empty')
def map_empty(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, Struct) and v.base is None: return int(not any(isinstance(k, tuple) and k[0] == '[]' for k in v.f))
    return I.mk_eq(size(I, v), 0)
@model('map::insert', 'map::insert_or_assign', 'map::emplace')
def map_insert(I, n, ob, args):
    a = [V(I, x) for x in args]
    note_mod(I, ob, n)
    if len(a) == 1 and isinstance(a[0], Struct) and 'first' in a[0].f: a = [a[0].f['first'], a[0].f['second']]
    if len(a) == 2:
        I.emit('map-insert', n['q'], obj=ob, args=(a[0], I.status(contains(I, I.read_noevent(ob), a[0]))), node=n)
        if n['q'].endswith('emplace') or (n['cls'].startswith('std::') and n['q'].endswith('insert')):
            # keeps an existing entry
            if I.truth(contains(I, I.readv(ob), a[0])): return ('mit', ob, a[0])
        I.write((ob[0], ob[1] + (('[]', a[0]),)), a[1])
        return ('mit', ob, a[0])
    return NotImplemented
@model('map::value')
def map_value(I, n, ob, args):
    k = V(I, args[0])
    m = obval(I, ob)
    d = V(I, args[1]) if len(args) > 1 else 0
    if I.truth(contains(I, m, k)):
        return I.readv((ob[0], ob[1] + (('[]', k),)))
    return d
@model('map::clear')
def map_clear(I, n, ob, args):
    note_mod(I, ob, n); I.write(ob, Struct(n['cls'], None, {})); return 0
@model('map::operator=')
def map_assign(I, n, ob, args):
    note_mod(I, ob, n); I.write(ob, V(I, args[0])); return ('lref', ob)

# ---------------------------------------------------------------- QVariant and meta types
def targ(n, i=0):
    t = n.get('ta') or []
    return strip_t(t[i]) if i < len(t) and isinstance(t[i], str) else None
@model('QVariant::fromValue')
def qv_from(I, n, ob, args): return ('variant', targ(n), V(I, args[0]))
@model('QVariant::setValue')
def qv_set(I, n, ob, args):
    I.write(ob, ('variant', targ(n), V(I, args[0]))); return 0
@model('QVariant::value', 'qvariant_cast')
def qv_value(I, n, ob, args):
    v = obval(I, ob) if ob is not None else V(I, args[0])
    t = targ(n)
    if isinstance(v, tuple) and v and v[0] == 'variant':
        if v[1] is None:
            c = cls_of_type(t) or ''
            if t.startswith(('QList<', 'QVector<')) or t in ('QString', 'QByteArray', 'QStringList', 'QByteArrayList'): return ('cat', ())
            if c in MAPS: return Struct(c, None, {})
            if t.endswith('*') or t in SIZES or t == 'bool': return 0
        return v[2] if v[1] == t else ('op', 'convert', v[1], t, v[2])
    return ('op', 'QVariant::value', t, v)
@model('QVariant::QVariant')
def qv_ctor(I, n, ob, args):
    if not args: return ('variant', None, 0)
    t = strip_t(n['pt'][0])
    if t == 'QVariant': return V(I, args[0])
    return ('variant', t, V(I, args[0]))
@model('QVariant::operator=')
def qv_asg(I, n, ob, args):
    I.write(ob, V(I, args[0])); return ('lref', ob)
@model('QVariant::userType', 'QVariant::type')
def qv_type(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, tuple) and v and v[0] == 'variant' and v[1]: return ('typeid', v[1])
    return ('op', 'userType', v)
@model('QVariant::isNull')
def qv_null(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, tuple) and v and v[0] == 'variant':
        if v[1] is None: return 1
        if v[1] in SIZES or v[1] == 'bool' or 'transparent<' in v[1] or v[1].startswith(('QList<', 'QMap<', 'QHash<', 'QVector<')) or v[1] in ('QStringList', 'QByteArrayList'): return 0
    t = ('op', 'isNull', v); I.facts.set_range(t, 0, 1)
    return ('not', ('cmp', 'eq', t))
@model('QVariant::data', 'QVariant::constData')
def qv_data(I, n, ob, args): return ('vptr', obval(I, ob))
def read_variant_as(I, v, t):
    t = strip_t(t)
    if isinstance(v, tuple) and v and v[0] == 'variant' and v[1] is not None:
        if v[1] == t: return v[2]
        if v[1] == 'bool' and t in SIZES and isinstance(v[2], BV): return B.ext(v[2], 8 * SIZES[t], False)
        I.emit('variant-misread', t, args=(v[1],))
        return ('op', 'misread', t, v)
    I.emit('variant-rawread', t, args=(v,))
    return ('op', 'QVariant::value', t, v)
@model('qMetaTypeId', 'qRegisterMetaType_id', 'qRegisterMetaType')
def m_typeid(I, n, ob, args): return ('typeid', targ(n))
@model('QMetaType::fromType')
def m_fromtype(I, n, ob, args): return ('typeid', targ(n))

# ---------------------------------------------------------------- smart pointers
def spval(I, n, ob):
    """a guarded pointer read in a later event may have been cleared meanwhile"""
    v = obval(I, ob)
    return ('late', v) if I.user.get('late') and n.get('cls') == 'QPointer' and v != 0 else v
@model('sp::<ctor>')
def sp_ctor(I, n, ob, args):
    if not args: return 0
    return V(I, args[0])
@model('sp::operator->', 'sp::get', 'sp::data', 'sp::lock', 'sp::toStrongRef', 'sp::operator T *', 'sp::toWeakRef')
def sp_get(I, n, ob, args): return spval(I, n, ob)
@model('sp::operator*')
def sp_star(I, n, ob, args):
    v = spval(I, n, ob)
    return ('lref', I.deref_ptr(v, n))
@model('sp::operator bool')
def sp_bool(I, n, ob, args): return I.neg(I.mk_eq(spval(I, n, ob), 0))
@model('sp::isNull', 'sp::operator!')
def sp_null(I, n, ob, args): return I.mk_eq(spval(I, n, ob), 0)
@model('sp::operator=')
def sp_asg(I, n, ob, args):
    old = obval(I, ob)
    v = V(I, args[0])
    I.write(ob, v)
    mv = args[0]
    if isinstance(mv, tuple) and mv and mv[0] == 'lref' and n['pt'][0].endswith('&&'): I.write(mv[1], 0)
    I.emit('sp-reset', n['q'], obj=ob, args=(old, v), node=n)
    return ('lref', ob)
@model('sp::reset', 'sp::clear')
def sp_reset(I, n, ob, args):
    old = obval(I, ob); v = V(I, args[0]) if args else 0
    I.write(ob, v)
    I.emit('sp-reset', n['q'], obj=ob, args=(old, v), node=n)
    return 0
@model('sp::release', 'sp::take')
def sp_release(I, n, ob, args):
    old = obval(I, ob); I.write(ob, 0)
    I.emit('sp-release', n['q'], obj=ob, args=(old,), node=n)
    return old
@model('sp::operator==', 'std::operator==')
def sp_eq(I, n, ob, args): return op_eq(I, n, ob, args)
@model('sp::operator!=')
def sp_ne(I, n, ob, args): return op_ne(I, n, ob, args)
@model('std::make_shared', 'std::make_unique', 'QSharedPointer::create')
def make_shared(I, n, ob, args):
    cls = cls_of_type(targ(n) or '')
    loc = I.newheap(cls)
    a = tuple(V(I, x) for x in args)
    # run the constructor when its body is known and the arguments fit
    cands = [f for f in I.prog.byq.get(cls + '::' + cls.split('::')[-1], []) if f.get('isctor') and len(f['params']) == len(a) and f.get('ck') not in ('copy', 'move')]
    if len(cands) == 1 and I.inlinable(cands[0]):
        run_with_values(I, cands[0], a, ('addr', loc), args)
    else: I.rawwrite(loc, ('ctor', cls) + a)
    I.emit('new', cls, res=('addr', loc), args=a, node=n)
    return ('addr', loc)
def run_with_values(I, f, vals, this, raw=None):
    env = {}; I.uid += 1
    for i, (p, v) in enumerate(zip(f['params'], vals)):
        if p.get('ref') and raw and isinstance(raw[i], tuple) and raw[i] and raw[i][0] == 'lref': env[(f['_tu'], p['id'])] = raw[i][1]; continue
        loc = (('v', I.uid, p['id'], p['n']), ()); I.rawwrite(loc, v); env[(f['_tu'], p['id'])] = loc
    return I.run_body(f, env, this, I.uid)

# ---------------------------------------------------------------- std::function
@model('fun::<ctor>')
def fun_ctor(I, n, ob, args):
    return V(I, args[0]) if args else 0
@model('fun::operator=')
def fun_asg(I, n, ob, args):
    I.write(ob, V(I, args[0])); return ('lref', ob)
@model('fun::operator bool')
def fun_bool(I, n, ob, args): return I.neg(I.mk_eq(obval(I, ob), 0))
@model('fun::operator()')
def fun_call(I, n, ob, args):
    fv = obval(I, ob)
    if isinstance(fv, Closure): return I.call_closure(fv, [], n, argvals=args)
    if isinstance(fv, tuple) and fv and fv[0] == 'fnref':
        f = I.prog.lookup(fv[1], I.frame()['tu'])
        if f and I.inlinable(f): return run_with_values(I, f, [V(I, a) for a in args], None, args)
        return I.opaque_call(dict(n, q=fv[2], const=False), None, args, indirect=fv)
    st = I.status(fv)
    return I.opaque_call(dict(n, q='std::function()', const=False), ('fnvalue', fv), args, indirect=fv)

# ---------------------------------------------------------------- algorithms over containers
def range_of(I, a, b):
    """element values/references of [a, b) or None"""
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'iter' and isinstance(a[2], int)): return None
    if b[0] == 'mend' and b[1] == a[1]: e = 'end'
    elif b[0] == 'iter' and b[1] == a[1]: e = b[2]
    else: return None
    hi = count_of(I, I.readv(a[1])) if e == 'end' else e
    if not isinstance(hi, int): return None
    return [it_elem(I, ('iter', a[1], i) + a[3:]) for i in range(a[2], hi)]
def it_elem(I, v):
    k = v[3] if len(v) > 3 else None
    if k == 'kv': return kvpair(I, v)
    if k == 'pair': return Struct('std::pair', None, {'first': mapkey(I, v), 'second': mapval(I, v)})
    if k == 'map': return mapval(I, v)
    return ('lref', iter_loc(I, v))
def apply_fn(I, n, fv, args):
    if isinstance(fv, Closure): return I.val(I.call_closure(fv, [], n, argvals=args))
    if isinstance(fv, tuple) and fv and fv[0] == 'fnref':
        f = I.prog.lookup(fv[1], I.frame()['tu'])
        if f and I.inlinable(f): return I.val(run_with_values(I, f, [V(I, a) for a in args], None, args))
    raise AnalysisError('function object of an algorithm not resolved')
@model('std::equal', 'std::all_of', 'std::any_of', 'std::none_of', 'std::for_each', 'std::find_if', 'std::find_if_not', 'std::count_if')
def m_algo(I, n, ob, args):
    name = n['q'].split('::')[-1]; a = [V(I, x) for x in args]
    if len(a) < 3 or not isinstance(a[-1], (Closure, tuple)) or isinstance(a[-1], tuple) and a[-1][:1] != ('fnref',): return NotImplemented
    if isinstance(a[-1], tuple):
        f = I.prog.lookup(a[-1][1], I.frame()['tu'])
        if not (f and I.inlinable(f)): return NotImplemented
    xs = range_of(I, a[0], a[1])
    if xs is None: return NotImplemented
    if name == 'equal':
        if len(a) == 5:
            ys = range_of(I, a[2], a[3])
            if ys is None: return NotImplemented
            if len(ys) != len(xs): return 0
        else:
            if not (isinstance(a[2], tuple) and a[2][:1] == ('iter',) and isinstance(a[2][2], int)): return NotImplemented
            hi = count_of(I, I.readv(a[2][1]))
            ys = []
            for k in range(len(xs)):
                if a[2][2] + k >= hi: I.emit('deref', 'end', obj=a[2], node=n)
                ys.append(it_elem(I, ('iter', a[2][1], a[2][2] + k) + a[2][3:]))
        for x, y in zip(xs, ys):
            if not I.truth(apply_fn(I, n, a[-1], [x, y])): return 0
        return 1
    if len(a) != 3: return NotImplemented
    cnt = 0
    for k, x in enumerate(xs):
        r = apply_fn(I, n, a[-1], [x])
        if name == 'for_each': continue
        t = I.truth(r)
        if name == 'count_if': cnt += bool(t)
        elif name == 'all_of' and not t: return 0
        elif name == 'any_of' and t: return 1
        elif name == 'none_of' and t: return 0
        elif name in ('find_if', 'find_if_not') and bool(t) == (name == 'find_if'): return ('iter', a[0][1], a[0][2] + k) + a[0][3:]
    return {'all_of': 1, 'none_of': 1, 'any_of': 0, 'count_if': cnt, 'for_each': a[-1]}.get(name, a[1])

# ---------------------------------------------------------------- misc pure helpers
@model('std::move', 'std::forward', 'qAsConst', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'qMove')
def m_move(I, n, ob, args):
    if n['q'] == 'std::addressof': return ('addr', L(I, args[0]))
    a = args[0]
    return a if isinstance(a, tuple) and a and a[0] == 'lref' else a
@model('std::min', 'qMin')
def m_min(I, n, ob, args):
    a, b = [V(I, x) for x in args[:2]]
    return a if I.truth(I.mk_rel('<=', a, b, None, False)) else b
@model('std::max', 'qMax')
def m_max(I, n, ob, args):
    a, b = [V(I, x) for x in args[:2]]
    return a if I.truth(I.mk_rel('>=', a, b, None, False)) else b
@model('std::swap', 'qSwap')
def m_swap(I, n, ob, args):
    a, b = L(I, args[0]), L(I, args[1])
    x, y = I.readv(a), I.readv(b)
    I.writev(a, y); I.writev(b, x); return 0
@model('std::exchange', 'qExchange')
def m_exch(I, n, ob, args):
    a = L(I, args[0]); old = I.readv(a); I.writev(a, V(I, args[1])); return old
@model('std::_Swap')
def m_none(I, n, ob, args): return NotImplemented
@model('qt_noop', 'qt_assert', 'qt_assert_x')
def m_noop(I, n, ob, args): return 0
for _e in ('std::out_of_range', 'std::invalid_argument', 'std::runtime_error', 'std::logic_error'):
    c = _e.split('::')[-1]
    M[_e + '::' + c] = (lambda nm: lambda I, n, ob, args: ('exc', nm) + tuple(V(I, a) for a in args))(_e)

# ---------------------------------------------------------------- locks
def lockid(I, a):
    v = V(I, a) if not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple)) else a
    if isinstance(v, tuple) and v and v[0] == 'addr': return v[1]
    return (('deref', v), ())
def acquire(I, key, n=1, node=None):
    I.held.append((key, n)); I.emit('acquire', 'lock', obj=key, args=(n,), node=node)
def release(I, key, n=1, node=None):
    tot = 0
    for i in range(len(I.held) - 1, -1, -1):
        if I.held[i][0] == key and I.held[i][1] == n:
            del I.held[i]; I.emit('release', 'lock', obj=key, args=(n,), node=node); return
    I.emit('bad-release', 'lock', obj=key, args=(n,), node=node)
GUARDS = ('QMutexLocker', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'QWriteLocker', 'QReadLocker', 'QSemaphoreReleaser')
def guard_ctor(I, n, ob, args):
    cls = n['cls']
    if not args: return Struct(cls, None, {'lock': None, 'on': 0})
    if cls == 'QSemaphoreReleaser':
        p = args[0]
        if strip_t(n['pt'][0]).endswith('*'): key = lockid(I, p)
        else: key = L(I, p)
        cnt = V(I, args[1]) if len(args) > 1 else 1
        return Struct(cls, None, {'lock': ('addr', key), 'on': 1, 'n': cnt})
    if strip_t(n['pt'][0]).endswith('*'): key = lockid(I, args[0])
    else: key = L(I, args[0])
    deferred = len(args) > 1 and 'defer' in repr(n['pt'][1])
    kind = 'r' if cls == 'QReadLocker' else 1
    if not deferred: acquire(I, key, kind, n)
    return Struct(cls, None, {'lock': ('addr', key), 'on': 0 if deferred else 1, 'n': kind})
for g in GUARDS:
    M[g + '::' + g.split('::')[-1]] = guard_ctor
def guard_unlock(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, Struct) and v.f.get('on') and v.f.get('lock'):
        release(I, v.f['lock'][1], v.f.get('n', 1), n); I.rawwrite((ob[0], ob[1] + ('on',)), 0)
    return 0
def guard_relock(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, Struct) and v.f.get('lock'):
        acquire(I, v.f['lock'][1], v.f.get('n', 1), n); I.rawwrite((ob[0], ob[1] + ('on',)), 1)
    return 0
for g in GUARDS:
    if g == 'QSemaphoreReleaser': continue
    M[g + '::unlock'] = guard_unlock; M[g + '::relock'] = guard_relock; M[g + '::lock'] = guard_relock
@model('QSemaphoreReleaser::cancel')
def rel_cancel(I, n, ob, args):
    v = obval(I, ob); I.rawwrite((ob[0], ob[1] + ('on',)), 0); return v.f['lock'] if isinstance(v, Struct) else 0
def lk(I, n, ob, args): acquire(I, ob, 1, n); return 0
def ulk(I, n, ob, args): release(I, ob, 1, n); return 0
for c in ('QMutex', 'QBasicMutex', 'std::mutex', 'QRecursiveMutex', 'std::recursive_mutex'):
    M[c + '::lock'] = lk; M[c + '::unlock'] = ulk
@model('QReadWriteLock::lockForRead')
def rwl(I, n, ob, args): acquire(I, ob, 'r', n); return 0
@model('QReadWriteLock::lockForWrite')
def rww(I, n, ob, args): acquire(I, ob, 1, n); return 0
@model('QReadWriteLock::unlock')
def rwu(I, n, ob, args):
    for i in range(len(I.held) - 1, -1, -1):
        if I.held[i][0] == ob:
            k = I.held[i]; del I.held[i]; I.emit('release', 'lock', obj=ob, args=(k[1],), node=n); return 0
    I.emit('bad-release', 'lock', obj=ob, args=(), node=n)
    return 0
@model('std::call_once')
def m_call_once(I, n, ob, args):
    loc = L(I, args[0]); h = (loc, 'once')
    I.held.append(h); I.emit('acquire', 'lock', obj=loc, args=('once',), node=n)
    try:
        fv = V(I, args[1])
        if isinstance(fv, Closure): I.call_closure(fv, [], n, argvals=[])
        else: fun_call_value(I, n, fv, args[2:])
    finally:
        I.held.remove(h); I.emit('release', 'lock', obj=loc, args=('once',), node=n)
    return 0
def fun_call_value(I, n, fv, args):
    if isinstance(fv, tuple) and fv and fv[0] == 'fnref':
        f = I.prog.lookup(fv[1], I.frame()['tu'])
        if f and I.inlinable(f): return run_with_values(I, f, [V(I, a) for a in args], None, args)
    return I.opaque_call(dict(n, q='*', pt=[], const=False), ('fnvalue', fv), args, indirect=fv)
@model('QSemaphore::acquire')
def sem_acq(I, n, ob, args): acquire(I, ob, ('sem', V(I, args[0]) if args else 1), n); return 0
@model('QSemaphore::release')
def sem_rel(I, n, ob, args): release(I, ob, ('sem', V(I, args[0]) if args else 1), n); return 0
@model('QSemaphore::QSemaphore')
def sem_ctor(I, n, ob, args): return ('sem', V(I, args[0]) if args else 0)

def dtor(I, cls, loc):
    if cls in GUARDS:
        v = I.read_noevent(loc)
        if isinstance(v, Struct) and v.f.get('on') and v.f.get('lock'):
            k = v.f.get('n', 1)
            release(I, v.f['lock'][1], ('sem', k) if cls == 'QSemaphoreReleaser' else k)
        return
    h = I.cfg.models.get('~' + cls)
    if h: h(I, cls, loc); return
    if cls in ('std::unique_ptr', 'QScopedPointer', 'std::shared_ptr', 'QSharedPointer'):
        v = I.read_noevent(loc)
        if I.status(v) is not False: I.emit('sp-drop', cls, obj=loc, args=(v,))
        return
    for f in I.prog.byq.get(cls + '::~' + cls.split('::')[-1], []):
        if I.inlinable(f): I.run_body(f, {}, ('addr', loc), I.uid)
        return
def temp_dtor(I, cls, loc):
    if cls in GUARDS: dtor(I, cls, loc)

# ---------------------------------------------------------------- Qt object system: connections, threads, timers
def ptr_of(loc):
    """pointer value designating a location"""
    if loc is None: return None
    if loc[0][0] == 'deref' and not loc[1]: return loc[0][1]
    return ('addr', loc)
def is_fn(v): return isinstance(v, Closure) or isinstance(v, tuple) and v and v[0] == 'fnref'
@model('QObject::connect')
def q_connect(I, n, ob, args):
    a = [V(I, x) for x in args]
    I.uid += 1; res = ('conn', I.uid)
    if ob is not None and len(a) >= 3 and not is_fn(a[0]) and is_fn(a[1]): pass
    sender, sig = a[0], a[1]; rest = a[2:]
    ctx = None; fn = None
    if rest and is_fn(rest[0]): fn = rest[0]; rest = rest[1:]
    elif len(rest) >= 2: ctx, fn = rest[0], rest[1]; rest = rest[2:]
    I.emit('connect', sig[2] if isinstance(sig, tuple) and sig[:1] == ('fnref',) else repr(sig), obj=sender, args=(ctx, fn) + tuple(rest), res=res, node=n, extra={'held': list(I.held), 'thr': cur_thread(I)})
    return res
@model('QObject::disconnect')
def q_disconnect(I, n, ob, args):
    a = tuple(V(I, x) for x in args)
    o = ptr_of(ob) if ob is not None and not n.get('static') else None
    I.emit('disconnect', n['q'], obj=o, args=a, node=n)
    return 1
@model('QMetaObject::Connection::Connection')
def conn_ctor(I, n, ob, args):
    return V(I, args[0]) if args else ('noconn',)
def conn_bool(I, n, ob, args):
    v = obval(I, ob)
    if isinstance(v, tuple) and v and v[0] == 'conn': return int(not any(e.kind == 'disconnect' and v in e.args for e in I.trace))
    if isinstance(v, tuple) and v and v[0] in ('noconn', 'ctor'): return 0
    return NotImplemented
def cur_thread(I): return I.user['thr'][-1] if I.user.get('thr') else ('curthread',)
@model('QThread::currentThread')
def q_curthread(I, n, ob, args): return cur_thread(I)
@model('QObject::thread')
def q_thread(I, n, ob, args):
    t = ('thread', ptr_of(ob)); I.facts.add_ne(to_lin(t)); return t
@model('QTimer::singleShot')
def q_single(I, n, ob, args):
    a = [V(I, x) for x in args]
    fn = [x for x in a if is_fn(x)]
    ctx = [x for x, t in zip(a[1:], n['pt'][1:]) if strip_t(t).endswith('*') and not is_fn(x)]
    I.emit('timer', n['q'], obj=ctx[0] if ctx else None, args=(a[0], fn[-1] if fn else None) + tuple(a), node=n)
    return 0
@model('QMetaObject::invokeMethod')
def q_invoke(I, n, ob, args):
    a = [V(I, x) for x in args]
    if len(a) < 2 or not is_fn(a[1]): return NotImplemented
    typ = 0; ret = None
    for x, t in zip(a[2:], n['pt'][2:]):
        if 'ConnectionType' in t: typ = x
        elif strip_t(t).endswith('*'): ret = x
    obj = a[0]; th = ('thread', obj); I.facts.add_ne(to_lin(th))
    same = I.status(I.mk_eq(cur_thread(I), th)) is True
    I.emit('invoke', n['q'], obj=obj, args=(a[1], typ, ret), node=n, extra={'same': same})
    if typ == 3 and same:
        I.emit('self-deadlock', n['q'], obj=obj, node=n)
    if typ == 2 or typ == 0 and not same:
        I.emit('queued', n['q'], obj=obj, args=(a[1],), node=n); return 1
    inner = typ in (0, 3) or same
    I.user.setdefault('thr', []).append(th if inner else cur_thread(I))
    I.emit('thr-enter', n['q'], obj=obj, args=(typ,), node=n)
    try:
        r = invoke_fn(I, n, obj, a[1])
    finally:
        I.user['thr'].pop(); I.emit('thr-exit', n['q'], obj=obj, args=(typ,), node=n)
    if ret is not None and ret != 0:
        I.writev(I.deref(ret), I.val(r))
    return 1
def invoke_fn(I, n, obj, fv):
    if isinstance(fv, Closure): return I.call_closure(fv, [], n, argvals=[])
    f = I.prog.lookup(fv[1], I.frame()['tu'])
    this = obj if isinstance(obj, tuple) and obj[:1] == ('addr',) else ('addr', (('deref', obj), ()))
    if f and I.inlinable(f): return I.run_body(f, {}, this, I.uid)
    I.emit('call', fv[2], obj=obj if this is not obj else this[1], args=(), node=n, extra={'objv': None, 'locs': [], 'indirect': fv})
    return 0
@model('QObject::parent')
def q_parent(I, n, ob, args): return ('parent', ptr_of(ob))

# ---------------------------------------------------------------- more container operations
def stale(I, v, n):
    w = I.user.get('born')
    if w is not None and isinstance(v, tuple) and v[:1] == ('iter',) and w.get(repr(v[1]), (0, -1))[1] > w.get(repr(v[1]), (0, -1))[0]:
        I.emit('stale-iter', n['q'], obj=v, node=n)
def born(I, loc):
    w = I.user.get('born')
    if w is not None: I.uid += 1; w[repr(loc)] = (I.uid, w.get(repr(loc), (0, -1))[1])
def moved(I, loc):
    w = I.user.get('born')
    if w is not None: I.uid += 1; w[repr(loc)] = (w.get(repr(loc), (0, -1))[0], I.uid)
def explicit(v): return isinstance(v, tuple) and v[:1] == ('cat',) and all(p[0] == 'e' for p in v[1])
@model('seq::erase')
def seq_erase(I, n, ob, args):
    v = obval(I, ob); a = [V(I, x) for x in args]
    if not explicit(v) or not all(isinstance(x, tuple) and x[:1] == ('iter',) and x[1] == ob for x in a): return NotImplemented
    note_mod(I, ob, n)
    ps = list(v[1]); N = len(ps)
    idx = [N if x[2] == 'end' else x[2] for x in a]
    if not all(isinstance(i, int) for i in idx): return NotImplemented
    if len(idx) == 1:
        if idx[0] >= N: I.emit('deref', 'end', obj=a[0], node=n); return a[0]
        del ps[idx[0]]
    else: del ps[idx[0]:idx[1]]
    moved(I, ob); set_obj(I, ob, ('cat', tuple(ps))); born(I, ob)
    return ('iter', ob, idx[0])
@model('std::remove', 'std::remove_if', 'std::find', 'std::count')
def m_remove(I, n, ob, args):
    name = n['q'].split('::')[-1]
    a = [V(I, x) for x in args]
    if len(a) != 3: return NotImplemented
    xs = range_of(I, a[0], a[1])
    if xs is None: return NotImplemented
    if name in ('find', 'count'):
        c = 0
        for k, x in enumerate(xs):
            if I.truth(I.mk_eq(V(I, x), a[2])):
                if name == 'find': return ('iter', a[0][1], a[0][2] + k) + a[0][3:]
                c += 1
        return c if name == 'count' else a[1]
    loc = a[0][1]; v = I.readv(loc)
    if not explicit(v) or a[0][2] != 0: return NotImplemented
    keep = [x for x in xs if not (I.truth(apply_fn(I, n, a[2], [x])) if name == 'remove_if' else I.truth(I.mk_eq(V(I, x), a[2])))]
    kept = tuple(('e', V(I, x)) for x in keep)
    I.write(loc, ('cat', kept + tuple(('e', ('moved-from', i)) for i in range(len(xs) - len(kept)))))
    return ('iter', loc, len(kept))
@model('map::erase', 'map::remove')
def map_erase(I, n, ob, args):
    a = V(I, args[0])
    if len(args) != 1: return NotImplemented
    k = a[2] if isinstance(a, tuple) and a[:1] == ('mit',) else a
    if isinstance(k, tuple) and k[:1] in (('iter',), ('mend',)): return NotImplemented
    v = obval(I, ob); note_mod(I, ob, n)
    I.emit('map-erase', n['q'], obj=ob, args=(k,), node=n)
    if isinstance(v, Struct) and ('[]', k) in v.f:
        f = dict(v.f); del f[('[]', k)]
        if v.base is None: I.write(ob, Struct(v.cls, None, f)); return 1
        v = Struct(v.cls, ('without', v.base, k), f); I.write(ob, v); return 1
    if isinstance(v, Struct) and v.base is None: return 0
    if isinstance(v, Struct): I.write(ob, Struct(v.cls, ('without', v.base, k), v.f))
    else: I.write(ob, Struct(n['cls'], ('without', v, k), {}))
    return 1
