"""Binary codec rules (C01-C10)."""
import os
from .. import prog, models, bits as B
from ..bits import BV
from ..lin import add, mul, to_lin
from ..interp import *
from ..check import pathdesc

SER = 'QtProtobuf::QProtobufSerializerPrivate'
WIT = os.path.join(prog.VERIF, 'witness', 'protobuf.cpp')
CORE = ['src/protobuf/qprotobufserializer.cpp', 'src/protobuf/qprotobufmetaproperty.cpp', 'src/protobuf/qprotobufmetaobject.cpp', 'src/protobuf/qabstractprotobufserializer.cpp']

def load():
    return prog.load(CORE + [WIT], roots=[os.path.join(prog.VERIF, 'witness')])

# ------------------------------------------------------------------ the handler table
def globals_empty(P):
    def setup(I):
        for q, g in P.globals.items():
            if cls_of_type(g.get('t', '')) in models.MAPS and not g.get('const'):
                I.store[('g', q)] = Struct(cls_of_type(g['t']), None, {})
    return setup

def handler_table(ctx, P):
    """type -> (serializer fnref, deserializer fnref, wire type) after construction of the serializer"""
    f = [x for x in P.fns(SER + '::QProtobufSerializerPrivate') if x.get('isctor')]
    if len(f) != 1: raise prog.Broken('constructor of %s not found' % SER)
    f = f[0]; ctx.analysed(f)
    cfg = Config(P)
    rs = explore(cfg, entry(cfg, f, setup=globals_empty(P)), ctx.stats)
    if len(rs) != 1: raise AnalysisError('%d paths through the constructor of the serializer' % len(rs))
    r = rs[0]
    tabs = []
    for root, v in r.I.store.items():
        if root[0] == 'g' and isinstance(v, Struct):
            ent = {k[1]: x for k, x in v.f.items() if isinstance(k, tuple) and k[0] == '[]'}
            if ent and all(isinstance(k, tuple) and k[0] == 'typeid' for k in ent): tabs.append((root, ent))
    if len(tabs) != 1: raise prog.Broken('handler table not found after construction (%d candidates)' % len(tabs))
    root, ent = tabs[0]
    out = {}
    for k, x in ent.items():
        if not isinstance(x, Struct): raise AnalysisError('handler entry of %s is %r' % (k[1], x))
        fn = [v for v in x.f.values() if isinstance(v, tuple) and v and v[0] == 'fnref']
        out[norm_type(k[1])] = x
    return root, out

def norm_type(t):
    return t.replace('QtProtobuf::', '')

def fn_of(P, ref):
    f = P.functions.get(ref[1])
    if f is None:
        raise prog.Broken('no body for handler ' + ref[2])
    return f

# protobuf scalar -> (C++ type of the property as canonical spelling, width, kind, wire type)
SCALARS = {
    'int32':    ('transparent<int, 1>', 32, 'varint'), 'int64': ('transparent<long, 1>', 64, 'varint'),
    'uint32':   ('unsigned int', 32, 'varint'), 'uint64': ('unsigned long', 64, 'varint'),
    'sint32':   ('int', 32, 'zigzag'), 'sint64': ('long', 64, 'zigzag'),
    'fixed32':  ('transparent<unsigned int>', 32, 'fixed'), 'fixed64': ('transparent<unsigned long>', 64, 'fixed'),
    'sfixed32': ('transparent<int, 2>', 32, 'fixed'), 'sfixed64': ('transparent<long, 2>', 64, 'fixed'),
    'float':    ('float', 32, 'fixed'), 'double': ('double', 64, 'fixed'), 'bool': ('bool', 1, 'bool'),
}
SCALARS.update({'int32': ('transparent<int, 0>', 32, 'varint'), 'int64': ('transparent<long, 0>', 64, 'varint'),
    'fixed32': ('transparent<unsigned int, 1>', 32, 'fixed'), 'fixed64': ('transparent<unsigned long, 1>', 64, 'fixed'),
    'sfixed32': ('transparent<int, 1>', 32, 'fixed'), 'sfixed64': ('transparent<long, 1>', 64, 'fixed')})
WIRE = {'varint': 0, 'zigzag': 0, 'bool': 0, 'fixed': None}
def wiretype(name):
    t, w, k = SCALARS[name]
    if k == 'fixed': return 5 if w == 32 else 1
    return 0

def full_type(t): return t.replace('transparent<', 'QtProtobuf::transparent<')

def sym_value(t, w, name='x'):
    bv = B.sym(name, w)
    if t.startswith('transparent<'): return Struct('QtProtobuf::transparent', None, {'_t': bv}), bv
    return bv, bv

ITER = 'QtProtobuf::QProtobufSelfcheckIterator'
INBUF = ('inbuf',)
def iter_ctor(P):
    c = [f for f in P.fns(ITER + '::QProtobufSelfcheckIterator') if f.get('isctor') and f.get('ck') not in ('copy', 'move') and len(f['params']) == 1]
    if len(c) != 1: raise prog.Broken('constructor of QProtobufSelfcheckIterator not found')
    return c[0]
def make_iter(I, P, buf=INBUF, name='it'):
    f = iter_ctor(P)
    bl = (('v', 'in', name, 'buf'), ()); I.rawwrite(bl, buf)
    loc = (('v', 'in', name), ()); I.rawwrite(loc, Struct(ITER))
    models.run_with_values(I, f, [buf], ('addr', loc), [('lref', bl)])
    return loc
def iter_off(I, loc, buf=INBUF):
    v = I.read_noevent(loc)
    if isinstance(v, Struct):
        for x in v.f.values():
            if isinstance(x, tuple) and x and x[0] == 'rptr' and x[1] == buf: return x[2]
    raise AnalysisError('read position of the iterator not found in %r' % (v,))

def run_fn(P, cfg, f, mk, stats=None, this=('addr', (('this',), ())), post=None):
    """evaluate f on all paths; mk(I) -> list of argument values / ('lref', loc)"""
    def run(I):
        I.frames.append({'env': {}, 'q': '<entry>', 'file': f['file'], 'this': None, 'tu': f['_tu'], 'scopes': [[]], 'fuid': -1})
        vals = mk(I)
        I.trace_start = len(I.trace)
        r = models.run_with_values(I, f, [I.val(v) for v in vals], None if f.get('static') or not f.get('cls') else this, vals)
        return post(I, r) if post else r
    return explore(cfg, run, stats)

def seqbytes(I, v):
    """list of BV bytes or None"""
    if not (isinstance(v, tuple) and v and v[0] == 'cat'): return None
    out = []
    for p in v[1]:
        if p[0] != 'e': return None
        x = I.bn(p[1])
        if isinstance(x, int): x = B.const(x & 0xff, 8)
        if not isinstance(x, BV) or x.w != 8: return None
        out.append(x)
    return out

def nzbits(I, z): return set(b for b in z.subst(I.bsub).bits if b != B.ZERO)
def may_eq(I, bv, c):
    """can the bits of bv take the value c under the facts of the path?"""
    m = {}
    J = Interp(I.cfg); J.bsub = dict(I.bsub); J.bnz = list(I.bnz)
    try:
        for i, b in enumerate(bv.bits):
            b = B.sub_bit(b, J.bsub)
            if b is B.TOP: continue
            J.bset(b, B.ONE if (c >> i) & 1 else B.ZERO)
        for z in J.bnz:
            if z.subst(J.bsub).const() == 0: return False
    except Prune: return False
    return True
def varint_value(bs, w):
    bits = []
    for b in bs: bits += list(b.bits[:7])
    return BV((bits + [B.ZERO] * w)[:w])

def byte_model(I, v, off):
    if v == INBUF and isinstance(off, int): return B.sym(('in', off), 8)
    return None

FIELD = 5

def entry_fns(P, name, x):
    """(serializer function, deserializer function, wire type) of a table entry, by member type"""
    s = d = w = None
    for k, v in x.f.items():
        if isinstance(v, tuple) and v and v[0] == 'fnref':
            f = fn_of(P, v)
            if len(f['params']) == 2 and f['params'][0].get('t', '').find('QVariant') >= 0: s = f
            elif len(f['params']) == 2: d = f
        elif isinstance(v, int): w = v
    return s, d, w

def c03(ctx):
    ctx.rule('Bit-level dataflow: every table handler of a scalar type, and the field-key helpers, are evaluated over vectors of affine bits on every path; the bytes written must be the wire-format bits of the value, and decoding n input bytes must give exactly the bits the format assigns to them and consume n bytes.')
    ctx.assume('a QVariant holding a bool stores it zero-extended (QVariant::Private zero-initialises its data union)')
    ctx.assume('the target is little-endian (x86-64): memory order of a fixed-width value is its wire order')
    P = load()
    root, tab = handler_table(ctx, P)
    for name, (t, w, kind) in SCALARS.items():
        x = tab.get(t)
        if x is None:
            ctx.bad('no-entry:' + name, 'no handler is registered for the C++ type of proto type ' + name); continue
        s, d, wt = entry_fns(P, name, x)
        if s is None or d is None: raise prog.Broken('handlers of %s not recognised' % name)
        ctx.count('scalar_types')
        enc_scalar(ctx, P, name, t, w, kind, s)
        dec_scalar(ctx, P, name, t, w, kind, d)
    ctx.floor('scalar_types', 13)
    header(ctx, P)
    ctx.floor('encode_paths', 40); ctx.floor('decode_paths', 60)

def enc_scalar(ctx, P, name, t, w, kind, f):
    ctx.analysed(f)
    cfg = Config(P, loop_max=40, bitmode=True)
    def mk(I):
        val, bv = sym_value(t, w)
        vl = (('v', 'in', 'variant'), ()); I.rawwrite(vl, ('variant', full_type(t), val))
        fl = (('v', 'in', 'field'), ()); I.rawwrite(fl, FIELD)
        return [('lref', vl), ('lref', fl)]
    rs = run_fn(P, cfg, f, mk, ctx.stats)
    check_encoding(ctx, rs, name, w, kind, f, lambda r: r.I.read_noevent((('v', 'in', 'field'), ())))

def ev_loc(r, f):
    for e in reversed(r.trace):
        if e.line: return dict(file=e.file or f['file'], line=e.line, fn=e.fn or f['q'])
    return dict(file=f['file'], line=f['line'], fn=f['q'])

def check_encoding(ctx, rs, name, w, kind, f, fieldof, sub=''):
    loc = dict(file=f['file'], line=f['line'], fn=f['q'])
    covered_zero = False; lens = set()
    for r in rs:
        I = r.I; ctx.count('encode_paths')
        for e in r.trace:
            if e.kind == 'ub-shift': ctx.bad('shift:%s:enc' % name, 'encoding %s shifts by %s, beyond the operand width' % (name, e.args[1]), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
        if r.exc:
            ctx.bad('enc-throws:' + name, 'encoding a %s value throws %s' % (name, r.exc.t), path=pathdesc(r.choices), **loc); continue
        x = I.bn(B.sym('x', w))
        bs = seqbytes(I, r.ret)
        if bs is None or any(b.has_top() for b in bs): raise AnalysisError('bytes written for %s are not resolved: %r' % (name, r.ret))
        fi = fieldof(r) if fieldof else FIELD
        if fi not in (FIELD, -1): ctx.bad('enc-field:%s' % name, 'encoding a %s value changes its field number to %r' % (name, fi), path=pathdesc(r.choices), **loc); continue
        zero = x.const() == 0
        if fi == -1 and not zero:
            ctx.check(False, 'enc-omitted:%s' % name, 'a non-zero %s value is treated as unset and dropped' % name, path=pathdesc(r.choices), **loc); continue
        if fi == -1:
            ctx.check(len(bs) == 0, 'enc-unset:%s' % name, 'an unset %s field still produces %d bytes without a key' % (name, len(bs)), path=pathdesc(r.choices), **loc)
            covered_zero = True; continue
        if kind == 'fixed':
            exp = [BV(x.bits[8 * i:8 * i + 8]) for i in range(w // 8)]
            ctx.check(bs == exp, 'enc-bytes:%s' % name, 'bytes written for %s are %r, expected the little-endian value' % (name, bs), path=pathdesc(r.choices), **loc)
            continue
        if kind == 'zigzag':
            sign = x.bits[-1]
            val = I.bn(B.vxor(B.shl(x, 1), BV([sign] * w)))
        elif kind == 'bool': val = B.ext(x, 32, False)
        else: val = x
        n = len(bs)
        ok = n >= 1 and all(b.bits[7] == (B.ONE if i < n - 1 else B.ZERO) for i, b in enumerate(bs))
        if ok:
            got = varint_value(bs, max(val.w, 7 * n))
            exp = B.ext(val, max(val.w, 7 * n), False)
            ok = got == exp
            if not ok and zero: ok = False
            if ok and n > 1:
                top = set(b for b in bs[-1].bits[:7])
                ok = any(nzbits(I, z) <= top for z in I.bnz) or any(b == B.ONE for b in bs[-1].bits[:7])
                if not ok:
                    ctx.check(False, 'enc-minimal:%s' % name, 'a %s value is written with %d bytes although fewer suffice' % (name, n), path=pathdesc(r.choices), **loc); continue
        ctx.check(ok, 'enc-bytes:%s' % name, '%d byte(s) written for %s do not hold its varint: %r' % (n, name, bs), path=pathdesc(r.choices), **loc)
        lens.add(n)
        if ctx.counts.get('encode_paths', 0) in (3, 17): ctx.sample('encode %s, path of %d bytes: %r' % (name, n, bs[:2]))
    if kind in ('varint', 'zigzag'):
        full = (w + 6) // 7
        ctx.check(lens | ({0} if covered_zero else set()) >= set(range(1, full + 1)), 'enc-lengths:%s' % name, 'no path writes some varint lengths of %s (found %s)' % (name, sorted(lens)), **loc)

def dec_scalar(ctx, P, name, t, w, kind, f):
    ctx.analysed(f)
    loc = dict(file=f['file'], line=f['line'], fn=f['q'])
    cfg = Config(P, loop_max=40, loop_hard=12, keep_limit=True, bitmode=True, models={'@byte': byte_model})
    def mk(I):
        I.facts.set_range(('size', INBUF), 64, 4096)
        it = make_iter(I, P)
        vl = (('v', 'in', 'variant'), ()); I.rawwrite(vl, ('variant', full_type(t), ('old',)))
        return [('lref', it), ('lref', vl)]
    rs = run_fn(P, cfg, f, mk, ctx.stats)
    okt = (full_type(t),) if kind != 'bool' else ('bool', 'unsigned int', 'unsigned long', 'int')
    def value(r):
        v = r.I.read_noevent((('v', 'in', 'variant'), ()))
        if not (isinstance(v, tuple) and v[0] == 'variant'): return None, None
        x = v[2]
        if isinstance(x, Struct) and len(x.f) == 1: x = list(x.f.values())[0]
        if isinstance(x, int): x = B.const(x, w)
        return v[1], x
    check_decoding(ctx, rs, name, w, kind, loc, value, okt)

def check_decoding(ctx, rs, name, w, kind, loc, value, okt=None):
    seen = set()
    for r in rs:
        I = r.I; ctx.count('decode_paths')
        n = 0
        # number of continuation bytes on this path
        k = 0
        while k < 12 and I.bn(BV([frozenset([(('in', k), 7)])])).bits[0] == B.ONE: k += 1
        for e in r.trace:
            if e.kind == 'ub-shift' and not e.log:
                ctx.bad('shift:%s' % name, 'decoding %s shifts by %s bits after %d continuation bytes: an over-long varint is not rejected' % (name, e.args[1], k), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices)); break
        if kind != 'fixed' and k >= 10:
            ctx.check(isinstance(r.exc, CppThrow), 'overlong:%s' % name, 'a varint of more than 10 bytes is accepted for %s' % name, path=pathdesc(r.choices), **loc); continue
        if r.exc:
            ctx.check(False, 'dec-throws:' + name, 'a well-formed %s encoding (%d continuation bytes) is rejected with %s' % (name, k, r.exc.t), path=pathdesc(r.choices), **loc); continue
        T, x = value(r)
        if okt is not None: ctx.check(T in okt, 'dec-type:%s' % name, 'decoding %s produces a value of type %s' % (name, T), **loc)
        if x is None or not isinstance(x, BV): raise AnalysisError('decoded value of %s not resolved: %r' % (name, x))
        n = w // 8 if kind == 'fixed' else k + 1
        off = iter_off(I, (('v', 'in', 'it'), ()))
        ctx.check(off == n, 'dec-consumed:%s' % name, 'decoding a %d-byte %s consumes %s bytes' % (n, name, off), path=pathdesc(r.choices), **loc)
        bs = [I.bn(B.sym(('in', i), 8)) for i in range(n)]
        ww = x.w if kind == 'bool' else w
        if kind == 'fixed': exp = BV(sum((b.bits for b in bs), ()))
        else:
            exp = varint_value(bs, ww)
            if kind == 'zigzag':
                neg = BV([exp.bits[0]] * ww)
                exp = B.vxor(B.shr(exp, 1, False), neg)
            if kind == 'bool' and x.w == 1: exp = None
        if exp is not None:
            x = I.bn(x); exp = I.bn(exp)
            if x.has_top(): raise AnalysisError('decoded bits of %s are not resolved: %r' % (name, x))
            ctx.check(x == exp, 'dec-bits:%s' % name, 'decoding a %d-byte %s yields %r instead of %r' % (n, name, x, exp), path=pathdesc(r.choices), **loc)
        seen.add(n)
    need = {w // 8} if kind == 'fixed' else set(range(1, 11))
    ctx.check(seen >= need, 'dec-lengths:%s' % name, 'decoding %s does not handle encodings of %s bytes' % (name, sorted(need - seen)), **loc)

def header(ctx, P):
    ef = P.fn('encodeHeader'); df = P.fn('decodeHeader')
    ctx.analysed(ef); ctx.analysed(df)
    NAMES = {0: 'Varint', 1: 'Fixed64', 2: 'LengthDelimited', 5: 'Fixed32'}
    for wt in NAMES:
        cfg = Config(P, loop_max=40, bitmode=True)
        def mk(I): return [BV(B.sym('x', 29).bits + (B.ZERO,) * 3), wt]
        rs = run_fn(P, cfg, ef, mk, ctx.stats)
        loc = dict(file=ef['file'], line=ef['line'], fn=ef['q'])
        for r in rs:
            I = r.I; ctx.count('encode_paths')
            if r.exc: ctx.bad('key-throws', 'encoding a field key throws', **loc); continue
            bs = seqbytes(I, r.ret)
            if bs is None or any(b.has_top() for b in bs): raise AnalysisError('bytes of the field key not resolved: %r' % (r.ret,))
            n = len(bs)
            x = I.bn(B.sym('x', 29))
            if x.const() == 0 : continue      # field number 0 does not exist
            exp = BV(tuple(B.const(wt, 3).bits) + x.bits)
            ok = n >= 1 and all(b.bits[7] == (B.ONE if i < n - 1 else B.ZERO) for i, b in enumerate(bs)) and varint_value(bs, 64) == B.ext(exp, 64, False)
            ctx.check(ok, 'key-bytes:%d' % wt, 'the %d-byte key written for wire type %s is not (number << 3 | type): %r' % (n, NAMES[wt], bs), path=pathdesc(r.choices), **loc)
    # decoding: field number and wire type are the bits above and below 3; validity flag
    cfg = Config(P, loop_max=40, loop_hard=12, keep_limit=True, bitmode=True, models={'@byte': byte_model})
    fl = (('v', 'in', 'f'), ()); wl = (('v', 'in', 'w'), ())
    def mk(I):
        I.facts.set_range(('size', INBUF), 64, 4096)
        it = make_iter(I, P)
        I.rawwrite(fl, -1); I.rawwrite(wl, -1)
        return [('lref', it), ('lref', fl), ('lref', wl)]
    rs = run_fn(P, cfg, df, mk, ctx.stats, post=lambda I, r: int(I.truth(r)))
    loc = dict(file=df['file'], line=df['line'], fn=df['q'])
    acc = set()
    for r in rs:
        I = r.I; ctx.count('decode_paths')
        k = 0
        while k < 12 and I.bn(BV([frozenset([(('in', k), 7)])])).bits[0] == B.ONE: k += 1
        for e in r.trace:
            if e.kind == 'ub-shift': ctx.bad('shift:key', 'decoding a field key shifts by %s bits after %d continuation bytes: an over-long varint is not rejected' % (e.args[1], k), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices)); break
        if isinstance(r.exc, CppThrow):
            ctx.check(k >= 5, 'key-dec-throws', 'a field key of %d bytes is rejected with %s' % (k + 1, r.exc.t), path=pathdesc(r.choices), **loc); continue
        if k >= 10:
            ctx.check(False, 'overlong:key', 'a field key of more than 10 bytes is accepted', **loc); continue
        ret = r.ret
        st = I.status(ret)
        if st is None:
            st = True if isinstance(ret, tuple) and ret and ret[0] == 'not' and I.status(ret[1]) is False else None
        bs = [I.bn(B.sym(('in', i), 8)) for i in range(k + 1)]
        v = I.bn(varint_value(bs, 32))
        off = iter_off(I, (('v', 'in', 'it'), ()))
        ctx.check(off == k + 1, 'key-dec-consumed', 'decoding a %d-byte field key consumes %s bytes' % (k + 1, off), path=pathdesc(r.choices), **loc)
        num = I.bn(I.read_noevent(fl)); typ = I.bn(I.read_noevent(wl))
        if isinstance(typ, int): typ = B.const(typ, 32)
        if isinstance(num, int): num = B.const(num, 32)
        tb = B.ext(typ, 32, False) if isinstance(typ, BV) else None
        if st is False: valid = False
        elif st is True: valid = True
        else: valid = None
        expt = B.ext(BV(v.bits[:3]), 32, False); expn = B.ext(BV(v.bits[3:]), 32, False)
        ts = [t for t in range(8) if may_eq(I, expt, t)]; tc = ts[0] if len(ts) == 1 else None; nz = expn.const() != 0 or any(nzbits(I, z) <= set(expn.bits) for z in I.bnz)
        if valid is None:
            # validity undecided on this path: bits decide it
            raise AnalysisError('validity of the field key is not resolved: %r' % (ret,))
        if valid:
            ctx.check(tb is not None and I.bn(tb) == expt and isinstance(num, BV) and I.bn(B.ext(num, 32, False)) == expn, 'key-dec-bits', 'decoded field key does not hold number and type of the input', path=pathdesc(r.choices), **loc)
            ctx.check(all(t in NAMES for t in ts), 'key-dec-type:%s' % ts, 'a field key with wire type %s is accepted' % [t for t in ts if t not in NAMES], path=pathdesc(r.choices), **loc)
            okn = any(b == B.ONE for b in expn.bits) or any(nzbits(I, z) <= set(expn.bits) for z in I.bnz)
            ctx.check(okn, 'key-dec-zero', 'a field key with number 0 is accepted', path=pathdesc(r.choices), **loc)
            acc.update((t, k + 1) for t in ts)
        else:
            bad = not any(t in NAMES for t in ts)
            badn = expn.const() == 0
            if not bad and not badn:
                ctx.check(False, 'key-dec-rejected:%s' % ts, 'a valid field key of %d bytes with wire type %s is rejected' % (k + 1, ts), path=pathdesc(r.choices), **loc)
            else: ctx.count('obligations'); ctx.count('discharged')
    ctx.check(acc >= {(t, n) for t in NAMES for n in range(1, 6)}, 'key-dec-cover', 'field keys are not accepted for all wire types and lengths: %s' % sorted(acc), **loc)
