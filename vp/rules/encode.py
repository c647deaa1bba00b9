"""Encoder rules: C04 (type table), C08 (every field once, exact lengths)."""
from .decode import *

HDR = SER + '::encodeHeader'; VAR = SER + '::serializeVarintCommon'
S = 'QtProtobuf::QProtobufSerializer'
PRIV = 'QtProtobufPrivate::'
LISTS = {'double': 'double', 'float': 'float'}

def loc_of(f): return dict(file=f['file'], line=f['line'], fn=f['q'])

def sized(v):
    """linear term for the byte length of a list of parts"""
    r = 0
    for p in v: r = add(r, 1 if p[0] == 'e' else ('size', p))
    return r

class Term:
    """classified parts of a byte sequence: ('H', number, type) key, ('V', value) varint, ('P', part) anything else"""
    def __init__(self, r, v):
        self.r = r
        by = {}
        for e in r.trace:
            if e.kind == 'call' and isinstance(e.res, tuple): by[e.res] = e
        self.parts = []
        for p in models.parts(v):
            e = by.get(p)
            if e is not None and e.q == HDR: self.parts.append(('H',) + e.args)
            elif e is not None and e.q == VAR: self.parts.append(('V', e.args[0], p))
            else: self.parts.append(('P', p, e))

def same(I, a, b):
    if a == b: return True
    if isinstance(a, (Struct, BV, Closure)) or isinstance(b, (Struct, BV, Closure)): return False
    try: return I.facts.eq_status(add(a, b, -1)) is True
    except Exception: return False

def unwrap(v):
    """strip value-preserving widening of a term"""
    while isinstance(v, tuple) and v and v[0] in ('cast', 'wrap'): v = v[-1]
    return v

def eq_size(I, got, parts):
    """is the term `got` the byte length of the parts?"""
    return same(I, unwrap(got), sized(parts))

ENC = {HDR, VAR}

# ------------------------------------------------------------------ C08
def c08(ctx):
    ctx.rule('Provenance dataflow over the encoder: on every path of every encoding function the bytes returned are a concatenation of terms (field key, varint of a length, payload); each must have the shape the wire format prescribes, the length term must equal the sum of the sizes of the payload terms after it, and each field, list element and map entry of the container walked (0, 1, 2 elements) must appear exactly once, with its own number and value.')
    ctx.assume('containers are walked uniformly: a loop that treats 0, 1 and 2 elements correctly and depends on nothing but the element treats every length alike')
    P = load()
    for name, fn in (('serializeMessage', message), ('serializeProperty', prop), ('serializeObject', nested), ('serializeListObject', nested), ('serializeMapPair', map_pair)):
        with ctx.guard(name): fn(ctx, P, name)
    with ctx.guard('serializeEnum'): enum(ctx, P)
    with ctx.guard('serializeEnumList'): enum_list(ctx, P)
    root, tab = handler_table(ctx, P)
    for t, x in tab.items():
        s, d, w = entry_fns(P, t, x)
        if s is None: continue
        with ctx.guard(t):
            if t in ('QString', 'QByteArray'): text(ctx, P, t, s)
            elif t.startswith('QList<') and 'QByteArray' in t or t in ('QStringList', 'QByteArrayList'): text_list(ctx, P, t, s)
            elif t.startswith('QList<'): scalar_list(ctx, P, t, s)
    with ctx.guard('templates'): templates(ctx, P)
    ctx.floor('paths', 60); ctx.floor('encoders', 25)

def message(ctx, P, name):
    f = P.fn(S + '::serializeMessage'); ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f)
    sp = SER + '::serializeProperty'
    cfg = Config(P, opaque={sp}, sizes=(0, 1, 2, 3) if ctx.thorough else (0, 1, 2))
    obj = ('arg', f['params'][0]['n']); meta = ('arg', f['params'][1]['n'])
    seen = set()
    for r in run_fn(P, cfg, f, lambda I: arg_values(I, P, f, None), ctx.stats):
        ctx.count('paths'); I = r.I
        if r.exc: ctx.check(False, 'message-throws', 'serializing a message throws', path=pathdesc(r.choices), **loc); continue
        n = walked(I, 'propertyOrdering')
        if n is None:
            ctx.check(False, 'message-table', 'a message is serialized without walking its field table', path=pathdesc(r.choices), **loc); continue
        seen.add(n)
        T = Term(r, r.ret)
        got = []
        for p in T.parts:
            if p[0] != 'P' or p[2] is None or p[2].q != sp:
                ctx.check(False, 'message-extra', 'the bytes of a message contain something that is not one of its fields: %r' % (p[1],), path=pathdesc(r.choices), **loc); continue
            e = p[2]; mp = e.args[1]
            num = mp.f.get('m_fieldIndex') if isinstance(mp, Struct) else ('fld', mp, 'm_fieldIndex')
            k = None
            if isinstance(num, tuple) and num[:1] == ('fld',) and num[2] == 'first' and num[1][0] == 'elem': k = num[1][2]
            if k is None: ctx.check(False, 'message-number', 'a field is serialized under number %r, which is not its number in the field table' % (num,), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices)); continue
            ok = field_value(e.args[0], num[1], obj, meta)
            if ok is None: raise AnalysisError('value serialized for a field not recognised: %r' % (e.args[0],))
            ctx.check(ok, 'message-value', 'the value serialized under a field number is not that of its own property', file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
            got.append(k)
        ctx.check(sorted(got) == list(range(n)), 'message-fields', 'of %d declared fields, fields %s are serialized' % (n, sorted(got)), path=pathdesc(r.choices), **loc)
        ctx.sample('serializeMessage with %d fields: %d parts' % (n, len(T.parts)))
    if not {0, 1, 2} <= seen: raise AnalysisError('field table walk not recognised')

def walked(I, what):
    """number of elements the path assumed for the container whose term mentions `what`"""
    syms = set()
    for l in list(I.facts.ge) + list(I.facts.ne): syms |= set(to_lin(l).m)
    syms |= set(I.facts.lo if hasattr(I.facts, 'lo') else ())
    out = None
    for s in syms:
        if isinstance(s, tuple) and s and s[0] in ('size', 'count') and what in repr(s):
            for k in range(0, 6):
                if I.facts.eq_status(add(s, -k)) is True: out = k
    return out

def field_value(v, elem, obj, meta):
    """True: the property of that table entry is read from the message; False: another one; None: not recognised"""
    def sub(x):
        out = []
        def go(y):
            if isinstance(y, tuple):
                out.append(y)
                for z in y: go(z)
            elif isinstance(y, Struct):
                for z in y.f.values(): go(z)
        go(x); return out
    ts = sub(v)
    props = [t for t in ts if t[:2] == ('op', 'QMetaObject::property')]
    if not props: return None
    rd = v[:2] if isinstance(v, tuple) else None
    if rd == ('op', 'QObject::property'):
        if v[2] != ('init', ('deref', obj)): return False
        nm = v[3]
        if not (isinstance(nm, tuple) and nm[:2] == ('op', 'QMetaProperty::name')): return None
        p = nm[2]
    elif rd == ('op', 'QMetaProperty::read'):
        if v[3] != obj: return False
        p = v[2]
    else: return None
    if not (isinstance(p, tuple) and p[:2] == ('op', 'QMetaObject::property')): return None
    if p[2] != ('init', ('deref', ('fld', meta, 'staticMetaObject'))) : return False
    idx = p[3]
    return idx in (('fld', ('fld', elem, 'second'), 'qtProperty'), ('fld', elem, 'second'))

def unknown_wt(P):
    for q, e in P.enums.items():
        if q.endswith('::WireTypes'):
            for c in e.get('consts', e.get('values', [])):
                n = c.get('n') if isinstance(c, dict) else c[0]; v = c.get('v') if isinstance(c, dict) else c[1]
                if n == 'UnknownWireType': return int(v)
    return None

def prop(ctx, P, name):
    f = P.fn(SER + '::serializeProperty'); ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f)
    cfg = Config(P, opaque=ENC)
    val, mp = [('arg', p['n']) for p in f['params']]
    idx = ('fld', mp, 'm_fieldIndex')
    n = dict(table=0, custom=0)
    for r in run_fn(P, cfg, f, lambda I: arg_values(I, P, f, None), ctx.stats):
        ctx.count('paths'); I = r.I
        if r.exc: continue          # no handler: reported by the exception
        T = Term(r, r.ret)
        calls = [e for e in r.trace if e.kind == 'call' and e.extra and e.extra.get('indirect') is not None and not e.log]
        if len(calls) != 1:
            ctx.check(False, 'property-handlers', '%d handlers are called for one property' % len(calls), path=pathdesc(r.choices), **loc); continue
        e = calls[0]; fv = e.extra['indirect']
        key = ('op', 'userType', val)
        el = dict(file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
        if not (isinstance(fv, tuple) and fv[0] == 'fld' and fv[2] == 'serializer'): ctx.check(False, 'property-which', 'a property is encoded with %r, which is not the serializer of a handler' % (fv,), **el); continue
        if len(e.args) == 2:
            n['table'] += 1
            ok = isinstance(fv[1], tuple) and fv[1][0] == 'at' and fv[1][2] == key
            ctx.check(ok, 'property-type', 'the handler used is not the one registered for the type of the value', **el)
            ctx.check(e.args[0] == val and same(I, e.args[1], idx), 'property-args', 'the handler does not get the property value and its field number', **el)
            out = e.extra.get('outs', {}).get(1)
            wt = ('fld', fv[1], 'type')
            unused = I.facts.eq_status(add(out, 1)) if out is not None else None
            unk = None
            u = unknown_wt(P)
            if u is not None: unk = I.facts.eq_status(add(wt, -u))
            hs = [p for p in T.parts if p[0] == 'H']
            body = [p for p in T.parts if p[0] != 'H']
            ctx.check(len(body) == 1 and body[0][1] == e.res, 'property-bytes', 'the bytes of a property are not exactly those its handler wrote', **el)
            if hs:
                ctx.check(len(hs) == 1 and T.parts[0][0] == 'H' and unused is False, 'property-key', 'a field key is written in the wrong place or for a value its handler marked as unset', **el)
                ctx.check((same(I, hs[0][1], idx) or same(I, hs[0][1], out)) and hs[0][2] == wt, 'property-key-args', 'the field key written does not hold the number of the field and the wire type of its handler', **el)
            else:
                ctx.check(unused is True or unk is True, 'property-nokey', 'the bytes of a set field are written without their key', **el)
        elif len(e.args) == 4:
            n['custom'] += 1
            ctx.check(same(I, e.args[0], ('fld', ('this',), 'q_ptr')) and e.args[1] == val and e.args[2] == mp, 'property-custom-args', 'the registered handler does not get the serializer, the value and the field it is called for', **el)
            out = e.extra.get('outs', {}).get(3)
            ctx.check([p[1] for p in T.parts] == [out] and e.args[3] == ('cat', ()), 'property-custom-bytes', 'the bytes of the property are not exactly those its registered handler wrote', **el)
            a = fv[1]
            ok = isinstance(a, tuple) and (a[0] == 'at' and a[2] == key or a[0] != 'at')
            ctx.check(ok, 'property-custom-type', 'the registered handler used is not the one of the type of the value', **el)
        else: raise AnalysisError('handler signature not recognised')
    if not n['table'] or not n['custom']: raise AnalysisError('handler calls not recognised')

def nested(ctx, P, name):
    f = P.fn(S + '::' + name); ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f)
    cfg = Config(P, opaque=ENC | {S + '::serializeMessage'})
    o, m, mp = [('arg', p['n']) for p in f['params']]
    for r in run_fn(P, cfg, f, lambda I: arg_values(I, P, f, None), ctx.stats):
        ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
        if r.exc: ctx.check(False, name + '-throws', 'encoding a nested message throws', **kw); continue
        T = Term(r, r.ret); ps = T.parts
        ok = len(ps) == 3 and [p[0] for p in ps] == ['H', 'V', 'P']
        if not ctx.check(ok, name + '-shape', 'a nested message is not written as key, length, payload', **kw): continue
        ctx.check(same(I, ps[0][1], ('fld', mp, 'm_fieldIndex')) and ps[0][2] == 2, name + '-key', 'the key of a nested message does not hold its field number and the length-delimited wire type', **kw)
        e = ps[2][2]
        ctx.check(e is not None and e.q == S + '::serializeMessage' and e.args[0] == o and e.args[1] == m, name + '-payload', 'the payload written is not that of the nested message', **kw)
        ctx.check(eq_size(I, ps[1][1], [ps[2][1]]), name + '-length', 'the length prefix of a nested message is %r, not the size of its payload' % (ps[1][1],), **kw)

def map_pair(ctx, P, name):
    f = P.fn(S + '::serializeMapPair'); ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f)
    sp = SER + '::serializeProperty'
    cfg = Config(P, opaque=ENC | {sp})
    k, v, mp = [('arg', p['n']) for p in f['params']]
    for r in run_fn(P, cfg, f, lambda I: arg_values(I, P, f, None), ctx.stats):
        ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
        if r.exc: ctx.check(False, 'map-throws', 'encoding a map entry throws', **kw); continue
        ps = Term(r, r.ret).parts
        ok = len(ps) == 4 and [p[0] for p in ps] == ['H', 'V', 'P', 'P'] and all(p[2] is not None and p[2].q == sp for p in ps[2:])
        if not ctx.check(ok, 'map-shape', 'a map entry is not written as key, length, entry key, entry value', **kw): continue
        ctx.check(same(I, ps[0][1], ('fld', mp, 'm_fieldIndex')) and ps[0][2] == 2, 'map-key', 'the key of a map entry does not hold its field number and the length-delimited wire type', **kw)
        nums = {}
        for p in ps[2:]:
            e = p[2]; q = e.args[1]
            nums[e.args[0]] = q.f.get('m_fieldIndex') if isinstance(q, Struct) else ('fld', q, 'm_fieldIndex')
        ctx.check(nums == {k: 1, v: 2}, 'map-numbers', 'a map entry does not hold its key as field 1 and its value as field 2', **kw)
        ctx.check(eq_size(I, ps[1][1], [p[1] for p in ps[2:]]), 'map-length', 'the length prefix of a map entry is %r, not the size of its content' % (ps[1][1],), **kw)

def split_header(r, v):
    """(header parts, rest as sequence)"""
    ps = Term(r, v).parts
    h = [p for p in ps if p[0] == 'H']
    if h and ps[0][0] != 'H' or len(h) > 1: return None, None
    return h, ('cat', tuple(p[-1] if p[0] == 'V' else p[1] for p in ps if p[0] != 'H'))

def numbered(I, mp):
    """field numbers are 1 .. 2^29-1"""
    I.facts.set_range(('fld', mp, 'm_fieldIndex'), 1, (1 << 29) - 1)

def enum(ctx, P):
    f = P.fn(S + '::serializeEnum'); ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f)
    cfg = Config(P, opaque={HDR}, loop_max=40, bitmode=True)
    bv = B.sym('x', 64)
    mp = ('arg', f['params'][2]['n'])
    def mk(I):
        vals = arg_values(I, P, f, None); numbered(I, mp)
        vals[0] = Struct('QtProtobuf::transparent', None, {'_t': bv})
        return vals
    rs = run_fn(P, cfg, f, mk, ctx.stats)
    out = []
    for r in rs:
        ctx.count('paths')
        if r.exc: out.append(r); continue
        h, rest = split_header(r, r.ret)
        if h is None: ctx.check(False, 'enum-key', 'the key of an enum field is not written first', **loc); continue
        if h: ctx.check(same(r.I, h[0][1], ('fld', mp, 'm_fieldIndex')) and h[0][2] == 0, 'enum-key-args', 'the key of an enum field does not hold its number and the varint wire type', path=pathdesc(r.choices), **loc)
        r.ret = rest; r.hdr = bool(h); out.append(r)
    check_encoding(ctx, out, 'enum', 64, 'varint', f, lambda r: FIELD if r.hdr else -1)



def elem_name(t): return norm_type(t[len('QList<'):-1])
def scalar_of(t):
    for n, (ct, w, k) in SCALARS.items():
        if ct == t: return n, w, k
    return None, None, None

def check_packed(ctx, r, body, xs, name, w, kind, key, loc):
    """body: bytes after the length prefix, for the symbolic elements xs in order"""
    I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
    bs = seqbytes(I, ('cat', tuple(body)))
    if bs is None or any(b.has_top() for b in bs): raise AnalysisError('bytes of a packed %s list not resolved' % name)
    pos = 0
    for i, x in enumerate(xs):
        x = I.bn(x)
        if kind == 'fixed':
            n = w // 8; exp = [BV(x.bits[8 * j:8 * j + 8]) for j in range(n)]
            if bs[pos:pos + n] != exp: ctx.check(False, key + '-bytes', 'element %d of a packed %s list is not written as its little-endian value' % (i, name), **kw); return
            pos += n; continue
        val = I.bn(B.vxor(B.shl(x, 1), BV([x.bits[-1]] * w))) if kind == 'zigzag' else x
        n = 0
        while pos + n < len(bs) and bs[pos + n].bits[7] == B.ONE: n += 1
        n += 1
        chunk = bs[pos:pos + n]
        ok = len(chunk) == n and chunk[-1].bits[7] == B.ZERO and varint_value(chunk, max(w, 7 * n)) == B.ext(val, max(w, 7 * n), False)
        if not ok: ctx.check(False, key + '-bytes', 'element %d of a packed %s list is not written as its varint' % (i, name), **kw); return
        pos += n
    ctx.check(pos == len(bs), key + '-rest', 'a packed %s list holds %d bytes besides its elements' % (name, len(bs) - pos), **kw)

def scalar_list(ctx, P, t, f, counts=(0, 1, 2)):
    name, w, kind = scalar_of(elem_name(t))
    if name is None: raise AnalysisError('element type of %s not known' % t)
    ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f); key = 'list:' + name
    for n in counts:
        xs = [B.sym('x%d' % i, w) for i in range(n)]
        wrap = (lambda b: Struct('QtProtobuf::transparent', None, {'_t': b})) if elem_name(t).startswith('transparent') else (lambda b: b)
        cfg = Config(P, opaque=ENC, loop_max=40, bitmode=True)
        fl = (('v', 'in', 'field'), ())
        def mk(I):
            vl = (('v', 'in', 'variant'), ()); I.rawwrite(vl, ('variant', full_type(t), ('cat', tuple(('e', wrap(b)) for b in xs))))
            I.rawwrite(fl, FIELD)
            return [('lref', vl), ('lref', fl)]
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            ctx.count('paths'); list_result(ctx, r, r.ret, r.I.read_noevent(fl), n, xs, name, w, kind, key, loc)

def list_result(ctx, r, ret, fi, n, xs, name, w, kind, key, loc):
    I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
    if r.exc: ctx.check(False, key + '-throws', 'encoding a %s list throws' % name, **kw); return
    for e in r.trace:
        if e.kind == 'variant-misread': ctx.check(False, key + '-type', 'the value of a %s list is read as %s' % (name, e.q), **kw)
    ps = Term(r, ret).parts
    if n == 0:
        ctx.check(not ps and fi == -1, key + '-empty', 'an empty %s list is written' % name, **kw); return
    ctx.check(fi == FIELD, key + '-field', 'encoding a non-empty %s list changes its field number to %r' % (name, fi), **kw)
    if not ctx.check(ps and ps[0][0] == 'V' and all(p[0] == 'P' for p in ps[1:]), key + '-shape', 'a packed %s list does not start with its length' % name, **kw): return
    body = [p[1] for p in ps[1:]]
    ctx.check(eq_size(I, ps[0][1], body), key + '-length', 'the length prefix of a packed %s list is %r, its elements take %r bytes' % (name, ps[0][1], sized(body)), **kw)
    check_packed(ctx, r, body, xs, name, w, kind, key, loc)

def enum_list(ctx, P):
    f = P.fn(S + '::serializeEnumList'); ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f)
    mp = ('arg', f['params'][2]['n'])
    for n in (0, 1, 2):
        xs = [B.sym('x%d' % i, 64) for i in range(n)]
        cfg = Config(P, opaque=ENC, loop_max=40, bitmode=True)
        def mk(I):
            vals = arg_values(I, P, f, None); numbered(I, mp)
            l = vals[0][1]; I.rawwrite(l, ('cat', tuple(('e', Struct('QtProtobuf::transparent', None, {'_t': b})) for b in xs)))
            return vals
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            ctx.count('paths')
            if r.exc: ctx.check(False, 'enumlist-throws', 'encoding an enum list throws', **loc); continue
            h, rest = split_header(r, r.ret)
            if h is None: ctx.check(False, 'enumlist-key', 'the key of an enum list is not written first', **loc); continue
            if h: ctx.check(same(r.I, h[0][1], ('fld', mp, 'm_fieldIndex')) and h[0][2] == 2, 'enumlist-key-args', 'the key of an enum list does not hold its number and the length-delimited wire type', path=pathdesc(r.choices), **loc)
            list_result(ctx, r, rest, FIELD if h else -1, n, xs, 'enum', 64, 'varint', 'list:enum', loc)

def text_payload(t, x):
    return (x,) if t == 'bytes' else (('op', 'QString::toUtf8', x), )

def is_text(v, x, string):
    if not string: return v == x
    return isinstance(v, tuple) and v[0] == 'op' and 'toUtf8' in v[1] and v[2] == x

def text(ctx, P, t, f):
    ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f); key = 'text:' + t
    x = ('txt',); fl = (('v', 'in', 'field'), ())
    def mk(I):
        vl = (('v', 'in', 'variant'), ()); I.rawwrite(vl, ('variant', t, x)); I.rawwrite(fl, FIELD)
        return [('lref', vl), ('lref', fl)]
    n = 0
    for r in run_fn(P, Config(P, opaque=ENC), f, mk, ctx.stats):
        ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
        if r.exc: ctx.check(False, key + '-throws', 'encoding a %s throws' % t, **kw); continue
        ps = Term(r, r.ret).parts; fi = I.read_noevent(fl)
        if fi == -1:
            null = any('isNull' in repr(c[0]) or "('size'" in repr(c[0]) for c in r.choices)
            ctx.check(not ps and null, key + '-unset', 'a set %s value is treated as unset, or an unset one leaves bytes without a key' % t, **kw); continue
        n += 1
        ok = fi == FIELD and len(ps) == 2 and ps[0][0] == 'V' and ps[1][0] == 'P'
        if not ctx.check(ok, key + '-shape', 'a %s is not written as length and content' % t, **kw): continue
        ctx.check(is_text(ps[1][1], x, t == 'QString'), key + '-content', 'the content written for a %s is %r' % (t, ps[1][1]), **kw)
        ctx.check(eq_size(I, ps[0][1], [ps[1][1]]), key + '-length', 'the length prefix of a %s is %r, not the size of the content written' % (t, ps[0][1]), **kw)
    ctx.check(n > 0, key + '-never', 'a %s value is never written' % t, **loc)

def text_list(ctx, P, t, f):
    ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f); key = 'text:' + t
    string = 'QString' in t
    fl = (('v', 'in', 'field'), ())
    for n in (0, 1, 2):
        xs = [('txt', i) for i in range(n)]
        def mk(I):
            vl = (('v', 'in', 'variant'), ()); I.rawwrite(vl, ('variant', t, ('cat', tuple(('e', x) for x in xs)))); I.rawwrite(fl, FIELD)
            return [('lref', vl), ('lref', fl)]
        for r in run_fn(P, Config(P, opaque=ENC), f, mk, ctx.stats):
            ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
            if r.exc: ctx.check(False, key + '-throws', 'encoding a %s throws' % t, **kw); continue
            if I.read_noevent(fl) == -1 and any('isNull' in repr(c[0]) and c[1] == 0 for c in r.choices) and not models.parts(r.ret): continue
            ps = Term(r, r.ret).parts; fi = I.read_noevent(fl)
            ctx.check(fi == -1, key + '-field', 'a %s writes the keys of its elements but asks for another one' % t, **kw)
            if not ctx.check(len(ps) == 3 * n and all([p[0] for p in ps[3 * i:3 * i + 3]] == ['H', 'V', 'P'] for i in range(n)), key + '-shape', 'the elements of a %s are not each written as key, length, content' % t, **kw): continue
            for i in range(n):
                h, v, p = ps[3 * i:3 * i + 3]
                ctx.check(h[1] == FIELD and h[2] == 2, key + '-key', 'the key of element %d of a %s is (%r, %r)' % (i, t, h[1], h[2]), **kw)
                ctx.check(is_text(p[1], xs[i], string), key + '-content', 'element %d of a %s is not written with its own content' % (i, t), **kw)
                ctx.check(eq_size(I, v[1], [p[1]]), key + '-length', 'the length prefix of element %d of a %s is %r' % (i, t, v[1]), **kw)

# ---- header templates used by generated types
def template_fns(P, name):
    return [f for f in P.fns(PRIV + name) if f.get('body')]

def templates(ctx, P):
    A = 'QtProtobuf::QAbstractProtobufSerializer::'
    OPQ = lambda g: g.get('cls') == S
    n = 0
    for name in ('serializeObject', 'serializeList', 'serializeMap', 'serializeEnum', 'serializeEnumList'):
        fs = template_fns(P, name)
        if not fs: raise prog.Broken('no instance of QtProtobufPrivate::' + name)
        for f in fs:
            ctx.analysed(f); ctx.count('encoders'); loc = loc_of(f); key = fname(f)
            ser, val, mp, buf = [('arg', p['n']) for p in f['params']]
            bl = (('v', 'in', f['params'][3]['n']), ())
            for r in run_fn(P, Config(P, opaque_pred=OPQ), f, lambda I: arg_values(I, P, f, None), ctx.stats):
                ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
                if r.exc: ctx.check(False, key + '-throws', 'encoding throws', **kw); continue
                out = I.read_noevent(bl)
                ps = list(models.parts(out))
                if not ctx.check(ps and ps[0] == buf, key + '-buffer', 'what was in the buffer before is lost', **kw): continue
                calls = []
                by = {e.res: e for e in r.trace if e.kind == 'call' and isinstance(e.res, tuple)}
                for p in ps[1:]:
                    e = by.get(p)
                    if e is None or not e.q.startswith((A, S + '::')): ctx.check(False, key + '-extra', 'bytes that do not come from the serializer are written: %r' % (p,), **kw); continue
                    calls.append(e)
                for e in calls: ctx.check(e.obj == ser and e.args[-1] == mp, key + '-target', 'the serializer and field used are not those of the call', **kw)
                short = [e.q.split('::')[-1] for e in calls]
                if name == 'serializeObject':
                    ok = short == ['serializeObject'] and value_of(calls[0].args[0], val)
                    ctx.check(ok and meta_of(calls[0].args[1], f), key + '-value', 'the object written is not the one held by the value', **kw)
                elif name == 'serializeEnum':
                    v = calls[0].args[0] if calls else None
                    if isinstance(v, Struct) and len(v.f) == 1: v = list(v.f.values())[0]
                    ctx.check(short == ['serializeEnum'] and value_of(unwrap(v), val), key + '-value', 'the enum written is not the one held by the value', **kw)
                elif name == 'serializeEnumList':
                    k = walked_of(I, val)
                    a = models.parts(calls[0].args[0]) if calls else ()
                    got = []
                    for x in a:
                        x = x[1] if x[0] == 'e' else x
                        if isinstance(x, Struct) and len(x.f) == 1: x = list(x.f.values())[0]
                        x = unwrap(x)
                        got.append(x[2] if isinstance(x, tuple) and x[0] == 'elem' and value_of(x[1], val) else None)
                    ctx.check(short == ['serializeEnumList'] and k is not None and got == list(range(k)), key + '-elements', 'of %s enum list elements, %s are written' % (k, got), **kw)
                elif name == 'serializeList':
                    k = walked_of(I, val); got = []
                    for e in calls:
                        x = e.args[0]
                        ok = e.q.endswith('serializeListObject') and isinstance(x, tuple) and x[0] == 'elem' and value_of(x[1], val) and meta_of(e.args[1], f)
                        got.append(x[2] if ok else None)
                    exp = expected_elems(I, k, lambda i: [x for x in terms(r) if isinstance(x, tuple) and x[0] == 'elem' and x[2] == i and value_of(x[1], val)])
                    ctx.check(k is not None and ok_elems(got, exp), key + '-elements', 'of %s list elements, %s are written' % (k, got), **kw)
                else:
                    k = walked_of(I, val); got = []
                    for e in calls:
                        kv, vv = [a[2] if isinstance(a, tuple) and a and a[0] == 'variant' else None for a in e.args[:2]]
                        ok = e.q.endswith('serializeMapPair') and isinstance(kv, tuple) and kv[0] == 'key' and isinstance(vv, tuple) and vv[0] == 'val' and kv[1:] == vv[1:] and value_of(kv[1], val)
                        got.append(kv[2] if ok else None)
                    exp = expected_elems(I, k, lambda i: [x for x in terms(r) if isinstance(x, tuple) and x[0] == 'val' and x[2] == i and value_of(x[1], val)])
                    ctx.check(k is not None and ok_elems(got, exp), key + '-entries', 'of %s map entries, %s are written' % (k, got), **kw)
                n += 1
    if n < 15: raise AnalysisError('only %d paths through the encoding templates' % n)

def terms(r):
    out = set()
    for l in list(r.I.facts.ge) + list(r.I.facts.ne): out |= set(to_lin(l).m)
    for e in r.trace:
        for a in e.args:
            if isinstance(a, tuple): out.add(a)
            if isinstance(a, tuple) and a and a[0] == 'variant' and isinstance(a[2], tuple): out.add(a[2])
    return out

def expected_elems(I, k, find):
    """indices that must be written; those known to be null are left out"""
    out = []
    for i in range(k or 0):
        st = [I.status(x) for x in find(i)]
        out.append((i, False if False in st else True if True in st else None))
    return out
def ok_elems(got, exp):
    must = [i for i, s in exp if s is not False]
    return got == must

def walked_of(I, val):
    syms = set()
    for l in list(I.facts.ge) + list(I.facts.ne): syms |= set(to_lin(l).m)
    for s in syms:
        if isinstance(s, tuple) and s and s[0] in ('size', 'count') and value_of(s[1], val):
            for k in range(6):
                if I.facts.eq_status(add(s, -k)) is True: return k
    return None

def value_of(t, val):
    """t is the content of the variant val"""
    if not isinstance(t, tuple): return False
    if t[:2] == ('op', 'QVariant::value') and t[3] == val: return True
    return False
def meta_of(t, f):
    T = [x for x in f.get('ta') or [] if isinstance(x, str)]
    return T and repr(t).find(T[0] + '::protobufMetaObject') >= 0
