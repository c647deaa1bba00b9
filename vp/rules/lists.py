"""C04 (type table), C07 (decode replaces the target), C09 (repeated and map fields)."""
from .encode import *

VLOC = (('v', 'in', 'variant'), ())
TEXTS = ('QString', 'QByteArray')

def elem_bits(x, w):
    if isinstance(x, Struct) and len(x.f) == 1: x = list(x.f.values())[0]
    if isinstance(x, int): x = B.const(x & ((1 << w) - 1), w)
    return x

def decoded(I, start, n, w, kind):
    bs = [I.bn(B.sym(('in', i), 8)) for i in range(start, start + n)]
    if kind == 'fixed': return I.bn(BV(sum((b.bits for b in bs), ())))
    v = varint_value(bs, w)
    if kind == 'zigzag': v = B.vxor(B.shr(v, 1, False), BV([v.bits[0]] * w))
    return I.bn(v)

def block_values(I, L, kind, w):
    """values of the packed block in bytes 1..L on this path; None: not a well-formed block (or not decided)"""
    pos = 1; out = []
    while pos < 1 + L:
        if kind == 'fixed': n = w // 8
        else:
            j = run_of(I, pos)
            if j is None: return None
            n = j - pos + 1
        if pos + n > 1 + L: return None
        out.append(decoded(I, pos, n, w, kind)); pos += n
    return out

def block_model(L, kind, w):
    """input: a one-byte length L, then unknown bytes; reading on after an ill-formed block is of no interest"""
    def bm(I, v, off):
        if v == INBUF and off == 0: return B.const(L, 8)
        if v == INBUF and isinstance(off, int) and off > L:
            if block_values(I, L, kind, w) is None: raise Prune()
            return B.const(1, 8)
        return byte_model(I, v, off)
    return bm

def packed_decode(ctx, P, t, f, pid, lens=None):
    """a packed block of L bytes: one element per value, in order, after the elements already there"""
    name, w, kind = scalar_of(elem_name(t))
    if name is None: raise AnalysisError('element type of %s not known' % t)
    ctx.analysed(f); ctx.count('decoders'); loc = loc_of(f); key = 'unpack:' + name
    OLD = B.const(0x5a, w)
    wrap = (lambda b: Struct('QtProtobuf::transparent', None, {'_t': b})) if elem_name(t).startswith('transparent') else (lambda b: b)
    sizes = [0, w // 8, 2 * (w // 8)] if kind == 'fixed' else [0, 1, 2, 3] if ctx.thorough else [0, 1, 2]
    if lens: sizes = lens
    good = set()
    for L in sizes:
        bm = block_model(L, kind, w)
        cfg = Config(P, loop_max=40, loop_hard=12, keep_limit=True, bitmode=True, models={'@byte': bm})
        def mk(I):
            I.facts.set_range(SZ, 64, 4096)
            it = make_iter(I, P)
            I.rawwrite(VLOC, ('variant', full_type(t), ('cat', (('e', wrap(OLD)),))))
            return [('lref', it), ('lref', VLOC)]
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
            # where do the values lie on this path?
            exp = block_values(I, L, kind, w)
            if exp is None: continue            # a value reaches past the block: not a well-formed block
            if r.exc:
                ctx.check(False, key + '-throws', 'a well-formed packed block of %d %s values is rejected' % (len(exp), name), **kw); continue
            good.add(len(exp))
            v = I.read_noevent(VLOC)
            okt = isinstance(v, tuple) and v[0] == 'variant' and v[1] == full_type(t)
            if not ctx.check(okt, key + '-type', 'decoding a packed %s list yields a value of type %s' % (name, v[1] if isinstance(v, tuple) and v[0] == 'variant' else v), **kw): continue
            got = []
            for p in models.parts(v[2]):
                if p[0] != 'e': raise AnalysisError('element of the decoded %s list not resolved: %r' % (name, p))
                x = I.bn(elem_bits(p[1], w))
                if not isinstance(x, BV) or x.has_top(): raise AnalysisError('bits of a decoded %s element not resolved' % name)
                got.append(x)
            exp = [OLD] + exp
            if pid == 'C04':
                ctx.check(got[-(len(exp) - 1):] == exp[1:] if len(exp) > 1 else True, key + '-values', 'a packed block of %d %s values is not decoded to them' % (len(exp) - 1, name), **kw); continue
            ctx.check(len(got) == len(exp) and got[:1] == exp[:1], key + '-count', 'decoding a packed block of %d %s values onto 1 earlier element leaves %d elements%s' % (len(exp) - 1, name, len(got), '' if got[:1] == exp[:1] else ', the earlier one lost'), **kw)
            ctx.check(got == exp or len(got) != len(exp), key + '-values', 'the elements decoded from a packed %s block are not its values in order' % name, **kw)
            off = iter_off(I, ITLOC)
            ctx.check(off == 1 + L, key + '-consumed', 'decoding a packed %s block of %d bytes consumes %s' % (name, 1 + L, off), **kw)
    if len(good) < min(2, len(sizes)): raise AnalysisError('only blocks of %s values analysed' % sorted(good))

def text_bytes(I, v, string):
    """(offset, length) in the input of the content of a decoded text value"""
    if string:
        if not (isinstance(v, tuple) and v[0] == 'op' and 'fromUtf8' in v[1]): return None
        args = v[2:]
        v = args[-1] if len(args) == 1 else args
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) and v[0] and v[0][0] == 'rptr': return v[0][2], v[1]
    ps = models.parts(v)
    if len(ps) == 1 and ps[0][0] == 'raw' and isinstance(ps[0][1], tuple) and ps[0][1][:2] == ('rptr', INBUF): return ps[0][1][2], ps[0][2]
    return None

def text_decode(ctx, P, t, f, pid):
    """string and bytes: exactly the bytes the length prefix announces"""
    lst = t.endswith('List') or t.startswith('QList<'); string = 'QString' in t
    ctx.analysed(f); ctx.count('decoders'); loc = loc_of(f); key = 'text:' + t
    OLD = ('txt', 'old')
    V = SER + '::deserializeVarintCommon'
    def outv(I, q, i, l, old, n=None):
        if pos_of(old) is not None: return at(I, fresh_pos(I, pos_of(old)))
        return None
    n = 0
    def mk(I):
        it = generic_iter(I, P)
        I.rawwrite(VLOC, ('variant', t, ('cat', (('e', OLD),)) if lst else OLD))
        return [('lref', it), ('lref', VLOC)]
    for r in run_fn(P, Config(P, opaque={V}, out_value=outv), f, mk, ctx.stats):
        ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
        if r.exc: continue
        n += 1
        v = I.read_noevent(VLOC)
        if not ctx.check(isinstance(v, tuple) and v[0] == 'variant' and v[1] == t, key + '-type', 'decoding a %s yields a value of type %s' % (t, v[1] if isinstance(v, tuple) else v), **kw): continue
        ps = models.parts(v[2]) if lst else ()
        if lst:
            ok = len(ps) == 2 and ps[0] == ('e', OLD)
            if pid == 'C09': ctx.check(ok, key + '-append', 'decoding an element of a %s does not append it to the elements decoded before' % t, **kw)
            if not ok or ps[1][0] != 'e': continue
            x = ps[1][1]
        else: x = v[2]
        vs = [e for e in r.trace if e.kind == 'call' and e.q == V and not e.log]
        b = text_bytes(I, x, string)
        if b is None:
            if isinstance(x, tuple) and x[:1] == ('op',) and string and 'fromUtf8' not in x[1]:
                ctx.check(False, key + '-utf8', 'a decoded string is produced by %s instead of UTF-8 decoding' % x[1], **kw); continue
            raise AnalysisError('content of a decoded %s not resolved: %r' % (t, x))
        if len(vs) != 1: raise AnalysisError('length prefix of a decoded %s not recognised' % t)
        ln = vs[0].res
        outs = [o for o in (vs[0].extra.get('outs') or {}).values() if pos_of(o) is not None]
        if not outs: raise AnalysisError('position after the length prefix not found')
        st = pos_of(outs[0])
        same_len = same(I, unwrap(b[1]), ln) or unwrap(b[1]) == unwrap(ln)
        ctx.check(same(I, b[0], st) and same_len, key + '-content', 'a decoded %s does not hold exactly the bytes its length prefix announces' % t, **kw)
        end = pos_of(I.read_noevent(ITLOC))
        ctx.check(end is not None and same(I, add(end, st, -1), ln) or end is not None and repr(to_lin(add(end, st, -1))) == repr(to_lin(ln)) or unw_eq(add(end, st, -1), ln), key + '-consumed', 'decoding a %s does not move the position past exactly its content' % t, **kw)
    if n == 0: ctx.check(False, key + '-never', 'no %s can be decoded' % t, **loc)

def unw_eq(a, b):
    a = to_lin(a)
    return a.c == 0 and len(a.m) == 1 and list(a.m.values()) == [1] and unwrap(list(a.m)[0]) == unwrap(b)

# ------------------------------------------------------------------ C04
def c04(ctx):
    ctx.rule('Table extraction: the constructor of the serializer is evaluated abstractly and the resulting handler table (type id -> encoder, decoder, wire type) is compared with the wire types of the protobuf specification for every scalar and repeated type.')
    ctx.rule('Codec agreement: the encoder of each entry, evaluated over symbolic bits, must read its value as the registered type and write that type\'s wire encoding; the decoder must read the same encoding and produce a value of the registered type.')
    P = load()
    root, tab = handler_table(ctx, P)
    want = {}
    for name, (t, w, kind) in SCALARS.items():
        want[t] = (name, wiretype(name))
        if kind != 'bool': want['QList<%s>' % t] = ('repeated ' + name, 2)
    for t in ('QString', 'QByteArray', 'QStringList', 'QByteArrayList'): want[t] = (t, 2)
    alias = {'QByteArrayList': ('QByteArrayList', 'QList<QByteArray>'), 'QStringList': ('QStringList', 'QList<QString>')}
    f0 = P.fns(SER + '::QProtobufSerializerPrivate')[0]; loc0 = loc_of(f0)
    for t, (name, wt) in want.items():
        ks = [k for k in alias.get(t, (t,)) if k in tab]
        if not ctx.check(bool(ks), 'missing:' + name, 'no handler is registered for %s (%s)' % (name, t), **loc0): continue
        x = tab[ks[0]]; ctx.count('types')
        with ctx.guard(name):
            s, d, w = entry_fns(P, t, x)
            if s is None or d is None: ctx.check(False, 'half:' + name, 'the handler of %s lacks an encoder or a decoder' % name, **loc0); continue
            ctx.check(w == wt, 'wiretype:' + name, '%s is registered with wire type %s, the protobuf specification says %d' % (name, w, wt), **loc0)
            if t in ('QString', 'QByteArray'): text(ctx, P, t, s); text_decode(ctx, P, t, d, 'C04')
            elif t in ('QStringList', 'QByteArrayList'): text_list(ctx, P, ks[0], s); text_decode(ctx, P, ks[0], d, 'C04')
            elif t.startswith('QList<'): scalar_list(ctx, P, t, s, counts=(1,)); packed_decode(ctx, P, t, d, 'C04', lens=[scalar_of(elem_name(t))[1] // 8] if scalar_of(elem_name(t))[2] == 'fixed' else [1, 2])
            else:
                _, ww, kind = SCALARS[name]
                enc_scalar(ctx, P, name, t, ww, kind, s); dec_scalar(ctx, P, name, t, ww, kind, d)
    # wire type numbers of the specification
    for q, e in P.enums.items():
        if q.endswith('::WireTypes'):
            spec = dict(Varint=0, Fixed64=1, LengthDelimited=2, Fixed32=5)
            got = {}
            for c in e.get('consts', e.get('values', [])):
                n_ = c.get('n') if isinstance(c, dict) else c[0]; v = c.get('v') if isinstance(c, dict) else c[1]
                got[n_] = int(v)
            for k, v in spec.items():
                if k in got: ctx.check(got[k] == v, 'enum:' + k, 'wire type %s has number %d' % (k, got[k]), file=e.get('file', ''), line=e.get('line', 0), fn=q)
    ctx.floor('types', 20); ctx.floor('obligations', 300)

# ------------------------------------------------------------------ C09
def c09(ctx):
    ctx.rule('Bit-level dataflow over the packed-list decoders: on every path on which the block is well formed the result must be the list held before followed by the decoded values in order, and exactly the block must be consumed.')
    ctx.rule('Provenance dataflow over string, bytes, message, enum and map decoders: the value stored must be the previous container extended by exactly what this element decoded to; map entries store (decoded key, decoded value), starting from defaults.')
    ctx.rule('Field dispatch: on every path of the field decoder that finds the field number, exactly one handler is called, that of the property\'s type, on the property\'s current value, and its output is written to that property.')
    P = load()
    root, tab = handler_table(ctx, P)
    for t, x in tab.items():
        s, d, w = entry_fns(P, t, x)
        if d is None: continue
        with ctx.guard(t):
            if t in ('QString', 'QByteArray', 'QStringList', 'QByteArrayList', 'QList<QByteArray>'): text_decode(ctx, P, t, d, 'C09')
            elif t.startswith('QList<'): packed_decode(ctx, P, t, d, 'C09')
    with ctx.guard('enum list'): enum_lists(ctx, P)
    with ctx.guard('templates'): dtemplates(ctx, P)
    with ctx.guard('deserializeMapPair'): map_entry(ctx, P, 'C09'); map_handlers(ctx, P)
    with ctx.guard('wrappers'): dwrappers(ctx, P)
    with ctx.guard('deserializeProperty'): field_dispatch(ctx, P)
    ctx.floor('decoders', 12); ctx.floor('paths', 60)

def enum_lists(ctx, P):
    """the serializer's enum decoders hand out what the int64 decoders produce"""
    f = P.fn(S + '::deserializeEnum'); ctx.analysed(f); loc = loc_of(f)
    vl = (('v', 'in', f['params'][0]['n']), ())
    cfg = Config(P, loop_max=40, loop_hard=12, keep_limit=True, bitmode=True, models={'@byte': byte_model})
    def mk(I):
        I.facts.set_range(SZ, 64, 4096)
        it = make_iter(I, P)
        return arg_values(I, P, f, it)
    rs = run_fn(P, cfg, f, mk, ctx.stats); ctx.count('decoders')
    def value(r):
        return None, elem_bits(r.I.read_noevent(vl), 64)
    check_decoding(ctx, rs, 'enum', 64, 'varint', loc, value)
    f = P.fn(S + '::deserializeEnumList'); ctx.analysed(f); loc = loc_of(f); ctx.count('decoders')
    vl = (('v', 'in', f['params'][0]['n']), ())
    for L in (0, 1, 2):
        bm = block_model(L, 'varint', 64)
        cfg = Config(P, loop_max=40, loop_hard=12, keep_limit=True, bitmode=True, models={'@byte': bm})
        def mk(I):
            I.facts.set_range(SZ, 64, 4096)
            it = make_iter(I, P); vals = arg_values(I, P, f, it)
            I.rawwrite(vl, ('cat', ()))
            return vals
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
            exp = block_values(I, L, 'varint', 64)
            if exp is None: continue
            if r.exc: ctx.check(False, 'enumlist-throws', 'a well-formed packed enum block is rejected', **kw); continue
            got = []
            for p in models.parts(I.read_noevent(vl)):
                if p[0] != 'e': raise AnalysisError('enum list element not resolved: %r' % (p,))
                got.append(I.bn(elem_bits(p[1], 64)))
            ctx.check(got == exp, 'enumlist-values', 'a packed block of %d enum values is decoded to %d elements, or not to its values in order' % (len(exp), len(got)), **kw)

def prev_parts(v, T, prev):
    """parts after the previous content; None if the previous content is not first"""
    if not (isinstance(v, tuple) and v[0] == 'variant' and v[1] == T): return None
    ps = list(models.parts(v[2]))
    if not ps or not (isinstance(ps[0], tuple) and ps[0][:2] == ('op', 'QVariant::value') and ps[0][2] == T and ps[0][3] == prev): return None
    return ps[1:]

def dtemplates(ctx, P):
    A = 'QtProtobuf::QAbstractProtobufSerializer::'
    OPQ = lambda g: g.get('cls') == S
    for name in ('deserializeObject', 'deserializeList', 'deserializeMap', 'deserializeEnum', 'deserializeEnumList'):
        fs = template_fns(P, name)
        if not fs: raise prog.Broken('no instance of QtProtobufPrivate::' + name)
        for f in fs:
            ctx.analysed(f); ctx.count('decoders'); loc = loc_of(f); key = fname(f)
            pn = [p['n'] for p in f['params']]
            ser, prev = ('arg', pn[0]), ('arg', pn[2]); pl = (('v', 'in', pn[2]), ())
            ta = [x for x in f.get('ta') or [] if isinstance(x, str)]
            n = 0
            def mk(I): return arg_values(I, P, f, generic_iter(I, P))
            for r in run_fn(P, Config(P, opaque_pred=OPQ), f, mk, ctx.stats):
                ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
                if r.exc: ctx.check(False, key + '-throws', 'decoding throws on its own', **kw); continue
                calls = [e for e in r.trace if e.kind == 'call' and e.q.startswith((A, S + '::')) and 'deserialize' in e.q and not e.log]
                if not ctx.check(len(calls) == 1, key + '-calls', 'the serializer is called %d times for one element' % len(calls), **kw): continue
                e = calls[0]
                ctx.check(e.obj == ser, key + '-serializer', 'another serializer than the one passed in is used', **kw)
                v = I.read_noevent(pl)
                if name in ('deserializeList', 'deserializeMap') and I.status(e.res) is False:
                    ctx.check(v == prev, key + '-refused', 'an element the serializer did not decode changes the field', **kw); continue
                n += 1
                outs = e.extra.get('outs') or {}
                if name == 'deserializeObject':
                    o = e.args[0]
                    ok = isinstance(o, tuple) and o[0] == 'addr' and o[1][0][0] == 'heap' and o[1][0][2] == ta[0] and meta_of(e.args[1], f)
                    ctx.check(ok and isinstance(v, tuple) and v[0] == 'variant' and v[1] == ta[0] + ' *' and v[2] == o, key + '-value', 'the field is not set to a new message decoded from the input', **kw)
                elif name == 'deserializeList':
                    T = 'QList<QSharedPointer<%s>>' % ta[0]
                    ps = prev_parts(v, T, prev); o = e.args[0]
                    ctx.check(ps is not None, key + '-previous', 'the elements decoded before are not kept', **kw)
                    ok = isinstance(o, tuple) and o[0] == 'addr' and o[1][0][0] == 'heap' and o[1][0][2] == ta[0] and meta_of(e.args[1], f)
                    if ps is not None: ctx.check(ok and ps == [('e', o)], key + '-append', 'not exactly the decoded message is appended', **kw)
                elif name == 'deserializeEnum':
                    x = unwrap(v[2]) if isinstance(v, tuple) and v[0] == 'variant' else None
                    ctx.check(x is not None and v[1] == ta[0] and x == ('fld', outs.get(0), '_t'), key + '-value', 'the field is not set to the decoded enum value', **kw)
                elif name == 'deserializeEnumList':
                    T = 'QList<%s>' % ta[0]
                    ctx.check(e.args[0] == ('cat', ()), key + '-fresh', 'the block is decoded into a list that is not empty', **kw)
                    ps = prev_parts(v, T, prev)
                    ctx.check(ps is not None, key + '-previous', 'the elements decoded before are not kept', **kw)
                    if ps is None: continue
                    c = outs.get(0); k = None
                    for i in range(4):
                        if I.facts.eq_status(add(('size', c), -i)) is True or I.facts.eq_status(add(('count', c), -i)) is True: k = i
                    got = []
                    if ps == [c]: continue
                    for p in ps:
                        x = unwrap(p[1]) if p[0] == 'e' else None
                        if isinstance(x, tuple) and x[0] == 'fld': x = x[1]
                        got.append(x[2] if isinstance(x, tuple) and x[0] == 'elem' and x[1] == c else None)
                    ctx.check(k is not None and got == list(range(k)), key + '-elements', 'of %s decoded enum values, %s are appended' % (k, got), **kw)
                else:
                    sp = v[2] if isinstance(v, tuple) and v[0] == 'variant' else None
                    obj = any('witness' in x for x in ta[1:2])
                    T = 'QMap<%s, %s>' % (ta[0], 'QSharedPointer<%s>' % ta[1] if obj else ta[1])
                    vt = ta[1] + ' *' if obj else ta[1]
                    d0, d1 = e.args[0], e.args[1]
                    ctx.check(isinstance(d0, tuple) and d0[:2] == ('variant', ta[0]) and d0[2] in (0, ('cat', ())) and isinstance(d1, tuple) and d1[:2] == ('variant', vt) and (d1[2] in (0, ('cat', ())) or obj), key + '-defaults', 'a map entry is not decoded on top of a default key and value', **kw)
                    if not ctx.check(sp is not None and v[1] == T and isinstance(sp, Struct), key + '-type', 'decoding a map entry yields %r' % (v,), **kw): continue
                    kk = ('op', 'QVariant::value', ta[0], outs.get(0)); vv = ('op', 'QVariant::value', vt, outs.get(1))
                    ctx.check(sp.base == ('op', 'QVariant::value', T, prev), key + '-previous', 'the entries decoded before are not kept', **kw)
                    ent = {x[1]: y for x, y in sp.f.items() if isinstance(x, tuple) and x[0] == '[]'}
                    ctx.check(ent == {kk: vv}, key + '-entry', 'the entry stored is not (decoded key, decoded value)', **kw)
            ctx.check(n > 0, key + '-never', 'no path stores a decoded element', **loc)

def map_handlers(ctx, P):
    """the handlers used inside a map entry are those of the types of key and value"""
    f = P.fn(SER + '::deserializeMapPair'); loc = loc_of(f)
    H = SER + '::decodeHeader'; SK = SER + '::skipSerializedFieldBytes'; V = SER + '::deserializeVarintCommon'
    def outv(I, q, i, l, old, n=None):
        if pos_of(old) is not None: return at(I, fresh_pos(I, pos_of(old)))
        return None
    pn = [p['n'] for p in f['params'] if not is_iter_param(p)]
    for r in run_fn(P, Config(P, opaque={H, SK, V}, loop_max=2, out_value=outv), f, lambda I: arg_values(I, P, f, generic_iter(I, P)), ctx.stats):
        for e in handler_calls(r): handler_of(ctx, r, e, None)

def handler_of(ctx, r, e, tid, T=None):
    """the indirect call e uses the decoder registered for the type of the value it is given"""
    fv = e.extra['indirect']; el = dict(file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
    if not (isinstance(fv, tuple) and fv[0] == 'fld'): raise AnalysisError('handler not recognised: %r' % (fv,))
    ctx.check(fv[2] == 'deserializer', 'handler-member', 'a value is decoded with member %s of its handler' % fv[2], **el)
    val = [a for a in e.args if pos_of(a) is None][-1]
    want = {('op', 'userType', val)}
    if tid is not None: want.add(tid)
    if isinstance(val, tuple) and val and val[0] == 'out': pass
    a = fv[1]
    k = a[2] if isinstance(a, tuple) and a[0] == 'at' else None
    if k is None:
        if isinstance(a, tuple) and a[0] in ('op', 'res'):      # the registry's lookup function
            k = [x for x in a[2:] if isinstance(x, tuple) and x[:2] == ('op', 'userType') or x == tid]
            k = k[0] if k else None
            if k is None: return
        else: return
    ctx.check(k in want, 'handler-type', 'the decoder used is registered for %r, not for the type of the value it decodes' % (k,), **el)

def dwrappers(ctx, P):
    """nested message, list element and map entry calls pass their own arguments on"""
    for name, callee in (('deserializeObject', S + '::deserializeMessage'), ('deserializeListObject', S + '::deserializeMessage'), ('deserializeMapPair', SER + '::deserializeMapPair')):
        f = P.fn(S + '::' + name); ctx.analysed(f); ctx.count('decoders'); loc = loc_of(f)
        V = SER + '::deserializeVarintCommon'
        def outv(I, q, i, l, old, n=None):
            if pos_of(old) is not None: return at(I, fresh_pos(I, pos_of(old)))
            return None
        n = 0
        def mk(I): return arg_values(I, P, f, generic_iter(I, P))
        for r in run_fn(P, Config(P, opaque={V, callee}, out_value=outv), f, mk, ctx.stats):
            ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
            if r.exc: continue
            n += 1
            cs = [e for e in r.trace if e.kind == 'call' and e.q in (callee, callee.replace('QProtobufSerializer::', 'QAbstractProtobufSerializer::')) and not e.log]
            if not ctx.check(len(cs) == 1, name + '-once', '%s decodes its value %d times' % (name, len(cs)), **kw): continue
            e = cs[0]
            if name == 'deserializeMapPair':
                ls = [x[1] for x in e.extra['locs'] if isinstance(x, tuple) and x and x[0] == 'lref']
                ok = ls[:2] == [(('v', 'in', p['n']), ()) for p in f['params'][:2]]
                ctx.check(ok, name + '-args', 'key and value of a map entry are not passed on in their order', **kw)
            else:
                vs = [x for x in r.trace if x.kind == 'call' and x.q == V and not x.log]
                b = text_bytes(I, e.args[2], False)
                if b is None or len(vs) != 1: raise AnalysisError('payload of a nested message not resolved: %r' % (e.args[2],))
                st = [pos_of(o) for o in (vs[0].extra.get('outs') or {}).values() if pos_of(o) is not None][0]
                ctx.check(same(I, b[0], st) and unwrap(b[1]) == unwrap(vs[0].res), name + '-payload', 'a nested message is not decoded from exactly the bytes its length prefix announces', **kw)
                ctx.check(e.args[0] == ('arg', f['params'][0]['n']) and e.args[1] == ('arg', f['params'][1]['n']), name + '-target', 'a nested message is decoded into another object', **kw)
            if name in ('deserializeListObject', 'deserializeMapPair'):
                ctx.check(r.ret == 1, name + '-result', 'a decoded element is reported as not decoded', **kw)
        if n == 0: ctx.check(False, name + '-never', name + ' never decodes', **loc)

def field_dispatch(ctx, P):
    f = P.fn(SER + '::deserializeProperty'); ctx.analysed(f); ctx.count('decoders'); loc = loc_of(f)
    H = SER + '::decodeHeader'; SK = SER + '::skipSerializedFieldBytes'
    def outv(I, q, i, l, old, n=None):
        if pos_of(old) is not None: return at(I, fresh_pos(I, pos_of(old)))
        return None
    obj = ('arg', f['params'][0]['n']); meta = ('arg', f['params'][1]['n'])
    n = 0
    for r in run_fn(P, Config(P, opaque={H, SK}, out_value=outv), f, lambda I: arg_values(I, P, f, generic_iter(I, P)), ctx.stats):
        ctx.count('paths'); I = r.I; kw = dict(path=pathdesc(r.choices), **loc)
        if r.exc: continue
        st = [x for x in orderings(I) if x[0]]
        if not st: continue
        n += 1
        hs = handler_calls(r); ws = property_writes(r)
        h = header_events(r)
        if len(h) != 1: raise AnalysisError('field key not recognised')
        num = out_of(I, h[0], 1)
        if not ctx.check(len(hs) == 1, 'field-handlers', '%d handlers are called for one field' % len(hs), **kw): continue
        if not ctx.check(len(ws) == 1, 'field-writes', '%d properties are written for one field' % len(ws), **kw): continue
        e, w = hs[0], ws[0]
        pos = [i for i, a in enumerate(e.args) if pos_of(a) is not None]
        hp = [pos_of(o) for o in (h[0].extra.get('outs') or {}).values() if pos_of(o) is not None]
        ctx.check(hp and same(I, pos_of(e.args[pos[0]]), hp[0]), 'field-position', 'a field is not decoded from the byte after its key', **kw)
        vi = [i for i, a in enumerate(e.extra['locs']) if isinstance(a, tuple) and a and a[0] == 'lref' and i not in pos]
        out = (e.extra.get('outs') or {}).get(vi[-1]) if vi else None
        if out is None: raise AnalysisError('value decoded by the handler not found')
        if w.q == 'QMetaProperty::write':
            mp, wo, wv = w.obj, w.args[0], w.args[1]
            if isinstance(mp, tuple) and mp and mp[0] == 'addr': mp = mp[1]
            if isinstance(mp, tuple) and len(mp) == 2 and isinstance(mp[0], tuple) and mp[1] == (): mp = I.read_noevent(mp)
        else: raise AnalysisError('property write through %s' % w.q)
        ctx.check(wo == obj, 'field-object', 'a decoded value is written to another object', **kw)
        ctx.check(wv == out, 'field-value', 'the value written to a property is not the one decoded for it', **kw)
        ok = isinstance(mp, tuple) and mp[:2] == ('op', 'QMetaObject::property') and mp[2] == ('init', ('deref', ('fld', meta, 'staticMetaObject')))
        if not ok: raise AnalysisError('property written not recognised: %r' % (mp,))
        idx = mp[3]
        ok = 'propertyOrdering' in repr(idx) and any(repr(k) in repr(idx) for _, k in st) and any(same(I, k, num) or k == num for _, k in st)
        ctx.check(ok, 'field-property', 'the property written is not the one the field table assigns to the field number: %r' % (idx,), **kw)
        val = e.args[vi[-1]]
        okv = isinstance(val, tuple) and val[:2] == ('op', 'QMetaProperty::read') and val[2] == mp and val[3] == obj
        ctx.check(okv, 'field-current', 'the handler does not start from the current value of the property (repeated fields would lose elements)', **kw)
        handler_of(ctx, r, e, ('op', 'QMetaProperty::userType', mp))
    ctx.check(n >= 2, 'field-known', 'known fields are decoded on %d paths only' % n, **loc)

# ------------------------------------------------------------------ C07
def c07(ctx):
    ctx.rule('Content tracking over the public decode calls: the bytes are decoded into an object that was default-constructed in the same call, and at every exit (normal or by exception) the target has been assigned from that object after the decoding; no decoding function writes a global or static variable.')
    P = load()
    pub = [g for g in P.fns('QtProtobuf::QAbstractProtobufSerializer::deserialize')]
    if not pub: raise prog.Broken('public decode call not instantiated')
    DM = ('QtProtobuf::QAbstractProtobufSerializer::deserializeMessage', S + '::deserializeMessage')
    for g in pub:
        ctx.analysed(g); loc = loc_of(g)
        with ctx.guard(g['q']):
            class T(dict):
                def get(self, q, d=None): return ('std::invalid_argument',) if q in DM else None
            cls = [x for x in g['ta'] if isinstance(x, str)][0]
            def m_decode(I, n, ob, args):
                p = I.val(args[0])
                loc = p[1] if isinstance(p, tuple) and p[0] == 'addr' else (('deref', p), ())
                I.writev(loc, ('decoded', I.read_noevent(loc), I.val(args[2])))
                return NotImplemented
            def m_assign(I, n, ob, args):
                I.writev(ob, I.val(args[0])); return ('lref', ob)
            cfg = Config(P, opaque=set(DM), maythrow=T(), models={q: m_decode for q in DM})
            cfg.models[cls + '::operator='] = m_assign
            tgt = ('arg', g['params'][0]['n']); data = ('arg', g['params'][1]['n'])
            tl = (('deref', tgt), ())
            kinds = set()
            for r in run_fn(P, cfg, g, lambda I: arg_values(I, P, g, None), ctx.stats):
                ctx.count('paths'); kw = dict(path=pathdesc(r.choices), **loc)
                v = r.I.read_noevent(tl)
                how = 'throws' if r.exc else 'returns'; kinds.add(how)
                if any(e.kind == 'call' and e.q in DM for e in r.trace): ctx.count('decodes')
                def fresh(x):
                    """a default-constructed object"""
                    return isinstance(x, tuple) and x[:1] == ('ctor',) and all(a in (0, None) for a in x[2:]) or isinstance(x, Struct) and x.base is None
                def desc(x):
                    if x == ('init', tl[0]): return 'its previous content'
                    if fresh(x): return 'default values'
                    return 'content held before'
                if isinstance(v, tuple) and v[:1] == ('decoded',):
                    ctx.check(v[2] == data, 'data', 'other bytes than those passed in are decoded', **kw)
                    old = v[1]
                    ctx.check(fresh(old), 'content:' + how, 'the bytes are decoded on top of %s instead of a default message' % desc(old), **kw)
                else:
                    ctx.check(False, 'content:' + how, 'when decoding %s, the target holds %s instead of what was decoded' % (how, desc(v)), **kw)
            ctx.check(kinds == {'throws', 'returns'}, 'exits', 'only exits %s found' % sorted(kinds), **loc)
    # nothing carries state from one decode to the next
    for f in decode_functions(P) + pub:
        ctx.analysed(f); ctx.count('decoding_functions')
        for n in walk(f['body']):
            if n.get('k') == 'decl' and n.get('static') and not n.get('const'):
                ctx.check(False, 'static:' + f['q'], 'a decoding function keeps a mutable static variable (%s)' % n.get('n'), file=f['file'], line=n.get('l', f['line']), fn=f['q'])
    gl = {}
    mod = Modular(P, ctx.stats)
    for f in decode_functions(P):
        with ctx.guard(f['q']):
            cfg = mod.cfg(f)
            for r in run_decode(P, cfg, f, ctx.stats):
                ctx.count('paths')
                for root, v in r.I.store.items():
                    if root[0] == 'g' and root not in getattr(r.I, 'gbase', {}):
                        if v != ('init', root) and not const_global(P, root): gl.setdefault(root[1], (f, r))
                ctx.count('obligations'); ctx.count('discharged')
    for q, (f, r) in gl.items():
        ctx.check(False, 'global:' + q, 'decoding writes the global %s' % q, path=pathdesc(r.choices), **loc_of(f))
    ctx.floor('decodes', 2); ctx.floor('decoding_functions', 15)

def const_global(P, root):
    g = P.globals.get(root[1])
    return g is None or bool(g.get('const'))

def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)): yield from walk(v)
    elif isinstance(n, list):
        for x in n: yield from walk(x)
