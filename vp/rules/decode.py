"""Decoder rules: C01 (in-bounds reads), C02 (termination), C05 (skipping), C06 (errors), C07 (replacement), C09 (lists and maps)."""
from .codec import *
from ..lin import Lin

D0 = ('d0',)
SZ = ('size', INBUF)

def is_iter_param(p): return 'QProtobufSelfcheckIterator' in p.get('t', '')

def decode_functions(P):
    """every function of the library that is handed a read position, or creates one"""
    out = []
    for f in P.functions.values():
        if f.get('cls') == ITER or f['q'].endswith('QtProtobuf::operator+') or not f.get('body'): continue
        if any(is_iter_param(p) for p in f['params']): out.append(f)
        elif f['q'].endswith('QProtobufSerializer::deserializeMessage'): out.append(f)
    return out

def fname(f):
    t = [x for x in f.get('ta') or [] if isinstance(x, str)]
    return f['q'].replace('QtProtobuf::', '').replace('QtProtobufPrivate::', '') + ('<%s>' % ','.join(norm_type(x) for x in t) if t else '')

# ---- generic state of the read position
def subst_sym(v, sym, new):
    if v == sym: return new
    if isinstance(v, Lin):
        if sym in v.m:
            k = v.m[sym]; m = dict(v.m); del m[sym]
            return add(Lin(m, v.c), mul(new, k)) if m or v.c else mul(new, k)
        return v
    if isinstance(v, tuple): return tuple(subst_sym(x, sym, new) for x in v) if sym in flat_syms(v) else v
    if isinstance(v, Struct): return Struct(v.cls, v.base, {k: subst_sym(x, sym, new) for k, x in v.f.items()})
    return v
def flat_syms(v):
    out = set()
    def go(x):
        if isinstance(x, Lin): out.update(x.m)
        elif isinstance(x, tuple):
            out.add(x)
            for y in x: go(y)
        elif isinstance(x, Struct):
            for y in x.f.values(): go(y)
    go(v); return out

def pos_of(v, buf=INBUF):
    if isinstance(v, Struct):
        for x in v.f.values():
            if isinstance(x, tuple) and x and x[0] == 'rptr' and x[1] == buf: return x[2]
    return None

def size_facts(I, hi=(1 << 31) - 1):
    I.facts.set_range(SZ, 0, hi)

def generic_iter(I, P, name='it', sym=D0):
    """a read position at an arbitrary offset of the buffer, built with the class's own operations"""
    size_facts(I)
    loc = make_iter(I, P, name=name)
    op = [f for f in P.fns(ITER + '::operator+=')]
    if len(op) != 1: raise prog.Broken('operator+= of the selfcheck iterator not found')
    I.facts.set_range(sym, 0, (1 << 31) - 1); I.facts.add_ge(add(SZ, sym, -1))
    tr = len(I.trace)
    try: models.run_with_values(I, op[0], [sym], ('addr', loc), [sym])
    except CppThrow: raise Prune()
    del I.trace[tr:]
    v = I.read_noevent(loc)
    if pos_of(v) is None: raise AnalysisError('read position not found in %r' % (v,))
    I.user['tmpl'] = (v, sym)
    return loc

def at(I, off):
    v, sym = I.user['tmpl']
    return subst_sym(v, sym, off)

def fresh_pos(I, lo=0):
    d = I.fresh('pos')
    I.facts.set_range(d, 0, (1 << 31) - 1); I.facts.add_ge(add(SZ, d, -1)); I.facts.add_ge(add(d, lo, -1))
    return d

def invariant_ok(I, v):
    off = pos_of(v)
    if off is None: return False, 'read position lost'
    if not (I.facts.entails_ge(off) and I.facts.entails_ge(add(SZ, off, -1))): return False, 'read position %s not within the buffer' % (off,)
    t = at(I, off)
    for k, x in t.f.items():
        y = v.f.get(k)
        if isinstance(x, tuple) and x and x[0] == 'rptr': continue
        if I.facts.eq_status(add(x, y, -1)) is not True: return False, 'bookkeeping member %s out of step with the position' % k
    return True, ''

LOOPS = ('while', 'for', 'do', 'rfor')
def has_loop(n):
    if isinstance(n, dict):
        if n.get('k') in LOOPS: return True
        return any(has_loop(v) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list): return any(has_loop(x) for x in n)
    return False

class Modular:
    """decoding functions with loops are analysed on their own; where others call them, only their summary
    (position stays in bounds, does not move back, moves at least one byte if `strict`) is used"""
    def __init__(self, P, stats=None):
        self.P = P
        self.fs = decode_functions(P)
        self.loopy = {f['id']: f for f in self.fs if has_loop(f['body'])}
        self.strict = set()
        for _ in range(4):
            new = set()
            for fid, f in self.loopy.items():
                if not any(is_iter_param(p) for p in f['params']): continue
                rs = run_decode(P, self.cfg(f), f, stats)
                ok = True
                for r in rs:
                    if r.exc: continue
                    off = pos_of(r.I.read_noevent(ITLOC))
                    if off is None or not r.I.facts.entails_ge(add(add(off, D0, -1), -1)): ok = False; break
                if ok: new.add(fid)
            if new == self.strict: break
            self.strict = new
    def cfg(self, f, **kw):
        kw.setdefault('opaque', set())
        c = base_cfg(self.P, self, **kw)
        fid = f['id']
        c.opaque_pred = lambda g: g.get('id') in self.loopy and g['id'] != fid
        return c

def base_cfg(P, mod=None, **kw):
    def havoc(I, r, o, v):
        if pos_of(v) is not None and 'tmpl' in I.user: return at(I, fresh_pos(I, pos_of(o) if pos_of(o) is not None else 0))
        return None
    def outv(I, q, i, loc, old, n=None):
        if pos_of(old) is not None and 'tmpl' in I.user:
            st = mod is not None and n is not None and (n.get('id') in mod.strict or I.frame()['tu'] + '|' + str(n.get('id')) in mod.strict)
            return at(I, fresh_pos(I, add(pos_of(old), 1 if st else 0)))
        return None
    def iters(I):
        return {r: pos_of(v) for r, v in I.store.items() if pos_of(v) is not None and r[0] in ('v', 'cap')}
    def on_loop(I, s, what, x):
        st = I.user.setdefault('loops', {})
        key = (I.frame()['q'], s.get('l'), len(I.frames))
        if what == 'cond': st[key + ('c',)] = x
        elif what == 'begin': st[key] = (iters(I), {r: v for r, v in I.store.items() if r[0] == 'v' and not isinstance(v, Struct)})
        else:
            if key not in st: return
            a, vars0 = st[key]; b = iters(I)
            adv = any(r in b and I.facts.entails_ge(add(add(b[r], a[r], -1), -1)) for r in a)
            back = [r for r in a if r in b and not I.facts.entails_ge(add(b[r], a[r], -1))]
            ranked = False
            c = st.get(key + ('c',))
            if isinstance(c, tuple) and c and c[0] == 'cmp' and c[1] == 'ge':
                l = to_lin(c[2])
                for r, v in vars0.items():
                    n = I.store.get(r)
                    if n is None or n == v or isinstance(n, (Struct, BV, Closure)) or isinstance(v, (BV, Closure)): continue
                    d = add(n, v, -1)
                    if isinstance(d, int) and isinstance(v, tuple) and v in l.m and l.m[v] * d < 0: ranked = True
                    if isinstance(v, int) and x == 1: ranked = True     # first, concrete iteration: judged on the generic one
            I.emit('backedge', str(s.get('l')), args=(adv or ranked, tuple(back), bool(a)))
    return Config(P, loop_havoc=True, loop_max=2, havoc_value=havoc, out_value=outv, on_loop=on_loop, **kw)

def arg_values(I, P, f, iterloc):
    vals = []
    for i, p in enumerate(f['params']):
        t = p.get('t', '')
        if is_iter_param(p): vals.append(('lref', iterloc)); continue
        if p.get('ref'):
            loc = (('v', 'in', p['n'] or i), ())
            if 'QByteArray' in t and f['q'].endswith('deserializeMessage'): I.rawwrite(loc, INBUF)
            else: I.rawwrite(loc, ('arg', p['n'] or i))
            vals.append(('lref', loc))
        else:
            v = ('arg', p['n'] or i)
            if t.endswith('*'): I.facts.add_ne(to_lin(v))
            if 'b' in p: lo, hi = irange(p['b'], p['u']); I.facts.set_range(v, lo, hi)
            vals.append(v)
    return vals

def run_decode(P, cfg, f, stats):
    def mk(I):
        I.user['dyn'] = None
        loc = generic_iter(I, P)
        return arg_values(I, P, f, loc)
    return run_fn(P, cfg, f, mk, stats)

ITLOC = (('v', 'in', 'it'), ())

def reads(r):
    """(event, offset, length) of every read of input bytes"""
    for e in r.trace:
        if e.kind == 'byteread' and isinstance(e.obj, tuple) and e.obj[0] == 'rptr' and e.obj[1] == INBUF: yield e, e.args[0], None
        elif e.kind == 'rawread':
            p = e.obj
            if isinstance(p, tuple) and p and p[0] == 'tptr': p = p[2]
            if isinstance(p, tuple) and p and p[0] == 'rptr' and p[1] == INBUF: yield e, p[2], e.args[0]
        elif e.kind == 'call' and not e.log:
            for i, a in enumerate(e.args):
                if isinstance(a, tuple) and a and a[0] == 'rptr' and a[1] == INBUF and i + 1 < len(e.args):
                    n = e.args[i + 1]
                    if isinstance(n, (int, Lin)) or isinstance(n, tuple) and n and n[0] in ('cast', 'wrap', 'size', 'op', 'fresh', 'byte'): yield e, a[2], n

def opaque_indirect(f): return False

def c01(ctx):
    ctx.rule('Abstract interpretation with linear inequalities: each decoding function is evaluated on every path from an arbitrary read position of an arbitrary buffer (loops: one concrete and one generic iteration from a forgotten state); every byte or block read of the buffer must be proved to lie inside it, every function must leave the position in bounds, consistent and not before where it started.')
    ctx.rule('Class invariant: every operation of the read iterator, from any in-bounds state and any argument, either throws or leaves an in-bounds, consistent state; ++ and += never move backwards.')
    ctx.assume('the input is a QByteArray with its terminating NUL (Qt invariant), so the byte at offset size may be read')
    ctx.assume('a handler called through the table or registry is itself one of the analysed decoding functions')
    P = load()
    iterator_class(ctx, P)
    mod = Modular(P, ctx.stats); fs = mod.fs
    for f in fs:
        ctx.analysed(f); ctx.count('decoding_functions')
        cfg = mod.cfg(f)
        for r in run_decode(P, cfg, f, ctx.stats):
            I = r.I; ctx.count('paths'); nm = fname(f)
            for e, off, n in reads(r):
                ctx.count('reads')
                lim = add(SZ, off, -1)
                if n is not None: lim = add(lim, n, -1)
                ok = I.facts.entails_ge(off) and I.facts.entails_ge(lim)
                ctx.check(ok, 'read:%s:%s' % (nm, e.fn.split('::')[-1]), 'reads %s at offset %s without having established that the buffer reaches that far' % ('a byte' if n is None else '%s bytes' % (n,), off), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
            if r.exc: continue
            if any(is_iter_param(p) for p in f['params']):
                v = I.read_noevent(ITLOC)
                ok, why = invariant_ok(I, v)
                ctx.check(ok, 'inv:' + nm, 'leaves the read position in a bad state: ' + why, file=f['file'], line=f['line'], fn=f['q'], path=pathdesc(r.choices))
                off = pos_of(v)
                if off is not None:
                    ctx.check(I.facts.entails_ge(add(off, D0, -1)), 'back:' + nm, 'can move the read position backwards', file=f['file'], line=f['line'], fn=f['q'], path=pathdesc(r.choices))
    ctx.floor('decoding_functions', 40); ctx.floor('reads', 200)

def iterator_class(ctx, P):
    ms = [f for f in P.functions.values() if f.get('cls') == ITER and f.get('body') and not f.get('isdtor')] + [f for f in P.fns('QtProtobuf::operator+') if any(is_iter_param(p) for p in f['params'])]
    for f in ms:
        if f.get('isctor') and not (f['params'] and is_iter_param(f['params'][0])): continue
        ctx.analysed(f); ctx.count('iterator_operations')
        cfg = Config(P)
        A = ('n',); D1 = ('d1',)
        def mk(I):
            loc = generic_iter(I, P)
            vals = []
            for p in f['params']:
                if is_iter_param(p):
                    if f.get('cls') == ITER:
                        l2 = (('v', 'in', 'other'), ()); I.facts.set_range(D1, 0, (1 << 31) - 1); I.facts.add_ge(add(SZ, D1, -1)); I.rawwrite(l2, at(I, D1)); vals.append(('lref', l2))
                    else: vals.append(('lref', loc))
                elif 'b' in p: lo, hi = irange(p['b'], p['u']); I.facts.set_range(A, lo, hi); vals.append(A)
                else: vals.append(('rptr', INBUF, ('any',)))
            return vals
        this = ('addr', ITLOC) if not f.get('isctor') else ('addr', (('v', 'in', 'new'), ()))
        for r in run_fn(P, cfg, f, mk, ctx.stats, this=this):
            I = r.I; ctx.count('paths')
            for e, off, n in reads(r):
                ctx.count('reads')
                ctx.check(I.facts.entails_ge(off) and I.facts.entails_ge(add(add(SZ, off, -1), n or 0, -1)), 'iter-read:' + f['q'], 'reads the buffer at %s, which can lie outside' % (off,), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
            if r.exc: continue
            objs = [I.read_noevent(this[1])] if f.get('cls') == ITER else []
            rv = r.ret
            if isinstance(rv, tuple) and rv and rv[0] == 'lref': rv = I.read_noevent(rv[1])
            if isinstance(rv, Struct) and pos_of(rv) is not None: objs.append(rv)
            for v in objs:
                ok, why = invariant_ok(I, v)
                ctx.check(ok, 'iter-inv:%s' % f['q'].split('::')[-1], 'operation returns normally but ' + why, file=f['file'], line=f['line'], fn=f['q'], path=pathdesc(r.choices))
            nm = f['q'].split('::')[-1]
            if nm in ('operator++', 'operator+=', 'operator+'):
                off = pos_of(rv) if isinstance(rv, Struct) else None
                step = 1 if nm == 'operator++' else A
                ctx.check(off is not None and I.facts.eq_status(add(add(off, D0, -1), step, -1)) is True and I.facts.entails_ge(add(off, D0, -1)), 'iter-move:' + nm, 'does not move the position forward by exactly the requested count', file=f['file'], line=f['line'], fn=f['q'], path=pathdesc(r.choices))
    ctx.floor('iterator_operations', 8)

def c02(ctx):
    ctx.rule('Ranking-function dataflow: on every path of every decoding function, each loop back edge must be preceded by a strict advance of the read position (bounded by the buffer size, see C01) or a strictly decreasing linear loop condition, with no read position moving back; nested decodes get a strictly shorter buffer.')
    ctx.assume('handlers reached through the table or registry are among the analysed decoding functions, so none of them moves a position back (C01)')
    P = load()
    mod = Modular(P, ctx.stats); fs = mod.fs
    for f in fs:
        ctx.analysed(f); ctx.count('decoding_functions')
        cfg = mod.cfg(f, opaque={'QtProtobuf::QProtobufSerializer::deserializeMessage'} if not f['q'].endswith('::deserializeMessage') else set())
        for r in run_decode(P, cfg, f, ctx.stats):
            ctx.count('paths'); nm = fname(f)
            for e in r.trace:
                if e.kind == 'backedge':
                    ctx.count('back_edges')
                    ok, back, has = e.args
                    ctx.check(ok and not back, 'loop:%s:%s' % (nm, e.fn.split('::')[-1]), 'an iteration of the loop at line %s can finish without consuming input%s' % (e.q, ' (a read position moves back)' if back else ''), file=e.file, line=int(e.q or 0), fn=e.fn, path=pathdesc(r.choices))
                elif e.kind == 'call' and e.q.endswith('::deserializeMessage') and not f['q'].endswith('::deserializeMessage'):
                    data = e.args[-1]
                    n = models.size(r.I, data)
                    ok = data != INBUF and r.I.facts.entails_ge(add(add(add(SZ, D0, -1), n, -1), -1))
                    ctx.count('nested_decodes')
                    ctx.check(ok, 'nested:' + nm, 'the nested message is decoded from a buffer that is not proved shorter than the rest of the input (%s)' % (n,), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
    # recursion that bypasses the buffer
    ctx.floor('decoding_functions', 40); ctx.floor('back_edges', 40); ctx.floor('nested_decodes', 1)

# ------------------------------------------------------------------ C05 / C06: field keys, skipping, errors
NAMES = {0: 'Varint', 1: 'Fixed64', 2: 'LengthDelimited', 5: 'Fixed32'}

def bit_cfg(P, **kw):
    def outv(I, q, i, loc, old, n=None):
        if pos_of(old) is not None: return at(I, I.fresh('pos'))
        return None
    return Config(P, loop_max=40, loop_hard=12, keep_limit=True, bitmode=True, models={'@byte': byte_model}, out_value=outv, **kw)

def bit_iter(I, P):
    loc = generic_iter(I, P)
    I.facts.set_range(SZ, 64, 4096)
    I.rawwrite(loc, at(I, 0))
    return loc

def nlin(I, l):
    """linear form with the bit facts of the path applied"""
    l = to_lin(l); r = l.c
    for s, k in l.m.items():
        if isinstance(s, BV):
            v = I.bn(s); c = v.const()
            r = add(r, c * k if c is not None else mul(v, k))
        else: r = add(r, mul(s, k))
    return r

def run_of(I, start):
    """index of the first byte at or after start whose top bit is clear on this path; None if not decided"""
    k = start
    while k < start + 13:
        b = I.bn(BV([frozenset([(('in', k), 7)])])).bits[0]
        if b == B.ZERO: return k
        if b != B.ONE: return None
        k += 1
    return None

def expected_end(I, start, t):
    """position after the payload of wire type t that starts at byte `start`; None: cannot be skipped"""
    if t == 1: return start + 8
    if t == 5: return start + 4
    j = run_of(I, start)
    if j is None: return None
    if t == 0: return j + 1
    if t == 2:
        v = I.bn(varint_value([I.bn(B.sym(('in', i), 8)) for i in range(start, j + 1)], 32))
        c = v.const()
        return add(j + 1, c if c is not None else v)
    return None

def handler_calls(r):
    """calls of a decoder taken from the handler table or registry"""
    return [e for e in r.trace if e.kind == 'call' and e.extra and e.extra.get('indirect') is not None and any(pos_of(a) is not None for a in e.args)]
def property_writes(r):
    return [e for e in r.trace if e.kind == 'call' and (e.q in ('QMetaProperty::write', 'QObject::setProperty', 'QMetaProperty::reset', 'QMetaProperty::writeOnGadget'))]

def skip_function(ctx, P, pid):
    f = P.fn(SER + '::skipSerializedFieldBytes'); ctx.analysed(f)
    loc = dict(file=f['file'], line=f['line'], fn=f['q'])
    for t in range(8):
        cfg = bit_cfg(P)
        def mk(I): return [('lref', bit_iter(I, P)), t]
        n = 0
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            I = r.I; ctx.count('skip_paths')
            if isinstance(r.exc, LoopLimit): continue
            if t not in NAMES:
                ctx.check(isinstance(r.exc, CppThrow), 'skip-type:%d' % t, 'a field of wire type %d, whose length is unknown, is skipped without an error' % t, path=pathdesc(r.choices), **loc); continue
            if isinstance(r.exc, CppThrow):
                # only a length that does not fit may be refused
                j = run_of(I, 0)
                over = t in (0, 2) and j is None or t in (0, 2) and j is not None and j >= 10 or t == 2
                ctx.check(over, 'skip-throws:%d' % t, 'skipping a well-formed %s field fails' % NAMES[t], path=pathdesc(r.choices), **loc); continue
            n += 1
            off = pos_of(I.read_noevent(ITLOC)); exp = expected_end(I, 0, t)
            ok = exp is not None and nlin(I, add(off, exp, -1)) == 0
            ctx.check(ok, 'skip-length:%d' % t, 'skipping a %s field moves the position to %s instead of %s' % (NAMES[t], off, exp), path=pathdesc(r.choices), **loc)
        if t in NAMES: ctx.check(n > 0, 'skip-none:%d' % t, 'no %s field can be skipped' % NAMES[t], **loc)

def property_paths(ctx, P):
    f = P.fn(SER + '::deserializeProperty'); ctx.analysed(f)
    cfg = bit_cfg(P)
    def mk(I):
        loc = bit_iter(I, P)
        return arg_values(I, P, f, loc)
    out = []
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        I = r.I
        if isinstance(r.exc, LoopLimit): continue
        k = run_of(I, 0)
        if k is None: k = 12
        ctx.count('key_paths')
        bs = [I.bn(B.sym(('in', i), 8)) for i in range(k + 1)]
        v = I.bn(varint_value(bs, 32))
        ts = [t for t in range(8) if may_eq(I, BV(v.bits[:3]), t)]
        num = BV(v.bits[3:])
        zero = may_eq(I, num, 0)
        known = None
        for c in r.choices:
            if 'contains' in repr(c[0]): known = (c[1] == 1)
        # the lookup is recorded as a fact on the term ('contains', map, key)
        out.append((r, k + 1, ts, zero, num))
    return f, out

def lookup_status(I):
    st = None
    for l in I.facts.ge:
        for s, kk in l.m.items():
            if isinstance(s, tuple) and s and s[0] == 'contains':
                e = I.facts.eq_status(s)
                if e is not None: st = (not e, s)
    for l in I.facts.ne:
        for s in to_lin(l).m:
            if isinstance(s, tuple) and s and s[0] == 'contains' and I.facts.eq_status(s) is False: st = (True, s)
    return st

def orderings(I):
    """(known?, key) for lookups in the field table of the message"""
    out = []
    syms = set()
    for l in list(I.facts.ge) + list(I.facts.ne): syms |= set(to_lin(l).m)
    for s in syms:
        if isinstance(s, tuple) and s and s[0] == 'contains' and 'propertyOrdering' in repr(s[1]):
            e = I.facts.eq_status(s)
            if e is not None: out.append((not e, s[2]))
    return out

def c05(ctx):
    ctx.rule('Bit-level dataflow over the field-skipping code: for every wire type and every path the position after skipping must equal the position the wire format assigns (terms compared exactly, symbolic length included), no property may be written and no handler called; undefined wire types must throw.')
    ctx.rule('Map entries: on every path of the entry loop a field other than 1 and 2 must be skipped with its own wire type and nothing else.')
    ctx.assume('input long enough for the fields on the path (short input: C01)')
    P = load()
    with ctx.guard('skipSerializedFieldBytes'): skip_function(ctx, P, 'C05')
    f, paths = property_paths(ctx, P)
    loc = dict(file=f['file'], line=f['line'], fn=f['q'])
    seen = set()
    for r, k, ts, zero, num in paths:
        I = r.I
        if r.exc: continue
        st = orderings(I)
        unk = [x for x in st if not x[0]]
        if not unk:
            if not st and not handler_calls(r): ctx.check(False, 'lookup', 'a field is consumed without looking its number up in the field table', path=pathdesc(r.choices), **loc)
            continue
        ctx.count('unknown_field_paths')
        off = pos_of(I.read_noevent(ITLOC))
        for t in ts:
            if t not in NAMES: continue
            exp = expected_end(I, k, t)
            ok = exp is not None and off is not None and nlin(I, add(off, exp, -1)) == 0
            ctx.check(ok, 'unknown-length:%d' % t, 'an unknown %s field with a %d-byte key leaves the position at %s instead of %s' % (NAMES[t], k, off, exp), path=pathdesc(r.choices), **loc)
            seen.add((t, k))
        ctx.check(not property_writes(r) and not handler_calls(r), 'unknown-write', 'an unknown field writes a property', path=pathdesc(r.choices), **loc)
        for known, key in unk:
            kk = I.bn(key)
            if isinstance(kk, BV): ctx.check(B.ext(kk, 32, False) == B.ext(I.bn(num), 32, False), 'unknown-key', 'the number looked up is not the field number of the key', path=pathdesc(r.choices), **loc)
    ctx.check({t for t, k in seen} >= set(NAMES), 'unknown-cover', 'unknown fields of wire type %s are never skipped' % sorted(set(NAMES) - {t for t, k in seen}), **loc)
    ctx.check({k for t, k in seen} >= {1, 2, 5}, 'unknown-keys', 'unknown fields are skipped only for key lengths %s' % sorted({k for t, k in seen}), **loc)
    with ctx.guard('deserializeMapPair'): map_entry(ctx, P, 'C05')
    ctx.floor('unknown_field_paths', 20); ctx.floor('skip_paths', 10)

def header_events(r): return [e for e in r.trace if e.kind == 'call' and e.q.endswith('::decodeHeader')]

def map_entry(ctx, P, pid):
    f = P.fn(SER + '::deserializeMapPair'); ctx.analysed(f)
    loc = dict(file=f['file'], line=f['line'], fn=f['q'])
    H = SER + '::decodeHeader'; S = SER + '::skipSerializedFieldBytes'; V = SER + '::deserializeVarintCommon'
    def outv(I, q, i, l, old, n=None):
        if pos_of(old) is not None: return at(I, fresh_pos(I, pos_of(old)))
        return None
    cfg = Config(P, opaque={H, S, V}, loop_max=3, out_value=outv)
    def mk(I):
        loc = generic_iter(I, P)
        vals = arg_values(I, P, f, loc)
        return vals
    rs = run_fn(P, cfg, f, mk, ctx.stats)
    n = 0
    pn = [p['n'] for p in f['params'] if not is_iter_param(p)]
    if len(pn) != 2: raise AnalysisError('parameters of deserializeMapPair not recognised')
    kloc, vloc = (('v', 'in', pn[0]), ()), (('v', 'in', pn[1]), ())
    for r in rs:
        I = r.I; ctx.count('map_paths')
        ev = [e for e in r.trace if e.kind == 'call' and (e.q in (H, S) or e in handler_calls(r))]
        # split into iterations: each starts with a field key
        its = []; cur = None
        for e in ev:
            if e.q == H: cur = [e]; its.append(cur)
            elif cur is not None: cur.append(e)
        for x in its:
            h = x[0]
            okst = I.status(h.res)
            last = x is its[-1]
            if okst is False:
                if pid == 'C06': ctx.check(last and isinstance(r.exc, CppThrow), 'map-header', 'an invalid field key inside a map entry is not reported', file=h.file, line=h.line, fn=h.fn, path=pathdesc(r.choices))
                continue
            if okst is None:
                if last and r.exc: continue
                if pid == 'C06': ctx.check(False, 'map-header-unchecked', 'the validity of a field key inside a map entry is not checked', file=h.file, line=h.line, fn=h.fn, path=pathdesc(r.choices))
                # fall through: treated as valid
            if last and r.exc: continue
            num = out_of(I, h, 1); typ = out_of(I, h, 2)
            if num is None: raise AnalysisError('outputs of decodeHeader not found')
            is1 = I.facts.eq_status(add(num, -1)); is2 = I.facts.eq_status(add(num, -2))
            rest = x[1:]
            hs = [e for e in rest if e.q != S]; sk = [e for e in rest if e.q == S]
            if is1 is True or is2 is True:
                tgt = kloc if is1 else vloc
                ok = len(hs) == 1 and not sk and any(isinstance(a, tuple) and a and a[0] == 'lref' and a[1] == tgt for a in hs[0].extra['locs'])
                if pid == 'C09': ctx.check(ok, 'map-slot:%d' % (1 if is1 else 2), 'field %d of a map entry is not decoded into the %s' % (1 if is1 else 2, 'key' if is1 else 'value'), file=h.file, line=h.line, fn=h.fn, path=pathdesc(r.choices))
                n += 1
            elif is1 is False and is2 is False:
                ok = len(sk) == 1 and not hs and sk[0].args[1] == typ
                if pid == 'C05': ctx.check(ok, 'map-unknown', 'an unknown field of a map entry is not skipped with its own wire type', file=h.file, line=h.line, fn=h.fn, path=pathdesc(r.choices))
                n += 1
            else:
                if pid == 'C05': ctx.check(False, 'map-number', 'the decoder chosen for a field of a map entry does not depend on its number', file=h.file, line=h.line, fn=h.fn, path=pathdesc(r.choices))
    if n == 0: raise AnalysisError('no field of a map entry recognised')

def out_of(I, h, i):
    """value the opaque call h wrote through its i-th argument (found in the outputs created by it)"""
    return h.extra.get('outs', {}).get(i)

def c06(ctx):
    ctx.rule('Bit-level dataflow: on every path of the field decoder that returns normally the key bits must exclude field number 0 and undefined wire types, for every key length.')
    ctx.rule('Exception-flow: every path of every decoding function (and of the public decode calls) on which a callee throws must itself end in an exception; the message loop must end with the whole buffer consumed.')
    P = load()
    f, paths = property_paths(ctx, P)
    loc = dict(file=f['file'], line=f['line'], fn=f['q'])
    acc = set()
    for r, k, ts, zero, num in paths:
        if isinstance(r.exc, CppThrow):
            if r.exc.t not in ('std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::runtime_error'): ctx.count('other_exceptions')
            ctx.count('obligations'); ctx.count('discharged'); continue
        bad = [t for t in ts if t not in NAMES]
        ctx.check(not bad, 'accept-type', 'a field key with wire type %s is accepted' % bad, path=pathdesc(r.choices), **loc)
        ctx.check(not zero or num_nonzero(r.I, num), 'accept-zero', 'a field key with field number 0 is accepted', path=pathdesc(r.choices), **loc)
        ctx.check(k <= 10, 'accept-overlong', 'a field key of more than 10 bytes is accepted', path=pathdesc(r.choices), **loc)
    with ctx.guard('deserializeMapPair'): map_entry(ctx, P, 'C06')
    # exception flow through all decoding functions
    mod = Modular(P, ctx.stats)
    EX = ('std::out_of_range', 'std::invalid_argument')
    class AnyThrow(dict):
        def get(self, q, d=None): return EX if q in self.names or q in ('*', 'std::function()') else None
    at_ = AnyThrow(); at_.names = {g['q'] for g in mod.fs} | {o for g in mod.fs for o in [g['q'].replace('QProtobufSerializer::', 'QAbstractProtobufSerializer::')]}
    pub = [g for g in P.fns('QtProtobuf::QAbstractProtobufSerializer::deserialize')] + [g for g in P.functions.values() if g['q'].endswith('witness::Msg::deserialize')]
    if len(pub) < 2: raise prog.Broken('public decode calls not instantiated')
    for g in mod.fs + pub:
        ctx.analysed(g)
        cfg = mod.cfg(g, maythrow=at_)
        if g in pub: rs = run_fn(P, cfg, g, lambda I: arg_values(I, P, g, None), ctx.stats)
        else: rs = run_decode(P, cfg, g, ctx.stats)
        nm = fname(g)
        for r in rs:
            ctx.count('paths')
            thr = [e for e in r.trace if e.kind == 'throw' or isinstance(e.res, tuple) and e.res and e.res[0] == 'throws']
            thr = [e for e in thr if not e.log]
            if thr:
                e = thr[0]; ctx.count('throwing_paths')
                ctx.check(isinstance(r.exc, CppThrow), 'swallowed:' + nm, 'an exception raised by %s is swallowed' % (e.q,), file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
            elif g['q'].endswith('QProtobufSerializer::deserializeMessage') and not r.exc:
                its = [pos_of(v) for v in r.I.store.values() if pos_of(v) is not None]
                loc = dict(file=g['file'], line=g['line'], fn=g['q'])
                ctx.check(any(r.I.facts.eq_status(add(o, SZ, -1)) is True for o in its), 'leftover', 'decoding a message can return normally before the whole buffer has been consumed', path=pathdesc(r.choices), **loc)
    ctx.floor('throwing_paths', 40); ctx.floor('key_paths', 20)

def num_nonzero(I, num):
    num = I.bn(num)
    return any(b == B.ONE for b in num.bits) or any(nzbits(I, z) <= set(num.bits) for z in I.bnz)
