"""gRPC client, reply, stream and channel rules (C18-C26, C30)."""
import os
from .. import prog, models
from ..lin import add, mul, to_lin
from ..models import V, L, strip_t, ptr_of
from .objects import *

WITG = os.path.join(prog.VERIF, 'witness', 'grpc.cpp')
BASE = ['qabstractgrpcclient.cpp', 'qgrpcstream.cpp', 'qgrpccallreply.cpp', 'qgrpcasyncoperationbase.cpp', 'qabstractgrpcchannel.cpp']
NS = 'QtProtobuf::'
CLIENT = NS + 'QAbstractGrpcClient'
CHAN = NS + 'QAbstractGrpcChannel'
STATUS = NS + 'QGrpcStatus'
REPLY = NS + 'QGrpcCallReply'
STREAM = NS + 'QGrpcStream'
OPBASE = NS + 'QGrpcAsyncOperationBase'
SERQ = NS + 'QAbstractProtobufSerializer'
def src(*names): return ['src/grpc/' + n for n in names]
def gload(*more): return prog.load([WITG] + src(*BASE) + src(*more), roots=[os.path.join(prog.VERIF, 'witness')])

# ------------------------------------------------------------------ statuses
def stcode(v):
    if isinstance(v, tuple) and v[:2] == ('ctor', STATUS): return v[2] if len(v) > 2 else 0
    return ('stcode', v)
def stmsg(v):
    if isinstance(v, tuple) and v[:2] == ('ctor', STATUS): return v[3] if len(v) > 3 else ('cat', ())
    return ('stmsg', v)
def norm_status(v):
    """a status rebuilt from code and message of another one is that one"""
    if isinstance(v, tuple) and v[:2] == ('ctor', STATUS) and len(v) > 3 and isinstance(v[2], tuple) and v[2][:1] == ('stcode',) and v[3] == ('stmsg', v[2][1]): return v[2][1]
    return v
def is_code(t): return 'StatusCode' in t
def m_code(I, n, ob, args):
    t = stcode(norm_status(I.readv(ob)))
    if isinstance(t, tuple) and t[:1] == ('stcode',): I.facts.set_range(t, 0, (1 << 31) - 1)
    return t
def m_msg(I, n, ob, args): return stmsg(norm_status(I.readv(ob)))
def m_steq(I, n, ob, args):
    vals = ([(I.readv(ob), STATUS)] if ob is not None else []) + [(V(I, a), t) for a, t in zip(args, n['pt'])]
    if not any(cls_of_type(t) == STATUS for _, t in vals) or len(vals) != 2: return models.find(n)(I, n, ob, args) if models.find(n) else NotImplemented
    c = [v if is_code(t) else stcode(norm_status(v)) for v, t in vals]
    r = I.mk_eq(c[0], c[1])
    return r if n['q'].endswith('==') else I.neg(r)
def m_lock(I, n, ob, args):
    v = I.readv(ob)
    if I.status(v) is False: return 0
    dead = I.user.setdefault('dead', {})
    if v not in dead: dead[v] = I.choose(2, ('expired', v)) == 0
    return 0 if dead[v] else v
def m_mapat(I, n, ob, args):
    v = I.read_noevent(ob); k = V(I, args[0])
    if not isinstance(v, Struct) or v.base is not None:
        if ob[0][0] == 'g':
            t = ('mapped', ob[0][1], k); I.facts.set_range(t, 1, 16); return t     # totality and non-OK values: C22
    return models.map_at(I, n, ob, args)
def gcfg(P, **kw):
    cfg = Config(P, **kw)
    m = {STATUS + '::code': m_code, STATUS + '::message': m_msg, STATUS + '::operator==': m_steq, STATUS + '::operator!=': m_steq,
         'operator==': m_steq, 'operator!=': m_steq, 'std::weak_ptr::lock': m_lock, 'std::unordered_map::at': m_mapat}
    for k, v in m.items(): cfg.models.setdefault(k, v)
    cfg.opaque |= {CHAN + '::thread', CHAN + '::serializer'}
    des = (SERQ + '::deserialize', SERQ + '::serialize', SERQ + '::deserializeObject')
    cfg.opaque |= set(des)
    cfg.maythrow.setdefault(SERQ + '::deserialize', ('std::invalid_argument', 'std::out_of_range', 'std::runtime_error', '?any'))
    return cfg
def charglobals(I, P):
    """string constants of the program text"""
    for q, g in P.globals.items():
        i = g.get('init')
        while isinstance(i, dict) and i.get('k') == 'cast': i = i.get('e')
        if isinstance(i, dict) and i.get('k') == 'str': I.store.setdefault(('g', q), ('s', i['v']))

THIS = ('addr', (('this',), ()))
def dptr(I): 
    return I.readv((('this',), ('dPtr',)))
def private_fields(P, cls, pred):
    r = P.records.get(cls + 'Private')
    return [x for x in (r['fields'] if r else []) if pred(x['t'])]
def active_field(P):
    fl = private_fields(P, CLIENT, lambda t: cls_of_type(t) in models.SEQ and ('QGrpcStream' in t))
    if len(fl) != 1: raise AnalysisError('list of active streams not recognised')
    return fl[0]['n']
def active_loc(P): return (('deref', ('fld', ('this',), 'dPtr')), (active_field(P),))
def seed_active(I, P, counts=(0, 1, 2)):
    """an arbitrary list of active streams: distinct, not null (C24 keeps it so)"""
    if 'nactive' not in I.user:
        k = counts[I.choose(len(counts), ('active streams',))]
        I.user['nactive'] = k
        xs = [('stream', i) for i in range(k)]
        for x in xs: I.facts.add_ne(to_lin(x))
        for i in range(k):
            for j in range(i): I.facts.add_ne(add(xs[i], xs[j], -1))
        I.rawwrite(active_loc(P), ('cat', tuple(('e', x) for x in xs)))
    return I.user['nactive']
def gargs(f, active=None):
    def mk(I):
        I.facts.add_ne(to_lin(('fld', ('this',), 'dPtr')))
        if active: seed_active(I, I.prog, active)
        charglobals(I, I.prog)
        I.user['noginit'] = True
        return arg_values(I, I.prog, f, None)
    return mk
def sigs(r, q, start=0): return [e for e in r.trace[start:] if e.kind == 'call' and e.q == q and not e.log]
def code_is(I, v, c=0): return I.status(I.mk_eq(stcode(norm_status(v)), c))
def same_status(I, a, b):
    a, b = norm_status(a), norm_status(b)
    return a == b or I.status(I.mk_eq(stcode(a), stcode(b))) is True and stmsg(a) == stmsg(b)

# ------------------------------------------------------------------ driving slots
def fire(I, fn, ctx, args):
    """run what a signal was connected to; returns the exception that escapes, if any"""
    n = fn.node if isinstance(fn, Closure) else {'q': 'slot', 'l': 0, 'k': 'call', 'pt': [], 'args': []}
    try:
        if isinstance(fn, Closure): I.call_closure(fn, [], n, argvals=list(args))
        elif isinstance(fn, tuple) and fn[:1] == ('fnref',):
            f = I.prog.lookup(fn[1], I.frame()['tu'])
            this = ctx if isinstance(ctx, tuple) and ctx[:1] == ('addr',) else ('addr', (('deref', ctx), ()))
            if f and I.inlinable(f) and f.get('body') is not None: models.run_with_values(I, f, list(args)[:len(f['params'])], this)
            else: I.emit('call', fn[2], obj=this[1] if this is ctx else ctx, args=tuple(args), node=n, extra={'objv': None, 'locs': [], 'indirect': fn})
        else: raise AnalysisError('a signal is connected to something unknown: %r' % (fn,))
    except CppThrow as e: return e
    return None
def obj_ptr(o):
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple) and isinstance(o[0], tuple): o = ptr_of(o)
    if isinstance(o, tuple) and o and o[0] == 'addr' and o[1][0][:1] == ('deref',) and not o[1][1]: return o[1][0][1]
    return o
def calls(I, q, start=0, obj=None): return [e for e in I.trace[start:] if e.kind == 'call' and not e.log and e.q in ((q,) if isinstance(q, str) else q) and (obj is None or same_obj(I, e.obj, obj))]
def same_obj(I, a, b):
    a, b = obj_ptr(a), obj_ptr(b)
    return a == b or I.status(I.mk_eq(a, b)) is True
def connects(I, sender, q, start=0): return [e for e in I.trace[start:] if e.kind == 'connect' and e.q == q and same_obj(I, e.obj, sender)]
def null_deref(ctx, I, key, start=0, allow=()):
    """no pointer known to be null, and no pointer that may be null for all the path knows, is used"""
    for e in I.trace[start:]:
        if e.kind == 'deref' and not e.log and e.q in ('null', 'maybe-null', 'end', 'maybe-end') and not any(mentions(e.obj, a) for a in allow):
            ctx.check(False, key + ':null', 'a pointer that may be null is used (%s)' % str(e.obj)[:90], file=e.file, line=e.line, fn=e.fn, path=pathdesc(I.choices))
def wit(P, name):
    fs = [f for f in P.functions.values() if f['q'] == 'witness::' + name and f.get('body')]
    if len(fs) != 1: raise AnalysisError('witness ' + name + ' not found')
    return fs[0]
ERR = CLIENT + '::error'
OKQ, OEQ = OPBASE + '::finished', OPBASE + '::error'
DESQ = SERQ + '::deserialize'
def threw(e): return isinstance(e.res, tuple) and e.res[:1] == ('throws',)
def nonok(I, v): return code_is(I, v) is False
def force(I, c):
    """decide a condition on this path (forks)"""
    return I.truth(c)

# ------------------------------------------------------------------ C18
def c18(ctx):
    ctx.rule('Status dataflow over every path of the client templates (instantiated for a witness message), of both channels and of the handlers they connect: OK comes only from a channel that reported OK followed by a decode that did not throw; every other status, missing channel or serializer, null target or exception ends in the error signal with a status that cannot be OK; a status received from the channel, the server or the transport is returned and signalled as it is; no exception of the decoder escapes.')
    ctx.assume('a serialization does not fail (C08); transport errors map to non-OK (C22)')
    P = gload()
    with ctx.guard('client sync call'): c18_sync(ctx, P)
    for w in ('asyncCall', 'plainStream', 'boundStream'):
        with ctx.guard(w): c18_async(ctx, P, w)
    for w in ('readReply', 'readStream'):
        with ctx.guard(w): c18_read(ctx, P, w)
    with ctx.guard('status class'): c18_status(ctx)
    with ctx.guard('http2 channel'): c18_http2(ctx)
    with ctx.guard('native channel'): c18_native(ctx)
    ctx.floor('client_operations', 4)

def c18_sync(ctx, P):
    f = wit(P, 'Client::syncCall'); ctx.count('client_operations'); ctx.analysed(f)
    src = [x for x in P.functions.values() if x['q'] == CLIENT + '::call' and x.get('body')]
    for x in src: ctx.analysed(x)
    L_ = loc_of(src[0]) if src else loc_of(f)
    def post(I, r):
        v = norm_status(I.val(r)); K = dict(path=pathdesc(I.choices), **L_)
        ch = [e for e in calls(I, CHAN + '::call')]; err = calls(I, ERR, obj=THIS); des = calls(I, DESQ)
        S = ch[-1].res if ch else None
        if S is not None: force(I, I.mk_eq(stcode(S), 0))
        ok = force(I, I.mk_eq(stcode(v), 0))
        K = dict(path=pathdesc(I.choices), **L_)
        if ok:
            ctx.check(S is not None and code_is(I, S) is True, 'sync:ok', 'a call returns OK although no channel reported OK', **K)
            out = [e for e in des if not threw(e)]
            data = [x for x in (ch[-1].extra or {}).get('locs', [])] if ch else []
            good = out and not any(threw(e) for e in des)
            ctx.check(bool(good), 'sync:undecoded', 'a call returns OK although the response was not decoded', **K)
            if good and ch:
                ctx.check(len(out[-1].args) == 2 and mentions(out[-1].args[1], CHAN + '::call') and mentions(out[-1].args[0], ('arg', 'r')), 'sync:data', 'what is decoded into the result is not the data the channel returned', **K)
            ctx.check(not err, 'sync:ok-error', 'a successful call emits an error', **K)
        else:
            ctx.check(any(nonok(I, e.args[0]) and I.status(I.mk_eq(stcode(norm_status(e.args[0])), stcode(v))) is True for e in err), 'sync:silent', 'a failed call does not emit the error signal with its status', **K)
            if S is not None and code_is(I, S) is False:
                ctx.check(same_status(I, v, S), 'sync:changed', 'the status the channel reported is not the one returned', **K)
                ctx.check(any(same_status(I, e.args[0], S) for e in err), 'sync:signal', 'the status the channel reported is not the one signalled', **K)
        null_deref(ctx, I, 'sync')
        return r
    rs = run_fn(P, gcfg(P), f, gargs(f, (0, 1, 2)), ctx.stats, post=post)
    for r in rs:
        ctx.count('paths')
        if r.exc: ctx.check(False, 'sync:throws', 'an exception leaves the call: %s' % r.exc.t, path=pathdesc(r.choices), **L_)
    ctx.floor('paths', 8)

def stream_handlers(I, P, ptr):
    """functions listed in the handler container of a stream object"""
    fl = [x['n'] for x in P.records[STREAM]['fields'] if 'function' in x['t'] or 'StreamHandler' in x['t']]
    if len(fl) != 1: raise AnalysisError('handlers of a stream not recognised')
    v = I.readv((ptr[1][0], ptr[1][1] + (fl[0],)))
    if not (isinstance(v, tuple) and v[:1] == ('cat',)): raise AnalysisError('handlers of a stream not recognised: %r' % (v,))
    return [p[1] for p in v[1] if p[0] == 'e'], v

def c18_async(ctx, P, w):
    f = wit(P, 'Client::' + w); ctx.count('client_operations'); ctx.analysed(f)
    strm = 'Stream' in w
    src = [x for x in P.functions.values() if x['q'] == CLIENT + ('::stream' if strm else '::call') and x.get('body')]
    for x in src: ctx.analysed(x)
    L_ = loc_of(src[0]); q = CHAN + ('::stream' if strm else '::call')
    def post(I, r):
        v = I.val(r); K = dict(path=pathdesc(I.choices), **L_)
        err = calls(I, ERR, obj=THIS); ch = calls(I, q)
        null_deref(ctx, I, w); dangling(ctx, I, w)
        if I.status(v) is False or v == 0:
            ctx.check(any(nonok(I, e.args[0]) for e in err), w + ':silent', 'no handle is returned and no error is signalled', **K)
            return r
        if not (isinstance(v, tuple) and v[0] == 'addr' and v[1][0][0] == 'heap'): return r          # an active stream, connected when it was started
        ctx.check(not err, w + ':ok-error', 'an operation that was started signals an error', **K)
        mine = [e for e in ch if any(a == v for a in e.args)]
        if not ctx.check(bool(mine), w + ':notsent', 'a handle is returned but nothing is handed to the channel', **K): return r
        con = connects(I, v, OEQ)
        ctx.check(bool(con) and I.trace.index(con[0]) < I.trace.index(mine[0]), w + ':unconnected', 'the error signal of the operation is not connected when it is handed to the channel', **K)
        st = ('sigma',); I.facts.add_ne(to_lin(stcode(st)))
        k = len(I.trace)
        for e in con:
            x = fire(I, e.args[1], e.args[0], [st])
            ctx.check(x is None, w + ':handler-throws', 'an exception leaves the error handler', **K)
        if con: ctx.check(any(same_status(I, e.args[0], st) for e in calls(I, ERR, k, THIS)), w + ':lost', 'the error of the operation is not passed on by the error signal of the client', **K)
        if w == 'boundStream':
            hs, _ = stream_handlers(I, P, v)
            hs = [h for h in hs if isinstance(h, Closure)]
            if not ctx.check(len(hs) == 1, w + ':handler', 'the stream gets no handler decoding into the bound object', **K): return r
            k = len(I.trace); D = ('message',)
            I.user.pop('qp', None); gone = I.choose(2, ('the bound object was deleted',)) == 1
            if gone: kill_arg(I, hs[0], 'r')
            x = fire(I, hs[0], None, [D])
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(x is None, w + ':handler-throws', 'an exception leaves the handler of the stream', **K)
            des = calls(I, DESQ, k); er = calls(I, ERR, k, THIS)
            done = any(not threw(e) and mentions(e.args[1], D) and mentions(e.args[0], ('arg', 'r')) for e in des) and not any(threw(e) for e in des)
            ctx.check(done or any(nonok(I, e.args[0]) for e in er), w + ':update-lost', 'a stream update that is not decoded is not reported by the error signal', **K)
            ctx.check(not (done and er), w + ':update-error', 'a decoded update is reported as an error', **K)
            null_deref(ctx, I, w + ':update', k)
        return r
    for r in run_fn(P, gcfg(P), f, gargs(f, (0, 1, 2)), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, w + ':throws', 'an exception leaves the operation', path=pathdesc(r.choices), **L_)

def kill_arg(I, cl, name):
    """the object a captured guarded pointer refers to is gone"""
    for k, (kind, v) in list(cl.env.items()):
        if kind != 'ref' and v == ('arg', name): I.store[('cap', cl.uid, k[1])] = 0

def c18_read(ctx, P, w):
    f = wit(P, w); ctx.analysed(f)
    def mk(I): return [('addr', (('this',), ()))]
    def post(I, r):
        K = dict(path=pathdesc(I.choices), **loc_of(f))
        par = ('parent', THIS)
        err = calls(I, ERR); des = calls(I, DESQ)
        done = any(not threw(e) for e in des) and not any(threw(e) for e in des)
        if I.status(I.mk_eq(par, 0)) is True: return r
        ctx.check(done or any(nonok(I, e.args[0]) and same_obj(I, e.obj, par) for e in err), w + ':lost', 'a response that is not decoded is not reported by the error signal of the client', **K)
        return r
    for r in run_fn(P, gcfg(P), f, mk, ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, w + ':throws', 'an exception leaves read()', path=pathdesc(r.choices), **loc_of(f))

def c18_status(ctx):
    """the status class keeps code and message through construction, copies, moves and comparisons, as the models above assume"""
    P = prog.load([os.path.join(prog.VERIF, 'witness', 'status.cpp')] + src('qgrpcstatus.cpp'), roots=[os.path.join(prog.VERIF, 'witness')])
    for x in P.functions.values():
        if x['q'].startswith(STATUS + '::') and x.get('body'): ctx.analysed(x)
    ln = [x for x in P.functions.values() if x['q'] == STATUS + '::code']
    L_ = loc_of(ln[0]) if ln else {}
    c, m, d = ('arg', 'c'), ('arg', 'm'), ('arg', 'd')
    for f in [x for x in P.functions.values() if x['q'].startswith('witness::') and x.get('body')]:
        w = f['q'].split('::')[-1]
        with ctx.guard('status ' + w):
            def mk(I, f=f):
                for x in (c, d): I.facts.set_range(x, 0, 16)
                return arg_values(I, P, f, None)
            for r in run_fn(P, Config(P), f, mk, ctx.stats):
                ctx.count('paths'); I = r.I; K = dict(path=pathdesc(r.choices), **L_)
                if not ctx.check(r.exc is None, 'status:%s:throws' % w, 'a status operation throws', **K): continue
                v = I.val(r.ret)
                for e in r.trace:
                    if e.kind == 'deref' and not e.log: ctx.check(False, 'status:%s:null' % w, 'a status uses a missing private part', file=e.file, line=e.line, fn=e.fn, path=K['path'])
                if w == 'defaultCode': ok = v == 0
                elif w.endswith('Msg'): ok = unwrap(v) == unwrap(m)
                elif w.endswith('Code') and not w.startswith(('eq', 'ne')): ok = I.status(I.mk_eq(v, c)) is True
                else:
                    eq = I.mk_eq(c, d); t = force_known(I, v); e = I.status(eq)
                    ok = t is not None and e is not None and (t == e) == w.startswith('eq') or polar(I, v, eq, w.startswith('eq'))
                ctx.check(ok, 'status:' + w, 'a status does not keep what it was made from: %s gives %s' % (w, str(v)[:80]), **K)
def force_known(I, v): return I.status(v)
def polar(I, v, eq, pos): return I.bn(v) == I.bn(eq if pos else I.neg(eq))

# ------------------------------------------------------------------ HTTP/2 channel
H2 = NS + 'QGrpcHttp2Channel'
NR = 'QNetworkReply'
def hname(v):
    while isinstance(v, tuple) and v:
        if v[0] == 's': return v[1]
        if v[0] == 'cat' and len(v[1]) == 1: v = v[1][0]
        elif v[0] == 'raw': v = v[1]
        elif v[0] == 'ctor' and len(v) > 2: v = v[2]
        else: return None
    return None
def m_nerr(I, n, ob, args):
    t = ('nerr', ptr_of(ob)); I.facts.set_range(t, 0, 9999); return t
def m_hdr(I, n, ob, args):
    h = hname(V(I, args[0]))
    return ('hdr', ptr_of(ob), h) if h is not None else NotImplemented
def m_toint(I, n, ob, args):
    v = I.readv(ob)
    if isinstance(v, tuple) and v[:1] == ('hdr',) and len(args) < 2 or V(I, args[-1]) == 10:
        t = ('hdrint', v); I.facts.set_range(t, 0, (1 << 31) - 1); return t
    return NotImplemented
def m_nmpost(I, n, ob, args):
    I.uid += 1; t = ('reply', I.uid); I.facts.add_ne(to_lin(t))
    I.emit('call', n['q'], obj=ob, args=tuple(V(I, a) for a in args), res=t, node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    return t
def m_readall(I, n, ob, args):
    p = ptr_of(ob); k = I.user.setdefault('nread', {}); k[p] = k.get(p, 0) + 1
    I.emit('call', n['q'], obj=ob, args=(), res=('rx', p, k[p]), node=n)
    return ('rx', p, k[p])
def m_mid(I, n, ob, args):
    v = I.readv(ob); a = [V(I, x) for x in args]
    return ('mid', v, a[0], a[1] if len(a) > 1 else -1)
def m_utf8(I, n, ob, args):
    v = V(I, args[0])
    if isinstance(v, tuple) and v[:1] == ('hdr',): return ('utf8', v)
    return NotImplemented
def hcfg(P, **kw):
    cfg = gcfg(P, **kw)
    m = {'QNetworkReply::error': m_nerr, 'QNetworkReply::rawHeader': m_hdr, 'QByteArray::toInt': m_toint, 'QByteArray::toUInt': m_toint, 'QNetworkAccessManager::post': m_nmpost,
         'QIODevice::readAll': m_readall, 'QByteArray::mid': m_mid, 'QString::fromUtf8': m_utf8}
    for k, v in m.items(): cfg.models.setdefault(k, v)
    cfg.sizes = (1,)
    return cfg
def hargs(f, extra=None):
    base = gargs(f)
    def mk(I):
        d = ('fld', ('this',), 'dPtr')
        a = base(I)
        for x in a:
            if isinstance(x, tuple) and x[:1] == ('arg',) : pass
        for p, x in zip(f['params'], a):
            if strip_t(p['t']).endswith('*'): I.facts.add_ne(to_lin(I.val(x)))
        for fl in private_fields(I.prog, H2, lambda t: cls_of_type(t) in models.SMART): I.facts.add_ne(to_lin(('fld', ('init', ('deref', d)), fl['n'])))
        if extra: extra(I)
        return a
    return mk
def h2fn(P, name, last):
    fs = [f for f in P.functions.values() if f['q'] == H2 + '::' + name and f.get('body') and (last is None or last in f['params'][-1]['t'])]
    if len(fs) != 1: raise AnalysisError('%s::%s not found' % (H2, name))
    return fs[0]
def hload(): return gload('qgrpchttp2channel.cpp')
def http_outcome(I, R):
    """forks on what the transport and the server report; -> (transport error?, code term)"""
    e = ('nerr', R); I.facts.set_range(e, 0, 9999)
    if not I.truth(I.mk_eq(e, 0)): return True, None
    h = ('hdrint', ('hdr', R, 'grpc-status')); I.facts.set_range(h, 0, (1 << 31) - 1)
    return False, h
def mapped_of(I, code, R):
    """the code is what the error table gives for the transport error of this reply"""
    return isinstance(code, tuple) and code[:1] == ('mapped',) and (code[2] == ('nerr', R) or I.status(I.mk_eq(code[2], ('nerr', R))) is True)
def msg_of(I, m, R, ctx, key, K):
    """the message the server sent, decoded as UTF-8 and nothing else"""
    h = ('hdr', R, 'grpc-message')
    while isinstance(m, tuple) and m[:2] == ('ctor', 'QString') and len(m) == 3: m = m[2]
    if m == ('utf8', h) or m == h: return ctx.check(True, key, '')
    if not mentions(m, h): return ctx.check(False, key, 'the message of the server is not passed on (%s)' % str(m)[:80], **K)
    if any(mentions(m, 'QString::' + x) or mentions(m, 'QByteArray::' + x) for x in ('fromLatin1', 'fromLocal8Bit', 'fromAscii', 'trimmed', 'simplified', 'left', 'toLower', 'toUpper', 'chopped', 'right')) or mentions(m, 'mid'):
        return ctx.check(False, key, 'the message of the server is changed on its way (%s)' % str(m)[:80], **K)
    raise AnalysisError('message of the server: %r' % (m,))
def payload(v, R):
    """the received bytes without the 5-byte message prefix"""
    v = unwrap(v)
    if isinstance(v, tuple) and v[:1] == ('cat',) and len(v[1]) == 1: v = v[1][0]
    return isinstance(v, tuple) and v[:1] == ('mid',) and isinstance(v[1], tuple) and v[1][:2] == ('rx', R) and v[2] == 5 and v[3] == -1
def the_reply(I):
    p = calls(I, 'QNetworkAccessManager::post')
    if len(p) != 1: raise AnalysisError('%d requests posted' % len(p))
    return p[0].res
def check_status(ctx, I, st, R, key, K):
    """a status built from a finished network reply: transport error -> its mapping, else what the server sent"""
    st = norm_status(st); tr, h = http_outcome(I, R)
    K = dict(K, path=pathdesc(I.choices))
    if tr: ctx.check(mapped_of(I, stcode(st), R), key + ':transport', 'a transport error is not reported as the status it maps to (%s)' % str(stcode(st))[:80], **K)
    else:
        ctx.check(I.status(I.mk_eq(stcode(st), h)) is True, key + ':code', 'the status code the server sent is not the one reported (%s)' % str(stcode(st))[:80], **K)
        msg_of(I, stmsg(st), R, ctx, key + ':message', K)
    return tr, h

def c18_http2(ctx):
    P = hload()
    f = h2fn(P, 'call', 'QByteArray'); ctx.analysed(f); L_ = loc_of(f)
    def post(I, r):
        R = the_reply(I); K = dict(path=pathdesc(I.choices), **L_)
        tr, h = check_status(ctx, I, I.val(r), R, 'http2-sync', K)
        K = dict(path=pathdesc(I.choices), **L_)
        out = I.user['outloc']; v = I.readv(out)
        if not tr and I.truth(I.mk_eq(h, 0)): ctx.check(payload(v, R), 'http2-sync:data', 'a successful call does not return the bytes received after the prefix (%s)' % str(v)[:80], **dict(K, path=pathdesc(I.choices)))
        return r
    base = hargs(f)
    def mk(I):
        a = base(I); o = a[-1]
        if not (isinstance(o, tuple) and o[:1] == ('lref',)): o = ('lref', (('v', 'in', 'ret'), ())); a[-1] = o
        I.user['outloc'] = o[1]; return a
    for r in run_fn(P, hcfg(P), f, mk, ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'http2-sync:throws', 'an exception leaves the call', path=pathdesc(r.choices), **L_)
    f = h2fn(P, 'call', 'QGrpcCallReply'); ctx.analysed(f)
    def post2(I, r):
        R = the_reply(I); rep = ('arg', f['params'][-1]['n'])
        con = connects(I, R, NR + '::finished')
        K = dict(path=pathdesc(I.choices), **loc_of(f))
        if not ctx.check(bool(con), 'http2-async:unconnected', 'the end of the transfer is not observed', **K): return r
        k = len(I.trace)
        for e in con: ctx.check(fire(I, e.args[1], e.args[0], []) is None, 'http2-async:throws', 'an exception leaves the handler', **K)
        outcome(ctx, I, R, rep, k, 'http2-async', loc_of(f))
        return r
    for r in run_fn(P, hcfg(P), f, hargs(f), ctx.stats, post=post2): ctx.count('paths')
    f = h2fn(P, 'stream', None); ctx.analysed(f)
    def post3(I, r):
        R = the_reply(I); rep = ('arg', f['params'][0]['n'])
        con = connects(I, R, NR + '::finished')
        K = dict(path=pathdesc(I.choices), **loc_of(f))
        if not ctx.check(bool(con), 'http2-stream:unconnected', 'the end of the transfer is not observed', **K): return r
        k = len(I.trace)
        for e in con: ctx.check(fire(I, e.args[1], e.args[0], []) is None, 'http2-stream:throws', 'an exception leaves the handler', **K)
        outcome(ctx, I, R, rep, k, 'http2-stream', loc_of(f), stream=True)
        return r
    for r in run_fn(P, hcfg(P), f, hargs(f), ctx.stats, post=post3): ctx.count('paths')

def outcome(ctx, I, R, rep, k, key, loc, stream=False):
    """signals after the transfer ended"""
    tr, h = http_outcome(I, R)
    ok = (not tr) and I.truth(I.mk_eq(h, 0))
    K = dict(path=pathdesc(I.choices), **loc)
    fin = calls(I, OKQ, k, rep); err = calls(I, OEQ, k, rep)
    if ok:
        ctx.check(bool(fin), key + ':ok', 'the end with status OK is not reported as finished', **K)
        ctx.check(not err, key + ':ok-error', 'the end with status OK is reported as an error', **K)
        return
    if stream and tr:
        again = [e for e in I.trace[k:] if e.kind == 'call' and e.q == 'QNetworkAccessManager::post' and not e.log]
        if again:
            # silent reconnection is for a connection the server closed, and nothing else
            ctx.check(I.status(I.mk_eq(('nerr', R), 2)) is True, key + ':silent', 'a transport error other than a connection closed by the server is not reported', **K)
            return
    ctx.check(not fin, key + ':success', 'a failed transfer is reported as finished', **K)
    if not ctx.check(bool(err), key + ':lost', 'a failed transfer is not reported by the error signal', **K): return
    st = norm_status(err[0].args[0])
    if tr: ctx.check(mapped_of(I, stcode(st), R), key + ':transport', 'a transport error is not reported as the status it maps to (%s)' % str(stcode(st))[:80], **K)
    else:
        ctx.check(I.status(I.mk_eq(stcode(st), h)) is True, key + ':code', 'the status code the server sent is not the one reported (%s)' % str(stcode(st))[:80], **K)
        msg_of(I, stmsg(st), R, ctx, key + ':message', K)

# ------------------------------------------------------------------ native channel
NP = NS + 'QGrpcChannelPrivate'
NCALL, NSTREAM = NS + 'QGrpcChannelCall', NS + 'QGrpcChannelStream'
BUC = 'grpc::internal::BlockingUnaryCall'
def gcode(v):
    if isinstance(v, tuple):
        if v[:2] == ('ctor', 'grpc::Status'): return v[2] if len(v) > 2 else 0
        if mentions(v, 'grpc::Status::OK') and v[0] == 'init': return 0
    return ('gcode', v)
def gmsg(v): return ('gmsg', v)
def m_gcode(I, n, ob, args):
    t = gcode(I.readv(ob))
    if isinstance(t, tuple): I.facts.set_range(t, 0, 16)
    return t
def m_gok(I, n, ob, args): return I.mk_eq(m_gcode(I, n, ob, args), 0)
def m_gmsg(I, n, ob, args): return gmsg(I.readv(ob))
def m_tcreate(I, n, ob, args):
    fn = V(I, args[0]); I.uid += 1; t = ('qthread', I.uid); I.facts.add_ne(to_lin(t))
    I.user.setdefault('workers', {})[t] = fn
    I.emit('worker', n['q'], obj=t, args=(fn,), res=t, node=n)
    return t
def m_tstart(I, n, ob, args):
    t = ptr_of(ob); I.user.setdefault('started', []).append(t)
    I.emit('call', n['q'], obj=t, args=(), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    return 0
def cut(I, d, e):
    """does the disconnect event d end the connection made by e?"""
    if any(isinstance(a, tuple) and a[:1] == ('conn',) for a in d.args): return e.res in d.args
    a = list(d.args)
    if d.obj is not None:
        if a and isinstance(a[0], tuple) and a[0][:1] != ('fnref',) and not (len(a) > 1 and isinstance(a[1], tuple) and a[1][:1] == ('addr',)): a = [d.obj, 0] + a
        else: a = [d.obj] + a
    a += [0] * (4 - len(a))
    if a[0] == 0 or not same_obj(I, a[0], e.obj): return False
    if isinstance(a[1], tuple) and a[1][:1] == ('fnref',) and a[1][2] != e.q: return False
    if a[2] != 0 and (e.args[0] is None or not same_obj(I, a[2], e.args[0])): return False
    return a[3] == 0 or a[3] == e.args[1] or isinstance(a[3], tuple) and isinstance(e.args[1], tuple) and a[3][:3] == e.args[1][:3]
def live(I, sender, q):
    out = []
    for i, e in enumerate(I.trace):
        if e.kind == 'connect' and e.q == q and same_obj(I, e.obj, sender):
            if not any(d.kind == 'disconnect' and cut(I, d, e) for d in I.trace[i:]): out.append(e)
    return out
def raise_signal(I, sender, q, args=(), depth=0):
    """a signal is emitted: run what is connected to it (a slot that is a signal again is emitted in turn)"""
    if depth > 4: return
    for e in live(I, sender, q):
        k = len(I.trace)
        x = fire(I, e.args[1], e.args[0], args)
        if x is not None: raise x
        fn = e.args[1]
        if isinstance(fn, tuple) and fn[:1] == ('fnref',) and any(c.kind == 'call' and c.q == fn[2] for c in I.trace[k:]): raise_signal(I, e.args[0], fn[2], args, depth + 1)
def finish_workers(I):
    for t in list(I.user.get('started', [])):
        I.user['started'].remove(t)
        I.emit('worker-begin', 'QThread::run', obj=t, node=None)
        x = fire(I, I.user['workers'][t], None, [])
        I.emit('worker-end', 'QThread::run', obj=t, node=None)
        if x is not None: raise x
        raise_signal(I, t, 'QThread::finished')
def m_exec(I, n, ob, args):
    I.emit('call', n['q'], obj=ob, args=(), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    finish_workers(I); return 0
def m_wait(I, n, ob, args):
    I.emit('call', n['q'], obj=ptr_of(ob), args=tuple(V(I, a) for a in args), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    finish_workers(I); return 1
def m_buc(I, n, ob, args):
    a = [V(I, x) for x in args]
    I.uid += 1; S = ('res', n['q'], I.uid)
    if len(a) < 5: return NotImplemented
    I.writev(I.deref(a[4]), ('response', I.uid))
    I.emit('call', n['q'], obj=None, args=tuple(a), res=S, node=n, extra={'objv': None, 'locs': args, 'indirect': None})
    return S
def m_read(I, n, ob, args):
    a = V(I, args[0]); k = I.user['nmsg'] = I.user.get('nmsg', 0) + 1
    more = I.choose(2, ('another message',)) == 0 if k <= 2 else False
    I.emit('call', n['q'], obj=ptr_of(ob), args=(a,), res=int(more), node=n, extra={'objv': None, 'locs': args, 'indirect': None})
    if more: I.writev(I.deref(a), ('response', 'm%d' % k))
    return int(more)
def m_finish(I, n, ob, args):
    I.uid += 1; S = ('res', n['q'], I.uid)
    I.emit('call', n['q'], obj=ptr_of(ob), args=(), res=S, node=n, extra={'objv': None, 'locs': args, 'indirect': None})
    return S
def m_dump(I, n, ob, args):
    I.uid += 1; S = ('res', n['q'], I.uid); v = I.readv(ob); o = I.deref(V(I, args[0]))
    I.emit('call', n['q'], obj=ob, args=(v,), res=S, node=n, extra={'objv': v, 'locs': args, 'indirect': None})
    k = I.cfg.sizes[I.choose(len(I.cfg.sizes), ('slices', v))] if isinstance(I.cfg.sizes, (tuple, list)) else 2
    I.writev(o, ('cat', tuple(('e', ('slice', v, i)) for i in range(k))))
    return S
def m_slice(what):
    def m(I, n, ob, args):
        v = I.readv(ob)
        if what == 'ssize': I.facts.set_range((what, v), 0, (1 << 31) - 1)
        return (what, v)
    return m
def ncfg(P, **kw):
    cfg = gcfg(P, **kw)
    m = {'grpc::Status::ok': m_gok, 'grpc::Status::error_code': m_gcode, 'grpc::Status::error_message': m_gmsg, 'QThread::create': m_tcreate, 'QThread::start': m_tstart,
         'QEventLoop::exec': m_exec, 'QThread::wait': m_wait, BUC: m_buc, 'grpc::ByteBuffer::Dump': m_dump, 'grpc::Slice::begin': m_slice('sbegin'), 'grpc::Slice::size': m_slice('ssize'),
         'grpc::ClientReader::Read': m_read, 'grpc::ClientReader::Finish': m_finish, 'grpc::internal::ReaderInterface::Read': m_read, 'grpc::internal::ClientStreamingInterface::Finish': m_finish}
    for k, v in m.items(): cfg.models.setdefault(k, v)
    cfg.sizes = (0, 1, 2)
    return cfg
def nload(): return gload('qgrpcchannel.cpp')
def npfn(P, name, last):
    fs = [f for f in P.functions.values() if f['q'] == NP + '::' + name and f.get('body') and (last is None or last in f['params'][-1]['t'])]
    if len(fs) != 1: raise AnalysisError('%s::%s not found' % (NP, name))
    return fs[0]
def nargs(f):
    def mk(I):
        charglobals(I, I.prog); I.user['noginit'] = True
        a = arg_values(I, I.prog, f, None)
        for p, x in zip(f['params'], a):
            if strip_t(p['t']).endswith('*'): I.facts.add_ne(to_lin(I.val(x)))
        I.user['outloc'] = a[-1][1] if isinstance(a[-1], tuple) and a[-1][:1] == ('lref',) else None
        return a
    return mk
def c18_native(ctx):
    P = nload()
    f = npfn(P, 'call', 'QByteArray'); ctx.analysed(f)
    def post(I, r):
        native_status(ctx, I, I.val(r), 'native-sync', loc_of(f)); return r
    for r in run_fn(P, ncfg(P), f, nargs(f), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'native-sync:throws', 'an exception leaves the call', path=pathdesc(r.choices), **loc_of(f))
    for name, last, key in (('call', 'QGrpcCallReply', 'native-async'), ('stream', None, 'native-stream')):
        f = npfn(P, name, last); ctx.analysed(f)
        rep = ('arg', f['params'][0 if name == 'stream' else -1]['n'])
        def post2(I, r):
            k = len(I.trace)
            if not ctx.check(bool(I.user.get('started')), key + ':notstarted', 'the operation is not started', path=pathdesc(I.choices), **loc_of(f)): return r
            finish_workers(I)
            fin = calls(I, OKQ, k, rep); err = calls(I, OEQ, k, rep)
            K = dict(path=pathdesc(I.choices), **loc_of(f))
            if not ctx.check(bool(fin) != bool(err), key + ':outcome', 'the end of the operation is not reported by exactly one of finished and error', **K): return r
            if err: native_status(ctx, I, err[0].args[0], key, loc_of(f), False)
            else: native_status(ctx, I, None, key, loc_of(f), True)
            return r
        for r in run_fn(P, ncfg(P), f, nargs(f), ctx.stats, post=post2):
            ctx.count('paths')
            if r.exc: ctx.check(False, key + ':throws', 'an exception leaves the operation', path=pathdesc(r.choices), **loc_of(f))

def grpc_status_terms(I):
    """results of gRPC operations on this path, in order"""
    return [e.res for e in I.trace if e.kind == 'call' and not e.log and (e.q == BUC or e.q.endswith('::Finish') or e.q.endswith('ByteBuffer::Dump'))]
def native_status(ctx, I, st, key, loc, ok=None):
    ts = grpc_status_terms(I)
    codes = []
    for t in ts:
        c = ('gcode', t); I.facts.set_range(c, 0, 16)
        codes.append((t, I.truth(I.mk_eq(c, 0))))
    bad = [t for t, o in codes if not o]
    K = dict(path=pathdesc(I.choices), **loc)
    if not ctx.check(bool(ts), key + ':nothing', 'nothing was called', **K): return
    if st is None:
        ctx.check(ok and not bad, key + ':success', 'a failed operation is reported as finished', **K); return
    c = stcode(norm_status(st)); m = stmsg(norm_status(st))
    if not bad:
        ctx.check(I.status(I.mk_eq(c, 0)) is True and ok is not False, key + ':ok', 'an operation that ended well is reported as failed (%s)' % str(c)[:60], **K); return
    ctx.check(any(I.status(I.mk_eq(c, ('gcode', t))) is True and mentions(m, gmsg(t)) for t in bad), key + ':status', 'the status of a failed operation is not the one gRPC reported (%s)' % str(st)[:100], **K)

# ------------------------------------------------------------------ C19
SETQ = OPBASE + '::setData'
def c19(ctx):
    ctx.rule('Event dataflow over both channels: the asynchronous call is run on every path, then the transport ends in every way it can; the handlers connected at that point store the response and then signal finished exactly on OK, clear it and then signal error with the status of the call otherwise, one signal in all; after the error signal of an abort no end of the transfer reaches the reply. QGrpcCallReply::abort clears the response and signals one error with status Aborted.')
    ctx.assume('a transfer ends once: QNetworkReply::finished and QThread::finished are emitted once; slots of an emitter and receiver in one thread run in connection order')
    with ctx.guard('http2'): c19_http2(ctx)
    with ctx.guard('native'): c19_native(ctx)
    with ctx.guard('abort'): c19_abort(ctx)
    ctx.floor('scenarios', 3)

def one_outcome(ctx, I, k, rep, key, K, ok, stdata):
    fin = calls(I, OKQ, k, rep); err = calls(I, OEQ, k, rep); st = calls(I, SETQ, k, rep)
    ctx.check(len(fin) + len(err) == 1, key + ':once', 'the call ends with %d finished and %d error signals' % (len(fin), len(err)), **K)
    if len(fin) + len(err) != 1: return None
    sig = (fin + err)[0]
    ctx.check(bool(fin) == bool(ok), key + ':which', 'a call that ended %s signals %s' % ('well' if ok else 'with an error', 'finished' if fin else 'error'), **K)
    before = [e for e in st if I.trace.index(e) < I.trace.index(sig)]
    ctx.check(bool(before), key + ':stale', 'the response is not %s before the signal' % ('stored' if ok else 'cleared'), **K)
    ctx.check(len(before) == len(st), key + ':late', 'the response is changed after the signal', **K)
    if before:
        v = before[-1].args[0]
        if ok: ctx.check(stdata(v), key + ':data', 'the stored response is not the data received (%s)' % str(v)[:80], **K)
        else: ctx.check(is_empty(I, v), key + ':kept', 'the stored response of a failed call is not cleared (%s)' % str(v)[:80], **K)
    return sig
def is_empty(I, v): return unwrap(v) in (('cat', ()), 0, ('ctor', 'QByteArray')) or v == ('cat', ()) or isinstance(v, tuple) and v[:2] == ('ctor', 'QByteArray') and len(v) == 2
def h2_end(I, R):
    """the transfer ends: signals of the network reply in the order Qt emits them"""
    for q in ('QIODevice::readyRead', 'QNetworkReply::metaDataChanged'): raise_signal(I, R, q)
    for q in ('QNetworkReply::error', 'QNetworkReply::errorOccurred'):
        if live(I, R, q):
            tr, _ = http_outcome(I, R)
            if tr: raise_signal(I, R, q, [('nerr', R)])
    raise_signal(I, R, 'QNetworkReply::finished')
def aborted(): return ('ctor', STATUS, 10, ('cat', ()))

def c19_http2(ctx):
    P = hload(); f = h2fn(P, 'call', 'QGrpcCallReply'); ctx.analysed(f); L_ = loc_of(f)
    rep = ('arg', f['params'][-1]['n'])
    cfg = hcfg(P); cfg.opaque |= {SETQ}
    def post(I, r):
        R = the_reply(I); k = len(I.trace); ctx.count('scenarios'); dangling(ctx, I, 'http2')
        ctx.check(not calls(I, (OKQ, OEQ), 0, rep), 'http2:early', 'an outcome is signalled before the transfer ended', path=pathdesc(I.choices), **L_)
        how = I.choose(2, ('aborted before the end',))
        if how == 0:
            h2_end(I, R)
            tr, h = http_outcome(I, R); ok = not tr and I.truth(I.mk_eq(h, 0))
            K = dict(path=pathdesc(I.choices), **L_)
            s = one_outcome(ctx, I, k, rep, 'http2', K, ok, lambda v: payload(v, R))
            if s is not None and not ok:
                c = stcode(norm_status(s.args[0]))
                ctx.check(mapped_of(I, c, R) if tr else I.status(I.mk_eq(c, h)) is True, 'http2:status', 'the error does not carry the status of the call', **K)
                # the error signal runs what is connected to it
                k2 = len(I.trace); raise_signal(I, rep, OEQ, [s.args[0]])
                ctx.check(not calls(I, (OKQ, OEQ, SETQ), k2, rep), 'http2:again', 'the error signal of the call makes the channel report once more', **K)
        else:
            raise_signal(I, rep, OEQ, [aborted()])
            k2 = len(I.trace); h2_end(I, R)
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(not calls(I, (OKQ, OEQ, SETQ), k, rep), 'http2:after-abort', 'the end of the transfer reaches a call that was aborted', **K)
        return r
    for r in run_fn(P, cfg, f, hargs(f), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'http2:throws', 'an exception leaves the call or its handlers', path=pathdesc(r.choices), **L_)

def dangling(ctx, I, key):
    """what runs after the function has returned refers to none of its variables"""
    for e in I.trace:
        if e.kind not in ('connect', 'timer', 'queued') or e.log: continue
        for fn in e.args:
            if not isinstance(fn, Closure): continue
            for c in fn.node.get('caps', []):
                ctx.check(not c.get('byref'), key + ':dangling', 'a handler that runs later refers to the variable %s of the function that installed it' % c.get('n'), file=e.file, line=e.line, fn=e.fn, path=pathdesc(I.choices))

def native_bytes(I, buf=None):
    """the bytes of the (last) response of this path: its slices in order"""
    d = [e for e in I.trace if e.kind == 'call' and e.q == 'grpc::ByteBuffer::Dump' and not e.log and (buf is None or e.args[0] == buf)]
    if not d: return None
    k = [c for c in I.choices if isinstance(c[0], tuple) and c[0][0] == 'slices' and c[0][1] == d[-1].args[0]]
    n = I.cfg.sizes[k[-1][1]]
    return ('cat', tuple(('raw', ('sbegin', ('slice', d[-1].args[0], i)), ('ssize', ('slice', d[-1].args[0], i))) for i in range(n)))

def c19_native(ctx):
    P = nload(); f = npfn(P, 'call', 'QGrpcCallReply'); ctx.analysed(f); L_ = loc_of(f)
    rep = ('arg', f['params'][-1]['n'])
    cfg = ncfg(P); cfg.opaque |= {SETQ}
    def post(I, r):
        dangling(ctx, I, 'native')
        k = len(I.trace); ctx.count('scenarios')
        ctx.check(not calls(I, (OKQ, OEQ), 0, rep), 'native:early', 'an outcome is signalled before the worker ended', path=pathdesc(I.choices), **L_)
        ctx.check(bool(I.user.get('started')), 'native:never', 'the call is never started', path=pathdesc(I.choices), **L_)
        how = I.choose(2, ('aborted before the end',))
        if how == 0:
            finish_workers(I)
            ts = grpc_status_terms(I); ok = all([I.truth(I.mk_eq(('gcode', t), 0)) for t in ts])
            K = dict(path=pathdesc(I.choices), **L_)
            s = one_outcome(ctx, I, k, rep, 'native', K, ok, lambda v: v == native_bytes(I))
            if s is not None and not ok:
                bad = [t for t in ts if I.status(I.mk_eq(('gcode', t), 0)) is False]
                c = stcode(norm_status(s.args[0]))
                ctx.check(any(I.status(I.mk_eq(c, ('gcode', t))) is True for t in bad), 'native:status', 'the error does not carry the status of the call', **K)
        else:
            raise_signal(I, rep, OEQ, [aborted()])
            finish_workers(I)
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(not calls(I, (OKQ, OEQ, SETQ), k, rep), 'native:after-abort', 'the end of the worker reaches a call that was aborted', **K)
        return r
    for r in run_fn(P, cfg, f, nargs(f), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'native:throws', 'an exception leaves the call or its handlers', path=pathdesc(r.choices), **L_)

def c19_abort(ctx):
    P = gload(); fs = [f for f in P.functions.values() if f['q'] == REPLY + '::abort' and f.get('body')]
    if len(fs) != 1: raise AnalysisError('QGrpcCallReply::abort not found')
    f = fs[0]; ctx.analysed(f); L_ = loc_of(f)
    cfg = gcfg(P); cfg.opaque |= {SETQ}
    for r in run_fn(P, cfg, f, lambda I: [], ctx.stats):
        ctx.count('paths'); ctx.count('scenarios'); I = r.I; K = dict(path=pathdesc(r.choices), **L_)
        if r.exc: ctx.check(False, 'abort:throws', 'abort throws', **K); continue
        fn = queue_run(I)
        s = one_outcome(ctx, I, 0, THIS, 'abort', K, False, None)
        if s is not None: ctx.check(code_is(I, s.args[0], 10) is True, 'abort:status', 'the error of an abort does not have the status Aborted', **K)
def queue_run(I):
    """run what was queued for later (an abort may be delivered through the event loop)"""
    for e in [e for e in I.trace if e.kind == 'queued']: fire(I, e.args[0], e.obj, [])

# ------------------------------------------------------------------ C20
def threads_of(I, owner):
    """per event: is it executed in the thread `owner` lives in? (True/False/None)"""
    st = [('curthread',)]; own = ('thread', owner); out = []; memo = {}
    for e in I.trace:
        if e.kind == 'thr-enter': st.append(('thread', e.obj) if e.args[0] in (0, 3) or (e.extra or {}).get('same') else st[-1])
        elif e.kind == 'thr-exit': st.pop()
        t = st[-1]
        if t not in memo: memo[t] = t == own or I.status(I.mk_eq(t, own))
        out.append(memo[t])
    return out

def c20(ctx):
    ctx.rule('Thread-context dataflow over every path of the client, reply and stream operations: QThread::currentThread and QObject::thread are symbols, QMetaObject::invokeMethod runs its functor in the thread of its context object. Requests to the channel, the creation of replies and streams, every access to the list of active streams and every signal of an aborted operation happen only where the current thread is known to be the owner; a foreign thread uses a blocking queued invocation and returns its result; the owner never waits for itself. attachChannel throws before it touches anything when the channel lives in another thread, and a channel reports the thread it was made in.')
    ctx.assume('a blocking queued invocation runs in the thread of its context object and returns after it (Qt documentation)')
    P = gload()
    for w in ('syncCall', 'asyncCall', 'plainStream', 'boundStream'):
        with ctx.guard(w): c20_client(ctx, P, w)
    for cls in (REPLY, STREAM):
        with ctx.guard(cls + '::abort'): c20_abort(ctx, P, cls)
    with ctx.guard('attachChannel'): c20_attach(ctx, P)
    with ctx.guard('channel thread'): c20_channel(ctx, P)
    ctx.floor('operations', 5)

def c20_client(ctx, P, w):
    f = wit(P, 'Client::' + w); ctx.count('operations'); al = active_loc(P)
    nm = 'stream' if 'Stream' in w else 'call'
    src_ = [x for x in P.functions.values() if x['q'] == CLIENT + '::' + nm and x.get('body')]
    for x in src_: ctx.analysed(x)
    priv = [x for x in src_ if x['file'].endswith('.cpp')]; L_ = loc_of((priv or src_)[0])
    cfg = gcfg(P, watch=lambda I, root, path: 'active' if root == al[0] and path[:1] == al[1] else None)
    def post(I, r):
        K = dict(path=pathdesc(I.choices), **L_)
        th = threads_of(I, THIS)
        for e, t in zip(I.trace, th):
            if e.log: continue
            key = None
            if e.kind in ('read', 'write') and e.q == 'active': key = 'the list of active streams is used'
            elif e.kind == 'call' and e.q in (CHAN + '::call', CHAN + '::stream'): key = 'a request is handed to the channel'
            elif e.kind == 'new' and e.q in (REPLY, STREAM): key = 'a reply or stream object is created'
            if key: ctx.check(t is True, w + ':foreign', key + ' in a thread that may not be the owner\'s', file=e.file, line=e.line, fn=e.fn, path=K['path'])
            if e.kind == 'recursion' or e.kind == 'call' and e.q in (CLIENT + '::call', CLIENT + '::stream'): ctx.check(False, w + ':recursion', 'the operation calls itself without end', path=K['path'], **L_)
            if e.kind == 'self-deadlock': ctx.check(False, w + ':deadlock', 'the owning thread waits for itself', file=e.file, line=e.line, fn=e.fn, path=K['path'])
            if e.kind == 'queued': ctx.check(False, w + ':queued', 'the operation is only queued, its result is not waited for', file=e.file, line=e.line, fn=e.fn, path=K['path'])
        # the result of what was done in the owner's thread is returned
        inv = [e for e in I.trace if e.kind == 'invoke']
        if not inv: return r
        v = I.val(r); ch = calls(I, (CHAN + '::call', CHAN + '::stream'))
        ctx.count('foreign_paths')
        if w == 'syncCall':
            v = norm_status(v)
            if ch and not code_is(I, ch[-1].res) is True: ctx.check(same_status(I, v, ch[-1].res), w + ':result', 'the status of the call is not returned to the calling thread', **K)
        elif ch:
            ctx.check(any(v == a for a in ch[-1].args), w + ':result', 'the started operation is not returned to the calling thread', **K)
        return r
    for r in run_fn(P, cfg, f, gargs(f, (0, 1)), ctx.stats, post=post): ctx.count('paths')
    ctx.floor('foreign_paths', 1)

def c20_abort(ctx, P, cls):
    fs = [f for f in P.functions.values() if f['q'] == cls + '::abort' and f.get('body')]
    if len(fs) != 1: raise AnalysisError('abort not found')
    f = fs[0]; ctx.analysed(f); ctx.count('operations'); nm = cls.split('::')[-1]
    cfg = gcfg(P); cfg.opaque |= {SETQ}; seen = set()
    for r in run_fn(P, cfg, f, lambda I: [], ctx.stats):
        ctx.count('paths'); I = r.I; K = dict(path=pathdesc(r.choices), **loc_of(f))
        th = threads_of(I, THIS)
        did = 0
        for e, t in zip(I.trace, th):
            if e.log: continue
            if e.kind == 'call' and e.q in (OKQ, OEQ, SETQ):
                did += e.q != SETQ
                ctx.check(t is True, nm + ':foreign', 'an abort signals or changes the operation in a thread that may not be the owner\'s', file=e.file, line=e.line, fn=e.fn, path=K['path'])
            if e.kind == 'self-deadlock': ctx.check(False, nm + ':deadlock', 'the owning thread waits for itself', file=e.file, line=e.line, fn=e.fn, path=K['path'])
            if e.kind == 'queued': ctx.check(False, nm + ':queued', 'the abort is only queued', file=e.file, line=e.line, fn=e.fn, path=K['path'])
        ctx.check(did == 1, nm + ':signal', 'an abort signals %d times' % did, **K)

def c20_attach(ctx, P):
    fs = [f for f in P.functions.values() if f['q'] == CLIENT + '::attachChannel' and f.get('body')]
    if len(fs) != 1: raise AnalysisError('attachChannel not found')
    f = fs[0]; ctx.analysed(f); ctx.count('operations'); al = active_loc(P); L_ = loc_of(f)
    cf = private_fields(P, CLIENT, lambda t: 'QAbstractGrpcChannel' in t)
    if len(cf) != 1: raise AnalysisError('channel of the client not recognised')
    cl = (al[0], (cf[0]['n'],)); ch = ('arg', f['params'][0]['n'])
    cfg = gcfg(P)
    cfg.models[CHAN + '::thread'] = lambda I, n, ob, args: ('chthread', ptr_of(ob))
    cfg.opaque |= {STREAM + '::abort', OPBASE + '::abort'}
    base = gargs(f, (0, 1))
    def mk(I): 
        a = base(I); I.facts.add_ne(to_lin(ch)); return a
    old = ('fld', ('init', al[0]), cf[0]['n'])
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        ctx.count('paths'); I = r.I; K = dict(path=pathdesc(r.choices), **L_)
        mine = I.status(I.mk_eq(('chthread', ch), ('curthread',)))
        now = I.readv(cl)
        if r.exc:
            ctx.check(mine is False, 'attach:refused', 'a channel of the calling thread is refused', **K)
            ctx.check(now == old and not [e for e in I.trace if e.kind == 'call' and e.q.endswith('::abort')], 'attach:touched', 'a refused channel changes the client', **K)
        else:
            ctx.check(mine is True, 'attach:foreign', 'a channel that lives in another thread is attached', **K)
            ctx.check(now == ch, 'attach:lost', 'the channel is not attached', **K)

def c20_channel(ctx, P):
    q = CHAN + 'Private::QAbstractGrpcChannelPrivate'
    fs = [f for f in P.functions.values() if f.get('isctor') and f['q'] == CHAN + '::QAbstractGrpcChannel' and f.get('body') is not None]
    g = [f for f in P.functions.values() if f['q'] == CHAN + '::thread' and f.get('body') is not None]
    if len(fs) != 1 or len(g) != 1: raise AnalysisError('channel constructor or thread() not found')
    f, g = fs[0], g[0]; ctx.analysed(f); ctx.analysed(g)
    cfg = gcfg(P); cfg.opaque = set(cfg.opaque) - {CHAN + '::thread'}
    def post(I, r):
        I.user['thr'] = [('otherthread',)]
        return models.run_with_values(I, g, [], THIS)
    for r in run_fn(P, cfg, f, lambda I: [], ctx.stats, post=post):
        ctx.count('paths')
        ctx.check(r.exc is None and r.I.val(r.ret) == ('curthread',), 'channel:thread', 'a channel does not report the thread it was made in', path=pathdesc(r.choices), **loc_of(g))

# ------------------------------------------------------------------ C21
def c21(ctx):
    ctx.rule('Lockset dataflow: every function that accesses the response bytes of an operation is run on every path; each read and write happens while the lock of the same object is held, the lock is free again on every exit, normal or by exception, it is not taken twice, and while it is held no signal, no std::function and no decoding (which signals errors and calls user code) is run.')
    P = gload('qgrpchttp2channel.cpp', 'qgrpcchannel.cpp')
    rec = P.records[OPBASE]
    dat = [x['n'] for x in rec['fields'] if strip_t(x['t']) == 'QByteArray']; lk = [x['n'] for x in rec['fields'] if 'Mutex' in x['t'] or 'mutex' in x['t'] or 'Lock' in x['t']]
    if len(dat) != 1 or len(lk) != 1: raise AnalysisError('response or lock of QGrpcAsyncOperationBase not recognised')
    dat, lk = dat[0], lk[0]
    def touches(f): return any(isinstance(x, dict) and x.get('k') == 'mem' and x.get('n') == dat and OPBASE in str(x.get('cls', '') or x.get('q', '') or OPBASE) for x in walk(f['body']))
    roots = []
    for f in P.functions.values():
        if f.get('body') is None or not f.get('file', '').startswith(prog.REPO): continue
        if f['q'].startswith(OPBASE + '::') or f['q'].startswith((STREAM + '::', REPLY + '::')): roots.append(f)
        elif any(isinstance(x, dict) and x.get('k') == 'mem' and str(x.get('q', '')) == OPBASE + '::' + dat for x in walk(f['body'])): roots.append(f)
    for f in roots:
        with ctx.guard(f['q']): c21_fn(ctx, P, f, dat, lk)
    ctx.floor('accesses', 2)

def c21_fn(ctx, P, f, dat, lk):
    if '~' in f['q']: pass
    ctx.analysed(f)
    cfg = gcfg(P, watch=lambda I, root, path: 'data' if path[:1] == (dat,) and root[0] in ('this', 'deref') else None)
    nm = f['q'].split('::', 1)[1]
    def mk(I):
        charglobals(I, P); I.user['noginit'] = True
        return arg_values(I, P, f, None)
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        ctx.count('paths'); I = r.I; pth = pathdesc(r.choices)
        for e in r.trace:
            if e.log: continue
            at = dict(file=e.file, line=e.line, fn=e.fn, path=pth)
            if e.kind in ('read', 'write') and e.q == 'data':
                ctx.count('accesses')
                if f.get('isctor') or '~' in f['q']: continue
                loc = e.args[0]
                ctx.check(any(h[0] == (loc[0], (lk,)) for h in e.held), nm + ':unlocked', 'the response is %s without its lock' % ('read' if e.kind == 'read' else 'written'), **at)
            elif e.kind == 'acquire' and any(h[0][1] == (lk,) for h in e.held[:-1]): ctx.check(False, nm + ':twice', 'the lock is taken while it is held', **at)
            elif e.kind == 'bad-release': ctx.check(False, nm + ':bad-release', 'a lock that is not held is released', **at)
            elif e.kind in ('call', 'invoke') and any(h[0][1] == (lk,) for h in e.held):
                what = None
                if e.kind == 'invoke': what = 'another thread is waited for'
                elif (e.extra or {}).get('indirect') is not None or e.q == 'std::function()': what = 'user code is called'
                elif e.q in (DESQ, SERQ + '::serialize'): what = 'a message is decoded'
                elif is_signal(P, e.q): what = 'a signal is emitted'
                if what: ctx.check(False, nm + ':under-lock', what + ' while the lock of the response is held', **at)
        ctx.count('obligations'); ctx.count('discharged')
        ctx.check(not r.I.held, nm + ':leak', 'the lock is still held when the function %s' % ('throws' if r.exc else 'returns'), path=pth, **loc_of(f))
def is_signal(P, q):
    """a member function without a body in the sources that belongs to a class of the library: Qt's code generator makes its body"""
    if not q.startswith(NS): return False
    fs = [f for f in P.functions.values() if f['q'] == q]
    return not any(f.get('body') is not None for f in fs) and q.split('::')[-1] in ('finished', 'error', 'messageReceived', 'dataReady', 'destroyed')

# ------------------------------------------------------------------ C22
GRPC_CODES = dict(Ok=0, Cancelled=1, Unknown=2, InvalidArgument=3, DeadlineExceeded=4, NotFound=5, AlreadyExists=6, PermissionDenied=7, ResourceExhausted=8, FailedPrecondition=9, Aborted=10,
                  OutOfRange=11, Unimplemented=12, Internal=13, Unavailable=14, DataLoss=15, Unauthenticated=16)
KINDS = [
    ('unreachable peer', ('Unavailable',), ('ConnectionRefusedError', 'RemoteHostClosedError', 'HostNotFoundError', 'NetworkSessionFailedError', 'ProxyConnectionRefusedError', 'ProxyConnectionClosedError', 'ProxyNotFoundError', 'ServiceUnavailableError')),
    ('timeout', ('DeadlineExceeded',), ('TimeoutError', 'ProxyTimeoutError')),
    ('authentication', ('PermissionDenied', 'Unauthenticated'), ('SslHandshakeFailedError', 'InsecureRedirectError', 'ProxyAuthenticationRequiredError', 'ContentAccessDenied', 'ContentOperationNotPermittedError', 'AuthenticationRequiredError')),
    ('cancelled or cut off', ('Unavailable', 'Cancelled', 'DeadlineExceeded'), ('OperationCanceledError',)),
    ('not found', ('NotFound',), ('ContentNotFoundError',)),
    ('not implemented', ('Unimplemented',), ('OperationNotImplementedError', 'ProtocolInvalidOperationError')),
    ('server error', ('Internal',), ('InternalServerError',)),
    ('unknown server error', ('Unknown', 'Internal'), ('UnknownServerError',)),
    ('lost content', ('DataLoss',), ('ContentReSendError', 'ContentGoneError')),
]
def c22(ctx):
    ctx.rule('Constant propagation of every enumerator of QNetworkReply::NetworkError (read from the Qt headers) through the three places that turn a network reply into a status (blocking call, asynchronous call, stream): the lookup never throws, the status is a constant of the gRPC specification, not OK, and of the kind the error belongs to.')
    ctx.rule('The enumerators of QGrpcStatus::StatusCode are compared by name and value with the gRPC specification.')
    import glob
    q = glob.glob('/usr/include/**/qnetworkreply.h', recursive=True)
    if not q: raise prog.Broken('qnetworkreply.h not found')
    P = prog.load(src(*BASE) + src('qgrpchttp2channel.cpp'), roots=[q[0]])
    errs = {v['n']: int(v['v']) for v in P.enums['QNetworkReply::NetworkError']['values']}
    codes = P.enums[STATUS + '::StatusCode']; names = {v['n']: int(v['v']) for v in codes['values']}
    L_ = dict(file=codes['file'], line=codes['line'], fn='StatusCode')
    for n, v in GRPC_CODES.items(): ctx.check(names.get(n) == v, 'code:' + n, 'status code %s has the value %s instead of %d' % (n, names.get(n), v), **L_)
    ctx.check(len(set(names.values())) == len(names), 'code:dup', 'two status codes share a value', **L_)
    kind = {e: (k, [GRPC_CODES[c] for c in cs]) for k, cs, es in KINDS for e in es}
    byv = {}
    for n, v in errs.items(): byv.setdefault(v, n)
    for key, name, last in (('sync', 'call', 'QByteArray'), ('async', 'call', 'QGrpcCallReply'), ('stream', 'stream', None)):
        f = h2fn(P, name, last); ctx.analysed(f)
        for v, n in sorted(byv.items()):
            if v == 0: continue
            with ctx.guard('%s %s' % (key, n)): c22_one(ctx, P, f, key, n, v, kind)
    ctx.floor('errors', 60)

def c22_one(ctx, P, f, key, n, val, kind):
    ctx.count('errors'); L_ = loc_of(f)
    cfg = hcfg(P); cfg.models['QNetworkReply::error'] = lambda I, nn, ob, args: val; cfg.opaque |= {SETQ}
    base = hargs(f)
    def mk(I):
        a = base(I); I.user['noginit'] = False
        if key == 'sync':
            if not (isinstance(a[-1], tuple) and a[-1][:1] == ('lref',)): a[-1] = ('lref', (('v', 'in', 'ret'), ()))
        return a
    def post(I, r):
        K = dict(path=pathdesc(I.choices), **L_)
        if key == 'sync': st = [I.val(r)]
        else:
            R = the_reply(I); k = len(I.trace)
            raise_signal(I, R, 'QNetworkReply::finished')
            rep = ('arg', f['params'][0 if key == 'stream' else -1]['n'])
            if key == 'stream' and calls(I, 'QNetworkAccessManager::post', k):
                ctx.check(n == 'RemoteHostClosedError', 'stream:%s:silent' % n, '%s restarts a stream silently' % n, **K); return r
            st = [e.args[0] for e in calls(I, OEQ, k, rep)]
            if not ctx.check(bool(st), '%s:%s:lost' % (key, n), '%s is not reported' % n, **K): return r
        c = stcode(norm_status(st[0]))
        if not isinstance(c, int): raise AnalysisError('status of %s: %r' % (n, c))
        ctx.sample('%s: %s -> %d' % (key, n, c))
        ctx.check(c in GRPC_CODES.values() and c != 0, '%s:%s:ok' % (key, n), '%s is reported as status %d' % (n, c), **K)
        if n in kind: ctx.check(c in kind[n][1], '%s:%s:kind' % (key, n), '%s (%s) is reported as status %d' % (n, kind[n][0], c), **K)
        return r
    for r in run_fn(P, cfg, f, mk, ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, '%s:%s:throws' % (key, n), 'the lookup of %s throws' % n, path=pathdesc(r.choices), **L_)

# ------------------------------------------------------------------ C23
from .. import bits as B
from ..bits import BV
from ..interp import LoopLimit
def bswap(b): return BV(sum((b.bits[8 * i:8 * i + 8] for i in range(b.w // 8 - 1, -1, -1)), ()))
def c23(ctx):
    ctx.rule('Byte-sequence dataflow over the request: the body handed to QNetworkAccessManager::post is followed byte by byte (bit vectors for the length) and compared with flag 0, the four bytes of the payload length, most significant first, and the payload; the path of the URL is compared with "/service/method".')
    ctx.rule('Position dataflow over the stream reader: the received bytes are one sequence T, every chunk read is the next interval of it, and slices are kept as intervals with linear bounds. On every path of two successive chunks of any size, each delivered message is T[p+5, p+5+length at p) for the running position p, the length is read only where p+5 bytes are known to be there, and the reader leaves its loop only when the next message is incomplete, the transfer is finished or the stream was stopped.')
    ctx.rule('Native channel: the payload buffer is the whole payload, the response is all slices in order, the method name is "/service/method".')
    ctx.assume('the byte order of the machine is little-endian (x86-64, AArch64); QByteArray and qToBigEndian/qFromBigEndian behave as documented')
    P = hload()
    for name, last, key in (('call', 'QByteArray', 'sync'), ('call', 'QGrpcCallReply', 'async'), ('stream', None, 'stream')):
        with ctx.guard('request ' + key): c23_request(ctx, P, name, last, key)
    with ctx.guard('reader'): c23_reader(ctx, P)
    with ctx.guard('response'): c23_response(ctx, P)
    with ctx.guard('native'): c23_native(ctx)
    ctx.floor('requests', 1)

def to_bv(I, v, w):
    if isinstance(v, BV): return v if v.w == w else B.ext(v, w, False)
    if isinstance(v, int): return B.const(v, w)
    return None
def m_tobe(I, n, ob, args):
    a = [V(I, x) for x in args]; t = strip_t(n['pt'][0]); w = 8 * (models.SIZES.get(t) or 0)
    b = to_bv(I, a[0], w) if w else None
    if b is None: return NotImplemented
    if len(a) == 1: return bswap(b)
    models.mem_write(I, ('tptr', t, a[1]), bswap(b)); return 0
def lenbits(sign=True): return BV([frozenset([('len', i)]) for i in range(31)] + [B.ZERO])
def textof(I, v):
    """concatenation as text parts, constants merged"""
    out = []
    def go(x):
        x = unwrap(x)
        if isinstance(x, tuple) and x[:1] == ('cat',):
            for p in x[1]: go(p)
        elif isinstance(x, tuple) and x[:1] == ('s',): out.append(x[1])
        elif isinstance(x, tuple) and x[:1] == ('raw',) and isinstance(x[1], tuple) and x[1][:1] == ('s',) and x[2] == -1: out.append(x[1][1])
        elif isinstance(x, tuple) and x[:1] == ('e',):
            out.append(chr(x[1]) if isinstance(x[1], int) else x[1])
        elif isinstance(x, tuple) and x[:1] == ('ctor',) and x[1] in ('QString', 'QLatin1String', 'QChar', 'QLatin1Char', 'QByteArray', 'std::string', 'std::basic_string', 'std::__cxx11::basic_string') and len(x) > 2: go(x[2])
        elif isinstance(x, tuple) and x[:1] == ('op',) and len(x) == 3 and x[1].split('::')[-1] in ('toStdString', 'toUtf8', 'toLatin1', 'fromStdString', 'c_str', 'data', 'constData'): go(x[2])
        elif isinstance(x, tuple) and x[:2] == ('op', 'QString::arg'):
            base = textof(I, x[2]); reps = [x[3]]
            for y in x[4:]:
                if isinstance(y, int) or isinstance(y, tuple) and y[:2] == ('ctor', 'QChar'): break
                reps.append(y)
            import re
            for y in reps:
                ns = sorted({int(m) for p in base if isinstance(p, str) for m in re.findall(r'%(\d+)', p)})
                if not ns: break
                new = []
                for p in base:
                    if not isinstance(p, str): new.append(p); continue
                    bits_ = re.split(r'%' + str(ns[0]) + r'(?!\d)', p)
                    for j, b in enumerate(bits_):
                        if j: new.extend(textof(I, y))
                        if b: new.append(b)
                base = new
            out.extend(base)
        elif isinstance(x, int): out.append(chr(x))
        else: out.append(x)
    go(v)
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str): r[-1] += x
        elif x != '': r.append(x)
    return r

def c23_request(ctx, P, name, last, key):
    f = h2fn(P, name, last); ctx.analysed(f)
    pr = [x for x in P.functions.values() if x['q'] == NS + 'QGrpcHttp2ChannelPrivate::post' and x.get('body')]
    for x in pr: ctx.analysed(x)
    L_ = loc_of(pr[0] if pr else f)
    cfg = hcfg(P)
    pay = ('arg', 'args') if key != 'stream' else ('streamarg',)
    svc = ('arg', 'service'); mth = ('arg', 'method') if key != 'stream' else ('streammethod',)
    def m_size(I, n, ob, args):
        v = unwrap(I.readv(ob))
        if v == pay: return lenbits()
        if isinstance(v, tuple) and v[:1] == ('cat',) and [p for p in v[1] if p[0] != 'e'] == [pay]: return BV([frozenset([('len+%d' % (len(v[1]) - 1), i)]) for i in range(31)] + [B.ZERO])
        return models.find(n)(I, n, ob, args)
    for nm in ('size', 'length', 'count'): cfg.models['QByteArray::' + nm] = m_size
    for q in ('qToBigEndian', 'qbswap', 'htonl', '__builtin_bswap32', 'qToBigEndian_helper'): cfg.models[q] = m_tobe
    cfg.models['qToLittleEndian'] = lambda I, n, ob, args: V(I, args[0]) if len(args) == 1 else NotImplemented
    cfg.models[STREAM + '::arg'] = lambda I, n, ob, args: pay
    cfg.models[STREAM + '::method'] = lambda I, n, ob, args: mth
    base = hargs(f)
    def mk(I):
        a = base(I)
        if key == 'sync' and not (isinstance(a[-1], tuple) and a[-1][:1] == ('lref',)): a[-1] = ('lref', (('v', 'in', 'ret'), ()))
        names = [p['n'] for p in f['params']]
        if key != 'stream':
            for i, want in ((0, mth), (1, svc), (2, pay)): a[i] = want if not (isinstance(a[i], tuple) and a[i][:1] == ('lref',)) else a[i]
        else: a[1] = svc if not (isinstance(a[1], tuple) and a[1][:1] == ('lref',)) else a[1]
        for i, want in (((0, mth), (1, svc), (2, pay)) if key != 'stream' else ((1, svc),)):
            if isinstance(a[i], tuple) and a[i][:1] == ('lref',): I.rawwrite(a[i][1], want)
        return a
    ln = lenbits()
    want = [0] + [BV(ln.bits[8 * i:8 * i + 8]) for i in (3, 2, 1, 0)]
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        I = r.I; ctx.count('paths'); K = dict(path=pathdesc(r.choices), **L_)
        posts = calls(I, 'QNetworkAccessManager::post')
        if r.exc and not posts: continue
        if not ctx.check(len(posts) == 1, key + ':posts', 'a call makes %d requests' % len(posts), **K): continue
        ctx.count('requests'); body = unwrap(posts[0].args[1])
        if mentions(body, 'poked') or mentions(body, 'filled'): raise AnalysisError('request body not followed: %r' % (body,))
        parts = body[1] if isinstance(body, tuple) and body[:1] == ('cat',) else (body,)
        head = []; rest = list(parts)
        while rest and rest[0][0] == 'e' and len(head) < 5: head.append(rest.pop(0)[1])
        if any(not isinstance(x, (int, BV)) or isinstance(x, BV) and x.has_top() for x in head): raise AnalysisError('request prefix not followed: %r' % (head,))
        head = [x.const() if isinstance(x, BV) and x.const() is not None else x for x in head]
        # the top bit of an int is zero
        good = len(head) == 5 and head[0] == 0 and all(h == w for h, w in zip(head, want))
        ctx.check(good, key + ':prefix', 'the request prefix is not flag 0 and the big-endian payload length: %s' % str(head)[:160], **K)
        def is_pay(ps):
            if len(ps) != 1: return False
            p = unwrap(ps[0])
            if p == pay: return True
            return p[0] == 'raw' and isinstance(p[1], tuple) and p[1][0] == 'rptr' and unwrap(p[1][1]) == pay and p[1][2] == 0 and p[2] in (ln, size_term(pay))
        ctx.check(is_pay(rest), key + ':payload', 'the request does not carry exactly the payload after the prefix: %s' % str(rest)[:120], **K)
        up = [e for e in calls(I, 'QUrl::setPath') if I.trace.index(e) < I.trace.index(posts[0])]
        if not up: raise AnalysisError('path of the request not recognised')
        t = textof(I, up[-1].args[0])
        if any(isinstance(x, tuple) and x not in (svc, mth) for x in t): raise AnalysisError('path of the request not followed: %r' % (t,))
        ctx.check(t == ['/', svc, '/', mth], key + ':path', 'the request does not go to /service/method but to %s' % str(t), **K)
def size_term(v): return ('size', v)

# ---- the stream as intervals of one sequence
def T(a, b): return ('T', a, b)
def isT(v): return isinstance(v, tuple) and v[:1] == ('T',)
def asT(v):
    """interval value of a sequence term, or None"""
    v = unwrap(v)
    if isT(v): return v
    if isinstance(v, tuple) and v[:1] == ('dflt',): return 'empty'
    if isinstance(v, tuple) and v[:1] == ('cat',):
        if not v[1]: return 'empty'
        ts = [unwrap(p) for p in v[1]]
        if all(isT(p) for p in ts) and all(add(x[2], y[1], -1) == 0 for x, y in zip(ts, ts[1:])): return T(ts[0][1], ts[-1][2])
    return None
def tlen(t): return 0 if t == 'empty' else add(t[2], t[1], -1)
def eqz(I, d): return d == 0 or I.facts.eq_status(d) is True
def mint(I, a, b):
    """min(a, b), forks"""
    return a if I.truth(I.mk_rel('<=', a, b, 64, False)) else b
def norm_T(I, ob, v):
    t = asT(v)
    if t is None or t == 'empty': return t
    if isinstance(t, tuple) and unwrap(v) != t: I.rawwrite(ob, t)
    return t
def mT(kind):
    def m(I, n, ob, args):
        v = I.readv(ob); t = norm_T(I, ob, v)
        a = [V(I, x) for x in args]
        if t is None:
            if kind == 'size': return models.size(I, v)
            if kind == 'isEmpty': return I.mk_eq(models.size(I, v), 0)
            if kind == 'mid': return ('mid', v, a[0], a[1] if len(a) > 1 else -1)
            return NotImplemented
        L = tlen(t)
        if kind == 'size': return L
        if kind == 'isEmpty': return I.mk_eq(L, 0)
        if t == 'empty': t = T(0, 0)
        if kind in ('constData', 'data'): return ('rptr', t, 0)
        if kind in ('mid', 'sliced'):
            p = a[0]; k = a[1] if len(a) > 1 else None
            if not I.truth(I.mk_rel('<=', p, L, 64, False)): return ('cat', ())
            if not I.truth(I.mk_rel('>=', p, 0, 64, False)): raise AnalysisError('mid with a negative position')
            room = add(L, p, -1)
            if k is not None and I.truth(I.mk_rel('<', k, 0, 64, False)): k = None
            k = room if k is None else mint(I, k, room)
            return T(add(t[1], p), add(add(t[1], p), k))
        if kind == 'left':
            k = a[0]
            if I.truth(I.mk_rel('<', k, 0, 64, False)): k = L
            return T(t[1], add(t[1], mint(I, k, L)))
        if kind == 'right':
            return T(add(t[2], mint(I, a[0], L), -1), t[2])
        if kind == 'remove':
            models.note_mod(I, ob, n)
            p, k = a[0], a[1]
            if p != 0:
                k = mint(I, k, add(L, p, -1))
                if not eqz(I, add(add(p, k), L, -1)): raise AnalysisError('bytes removed from the middle')
                I.write(ob, T(t[1], add(t[1], p))); return ('lref', ob)
            if I.truth(I.mk_rel('<=', k, 0, 64, False)): return ('lref', ob)
            if not I.truth(I.mk_rel('<', 0, L, 64, False)): return ('lref', ob)
            I.write(ob, T(add(t[1], mint(I, k, L)), t[2])); return ('lref', ob)
        if kind == 'chop':
            k = mint(I, a[0], L); I.write(ob, T(t[1], add(t[2], k, -1))); return 0
        if kind in ('append', 'operator+=', 'push_back'):
            x = asT(a[0]) if len(a) == 1 else None
            if x is None: return NotImplemented
            models.note_mod(I, ob, n)
            if x == 'empty': return ('lref', ob)
            if asT(v) == 'empty': r = x
            elif add(t[2], x[1], -1) == 0: r = T(t[1], x[2])
            else: r = ('cat', (t, x))
            I.write(ob, r); return ('lref', ob)
        return NotImplemented
    return m
def be32(I, p):
    m = I.user.setdefault('lengths', [])
    for q, i in m:
        if add(p, q, -1) == 0: break
    else:
        i = next((i for q, i in m if eqz(I, add(p, q, -1))), len(m))
        m.append((p, i))
    t = ('be32', i); I.facts.set_range(t, 0, (1 << 32) - 1); return t
def need(I, src, n, node):
    """n bytes at a pointer into the sequence are read"""
    t = src[1]; I.emit('byteread', 'T', obj=src, args=(I.facts.entails_ge(add(tlen(asT(t)), add(src[2], n), -1)) and I.facts.entails_ge(src[2]),), node=node)
def m_frombe(I, n, ob, args):
    p = V(I, args[0])
    if isinstance(p, tuple) and p[:1] == ('tptr',): p = p[2]
    if isinstance(p, tuple) and p[:1] == ('dptr',): p = ('rptr', I.readv(p[1]), p[2])
    ta = str(n.get('ta') or n.get('t') or '')
    if isinstance(p, tuple) and p[:1] == ('rptr',) and asT(p[1]) not in (None, 'empty') and strip_t(n['pt'][0]).endswith('*'):
        rt = strip_t(n.get('t', '')); w = models.SIZES.get(rt)
        if w != 4: raise AnalysisError('length of %s bytes' % w)
        need(I, p, 4, n)
        x = be32(I, add(asT(p[1])[1], p[2]))
        return x if 'unsigned' in rt or rt.startswith('quint') else signed32(I, x)
    if isinstance(p, tuple) and p[:1] == ('loadT',):
        x = be32(I, p[2]); return x if 'unsigned' in strip_t(n.get('t', '')) else signed32(I, x)
    return NotImplemented
def signed32(I, x):
    if I.facts.entails_ge(add(mul(x, -1), (1 << 31) - 1)): return x
    if I.truth(I.mk_rel('<=', x, (1 << 31) - 1, 64, False)): return x
    return add(x, -(1 << 32))
def c23_reader(ctx, P):
    f = h2fn(P, 'stream', None); ctx.analysed(f); L_ = loc_of(f)
    gs = ('arg', f['params'][0]['n'])
    cfg = hcfg(P); cfg.loop_max = 3 if ctx.thorough else 2 ; cfg.loop_hard = 3 if ctx.thorough else 2
    for nm in ('size', 'length', 'count', 'isEmpty', 'constData', 'data', 'mid', 'left', 'right', 'remove', 'chop', 'append', 'operator+=', 'push_back'):
        cfg.models['QByteArray::' + nm] = mT({'length': 'size', 'count': 'size'}.get(nm, nm))
    cfg.models['qFromBigEndian'] = m_frombe
    def rx(I, n, ob, args):
        k = I.user['chunk'] = I.user.get('chunk', 0) + 1
        a = I.user.get('end', 0); t = ('chunk', k); I.facts.set_range(t, 0, (1 << 29))
        b = add(a, t); I.user['end'] = b
        return T(a, b)
    cfg.models['QIODevice::readAll'] = rx
    def deliver(I, n, ob, args):
        v = V(I, args[0]); I.emit('deliver', n['q'], obj=ptr_of(ob), args=(v,), node=n)
        if not I.user.get('stopped') and I.choose(2, ('the handler stops the stream',)) == 1:
            I.user['stopped'] = True
            raise_signal(I, gs, OKQ)
        return 0
    cfg.models[STREAM + '::handler'] = deliver
    def byteT(I, v, off):
        return None
    def post(I, r):
        R = the_reply(I)
        if not ctx.check(bool(live(I, R, 'QIODevice::readyRead')), 'reader:unconnected', 'nothing reads the received data', path=pathdesc(I.choices), **L_): return r
        p = 0
        for fire_no in range(2):
            k = len(I.trace); I.user['fire'] = fire_no
            try: raise_signal(I, R, 'QIODevice::readyRead')
            except LoopLimit:
                its = [i for i, e in enumerate(I.trace) if e.kind == 'iter']
                ctx.check(any(e.kind == 'deliver' for e in I.trace[its[-2] if len(its) > 1 else its[-1]:]), 'reader:loops', 'the reader goes round its loop without delivering a message', path=pathdesc(I.choices), **L_)
                raise
            ctx.count('chunks')
            K = dict(path=pathdesc(I.choices), **L_)
            if I.user.get('chunk', 0) <= fire_no and not I.user.get('stopped'): ctx.check(False, 'reader:unread', 'received data is not read', **K); return r
            for e in I.trace[k:]:
                if e.log: continue
                at = dict(file=e.file, line=e.line, fn=e.fn, path=K['path'])
                if e.kind == 'byteread':
                    if e.q == 'T':
                        ctx.check(e.args[0], 'reader:early', 'the length of a message is read before its 5 bytes have arrived', **at)
                elif e.kind == 'deliver':
                    ctx.count('messages')
                    t = asT(e.args[0]); n = be32(I, add(p, 1))
                    if t is None: raise AnalysisError('delivered bytes not followed: %r' % (e.args[0],))
                    ok = (t == 'empty' or eqz(I, tlen(t))) and eqz(I, n) or t != 'empty' and eqz(I, add(t[1], add(p, 5), -1)) and eqz(I, add(t[2], add(add(p, 5), n), -1))
                    ctx.check(ok, 'reader:message', 'a delivered message is not the payload of the next message of the stream', **at)
                    ctx.check(same_obj(I, e.obj, gs), 'reader:stream', 'a message is delivered to another stream', **at)
                    if not ok: return r
                    p = add(add(p, 5), n)
                elif e.kind == 'call' and e.q.startswith(STREAM + '::') and e.q.endswith('setData'): raise AnalysisError('messages are not delivered by handler()')
            if I.user.get('stopped'): return r
            fin = [e for e in I.trace[k:] if e.kind == 'call' and e.q == 'QNetworkReply::isFinished']
            if fin and I.status(fin[-1].res) is True: return r
            if not all_known(I, fin): pass
            end = I.user['end']; have = add(end, p, -1); n = be32(I, add(p, 1))
            short = not possible(I, add(have, -5)) or not possible(I, add(have, add(n, 5), -1))
            ctx.check(short, 'reader:stall', 'a message that arrived completely is not delivered', **K)
        return r
    for r in run_fn(P, cfg, f, hargs(f, empty_maps), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'reader:throws', 'an exception leaves the reader', path=pathdesc(r.choices), **L_)
    ctx.floor('messages', 2)
def empty_maps(I):
    """nothing is stored for a reply that was just made (C24: what is stored for it goes with it)"""
    d = ('fld', ('this',), 'dPtr')
    for fl in private_fields(I.prog, H2, lambda t: cls_of_type(t) in models.MAPS): I.rawwrite((('deref', d), (fl['n'],)), Struct(cls_of_type(fl['t']), None, {}))
def all_known(I, es): return True
def possible(I, d):
    """may d >= 0 hold?"""
    return I.facts.ge_status(d) is not False

def c23_response(ctx, P):
    """a unary response is what follows the prefix: shared with C18/C19 (payload), here for the blocking and the asynchronous call"""
    f = h2fn(P, 'call', 'QByteArray'); ctx.analysed(f)
    base = hargs(f)
    def mk(I):
        a = base(I); o = a[-1]
        if not (isinstance(o, tuple) and o[:1] == ('lref',)): o = ('lref', (('v', 'in', 'ret'), ())); a[-1] = o
        I.user['outloc'] = o[1]; return a
    def post(I, r):
        R = the_reply(I); tr, h = http_outcome(I, R)
        if not tr and I.truth(I.mk_eq(h, 0)):
            v = I.readv(I.user['outloc']); ctx.count('responses')
            ctx.check(payload(v, R), 'response:sync', 'the response is not the bytes after the 5-byte prefix (%s)' % str(v)[:80], path=pathdesc(I.choices), **loc_of(f))
        return r
    for r in run_fn(P, hcfg(P), f, mk, ctx.stats, post=post): ctx.count('paths')
    g = h2fn(P, 'call', 'QGrpcCallReply'); ctx.analysed(g); rep = ('arg', g['params'][-1]['n'])
    cfg = hcfg(P); cfg.opaque |= {SETQ}
    def post2(I, r):
        R = the_reply(I); k = len(I.trace); raise_signal(I, R, 'QNetworkReply::finished')
        tr, h = http_outcome(I, R)
        if not tr and I.truth(I.mk_eq(h, 0)):
            st = calls(I, SETQ, k, rep); ctx.count('responses')
            ctx.check(bool(st) and payload(st[-1].args[0], R), 'response:async', 'the response is not the bytes after the 5-byte prefix', path=pathdesc(I.choices), **loc_of(g))
        return r
    for r in run_fn(P, cfg, g, hargs(g), ctx.stats, post=post2): ctx.count('paths')

def c23_native(ctx):
    P = nload()
    svc = ('arg', 'service')
    for name, last, key in (('call', 'QByteArray', 'native-sync'), ('call', 'QGrpcCallReply', 'native-async'), ('stream', None, 'native-stream')):
        with ctx.guard(key): c23_native_one(ctx, P, name, last, key, svc)
def m_bbctor(I, n, ob, args):
    if len(args) != 2: return NotImplemented
    p, k = V(I, args[0]), V(I, args[1])
    if not isinstance(k, int): raise AnalysisError('buffer of a variable number of slices')
    out = []
    for i in range(k):
        if not (isinstance(p, tuple) and p[0] == 'addr') or k > 1: raise AnalysisError('slices of a buffer not recognised')
        out.append(I.readv(p[1]))
    return ('bytebuf', tuple(out))
def m_bbswap(I, n, ob, args):
    o = I.deref(V(I, args[0])); a, b = I.readv(ob), I.readv(o)
    I.write(ob, b); I.write(o, a); return 0
def c23_native_one(ctx, P, name, last, key, svc):
    f = npfn(P, name, last); ctx.analysed(f); L_ = loc_of(f)
    if name == 'stream':
        o = ('arg', f['params'][0]['n']); mth = ('fld', ('init', ('deref', o)), 'm_method'); pay = ('fld', ('init', ('deref', o)), 'm_arg')
    else: mth, pay = ('arg', 'method'), ('arg', 'args')
    cfg = ncfg(P); cfg.models['grpc::ByteBuffer::ByteBuffer'] = m_bbctor; cfg.models['grpc::ByteBuffer::Swap'] = m_bbswap
    cfg.models[STREAM + '::method'] = lambda I, n, ob, args: mth
    cfg.models[STREAM + '::arg'] = lambda I, n, ob, args: pay
    cfg.opaque |= {SETQ, STREAM + '::handler'}
    out = {}
    def post(I, r):
        if name == 'stream':
            # the worker hands over every message; the signal it emits reaches the stream
            finish_workers(I)
            rep = ('arg', f['params'][0]['n'])
            got = [e for e in I.trace if e.kind == 'call' and e.q == NSTREAM + '::dataReady' and not e.log]
            k = len(I.trace)
            I.user['got'] = [e.args[0] for e in got]
        elif last == 'QGrpcCallReply': finish_workers(I)
        return r
    seen = 0
    for r in run_fn(P, cfg, f, nargs(f), ctx.stats, post=post):
        I = r.I; ctx.count('paths'); K = dict(path=pathdesc(r.choices), **L_)
        rq = [e for e in I.trace if e.kind == 'call' and not e.log and (e.q == BUC or e.q.endswith('ClientReaderFactory::Create'))]
        if not ctx.check(len(rq) == 1, key + ':requests', 'an operation makes %d requests' % len(rq), **K): continue
        e = rq[0]; ctx.count('requests')
        buf = next((a for a in e.args if mentions(a, 'bytebuf')), None)
        if buf is None: raise AnalysisError('request buffer not recognised: %r' % (e.args,))
        sl = buf[1] if buf[:1] == ('bytebuf',) else None
        if sl is None or not all(isinstance(x, tuple) and x[:2] == ('ctor', 'grpc::Slice') for x in sl): raise AnalysisError('request buffer not followed: %r' % (buf,))
        ok = len(sl) == 1 and sl[0][2][0] == 'rptr' and unwrap(sl[0][2][1]) == pay and sl[0][2][2] == 0 and (sl[0][3] == ('size', pay) or I.status(I.mk_eq(sl[0][3], ('size', pay))) is True)
        ctx.check(ok, key + ':payload', 'the request is not exactly the payload: %s' % str(sl)[:120], **K)
        nm = [a for a in e.args if isinstance(a, tuple) and a[:1] == ('ctor',) and 'RpcMethod' in str(a[1])]
        if len(nm) != 1: raise AnalysisError('method of the request not recognised')
        t = textof(I, nm[0][2])
        if any(isinstance(x, tuple) and x not in (svc, mth) for x in t): raise AnalysisError('method of the request not followed: %r' % (t,))
        ctx.check(t == ['/', svc, '/', mth], key + ':path', 'the request does not go to /service/method but to %s' % str(t), **K)
        kind = nm[0][3] if len(nm[0]) > 3 else None
        if isinstance(kind, int): ctx.check(kind == (2 if name == 'stream' else 0), key + ':kind', 'the request is of the wrong kind', **K)
        if name == 'stream':
            dumps = [d for d in I.trace if d.kind == 'call' and d.q == 'grpc::ByteBuffer::Dump' and not d.log and I.status(I.mk_eq(('gcode', d.res), 0)) is not False]
            want = [native_bytes(I, d.args[0]) for d in dumps]
            ctx.check(I.user['got'] == want, key + ':messages', 'the messages handed over are not the received ones in order: %s' % str(I.user['got'])[:120], **K); seen += len(want)
    if name == 'stream': ctx.count('messages', seen)

# ------------------------------------------------------------------ C24
def stream_field(P, t):
    fl = [x['n'] for x in P.records[STREAM]['fields'] if strip_t(x['t']) == t]
    if len(fl) != 1: raise AnalysisError('field of type %s of a stream not recognised' % t)
    return fl[0]
def handler_field(P):
    fl = [x['n'] for x in P.records[STREAM]['fields'] if 'function' in x['t'] or 'StreamHandler' in x['t']]
    if len(fl) != 1: raise AnalysisError('handlers of a stream not recognised')
    return fl[0]
CHS = CHAN + '::stream'
def walk_mods(ctx, I, key, start=0):
    for e in I.trace[start:]:
        if e.log: continue
        if e.kind == 'modify-while-walking': ctx.check(False, key + ':walk', 'a list is changed while it is being walked', file=e.file, line=e.line, fn=e.fn, path=pathdesc(I.choices))
        elif e.kind == 'stale-iter': ctx.check(False, key + ':stale', 'an iterator is used after its list was changed', file=e.file, line=e.line, fn=e.fn, path=pathdesc(I.choices))
def c24(ctx):
    ctx.rule('Typestate dataflow of streams over the client: the list of active streams is arbitrary (0 to 2 distinct streams, every combination of equal and different method and argument). A request equal to an active stream returns it, adds the handler and starts nothing; any other is handed to the channel once and listed. Raising the finished signal removes exactly that stream and both its connections to the client; the timer of an error hands the stream to the channel again exactly when it is still listed and alive. Replacing the channel aborts every active stream; aborting changes the list, so the list itself is not walked meanwhile, nor are the handlers of a stream, which may add handlers.')
    ctx.rule('Channels: for every way a stream ends (stopped by the client or from inside a handler, client destroyed, transfer ended) the handlers connected at that point are run; afterwards neither new nor already queued data and no end of the transfer reaches the stream, the stored data of the transfer is gone and the transfer is aborted or cancelled and released.')
    ctx.assume('queued functor calls are delivered even if their connection was removed meanwhile (Qt); connections of a deleted object are removed; two active streams never have the same method and argument (first rule)')
    P = gload()
    with ctx.guard('client'): c24_client(ctx, P)
    with ctx.guard('attachChannel'): c24_attach(ctx, P)
    with ctx.guard('handlers'): c24_handlers(ctx, P)
    with ctx.guard('http2'): c24_http2(ctx)
    with ctx.guard('native'): c24_native(ctx)
    ctx.floor('scenarios', 10)

def active_now(I, P):
    v = I.readv(active_loc(P))
    if not models.explicit(v): raise AnalysisError('list of active streams: %r' % (v,))
    return [p[1] for p in v[1]]
def c24_client(ctx, P):
    src_ = [x for x in P.functions.values() if x['q'] == CLIENT + '::stream' and x.get('body') and 'function' in x['params'][-1].get('t', '') + x['params'][-1].get('ct', '')]
    if len(src_) != 1: raise AnalysisError('stream(method, data, handler) not found (%d)' % len(src_))
    f = src_[0]; ctx.analysed(f); L_ = loc_of(f)
    mf, af = stream_field(P, 'QString'), stream_field(P, 'QByteArray'); hf = handler_field(P)
    hv = ('arg', f['params'][-1]['n'])
    mv, av = ('arg', f['params'][0]['n']), ('arg', f['params'][1]['n'])
    def post(I, r):
        dangling(ctx, I, 'client')
        v = I.val(r)
        ch = calls(I, CHS); old = I.user['old']
        if not ch and not (isinstance(v, tuple) and v in old): 
            if I.status(v) is False or v == 0:
                ctx.check(active_now(I, P) == old, 'refused:listed', 'a stream that was not started changes the list', path=pathdesc(I.choices), **L_)
                return r
        I.user['born'] = {}
        same = []
        for x in old:
            o = ('deref', x)
            e1 = I.truth(I.mk_eq(unwrap(I.readv((o, (mf,)))), mv)); e2 = e1 and I.truth(I.mk_eq(unwrap(I.readv((o, (af,)))), av))
            if e1 and e2: same.append(x)
        K = dict(path=pathdesc(I.choices), **L_); now = active_now(I, P); ctx.count('scenarios')
        walk_mods(ctx, I, 'start')
        if same:
            ctx.check(v in same, 'dup:other', 'a request equal to an active stream does not return that stream', **K)
            ctx.check(not ch, 'dup:started', 'a request equal to an active stream is started again', **K)
            ctx.check(now == old, 'dup:listed', 'a request equal to an active stream changes the list', **K)
            if I.truth(I.mk_eq(hv, 0)): return r
            if v in same:
                hs = I.readv((('deref', v), (hf,)))
                ps = [p for p in (hs[1] if isinstance(hs, tuple) and hs[:1] == ('cat',) else (hs,))]
                ctx.check([p for p in ps if p == ('e', hv)] == [('e', hv)] and len(ps) == 2 and ps[1] == ('e', hv), 'dup:handler', 'the handler is not added once to the active stream: %s' % str(ps)[:100], **dict(K, path=pathdesc(I.choices)))
            return r
        ctx.check(isinstance(v, tuple) and v[0] == 'addr' and v[1][0][0] == 'heap' and v not in old, 'new:shared', 'a request that differs from every active stream gets the stream of another request', **K)
        if not (isinstance(v, tuple) and v[0] == 'addr'): return r
        ctx.check(len(ch) == 1 and any(a == v for a in ch[0].args), 'new:started', 'a new stream is handed to the channel %d times' % len(ch), **K)
        ctx.check(now == old + [v], 'new:listed', 'a started stream is not listed as active once', **K)
        o = v[1]
        ctx.check(unwrap(I.readv((o[0], o[1] + (mf,)))) == mv and unwrap(I.readv((o[0], o[1] + (af,)))) == av, 'new:fields', 'a new stream does not carry the method and argument of the request', **K)
        hs = I.readv((o[0], o[1] + (hf,)))
        if not I.truth(I.mk_eq(hv, 0)): ctx.check(hs == ('cat', (('e', hv),)), 'new:handler', 'the handler is not installed once in the new stream', **K)
        # life of the stream
        how = I.choose(4, ('then',))
        k = len(I.trace); n0 = len(ch)
        def restarts(): return [e for e in calls(I, CHS, k) if any(a == v for a in e.args)]
        if how == 0:
            later = ('stream', 'later'); al = active_loc(P); I.write(al, models.cat(I.readv(al), ('cat', (('e', later),))))
            lf = [to_lin(add(unwrap(I.readv((('deref', later), (x,)))), y, -1)) for x, y in ((mf, mv), (af, av))]
            I.facts.add_ne(lf[I.choose(2, ('a stream was started since that differs in', ))])
            raise_signal(I, v, OKQ); K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(active_now(I, P) == old + [later], 'finish:listed', 'a finished stream is not removed from the list, or another one is', **K)
            for q in (OKQ, OEQ): ctx.check(not [e for e in live(I, v, q) if capt(e)], 'finish:connected', 'a finished stream stays connected to the client', **K)
        elif how == 1:
            raise_signal(I, v, OEQ, [('sigma',)])
            ctx.check(active_now(I, P) == old + [v], 'error:delisted', 'a stream that failed and will be restarted is not listed any more', **K)
            tm = timers(I, k)
            if not ctx.check(len(tm) == 1, 'error:timer', 'an error schedules %d restarts' % len(tm), **K): return r
            ctx.check(same_obj(I, tm[0].obj, THIS), 'error:context', 'the restart is not bound to the client', **K)
            alive(I, tm[0].args[1])
            x = fire(I, tm[0].args[1], tm[0].obj, [])
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(x is None and len(restarts()) == 1, 'error:restart', 'a failed stream that is still wanted is restarted %d times' % len(restarts()), **K)
        elif how == 2:
            raise_signal(I, v, OEQ, [('sigma',)]); tm = timers(I, k)
            raise_signal(I, v, OKQ)
            gone = I.choose(2, ('handle released',)) == 1
            for t in tm: alive(I, t.args[1], not gone); fire(I, t.args[1], t.obj, [])
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(not restarts(), 'error:revived', 'a stream that was finished or released is restarted', **K)
            ctx.check(active_now(I, P) == old, 'finish:listed2', 'a finished stream is listed', **K)
        else:
            # failed, restarted, failed again
            for j in range(2):
                raise_signal(I, v, OEQ, [('sigma', j)])
                t = timers(I, k)[j:]
                if t: alive(I, t[0].args[1]); fire(I, t[0].args[1], t[0].obj, [])
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(len(restarts()) == 2, 'error:again', 'a stream that fails again is not restarted once per failure', **K)
            ctx.check(active_now(I, P) == old + [v], 'error:twice', 'a restarted stream is listed twice or not at all', **K)
        null_deref(ctx, I, 'life', k)
        walk_mods(ctx, I, 'life', k)
        return r
    base = gargs(f, (0, 1, 2))
    def mk(I):
        a = base(I)
        I.facts.add_eq(add(('curthread',), ('thread', THIS), -1))
        I.user['old'] = active_now(I, P)
        return a
    for r in run_fn(P, gcfg(P), f, mk, ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'start:throws', 'an exception leaves the request', path=pathdesc(r.choices), **L_)
def capt(e):
    """a connection that keeps the stream or uses the client"""
    return isinstance(e.args[1], Closure)
def timers(I, k): return [e for e in I.trace[k:] if e.kind == 'timer' and not e.log]
def alive(I, fn, yes=True):
    """decide whether the objects a closure refers to weakly still exist"""
    if isinstance(fn, Closure):
        d = I.user.setdefault('dead', {})
        for k, (kind, v) in fn.env.items():
            if kind != 'ref' and isinstance(v, tuple): d[v] = not yes

def c24_attach(ctx, P):
    fs = [f for f in P.functions.values() if f['q'] == CLIENT + '::attachChannel' and f.get('body')]
    if len(fs) != 1: raise AnalysisError('attachChannel not found')
    f = fs[0]; ctx.analysed(f); L_ = loc_of(f); al = active_loc(P); ch = ('arg', f['params'][0]['n'])
    cfg = gcfg(P); cfg.models[CHAN + '::thread'] = lambda I, n, ob, args: ('curthread',)
    def ab(I, n, ob, args):
        p = ptr_of(ob); v = I.readv(al)
        I.emit('call', n['q'], obj=p, args=(), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
        if models.explicit(v) and ('e', p) in v[1]:
            models.note_mod(I, al, n); models.moved(I, al); I.write(al, ('cat', tuple(x for x in v[1] if x != ('e', p))))
        return 0
    for q in (STREAM + '::abort', OPBASE + '::abort', STREAM + '::finished', OKQ): cfg.models[q] = ab
    base = gargs(f, (0, 1, 2))
    def mk(I):
        a = base(I); I.facts.add_ne(to_lin(ch)); I.user['born'] = {}; I.user['old'] = active_now(I, P); return a
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        ctx.count('paths'); ctx.count('scenarios'); I = r.I; K = dict(path=pathdesc(r.choices), **L_)
        if r.exc: ctx.check(False, 'attach:throws', 'replacing the channel throws', **K); continue
        walk_mods(ctx, I, 'attach'); null_deref(ctx, I, 'attach')
        done = [e.obj for e in I.trace if e.kind == 'call' and e.q in cfg.models and e.q.split('::')[-1] in ('abort', 'finished')]
        for x in I.user['old']: ctx.check(x in done, 'attach:kept', 'a stream of the former channel is not aborted when the channel is replaced', **K)
        ctx.check(active_now(I, P) == [], 'attach:listed', 'a stream of the former channel stays listed', **K)
        for fl in private_fields(P, CLIENT, lambda t: 'Channel' in t):
            ctx.check(unwrap(I.readv((active_loc(P)[0], (fl['n'],)))) == ch, 'attach:used', 'the attached channel is not the one used afterwards', **K)

def c24_handlers(ctx, P):
    hf = handler_field(P)
    fs = [f for f in P.functions.values() if f['q'] == STREAM + '::handler' and f.get('body')]
    if len(fs) != 1: raise AnalysisError('handler() not found')
    f = fs[0]; ctx.analysed(f); L_ = loc_of(f); hl = (('this',), (hf,))
    cfg = gcfg(P); cfg.opaque |= {SETQ}
    def call(I, n, ob, args):
        fv = I.readv(ob); I.emit('call', 'handler()', obj=fv, args=tuple(V(I, a) for a in args), node=n, extra={'objv': None, 'locs': [], 'indirect': fv})
        if not I.user.get('added') and I.choose(2, ('the handler asks for the same stream again',)) == 1:
            I.user['added'] = True; v = I.readv(hl); models.note_mod(I, hl, n); models.moved(I, hl)
            I.write(hl, models.cat(v, ('cat', (('e', ('handler', 'new')),))))
        return 0
    cfg.models['std::function::operator()'] = call
    D = ('message',)
    def mk(I):
        k = I.choose(3, ('handlers',)); I.user['k'] = k; I.user['born'] = {}
        I.rawwrite(hl, ('cat', tuple(('e', ('handler', i)) for i in range(k))))
        for i in range(k): I.facts.add_ne(to_lin(('handler', i)))
        I.rawwrite((('v', 'in', 'data'), ()), D)
        return [('lref', (('v', 'in', 'data'), ()))]
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        ctx.count('paths'); ctx.count('scenarios'); I = r.I; K = dict(path=pathdesc(r.choices), **L_)
        if r.exc: ctx.check(False, 'handler:throws', 'delivering a message throws', **K); continue
        walk_mods(ctx, I, 'handler')
        hs = [e for e in I.trace if e.kind == 'call' and e.q == 'handler()']
        got = [e.obj for e in hs]; want = [('handler', i) for i in range(I.user['k'])]
        ctx.check([g for g in got if g != ('handler', 'new')] == want, 'handler:each', 'a message does not run every handler once in order', **K)
        ctx.check(all(unwrap(e.args[0]) == D for e in hs), 'handler:data', 'a handler gets other data than the message', **K)
        st = calls(I, SETQ); rd = calls(I, STREAM + '::messageReceived')
        ctx.check(len(st) == 1 and unwrap(st[0].args[0]) == D, 'handler:stored', 'the message is not stored in the stream', **K)
        ctx.check(len(rd) == 1, 'handler:signal', 'the arrival of a message is signalled %d times' % len(rd), **K)
        if rd and st: ctx.check(I.trace.index(st[0]) < I.trace.index(rd[0]), 'handler:order', 'the arrival of a message is signalled before the message is stored', **K)

def stored_for(I, P, R):
    """is anything stored for this reply in the maps of the channel?"""
    d = ('fld', ('this',), 'dPtr'); out = []
    for fl in private_fields(P, H2, lambda t: cls_of_type(t) in models.MAPS):
        v = I.readv((('deref', d), (fl['n'],)))
        if isinstance(v, Struct) and ('[]', R) in v.f: out.append(fl['n'])
    return out
def released(I, R, k): return bool(calls(I, 'QObject::deleteLater', k, R)) or any(e.kind == 'delete' and same_obj(I, e.obj, R) for e in I.trace[k:])
def c24_http2(ctx):
    P = hload(); f = h2fn(P, 'stream', None); ctx.analysed(f); L_ = loc_of(f)
    gs = ('arg', f['params'][0]['n']); cl = ('arg', f['params'][-1]['n'])
    cfg = hcfg(P); cfg.opaque |= {SETQ}; cfg.loop_max = 2; cfg.loop_hard = 2
    for nm in ('size', 'length', 'count', 'isEmpty', 'constData', 'data', 'mid', 'left', 'right', 'remove', 'chop', 'append', 'operator+=', 'push_back'):
        cfg.models['QByteArray::' + nm] = mT({'length': 'size', 'count': 'size'}.get(nm, nm))
    cfg.models['qFromBigEndian'] = m_frombe
    def rx(I, n, ob, args):
        k = I.user['chunk'] = I.user.get('chunk', 0) + 1
        a = I.user.get('end', 0); t = ('chunk', k); I.facts.set_range(t, 0, (1 << 29)); b = add(a, t); I.user['end'] = b
        return T(a, b)
    cfg.models['QIODevice::readAll'] = rx
    def deliver(I, n, ob, args):
        I.emit('call', n['q'], obj=ptr_of(ob), args=(V(I, args[0]),), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
        if I.user.get('stopnow') and not I.user.get('stopped'):
            I.user['stopped'] = len(I.trace); I.emit('stopped', '', node=n); raise_signal(I, gs, OKQ); I.user['stopdone'] = len(I.trace)
        return 0
    cfg.models[STREAM + '::handler'] = deliver
    cfg.models['QNetworkReply::isFinished'] = lambda I, n, ob, args: 0
    OUT = (STREAM + '::handler', OKQ, OEQ, SETQ, STREAM + '::messageReceived')
    def quiet(I, k, R, key, what):
        """after the end: nothing the transfer still does reaches the stream"""
        k2 = len(I.trace); npost = len(calls(I, 'QNetworkAccessManager::post'))
        raise_signal(I, R, 'QIODevice::readyRead'); raise_signal(I, R, 'QNetworkReply::finished')
        K = dict(path=pathdesc(I.choices), **L_)
        ctx.check(not calls(I, OUT, k2, gs), key + ':late', 'data or the end of the transfer reaches the stream after ' + what, **K)
        ctx.check(len(calls(I, 'QNetworkAccessManager::post')) == npost, key + ':reopened', 'the stream is opened again after ' + what, **K)
        ctx.check(not stored_for(I, P, R), key + ':stored', 'data of the transfer is kept after ' + what, **K)
        ctx.check(released(I, R, k), key + ':leak', 'the transfer is not released after ' + what, **K)
        walk_mods(ctx, I, key)
    def post(I, r):
        dangling(ctx, I, 'http2')
        R = the_reply(I); k = len(I.trace); ctx.count('scenarios')
        how = I.choose(5, ('then',))
        if how in (0, 1):
            some = I.choose(2, ('after data',)) == 1
            if some: raise_signal(I, R, 'QIODevice::readyRead')
            k = len(I.trace)
            if how == 0: raise_signal(I, gs, OKQ)
            else: raise_signal(I, cl, 'QObject::destroyed')
            ctx.check(not calls(I, OUT, k, gs), 'http2:echo', 'the end of a stream signals it once more', path=pathdesc(I.choices), **L_)
            quiet(I, k, R, 'http2-abort' if how == 0 else 'http2-client', 'the stream was stopped' if how == 0 else 'the client was destroyed')
        elif how == 2:
            I.user['stopnow'] = True
            raise_signal(I, R, 'QIODevice::readyRead')
            if not I.user.get('stopped'): return r
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(not calls(I, OUT, I.user['stopdone'], gs), 'http2-inside:late', 'messages are delivered to a stream its handler stopped', **K)
            for e in I.trace[I.user['stopdone']:]:
                if e.kind == 'deref' and not e.log and e.q in ('end', 'maybe-end'): ctx.check(False, 'http2-inside:gone', 'the data of a stream its handler stopped is used', file=e.file, line=e.line, fn=e.fn, path=K['path'])
            quiet(I, k, R, 'http2-inside', 'a handler stopped the stream')
        else:
            if how == 4: raise_signal(I, R, 'QIODevice::readyRead')
            k = len(I.trace)
            raise_signal(I, R, 'QNetworkReply::finished')
            again = [e.res for e in calls(I, 'QNetworkAccessManager::post', k)]
            K = dict(path=pathdesc(I.choices), **L_)
            sig = calls(I, (OKQ, OEQ), k, gs)
            ctx.check(len(sig) + len(again) == 1, 'http2-end:once', 'the end of a transfer gives %d signals and %d new transfers' % (len(sig), len(again)), **K)
            if sig: raise_signal(I, gs, sig[0].q, list(sig[0].args))
            k2 = len(I.trace); npost = len(calls(I, 'QNetworkAccessManager::post'))
            raise_signal(I, R, 'QIODevice::readyRead')
            ctx.check(not calls(I, OUT, k2, gs), 'http2-end:late', 'data reaches the stream after the transfer ended', **K)
            ctx.check(not stored_for(I, P, R), 'http2-end:stored', 'data of the transfer is kept after it ended', **K)
            ctx.check(released(I, R, k), 'http2-end:leak', 'a transfer that ended is not released', **K)
            for R2 in again:
                ctx.check(bool(live(I, R2, 'QIODevice::readyRead')) and bool(live(I, R2, 'QNetworkReply::finished')), 'http2-again:deaf', 'a transfer that was opened again is not read', **K)
        return r
    for r in run_fn(P, cfg, f, hargs(f, empty_maps), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'http2:throws', 'an exception leaves the stream or its handlers', path=pathdesc(r.choices), **L_)

def c24_native(ctx):
    P = nload(); f = npfn(P, 'stream', None); ctx.analysed(f); L_ = loc_of(f)
    gs = ('arg', f['params'][0]['n']); cl = ('arg', f['params'][-1]['n'])
    cfg = ncfg(P); cfg.opaque |= {SETQ, STREAM + '::handler'}
    OUT = (STREAM + '::handler', OKQ, OEQ, SETQ, STREAM + '::messageReceived')
    def post(I, r):
        dangling(ctx, I, 'native')
        k = len(I.trace); ctx.count('scenarios')
        con = [e for e in I.trace if e.kind == 'connect' and e.q == NSTREAM + '::dataReady']
        if not ctx.check(bool(con), 'native:unread', 'nothing receives the data of the worker', path=pathdesc(I.choices), **L_): return r
        sub = con[0].obj
        D = ('message',)
        raise_signal(I, sub, NSTREAM + '::dataReady', [D])
        got = calls(I, STREAM + '::handler', k, gs)
        ctx.check(len(got) == 1 and unwrap(got[0].args[0]) == D, 'native:deliver', 'a received message is delivered %d times' % len(got), path=pathdesc(I.choices), **L_)
        how = I.choose(3, ('then',)); k = len(I.trace)
        if how == 0: raise_signal(I, gs, OKQ); what, key = 'the stream was stopped', 'native-abort'
        elif how == 1: raise_signal(I, cl, 'QObject::destroyed'); what, key = 'the client was destroyed', 'native-client'
        else:
            finish_workers(I); what, key = 'the worker ended', 'native-end'
            sig = calls(I, (OKQ, OEQ), k, gs); K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(len(sig) == 1, 'native-end:once', 'the end of the worker gives %d signals' % len(sig), **K)
            if sig: raise_signal(I, gs, sig[0].q, list(sig[0].args))
        K = dict(path=pathdesc(I.choices), **L_)
        if how < 2:
            ctx.check(not calls(I, OUT, k, gs), key + ':echo', 'the end of a stream signals it once more', **K)
            ctx.check(bool(calls(I, 'grpc::ClientContext::TryCancel', k)), key + ':cancel', 'the call is not cancelled after ' + what, **K)
        k2 = len(I.trace)
        for e in con: fire(I, e.args[1], e.args[0], [('late',)])        # queued before the end, delivered after it
        raise_signal(I, sub, NSTREAM + '::finished')
        ctx.check(not calls(I, OUT, k2, gs), key + ':late', 'data or the end of the worker reaches the stream after ' + what, **K)
        # what holds the worker is released: no connection made for it stays
        kept = [e for e in I.trace if e.kind == 'connect' and not gone_conn(I, e) and holds(I, e.args[1], sub)]
        ctx.check(not kept, key + ':leak', 'a connection keeps the worker of the stream after ' + what, **K)
        walk_mods(ctx, I, key)
        return r
    for r in run_fn(P, cfg, f, nargs(f), ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'native:throws', 'an exception leaves the stream or its handlers', path=pathdesc(r.choices), **L_)
def gone_conn(I, e):
    for d in I.trace:
        if d.kind == 'disconnect' and e.res in d.args: return True
    return False
def holds(I, fn, obj):
    if not isinstance(fn, Closure): return False
    return any(kind != 'ref' and (v == obj or isinstance(v, tuple) and v[:1] == ('addr',) and obj_ptr(obj) == v) for k, (kind, v) in fn.env.items())

# ------------------------------------------------------------------ C25: credentials and TLS
CREDW = os.path.join(prog.VERIF, 'witness', 'cred.cpp')
REQM = ('post', 'put', 'get', 'head', 'deleteResource', 'sendCustomRequest')
LOSSY = ('QString::toLatin1', 'QString::toLocal8Bit', 'QString::toLower', 'QString::toUpper', 'QString::trimmed', 'QString::simplified', 'QString::left', 'QString::mid', 'QString::chopped',
         'QByteArray::left', 'QByteArray::mid', 'QByteArray::trimmed', 'QByteArray::toLower', 'QByteArray::toBase64', 'QByteArray::toPercentEncoding', 'QByteArray::toHex')
def chain(v):
    """the operations applied to an opaque object, last first, and what it started as"""
    out = []
    while isinstance(v, tuple) and v[:1] == ('upd',): out.append((v[1].split('::')[-1], v[3])); v = v[2]
    return out, v
def c25cfg(P):
    cfg = hcfg(P)
    # the callee is given by the caller of the channel: any table, every time the same kind of object
    cfg.models['QtProtobuf::QAbstractGrpcCredentials::callCredentials'] = lambda I, n, ob, args: credmap(I, n, 'call')
    cfg.models['QtProtobuf::QAbstractGrpcCredentials::channelCredentials'] = lambda I, n, ob, args: credmap(I, n, 'channel')
    def pure(tag):
        def m(I, n, ob, args): return (tag, I.val(I.readv(ob)))
        return m
    for nm in ('data', 'latin1', 'constData', 'begin'): cfg.models['QLatin1String::' + nm] = pure('ldata')
    cfg.models['QVariant::toString'] = pure('vstr'); cfg.models['QVariant::toByteArray'] = pure('vbytes'); cfg.models['QString::toUtf8'] = pure('utf8of')
    for q in LOSSY: cfg.models[q] = lossy
    for q in ('toStdString', 'toUtf8'): pass
    return cfg
def lossy(I, n, ob, args): return ('lossy', n['q'], I.val(I.readv(ob))) + tuple(V(I, a) for a in args)
def credmap(I, n, which):
    I.emit('call', n['q'], obj=None, args=(), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    return ('credentials', which)
def has_lossy(t):
    if isinstance(t, tuple): return t[:1] == ('lossy',) or any(has_lossy(x) for x in t)
    if isinstance(t, Struct): return any(has_lossy(x) for x in t.f.values())
    return False
def ssl_field(P):
    fl = private_fields(P, H2, lambda t: 'QSslConfiguration' in t)
    if len(fl) != 1: raise AnalysisError('TLS configuration of the channel not recognised')
    return fl[0]['n']
def url_field(P):
    fl = private_fields(P, H2, lambda t: cls_of_type(t) == 'QUrl')
    if len(fl) != 1: raise AnalysisError('URL of the channel not recognised')
    return fl[0]['n']
def c25(ctx):
    ctx.rule('Value dataflow over every request the HTTP/2 channel makes: the operations applied to the request object that is handed to the network are unwound. Each entry of the call credentials (0 to 2 of them, any names and values) is set as a raw header under its own name with the UTF-8 form of its value and is not changed afterwards; the TLS configuration is exactly the one of the channel; the URL is the one of the channel, in which only the path is replaced.')
    ctx.rule('Constructor: for a URL with the scheme https it ends normally only when the channel credentials contain a TLS configuration, which then is the one the channel holds; the scheme is never changed. No function of the library ignores TLS errors or weakens the peer verification.')
    ctx.rule('Credential templates: both orders of combining keep the call part and the channel part apart and unchanged; the combined object returns exactly what its parts provide; the user name, password and TLS configuration given to the stock credentials are the values stored under the documented keys.')
    ctx.assume('the names of call credentials are zero-terminated Latin-1 strings; QUrl keeps schemes in lower case; the network layer of Qt fails a request on TLS errors unless it is told to ignore them')
    P = hload()
    with ctx.guard('requests'): c25_requests(ctx, P)
    with ctx.guard('constructor'): c25_ctor(ctx, P)
    with ctx.guard('tls errors'): c25_ignored(ctx, P)
    with ctx.guard('templates'): c25_templates(ctx)
    ctx.floor('requests', 3); ctx.floor('constructions', 3); ctx.floor('templates', 8)

def c25_requests(ctx, P):
    sf, uf = ssl_field(P), url_field(P); d = ('fld', ('this',), 'dPtr')
    for f in (h2fn(P, 'call', 'QByteArray'), h2fn(P, 'call', 'QGrpcCallReply'), h2fn(P, 'stream', None)):
        ctx.analysed(f); L_ = loc_of(f)
        cfg = c25cfg(P); cfg.sizes = (0, 1, 2); cfg.opaque |= {SETQ}
        def post(I, r, L_=L_):
            K = dict(path=pathdesc(I.choices), **L_)
            reqs = [e for e in I.trace if e.kind == 'call' and e.q.startswith('QNetworkAccessManager::') and e.q.split('::')[-1] in REQM]
            n = [c[1] for c in I.choices if c[0][:1] == ('count',) and c[0][1] == ('credentials', 'call')]
            for e in reqs:
                ctx.count('requests'); K = dict(file=e.file, line=e.line, fn=e.fn, path=pathdesc(I.choices))
                ops, base = chain(e.args[0])
                cred = ('credentials', 'call')
                hd = [a for nm, a in ops if nm == 'setRawHeader']
                asked = [x for x in I.trace if x.kind == 'call' and x.q.endswith('::callCredentials')]
                if not ctx.check(bool(asked), 'request:unasked', 'a request is sent without asking for the call credentials', **K): continue
                cnt = n[-1] if n else 0
                if not n and I.status(I.mk_eq(models.size(I, cred), 0)) is not True:
                    ctx.check(bool([a for a in hd if mentions(a, cred)]), 'request:unused', 'a request is sent without the call credentials', **K)
                    continue
                for i in range(cnt):
                    key, val = ('key', cred, i), ('val', cred, i)
                    mine = [a for a in hd if mentions(a[0], key)]
                    if not ctx.check(len(mine) >= 1, 'request:missing', 'entry %d of the call credentials is not set on the request' % i, **K): continue
                    v = mine[0][1]
                    ctx.check(mentions(v, val) and not has_lossy(v), 'request:value', 'an entry of the call credentials is sent with another value: %s' % str(v)[:100], **K)
                    ctx.check(not has_lossy(mine[0][0]) or True, 'request:name', '', **K)
                tls = [a for nm, a in ops if nm == 'setSslConfiguration']
                ctx.check(bool(tls) and unwrap(tls[0][0]) == I.readv((('deref', d), (sf,))), 'request:tls', 'a request is sent without the TLS configuration of the channel', **K)
                u = base[2] if isinstance(base, tuple) and base[:2] == ('ctor', 'QNetworkRequest') and len(base) > 2 else None
                for nm, a in ops:
                    if nm == 'setUrl': u = a[0]; break
                if u is None: ctx.check(False, 'request:url', 'a request is sent without the URL of the channel', **K); continue
                uo, ub = chain(u)
                ctx.check(ub == ('fld', ('init', ('deref', d)), uf), 'request:url', 'a request is sent to another URL than the one of the channel: %s' % str(ub)[:80], **K)
                ctx.check(not [1 for nm, a in uo if nm in ('setScheme', 'setUrl', 'setHost', 'setPort', 'setAuthority')], 'request:scheme', 'scheme or peer of the URL of the channel are changed for a request', **K)
            return r
        base = hargs(f, empty_maps)
        def mk(I, f=f, base=base):
            a = base(I)
            for x in f['params']:
                if cls_of_type(x['t']) == 'QByteArray' and '&' in x['t'] and 'const' not in x['t']: pass
            return a
        for r in run_fn(P, cfg, f, mk, ctx.stats, post=post): ctx.count('paths')

def c25_ctor(ctx, P):
    fs = [f for f in P.functions.values() if f['q'] == H2 + '::' + H2.split('::')[-1] and f.get('body') and len(f['params']) == 2 and 'Credentials' in f['params'][1]['t']]
    if len(fs) != 1: raise AnalysisError('constructor of the channel not found')
    f = fs[0]; ctx.analysed(f); L_ = loc_of(f); sf, uf = ssl_field(P), url_field(P)
    S = ('scheme',)
    cfg = c25cfg(P)
    kinds = ('https', 'http', '', None)
    def scheme(I, n, ob, args):
        if n['q'].endswith('scheme'):
            v = I.readv(ob); ops, b = chain(v)
            for nm, a in ops:
                if nm == 'setScheme': return a[0]
            k = I.user.get('scheme')
            return S if k is None else ('s', k)
    cfg.models['QUrl::scheme'] = scheme
    def sch_upd(I, n, ob, args): I.write(ob, ('upd', n['q'], I.readv(ob), tuple(V(I, a) for a in args))); return 0
    cfg.models['QUrl::setScheme'] = sch_upd
    cfg.models['QLatin1String::QLatin1String'] = lambda I, n, ob, args: V(I, args[0]) if len(args) == 1 else NotImplemented
    def compare(I, n, ob, args):
        a = [] if ob is None or n.get('static') else [I.readv(ob)]
        a += [V(I, x) for x, t in zip(args, n['pt']) if 'CaseSensitivity' not in t]
        ci = any('CaseSensitivity' in t and V(I, x) == 0 for x, t in zip(args, n['pt']))
        low = lambda v: ('s', v[1].lower()) if ci and isinstance(v, tuple) and v[:1] == ('s',) and isinstance(v[1], str) else v
        return I.neg(I.mk_eq(low(a[0]), low(a[1]))) if len(a) == 2 else NotImplemented
    cfg.models['QString::compare'] = compare
    for nm, fnc in (('toLower', str.lower), ('toUpper', str.upper), ('trimmed', str.strip), ('simplified', str.strip)):
        cfg.models['QString::' + nm] = lambda I, n, ob, args, fnc=fnc: (lambda v: ('s', fnc(v[1])) if isinstance(v, tuple) and v[:1] == ('s',) else v)(I.readv(ob))
    def mk(I):
        k = kinds[I.choose(4, ('scheme',))]; I.user['scheme'] = k
        for x in ('https', 'http', ''): I.facts.add_ne(to_lin(add(S, ('s', x), -1)))
        I.facts.add_ge(add(models.size(I, S), -1))
        a = arg_values(I, P, f, None)
        I.facts.add_ne(to_lin(('arg', f['params'][1]['n'])))
        return a
    cm = ('credentials', 'channel')
    for r in run_fn(P, cfg, f, mk, ctx.stats):
        ctx.count('paths'); ctx.count('constructions'); I = r.I; K = dict(path=pathdesc(r.choices), **L_)
        if r.exc:
            ctx.check(I.user['scheme'] == 'https', 'ctor:refused', 'a channel without TLS cannot be built', **K)
            continue
        p = I.readv((('this',), ('dPtr',)))
        if not (isinstance(p, tuple) and p[0] == 'addr'): raise AnalysisError('private part of the channel not built: %r' % (p,))
        o = p[1]
        tls = I.readv((o[0], o[1] + (sf,))); u = I.readv((o[0], o[1] + (uf,)))
        uo, ub = chain(u)
        if I.user['scheme'] == 'https':
            ctx.check(isinstance(tls, tuple) and tls[:3] == ('op', 'QVariant::value', 'QSslConfiguration') and mentions(tls, cm) and key_is(tls), 'ctor:tls', 'an https channel is built that does not use the TLS configuration of its credentials', **K)
            has = [c for c in r.choices if c[0][:1] == ('eq',) and isinstance(c[0][1], tuple) and c[0][1][:2] == ('contains', cm)]
            ctx.check(any(c[1] == 1 and tls_key(c[0][1][2]) for c in has), 'ctor:unchecked', 'an https channel is built although the credentials hold no TLS configuration', **K)
            ctx.check(not [1 for nm, a in uo if nm in ('setScheme', 'setUrl')], 'ctor:downgrade', 'the scheme of an https channel is changed', **K)
        ctx.check(unwrap(ub) == ('arg', f['params'][0]['n']), 'ctor:url', 'the channel does not keep its URL', **K)
        cr = [I.readv((o[0], o[1] + (fl['n'],))) for fl in private_fields(P, H2, lambda t: 'QAbstractGrpcCredentials' in t)]
        ctx.check(unwrap(cr[0]) == ('arg', f['params'][1]['n']) if cr else False, 'ctor:credentials', 'the channel does not keep its credentials', **K)
def tls_key(t): return mentions(t, ('s', 'sslConfig')) or mentions(t, ('init', ('g', 'QtProtobuf::SslConfigCredential')))
def key_is(v):
    """the configuration is looked up under the key of TLS configurations"""
    def find(t):
        if isinstance(t, tuple):
            if t[:2] == ('at', ('credentials', 'channel')): return [t[2]]
            return [y for x in t for y in find(x)]
        return []
    ks = find(v)
    return bool(ks) and all(tls_key(k) for k in ks)

def c25_ignored(ctx, P):
    bad = {'ignoreSslErrors': 'TLS errors are ignored', 'setPeerVerifyMode': 'the peer verification is changed', 'setPeerVerifyDepth': 'the peer verification is changed', 'setStrictTransportSecurityEnabled': None}
    n = 0
    for f in P.functions.values():
        if not f.get('body') or not in_repo(f): continue
        n += 1
        for x in walk(f['body']):
            q = x.get('q', '') if isinstance(x, dict) else ''
            nm = q.split('::')[-1]
            if bad.get(nm) and q.split('::')[0] in ('QNetworkReply', 'QSslSocket', 'QSslConfiguration', 'QNetworkAccessManager', 'QNetworkReplyHttpImpl'):
                ctx.check(False, 'tls:' + nm, bad[nm] + ' (%s)' % q, file=f['file'], line=x.get('l', f['line']), fn=f['q'])
    ctx.count('library_functions', n); ctx.check(n > 20, 'tls:none', 'library functions not found', file='src/grpc', line=0, fn='')
def in_repo(f): return f['file'].startswith('src/') or '/src/grpc' in f['file'] or '/src/protobuf' in f['file']

def c25_templates(ctx):
    P = prog.load([CREDW] + src('qgrpccredentials.cpp'), roots=[os.path.join(prog.VERIF, 'witness')])
    def fn(nm):
        fs = [x for x in P.functions.values() if x['q'] == 'witness::' + nm and x.get('body')]
        if len(fs) != 1: raise AnalysisError('witness ' + nm + ' not found')
        return fs[0]
    def run(nm, then):
        f = fn(nm); ctx.count('templates')
        for r in run_fn(P, gcfg(P), f, lambda I: arg_values(I, P, f, None), ctx.stats, post=then): 
            ctx.count('paths')
            if r.exc: ctx.check(False, nm + ':throws', 'building credentials throws', **loc_of(f))
    C, H = ('arg', 'call'), ('arg', 'channel')
    where = {}
    for x in P.functions.values():
        if x['q'] == 'QtProtobuf::QGrpcCredentials::QGrpcCredentials' and x.get('body'): where['c'] = loc_of(x)
        if x['q'] == 'QtProtobuf::QGrpcUserPasswordCredentials::QGrpcUserPasswordCredentials' and x.get('body'): where['u'] = loc_of(x)
        if x['q'] == 'QtProtobuf::QGrpcSslCredentials::QGrpcSslCredentials' and x.get('body'): where['s'] = loc_of(x)
    W = lambda k, nm: where.get(k) or loc_of(fn(nm))
    def made(nm):
        def th(I, r):
            v = I.val(r)
            o = I.readv(v[1]) if isinstance(v, tuple) and v[0] == 'addr' else None
            fs = list(o.f.values()) if isinstance(o, Struct) else []
            ctx.check(C in fs and H in fs and len(fs) == 2, nm + ':parts', 'combined credentials do not hold both parts: %s' % str(fs)[:120], path=pathdesc(I.choices), **W('c', nm))
            return r
        return th
    for nm in ('callThenChannel', 'channelThenCall'): run(nm, made(nm))
    def returned(nm, q, part):
        def th(I, r):
            v = I.val(r); es = [e for e in I.trace if e.kind == 'call' and e.q == q]
            ok = len(es) == 1 and es[0].res == v or v == ('op', q, part)
            src_ = v[2] if isinstance(v, tuple) and v[:2] == ('op', q) and len(v) > 2 else es[0].extra.get('objv') if es else None
            ctx.check(bool(ok) and (src_ is None or unwrap(src_) == part), nm + ':value', 'combined credentials do not return what their %s part provides: %s' % ('call' if part == C else 'channel', str(v)[:100]), path=pathdesc(I.choices), **W('c', nm))
            return r
        return th
    for nm in ('bothCall', 'onlyCall'): run(nm, returned(nm, 'witness::CallPart::operator()', C))
    for nm in ('bothChannel', 'onlyChannel'): run(nm, returned(nm, 'witness::ChannelPart::channelCredentials', H))
    def stored(nm, want, k):
        def th(I, r):
            v = I.val(r)
            got = {}
            if isinstance(v, Struct):
                for kk, x in v.f.items():
                    if isinstance(kk, tuple) and kk[0] == '[]':
                        name = [w for w in want if mentions(kk[1], w) or w == ('s', 'sslConfig') and tls_key(kk[1])]
                        got[name[0] if len(name) == 1 else kk[1]] = unwrap_variant(x)
            else: raise AnalysisError('credential table not recognised: %r' % (v,))
            ctx.check(got == want, nm + ':table', 'the credentials hold %s' % str(got)[:160], path=pathdesc(I.choices), **W(k, nm))
            return r
        return th
    run('userPassword', stored('userPassword', {('s', 'user-name'): ('arg', 'user'), ('s', 'user-password'): ('arg', 'password')}, 'u'))
    run('ssl', stored('ssl', {('s', 'sslConfig'): ('arg', 'configuration')}, 's'))
def unwrap_variant(x):
    x = unwrap(x)
    return unwrap(x[2]) if isinstance(x, tuple) and x[:1] == ('variant',) else x

# ------------------------------------------------------------------ C26: workers of the native channel
def c26(ctx):
    ctx.rule('Happens-before dataflow over the native channel: each operation is run up to the start of its worker, then stopped in each way it can be (or not), then the worker runs on all its paths and ends, then what is connected to its end runs. Memory that the worker writes and that existed before it started is not touched by anything else between the start and the end of the worker; the worker stores a status on every path and does not itself announce its end, which follows the end of the thread.')
    ctx.rule('Capture and ownership lint: the function given to a thread captures nothing by reference and no raw pointer except the object it belongs to. The destructor of that object cancels the call and then waits for the thread without limit before it destroys anything else; no thread is terminated.')
    ctx.assume('QThread::wait without limit and QThread::finished happen after the end of the worker; a signal connected to QThread::finished is emitted after it; gRPC keeps the channel of a started call alive through its client context; the data of queued signals is copied')
    P = nload()
    ctx.P26 = P; owners = {}
    with ctx.guard('operations'): c26_ops(ctx, P, owners)
    with ctx.guard('destructors'): c26_dtors(ctx, P, owners)
    ctx.floor('workers', 3); ctx.floor('destructors', 2)
def finite(I, n, args):
    """is this a wait that can give up?"""
    a = [V(I, x) for x in args]
    if not a: return False
    v = a[0]
    if isinstance(v, int): return v < (1 << 32) - 1
    if isinstance(v, tuple) and v[:2] == ('ctor', 'QDeadlineTimer'):
        return len(v) > 2 and 'ForeverConstant' not in str(n.get('pt')) and isinstance(v[2], int) and v[2] not in (0, -1)
    return isinstance(v, tuple) and v[:1] == ('arg',)
def c26_ops(ctx, P, owners):
    for name, last in (('call', 'QByteArray'), ('call', 'QGrpcCallReply'), ('stream', None)):
        f = npfn(P, name, last); ctx.analysed(f); L_ = loc_of(f); key = 'sync' if last == 'QByteArray' else 'async' if name == 'call' else 'stream'
        cfg = ncfg(P); cfg.opaque |= {SETQ, STREAM + '::handler'}
        cfg.watch = lambda I, root, path: '.'.join(map(str, path)) if root[0] in ('heap', 'v', 'this', 'deref', 'g') and path else None
        def wait(I, n, ob, args):
            if finite(I, n, args) and I.choose(2, ('gives up waiting',)) == 1:
                I.emit('call', n['q'], obj=ptr_of(ob), args=tuple(V(I, a) for a in args), node=n, extra={'objv': None, 'locs': [], 'indirect': None}); return 0
            return m_wait(I, n, ob, args)
        cfg.models['QThread::wait'] = wait
        def start(I, n, ob, args):
            I.user.setdefault('w0', {})[ptr_of(ob)] = (len(I.trace), I.uid, I.ntemp); return m_tstart(I, n, ob, args)
        cfg.models['QThread::start'] = start
        def begin(I):
            pass
        def post(I, r, f=f, key=key, L_=L_):
            ws = [e for e in I.trace if e.kind == 'worker']
            for e in ws:
                ctx.count('workers')
                fn = e.args[0]; W = dict(file=e.file, line=e.line, fn=e.fn)
                if not isinstance(fn, Closure): raise AnalysisError('a thread runs something unknown: %r' % (fn,))
                for c in fn.node.get('caps', []):
                    if c.get('this'): continue
                    t = strip_t(c.get('t', ''))
                    ctx.check(not c.get('byref'), 'captures:ref', 'the worker refers to the variable %s of the function that creates it' % c.get('n'), path=pathdesc(I.choices), **W)
                    ctx.check(not t.endswith('*'), 'captures:raw', 'the worker uses %s, an object whose lifetime it does not share' % c.get('n'), path=pathdesc(I.choices), **W)
                o = obj_cls(I, fn)
                if o: owners[o] = W
                # what is connected to the end of the thread runs on the thread of its receiver
            if key != 'sync':
                rep = ('arg', f['params'][0 if name == 'stream' else -1]['n'])
                how = I.choose(3 if key == 'stream' else 2, ('then',))
                if how == 1:
                    if key == 'stream': raise_signal(I, rep, OKQ)
                    else: raise_signal(I, rep, OEQ, [('ctor', STATUS, 10, ('s', 'aborted'))])
                elif how == 2: raise_signal(I, ('arg', f['params'][-1]['n']), 'QObject::destroyed')
                if key == 'stream':
                    for e in ws:
                        sub = ws_owner(I, e)
                        if sub is not None: raise_signal(I, sub, NSTREAM + '::dataReady', [('message',)])
                finish_workers(I)
            K = dict(path=pathdesc(I.choices), **L_)
            T = I.trace
            for t, (s, uid, nt) in I.user.get('w0', {}).items():
                b = [i for i, e in enumerate(T) if e.kind == 'worker-begin' and e.obj == t]; z = [i for i, e in enumerate(T) if e.kind == 'worker-end' and e.obj == t]
                if not b:
                    ctx.check(key != 'sync', 'sync:unjoined', 'the call returns while its worker may still be running', **K); continue
                b, z = b[0], z[0]
                old = lambda root: root[0] in ('this', 'deref', 'g') or root[0] == 'v' and root[1] <= uid or root[0] == 'heap' and root[1] <= nt
                wr = [e for e in T[b:z] if e.kind == 'write' and old(e.args[0][0]) and not e.log]
                rd = [e for e in T[b:z] if e.kind == 'read' and old(e.args[0][0]) and not e.log]
                shared = {e.args[0] for e in wr}; seen = {e.args[0] for e in rd}
                for e in T[s:b] + ([] if key != 'sync' else []):
                    if e.kind in ('read', 'write') and not e.log and any(overlap(e.args[0], l) for l in shared):
                        ctx.check(False, key + ':race', 'memory that the worker writes (%s) is used while the worker may be running' % e.q, file=e.file, line=e.line, fn=e.fn, path=K['path'])
                    if e.kind == 'write' and not e.log and any(overlap(e.args[0], l) for l in seen) and not atomic(P, e.args[0]):
                        ctx.check(False, key + ':race-w', 'memory that the worker reads (%s) is written while the worker may be running' % e.q, file=e.file, line=e.line, fn=e.fn, path=K['path'])
                st = [e for e in wr if is_status_loc(P, e.args[0], I)]
                ctx.check(bool(st), key + ':nostatus', 'the worker ends without storing a status', **K)
                own = [e for e in T[b:z] if e.kind == 'call' and not e.log and e.q.split('::')[-1] == 'finished' and is_signal(P, e.q)]
                ctx.check(not own, key + ':early', 'the worker itself announces its end', **K)
                for e in T[b:z]:
                    if e.kind == 'call' and e.q == 'QThread::terminate': ctx.check(False, key + ':terminate', 'a thread is terminated', **K)
            return r
        for r in run_fn(P, cfg, f, nargs(f), ctx.stats, post=post):
            ctx.count('paths')
            if key == 'sync': c26_returned(ctx, P, r.I, r, L_)
            if r.exc: ctx.check(False, key + ':throws', 'an exception leaves the operation', path=pathdesc(r.choices), **L_)
def c26_returned(ctx, P, I, r, L_):
    pass
def overlap(a, b):
    if a[0] != b[0]: return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n] and n > 0
def atomic(P, loc): return False
def obj_cls(I, fn):
    t = fn.this
    if isinstance(t, tuple) and t[:1] == ('addr',):
        root = t[1][0]
        if root[0] == 'heap' and not t[1][1]: return root[2]
    return None
def ws_owner(I, e):
    t = e.args[0].this
    return t if isinstance(t, tuple) and t[:1] == ('addr',) else None
def is_status_loc(P, loc, I):
    if not loc[1] or not isinstance(loc[1][-1], str): return False
    return any(fl['n'] == loc[1][-1] and cls_of_type(fl['t']) == STATUS for rec in P.records.values() for fl in rec['fields'])
def c26_dtors(ctx, P, owners):
    for cls, W in sorted(owners.items()):
        ds = [f for f in P.functions.values() if f['q'] == cls + '::~' + cls.split('::')[-1] and f.get('body')]
        ctx.count('destructors')
        if not ctx.check(len(ds) == 1, 'dtor:none', '%s has a worker but no destructor that joins it' % cls, **W): continue
        f = ds[0]; ctx.analysed(f); L_ = loc_of(f)
        cfg = ncfg(P)
        cfg.models['QThread::wait'] = lambda I, n, ob, args: (I.emit('call', n['q'], obj=ptr_of(ob), args=(finite(I, n, args),), node=n, extra={'objv': None, 'locs': [], 'indirect': None}), 1)[1]
        def mk(I):
            for fl in P.records[cls]['fields']:
                if 'QThread' in fl['t']: I.facts.add_ne(to_lin(('fld', ('this',), fl['n'])))
            return []
        tf = [fl['n'] for fl in P.records[cls]['fields'] if 'QThread' in fl['t']]
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            ctx.count('paths'); T = r.I.trace; K = dict(path=pathdesc(r.choices), **L_)
            if r.exc: ctx.check(False, 'dtor:throws', 'the destructor throws', **K)
            w = [i for i, e in enumerate(T) if e.kind == 'call' and e.q == 'QThread::wait' and not e.args[0] and any(mentions(e.obj, x) for x in tf)]
            if not ctx.check(bool(w), 'dtor:nowait', 'the object is destroyed without waiting for its worker to end', **K): continue
            c = [i for i, e in enumerate(T) if e.kind == 'call' and e.q.endswith('::TryCancel')]
            ctx.check(bool(c) and c[0] < w[0], 'dtor:nocancel', 'the destructor waits for a worker it has not cancelled', **K)
            for e in T[:w[0]]:
                if e.kind in ('delete', 'sp-release', 'sp-drop', 'destroyed') or e.kind == 'sp-reset' or e.kind == 'call' and e.q in ('QObject::deleteLater', 'QThread::terminate'):
                    ctx.check(e.log or not mentions_own(e), 'dtor:early', 'state of the worker is released before the worker ended', file=e.file, line=e.line, fn=e.fn, path=K['path'])
            for e in T:
                if e.kind == 'call' and e.q == 'QThread::terminate': ctx.check(False, 'dtor:terminate', 'a thread is terminated', file=e.file, line=e.line, fn=e.fn, path=K['path'])
                if e.kind == 'write' and not e.log: pass
def mentions_own(e): return mentions(e.obj, 'this') or mentions(e.args, 'this')
