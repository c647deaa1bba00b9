"""C30: the QML stream object"""
from .grpc import *
QS = 'QtProtobuf::QQuickGrpcStream'
def qfield(P, what):
    fs = [x for x in P.records[QS]['fields'] if what(x.get('t', ''))]
    if len(fs) != 1: raise AnalysisError('state of the QML stream not recognised (%d)' % len(fs))
    return fs[0]['n']
def qfn(P, name):
    fs = [f for f in P.functions.values() if f['q'] == QS + '::' + name and f.get('body')]
    if len(fs) != 1: raise AnalysisError('QML stream function %s not found' % name)
    return fs[0]
class World:
    """what the meta object system answers: decided when first asked, the same whenever asked again"""
    def __init__(self, easy=False): self.memo = {}; self.easy = easy; self.gen = 0
def ask(I, key, n):
    w = I.user['world']
    if w.easy: return 0
    k = (w.gen, key)
    if k not in w.memo: w.memo[k] = I.choose(n, ('meta',) + tuple(str(x)[:40] for x in key))
    return w.memo[k]
def V_(I, ob): return I.val(I.readv(ob))
def npar(I): return (2, 0, 1, 3)[ask(I, ('number of parameters of the method',), 4)]
def m_mvalid(I, n, ob, args): return 0 if V_(I, ob)[:2] == ('ctor', 'QMetaMethod') else 1
def m_pcount(I, n, ob, args):
    return 0 if V_(I, ob)[:2] == ('ctor', 'QMetaMethod') else npar(I)
def m_ptype(I, n, ob, args):
    i = V(I, args[0])
    if V_(I, ob)[:2] == ('ctor', 'QMetaMethod') or isinstance(i, int) and i >= npar(I): return 0
    return ('ptype', i)
def m_ptypes(I, n, ob, args): return ('cat', tuple(('e', ('ptname', i)) for i in range(npar(I))))
def m_pname(I, n, ob, args): return ('ptname', V(I, args[0]))
def m_type(I, n, ob, args):
    """id of the type of that name, 0 when it is not registered"""
    a = V(I, args[0])
    return 0 if ask(I, ('is not registered', a), 2) else ('tid', a)
def tid(I, v):
    v = unwrap(v)
    if isinstance(v, tuple) and v[:2] == ('ctor', 'QMetaType'): return V(I, v[2]) if len(v) > 2 else 0
    raise AnalysisError('meta type value not understood: %s' % str(v)[:80])
def valid(I, t):
    if t == 0: return 0
    if isinstance(t, tuple) and t[0] == 'ptype': return int(not ask(I, ('parameter type is not registered', t[1]), 2))
    return 1
def m_tvalid(I, n, ob, args): return valid(I, tid(I, V_(I, ob)))
def m_treg(I, n, ob, args): return valid(I, V(I, args[0])) if args else valid(I, tid(I, V_(I, ob)))
def tmo(I, t):
    if not valid(I, t): return 0
    if t == ('ptype', 0):
        I.facts.add_ne(to_lin(add(mo(I, 'another'), mo(I, I.user['argument']), -1)))
        return (mo(I, I.user['argument']), mo(I, 'another'), 0)[ask(I, ('meta object of the argument parameter',), 3)]
    if t == ('ptype', 1): return (mo(I, 'ret'), 0)[ask(I, ('meta object of the return parameter',), 2)]
    return mo(I, t)
def m_tmo(I, n, ob, args): return tmo(I, tid(I, V_(I, ob)))
def m_tmos(I, n, ob, args): return tmo(I, V(I, args[0]))
def mo(I, x):
    t = ('mo', x); I.facts.add_ne(to_lin(t)); return t
def m_omo(I, n, ob, args): return mo(I, ptr_of(ob))
def m_class(I, n, ob, args): return ('className', ptr_of(ob))
def made(I, t, src):
    if not valid(I, t): return 0
    I.uid += 1; p = ('obj', 'new', t, src, I.uid)
    if ask(I, ('creating fails', t), 2): return 0
    I.facts.add_ne(to_lin(p)); I.user.setdefault('made', []).append(p)
    return p
def m_create(I, n, ob, args): return made(I, tid(I, V_(I, ob)), V(I, args[0]) if args else 0)
def m_creates(I, n, ob, args): return made(I, V(I, args[0]), V(I, args[1]) if len(args) > 1 else 0)
def garg(I, v, cls):
    v = unwrap(v)
    if isinstance(v, tuple) and v[:1] == ('ctor',) and v[1] == cls and len(v) >= 4: return v[3]
    return None
def pointee(I, p):
    p = unwrap(p)
    while isinstance(p, tuple) and p[:1] in (('cast',), ('tptr',)): p = p[-1]
    if isinstance(p, tuple) and p[0] in ('addr', 'objptr'): return I.val(I.readv(p[1])), p[1]
    return None, None
def engine(I, n, ob, args): I.facts.add_ne(to_lin(('engine',))); return ('engine',)
def m_script(I, n, ob, args): return ('script', V(I, args[0]))
def m_invoke(I, n, ob, args):
    vs = [V(I, a) for a in args]
    out = [garg(I, v, 'QGenericReturnArgument') for v in vs]; out = [x for x in out if x is not None]
    ins = [pointee(I, x)[0] for x in (garg(I, v, 'QGenericArgument') for v in vs) if x is not None]
    ok = not ask(I, ('the invocation fails',), 2)
    s = 0
    if ok and out:
        loc = pointee(I, out[0])[1]
        if loc is None: raise AnalysisError('the result of the invocation is not followed: %s' % str(vs)[:300])
        if not ask(I, ('the invoked method returns no stream',), 2):
            I.uid += 1; s = ('stream', 'started', I.uid); I.facts.add_ne(to_lin(s))
        I.write(loc, s)
    I.emit('call', n['q'], obj=V_(I, ob), args=(vs[0], s, tuple(ins)), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    return int(ok)
def m_qabort(I, n, ob, args):
    p = ptr_of(ob)
    I.emit('call', n['q'], obj=p, args=(), node=n, extra={'objv': None, 'locs': [], 'indirect': None})
    raise_signal(I, p, OKQ)
    return 0
INV = 'QMetaMethod::invoke'
def qcfg(P):
    cfg = gcfg(P); cfg.loop_hard = 1
    cfg.models.update({'QMetaMethod::isValid': m_mvalid, 'QMetaMethod::parameterCount': m_pcount, 'QMetaMethod::parameterType': m_ptype,
        'QMetaMethod::parameterTypes': m_ptypes, 'QMetaType::type': m_type, 'QMetaType::isValid': m_tvalid, 'QMetaType::isRegistered': m_treg,
        'QMetaType::metaObject': m_tmo, 'QMetaType::metaObjectForType': m_tmos, 'QObject::metaObject': m_omo, CLIENT + '::metaObject': m_omo, 'QMetaObject::className': m_class,
        'QMetaType::create': m_create, INV: m_invoke, STREAM + '::abort': m_qabort, OPBASE + '::abort': m_qabort,
        'qmlEngine': engine, 'qjsEngine': engine, 'QJSEngine::toScriptValue': m_script, 'QJSEngine::newQObject': m_script})
    for q in ('qmlEngine', 'qjsEngine'): cfg.models['QtQml::' + q] = cfg.models[q]
    return cfg
class Quick:
    def __init__(self, P):
        self.P = P
        self.client = qfield(P, lambda t: 'QPointer' in t and 'Client' in t); self.arg = qfield(P, lambda t: 'QPointer' in t and 'Client' not in t)
        self.enabled = qfield(P, lambda t: t == 'bool'); self.method = qfield(P, lambda t: 'QString' in t)
        self.stream = qfield(P, lambda t: 'QGrpcStream' in t); self.ret = qfield(P, lambda t: t.replace(' ', '') == 'QObject*')
    def loc(self, f): return (('this',), (f,))
    def get(self, I, f): return unwrap(I.val(I.readv(self.loc(f))))
def rel(I, p, k=0): return len([e for e in I.trace[k:] if e.kind == 'call' and e.q == 'QObject::deleteLater' and same_obj(I, e.obj, p)]) + len([e for e in I.trace[k:] if e.kind == 'delete' and any(same_obj(I, a, p) for a in (e.obj,) + tuple(e.args or ()) if isinstance(a, tuple))])
def sig(I, name, k): return [e for e in calls(I, QS + '::' + name, k)]

def c30(ctx):
    ctx.rule('a QML stream starts only with a complete set-up; failures give one error, disable it and start nothing; its end, restart and destruction release everything once')
    ctx.assume('the object was created by a QML engine (qmlEngine/qjsEngine are not null); signal handlers of the application do not change the object while it emits')
    P = gload('quick/qquickgrpcstream.cpp')
    with ctx.guard('starting'): c30_run(ctx, P)
    with ctx.guard('incomplete set-up'): c30_incomplete(ctx, P)
    ctx.floor('scenarios', 60)
def start_state(I, q, enabled=0):
    for f, v in ((q.client, ('arg', 'client')), (q.arg, ('arg', 'argument')), (q.method, ('arg', 'method')), (q.enabled, enabled), (q.stream, 0), (q.ret, 0)): I.write(q.loc(f), v)
    for p in (('arg', 'client'), ('arg', 'argument')): I.facts.add_ne(to_lin(p))
    I.user['argument'] = ('arg', 'argument'); I.user['world'] = World()
def settle(ctx, I, q, k, key, K, cl, ar, me, wanted=True):
    """after an attempt to start: either one stream runs with that set-up or one error was reported and all is off"""
    s, en, rv = q.get(I, q.stream), q.get(I, q.enabled), q.get(I, q.ret)
    inv = calls(I, INV, k); good = [e for e in inv if e.args[1] != 0]; errs = sig(I, 'error', k)
    for e in errs: ctx.check(nonok(I, norm_status(e.args[0])) is True, key + ':ok-error', 'a QML stream reports an error with an OK status', file=e.file, line=e.line, fn=e.fn, path=K['path'])
    copies = [p for p in I.user.get('made', []) if p[3] != 0]
    for p in copies: ctx.check(rel(I, p) == 1, key + ':copy', 'the copy of the argument is released %d times' % rel(I, p), **K)
    rets = [p for p in I.user.get('made', []) if p[3] == 0]
    for p in rets: ctx.check(rel(I, p) == (0 if p == rv else 1), key + ':ret', 'a return object is released %d times%s' % (rel(I, p), ' while it is in use' if p == rv else ''), **K)
    if s == 0:
        ctx.check(not good, key + ':abandoned', 'a stream that was started is abandoned', **K)
        ctx.check(len(errs) == 1, key + ':errors', 'a stream that cannot be started reports %d errors' % len(errs), **K)
        ctx.check(en == 0, key + ':enabled', 'a stream that cannot be started stays enabled', **K)
        ctx.check(rv == 0, key + ':kept', 'a stream that cannot be started keeps its return object', **K)
        return False
    ctx.count('started')
    ctx.check(not errs, key + ':false-error', 'a running stream reports an error at its start', **K)
    ctx.check(en == 1, key + ':off', 'a running stream is not enabled', **K)
    if not ctx.check(len(inv) == 1 and good and good[0].args[1] == s, key + ':invoked', 'the running stream is not the one started for the set-up, or the method is called %d times' % len(inv), **K): return False
    e = inv[0]; ins = e.args[2]
    ctx.check(same_obj(I, e.args[0], cl), key + ':client', 'the stream is started on another object than the client', **K)
    ok = len(ins) >= 2 and isinstance(ins[0], tuple) and ins[0][:2] == ('obj', 'new') and ins[0][3] == ar
    ctx.check(ok and ins[1] == rv and rv != 0 and rv in rets, key + ':operands', 'the method is not given a copy of the argument and the return object', **K)
    w = I.user['world']
    if not w.easy:
        ctx.check(w.memo.get((w.gen, ('meta object of the argument parameter',))) == 0, key + ':argtype', 'a stream starts although the argument was not shown to have the type the method takes', **K)
        ctx.check(w.memo.get((w.gen, ('number of parameters of the method',))) in (0, 3), key + ':params', 'a stream starts although the method was not shown to take two parameters', **K)
    m = e.obj; nm = [c for c in I.choices if c[1] == 0 and mentions(c[0], m) and mentions(c[0], me)]
    ctx.check(bool(nm) and not (isinstance(m, tuple) and m[:2] == ('ctor', 'QMetaMethod')), key + ':method', 'the method that is called was not matched with the method of the set-up', **K)
    return True
def c30_run(ctx, P):
    q = Quick(P); f = qfn(P, 'setEnabled'); L_ = loc_of(f)
    fns = {n: qfn(P, n) for n in ('setEnabled', 'setClient', 'setMethod', 'setArgument', 'updateStream', 'stream')}
    for x in fns.values(): ctx.analysed(x)
    dt = [x for x in P.functions.values() if x['q'] == QS + '::~QQuickGrpcStream' and x.get('body')]
    def call(I, name, *a): models.run_with_values(I, fns[name], list(a), THIS)
    def post(I, r):
        K = dict(path=pathdesc(I.choices), **L_); ctx.count('scenarios')
        null_deref(ctx, I, 'start'); dangling(ctx, I, 'start'); oob(ctx, I, 'start')
        ctx.check(1 <= len(sig(I, 'enabledChanged', 0)) <= 2, 'start:notify', 'enabling is not notified', **K)
        if not settle(ctx, I, q, 0, 'start', K, ('arg', 'client'), ('arg', 'argument'), ('arg', 'method')): return r
        s, rv = q.get(I, q.stream), q.get(I, q.ret)
        how = I.choose(11, ('then',)); k = len(I.trace); hard = 0
        w = I.user['world'] = World(easy=how > 2 or I.choose(2, ('the restart', 'meets any trouble')) == 0); w.gen = 1
        def off(enabled, abort=1):
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(q.get(I, q.stream) == 0 and q.get(I, q.ret) == 0, 'stop:kept', 'a stopped stream or its return object is kept', **K)
            ctx.check(len(calls(I, (STREAM + '::abort', OKQ), k, s)) == abort, 'stop:abort', 'a stopped stream is aborted %d times' % len(calls(I, (STREAM + '::abort', OKQ), k, s)), **K)
            ctx.check(rel(I, rv) == 1, 'stop:ret', 'the return object of a stopped stream is released %d times' % rel(I, rv), **K)
            ctx.check(not sig(I, 'error', k), 'stop:error', 'stopping a stream reports an error', **K)
            ctx.check(q.get(I, q.enabled) == enabled, 'stop:enabled', 'the enabled flag is wrong after the stream stopped', **K)
            ctx.check(not calls(I, INV, k), 'stop:started', 'a stopped stream is started again', **K)
            gone(K)
        def gone(K):
            if how < 6: ctx.check(not live(I, s, OKQ), 'stop:connected', 'a stream that was replaced can still disable the object', **K)
        if how <= 2:
            name, fld, new, ch = (('setArgument', q.arg, ('arg', 'argument2'), 'argumentChanged'), ('setMethod', q.method, ('arg', 'method2'), 'methodChanged'), ('setClient', q.client, ('arg', 'client2'), 'clientChanged'))[how]
            I.facts.add_ne(to_lin(new)); I.facts.add_ne(to_lin(add(new, ('arg', new[1][:-1]), -1)))
            if how == 0: I.user['argument'] = new
            if how == 1: I.facts.add_ne(to_lin(('size', new)))
            nmade = I.user['made']
            call(I, name, new)
            K = dict(path=pathdesc(I.choices), **L_); ctx.count('scenarios')
            ctx.check(q.get(I, fld) == new and len(sig(I, ch, k)) == 1, 'set:stored', 'a changed property is not stored and notified once', **K)
            ctx.check(len(calls(I, (STREAM + '::abort', OKQ), k, s)) == 1, 'restart:abort', 'the former stream is aborted %d times when the set-up changes' % len(calls(I, (STREAM + '::abort', OKQ), k, s)), **K)
            ctx.check(rel(I, rv) == 1, 'restart:ret', 'the former return object is released %d times' % rel(I, rv), **K)
            gone(K)
            vals = {q.arg: ('arg', 'argument'), q.method: ('arg', 'method'), q.client: ('arg', 'client')}; vals[fld] = new
            started = bool(q.get(I, q.stream))
            if w.easy: ctx.check(started or how > 0 and not any(mentions(c[0], new) and named(c[0]) for c in I.choices if c[1] == 0), 'restart:lost', 'a changed set-up that can be started is not started', **K)
            settle(ctx, I, q, k, 'restart', K, vals[q.client], vals[q.arg], vals[q.method])
        elif how == 3: call(I, 'setEnabled', 0); off(0); ctx.check(len(sig(I, 'enabledChanged', k)) == 1, 'set:notify', 'disabling is not notified once', **K)
        elif how == 4: call(I, 'setArgument', 0); off(1)
        elif how == 5: call(I, 'setClient', 0); off(1)
        elif how == 6:
            raise_signal(I, s, OKQ); off(0, 0); ctx.check(len(sig(I, 'enabledChanged', k)) == 1, 'end:notify', 'the end of a stream is not notified once', **K)
        elif how == 7:
            raise_signal(I, s, OEQ, [('sigma',)]); es = sig(I, 'error', k)
            ctx.check(len(es) == 1 and es[0].args[0] == ('sigma',), 'error:forward', 'an error of the running stream is reported %d times' % len(es), **K)
        elif how == 8:
            raise_signal(I, s, STREAM + '::messageReceived'); es = sig(I, 'messageReceived', k)
            ctx.check(len(es) == 1 and mentions(es[0].args[0], rv), 'message:forward', 'a received message is passed on %d times, or without the return object' % len(es), **K)
            ctx.check(q.get(I, q.ret) == rv and q.get(I, q.stream) == s and rel(I, rv) == 0, 'message:state', 'a received message changes the running stream', **K)
        elif how == 9:
            if dt: models.run_with_values(I, dt[0], [], THIS)
            K = dict(path=pathdesc(I.choices), **L_)
            ctx.check(len(calls(I, (STREAM + '::abort', OKQ), k, s)) == 1, 'destroy:abort', 'the stream of a destroyed object is aborted %d times' % len(calls(I, (STREAM + '::abort', OKQ), k, s)), **K)
            ctx.check(rel(I, rv) == 1, 'destroy:ret', 'the return object of a destroyed QML stream is released %d times' % rel(I, rv), **K)
        else:
            for nm, v in (('setArgument', ('arg', 'argument')), ('setClient', ('arg', 'client')), ('setMethod', ('arg', 'method')), ('setEnabled', 1)): call(I, nm, v)
            ctx.check(q.get(I, q.stream) == s and q.get(I, q.ret) == rv and not [e for e in I.trace[k:] if e.kind == 'call' and e.q.startswith(QS) and e.q.endswith('Changed')], 'same:changed', 'setting a property to its value disturbs the running stream', **K)
        null_deref(ctx, I, 'later', k); oob(ctx, I, 'later', k)
        return r
    def mk(I):
        start_state(I, q); I.facts.add_ne(to_lin(('size', ('arg', 'method')))); I.facts.add_ge(('size', ('arg', 'method'))); return [1]
    for r in run_fn(P, qcfg(P), f, mk, ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'start:throws', 'an exception leaves a property of the QML stream', path=pathdesc(r.choices), **L_)
def named(t): return mentions(t, 'QMetaMethod::name') or mentions(t, 'QMetaMethod::methodSignature')
def oob(ctx, I, key, k=0):
    for e in I.trace[k:]:
        if e.kind == 'index' and not e.log and isinstance(e.args[0], int) and isinstance(e.args[1], int) and e.args[0] >= e.args[1]:
            ctx.check(False, key + ':index', 'an entry of the parameter list that may not exist is read', file=e.file, line=e.line, fn=e.fn, path=pathdesc(I.choices))
def c30_incomplete(ctx, P):
    q = Quick(P)
    for name, fld, val in (('setClient', q.client, ('arg', 'client2')), ('setArgument', q.arg, ('arg', 'argument2')), ('setMethod', q.method, ('arg', 'method2')), ('setEnabled', q.enabled, 1)):
        f = qfn(P, name); L_ = loc_of(f)
        def mk(I):
            start_state(I, q, 1); I.user['world'] = World(easy=True)
            # one other part of the set-up is missing
            miss = [x for x in (q.client, q.arg, q.method, q.enabled) if x != fld]
            m = miss[I.choose(3, ('missing',))]; I.user['miss'] = m
            I.write(q.loc(m), ('cat', ()) if m == q.method else 0)
            I.write(q.loc(fld), ('cat', ()) if fld == q.method else 0)
            if fld != q.enabled: I.facts.add_ne(to_lin(val))
            return [val]
        for r in run_fn(P, qcfg(P), f, mk, ctx.stats):
            I = r.I; ctx.count('paths'); ctx.count('scenarios'); K = dict(path=pathdesc(r.choices), **L_)
            ctx.check(not r.exc, 'incomplete:throws', 'an incomplete set-up throws', **K)
            null_deref(ctx, I, 'incomplete'); oob(ctx, I, 'incomplete')
            ctx.check(not calls(I, INV) and q.get(I, q.stream) == 0, 'incomplete:started', 'a stream starts without %s' % I.user['miss'], **K)
            ctx.check(not sig(I, 'error', 0), 'incomplete:error', 'an incomplete set-up is reported as an error', **K)
