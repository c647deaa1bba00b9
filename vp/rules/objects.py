"""C27 (serializer registry), C28 (comparison), C29 (lazy message pointer)."""
from .lists import *

LP = 'QProtobufLazyMessagePointer'

# ------------------------------------------------------------------ C28
def tri_not(x): return None if x is None else not x

def find_compare(I, pa, pb):
    """is the content of two pointed-to objects known (un)equal on this path?"""
    res = None
    for e in I.trace:
        if e.kind != 'call' or not e.q.endswith(('operator==', 'operator!=')): continue
        t = e.res
        x = content_args(e)
        if x is None: continue
        if {repr(x[0]), repr(x[1])} != {repr(pa), repr(pb)}: continue
        st = I.status(t)
        if st is None: continue
        res = st if e.q.endswith('operator==') else not st
    return res

def content_args(e):
    """the two operands of a comparison call, as the pointers they were reached through"""
    def ptr(v, o=None):
        if o is not None and not (isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], tuple) and o[0] and o[0][0] in ('v', 'heap', 'tmp')): return o
        if isinstance(v, tuple) and v and v[0] == 'init' and v[1][0] == 'deref': return v[1][1]
        return v
    a = list(e.args)
    from ..models import SMART
    if e.q.rsplit('::', 1)[0] in SMART or e.q.startswith('std::operator'): return None
    def content(v): return isinstance(v, tuple) and v and (v[0] in ('init', 'ctor'))
    if not all(content(v) for v in a): return None
    if e.obj is not None:
        if len(a) != 1: return None
        return ptr(None, e.obj), ptr(a[0])
    if len(a) != 2: return None
    return ptr(a[0]), ptr(a[1])

def elem_equal(I, pa, pb):
    """three-valued: are the messages behind two shared pointers equal (null equals only null)?"""
    if pa == pb: return True
    st = I.facts.eq_status(add(pa, pb, -1))
    if st is True: return True
    na, nb = I.facts.eq_status(pa), I.facts.eq_status(pb)
    if na is True and nb is True: return True
    if (na is True and nb is False) or (nb is True and na is False): return False
    if st is False and (na is True or nb is True): return False
    return find_compare(I, pa, pb)

def walked(choices):
    """container walked on this path -> number of elements"""
    return {c[0][1]: c[1] for c in choices if isinstance(c[0], tuple) and c[0][0] == 'count'}

def foreign(r):
    """a path that branches on a result this analysis has no meaning for cannot be judged"""
    def subterms(t):
        if isinstance(t, Lin):
            for x in t.m: yield from subterms(x)
        elif isinstance(t, tuple):
            yield t
            for x in t: yield from subterms(x)
    for c in r.choices:
        for t in subterms(c[0]):
            if t[:1] in (('op',), ('res',), ('out',)) and len(t) > 1 and isinstance(t[1], str) and not t[1].split('::')[-1].startswith(('operator==', 'operator!=')):
                raise AnalysisError('decision based on %s is not modelled' % t[1])

def cmp_container(ctx, P, f, kind):
    ctx.analysed(f); loc = loc_of(f)
    A, Bc = ('arg', 'a'), ('arg', 'b')
    seen = {'t': 0, 'f': 0}
    for r in run_fn(P, Config(P, sizes=(0, 1, 2, 3) if ctx.thorough else (0, 1, 2)), f, lambda I: arg_values(I, P, f, None), ctx.stats, post=lambda I, v: int(bool(I.truth(v)))):
        ctx.count('paths'); I = r.I
        pth = pathdesc(r.choices)
        for e in r.trace:
            if e.kind == 'deref' and not e.log:
                ctx.check(False, kind + '-null', 'comparing two %ss dereferences an element that may be null or missing (%s)' % (kind, str(e.obj)[:120]), file=e.file, line=e.line, fn=e.fn, path=pth)
            elif e.kind == 'index' and e.q in ('out-of-range', 'maybe-out-of-range'): pass
        ctx.count('obligations'); ctx.count('discharged')
        if r.exc: ctx.check(False, kind + '-throw', 'comparing two %ss throws' % kind, path=pth, **loc); continue
        v = I.status(r.ret)
        cnt = walked(r.choices)
        sz = I.facts.eq_status(add(('size', A), ('size', Bc), -1))
        n = cnt.get(A, cnt.get(Bc))
        if n is None:
            for c in (A, Bc):
                for k in (0, 1, 2, 3):
                    if n is None and I.facts.eq_status(add(('size', c), -k)) is True: n = k
        if n is None:
            # an index loop left early: the elements known to exist
            n0 = 0
            while n0 < 4 and any(I.facts.ge_status(add(('size', c), -n0 - 1)) is True for c in (A, Bc)): n0 += 1
            if kind == 'list' and n0 and any(elem_equal(I, ('elem', A, i), ('elem', Bc, i)) is False for i in range(n0)): n = n0
        els = []
        if n is not None:
            for i in range(n):
                if kind == 'list': els.append(elem_equal(I, ('elem', A, i), ('elem', Bc, i)))
                else:
                    best = None
                    for m, o in ((A, Bc), (Bc, A)):
                        k = ('key', m, i)
                        c = I.status(('not', ('cmp', 'eq', ('contains', o, k))))
                        if c is False: best = False; break
                        x = elem_equal(I, ('val', m, i), ('at', o, k))
                        if x is False: best = False
                        if x is True and c is True and best is None: best = True
                    els.append(best)
        if any(x is False for x in els) or sz is False: want = False
        elif sz is True and n is not None and all(x is True for x in els): want = True
        else: want = None
        if v is None:
            # the result is left to a term: only acceptable when the rest of the decision is made
            ctx.check(False, kind + '-undecided', 'the result of comparing two %ss (%s) does not depend on their elements alone' % (kind, str(r.ret)[:100]), path=pth, **loc) if want is not None else ctx.count('open')
            continue
        if want is None: foreign(r)
        seen['t' if v else 'f'] += 1
        if v: ctx.check(want is True, kind + '-true', 'two %ss are called equal %s' % (kind, 'although they differ' if want is False else 'without comparing all of their elements'), path=pth, **loc)
        else: ctx.check(want is False, kind + '-false', 'two %ss are called different %s' % (kind, 'although all elements are equal' if want else 'without a difference in size or elements'), path=pth, **loc)
    if not seen['t'] or not seen['f']: raise AnalysisError('comparison of %ss never yields %s' % (kind, 'true' if not seen['t'] else 'false'))

def plain_equal(P, I, ret, A, Bc, depth=0):
    """is the value the plain (in)equality of the two arguments? returns polarity or None"""
    neg = False
    v = ret
    while isinstance(v, tuple) and v and v[0] in ('not', 'cast', 'wrap') or isinstance(v, tuple) and v[:2] == ('cmp', 'eq'):
        if v[0] == 'not': neg = not neg; v = v[1]
        elif v[0] == 'cmp': neg = not neg; v = v[2]
        else: v = v[-1]
    if isinstance(v, Lin) and len(v.m) == 1 and v.c == 0: v = list(v.m)[0]
    if isinstance(v, tuple) and v and v[0] == 'op' and v[1].endswith(('operator==', 'operator!=')):
        ops = [x for x in v[2:] if x == A or x == Bc]
        if sorted(map(repr, ops)) == sorted(map(repr, (A, Bc))): return v[1].endswith('operator==') != neg
    return None

def c28(ctx):
    ctx.rule('Path-sensitive dataflow over repeatedValueCompare for lists and maps of messages: every path is followed for containers of 0, 1, 2 (thorough: 3) elements with unknown, possibly null, pointers and unknown key sets; no dereference may see a pointer that can be null; true is returned only if sizes and all corresponding elements are known equal on that path, false only if a difference is.')
    ctx.rule('QProtobufLazyMessagePointer::operator==: the result on each path equals equality of the contents, an absent object standing for a default constructed one.')
    ctx.assume('operator== of message types is total (C11); equal pointers have equal content')
    P = load()
    with ctx.guard('list'): cmp_container(ctx, P, P.fn('witness::compareList'), 'list')
    with ctx.guard('map'): cmp_container(ctx, P, P.fn('witness::compareMap'), 'map')
    with ctx.guard('scalar map'):
        f = P.fn('witness::compareScalarMap')
        for r in run_fn(P, Config(P), f, lambda I: arg_values(I, P, f, None), ctx.stats):
            ctx.count('paths')
            p = plain_equal(P, r.I, r.ret, ('arg', 'a'), ('arg', 'b'))
            if p is None and r.I.status(r.ret) is not None:
                sz = r.I.facts.eq_status(add(('size', ('arg', 'a')), ('size', ('arg', 'b')), -1))
                if r.I.status(r.ret) is False and sz is False: ctx.count('obligations'); ctx.count('discharged'); continue
                w = [plain_equal(P, r.I, c[0][1] if isinstance(c[0], tuple) and len(c[0]) > 1 else None, ('arg', 'a'), ('arg', 'b')) for c in r.choices]
                if any(x is not None for x in w): raise AnalysisError('comparison of scalar maps branches')
            ctx.check(p is True, 'scalar-map', 'maps of scalars are not compared as whole values', path=pathdesc(r.choices), **loc_of(f))
    with ctx.guard('embedded messages'): lazy_equality(ctx, P)
    ctx.floor('paths', 5)

def lazy_members(P):
    for q, rec in P.records.items():
        if q.split('<')[0] == LP:
            ptr = [x for x in rec['fields'] if cls_of_type(x['t'].replace('mutable ', '')) in ('std::unique_ptr', 'QScopedPointer')]
            con = [x for x in rec['fields'] if 'QMetaObject::Connection' in x['t']]
            if len(ptr) == 1: return ptr[0]['n'], con[0]['n'] if len(con) == 1 else None
    raise AnalysisError('members of %s not recognised' % LP)

def lazy_equality(ctx, P):
    ptr, _ = lazy_members(P)
    for op in ('operator==', 'operator!='):
        fs = [f for f in P.fns(LP + '::' + op) if f.get('body')]
        if not fs: raise AnalysisError('no ' + op)
        for f in fs:
            ctx.analysed(f)
            on = f['params'][0]['n'] or 0
            p, o = ('fld', ('this',), ptr), ('fld', ('arg', on), ptr)
            outcomes = set()
            for r in run_fn(P, Config(P), f, lambda I: arg_values(I, P, f, None), ctx.stats, post=lambda I, v: int(bool(I.truth(v)))):
                ctx.count('paths'); I = r.I; pth = pathdesc(r.choices)
                for e in r.trace:
                    if e.kind == 'deref' and not e.log: ctx.check(False, 'lazy-null', 'comparing embedded messages dereferences an absent one', file=e.file, line=e.line, fn=e.fn, path=pth)
                v = I.status(r.ret)
                np, no = I.facts.eq_status(p), I.facts.eq_status(o)
                want = None
                if np is True and no is True or I.facts.eq_status(add(p, o, -1)) is True: want = True
                elif np is False and no is False: want = True if I.facts.eq_status(add(p, o, -1)) is True else find_compare(I, p, o)
                elif np is None or no is None: pass
                else:
                    x = o if np else p
                    for e in r.trace:
                        if e.kind == 'call' and e.q.endswith(('operator==', 'operator!=')):
                            ca = content_args(e)
                            if ca and any(a == x for a in ca) and any(isinstance(a, tuple) and a and a[0] == 'ctor' and all(y == 0 for y in a[2:]) for a in ca):
                                st = I.status(e.res)
                                if st is not None: want = st if e.q.endswith('operator==') else not st
                if v is None: raise AnalysisError('result of %s not decided: %r' % (op, r.ret))
                outcomes.add(v)
                if op == 'operator!=': v = not v
                ctx.check(want is not None and v == want, 'lazy-' + op, 'embedded messages are called %s %s' % ('equal' if v else 'different', 'although they are not' if want is not None else 'without comparing their contents (an absent one stands for the default)'), path=pth, **loc_of(f))
            if outcomes != {True, False}: raise AnalysisError('%s is constant' % op)

def polarity(v, t):
    """True: v is t (as a truth value), False: v is its negation"""
    neg = False
    while True:
        if v == t: return not neg
        if isinstance(v, Lin) and len(v.m) == 1 and v.c == 0: v = list(v.m)[0]; continue
        if not (isinstance(v, tuple) and v): return None
        if v[0] == 'not': neg = not neg; v = v[1]
        elif v[:2] == ('cmp', 'eq'): neg = not neg; v = v[2]
        elif v[0] in ('cast', 'wrap'): v = v[-1]
        else: return None

# ------------------------------------------------------------------ C29
def load_noqml():
    return prog.load([WIT], roots=[os.path.join(prog.VERIF, 'witness')], extra=['-UQT_QML_LIB'])

def js_owned(r, p):
    """is the object p known to be owned by the QML engine on this path?"""
    for e in r.trace:
        if e.kind == 'call' and e.q == 'QQmlEngine::objectOwnership' and e.args and e.args[0] == p:
            for t in (e.res, ('cast', 32, False, e.res), ('cast', 32, True, e.res)):
                st = r.I.facts.eq_status(add(t, -1))
                if st is not None: return st
    return None

def closure_effect(P, cfg, cl, ptr, stats, f):
    """what the handler of the destroyed signal does to the pointer it captured"""
    kinds = set(); this = cl.this
    def run(I):
        I.frames.append({'env': {}, 'q': '<entry>', 'file': f['file'], 'this': None, 'tu': cl.tu, 'scopes': [[]], 'fuid': -1})
        I.trace_start = len(I.trace)
        loc = this[1] if isinstance(this, tuple) and this and this[0] == 'addr' else None
        I.user['pl'] = loc
        if loc: I.facts.add_ne(to_lin(I.readv((loc[0], loc[1] + (ptr,)))))
        I.call_closure(cl, [], {'k': 'call', 'l': cl.node['l'], 'q': 'lambda', 'pt': []}, argvals=[])
        return I.readv((loc[0], loc[1] + (ptr,))) if loc else None
    rel = True
    for r in explore(cfg, run, stats):
        if r.ret != 0: rel = False
        for e in r.trace:
            if e.kind in ('delete',) or e.kind in ('sp-reset', 'sp-drop') and r.I.status(e.args[0]) is not False: kinds.add('frees')
    if rel: kinds.add('forgets')
    return kinds

class Sim:
    """ownership of the objects seen on one path"""
    def __init__(s): s.freed = {}; s.rel = {}; s.disc = set()

def c29_method(ctx, P, f, ptr, con, qml, tag):
    isctor = f.get('isctor'); isdtor = f['q'].split('::')[-1].startswith('~')
    params = f['params']; loc = loc_of(f); name = 'constructor' if isctor else f['q'].split('::')[-1]
    moves = [p for p in params if LP in p.get('t', '') and p.get('ref')]
    raws = [p for p in params if p.get('t', '').rstrip().endswith('*')]
    key = lambda k: '%s:%s:%s' % (tag, name + ('-move' if moves else ''), k)
    def mk(I):
        vals = []
        for i, p in enumerate(params):
            if p in moves:
                l = (('v', 'in', p['n']), ()); I.rawwrite(l, ('arg', p['n'])); vals.append(('lref', l))
            else: vals.append(('arg', p['n']))
        if moves: I.facts.add_ne(add(('addr', (('this',), ())), ('addr', (('v', 'in', moves[0]['n']), ())), -1))
        # the guard against replacing an object by itself is the caller's (generated setters)
        for p in raws:
            if not isctor: I.facts.add_ne(add(('fld', ('this',), ptr), ('arg', p['n']), -1))
        if moves and not isctor: I.facts.add_ne(add(('fld', ('this',), ptr), ('fld', ('arg', moves[0]['n']), ptr), -1)); 
        return vals
    cfg = Config(P)
    rs = [r for r in run_fn(P, cfg, f, mk, ctx.stats)]
    # both pointers of a move may be null: the disequality above is only about objects
    ctx.analysed(f)
    TH = (('this',), ())
    for r in rs:
        I = r.I; ctx.count('paths'); pth = pathdesc(r.choices)
        K = dict(path=pth, **loc)
        p0 = 0 if isctor else ('fld', ('this',), ptr)
        c0 = None if isctor else ('fld', ('this',), con)
        conn = {}      # connection value -> (object, closure)
        if p0 != 0: conn[c0] = (p0, None, TH)
        objs = {}      # object -> holder or None
        if p0 != 0 and I.facts.eq_status(p0) is not True: objs[p0] = 'this'
        if moves:
            q0 = ('fld', ('arg', moves[0]['n']), ptr); qc = ('fld', ('arg', moves[0]['n']), con)
            conn[qc] = (q0, None, (('v', 'in', moves[0]['n']), ()))
            if I.facts.eq_status(q0) is not True: objs[q0] = 'other'
        for p in raws:
            if I.facts.eq_status(('arg', p['n'])) is not True: objs[('arg', p['n'])] = 'caller'
        freed = {}; dead = set()
        def free(v, e):
            if I.facts.eq_status(v) is True or v == 0: return
            freed[v] = freed.get(v, 0) + 1
            js = js_owned(r, v) if qml else False
            kw = dict(file=e.file, line=e.line, fn=e.fn, path=pth) if e is not None else K
            ctx.check(js is False or I.facts.eq_status(v) is True, key('free-js'), 'an object that may be owned by the QML engine is freed', **kw)
            live = [c for c, (o, cl, h) in conn.items() if o == v and c not in dead]
            ctx.check(not live, key('free-connected'), 'an object is freed while its destroyed signal is still connected: the handler then drops the object stored next', **kw)
        for e in r.trace:
            if e.log: continue
            if e.kind == 'new' and e.res: objs[e.res] = 'new'
            elif e.kind == 'disconnect' and len(e.args) == 1: dead.add(e.args[0])
            elif e.kind == 'connect':
                if e.q == 'QObject::destroyed':
                    cls = [a for a in e.args if isinstance(a, Closure)]
                    if not cls: raise AnalysisError('handler of the destroyed signal not recognised')
                    eff = closure_effect(P, cfg, cls[0], ptr, ctx.stats, f)
                    ctx.check('frees' not in eff, key('handler-frees'), 'the handler of the destroyed signal frees the object again', file=e.file, line=e.line, fn=e.fn)
                    ctx.check('forgets' in eff, key('handler-keeps'), 'the handler of the destroyed signal keeps the pointer to the destroyed object', file=e.file, line=e.line, fn=e.fn)
                    th = cls[0].this
                    conn[e.res] = (e.obj, cls[0], th[1] if isinstance(th, tuple) and th and th[0] == 'addr' else None)
                    ctx.count('connections')
            elif e.kind == 'sp-reset': free(e.args[0], e)
            elif e.kind == 'sp-drop' and isinstance(e.obj, tuple): free(e.args[0], e)
            elif e.kind == 'delete':
                free(e.args[0] if e.args else e.obj, e)
            elif e.kind == 'missing-return': ctx.check(False, key('no-return'), '%s ends without returning a value' % name, **K)
            elif e.kind == 'deref': ctx.check(False, key('null'), 'a pointer that may be null is dereferenced', file=e.file, line=e.line, fn=e.fn, path=pth)
        if r.exc: continue
        hold = I.readv((('this',), (ptr,)))
        hc = I.readv((('this',), (con,)))
        oh = I.readv((('v', 'in', moves[0]['n']), (ptr,))) if moves else 0
        if isdtor and hold != 0:
            free(hold, None); hold = 0
        elif isdtor: pass
        for o, who in objs.items():
            if who == 'caller' and isctor is None and not raws: continue
            nul = I.facts.eq_status(o)
            if nul is True: continue
            n = freed.get(o, 0) + (hold == o) + (oh == o and o != 0)
            js = js_owned(r, o) if qml else False
            if n == 0 and js is True: n = 1     # handed over to the QML engine
            if nul is None and n == 0 and js is None:
                # never looked at on this path although it may exist
                ctx.check(False, key('lost'), 'an object the pointer may hold is neither kept nor freed', **K); continue
            ctx.check(n == 1, key('owned' if n > 1 else 'leaked'), 'an object %s' % ('is freed although it is still referenced or freed already' if n > 1 else 'is neither kept nor freed (leaked)'), **K)
            ctx.check(not (js is True and freed.get(o)), key('js'), 'an object owned by the QML engine is freed', **K)
        if not isdtor and hold != 0 and I.facts.eq_status(hold) is not True:
            c = conn.get(hc)
            ok = c is not None and c[0] == hold and hc not in dead and c[2] in (TH,)
            ctx.check(ok, key('watch'), 'the object held afterwards is not watched: when it is deleted elsewhere the pointer dangles', **K)
        if not isdtor and moves and I.facts.eq_status(q0) is not True: ctx.check(qc in dead, key('moved-watch'), 'the moved object is still watched for the pointer it was moved from: when that one has been given another object, deleting the first drops the second', **K)
        if not isdtor and moves: ctx.check(oh == 0 or I.facts.eq_status(oh) is True or oh != hold, key('moved-from'), 'the moved-from pointer still refers to the object', **K)
        # what the accessors return
        rt = f.get('ret', {}).get('t', '') if isinstance(f.get('ret'), dict) else str(f.get('ret'))
        if name in ('operator*', 'get', 'operator->') :
            v = r.ret
            if isinstance(v, tuple) and v and v[0] == 'lref': v = ('addr', v[1]) if v[1][0][0] != 'deref' or v[1][1] else v[1][0][1]
            ctx.check(v == hold, key('value'), '%s does not return the held object' % name, **K)
            ctx.check(I.facts.eq_status(hold) is False or isinstance(hold, tuple) and hold[0] == 'addr', key('valid'), '%s may return no object' % name, **K)
        if name == 'operator=':
            ctx.check(r.ret == ('lref', TH), key('self'), 'the assignment does not return its target', **K)
            if moves: ctx.check(hold == ('fld', ('arg', moves[0]['n']), ptr) or I.facts.eq_status(('fld', ('arg', moves[0]['n']), ptr)) is True and I.status(hold) is False, key('moved'), 'the assignment does not take the object over', **K)
        if isctor:
            src = ('arg', raws[0]['n']) if raws else ('fld', ('arg', moves[0]['n']), ptr) if moves else 0
            ctx.check(hold == src or I.facts.eq_status(src) is True and I.status(hold) is False, key('taken'), 'the constructor does not take the given object over', **K)
        if name == 'reset' and raws: ctx.check(hold == ('arg', raws[0]['n']) or I.facts.eq_status(('arg', raws[0]['n'])) is True and I.status(hold) is False, key('stored'), 'reset does not store the given object', **K)
        if name == 'operator bool':
            pol = r.I.status(r.ret); st = I.facts.eq_status(p0)
            if pol is None: ctx.check(polarity(r.ret, p0) is True, key('bool'), 'the pointer reports the wrong presence of an object', **K)
            else: ctx.check(st is not None and pol == (not st), key('bool'), 'the pointer reports the wrong presence of an object', **K)

def c29(ctx):
    ctx.rule('Ownership typestate over every method of QProtobufLazyMessagePointer, on every path, from an arbitrary valid state: each object is afterwards held by exactly one pointer, freed exactly once, or left to the QML engine if (and only if) the engine owns it; no object is freed while its destroyed signal is connected; whatever is held is watched through a destroyed handler of this very pointer which forgets the object without freeing it.')
    ctx.rule('operator*, operator-> and get return the held object, creating it first when there is none; move operations empty their source. Checked in the QML and the non-QML configuration.')
    ctx.assume('an object is not replaced by itself (generated setters compare first: C12); a pointer is not moved onto itself')
    ms = 0
    for tag, P in (('qml', load()), ('noqml', load_noqml())):
        with ctx.guard(tag):
            ptr, con = lazy_members(P)
            if con is None: raise AnalysisError('no connection member')
            for f in P.functions.values():
                if not f['q'].startswith(LP + '::') or f.get('body') is None: continue
                nm = f['q'].split('::')[-1]
                if nm in ('operator==', 'operator!='): continue
                if f.get('access') == 'private': continue
                ms += 1; ctx.count('methods')
                with ctx.guard('%s %s' % (tag, f['q'])): c29_method(ctx, P, f, ptr, con, tag == 'qml', tag)
    ctx.floor('methods', 10)

# ------------------------------------------------------------------ C27
RG = 'QtProtobuf::QProtobufSerializerRegistry'

def mentions(t, x):
    if t == x: return True
    if isinstance(t, Lin): return any(mentions(y, x) for y in t.m)
    if isinstance(t, Struct): return mentions(t.base, x) or any(mentions(y, x) for y in t.f.values())
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)

def c27(ctx):
    ctx.rule('Typestate of map entries over every path of every public operation of QProtobufSerializerRegistry (private classes inlined), from an arbitrary table of plugins: a table entry is dereferenced only where the path has established that the key is present; queries add no entry and change none; loading adds an entry only under a key known to be absent and only a non-null one, and leaves the records registered before untouched; an unknown plugin or serializer yields an exception or an empty value, a known one exactly its entry.')
    ctx.rule('The constructor registers a non-null default record holding a binary and a JSON serializer under the keys the default lookup uses.')
    ctx.assume('QPluginLoader, QJsonObject and QVariant behave as documented; loadPlugin gets a non-empty name (asserted)')
    src = os.path.join(prog.REPO, 'src/protobuf/qprotobufserializerregistry.cpp')
    P = prog.load([src], roots=[os.path.join(prog.REPO, 'src/protobuf')])
    dp = [x for x in P.records[RG]['fields'] if 'QProtobufSerializerRegistryPrivate' in x['t']]
    mp = [x for x in P.records[RG + 'Private']['fields'] if cls_of_type(x['t']) in models.MAPS]
    if len(dp) != 1 or len(mp) != 1: raise AnalysisError('members of the registry not recognised')
    d = ('fld', ('this',), dp[0]['n']); tab = ('fld', ('init', ('deref', d)), mp[0]['n']); tl = (('deref', d), (mp[0]['n'],))
    rec = [x for q, r in P.records.items() if q == RG + 'PrivateRecord' for x in r['fields'] if cls_of_type(x['t']) in models.MAPS and 'shared_ptr' in x['t']]
    if len(rec) != 1: raise AnalysisError('table of serializers not recognised')
    ser = rec[0]['n']
    default = None
    with ctx.guard('constructor'):
        f = [f for f in P.functions.values() if f.get('isctor') and f['q'].startswith(RG + 'Private::') and not f['params'] and f.get('body')]
        if len(f) != 1: raise AnalysisError('constructor of the private class not found')
        f = f[0]; ctx.analysed(f)
        for r in run_fn(P, Config(P), f, lambda I: [], ctx.stats):
            ctx.count('paths'); pth = pathdesc(r.choices)
            if r.exc: ctx.check(False, 'init-throws', 'constructing the registry throws', path=pth, **loc_of(f)); continue
            t = r.I.readv((('this',), (mp[0]['n'],)))
            ent = {k[1]: v for k, v in t.f.items() if isinstance(k, tuple) and k[0] == '[]'} if isinstance(t, Struct) else {}
            for e in r.trace:
                if e.kind == 'deref' and not e.log: ctx.check(False, 'init-null', 'the constructor dereferences a missing entry', file=e.file, line=e.line, fn=e.fn)
            full = []
            for k, v in ent.items():
                if not (isinstance(v, tuple) and v and v[0] == 'addr'): ctx.check(False, 'init-entry', 'an empty record is registered', path=pth, **loc_of(f)); continue
                s = r.I.readv((v[1][0], v[1][1] + (ser,)))
                ss = {kk[1]: vv for kk, vv in s.f.items() if isinstance(kk, tuple) and kk[0] == '[]'} if isinstance(s, Struct) else {}
                cl = sorted(vv[1][0][2].split('::')[-1] for vv in ss.values() if isinstance(vv, tuple) and vv[0] == 'addr' and vv[1][0][0] == 'heap')
                by = {lit(kk): vv[1][0][2].split('::')[-1] for kk, vv in ss.items() if isinstance(vv, tuple) and vv[0] == 'addr' and vv[1][0][0] == 'heap'}
                if by.get('protobuf') == 'QProtobufSerializer' and by.get('json') == 'QProtobufJsonSerializer': full.append(k)
            ctx.check(len(full) == 1, 'init-default', 'no record with the binary serializer under "protobuf" and the JSON serializer under "json" is registered', path=pth, **loc_of(f))
            if len(full) == 1: default = full[0]
    names = set()
    for f in list(P.functions.values()):
        if not f['q'].startswith(RG + '::') or f.get('body') is None or f.get('isctor') or '~' in f['q']: continue
        nm = f['q'].split('::')[-1]
        if nm in ('instance', 'acquireSerializer'): continue
        if f.get('access') == 'private': continue
        names.add(nm); ctx.count('operations'); ctx.analysed(f)
        with ctx.guard(nm): c27_op(ctx, P, f, nm, d, tab, tl, ser, default)
    ctx.floor('operations', 5)

def lit(k):
    while isinstance(k, tuple) and k and k[0] == 'ctor' and len(k) > 2: k = k[2]
    return k[1] if isinstance(k, tuple) and k[:1] == ('s',) else None

def c27_op(ctx, P, f, nm, d, tab, tl, ser, default):
    loads = 'load' in nm
    def mk(I):
        I.facts.add_ne(to_lin(d))
        return arg_values(I, P, f, None)
    loc = loc_of(f)
    for r in run_fn(P, Config(P, sizes=(0, 1)), f, mk, ctx.stats):
        ctx.count('paths'); I = r.I; pth = pathdesc(r.choices); K = dict(path=pth, **loc)
        def has(m, k): return I.status(('not', ('cmp', 'eq', ('contains', m, k))))
        for e in r.trace:
            if e.log: continue
            if e.kind == 'deref':
                o = e.obj
                if isinstance(o, tuple) and o[:2] == ('at', tab):
                    st = True if default is not None and lit(o[2]) == lit(default) else has(tab, o[2])
                    ctx.check(st is True, nm + ':entry', 'the record of a plugin that may not be registered is dereferenced', file=e.file, line=e.line, fn=e.fn, path=pth)
                else: ctx.check(False, nm + ':null', 'a pointer or entry that may be missing is dereferenced (%s)' % str(o)[:100], file=e.file, line=e.line, fn=e.fn, path=pth)
            elif e.kind == 'map-insert' and isinstance(e.obj, tuple) and e.obj[0][0] in ('deref', 'this'):
                own = e.obj == tl
                if not loads: ctx.check(e.args[1] is True or default is not None and own and lit(e.args[0]) == lit(default), nm + ':adds', 'a query may add an entry to the table', file=e.file, line=e.line, fn=e.fn, path=pth)
                elif not own: ctx.check(e.args[1] is True, nm + ':adds', 'loading a plugin changes a record registered before', file=e.file, line=e.line, fn=e.fn, path=pth)
        ctx.count('obligations'); ctx.count('discharged')
        t = I.read_noevent(tl)
        new = {}
        if t == tab: pass
        elif isinstance(t, Struct) and t.base == tab: new = {k[1]: v for k, v in t.f.items() if isinstance(k, tuple) and k[0] == '[]'}
        else: ctx.check(False, nm + ':lost', 'the table of plugins is replaced or entries are removed from it', **K); continue
        for k, v in new.items():
            if v == ('at', tab, k): continue
            if has(tab, k) is True or has(tab, k) is None: ctx.check(False, nm + ':overwrites', 'a record registered before is replaced', **K)
            else: ctx.check(loads, nm + ':adds', 'a query adds an entry to the table', **K)
            ctx.check(I.facts.eq_status(v) is False or isinstance(v, tuple) and v[0] == 'addr', nm + ':empty', 'an empty record is registered', **K)
        for root, v in I.store.items():
            if root[0] == 'deref' and mentions(root[1], tab) and isinstance(v, Struct) and any(x != ('fld', ('init', root), n) and not (isinstance(x, Struct) and x.base == ('fld', ('init', root), n) and not x.f) for n, x in v.f.items()):
                ctx.check(False, nm + ':changed', 'a record registered before is changed', **K)
        if r.exc: continue
        if nm == 'getSerializer':
            key = ('arg', f['params'][1]['n']) if len(f['params']) > 1 else default
            i = ('arg', f['params'][0]['n'])
            v = I.val(r.ret)
            if I.status(v) is False or v == 0: continue
            ok = isinstance(v, tuple) and v[0] == 'at' and v[2] == i
            sm = v[1] if ok else None
            k = None
            if ok: ok = isinstance(sm, tuple) and sm[0] == 'fld' and sm[2] == ser and sm[1][0] == 'init' and sm[1][1][0] == 'deref' and sm[1][1][1][:2] == ('at', tab)
            if ok: k = sm[1][1][1][2]
            ctx.check(bool(ok) and (k == key or lit(k) is not None and lit(k) == lit(key)), nm + ':other', 'a serializer other than the one registered under the requested names is returned', **K)
            if ok: ctx.check(has(sm, i) is True and (has(tab, k) is True or lit(k) is not None and lit(k) == lit(default)), nm + ':missing', 'a serializer that is not registered is returned', **K)
        elif not loads and f['params']:
            k = ('arg', f['params'][0]['n'])
            if has(tab, k) is False:
                v = I.val(r.ret)
                while isinstance(v, tuple) and v[:1] == ('op',) and 'Cast' in v[1]: v = v[2]
                if isinstance(v, tuple) and v[:1] == ('flt',) and float(v[1]) == 0: v = 0
                ctx.check(v == 0 or v == ('cat', ()) or I.status(v) is False, nm + ':unknown', 'the answer for an unknown plugin is not empty', **K)
