"""C11-C15: what the code generator emits.  The generator is built from the sources and run on a corpus of schemas that
exercises every field kind, cardinality and option; the C++ it emits is what is analysed, for all field values."""
import glob, os, re, subprocess
from .. import gen, prog
from .grpc import *
CORPUS = os.path.join(prog.VERIF, 'corpus')
LAZY = 'QProtobufLazyMessagePointer'
SCALAR = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 6: 'fixed64', 7: 'fixed32', 8: 'bool', 9: 'string', 12: 'bytes', 13: 'uint32', 15: 'sfixed32', 16: 'sfixed64', 17: 'sint32', 18: 'sint64'}
def upper(n): return n[:1].upper() + n[1:]
def lower(n): return n[:1].lower() + n[1:]
def camelcase(n):
    """FieldDescriptor::camelcase_name"""
    out = ''; cap = False
    for c in n:
        if c == '_': cap = True
        elif cap: out += c.upper(); cap = False
        else: out += c
    return lower(out)
def propname(n):
    p = camelcase(n)
    return p + '_proto' if p in ('id', 'property', 'import') else p
class Field:
    def __init__(self, d, msg, msgs):
        self.name = d['name']; self.number = d['number']; self.type = d['type']; self.tn = d.get('type_name', '').lstrip('.'); self.prop = propname(d['name']); self.json = d['json_name']
        self.rep = d['label'] == 3; self.entry = None; self.msg = msg; self.S = msgs
    def kind(self):
        if self.entry is not None: return 'map'
        if self.rep: return 'repeated'
        return 'message' if self.type == 11 and not self.qt() else 'single'
    def qt(self): return self.type == 11 and re.match(r'QtProtobuf\.\w+$', self.tn)
class Message:
    def __init__(self, d, pkg, cpp, full): self.d = d; self.name = d['name']; self.cpp = cpp; self.full = full; self.fields = []; self.pkg = pkg; self.enums = d['enums']
class Schema:
    """messages, enums and services of the corpus, with the C++ names they are documented to get"""
    def __init__(self, files, extra=''):
        self.extra = extra; self.messages = {}; self.enums = {}; self.services = {}; self.entries = {}; self.qt = {}
        for fl in files:
            pkg = fl.get('package', ''); ns = '::'.join(([extra] if extra else []) + pkg.split('.'))
            if pkg == 'QtProtobuf': self.qt.update({m['name']: m for m in fl['messages']}); continue
            def add(m, scope, full, cns):
                f = full + '.' + m['name']
                if m['options'] and m['options'][0].get('map_entry'): self.entries[f] = m; return
                M = Message(m, pkg, cns + '::' + upper(m['name']), f); self.messages[f] = M
                for e in m['enums']: self.enums[f + '.' + e['name']] = (e, M.cpp + '::' + upper(e['name']))
                for x in m['nested']: add(x, M, f, cns + '::' + upper(m['name']) + '_QtProtobufNested')
            for m in fl['messages']: add(m, None, pkg, ns)
            for e in fl['enums']: self.enums[pkg + '.' + e['name']] = (e, ns + '::' + upper(e['name']) + 'Gadget::' + upper(e['name']))
            for s in fl['services']: self.services[pkg + '.' + s['name']] = (s, ns + '::' + upper(s['name']) + 'Client')
        for M in self.messages.values():
            for d in M.d['fields']:
                F = Field(d, M, self)
                if F.tn in self.entries: F.entry = [Field(x, M, self) for x in self.entries[F.tn]['fields']]
                M.fields.append(F)
def moc_properties(text):
    """{class: [(property, type name or QMetaType constant, type moc registers itself)]} of a moc output file"""
    out = {}
    for m in re.finditer(r'static const qt_meta_stringdata_(\w+)_t qt_meta_stringdata_\w+ = \{(.*?)\n\};\n(.*?)(?=struct qt_meta_stringdata_|\Z)', text, re.S):
        data = ''.join(re.findall(r'^ *"(.*)"$', m.group(2), re.M)).replace('\\0', '\0')
        names = {int(i): data[int(o):int(o) + int(l)] for i, o, l in re.findall(r'QT_MOC_LITERAL\((\d+), (\d+), (\d+)\)', m.group(2))}
        props = re.search(r'// properties: name, type, flags\n(.*?)\n\n', m.group(3), re.S)
        auto = {}
        a = re.search(r'else if \(_c == QMetaObject::RegisterPropertyMetaType\) \{\s*switch(.*?)\n    \}', m.group(3), re.S)
        if a:
            ids = []
            for line in a.group(1).splitlines():
                c = re.match(r'\s*case (\d+):', line)
                if c: ids.append(int(c.group(1)))
                r = re.search(r'qRegisterMetaType< (.*) >\(\)', line)
                if r:
                    for i in ids: auto[i] = r.group(1)
                    ids = []
        ps = []
        for line in (props.group(1).splitlines() if props else []):
            x = re.match(r'\s*(\d+), (?:0x80000000 \| (\d+)|(QMetaType::\w+)),', line)
            if x: ps.append((names.get(int(x.group(1))), names.get(int(x.group(2))) if x.group(2) else x.group(3), auto.get(len(ps))))
        out[names.get(0)] = ps
    return out
class Uncompilable(Exception): pass
def compiled(fn):
    """a generator whose output for a valid schema does not compile breaks every promise about that output"""
    def run(ctx):
        try: fn(ctx)
        except Uncompilable as e:
            m = re.search(r'generated:(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', str(e))
            ctx.check(False, 'uncompilable', 'the code generated for the corpus does not compile: ' + (m.group(3) if m else str(e)[:300]), file='generated:' + m.group(1) if m else 'generated', line=int(m.group(2)) if m else 0, fn='')
    run.__name__ = fn.__name__; return run
def corpus(options='', moc=False, protos=('vpcommon.proto', 'vpcorpus.proto', 'vpqt.proto'), probe=None, more=(), roots=None):
    """(program of the generated sources, schema)"""
    extra = next((o.split('=', 1)[1] for o in options.split(':') if o.startswith('EXTRA_NAMESPACE=')), '')
    with gen.Generated() as g:
        roots = roots or [CORPUS, os.path.join(prog.REPO, 'src/qttypes')]
        out = g.run('c', roots, protos, options); S = Schema(g.descriptors('c', roots, protos), extra)
        if any('vpqt' in p for p in protos):
            q = g.run('c', [os.path.join(prog.REPO, 'src/qttypes')], ('QtProtobuf/QtCore.proto', 'QtProtobuf/QtGui.proto'), 'QML:FOLDER')
        S.srcs = sorted(glob.glob(os.path.join(out, '**', '*.cpp'), recursive=True)); S.srcs = [s for s in S.srcs if '/QtProtobuf/' not in s]
        hs = [h for h in sorted(glob.glob(os.path.join(out, '**', '*.h'), recursive=True)) if '/QtProtobuf/' not in h]
        S.headers = {os.path.relpath(h, out): open(h).read() for h in hs}
        S.moc = {}
        if moc:
            for h in hs:
                o = h[:-2] + '_moc.cpp'
                r = subprocess.run(['moc', '-I' + out, h, '-o', o], capture_output=True, text=True, env=dict(os.environ, QT_SELECT='qt5'))
                if r.returncode: raise Uncompilable('moc fails on generated code: ' + r.stderr[-500:].replace(out + '/', 'generated:'))
                if os.path.exists(o): S.srcs.append(o); S.moc.update(moc_properties(open(o).read()))
        if probe:
            open(os.path.join(out, 'vp_probe.cpp'), 'w').write(probe); S.srcs.append(os.path.join(out, 'vp_probe.cpp'))
        try: P = prog.load(list(more) + [(s, ['-I' + out, '-I' + os.path.dirname(s)]) for s in S.srcs], roots=[out])
        except prog.Broken as e: raise Uncompilable(str(e).replace(out + '/', 'generated:'))
        for f in P.functions.values():
            if f['file'].startswith(out): f['file'] = 'generated:' + os.path.relpath(f['file'], out)
    return P, S

# ---------------------------------------------------------------- models
def content(I, L):
    """location of the message a lazy pointer leads to"""
    v = I.val(I.readv(L))
    if isinstance(v, tuple) and v[:1] == ('lz',): return v[1]
    return (('deref', ('lzp', v)), ())
def lz_ctor(I, n, ob, args):
    p = V(I, args[0]) if args else 0
    if p == 0: return ('lz', I.newtemp(('message',)))
    return ('lz', at(p))
def at(p):
    if isinstance(p, tuple) and p[0] in ('addr', 'objptr'): return p[1]
    return (('deref', p), ())
def lz_deref(I, n, ob, args): return ('lref', content(I, ob))
def lz_get(I, n, ob, args):
    c = content(I, ob)
    if c[0][0] == 'deref' and not c[1]:
        if isinstance(c[0][1], tuple) and c[0][1][0] == 'lzp': I.facts.add_ne(to_lin(c[0][1]))     # get() creates what is missing (C29)
        return c[0][1]
    return ('addr', c)
def lz_reset(I, n, ob, args):
    p = V(I, args[0])
    I.write(ob, ('lz', I.newtemp(('message',)) if I.truth(I.mk_eq(p, 0)) else at(p)))
    return 0
def mval(I, loc): return I.val(I.readv(loc))
def lz_eq(I, n, ob, args): return I.mk_eq(mval(I, content(I, ob)), mval(I, content(I, L(I, args[0]))))
def lz_ne(I, n, ob, args): return I.neg(lz_eq(I, n, ob, args))
def message_contracts(S):
    """value semantics of the message classes used by the function under analysis (their own functions are checked in turn)"""
    M = {}
    for m in S.messages.values(): contracts(M, m.cpp)
    for q in S.qt: contracts(M, 'QtProtobuf::' + q)
    return M
def real(I, n, ob, args):
    f = I.resolve(n)
    if f is None: raise AnalysisError('no definition of ' + n['q'])
    return models.run_with_values(I, f, [I.val(a) for a in args], ('addr', ob), args)
def contracts(M, c):
    def ctor(I, n, ob, args):
        if ob == ('ctor', (('this',), ())): real(I, n, ob[1], args); return None
        if not args: return ('message',)
        a = I.readv(L(I, args[0])) if isinstance(args[0], tuple) and args[0][:1] == ('lref',) else args[0]
        pts = [str(x) for x in n.get('pt') or []]
        if len(args) == 1 and pts and re.sub(r'^.*::', '', c) in pts[0] and '*' not in pts[0]:
            v = I.val(a)
            if '&&' in pts[0] and isinstance(args[0], tuple) and args[0][:1] == ('lref',): I.write(args[0][1], ('moved', v))
            return v
        vs = [V(I, x) for x in args]
        if all(x == 0 for x in vs) and all('QObject' in p for p in pts): return ('message',)
        return ('ctor', c) + tuple(vs)
    def asg(I, n, ob, args):
        if ob == (('this',), ()): return real(I, n, ob, args)
        v = V(I, args[0]); mv = '&&' in str((n.get('pt') or [''])[0])
        src = args[0][1] if isinstance(args[0], tuple) and args[0][:1] == ('lref',) else None
        I.write(ob, v)
        if mv and src is not None and src != ob: I.write(src, ('moved', v))
        return ('lref', ob)
    def eq(I, n, ob, args): return real(I, n, ob, args) if ob == (('this',), ()) else I.mk_eq(mval(I, ob), V(I, args[0]))
    M[c + '::' + c.split('::')[-1]] = ctor; M[c + '::operator='] = asg; M[c + '::operator=='] = eq; M[c + '::operator!='] = lambda I, n, ob, args: real(I, n, ob, args) if ob == (('this',), ()) else I.neg(eq(I, n, ob, args))
def deepeq(I, n, ob, args): return I.mk_eq(V(I, args[0]), V(I, args[1]))
def whole(I, n, ob, args): return I.mk_eq(mval(I, ob), V(I, args[0]))
def ccfg(P, S):
    cfg = gcfg(P); cfg.keep_moves = True
    M = cfg.models; M.update(message_contracts(S))
    M.update({LAZY + '::' + LAZY: lz_ctor, LAZY + '::operator*': lz_deref, LAZY + '::operator->': lambda I, n, ob, args: lz_get(I, n, ob, args), LAZY + '::get': lz_get, LAZY + '::reset': lz_reset, LAZY + '::operator==': lz_eq, LAZY + '::operator!=': lz_ne, '~' + LAZY: lambda I, n, ob, args: 0,
              'QtProtobuf::repeatedValueCompare': deepeq})
    for c in ['QMap', 'QList', 'QHash', 'QByteArray', 'QString', 'QStringList', 'QSharedPointer'] + list(S.qt):
        M[c + '::operator=='] = whole; M[c + '::operator!='] = lambda I, n, ob, args: I.neg(whole(I, n, ob, args))
    def feq(I, n, ob, args): return I.mk_eq(V(I, args[0]), V(I, args[1])) if len(args) == 2 else NotImplemented
    M['operator=='] = feq; M['operator!='] = lambda I, n, ob, args: I.neg(feq(I, n, ob, args)) if len(args) == 2 else NotImplemented
    return cfg

# ---------------------------------------------------------------- observers
WRAPPED = (3, 5, 6, 7, 15, 16)          # transparent<> wrappers
def method(P, M, name, n=None, pred=None):
    c = [f for f in P.byq.get(M.cpp + '::' + name, []) if (n is None or len(f['params']) == n) and (pred is None or pred(f))]
    if len(c) != 1: raise AnalysisError('%d functions %s::%s' % (len(c), M.cpp, name))
    return c[0]
def value(I, P, M, F, this):
    """the value of a field as its getter tells it"""
    g = [f for f in P.byq.get(M.cpp + '::' + F.prop, []) if not f['params']]
    g = [f for f in g if f.get('const')] or g
    if len(g) != 1: raise AnalysisError('no getter %s::%s' % (M.cpp, F.prop))
    k = len(I.trace)
    r = models.run_with_values(I, g[0], [], this)
    v = I.val(r)
    del I.trace[k:]
    if F.kind() == 'single' and F.type in WRAPPED:
        if isinstance(v, Struct): v = I.val(v.f['_t']) if '_t' in v.f else ('fld', v.base, '_t')
        else: v = ('fld', v, '_t')
    if F.kind() == 'single' and F.type == 14 and isinstance(v, tuple):
        neg = any(x.get('number', 0) < 0 for x in F.S.enums[F.tn][0]['values'])
        I.facts.set_range(v, -(1 << 31) if neg else 0, (1 << 31) - 1 if neg else (1 << 32) - 1)
    return v
def values(I, P, M, this): return {F.prop: value(I, P, M, F, this) for F in M.fields}
def whole_atoms(v): return to_lin(v).m if isinstance(v, (Lin, tuple)) else {}
def planned(plan, tables):
    """decide comparisons of field values by plan {field: equal?}"""
    def decide(I, l):
        hit = {n for t in tables(I) for n, v in t.items() if not isinstance(v, int) and any(mentions(a, v) for a in l.m)}
        return plan.get(next(iter(hit))) if len(hit) == 1 else None
    return decide
def plans(M, limit=5):
    """combinations of equal and different fields: all of them for small messages; otherwise all, none, one and all but one"""
    ns = [F.prop for F in M.fields]
    if len(ns) <= limit: return [None]
    out = [{n: True for n in ns}, {n: False for n in ns}]
    for n in ns: out += [{m: m != n for m in ns}, {m: m == n for m in ns}]
    return out
OTHER = (('deref', ('arg', 'other')), ())
def apart(I): I.facts.add_ne(to_lin(add(('arg', 'other'), mul(('addr', (('this',), ())), -1))))
def msg_param(f, M, k):
    """is f a function of one parameter: k = 'copy' (const T &) or 'move' (T &&)"""
    if len(f['params']) != 1: return False
    t = f['params'][0].get('t', '').replace(' ', '')
    return t == ('const' + M.cpp + '&' if k == 'copy' else M.cpp + '&&')
def same_value(I, a, b): return a == b or I.status(I.mk_eq(a, b)) is True
def each_message(ctx, S, fn):
    for n, M in sorted(S.messages.items()):
        with ctx.guard('message ' + n): fn(M)
OPTIONS = ('', 'QML:FIELDENUM')
@compiled
def c11(ctx):
    ctx.rule('after copy/move construction or assignment every getter of the target gives the value the getter of the source gave; operator== is true exactly when every pair of getters agrees')
    ctx.assume('the corpus covers every field kind and cardinality the generator distinguishes; signal handlers do not change the messages; floating-point values are compared as values')
    for opt in (OPTIONS if ctx.thorough else OPTIONS[1:]):
        P, S = corpus(opt); cfg = ccfg(P, S)
        def one(M):
            ctx.count('messages'); K = M.full + ('' if opt else ':plain')
            for name, kinds in ((M.cpp.split('::')[-1], ('copy', 'move')), ('operator=', ('copy', 'move'))):
                for k in kinds:
                    f = method(P, M, name, 1, lambda f: msg_param(f, M, k)); ctx.analysed(f)
                    transfer(ctx, P, S, M, f, cfg, k, K, name)
            f = method(P, M, 'operator=', 1, lambda f: msg_param(f, M, 'copy')); self_assign(ctx, P, M, f, cfg, K)
            equality(ctx, P, S, M, cfg, K)
        each_message(ctx, S, one)
    ctx.floor('messages', 20)
def run_planned(ctx, P, M, f, cfg, mk, post, tables, n=5):
    for plan in plans(M, n):
        def mk2(I, plan=plan):
            v = mk(I)
            if plan is not None: I.user['decide'] = planned(plan, tables)
            return v
        def post2(I, r): I.user.pop('decide', None); return post(I, r)
        for r in run_fn(P, cfg, f, mk2, ctx.stats, post=post2):
            ctx.count('paths'); yield r
def transfer(ctx, P, S, M, f, cfg, k, K, name):
    asg = name == 'operator='; what = '%s %s' % (k, 'assignment' if asg else 'construction')
    loc = loc_of(f)
    def mk(I):
        apart(I); I.user['src'] = values(I, P, M, ('addr', OTHER)); I.user['old'] = values(I, P, M, ('addr', (('this',), ())))
        return [('lref', OTHER)]
    def tables(I): return [I.user['src'], I.user['old']]
    def post(I, r):
        kw = dict(path=pathdesc(I.choices), **loc); T = ('addr', (('this',), ()))
        got = values(I, P, M, T); src = I.user['src']; after = values(I, P, M, ('addr', OTHER)) if k == 'copy' else None
        for F in M.fields:
            ctx.check(same_value(I, got[F.prop], src[F.prop]), '%s:%s:%s' % (K, what, F.prop), '%s of %s does not transfer the field %s' % (what, M.full, F.name), **kw)
            if after is not None: ctx.check(same_value(I, after[F.prop], src[F.prop]), '%s:%s-source:%s' % (K, what, F.prop), '%s of %s changes the field %s of its source' % (what, M.full, F.name), **kw)
        if asg: ctx.check(isinstance(r, tuple) and r[:1] == ('lref',) and r[1] == (('this',), ()), '%s:%s:result' % (K, what), '%s of %s does not return the target' % (what, M.full), **kw)
        return r
    for r in run_planned(ctx, P, M, f, cfg, mk, post, tables):
        if r.exc: ctx.check(False, '%s:%s:throws' % (K, what), '%s of %s throws' % (what, M.full), path=pathdesc(r.choices), **loc)
def self_assign(ctx, P, M, f, cfg, K):
    T = (('this',), ()); loc = loc_of(f)
    def mk(I): I.user['src'] = values(I, P, M, ('addr', T)); return [('lref', T)]
    def post(I, r):
        got = values(I, P, M, ('addr', T))
        for F in M.fields: ctx.check(same_value(I, got[F.prop], I.user['src'][F.prop]), '%s:self:%s' % (K, F.prop), 'assigning a %s to itself changes the field %s' % (M.full, F.name), path=pathdesc(I.choices), **loc)
        return r
    for r in run_planned(ctx, P, M, f, cfg, mk, post, lambda I: [I.user['src']]): pass
def equality(ctx, P, S, M, cfg, K):
    for name in ('operator==', 'operator!='):
        f = method(P, M, name, 1); ctx.analysed(f); loc = loc_of(f); neg = name == 'operator!='
        def mk(I):
            apart(I); I.user['src'] = values(I, P, M, ('addr', OTHER)); I.user['old'] = values(I, P, M, ('addr', (('this',), ())))
            return [('lref', OTHER)]
        def tables(I): return [I.user['src'], I.user['old']]
        def post(I, r):
            kw = dict(path=pathdesc(I.choices), **loc)
            st = {F.prop: I.status(I.mk_eq(I.user['old'][F.prop], I.user['src'][F.prop])) for F in M.fields}
            v = I.truth(I.val(r)) != neg
            if v:
                for n, s in st.items():
                    if s is None: s = I.status(I.mk_eq(I.user['old'][n], I.user['src'][n]))
                    ctx.check(s is True, '%s:%s:%s' % (K, name, n), 'two %s are taken for equal whatever their field %s is' % (M.full, n), **kw)
            else:
                st = {n: I.status(I.mk_eq(I.user['old'][n], I.user['src'][n])) for n in st}
                ctx.check(any(s is False for s in st.values()), '%s:%s:different' % (K, name), 'two %s with equal fields are taken for different' % M.full, **kw)
            return r
        for r in run_planned(ctx, P, M, f, cfg, mk, post, tables, n=40):
            if r.exc: ctx.check(False, '%s:%s:throws' % (K, name), 'comparing two %s throws' % M.full, path=pathdesc(r.choices), **loc)

# ---------------------------------------------------------------- C12
THIS = (('this',), ())
def emitted(I, M, start=0):
    """{property: number of emissions of its change signal on this object}"""
    out = {}
    for e in I.trace[start:]:
        if e.kind != 'call' or not str(e.q).startswith(M.cpp + '::') or not e.q.endswith('Changed'): continue
        o = e.obj
        if o in (THIS, ('addr', THIS)): n = e.q.rsplit('::', 1)[1][:-7]; out[n] = out.get(n, 0) + 1
    return out
def unwrapped(I, F, v):
    """the value of an argument or of a raw member, in the terms `value` uses"""
    if F.kind() == 'single' and F.type in WRAPPED:
        if isinstance(v, Struct): return I.val(v.f['_t']) if '_t' in v.f else ('fld', v.base, '_t')
        if not isinstance(v, (int, Lin)) and not (isinstance(v, tuple) and v[:1] in (('cast',), ('arg',))): return ('fld', v, '_t')
    return v
ARG = (('deref', ('arg', 'value')), ())
def notifies(ctx, I, M, key, old, new, em, kw, what, only=None):
    for F in M.fields:
        n = F.prop; s = 1 if old[n] == new[n] else I.status(I.mk_eq(old[n], new[n])); c = em.get(n, 0)
        if s is None: s = int(I.truth(I.mk_eq(old[n], new[n])))
        if s: ctx.check(c == 0, '%s:%s:spurious' % (key, n), '%s %s emits %sChanged although %s did not change' % (what, M.full, n, F.name), **kw)
        else: ctx.check(c >= 1 if only is None else c == 1, '%s:%s:silent' % (key, n), '%s %s changes %s but emits %sChanged %d times' % (what, M.full, F.name, n, c), **kw)
@compiled
def c12(ctx):
    ctx.rule('after a setter the getter of that field gives the argument and the others what they gave before; the change signal of exactly the changed fields is emitted; constructors give field i their i-th argument and the proto3 default to the fields they have no argument for')
    ctx.assume('the corpus covers every field kind and cardinality the generator distinguishes; signal handlers do not change the messages; the argument of a setter is not a reference into another field of the same message')
    for opt in (OPTIONS if ctx.thorough else OPTIONS[1:]):
        P, S = corpus(opt); cfg = ccfg(P, S)
        def one(M):
            ctx.count('messages'); K = M.full + ('' if opt else ':plain')
            for F in M.fields:
                with ctx.guard('setter %s.%s' % (M.full, F.name)): setter(ctx, P, M, F, cfg, K)
                if F.kind() == 'message':
                    with ctx.guard('pointer setter %s.%s' % (M.full, F.name)): pointer_setter(ctx, P, M, F, cfg, K)
                elif P.byq.get('%s::set%s_p' % (M.cpp, upper(F.prop))):
                    with ctx.guard('alias setter %s.%s' % (M.full, F.name)): setter(ctx, P, M, F, cfg, K + ':alias', 'set%s_p' % upper(F.prop))
            with ctx.guard('constructors of ' + M.full): constructors(ctx, P, M, cfg, K)
            for k in ('copy', 'move'):
                with ctx.guard('%s assignment of %s' % (k, M.full)): assign_notifies(ctx, P, M, cfg, K, k)
        each_message(ctx, S, one)
    ctx.floor('messages', 20); ctx.floor('setters', 100); ctx.floor('constructors', 100)
def setter(ctx, P, M, F, cfg, K, name=None):
    f = method(P, M, name or 'set' + upper(F.prop), 1); ctx.analysed(f); ctx.count('setters'); loc = loc_of(f); key = '%s:%s' % (K, f['q'].rsplit('::', 1)[1])
    alias = name is not None
    def mk(I):
        I.user['old'] = values(I, P, M, ('addr', THIS)); I.user['arg'] = None
        p = f['params'][0]
        if F.kind() == 'message': I.facts.add_ne(to_lin(add(pointer_of(I, P, M, F), mul(('arg', 'value'), -1))))
        if not p.get('ref'): v = ('arg', 'value'); a = v
        else: v = ('lref', ARG); a = I.val(I.readv(ARG))
        I.user['arg'] = a if alias else unwrapped(I, F, a)
        if F.kind() == 'single' and F.type == 14 and isinstance(a, tuple) and not alias: enum_range(I, F, a)
        if alias and isinstance(a, tuple): I.facts.set_range(a, -(1 << (63 if F.type in (3, 16) else 31)), (1 << 63) - 1 if F.type in (3, 16) else (1 << 31) - 1) if F.type in (3, 5, 15, 16, 17, 18) else None
        return [v]
    def post(I, r):
        kw = dict(path=pathdesc(I.choices), **loc); em = emitted(I, M)
        got = values(I, P, M, ('addr', THIS)); old = I.user['old']
        for G in M.fields:
            if G is F: ctx.check(same_value(I, strip_cast(got[G.prop]), strip_cast(I.user['arg'])), key + ':value', 'after %s of %s the field %s does not have the new value' % (f['q'].rsplit('::', 1)[1], M.full, F.name), **kw)
            else: ctx.check(same_value(I, got[G.prop], old[G.prop]), '%s:other:%s' % (key, G.prop), '%s of %s changes the field %s' % (f['q'].rsplit('::', 1)[1], M.full, G.name), **kw)
        new = dict(old); new[F.prop] = I.user['arg']
        if alias: old = dict(old); old[F.prop] = strip_cast(old[F.prop]); new[F.prop] = strip_cast(new[F.prop])
        notifies(ctx, I, M, key, old, new, em, kw, f['q'].rsplit('::', 1)[1] + ' of', only=F)
        return r
    for r in run_fn(P, cfg, f, mk, ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, key + ':throws', 'a setter of %s throws' % M.full, path=pathdesc(r.choices), **loc)
def strip_cast(v):
    while isinstance(v, tuple) and v[:1] == ('cast',): v = v[3]
    return v
def enum_range(I, F, v):
    neg = any(x.get('number', 0) < 0 for x in F.S.enums[F.tn][0]['values'])
    I.facts.set_range(v, -(1 << 31) if neg else 0, (1 << 31) - 1 if neg else (1 << 32) - 1)
def pointer_of(I, P, M, F):
    f = method(P, M, F.prop + '_p', 0); k = len(I.trace)
    v = I.val(models.run_with_values(I, f, [], ('addr', THIS))); del I.trace[k:]
    return v
def pointer_setter(ctx, P, M, F, cfg, K):
    f = method(P, M, 'set%s_p' % upper(F.prop), 1); ctx.analysed(f); ctx.count('setters'); loc = loc_of(f); key = '%s:%s' % (K, f['q'].rsplit('::', 1)[1])
    for null in (False, True):
        def mk(I):
            I.user['old'] = values(I, P, M, ('addr', THIS)); I.user['oldp'] = pointer_of(I, P, M, F)
            if null: return [0]
            I.facts.add_ne(to_lin(('arg', 'p'))); return [('arg', 'p')]
        def post(I, r):
            kw = dict(path=pathdesc(I.choices), **loc); em = emitted(I, M); got = values(I, P, M, ('addr', THIS))
            for G in M.fields:
                if G is not F:
                    ctx.check(same_value(I, got[G.prop], I.user['old'][G.prop]), '%s:other:%s' % (key, G.prop), 'set%s_p of %s changes the field %s' % (upper(F.prop), M.full, G.name), **kw)
                    ctx.check(em.get(G.prop, 0) == 0, '%s:%s:spurious' % (key, G.prop), 'set%s_p of %s emits %sChanged' % (upper(F.prop), M.full, G.prop), **kw)
            if null: ctx.check(same_value(I, got[F.prop], ('message',)) and em.get(F.prop, 0) == 1, key + ':null', 'setting %s of %s to null does not make it the default message with one notification' % (F.name, M.full), **kw)
            else:
                p = pointer_of(I, P, M, F); ctx.check(same_value(I, p, ('arg', 'p')), key + ':value', 'after set%s_p of %s the field %s is not the given object' % (upper(F.prop), M.full, F.name), **kw)
                s = I.truth(I.mk_eq(I.user['oldp'], ('arg', 'p')))
                ctx.check(em.get(F.prop, 0) == (0 if s else 1), key + ':notify', 'set%s_p of %s emits %sChanged %d times for %s object' % (upper(F.prop), M.full, F.prop, em.get(F.prop, 0), 'the same' if s else 'another'), **kw)
            return r
        for r in run_fn(P, cfg, f, mk, ctx.stats, post=post):
            ctx.count('paths')
            if r.exc: ctx.check(False, key + ':throws', 'a setter of %s throws' % M.full, path=pathdesc(r.choices), **loc)
def constructors(ctx, P, M, cfg, K):
    cs = [f for f in P.byq.get(M.cpp + '::' + M.cpp.split('::')[-1], []) if not msg_param(f, M, 'copy') and not msg_param(f, M, 'move')]
    have = set()
    for f in cs:
        ps = f['params']
        par = ps[-1] if ps and 'QObject' in ps[-1].get('t', '') and '*' in ps[-1].get('t', '') else None
        n = len(ps) - (par is not None)
        if par is None or n > len(M.fields): continue
        have.add(n); ctx.analysed(f); ctx.count('constructors'); loc = loc_of(f); key = '%s:ctor%d' % (K, n)
        def mk(I):
            vs = []; I.user['args'] = []
            for i, p in enumerate(ps[:n]):
                l = (('deref', ('arg', str(i))), ())
                if p.get('ref'): vs.append(('lref', l)); I.user['args'].append(unwrapped(I, M.fields[i], I.val(I.readv(l))))
                else:
                    # by-value parameters of wrapper type are objects
                    v = ('arg', str(i)); vs.append(v); F = M.fields[i]
                    I.user['args'].append(('fld', v, '_t') if F.kind() == 'single' and F.type in WRAPPED else v)
                    if F.kind() == 'single' and F.type == 14: enum_range(I, F, v)
            return vs + [('arg', 'parent')]
        def post(I, r):
            kw = dict(path=pathdesc(I.choices), **loc); got = values(I, P, M, ('addr', THIS))
            for i, F in enumerate(M.fields):
                g = got[F.prop]
                if i < n: ctx.check(same_value(I, g, I.user['args'][i]), '%s:%s' % (key, F.prop), 'the %d-argument constructor of %s does not give %s its argument' % (n, M.full, F.name), **kw)
                else: ctx.check(is_default(I, F, g), '%s:%s:default' % (key, F.prop), 'the %d-argument constructor of %s does not give %s its default value' % (n, M.full, F.name), **kw)
            b = [e for e in I.trace if e.kind == 'basector' and 'QObject' in str(e.q)]
            ctx.check(len(b) == 1 and b[0].args and I.val(b[0].args[0]) == ('arg', 'parent'), key + ':parent', 'the %d-argument constructor of %s does not pass its parent on' % (n, M.full), **kw)
            return r
        for r in run_fn(P, cfg, f, mk, ctx.stats, post=post):
            ctx.count('paths')
            if r.exc: ctx.check(False, key + ':throws', 'a constructor of %s throws' % M.full, path=pathdesc(r.choices), **loc)
    ctx.check(0 in have, K + ':ctor:none', '%s has no default constructor' % M.full, fn=M.cpp, file='generated', line=0)
def is_default(I, F, g):
    k = F.kind()
    if isinstance(g, Struct) and not g.f and g.base is None: return k in ('repeated', 'map') or bool(F.qt()) or F.type in (9, 12)
    if F.type in (1, 2) and k == 'single':
        while isinstance(g, tuple) and g[:1] == ('op',) and 'Cast' in g[1]: g = g[2]
        return g == 0 or (isinstance(g, tuple) and g[:1] == ('flt',) and float(g[1]) == 0 and not g[1].startswith('-'))
    if k in ('repeated', 'map') or (k == 'single' and F.type in (9, 12)): return g == ('message',) or is_empty(I, g)
    if k == 'message': return same_value(I, g, ('message',))
    if F.qt(): return g == ('message',) or (isinstance(g, tuple) and g[:1] == ('ctor',) and len(g) == 2) or is_empty(I, g)
    return same_value(I, g, 0)
def assign_notifies(ctx, P, M, cfg, K, k):
    f = method(P, M, 'operator=', 1, lambda f: msg_param(f, M, k)); loc = loc_of(f)
    def mk(I):
        apart(I); I.user['src'] = values(I, P, M, ('addr', OTHER)); I.user['old'] = values(I, P, M, ('addr', THIS)); return [('lref', OTHER)]
    def post(I, r):
        notifies(ctx, I, M, '%s:%s assignment' % (K, k), I.user['old'], I.user['src'], emitted(I, M), dict(path=pathdesc(I.choices), **loc), k + ' assignment of')
        return r
    for r in run_planned(ctx, P, M, f, cfg, mk, post, lambda I: [I.user['src'], I.user['old']]): pass

# ---------------------------------------------------------------- C13
def const(n):
    """value of a constant initialiser"""
    if not isinstance(n, dict): return None
    k = n.get('k')
    if k == 'int' or k == 'char': return int(n['v'])
    if k == 'str': return ('s', n['v'])
    if k == 'un' and n.get('op') == '-':
        v = const(n.get('e')); return -v if isinstance(v, int) else None
    if k == 'list' or 'es' in n: return [const(x) for x in n['es']]
    if 'args' in n:
        a = [const(x) for x in n['args'] if not (isinstance(x, dict) and x.get('k') in ('defarg', 'default'))]
        return a[0] if len(a) == 1 else a
    if 'e' in n: return const(n['e'])
    return None
def refs(n, out=None):
    """qualified names a constant initialiser mentions"""
    out = [] if out is None else out
    if isinstance(n, dict):
        if n.get('k') == 'var' and n.get('g'): out.append(n['g'])
        elif n.get('k') == 'var': out.append(n.get('n'))
        for v in n.values(): refs(v, out)
    elif isinstance(n, list):
        for v in n: refs(v, out)
    return out
def field_table(g):
    """[(number, property index, json name)] of a propertyOrdering initialiser"""
    def entries(v):
        if isinstance(v, list) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], list) and len(v[1]) == 2 and isinstance(v[1][0], int): return [(v[0], v[1][0], v[1][1])]
        if isinstance(v, list): return [e for x in v for e in entries(x)]
        return []
    return entries(const(g['init']))
def designated(ctx, P, M, cfg, what, i):
    """names of the functions of the message that reading (1) or writing (2) property i calls"""
    f = method(P, M, 'qt_static_metacall'); cfg.opaque_pred = lambda f: f.get('cls') == M.cpp
    out = set()
    try:
        for r in run_fn(P, cfg, f, lambda I: [('arg', 'o'), what, i, ('arg', 'a')], ctx.stats):
            out |= {e.q.rsplit('::', 1)[1] for e in r.I.trace if e.kind == 'call' and str(e.q).startswith(M.cpp + '::')} or {None}
    finally: cfg.opaque_pred = None
    return out
TABLES = ('', 'QML:FIELDENUM', 'MULTI:FOLDER:COMMENTS', 'EXTRA_NAMESPACE=ex:QML')
@compiled
def c13(ctx):
    ctx.rule('the field table of a message has one entry per field: its number, the index of the property that reads and writes that field, and the JSON name protoc gives it; enum and field-number constants have the numbers of the .proto file')
    ctx.assume('moc numbers the properties of a class in declaration order after those of QObject, as its generated accessor shows')
    for opt in TABLES:
        P, S = corpus(opt, moc=True); cfg = ccfg(P, S); tag = opt or 'plain'
        for n, M in sorted(S.messages.items()):
            with ctx.guard('table of ' + n):
                ctx.count('messages'); g = P.globals.get(M.cpp + '::propertyOrdering')
                if g is None or 'init' not in g: ctx.check(False, '%s:%s:table' % (n, tag), '%s has no field table' % n, fn=M.cpp, file='generated', line=0); continue
                tab = field_table(g); loc = dict(fn=M.cpp + '::propertyOrdering', file='generated:' + os.path.basename(g['file']), line=g.get('line', 0))
                ctx.check(len(tab) == len(M.fields), '%s:%s:entries' % (n, tag), 'the field table of %s has %d entries for %d fields' % (n, len(tab), len(M.fields)), **loc)
                for F in M.fields:
                    ctx.count('fields'); e = [t for t in tab if t[0] == F.number]; K = '%s:%s:%s' % (n, F.name, tag)
                    if len(e) != 1: ctx.check(False, K + ':number', 'the field table of %s has %d entries for the number %d of %s' % (n, len(e), F.number, F.name), **loc); continue
                    ctx.check(e[0][2] == ('s', F.json), K + ':json', 'the field table of %s names %s "%s", not "%s"' % (n, F.name, e[0][2], F.json), **loc)
                    want = F.prop + '_p' if F.kind() == 'message' else F.prop
                    r = designated(ctx, P, M, cfg, 1, e[0][1] - 1); w = designated(ctx, P, M, cfg, 2, e[0][1] - 1)
                    ctx.check(r == {want}, K + ':read', 'property %d, which the field table of %s gives for %s, reads %s' % (e[0][1], n, F.name, sorted(map(str, r))), **loc)
                    ctx.check(w == {'set' + upper(want)}, K + ':write', 'property %d, which the field table of %s gives for %s, writes through %s' % (e[0][1], n, F.name, sorted(map(str, w))), **loc)
                if 'FIELDENUM' in opt and M.fields:
                    en = P.enums.get(M.cpp + '::QtProtobufFieldEnum', {'values': []}); vals = {v['n']: int(v['v']) for v in en['values']}
                    for F in M.fields: ctx.check(vals.get(upper(F.prop) + 'ProtoFieldNumber') == F.number, '%s:%s:constant' % (n, F.name), 'the constant %sProtoFieldNumber of %s is %s, not %d' % (upper(F.prop), n, vals.get(upper(F.prop) + 'ProtoFieldNumber'), F.number), fn=M.cpp, file='generated', line=en.get('line', 0))
                m = P.globals.get(M.cpp + '::protobufMetaObject')
                rs = set(refs(m.get('init'))) if m else set()
                ctx.check({M.cpp + '::staticMetaObject', M.cpp + '::propertyOrdering'} <= rs and len(rs) == 2, '%s:%s:metaobject' % (n, tag), 'the meta object of %s is not made of its own meta object and field table (%s)' % (n, sorted(map(str, rs))), **loc)
        for n, (e, cpp) in sorted(S.enums.items()):
            with ctx.guard('enum ' + n):
                ctx.count('enums'); en = P.enums.get(cpp); loc = dict(fn=cpp, file='generated', line=en.get('line', 0) if en else 0)
                if en is None: ctx.check(False, n + ':enum', 'no enum %s is generated for %s' % (cpp, n), **loc); continue
                vals = {v['n']: int(v['v']) for v in en['values']}
                for v in e['values']: ctx.check(vals.get(upper(v['name'])) == v.get('number', 0), '%s:%s' % (n, v['name']), 'the constant %s of %s is %s, not %d' % (upper(v['name']), n, vals.get(upper(v['name'])), v.get('number', 0)), **loc)
    ctx.floor('messages', 60); ctx.floor('fields', 300); ctx.floor('enums', 18)

# ---------------------------------------------------------------- C14
ALIAS = {3: 'int64', 4: 'uint64', 5: 'int32', 6: 'fixed64', 7: 'fixed32', 13: 'uint32', 15: 'sfixed32', 16: 'sfixed64', 17: 'sint32', 18: 'sint64'}
PROBE = '#include <qtprotobuftypes.h>\nnamespace vpprobe {\n' + ''.join('QtProtobuf::%s &p%d();\nQtProtobuf::%s &p%d() { static QtProtobuf::%s v; return v; }\n' % (a, i, a, i, a) for i, a in ALIAS.items()) + 'void start() {}\n}\n'
PLAIN = {1: 'double', 2: 'float', 8: 'bool', 9: 'QString', 12: 'QByteArray'}
BUILTIN = {'QMetaType::Double': 'double', 'QMetaType::Float': 'float', 'QMetaType::Bool': 'bool', 'QMetaType::QString': 'QString', 'QMetaType::QByteArray': 'QByteArray', 'QMetaType::QStringList': 'QStringList', 'QMetaType::QByteArrayList': 'QList<QByteArray>',
           'QMetaType::Int': 'int', 'QMetaType::UInt': 'unsigned int', 'QMetaType::LongLong': 'long long', 'QMetaType::ULongLong': 'unsigned long long'}
def bare(t): return re.sub(r'^const |[ &]+$', '', t.strip())
def element_type(S, sc, F):
    """canonical C++ type of one value of a field"""
    if F.type in sc: return sc[F.type]
    if F.type == 14: return S.enums[F.tn][1]
    if F.qt(): return F.tn.split('.')[1] if not F.tn.endswith('Qt') else F.tn
    return S.messages[F.tn].cpp
def field_type(S, sc, F):
    if F.entry is not None:
        k, v = F.entry; V_ = element_type(S, sc, v)
        return 'QMap<%s, %s>' % (element_type(S, sc, k), 'QSharedPointer<%s>' % V_ if v.type == 11 else V_)
    e = element_type(S, sc, F)
    if not F.rep: return e
    return {9: 'QStringList'}.get(F.type) or ('QList<QSharedPointer<%s>>' % e if F.type == 11 else 'QList<%s>' % e)
SERQ = 'QtProtobufPrivate::'
def registrations(ctx, P, cfg):
    """[(handlers: {type: (serializer, template args, deserializer, template args, kind)}, names: {name: type}, qml: {type: (uri, name)}, bad: [...])] per path"""
    out = []; stored = []
    def registrar(I, n, ob, args): I.user.setdefault('stored', []).append(V(I, args[0])); return ('registrar',)
    def meta(I, n, ob, args):
        t = targs(n)[0]
        if args and n['q'] == 'qRegisterMetaType':
            a = V(I, args[0]); nm = a[1] if isinstance(a, tuple) and a[:1] == ('s',) else None
            if nm is not None: I.user.setdefault('names', {}).setdefault(nm, t)
        return ('typeid', t)
    cfg.models.update({'QMetaType::registerConverter': lambda I, n, ob, args: 1, 'qRegisterMetaType': meta, 'qMetaTypeId': meta})
    def qml(I, n, ob, args):
        vs = [V(I, a) for a in args]; I.user.setdefault('qml', {})[targs(n)[0]] = tuple(vs); return 0
    cfg.models['qmlRegisterType'] = qml
    cfg.loop_max = cfg.loop_hard = 500; cfg.first_call = True; cfg.opaque.add(REGH); cfg.maythrow = {}
    gs = [g for q, g in sorted(P.globals.items()) if isinstance(g.get('init'), dict) and 'ProtoTypeRegistrar::ProtoTypeRegistrar' in str(g['init'])]
    def post(I, r):
        l = models.run_with_values(I, P.fn('QtProtobuf::registerFunctions'), [], None)
        if not (isinstance(l, tuple) and l[:1] == ('lref',)): raise AnalysisError('registration list not understood')
        if not same_value(I, I.val(I.readv(l[1])), ('cat', ())): I.write(l[1], ('cat', ()))
        for g in gs:
            I.frames.append({'env': {}, 'q': 'registrar', 'file': g['file'], 'this': None, 'tu': g['_tu'], 'scopes': [[]]})
            I.ev(g['init'])
            I.frames.pop()
        I.val(models.run_with_values(I, P.fn('QtProtobuf::qRegisterProtobufTypes'), [], None))
        hs = {}; bad = []
        for e in I.trace:
            if e.kind != 'call' or e.q != REGH: continue
            t = I.val(e.args[0]); h = I.val(e.args[1])
            if not (isinstance(t, tuple) and t[0] == 'typeid') or not isinstance(h, Struct): raise AnalysisError('registration not understood: %s %s' % (str(t)[:80], str(h)[:80]))
            fn = []
            for k in ('serializer', 'deserializer'):
                v = I.val(h.f.get(k))
                if isinstance(v, tuple) and v[:1] == ('addr',): v = I.val(I.readv(v[1]))
                if not (isinstance(v, tuple) and v[:1] == ('fnref',)): raise AnalysisError('handler of %s not understood: %s' % (t[1], str(v)[:80]))
                f = P.functions.get(v[1]) or {}
                fn += [v[2], [x for x in f.get('ta') or [] if isinstance(x, str)]]
            if t[1] in hs and hs[t[1]][:5] != tuple(map(str, fn)) + (str(I.val(h.f.get('type'))),): bad.append(t[1])
            hs[t[1]] = tuple(map(str, fn)) + (str(I.val(h.f.get('type'))), e)
        out.append((hs, dict(I.user.get('names', {})), dict(I.user.get('qml', {})), bad, len(gs)))
        return r
    for r in run_fn(P, cfg, P.fn('vpprobe::start'), lambda I: [], ctx.stats, post=post):
        if r.exc: raise AnalysisError('registration throws')
    return out
REGH = 'QtProtobufPrivate::registerHandler'
def targs(n): return [x for x in n.get('ta') or [] if isinstance(x, str)] or [None]
@compiled
def c14(ctx):
    ctx.rule('every getter and setter has the C++ type of its field; after the static registrars have run, each message pointer, message list, enum, enum list and map type has the handler pair instantiated for exactly that type, and every property type name resolves to the type of its field')
    ctx.assume('the corpus covers every field kind and cardinality the generator distinguishes; moc names property types as Q_PROPERTY spells them')
    for opt in TABLES:
        P, S = corpus(opt, moc=True, probe=PROBE, more=['src/protobuf/qtprotobuf.cpp']); cfg = ccfg(P, S); tag = opt or 'plain'
        sc = dict(PLAIN)
        for i in ALIAS: sc[i] = bare(P.fn('vpprobe::p%d' % i)['ret']['t'])
        regs = None
        with ctx.guard('registrations:' + tag):
            regs = registrations(ctx, P, ccfg(P, S))
            if not regs: raise AnalysisError('no registration path')
        base = {}
        with ctx.guard('base names'): base = base_names(ctx, P, ccfg(P, S))
        for n, M in sorted(S.messages.items()):
            with ctx.guard('types of ' + n):
                ctx.count('messages')
                for F in M.fields:
                    ctx.count('fields'); T = field_type(S, sc, F); K = '%s:%s:%s' % (n, F.name, tag)
                    for f in P.byq.get(M.cpp + '::' + F.prop, []):
                        if f['params']: continue
                        ctx.check(bare(f['ret']['t']) == T, K + ':type', 'the getter of %s.%s gives %s, not %s' % (n, F.name, bare(f['ret']['t']), T), **loc_of(f))
                    for f in P.byq.get('%s::set%s' % (M.cpp, upper(F.prop)), []):
                        ctx.check(len(f['params']) == 1 and bare(f['params'][0]['t']) == T, K + ':settype', 'the setter of %s.%s takes %s, not %s' % (n, F.name, bare(f['params'][0]['t']) if f['params'] else '', T), **loc_of(f))
            if regs is None: continue
            with ctx.guard('registrations for ' + n):
                loc = dict(fn=M.cpp + '::registerTypes', file='generated', line=(P.byq.get(M.cpp + '::registerTypes') or [{'line': 0}])[0]['line'])
                for hs, names, qml, bad, ng in regs:
                    want = [(M.cpp + ' *', 'Object', [M.cpp], '0'), ('QList<QSharedPointer<%s>>' % M.cpp, 'List', [M.cpp], '1')]
                    for F in M.fields:
                        if F.entry is not None:
                            k, v = F.entry; want.append((field_type(S, sc, F), 'Map', [element_type(S, sc, k), element_type(S, sc, v)], '2'))
                        if F.type == 14: want += enum_handlers(S.enums[F.tn][1])
                        for x in (F.entry or [])[1:]:
                            if x.type == 14: want += enum_handlers(S.enums[x.tn][1])
                    for w in want: handler_is(ctx, hs, w, '%s:%s' % (n, tag), loc)
                    known = dict(base); known.update(names)
                    table = {t[0]: t for t in (field_table(P.globals[M.cpp + '::propertyOrdering']) if P.globals.get(M.cpp + '::propertyOrdering', {}).get('init') else [])}
                    ps = S.moc.get(M.cpp)
                    for F in M.fields:
                        t = table.get(F.number)
                        if ps is None or t is None or not 0 < t[1] <= len(ps): continue
                        nm, ty, auto = ps[t[1] - 1]; T = field_type(S, sc, F) + (' *' if F.kind() == 'message' else '')
                        got = BUILTIN.get(ty, ty[11:]) if ty and ty.startswith('QMetaType::') else (known.get(M.cpp + '::' + ty) if ty and '::' not in ty else None) or known.get(ty)
                        if got is None and F.kind() == 'message' and auto: got = T if auto.replace(' ', '') == T.replace(' ', '') else auto
                        if got is None and ty and not ty.startswith('QMetaType::'): got = 'no type (%s is not registered)' % ty if not auto and not F.qt() else None
                        if got is None: ctx.count('property_types_left_to_moc'); continue
                        ctx.count('property_types')
                        ctx.check(got.replace(' ', '') == T.replace(' ', ''), '%s:%s:%s:property' % (n, F.name, tag), 'the property of %s.%s has the type %s, which is %s, not %s' % (n, F.name, ty, got, T), **loc)
                    if 'QML' in opt:
                        q = qml.get(M.cpp); w = (('s', (S.extra + '.' if S.extra else '') + n.rsplit('.', 1)[0]), 1, 0, ('s', upper(M.name)))
                        ctx.check(q == w, '%s:qml' % n, '%s is registered with QML as %s' % (n, q), **loc)
        for n, (e, cpp) in sorted(S.enums.items()):
            if regs is None: continue
            with ctx.guard('enum ' + n):
                ctx.count('enums')
                for hs, names, qml, bad, ng in regs:
                    for w in enum_handlers(cpp): handler_is(ctx, hs, w, '%s:%s' % (n, tag), dict(fn=cpp, file='generated', line=P.enums.get(cpp, {}).get('line', 0)))
        for hs, names, qml, bad, ng in regs or []:
            for t in bad: ctx.check(False, 'conflict:' + t, 'two different handlers are registered for ' + t, fn='', file='generated', line=0)
    ctx.floor('messages', 60); ctx.floor('enums', 18); ctx.floor('property_types', 250)
def enum_handlers(E): return [(E, 'Enum', [E], '0'), ('QList<%s>' % E, 'EnumList', [E], '1')]
def handler_is(ctx, hs, w, K, loc):
    t, kind, ta, ty = w; h = hs.get(t)
    ctx.count('handlers')
    if h is None: ctx.check(False, '%s:unregistered:%s' % (K, t), 'no handler is registered for %s' % t, **loc); return
    ser, sta, des, dta, k, e = h
    ctx.check(ser == SERQ + 'serialize' + kind and sta == str(ta) and des == SERQ + 'deserialize' + kind and dta == str(ta) and k == ty, '%s:handler:%s' % (K, t), 'the handler of %s is %s%s / %s%s' % (t, ser, sta, des, dta), **loc)
def base_names(ctx, P, cfg):
    """names the library itself registers for the protobuf scalar types"""
    names = {}
    def meta(I, n, ob, args):
        t = targs(n)[0]
        if args:
            a = V(I, args[0])
            if isinstance(a, tuple) and a[:1] == ('s',): names.setdefault(a[1], t)
        return ('typeid', t)
    cfg.models['qRegisterMetaType'] = meta; cfg.loop_max = 1
    cfg.models['QMetaType::registerConverter'] = lambda I, n, ob, args: 1
    for r in run_fn(P, cfg, P.fn('QtProtobuf::qRegisterProtobufTypes'), lambda I: [], ctx.stats): pass
    return names

# ---------------------------------------------------------------- C15: generated clients
CALL, STREAM, READ = CLIENT + '::call', CLIENT + '::stream', OPBASE + '::read'
def scfg(P, S):
    cfg = ccfg(P, S); cfg.opaque |= {CALL, STREAM, READ}; return cfg
def sargs(f):
    def mk(I): return [('lref', (('deref', ('arg', i)), ())) if p.get('ref') else ('arg', i) for i, p in enumerate(f['params'])]
    return mk
def content_of(i): return ('init', ('deref', ('arg', i)))
def overloads(A, R, stream, qml, name):
    """(kind, C++ name, parameter types) of the members an RPC is documented to get"""
    if stream: return [('plain', 'stream' + upper(name), [A]), ('bound', 'stream' + upper(name), [A, 'QPointer<%s>' % R])] + ([('qml', 'qmlStream%s_p' % upper(name), [A + ' *', R + ' *'])] if qml else [])
    return [('sync', name, [A, 'QPointer<%s>' % R]), ('async', name, [A]), ('callback', name, [A, 'QObject *', None])] + ([('qmlcall', name, [A + ' *', 'QJSValue', 'QJSValue']), ('qmlret', name, [A + ' *', R + ' *', 'QJSValue'])] if qml else [])
def takes(f, ts): return len(f['params']) == len(ts) and all(t is None or bare(p['t']) == t for p, t in zip(f['params'], ts))
SERVICE_OPTIONS = ('', 'QML', 'MULTI:FOLDER:QML', 'QML:EXTRA_NAMESPACE=ex')
@compiled
def c15(ctx):
    ctx.rule('each client class passes the full name of its service to the client base; each RPC has its members, and on every path each of them makes exactly one call (or stream, if and only if the RPC is server-streaming) with the name of the RPC and its own argument; results reach the returned handle, the return object or the callback of that member; QML members make no call when a parameter is null or not callable and otherwise always do')
    ctx.assume('the corpus covers the kinds of services the generator distinguishes; call and stream of QAbstractGrpcClient behave as checked by C18, C19, C24')
    for opt in SERVICE_OPTIONS:
        P, S = corpus(opt, moc=True, protos=('vpcommon.proto', 'vpservice.proto')); tag = opt or 'plain'
        for n, (sv, cpp) in sorted(S.services.items()):
            with ctx.guard('constructor of %s:%s' % (n, tag)): client_ctor(ctx, P, S, n, cpp, tag)
            for m in sv['methods']:
                A, R = (S.messages[m[k].lstrip('.')].cpp for k in ('input', 'output')); ctx.count('rpcs')
                for kind, name, ts in overloads(A, R, m.get('server_streaming'), 'QML' in opt, m['name']):
                    fs = [f for f in P.byq.get(cpp + '::' + name, []) if takes(f, ts)]; K = '%s.%s:%s:%s' % (n, m['name'], kind, tag)
                    if not ctx.check(len(fs) == 1, K + ':member', 'the client has no %s(%s) for the RPC %s.%s' % (name, ', '.join(str(t) for t in ts), n, m['name']), fn=cpp, file='generated', line=0): continue
                    with ctx.guard(K): client_member(ctx, P, scfg(P, S), fs[0], kind, m, R, K)
    ctx.floor('rpcs', 40); ctx.floor('members', 120)
def client_ctor(ctx, P, S, n, cpp, tag):
    f = [f for f in P.byq.get(cpp + '::' + cpp.split('::')[-1], []) if len(f['params']) == 1 and 'QObject' in f['params'][0]['t']]
    if not ctx.check(len(f) == 1, '%s:%s:ctor' % (n, tag), 'the client class of %s cannot be constructed' % n, fn=cpp, file='generated', line=0): return
    f = f[0]
    for r in run_fn(P, scfg(P, S), f, sargs(f), ctx.stats):
        ctx.count('paths'); b = [e for e in r.I.trace if e.kind == 'basector']
        ctx.check(len(b) == 1 and text(b[0].args[0]) == ('s', n), '%s:%s:service' % (n, tag), 'the client of %s calls the service %s' % (n, b[0].args[0] if b and b[0].args else None), **loc_of(f))
        ctx.check(len(b) == 1 and b[0].args[1:2] == (('arg', 0),), '%s:%s:parent' % (n, tag), 'the client of %s does not get its parent' % n, **loc_of(f))
def text(v):
    while isinstance(v, tuple) and (v[0] == 'ctor' and v[1] in ('QLatin1String', 'QString', 'QByteArray', 'std::string', 'QStringLiteral') or v[0] == 'op' and v[1] in ('QString::fromLatin1', 'QString::fromUtf8', 'QString::fromStdString')):
        r = [a for a in v[2:] if a not in (None, ()) and not isinstance(a, int)]
        if len(r) != 1: break
        v = r[0]
    return v
def null(I, v): return I.status(I.mk_eq(v, 0))
def client_member(ctx, P, cfg, f, kind, m, R, K):
    ctx.count('members'); want = STREAM if m.get('server_streaming') else CALL
    late = kind in ('callback', 'qmlcall', 'qmlret')
    def started(I): return [e for e in I.trace if e.kind == 'call' and e.q in (CALL, STREAM) and not e.log]
    def post(I, r):
        c = started(I)
        if not late or len(c) != 1 or null(I, c[0].res) is True: return r
        I.user['k'] = len(I.trace); I.user['late'] = True; I.user['ok'] = I.truth(('vpflag', 'finished'))
        if null(I, c[0].res) is None: I.facts.add_ne(to_lin(c[0].res))
        raise_signal(I, c[0].res, OKQ if I.user['ok'] else OEQ, () if I.user['ok'] else [('lref', (('deref', ('arg', 'status')), ()))])
        return r
    for r in run_fn(P, cfg, f, sargs(f), ctx.stats, post=post):
        I = r.I; ctx.count('paths'); kw = dict(path=pathdesc(I.choices), **loc_of(f)); name = f['q'].split('::')[-1]; c = started(I)
        if not ctx.check(r.exc is None, K + ':throws', '%s throws' % name, **kw): continue
        if kind.startswith('qml') and kind != 'qml':
            why = [null(I, ('arg', 0)) is True]
            if kind == 'qmlret': why.append(null(I, ('arg', 1)) is True)
            if kind == 'qmlcall': why.append(callable_status(I, 1) is False)
            why.append(any(null(I, e.res) is True for e in I.trace if e.kind == 'call' and e.q in ('qjsEngine', 'qmlEngine')))
            null_deref(ctx, I, K, allow=())
            if not c:
                ctx.check(any(why), K + ':refused', '%s makes no call although its parameters are valid' % name, **kw); continue
            ctx.check(null(I, ('arg', 0)) is False, K + ':null', '%s makes the call without knowing that its argument is not null' % name, **kw)
            if kind == 'qmlret': ctx.check(null(I, ('arg', 1)) is False, K + ':nullret', '%s makes the call without knowing that its return object is not null' % name, **kw)
            if kind == 'qmlcall': ctx.check(callable_status(I, 1) is True, K + ':uncallable', '%s makes the call without knowing that its callback can be called' % name, **kw)
        if not ctx.check(len(c) == 1, K + ':calls', '%s makes %d calls' % (name, len(c)), **kw): continue
        e = c[0]; ekw = dict(kw, line=e.line)
        ctx.check(e.q == want, K + ':kind', '%s uses %s for the %s RPC %s' % (name, e.q.split('::')[-1], 'streaming' if want == STREAM else 'unary', m['name']), **ekw)
        ctx.check(e.args and text(e.args[0]) == ('s', m['name']), K + ':rpc', '%s calls the RPC %s, not %s' % (name, e.args and e.args[0], m['name']), **ekw)
        ctx.check(len(e.args) > 1 and same_value(I, e.args[1], content_of(0)), K + ':argument', '%s does not pass its argument to the RPC' % name, **ekw)
        ctx.check(same_obj(I, e.obj, (('this',), ())), K + ':client', '%s calls through another client' % name, **ekw)
        if kind in ('sync', 'bound', 'qml'):
            v = e.args[2] if len(e.args) > 2 else None
            ctx.check(v is not None and any(same_value(I, v, x) for x in (content_of(1), ('arg', 1))), K + ':return', '%s does not pass its return object to the RPC' % name, **ekw)
        if not late:
            if kind == 'async' or kind == 'plain': ctx.check(len(e.args) == 2 or all(a == 0 for a in e.args[2:]), K + ':extra', '%s passes something else with its argument' % name, **ekw)
            ctx.check(r.ret is not None and same_value(I, I.val(r.ret), e.res), K + ':result', '%s does not return what the call gives' % name, **ekw)
        elif 'k' not in I.user: continue
        else: delivered(ctx, I, kind, e, I.user['k'], name, R, K, kw)
def callable_status(I, i):
    for e in I.trace:
        if e.kind == 'call' and e.q == 'QJSValue::isCallable' and (e.extra or {}).get('objv') == content_of(i): return I.status(e.res)
    return None
def delivered(ctx, I, kind, call, k, name, R, K, kw):
    dangling(ctx, I, K)
    ok = I.user['ok']; js = [e for e in I.trace[k:] if e.kind == 'call' and e.q in ('QJSValue::call', 'QJSValue::callWithInstance') and not e.log]
    target = lambda e: (e.extra or {}).get('objv')
    def script(e):
        """what a script function was called with"""
        a = e.args[0] if e.args else None
        if not (isinstance(a, tuple) and a[:1] == ('cat',) and len(a[1]) == 1 and a[1][0][0] == 'e'): return None
        v = a[1][0][1]
        for t in I.trace[k:]:
            if t.kind == 'call' and t.res == v and t.q in ('QJSEngine::toScriptValue', 'QJSEngine::newQObject'): return t.args[0]
        return None
    reads = [e for e in I.trace[k:] if e.kind == 'call' and e.q == READ and same_obj(I, e.obj, call.res) and targs(e.node)[0] == R]
    if kind == 'callback':
        cs = [e for e in I.trace[k:] if e.kind == 'call' and e.q == 'std::function()' and not e.log]
        if ok:
            ctx.check(len(cs) == 1 and same_obj(I, cs[0].obj, content_of(2)) and len(cs[0].args) == 1 and same_value(I, cs[0].args[0], call.res), K + ':callback', '%s does not call its callback once with the reply when the call has finished' % name, **kw)
        for e in [e for e in I.trace if e.kind == 'connect' and same_obj(I, e.obj, call.res)]:
            ctx.check(same_obj(I, e.args[0], ('arg', 1)), K + ':context', '%s does not tie its callback to the context object' % name, **dict(kw, line=e.line))
        return
    err = content_of(2)
    if not ok:
        mine = [e for e in js if target(e) == err]
        ctx.check(len(js) == len(mine) and (len(mine) == 1 and script(mine[0]) == ('init', ('deref', ('arg', 'status'))) or not mine and callable_status(I, 2) is False), K + ':error', '%s does not hand the status of a failed call to its error callback, once' % name, **kw)
        return
    if kind == 'qmlcall':
        good = False
        if len(js) == 1 and target(js[0]) == content_of(1) and reads:
            o = script(js[0])
            good = isinstance(o, tuple) and o[:1] == ('addr',) and any(same_value(I, mval(I, o[1]), e.res) for e in reads)
        ctx.check(good, K + ':callback', '%s does not hand the received message to its callback, once' % name, **kw)
    else:
        ctx.check(not js, K + ':error', '%s calls the error callback of a call that succeeded' % name, **kw)
        p = ('late', ('arg', 1)); st = null(I, p)
        spots = [mval(I, (('deref', x), ())) for x in (p, ('arg', 1))]; init = [('init', ('deref', x)) for x in (p, ('arg', 1))]
        changed = [v for v, o in zip(spots, init) if v != o]
        if st is False: ctx.check(len(changed) == 1 and any(same_value(I, changed[0], e.res) for e in reads), K + ':return', '%s does not store the received message in its return object' % name, **kw)
        else: ctx.check(not changed, K + ':return', '%s writes to its return object, which may have been destroyed' % name, **kw)

# ---------------------------------------------------------------- C33: timestamps
DT = 'QDateTime'
def msecs(I, n, ob, args):
    v = ('msecs', mval(I, ob)); I.facts.set_range(v, -(1 << 62), 1 << 62); return v
@compiled
def c33(ctx):
    ctx.rule('symbolic integer dataflow over the conversions the generator emits for google.protobuf.Timestamp: for all milliseconds m, seconds * 10^9 + nanos = m * 10^6 with 0 <= nanos < 10^9; for all seconds s from year 1 to 9999 and nanos n in that range, the date-time is s * 1000 + floor(n / 10^6) milliseconds; the composition is the identity')
    ctx.assume('QDateTime::toMSecsSinceEpoch and fromMSecsSinceEpoch are inverse; times within 2^62 ms of the epoch')
    P, S = corpus('QML:FOLDER', protos=('google/protobuf/timestamp.proto',), roots=['/usr/include'])
    M = S.messages['google.protobuf.Timestamp']; F = {f.name: f for f in M.fields}
    cfg = ccfg(P, S); cfg.divmod = True
    cfg.models[DT + '::toMSecsSinceEpoch'] = msecs
    cfg.models[DT + '::toSecsSinceEpoch'] = lambda I, n, ob, args: I.arith('/', msecs(I, n, ob, args), 1000, 64, False)
    cfg.models[DT + '::fromMSecsSinceEpoch'] = lambda I, n, ob, args: ('datetime', V(I, args[0]))
    cfg.models[DT + '::fromSecsSinceEpoch'] = lambda I, n, ob, args: ('datetime', mul(V(I, args[0]), 1000))
    back = [f for f in P.byq.get(M.cpp + '::operator ' + DT, [])]
    make = [f for f in P.byq.get(M.cpp + '::Timestamp', []) if f['params'] and bare(f['params'][0]['t']) == DT]
    if not ctx.check(len(back) == 1 and len(make) == 1, 'missing', 'Timestamp has no conversion from or to QDateTime', fn=M.cpp, file='generated', line=0): return
    m = ('msecs', ('init', ('deref', ('arg', 0))))
    def le(I, a, b): return I.facts.entails_ge(add(b, mul(a, -1)))
    def eq(I, a, b): return le(I, a, b) and le(I, b, a)
    def ms(I, r):
        v = I.val(r)
        if not (isinstance(v, tuple) and v[:1] == ('datetime',)): raise AnalysisError('the conversion gives %s' % str(v)[:120])
        return v[1]
    with ctx.guard('from date-time'):
        f = make[0]; ctx.analysed(f)
        def post(I, r):
            s, n = (value(I, P, M, F[k], ('addr', THIS)) for k in ('seconds', 'nanos')); kw = dict(path=pathdesc(I.choices), **loc_of(f))
            # the recorded finding: exactly these values, nothing else
            micro = ':microseconds' if eq(I, s, I.arith('/', m, 1000, 64, False)) and eq(I, n, mul(I.arith('%', m, 1000, 64, False), 1000)) else ''
            ctx.check(eq(I, add(mul(s, 10 ** 9), n), mul(m, 10 ** 6)), 'instant' + micro, 'a Timestamp made of a date-time denotes another instant', **kw)
            ctx.check(le(I, 0, n) and le(I, n, 10 ** 9 - 1), 'nanos' + (':before-epoch' if micro else ''), 'the nanos of a Timestamp made of a date-time leave the range from 0 to 999999999', **kw)
            r2 = ms(I, models.run_with_values(I, back[0], [], ('addr', THIS)))
            ctx.check(eq(I, r2, m), 'roundtrip', 'a date-time converted to a Timestamp and back denotes another instant', **kw)
            ctx.count('paths'); return r
        for r in run_fn(P, cfg, f, lambda I: [('lref', (('deref', ('arg', i)), ())) if p.get('ref') else ('arg', i) for i, p in enumerate(f['params'])], ctx.stats, post=post): pass
    with ctx.guard('to date-time'):
        f = back[0]; ctx.analysed(f)
        def mk(I):
            I.user['s'], I.user['n'] = (value(I, P, M, F[k], ('addr', THIS)) for k in ('seconds', 'nanos'))
            I.facts.set_range(I.user['n'], 0, 10 ** 9 - 1); I.facts.set_range(I.user['s'], -62135596800, 253402300799); return []
        for r in run_fn(P, cfg, f, mk, ctx.stats):
            I = r.I; ctx.count('paths'); v = ms(I, r.ret); t = add(mul(I.user['s'], 10 ** 9), I.user['n'])
            micro = ':microseconds' if eq(I, v, add(mul(I.user['s'], 1000), I.arith('/', I.user['n'], 1000, 32, False))) else ''
            ctx.check(le(I, mul(v, 10 ** 6), t) and le(I, t, add(mul(v, 10 ** 6), 10 ** 6 - 1)), 'back' + micro, 'the date-time of a Timestamp denotes another instant', path=pathdesc(I.choices), **loc_of(f))
    ctx.floor('paths', 2)
