"""C10: the shared handler registry under concurrent use (lockset analysis)."""
from .lists import *

def excl(a, b, caps):
    """do the locks held at two accesses exclude each other?"""
    for la, ma in a:
        for lb, mb in b:
            if la != lb or la[0][0] != 'g': continue   # a lock in a local or in the object itself is another one in the other thread
            if isinstance(ma, tuple) and ma[0] == 'sem' and isinstance(mb, tuple) and mb[0] == 'sem':
                c = caps.get(la)
                if c is not None and isinstance(ma[1], int) and isinstance(mb[1], int) and ma[1] + mb[1] > c: return True
            elif ma == 'r' and mb == 'r': continue
            elif isinstance(ma, tuple) or isinstance(mb, tuple): continue
            else: return True
    return False

def capacities(I):
    """initial permits of semaphores found in constructed static objects, keyed like the lock identities"""
    out = {}
    def go(root, path, v):
        if isinstance(v, tuple) and v and v[0] == 'sem' and isinstance(v[1], int): out[(root, path)] = v[1]
        elif isinstance(v, Struct):
            for k, x in v.f.items(): go(root, path + (k,), x)
    for root, v in I.store.items():
        if root[0] == 'g':
            r = ('g',) + root[2:] if len(root) > 2 and root[1] == 'static' else root
            go(r, (), v)
    return out

def lockish(P, root, path):
    return False

def accesses(P, ctx, f, label, locks_seen):
    """(kind, location, held, event) of all accesses to shared memory on all paths"""
    cfg = Config(P, watch=lambda I, root, path: 'shared' if root[0] == 'g' and root[1] != 'static' else None)
    out = []; caps = {}
    rs = run_fn(P, cfg, f, lambda I: arg_values(I, P, f, None), ctx.stats)
    for r in rs:
        ctx.count('paths'); caps.update(capacities(r.I))
        for e in r.trace:
            if e.log: continue
            if e.kind in ('read', 'write') and e.q == 'shared': out.append((e.kind, e.args[0], e.held, e, r))
            elif e.kind == 'map-insert' and e.obj and e.obj[0][0] == 'g': out.append(('write', e.obj, e.held, e, r))
            elif e.kind in ('acquire',): locks_seen.append((e, r))
            elif e.kind == 'bad-release':
                ctx.check(False, 'bad-release:' + label, 'a lock or permit that is not held is released', file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
            elif e.kind == 'call' and e.held and (e.extra or {}).get('indirect') is not None:
                ctx.check(False, 'callback:' + label, 'user code is called while a lock is held', file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
        ctx.check(not r.I.held, 'leak:' + label, 'a lock or permit (%s) is still held when %s %s' % (', '.join(repr(h[0][1] or h[0][0]) for h in r.I.held), label, 'throws' if r.exc else 'returns'), path=pathdesc(r.choices), **loc_of(f))
    return out, caps, rs

def base(loc):
    """the shared object an access belongs to: static object and member, without element paths"""
    root, path = loc
    p = []
    for x in path:
        if isinstance(x, tuple): break
        p.append(x)
    return (root[:2], tuple(p))

def overlap(a, b):
    if a[0] != b[0]: return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n]

def c10(ctx):
    ctx.rule('Lockset dataflow: every access to static storage reachable from the registration and lookup functions is recorded on every path with the locks and permits held; for each pair of accesses to one object of which one is a write, the locks held must exclude each other (same mutex, or permits that together exceed the semaphore\'s capacity).')
    ctx.rule('Every acquire is matched by a release on every exit; locks are taken in one global order; no std::function or callback is called while one is held; lookups return a copy, never a reference into the registry.')
    ctx.rule('The table of basic handlers is written only while the first serializer is constructed, under a lock every constructor takes.')
    ctx.assume('a serializer is used by other threads only after its construction has been published to them')
    P = load()
    acc = []; caps = {}; locks = []
    entries = [f for f in P.functions.values() if f['q'] in ('QtProtobufPrivate::registerHandler', 'QtProtobufPrivate::findHandler') and f.get('body')]
    if len(entries) != 2: raise prog.Broken('registerHandler / findHandler not found')
    src = {f['file'] for f in entries}
    for f in P.functions.values():
        if f['file'] in src and f.get('body') and not f.get('cls') and f not in entries and f['file'].endswith('.cpp'): entries.append(f)
    for f in entries:
        ctx.analysed(f); ctx.count('entry_points')
        a, c, rs = accesses(P, ctx, f, f['q'].split('::')[-1], locks)
        acc += a; caps.update(c)
        if f['q'].endswith('findHandler'):
            for r in rs:
                v = r.ret
                bad = isinstance(v, tuple) and v and (v[0] == 'lref' or v[0] == 'addr') and v[1][0][0] == 'g'
                ctx.check(not bad and not f.get('retref'), 'escape', 'the lookup hands out a reference into the registry, which is read after the lock is released', **loc_of(f))
    # pairs
    n = pairs(ctx, acc, caps)
    writes = [a for a in acc if a[0] == 'write']; reads_ = [a for a in acc if a[0] == 'read' and any(overlap(base(a[1]), base(w[1])) for w in writes)]
    if not writes or not reads_: raise AnalysisError('accesses to the registry not recognised')
    # lock order
    edges = {}
    for e, r in locks:
        for h, m in e.held[:-1]:
            if h != e.obj: edges.setdefault((h, e.obj), e)
            elif m != 'r':
                ctx.check(False, 'self-deadlock', 'a lock is taken while it is held', file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
    for (a, b), e in edges.items():
        ctx.check((b, a) not in edges, 'order', 'two locks are taken in different orders in different functions', file=e.file, line=e.line, fn=e.fn)
    # a permit taken under no mutex while a writer collects permits one after the other may starve, but not corrupt
    ctx.floor('entry_points', 2); ctx.floor('pairs', 1)
    with ctx.guard('basic handlers'): basic(ctx, P)

def pairs(ctx, acc, caps):
    seen = set(); n = 0
    uniq = {}
    for k, loc, held, e, r in acc: uniq.setdefault((k, base(loc), held), (e, r))
    items = list(uniq.items())
    for (ka, la, ha), (ea, ra) in items:
        if ka != 'write': continue
        for (kb, lb, hb), (eb, rb) in items:
            if not overlap(la, lb): continue
            ctx.count('pairs'); n += 1
            ok = excl(ha, hb, caps)
            ctx.check(ok, 'race:%s:%s:%s' % ('.'.join(map(str, la[1])) or la[0][1], ea.fn.split('::')[-1], eb.fn.split('::')[-1]),
                      'the write of %s in %s and the %s in %s (line %d) can run at the same time: the locks held (%s / %s) do not exclude each other' % ('.'.join(map(str, la[1])) or la[0][1], ea.fn, kb, eb.fn, eb.line, held_s(ha), held_s(hb)), file=ea.file, line=ea.line, fn=ea.fn, path=pathdesc(rb.choices))
    return n
def held_s(h): return ', '.join('%s x%s' % ('.'.join(map(str, l[1])) or l[0][1], m[1] if isinstance(m, tuple) else 1) for l, m in h) or 'none'

def basic(ctx, P):
    root, tab = handler_table(ctx, P)
    q = root[1]
    ctor = [x for x in P.fns(SER + '::QProtobufSerializerPrivate') if x.get('isctor')][0]
    touch = {}
    for f in P.functions.values():
        if f.get('body') and any(n.get('k') == 'var' and n.get('g') == q for n in walk([f['body']] + (f.get('inits') or []))): touch[f['id']] = f
    cfg = Config(P, watch=lambda I, r, p: 'tab' if r == root else None, on_call=None)
    acc = []
    n = 0
    for r in run_fn(P, cfg, ctor, lambda I: arg_values(I, P, ctor, None), ctx.stats):
        ctx.count('paths'); n += 1
        evs = [e for e in r.trace if e.kind in ('read', 'write') and e.q == 'tab' or e.kind == 'map-insert' and e.obj and e.obj[0] == root]
        wr = [e for e in evs if e.kind != 'read']
        for e in evs: acc.append(('read' if e.kind == 'read' else 'write', (root, ()), e.held, e, r))
        if wr:
            e = wr[0]
            once = all(any(m == 'once' for _, m in x.held) for x in wr)
            emp = r.I.facts.eq_status(('size', ('init', root)))
            ctx.check(once or emp is True, 'table-rewrite', 'constructing a further serializer writes the shared table of basic handlers again while others use it', file=e.file, line=e.line, fn=e.fn, path=pathdesc(r.choices))
        ctx.check(not r.I.held, 'table-leak', 'a lock is still held after construction', path=pathdesc(r.choices), **loc_of(ctor))
    pairs(ctx, acc, {})
    # everything else only reads it
    callers = lambda fid: [g for g in P.functions.values() if g.get('body') and any(x.get('id') == fid and x.get('k') in ('call', 'var', 'fnref') for x in walk(g['body']))]
    for f in list(touch.values()):
        if f is ctor: continue
        ctx.count('table_users')
        for nd in walk(f['body']):
            if nd.get('k') in ('call', 'op') and table_write(nd, q):
                # a writer: it may only be used by the constructor
                for g in callers(f['id']):
                    ctx.check(g is ctor or g['id'] in touch and not g.get('isctor') and g is not f, 'table-writer:' + g['q'], 'the shared table of basic handlers is written outside the construction of a serializer', file=g['file'], line=g['line'], fn=g['q'])
                if not f.get('static') and not f.get('isctor'): ctx.check(False, 'table-writer:' + f['q'], 'the shared table of basic handlers is written outside the construction of a serializer', file=f['file'], line=nd.get('l', f['line']), fn=f['q'])
                break
        else: ctx.count('obligations'); ctx.count('discharged')

def table_write(n, q):
    o = n.get('o') or (n.get('args') or [None])[0]
    if not (isinstance(o, dict) and o.get('k') == 'var' and o.get('g') == q): return False
    nm = n.get('q', '').split('::')[-1]
    return nm in ('operator[]', 'insert', 'emplace', 'erase', 'clear', 'operator=', 'insert_or_assign', 'swap')
