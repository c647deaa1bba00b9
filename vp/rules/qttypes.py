"""C16, C17: conversions and registration of the Qt value types"""
import os, re
from .. import gen, prog
from .grpc import *
REGQ = 'QtProtobufPrivate::registerHandler'
SO, DO = 'QtProtobuf::QAbstractProtobufSerializer::serializeObject', 'QtProtobuf::QAbstractProtobufSerializer::deserializeObject'
PROTOS = ('QtProtobuf/QtCore.proto', 'QtProtobuf/QtGui.proto')
def xy(T, *n): return tuple(T + '::' + x for x in n)
# value type -> the components its constructor takes, in order
CONS = {'QPoint': xy('QPoint', 'x', 'y'), 'QPointF': xy('QPointF', 'x', 'y'), 'QSize': xy('QSize', 'width', 'height'), 'QSizeF': xy('QSizeF', 'width', 'height'),
        'QRect': xy('QRect', 'topLeft', 'size'), 'QRectF': xy('QRectF', 'topLeft', 'size'), 'QVector2D': xy('QVector2D', 'x', 'y'), 'QVector3D': xy('QVector3D', 'x', 'y', 'z'),
        'QVector4D': xy('QVector4D', 'x', 'y', 'z', 'w'), 'QTransform': xy('QTransform', *['m%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)]),
        'QQuaternion': xy('QQuaternion', 'scalar', 'vector'), 'QDate': xy('QDate', 'year', 'month', 'day'), 'QDateTime': xy('QDateTime', 'date', 'time'), 'QTime': xy('QTime', 'hour', 'minute', 'second', 'msec'),
        'QMatrix4x4': tuple(('QMatrix4x4', i, j) for i in range(4) for j in range(4))}
PROJ = {p: (T, i) for T, ps in CONS.items() for i, p in enumerate(ps)}
RESULT = {'QRect::topLeft': 'QPoint', 'QRect::size': 'QSize', 'QRectF::topLeft': 'QPointF', 'QRectF::size': 'QSizeF', 'QQuaternion::vector': 'QVector3D', 'QDateTime::date': 'QDate', 'QDateTime::time': 'QTime',
          'QRect::bottomRight': 'QPoint', 'QRectF::bottomRight': 'QPointF'}
FLT = ('QVector2D', 'QVector3D', 'QVector4D', 'QMatrix4x4', 'QQuaternion')
# other ways to say the same component
ALIAS = {}
for R, Pt, Sz in (('QRect', 'QPoint', 'QSize'), ('QRectF', 'QPointF', 'QSizeF')):
    for a, p in (('x', 'x'), ('left', 'x'), ('y', 'y'), ('top', 'y')): ALIAS[R + '::' + a] = (Pt + '::' + p, R + '::topLeft')
    for a in ('width', 'height'): ALIAS[R + '::' + a] = (Sz + '::' + a, R + '::size')
for a in 'xyz': ALIAS['QQuaternion::' + a] = ('QVector3D::' + a, 'QQuaternion::vector')
ALIAS.update({'QTransform::dx': ('QTransform::m31',), 'QTransform::dy': ('QTransform::m32',)})
# functions that give another value than their operand for some operand
CHANGES = {'normalized', 'normalize', 'transposed', 'inverted', 'conjugated', 'adjoint', 'toUTC', 'toLocalTime', 'toTimeSpec', 'toOffsetFromUtc', 'toTimeZone', 'addDays', 'addMonths', 'addYears', 'addSecs', 'addMSecs',
           'toDisplayString', 'adjusted', 'resolved', 'host', 'path', 'toLocalFile', 'query', 'fragment', 'scheme', 'authority', 'userInfo', 'fileName', 'toLower', 'toUpper', 'trimmed', 'simplified', 'left', 'right', 'mid', 'chopped', 'rgb', 'lighter', 'darker', 'light', 'dark', 'convertTo',
           'convertToFormat', 'scaled', 'mirrored', 'rgbSwapped', 'center', 'bottomLeft', 'topRight', 'moved', 'translated', 'toPoint', 'toSize', 'toRect', 'toAlignedRect', 'manhattanLength', 'length', 'lengthSquared',
           'secsTo', 'daysTo', 'dayOfYear', 'dayOfWeek', 'red', 'green', 'blue', 'toLatin1', 'toAscii', 'fromRgb', 'number', 'qRound', 'qFloor', 'qCeil', 'floor', 'ceil', 'round', 'qAbs', 'abs', 'std::abs', 'toVector2D', 'toVector3D', 'toVector4D', 'toTime_t', 'toSecsSinceEpoch', 'qMin', 'qMax', 'qBound'}
class Unknown(Exception): pass
def typ(t):
    """type of a reduced term, when it is one of the value types"""
    if isinstance(t, tuple) and t:
        if t[0] == 'S': return t[1]
        if t[0] == 'ctor': return t[1]
        if t[0] == 'op': return RESULT.get(t[1])
    return None
def isnum(T): return T is None
ENDS = {'QRect::right': ('QRect::x', 'QRect::width'), 'QRect::bottom': ('QRect::y', 'QRect::height')}
def reduce(t):
    """normal form of a conversion result: projections of constructors, constructors of all projections and inverse pairs vanish"""
    if isinstance(t, Lin):
        if t.c == 0 and len(t.m) == 1:
            (x, k), = t.m.items()
            if k == 1: return reduce(x)
        out = Lin({}, t.c)
        for x, k in t.m.items():
            if isinstance(x, tuple) and x[:1] == ('op',) and x[1] in ENDS:
                a, b = ENDS[x[1]]; r = add(add(to_lin(reduce(('op', a, x[2]))), to_lin(reduce(('op', b, x[2])))), Lin({}, -1))
            else:
                r = reduce(x); r = r[1] if isinstance(r, tuple) and r[:1] == ('arith',) else to_lin(r)
            out = add(out, Lin({y: c * k for y, c in r.m.items()}, r.c * k))
        n = norm(out)
        if not isinstance(n, Lin): return n
        if n.c == 0 and len(n.m) == 4:
            w = {c: x for x, c in n.m.items()}
            if set(w) == {3600000, 60000, 1000, 1} and all(isinstance(w[c], tuple) and w[c][:2] == ('op', q) for c, q in ((3600000, 'QTime::hour'), (60000, 'QTime::minute'), (1000, 'QTime::second'), (1, 'QTime::msec'))) and len({x[2] for x in w.values()}) == 1:
                return ('op', 'QTime::msecsSinceStartOfDay', w[1][2])
        return ('arith', n)
    if isinstance(t, tuple) and t[:1] == ('op',) and t[1] in ENDS: return reduce(add(add(to_lin(('op', ENDS[t[1]][0], t[2])), to_lin(('op', ENDS[t[1]][1], t[2]))), Lin({}, -1)))
    if isinstance(t, Struct): return t
    if not isinstance(t, tuple) or not t: return t
    if t[0] in ('S', 's', 'arg'): return t
    if t[0] == 'e': return ('e', reduce(t[1]))
    if t[0] == 'cat': return ('cat', tuple(reduce(x) for x in t[1]))
    if t[0] == 'cast':
        x = reduce(t[-1])
        return x if t[1] >= 32 else ('narrow', x)
    if t[0] == 'op':
        q = t[1]
        if isinstance(q, str) and ':' in q and q.split(':')[0] in ('FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingToBoolean', 'IntegralCast'):
            ck, ty = q.split(':', 1); x = reduce(t[2]); ty = ty.replace('const ', '').strip(); ty = {'qreal': 'double'}.get(ty, ty)
            if ck == 'FloatingCast':
                if ty == 'double': return ('wide', x)
                y = x[1] if isinstance(x, tuple) and x[0] == 'wide' else x
                return y if single(y) else ('narrow', y)
            if ck == 'IntegralToFloating': return ('wide', x) if ty == 'double' else ('narrow', x)
            if ck == 'FloatingToIntegral' and isinstance(x, tuple) and x[0] == 'wide' and not single(x[1]) and intval(x[1]): return x[1]
            return ('narrow', x)
        if q in ALIAS:
            x = t[2]
            for p in reversed(ALIAS[q]): x = ('op', p, x)
            return reduce(x)
        a = tuple(reduce(x) for x in t[2:])
        if q == 'QTime::msecsTo' and isinstance(a[0], tuple) and a[0][:2] == ('ctor', 'QTime') and len(a[0]) > 2 and not any(a[0][2:]): return ('op', 'QTime::msecsSinceStartOfDay', a[1])
        if q in PROJ:
            T, i = PROJ[q]
            if isinstance(a[0], tuple) and a[0][0] == 'ctor' and a[0][1] == T and len(a[0]) == 2 + len(CONS[T]): return a[0][2 + i]
            return ('op', q, a[0])
        for enc, dec in PAIRS:
            if q in dec:
                x = a[0] if a else None
                # instance functions that decode: none
                if isinstance(x, tuple) and x[:1] == ('op',) and x[1] in enc and safe(x): return x[2]
        return ('op', q) + a
    if t[0] == 'ctor':
        T = t[1]; a = tuple(reduce(x) for x in t[2:])
        if T == 'QVariant' and len(a) == 1: return a[0]
        if len(a) == 1 and typ(a[0]) == T: return a[0]
        if T in ('QRect', 'QRectF') and len(a) == 4: a = (reduce(('ctor', T[:1] + 'Point' + T[5:], a[0], a[1])), reduce(('ctor', 'QSize' + T[5:], a[2], a[3])))
        if T in ('QRect', 'QRectF') and len(a) == 2 and isinstance(a[1], tuple) and a[1][:2] == ('op', T + '::bottomRight') and a[0] == ('op', T + '::topLeft', a[1][2]): return a[1][2]
        if T == 'QQuaternion' and len(a) == 4: a = (a[0], reduce(('ctor', 'QVector3D') + a[1:]))
        if T == 'QDateTime' and len(a) == 3 and a[2] == 0: a = a[:2]
        for enc, dec in PAIRS:
            if T in dec and a and isinstance(a[0], tuple) and a[0][:1] == ('op',) and a[0][1] in enc and safe(a[0]) and all(x == 0 for x in a[1:]): return a[0][2]
        if T in ('QRect', 'QRectF') and len(a) == 2 and typ(a[1]) in ('QPoint', 'QPointF'): return ('ctor', T + ':corners') + a
        if T in CONS and len(a) == len(CONS[T]):
            s = [x[2] if isinstance(x, tuple) and len(x) == 3 and x[:2] == ('op', p) else None for x, p in zip((unwide(x) for x in a), CONS[T])]
            if s[0] is not None and all(x == s[0] for x in s): return s[0]
        return ('ctor', T) + a
    return t
def unwide(x): return x[1] if isinstance(x, tuple) and x[:1] == ('wide',) and not (isinstance(x[1], tuple) and intval(x[1])) else x
def single(x): return isinstance(x, tuple) and x[0] == 'op' and (x[1] in PROJ and PROJ[x[1]][0] in FLT)
def intval(x): return isinstance(x, tuple) and x[0] == 'op' and x[1] in PROJ and PROJ[x[1]][0] in ('QPoint', 'QSize', 'QRect', 'QDate')
def safe(x):
    """the encoding keeps everything: formatting options drop nothing"""
    opts = tuple(o[2] if isinstance(o, tuple) and o[:1] == ('ctor',) and len(o) == 3 else o for o in x[3:])
    if x[1].startswith('QUrl::'):
        return all(isinstance(o, int) and not (o & 0x7fe) and not (o & 0x4000000 and o & 0x8000000) for o in opts) or not opts
    if x[1] == 'QUuid::toString': return all(o in (0, 1) for o in opts)
    return True
PAIRS = [(('QUrl::url', 'QUrl::toString'), ('QUrl',)), (('QUrl::toEncoded',), ('QUrl::fromEncoded',)),
         (('QUuid::toString', 'QUuid::toByteArray'), ('QUuid', 'QUuid::fromString')), (('QUuid::toRfc4122',), ('QUuid::fromRfc4122',)),
         (('QColor::rgba',), ('QColor::fromRgba',)), (('QColor::rgba64',), ('QColor::fromRgba64',)),
         (('QTime::msecsSinceStartOfDay',), ('QTime::fromMSecsSinceStartOfDay',)), (('QDate::toJulianDay',), ('QDate::fromJulianDay',)),
         (('QChar::unicode',), ('QChar',))]
KNOWN = {x for e, d in PAIRS for x in e + d} | set(PROJ) | {'QRect', 'QRectF'} | set(CONS)
def unknown(t):
    """functions in a normal form whose meaning is not tabulated"""
    out = set()
    def go(x):
        if isinstance(x, Lin):
            for y in x.m: go(y)
        elif isinstance(x, Struct):
            for y in x.f.values(): go(y)
        elif isinstance(x, tuple) and x:
            if x[0] == 'op' and isinstance(x[1], str):
                q = x[1]
                if q not in KNOWN and q not in ALIAS and q.split('::')[-1] not in CHANGES: out.add(q)
            if x[0] in ('res', 'out', 'upd', 'init', 'fld'): out.add(str(x)[:60])
            if x[0] == 'ctor' and x[1] not in KNOWN and not x[1].endswith(':corners') and x[1] not in CONS and x[1] not in ('QUrlTwoFlags<QUrl::UrlFormattingOption, QUrl::ComponentFormattingOption>', 'QColor', 'QTime', 'QUrl', 'QUuid', 'QString', 'QByteArray'): out.add('constructor of ' + x[1])
            for y in x[1:]: go(y)
    go(t)
    return out

def camel(n):
    p = n.split('_')
    return p[0][:1].lower() + p[0][1:] + ''.join(x[:1].upper() + x[1:] for x in p[1:])
def message_models(files):
    """the generated classes of the messages, by their contract: constructors store, getters read, setters write"""
    M = {}
    for fl in files:
        if fl.get('package') != 'QtProtobuf': continue
        for m in fl['messages']:
            c = 'QtProtobuf::' + m['name']; names = [camel(f['name']) for f in m['fields']]; byn = {camel(f['name']): f for f in m['fields']}
            def dflt(f):
                if f['label'] == 3 or f['type'] in (9, 12): return ('cat', ())
                return fresh(f['type_name'][1:].replace('.', '::')) if f['type'] == 11 else 0
            def fresh(cls, _m={}): return Struct(cls, None, {})
            def mk(m=m, c=c, names=names, byn=byn):
                def empty(): return {n: dflt2(byn[n]) for n in names}
                def dflt2(f):
                    if f['label'] == 3 or f['type'] in (9, 12): return ('cat', ())
                    if f['type'] == 11: return M[f['type_name'][1:].replace('.', '::') + '::new']()
                    return 0
                M[c + '::new'] = lambda: Struct(c, None, empty())
                def ctor(I, n, ob, args):
                    v = [V(I, a) for a in args]
                    if len(v) == 1 and isinstance(v[0], Struct) and v[0].cls == c: return v[0]
                    pts = n.get('pt') or []
                    if v and len(v) == len(pts) and 'QObject' in str(pts[-1]): v = v[:-1]
                    elif len(v) > len(names): v = v[:len(names)]
                    f = empty(); f.update(zip(names, v))
                    return Struct(c, None, f)
                M[c + '::' + m['name']] = ctor
                for nme in names:
                    def getter(I, n, ob, args, nme=nme): return ('lref', (ob[0], ob[1] + (nme,)))
                    def setter(I, n, ob, args, nme=nme): I.write((ob[0], ob[1] + (nme,)), V(I, args[0])); return 0
                    M[c + '::' + nme] = getter; M[c + '::set' + nme[:1].upper() + nme[1:]] = setter
            mk()
    return M
# streams and images
def ds_ctor(I, n, ob, args):
    a = [V(I, x) for x in args]
    if not a: return ('qds', None, (), None)
    if isinstance(a[0], tuple) and a[0][0] == 'addr' and len(a) > 1:
        v = I.val(I.readv(a[0][1]))
        if I.status(I.mk_eq(('size', v), 0)) is False and not (isinstance(v, tuple) and v[0] == 'qser'): raise AnalysisError('a stream is opened on used bytes')
        return ('qds', a[0][1], (), None)
    return ('qds', None, (), a[0])
def ds_put(I, n, ob, args, st, x):
    s = I.val(I.readv(st))
    if not (isinstance(s, tuple) and s[:1] == ('qds',)): return NotImplemented
    old = I.val(I.readv(s[1])) if s[1] else None
    items = old[2] if isinstance(old, tuple) and old[0] == 'qser' else ()
    if s[1] is None: raise AnalysisError('a stream without a target is written')
    I.write(s[1], ('qser', s[2], items + (V(I, x),)))
    return ('lref', st)
def ds_get(I, n, ob, args, st, x):
    s = I.val(I.readv(st))
    if not (isinstance(s, tuple) and s[:1] == ('qds',)): return NotImplemented
    d = s[3]
    if isinstance(d, tuple) and d[0] == 'qser' and d[2]:
        I.write(L(I, x), d[2][0] if d[1] == s[2] else ('op', 'misread', d[2][0])); I.write(st, ('qds', None, s[2], ('qser', d[1], d[2][1:])))
    else: I.write(L(I, x), ('op', 'unread', str(d)[:60]))
    return ('lref', st)
def op_put(I, n, ob, args):
    if ob is not None: return ds_put(I, n, ob, args, ob, args[0])
    if len(args) == 2 and isinstance(args[0], tuple) and args[0][:1] == ('lref',): return ds_put(I, n, ob, args, args[0][1], args[1])
    return NotImplemented
def op_get(I, n, ob, args):
    if ob is not None: return ds_get(I, n, ob, args, ob, args[0])
    if len(args) == 2 and isinstance(args[0], tuple) and args[0][:1] == ('lref',): return ds_get(I, n, ob, args, args[0][1], args[1])
    return NotImplemented
def ds_conf(I, n, ob, args):
    s = I.val(I.readv(ob)); I.write(ob, (s[0], s[1], tuple(x for x in s[2] if x[0] != n['q']) + ((n['q'], V(I, args[0])),), s[3])); return 0
def buf_ctor(I, n, ob, args):
    a = [V(I, x) for x in args]
    return ('qbuf', a[0][1] if a and isinstance(a[0], tuple) and a[0][0] == 'addr' else None)
def literal(I, v):
    while isinstance(v, tuple) and v:
        if v[0] == 'dptr' and v[2] == 0: v = I.val(I.readv(v[1])); continue
        if v[0] == 's': return v[1]
        if v[0] == 'cat' and len(v[1]) == 1: v = v[1][0]; continue
        if v[0] in ('rptr', 'lref'): v = v[1]; continue
        if v[0] in ('op', 'ctor', 'upd') and len(v) > 2: v = v[2]; continue
        if v[0] == 'raw': v = v[1]; continue
        return None
    return None if v != 0 else 0
def img_save(I, n, ob, args):
    a = [V(I, x) for x in args]; d = a[0]
    b = I.val(I.readv(d[1])) if isinstance(d, tuple) and d[0] in ('addr', 'objptr') else None
    if not (isinstance(b, tuple) and b[:1] == ('qbuf',) and b[1]): raise AnalysisError('an image is saved to something that is not followed')
    I.write(b[1], ('img', literal(I, a[1]) if len(a) > 1 else 0, I.val(I.readv(ob))))
    return 1
def img_load(I, n, ob, args):
    a = [V(I, x) for x in args]; d = a[0]; f = literal(I, a[1]) if len(a) > 1 else 0
    while isinstance(d, tuple) and d and d[0] in ('ctor', 'cat') and d[0] == 'cat' and len(d[1]) == 1: d = d[1][0]
    if isinstance(d, tuple) and d[:1] == ('img',):
        if f not in (0, None) and d[1] not in (0, None) and f.upper() != d[1].upper(): return ('op', 'misread', d[2])
        if f is None: return ('op', 'image read with an unknown format', d[2])
        if (d[1] or '').upper() != 'PNG': return ('op', 'normalized', d[2])
        return d[2]
    return ('op', 'QImage::fromData', d, a[1] if len(a) > 1 else 0)
CHANGES |= {'misread', 'unread'}
def mat_data(I, n, ob, args): return ('mat', I.val(I.readv(ob)))
def mat_at(I, n, ob, args):
    r, c = V(I, args[0]), V(I, args[1])
    return ('op', ('QMatrix4x4', r, c), I.val(I.readv(ob)))
def latin(I, n, ob, args):
    v = I.val(I.readv(ob)); t = literal(I, v)
    return v if isinstance(t, str) and t.isascii() else ('op', n['q'], v)
def poly(I, n, ob, args):
    a = [V(I, x) for x in args]
    if not a: return ('cat', ())
    if len(a) == 1 and isinstance(a[0], tuple) and a[0][:1] in (('cat',), ('S',)): return a[0]
    return NotImplemented
def tcfg(P, files):
    cfg = gcfg(P)
    cfg.models.update(message_models(files))
    def reg(I, n, ob, args): I.emit('call', REGQ, obj=None, args=tuple(V(I, a) for a in args), node=n, extra={'objv': None, 'locs': [], 'indirect': None}); return 0
    def so(I, n, ob, args):
        a = [V(I, x) for x in args]
        v = I.val(I.readv(a[0][1])) if isinstance(a[0], tuple) and a[0][0] in ('addr', 'objptr') else None
        I.uid += 1; res = ('bytes', I.uid)
        I.emit('call', SO, obj=ptr_of(ob), args=(v,) + tuple(a[1:]), res=res, node=n, extra={'objv': None, 'locs': [], 'indirect': None}); return res
    def do(I, n, ob, args):
        a = [V(I, x) for x in args]
        if isinstance(a[0], tuple) and a[0][0] in ('addr', 'objptr'):
            old = I.val(I.readv(a[0][1])); I.write(a[0][1], I.user['message'])
        else: old = None
        I.emit('call', DO, obj=ptr_of(ob), args=(old,) + tuple(a[1:]), node=n, extra={'objv': None, 'locs': [L(I, x) for x in args], 'indirect': None}); return 0
    cfg.models.update({REGQ: reg, SO: so, DO: do, 'QDataStream::QDataStream': ds_ctor, 'operator<<': op_put, 'operator>>': op_get, 'QDataStream::operator<<': op_put, 'QDataStream::operator>>': op_get,
        'QDataStream::setByteOrder': ds_conf, 'QDataStream::setVersion': ds_conf, 'QBuffer::QBuffer': buf_ctor, 'QBuffer::open': lambda I, n, ob, args: 1, 'QBuffer::close': lambda I, n, ob, args: 0, 'QImage::save': img_save, 'QImage::fromData': img_load,
        'QString::toLatin1': latin, 'QString::toUtf8': latin, 'QString::toLocal8Bit': latin, 'QString::toStdString': latin, 'QPolygon::QPolygon': poly, 'QPolygonF::QPolygonF': poly,
        'QMatrix4x4::data': mat_data, 'QMatrix4x4::constData': mat_data, 'QMatrix4x4::operator()': mat_at})
    return cfg
def qload():
    g = gen.Generated()
    with g:
        root = os.path.join(prog.REPO, 'src/qttypes')
        out = g.run('qt', root, PROTOS, 'QML:FOLDER'); files = g.descriptors('qt', root, PROTOS)
        P = prog.load([('src/qttypes/qtprotobufqttypes.cpp', ['-I' + out])], roots=[out])
    return P, files
def registered(P, files, ctx, each, sizes=(0, 1, 2)):
    f = P.fn('QtProtobuf::qRegisterProtobufQtTypes'); ctx.analysed(f)
    cfg = tcfg(P, files)
    def post(I, r):
        hs = {}
        for e in I.trace:
            if e.kind == 'call' and e.q == REGQ: hs[e.args[0]] = e
        return each(I, hs) or r
    return f, cfg, post
def documented():
    """the types the header documents and the messages the .proto files define"""
    t = open(os.path.join(prog.REPO, 'src/qttypes/qtprotobufqttypes.h'), errors='replace').read()
    i = t.find('List of supported types')
    return set(re.findall(r'^ \* - (Q\w+)\s*$', t[i:], re.M))
def matconv(t):
    """entries of the column-major data of a matrix"""
    if isinstance(t, Lin) and t.c == 0 and len(t.m) == 1 and list(t.m.values()) == [1]: return matconv(next(iter(t.m)))
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ('elem', 'at', 'idx') and isinstance(t[1], tuple) and t[1][:1] == ('mat',) and isinstance(t[2], int): return ('op', ('QMatrix4x4', t[2] % 4, t[2] // 4), matconv(t[1][1]))
        if t[:1] == ('fld',) and isinstance(t[2], tuple) and t[2][0] == 'i' and isinstance(t[2][1], int):
            b = matconv(t[1])
            if isinstance(b, tuple) and b[:2] == ('op', ('QMatrix4x4', 0, 0)): return ('op', ('QMatrix4x4', t[2][1] % 4, t[2][1] // 4), b[2])
        if t[:1] == ('init',) and isinstance(t[1], tuple): 
            m = matloc(t[1])
            if m: return m
        return tuple(matconv(x) for x in t)
    return t
def matloc(t):
    if isinstance(t, tuple) and t[:1] == ('mem',) and isinstance(t[1], tuple):
        p = t[1]
        if p[:1] == ('mat',): return ('op', ('QMatrix4x4', 0, 0), p[1])
    if isinstance(t, tuple) and t[:1] == ('deref',): 
        p = t[1]
        if isinstance(p, Lin):
            b = [x for x in p.m if isinstance(x, tuple) and x[:1] == ('mat',)]
            if len(b) == 1 and len(p.m) == 1 and p.m[b[0]] == 1: return ('op', ('QMatrix4x4', p.c % 4, p.c // 4), b[0][1])
        if isinstance(p, tuple) and p[:1] == ('mat',): return ('op', ('QMatrix4x4', 0, 0), p[1])
    return None

def conversions(ctx, part):
    P, files = qload()
    msgs = {m['name']: m for fl in files if fl.get('package') == 'QtProtobuf' for m in fl['messages']}
    want = documented() | set(msgs)
    cnt = {'types': 0}
    def each(I, hs):
        types = {}
        for t, e in hs.items():
            if not (isinstance(t, tuple) and t[0] == 'typeid'): raise AnalysisError('a handler is registered for an unknown type id %s' % str(t)[:60])
            types[t[1].replace('::', '')] = e
        K0 = dict(path=[], **loc_of(P.fn('QtProtobuf::qRegisterProtobufQtTypes')))
        if part == 17:
            for T in sorted(want): ctx.check(T in types, 'registered:' + T, 'the Qt type %s is documented but not registered' % T, **K0)
            for T in sorted(types): ctx.check(T in want, 'extra:' + T, 'a handler is registered for %s, which is not a documented Qt type' % T, **K0)
        for T, e in sorted(types.items()):
            if T not in msgs: continue
            with ctx.guard('conversion of ' + T): one(I, T, e)
    def one(I, T, e):
        h = e.args[1]
        if not isinstance(h, Struct): raise AnalysisError('handler of %s not understood' % T)
        ser, des = h.f.get('serializer'), h.f.get('deserializer')
        K = dict(file=e.file, line=e.line, fn=e.fn, path=['type ' + T])
        if part == 17: ctx.check(h.f.get('type') == 0, T + ':kind', 'the handler of %s is not registered as an object handler' % T, **K)
        if not isinstance(ser, Closure) or not isinstance(des, Closure):
            if part == 17 and (ser == 0 or des == 0): ctx.check(False, T + ':missing', 'the handler of %s lacks a function' % T, **K); return
            raise AnalysisError('handler of %s not understood' % T)
        K = dict(file=e.file, line=ser.node.get('l') or e.line, fn='handler of ' + T, path=['type ' + T])
        vals = [('S', T)]
        if T in ('QPolygon', 'QPolygonF'): vals = [('cat', tuple(('e', ('S', 'QPoint' + T[8:], i)) for i in range(n))) for n in (0, 1, 2, 3)]
        for S in vals:
            cnt['types'] += 1; ctx.count('round_trips'); k = len(I.trace)
            vl = I.newtemp(('variant', T, S)); bl = I.newtemp(('cat', (('buffer',),)))
            sp = ('addr', (('deref', ('arg', 'serializer')), ())); sp = ('arg', 'serializer'); I.facts.add_ne(to_lin(sp))
            I.call_closure(ser, [], ser.node, argvals=[sp, ('lref', vl), ('arg', 'property'), ('lref', bl)])
            so = [x for x in I.trace[k:] if x.kind == 'call' and x.q == SO]
            buf = I.val(I.readv(bl))
            msg = so[0].args[0] if so else None
            if part == 17:
                if ctx.check(len(so) == 1, T + ':serialized', 'writing a %s serializes %d messages' % (T, len(so)), **K):
                    ctx.check(isinstance(msg, Struct) and msg.cls == 'QtProtobuf::' + T, T + ':message', 'a %s is written as another message (%s)' % (T, getattr(msg, 'cls', msg)), **K)
                    ctx.check(mentions(so[0].args[1], 'QtProtobuf::%s::protobufMetaObject' % T) or mentions(so[0].args[1], ('g', 'QtProtobuf::%s::protobufMetaObject' % T)), T + ':meta', 'a %s is written with the meta object of another message' % T, **K)
                    ctx.check(so[0].args[2] == ('arg', 'property'), T + ':property', 'a %s is written for another field than requested' % T, **K)
                    ctx.check(so[0].obj == sp, T + ':serializer', 'a %s is written by another serializer than requested' % T, **K)
                    ctx.check(buf == ('cat', (('buffer',), so[0].res)), T + ':buffer', 'the encoding of a %s is not appended once to the buffer' % T, **K)
            if not isinstance(msg, Struct): raise AnalysisError('the message written for %s is not followed: %s' % (T, str(msg)[:80]))
            I.user['message'] = msg; k = len(I.trace)
            ol = I.newtemp(('variant', 'old', ('old',))); il = I.newtemp(('arg', 'it'))
            I.call_closure(des, [], des.node, argvals=[sp, ('lref', il), ('lref', ol)])
            do = [x for x in I.trace[k:] if x.kind == 'call' and x.q == DO]
            out = I.val(I.readv(ol))
            if part == 17:
                if ctx.check(len(do) == 1, T + ':deserialized', 'reading a %s deserializes %d messages' % (T, len(do)), **K):
                    ctx.check(isinstance(do[0].args[0], Struct) and do[0].args[0].cls == 'QtProtobuf::' + T, T + ':rmessage', 'a %s is read as another message' % T, **K)
                    ctx.check(mentions(do[0].args[1], 'QtProtobuf::%s::protobufMetaObject' % T) or mentions(do[0].args[1], ('g', 'QtProtobuf::%s::protobufMetaObject' % T)), T + ':rmeta', 'a %s is read with the meta object of another message' % T, **K)
                    ctx.check(do[0].obj == sp, T + ':rserializer', 'a %s is read by another serializer than requested' % T, **K)
                    ctx.check(il in do[0].extra['locs'], T + ':riterator', 'a %s is not read from the position it is called with' % T, **K)
                ctx.check(isinstance(out, tuple) and out[:1] == ('variant',) and str(out[1]).replace('::', '') == T, T + ':rtype', 'reading a %s stores a value of another type (%s)' % (T, str(out)[:60]), **K)
            else:
                if not (isinstance(out, tuple) and out[:1] == ('variant',)): raise AnalysisError('the value read for %s is not followed: %s' % (T, str(out)[:80]))
                R = reduce(matconv(out[2]))
                if os.environ.get('VP_SHOW'): print(T, S, '->', str(R)[:300])
                ok = R == S
                if not ok:
                    u = unknown(R)
                    if u: raise AnalysisError('the conversion of %s uses functions whose inverse is not tabulated: %s' % (T, ', '.join(sorted(u)[:3])))
                ctx.check(ok, T + ':roundtrip', 'a %s sent and received is not the same value: %s instead of %s' % (T, str(R)[:160], str(S)[:60]), **K)
    f, cfg, post = registered(P, files, ctx, each)
    for r in run_fn(P, cfg, f, lambda I: [], ctx.stats, post=post):
        ctx.count('paths')
        if r.exc: ctx.check(False, 'register:throws', 'registering the Qt types throws', path=pathdesc(r.choices), **loc_of(f))
    ctx.floor('round_trips', 20)
def c16(ctx):
    ctx.rule('for every registered Qt type the value restored by the reading handler, composed symbolically with the writing handler, reduces to the value written (projection/constructor and inverse-pair rewriting)')
    ctx.assume('generated message classes store and return their fields (C11-C13); valid values; QDateTime without its time zone, QColor as 8-bit RGBA and QImage as PNG, as the .proto files declare')
    conversions(ctx, 16)
def c17(ctx):
    ctx.rule('the set of registered handlers equals the documented types, each writing and reading the message of the same name through the serializer, field and buffer it is given')
    conversions(ctx, 17)
