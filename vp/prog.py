"""Program loading: runs the dumper over /repo's current sources and indexes the result."""
import hashlib, json, os, subprocess, sys, tempfile, concurrent.futures as cf, glob, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD') or os.path.join(VERIF, '.build')
DUMPER = os.path.join(BUILD, 'dumper')
Q = '/usr/include/x86_64-linux-gnu/qt5'

class Broken(Exception):
    """the analysis itself cannot run (anchor vanished, source does not parse...)"""

def flags(extra=()):
    return ['-x', 'c++', '-std=gnu++14', '-fPIC', '-w', '-DQT_NO_DEBUG', '-DQT_BUILD_PROTOBUF_LIB', '-DQT_BUILD_GRPC_LIB',
            '-DQT_CORE_LIB', '-DQT_QML_LIB', '-DQT_NETWORK_LIB', '-DQT_PROTOBUF_NATIVE_GRPC_CHANNEL',
            '-DQT_PROTOBUF_PLUGIN_PATH="/p"', '-DQT_PROTOBUF_VERSION_MAJOR=0', '-DQT_PROTOBUF_VERSION_MINOR=6',
            '-DQT_ANNOTATE_ACCESS_SPECIFIER(x)=__attribute__((annotate(#x)))'] + list(extra) + [
            '-I' + REPO + '/src/protobuf', '-I' + REPO + '/src/grpc', '-I' + REPO + '/src/grpc/quick', '-I' + REPO + '/src/qttypes'] + sum([['-isystem', p] for p in (
            Q, Q + '/QtCore', Q + '/QtQml', Q + '/QtNetwork', Q + '/QtGui', Q + '/QtQuick')], [])

def ensure_dumper():
    src = os.path.join(VERIF, 'tools/dumper/dumper.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = DUMPER + '.sha'
    if os.path.exists(DUMPER) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['bash', os.path.join(VERIF, 'tools/dumper/build.sh'), DUMPER], capture_output=True, text=True)
    if r.returncode: raise Broken('cannot build the dumper: ' + r.stderr[-2000:])
    with open(stamp, 'w') as f: f.write(h)

def dump_one(src, out, roots, extra):
    r = subprocess.run([DUMPER, '-roots=' + ':'.join(roots), '-o', out, src, '--'] + flags(extra), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken('cannot parse %s: %s' % (src, r.stderr[-3000:]))
    d = json.load(open(out))
    os.unlink(out)
    return d

class Program:
    def __init__(self):
        self.functions = {}; self.records = {}; self.enums = {}; self.globals = {}; self.tus = []
        self.overriders = {}
        self.byq = {}
    def add(self, d, tu):
        self.tus.append(tu)
        for fid, f in d['functions'].items():
            f['_tu'] = tu
            key = fid
            if key in self.functions:
                if f.get('internal') and self.functions[key]['file'] != f['file']: key = tu + '|' + fid
                else: continue
            self.functions[key] = f
            self.byq.setdefault(f['q'], []).append(f)
            for o in f.get('overrides', []): self.overriders.setdefault(o, []).append(f)
        for q, r in d['records'].items(): self.records.setdefault(q, r)
        for q, r in d['enums'].items(): self.enums.setdefault(q, r)
        for q, g in d['globals'].items():
            g['_tu'] = tu
            if q not in self.globals or ('init' in g and 'init' not in self.globals[q]): self.globals[q] = g
    def fn(self, q, **kw):
        """unique function definition by qualified name (suffix match allowed)"""
        c = self.fns(q)
        for k, v in kw.items():
            c = [f for f in c if f.get(k) == v]
        if len(c) == 1: return c[0]
        if not c: raise Broken('anchor vanished: no definition of %s %s' % (q, kw or ''))
        raise Broken('anchor ambiguous: %d definitions of %s %s' % (len(c), q, kw or ''))
    def fns(self, q):
        if q in self.byq: return list(self.byq[q])
        r = []
        for k, v in self.byq.items():
            if k.endswith('::' + q): r += v
        return r
    def lookup(self, fid, tu=None):
        if tu is not None:
            f = self.functions.get(tu + '|' + fid)
            if f: return f
        return self.functions.get(fid)

def forwards(d):
    """forwarding headers (QAbstractGrpcClient -> qabstractgrpcclient.h) like the build makes them"""
    import re
    os.makedirs(d, exist_ok=True)
    for h in glob.glob(os.path.join(REPO, 'src', '*', '*.h')):
        base = os.path.basename(h)[:-2]
        names = set(re.findall(r'\bQ\w+\b', open(h, errors='replace').read()))
        for n in names | {'QtProtobufTypes', 'QtProtobufQtTypes'}:
            if n.lower() == base:
                with open(os.path.join(d, n), 'w') as f: f.write('#include "%s"\n' % h)

def load(srcs, roots=None, extra=()):
    """srcs: list of source paths (relative to /repo, or absolute)"""
    ensure_dumper()
    roots = [os.path.join(REPO, 'src')] + list(roots or [])
    p = Program()
    tmp = tempfile.mkdtemp(prefix='vpdump')
    try:
        forwards(os.path.join(tmp, 'inc'))
        def one(i_s):
            i, s = i_s
            ex = list(extra) + ['-I' + os.path.join(tmp, 'inc')]
            if isinstance(s, tuple): s, e2 = s; ex += list(e2)
            if not s.startswith('/'): s = os.path.join(REPO, s)
            if not os.path.exists(s): raise Broken('source file vanished: ' + s)
            return s, dump_one(s, os.path.join(tmp, '%d.json' % i), roots, ex)
        with cf.ThreadPoolExecutor(8) as ex:
            for s, d in ex.map(one, list(enumerate(srcs))): p.add(d, s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return p
