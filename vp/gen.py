"""Builds the code generator from /repo's current sources and runs it on .proto files, like the build does."""
import glob, os, shutil, subprocess, tempfile, concurrent.futures as cf
from . import prog

class Generated:
    """scratch directory with the generator and what it generated; use as a context manager"""
    def __init__(self): self.dir = tempfile.mkdtemp(prefix='vpgen'); self.exe = os.path.join(self.dir, 'gen')
    def __enter__(self):
        try: self.build()
        except BaseException: self.__exit__(); raise
        return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)
    def build(self):
        inc = os.path.join(self.dir, 'pstring.h')
        with open(inc, 'w') as f: f.write('#pragma once\n#include <string>\nusing std::string;\n')   # newer protobuf has no google::protobuf::string
        srcs = sorted(glob.glob(os.path.join(prog.REPO, 'src/generator/*.cpp')))
        def one(s):
            o = os.path.join(self.dir, os.path.basename(s) + '.o')
            r = subprocess.run(['g++', '-std=gnu++14', '-O0', '-w', '-include', inc, '-I' + os.path.join(prog.REPO, 'src/generator'), '-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode: raise prog.Broken('the generator does not compile: ' + r.stderr[-1500:])
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
        r = subprocess.run(['g++'] + objs + ['-o', self.exe, '-lprotoc', '-lprotobuf', '-lpthread'], capture_output=True, text=True)
        if r.returncode: raise prog.Broken('the generator does not link: ' + r.stderr[-1500:])
    def run(self, name, root, protos, options=''):
        """generate protos (paths relative to root) into a directory of its own; returns it"""
        out = os.path.join(self.dir, name); os.makedirs(out, exist_ok=True)
        env = dict(os.environ, QT_PROTOBUF_OPTIONS=options)
        r = subprocess.run(['protoc', '--plugin=protoc-gen-qtprotobufgen=' + self.exe, '--qtprotobufgen_out=' + out] + ['-I' + p for p in ([root] if isinstance(root, str) else root)] + list(protos), capture_output=True, text=True, env=env, timeout=120)
        if r.returncode: raise prog.Broken('the generator fails on %s: %s' % (protos, r.stderr[-1500:]))
        return out
    def descriptors(self, name, root, protos):
        """what protoc itself says about the files: parsed FileDescriptorSet"""
        out = os.path.join(self.dir, name + '.pb')
        r = subprocess.run(['protoc', '--descriptor_set_out=' + out, '--include_imports'] + ['-I' + p for p in ([root] if isinstance(root, str) else root)] + list(protos), capture_output=True, text=True)
        if r.returncode: raise prog.Broken('protoc fails: ' + r.stderr[-500:])
        return parse_set(open(out, 'rb').read())

def fields(b):
    i = 0
    def varint():
        nonlocal i
        x = s = 0
        while True:
            c = b[i]; i += 1; x |= (c & 127) << s; s += 7
            if c < 128: return x
    while i < len(b):
        k = varint(); w = k & 7
        if w == 0: yield k >> 3, varint()
        elif w == 1: yield k >> 3, b[i:i + 8]; i += 8
        elif w == 5: yield k >> 3, b[i:i + 4]; i += 4
        else:
            n = varint(); yield k >> 3, b[i:i + n]; i += n
def msg(b, spec):
    """spec: {number: (name, kind)}; kind: 's' string, 'i' int, ['m', spec] nested repeated, 'S' repeated string"""
    d = {n: [] for n, k in spec.values() if not isinstance(k, str) or k == 'S'}
    for num, v in fields(b):
        if num not in spec: continue
        n, k = spec[num]
        if k == 's': d[n] = v.decode()
        elif k == 'S': d[n].append(v.decode())
        elif k == 'i': d[n] = v - (1 << 64) if v >> 63 else v
        elif k == 'one': d[n] = v
        else: d[n].append(msg(v, k()))
    return d
def F(): return {1: ('name', 's'), 3: ('number', 'i'), 4: ('label', 'i'), 5: ('type', 'i'), 6: ('type_name', 's'), 9: ('oneof_index', 'i'), 10: ('json_name', 's')}
def EV(): return {1: ('name', 's'), 2: ('number', 'i')}
def E(): return {1: ('name', 's'), 2: ('values', EV)}
def OPT(): return {7: ('map_entry', 'i')}
def D(): return {1: ('name', 's'), 2: ('fields', F), 3: ('nested', D), 4: ('enums', E), 7: ('options', OPT)}
def MET(): return {1: ('name', 's'), 2: ('input', 's'), 3: ('output', 's'), 5: ('client_streaming', 'i'), 6: ('server_streaming', 'i')}
def SV(): return {1: ('name', 's'), 2: ('methods', MET)}
def FILE(): return {1: ('name', 's'), 2: ('package', 's'), 3: ('deps', 'S'), 4: ('messages', D), 5: ('enums', E), 6: ('services', SV)}
def parse_set(b): return [msg(v, FILE()) for num, v in fields(b) if num == 1]
