"""Check runner: python3 -m vp.check <property> [quick|thorough]

Exit 0: the rule set of the property found nothing on /repo's current source.
Exit 1: a violation not listed in known-findings.txt (VIOLATION line on stdout).
Exit 2: the analysis could not decide anything (source does not parse, anchor vanished, ...).
Parts that could not be decided while others were are printed as UNDECIDED lines and recorded in the evidence; they are not violations."""
import importlib, json, os, sys, time, traceback
from . import prog
from .interp import AnalysisError
VERIF = prog.VERIF

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.thorough = tier == 'thorough'
        self.viol = []; self.counts = {}; self.samples = []; self.rules = []; self.files = set(); self.fnset = set(); self.assumptions = []
        self.stats = {}; self.undec = []
    def rule(self, text): self.rules.append(text)
    def assume(self, text): self.assumptions.append(text)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def analysed(self, f):
        self.fnset.add(f.get('q', '?') + ('<%s>' % ','.join(map(str, f['ta'])) if f.get('ta') else ''))
        self.files.add(rel(f.get('file', '')))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def floor(self, k, n):
        if self.counts.get(k, 0) < n: raise prog.Broken('only %d %s analysed, at least %d expected: the rule lost its instances' % (self.counts.get(k, 0), k, n))
    def guard(self, what):
        """a part of the analysis that may stay undecided without stopping the rest"""
        ctx = self
        class G:
            def __enter__(s): return s
            def __exit__(s, t, v, tb):
                if t is not None and issubclass(t, Exception):
                    if not issubclass(t, (AnalysisError, prog.Broken)):
                        if os.environ.get('VP_TRACE'): traceback.print_exc()
                        v = 'internal error %r' % v
                    ctx.undec.append('%s: %s' % (what, v)); ctx.count('undecided'); return True
        return G()
    def bad(self, key, msg, file='', line=0, fn='', path=None):
        """key: stable identification of the failing construct"""
        for v in self.viol:
            if v['key'] == key: return
        self.viol.append(dict(key=key, msg=msg, file=rel(file), line=line, function=fn, path=[str(x)[:300] for x in path or []]))
    def check(self, ok, key, msg, **kw):
        self.count('obligations')
        if not ok: self.bad(key, msg, **kw)
        else: self.count('discharged')
        return ok

def rel(f):
    f = f or ''
    return f[len(prog.REPO) + 1:] if f.startswith(prog.REPO + '/') else f

def known(pid):
    """entries  known: property=<id> key=<key> <text>"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=' + pid + ' key='):
                k, _, t = l[len('known: property=' + pid + ' key='):].partition(' ')
                out[k] = t
    return out

def pathdesc(choices):
    return ['%s -> %s @%s' % (str(c[0])[:120], c[1], c[2]) for c in choices][:40]

def main(argv):
    pid = argv[0]; tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from .registry import RULES
    ctx = Ctx(pid, tier)
    modname, fname, level = RULES[pid]
    code = 0; err = None
    try:
        getattr(importlib.import_module('vp.rules.' + modname), fname)(ctx)
    except (prog.Broken, AnalysisError) as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VP_TRACE'): traceback.print_exc()
    except Exception as e:
        traceback.print_exc(); err = 'internal error: %r' % e
    kn = known(pid)
    new = [v for v in ctx.viol if v['key'] not in kn]
    evdir = os.environ.get('VP_EVDIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = dict(explanation='Static analysis of the resolved source: ' + ' '.join(ctx.rules), rules=ctx.rules,
               functions_analysed=len(ctx.fnset), files=sorted(x for x in ctx.files if x), functions=sorted(ctx.fnset)[:200],
               samples=ctx.samples or ['none'], **{k: v for k, v in ctx.counts.items()})
    for k, v in ctx.stats.items(): cov['abstract_' + k] = v
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new),
              findings=ctx.viol, undecided=ctx.undec, error=err)
    ep = os.path.join(evdir, pid + '.json')
    json.dump(ev, open(ep, 'w'), indent=1, default=str)
    for v in ctx.viol:
        if v['key'] in kn: print('KNOWN-FINDING: property=%s %s' % (pid, kn[v['key']]))
    if new:
        rp = os.path.join(evdir, pid + '.violation.json')
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for v in new[:10]:
            print('%s:%s: in %s: %s [%s]' % (v['file'], v['line'], v['function'], v['msg'], v['key']))
            for p in v['path'][:8]: print('    ' + p)
        if len(new) > 10: print('... and %d more' % (len(new) - 10))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        code = 1
    elif err and not ctx.counts.get('discharged'):
        print('ANALYSIS-ERROR property=%s %s' % (pid, err)); code = 2
    else:
        if err: ctx.undec.append('analysis stopped early, ' + err)
        for u in ctx.undec: print('UNDECIDED property=%s %s' % (pid, u))
        print('OK property=%s %s' % (pid, ' '.join('%s=%s' % (k, v) for k, v in sorted(ctx.counts.items()))))
    if new and err: print('note: analysis also stopped: ' + err)
    return code

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
