"""Compile /repo's current sources to LLVM IR (front end only) and load them."""
import os, subprocess, tempfile, shutil, re, sys
from concurrent.futures import ThreadPoolExecutor
import ir, absint

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class BuildError(Exception): pass

def sources():
    """file lists of the two programs, from src's Makefile variables (Makefile.am)"""
    am = open(os.path.join(REPO, 'Makefile.am')).read()
    am = am.replace('\\\n', ' ')
    var = {}
    for m in re.finditer(r'^(\w+)\s*\+?=\s*(.*)$', am, re.M):
        var[m.group(1)] = var.get(m.group(1), '') + ' ' + m.group(2)
    def expand(s, d=0):
        return re.sub(r'\$\((\w+)\)', lambda m: expand(var.get(m.group(1), ''), d + 1) if d < 10 else '', s)
    out = {}
    for p in ('conman', 'conmand'):
        s = expand(var.get(p + '_SOURCES', '') + ' ' + var.get('EXTRA_' + p + '_SOURCES', '')).split()
        out[p] = sorted({x for x in s if x.endswith('.c')})
    return out

def config_dir(tmp):
    b = os.path.join(REPO, '_build')
    if os.path.exists(os.path.join(b, 'config.h')): return b
    if os.path.exists(os.path.join(REPO, 'config.h')): return REPO
    shutil.copy(os.path.join(HERE, 'config.h'), os.path.join(tmp, 'config.h'))
    return tmp

def compile_ir(progs=('conmand', 'conman'), extra=()):
    """-> {prog: text of linked IR}"""
    tmp = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        src = sources(); cfg = config_dir(tmp); res = {}
        jobs = []
        for p in progs:
            if not src[p]: raise BuildError('no sources for %s in Makefile.am' % p)
            for s in src[p]:
                o = os.path.join(tmp, p + '-' + os.path.basename(s) + '.ll')
                cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-S', '-emit-llvm', '-fno-discard-value-names',
                       '-w', '-DHAVE_CONFIG_H', '-I' + cfg, '-I' + REPO, '-DWITH_OOMF', '-DWITH_PTHREADS',
                       '-DSYSCONFDIR="/usr/local/etc"', *extra, os.path.join(REPO, s), '-o', o]
                jobs.append((p, s, cmd, o))
        def go(j):
            r = subprocess.run(j[2], capture_output=True, text=True)
            if r.returncode: raise BuildError('clang failed on %s:\n%s' % (j[1], r.stderr[-2000:]))
        with ThreadPoolExecutor(8) as ex: list(ex.map(go, jobs))
        for p in progs:
            objs = [j[3] for j in jobs if j[0] == p]
            l0 = os.path.join(tmp, p + '.0.ll'); l1 = os.path.join(tmp, p + '.ll')
            for c in (['llvm-link', '-S', *objs, '-o', l0], ['opt', '-S', '-passes=mem2reg', l0, '-o', l1]):
                r = subprocess.run(c, capture_output=True, text=True)
                if r.returncode: raise BuildError(' '.join(c[:2]) + ': ' + r.stderr[-2000:])
            res[p] = unroll(l1, tmp)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

UNROLL = ['opt', '-S', '-passes=function(loop(loop-unroll-full),instsimplify)', '-unroll-full-max-count=64', '-unroll-threshold=20000']
def unroll(path, tmp):
    """loops over a constant number of elements (a table, the two ends of a pair) are written out, so that they are
    analysed as what they are: the same steps for each element. Functions without such a loop are left alone."""
    text = open(path, encoding='latin1').read()
    y = os.path.join(tmp, 'r.yaml'); o = os.path.join(tmp, 'u.ll')
    r = subprocess.run([*UNROLL, '-pass-remarks-output=' + y, '-pass-remarks-filter=loop-unroll', path, '-o', o], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt: ' + r.stderr[-2000:])
    names = set(); ok = False
    for l in (open(y, encoding='latin1') if os.path.exists(y) else ()):
        if l.startswith('---'): ok = l.startswith('--- !Passed')
        elif ok and l.startswith('Function:'): names.add(l.split(':', 1)[1].strip().strip("'"))
    if not names: return text
    out = []
    for l in text.split('\n'):
        if l.startswith('define '):
            m = re.match(r'define .*?@"?([\w.$]+)"?\(', l)
            if m and m.group(1) not in names: l = re.sub(r' (#\d+) ', r' noinline optnone \1 ', l, count=1)
        out.append(l)
    open(path, 'w', encoding='latin1').write('\n'.join(out))
    r = subprocess.run([*UNROLL, path, '-o', o], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt: ' + r.stderr[-2000:])
    return open(o, encoding='latin1').read()

class Program:
    def __init__(self, text):
        self.mod = ir.Module(text); self.cg = absint.CallGraph(self.mod)
        self._fp = None
    @property
    def fp(self):
        if self._fp is None:
            import fptr
            self._fp = fptr.FPtr(self)
        return self._fp
    def funcs(self):
        return [f for f in self.mod.funcs.values() if not f.decl]
    def sinks(self, inst, d=0):
        """external calls (or other operations) that consume an instruction's result"""
        out = set()
        self._uses(inst.fn, inst.res, out, 0)
        return out
    def _uses(self, f, name, out, d):
        if d > 6: out.add('...'); return
        for i in f.insts():
            ops = [v for v, _ in i.x] if i.op == 'phi' else i.ops
            for k, o in enumerate(ops):
                if o != ('%', name): continue
                if i.op == 'call' and i.x:
                    t = self.mod.funcs.get(i.x)
                    if t is None or t.decl: out.add(i.x)
                    elif k < len(t.params): self._uses(t, t.params[k], out, d + 1)
                elif i.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'bitcast', 'phi', 'select') and i.res != name: self._uses(f, i.res, out, d + 1)
                else: out.add(i.op)
    def reach_all(self, roots):
        """functions reachable from roots, following resolved indirect calls too"""
        seen = set(); work = list(roots)
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n); f = self.mod.funcs.get(n)
            if f is None or f.decl: continue
            for i in f.insts():
                if i.op == 'call':
                    work += [i.x] if i.x else self.fp.targets(i)
        return seen

_cache = {}
def load(prog):
    if prog not in _cache:
        t = compile_ir((prog,))
        _cache[prog] = Program(t[prog])
    return _cache[prog]
