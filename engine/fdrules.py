"""Descriptor life-cycle rules: every descriptor-creating call is a tracked
resource; the abstract property state is the set of live tracked descriptors
with the attributes established on this path."""
from absint import *

O_NONBLOCK = 0x800; O_CLOEXEC = 0x80000; F_DUPFD = 0; F_SETFD = 2; F_SETFL = 4; F_DUPFD_CLOEXEC = 1030

def bits(v, mask):
    """does value v certainly have all bits of mask set?"""
    if v[0] == 'i': return v[1] & mask == mask
    if v[0] == 'bin' and v[1] == 'or': return bits(v[2], mask) or bits(v[3], mask)
    return False
def nobits(v, mask):
    """does value v certainly have some bit of mask clear?"""
    if v[0] == 'i': return v[1] & mask != mask
    if v[0] == 'bin' and v[1] == 'and': return nobits(v[2], mask) or nobits(v[3], mask)
    return False

CREATORS = {'open', 'open64', 'openat', 'creat', 'socket', 'accept', 'accept4', 'dup', 'dup3', 'fopen', 'fopen64', 'mkstemp', 'inotify_init', 'inotify_init1',
            'epoll_create', 'epoll_create1', 'eventfd', 'timerfd_create', 'signalfd', 'opendir', 'memfd_create', 'posix_openpt',
            'pipe', 'pipe2', 'socketpair', 'ipmiconsole_ctx_fd', 'popen', 'tmpfile', 'openpty', 'shm_open'}
EXECS = {'execl', 'execv', 'execve', 'execvp', 'execlp', 'execle', 'execvpe', 'posix_spawn', 'posix_spawnp', 'system', 'popen'}

def gives(p):
    """functions that create descriptors only to hand them to their caller, as result or through a pointer"""
    if not hasattr(p, '_gives'):
        g = p._gives = set(); ch = True
        def param(f, o):
            while o[0] == '%' and o[1] not in f.params:
                d = f.defs.get(o[1])
                if d is None or d.op not in ('getelementptr', 'bitcast') or d.op == 'getelementptr' and 'struct' in str(d.ty): return False
                o = d.ops[0]
            return o[0] == '%'
        while ch:
            ch = False
            for f in p.funcs():
                if f.name in g or not p.cg.callers.get(f.name): continue
                ok = hands_out(f, (CREATORS | g) - {'pipe', 'pipe2', 'socketpair'})
                for i in f.calls(*(CREATORS | g)):
                    if i.x in ('pipe', 'pipe2', 'socketpair'): ok = ok or param(f, i.ops[3 if i.x == 'socketpair' else 0])
                if ok: g.add(f.name); ch = True
    return p._gives
def hands_out(f, names):
    """f only passes what the named calls return on to its caller"""
    t = {('%', i.res) for i in f.calls(*names) if i.res}; ch = bool(t); ret = False
    if not t: return False
    while ch:
        ch = False
        for i in f.insts():
            if not i.res or ('%', i.res) in t: continue
            if i.op == 'phi' and any(v in t for v, _ in i.x) or i.op in ('select', 'sext', 'zext', 'trunc', 'bitcast') and any(o in t for o in i.ops):
                t.add(('%', i.res)); ch = True
            if i.op == 'load' and any(j.op == 'store' and j.ops[0] in t and j.ops[1] == i.ops[0] and local(f, i.ops[0]) for j in f.insts()):
                t.add(('%', i.res)); ch = True
    for i in f.insts():
        if i.op == 'store' and i.ops[0] in t and not local(f, i.ops[1]): return False
        if i.op == 'ret' and i.ops and i.ops[0] in t: ret = True
    return ret
def local(f, o):
    d = f.defs.get(o[1]) if o[0] == '%' else None
    return d is not None and d.op == 'alloca'

class FdRule(Rule):
    """base: tracks fds.  prop = frozenset((sym, frozenset(attrs)))"""
    exit_k = 4
    def __init__(self, prog, inl):
        self.p = prog; self.inl = inl; self.bad = []; self.sites = {}; self.done = {}
        self.where = {}
        self.touch = prog.cg.reaching(self.EVENTS)
    def initial(self): return frozenset()
    EVENTS = {'fcntl', 'close', 'fclose', 'closedir', 'pclose', 'ioctl'} | EXECS
    def inline(self, t, st, i, a):
        if t.name in self.inl or t.name in gives(self.p): return True
        if t.name not in self.touch: return False
        return self.concerns(st, a)
    def concerns(self, st, args):
        """is a tracked descriptor an argument, or reachable from one?"""
        tr = {s for s, _ in st.prop}
        if not tr: return False
        bs = {base_of(x) for x in args}
        if any(x in tr for x in args): return True
        for k, v in st.mem.items():
            if v in tr and (base_of(k) in bs or base_of(k)[0] == 'g'): return True
        return False
    # -- attribute helpers
    def get(self, st, v):
        for s, at in st.prop:
            if s == v: return at
        return None
    def upd(self, st, v, add=(), rem=()):
        st.prop = frozenset((s, (at | set(add)) - set(rem)) if s == v else (s, at) for s, at in st.prop)
    def drop(self, st, v):
        st.prop = frozenset((s, at) for s, at in st.prop if s != v)
    def rename(self, prop, v, old):
        # two generations conflated: merge attributes
        d = {}
        for s, at in prop: d[s] = d[s] & at if s in d else at
        return frozenset(d.items())
    def new(self, st, i, v, attrs, name):
        self.sites.setdefault(i.id, (i, name))
        self.where[v] = i
        st.facts[v] = (1 if name in ('fopen', 'opendir', 'popen', 'tmpfile', 'fopen64') else 0, INF, frozenset())
        st.prop = frozenset((s, at) for s, at in st.prop if s != v) | {(v, frozenset(attrs))}
    def site_of(self, v):
        while v[0] == 'old': v = v[1]
        return self.where.get(v)
    def on_call(self, st, i, name, args):
        A = self.A
        if name in CREATORS:
            if name in ('pipe', 'pipe2', 'socketpair'):
                arr = args[0] if name != 'socketpair' else args[3]
                s2 = st.copy()
                A.kill_under(st, arr)
                at = set()
                fl = args[1] if name != 'pipe' else Z
                if bits(fl, O_CLOEXEC): at.add('c')
                if bits(fl, O_NONBLOCK): at.add('n')
                for k, a in ((0, arr), (1, addr(arr, ('[1]',)))):
                    v = A.fresh(st, i, 'fd%d' % k)
                    self.new(st, i, v, at, name); A.write(st, a, v)
                return [(st, Z), (s2, ('i', -1))]
            s2 = st.copy()
            v = A.fresh(st, i, 'fd')
            at = set()
            fl = None
            if name in ('open', 'open64', 'accept4'): fl = args[1] if name != 'accept4' else args[3]
            elif name == 'openat': fl = args[2]
            elif name == 'socket': fl = args[1]
            elif name == 'dup3': fl = args[2]
            elif name in ('inotify_init1', 'epoll_create1'): fl = args[0]
            if fl is not None:
                if bits(fl, O_CLOEXEC): at.add('c')
                if bits(fl, O_NONBLOCK): at.add('n')
            if name in ('fopen', 'fopen64'):
                m = self.p.mod.cstr(('@', args[1][1])) if args[1][0] == 'g' else None
                if m and 'e' in m: at.add('c')
            if name == 'opendir': at.add('c')
            self.new(st, i, v, at, name)
            fail = Z if name in ('fopen', 'opendir', 'popen', 'tmpfile', 'fopen64') else ('i', -1)
            return [(st, v), (s2, fail)]
        if name in ('fileno', 'dirfd'): return [(st, args[0])]
        if name == 'fcntl':
            cmd = st.const(args[1])
            if cmd == F_SETFD and bits(args[2], 1): self.attr(st, i, args[0], 'c')
            elif cmd == F_SETFL:
                if bits(args[2], O_NONBLOCK): self.attr(st, i, args[0], 'n')
                else: self.unattr(st, i, args[0], 'n')
            elif cmd in (F_DUPFD, F_DUPFD_CLOEXEC):
                v = A.fresh(st, i, 'fd'); self.new(st, i, v, {'c'} if cmd == F_DUPFD_CLOEXEC else (), 'dup')
                return [(st, v)]
            return None
        if name in ('close', 'fclose', 'closedir', 'pclose'):
            self.close(st, i, args[0])
            return [(st, A.fresh(st, i, 'ret'))]
        if name == 'fdopen':
            return [(st, args[0])]
        if name in EXECS:
            self.on_exec(st, i)
            return [(st, ('i', -1))] if name.startswith('exec') else None
        return None
    def attr(self, st, i, v, a): self.upd(st, v, add=(a,))
    def unattr(self, st, i, v, a): self.upd(st, v, rem=(a,))
    def close(self, st, i, v): self.drop(st, v)
    def on_exec(self, st, i): pass

def lift(prog, make, names, roots=(), K=4, max_steps=60000, depth=3, log=None):
    """Modular analysis with lifting.  Each function of `names` is analysed on
    its own, bottom-up; a function whose obligations are not discharged inside
    it is analysed again inlined in each caller, at most `depth` levels up.
    Left-over obligations of an entry point are returned as violations."""
    cg = prog.cg; inl = set(); order = []; seen = set(); level = {}
    def visit(n):
        if n in seen: return
        seen.add(n)
        for c in sorted(cg.callees.get(n, ())): visit(c)
        order.append(n)
    for n in sorted(cg.callees): visit(n)
    left = {}; need = set(names); viol = []; stats = {'functions': 0, 'steps': 0, 'inlined': []}; rules = []
    for n in order:
        f = prog.mod.funcs.get(n)
        if f is None or f.decl or n not in need: continue
        r = make(prog, inl)
        a = Analysis(prog.mod, r, cg, K=K, max_steps=max_steps)
        try: a.run(n)
        except Budget:
            r = make(prog, inl); a = Analysis(prog.mod, r, cg, K=1, max_steps=max_steps * 2)
            try: a.run(n)
            except Budget:
                # the callee's obligations cannot be shown to be discharged here: they stand
                for c in sorted(cg.reach(n) & inl): viol += left.get(c, [])
                r.bad = []
        stats['functions'] += 1; stats['steps'] += a.steps; rules.append((n, r))
        for b in r.bad: b.setdefault('root', n)
        if r.bad:
            callers = [c for c in cg.callers.get(n, ()) if c != n]
            entry = n in cg.addr_taken or n == 'main' or n in roots or not callers or level.get(n, 0) >= depth
            viol += [b for b in r.bad if entry or b.get('local')]
            if not entry and [b for b in r.bad if not b.get('local')]:
                inl.add(n); left[n] = r.bad; need |= set(callers); stats['inlined'].append(n)
                for c in callers: level[c] = max(level.get(c, 0), level.get(n, 0) + 1)
                if log: log(n, r.bad)
    return viol, stats, rules

