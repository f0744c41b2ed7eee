"""G: the files the daemon (and client) create: logs, the pid file, directories."""
from absint import *
from core import Broken
from registry import prop
from fdrules import bits, nobits, lift, hands_out
from listmodel import *
import build, locks

O_CREAT, O_TRUNC, O_APPEND, O_EXCL = 0x40, 0x200, 0x400, 0x80
WR = 3
F_GETLK, F_SETLK, F_SETLKW = 5, 6, 7
F_RDLCK, F_WRLCK, F_UNLCK = 0, 1, 2
CREATE = {'open', 'open64', 'openat', 'creat', 'fopen', 'fopen64', 'mkdir', 'mkstemp', 'freopen'}
REMOVE = {'truncate', 'ftruncate', 'rename', 'remove', 'truncate64', 'ftruncate64', 'fallocate'}

def names_of(p, f, o):
    """member / global names stored to by address operand o"""
    return p.cg._target(f, o)

class Files(Rule):
    """prop: frozenset of path events
      ('um', ok)        the last umask() keeps group and other from writing
      ('nz', L) ('z', L)  the flag at L was seen non-zero / zero on this path
      ('st', L)         zero was stored to L
      ('new', v, mode)  v was created for writing: 'append', 'trunc', 'other'
      ('lk', v)         a write lock on the whole of v is held
      ('lost', v, m)    ... but a descriptor recorded in m was closed since
      ('log', v)        v was made the daemon's log"""
    exit_k = 8
    TOUCH = CREATE | {'umask', 'fcntl', 'close', 'fclose', 'log_set_file'}
    def __init__(self, p, inl):
        self.p = p; self.inl = inl; self.bad = []; self.origin = {}; self.n = {}
        self.touch = p.cg.reaching(self.TOUCH); self.flags = self.relevant(p); self.site = {}
    def relevant(self, p): return set()
    @property
    def setters(self):
        if not hasattr(self, '_set'): self._set = {f.name for f in self.p.funcs() for i in f.insts() if i.op in ('load', 'store') and self.flags & names_of(self.p, f, i.ops[1] if i.op == 'store' else i.ops[0])}
        return self._set
    def initial(self): return frozenset()
    def inline(self, t, st, i, a):
        if t.name.startswith(('log_', 'list_')): return False
        return t.name in self.inl or t.name in self.touch or self.flags and len(t.blocks) <= 6 and t.name in self.setters and t.name not in self.p.cg.noreturn
    def add(self, st, *e): st.prop = st.prop | set(e)
    def sub(self, st, fn): st.prop = frozenset(e for e in st.prop if not fn(e))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def fail(self, kind, i, t, msg, st): self.bad.append(dict(kind=kind, site=i, at=t, msg=msg, path=st.lines(12)))
    def on_load_fresh(self, st, i, a, v): self.origin[v] = a
    def loc(self, a): return last_of(a) or (a[1] if a[0] == 'g' else None)
    def learn(self, st):
        for v, a in self.origin.items():
            L = self.loc(a)
            if L not in self.flags: continue
            if v in st.facts:
                if st.nonzero(v): self.add(st, ('nz', L))
                elif st.const(v) == 0: self.add(st, ('z', L))
            # a comparison decided the flag
            for q in (('cmp', 'ne', v, Z), ('cmp', 'eq', v, Z)):
                f = st.facts.get(q)
                if f and f[0] == f[1]: self.add(st, ('nz' if bool(f[0]) == (q[1] == 'ne') else 'z', L))
    def on_branch(self, st, t, c, truth): self.learn(st)
    def on_store(self, st, i, a, v):
        L = self.loc(a)
        if L in self.flags and st.const(v) == 0: self.add(st, ('st', L))
    def mode_of(self, st, v):
        """classification of an open mode"""
        if bits(v, O_APPEND) and nobits(v, O_TRUNC): return 'append'
        if v[0] == 'i' and v[1] & O_TRUNC: return 'trunc' if v[1] & O_APPEND else 'other'
        return 'other'
    def created(self, st, i, v, mode):
        self.site[v] = i
        self.add(st, ('new', v, mode))
    def on_call(self, st, i, name, args):
        A = self.A
        if name == 'umask':
            self.learn(st); self.seen('umask', i)
            self.sub(st, lambda e: e[0] == 'um'); self.add(st, ('um', bits(args[0], 0o22)))
            v = A.fresh(st, i, 'mask'); return [(st, v)]
        if name in ('open', 'open64', 'openat', 'creat', 'mkdir', 'mkstemp', 'fopen', 'fopen64'):
            self.learn(st)
            fl = md = None
            if name in ('open', 'open64'): fl, md = args[1], args[2] if len(args) > 2 else None
            elif name == 'openat': fl, md = args[2], args[3] if len(args) > 3 else None
            elif name == 'creat': fl, md = ('i', O_CREAT | O_TRUNC | 1), args[1]
            elif name == 'mkdir': md = args[1]
            s2 = st.copy(); v = A.fresh(st, i, 'fd')
            if name in ('fopen', 'fopen64'):
                st.facts[v] = (1, INF, frozenset())
                m = self.p.mod.cstr(('@', args[1][1])) if args[1][0] == 'g' else None
                if m is None or m[0] != 'r' or '+' in m:
                    self.seen('create', i); self.created(st, i, v, 'other' if m is None else {'a': 'append', 'w': 'trunc'}.get(m[0], 'other'))
                    self.perms(st, i, None)
                return [(st, v), (s2, Z)]
            st.facts[v] = (0, INF, frozenset())
            if name == 'mkdir':
                self.seen('create', i); self.perms(st, i, md)
            elif name == 'mkstemp': pass
            elif not nobits(fl, O_CREAT):
                self.seen('create', i); self.created(st, i, v, self.mode_of(st, fl)); self.perms(st, i, md)
                self.opened(st, i, v, args)
            elif not nobits(fl, O_TRUNC): self.created(st, i, v, 'other')
            return [(st, v), (s2, ('i', -1))]
        if name in ('fileno', 'dirfd', 'fdopen'): return [(st, args[0])]
        if name == 'fcntl':
            cmd = st.const(args[1])
            if cmd in (F_SETLK, F_SETLKW):
                self.seen('lock', i)
                g = {k: st.mem.get(addr(args[2], ('flock.' + k,))) for k in ('l_type', 'l_whence', 'l_start', 'l_len')}
                g = {k: st.const(x) if x is not None else None for k, x in g.items()}
                s2 = st.copy(); whole = g['l_whence'] == 0 and g['l_start'] == 0 and g['l_len'] == 0
                self.sub(st, lambda e: e[0] in ('lk', 'rd', 'lost') and e[1] == args[0])
                if whole and g['l_type'] == F_WRLCK: self.add(st, ('lk', args[0]))
                if whole and g['l_type'] == F_RDLCK: self.add(st, ('rd', args[0]))
                return [(st, Z), (s2, ('i', -1))]
            if cmd == F_GETLK:
                s2 = st.copy(); self.getlk(st, i, args)
                return [(st, Z), (s2, ('i', -1))]
            return None
        if name in ('close', 'fclose'):
            v = args[0]; o = self.origin.get(v)
            for e in list(st.prop):
                if e[0] == 'new' and e[1] == v: self.add(st, ('was', v, e[2]))
            self.sub(st, lambda e: e[0] in ('new', 'lk', 'rd', 'lost', 'log') and e[1] == v)
            if o is not None and last_of(o):
                L = {e for e in st.prop if e[0] == 'lk'}
                self.add(st, *{('lost', e[1], last_of(o)) for e in L})
            return [(st, A.fresh(st, i, 'ret'))]
        if name == 'log_set_file':
            self.learn(st)
            self.sub(st, lambda e: e[0] == 'log')
            if st.nonzero(args[0]): self.seen('setlog', i); self.add(st, ('log', args[0]))
            return [(st, None)]
        return None
    def made(self, v):
        while v[0] == 'old': v = v[1]
        return self.site[v]
    def perms(self, st, i, md): pass
    def opened(self, st, i, v, args): pass
    def getlk(self, st, i, args): self.A.kill_under(st, args[2])
    def has(self, st, *e): return e in st.prop

def flags(p):
    """integer members and globals that are only ever used as flags: tested and assigned"""
    out = set()
    for f in p.funcs():
        for i in f.insts():
            if i.op == 'store' and i.ty in ('i8', 'i16', 'i32') or i.op == 'load' and i.ty in ('i8', 'i16', 'i32'):
                for t in names_of(p, f, i.ops[1] if i.op == 'store' else i.ops[0]):
                    out.add(t[2:] if t.startswith('g:') else t)
    return {t for t in out if '#' not in t and t != 'errno'}

def nz_stores(p):
    """location -> instructions that may store a non-zero value to it"""
    out = {}
    for f in p.funcs():
        for i in f.insts():
            if i.op != 'store': continue
            t = names_of(p, f, i.ops[1])
            bf = [x for x in t if '.#bf' in x]
            names = bitnames(p, f, i, bf[0]) if bf else {x[2:] if x.startswith('g:') else x for x in t}
            if not bf and i.ops[0] == ('i', 0): continue
            for x in names: out.setdefault(x, []).append(i)
    return out
def bitload(p, f, i):
    """(value & mask) of bitfield storage -> the member read"""
    if i.op != 'and' or i.ops[1][0] != 'i' or i.ops[1][1] <= 0: return None
    d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == '%' else None; off = 0
    if d is not None and d.op == 'lshr' and d.ops[1][0] == 'i': off = d.ops[1][1]; d = f.defs.get(d.ops[0][1]) if d.ops[0][0] == '%' else None
    if d is None or d.op != 'load': return None
    bf = [x for x in p.cg._target(f, d.ops[0]) if '.#bf' in x]
    return p.mod.bitfield_name(bf[0], off) if bf else None
def bitnames(p, f, i, storage):
    """members of a bitfield that this store may set to non-zero"""
    t = p.cg._target(f, i.ops[1]); mem = {x for x in t if '#' not in x}
    o = i.ops[0]; d = f.defs.get(o[1]) if o[0] == '%' else None
    if d is not None and (d.op == 'and' or d.op == 'or' and ('i', 0) in d.ops): return set()                    # masked out, nothing or-ed in
    return p.cg._bits(f, i, t)
def derived_from(p, f, o, name, d=0):
    """does operand o come from a load of member `name`?"""
    if o[0] != '%' or d > 10: return False
    i = f.defs.get(o[1])
    if i is None: return False
    b = bitload(p, f, i)
    if b is not None: return b == name
    if i.op == 'and' and i.ops[1][0] == 'i' and i.ops[1][1] < 0: return False         # the other members of a bitfield
    if i.op == 'load':
        t = p.cg._target(f, i.ops[0])
        return name in t
    if i.op == 'phi': return any(derived_from(p, f, v, name, d + 1) for v, _ in i.x) or all(v[0] == 'i' for v, _ in i.x) and any(derived_from(p, f, b.term.ops[0], name, d + 1) for b in i.bb.preds for b in ([b] + b.preds) if b.term.op == 'br' and b.term.ops)
    return any(derived_from(p, f, x, name, d + 1) for x in i.ops)

def serving(p):
    return locks.concurrent(p)[0] if 'log_set_file' in p.mod.funcs and any(True for f in p.funcs() for _ in f.calls('pthread_create')) else set()

ZERO = 'server_conf.enableZeroLogs'
def one_shot(p):
    """flags that are set only before the daemon serves: name -> set only when zeroing was asked for?"""
    conc = serving(p); ns = nz_stores(p); out = {}
    for n in flags(p):
        S = ns.get(n, [])
        if any(i.fn.name in conc for i in S): continue
        out[n] = bool(S) and all(derived_from(p, i.fn, i.ops[0], ZERO) for i in S)
    return out

class Append(Files):
    """console and daemon logs"""
    TOUCH = CREATE | {'log_set_file'}
    def relevant(self, p):
        self.shot = one_shot(p); L = set()
        # flags consulted where files are created
        fs = {f.name for f in p.funcs() if f.name in self.touch or self.touch & p.cg.callers.get(f.name, set())}
        for n in fs:
            for i in p.mod.funcs[n].insts():
                if i.op == 'store': L |= {x[2:] if x.startswith('g:') else x for x in names_of(p, i.fn, i.ops[1])}
        return set(self.shot) & L | {ZERO}
    @property
    def bad(self): return self._bad + [b for b in self.pend if b['site'].id in self.logs]
    @bad.setter
    def bad(self, v):
        self._bad = v
        if not hasattr(self, 'pend'): self.pend = []; self.logs = set()
    def fail(self, kind, i, t, msg, st):
        (self.pend if i.x in ('fopen', 'fopen64') else self._bad).append(dict(kind=kind, site=i, at=t, msg=msg, path=st.lines(12)))
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.learn(st)
        for e in st.prop:
            if e[0] not in ('new', 'was'): continue
            v, mode = e[1], e[2]; i = self.made(v)
            if i.x in ('fopen', 'fopen64') and self.has(st, 'log', v): self.logs.add(i.id)
            if i.x not in ('fopen', 'fopen64') or self.has(st, 'log', v): self.seen('log', i)
            if mode == 'append': continue
            if mode == 'other': self.fail('not-appending', i, t, 'a log is opened in another mode than for appending', st); continue
            once = [x[1] for x in st.prop if x[0] == 'nz' and ('st', x[1]) in st.prop and x[1] in self.shot]
            if not once: self.fail('truncated-again', i, t, 'a log may be truncated when it is reopened', st)
            elif not (self.has(st, 'nz', ZERO) or any(self.shot[x] for x in once)): self.fail('truncated-unasked', i, t, 'a log may be truncated although zeroing the logs was not asked for', st)

class Perm(Files):
    TOUCH = CREATE | {'umask'}
    def perms(self, st, i, md):
        if md is not None and st.const(md) is not None and not st.const(md) & 0o22: return
        if ('um', True) in st.prop: return
        self.fail('writable', i, i, 'the %s can be writable by group or others' % ('directory' if i.x == 'mkdir' else 'file'), st)

class Lock(Files):
    """locks on logs"""
    TOUCH = CREATE | {'fcntl', 'close', 'fclose', 'log_set_file'}
    def relevant(self, p): return p.mod.members('') or {'%s.enableLock' % k for k, ms in p.mod._members.items() if any(m[3] == 'enableLock' for m in ms)}
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.learn(st)
        for e in st.prop:
            if e[0] != 'new': continue
            v = e[1]; i = self.made(v)
            if i.x in ('fopen', 'fopen64'):
                if not self.has(st, 'log', v): continue
                held = {last_of(k) for k, x in st.mem.items() if x == v}
            else:
                held = {last_of(k) for k, x in st.mem.items() if x == v and last_of(k) == 'base_obj.fd'}
                if not held: continue
                if any(x[0] == 'z' and x[1].endswith('.enableLock') for x in st.prop): continue
            self.seen('log', i)
            if not self.has(st, 'lk', v): self.fail('unlocked', i, t, 'the log is in use although it is not certainly locked', st)
            elif any(x[0] == 'lost' and x[1] == v and x[2] in held for x in st.prop):
                self.fail('lock-lost', i, t, 'the lock is lost: the descriptor it replaces, open on the same file, is closed after the lock was taken', st)

def run(r, p, cls, names, tier, what, lo, kind='log', desc=''):
    viol, stats, rules = lift(p, cls, names, K=6 if tier == 'quick' else 12)
    sites = {}
    for n, x in rules: sites.update(x.n.get(kind, {}))
    r.need(len(sites), what, lo)
    bs = set()
    for b in viol:
        bs.add(b['site'].id)
        r.bad(b['kind'], b['site'], b['msg'] + ' (%s)' % b['at'].where(), path=b['path'])
    for k, i in sites.items():
        if k not in bs: r.ok('%s: %s' % (i.where(), desc))
    r.count(functions_analysed=stats['functions'], steps=stats['steps'], **{kind + '_sites': len(sites)})
    return sites

def creators(p, s=CREATE):
    """the functions that create files; a helper that only hands the file out counts as part of its callers"""
    out = set(); seen = set(); work = [(f.name, s & p.cg.callees[f.name]) for f in p.funcs() if p.cg.callees[f.name] & s]
    while work:
        n, by = work.pop()
        if (n, frozenset(by)) in seen: continue
        seen.add((n, frozenset(by))); up = p.cg.callers.get(n, set())
        if up and hands_out(p.mod.funcs[n], by): work += [(c, {n}) for c in up]
        else: out.add(n)
    return sorted(out)

@prop('G01', title='Logs are only appended to, and zeroed at most once, on request', level='other',
      statement='Console logs and the daemon log are always opened for appending, except that the daemon log may be opened truncated where zeroing it is allowed. A log is truncated only when the daemon was started with the option to zero the logs, and then only the first time that log is opened: reopening it later never truncates it. Nothing else truncates, renames or removes a log. The client\'s own log is never truncated.',
      quantifier=dict(over=['histories', 'configurations'], text='every path that opens a log, at start and on each reopening'),
      why='Losing a log takes the zero option together with a later SIGHUP or rotation; a file position that is not at the end takes a second writer.',
      anchors=dict(files=['src/server-logfile.c', 'src/server.c', 'src/client-conf.c'], mechanism=[dict(name='gotTruncate / once', where='src/server-logfile.c:open_logfile_obj, src/server.c:open_daemon_logfile')]),
      technique='path-sensitive typestate analysis of opened files over LLVM IR')
def G01(r, tier):
    r.rule('each file created for writing and used as a log is opened with O_APPEND / "a"; O_TRUNC / "w" only on paths where a flag that is never set again while serving was seen set and is cleared, and zeroing was asked for')
    for prog in ('conmand', 'conman'):
        p = build.load(prog)
        run(r, p, Append, creators(p), tier, 'logs opened in ' + prog, 2 if prog == 'conmand' else 1, desc='appends; truncates at most once')
        nr = 0
        for f in p.funcs():
            for i in f.calls(*REMOVE): r.bad('log-removed', i, '%s() can truncate or replace a file' % i.x, key='%s@%s' % (i.x, f.src_name))
            for i in f.calls('unlink', 'unlinkat'):
                nr += 1
                s = unlinks(p, f, i.ops[0] if i.x == 'unlink' else i.ops[1])
                if not s or not s <= {'server_conf.pidFileName'}: r.bad('log-removed', i, 'something other than the pid file can be removed', key='unlink@%s' % f.src_name)
                else: r.ok('%s: removes only the pid file' % i.where())
        r.count(removals=nr)

def unlinks(p, f, o, d=0):
    out = set()
    for s in p.fp.sources(f, o):
        if isinstance(s, str): return set()
        if s[0] in ('f', 'g'): out.add(s[1])
        elif s[0] == 'p' and d < 5:
            for c in p.cg.sites.get(s[1], []):
                x = unlinks(p, c.fn, c.ops[s[2]], d + 1)
                if not x: return set()
                out |= x
        else: return set()
    return out

@prop('G02', title='A log in use is locked against other writers', level='other',
      statement='Whenever a console log whose locking is not turned off, or the daemon log, is in use, the daemon holds an exclusive lock on the whole file; a log that cannot be locked is closed and not used, without waiting for the lock. Closing the log\'s previous descriptor on reopening does not give that lock up.',
      quantifier=dict(over=['histories', 'configurations', 'schedules'], text='every path that opens or reopens a log'),
      why='Two daemons interleaving one log, or a lock silently dropped on SIGHUP, shows only with a second process at the right moment.',
      anchors=dict(files=['src/server-logfile.c', 'src/server.c', 'src/util-file.c'], mechanism=[dict(name='get_write_lock', where='src/util-file.c')]),
      technique='path-sensitive typestate analysis of opened files over LLVM IR')
def G02(r, tier):
    r.rule('at every return of the functions that open logs: the log is recorded for use only with F_WRLCK held on 0..EOF of it (F_SETLK succeeded), or enableLock seen 0; no descriptor of the member that records it was closed since')
    p = build.load('conmand')
    run(r, p, Lock, creators(p), tier, 'logs put to use', 2, desc='in use only while locked')
    conc, _ = locks.concurrent(p); n = 0
    for f in p.funcs():
        for i in f.calls('fcntl'):
            from must import consts
            cs = consts(p, f, i.ops[1])
            if f.name in conc and F_SETLKW in reach_consts(p, i, conc): r.bad('waits-for-lock', i, 'a file lock is waited for')
            n += 1
    r.count(fcntl_calls=n)

def reach_consts(p, i, conc, k=1):
    """constants of an operand over the callers of the serving phase"""
    f = i.fn; o = i.ops[k]
    if o[0] == 'i': return {o[1]}
    if o[0] == '%' and o[1] in f.params:
        n = f.params.index(o[1]); out = set()
        for c in p.cg.sites.get(f.name, []):
            if c.fn.name in conc: out |= reach_consts(p, c, conc, n)
        return out
    return {None}

@prop('G04', title='Nothing the programs create is writable by group or others', level='other',
      statement='Every file or directory the daemon or the client creates (console logs, the daemon log, the pid file, missing log directories, the client\'s log) is created without write permission for group and others, whatever umask the program was started with or has set before.',
      quantifier=dict(over=['configurations', 'histories'], text='every path to a call that can create a file or directory'),
      why='The daemon clears its umask when it goes to the background, which the tests do not examine; a world-writable log can be forged.',
      anchors=dict(files=['src/server-logfile.c', 'src/server.c', 'src/server-conf.c', 'src/util-file.c', 'src/client-conf.c'], mechanism=[dict(name='umask(mask | 022) / mode arguments', where='src/server.c:open_daemon_logfile, src/server-conf.c:write_pidfile')]),
      technique='path-sensitive typestate analysis of the umask and creation modes over LLVM IR')
def G04(r, tier):
    r.rule('at each creating call: the mode argument is a constant without 022, or the last umask() on this path had 022 set')
    for prog in ('conmand', 'conman'):
        p = build.load(prog)
        run(r, p, Perm, creators(p), tier, 'creating calls in ' + prog, 4 if prog == 'conmand' else 1, kind='create', desc='not writable by group or others')

# ------------------------------------------------------------ SIGHUP
import data
class Reopen(data.Obj, Rule):
    """prop: (element, handled, scan: none/first/open/done, daemon log reopened)"""
    exit_k = 4
    def __init__(self, p, ologs, dlogs):
        self.ob_init(p); self.ologs = ologs; self.dlogs = dlogs
        self.touch = p.cg.reaching(ologs | dlogs); self.fl = {}
    def initial(self): return (None, False, 'none', False, frozenset())
    def inline(self, t, st, i, a):
        if t.name.startswith(('log_', 'list_')): return False
        return t.name in self.touch or len(t.blocks) <= 8 and t.name not in self.p.cg.noreturn and any(x == st.prop[0] for x in a if x is not None)
    def up(self, st, **kw):
        d = dict(zip(('e', 'ok', 's', 'dl', 'why'), st.prop)); d.update(kw); st.prop = tuple(d.values())
    def isobjs(self, l):
        o = self.origin.get(l) or self.origin.get(self.root(l)); return o is not None and last_of(o) == 'server_conf.objs'
    def learn(self, st):
        for v, a in list(self.origin.items()):
            if last_of(a) == 'server_conf.logFileName' and v in st.facts and st.const(v) == 0: self.up(st, why=st.prop[4] | {'none'})
            if last_of(a) == 'server_conf.enableForeground' and v in st.facts and st.nonzero(v): self.up(st, why=st.prop[4] | {'fg'})
    def on_load_fresh(self, st, i, a, v):
        if last_of(a) in ('server_conf.logFileName', 'server_conf.enableForeground'): self.origin[v] = a; return None
        return data.Obj.on_load_fresh(self, st, i, a, v)
    def on_branch(self, st, t, c, truth):
        self.learn(st)
        return data.Obj.on_branch(self, st, t, c, truth)
    def left(self, st, i):
        e, ok, s, dl, why = st.prop
        if e is not None and not ok and data.LOGFILE in self.types(st, e):
            self.bad('log-not-reopened', i, 'a console log may be passed over', st)
    def on_call(self, st, i, name, args):
        e, ok, s, dl, why = st.prop
        if name in self.ologs:
            self.seen('reopen', i)
            if e is None or args[0] != e: self.bad('wrong-object', i, 'something other than the object being considered is opened as a log', st)
            self.up(st, ok=True)
            return [(st, self.A.fresh(st, i))]
        if name in self.dlogs:
            self.seen('dlog', i); self.up(st, dl=True)
            return [(st, None)]
        if name in ('list_iterator_create', 'list_iterator_reset') and (name == 'list_iterator_reset' or self.isobjs(args[0])):
            out = self.list_call(st, i, name, args)
            for x, v in out: self.left(x, i); self.up(x, e=None, ok=False, s='open')
            return out
        if name == 'list_next' and self.iter.get(args[0]) is not None and self.isobjs(self.iter[args[0]]):
            self.seen('scan', i)
            self.left(st, i); out = self.list_call(st, i, name, args)
            for x, v in out: self.up(x, e=None if v == Z else v, ok=False, s='done' if v == Z else 'open')
            return out
        return self.list_call(st, i, name, args)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.learn(st); self.left(st, t)
        self.seen('end', t)
        e, ok, s, dl, why = st.prop
        if s != 'done': self.bad('scan-incomplete', t, 'not every object is looked at', st)
        if not dl and not why: self.bad('daemon-log-not-reopened', t, 'the daemon log may be passed over', st)

class Name(Files):
    """the name a log is opened under"""
    TOUCH = CREATE
    def initial(self): return frozenset()
    FMT = {'logfile_obj.fmtName': 'base_obj.name', 'server_conf.logFmtName': 'server_conf.logFileName'}
    def relevant(self, p): return set(self.FMT)
    def on_call(self, st, i, name, args):
        if name == 'format_obj_string' or name == 'strftime':
            src = args[3] if name == 'format_obj_string' else args[2]
            o = self.origin.get(src)
            if o is not None and last_of(o) in self.FMT:
                s2 = st.copy(); self.add(st, ('exp', last_of(o), args[0]))
                v = self.A.fresh(st, i); st.facts[v] = (0, INF, frozenset())
                return [(st, v), (s2, ('i', -1))]
            return None
        if name in ('create_string', 'strdup'):
            v = self.A.fresh(st, i, 'str'); st.facts[v] = (1, INF, frozenset())
            for e in list(st.prop):
                if e[0] == 'exp' and e[2] == args[0]: self.add(st, ('str', e[1], v))
            return [(st, v)]
        if name in ('open', 'open64', 'fopen', 'fopen64'):
            self.learn(st)
            a = [k for k, x in st.mem.items() if x == args[0] and last_of(k) in self.FMT.values()]
            for k in a:
                L = next(f for f, n in self.FMT.items() if n == last_of(k))
                self.seen('name', i)
                if ('z', L) in st.prop: continue
                if ('str', L, args[0]) not in st.prop:
                    self.fail('stale-name', i, i, 'the log may be opened under a name expanded earlier', st)
            if not a and any(e[0] == 'exp' for e in st.prop):
                self.seen('name', i)
                if not any(e[0] == 'exp' and e[2] == args[0] or e[0] == 'str' and e[2] == args[0] for e in st.prop): self.fail('other-name', i, i, 'the log may be opened under another name', st)
        return Files.on_call(self, st, i, name, args)

class Stream(Files):
    """prop: (stream the log is written to: None = the one recorded at entry, closed streams)"""
    def __init__(self, p, inl=()):
        Files.__init__(self, p, inl); self.uses = 0
        self.touch = p.cg.reaching({'fclose', 'log_set_file'})
    def initial(self): return (None, frozenset())
    def inline(self, t, st, i, a): return t.name in self.touch and t.name not in self.p.cg.noreturn and not t.name.startswith('log_')
    def entry(self, v):
        o = self.origin.get(v)
        return o is not None and last_of(o) == 'server_conf.logFilePtr'
    def on_call(self, st, i, name, args):
        cur, cl = st.prop
        if name == 'log_set_file': st.prop = (args[0], cl); return [(st, self.A.fresh(st, i))]
        if name == 'fclose':
            v = None if self.entry(args[0]) else args[0]
            st.prop = (cur, cl | {v}); return [(st, self.A.fresh(st, i))]
        if name in ('log_msg', 'log_err'): self.check(st, i)
        if name == 'fopen' or name == 'fopen64':
            s2 = st.copy(); v = self.A.fresh(st, i, 'fp'); st.facts[v] = (1, INF, frozenset())
            return [(st, v), (s2, Z)]
        if name == 'fileno': return [(st, self.A.fresh(st, i))]
        t = self.p.mod.funcs.get(name)
        if t is None or t.decl or not self.inline(t, st, i, args): return [(st, self.A.fresh(st, i))] if not (t is not None and name in self.p.cg.noreturn) else None
    def check(self, st, i):
        self.uses += 1
        cur, cl = st.prop
        if cur in cl: self.bad.append(dict(kind='log-to-closed', site=i, at=i, msg='the daemon log may go on being written to a stream that this path has closed', path=st.lines(12)))
    def on_return(self, st, f, rv, t):
        if not self.A.stack: self.check(st, t)

def log_openers(p):
    conc = serving(p); opens = {'open', 'open64'}; ro = p.cg.reaching(opens); o = set()
    for n in creators(p, opens):
        if n not in conc: continue
        fam = [p.mod.funcs[n]] + [p.mod.funcs[c] for c in p.cg.callees[n] & ro if c in p.mod.funcs and not p.mod.funcs[c].decl]
        if any(data.FD in names_of(p, f, i.ops[1]) for f in fam for i in f.insts() if i.op == 'store') and any(logtype(p, f) for f in fam): o.add(n)
    both = p.cg.reaching({'log_set_file'}) & p.cg.reaching({'fopen', 'fopen64'}) & conc
    d = {n for n in both if not (p.cg.callees[n] & both - {n})}
    return o, d
def logtype(p, f):
    return any(x.startswith('logfile_obj.') for i in f.insts() if i.op in ('load', 'store') for x in names_of(p, f, i.ops[0] if i.op == 'load' else i.ops[1]))

@prop('G03', title='A reopen request reopens every log under its configured name', level='other',
      statement='When the daemon acts on SIGHUP it reopens the log of every console that has one, whether or not others could be opened, and the daemon log unless it has none or runs in the foreground. Each is opened under its configured name with the conversion specifiers expanded anew. The daemon log is never left on a stream that was closed.',
      quantifier=dict(over=['configurations', 'histories', 'fault_sequences'], text='every path of the reopening, any number of objects in any order, with each open succeeding or failing'),
      why='Log rotation relies on it; a skipped log goes on filling a deleted file, which nothing reports.',
      anchors=dict(files=['src/server.c', 'src/server-logfile.c'], mechanism=[dict(name='reopen_logfiles', where='src/server.c'), dict(name='open_logfile_obj', where='src/server-logfile.c')]),
      technique='path-sensitive typestate analysis of the object scan over LLVM IR with a model of the list API')
def G03(r, tier):
    r.rule('on every path of the reopening: each element of conf->objs is passed to the opener or known not to be a log, the scan runs from the first to the last element, and the daemon log is reopened unless logFileName is known null or enableForeground known set; at each open of a log name: its format member is known null or was expanded on this path; at each log message and return of the daemon log opener the stream last given to log_set_file() (or recorded at entry) was not closed on this path')
    p = build.load('conmand'); o, d = log_openers(p)
    if not o or not d: raise Broken('no function opens console logs / the daemon log')
    ro, rd = p.cg.reaching(o), p.cg.reaching(d)
    conc = serving(p); both = {n for n in ro & rd if n in conc or n == 'main'}
    mux = set(data.mux_funcs(p))
    up = set()
    for m in mux: up |= p.cg.reach(m) | {m}
    roots = sorted(n for n in both & up if not (p.cg.callees[n] & both - {n}))
    if not roots: raise Broken('the event loop reaches nothing that reopens all logs')
    runs = []; st = 0
    for n in roots:
        x = Reopen(p, o, d); a = Analysis(p.mod, x, p.cg, K=4, max_steps=200000); a.run(n); st += a.steps; runs.append(x)
    nv, tot = data.finish(r, runs, dict(reopen=('reopenings', 'reopenings of console logs', 1), dlog=('daemon_log_reopenings', 'reopenings of the daemon log', 1), end=('returns', 'returns of the reopening', 1)))
    if not nv: r.ok('%s: every log is reopened on every path' % ', '.join(roots))
    viol, stats, rules = lift(p, Name, sorted(o | d), K=6)
    sites = {}
    for n, x in rules: sites.update(x.n.get('name', {}))
    r.need(len(sites), 'opens under a configured name', 2)
    for b in viol: r.bad(b['kind'], b['site'], b['msg'], path=b['path'])
    if not viol:
        for i in sites.values(): r.ok('%s: name expanded anew' % i.where())
    nb = 0
    for n in sorted(d):
        x = Stream(p); a = Analysis(p.mod, x, p.cg, K=8, max_steps=200000); a.run(n); st += a.steps; r.need(x.uses, 'uses of the daemon log while it is replaced')
        for b in {(b['site'].id, b['kind']): b for b in x.bad}.values(): nb += 1; r.bad(b['kind'], b['site'], b['msg'], path=b['path'])
    if not nb: r.ok('%s: the log is never left on a closed stream' % ', '.join(sorted(d)))
    r.count(steps=st + stats['steps'], named_opens=len(sites))
