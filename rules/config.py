"""K: one daemon per configuration, and an unambiguous configuration."""
from absint import *
from core import Broken
from registry import prop
from fdrules import lift
from listmodel import *
from must import Must, consts
import build, locks, files
from files import Files, F_GETLK, F_SETLK, F_SETLKW, F_RDLCK, F_WRLCK, F_UNLCK, names_of, derived_from

CFD = 'server_conf.fd'; CNAME = 'server_conf.confFileName'; PNAME = 'server_conf.pidFileName'
OPEN = {'open', 'open64', 'openat'}
READ = {'read', 'pread', 'fdopen', 'mmap', 'readv'}
EFFECT = {'bind', 'listen', 'unlink', 'remove', 'rename', 'mkdir', 'fopen', 'fopen64', 'fork'}

class Conf(Files):
    """('cf', v)          v is a file opened for reading
       ('rd'|'lk', v)     this process holds a lock on the whole of it
       ('ask', v, t)      F_GETLK for a write lock on the whole of it, asked while holding one, answered in t
       ('free', v)        ... and nobody else held one
       ('early', v, call) something that depends on the lock was done before"""
    TOUCH = OPEN | {'fopen', 'fcntl', 'close', 'fclose', 'unlink', 'kill', 'read', 'fdopen', 'bind', 'fork', 'getpid', 'fprintf', 'fscanf'}
    def __init__(self, p, inl):
        super().__init__(p, inl); self.pidof = set(); self.lockpid = set()
        self.touch = self.touch - {f.name for f in p.funcs() if f.name in p.cg.noreturn and f.name.startswith('log_')}
    def locked(self, st, v): return self.has(st, 'lk', v) or (self.has(st, 'rd', v) and self.has(st, 'free', v))
    def learn(self, st):
        super().learn(st)
        for e in list(st.prop):
            if e[0] == 'ask' and st.const(e[2]) == F_UNLCK and self.has(st, 'rd', e[1]): self.add(st, ('free', e[1]))
    def getlk(self, st, i, args):
        g = {k: st.mem.get(addr(args[2], ('flock.' + k,))) for k in ('l_type', 'l_whence', 'l_start', 'l_len')}
        g = {k: st.const(x) if x is not None else None for k, x in g.items()}
        self.seen('getlk', i)
        self.A.kill_under(st, args[2])
        t = self.A.fresh(st, i, 'lt'); st.mem[addr(args[2], ('flock.l_type',))] = t
        pid = self.A.fresh(st, i, 'lp'); self.lockpid.add(pid); st.mem[addr(args[2], ('flock.l_pid',))] = pid
        self.sub(st, lambda e: e[0] in ('ask', 'free') and e[1] == args[0])
        if g['l_type'] == F_WRLCK and g['l_whence'] == 0 and g['l_start'] == 0 and g['l_len'] == 0 and self.has(st, 'rd', args[0]): self.add(st, ('ask', args[0], t))
    def confs(self, st): return [e[1] for e in st.prop if e[0] == 'cf']
    def early(self, st, i, what):
        for v in self.confs(st):
            if not self.locked(st, v): self.add(st, ('early', v, i.id)); self.call[i.id] = (i, what)
    @property
    def call(self): return self.__dict__.setdefault('_call', {})
    def on_call(self, st, i, name, args):
        A = self.A; self.learn(st)
        if name in OPEN:
            s2 = st.copy(); v = A.fresh(st, i, 'fd'); st.facts[v] = (0, INF, frozenset()); self.site[v] = i
            fl = args[2] if name == 'openat' else args[1]
            if files.nobits(fl, 3): self.add(st, ('cf', v))
            return [(st, v), (s2, ('i', -1))]
        if name in READ:
            for v in self.confs(st):
                if args[0] == v and not self.locked(st, v): self.add(st, ('early', v, i.id)); self.call[i.id] = (i, 'the configuration is read')
        elif name in EFFECT:
            if name in ('fopen', 'fopen64'):
                m = self.p.mod.cstr(('@', args[1][1])) if args[1][0] == 'g' else None
                if m is None or m[0] != 'r': self.early(st, i, 'a file is created'); self.seen('effect', i)
            else: self.early(st, i, '%s() is called' % name); self.seen('effect', i)
        if name in ('unlink', 'remove'):
            o = self.origin.get(args[0])
            if (o is not None and last_of(o) == PNAME or self.has(st, 'pn', args[0])):
                self.seen('pidfile', i)
                if not any(self.locked(st, v) for v in self.confs(st)): self.fail('pidfile', i, i, 'the pid file is removed by a process that may not hold the lock on the configuration', st)
        if name == 'kill':
            v = args[0]
            while v[0] == 'old': v = v[1]
            if v in self.pidof: return None             # itself
            self.seen('kill', i); lo = st.fact(args[0])[0]
            if lo < 1: self.fail('kill', i, i, 'the id that is signalled may not be that of one process', st)
            elif v not in self.lockpid: self.fail('kill', i, i, 'the id that is signalled is not that of the process holding the lock on the configuration, nor read from the pid file', st)
            self.add(st, ('killed', i.id))
            return None
        if name == 'getpid':
            v = A.fresh(st, i, 'me'); st.facts[v] = (1, INF, frozenset()); self.pidof.add(v)
            return [(st, v)]
        if name in ('fprintf', 'dprintf') and self.has(st, 'ps', args[0]):
            self.seen('pidprint', i); v = args[2] if len(args) == 3 else UNDEF
            while v[0] == 'old': v = v[1]
            if v not in self.pidof: self.fail('pidfile', i, i, 'something other than the id of the process itself is written to the pid file', st)
        if name in ('fscanf', '__isoc99_fscanf', '__isoc23_fscanf', 'sscanf', '__isoc99_sscanf', '__isoc23_sscanf') and len(args) > 2:
            n = A.fresh(st, i, 'n')
            for a in args[2:]:
                A.kill_under(st, a); v = A.fresh(st, i, 'sp'); self.lockpid.add(v); st.mem[a] = v
            return [(st, n)]
        if name in ('fopen', 'fopen64'):
            o = self.origin.get(args[0]); out = super().on_call(st, i, name, args)
            if o is not None and last_of(o) == PNAME:
                for s, v in out:
                    if v != Z:
                        self.add(s, ('ps', v)); m = self.p.mod.cstr(('@', args[1][1])) if args[1][0] == 'g' else None
                        if m is None or m[0] != 'r': self.seen('pidopen', i)
            return out
        if name in ('close', 'fclose'):
            self.sub(st, lambda e: e[0] in ('rd', 'lk', 'ask', 'free') and e[1] == args[0])
            for e in list(st.prop):
                if e[0] == 'cf' and e[1] == args[0]: st.prop = st.prop - {e} | {('gone', args[0])}
        return super().on_call(st, i, name, args)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.learn(st)
        for v in self.confs(st) + [e[1] for e in st.prop if e[0] == 'gone']:
            if not any(last_of(k) == CFD and x == v for k, x in st.mem.items()): continue
            i = self.made(v); self.seen('conf', i)
            if ('gone', v) in st.prop: self.fail('closed', i, t, 'the configuration file is closed, which gives up the lock on it', st); continue
            if not self.locked(st, v):
                self.fail('unlocked', i, t, 'the configuration is put to use although ' + ('another process may hold a lock on it' if self.has(st, 'rd', v) else 'this process may hold no lock on it'), st)
            for e in st.prop:
                if e[0] == 'early' and e[1] == v:
                    c, what = self.call[e[2]]
                    self.fail('early', c, t, '%s before the configuration was found to be used by nobody else' % what, st)
            if any(e[0] == 'killed' for e in st.prop): self.fail('served-after-signal', i, t, 'an invocation that signalled a process goes on to serve', st)

_an = {}
def analyse(tier):
    if tier in _an: return _an[tier]
    p = build.load('conmand')
    names = [f.name for f in p.funcs() if any(i.op == 'store' and CFD in names_of(p, f, i.ops[1]) and i.ops[0][0] != 'i' for i in f.insts())]
    if not names: raise Broken('no function records the configuration file')
    viol, stats, rules = lift(p, Conf, names, K=8 if tier == 'quick' else 16, max_steps=200000)
    sig = [f.name for f in p.funcs() if f.name not in files.serving(p) and f.name != 'main' and f.name not in p.cg.addr_taken and any(True for _ in f.calls('kill'))]
    v2, s2, r2 = lift(p, Conf, sig, K=8 if tier == 'quick' else 16, max_steps=200000, roots=sig)
    viol += v2; rules += r2; stats['steps'] += s2['steps']; stats['functions'] += s2['functions']
    seen = {}
    for n, x in rules:
        for k, d in x.n.items(): seen.setdefault(k, {}).update(d)
    _an[tier] = p, names, viol, stats, seen
    return _an[tier]

# ------------------------------------------------------------ unambiguous configuration
OBJS = 'server_conf.objs'; NAME = 'base_obj.name'; TYPE = 'base_obj.type'
CLIENT, LOGFILE, PROCESS, SERIAL, TELNET, UNIXSOCK, IPMI, TEST = 1, 2, 4, 8, 16, 32, 64, 128
CONSOLE = 0xfc
DEV = {SERIAL: 'serial_obj.dev', UNIXSOCK: 'unixsock_obj.dev', IPMI: 'ipmi_obj.host'}
WHAT = {SERIAL: 'device', UNIXSOCK: 'socket', IPMI: 'host'}
SCMP = {'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'}

class Dup(ListModel, Rule):
    """prop: (element considered, evidence about it, evidences of the elements passed, scan state)
       evidence: ('ne', member, X) its member is not the string X, ('is', t) / ('isnt', t) / ('zero', mask) about its type"""
    exit_k = 6
    def __init__(self, p, inl):
        self.lm_init(p); self.inl = inl; self.bad = []; self.n = {}; self.cmp = {}; self.dup = {}
        self.touch = p.cg.reaching(SCMP | {'list_append', 'list_next', 'list_prepend', 'malloc'}) & (p.cg.reaching({'list_append', 'list_prepend'}) | p.cg.reaching(SCMP) | {f.name for f in p.funcs() if any(i.op == 'store' and NAME in names_of(p, f, i.ops[1]) for i in f.insts())})
    def initial(self): return (None, frozenset(), frozenset(), 'none', frozenset(), frozenset())
    def inline(self, t, st, i, a):
        n = t.name
        if n.startswith(('list_', 'log_', 'tpoll_', 'lex_', 'x_pthread')) or n in self.p.cg.noreturn or n in ('create_string',): return False
        return n in self.touch and ('list_next' in self.p.cg.reach(n) or 'list_append' in self.p.cg.reach(n) or 'create_string' in self.p.cg.reach(n) or len(t.blocks) <= 6)
    def on_load_fresh(self, st, i, a, v): return self.lm_fresh(a, v)
    def fail(self, kind, i, msg, st): self.bad.append(dict(kind=kind, site=i, at=i, msg=msg, path=st.lines(12)))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def org(self, v): return self.origin.get(v) or self.origin.get(self.root(v)) if v is not None else None
    def learn(self, st):
        e, ev, passed, scan, done, strs = st.prop
        if e is None: return
        add = set(); t = st.mem.get(addr(e, (TYPE,)))
        if t is not None:
            k = st.const(t)
            if k is not None: add.add(('is', k))
            for v, f in st.facts.items():
                if v[0] == 'bin' and v[1] == 'and' and v[2] == t and v[3][0] == 'i' and f[0] == f[1] == 0: add.add(('zero', v[3][1] & 0xff))
                if v[0] == 'cmp' and v[2] == t and v[3][0] == 'i' and f[0] == f[1] and (v[1] == 'eq') == (f[0] == 0): add.add(('isnt', v[3][1]))
            ft = st.fact(t)
            for x in ft[2]: add.add(('isnt', x))
        for v in st.facts:
            if v[0] == 's' and v[3][0] == 'sc' and v[3][1] == e and st.nonzero(v): add.add(('ne',) + v[3][2:])
        if not add <= ev: st.prop = (e, ev | add, passed, scan, done, strs)
    def on_branch(self, st, t, c, truth):
        z = {('exp', None, v[3][1]) for v, f in st.facts.items() if v[0] == 's' and v[3][:1] == ('pc',) and f[0] == f[1] == 0} - st.prop[5]
        if z: st.prop = st.prop[:5] + (st.prop[5] | z,)
        self.learn(st)
    def on_call(self, st, i, name, args):
        A = self.A
        if name in SCMP:
            tag = 'sc'
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                o = self.org(a)
                if o is not None and base_of(o) == st.prop[0] and st.prop[0] is not None and last_of(o): tag = ('sc', st.prop[0], last_of(o), b)
            return [(st, A.fresh(st, i, tag))]
        if name == 'format_obj_string' and len(args) > 3:
            ok, ko = st, st.copy()
            v = A.fresh(ok, i, 'len'); ok.facts[v] = (0, INF, frozenset())
            ok.prop = ok.prop[:5] + (ok.prop[5] | {('exp', None, args[0])},)
            ko.prop = ko.prop[:5] + (ko.prop[5] | {('exp', None, args[3])},)
            return [(ok, v), (ko, ('i', -1))]
        if name in ('strchr', 'index', 'memchr', 'strpbrk', 'strrchr') and st.const(args[1]) == 37:
            return [(st, A.fresh(st, i, ('pc', args[0])))]
        if name in ('create_string', 'strdup', '__strdup', 'xstrdup'):
            v = A.fresh(st, i, ('str', args[0])); st.facts[v] = (1, INF, frozenset())
            return [(st, v)]
        if name in ('list_iterator_create', 'list_iterator_reset'):
            l = args[0] if name == 'list_iterator_create' else self.iter.get(args[0])
            o = self.org(l)
            if o is not None and last_of(o) == OBJS: st.prop = (None, frozenset(), frozenset(), 'start', st.prop[4], st.prop[5])
        if name == 'list_next':
            l = self.iter.get(args[0]); o = self.org(l)
            if o is not None and last_of(o) == OBJS:
                self.learn(st)
                e, ev, passed, scan, done, strs = st.prop
                if e is not None:
                    out = {x for x in ev if x[0] == 'ne'}
                    for k, *a in ev:
                        if k == 'is': out |= {('isnt', 1 << b) for b in range(8) if 1 << b != a[0]}
                        if k == 'zero': out |= {('isnt', 1 << b) for b in range(8) if a[0] >> b & 1}
                        if k == 'isnt' and a[0] & (a[0] - 1) == 0: out.add(('isnt', a[0]))
                    passed = passed | {frozenset(out)}
                passed = frozenset(x for x in passed if not any(y < x for y in passed))
                out = []
                for s, v in self.list_call(st, i, name, args):
                    s.prop = (v if v != Z else None, frozenset(), passed, 'mid' if v != Z else 'end', done if v != Z else done | {passed}, strs); out.append((s, v))
                return out
        if name in ('list_append', 'list_prepend', 'list_push', 'list_enqueue'):
            o = self.org(args[0])
            if o is not None and last_of(o) == OBJS: self.appended(st, i, args[1])
        if name == 'list_insert':
            o = self.org(self.iter.get(args[0]))
            if o is not None and last_of(o) == OBJS: self.appended(st, i, args[1])
        return self.list_call(st, i, name, args)
    def member(self, st, v, m):
        for k, x, o in st.prop[5]:
            if k == v and x == m: return o
        return None
    def on_store(self, st, i, a, v):
        m = last_of(a)
        if m == NAME or m in DEV.values():
            strs = frozenset(x for x in st.prop[5] if not (x[0] == base_of(a) and x[1] == m))
            if v[0] == 's' and v[3][0] == 'str': strs |= {(base_of(a), m, v[3][1])}
            st.prop = st.prop[:5] + (strs,)
    def appended(self, st, i, v):
        t = st.mem.get(addr(v, (TYPE,))); t = st.const(t) if t is not None else None
        if t is None: self.fail('unknown', i, 'an object of unknown type is added', st); return
        if t == CLIENT: return
        self.seen('added', i); self.seen('type%d' % t, i)
        what = 'log' if t == LOGFILE else 'console'
        x = self.member(st, v, NAME)
        if x is None: self.fail('unknown-name', i, 'a %s with an unknown name is added' % what, st); return
        if t == LOGFILE and ('exp', None, x) not in st.prop[5]:
            self.fail('unexpanded', i, 'a log is compared with the others by a name whose conversion specifiers may not be expanded', st)
        res = [self.compared(st, v, t, x, passed) for passed in st.prop[4]]
        if not res: self.fail('unchecked', i, 'a %s is added although the objects already configured were not all compared with it' % what, st)
        elif None not in res: self.fail(res[0][0], i, res[0][1] % what, st)
    def compared(self, st, v, t, x, passed):
        for E in passed:
            if ('ne', NAME, x) not in E and not self.not_a(E, LOGFILE if t == LOGFILE else CONSOLE):
                return 'duplicate', 'a %s is added although one of the same name may be configured already'
        if t in DEV:
            y = self.member(st, v, DEV[t])
            for E in passed:
                if ('ne', DEV[t], y) not in E and not self.not_a(E, t):
                    return 'duplicate-device', 'a %%s is added although another one may be configured for the same %s' % WHAT[t]
    def not_a(self, E, mask):
        """an element with this evidence is of none of the types in mask"""
        return all(('isnt', 1 << b) in E for b in range(8) if mask >> b & 1)

def inserters(p):
    out = []
    for f in p.funcs():
        it = set()
        for i in f.calls('list_iterator_create'):
            if derived_from(p, f, i.ops[0], OBJS): it.add(i.res)
        if it and any(True for _ in f.calls('list_insert')): out.append(f.name)
    return out

TECH = 'path-sensitive typestate analysis over LLVM IR with lifting into callers, plus call-graph ordering checks'
def obl(r, viol, seen, kinds, groups):
    bad = set()
    for b in viol:
        if b['kind'] in kinds:
            bad.add(b['site'].id)
            r.bad(b['kind'], b['site'], b['msg'] + ('' if b['at'] is b['site'] else ' (%s)' % b['at'].where()), path=b['path'])
    for k, d in groups.items():
        for x, i in seen.get(k, {}).items():
            if x not in bad: r.ok('%s: %s' % (i.where(), d))

def after(f, i):
    """instructions that may run after i in its function"""
    out = i.bb.insts[i.bb.insts.index(i) + 1:]; work = list(i.bb.succs); s = set()
    while work:
        b = work.pop()
        if b.name in s: continue
        s.add(b.name); out = out + b.insts; work += b.succs
    return out

@prop('K01', title='Only one daemon serves a configuration', level='other',
      statement='The daemon reads its configuration, creates files and goes on to serve only while it holds a lock on the whole configuration file and, having taken it, found that no other process holds one, whether or not that process can be identified; otherwise it ends. It keeps the lock while it serves: it does not close or reopen the file, and does not fork into the background afterwards.',
      quantifier=dict(over=['schedules', 'configurations', 'histories'], text='every path from opening the configuration to serving; any other process holding any kind of lock'),
      why='Two daemons on one configuration fight over consoles and logs; it takes a second daemon started at the wrong moment, a lock whose owner has no pid here, or a lock silently dropped by closing a descriptor or forking.',
      anchors=dict(files=['src/server-conf.c', 'src/util-file.c', 'src/server.c'], mechanism=[dict(name='conf->fd lock', where='src/server-conf.c:process_config'), dict(name='get_read_lock / is_write_lock_blocked', where='src/util-file.c')]), technique=TECH)
def K01(r, tier):
    r.rule('on every path on which the opened configuration file is recorded and its opener returns: F_SETLK on 0..EOF succeeded and a later F_GETLK for a write lock on 0..EOF answered F_UNLCK; so before the first read of it and before any file is created, unlinked or socket bound')
    r.rule('nothing else closes it, locks or unlocks it, or opens the same file again before serving ends; no daemonizing fork follows; the opener runs before any socket is bound and before the event loop')
    p, names, viol, stats, seen = analyse(tier); cg = p.cg
    obl(r, viol, seen, {'unlocked', 'early', 'closed'}, {'conf': 'put to use only locked and alone', 'effect': 'only after the configuration is locked'})
    r.need(len(seen.get('conf', {})), 'configuration file opened'); r.need(len(seen.get('getlk', {})), 'test for the lock of another process')
    conc = files.serving(p); main = p.mod.funcs['main']; P = set(names)
    top = {c.x for c in main.insts() if c.op == 'call' and c.x and (c.x in P or cg.reach(c.x) & P)}
    if 'main' in P: top.add('main')
    # closing, locking or reopening it elsewhere
    serve = {c.x for c in main.insts() if c.op == 'call' and c.x and cg.reach(c.x) & {'accept', 'accept4', 'pthread_create'}}
    for f in p.funcs():
        for i in f.calls('close', 'dup2', 'dup3', 'fclose'):
            o = i.ops[-1] if i.x.startswith('dup') else i.ops[0]
            if not derived_from(p, f, o, CFD): continue
            n = f.name
            if n in conc: r.bad('closed', i, 'the configuration file may be closed while the daemon serves, which gives up the lock on it', key='close@' + f.src_name); continue
            ok = True
            for c in main.insts():
                if c.op == 'call' and c.x and (c.x == n or n in cg.reach(c.x)) and c.x not in top:
                    if any(a.op == 'call' and a.x in serve for a in after(main, c)): ok = False
            if ok: r.ok('%s: closes the configuration file only after serving' % i.where())
            else: r.bad('closed', i, 'the configuration file may be closed before the daemon serves, which gives up the lock on it', key='close@' + f.src_name)
        for i in f.calls(*(files.CREATE - {'mkdir'})):
            k = 1 if i.x == 'openat' else 0
            if f.name not in P and derived_from(p, f, i.ops[k], CNAME): r.bad('reopened', i, 'the configuration file is opened again; closing that descriptor gives up the lock', key='reopen@' + f.src_name)
        if f.name not in P and f.name not in cg.reach(next(iter(P))):
            for i in f.insts():
                if i.op != 'call' or not i.x or i.x not in p.mod.funcs: continue
                if any(derived_from(p, f, o, CFD) for o in i.ops) and (i.x == 'fcntl' or 'fcntl' in cg.reach(i.x)):
                    if i.x == 'fcntl' and consts(p, f, i.ops[1]) & {F_SETLK, F_SETLKW, None} or i.x != 'fcntl' and any(consts(p, j.fn, j.ops[1]) & {F_SETLK, F_SETLKW} for g in {i.x} | cg.reach(i.x) if g in p.mod.funcs for j in p.mod.funcs[g].calls('fcntl')):
                        if not locks_test_only(p, i): r.bad('relocked', i, 'the lock on the configuration file is changed', key='relock@' + f.src_name)
    # forks and order in main
    ev = Must(p, lambda i: ('conf',) if i.op == 'call' and i.x in P else ())
    n = 0
    for f in p.funcs():
        for i in f.calls('bind', 'listen', 'poll', 'ppoll', 'select', 'epoll_wait'):
            s = ev.at(i)
            if s is None: continue
            n += 1
            if 'conf' in s: r.ok('%s: %s() only after the configuration was locked' % (i.where(), i.x))
            else: r.bad('order', i, '%s() may be called before the configuration is locked' % i.x)
    r.need(n, 'socket and wait calls of the daemon', 2)
    for c in main.insts():
        if c.op != 'call' or not c.x or c.x not in top: continue
        for a in after(main, c):
            if a.op != 'call' or not a.x: continue
            fk = [g for g in {a.x} | cg.reach(a.x) if (g == 'fork' and a.x == 'fork') or g in p.mod.funcs and g not in conc and not p.mod.funcs[g].decl and any(True for _ in p.mod.funcs[g].calls('fork', 'daemon', 'vfork'))]
            if fk: r.bad('fork', a, 'the daemon may fork into the background after it locked its configuration (%s): the lock is not inherited' % ', '.join(sorted(fk)), key='fork@' + a.x)
        r.ok('%s: no daemonizing fork after the configuration was locked' % c.where())
    r.count(functions_analysed=stats['functions'], steps=stats['steps'], openers=len(P))

def locks_test_only(p, i):
    """a call whose fcntl commands, for the constants of this very call, only test locks"""
    def cmds(g, seen):
        f = p.mod.funcs[g]; out = set()
        for j in f.insts():
            if j.op != 'call' or not j.x: continue
            if j.x == 'fcntl':
                o = j.ops[1]
                if o[0] == 'i': out.add(o[1])
                elif o[0] == '%' and o[1] in f.params: out.add(('p', f.params.index(o[1])))
                else: out.add(None)
            elif j.x in p.mod.funcs and not p.mod.funcs[j.x].decl and j.x not in seen:
                for c in cmds(j.x, seen | {j.x}):
                    if isinstance(c, tuple):
                        o = j.ops[c[1]]
                        out.add(o[1] if o[0] == 'i' else ('p', f.params.index(o[1])) if o[0] == '%' and o[1] in f.params else None)
                    else: out.add(c)
        return out
    if i.x == 'fcntl': return False
    c = {x if not isinstance(x, tuple) else (i.ops[x[1]][1] if i.ops[x[1]][0] == 'i' else None) for x in cmds(i.x, {i.x})}
    return not c & {F_SETLK, F_SETLKW, None}

@prop('K02', title='No two consoles share a name, a device or a log', level='other',
      statement='A console is added to the configuration only after its name was compared with that of every console configured before and differs from all; a serial, unix-socket or IPMI console only if its device, socket path or host also differs from those of all others of its kind; and a log only if its name, with conversion specifiers expanded, differs from that of every other log. Objects of other kinds do not end these comparisons early.',
      quantifier=dict(over=['configurations'], text='every path of the functions that add objects to the configuration; any number of objects configured before'),
      why='fcntl() locks do not protect a process from itself, so one daemon would interleave two consoles on a device or in a log; the order and mix of directives that expose a missed comparison is not tested.',
      anchors=dict(files=['src/server-serial.c', 'src/server-unixsock.c', 'src/server-process.c', 'src/server-telnet.c', 'src/server-test.c', 'src/server-ipmi.c', 'src/server-logfile.c'], mechanism=[dict(name='duplicate checks', where='src/server-*.c:create_*_obj')]), technique='path-sensitive abstract interpretation of list scans over LLVM IR')
def K02(r, tier):
    r.rule('where an object is added to conf->objs: an earlier scan of conf->objs ran to its end, and each object passed is known not to be of the kind in question or to have a different name (strcmp of the very string the new object is named by), and likewise the device; the name of a log was expanded by format_obj_string() on this path, is known to hold no conversion specifier, or cannot be expanded')
    p = build.load('conmand')
    names = sorted({f.name for f in p.funcs() if any(derived_from(p, f, i.ops[0], OBJS) for i in f.calls('list_append', 'list_prepend', 'list_push', 'list_enqueue'))} | set(inserters(p)))
    viol, stats, rules = lift(p, Dup, names, K=8 if tier == 'quick' else 16, max_steps=150000)
    seen = {}
    for n, x in rules:
        for k, d in x.n.items(): seen.setdefault(k, {}).update(d)
    obl(r, viol, seen, {b['kind'] for b in viol}, {'added': 'added only after it was compared with all others'})
    r.need(sum(1 for t in (PROCESS, SERIAL, TELNET, UNIXSOCK, IPMI, TEST) if 'type%d' % t in seen), 'kinds of console that are added', 6)
    r.need(len(seen.get('type2', {})), 'logs that are added')
    r.count(functions_analysed=stats['functions'], steps=stats['steps'])

@prop('K03', title='The pid file belongs to the daemon that holds the configuration', level='other',
      statement='The pid file is created, replaced or removed while starting only by a daemon that holds the lock on its configuration and found nobody else to hold one: an invocation that finds the configuration in use, or that only signals or queries a running daemon, leaves it alone. What is written to it is the process id of the daemon itself, after it forked into the background.',
      quantifier=dict(over=['schedules', 'histories', 'configurations'], text='every path from start to serving, and every path of -k, -r and -q'),
      why='A pid file removed or overwritten by a second invocation leaves the running daemon unreachable for init scripts; it takes two overlapping invocations.',
      anchors=dict(files=['src/server-conf.c'], mechanism=[dict(name='write_pidfile / destroy_server_conf / signal_daemon', where='src/server-conf.c')]), technique=TECH)
def K03(r, tier):
    r.rule('at each unlink() or fopen() for writing of the pid file outside shutdown: the configuration is locked and nobody else holds a lock; the value printed to it is the result of getpid() on this path')
    p, names, viol, stats, seen = analyse(tier)
    pf = set(seen.get('pidfile', {}))
    early = [b for b in viol if b['kind'] == 'early' and b['site'].id in pf | set(seen.get('pidopen', {}))]
    obl(r, [b for b in viol if b['kind'] == 'pidfile'] + early, seen, {'pidfile', 'early'}, {'pidfile': 'only under the lock', 'pidprint': 'its own process id', 'pidopen': 'only under the lock'})
    r.need(len(seen.get('pidprint', {})), 'pid file written'); r.need(len(pf), 'pid file removed')
    r.count(functions_analysed=stats['functions'], steps=stats['steps'])

@prop('K04', title='Options -k, -r and -q signal only the running daemon', level='other',
      statement='The only process an invocation with -k, -r or -q signals is one with a positive process id that is the holder of a lock on the configuration file or is named in the pid file; an owner that cannot be identified is never signalled. Such an invocation never goes on to serve.',
      quantifier=dict(over=['configurations', 'schedules'], text='every path of an invocation that signals; any answer of F_GETLK and any content of the pid file'),
      why='kill() with 0 or a negative id signals whole groups or every process of the user; such an id comes from an unusual lock holder or a damaged pid file.',
      anchors=dict(files=['src/server-conf.c', 'src/util-file.c'], mechanism=[dict(name='signal_daemon / read_pidfile / test_file_lock', where='src/server-conf.c, src/util-file.c')]), technique=TECH)
def K04(r, tier):
    r.rule('at each kill() before serving: the id is at least 1 on this path and is the l_pid answered by F_GETLK or a number scanned from a file; no path returns from there to start serving')
    p, names, viol, stats, seen = analyse(tier)
    obl(r, viol, seen, {'kill', 'served-after-signal'}, {'kill': 'a positive id from the lock or the pid file'})
    r.need(len(seen.get('kill', {})), 'signal to the running daemon')
    r.count(functions_analysed=stats['functions'], steps=stats['steps'])
