from absint import *
from core import Broken
from registry import prop
import build

LOCK, UNLOCK, TRY = 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'

class Held(Rule):
    """prop = frozenset of held lock addresses"""
    def __init__(self, inl): self.inl = inl; self.bad = []; self.acq = []; self.rel = []
    def initial(self): return frozenset()
    def inline(self, t, st, i, a): return t.name in self.inl
    def on_call(self, st, i, name, args):
        if name == LOCK or name == TRY:
            if name == TRY:
                s2 = st.copy(); st.prop = st.prop | {args[0]}
                return [(st, Z), (s2, ('i', 16))]
            self.acq.append((i, args[0], st.prop))
            if args[0] in st.prop: self.bad.append(('double', i, 'a mutex this path already holds is taken again (self-deadlock)', st.lines(12)))
            st.prop = st.prop | {args[0]}; return [(st, Z)]
        if name == UNLOCK:
            self.rel.append(i)
            if args[0] not in st.prop: self.bad.append(('unheld', i, 'a mutex is released that this path does not hold', st.lines(12)))
            st.prop = st.prop - {args[0]}; return [(st, Z)]
        if name == 'pthread_cond_wait': return [(st, Z)]
        if name == 'pthread_exit' or name == 'siglongjmp':
            if st.prop: self.bad.append(('leak', i, 'the thread ends while a mutex is held', st.lines(12)))
    def on_return(self, st, f, rv, t):
        if not self.A.stack and st.prop:
            self.bad.append(('leak', t, 'the function returns with a mutex still held', st.lines(12)))

def order_bottom_up(p, names):
    order = []; seen = set()
    def visit(n):
        if n in seen: return
        seen.add(n)
        for c in sorted(p.cg.callees.get(n, ())): visit(c)
        order.append(n)
    for n in sorted(names): visit(n)
    return [n for n in order if n in names]

def held_analysis(p, tier, rule=Held):
    """modular: functions that are not lock-neutral are inlined in their callers"""
    lk = p.cg.reaching([LOCK, UNLOCK, TRY])
    names = {f.name for f in p.funcs() if f.name in lk}
    inl = set(); viol = []; res = {}
    for n in order_bottom_up(p, names):
        r = rule(inl); a = Analysis(p.mod, r, p.cg, K=3 if tier == 'quick' else 8)
        a.run(n); res[n] = (r, a)
        if r.bad:
            # non-neutral function: a lock wrapper whose callers are checked instead
            kinds = {b[0] for b in r.bad}
            callers = [c for c in p.cg.callers.get(n, ()) if c != n]
            direct = {i.x for i in p.mod.funcs[n].calls() if i.x in (LOCK, UNLOCK)} | {c for c in p.cg.callees[n] if c in inl}
            wrapper = kinds <= {'leak', 'unheld'} and callers and n not in p.cg.addr_taken and not (p.mod.funcs[n].calls() and _both(p, n, inl))
            if wrapper: inl.add(n)
            else: viol += r.bad
    return res, viol, inl, names

def _both(p, n, inl):
    """does n itself both acquire and release (so that it should be neutral)?"""
    a = r = False
    for i in p.mod.funcs[n].calls():
        if i.x == LOCK: a = True
        elif i.x == UNLOCK: r = True
        elif i.x in inl:
            b = _effects(p, i.x, set())
            a |= 'a' in b; r |= 'r' in b
    return a and r
def _effects(p, n, seen):
    s = set()
    if n in seen: return s
    seen.add(n)
    for i in p.mod.funcs[n].calls():
        if i.x == LOCK: s.add('a')
        elif i.x == UNLOCK: s.add('r')
        elif i.x in p.cg.callees and i.x in p.mod.funcs and not p.mod.funcs[i.x].decl: s |= _effects(p, i.x, seen)
    return s

@prop('L01', title='Every mutex taken is released exactly once on every path', level='other',
      statement='In the daemon and in the client, every thread that takes a mutex releases that same mutex on every way out of the operation that took it, including every error path. No thread takes a mutex it already holds, and none releases a mutex it does not hold.',
      quantifier=dict(over=['schedules', 'inputs', 'fault_sequences'], text='every path through every function of both programs, including error returns that only an allocation, socket or console failure reaches'),
      why='A leaked or doubly-taken mutex hangs the daemon only when the particular error path runs; the sharness tests start the daemon and run a handful of commands without injected failures.',
      anchors=dict(files=['src/server-obj.c', 'src/server-esc.c', 'src/server-sock.c', 'src/server-ipmi.c', 'src/tpoll.c', 'src/list.c', 'src/util-net.c', 'src/util-str.c'],
                   mechanism=[dict(name='x_pthread_mutex_lock / x_pthread_mutex_unlock pairs', where='src/wrapper.h and every user')]),
      technique='path-sensitive typestate analysis of LLVM IR (interprocedural property simulation)')
def L01(r, tier):
    r.rule('typestate per lock address: lock only when free, unlock only when held, free at every return; a function with a net effect is a wrapper and is expanded in its callers')
    for prog in ('conmand', 'conman'):
        p = build.load(prog)
        res, viol, inl, names = held_analysis(p, tier)
        sites = {i.id: i for n in res for i, _, _ in res[n][0].acq}
        r.count(functions_analysed=len(res), lock_sites=len(sites), unlock_sites=len({i.id for n in res for i in res[n][0].rel}), steps=sum(a.steps for _, a in res.values()))
        if prog == 'conmand': r.need(len(sites), 'mutex acquisitions in the daemon', 10)
        badsites = set()
        for k, i, msg, tr in viol:
            r.bad('lock-' + k, i, msg, path=tr); badsites.add(i.fn.name)
        for n in res:
            if n not in badsites: r.ok('%s: %s is lock-balanced on every path' % (prog, n))

# --------------------------------------------------------------- L02 ordering
def cls(a): return last_of(a) or a[-1]

BLOCKING = {'poll', 'ppoll', 'select', 'pselect', 'epoll_wait', 'sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'connect', 'accept', 'accept4',
            'wait', 'waitpid', 'wait3', 'wait4', 'waitid', 'system', 'pclose', 'getaddrinfo', 'getnameinfo', 'gethostbyname', 'gethostbyaddr', 'gethostbyname_r', 'gethostbyaddr_r',
            'pthread_join', 'pause', 'sigsuspend', 'sigwait', 'tcdrain', 'ipmiconsole_engine_submit_block', 'ipmiconsole_engine_teardown', 'hosts_ctl', 'fgets', 'getchar', 'recv', 'flock', 'lockf', 'pthread_cond_wait', 'sem_wait'}
RESOLVER = {'gethostbyname', 'gethostbyaddr'}

class Calls(Held):
    def __init__(self, inl): super().__init__(inl); self.calls = []
    def on_call(self, st, i, name, args):
        if st.prop and name not in (LOCK, UNLOCK, TRY): self.calls.append((i, name, st.prop))
        return super().on_call(st, i, name, args)
    def on_indirect(self, st, i, cv, args):
        if st.prop: self.calls.append((i, None, st.prop))

@prop('L02', title='Mutexes nest in one order and are never held across a wait', level='other',
      statement='The order in which the daemon\'s threads nest its mutexes has no cycle, so no two threads can wait for each other forever. No call that can wait for a peer, a child process, a file lock or the passage of time is made while a mutex is held (the name-lookup mutex, which only guards the lookup itself, excepted), and timer callbacks run with no timer mutex held.',
      quantifier=dict(over=['schedules'], text='every interleaving of the event-loop thread and the per-client threads; every pair of lock acquisitions on any call path'),
      why='A lock-order deadlock needs two threads to meet in a window of instructions; the tests run one client at a time.',
      anchors=dict(files=['src/tpoll.c', 'src/list.c', 'src/server-obj.c', 'src/server-ipmi.c', 'src/server-sock.c', 'src/util-net.c'],
                   mechanism=[dict(name='tpoll() drops its mutex around poll() and each callback', where='src/tpoll.c:tpoll'), dict(name='buffer lock before poll-set lock', where='src/server-obj.c:write_obj_data')]),
      technique='interprocedural lock-order graph and effect analysis over LLVM IR')
def L02(r, tier):
    r.rule('lock-order graph over lock classes (field or global of the mutex), edges from every acquisition and every call made while holding; must be acyclic; no blocking call reachable under a lock')
    p = build.load('conmand')
    res, viol, inl, names = held_analysis(p, tier, Calls)
    acq = {}
    for n, (rr, a) in res.items(): acq[n] = {cls(x) for _, x, _ in rr.acq}
    edges = {}; nblock = 0
    def edge(h, c, i, how): edges.setdefault((h, c), []).append((i, how))
    reach = {}
    for n, (rr, a) in res.items():
        for i, x, held in rr.acq:
            for h in held:
                if h != x: edge(cls(h), cls(x), i, 'acquires here')
        for i, name, held in rr.calls:
            # element destructors of a container: the containers they touch belong to the element
            destructor = name is None and 'list.fDel' in {s[1] for s in p.fp.sources(i.fn, i.ops[-1]) if isinstance(s, tuple) and s[0] == 'f'}
            for t in ([name] if name else sorted(p.fp.targets(i))):
                if t not in reach: reach[t] = p.reach_all([t]) if t in p.mod.funcs else {t}
                for q in reach[t]:
                    for c in acq.get(q, ()):
                        for h in held:
                            if destructor and cls(h) == c == 'list.mutex': continue
                            edge(cls(h), c, i, 'calls %s, which reaches %s' % (t, q))
                    if q in BLOCKING:
                        for h in held:
                            if q in RESOLVER and h[0] == 'g': continue
                            nblock += 1
                            r.bad('blocking-under-lock', i, '%s() can be reached (via %s) while %s is held' % (q, t, cls(h)), key='block@%s:%s:%s' % (i.fn.src_name, q, cls(h)))
    # cycles
    nodes = {x for e in edges for x in e}
    succ = {n: {b for a, b in edges if a == n} for n in nodes}
    def reachable(a):
        seen = set(); w = [a]
        while w:
            for y in succ[w.pop()]:
                if y not in seen: seen.add(y); w.append(y)
        return seen
    for (a, b), why in sorted(edges.items(), key=str):
        if a in reachable(b) or a == b:
            for i, how in why[:3]:
                r.bad('lock-order-cycle', i, 'takes %s while holding %s (%s), and elsewhere the reverse order is possible' % (b, a, how), key='order@%s:%s:%s' % (i.fn.src_name, a, b))
        else: r.ok('%s -> %s (%d sites) is not part of a cycle' % (a, b, len(why)))
    for n in res: r.ok('no blocking call is reachable under a lock in %s' % n)
    r.need(len(edges), 'lock-order edges', 3)
    r.count(functions_analysed=len(res), lock_classes=len(nodes), order_edges=len(edges), held_call_sites=sum(len(x.calls) for x, _ in res.values()))

# --------------------------------------------------------------- L03 guarded-by
def concurrent(p):
    """functions that may run while more than one thread exists"""
    pc = p.cg.sites.get('pthread_create', [])
    if not pc: raise Broken('no thread is created any more')
    roots = set()
    for i in pc:
        for o in i.ops:
            if o[0] == '@' and o[1] in p.mod.funcs: roots.add(o[1])
    up = p.cg.reaching(['pthread_create'])
    for c in p.cg.callees.get('main', ()):
        if c in up: roots.add(c)
    if 'pthread_create' in p.cg.callees.get('main', ()): roots.add('main')
    return p.reach_all(roots), roots

GUARD = {}
for f in ('bufInPtr', 'bufOutPtr', 'buf', 'gotBufWrap'): GUARD['base_obj.' + f] = 'base_obj.bufLock'
for f in ('fd_array', 'num_fds_alloc', 'num_fds_used', 'max_fd', 'timers_active', 'timers_next_id', 'is_blocked', 'is_signaled', 'is_realloced'):
    GUARD['tpoll.' + f] = 'tpoll.mutex'
for f in ('head', 'tail', 'count', 'iNext'): GUARD['list.' + f] = 'any:list.mutex'
for f in ('pos', 'prev', 'iNext'): GUARD['listIterator.' + f] = 'any:list.mutex'
for f in ('data', 'next'): GUARD['listNode.' + f] = 'any:list.mutex'
for f in ('state', 'timer', 'delay'): GUARD['ipmi_obj.' + f] = 'w:ipmi_obj.mutex'
GUARD['client_obj.timeLastRead'] = 'up:base_obj.bufLock'       # the mutex of the object it is part of

def gkey(p, i, e):
    if i.op == 'load':
        sk = p.sinks(i)
        if sk == {'poll'}: return 'guard:%s->poll' % e
    return 'guard@%s:%s' % (i.fn.src_name, e)

class Guard(Held):
    def __init__(self, p, inl):
        super().__init__(inl); self.p = p; self.acc = []; self.seen = 0; self.own = set()
        self.makers = {f.name for f in p.funcs() if any(True for _ in f.calls('pthread_mutex_init'))}
        void = {n for n in self.makers if p.mod.funcs[n].retty == 'void'}
        self.makers = {n for n in self.makers | {f.name for f in p.funcs() if any(True for _ in f.calls(*void))} if p.mod.funcs[n].retty == 'ptr'} if void else self.makers
    def see(self, st, i, a, w):
        pth = path_of(a); b = base_of(a)
        if b[0] in ('al',) or b == UNDEF: return
        for k, e in enumerate(pth):
            want = GUARD.get(e)
            if want is None: continue
            if want.startswith('w:'):
                if not w: return
                want = want[2:]
            if b[0] == 's' and b[3] == 'new': return
            self.seen += 1
            if want.startswith('up:'):
                want = want[3:]; k = next((j for j in range(k + 1) if pth[j].startswith('base_obj.')), k)
            if want.startswith('any:'):
                want = want[4:]
                if any(last_of(h) == want or (h[0] == 'g') for h in st.prop): return
            else:
                lk = addr(b, pth[:k] + (want,))
                if lk in st.prop: return
                if e == 'list.iNext' and any(h[0] == 'g' for h in st.prop): return
            self.acc.append((e, want, i, st.lines(10), addr(b, pth[:k])))
            return
    def on_load(self, st, i, a):
        if '.#bf' in last_of(a): return
        self.see(st, i, a, False)
    def on_store(self, st, i, a, v): self.see(st, i, a, True)
    def on_call(self, st, i, name, args):
        if name in ('pthread_mutex_init', 'pthread_mutex_destroy'):
            # the creator or destroyer of the object: nobody else can reach it
            self.own.add(addr(base_of(args[0]), path_of(args[0])[:-1])); return None
        if name in self.makers and name not in self.inl: return [(st, self.A.fresh(st, i, 'new'))]        # not published yet
        t = self.p.mod.funcs.get(name)
        if t is None or t.decl:
            for x in args:
                if x[0] == 'a' and x[2] and x[2][-1] in GUARD and name not in (LOCK, UNLOCK): self.see(st, i, x, True)
        return super().on_call(st, i, name, args)

@prop('L03', title='Shared buffers, poll sets and lists are touched only under their mutex', level='other',
      statement='While client threads can exist, the read and write positions and contents of every object\'s circular buffer, the poll set with its timers, and the nodes and iterators of every shared list are read or changed only by a thread holding the mutex of that very buffer, poll set or list. The time a client last typed, which other clients are told, is read and changed only under the mutex of that client. The connection state and retry timer of an IPMI console are likewise changed only under its mutex.',
      quantifier=dict(over=['schedules'], text='every interleaving of the event loop with any number of client threads; every access site on every call path'),
      why='A data race corrupts a buffer only in a particular interleaving; the tests use one client at a time and run no race detector.',
      anchors=dict(files=['src/server-obj.c', 'src/server-esc.c', 'src/server-sock.c', 'src/tpoll.c', 'src/list.c', 'src/server-ipmi.c'],
                   mechanism=[dict(name='bufLock', where='src/server.h:base_obj'), dict(name='tpoll mutex', where='src/tpoll.c'), dict(name='list mutex', where='src/list.c'), dict(name='ipmi mutex', where='src/server-ipmi.c')]),
      technique='guarded-by (lockset) analysis over LLVM IR with symbolic object identity')
def L03(r, tier):
    r.rule('each access to a guarded field of object X happens with X\'s own mutex in the lockset; helper functions are checked in the context of each caller; objects still private to their creator are exempt')
    p = build.load('conmand')
    conc, roots = concurrent(p)
    lk = p.cg.reaching([LOCK, UNLOCK])
    inl = set(); touched = 0
    # lock wrappers first
    _, _, wrappers, _ = held_analysis(p, tier)
    inl |= wrappers
    for n in order_bottom_up(p, {f.name for f in p.funcs()}):
        if n not in conc or n in wrappers: continue
        g = Guard(p, inl); a = Analysis(p.mod, g, p.cg, K=3 if tier == 'quick' else 8); a.run(n)
        touched += g.seen
        g.acc = [x for x in g.acc if x[4] not in g.own]
        if not g.seen: continue
        if g.acc:
            callers = [c for c in p.cg.callers.get(n, ()) if c != n and c in conc]
            if callers and n not in p.cg.addr_taken and n not in roots:
                inl.add(n); r.ok('%s: accesses depend on the caller\'s lock; checked in %s' % (n, ', '.join(sorted(callers)))); continue
            for e, want, i, tr, _ in g.acc:
                r.bad('unguarded', i, '%s is accessed without %s of the same object held (entered from %s)' % (e, want, n), key=gkey(p, i, e), path=tr)
        else: r.ok('%s: every guarded access (%d) under the right mutex' % (n, g.seen))
    r.need(touched, 'guarded accesses', 40)
    r.count(concurrent_functions=len([n for n in conc if n in p.mod.funcs and not p.mod.funcs[n].decl]), guarded_accesses=touched, guarded_fields=len(GUARD))

# --------------------------------------------------------------- L04 library calls that are not thread-safe
# what they return is kept in storage the functions of a group share
NONRE = {}
for g, ns in dict(hostent='gethostbyname gethostbyname2 gethostbyaddr gethostent sethostent', tm='localtime gmtime ctime asctime', strtok='strtok', inet='inet_ntoa', passwd='getpwuid getpwnam getlogin', group='getgrgid getgrnam',
                  service='getservbyname getservbyport', tty='ttyname', dir='readdir', tmp='tmpnam', lgamma='lgamma', env='setenv putenv unsetenv', glob='wordexp').items():
    for n in ns.split(): NONRE[n] = g

class NonRe(Held):
    def __init__(self, p, inl): super().__init__(inl); self.p = p; self.acc = []; self.sites = {}; self.res = {}
    @staticmethod
    def org(v):
        while v[0] == 'old': v = v[1]
        return v
    def use(self, st, i, g, what):
        held = frozenset(h for h in st.prop if base_of(h)[0] == 'g')
        self.sites.setdefault(g, {}).setdefault((i.id, what), (i, []))[1].append(held)
        if not held: self.acc.append((g, what, i, st.lines(10)))
    def on_load(self, st, i, a):
        g = self.res.get(self.org(base_of(a)))
        if g: self.use(st, i, g, 'the storage shared by %s() is read' % g[1])
    def on_call(self, st, i, name, args):
        out = super().on_call(st, i, name, args)
        t = self.p.mod.funcs.get(name)
        if name in NONRE and (t is None or t.decl):
            g = (NONRE[name], name); self.use(st, i, g, '%s() is called' % name)
            v = self.A.fresh(st, i, 'shared'); self.res[v] = g
            return [(st, v)]
        if not (t is not None and not t.decl and name in self.inl):
            for x in args:
                g = self.res.get(self.org(base_of(x))) if x and x[0] != 'i' else None
                if g: self.use(st, i, g, 'the storage shared by %s() is read' % g[1])
        return out

@prop('L04', title='Library calls that share storage are serialised', level='other',
      statement='While client threads can exist, a library function that returns its result in storage shared by all threads (as gethostbyname(), gethostbyaddr() and localtime() do) is called only with a mutex held, the same one for every function that shares the storage, and that mutex stays held until the result has been copied.',
      quantifier=dict(over=['schedules'], text='every interleaving of client threads and the event loop; every call of such a function reachable once threads exist'),
      why='Two clients that connect at the same moment would be logged, and checked against the access rules, under the name of one another; no test connects two at once.',
      anchors=dict(files=['src/util-net.c', 'src/util-str.c'], mechanism=[dict(name='hostentLock', where='src/util-net.c'), dict(name='localtimeLock', where='src/util-str.c')]),
      technique='lockset analysis over LLVM IR with tracking of the pointers returned')
def L04(r, tier):
    r.rule('at each call of a function in the table of functions that return shared storage, and at each load through the pointer returned or call that is handed it: some global mutex is held, and the intersection over all of those of one storage is not empty; helpers are checked in the context of each caller')
    p = build.load('conmand'); conc, roots = concurrent(p)
    _, _, wrappers, _ = held_analysis(p, tier); inl = set(wrappers); up = p.cg.reaching(set(NONRE)); groups = {}; n = 0
    for f in order_bottom_up(p, {f.name for f in p.funcs()}):
        if f not in conc or f in wrappers or f not in up: continue
        direct = any(i.x in NONRE or i.x in inl for i in p.mod.funcs[f].calls())
        if not direct: continue
        g = NonRe(p, inl); a = Analysis(p.mod, g, p.cg, K=3 if tier == 'quick' else 8); a.run(f)
        if not g.sites: continue
        if g.acc:
            callers = [c for c in p.cg.callers.get(f, ()) if c != f and c in conc]
            if callers and f not in p.cg.addr_taken and f not in roots: inl.add(f); continue
            for k, what, i, tr in g.acc: r.bad('unserialised', i, '%s with no mutex held that serialises it (entered from %s)' % (what, f), key='%s:%s' % (k[1], f), path=tr)
        for k, d in g.sites.items():
            for (_, what), (i, hs) in d.items(): groups.setdefault(k[0], []).append((i, what, frozenset.intersection(*hs))); n += 1
    for g, l in sorted(groups.items()):
        held = [h for _, _, h in l if h]
        common = frozenset.intersection(*held) if held else frozenset()
        for i, what, h in l:
            if h and not common: r.bad('mutex', i, '%s under another mutex than elsewhere' % what, key='%s:mutex' % g)
            elif h: r.ok('%s: %s under %s' % (i.where(), what, ', '.join(sorted(str(x[1]) for x in common))))
    if not n: r.ok('no function that returns shared storage is called once threads exist')
    r.count(concurrent_functions=len([f for f in conc if f in p.mod.funcs and not p.mod.funcs[f].decl]), uses=n, functions_in_table=len(NONRE))
