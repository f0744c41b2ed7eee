from absint import *
from core import Broken
from registry import prop
from must import Must, consts
import build, causes, locks

SIGNUM = dict(SIGHUP=1, SIGINT=2, SIGKILL=9, SIGPIPE=13, SIGTERM=15, SIGCHLD=17)
SIGNAME = {v: k for k, v in SIGNUM.items()}

# ------------------------------------------------------------ forked children
class Child(Rule):
    """prop: (who, flags)   who: '' unknown, 'c' child, 'p' parent"""
    def __init__(self, p, inl=()):
        self.p = p; self.forks = {}; self.calls = []; self.exits = []; self.execs = []; self.rets = []
        self.fk = p.cg.reaching(['fork', 'vfork'])
    def initial(self): return ('', frozenset())
    def inline(self, t, st, i, a):
        if t.name in self.p.cg.noreturn and st.prop[0] != 'c': return False
        return st.prop[0] == 'c' or t.name in self.fk
    @property
    def inline_noreturn(self): return True          # a helper that execs or _exits is part of the child
    def on_call(self, st, i, name, args):
        t = self.p.mod.funcs.get(name)
        if name in ('fork', 'vfork'):
            self.forks[i.id] = i
            s2 = st.copy(); s3 = st.copy()
            v = self.A.fresh(st, i, 'pid'); st.facts[v] = (1, INF, frozenset())
            st.prop = ('p', frozenset()); s2.prop = ('c', frozenset())
            return [(st, v), (s2, Z), (s3, ('i', -1))]
        if st.prop[0] != 'c' or not (t is None or t.decl): return None
        if name == 'dup2' and st.const(args[1]) is not None:
            a = st.copy(); a.prop = ('c', a.prop[1] | {st.const(args[1])})
            # a failed redirection: whatever the program then does, the standard stream was at least attempted
            b = st.copy(); b.prop = ('c', b.prop[1] | {('try', st.const(args[1]))})
            self.calls.append((i, name, st.lines(8)))
            return [(a, args[1]), (b, ('i', -1))]
        if name == 'close' and st.const(args[0]) is not None and 0 <= st.const(args[0]) <= 2:
            st.prop = ('c', st.prop[1] | {st.const(args[0])})
        if name in ('setpgid', 'setsid', 'setpgrp'): st.prop = ('c', st.prop[1] | {'pg'})
        self.calls.append((i, name, st.lines(8)))
        if name.startswith('exec') or name in ('fexecve',):
            self.execs.append((i, st.prop[1], st.lines(10)))
            return [(st, ('i', -1))]
        return None
    def on_exit(self, st, i, name, args): self.exits.append((i, name, st.prop[0], st.lines(10)))
    def on_return(self, st, f, rv, t):
        if not self.A.stack and st.prop[0] == 'c': self.rets.append((t, st.lines(10)))

SAFE = set('''_exit _Exit close dup dup2 dup3 execl execle execv execve fcntl fork getpid getppid getpgrp getuid geteuid getgid getegid kill open pipe
raise read write setpgid setsid setuid setgid sigaction sigaddset sigdelset sigemptyset sigfillset sigprocmask signal umask chdir waitpid wait time
alarm access dup sleep strlen strcpy strcmp memcpy memset tcsetpgrp nice __errno_location setpriority execvp sigismember setrlimit'''.split())

def fork_funcs(p):
    """functions of the serving phase that fork (all forks count, wherever the child code lives)"""
    conc, roots = locks.concurrent(p)
    return [p.mod.funcs[n] for n in sorted(conc) if n in p.cg.callees and 'fork' in p.cg.callees[n] or n in p.cg.callees and 'vfork' in p.cg.callees[n]]

def child_runs(p, tier):
    out = []
    for f in fork_funcs(p):
        # the child's code may be in the caller of a fork wrapper: analyse from callers too
        tops = [f.name]
        r = Child(p); a = Analysis(p.mod, r, p.cg, K=3); a.run(f.name)
        if r.rets:
            tops = [c for c in p.cg.callers.get(f.name, ()) if c != f.name] or tops
            if tops != [f.name]:
                for c in tops:
                    r = Child(p); a = Analysis(p.mod, r, p.cg, K=3); a.run(c); out.append((c, r))
                continue
        out.append((f.name, r))
    return out

@prop('P01', title='A forked child only prepares and executes its program', level='other',
      statement='While the daemon is serving consoles, a process it forks (a console program or a reset command) calls only async-signal-safe functions, and ends either by executing its program or by _exit(). It never returns into the daemon\'s code, runs exit handlers, logs, allocates memory or takes a lock.',
      quantifier=dict(over=['schedules', 'fault_sequences'], text='every path of every child between fork and exec, including each failure of a call in it'),
      why='The child of a threaded process inherits locks other threads held; a deadlock or a duplicated daemon shows only when another thread is in malloc or the logger at the moment of the fork, or when dup2/exec fails.',
      anchors=dict(files=['src/server-process.c', 'src/server-esc.c'], mechanism=[dict(name='fork ... exec or _exit', where='src/server-process.c:connect_process_obj, src/server-esc.c:perform_reset')]),
      technique='path-sensitive effect analysis of the child side of each fork over LLVM IR')
def P01(r, tier):
    r.rule('from the zero return of each fork in the serving phase, every call on every path is async-signal-safe, and every path ends in exec or _exit')
    p = build.load('conmand'); nf = set(); nc = set()
    for n, c in child_runs(p, tier):
        nf |= set(c.forks)
        bad = False
        for i, name, tr in c.calls:
            nc.add(i.id)
            if name.startswith('llvm.') or name in SAFE: continue
            bad = True; r.bad('unsafe-in-child', i, '%s() is called in a forked child; it is not async-signal-safe' % name, key='child:%s:%s' % (n, name), path=tr)
        for i, name, who, tr in c.exits:
            if who == 'c' and name not in ('_exit', '_Exit', 'abort'):
                bad = True; r.bad('child-exit', i, 'a forked child ends through %s(), which runs the daemon\'s exit handlers' % name, key='childexit:%s:%s' % (n, name), path=tr)
        for t, tr in c.rets:
            bad = True; r.bad('child-returns', t, 'a forked child returns into the daemon\'s own code', key='childret:%s' % n, path=tr)
        if not bad: r.ok('%s: %d calls in the child, all safe; every path ends in exec or _exit' % (n, len({i.id for i, _, _ in c.calls})))
    r.need(len(nf), 'forks in the serving phase', 2)
    r.count(forks=len(nf), child_calls=len(nc))

@prop('P04', title='Programs run on prepared standard streams', level='other',
      statement='Before a console program or a reset command is executed, its standard input, output and error have each been redirected away from the daemon\'s own (onto the console\'s socket, onto /dev/null, or closed). A console program is not executed when that redirection failed. A reset command is executed only after it has left the daemon\'s process group, so that it can be killed with all its children.',
      quantifier=dict(over=['programs', 'fault_sequences'], text='every path from each fork to each exec'),
      why='What a child inherits as its standard streams when a call fails is not observable from a client session.',
      anchors=dict(files=['src/server-process.c', 'src/server-esc.c'], mechanism=[dict(name='dup2 onto 0, 1, 2 and setpgid before exec', where='src/server-process.c, src/server-esc.c')]),
      technique='path-sensitive event-order analysis of the child side of each fork over LLVM IR')
def P04(r, tier):
    r.rule('at each exec in a child: descriptors 0, 1 and 2 redirected or closed on this path; for console programs only successful redirections count; for a shell command setpgid/setsid precedes')
    p = build.load('conmand'); ne = 0
    for n, c in child_runs(p, tier):
        for i, fl, tr in c.execs:
            ne += 1; ok = True
            shell = i.x == 'execl'
            for d in (0, 1, 2):
                if d in fl or (shell and ('try', d) in fl): continue
                ok = False; r.bad('unprepared-stream', i, 'descriptor %d of the daemon can still be in place when the program is executed' % d, key='stdio:%d:%s' % (d, i.x), path=tr)
            if shell and 'pg' not in fl:
                ok = False; r.bad('same-process-group', i, 'the command is executed in the daemon\'s own process group', key='pgrp:%s' % i.x, path=tr)
            if ok: r.ok('%s: exec with %s' % (i.where(), sorted(map(str, fl))))
    r.need(ne, 'exec paths', 2); r.count(exec_paths=ne)

# ------------------------------------------------------------ fatal exits (S01)
INTERNAL_EXT = {'malloc', 'calloc', 'realloc', 'strdup', 'time', 'gettimeofday', 'localtime_r', 'localtime', 'strftime', 'mktime', 'snprintf', 'vsnprintf', 'strlen', 'strlcpy', 'strlcat', 'cfsetispeed', 'cfsetospeed',
                'fcntl', 'fork', 'vfork', 'sigaction', 'getpid', 'strchr', 'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strrchr', 'strstr', 'memcpy', 'isatty', 'fileno', 'poll', 'getenv', '__ctype_b_loc', 'clock_gettime', 'free'}
def internal(name): return name in INTERNAL_EXT or name.startswith(('pthread_', 'llvm.', 'x_pthread'))

def exit_sites(p):
    """(instruction, noreturn callee, branches that decide it, unconditional) for every process-ending call of the serving phase"""
    conc, roots = locks.concurrent(p)
    kid = set(); other = set()
    for n, c in child_runs(p, 'quick'):
        for i, name, who, tr in c.exits: (kid if who == 'c' else other).add(i.id)
    NOKILL = {'pthread_exit'}
    for n in sorted(conc):
        f = p.mod.funcs.get(n)
        if f is None or f.decl or n in p.cg.noreturn: continue
        dead = None
        for i in f.insts():
            if i.op == 'call' and i.x in p.cg.noreturn and i.x not in NOKILL:
                if i.id in kid and i.id not in other: continue
                if dead is None: dead = causes.dead_blocks(p, f)
                br, un = causes.controlling(p, f, i.bb, dead)
                yield i, br, un, dead

def cause_set(p, i, br, dead):
    L = set(); f = i.fn
    for t in br:
        x = causes.leaves(p, f, t.ops[0], set())
        L |= x
        # an errno test refines the outcome of the call that set it
        b = t.bb; seen = set(); work = [b]
        if any(q[0] == 'errno' for q in x) and not any(q[0] == 'ext' for q in x):
            found = set(); n = 0
            while work and n < 40:
                b = work.pop(0); n += 1
                if b in seen: continue
                seen.add(b)
                hit = False
                for j in reversed(b.insts):
                    if j.op == 'call' and j.x and j.x not in ('__errno_location',) and not j.x.startswith('llvm.'):
                        t2 = p.mod.funcs.get(j.x)
                        if j is i: continue
                        hit = True
                        if t2 is None or t2.decl: found.add(('ext', j.x, j))
                        else: found |= causes.retcauses(p, t2, set(), 1) | {('fn', j.x)}
                        break
                if not hit: work += b.preds
            L |= found
    return L

@prop('S01', title='No client, device, peer or child can terminate the daemon', level='other',
      statement='Once the daemon is serving, the outcome of a call that talks to the outside world (accepting, reading, writing, opening, connecting or closing a socket, device, file, program or console connection, or looking up an address) never leads to a call that ends the process. Only failures of memory, threads, locks, the clock or the poll mechanism itself, a broken internal invariant, or a termination signal may end it.',
      quantifier=dict(over=['inputs', 'fault_sequences', 'histories'], text='every process-ending call reachable from the event loop or a client thread, and every external outcome that can decide it'),
      why='One misbehaving peer would take every console session down with it; each such path needs its own injected failure.',
      anchors=dict(files=['src/server.c', 'src/server-obj.c', 'src/server-sock.c', 'src/server-telnet.c', 'src/server-process.c', 'src/server-serial.c', 'src/server-unixsock.c', 'src/server-logfile.c', 'src/server-esc.c', 'src/server-ipmi.c', 'src/inevent.c', 'src/common.c', 'src/util-file.c', 'src/tpoll.c'],
                   mechanism=[dict(name='log_msg and recover, never log_err, on I/O failures', where='every *_obj source')]),
      technique='interprocedural control-dependence slicing of process-ending calls over LLVM IR')
def S01(r, tier):
    r.rule('for every call of the serving phase that cannot return (log_err, exit, abort), the branch conditions that decide it are sliced back to the external calls they depend on; none may be an environment operation')
    p = build.load('conmand'); n = 0; nl = 0
    for i, br, un, dead in exit_sites(p):
        n += 1; bad = False
        L = cause_set(p, i, br, dead); nl += len(L)
        for x in sorted(L, key=str):
            if x[0] == 'ext' and not internal(x[1]):
                if x[1] in ('read', 'write') and selfpipe(p, x[2]): continue
                bad = True
                r.bad('environment-kills-daemon', i, 'the outcome of %s() (%s) can decide this process-ending call' % (x[1], x[2].where()), key='exit:%s' % x[1])
        if not bad: r.ok('%s: %s() depends only on %s' % (i.where(), i.x, ', '.join(sorted({str(x[1]) for x in L})) or 'internal state'))
    r.need(n, 'process-ending calls in the serving phase', 10)
    r.count(process_ending_calls=n, causes=nl)

def selfpipe(p, i):
    """read/write on the poll set's own wake-up pipe (a pipe this process created for itself)"""
    f = i.fn
    o = i.ops[0]; d = f.defs.get(o[1]) if o[0] == '%' else None
    if d is None or d.op != 'load': return False
    a = d.ops[0]; g = f.defs.get(a[1]) if a[0] == '%' else None
    return p.fp.slot_of_addr(f, a) == ('f', 'tpoll.fd_pipe')

# ------------------------------------------------------------ signals
def sig_events(p):
    """instructions that set a disposition: id -> (signal, handler) with constants resolved at the outermost caller that knows them"""
    out = {}
    def walk(f, i, so, ho, d=0):
        s = consts1(p, f, so); h = consts1(p, f, ho)
        if s is not None and h is not None: out.setdefault(i.id, (i, s, h)); return
        # parameters of a wrapper: move to its callers
        for c in p.cg.sites.get(f.name, []):
            def up(o, v):
                if v is not None: return None
                return c.ops[f.params.index(o[1])] if o[0] == '%' and o[1] in f.params and f.params.index(o[1]) < len(c.ops) else o
            so2 = up(so, s); ho2 = up(ho, h)
            if d < 4: walk2(c, so2 if so2 is not None else ('i', s), ho2 if ho2 is not None else (('@', h) if isinstance(h, str) else ('i', h)), d + 1)
    def walk2(c, so, ho, d): walk(c.fn, c, so, ho, d)
    for i in p.cg.sites.get('sigaction', []):
        h = sa_handler(p, i)
        if h is not None: walk(i.fn, i, i.ops[0], h)
    for i in p.cg.sites.get('signal', []): walk(i.fn, i, i.ops[0], i.ops[1])
    return out

def consts1(p, f, o):
    if o[0] == 'i': return o[1]
    if o[0] == '@': return o[1]
    return None

def sa_handler(p, i):
    """operand stored in the sa_handler of the struct passed to sigaction"""
    f = i.fn; a = i.ops[1]
    if a[0] != '%': return None
    for j in f.insts():
        if j.op == 'store':
            q = j.ops[1]; d = f.defs.get(q[1]) if q[0] == '%' else None; n = 0; first = True
            while d is not None and d.op == 'getelementptr' and n < 4:
                if any(x != ('i', 0) for x in d.ops[1:]): first = False
                q = d.ops[0]; d = f.defs.get(q[1]) if q[0] == '%' else None; n += 1
            if q == a and first and j.ty == 'ptr': return j.ops[0]
    return None

def serve_calls(p):
    """calls in main after which threads or the event loop may run"""
    _, roots = locks.concurrent(p)
    m = p.mod.funcs['main']
    return [i for i in m.calls() if i.x in roots and i.x != 'main'] or [i for i in m.calls('pthread_create')]

def cyc(p, f):
    """strongly connected block sets of f (loops)"""
    idx = {}; low = {}; st = []; on = set(); out = []; k = [0]
    def go(b):
        idx[b] = low[b] = k[0]; k[0] += 1; st.append(b); on.add(b)
        for s in b.succs:
            if s not in idx: go(s); low[b] = min(low[b], low[s])
            elif s in on: low[b] = min(low[b], idx[s])
        if low[b] == idx[b]:
            c = set()
            while True:
                x = st.pop(); on.discard(x); c.add(x)
                if x is b: break
            if len(c) > 1 or b in b.succs: out.append(c)
    for b in f.blocks:
        if b not in idx: go(b)
    return out

HSAFE = SAFE | {'waitpid'}
class Errno(Rule):
    """does the handler leave errno as it found it?"""
    CL = {'_exit', 'getpid', '__errno_location', 'strlen', 'memcpy', 'memset'}
    def __init__(self, p): self.p = p; self.bad = []
    def initial(self): return 'clean'
    def on_load_fresh(self, st, i, a, v):
        if a == ('g', 'errno') and st.prop == 'clean': st.prop = ('saved', v)
    def on_call(self, st, i, name, args):
        t = self.p.mod.funcs.get(name)
        if (t is None or t.decl) and name not in self.CL and not name.startswith('llvm.'):
            st.prop = ('dirty', st.prop[1] if isinstance(st.prop, tuple) else None)
            st.mem.pop(('g', 'errno'), None)
            return [(st, self.A.fresh(st, i, 'ret'))]
    def on_store(self, st, i, a, v):
        if a == ('g', 'errno'):
            if isinstance(st.prop, tuple) and st.prop[1] == v: st.prop = ('saved', v)
            else: st.prop = ('dirty', None)
    def on_return(self, st, f, rv, t):
        if not self.A.stack and isinstance(st.prop, tuple) and st.prop[0] == 'dirty': self.bad.append((t, st.lines(8)))

@prop('P02', title='Signal handlers are async-signal-safe and leave errno alone', level='other',
      statement='The handlers of the signals the daemon survives (SIGCHLD, SIGHUP, SIGINT, SIGTERM) call only async-signal-safe functions, take no lock, and return with errno as they found it, so an interrupted read or write is never mistaken for a failed one.',
      quantifier=dict(over=['schedules'], text='a signal delivered between any two instructions of any thread'),
      why='The handler must run between a system call and the test of its errno, or while the interrupted code holds the allocator\'s lock, for the difference to show.',
      anchors=dict(files=['src/server.c'], mechanism=[dict(name='sig_chld_handler, sig_hup_handler, exit_handler', where='src/server.c')]),
      technique='effect analysis of handlers and path-sensitive errno preservation over LLVM IR')
def P02(r, tier):
    r.rule('all functions reachable from each handler are async-signal-safe; on every path errno is unchanged or restored from the value saved at entry')
    p = build.load('conmand'); ev = sig_events(p); hs = {}
    for i, s, h in ev.values():
        if isinstance(h, str) and s in SIGNAME: hs.setdefault(h, set()).add(SIGNAME[s])
    r.need(len(hs), 'handlers of survivable signals', 2)
    for h in sorted(hs):
        bad = False
        for n in sorted(p.reach_all([h])):
            t = p.mod.funcs.get(n)
            if (t is None or t.decl) and not n.startswith('llvm.') and n not in HSAFE:
                bad = True; r.bad('unsafe-handler', p.mod.funcs[h], '%s() can be called from the handler of %s; it is not async-signal-safe' % (n, '/'.join(sorted(hs[h]))), key='handler:%s' % n)
        e = Errno(p); a = Analysis(p.mod, e, p.cg); a.run(h)
        for t, tr in e.bad:
            bad = True; r.bad('errno-clobbered', t, 'the handler of %s can return with errno changed' % '/'.join(sorted(hs[h])), key='errno:%s' % '/'.join(sorted(hs[h])), path=tr)
        if not bad: r.ok('handler of %s (%s): safe calls only, errno preserved' % ('/'.join(sorted(hs[h])), h))
    r.count(handlers=len(hs))

@prop('S02', title='Signals are ignored, reaped or acted upon as documented', level='other',
      statement='Before the daemon opens its first console it has set SIGPIPE to be ignored (so writing to a closed peer is an ordinary error) and installed handlers for SIGCHLD, SIGHUP, SIGINT and SIGTERM; nothing changes them while it serves. The SIGCHLD handler reaps every child that has ended without waiting. SIGHUP, SIGINT and SIGTERM set a flag that every turn of the event loop tests: a signal that interrupts the wait reaches that test before the loop waits again, the termination flag ends the loop, and the SIGHUP flag is cleared only just before the log files are reopened and tested again after it, so that a SIGHUP that arrives meanwhile brings another reopening. A signal that arrives between the test and the wait ends the wait as well.',
      quantifier=dict(over=['schedules', 'histories'], text='every path from start-up to the event loop and every cycle of the event loop'),
      why='Needs a signal at a given moment; a missing SIGPIPE disposition needs a peer that closes between poll and write.',
      anchors=dict(files=['src/server.c', 'src/tpoll.c', 'src/util.c'], mechanism=[dict(name='setup_signals; mux_io', where='src/server.c'), dict(name='tpoll returns -1 on EINTR', where='src/tpoll.c')]),
      technique='must-happen-before dataflow, constant propagation and loop (cycle) analysis over LLVM IR')
def S02(r, tier):
    r.rule('disposition calls with their constant arguments happen on every path before the serving phase; none in it changes a survivable signal; every cycle of the loop through the wait reads each flag; on every path of the loop a clearing of the SIGHUP flag is followed by a reopening and none follows one, and the wait is not entered with a flag known set or not tested since the last reopening; the handlers, or a signal mask that the wait itself lifts, end a wait that begins after the test')
    p = build.load('conmand'); ev = sig_events(p)
    conc, roots = locks.concurrent(p)
    last = {}
    m = Must(p, lambda i: [('sig', ev[i.id][1], ev[i.id][2])] if i.id in ev else (),
             kill=lambda i: [('sig', ev[i.id][1], h) for h in {x[2] for x in ev.values()}] if i.id in ev else ())
    sc = serve_calls(p); r.need(len(sc), 'call that starts serving')
    opens = sorted(sc, key=lambda i: i.id)[0]
    at = m.at(opens) or frozenset()
    hand = {}
    for s, want in ((13, 1), (17, None), (1, None), (2, None), (15, None)):
        got = {e[2] for e in at if e[1] == s}
        if want is not None:
            if got == {want}: r.ok('%s is ignored on every path before serving' % SIGNAME[s])
            else: r.bad('sigpipe', opens, 'SIGPIPE is not certainly ignored when the daemon starts serving', key='sig:13')
        else:
            hs = {h for h in got if isinstance(h, str)}
            if len(hs) == 1: hand[s] = hs.pop(); r.ok('%s is handled by %s() on every path before serving' % (SIGNAME[s], hand[s]))
            else: r.bad('no-handler', opens, '%s has no certain handler when the daemon starts serving' % SIGNAME[s], key='sig:%d' % s)
    for i, s, h in ev.values():
        if i.fn.name in conc and (s in SIGNAME): r.bad('disposition-changed', i, 'the disposition of %s is changed while serving' % SIGNAME[s], key='resig:%d' % s)
    # (b) reaping
    if 17 in hand:
        hf = p.mod.funcs[hand[17]]
        fs = [p.mod.funcs[n] for n in p.cg.reach(hf.name) if n in p.cg.callees]
        ok = False; sites = []
        for f in fs:
            for i in f.calls('waitpid', 'wait4', 'wait3', 'waitid', 'wait'):
                sites.append(i)
                loop = any(i.bb in c for c in cyc(p, f))
                anyc = i.x in ('waitpid', 'wait4') and consts(p, f, i.ops[0]) == {-1}
                wk = {'waitpid': 2, 'wait4': 2, 'wait3': 1}.get(i.x)
                nohang = wk is not None and all(isinstance(c, int) and c & 1 for c in consts(p, f, i.ops[wk]))
                if not nohang: r.bad('handler-blocks', i, 'the SIGCHLD handler can wait for a child', key='chld:block'); break
                if loop and anyc:
                    # the loop is left only when the call reports nothing more
                    ok = ok or loopexit(p, f, i)
        if ok: r.ok('the SIGCHLD handler reaps every ended child without waiting')
        else: r.bad('children-not-reaped', sites[0] if sites else hf, 'the SIGCHLD handler does not reap every child that has ended', key='chld:reap')
    # (c) flags
    flags = {}
    for s in (1, 2, 15):
        if s not in hand: continue
        hf = p.mod.funcs[hand[s]]; g = set()
        mm = Must(p, lambda i: [('st', i.ops[1][1])] if i.op == 'store' and i.ops[1][0] == '@' and nonzero_store(i) else (), roots=(hf.name,))
        _, out = mm.flow(hf, frozenset(), None, 0)
        g = {e[1] for e in (out or ())}
        if not g: r.bad('no-flag', hf, 'the handler of %s does not set a flag on every path' % SIGNAME[s], key='flag:%d' % s)
        flags[s] = g
    wait_fns = {n for n in conc if n in p.cg.callees and ('poll' in p.cg.reach(n))}
    for n in sorted(roots):
        f = p.mod.funcs.get(n)
        if f is None or f.decl or 'poll' not in p.cg.reach(n): continue
        loopf = None
        # the function with the event loop: cycles through a call that waits
        for q in sorted(p.cg.reach(n)):
            g = p.mod.funcs.get(q)
            if g is None or g.decl or 'poll' in p.cg.callees.get(q, ()): continue
            for i in g.calls():
                if i.x in p.cg.callees and 'poll' in p.cg.callees[i.x] and any(i.bb in c for c in cyc(p, g)):
                    loopf = g; check_loop(r, p, g, i, flags)
        if loopf is None: r.bad('no-loop', f, 'no event loop around the wait was found', key='noloop')
    # (d) inside the waiting function an interrupted poll is not retried
    for i in p.cg.sites.get('poll', []):
        if i.fn.name not in conc: continue
        e = Eintr(p); a = Analysis(p.mod, e, p.cg, K=3); a.run(i.fn.name)
        if e.bad:
            for j, tr in e.bad[:2]: r.bad('wait-resumed', j, 'poll() is entered again after a signal interrupted it, before the caller could test its flags', key='eintr', path=tr)
        else: r.ok('%s: an interrupted wait returns to the event loop' % i.fn.name)
    # (e) no request is lost between its test, its clearing and the work
    hup = flags.get(1, set()); end = set().union(*[flags.get(s, set()) for s in (2, 15)])
    if hup:
        from files import log_openers
        o, d = log_openers(p); ro, rd = p.cg.reaching(o), p.cg.reaching(d); both = ro & rd
        flg = Flags(p, hup, end, ()); acts = both - flg.inl or (ro | rd) - flg.inl; topoll = p.cg.reaching({'poll', 'ppoll', 'select', 'pselect'}); toact = p.cg.reaching(acts) | acts
        todo = [g for g in p.funcs() if any(any(i.x in topoll for b in c for i in b.insts if i.op == 'call') and any(i.x in toact for b in c for i in b.insts if i.op == 'call') for c in cyc(p, g))]
        if not todo: r.bad('request-ignored', opens, 'no event loop reaches what reopens the log files', key='hup:ignored')
        for g in todo:
            x = Flags(p, hup, end, acts); a = Analysis(p.mod, x, p.cg, K=4); a.run(g.name)
            for rule, i, msg, tr in x.bad.values(): r.bad(rule, i, msg, path=tr)
            if not x.bad:
                r.need(x.n['clear'], 'places where the SIGHUP flag is cleared'); r.need(x.n['act'], 'reopenings in the event loop')
                r.ok('%s: the SIGHUP flag is cleared only with a reopening to follow, and no set flag is left for the next wait' % g.name)
    wakes = all(s in hand and p.cg.reach(hand[s]) & {'write', 'send', 'sem_post', 'siglongjmp', 'eventfd_write'} for s in (1, 2, 15))
    for i in p.cg.sites.get('poll', []):
        if i.fn.name not in conc: continue
        if wakes: r.ok('%s: the handlers themselves end the wait' % i.fn.name)
        else: r.bad('signal-window', i, 'a signal that arrives after its flag was tested and before poll() blocks does not end the wait: it is acted upon only when the next event comes', key='window:poll')
    r.count(disposition_sites=len(ev), flags=sum(len(v) for v in flags.values()))

class Flags(Rule):
    """what the event loop does with the flags the handlers set"""
    def __init__(self, p, hup, end, acts):
        self.p = p; self.hup = hup; self.end = end; self.acts = acts; self.bad = {}; self.n = dict(clear=0, act=0, wait=0)
        self.touch = {f.name for f in p.mod.funcs.values() if not f.decl and any(i.op in ('load', 'store') and i.ops[0 if i.op == 'load' else 1] in [('@', x) for x in hup | end] for i in f.insts())}
        self.inl = p.cg.reaching(self.touch) | self.touch
    def initial(self): return ('idle', None, None)
    def fail(self, rule, i, msg, st): self.bad.setdefault((rule, i.id), (rule, i, msg, st.lines(10)))
    def inline(self, t, st, i, a): return t.name in self.inl
    def on_load(self, st, i, a):
        if a[0] == 'g' and a[1] in self.hup | self.end: st.mem.pop(a, None)
    def on_call(self, st, i, name, args):
        ph, h, e = st.prop
        if name in self.acts:
            self.n['act'] += 1
            st.prop = ('late' if ph == 'clr' else 'act', None, e)
            return [(st, self.A.fresh(st, i))]
        t = self.p.mod.funcs.get(name)
        if name in self.inl: return None
        if name == 'poll' or (t is not None and not t.decl and 'poll' in self.p.cg.reach(name)):
            self.n['wait'] += 1
            if ph == 'clr': self.fail('request-lost', i, 'the loop can wait again after the SIGHUP flag was cleared with no reopening since', st)
            if ph == 'act': self.fail('flag-kept', i, 'the loop can wait again after reopening with the SIGHUP flag still set: it reopens again and again', st)
            if ph == 'late': self.fail('request-late', i, 'the loop can wait after a reopening without testing the SIGHUP flag again: a SIGHUP that arrived during it waits for the next event', st)
            if h is not None and self.nz(st, h): self.fail('request-ignored', i, 'the loop can wait again with the SIGHUP flag known set and no reopening', st)
            if e is not None and self.nz(st, e): self.fail('termination-ignored', i, 'the loop can wait again with the termination flag known set', st)
            st.prop = ('idle', None, None)
            return [(st, self.A.fresh(st, i, 'n'))]
        if name.startswith('tpoll_is_set'): return [(st, self.A.fresh(st, i))]
    def nz(self, st, v):
        if v[0] == 'i': return v[1] != 0
        f = st.facts.get(v)
        return f is not None and (f[0] > 0 or f[1] < 0 or 0 in f[2])
    def on_load_fresh(self, st, i, a, v):
        if a[0] != 'g': return
        ph, h, e = st.prop
        if a[1] in self.hup: st.prop = ('idle' if ph == 'late' else ph, v, e)
        elif a[1] in self.end: st.prop = (ph, h, v)
    def on_store(self, st, i, a, v):
        if a[0] == 'g' and a[1] in self.hup:
            ph, h, e = st.prop
            if v == Z:
                self.n['clear'] += 1
                if ph == 'act': self.fail('request-lost', i, 'the SIGHUP flag is cleared after the reopening: a SIGHUP that arrives during the reopening is lost', st)
                st.prop = ('clr', None, e)

def nonzero_store(i):
    return i.ops[0] != ('i', 0)

def loopexit(p, f, i):
    """every way out of the loop around the wait call tests its result"""
    for c in cyc(p, f):
        if i.bb not in c: continue
        ok = True
        for b in c:
            for s in b.succs:
                if s not in c:
                    L = causes.leaves(p, f, b.term.ops[0], set()) if b.term.ops else set()
                    if not any(x[0] == 'ext' and x[2] is i for x in L): ok = False
        return ok
    return False

class Eintr(Rule):
    def __init__(self, p): self.p = p; self.bad = []
    def initial(self): return ''
    def inline(self, t, st, i, a): return 'poll' in self.p.cg.reach(t.name)
    def on_call(self, st, i, name, args):
        if name in ('poll', 'ppoll'):
            if st.prop == 'e': self.bad.append((i, st.lines(8)))
            s2 = st.copy(); s2.prop = 'e'; s2.mem[('g', 'errno')] = ('i', 4)
            v = self.A.fresh(st, i, 'n'); st.facts[v] = (0, INF, frozenset())
            return [(st, v), (s2, ('i', -1))]
        if name == '__errno_location': return None
        if name.startswith('pthread_mutex'): return [(st, Z)]

def check_loop(r, p, g, wait, flags):
    # reads of each flag
    rd = {}
    for s, gs in flags.items():
        for fl in gs:
            b = set()
            for i in g.insts():
                if i.op == 'load' and i.ops[0] == ('@', fl): b.add(i.bb)
                elif i.op == 'call' and i.x in p.cg.callees:
                    if any(j.op == 'load' and j.ops[0] == ('@', fl) for j in p.mod.funcs[i.x].insts()): b.add(i.bb)
            rd[fl] = b
    for s, gs in sorted(flags.items()):
        hit = False
        for fl in gs:
            # a cycle through the wait that avoids every read of the flag
            seen = set(); work = list(wait.bb.succs)
            bad = False
            # position: reads in the wait's own block after/before it also count
            if not any(i.op == 'load' and i.ops[0] == ('@', fl) for i in wait.bb.insts):
                while work:
                    b = work.pop()
                    if b is wait.bb: bad = True; break
                    if b in seen or b in rd[fl]: continue
                    if any(i.op == 'call' and i.x in p.cg.noreturn for i in b.insts): continue
                    seen.add(b); work += b.succs
            if not bad: hit = True
        if hit: r.ok('every turn of the event loop tests the flag of %s before waiting again' % SIGNAME[s])
        elif gs:
            # allow: the cycle without a test is taken only when the wait was not interrupted
            r.bad('flag-not-tested', wait, 'the event loop can wait again after %s without testing its flag' % SIGNAME[s], key='loop:%d' % s)
        # the flag decides something
        for fl in gs:
            if s in (2, 15):
                ok = False
                for c in cyc(p, g):
                    if wait.bb not in c: continue
                    for b in c:
                        if b.term.op == 'br' and b.term.ops and any(x not in c for x in b.succs):
                            L = causes.leaves(p, g, b.term.ops[0], set())
                            if any(x == ('state', fl) for x in L): ok = True
                if ok: r.ok('the termination flag ends the event loop')
                else: r.bad('termination-ignored', wait, 'no branch on the termination flag leaves the event loop', key='term:%d' % s)

# ------------------------------------------------------------ going into the background
FG = 'server_conf.enableForeground'
class Detach(Rule):
    """prop: (role, events)  role: 'm' never forked, 'p1' the launcher, 'c1' its child, 'p2' / 'c2' after the second fork"""
    exit_k = 8; inline_noreturn = True
    EV = {'fork', 'setsid', 'chdir', 'dup2', 'log_set_err_pipe', 'daemon'}
    def __init__(self, p, serve):
        self.p = p; self.serve = serve; self.bad = {}; self.n = {}; self.origin = {}
        conc, _ = locks.concurrent(p)
        self.inl = {n for n in p.cg.reaching(self.EV) if n not in conc}
        self.lsn = p.cg.reaching({'listen'})
    def initial(self): return ('m', frozenset())
    def inline(self, t, st, i, a): return t.name in self.inl and not t.name.startswith('log_')
    def on_load_fresh(self, st, i, a, v): self.origin[v] = a
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def fail(self, rule, i, msg, st): self.bad.setdefault((rule, i.id, msg), (rule, i, msg, st.lines(14)))
    def add(self, st, *e): st.prop = (st.prop[0], st.prop[1] | set(e))
    def on_call(self, st, i, name, args):
        A = self.A; role, ev = st.prop
        if i.id in self.serve and not A.stack: self.served(st, i)
        if name == 'pipe':
            s2 = st.copy(); A.kill_under(st, args[0])
            for k, a in ((0, args[0]), (1, addr(args[0], ('[1]',)))):
                v = A.fresh(st, i, 'pipe%d' % k); st.facts[v] = (0, INF, frozenset()); A.write(st, a, v)
            return [(st, Z), (s2, ('i', -1))]
        if name == 'fork':
            self.seen('fork', i)
            if role == 'm' and not any(e[0] == 'errset' for e in ev): self.fail('no-error-path', i, 'the launcher forks before failures of the daemon are led back to it', st)
            s2, s3 = st.copy(), st.copy(); pr, ch = {'m': ('p1', 'c1'), 'c1': ('p2', 'c2')}.get(role, (role, role))
            v = A.fresh(st, i, 'pid'); st.facts[v] = (1, INF, frozenset())
            if role == 'c1' and ('sid',) not in ev: self.fail('no-session', i, 'the daemon gives up being a session leader before it became one', st)
            st.prop = (pr, ev); s2.prop = (ch, ev)
            return [(st, v), (s2, Z), (s3, ('i', -1))]
        if name == 'setsid':
            s2 = st.copy(); v = A.fresh(st, i, 'sid'); st.facts[v] = (1, INF, frozenset()); self.add(st, ('sid',))
            return [(st, v), (s2, ('i', -1))]
        if name == 'chdir':
            s2 = st.copy()
            if args[0][0] == 'g' and self.p.mod.cstr(('@', args[0][1])) == '/': self.add(st, ('cd',))
            return [(st, Z), (s2, ('i', -1))]
        if name in ('open', 'open64'):
            s2 = st.copy(); null = args[0][0] == 'g' and self.p.mod.cstr(('@', args[0][1])) == '/dev/null'
            v = A.fresh(st, i, 'null' if null and st.const(args[1]) is not None and st.const(args[1]) & 3 == 2 else 'fd'); st.facts[v] = (0, INF, frozenset())
            return [(st, v), (s2, ('i', -1))]
        if name == 'dup2':
            s2 = st.copy(); k = st.const(args[1])
            if k is not None and args[0][0] == 's' and args[0][3] == 'null': self.add(st, ('null', k))
            return [(st, args[1]), (s2, ('i', -1))]
        if name == 'close':
            if args[0][0] == 's' and args[0][3] in ('pipe0', 'pipe1'): self.add(st, ('closed', args[0][3]))
            s2 = st.copy(); return [(st, Z), (s2, ('i', -1))]
        if name == 'log_set_err_pipe':
            if args[0][0] == 's' and args[0][3] == 'pipe1': self.add(st, ('errset',))
            elif st.const(args[0]) is not None and role in ('c1', 'c2'):
                self.seen('released', i); self.add(st, ('released',))
                if ('listen',) not in ev: self.fail('early-success', i, 'the launcher is told of success before the daemon listens for clients', st)
            return [(st, None)]
        if name == 'read' and role == 'p1' and args[0][0] == 's' and args[0][3] == 'pipe0':
            self.seen('read', i)
            if ('closed', 'pipe1') not in ev: self.fail('waits-forever', i, 'the launcher waits for the daemon while it holds the writing end itself', st)
            if any(e in ev for e in (('eof',), ('bad',), ('fine',))): return [(st, A.fresh(st, i, 'n'))]
            out = [(st.copy(), ('i', -1))]
            s = st.copy(); self.add(s, ('eof',)); out.append((s, Z))
            for e, lo, hi in (('bad', 0, 127), ('fine', -128, -1)):
                s = st.copy(); self.add(s, (e,)); v = A.fresh(s, i, e); s.facts[v] = (lo, hi, frozenset()); A.write(s, args[1], v)
                out.append((s, ('i', 1)))
            return out
        t = self.p.mod.funcs.get(name)
        if (name == 'listen' or name in self.lsn) and not (t is not None and not t.decl and self.inline(t, st, i, args)): self.add(st, ('listen',))
    def on_exit(self, st, i, name, args):
        role, ev = st.prop
        if role != 'p1' or name not in ('exit', '_exit'): return
        self.seen('exit', i); k = st.const(args[0])
        ended = ('eof',) in ev or ('fine',) in ev
        if k == 0 and not ended:
            self.fail('false-success', i, 'the launcher reports success ' + ('although the daemon reported that it failed' if ('bad',) in ev else 'without waiting for the daemon'), st)
        if k != 0 and ended: self.fail('false-failure', i, 'the launcher reports a failure although the daemon started', st)
    def served(self, st, i):
        role, ev = st.prop; self.seen('serve', i)
        if role == 'm':
            if not any(last_of(a) == FG and (x[1] != 0 if x[0] == 'i' else st.nonzero(x)) for a, x in st.mem.items()): self.fail('not-detached', i, 'the daemon may serve in the foreground without having been told to', st)
            return
        if role != 'c2': self.fail('not-detached', i, 'the daemon serves %s' % ('after only one fork: it is still a session leader' if role == 'c1' else 'in the process that was started'), st); return
        self.seen('bg', i)
        for e, what in ((('sid',), 'it is still in the session of its launcher'), (('cd',), 'it keeps the directory it was started in in use'), (('null', 0), 'its standard input is still that of its launcher'),
                        (('null', 1), 'its standard output is still that of its launcher'), (('null', 2), 'its standard error is still that of its launcher'),
                        (('released',), 'a failure is still reported to a launcher'), (('closed', 'pipe1'), 'its launcher is never released')):
            if e not in ev: self.fail('not-detached', i, 'the daemon serves in the background although ' + what, st)

@prop('P07', title='A background daemon detaches itself and its launcher tells the truth', level='other',
      statement='Unless told to run in the foreground, the daemon serves only from a process in a session of its own that is not its leader, in the root directory, with standard input, output and error on /dev/null. The process that was started waits for it: it reports success only once the daemon listens for clients, and failure, with the message, if the daemon gave up before.',
      quantifier=dict(over=['fault_sequences', 'configurations'], text='every path from main() to the serving phase, with each system call succeeding or failing, and every path of the launcher'),
      why='A start-up script relies on the exit status; a daemon that keeps its terminal, directory or session shows only when the login ends or the file system is unmounted, and a lost error report needs a failing start.',
      anchors=dict(files=['src/server.c', 'src/log.c'], mechanism=[dict(name='begin_daemonize / end_daemonize', where='src/server.c')]),
      technique='path-sensitive typestate analysis of main() over LLVM IR, following parent and children of each fork')
def P07(r, tier):
    r.rule('at the first serving call: the path holds no fork and enableForeground is known set, or it is the second child and did setsid() between the forks, chdir("/"), dup2() of an open /dev/null onto 0, 1 and 2, and closed the status pipe after listen(); in the first parent exit(0) only after end-of-file or a non-error status was read from the pipe with the writing end closed, exit(non-zero) otherwise')
    p = build.load('conmand')
    sc = sorted(serve_calls(p), key=lambda i: i.id)
    x = Detach(p, {i.id for i in sc}); a = Analysis(p.mod, x, p.cg, K=24, max_steps=200000); a.run('main')
    for rule, i, msg, tr in x.bad.values(): r.bad(rule, i, msg, key='%s:%s' % (rule, msg[:60]), path=tr)
    for k, what, lo in (('fork', 'forks of the launcher', 2), ('bg', 'background paths to the serving phase', 1), ('read', 'reads of the daemon\'s status', 1), ('exit', 'ends of the launcher', 1), ('released', 'release of the launcher', 1)):
        r.need(len(x.n.get(k, {})), what, lo)
        if not x.bad:
            for i in x.n.get(k, {}).values(): r.ok('%s: %s' % (i.where(), what))
    r.count(steps=a.steps)
