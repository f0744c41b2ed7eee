from absint import *
from core import Broken
from registry import prop
from fdrules import *
import fdrules, build

# ---------------------------------------------------------------- close-on-exec
class Cloexec(FdRule):
    def leftover(self, st, at, msg, local=False):
        for v, a in st.prop:
            if 'c' not in a and not (st.fact(v)[1] <= 2):
                self.bad.append(dict(site=self.site_of(v), at=at, msg=msg, local=local, path=st.lines(12)))
    def on_call(self, st, i, name, args):
        if name == 'pthread_create': self.leftover(st, i, 'is still inheritable when another thread takes over', True)
        return FdRule.on_call(self, st, i, name, args)
    def on_exec(self, st, i): self.leftover(st, i, 'is still inheritable when a program is executed', True)
    def on_return(self, st, f, rv, t):
        if not self.A.stack: self.leftover(st, t, 'is neither closed nor marked close-on-exec')
    def on_exit(self, st, i, name, args):
        if self.A.stack or name in ('_exit',): return
        if name == 'exit' and self.A.root == 'main' and st.const(args[0]) == 0: self.on_return(st, None, None, i)

def creator_funcs(p, conc=None):
    return [f.name for f in p.funcs() if p.cg.callees[f.name] & CREATORS]

@prop('F01', title='No daemon descriptor leaks into the programs it executes', level='other',
      statement='Every descriptor the daemon opens (sockets, accepted client connections, devices, log files, pipes, inotify, configuration and pid files) is either closed again or marked close-on-exec by the code that obtained it, before control reaches anything that can execute a program or hand the descriptor to another thread. Console programs and reset commands therefore inherit only the standard streams prepared for them.',
      quantifier=dict(over=['programs', 'fault_sequences', 'schedules'], text='every descriptor-creating call in the daemon, on every path from it, whatever else fails'),
      why='A leaked descriptor is invisible to a client; the tests never inspect the descriptor table of a child process.',
      anchors=dict(files=['src/server.c', 'src/server-obj.c', 'src/server-process.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-serial.c', 'src/server-ipmi.c', 'src/server-logfile.c', 'src/server-test.c', 'src/inevent.c', 'src/tpoll.c', 'src/server-conf.c'],
                   mechanism=[dict(name='set_fd_closed_on_exec', where='src/util-file.c')]),
      technique='resource-attribute dataflow (path-sensitive, interprocedural) over LLVM IR')
def F01(r, tier):
    r.rule('each creator call (open, socket, accept, pipe, ...) starts an obligation discharged by close or FD_CLOEXEC on every path; undischarged obligations move to the callers; none may survive to an exec, a thread creation or an entry point')
    p = build.load('conmand')
    viol, stats, rules = lift(p, Cloexec, creator_funcs(p), K=4 if tier == 'quick' else 8)
    sites = {}
    for n, x in rules: sites.update(x.sites)
    r.need(len(sites), 'descriptor creation sites', 12)
    badsites = set()
    for b in viol:
        badsites.add(b['site'].id if b['site'] else None)
        r.bad('inheritable-descriptor', b['site'] or b['at'], 'the descriptor created here %s (%s)' % (b['msg'], b['at'].where()), path=b['path'])
    for k, (i, name) in sites.items():
        if k not in badsites: r.ok('%s at %s: close-on-exec or closed on every path' % (name, i.where()))
    r.count(functions_analysed=stats['functions'], creation_sites=len(sites), steps=stats['steps'])

# ---------------------------------------------------------------- non-blocking
FDFIELDS = {'base_obj.fd'}
class NonBlock(FdRule):
    """prop: (v, attrs) for any descriptor whose mode is known; 'I' = handed to the event loop"""
    def inline(self, t, st, i, a):
        if t.name in self.inl or t.name in fdrules.gives(self.p): return True
        return t.name in self.touch and any(x != UNDEF and x[0] != 'i' and (ty == 'i32' or self.get(st, x) is not None) for x, ty in zip(a, t.ptypes))
    def upd(self, st, v, add=(), rem=()):
        if self.get(st, v) is None:
            if v[0] in ('i',) or v == UNDEF: return
            st.prop = st.prop | {(v, frozenset())}
        FdRule.upd(self, st, v, add, rem)
    def on_store(self, st, i, a, v):
        if last_of(a) in FDFIELDS and v[0] not in ('i',) and st.const(v) is None and v != UNDEF:
            self.upd(st, v, add=('I',)); self.inst.setdefault(i.id, (i, 'stored as the descriptor of an object')); self.iw[v] = i
    def __init__(self, prog, inl):
        FdRule.__init__(self, prog, inl); self.inst = {}; self.iw = {}
    def on_call(self, st, i, name, args):
        if name == 'tpoll_set':
            v = args[1]
            if v[0] == 'i' or v == UNDEF: return None
            at = self.get(st, v)
            if at is not None or last_of(self.origin.get(v, UNDEF)) not in FDFIELDS:
                self.upd(st, v, add=('I',)); self.inst.setdefault(i.id, (i, 'registered with the event loop')); self.iw[v] = i
            return None
        return FdRule.on_call(self, st, i, name, args)
    @property
    def origin(self):
        return self.__dict__.setdefault('_o', {})
    def on_load_fresh(self, st, i, a, v):
        self.origin[v] = a
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        for v, at in st.prop:
            if 'I' in at and 'n' not in at and not st.neg(v):
                if last_of(self.origin.get(v, UNDEF)) in FDFIELDS: continue
                self.bad.append(dict(site=self.iw.get(v) or self.site_of(v), at=t, path=st.lines(12)))

@prop('F02', title='Every descriptor served by the event loop is non-blocking', level='other',
      statement='Every descriptor that the daemon\'s event loop reads, writes or accepts on (consoles of every kind, clients, log files, the listening socket and the file-change notifier) is in non-blocking mode from the moment it is handed to the event loop. A peer or device that stops reading or sending can therefore never stall the other consoles.',
      quantifier=dict(over=['programs', 'inputs'], text='every path that opens or adopts a descriptor for any object type'),
      why='The difference shows only when a peer stops draining its socket while data is pending; the tests always drain.',
      anchors=dict(files=['src/server-obj.c', 'src/server-process.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-serial.c', 'src/server-ipmi.c', 'src/server-logfile.c', 'src/server-test.c', 'src/server.c', 'src/inevent.c'],
                   mechanism=[dict(name='set_fd_nonblocking', where='src/util-file.c')]),
      technique='resource-attribute dataflow (path-sensitive, interprocedural) over LLVM IR')
def F02(r, tier):
    r.rule('each value stored in an object\'s descriptor field or registered with the poll set must carry O_NONBLOCK at every function return; unresolved ones move to the callers')
    p = build.load('conmand')
    names = set()
    for f in p.funcs():
        for i in f.insts():
            if i.op == 'call' and i.x == 'tpoll_set': names.add(f.name)
            if i.op == 'store' and p.fp.slot_of_addr(f, i.ops[1]) == ('f', 'base_obj.fd'): names.add(f.name)
            if i.op == 'call' and i.x in ('inotify_init', 'inotify_init1'): names.add(f.name)
    viol, stats, rules = lift(p, NonBlock, names, K=4 if tier == 'quick' else 8)
    sites = {}
    for n, x in rules: sites.update(x.inst)
    r.need(len(sites), 'descriptor hand-over sites', 8)
    bs = set()
    for b in viol:
        bs.add(b['site'].id)
        r.bad('blocking-descriptor', b['site'], 'the descriptor handed to the event loop here is not certainly non-blocking (path ends at %s)' % b['at'].where(), path=b['path'])
    for k, (i, d) in sites.items():
        if k not in bs: r.ok('%s: %s, non-blocking on every path' % (i.where(), d))
    r.count(functions_analysed=stats['functions'], handover_sites=len(sites), steps=stats['steps'])

# ------------------------------------------------- withdrawal before close (F03)
POLLIN, POLLOUT = 1, 4
class Withdraw(Rule):
    """prop: frozenset of ('clr', v, mask) | ('cl', v, field addr, inst id)"""
    def __init__(self, prog, inl):
        self.p = prog; self.inl = inl; self.bad = []; self.sites = {}; self.origin = {}
        self.touch = prog.cg.reaching({'close', 'tpoll_clear'}); self.insts = {}; self.armed = {}
    def initial(self): return frozenset()
    def inline(self, t, st, i, a):
        if t.name in self.inl: return True
        return t.name in self.touch and any(x in self.origin for x in a)
    def on_load_fresh(self, st, i, a, v):
        if last_of(a) == 'base_obj.fd': self.origin[v] = a
    def needmask(self, f):
        """the events the file that closes the descriptor also arms"""
        m = POLLOUT
        for g in self.p.funcs():
            if g.file == f.file:
                for c in g.calls('tpoll_set'):
                    if c.ops[2][0] == 'i': m |= c.ops[2][1] & (POLLIN | POLLOUT)
        return m
    def on_call(self, st, i, name, args):
        if name == 'tpoll_clear':
            k = st.const(args[2]); k = 0 if k is None else k
            old = 0
            for e in st.prop:
                if e[0] == 'clr' and e[1] == args[1]: old = e[2]
            st.prop = frozenset(e for e in st.prop if not (e[0] == 'clr' and e[1] == args[1])) | {('clr', args[1], old | k)}
            return [(st, self.A.fresh(st, i, 'ret'))]
        if name == 'tpoll_set':
            k = st.const(args[2]); k = 5 if k is None else k
            n = set()
            for e in st.prop:
                if e[0] == 'clr' and e[1] == args[1]:
                    if e[2] & ~k: n.add(('clr', e[1], e[2] & ~k))
                else: n.add(e)
            st.prop = frozenset(n)
            return [(st, self.A.fresh(st, i, 'ret'))]
        if name == 'close':
            v = args[0]
            a = self.origin.get(v)
            if a is not None:
                self.sites[i.id] = i; self.insts[i.id] = i
                m = 0
                for e in st.prop:
                    if e[0] == 'clr' and e[1] == v: m = e[2]
                need = self.needmask(self.p.mod.funcs[self.A.root])
                # opened on this very path and never armed: nothing to withdraw
                if need & ~m:
                    self.bad.append(dict(site=i, at=i, msg='the descriptor of an object is closed while it may still be in the poll set', kind='poll', path=st.lines(12)))
                if st.mem.get(a, v) == v: st.prop = st.prop | {('cl', v, a, i.id)}
            return [(st, self.A.fresh(st, i, 'ret'))]
        if name == 'free':
            st.prop = frozenset(e for e in st.prop if not (e[0] == 'cl' and base_of(e[2]) == args[0]))
        return None
    def on_store(self, st, i, a, v):
        if last_of(a) == 'base_obj.fd':
            st.prop = frozenset(e for e in st.prop if not (e[0] == 'cl' and e[2] == a and v != e[1]))
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        for e in st.prop:
            if e[0] == 'cl':
                self.bad.append(dict(site=self.insts[e[3]], at=t, msg='the object still records the closed descriptor when this operation ends', kind='stale', path=st.lines(12)))

@prop('F03', title='A closed descriptor is first withdrawn from polling, then forgotten', level='other',
      statement='Whenever the daemon closes the descriptor of a console, client or log file, it has already withdrawn every event it watches that descriptor for, and by the end of the operation the object no longer records the closed number. The event loop can therefore never poll, read or write a number that has since been reused for another connection.',
      quantifier=dict(over=['histories', 'schedules'], text='every disconnect, reopen, shutdown and destruction path of every object type'),
      why='Descriptor numbers must be reused by another thread or object in a narrow window for the confusion to show.',
      anchors=dict(files=['src/server-obj.c', 'src/server-process.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-serial.c', 'src/server-ipmi.c', 'src/server-logfile.c', 'src/server-test.c'],
                   mechanism=[dict(name='tpoll_clear; close; fd = -1', where='every *_obj close path')]),
      technique='typestate analysis of the descriptor field over LLVM IR')
def F03(r, tier):
    r.rule('at each close of a value loaded from an object\'s descriptor field, the poll-set withdrawal of that value has happened on this path; the field is overwritten (or the object freed) before the operation ends')
    p = build.load('conmand')
    names = [f.name for f in p.funcs() if 'close' in p.cg.callees[f.name]]
    viol, stats, rules = lift(p, Withdraw, names, K=4 if tier == 'quick' else 8)
    sites = {}
    for n, x in rules: sites.update(x.sites)
    r.need(len(sites), 'closes of an object descriptor', 6)
    bs = set()
    for b in viol:
        bs.add(b['site'].id)
        r.bad('close-' + b['kind'], b['site'], b['msg'] + ' (%s)' % b['at'].where(), path=b['path'])
    for k, i in sites.items():
        if k not in bs: r.ok('close at %s: withdrawn first, field reset after' % i.where())
    r.count(functions_analysed=stats['functions'], close_sites=len(sites), steps=stats['steps'])

# ------------------------------------------------- leaks and double closes (F04)
USES = {'read', 'write', 'writev', 'readv', 'send', 'recv', 'fcntl', 'ioctl', 'close', 'tcsetattr', 'tcgetattr', 'connect', 'listen', 'bind', 'setsockopt', 'getsockopt', 'getsockname', 'getpeername', 'fdopen', 'fclose', 'fgets', 'fputs', 'fprintf', 'fflush', 'fileno', 'dup2', 'tpoll_set', 'isatty', 'tcflush', 'fstat', 'accept'}
class Owner(FdRule):
    """prop: (v, attrs); attrs: 'C' closed, 'O' owned elsewhere (stored, returned, handed over)"""
    EVENTS = {'close', 'fclose', 'closedir', 'pclose', 'fdopen'} | EXECS
    def close(self, st, i, v):
        at = self.get(st, v)
        if at is None:
            if v[0] not in ('i',) and v != UNDEF:
                st.prop = st.prop | {(v, frozenset('CX'))}      # not created here: only remember that it is closed
                self.where.setdefault(v, i)
            return
        if 'C' in at:
            self.bad.append(dict(site=i, at=i, kind='double-close', local=True, msg='a descriptor (or stream) that this path has already closed is closed again', path=st.lines(12)))
        self.upd(st, v, add=('C',))
    def on_call(self, st, i, name, args):
        if name in USES and name not in ('close', 'fclose'):
            for x in args[:2]:
                at = self.get(st, x)
                if at is not None and 'C' in at:
                    self.bad.append(dict(site=i, at=i, kind='use-after-close', local=True, msg='%s() is applied to a descriptor this path has already closed' % name, path=st.lines(12)))
        if name == 'close' and self.get(st, args[0]) is None and args[0][0] not in ('i',):
            self.closes = getattr(self, 'closes', 0) + 1
        if name == 'pthread_create':
            s2 = st.copy()
            for v, at in list(st.prop): self.escape_from(st, args[3], v)
            e = self.A.fresh(s2, i, 'err'); s2.facts[e] = (1, INF, frozenset())
            return [(st, Z), (s2, e)]
        if name == 'free':
            b = base_of(args[0])
            for v, at in list(st.prop):
                if ('o', b) in at: self.upd(st, v, rem=(('o', b),))
        t = self.p.mod.funcs.get(name)
        if name in ('fdopen', 'ipmiconsole_ctx_destroy'): pass
        r = FdRule.on_call(self, st, i, name, args)
        if name in ('pipe', 'pipe2', 'socketpair'):
            arr = args[3] if name == 'socketpair' else args[0]
            if base_of(arr)[0] != 'al' and r:
                for k in ('fd0', 'fd1'):
                    for v, at in list(st.prop):
                        if v[0] == 's' and v[2] == i.id and v[3] == k: self.upd(st, v, add=('O',))
        return r
    def on_exec(self, st, i): pass
    def escape_from(self, st, base, v):
        for k, x in st.mem.items():
            if x == v and base_of(k) == base_of(base): self.upd(st, v, add=('O',))
    def on_store(self, st, i, a, v):
        if self.get(st, v) is not None:
            b = base_of(a)
            if b[0] != 'al': self.upd(st, v, add=(('o', b) if b[0] == 's' else 'O',))
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        for v, at in st.prop:
            if at & {'C', 'X', 'O'} or any(isinstance(a, tuple) for a in at): continue
            if st.neg(v) or (st.fact(v)[1] <= 0 and False): continue
            lo, hi, _ = st.fact(v)
            if 0 <= lo and hi <= 2: continue          # it became a standard descriptor
            w = self.site_of(v)
            if w is not None and w.x in ('fopen', 'opendir', 'popen') and hi <= 0: continue
            self.bad.append(dict(site=w, at=t, kind='leak', returned=(rv == v), local=(rv != v), msg='is neither closed, stored, nor returned', path=st.lines(12)))

@prop('F04', title='Descriptors are closed exactly once and never leaked on error paths', level='other',
      statement='Every descriptor or stream the daemon or the client opens is, on every path, either closed once or handed to a longer-lived owner that closes it; in particular every error return closes what it had opened. No path closes the same descriptor twice or performs I/O on a descriptor it has already closed.',
      quantifier=dict(over=['fault_sequences', 'histories'], text='every path from every descriptor-creating call in both programs, including each failure return'),
      why='Leaks and double closes sit on error returns that need an injected failure; over months of reconnects they exhaust descriptors or close somebody else\'s.',
      anchors=dict(files=['src/server-process.c', 'src/server-serial.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-logfile.c', 'src/server-conf.c', 'src/server-esc.c', 'src/server.c', 'src/client-sock.c', 'src/util-file.c'],
                   mechanism=[dict(name='err: labels that close what was opened', where='src/server-process.c:connect_process_obj, src/server-serial.c:open_serial_obj')]),
      technique='ownership (resource-leak) analysis, path-sensitive over LLVM IR')
def F04(r, tier):
    r.rule('each created descriptor ends every path closed once, stored in longer-lived memory, or returned to the caller (who inherits the obligation); no operation follows its close')
    for prog in ('conmand', 'conman'):
        p = build.load(prog)
        names = [f.name for f in p.funcs() if p.cg.callees[f.name] & (CREATORS | {'close', 'fclose'})]
        viol, stats, rules = lift(p, Owner, names, K=4 if tier == 'quick' else 8)
        sites = {}; ncl = 0
        for n, x in rules: sites.update(x.sites); ncl += getattr(x, 'closes', 0)
        if prog == 'conmand': r.need(len(sites), 'descriptor creation sites', 12)
        bs = set()
        for b in viol:
            if b['site'] is not None: bs.add(b['site'].id)
            r.bad('fd-' + b['kind'], b['site'] or b['at'], ('the descriptor created here ' if b['kind'] == 'leak' else '') + b['msg'] + ' (%s)' % b['at'].where(), path=b['path'])
        for k, (i, name) in sites.items():
            if k not in bs: r.ok('%s: %s at %s has one owner on every path' % (prog, name, i.where()))
        r.count(functions_analysed=stats['functions'], creation_sites=len(sites), steps=stats['steps'])
