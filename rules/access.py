from absint import *
from core import Broken
from registry import prop
from listmodel import *
from listmodel import CNT
from must import Must, consts
import build, causes, locks

CONNECT, MONITOR, QUERY = 1, 2, 3
NETW = {'write', 'writev', 'send', 'sendto', 'sendmsg', 'write_n', 'dprintf'}
REQ = 'request.'
CONS, CMD, BCAST, FORCE, JOIN = 'request.consoles', 'request.command', 'request.enableBroadcast', 'request.enableForce', 'request.enableJoin'

def client_threads(p):
    out = set()
    for f in p.funcs():
        for i in f.calls('pthread_create'):
            t = {s for s in p.fp.sources(f, i.ops[2]) if isinstance(s, str)}
            out |= {n for n in t if 'create_client_obj' in p.cg.reach(n)}
    if not out: raise Broken('no thread function that serves a client request was found')
    return sorted(out)

STOP = {'link_objs', 'create_client_obj', 'create_req', 'destroy_req', 'unlink_objs', 'unlink_obj', 'check_console_state', 'write_obj_data', 'notify_console_objs', 'out_of_memory'}
def stop(n): return n in STOP or n.startswith(('log_', 'lex_', 'tpoll_', 'open_', 'x_pthread', 'list_'))
def reaching(p, targets):
    seen = set(); work = list(targets)
    while work:
        n = work.pop()
        for c in p.cg.callers.get(n, ()):
            if c not in seen and not stop(c): seen.add(c); work.append(c)
    return seen

class P:
    """property state of a client request"""
    F = ('tw', 'reads', 'err', 'ok', 'it', 'pend', 'busy', 'skip', 'scanned', 'client', 'links', 'left', 'wf')
    def __init__(self, t): self.t = t
def upd(st, **kw):
    d = dict(zip(P.F, st.prop)); d.update(kw); st.prop = tuple(d[k] for k in P.F)
def get(st, k): return st.prop[P.F.index(k)]

class Req(Rule, ListModel):
    exit_k = 6
    def __init__(self, p, r):
        self.lm_init(p); self.r = r; self.viol = {}; self.n = {}; self.oks = {}
        ev = {'link_objs', 'create_client_obj', 'read_line', 'hosts_ctl'} | NETW
        self.touch = reaching(p, ev)
        self.tests = reaching(p, {'list_count', 'list_is_empty'})
        self.lex = reaching(p, {'lex_next'})
        self.sets = {f.name for f in p.funcs() for i in f.insts() if i.op == 'store' and (p.fp.slot_of_addr(f, i.ops[1]) or ('', ''))[1].startswith(REQ)} if False else set()
        own = set()
        for f in p.funcs():
            for i in f.insts():
                if i.op == 'store' or (i.op == 'load' and False):
                    t = p.cg._target(f, i.ops[1])
                    if any(x.startswith(REQ) for x in t): own.add(f.name)
        self.sets = own
        self.bfuncs = set()
    def initial(self): return (None, 0, 0, 0, None, None, 0, 0, None, None, frozenset(), 0, 0)
    def key(self, st):
        lo, hi = self.count_of(st)
        def ab(f):
            v = self.val(st, f)
            return None if v is None else 0 if st.const(v) == 0 else 1 if st.nonzero(v) else None
        l = self.val(st, CONS)
        return (st.prop, l if l is None or l[0] != 'j' else 'j', self.known(st, CMD), ab(BCAST), ab(FORCE), ab(JOIN), min(lo, 2), hi if hi < 2 else 2, ab('server_conf.enableTCPWrap'))
    def inline(self, t, st, i, a):
        n = t.name
        if stop(n): return False
        if n in self.touch: return True
        if n in self.lex: return False
        if n in self.sets or n in self.tests: return True
        return len(t.blocks) <= 12 and any(REQ in str(x) for x in (self.p.cg.mods(n) or ())) or (len(t.blocks) <= 8 and any(x[0] != 'i' for x in a if x != UNDEF) and self.A.stack == [] )
    def on_load_fresh(self, st, i, a, v):
        return self.lm_fresh(a, v)
    def on_store(self, st, i, a, v):
        if last_of(a) == CONS: self.origin[v] = a
        if last_of(a) == BCAST and st.const(v) == 0 and get(st, 'reads') >= 2 and self.known(st, BCAST) != 0 and self.known(st, CMD) not in (MONITOR, QUERY):
            self.seen('bcast-off', i)
            if self.count_of(st)[1] > 1: self.bad('broadcast-dropped', i, 'the broadcast option of a request is dropped although it may have matched several consoles', st)
    def from_cons(self, l):
        o = self.origin.get(l) or self.origin.get(self.root(l))
        return o is not None and last_of(o) == CONS
    def val(self, st, field):
        for k, v in st.mem.items():
            if last_of(k) == field: return v
        return None
    def known(self, st, field):
        v = self.val(st, field)
        return None if v is None else st.const(v)
    def isset(self, st, field):
        v = self.val(st, field)
        return v is not None and st.nonzero(v)
    def count_of(self, st):
        l = self.val(st, CONS)
        c = st.mem.get(self.cell(l)) if l is not None else None
        return (0, INF) if c is None else st.fact(c)[:2]
    def bad(self, rule, i, msg, st):
        k = (rule, i.id, msg)
        if k not in self.viol: self.viol[k] = (rule, i, msg, st.lines(16))
    def seen(self, kind, i):
        self.n.setdefault(kind, {})[i.id] = i
    # -- scan of the request's consoles
    def settle(self, st):
        e = get(st, 'pend')
        if e is None or get(st, 'client') is not None: return
        l = st.mem.get(addr(e, ('base_obj.writers',)))
        c = st.mem.get(self.cell(l)) if l is not None else None
        if c is None: return
        f = st.fact(c)
        if f[0] == f[1] == 0: upd(st, pend=None)
        elif f[0] >= 1: upd(st, pend=None, busy=1)
    def on_branch(self, st, t, c, truth): self.settle(st)
    def tw_ok(self, st):
        if get(st, 'tw') == 1: return True
        return self.known(st, 'server_conf.enableTCPWrap') == 0
    def on_call(self, st, i, name, args):
        A = self.A
        if name in ('list_next', 'list_iterator_create', 'list_iterator_reset'):
            it = args[0] if name != 'list_iterator_create' else None
            r = self.list_call(st, i, name, args)
            out = []
            for s, v in r:
                if name == 'list_iterator_create':
                    if self.from_cons(args[0]): upd(s, it=v, pend=None, busy=0, skip=0)
                elif name == 'list_iterator_reset':
                    if get(s, 'it') == it: upd(s, pend=None, busy=0, skip=0)
                elif get(s, 'it') is not None and get(s, 'it') == it:
                    if get(s, 'pend') is not None: upd(s, skip=1)
                    if v == Z:
                        if get(s, 'client') is None:
                            if not get(s, 'skip'): upd(s, scanned='busy' if get(s, 'busy') else 'clean')
                            upd(s, busy=0, skip=0)
                        elif get(s, 'skip'): self.bad('console-not-linked', i, 'a console of the request may be left out of the session', s)
                        upd(s, it=None, pend=None)
                    else: upd(s, pend=v)
                out.append((s, v))
            return out
        r = self.list_call(st, i, name, args)
        if r is not None:
            for s, v in r: self.settle(s)
            return r
        if name == 'read_line':
            self.seen('reads', i)
            A.kill_under(st, args[1])
            out = []
            for lo, hi in ((-INF, -1), (0, 0), (1, INF)):
                s = st.copy(); v = A.fresh(s, i, 'n') if lo != hi else ('i', lo)
                if lo != hi: s.facts[v] = (lo, hi, frozenset())
                if lo == 1:
                    if not self.tw_ok(s): self.bad('served-before-access-check', i, 'a request is read before the TCP-wrappers decision', s)
                    upd(s, reads=min(2, get(s, 'reads') + 1), ok=0)
                out.append((s, v))
            return out
        if name == 'hosts_ctl':
            self.seen('wrap', i)
            s2 = st.copy(); upd(st, tw=1); upd(s2, tw=0)
            v = A.fresh(st, i, 'ok'); st.facts[v] = (1, INF, frozenset())
            return [(st, v), (s2, Z)]
        if name in NETW:
            self.seen('writes', i)
            if not self.tw_ok(st): self.bad('answered-before-access-check', i, 'something is sent to a client that TCP wrappers have not accepted', st)
            v = A.fresh(st, i, 'n'); s2 = st.copy(); w = A.fresh(s2, i, 'n')
            st.facts[v] = (0, INF, frozenset()); s2.facts[w] = (-INF, -1, frozenset()); upd(s2, wf=1)
            return [(st, v), (s2, w)]
        if name == 'destroy_req':
            self.seen('ended', i)
            if get(st, 'left'): self.bad('closed-twice', i, 'a request may be destroyed twice', st)
            if get(st, 'client') is not None: self.bad('session-destroyed', i, 'the request of a session is destroyed while the session lives', st)
            upd(st, left=1)
            return [(st, None)]
        if name == 'send_rsp':
            e = st.const(args[1])
            if e == 7:
                self.seen('busyrsp', i)
                if self.isset(st, FORCE) or self.isset(st, JOIN): self.bad('refused-despite-force', i, 'a request with force or join is refused as busy', st)
                elif not self.known(st, CMD) == CONNECT and self.excl(st): self.bad('refused-reader', i, 'a request that does not write may be refused as busy', st)
                elif get(st, 'scanned') != 'busy' and not get(st, 'busy'): self.bad('refused-free', i, 'a request is refused as busy although none of its consoles was found to have a writer', st)
            if e is None or e != 0: upd(st, err=1)
            else: upd(st, ok=1)
            if 'send_rsp' not in self.p.mod.funcs: return None
            return None
        if name == 'create_client_obj':
            self.seen('sessions', i)
            if not self.tw_ok(st): self.bad('session-before-access-check', i, 'a session is created for a client that TCP wrappers have not accepted', st)
            if get(st, 'reads') < 2: self.bad('session-without-request', i, 'a session is created before both the greeting and the request were read', st)
            u = self.val(st, 'request.user')
            if u is None or not st.nonzero(u): self.bad('session-without-user', i, 'a session is created for a request that may carry no user name', st)
            if get(st, 'err'): self.bad('session-after-error', i, 'a session is created after the request was answered with an error', st)
            if not get(st, 'ok'): self.bad('session-before-answer', i, 'a session is created before the request was answered', st)
            elif get(st, 'wf'): self.bad('session-before-answer', i, 'a session is created although the answer to the request could not be sent', st)
            if get(st, 'left'): self.bad('session-destroyed', i, 'a session is created from a request that was destroyed', st)
            if self.count_of(st)[0] < 1: self.bad('session-without-console', i, 'a session is created although the request may match no console', st)
            if get(st, 'client') is not None: self.bad('session-twice', i, 'a second session is created for the same request', st)
            v = A.fresh(st, i, 'client'); st.facts[v] = (1, INF, frozenset())
            upd(st, client=v, it=None, pend=None)
            return [(st, v)]
        if name == 'link_objs':
            self.link(st, i, args)
            return [(st, None)]
        if name in ('create_string', 'create_format_string', 'strdup'):
            v = A.fresh(st, i, 'new'); st.facts[v] = (1, INF, frozenset())
            return [(st, v)]
        if name == 'lex_decode' or name == 'lex_encode': return [(st, args[0])]
        if name == 'pthread_create': return None
        t = self.p.mod.funcs.get(name)
        if t is not None and not t.decl and name not in self.p.cg.noreturn and not self.inline(t, st, i, args): self.lm_havoc(st, name)
        return None
    def excl(self, st):
        v = self.val(st, CMD)
        if v is None: return True
        f = st.fact(v)
        return any(not (k < f[0] or k > f[1] or k in f[2]) for k in (MONITOR, QUERY))
    def link(self, st, i, args):
        c = get(st, 'client')
        kind = 'w' if args[0] == c else 'r' if args[1] == c else None
        if c is None or kind is None:
            self.bad('unknown-link', i, 'objects other than the new client and a console of its request are linked', st); return
        con = args[1] if kind == 'w' else args[0]
        fl = self.from_list(con)
        if fl is None or last_of(fl) != CONS: self.bad('foreign-console', i, 'the client is linked to an object that is not one of the consoles its request matched', st)
        self.seen('link-' + kind, i)
        lo, hi = self.count_of(st); cmd = self.known(st, CMD)
        if kind == 'w':
            if cmd != CONNECT: self.bad('unauthorised-writer', i, 'the client becomes a writer of a console though its request may not be a connect request', st)
            if not (self.isset(st, FORCE) or self.isset(st, JOIN)) and get(st, 'scanned') != 'clean':
                self.bad('busy-not-checked', i, 'the client becomes a writer without force or join although a console of the request may have a writer', st)
        elif cmd == CONNECT and lo == hi == 1 or cmd == MONITOR: pass
        else: self.bad('unexpected-reader', i, 'the client becomes a reader of a console outside a monitor or single-console session', st)
        if not (lo == hi == 1):
            if not self.isset(st, BCAST) or cmd != CONNECT: self.bad('too-many-consoles', i, 'the client is linked although its request may match several consoles and is not a broadcast', st)
        elif kind == 'w' and self.known(st, BCAST) != 0: self.bad('stale-broadcast', i, 'a session with a single console may still be treated as a broadcast', st)
        if kind == 'w' and get(st, 'pend') is not None and self.root(con) == self.root(get(st, 'pend')) and con == get(st, 'pend'): upd(st, pend=None)
        upd(st, links=get(st, 'links') | {kind})
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        if get(st, 'client') is None:
            if not get(st, 'left') : self.bad('connection-kept', t, 'the connection of a client whose request did not become a session may never be closed', st)
            return
        self.seen('ends', t)
        cmd = self.known(st, CMD); k = get(st, 'links'); lo, hi = self.count_of(st)
        want = {'r'} if cmd == MONITOR else ({'r', 'w'} if lo == hi == 1 else {'w'} if lo >= 2 or self.isset(st, BCAST) else None) if cmd == CONNECT else None
        if want is None or k != want: self.bad('wrong-session', t, 'a session can begin with links %s where its request asks for %s' % (sorted(k) or 'none', sorted(want or ['?'])), st)

def run_req(p, r, tier):
    roots = client_threads(p); viol = {}; n = {}; steps = 0; fs = set()
    for root in roots:
        x = Req(p, r); a = Analysis(p.mod, x, p.cg, K=3 if tier == 'quick' else 6, max_steps=400000)
        a.run(root)
        viol.update(x.viol); steps += a.steps; fs |= a.funcs_seen
        for k, v in x.n.items(): n.setdefault(k, {}).update(v)
    return viol, n, steps, fs
_req = {}
def req(p, r, tier):
    if (id(p), tier) not in _req: _req[(id(p), tier)] = run_req(p, r, tier)
    return _req[(id(p), tier)]

# ------------------------------------------------------------------ escapes
def ends(a, f): return a is not None and last_of(a) == f
class Esc(Rule, ListModel):
    """escape processing on behalf of one client (parameter 0 of the root)"""
    exit_k = 4
    def __init__(self, p, root):
        self.lm_init(p); self.viol = {}; self.n = {}
        self.file = p.mod.funcs[root].file
        self.me = ('p', 0)
        self.obj = set()
        m = p.cg.mods
        self.eff = {f.name for f in p.funcs() if any(x.startswith(('base_obj.', 'telnet_obj.', 'process_obj.', 'serial_obj.', 'ipmi_obj.', 'unixsock_obj.', 'test_obj.', 'client_obj.', 'logfile_obj.', 'list.')) for x in m(f.name))}
        self.eff |= reaching(p, {'kill', 'fork', 'execl', 'tcsendbreak', 'ioctl', 'ipmiconsole_ctx_generate_break', 'tcsetattr'} | NETW)
        self.touch = reaching(p, {'link_objs', 'unlink_objs'})
    def initial(self): return ()
    def on_branch(self, st, t, c, truth):
        # keep the letters of the escape sequences apart where their code paths merge
        if t.fn.file != self.file: return
        if t.op == 'switch': st.prop = ('case', truth)
        elif truth is True and c[0] == 'cmp' and c[1] == 'eq' and c[3][0] == 'i' and 0x20 < c[3][1] < 0x7f: st.prop = ('case', c[3][1])
    def key(self, st):
        r = [k for k in st.mem if last_of(k) == CNT]
        return st.prop + tuple(sorted((repr(self.origin.get(base_of(k), '')), min(2, st.fact(st.mem[k])[0]), min(2, st.fact(st.mem[k])[1])) for k in r if self.origin.get(base_of(k)) is not None and base_of(self.origin[base_of(k)]) == self.me))
    def inline(self, t, st, i, a): return t.file == self.file
    def on_load_fresh(self, st, i, a, v):
        return self.lm_fresh(a, v)
    def on_load(self, st, i, a): pass
    def owner(self, v):
        """what a value denotes: 'me', 'reader' (console the client writes to), 'writer' (console it reads from), or None if unrelated to an object"""
        b = base_of(v)
        if b == self.me: return 'me'
        f = self.from_list(b)
        if f is None: return None
        if base_of(f) == self.me and last_of(f) == 'base_obj.readers': return 'reader'
        if base_of(f) == self.me and last_of(f) == 'base_obj.writers': return 'writer'
        return 'other'
    def is_obj(self, v): return base_of(v) in self.elem or self.root(base_of(v)) in self.elem
    def bad(self, rule, i, msg, st):
        self.viol.setdefault((rule, i.id), (rule, i, msg, st.lines(14)))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def bc(self, st):
        for k, v in st.mem.items():
            if last_of(k) == BCAST: return st.const(v)
        return None
    def on_call(self, st, i, name, args):
        r = self.list_call(st, i, name, args)
        if r is not None: return r
        if name in ('link_objs', 'unlink_objs'):
            self.seen(name, i)
            if base_of(args[0]) != self.me or self.owner(args[1]) not in ('writer', 'reader'):
                self.bad('foreign-link', i, 'an escape sequence links or unlinks objects other than the client and its own console', st)
            if self.bc(st) != 0: self.bad('broadcast-linkage', i, 'an escape sequence may change the links of a broadcast session', st)
            if name == 'link_objs':
                fj = [st.nonzero(v) for k, v in st.mem.items() if last_of(k) in (FORCE, JOIN)]
                if not any(fj): self.bad('writer-without-force', i, 'an escape sequence may make the client a writer with neither force nor join', st)
                c = st.prop[1] if st.prop else None
                if isinstance(c, int) and not isinstance(c, bool):
                    fo = [v for k, v in st.mem.items() if last_of(k) == FORCE]
                    if c not in (ord('F'), ord('J')): self.bad('writer-without-force', i, 'an escape sequence other than F and J may make the client a writer', st)
                    elif c == ord('J') and (not fo or st.const(fo[0]) != 0): self.bad('join-takes-over', i, 'the join sequence may take the console over from its writers', st)
                    elif c == ord('F') and (not fo or not st.nonzero(fo[0])): self.bad('force-only-joins', i, 'the force sequence may leave the other writers of the console in place', st)
            self.lm_havoc(st, name)
            return [(st, None)]
        if name == 'tcsendbreak':
            self.seen('effects', i)
            o = self.origin.get(args[0]) or self.origin.get(self.root(args[0]))
            if o is None or self.owner(o) != 'reader': self.bad('foreign-effect', i, 'a serial break is sent on a descriptor that is not that of a console the client writes to', st)
            return None
        t = self.p.mod.funcs.get(name)
        if t is not None and not t.decl and t.file != self.file and name in self.eff:
            for a in args:
                if a == UNDEF: continue
                w = self.owner(a) if a[0] != 'i' else None
                if w in ('me', 'reader'): self.seen('effects', i)
                elif w is not None or self.is_obj(a):
                    self.seen('effects', i)
                    self.bad('foreign-effect', i, '%s() is applied to an object that is neither the client nor a console it writes to' % name, st)
        if name == 'fork':
            self.seen('effects', i)
            s2 = st.copy(); v = A = self.A.fresh(st, i, 'pid'); st.facts[v] = (1, INF, frozenset())
            s3 = s2.copy()
            return [(st, v), (s3, ('i', -1))]
        return None
    def on_store(self, st, i, a, v):
        l = last_of(a)
        if l.startswith('base_obj.') and self.owner(a) not in ('me', 'reader') and base_of(a)[0] != 'al':
            self.bad('foreign-effect', i, '%s is changed in an object that is neither the client nor a console it writes to' % l, st)

def escape_roots(p):
    """functions of the event loop that process a client's input for escapes: they reach link_objs and are called from read_from_obj's closure"""
    out = []
    for f in p.funcs():
        if not f.params or stop(f.name): continue
        if 'unlink_objs' in p.cg.callees[f.name] or 'link_objs' in p.cg.callees[f.name]:
            # climb to the function other files call
            n = f.name; seen = set()
            while n not in seen:
                seen.add(n); cs = {c for c in p.cg.callers.get(n, ()) if p.mod.funcs[c].file == f.file and c != n}
                if len(cs) != 1: break
                n = cs.pop()
            out.append(n)
    return sorted({n for n in out if p.mod.funcs[n].file == 'server-esc.c'}) or []

# ------------------------------------------------------------------ link / unlink
class Link(Rule, ListModel):
    """link_objs/unlink_objs/unlink_obj with the kinds of the two objects fixed"""
    exit_k = 4
    def __init__(self, p, kinds, force=None):
        self.lm_init(p); self.kinds = kinds; self.force = force; self.viol = {}; self.n = {}
    # prop: (frozenset of events, iterator, pend, drained)
    def initial(self): return (frozenset(), None, None, 0, 0)
    def setup(self, st, f, args):
        for k, a in zip(self.kinds, args):
            if k is not None: st.mem[addr(a, ('base_obj.type',))] = ('i', k)
    def key(self, st):
        e = []
        for k in st.mem:
            if last_of(k) == CNT:
                o = self.origin.get(base_of(k))
                if o is not None and base_of(o)[0] == 'p': e.append((repr(o), min(1, st.fact(st.mem[k])[0]), min(1, st.fact(st.mem[k])[1])))
            elif last_of(k) in ('base_obj.fd', 'client_obj.gotSuspend', 'base_obj.gotEOF') and base_of(k)[0] == 'p':
                f = st.fact(st.mem[k]); e.append((repr(k), f[0] >= 0, f[1] < 0, st.nonzero(st.mem[k]), st.const(st.mem[k])))
        return (st.prop, tuple(sorted(e)))
    def inline(self, t, st, i, a): return not stop(t.name) and any(x[0] == 'p' for x in a if x != UNDEF) and t.name not in ('unlink_objs',)
    def on_load_fresh(self, st, i, a, v):
        w = self.lm_fresh(a, v)
        if w is not None: return w
        if self.force is not None and last_of(a) == FORCE:
            o = self.origin.get(base_of(a))
            if o is not None and base_of(o) == ('p', 0): return ('i', self.force)
        return None
    def where(self, l):
        o = self.origin.get(l) or self.origin.get(self.root(l)) if l != UNDEF else None
        return None if o is None or base_of(o)[0] != 'p' else (base_of(o)[1], last_of(o).split('.')[1])
    def ev(self, st, e): st.prop = (st.prop[0] | {e},) + st.prop[1:]
    def bad(self, rule, i, msg, st): self.viol.setdefault((rule, i.id, msg), (rule, i, msg, st.lines(14)))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def cnt(self, st, par, field):
        l = st.mem.get(addr(('p', par), ('base_obj.' + field,)))
        c = st.mem.get(self.cell(l)) if l is not None else None
        return (0, INF) if c is None else st.fact(c)[:2]
    DST = (1, 'writers')
    def on_call(self, st, i, name, args):
        ev, it, pend, skip, dr = st.prop
        if name == 'list_iterator_create' and self.where(args[0]) == self.DST:
            r = self.list_call(st, i, name, args)
            st.prop = (ev, r[0][1], None, 0, dr); return r
        if name == 'list_next' and it is not None and args[0] == it:
            r = self.list_call(st, i, name, args); out = []
            for s, v in r:
                _, _, p2, k2, d2 = s.prop
                if p2 is not None: k2 = 1
                s.prop = (s.prop[0], it, v, k2, d2) if v != Z else (s.prop[0], None, None, 0, 1 if not k2 else d2)
                out.append((s, v))
            return out
        if name in ('unlink_obj', 'unlink_objs'):
            self.seen(name, i)
            tgt = args[0]
            if name == 'unlink_obj':
                if self.A.root.startswith('link'):
                    if self.force == 0: self.bad('takeover-without-force', i, 'a writer is disconnected although the new client did not ask for force', st)
                    if tgt == pend: st.prop = (ev, it, None, skip, dr)
                    elif self.where(self.elem.get(tgt, UNDEF)) != self.DST: self.bad('wrong-takeover', i, 'taking over a console disconnects an object that is not one of its writers', st)
            k0 = {k: v for k, v in st.mem.items() if last_of(k) == CNT and st.const(v) == 0}
            self.lm_havoc(st, name)
            for k, v in k0.items(): st.mem[k] = Z          # unlinking only removes
            if name == 'unlink_objs': st.prop = (st.prop[0] | {('un',) + tuple(('p', a[1]) if a[0] == 'p' else self.where(self.elem.get(a, UNDEF)) for a in args)},) + st.prop[1:]
            return [(st, None)]
        if name in ('list_append', 'list_prepend', 'list_push', 'list_enqueue'):
            w = self.where(args[0])
            if w and args[1][0] == 'p':
                self.seen('link', i); self.ev(st, ('add',) + w + (args[1][1],))
                if w == self.DST and args[1] == ('p', 0) and self.force == 1 and self.kinds[0] == 1:
                    lo, hi = self.cnt(st, 1, 'writers')
                    if not (hi == 0 or dr): self.bad('writers-kept', i, 'a client that forces its way in is linked although earlier writers of the console may still be linked', st)
        if name == 'list_delete_all':
            w = self.where(args[0])
            if w and args[2][0] == 'p' and args[1] == ('g', 'find_obj'): self.seen('unlink', i); self.ev(st, ('del',) + w + (args[2][1],))
        if name == 'tpoll_set':
            o = self.origin.get(args[1])
            if o is not None and last_of(o) == 'base_obj.fd' and base_of(o)[0] == 'p' and self.A.mod and (st.const(args[2]) or 0) & 4: self.ev(st, ('out', base_of(o)[1]))
        r = self.list_call(st, i, name, args)
        if r is not None: return r
        t = self.p.mod.funcs.get(name)
        if t is not None and not t.decl and not self.inline(t, st, i, args): self.lm_havoc_safe(st, name)
        return None
    def lm_havoc_safe(self, st, name):
        if name in ('notify_console_objs', 'write_obj_data', 'log_msg'): return
        self.lm_havoc(st, name)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        ev = st.prop[0]; n = f.name
        self.seen('ends', t)
        if n == 'link_objs':
            for e in (('add', 0, 'readers', 1), ('add', 1, 'writers', 0)):
                if e not in ev: self.bad('half-link', t, 'a link can be made in one direction only: %s is not updated' % ('the reader list of the source' if e[1] == 0 else 'the writer list of the destination'), st)
        elif n == 'unlink_objs':
            for e in (('del', 0, 'readers', 1), ('del', 1, 'writers', 0)):
                if e not in ev: self.bad('half-unlink', t, 'a link can be removed in one direction only: %s is not updated' % ('the reader list of the source' if e[1] == 0 else 'the writer list of the destination'), st)
            for x in (0, 1):
                if self.kinds[x] != 1: continue
                if self.cnt(st, x, 'readers')[0] >= 1 or self.cnt(st, x, 'writers')[0] >= 1: continue
                g = st.mem.get(addr(('p', x), ('base_obj.gotEOF',)))
                if g is None or st.const(g) != 1: self.bad('no-eof', t, 'a client that lost its last link may not be marked for disconnection', st)
                fd = st.mem.get(addr(('p', x), ('base_obj.fd',)))
                sus = [v for k, v in st.mem.items() if last_of(k) == 'client_obj.gotSuspend' and base_of(k) == ('p', x)]
                if not (('out', x) in ev or (fd is not None and st.fact(fd)[1] < 0) or any(st.nonzero(v) for v in sus)):
                    self.bad('not-woken', t, 'a client that lost its last link may stay connected: nothing makes the event loop look at it', st)
        elif n == 'unlink_obj':
            for fld in ('readers', 'writers'):
                if self.cnt(st, 0, fld)[1] > 0: self.bad('left-linked', t, 'an object can keep %s after it was unlinked' % fld, st)
            for e in ev:
                if e[0] == 'un' and not ((e[1] == ('p', 0) and e[2] == (0, 'readers')) or (e[2] == ('p', 0) and e[1] == (0, 'writers'))):
                    self.bad('wrong-unlink', t, 'unlinking an object removes a link that is not one of its own', st)

# ------------------------------------------------------------------ loopback
class Bind(Rule):
    exit_k = 4
    def __init__(self, p): self.p = p; self.viol = {}; self.n = {}
    def key(self, st):
        return tuple(st.const(v) == 0 if not st.nonzero(v) else 1 for k, v in st.mem.items() if last_of(k) == 'server_conf.enableLoopBack')
    def inline(self, t, st, i, a): return t.name in self.touch
    def on_call(self, st, i, name, args):
        if name in ('htonl', 'ntohl', 'llvm.bswap.i32'):
            c = st.const(args[0])
            return [(st, ('i', int.from_bytes((c & 0xffffffff).to_bytes(4, 'little'), 'big')) if c is not None else self.A.fresh(st, i))]
        if name.startswith('llvm.memset'):
            self.A.kill_under(st, args[0]); st.mem[addr(args[0], ('in_addr.s_addr',))] = Z if st.const(args[1]) == 0 else ('i', 99)
            return [(st, None)]
        if name == 'bind':
            self.n[i.id] = i
            v = [x for k, x in st.mem.items() if last_of(k) == 'in_addr.s_addr' and base_of(k) == base_of(args[1]) and len(path_of(k)) > 1] or \
                [x for k, x in st.mem.items() if last_of(k) == 'in_addr.s_addr' and base_of(k) == base_of(args[1])]
            lb = [st.const(x) if not st.nonzero(x) else 1 for k, x in st.mem.items() if last_of(k) == 'server_conf.enableLoopBack']
            c = st.const(v[0]) if v else None
            lo = c is not None and (c & 0xff) == 127
            if lb != [0] and not lo: self.viol[i.id] = (i, 'the listening socket may be bound to another address than the loopback one although loopback is configured', st.lines(10))
            elif lb == [0] and c != 0: self.viol[(i.id, 1)] = (i, 'the listening socket is not bound to all addresses although loopback is not configured', st.lines(10))
            return [(st, Z), (st.copy(), ('i', -1))]
        return None

# ------------------------------------------------------------------ name matching
class Match(Rule, ListModel):
    """prop: (element, flags) for the console object being considered"""
    exit_k = 4
    def __init__(self, p):
        self.lm_init(p); self.viol = {}; self.n = {}; self.so = {}; self.eo = {}; self.len = {}; self.mbase = set(); self.pats = set()
        self.touch = reaching(p, {'fnmatch', 'regexec', 'list_append', 'list_next'})
        self.m = {}
    def initial(self): return (None, frozenset(), None, 'none', 0)
    def inline(self, t, st, i, a): return not stop(t.name) and (t.name in self.touch or len(t.blocks) <= 10 and t.name not in self.p.cg.noreturn and any(x != UNDEF and x == st.prop[0] or contains(x, st.prop[0]) for x in a if st.prop[0] is not None))
    def on_load_fresh(self, st, i, a, v):
        w = self.lm_fresh(a, v)
        if w is not None: return w
        if base_of(a) in self.mbase:
            # regmatch_t: an untagged struct, known by the first (rm_so) and second (rm_eo) member of entry 0
            d = i.fn.defs.get(i.ops[0][1]) if i.ops[0][0] == '%' else None
            path = [x for x in path_of(a) if not x.startswith('[') or x == '[0]']
            if d is not None and d.op == 'getelementptr' and len(path_of(a)) == len(path) and d.ops[-1][0] == 'i':
                (self.so if d.ops[-1][1] == 0 else self.eo)[v] = a
            elif d is None or d.op != 'getelementptr': self.so[v] = a
    def bad(self, rule, i, msg, st): self.viol.setdefault((rule, i.id), (rule, i, msg, st.lines(14)))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def flag(self, st, *f): st.prop = (st.prop[0], st.prop[1] | set(f)) + st.prop[2:]
    def isobj(self, v):
        f = self.from_list(v); return f is not None and last_of(f) == 'server_conf.objs'
    def name_of(self, st, v):
        o = self.origin.get(v) or self.origin.get(self.root(v))
        return o is not None and last_of(o) == 'base_obj.name' and base_of(o) == st.prop[0]
    def learn(self, st):
        e, fl, m = st.prop[:3]
        if e is None: return
        add = set()
        t = st.mem.get(addr(e, ('base_obj.type',)))
        if t is not None:
            for v, f in st.facts.items():
                if v[0] == 'bin' and v[1] == 'and' and v[2] == t and v[3][0] == 'i':
                    full = v[3][1]
                    if f[0] == f[1] == 0: add.add('skip')
                    elif f[0] > 0 or f[1] < 0 or 0 in f[2]: add.add('console')
        if m is not None:
            kind, v = m
            if st.const(v) == 0: add.add('match')
            elif st.nonzero(v): add.add('skip')
        for v, f in list(st.facts.items()):
            if v in self.so:
                if st.const(v) == 0: add.add('so')
                elif st.nonzero(v): add.add('skip')
            elif v[0] == 'cmp' and v[1] in ('eq', 'ne'):
                a, b = v[2], v[3]
                if (a in self.eo and b in self.len) or (b in self.eo and a in self.len):
                    truth = f[0] == f[1] == (1 if v[1] == 'eq' else 0)
                    if f[0] == f[1]: add.add('eo' if truth else 'skip')
        if not add <= fl: self.flag(st, *add)
    def on_branch(self, st, t, c, truth): self.learn(st)
    def on_call(self, st, i, name, args):
        A = self.A
        if name in ('fnmatch', 'regexec'):
            self.seen(name, i)
            if st.prop[0] is not None and not self.name_of(st, args[1]): self.bad('wrong-subject', i, 'something other than the name of the console under consideration is matched', st)
            if name == 'fnmatch' and st.const(args[2]) != 0: self.bad('fnmatch-flags', i, 'fnmatch() is called with flags', st)
            if name == 'regexec': A.kill_under(st, args[3]); self.mbase.add(base_of(args[3]))
            v = A.fresh(st, i, 'm'); st.prop = (st.prop[0], st.prop[1] - {'match', 'so', 'eo'}, (name, v)) + st.prop[3:]
            return [(st, v)]
        if name == 'regcomp':
            self.seen('regcomp', i)
            c = st.const(args[2])
            if c is None or c & 8: self.bad('regcomp-flags', i, 'the expression is compiled without reporting where it matches', st)
            return None
        if name == 'strlen':
            v = A.fresh(st, i, 'len'); st.facts[v] = (0, INF, frozenset())
            if st.prop[0] is not None and self.name_of(st, args[0]): self.len[v] = 1
            return [(st, v)]
        if name in ('list_find_first', 'list_find') and st.prop[0] is not None and st.prop[0] in args[1:]:
            s2 = st.copy(); self.flag(st, 'skip')
            v = A.fresh(st, i, 'e'); st.facts[v] = (1, INF, frozenset())
            return [(st, v), (s2, Z)]
        if name in ('list_iterator_create', 'list_iterator_reset'):
            r = self.list_call(st, i, name, args)
            l = args[0] if name == 'list_iterator_create' else self.iter.get(args[0])
            o = (self.origin.get(l) or self.origin.get(self.root(l))) if l not in (None, UNDEF) else None
            if o is not None and last_of(o) == 'server_conf.objs':
                if st.prop[3] == 'mid': self.bad('scan-cut-short', i, 'the consoles are scanned anew although an earlier scan did not reach the end', st)
                st.prop = st.prop[:3] + ('start', st.prop[4])
            elif l in self.pats or (o is not None and last_of(o) == CONS):
                if l is not None: self.pats.add(l)
                st.prop = st.prop[:4] + (1 if st.prop[3] == 'mid' else 0,)
            return r
        if name == 'list_next':
            l = self.iter.get(args[0]); o = (self.origin.get(l) or self.origin.get(self.root(l))) if l is not None else None
            if o is not None and last_of(o) == 'server_conf.objs':
                if st.prop[0] is not None and 'done' not in st.prop[1] and 'skip' not in st.prop[1]:
                    self.bad('match-left-out', i, 'a console whose name matches may be left out', st)
                if st.prop[3] == 'end': self.bad('stale-scan', i, 'the scan of the consoles may start where an earlier one ended, so a pattern is not compared with any of them', st)
                out = []
                for s, v in self.list_call(st, i, name, args):
                    s.prop = (v if v != Z else None, frozenset(), None, 'mid' if v != Z else 'end', st.prop[4]); out.append((s, v))
                return out
            if l in self.pats:
                if st.prop[3] == 'mid' and not st.prop[4]: self.bad('scan-cut-short', i, 'the next pattern is taken although the scan of the consoles did not reach the end', st)
        if name in ('list_append', 'list_prepend', 'list_push', 'list_enqueue') and self.isobj(args[1]):
            self.seen('selected', i)
            e, fl, m = st.prop[:3]
            if args[1] != e: self.bad('wrong-object', i, 'an object other than the one under consideration is selected', st)
            if 'console' not in fl: self.bad('not-a-console', i, 'an object that may not be a console is selected', st)
            if m is None or 'match' not in fl: self.bad('unmatched', i, 'a console is selected whose name may not match', st)
            elif m[0] == 'regexec' and not {'so', 'eo'} <= fl: self.bad('partial-match', i, 'a console is selected although the expression may match only part of its name', st)
            self.flag(st, 'done')
        return self.list_call(st, i, name, args)
    def on_return(self, st, f, rv, t):
        if self.A.stack or (rv is not None and st.fact(rv)[1] < 0): return
        if st.prop[3] != 'end': self.bad('scan-cut-short', t, 'the matching can end before every console was considered', st)

def report(r, viol, n, groups, kinds, need):
    """split the violations of a shared analysis by rule name"""
    for k, lo in need.items(): r.need(len(n.get(k, {})), k, lo)
    badids = set()
    for x in viol.values():
        if x[0] in kinds: r.bad(x[0], x[1], x[2], path=x[3], key='%s@%s' % (x[0], x[1].fn.src_name)); badids.add(x[1].id)
    for g, txt in groups.items():
        for i in n.get(g, {}).values():
            if i.id not in badids: r.ok('%s: %s' % (i.where(), txt))

FILES = ['src/server-sock.c', 'src/server-obj.c']
TECH = 'path-sensitive interprocedural abstract interpretation over LLVM IR with a model of the list API'

@prop('A01', title='A client gets exactly the session it asked for', level='other',
      statement='A monitor request links the client as reader of its console and never as writer. A connect request for one console links the client in both directions; a broadcast links it as writer of every console the request matched and as reader of none. Links are made only with consoles the request matched.',
      quantifier=dict(over=['inputs', 'histories'], text='every path of the thread that serves a client request'),
      why='Tests connect a few clients and do not observe which links exist.',
      anchors=dict(files=FILES, mechanism=[dict(name='perform_monitor_cmd / perform_connect_cmd', where='src/server-sock.c')]), technique=TECH)
def A01(r, tier):
    r.rule('at every link_objs() reachable from the client thread: direction permitted by req->command, console drawn from req->consoles; at the end of the thread: set of links equals the one of the command; every element of the broadcast loop is linked')
    p = build.load('conmand'); viol, n, steps, fs = req(p, r, tier)
    report(r, viol, n, {'link-w': 'only a connect request reaches this writer link', 'link-r': 'reader link of a monitor or single-console session', 'ends': 'the links made are those of the command'},
           {'unauthorised-writer', 'unexpected-reader', 'foreign-console', 'unknown-link', 'wrong-session', 'console-not-linked'}, {'link-w': 1, 'link-r': 1})
    r.count(steps=steps, functions=len(fs))

@prop('A02', title='A busy console is entered only by force or join', level='other',
      statement='Unless the request carries force or join, a connect request (broadcast included) becomes a session only after every console it matched was found to have no writer, and is otherwise refused. A request that carries force or join is not refused as busy, nor is one of which no console has a writer, nor a query or monitor request.',
      quantifier=dict(over=['inputs', 'histories'], text='every path of the thread that serves a client request, any number of consoles and writers'),
      why='Exclusive write access is what keeps two operators from typing into one console; it depends on the state left by other sessions.',
      anchors=dict(files=FILES, mechanism=[dict(name='check_busy_consoles', where='src/server-sock.c')]), technique=TECH)
def A02(r, tier):
    r.rule('at every writer link: enableForce or enableJoin known non-zero, or a complete scan of req->consoles found each writers list empty; at every busy response: neither is set, the command is connect, and some console was found with a writer')
    p = build.load('conmand'); viol, n, steps, fs = req(p, r, tier)
    report(r, viol, n, {'link-w': 'every console was found free, or force/join was given', 'busyrsp': 'only after a console was found with a writer'},
           {'busy-not-checked', 'refused-despite-force', 'refused-reader', 'refused-free'}, {'link-w': 1})
    r.count(steps=steps, functions=len(fs))

@prop('A03', title='TCP wrappers decide before a client is served', level='other',
      statement='When TCP wrappers are enabled, nothing is read from a client, sent to it or done for it unless hosts_ctl() has accepted it; a rejected client is disconnected without an answer.',
      quantifier=dict(over=['inputs', 'fault_sequences'], text='every path of the thread that serves a client request'),
      why='No test runs with TCP wrappers enabled; a bypass is silent.',
      anchors=dict(files=['src/server-sock.c'], mechanism=[dict(name='resolve_addr', where='src/server-sock.c')]), technique=TECH)
def A03(r, tier):
    r.rule('before every read from or write to the client and before its session exists: enableTCPWrap known zero or hosts_ctl() known non-zero on the path')
    p = build.load('conmand'); viol, n, steps, fs = req(p, r, tier)
    report(r, viol, n, {'reads': 'only for an accepted client', 'writes': 'only for an accepted client', 'sessions': 'only for an accepted client', 'wrap': 'access decision'},
           {'served-before-access-check', 'answered-before-access-check', 'session-before-access-check'}, {'wrap': 1, 'reads': 2, 'sessions': 1})
    r.count(steps=steps, functions=len(fs))

@prop('A04', title='Only a broadcast reaches several consoles', level='other',
      statement='A monitor session, and a connect session without the broadcast option, is established only if the request matched exactly one console. A session with exactly one console is never treated as a broadcast, so it can switch between read-only and read-write; the broadcast option is honoured when the request matched several.',
      quantifier=dict(over=['inputs'], text='every path of the thread that serves a client request, any pattern and any configuration'),
      why='A pattern that matches more than intended would send keystrokes to all of them.',
      anchors=dict(files=['src/server-sock.c'], mechanism=[dict(name='check_too_many_consoles', where='src/server-sock.c'), dict(name='query_consoles', where='src/server-sock.c')]), technique=TECH)
def A04(r, tier):
    r.rule('at every link: the length of req->consoles is known to be 1, or the command is connect with enableBroadcast set; with length 1 enableBroadcast is known to be 0 at a writer link; enableBroadcast is cleared only with length at most 1 known, or for other commands')
    p = build.load('conmand'); viol, n, steps, fs = req(p, r, tier)
    report(r, viol, n, {'link-w': 'one console, or a broadcast', 'link-r': 'exactly one console'}, {'too-many-consoles', 'stale-broadcast', 'broadcast-dropped'}, {'link-w': 1, 'link-r': 1})
    r.count(steps=steps, functions=len(fs))

@prop('A05', title='A session starts only after a valid, answered request', level='other',
      statement='The daemon creates a client session only after it has read a greeting that names a user and then a request, the request matches at least one console, and the answer, success, could be sent. A request answered with an error never becomes a session, and no request becomes two. A client whose request does not become a session is disconnected.',
      quantifier=dict(over=['inputs', 'fault_sequences'], text='every path of the thread that serves a client request, including peers that disconnect or send garbage'),
      why='Malformed and truncated dialogues are exactly what tests with the real client never produce.',
      anchors=dict(files=['src/server-sock.c'], mechanism=[dict(name='process_client', where='src/server-sock.c')]), technique=TECH)
def A05(r, tier):
    r.rule('at every create_client_obj(): two successful reads, req->user known non-null, req->consoles known non-empty, a success response (its write known to have succeeded) and no error response on the path, no session yet; at each end of the thread without a session the request was destroyed exactly once, and never with one')
    p = build.load('conmand'); viol, n, steps, fs = req(p, r, tier)
    report(r, viol, n, {'sessions': 'greeting with a user, request, consoles and success response precede the session'},
           {'session-without-request', 'session-without-user', 'session-after-error', 'session-before-answer', 'session-without-console', 'session-twice', 'connection-kept', 'closed-twice', 'session-destroyed'}, {'sessions': 1, 'reads': 2, 'ended': 1})
    r.count(steps=steps, functions=len(fs))

def run_link(p, name, kinds, force=None):
    if name not in p.mod.funcs: raise Broken('%s() not found' % name)
    x = Link(p, kinds, force); a = Analysis(p.mod, x, p.cg, K=4, max_steps=200000); a.run(name)
    return x, a.steps

@prop('A06', title='Forcing a connection takes it over completely', level='other',
      statement='When a client with the force option becomes writer of a console, every client that was writing to that console is unlinked first. Without the force option, linking a client as writer disconnects nobody.',
      quantifier=dict(over=['histories'], text='every path of the function that links a client to a console, any number of earlier writers'),
      why='Needs several writers (joined sessions) to be visible.',
      anchors=dict(files=['src/server-obj.c'], mechanism=[dict(name='link_objs', where='src/server-obj.c')]), technique=TECH)
def A06(r, tier):
    r.rule('link_objs(client, console) with enableForce fixed to 1: before the client is appended to dst->writers that list is known empty or every element of it was unlinked; with enableForce fixed to 0 no unlink_obj() is reachable')
    p = build.load('conmand'); st = 0
    for force in (1, 0):
        x, s = run_link(p, 'link_objs', (1, 4), force); st += s
        r.need(len(x.n.get('link', {})), 'link_objs() updates of a link list', 2)
        for v in x.viol.values():
            if v[0] in ('writers-kept', 'takeover-without-force', 'wrong-takeover'): r.bad(v[0], v[1], v[2], path=v[3])
        if not x.viol: r.ok('link_objs(client, console) with force=%d: %s' % (force, 'all earlier writers are unlinked before the new one is added' if force else 'no writer is unlinked'))
    r.count(steps=st)

MUTLIST = {'base_obj.readers', 'base_obj.writers'}
@prop('A07', title='Links are symmetric and unlinking is complete', level='other',
      statement='Whenever data of one object is set to flow to another, both the reader list of the source and the writer list of the destination are updated, and likewise when a link is removed; nothing else changes these lists. Unlinking an object removes all its links and only its links. A client that loses its last link is marked for disconnection and the event loop is made to notice it, whatever is in its buffer.',
      quantifier=dict(over=['histories', 'schedules'], text='every path of the functions that link and unlink, for each combination of kinds of objects'),
      why='A half-removed link leaves a pointer to a destroyed client, used when the console next produces output.',
      anchors=dict(files=['src/server-obj.c'], mechanism=[dict(name='link_objs / unlink_objs / unlink_obj', where='src/server-obj.c')]), technique=TECH)
def A07(r, tier):
    r.rule('at every return of link_objs/unlink_objs both lists were updated; at every return of unlink_obj both lists of the object are known empty; a client with no known remaining link has gotEOF set and POLLOUT armed unless suspended or closed; list updates of readers/writers elsewhere are violations')
    p = build.load('conmand'); st = 0
    for name, kinds in (('link_objs', (1, 4)), ('link_objs', (4, 1)), ('link_objs', (4, 2)), ('unlink_objs', (1, 4)), ('unlink_objs', (4, 1)), ('unlink_objs', (4, 2)), ('unlink_obj', (1,)), ('unlink_obj', (4,))):
        x, s = run_link(p, name, kinds); st += s
        r.need(len(x.n.get('ends', {})), 'returns of %s()' % name)
        k = {1: 'client', 2: 'log file', 4: 'console'}
        bad = [v for v in x.viol.values() if v[0] not in ('writers-kept', 'takeover-without-force', 'wrong-takeover')]
        for v in bad: r.bad(v[0], v[1], v[2], path=v[3], key='%s@%s' % (v[0], name))
        if not bad: r.ok('%s(%s): lists updated in both directions' % (name, ', '.join(k[q] for q in kinds)))
    own = set()
    for a in ('link_objs', 'unlink_objs', 'unlink_obj'):
        own |= {a}
    nm = 0
    for f in p.funcs():
        for i in f.insts():
            if i.op == 'call' and i.x in ('list_append', 'list_prepend', 'list_push', 'list_enqueue', 'list_insert', 'list_delete', 'list_remove', 'list_delete_all', 'list_pop', 'list_dequeue'):
                src = p.fp.sources(f, i.ops[0])
                it = False
                if ('r', 'list_iterator_create') in src:
                    it = True; src = set()
                    d = f.defs.get(i.ops[0][1])
                    if d is not None and d.op == 'call': src = p.fp.sources(f, d.ops[0])
                flds = {s[1] for s in src if isinstance(s, tuple) and s[0] == 'f'} & MUTLIST
                # through a parameter: the callers must be link functions
                if flds:
                    nm += 1
                    cs = {f.name}; seen = set()
                    while cs - own and not cs <= seen:
                        seen |= cs
                        cs = {c for n in cs for c in ({n} if n in own else (p.cg.callers.get(n) if n not in p.cg.addr_taken and p.cg.callers.get(n) and len(p.cg.callers[n]) and n != f.name or (n == f.name and p.mod.funcs[n].file == 'server-obj.c' and n not in p.cg.addr_taken and p.cg.callers.get(n)) else {n}))}
                    if cs <= own: r.ok('%s: %s of a link list inside the link functions' % (i.where(), i.x))
                    else: r.bad('list-changed-elsewhere', i, '%s() changes the %s list of an object outside the functions that keep links symmetric' % (i.x, sorted(flds)[0].split('.')[1]))
    r.need(nm, 'updates of reader and writer lists', 4)
    r.count(steps=st, list_updates=nm)

@prop('A08', title='Escape sequences act only on the client\'s own consoles', level='other',
      statement='Processing the input of a client affects no object other than the client itself and the consoles it has write access to: breaks, DEL, resets and messages go only to those. Switching between read-only and read-write affects only the console the session is attached to, never a broadcast session, and a read-only client becomes a writer only by the force sequence, which takes the console over from its writers, or the join sequence, which does not.',
      quantifier=dict(over=['inputs', 'histories'], text='every path of the escape processing, for every input byte and session state'),
      why='A read-only client that can reset or break a console defeats monitor mode; tests send no raw escapes.',
      anchors=dict(files=['src/server-esc.c'], mechanism=[dict(name='process_client_escapes', where='src/server-esc.c')]), technique=TECH)
def A08(r, tier):
    r.rule('every effectful call and store in the escape processing is applied to the client or to an element of client->readers; link changes only between the client and an element of its own lists, with enableBroadcast known 0, and links only with force or join known set, by the letter F with force known set or by J with force known clear')
    p = build.load('conmand'); roots = escape_roots(p)
    if not roots: raise Broken('no escape-processing function found')
    st = 0; eff = {}; links = {}; bad = {}
    for root in roots:
        x = Esc(p, root); a = Analysis(p.mod, x, p.cg, K=3, max_steps=400000); a.run(root); st += a.steps
        eff.update(x.n.get('effects', {})); links.update(x.n.get('link_objs', {})); links.update(x.n.get('unlink_objs', {})); bad.update(x.viol)
    r.need(len(eff), 'effects of escape sequences', 4); r.need(len(links), 'link changes by escape sequences')
    ids = {k[1] for k in bad}
    for v in bad.values(): r.bad(v[0], v[1], v[2], path=v[3], key='%s@%s' % (v[0], v[1].fn.src_name))
    for d, txt in ((eff, 'applied to the client or a console it writes to'), (links, 'only the session\'s own console, not in a broadcast')):
        for i in d.values():
            if i.id not in ids: r.ok('%s: %s' % (i.where(), txt))
    r.count(steps=st, effects=len(eff), link_changes=len(links))

@prop('A09', title='Loopback-only mode binds only the loopback address', level='other',
      statement='When the loopback option is on, the socket on which the daemon accepts clients is bound to a loopback address; otherwise it is bound to all addresses.',
      quantifier=dict(over=['inputs'], text='every path to bind()'),
      why='A daemon that answers on every interface looks the same to tests on the loopback interface.',
      anchors=dict(files=['src/server.c'], mechanism=[dict(name='create_listen_socket', where='src/server.c')]), technique='path-sensitive constant propagation over LLVM IR')
def A09(r, tier):
    r.rule('at every bind(): sin_addr.s_addr is in 127/8 unless enableLoopBack is known 0, and 0 if it is')
    p = build.load('conmand'); n = 0; st = 0
    fs = [f.name for f in p.funcs() if 'bind' in p.cg.callees[f.name] and 'listen' in p.cg.reach(f.name)] or [f.name for f in p.funcs() if 'bind' in p.cg.callees[f.name]]
    # climb while the configuration flag is not consulted in the function itself
    loads = {f.name for f in p.funcs() for i in f.insts() if i.op == 'load' and any('enableLoopBack' in m for m in bitload(p, f, i))}
    todo = []
    for f in fs:
        cs = {f}
        for _ in range(3):
            if all(c in loads or p.cg.reach(c) & loads for c in cs): break
            cs = {q for c in cs for q in (p.cg.callers.get(c) or {c} if not (c in loads or p.cg.reach(c) & loads) else {c})}
        todo += sorted(cs)
    for f in sorted(set(todo)):
        x = Bind(p); x.touch = reaching(p, {'bind', 'htonl'}) | {q for q in p.cg.reach(f) & loads}; a = Analysis(p.mod, x, p.cg, K=4, max_steps=200000); a.run(f); st += a.steps; n += len(x.n)
        for v in x.viol.values(): r.bad('wrong-address', v[0], v[1], path=v[2])
        if not x.viol:
            for i in x.n.values(): r.ok('%s: loopback address exactly when configured' % i.where())
    r.need(n, 'bind() calls')
    r.count(steps=st, bind_calls=n)

def bitload(p, f, i):
    t = p.cg._target(f, i.ops[0])
    return t

@prop('A10', title='A request selects exactly the matching consoles', level='other',
      statement='The consoles a request is resolved to are exactly those configured consoles whose whole name matches one of its patterns: with regular expressions a match of part of the name does not count, with shell patterns fnmatch() without flags decides. Objects that are not consoles are never selected.',
      quantifier=dict(over=['inputs'], text='every path of pattern resolution; any number of consoles and patterns'),
      why='A partial match would connect a client to a console it did not name.',
      anchors=dict(files=['src/server-sock.c'], mechanism=[dict(name='query_consoles_via_regex / query_consoles_via_globbing', where='src/server-sock.c')]), technique=TECH)
def A10(r, tier):
    r.rule('an object of conf->objs is appended to the matches only with its console bit known set and its name matched (regexec: zero, rm_so = 0 and rm_eo = strlen(name)); every scan of conf->objs starts at its beginning and runs to its end, once per pattern; an object not appended is known not to be a console, not to match, or to be selected already')
    p = build.load('conmand'); st = 0; n = {}; viol = {}
    reach = reaching(p, {'fnmatch', 'regexec'})
    roots = sorted(f.name for f in p.funcs() if f.name in reach and {'list_append', 'list_next'} & p.cg.callees[f.name] and any(s in p.cg.callees[f.name] or s in {c for q in p.cg.callees[f.name] for c in p.cg.callees.get(q, ())} for s in ('fnmatch', 'regexec')))
    roots = [q for q in roots if 'list_next' in p.cg.reach(q)]
    for root in roots:
        x = Match(p); a = Analysis(p.mod, x, p.cg, K=4, max_steps=300000); a.run(root); st += a.steps
        viol.update(x.viol)
        for k, v in x.n.items(): n.setdefault(k, {}).update(v)
    report(r, viol, n, {'selected': 'a console is selected only if its whole name matches', 'fnmatch': 'the name is matched, without flags', 'regexec': 'the name is matched', 'regcomp': 'positions are reported'},
           {v[0] for v in viol.values()}, {'selected': 1})
    r.need(len(n.get('fnmatch', {})) + len(n.get('regexec', {})), 'pattern matches', 2)
    r.count(steps=st, functions=len(roots))
