"""R: connections to consoles are lost, retried and re-established."""
from absint import *
from core import Broken
from registry import prop
from fdrules import lift
import build, data, locks

FD = 'base_obj.fd'; EOFM = 'base_obj.gotEOF'
POLLIN, POLLOUT = 1, 4
ARM = ('tpoll_timeout_relative', 'tpoll_timeout_absolute')
CONNECT = {'connect', 'execv', 'execve', 'execvp', 'execl', 'execlp', 'ipmiconsole_engine_submit'}
EINPROGRESS = 115; SO_ERROR = 4

def member(v): return v.split('.')[-1] if v else ''

class Conn:
    """what the program's reconnection code consists of"""
    def __init__(self, p):
        self.p = p; cg = p.cg
        self.arms = []                  # (call, callbacks)
        for f in p.funcs():
            if f.name in ARM: continue
            for i in f.calls(*ARM):
                cb = {s[1] for s in sinks(p, f, i.ops[1])}
                self.arms.append((i, cb))
        if not self.arms: raise Broken('no timer is ever armed')
        cbs = {c for _, s in self.arms for c in s}
        fdst = {f.name for f in p.funcs() for i in f.insts() if i.op == 'store' and FD in cg._target(f, i.ops[1])}
        self.rec = {c for c in cbs if cg.reach(c) & CONNECT and cg.reach(c) & fdst}
        self.other = cbs - self.rec
        if not self.rec: raise Broken('no timer callback re-establishes a connection')
        # families: the functions between a common entry point and the code that arms a reconnection
        armers = {i.fn.name: set() for i, _ in self.arms}
        for i, s in self.arms: armers[i.fn.name] |= s & self.rec
        fam = {c: c for c in self.rec}
        def find(c):
            while fam[c] != c: c = fam[c]
            return c
        self.fam = {}
        reachrec = {}
        for f in p.funcs():
            s = set()
            r = cg.reach(f.name)
            for n in r:
                s |= armers.get(n, set())
            for c in self.rec:
                if c in r: s.add(c)
            reachrec[f.name] = s
        # callbacks that reach one another are one family
        for c in self.rec:
            for d in reachrec[c]: fam[find(d)] = find(c)
        self.of = {n: {find(c) for c in s} for n, s in reachrec.items()}
        self.roots = {}
        for n, s in self.of.items():
            if len(s) != 1: continue
            c = next(iter(s))
            up = cg.callers.get(n, set())
            if n in self.rec or n in cg.addr_taken or any(len(self.of[u]) > 1 for u in up): self.roots.setdefault(c, set()).add(n)
        if len(find_all(self.of)) < 1: raise Broken('no family of console connections')
        # members in which timers are recorded
        self.timers = set()
        ids = set(ARM); ch = True
        while ch:
            ch = False
            for f in p.funcs():
                if f.name in ids: continue
                for i in f.insts():
                    if i.op == 'ret' and i.ops and any(s[0] == 'r' and s[1] in ids for s in p.fp.sources(f, i.ops[0]) if not isinstance(s, str)): ids.add(f.name); ch = True
        for f in p.funcs():
            for i in f.insts():
                if i.op == 'store' and any(s[0] == 'r' and s[1] in ids for s in p.fp.sources(f, i.ops[0]) if not isinstance(s, str)):
                    self.timers |= {x for x in cg._target(f, i.ops[1]) if '.' in x}
        self.timers = {t for t in self.timers if not t.startswith(FD.split('.')[0] + '.')}      # those of a console's connection
        if not self.timers: raise Broken('no timer is recorded')
        # kinds of consoles that are reconnected: those that keep a delay between attempts
        self.kinds = {t.split('.')[0] for t in self.timers if {'delay', 'state'} <= {x[3] for x in p.mod.members(t.split('.')[0]) or ()}}
        self.hints = set()
        from files import nz_stores
        ino = set()
        for f in p.funcs():
            for i in f.calls('inevent_add'): ino |= {x[1] for x in sinks(p, f, i.ops[1])}
        for n, S in nz_stores(p).items():
            if S and '.' in n and all(x.fn.name in ino for x in S): self.hints.add(n)
        dly = {t.rsplit('.', 1)[0] + '.delay' for t in self.timers}
        self.dstores = [i for f in p.funcs() for i in f.insts() if i.op == 'store' and dly & cg._target(f, i.ops[1])]
        self.resets = {c for c in self.other if any(i.fn.name in cg.reach(c) for i in self.dstores)}
        self.interest = self.timers | {FD, EOFM} | {t.rsplit('.', 1)[0] + s for t in self.timers for s in ('.state', '.delay')}

    def range(self, l):
        """least and greatest number of seconds ever assigned to a delay member as a constant"""
        if not hasattr(self, '_rg'): self._rg = {}; self._cs = {}
        if l in self._rg: return self._rg[l]
        cs = set()
        from must import consts
        for f in self.p.funcs():
            for i in f.insts():
                if i.op == 'store' and l in self.p.cg._target(f, i.ops[1]):
                    cs |= {c for c in consts(self.p, f, i.ops[0]) if c is not None}
        if not cs: raise Broken('%s is never given a value' % l)
        self._rg[l] = (min(cs), max(cs)); self._cs[l] = cs
        return self._rg[l]
    def consts(self, l): self.range(l); return self._cs[l]

def find_all(of):
    s = set()
    for x in of.values(): s |= x
    return s

def sinks(p, f, o, d=0):
    """functions an operand may be"""
    out = set()
    for s in p.fp.sources(f, o):
        if isinstance(s, str): out.add(('f', s)); continue
        if s[0] == 'p' and d < 5:
            for c in p.cg.sites.get(s[1], []): out |= sinks(p, c.fn, c.ops[s[2]], d + 1)
    return {s for s in out if s[1] in p.mod.funcs}

class Base(Rule):
    """prop: frozenset of
      ('live', v)          a timer that may fire; v = ('ent', address) for the one running when the root was entered
      ('rec', v, o) ('oth', v, o)   what v does when it fires, and to which object
      ('fd', o, how)       how: 'closed', 'new'
      ('conn', o, how)     'wait' (connect() did not complete), 'ok', 'sub'
      ('poll', o, mask)    events polled for on o's descriptor, set on this path
      ('did', what)        something happened"""
    exit_k = 6
    STOP = ('log_', 'list_', 'write_notify_msg', 'write_log_data', 'write_obj_data', 'create_', 'host_', 'x_pthread')
    EVENTS = {'tpoll_timeout_relative', 'tpoll_timeout_absolute', 'tpoll_timeout_cancel', 'tpoll_set', 'tpoll_clear', 'close', 'socket', 'socketpair', 'open', 'ipmiconsole_ctx_fd', 'execv'} | CONNECT
    def __init__(self, p, cn, inl=None):
        self.p = p; self.cn = cn; self.bad = []; self.n = {}; self.inl = inl; self.seenbad = set()
        self.touch = p.cg.reaching(self.EVENTS); self.ent = {}; self.at = {}
        self.timers = cn.timers; self.tnames = cn.timers
        self.small = {f.name for f in p.funcs() for i in f.insts() if i.op == 'store' and cn.interest & p.cg._target(f, i.ops[1])}
    def initial(self): return frozenset()
    def inline(self, t, st, i, a):
        if t.name.startswith(self.STOP): return False
        if t.name in self.cn.of and len(self.cn.of[t.name]) > 1: return False
        return t.name in self.touch or len(t.blocks) <= 12 and (t.name in self.small or not any(x.op == 'call' for x in t.insts()))
    def add(self, st, *e): st.prop = st.prop | set(e)
    def sub(self, st, fn): st.prop = frozenset(e for e in st.prop if not fn(e))
    def has(self, st, *e): return e in st.prop
    def get(self, st, k, o):
        for e in st.prop:
            if e[0] == k and e[1] == o: return e[2]
        return None
    def set(self, st, k, o, v):
        self.sub(st, lambda e: e[0] == k and e[1] == o); self.add(st, (k, o, v))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def fail(self, kind, i, t, msg, st, **kw):
        if (kind, i.id, t.id) in self.seenbad: return
        self.seenbad.add((kind, i.id, t.id))
        self.bad.append(dict(kind=kind, site=i, at=t, msg=msg, path=st.lines(14), **kw))
    def obj(self, a): return base_of(a)
    def owner(self, st, v):
        for k, x in st.mem.items():
            if x == v and last_of(k) == FD: return base_of(k)
        return None
    def on_call(self, st, i, name, args):
        A = self.A
        if name in ARM:
            cbs = {args[1][1]} if args[1][0] == 'g' else sinks_val(self, i)
            v = A.fresh(st, i, 'tm'); st.facts[v] = (0, INF, frozenset())
            self.seen('arm', i)
            self.armed(st, i, v, cbs, args)
            return [(st, v)]
        if name == 'tpoll_timeout_cancel':
            self.seen('cancel', i); self.cancel(st, i, args[1])
            return [(st, A.fresh(st, i))]
        if name in ('tpoll_set', 'tpoll_clear'):
            o = self.owner(st, args[1]); m = st.const(args[2])
            if o is not None:
                cur = self.get(st, 'poll', o) or 0
                if name == 'tpoll_set': self.set(st, 'poll', o, cur | (m or 0))
                else: self.set(st, 'poll', o, cur & ~(m if m is not None else -1)); self.add(st, ('did', 'clear'))
            return [(st, A.fresh(st, i))]
        if name == 'close':
            o = self.owner(st, args[0])
            if o is not None:
                self.set(st, 'fd', o, 'closed'); self.set(st, 'poll', o, 0); self.add(st, ('did', 'close'))
                self.closing(st, i, o)
            return [(st, A.fresh(st, i))]
        if name in ('socket', 'open', 'open64', 'ipmiconsole_ctx_fd', 'accept'):
            s2 = st.copy(); v = A.fresh(st, i, 'fd'); st.facts[v] = (0, INF, frozenset())
            return [(st, v), (s2, ('i', -1))]
        if name == 'socketpair':
            s2 = st.copy(); A.kill_under(st, args[3])
            for k, a in ((0, args[3]), (1, addr(args[3], ('[1]',)))):
                v = A.fresh(st, i, 'fd%d' % k); st.facts[v] = (0, INF, frozenset()); A.write(st, a, v)
            return [(st, Z), (s2, ('i', -1))]
        if name == 'connect':
            o = self.owner(st, args[0]); s2 = st.copy()
            if o is not None: self.set(st, 'conn', o, 'ok'); self.set(s2, 'conn', o, 'wait')
            v = A.fresh(s2, i, 'ret'); s2.facts[v] = (-INF, -1, frozenset())
            s2.mem.pop(('g', 'errno'), None); st.mem.pop(('g', 'errno'), None)
            return [(st, Z), (s2, v)]
        if name == 'getsockopt' and args[3] is not None and args[3] != UNDEF and self.owner(st, args[0]) is not None and st.const(args[2]) == SO_ERROR:
            o = self.owner(st, args[0]); s2 = st.copy(); A.kill_under(st, args[3]); A.kill_under(st, args[4])
            v = A.fresh(st, i, 'soerr'); st.facts[v] = (0, INF, frozenset()); A.write(st, args[3], v); self.set(st, 'soerr', o, v)
            e = A.fresh(s2, i, 'errno'); s2.facts[e] = (1, INF, frozenset()); s2.mem[('g', 'errno')] = e; self.set(s2, 'soerr', o, 'unknown')
            return [(st, Z), (s2, ('i', -1))]
        if name == 'ipmiconsole_engine_submit':
            s2 = st.copy(); self.add(st, ('did', 'sub'))
            return [(st, Z), (s2, ('i', -1))]
        if name.startswith('ipmiconsole_'): return [(st, A.fresh(st, i))]
        if name == 'fork':
            s2 = st.copy(); v = A.fresh(st, i, 'pid'); st.facts[v] = (1, INF, frozenset())
            self.add(st, ('did', 'fork'))
            return [(st, v), (s2, ('i', -1))]
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'log_msg', 'strerror', 'free', 'time', 'kill', 'access', 'setsockopt'):
            if name == 'time' and args[0][0] != 'i': A.kill_under(st, args[0])
            return [(st, A.fresh(st, i))]
        return None
    def armed(self, st, i, v, cbs, args): pass
    def cancel(self, st, i, v): pass
    def closing(self, st, i, o): pass
    def on_store(self, st, i, a, v):
        if last_of(a) == FD and v[0] == 's' and str(v[3]).startswith('fd') and st.nonneg(v):
            self.set(st, 'fd', base_of(a), 'new'); self.set(st, 'poll', base_of(a), 0)

def sinks_val(self, i):
    return {s[1] for s in sinks(self.p, i.fn, i.ops[1])}

class Retry(Base):
    """R01/R02/R04 on the entry points of one family"""
    def __init__(self, p, cn, inl=None):
        Base.__init__(self, p, cn, inl)
        en = p.mod.enums
        self.up = {}; self.asks = False
    def upv(self, a):
        """value of the state member at address a that means connected"""
        s = last_of(a).split('.')[0]
        k = s[:-4].upper() if s.endswith('_obj') else s.upper()
        for n, v in self.p.mod.enums.items():
            if n.endswith('_%s_UP' % k):
                es = self.p.mod.enum_type(has=n); self.srange = (min(x for _, x in es), max(x for _, x in es))
                return v
        raise Broken('no enumerator says that a %s is connected' % s)
    def downv(self, a):
        up = self.upv(a)
        n = next(n for n, v in self.p.mod.enums.items() if v == up and n.endswith('_UP') and n[:-3].split('_')[-1] == last_of(a).split('.')[0].split('_')[0].upper())
        return self.p.mod.enums.get(n[:-3] + '_DOWN')
    def armed(self, st, i, v, cbs, args):
        o = args[2]
        self.add(st, ('live', v), ('rec' if cbs and cbs <= self.cn.rec else 'oth', v, o), ('did', 'arm'))
        ms = args[3] if i.x == 'tpoll_timeout_relative' else None
        if cbs and cbs <= self.cn.rec:
            self.seen('rec', i); self.delay_ok(st, i, ms, o)
        elif cbs & self.cn.resets:
            self.seen('rst', i); c = st.const(ms) if ms is not None else None
            self.add(st, ('rst', i.id), ('rstlive', v, o))
            self.rsts[i.id] = i
            if c is None or c < 1000: self.fail('backoff-soon', i, i, 'the delay is reset at once', st)
    def on_load(self, st, i, a):
        l = last_of(a)
        if '.#bf' in l and self.cn.hints: l = {self.p.mod.bitfield_name(l, 0)} | {last_of(k) for k in st.mem if base_of(k) == base_of(a)}
        else: l = {l}
        for k, v in st.mem.items():
            if last_of(k) in l & self.cn.hints and base_of(k) == base_of(a) and st.const(v): self.add(st, ('ino',))
    def delay_ok(self, st, i, ms, o):
        c = st.const(ms) if ms is not None else None
        for v, b in self.dl.items():
            if c is not None and b == o and st.const(v) is not None and c % 1000 == 0 and c == st.const(v) * 1000 and c <= MAXMS:
                self.add(st, ('used', o, v)); return
        if c is not None:
            if c <= 0 or c > MAXMS: self.fail('delay', i, i, 'the next attempt is made after %d ms' % c, st)
            return
        if ms is not None and ms[0] == 'bin' and ms[1] == 'mul' and ms[3][0] == 'i' and 0 < ms[3][1] <= 1000 and st.fact(ms[2])[1] * ms[3][1] <= MAXMS and self.isdelay(st, ms[2]) == o:
            self.add(st, ('used', o, ms[2])); return
        self.fail('delay', i, i, 'the delay before the next attempt is not known to be bounded', st)
    def isdelay(self, st, v):
        for k, x in st.mem.items():
            if x == v and last_of(k).endswith('.delay'): return base_of(k)
        return self.dl.get(v)
    def setup(self, st, f, args):
        self.asks = self.asks or any(i.x == 'connect' for n in self.p.cg.reach(f.name) for i in self.p.mod.funcs[n].calls('connect')); self.rsts = {}; self.dl = {}; self.dln = {}; self.org = {}; self.root = f
    def on_load_fresh(self, st, i, a, v):
        l = last_of(a)
        if l.endswith('.delay') and l in self.cn.interest:
            lo, hi = self.cn.range(l); st.facts[v] = (lo, hi, frozenset()); self.dl[v] = base_of(a); self.dln[base_of(a)] = l
        if l in self.cn.hints: self.org[v] = a
        if l.endswith('.state') and l in self.cn.interest:
            self.upv(a); st.facts[v] = self.srange + (frozenset(),)
        return None
    def on_store(self, st, i, a, v):
        Base.on_store(self, st, i, a, v)
        l = last_of(a)
        if l.endswith('.delay') and l in self.cn.interest: self.delay_store(st, i, a, v)
        if l.endswith('.state') and l in self.cn.interest:
            if st.const(v) == self.upv(a): self.add(st, ('did', 'up')); self.seen('up', i)
            else: self.add(st, ('did', 'state'))
    def cancel(self, st, i, v):
        self.sub(st, lambda e: e[0] == 'live' and e[1] == v); self.add(st, ('did', 'cancel'))
    def closing(self, st, i, o):
        self.seen('close', i)
    def member(self, st, o, suf):
        for k in st.mem:
            if base_of(k) == o and last_of(k).endswith(suf) and last_of(k) in self.cn.interest: return k
        return None
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.seen('end', t)
        o = ('p', 0)
        for e in st.prop:
            if e[0] == 'over': self.fail('backoff', t, t, 'the delay can exceed %d s' % e[2], st)
        k = self.member(st, o, '.state')
        S = st.mem.get(k) if k else None
        s = st.const(S) if S is not None else None
        up = self.upv(k) if k else None
        notup = s is not None and s != up or S is not None and s is None and (up in st.fact(S)[2] or not st.fact(S)[0] <= up <= st.fact(S)[1])
        rec = [e for e in st.prop if e[0] == 'rec' and ('live', e[1]) in st.prop]
        did = {e[1] for e in st.prop if e[0] == 'did'}
        fd = self.get(st, 'fd', o); conn = self.get(st, 'conn', o); poll = self.get(st, 'poll', o) or 0
        for e in rec:
            if e[2] != o: self.fail('other-object', t, t, 'the timer that is set re-establishes another console', st)
        if s is not None and s == up:
            if fd == 'closed': self.fail('up-closed', t, t, 'the console is taken to be connected although its descriptor is closed', st)
            elif fd == 'new' and not poll & POLLIN: self.fail('not-polled', t, t, 'the console is connected but not polled for input', st)
            elif fd is None and 'clear' in did and not poll & POLLIN: self.fail('not-polled', t, t, 'the console is connected but no longer polled for input', st)
            elif fd == 'new' and conn == 'wait': self.fail('up-early', t, t, 'the console is taken to be connected although connect() failed', st)
            elif 'up' in did and self.asks and fd is None and conn != 'ok':
                v = self.get(st, 'soerr', o)
                if v is None: self.fail('up-early', t, t, 'the console is taken to be connected without asking whether the attempt in progress has succeeded', st)
                elif v == 'unknown' or st.const(v) != 0: self.fail('up-early', t, t, 'the console is taken to be connected although the attempt in progress may have failed', st)
            if 'up' in did and not any(e[0] == 'rstlive' and e[2] == o and ('live', e[1]) in st.prop for e in st.prop):
                self.fail('no-reset', t, t, 'the delay is not reset even if the connection lasts', st)
            if rec: self.fail('up-retry', t, t, 'a connected console is connected to again by a timer', st)
        elif rec:
            dn = self.downv(k) if k else None
            if not notup: self.fail('state', t, t, 'a new attempt is scheduled although the console may be taken to be connected', st)
            elif dn is not None and conn != 'wait' and 'sub' not in did and not (s == dn or S is not None and s is None and all(x in st.fact(S)[2] or not st.fact(S)[0] <= x <= st.fact(S)[1] for x in range(self.srange[0], self.srange[1] + 1) if x != dn)):
                self.fail('state', t, t, 'an attempt that has failed is still taken to be in progress, so the timer does not make a new one', st)
            if fd == 'new' and conn != 'wait' and not 'sub' in did: self.fail('fd-kept', t, t, 'a descriptor is kept although a new attempt is scheduled', st)
        elif fd == 'new' and conn == 'wait' and notup and poll & POLLOUT: self.seen('wait', t)
        elif not did and f.name not in self.cn.rec: pass
        else: self.fail('not-retried', t, t, 'the console is neither connected nor being connected to, and no new attempt is scheduled', st)
        if ('inoused',) in st.prop and not any(last_of(x) in self.cn.hints and base_of(x) == o and st.const(y) == 0 for x, y in st.mem.items()):
            self.fail('backoff-reset', t, t, 'the note of an inotify event is kept, so that later failures shorten the delay too', st)
        for e in st.prop:
            if e[0] == 'rst' and 'up' not in did: self.fail('backoff-reset', self.rsts[e[1]], t, 'a timer that resets the delay is set although no connection was made', st)
            if e[0] == 'used' and e[1] == o: self.backoff(st, t, o, e[2])
    def backoff(self, st, t, o, e):
        if ('grew', o) in st.prop: return
        k = self.member(st, o, '.delay')
        lo0, hi0 = self.cn.range(last_of(k) if k else self.dln[o])
        if st.fact(e)[0] < hi0: self.fail('backoff', t, t, 'the delay does not grow after a failed attempt', st)
    def delay_store(self, st, i, a, v):
        o = base_of(a); l = last_of(a); self.seen('delay', i)
        lo0, hi0 = self.cn.range(l)
        e = st.mem.get(a)
        if e is None: e = next((x[2] for x in st.prop if x[0] == 'used' and x[1] == o), None)
        flo, fhi = st.fact(e)[:2] if e is not None else (lo0, hi0)
        flo, fhi = max(flo, lo0), min(fhi, hi0)
        self.sub(st, lambda x: x == ('grew', o) or x[0] == 'over' and x[1] == o)
        if st.fact(v)[1] > hi0 and v != e: self.add(st, ('over', o, hi0, v))
        c = st.const(v)
        if c is not None:
            if c > 0 and c >= fhi: self.add(st, ('grew', o)); return
        elif v == e: return
        elif v[0] == 'bin' and v[2] == e and v[3][0] == 'i' and (v[1] in ('shl', 'add') and v[3][1] > 0 or v[1] == 'mul' and v[3][1] > 1):
            if flo <= 0 and v[1] != 'add': self.fail('backoff', i, i, 'the delay can stay at zero', st)
            self.add(st, ('grew', o)); return
        if c is None: self.fail('backoff', i, i, 'the delay is given a value that is not known to be bounded', st); return
        self.reset(st, i, o, c)
    def reset(self, st, i, o, c):
        if c > 0 and ('ino',) in st.prop: self.add(st, ('inoused',)); return
        self.fail('backoff-reset', i, i, 'the delay is shortened to %d s although the connection has not stayed up' % c, st)
    def on_branch(self, st, t, c, truth):
        self.sub(st, lambda e: e[0] == 'over' and st.fact(e[3])[1] <= e[2])
        for v, a in self.org.items():
            if last_of(a) in self.cn.hints and v in st.facts and st.nonzero(v): self.add(st, ('ino',))

MAXMS = 1800 * 1000


class One(Base):
    """R03"""
    exit_k = 4
    def on_load_fresh(self, st, i, a, v):
        if last_of(a) in self.timers:
            self.ent[v] = a
    def setup(self, st, f, args):
        self.rootname = f.name
        self.cb = f.name in self.cn.other | self.cn.rec and not self.p.cg.callers.get(f.name) and all(x.x in ARM for x in self.p.cg.addr_taken.get(f.name, ()))
    def dead(self, st, a):
        """can the timer recorded at a still be running?"""
        v = st.mem.get(a)
        if v is not None and st.neg(v): return True
        if v is not None and ('live', v) in st.prop: return False
        if v is not None and v[0] == 's' and v[3] == 'tm': return True            # set and cancelled on this path
        if ('gone', a) in st.prop: return True
        if self.cb and self.obj(a) == ('p', 0) : return True                       # it is the one that has just expired
        return False
    def armed(self, st, i, v, cbs, args):
        self.add(st, ('live', v), ('for', v, args[2]))
        self.at[v] = i
    def cancel(self, st, i, v):
        self.sub(st, lambda e: e[0] == 'live' and e[1] == v)
        w = v
        for k, x in st.mem.items():
            if x == v and last_of(k) in self.timers: self.add(st, ('gone', k))
    def on_store(self, st, i, a, v):
        l = last_of(a)
        if l not in self.timers or a[1][0] == 'al': return
        self.seen('store', i)
        if not self.dead(st, a):
            self.fail('forgotten', i, i, 'the id of a timer that may still be running is overwritten', st)
        self.sub(st, lambda e: e[0] == 'gone' and e[1] == a)
        if ('live', v) in st.prop:
            o = next((e[2] for e in st.prop if e[0] == 'for' and e[1] == v), None)
            if o != base_of(a): self.fail('other-object', i, i, 'the timer of another object is recorded', st)
            self.add(st, ('kept', v))
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.seen('end', t)
        for e in st.prop:
            if e[0] == 'live' and ('kept', e[1]) not in st.prop and rv != e[1]:
                self.fail('unrecorded', t, t, 'the id of a timer is not recorded', st)

class Fresh(Retry):
    """R04: what the receiving code remembers between two reads starts anew"""
    def __init__(self, p, cn, mem):
        Retry.__init__(self, p, cn); self.memb = mem
        self.small |= {f.name for f in p.funcs() for i in f.insts() if i.op == 'store' and set(mem) & p.cg._target(f, i.ops[1])}
    def fail(self, kind, i, t, msg, st, **kw):
        if kind == 'remembered': Base.fail(self, kind, i, t, msg, st, **kw)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        o = ('p', 0); k = self.member(st, o, '.state')
        if k is None or ('did', 'up') not in st.prop or st.const(st.mem[k]) != self.upv(k): return
        self.seen('fresh', t)
        for m, c in self.memb.items():
            if m.split('.')[0] != last_of(k).split('.')[0]: continue
            v = [x for q, x in st.mem.items() if last_of(q) == m and base_of(q) == o]
            if not v or st.const(v[0]) not in c:
                self.fail('remembered', t, t, '%s keeps its value from the previous connection' % m, st)

def remembered(p, cn):
    """members of a console's connection data that code receiving its output stores to -> initial constants"""
    from must import consts
    conc = locks.concurrent(p)[0]; out = {}
    structs = {t.split('.')[0] for t in cn.timers}
    spec = set()
    for c, rs in cn.roots.items():
        for n in rs: spec |= p.cg.reach(n)
    rd = set()
    for h in data.handlers(p, ['read']): rd |= p.cg.reach(h)
    for f in p.funcs():
        if f.name not in rd or f.name in spec: continue
        for i in f.insts():
            if i.op != 'store': continue
            for m in p.cg._target(f, i.ops[1]):
                if m.split('.')[0] in structs and m not in cn.interest and '#' not in m: out[m] = set()
    for m in list(out):
        for f in p.funcs():
            if f.name in conc: continue
            for i in f.insts():
                if i.op == 'store' and m in p.cg._target(f, i.ops[1]): out[m] |= {c for c in consts(p, f, i.ops[0]) if c is not None}
    return {m: c for m, c in out.items() if c and any(m.split('.')[0] == x.split('.')[0] for i in cn.dstores for x in p.cg._target(i.fn, i.ops[1]))}

class Flush(data.Obj, Rule):
    """R04: prop = objects whose descriptor was closed on this path"""
    exit_k = 4
    def __init__(self, p, cn): self.ob_init(p); self.cn = cn
    def initial(self): return frozenset()
    def inline(self, t, st, i, a):
        if t.name.startswith(('log_', 'list_', 'tpoll_', 'x_pthread')) or len(self.cn.of.get(t.name, ())) > 0: return False
        return len(t.blocks) <= 10 and t.name not in self.p.cg.noreturn and any(x[0] in ('p', 's') for x in a if x != UNDEF)
    def on_call(self, st, i, name, args):
        r = self.buffered(st, i, name, args)
        if r is not None: return r
        if name == 'close':
            o = self.owner(args[0], st)
            if o is not None: st.prop = st.prop | {o}; self.seen('close', i)
            return [(st, self.A.fresh(st, i))]
        if name in ('x_pthread_mutex_lock', 'x_pthread_mutex_unlock', 'log_msg'): return [(st, self.A.fresh(st, i))]
        if len(self.cn.of.get(name, ())) > 1 and args and args[0] in st.prop:
            self.seen('reopen', i); o = args[0]
            if self.empty(st, o) is not True: self.bad('kept-output', i, 'what was buffered for the lost connection is sent over the next one', st)
            e = self.fld(st, o, EOFM)
            if e is None or st.const(e) != 0: self.bad('kept-eof', i, 'the end of input of the lost connection is still recorded when the next one is made', st)
            return [(st, self.A.fresh(st, i))]
        return self.list_call(st, i, name, args)

def conn_runs(r, cls, tier, *extra):
    p = build.load('conmand'); cn = Conn(p); runs = []; steps = 0
    for fam, roots in sorted(cn.roots.items()):
        for n in sorted(roots):
            x = cls(p, cn, *extra); a = Analysis(p.mod, x, p.cg, K=24 if tier == 'quick' else 64, max_steps=400000); a.run(n); steps += a.steps
            runs.append((n, x))
    r.count(families=len(cn.roots), roots=len(runs), steps=steps)
    return p, cn, runs

def report(r, runs, kinds, desc, what):
    n = 0
    for root, x in runs:
        bad = [b for b in x.bad if b['kind'] in kinds]
        for b in bad: r.bad(b['kind'], b['site'], '%s (from %s)' % (b['msg'], root), key='%s:%s' % (b['kind'], b['site'].fn.src_name), path=b['path'])
        if not bad: r.ok('%s: %s' % (root, desc))

RETRY = ('other-object', 'up-closed', 'not-polled', 'up-early', 'up-retry', 'state', 'fd-kept', 'not-retried', 'delay')
BACK = ('no-reset', 'backoff', 'backoff-soon', 'backoff-reset')

@prop('R01', title='A lost or refused console connection is always tried again', level='other',
      statement='Whenever the connection to a process, telnet, unix-socket or IPMI console is lost, or an attempt to make it fails in whatever way, a new attempt for that console is scheduled, no more than 30 minutes ahead. After every step of connecting or disconnecting, the console is either connected and polled for input, or waiting for an attempt in progress (polled for its completion or under a timeout), or has a timer set that makes the next attempt; it is never taken to be connected when it is not.',
      quantifier=dict(over=['histories', 'fault_sequences'], text='every path through opening, connecting and disconnecting each kind of console, with every system call succeeding or failing, from every state'),
      why='A console that is silently given up stays dead until the daemon restarts, with nobody notified; it takes one particular failure at one particular step.',
      anchors=dict(files=['src/server-process.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-ipmi.c'], mechanism=[dict(name='connect_*/disconnect_* and tpoll_timeout_relative', where='src/server-*.c')]),
      technique='path-sensitive typestate analysis of descriptors, connection states and timers over LLVM IR')
def R01(r, tier):
    r.rule('inductive invariant, checked at every return of each entry point (open functions, timer, inotify and engine callbacks): state UP => descriptor open, connect() did not fail, POLLIN set; otherwise a timer whose callback connects this same object is live, or connect() is in progress with POLLOUT set, or nothing was changed')
    p, cn, runs = conn_runs(r, Retry, tier)
    report(r, runs, RETRY, 'connected, connecting or scheduled at every return', 0)
    for k in sorted(cn.kinds):
        st = [i for f in p.funcs() for i in f.insts() if i.op == 'store' and k + '.state' in p.cg._target(f, i.ops[1]) and f.name in locks.concurrent(p)[0]]
        if not any(i.fn.name in p.cg.reach(c) for i in st for c in cn.rec):
            r.bad('not-retried', st[0] if st else k, 'no timer makes a new attempt for consoles of kind %s' % k)
    tot = {}
    for n, x in runs:
        for k, d in x.n.items(): tot.setdefault(k, {}).update(d)
    r.need(len(cn.kinds), 'kinds of consoles that are reconnected', 4)
    r.need(len(tot.get('rec', {})), 'places where a new attempt is scheduled', 4); r.need(len(tot.get('up', {})), 'places where a console becomes connected', 4)
    r.count(retry_sites=len(tot['rec']), up_sites=len(tot['up']), closes=len(tot.get('close', {})))

@prop('R02', title='Reconnection attempts back off, and only a lasting connection resets that', level='other',
      statement='Each failed attempt to connect a process, telnet, unix-socket or IPMI console lengthens the delay before the next one, up to that kind\'s maximum (at most 30 minutes), so the delay never stays at zero. The daemon shortens it again only by a timer that is set whenever a connection was made and fires a second or more later, on an inotify event for the console\'s socket (not to zero), or when a client asks for the console.',
      quantifier=dict(over=['histories', 'fault_sequences'], text='every path through connecting and disconnecting, for any number of failures'),
      why='Without the back-off a refusing peer makes the daemon spin through reconnections; that needs a peer that accepts and closes at once, repeatedly.',
      anchors=dict(files=['src/server-process.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-ipmi.c'], mechanism=[dict(name='delay / reset_*_delay', where='src/server-*.c')]),
      technique='path-sensitive abstract interpretation (intervals) of the reconnection delay over LLVM IR')
def R02(r, tier):
    r.rule('on every path that schedules an attempt after `delay`: delay is then raised (doubled or set to a bound not below it) unless known to be at its maximum, never above it, never left at 0; constants below the current value are stored only after an inotify flag was seen set (> 0) or by callbacks of timers armed for >= 1 s on paths that reach state UP')
    p, cn, runs = conn_runs(r, Retry, tier)
    report(r, runs, BACK, 'the delay grows on failure and is not reset', 0)
    conc = locks.concurrent(p)[0]; seen = set(); tot = {}
    for n, x in runs:
        seen |= x.A.funcs_seen
        for k, d in x.n.items(): tot.setdefault(k, {}).update(d)
    r.need(len(tot.get('delay', {})), 'stores to the delay on failure', 4)
    for k in sorted(cn.kinds):
        l = k + '.delay'; lo, hi = cn.range(l); cs = cn.consts(l)
        s = next(i for i in cn.dstores if l in p.cg._target(i.fn, i.ops[1]))
        if not any(c < hi for c in cs if c > 0): r.bad('backoff', s, 'the delay between attempts (%d s) is never raised' % hi, key='backoff:%s' % k)
        else: r.ok('%s: raised from %d to %d s' % (l, min(c for c in cs if c > 0), hi))
    ask = {f for f in p.cg.addr_taken if f in conc}
    for i in cn.dstores:
        f = i.fn.name
        if f in seen or f not in conc: continue
        if any(f in p.cg.reach(c) for c in cn.resets):
            up = {f}; work = [f]; odd = None
            while work:
                n = work.pop()
                if n in cn.resets and not p.cg.callers.get(n): continue
                for c in p.cg.callers.get(n, ()):
                    if c in conc and c not in up: up.add(c); work.append(c)
            if (up & seen): r.bad('backoff-reset', i, 'the delay is reset while connecting or disconnecting')
            else: r.ok('%s: only from a timer' % i.where())
        elif asked(p, f): r.ok('%s: when a client asks for the console' % i.where())
        else: r.bad('backoff-reset', i, 'the delay is changed outside of the reconnection code')
    r.count(delay_stores=len(cn.dstores))

def asked(p, f):
    """is f only reached while a client's request is processed?"""
    root = set(); work = [f]; seen = {f}
    thr = {s[1] for g in p.funcs() for i in g.calls('pthread_create') for s in sinks(p, g, i.ops[2])}
    while work:
        n = work.pop(); cs = p.cg.callers.get(n, set())
        if n in thr: continue
        if not cs: return False
        for c in cs:
            if c not in seen: seen.add(c); work.append(c)
        if n == 'main': return False
    return bool(seen & thr)

@prop('R03', title='Each console has at most one timer running, and it is known', level='other',
      statement='A console never has two connection timers running: the id of every timer set for a console is recorded in that console, and a recorded timer is cancelled, has expired or never existed when it is overwritten. So a stale timer cannot reconnect or reset a console behind the back of a newer connection.',
      quantifier=dict(over=['histories', 'fault_sequences'], text='every path through the functions that set, cancel or record a console\'s timer'),
      why='Two timers for one console make two connections or drop a good one; that takes a reconnection that overlaps with a request, an inotify event or an early failure.',
      anchors=dict(files=['src/server-process.c', 'src/server-telnet.c', 'src/server-unixsock.c', 'src/server-ipmi.c', 'src/server-test.c'], mechanism=[dict(name='timer members', where='src/server.h'), dict(name='tpoll_timeout_cancel', where='src/tpoll.c')]),
      technique='path-sensitive typestate analysis of timers over LLVM IR, lifted to callers')
def R03(r, tier):
    r.rule('at each store to a member that records a cancellable timer: the previous id is known negative, was cancelled on this path, or belongs to the timer whose callback this is; each id obtained is stored in the object passed to the callback (a function that relies on its caller for this is analysed inside its callers)')
    p = build.load('conmand'); cn = Conn(p); conc = locks.concurrent(p)[0]
    st_ = {f.name for f in p.funcs() for i in f.insts() if i.op == 'store' and cn.timers & p.cg._target(f, i.ops[1])}
    fam = set()
    for n in st_: fam |= {c for i, cb in cn.arms if i.fn.name == n or i.fn.name in p.cg.reach(n) for c in cb}
    names = (st_ | {i.fn.name for i, cb in cn.arms if cb & fam}) & conc
    viol, stats, rules = lift(p, lambda q, inl: One(q, cn, inl), sorted(names), roots={n for n, c in cn.of.items() if len(c) > 1}, K=8)
    n = {}
    for f, x in rules:
        for k, d in x.n.items(): n.setdefault(k, {}).update(d)
    bs = set()
    for b in viol:
        bs.add(b['site'].id); r.bad(b['kind'], b['site'], b['msg'], path=b['path'])
    r.need(len(n.get('store', {})), 'stores of timer ids', 10)
    for i in n['store'].values():
        if i.id not in bs: r.ok('%s: the previous timer is gone' % i.where())
    r.count(functions_analysed=stats['functions'], steps=stats['steps'], timer_members=len(cn.timers), stores=len(n['store']))

@prop('R04', title='A new connection starts afresh', level='other',
      statement='What the daemon remembered of a console\'s previous connection does not affect the next one: when a connection to a console is closed because it ended or failed, its unsent output is discarded and its end-of-file mark cleared before it is opened again; and when a telnet console becomes connected, no unfinished telnet command is remembered.',
      quantifier=dict(over=['histories', 'inputs'], text='every way a connection can end, after any bytes received, followed by a reconnection'),
      why='A connection that breaks between the bytes of a telnet command, or with output pending, is needed to see the next connection lose its first byte or receive stale keystrokes.',
      anchors=dict(files=['src/server-obj.c', 'src/server-telnet.c'], mechanism=[dict(name='shutdown_obj', where='src/server-obj.c'), dict(name='iac', where='src/server-telnet.c:connect_telnet_obj')]),
      technique='path-sensitive typestate analysis of object members over LLVM IR')
def R04(r, tier):
    r.rule('at every return in state UP reached on this path: members of the connection data that receiving code stores hold their initial constant; at every call that reopens an object closed on the path: bufInPtr == bufOutPtr and gotEOF == 0')
    p = build.load('conmand'); cn = Conn(p)
    mem = remembered(p, cn)
    r.need(len(mem), 'members remembered between reads', 1)
    p, cn, runs = conn_runs(r, Fresh, tier, mem)
    report(r, runs, ('remembered',), 'nothing is remembered from the previous connection', 0)
    conc = locks.concurrent(p)[0]; fl = []; steps = 0
    for f in p.funcs():
        if f.name in conc and any(len(cn.of.get(c, ())) > 1 for c in p.cg.callees[f.name]) and 'close' in p.cg.reach(f.name) and any(i.x and len(cn.of.get(i.x, ())) > 1 and i.ops for i in f.insts() if i.op == 'call'):
            x = Flush(p, cn); x.A = a = Analysis(p.mod, x, p.cg, K=4, max_steps=100000)
            try: a.run(f.name)
            except Budget: continue
            if x.n.get('reopen'): fl.append(x); steps += a.steps
    nv, tot = data.finish(r, fl, dict(reopen=('reopenings', 'reopenings of an object whose connection was closed', 1)))
    if not nv: r.ok('an object is reopened only with its buffer empty and its end-of-file mark cleared')
    r.info['remembered'] = ', '.join(sorted(mem))
