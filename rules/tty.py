"""C: the client and its terminal"""
from absint import *
from core import Broken
from registry import prop
import build

NAMES = {1: 'SIGHUP', 2: 'SIGINT', 3: 'SIGQUIT', 13: 'SIGPIPE', 15: 'SIGTERM'}
STOP = {19, 20, 21, 22}
HARD = {'_exit', '_Exit', 'quick_exit', 'abort', '__assert_fail'}

def handlers(p):
    """functions of the program that may run as signal handlers: their address is taken"""
    return {n for n in p.cg.addr_taken if n in p.mod.funcs and not p.mod.funcs[n].decl}

class Cli(Rule):
    """paths of the client from main(); isatty() of a descriptor has one answer for the whole run"""
    exit_k = 6
    EVENTS = {'tcgetattr', 'tcsetattr', 'cfmakeraw', 'sigaction', 'signal', 'kill', 'raise', 'atexit'}
    def __init__(self, p):
        self.p = p; self.bad = []; self.n = {}
        self.touch = p.cg.reaching(self.EVENTS)
        self.async_ = {}
        for h in handlers(p):
            for g in {h} | p.cg.reach(h):
                f = p.mod.funcs.get(g)
                if f is None or f.decl: continue
                for i in f.insts():
                    if i.op == 'store' and i.ops[1][0] == '@': self.async_.setdefault(i.ops[1][1], set()).add(i.ops[0])
    def inline(self, t, st, i, a): return t.name in self.touch
    def fail(self, kind, i, msg, st): self.bad.append(dict(kind=kind, site=i, at=i, msg=msg, path=st.lines(14)))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def on_load(self, st, i, a):
        if a[0] == 'g' and a[1] in self.async_ and self.async_[a[1]] != {st.mem.get(a)}: st.mem.pop(a, None)
    def same(self, st, i, name, k):
        v = ('s', 0, name, k); st.mem[('g', '$%s%s' % (name, k))] = v      # kept so that what is learnt about it is
        return [(st, v)]
    def on_call(self, st, i, name, args):
        if name == 'isatty' and st.const(args[0]) is not None: return self.same(st, i, 'isatty', st.const(args[0]))
        return None

class Tty(Cli):
    """prop = (mode of the terminal: 'orig' | 'alt' | 'lost', snapshots {(address, mode)}, {(signal, handler)}, exit handlers)"""
    def initial(self): return ('orig', frozenset(), frozenset(), ())
    def put(self, st, **k):
        m, s, g, x = st.prop
        st.prop = (k.get('m', m), k.get('s', s), k.get('g', g), k.get('x', x))
    def snap(self, st, a):
        for x, m in st.prop[1]:
            if x == a: return m
        return 'alt'
    def mark(self, st, a, m):
        self.put(st, s=frozenset(x for x in st.prop[1] if x[0] != a) | {(a, m)})
    def spoil(self, st, a):
        b, q = base_of(a), path_of(a)
        hit = [x for x in st.prop[1] if base_of(x[0]) == b and path_of(x[0])[:len(q)] == q[:len(path_of(x[0]))] and (len(q) <= len(path_of(x[0])) or q[:len(path_of(x[0]))] == path_of(x[0]))]
        if hit: self.put(st, s=st.prop[1] - frozenset(hit))
    def on_store(self, st, i, a, v):
        if st.prop[1]: self.spoil(st, a)
    def on_call(self, st, i, name, args):
        A = self.A
        if name == 'tcgetattr':
            k = st.const(args[0])
            if k not in (0, 1, 2): return None
            self.seen('get', i); s2 = st.copy(); A.kill_under(st, args[1]); self.spoil(st, args[1]); self.mark(st, args[1], st.prop[0])
            return [(st, Z), (s2, ('i', -1))]
        if name == 'tcsetattr':
            k = st.const(args[0])
            if k not in (0, 1, 2): return None
            s2 = st.copy(); m = self.snap(st, args[2]); self.put(st, m=m)
            self.seen('set' if m == 'alt' else 'restore', i)
            if m == 'alt': self.exposed(st, i)
            else: self.put(s2, m='lost')        # it could not be restored: nothing more to be done
            return [(st, Z), (s2, ('i', -1))]
        if name in ('llvm.memcpy.p0.p0.i64', 'memcpy', 'memmove') or name.startswith('llvm.memcpy'):
            if st.prop[1]:
                src = dict(st.prop[1]).get(args[1]); self.spoil(st, args[0])
                if src is not None: self.mark(st, args[0], src)
            return None
        if name in ('sigaction', 'signal'):
            n = st.const(args[0]); h = None
            if name == 'signal': h = args[1]
            elif args[1] != Z:
                hs = [(k, v) for k, v in st.mem.items() if base_of(k) == base_of(args[1]) and 'handler' in last_of(k)] or [(k, v) for k, v in st.mem.items() if base_of(k) == base_of(args[1])]
                h = hs[0][1] if hs else UNDEF
            if n is not None and h is not None:
                if h[0] != 'g' and h != UNDEF and st.const(h) is not None: h = ('i', st.const(h))
                self.put(st, g=frozenset(x for x in st.prop[2] if x[0] != n) | {(n, h)})
                if st.prop[0] == 'alt': self.exposed(st, i)
            return [(st, Z)]
        if name in ('atexit', 'on_exit'):
            if args[0][0] == 'g': self.put(st, x=st.prop[3] + ((args[0][1],) if args[0][1] not in st.prop[3] else ()))
            self.seen('atexit', i)
            return [(st, Z)]
        if name in ('kill', 'raise', 'killpg'):
            n = st.const(args[-1])
            if n in STOP:
                self.seen('stop', i)
                if st.prop[0] == 'alt': self.fail('stopped', i, 'the client stops itself while the terminal is not in its original mode', st)
            return [(st, A.fresh(st, i, 'k'))]
        t = self.p.mod.funcs.get(name)
        if t is not None and not t.decl and name not in self.p.cg.noreturn and not self.inline(t, st, i, args) and (st.prop[1] or st.prop[0] == 'alt'):
            mods = self.p.cg.mods(name)
            if any('termios' in x for x in mods): self.put(st, s=frozenset())
            if st.prop[0] == 'alt' and self.p.cg.reach(name) & EXT_NORETURN: self.on_exit(st.copy(), i, name, args)
        elif t is None or t.decl:
            if st.prop[1] and name not in A.PURE:
                for a in args:
                    if a[0] in ('al', 'a', 'g'): self.spoil(st, a)
        return super().on_call(st, i, name, args)
    def exposed(self, st, i):
        d = dict(st.prop[2])
        for n, what in NAMES.items():
            h = d.get(n, Z)
            if h == Z: self.fail('signal', i, 'the terminal is taken out of its original mode although %s would end the client at once' % what, st)
            elif h[0] == 'g' and h[1] in self.p.mod.funcs and not self.p.mod.funcs[h[1]].decl:
                f = self.p.mod.funcs[h[1]]; self.seen('handler', i)
                if {h[1]} & self.p.cg.noreturn or self.p.cg.reach(h[1]) & (EXT_NORETURN | self.p.cg.noreturn):
                    self.A.inline(st.copy(), i, f, [('i', n)])
    def on_exit(self, st, i, name, args):
        if st.prop[0] == 'alt': self.seen('exit-raw', i)
        hard = name in HARD or self.p.cg.reach(name) & HARD if name in self.p.cg.callees else name in HARD
        outs = [(st, None)]
        if not hard:
            for h in reversed(st.prop[3]):
                f = self.p.mod.funcs.get(h)
                if f is None or f.decl: continue
                outs = [o for s, _ in outs for o in self.A.inline(s.copy(), i, f, [])]
        for s, _ in outs:
            if s.prop[0] == 'alt': self.fail('exit', i, 'the client may end here (%s()) without restoring the terminal' % name, st); break
    def on_return(self, st, f, rv, t):
        if not self.A.stack:
            self.seen('return', t)
            if st.prop[0] == 'alt' and not st.prop[3]: self.fail('exit', t, 'the client returns from main() without restoring the terminal', st)
            elif st.prop[0] == 'alt': self.on_exit(st, t, 'exit', [])

def run(rule, p, tier, steps=400000):
    if 'main' not in p.mod.funcs: raise Broken('no main() in the client')
    a = Analysis(p.mod, rule, p.cg, K=4 if tier == 'quick' else 8, max_steps=steps)
    a.run('main')
    return a

def obl(r, rule, kinds, groups):
    bad = set()
    for b in rule.bad:
        if b['kind'] in kinds:
            bad.add(b['site'].id); r.bad(b['kind'], b['site'], b['msg'], path=b['path'])
    for k, d in groups.items():
        for x, i in rule.n.get(k, {}).items():
            if x not in bad: r.ok('%s: %s' % (i.where(), d))

TECH = 'path-sensitive interprocedural typestate analysis over LLVM IR of the client, from main()'

@prop('C01', title='The client always gives the terminal back as it was', level='other',
  statement='Whenever the client ends by itself, by returning or by exit() after any error, the mode its terminal had before is in force again, unless the terminal itself refused it; so also before it stops itself on the suspend escape. While the terminal is in another mode, none of the signals HUP, INT, QUIT, PIPE and TERM has its default effect of ending the client at once.',
  quantifier=dict(over=['inputs', 'schedules'], text='every path of the client from start to any exit, with any outcome of any system call and any input from terminal or server'),
  why='A terminal left raw and without echo is unusable; it takes a failure in the middle of a session (server reset, full disk under the client log) or a signal to expose, and tests have no terminal.',
  anchors=dict(files=['src/client-tty.c', 'src/common.c', 'src/util.c'], mechanism=[dict(name='connect_console / perform_suspend_esc', where='src/client-tty.c'), dict(name='set_tty_mode', where='src/common.c')]), technique=TECH)
def C01(r, tier):
    r.rule('typestate of the terminal: tcsetattr() of a struct that is an unmodified copy of what tcgetattr() gave while the mode was original restores it, of any other changes it; at each exit, with the registered exit handlers run, and at each self-inflicted stop the state is original')
    r.rule('whenever the state is changed, HUP, INT, QUIT, PIPE and TERM are ignored or handled, and a handler that ends the client restores the terminal')
    p = build.load('conman'); x = Tty(p); a = run(x, p, tier)
    obl(r, x, {'exit', 'stopped', 'signal'}, {'exit-raw': 'the terminal is restored on exit', 'set': 'signals do not end the client at once', 'stop': 'stops with the terminal restored', 'return': 'returns with the terminal restored'})
    r.need(len(x.n.get('set', {})), 'terminal mode changed'); r.need(len(x.n.get('restore', {})), 'terminal mode restored'); r.need(len(x.n.get('stop', {})), 'suspend'); r.need(len(x.n.get('return', {})), 'return of main')
    r.need(len(x.n.get('exit-raw', {})), 'exits while the terminal is raw', 4)
    r.count(functions_analysed=len(a.funcs_seen), steps=a.steps)

# ------------------------------------------------------------ what is typed
ESC = 0xff
CMD = 'request.command'; BCAST = 'request.enableBroadcast'; RESET = 'request.enableReset'; SD = 'request.sd'; ESCC = 'client_conf.escapeChar'; LOGD = 'client_conf.logd'; CONS = 'request.consoles'; COUNT = ('g', '#consoles')
TABLE = set(map(ord, 'B.DEF?IJLMQRZ'))
SENT = set(map(ord, 'BDFJLMQRZ'))       # escapes the server is told about
WRITES = {'write', 'send', 'writev', 'sendto', 'sendmsg'}

def writers(p):
    """functions of the program that write all of a buffer they are given to a descriptor they are given, however often write() has to be called for it: name -> (fd, buf, len) parameter indices"""
    cand = {}; full = set(); more = True
    def again(i):
        b = next(x for x in i.fn.blocks if i in x.insts); seen = []; w = list(b.succs)
        while w:
            x = w.pop()
            if x == b: return True
            if x not in seen: seen.append(x); w += x.succs
        return False
    while more:
        more = False
        for f in p.funcs():
            if len(f.params) < 3: continue
            for i in f.calls('write', 'send', *cand):
                if i.x == f.name: continue
                k = cand.get(i.x, (0, 1, 2))[0]; fd = i.ops[k]
                if not (fd[0] == '%' and fd[1] in f.params): continue
                n = len(cand), len(full); cand[f.name] = (f.params.index(fd[1]), 1, 2)
                if i.x in full or again(i): full.add(f.name)
                more |= n != (len(cand), len(full))
    return {k: v for k, v in cand.items() if k in full}

def short(A, st, i, n):
    """what a write() that wrote less than n bytes returned"""
    v = A.fresh(st, i, 'short'); k = st.const(n); st.facts[v] = (0, INF if k is None else max(k - 1, 0), frozenset())
    for q, t in (('eq', 0), ('ne', 1), ('slt', 1), ('sge', 0)): st.facts[('cmp', q, v, n)] = (t, t, frozenset())
    for q, t in (('eq', 0), ('ne', 1), ('sgt', 1), ('sle', 0)): st.facts[('cmp', q, n, v)] = (t, t, frozenset())
    return v

class Keys(Cli):
    """prop = (state of the escape sequence before this byte: 'plain' | 'esc', the byte typed or None, what was sent for it: None | 'text' | 'fail' | ('esc', char), members of the request when it was typed)"""
    elem_sum = True
    def __init__(self, p):
        self.EVENTS = {'read', 'recv', 'select', 'poll'} | WRITES | {'tcsetattr'}
        super().__init__(p)
        for f in p.funcs():
            if any(i.op == 'store' and any(x.split('.')[0] == 'request' for x in (p.cg._target(f, i.ops[1]) or ())) for i in f.insts()) or any(True for i in f.calls("list_count")): self.touch = self.touch | {f.name}
        self.wr = writers(p); self.sd = set(); self.cons = set(); self.CONNECT = p.mod.enums.get('CONMAN_CMD_CONNECT', 1); self.MONITOR = p.mod.enums.get('CONMAN_CMD_MONITOR', 2)
    def initial(self): return ('start', None, None, frozenset())
    def setup(self, st, f, args):
        self.own = []
        for n, g in self.p.mod.globals.items():
            if not g.const and g.init and g.init[0] == 'i' and g.ty in ('i32', 'i8', 'i64', 'i16') and n not in self.async_: st.mem[('g', n)] = g.init; self.own.append(('g', n))
    def key(self, st):
        P, c, s, inc = st.prop; w = ()
        if c is not None:
            e = self.conf(st, ESCC); v = self.conf(st, CMD)
            w = (st.const(c), None if e is None else self.equal(st, c, e), tuple(sorted((l, st.const(x), st.nonzero(x)) for l, x in inc)), None if v is None else st.const(v))
        g = tuple(st.const(st.mem[k]) if k in st.mem else None for k in self.own)
        return (st.prop, w, g, self.single(st) if st.prop[0] == 'start' else None, tuple(sorted((k, v) for k, v in st.env.items() if v and (v[0] == 'al' or v[0] == 'a' and v[1][0] == 'al' and '[]' not in v[2]))))
    def note(self, st, i, a):
        l = last_of(a)
        if l in (CMD, BCAST, RESET) and st.prop[1] is not None and not any(k == l for k, _ in st.prop[3]):
            v = st.mem.get(a)
            if v is None: v = st.mem[a] = self.A.fresh(st, i, ('ld', l))
            P, b, s, inc = st.prop; st.prop = (P, b, s, inc | {(l, v)})
    def on_load(self, st, i, a):
        super().on_load(st, i, a)
        l = last_of(a)
        if l == SD: self.sd.add(self.A.load_at(st, i, a))
        if l == CONS: self.cons.add(self.A.load_at(st, i, a))
        if '.#bf' in l:
            for f in (CMD, BCAST, RESET):
                if l.split('.')[0] == f.split('.')[0]: self.note(st, i, addr(base_of(a), path_of(a)[:-1] + (f,)))
        else: self.note(st, i, a)
    def inc(self, st, l):
        for k, v in st.prop[3]:
            if k == l: return v
        return None
    def is_sd(self, v):
        while v[0] == 'old': v = v[1]
        return v in self.sd
    def conf(self, st, l):
        for k, v in st.mem.items():
            if last_of(k) == l: return v
        return None
    def equal(self, st, a, b):
        """True / False / None"""
        if a == b: return True
        x, y = st.const(a), st.const(b)
        if x is not None and y is not None: return x & 255 == y & 255
        for u, w in ((a, b), (b, a)):
            for q, t in (('eq', True), ('ne', False)):
                f = st.facts.get(('cmp', q, u, w))
                if f and f[0] == f[1]: return t == bool(f[0])
        fa, fb = st.fact(a), st.fact(b)
        for c, f in ((x, fb), (y, fa)):
            if c is not None and (c in f[2] or c < f[0] or c > f[1]): return False
        return None
    def single(self, st):
        """(no broadcast?, certainly not one console?)"""
        b = self.conf(st, BCAST); n = st.mem.get(COUNT)
        return b is not None and bool(st.iszero(b)), n is not None and self.equal(st, n, ('i', 1)) is False
    def begin(self, st, i):
        """the session begins: that of a single console is no broadcast"""
        P, c, s, inc = st.prop
        if P != 'start': return
        st.prop = ('plain', c, s, inc); self.seen('session', i)
        ok = self.single(st); st.mem.pop(COUNT, None)
        if not any(ok):
            self.fail('single', i, 'a session with a single console may be taken for a broadcast, in which reading only and replay of the log are refused', st)
    def on_call(self, st, i, name, args):
        A = self.A
        if name in ('read', 'recv') and st.const(args[0]) == 0 or name in ('select', 'poll', 'ppoll', 'pselect', 'epoll_wait', 'getchar', 'fgetc', 'getc'): self.begin(st, i)
        if name == 'list_count' and st.prop[0] == 'start' and args[0] in self.cons:
            v = st.mem.get(COUNT)
            if v is None: v = st.mem[COUNT] = A.fresh(st, i, 'count'); st.facts[v] = (0, INF, frozenset())
            return [(st, v)]
        if name in ('read', 'recv') and st.const(args[0]) == 0 or name in ('getchar', 'fgetc', 'getc'):
            if name not in ('read', 'recv') or st.const(args[2]) != 1: raise Broken('the terminal is not read one character at a time')
            self.finish(st, i); self.seen('typed', i)
            P = st.prop[0]
            st.prop = (P, None, None, frozenset())
            s1 = st.copy(); s2 = st.copy(); s3 = st
            A.kill_under(s3, args[1]); v = A.fresh(s3, i, 'c'); s3.facts[v] = (0, 255, frozenset()); s3.mem[args[1]] = v
            s3.prop = (P, v, None, frozenset())
            return [(s1, ('i', -1)), (s2, Z), (s3, ('i', 1))]
        if name in ('select', 'poll', 'ppoll', 'pselect', 'epoll_wait'): self.finish(st, i)
        k = self.wr.get(name) or ((0, 1, 2) if name in ('write', 'send') else None)
        if k:
            fd, buf, n = (args[x] for x in k)
            s2 = st.copy()
            if self.is_sd(fd): self.wrote(st, i, buf, n); P, b, s, inc = s2.prop; s2.prop = (P, b, 'fail' if b is not None else s, inc)
            elif not (fd[0] == 'i' or st.const(fd) is not None): self.other(st, i, fd)
            st.mem.pop(('g', 'errno'), None); s2.mem.pop(('g', 'errno'), None); out = [(st, n), (s2, ('i', -1))]
            if name not in self.wr and self.is_sd(fd): s3 = s2.copy(); out.append((s3, short(A, s3, i, n)))
            return out
        if name in WRITES:
            if args and self.is_sd(args[0]): self.fail('form', i, 'something else is written to the server', st)
        return super().on_call(st, i, name, args)
    def other(self, st, i, fd): pass
    def inline(self, t, st, i, a): return t.name in self.touch and t.name not in self.wr
    def char(self, st, buf, k): return st.mem.get(addr(buf, ('[%d]' % k,)) if k else buf)
    def wrote(self, st, i, buf, n):
        P, c, s, inc = st.prop; n = st.const(n)
        if c is None: self.seen('idle', i); self.fail('untyped', i, 'something is sent to the server that was not typed', st); return
        if n is None or n > 64: self.fail('text', i, 'a number of bytes that is not definite is sent for one character', st); return
        v = [self.char(st, buf, k) for k in range(n)]
        if None in v: self.fail('text', i, 'bytes that were never set are sent', st); return
        if s is not None and s != ('esc', ord('Z')): self.fail('text', i, 'a character is sent more than once', st); return
        isE = lambda x: self.equal(st, x, ('i', ESC))
        if n == 2 and isE(v[0]) and isE(v[1]) is not True:
            k = st.const(v[1]); self.seen('escape', i); self.__dict__.setdefault('kinds', {})[(i.id, k)] = i; st.prop = (P, c, ('esc', k), inc)
            if k is None: self.fail('escape', i, 'an escape sequence is sent whose character is not known', st)
            elif P != 'esc' or not self.equal(st, c, ('i', k)): self.fail('escape', i, "the escape sequence '%c' is sent although it was not typed" % k, st)
            else: self.gate(st, i, chr(k & 255))
            return
        self.seen('text', i); st.prop = (P, c, 'text', inc)
        e = self.conf(st, ESCC)
        if e is not None and st.const(c) is not None and st.const(c) == st.const(e) and any(q in st.facts and bool(st.facts[q][0]) == t and st.facts[q][0] == st.facts[q][1] for u, w in ((c, e), (e, c)) for q, t in ((('cmp', 'ne', u, w), True), (('cmp', 'eq', u, w), False))): return        # no such path
        cmd = self.inc(st, CMD)
        if cmd is None or st.const(cmd) != self.CONNECT: self.fail('gate', i, 'what is typed may be sent although the session is not read-write', st)
        out = []; k = 0
        while k < n:
            e = isE(v[k])
            if e is None: self.fail('stuffing', i, 'a byte that may be the escape byte of the protocol is sent as it is', st); return
            if e:
                if k + 1 >= n or not isE(v[k + 1]): self.fail('stuffing', i, 'the escape byte of the protocol is not doubled', st); return
                k += 1
            out.append(v[k]); k += 1
        e = self.conf(st, ESCC); eq = self.equal
        if P == 'plain': ok = len(out) == 1 and eq(st, out[0], c)
        elif e is not None and eq(st, c, e): ok = len(out) == 1 and eq(st, out[0], c)
        elif len(out) == 1: ok = False
        else: ok = e is not None and len(out) == 2 and eq(st, out[0], e) and eq(st, out[1], c)
        if not ok: self.fail('text', i, 'what is sent is not what was typed' + (' after the escape character' if P == 'esc' else ''), st)
        if P == 'plain' and e is not None and eq(st, c, e) is not False: self.fail('escape', i, 'the escape character may be sent instead of beginning an escape sequence', st)
        if P == 'esc':
            f = st.fact(c)
            if any(self.equal(st, c, ('i', t)) is not False for t in TABLE): self.fail('escape', i, 'an escape sequence may be sent as text', st)
    def finish(self, st, i):
        """the byte typed before has been dealt with"""
        P, c, s, inc = st.prop
        if c is None: return
        e = self.conf(st, ESCC); self.seen('done', i); nxt = 'plain'
        if s == 'fail': self.fail('lost', i, 'a character that could not be sent is ignored', st)
        if s is None or s == 'text':
            if P == 'plain' and e is not None and self.equal(st, c, e): nxt = 'esc'
            elif P == 'plain':
                cmd = self.inc(st, CMD)
                if s is None and not (cmd is not None and self.equal(st, cmd, ('i', self.CONNECT)) is False): self.fail('lost', i, 'a character that was typed may not be sent', st)
                if e is None or self.equal(st, c, e) is not False: self.fail('escape', i, 'the escape character may not begin an escape sequence', st)
            elif s is None:
                k = st.const(c); cmd = self.inc(st, CMD)
                if k in TABLE: self.done_esc(st, i, chr(k), None)
                elif not (cmd is not None and self.equal(st, cmd, ('i', self.CONNECT)) is False): self.fail('lost', i, 'a character typed after the escape character may not be sent', st)
        elif s[0] == 'esc': self.done_esc(st, i, chr(s[1] & 255) if s[1] is not None else '', s)
        st.prop = (nxt, None, None, frozenset())
    def allowed(self, st, k):
        """was escape k permitted when it was typed? True / False / None"""
        cmd, b, x = self.inc(st, CMD), self.inc(st, BCAST), self.inc(st, RESET)
        con = self.equal(st, cmd, ('i', self.CONNECT)) if cmd is not None else None
        mon = self.equal(st, cmd, ('i', self.MONITOR)) if cmd is not None else None
        one = None if b is None else True if st.iszero(b) else False if st.nonzero(b) else None
        rst = None if x is None else True if st.nonzero(x) else False if st.iszero(x) else None
        L = {'B': [con], 'D': [con], 'F': [mon], 'J': [mon], 'M': [con, one], 'L': [one], 'R': [con, rst], 'Q': [], 'Z': []}.get(k)
        if L is None: return False
        return True if all(x is True for x in L) else False if False in L else None
    def gate(self, st, i, k):
        if not self.allowed(st, k): self.fail('gate', i, "the escape sequence '%s' is sent to the server in a session that may not permit it" % k, st)
    def done_esc(self, st, i, k, s):
        if s is None and ord(k) in SENT and self.allowed(st, k) is not False: self.fail('lost', i, "the escape sequence '%s' may not be sent to the server although the session permits it" % k, st)
        v = self.conf(st, CMD)
        if s is not None and k in 'FJM':
            want = self.MONITOR if k == 'M' else self.CONNECT
            if v is None or st.const(v) != want: self.fail('mode', i, "after the escape sequence '%s' the client does not take the session to be %s" % (k, 'read-only' if k == 'M' else 'read-write'), st)
        elif v is not None and self.inc(st, CMD) is not None and self.equal(st, v, self.inc(st, CMD)) is not True: self.fail('mode', i, "the escape sequence '%s' changes whether the client takes the session to be read-write" % k, st)

def sessions(p):
    """what main() calls that reads the terminal"""
    rd = {f.name for f in p.funcs() for i in f.calls('read', 'recv', 'getchar', 'fgetc', 'getc') if i.x not in ('read', 'recv') or i.ops[0] == ('i', 0)}
    # a reader that is handed its descriptor
    for f in p.funcs():
        for i in f.calls('read'):
            if i.ops[0][0] == '%' and i.ops[0][1] in f.params:
                k = f.params.index(i.ops[0][1])
                for c in p.cg.sites.get(f.name, []):
                    if k < len(c.ops) and c.ops[k] == ('i', 0): rd.add(f.name)
    up = rd | p.cg.reaching(rd)
    top = sorted(c for c in p.cg.callees['main'] if c in up) or (['main'] if 'main' in up else [])
    if not top: raise Broken('nothing reads the terminal')
    return top

_k = {}
def keys(tier):
    if tier in _k: return _k[tier]
    p = build.load('conman'); top = sessions(p); rules = []; st = [0, set()]
    for t in top:
        x = Keys(p); a = Analysis(p.mod, x, p.cg, K=4 if tier == 'quick' else 8, max_steps=1500000); a.run(t)
        rules.append(x); st[0] += a.steps; st[1] |= a.funcs_seen
    m = rules[0]
    for x in rules[1:]:
        m.bad += x.bad; m.__dict__.setdefault('kinds', {}).update(getattr(x, 'kinds', {}))
        for k, d in x.n.items(): m.n.setdefault(k, {}).update(d)
    _k[tier] = p, m, st
    return _k[tier]

@prop('C02', title='What the user types is what is sent', level='other',
  statement='In a read-write session every character typed that is not part of an escape sequence is sent to the daemon once and in order, with the escape byte of the protocol doubled; the escape character followed by itself is sent once, and followed by a character that makes no escape sequence both are sent. A character that begins or completes an escape sequence is never sent as text.',
  quantifier=dict(over=['inputs'], text='every sequence of characters typed, any escape character, every path of the session'),
  why='A single undoubled 0xFF would be taken by the daemon as a command to the console (break, reset); the combinations of escape character, 0xFF and unknown escapes are not sampled by any test.',
  anchors=dict(files=['src/client-tty.c'], mechanism=[dict(name='read_from_stdin', where='src/client-tty.c')]), technique='path-sensitive abstract interpretation over LLVM IR of the session loop against a two-state transducer; exact contents of the send buffer')
def C02(r, tier):
    r.rule('between two reads of the terminal: the bytes written to the server, unstuffed, are what the transducer (plain/escape) prescribes for the character read; nothing is sent if none was read')
    r.rule('where the character typed is compared with the escape character both are extended to int alike')
    p, x, s = keys(tier)
    obl(r, x, {'untyped', 'text', 'stuffing', 'lost', 'form'} | {'escape'}, {'typed': 'every character read is accounted for', 'text': 'what is sent is what was typed', 'done': 'the character typed before is dealt with'})
    r.need(len(x.n.get('typed', {})), 'reads of the terminal'); r.need(len(x.n.get('text', {})), 'text sent')
    n = 0
    for f in sorted(s[1]):
        g = p.mod.funcs[f]
        for i in g.insts():
            if i.op != 'icmp' or i.x not in ('eq', 'ne'): continue
            d = [g.defs.get(o[1]) if o[0] == '%' else None for o in i.ops]
            if None in d or {q.op for q in d} - {'zext', 'sext'} or any(q.x != 'i8' for q in d): continue
            n += 1
            if d[0].op != d[1].op: r.bad('signedness', i, 'a character is compared with one extended differently: they never match above 127')
            else: r.ok('%s: characters compared alike' % i.where())
    r.count(functions_analysed=len(s[1]), steps=s[0], character_comparisons=n)

@prop('C03', title='A read-only session sends nothing to the console', level='other',
  statement='While its session is read-only the client sends nothing typed, nor a break, DEL or reset; the escapes that force or join are sent only from a read-only session, the one for read-only only from a read-write session that is no broadcast, log replay in no broadcast, reset only if the daemon offered it; where permitted each is sent. After force, join or monitor the client takes the session to be of the new kind, and no other escape changes this. A session with a single console counts as no broadcast.',
  quantifier=dict(over=['inputs'], text='every sequence of escapes and characters typed'),
  why='A client that loses track of its mode types into consoles its user only meant to watch; it takes a sequence of escapes to expose.',
  anchors=dict(files=['src/client-tty.c'], mechanism=[dict(name='perform_*_esc', where='src/client-tty.c')]), technique='path-sensitive abstract interpretation over LLVM IR of the session loop')
def C03(r, tier):
    r.rule('at each write to the server: text only with req->command known to be CONNECT when the character was read; escape characters only under their guard on command, enableBroadcast and enableReset as they were when it was read, and then the command is as the escape prescribes')
    p, x, s = keys(tier)
    obl(r, x, {'gate', 'mode', 'single'}, {'text': 'text only in a read-write session', 'session': 'no broadcast with a single console'}); r.need(len(x.n.get('session', {})), 'begin of a session')
    bad = {b['site'].id for b in x.bad if b['kind'] in ('gate', 'mode')}
    for (n, k), i in getattr(x, 'kinds', {}).items():
        if n not in bad and k is not None: r.ok("%s: escape '%c' only where permitted" % (i.where(), k & 255))
    r.need(len({k for n, k in getattr(x, 'kinds', {})}), 'kinds of escape sequence sent', len(SENT)); r.need(len(x.n.get('text', {})), 'text sent')
    r.count(functions_analysed=len(s[1]), steps=s[0])

# ------------------------------------------------------------ what is received
class Relay(Cli):
    """prop = (buffer, length, shown, logged) of what was received last, or None"""
    elem_sum = True
    def __init__(self, p):
        self.EVENTS = {'read', 'recv'} | WRITES
        super().__init__(p); self.wr = writers(p); self.sd = set(); self.logd = set()
    def initial(self): return None
    def inline(self, t, st, i, a): return t.name in self.touch and t.name not in self.wr
    def on_load(self, st, i, a):
        super().on_load(st, i, a)
        if last_of(a) == SD: self.sd.add(self.A.load_at(st, i, a))
        if last_of(a) == LOGD: self.logd.add(self.A.load_at(st, i, a))
    @staticmethod
    def org(v):
        while v[0] == 'old': v = v[1]
        return v
    def on_call(self, st, i, name, args):
        A = self.A
        if name in ('read', 'recv') and self.org(args[0]) in self.sd:
            self.finish(st, i); self.seen('received', i)
            s1, s2 = st.copy(), st.copy()
            A.kill_under(st, args[1]); n = A.fresh(st, i, 'n'); st.facts[n] = (1, INF, frozenset()); st.prop = (args[1], n, False, False)
            d = i.fn.defs.get(i.ops[1][1]) if i.ops[1][0] == '%' else None
            k = st.const(args[2]); z = self.room(args[1])
            if z is not None and (k is None or k > z): self.fail('size', i, 'more may be read than the buffer holds', st)
            return [(s1, ('i', -1)), (s2, Z), (st, n)]
        k = self.wr.get(name) or ((0, 1, 2) if name in ('write', 'send') else None)
        if k and st.prop is not None:
            fd, buf, n = (args[x] for x in k); b, m, shown, logged = st.prop
            if self.org(fd) in self.sd: return None
            s2 = st.copy(); s3 = st.copy(); out = [(st, n), (s2, ('i', -1))]
            if name not in self.wr: out.append((s3, short(A, s3, i, n)))
            if base_of(buf) == base_of(b):
                log = self.org(fd) in self.logd
                if buf != b or n != m: self.fail('altered', i, 'something other than all that was received is written', st)
                elif logged if log else shown: self.fail('altered', i, 'what was received is written twice', st)
                else:
                    st.prop = (b, m, shown or not log, logged or log); self.seen('logged' if log else 'shown', i)
            return out
        if st.prop is not None and name not in A.PURE:
            t = self.p.mod.funcs.get(name)
            if (t is None or t.decl) and any(base_of(a) == base_of(st.prop[0]) for a in args) and not name.startswith('llvm.lifetime') and not name.startswith('llvm.dbg'): self.fail('altered', i, 'what was received may be changed before it is written', st)
        return super().on_call(st, i, name, args)
    def room(self, v):
        if v[0] != 'al': return None
        for f in self.p.funcs():
            for i in f.insts():
                if i.id == v[2] and i.op == 'alloca': return self.p.mod.layout(i.ty)[0]
    def on_store(self, st, i, a, v):
        if st.prop is not None and base_of(a) == base_of(st.prop[0]): self.fail('altered', i, 'what was received may be changed before it is written', st)
    def finish(self, st, i):
        if st.prop is None: return
        b, m, shown, logged = st.prop; st.prop = None; self.seen('relayed', i)
        if not shown: self.fail('shown', i, 'what was received may not be shown', st)
        if not logged:
            l = None
            for k, v in st.mem.items():
                if last_of(k) == LOGD: l = v
            if l is None or st.fact(l)[1] >= 0: self.fail('logged', i, "what was received may not be written to the client's log", st)
    def on_return(self, st, f, rv, t):
        if not self.A.stack: self.finish(st, t)

def readers(p):
    import data
    out = set()
    for f in p.funcs():
        for i in f.calls('read', 'recv'):
            if i.ops[2] == ('i', 1): continue
            d = i.ops[0]
            if SD in data.value_slots(p, f, d):
                x = f.name
                # a helper that is handed the socket: its callers
                out |= {x} if not (d[0] == '%' and d[1] in f.params) else set(p.cg.callers.get(x, ()))
    return sorted(out)

@prop('C04', title='Everything received is shown and logged by the client', level='other',
  statement='All bytes the client receives from the daemon as console output, or as text that follows a response, are written unchanged, once and in full to its output and, if the user asked for a log, to that log, before anything more is received; if that fails the client ends with an error. No more is received at once than its buffer holds.',
  quantifier=dict(over=['inputs', 'faults'], text='every path of the functions that receive console output, any number of bytes received'),
  why='Lost or doubled output in the log of a session shows only with particular packet sizes and full disks.',
  anchors=dict(files=['src/client-tty.c', 'src/client-sock.c'], mechanism=[dict(name='write_to_stdout', where='src/client-tty.c'), dict(name='display_data', where='src/client-sock.c')]), technique='path-sensitive typestate analysis over LLVM IR')
def C04(r, tier):
    r.rule('after each successful read of the connection of n bytes into b and before the next, or return: write of (b, n) to the output, and to conf->logd unless that is negative; no store into b and no other write of b in between; a failed write ends the client')
    p = build.load('conman'); names = readers(p); steps = 0; n = {}
    if not names: raise Broken('nothing receives console output')
    for f in names:
        x = Relay(p); a = Analysis(p.mod, x, p.cg, K=4 if tier == 'quick' else 8, max_steps=400000); a.run(f); steps += a.steps
        obl(r, x, {b['kind'] for b in x.bad}, {'received': 'received within the buffer', 'relayed': 'all that was received has been written', 'shown': 'shown as received', 'logged': 'logged as received'})
        for k, d in x.n.items(): n.setdefault(k, {}).update(d)
    for k, w in (('received', 'reads of the connection'), ('shown', 'output'), ('logged', 'log')): r.need(len(n.get(k, {})), w)
    r.count(functions_analysed=len(names), steps=steps)
