from absint import *
from core import Broken
from registry import prop
from must import Must, consts
import build, causes, locks, daemon

SIGKILL = 9
PID, STATE = 'process_obj.pid', 'process_obj.state'
RPID = 'base_obj.resetCmdPid'

def stores_to(p, field):
    return [i for f in p.funcs() for i in f.insts() if i.op == 'store' and p.fp.slot_of_addr(f, i.ops[1]) == ('f', field)]

# ------------------------------------------------------------------ P03 environment
ENVFN = {'putenv', 'setenv', 'unsetenv', 'clearenv'}
def env_value_sources(p, f, o, seen=None, d=0):
    """functions whose result may be stored in environ / 'own' for a value read from environ itself"""
    if seen is None: seen = set()
    if o[0] == 'i': return {('const', o[1])}
    if o[0] != '%' or (f.name, o[1]) in seen or d > 8: return set()
    seen.add((f.name, o[1]))
    i = f.defs.get(o[1])
    if i is None: return {('param',)}
    if i.op == 'call': return {('fn', i.x)}
    if i.op == 'load':
        s = p.fp.slot_of_addr(f, i.ops[0])
        if s == ('g', 'environ'): return {('own',)}
        if s and s[0] == 'l':
            out = set()
            for j in f.insts():
                if j.op == 'store' and p.fp.slot_of_addr(f, j.ops[1]) == s: out |= env_value_sources(p, f, j.ops[0], seen, d + 1)
            return out
        return {('mem', s)}
    out = set()
    for q in ([v for v, _ in i.x] if i.op == 'phi' else i.ops): out |= env_value_sources(p, f, q, seen, d + 1)
    return out

def const_strings(p, names):
    """every string constant a set of functions refers to, also through constant tables"""
    out = {}
    def glob(n, f, d=0):
        g = p.mod.globals.get(n)
        if g is None or g.init is None or d > 3: return
        s = p.mod.cstr(('@', n))
        if s is not None: out.setdefault(s, f)
        def walk(v):
            if v[0] == '@': glob(v[1], f, d + 1)
            elif v[0] == 'gepc': glob(v[2][0][1][1], f, d + 1)
            elif v[0] == 'agg':
                for x in v[1]: walk(x)
        walk(g.init)
    for n in names:
        f = p.mod.funcs[n]
        for i in f.insts():
            for o in ([v for v, _ in i.x] if i.op == 'phi' else i.ops):
                if o[0] == '@': glob(o[1], f)
                elif o[0] == 'gepc': glob(o[2][0][1][1], f)
    return out

def table_loop(p, f, c):
    """loops over a constant table: from the first element to the terminator"""
    def resolve(o, d=0):
        # operand -> (table, offset) with table = alloca initialised from a constant, or a constant global
        if o[0] == '@':
            g = p.mod.globals.get(o[1]); return (o[1], 0) if g is not None and g.init is not None and g.init[0] == 'agg' else None
        if o[0] == 'gepc':
            b = o[2][0][1]; idx = [x[1] for x in o[2][1:]]
            return (b[1], sum(x[1] for x in idx if x[0] == 'i')) if b[0] == '@' else None
        if o[0] != '%' or d > 6: return None
        i = f.defs.get(o[1])
        if i is None: return None
        if i.op == 'alloca':
            for j in f.insts():
                if j.op == 'call' and j.x and j.x.startswith('llvm.memcpy') and j.ops[0] == o and j.ops[1][0] in ('@', 'gepc'): return (i.res, 0)
            return None
        if i.op == 'getelementptr':
            b = resolve(i.ops[0], d + 1)
            if b is None: return None
            if any(x[0] != 'i' for x in i.ops[1:]): return (b[0], None)
            return (b[0], b[1] + sum(x[1] for x in i.ops[1:]))
        return None
    out = []
    for b in c:
        for q in b.phis():
            for v, lb in q.x:
                if f.bmap[lb] in c: continue
                t = resolve(v)
                idx = None
                if t is None and v[0] == 'i':
                    # an index used on a table inside the loop
                    for j in f.insts():
                        if j.bb in c and j.op == 'getelementptr':
                            u = resolve(j.ops[0])
                            if u and uses(f, j.ops[-1], q.res): t = (u[0], v[1] + (u[1] or 0)); idx = j; break
                if t is None: continue
                if t[1] != 0: out.append(('table-not-from-start', q, 'a loop over the table of variables does not start at its first entry')); continue
                # ways out of the loop
                bad = None
                for e in c:
                    if e.term.op == 'br' and e.term.ops and any(s not in c for s in e.succs):
                        x = e.term.ops[0]; d = f.defs.get(x[1]) if x[0] == '%' else None
                        if not (d is not None and d.op == 'icmp' and dep(f, d, q.res)): bad = e.term
                if bad is not None: out.append(('table-cut-short', bad, 'a loop over the table of variables can end before the table does'))
                else: out.append((None, q, '%s: the table of variables is traversed from its first entry to its end' % q.where()))
    return out

def uses(f, o, res, d=0):
    if o[0] != '%' or d > 4: return False
    if o[1] == res: return True
    i = f.defs.get(o[1])
    return i is not None and i.op in ('sext', 'zext', 'trunc') and uses(f, i.ops[0], res, d + 1)

def dep(f, d, res):
    """the comparison is of the loop variable, or of the element it selects (not of something looked up with it)"""
    for o in d.ops:
        n = 0
        while o[0] == '%' and n < 6:
            if o[1] == res: return True
            i = f.defs.get(o[1]); n += 1
            if i is None or i.op not in ('load', 'getelementptr', 'sext', 'zext', 'trunc', 'phi', 'add'): break
            if i.op == 'getelementptr':
                if any(uses(f, x, res) for x in i.ops[1:]): return True
                o = i.ops[0]
            elif i.op == 'phi': break
            else: o = i.ops[0]
    return False

@prop('P03', title='Programs run in a sanitized environment', level='other',
      statement='Before the daemon starts a console program or a reset command it has replaced its environment by one it builds itself, and nothing restores or extends the inherited one while it serves. The built environment fixes PATH to absolute directories and IFS to constant values; the only variables whose values come from the invoking user\'s environment are DEBUG and TZ.',
      quantifier=dict(over=['inputs', 'histories'], text='every environment the daemon may be started with; every path from start-up to a program execution'),
      why='A leaked variable (LD_PRELOAD, ENV, PATH) matters only in an environment the tests do not set.',
      anchors=dict(files=['src/server.c'], mechanism=[dict(name='get_sane_env', where='src/server.c'), dict(name='environ replaced before open_objs', where='src/server.c:main')]),
      technique='must-happen-before dataflow and constant/effect analysis over LLVM IR')
def P03(r, tier):
    r.rule('on every path to the serving phase the last store to environ is the result of the builder; no function of the serving phase stores to environ or calls setenv/putenv; string constants of the builder with "=" define IFS and an absolute PATH, names passed to getenv are DEBUG or TZ; the builder does not read environ')
    p = build.load('conmand')
    conc, roots = locks.concurrent(p)
    st = [i for f in p.funcs() for i in f.insts() if i.op == 'store' and i.ops[1] == ('@', 'environ')]
    builders = set(); ev = {}
    for i in st:
        src = env_value_sources(p, i.fn, i.ops[0])
        fn = {s[1] for s in src if s[0] == 'fn'}
        if fn and src == {('fn', x) for x in fn} and all(x in p.mod.funcs and not p.mod.funcs[x].decl for x in fn):
            ev[i.id] = 'built'; builders |= fn
        elif i.fn.name in conc and i.fn.name != 'main': r.bad('environment-changed', i, 'environ is stored to while serving', key='env:store')
    r.need(len(ev), 'stores of a built environment to environ')
    m = Must(p, lambda i: ['built'] if ev.get(i.id) else (), kill=lambda i: ['built'] if i.op == 'store' and i.ops[1] == ('@', 'environ') or i.op == 'call' and i.x in ENVFN else ())
    # executions: every exec and every fork of the serving phase, and the calls in main that start it
    pts = [c for c in daemon.serve_calls(p)] + [i for n in sorted(conc) if n in p.cg.callees for i in p.mod.funcs[n].calls('execv', 'execl', 'execve', 'execvp', 'execlp', 'execle', 'posix_spawn', 'posix_spawnp', 'system', 'popen')]
    pts += [i for f in p.funcs() for i in f.calls('execv', 'execl', 'execvp', 'system', 'popen', 'execlp') if i not in pts]
    for i in pts:
        at = m.at(i)
        if at is not None and 'built' not in at: r.bad('inherited-environment', i, 'the built environment is not certainly in place here', key='env:%s' % (i.x or 'serve'))
        else: r.ok('%s: the built environment is in place' % i.where())
    for n in sorted(conc):
        if n not in p.cg.callees: continue
        for i in p.mod.funcs[n].calls(*ENVFN): r.bad('environment-changed', i, '%s() is called while serving' % i.x, key='env:%s' % i.x)
    bf = set()
    for b in builders: bf |= {n for n in p.cg.reach(b) if n in p.cg.callees and n not in ('log_err', 'out_of_memory') and n not in p.cg.noreturn}
    for n in bf:
        f = p.mod.funcs[n]
        for i in f.insts():
            if i.op == 'load' and i.ops[0] == ('@', 'environ'): r.bad('environment-copied', i, 'the builder of the environment reads the inherited one as a whole', key='env:copy')
    strs = const_strings(p, bf)
    fixed = {}; names = set()
    for s, f in strs.items():
        if '=' in s and s.split('=', 1)[0].isidentifier():
            k, v = s.split('=', 1); fixed[k] = v
        elif s.isidentifier() and s.upper() == s: names.add(s)
    for k in ('PATH', 'IFS'):
        if k not in fixed: r.bad('missing-variable', p.mod.funcs[sorted(builders)[0]], '%s is not fixed in the environment of the programs' % k, key='env:%s' % k)
        else: r.ok('%s is fixed to %r' % (k, fixed[k]))
    if 'PATH' in fixed:
        if all(c.startswith('/') for c in fixed['PATH'].split(':')) : r.ok('PATH has only absolute directories')
        else: r.bad('relative-path', p.mod.funcs[sorted(builders)[0]], 'PATH of the programs contains a directory that is not absolute: %r' % fixed['PATH'], key='env:relpath')
    if 'IFS' in fixed and fixed['IFS'].strip(' \t\n'): r.bad('bad-ifs', p.mod.funcs[sorted(builders)[0]], 'IFS of the programs is %r' % fixed['IFS'], key='env:ifs')
    ng = 0
    for n in bf:
        f = p.mod.funcs[n]
        for i in f.calls('getenv', 'secure_getenv'):
            ng += 1
            c = consts(p, f, i.ops[0])
            cs = {x[1] if isinstance(x, tuple) else p.mod.cstr(('@', x)) if isinstance(x, str) else None for x in c}
            use = names if None in cs else cs
            extra = use - {'DEBUG', 'TZ'}
            if extra: r.bad('inherited-variable', i, 'variables other than DEBUG and TZ can be copied from the inherited environment: %s' % ', '.join(sorted(extra)), key='env:inherit')
            else: r.ok('%s: only %s is taken over' % (i.where(), ', '.join(sorted(use))))
    nl = 0
    for n in bf:
        f = p.mod.funcs[n]
        for c in daemon.cyc(p, f):
            for kind, w, msg in table_loop(p, f, c):
                nl += 1
                if kind: r.bad(kind, w, msg, key='env:%s' % kind)
                else: r.ok(msg)
    r.count(table_loops=nl)
    r.count(environ_stores=len(st), exec_points=len(pts), builder_functions=len(bf), fixed_variables=len(fixed), getenv_calls=ng)

# ------------------------------------------------------------------ P05 reset command
class Reset(Rule):
    """prop: (who, fmt, obl)   fmt: frozenset of (buffer, console); obl: None | ('due', console, pid, stored, timer)"""
    exit_k = 6
    inline_noreturn = True          # a helper that execs or _exits is part of the child
    def __init__(self, p):
        self.p = p; self.bad = []; self.execs = {}; self.timers = {}; self.forks = {}
        self.want = p.cg.reaching({'fork', 'vfork', 'tpoll_timeout_relative', 'tpoll_timeout_absolute', 'format_obj_string', 'execl'})
    def initial(self): return ('', frozenset(), None)
    def rename(self, prop, v, old):
        return prop
    def inline(self, t, st, i, a):
        if t.name in ('tpoll_timeout_relative', 'tpoll_timeout_absolute', 'format_obj_string', 'write_notify_msg', 'log_msg') or t.name.startswith(('tpoll_', 'list_')): return False
        if t.name.startswith('open_') or t.name in ('link_objs', 'unlink_objs'): return False
        return t.name in self.want or RPID in self.p.cg.mods(t.name)
    def idle(self, st, base):
        v = st.mem.get(addr(base, (RPID,)))
        return v is not None and st.fact(v)[1] <= 0
    def settle(self, st, i, what):
        w, fm, ob = st.prop
        if ob and not (ob[3] and ob[4]):
            self.bad.append(('untracked-command' if not ob[3] else 'no-time-limit', i,
                             ('the process id of the command just started is not recorded for its console' if not ob[3] else 'no timer is armed that ends the command just started') + ' (%s)' % what, st.lines(12)))
        st.prop = (w, fm, None)
    def on_call(self, st, i, name, args):
        w, fm, ob = st.prop
        if name in ('fork', 'vfork'):
            self.settle(st, i, 'next fork')
            self.forks[i.id] = i
            idle = frozenset(base_of(k) if len(path_of(k)) == 1 else addr(base_of(k), path_of(k)[:-1]) for k, v in st.mem.items() if last_of(k) == RPID and st.fact(v)[1] <= 0)
            s2 = st.copy(); s3 = st.copy()
            v = self.A.fresh(st, i, 'pid'); st.facts[v] = (1, INF, frozenset())
            st.prop = ('p', fm, ('due', None, v, False, False))
            s2.prop = ('c', fm, ('idle', idle)); s3.prop = ('', fm, None)
            return [(st, v), (s2, Z), (s3, ('i', -1))]
        if name == 'format_obj_string':
            self.A.kill_under(st, args[0])
            s2 = st.copy()
            v = self.A.fresh(st, i, 'len'); st.facts[v] = (0, INF, frozenset())
            src = args[3]
            cfg = any(v2 == src and last_of(k) == 'base_obj.resetCmdRef' for k, v2 in st.mem.items())
            st.prop = (w, frozenset(x for x in fm if x[0] != args[0]) | {(args[0], args[2], cfg and st.nonzero(src))}, ob)
            s2.prop = (w, frozenset(x for x in fm if x[0] != args[0]), ob)
            return [(st, v), (s2, ('i', -1))]
        if w == 'c' and (name.startswith('exec') or name == 'system'):
            if name == 'execl' or name == 'system':
                self.execs[i.id] = i
                cmd = [x for x in fm if x[0] in args]
                if not cmd: self.bad.append(('incomplete-command', i, 'the command executed here was not produced by a successful expansion of the configured string', st.lines(12)))
                else:
                    if not cmd[0][2]: self.bad.append(('no-command-configured', i, 'the command is run without a test that one is configured for this console', st.lines(12)))
                    if cmd[0][1] not in ob[1]: self.bad.append(('concurrent-reset', i, 'a reset command is started although an earlier one may still be recorded as active for the console', st.lines(12)))
            return [(st, ('i', -1))]
        if name.startswith('exec') or name == '_exit': return None
        if w == 'p' and ob and name in ('tpoll_timeout_relative',):
            cb = args[1]; ms = args[3]
            if cb[0] == 'g' and cb[1] in self.p.mod.funcs:
                self.timers[i.id] = (i, cb[1], args[2], st.const(ms), ob[2])
                k = st.const(ms)
                if 'kill' in self.p.cg.reach(cb[1]) and k is not None and k > 0:
                    st.prop = (w, fm, ob[:4] + (args[2],))
            s2 = st.copy(); v = self.A.fresh(st, i, 'tid'); st.facts[v] = (0, INF, frozenset())
            return [(st, v), (s2, ('i', -1))]
        return None
    def on_store(self, st, i, a, v):
        w, fm, ob = st.prop
        if w == 'p' and ob and last_of(a) == RPID:
            base = addr(base_of(a), path_of(a)[:-1])
            st.prop = (w, fm, ob[:3] + (base if v == ob[2] else False, ob[4]))
    def check(self, st, t):
        w, fm, ob = st.prop
        if w == 'p': self.settle(st, t, 'function returns')
    def on_return(self, st, f, rv, t):
        if not self.A.stack: self.check(st, t)

class KillTimer(Rule):
    """the timer callback: prop = (pid value, first kill failed, group killed)"""
    def __init__(self, p): self.p = p; self.bad = []; self.n = 0; self.rets = 0
    def initial(self): return (None, False, False)
    def inline(self, t, st, i, a): return 'kill' in self.p.cg.reach(t.name) or RPID in self.p.cg.mods(t.name)
    def on_load_fresh(self, st, i, a, v):
        if last_of(a) == RPID and st.prop[0] is None: st.prop = (v,) + st.prop[1:]
    def on_call(self, st, i, name, args):
        if name == 'kill':
            self.n += 1
            s2 = st.copy(); pid, f, g = st.prop
            neg = self.isneg(args[0], pid)
            if neg and st.const(args[1]) == SIGKILL: st.prop = (pid, f, True); s2.prop = (pid, f, True)
            elif st.const(args[1]) == 0 and args[0] == pid: s2.prop = (pid, True, g)
            return [(st, Z), (s2, ('i', -1))]
        if name == 'killpg':
            self.n += 1; pid, f, g = st.prop
            if args[0] == pid and st.const(args[1]) == SIGKILL: st.prop = (pid, f, True)
            return [(st, self.A.fresh(st, i, 'ret'))]
    @staticmethod
    def isneg(v, pid): return v[0] == 'bin' and v[1] == 'sub' and v[2] == Z and v[3] == pid or v[0] == 'bin' and v[1] == 'mul' and v[2] == pid and v[3] == ('i', -1)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.rets += 1
        pid, gone, killed = st.prop
        if pid is None: self.bad.append(('no-kill', t, 'the time limit can pass without the recorded process id being looked at', st.lines(10))); return
        if st.fact(pid)[1] <= 0: return
        if not gone and not killed: self.bad.append(('no-kill', t, 'when the time limit passes the command and its children are not all killed (SIGKILL to the process group)', st.lines(10)))
        if not any(last_of(k) == RPID and st.const(v) is not None and st.const(v) <= 0 for k, v in st.mem.items()):
            self.bad.append(('still-recorded', t, 'after the time limit the command stays recorded as active, so no reset can be started again', st.lines(10)))

@prop('P05', title='Reset commands: one at a time, complete, bounded in time', level='other',
      statement='A reset command is started for a console only if one is configured for it, its command string was expanded completely into the buffer, and no earlier command is recorded as active for that console. On every path after a successful start the process id is recorded for the console and a timer with a positive constant time limit is armed for it; when that timer fires, the command\'s whole process group is sent SIGKILL (unless the process is already gone) and the console is no longer marked as having an active command.',
      quantifier=dict(over=['histories', 'fault_sequences'], text='every path through the reset escape and its timer, whatever fails on it'),
      why='Two overlapping resets, an overlong command or a command that hangs need timing and configurations the tests do not have.',
      anchors=dict(files=['src/server-esc.c'], mechanism=[dict(name='perform_reset, kill_reset_cmd', where='src/server-esc.c')]),
      technique='path-sensitive typestate analysis over LLVM IR')
def P05(r, tier):
    r.rule('typestate at the fork that leads to a shell: configured, expanded, idle before; recorded and timer armed after, on every path to the next fork or the return; the timer callback kills the group and clears the record')
    p = build.load('conmand')
    conc, roots = locks.concurrent(p)
    tops = [f.name for f in daemon.fork_funcs(p) if 'execl' in p.cg.reach(f.name) or 'system' in p.cg.reach(f.name)]
    if not tops: raise Broken('no fork leading to a shell command was found')
    ne = 0; tm = {}
    todo = list(tops); seen = set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        x = Reset(p); a = Analysis(p.mod, x, p.cg, K=4, max_steps=400000); a.run(n)
        own = {i.x for i in p.mod.funcs[n].calls()} 
        cs = [c for c in p.cg.callers.get(n, ()) if c != n]
        # a helper that only forks: its callers establish and discharge the conditions
        if x.bad and n not in p.cg.addr_taken and len(cs) >= 1 and len(seen) < 6 and not ('list_next' in own):
            todo += cs; continue
        ne += len(x.execs)
        for k, i, msg, tr in x.bad: r.bad(k, i, msg, key='reset:%s' % k, path=tr)
        if not x.bad: r.ok('%s: every start is configured, complete and exclusive; every started command is recorded and timed' % n)
        tm.update(x.timers)
    r.need(ne, 'shell executions reached')
    r.need(len(tm), 'timers armed after a reset fork')
    for i, cb, con, ms, pid in tm.values():
        if ms is None or not 0 < ms: r.bad('no-time-limit', i, 'the time limit is not a positive constant', key='reset:limit')
        else: r.ok('time limit %d ms' % ms)
    for cb in sorted({t[1] for t in tm.values()}):
        k = KillTimer(p); a = Analysis(p.mod, k, p.cg, K=4); a.run(cb)
        for kk, i, msg, tr in k.bad: r.bad(kk, i, msg, key='resettimer:%s' % kk, path=tr)
        if not k.bad: r.ok('%s: kills the group and clears the record on every path' % cb)
        r.count(timer_callback_returns=k.rets)
    r.count(shell_execs=ne, timers=len(tm), functions=len(seen))

# ------------------------------------------------------------------ P06 kill targets
class Targets(Rule):
    """prop: frozenset of (base, field) whose process was sent SIGKILL and is still recorded"""
    exit_k = 4
    def __init__(self, p, up, coupled=True):
        self.p = p; self.up = up; self.bad = []; self.sites = {}; self.coupled = coupled; self.loads = {}
        self.touch = p.cg.reaching({'kill', 'killpg'}) | {f.name for f in p.funcs() if PID in p.cg.mods(f.name) or STATE in p.cg.mods(f.name)}
    def initial(self): return frozenset()
    def inline(self, t, st, i, a): return t.name in self.touch and not t.name.startswith(('write_notify', 'log_', 'tpoll_'))
    def on_load_fresh(self, st, i, a, v):
        self.loads[v] = a
        if last_of(a) == PID and self.coupled:
            s = st.mem.get(addr(base_of(a), path_of(a)[:-1] + (STATE,)))
            if s is not None and st.const(s) == self.up: st.facts[v] = (1, INF, frozenset())
    def on_call(self, st, i, name, args):
        if name not in ('kill', 'killpg', 'sigqueue', 'tgkill'): return None
        if name == 'killpg': tgt = args[0]
        else: tgt = args[0]
        self.sites[i.id] = i
        x = tgt
        if x[0] == 'bin' and x[1] == 'sub' and x[2] == Z: x = x[3]
        if x[0] == 'bin' and x[1] == 'mul' and x[3] == ('i', -1): x = x[2]
        a = self.loads.get(x)
        lo = st.fact(x)[0]
        s = None
        if a is not None and last_of(a) == PID and lo < 1 and self.coupled:
            s = st.mem.get(addr(base_of(a), path_of(a)[:-1] + (STATE,)))
            if s is not None and st.const(s) == self.up: lo = 1
        if st.const(x) is not None: self.bad.append(('constant-target', i, 'a signal is sent to a constant process id (%d)' % st.const(x), st.lines(10), i))
        elif a is None or last_of(a) not in (PID, RPID): self.bad.append(('foreign-target', i, 'the target of this signal is not the recorded process id of a console program or reset command', st.lines(10), i))
        elif lo < 1: self.bad.append(('unchecked-target', i, 'the recorded process id may be zero or negative here, which signals a process group or every process', st.lines(10), i))
        if a is not None and st.const(args[1]) == SIGKILL:
            st.prop = st.prop | {a}
            if st.mem.get(a) is not None and st.const(st.mem[a]) is not None and st.const(st.mem[a]) <= 0: st.prop = st.prop - {a}
        return [(st, self.A.fresh(st, i, 'ret'))]
    def on_store(self, st, i, a, v):
        if a in st.prop and st.const(v) is not None and st.const(v) <= 0: st.prop = st.prop - {a}
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        for a in st.prop: self.bad.append(('still-recorded', t, 'a process that was sent SIGKILL stays recorded, so a later signal can hit an unrelated process', st.lines(10), t))

class Coupled(Rule):
    """at return: state UP implies a positive pid, for every object whose state or pid this function wrote"""
    exit_k = 4
    def __init__(self, p, up, inl): self.p = p; self.up = up; self.bad = []; self.inl = inl; self.n = 0
    def initial(self): return frozenset()
    def inline(self, t, st, i, a): return t.name in self.inl
    def on_load_fresh(self, st, i, a, v):
        if last_of(a) == PID:
            s = st.mem.get(addr(base_of(a), path_of(a)[:-1] + (STATE,)))
            if s is not None and st.const(s) == self.up and base_of(a) not in st.prop: st.facts[v] = (1, INF, frozenset())
    def on_call(self, st, i, name, args):
        if name in ('fork', 'vfork'):
            s3 = st.copy(); v = self.A.fresh(st, i, 'pid'); st.facts[v] = (1, INF, frozenset())
            return [(st, v), (s3, ('i', -1))]      # the child never returns here (P01)
        if name in ('waitpid', 'wait'): return None
    def on_store(self, st, i, a, v):
        if last_of(a) in (PID, STATE): self.n += 1; st.prop = st.prop | {addr(base_of(a), path_of(a)[:-1])}
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        for b in st.prop:
            s = st.mem.get(addr(b, (STATE,))); pid = st.mem.get(addr(b, (PID,)))
            if s is not None and st.const(s) is not None and st.const(s) != self.up: continue
            if pid is not None and st.fact(pid)[0] >= 1: continue
            self.bad.append((t, st.lines(10)))

def coupling(p, up):
    """returns (violations, roots analysed, stores)"""
    w = {i.fn.name for i in stores_to(p, PID)}
    for f in p.funcs():
        for i in f.insts():
            if i.op == 'store' and STATE in p.cg._bits(f, i, p.cg._target(f, i.ops[1])) if i.op == 'store' and any('process_obj.#bf' in x for x in p.cg._target(f, i.ops[1])) else False: w.add(f.name)
    inl = set(); bad = []; n = 0; ok = []
    for name in locks.order_bottom_up(p, {f.name for f in p.funcs()}):
        f = p.mod.funcs[name]
        if not (name in w or p.cg.callees[name] & inl): continue
        if name == 'main': continue
        c = Coupled(p, up, inl); a = Analysis(p.mod, c, p.cg, K=4, max_steps=200000)
        try: a.run(name)
        except Budget: continue
        n += c.n
        if c.bad:
            cs = [q for q in p.cg.callers.get(name, ()) if q != name]
            if cs and name not in p.cg.addr_taken: inl.add(name); continue
            bad += [(name, t, tr) for t, tr in c.bad]
        else: ok.append(name)
    return bad, ok, n

@prop('P06', title='Signals go only to processes the daemon started', level='other',
      statement='While it serves consoles, the daemon sends a signal only to the positive process id recorded for a console program or a reset command, or to the process group of that id; never to process 0 or -1, a constant, or an id taken from anywhere else. Once a recorded process has been sent SIGKILL its id is forgotten before the operation ends, so it is never signalled a second time. A console program marked as connected always has a positive recorded id.',
      quantifier=dict(over=['histories', 'fault_sequences'], text='every path to every signal-sending call in the serving phase'),
      why='kill(-1) or kill(0) is reached only after a failed fork or an unlucky order of disconnects; tests cannot try it safely.',
      anchors=dict(files=['src/server-process.c', 'src/server-esc.c'], mechanism=[dict(name='kill(auxp->pid)', where='src/server-process.c:disconnect_process_obj'), dict(name='kill(-pid)', where='src/server-esc.c:kill_reset_cmd')]),
      technique='path-sensitive value analysis with an inductive state/pid invariant over LLVM IR')
def P06(r, tier):
    r.rule('at each kill in the serving phase the target is x or -x with x a loaded pid field and x >= 1 on this path (by a test, or by the proved invariant state == UP => pid >= 1); after SIGKILL the field is overwritten with a non-positive value before the root function returns')
    p = build.load('conmand'); conc, roots = locks.concurrent(p)
    up = p.mod.enums.get('CONMAN_PROCESS_UP', 1)
    bad, ok, n = coupling(p, up)
    for name, t, tr in bad: r.bad('pid-not-positive', t, 'a console program can be marked as connected without a positive recorded process id', key='coupled', path=tr)
    for q in ok: r.ok('%s keeps: connected implies a positive process id' % q)
    r.need(n, 'writes of a console program\'s state or pid', 3)
    sites = {}
    inl = set()
    fs = [f for f in p.funcs() if f.name in conc and p.cg.callees[f.name] & {'kill', 'killpg', 'sigqueue', 'tgkill'}]
    done = set(); todo = [f.name for f in fs]
    depth = {n2: 0 for n2 in todo}
    while todo:
        nme = todo.pop(0)
        if nme in done: continue
        done.add(nme)
        x = Targets(p, up); a = Analysis(p.mod, x, p.cg, K=4, max_steps=300000)
        try: a.run(nme)
        except Budget:
            x.bad.append(('unresolved', p.mod.funcs[nme].entry.insts[0], 'the target of a signal sent below %s could not be bounded' % nme, [], None))
        sites.update(x.sites)
        if x.bad:
            cs = [q for q in p.cg.callers.get(nme, ()) if q != nme and q in conc]
            if cs and nme not in p.cg.addr_taken and depth[nme] < 3:
                for q in cs: depth.setdefault(q, depth[nme] + 1); todo.append(q)
                continue
            for k, i, msg, tr, _ in x.bad: r.bad(k, i, msg, key='kill:%s' % k, path=tr)
        else: r.ok('%s: every signal goes to a positive recorded process id' % nme)
    r.need(len(sites), 'signal-sending calls in the serving phase', 2)
    r.count(kill_sites=len(sites), functions=len(done), state_pid_writes=n)
