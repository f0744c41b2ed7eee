"""D: how data and events move between the objects the event loop serves."""
from absint import *
from core import Broken
from registry import prop
from listmodel import *
from listmodel import CNT
from fdrules import hands_out
import build, locks

TYPES = (1, 2, 4, 8, 16, 32, 64, 128)
CLIENT, LOGFILE, TELNET = 1, 2, 16
IN, OUT_, EOF_, FD, TYPE = 'base_obj.bufInPtr', 'base_obj.bufOutPtr', 'base_obj.gotEOF', 'base_obj.fd', 'base_obj.type'
EMPTY = 'buffer#.empty'
SUSP = 'client_obj.gotSuspend'
POLLIN, POLLOUT = 1, 4
EINTR, EAGAIN = 4, 11

# ------------------------------------------------------------ locating code
def value_slots(p, f, o, d=0, seen=None):
    """struct members / globals a value may have been loaded from (through parameters)"""
    seen = set() if seen is None else seen
    if (f.name, o) in seen: return set()
    seen.add((f.name, o)); out = set()
    for s in p.fp.sources(f, o):
        if isinstance(s, str): continue
        if s[0] in ('f', 'g'): out.add(s[1])
        elif s[0] == 'p':
            for c in p.cg.callers.get(s[1], ()):
                for i in p.mod.funcs[c].calls(s[1]):
                    if s[2] < len(i.ops): out |= value_slots(p, p.mod.funcs[c], i.ops[s[2]], d + 1, seen)
    return out
def io_funcs(p, names):
    """functions that do I/O of the given kind on the descriptor of an object"""
    return {f.name for f in p.funcs() for i in f.calls(*names) if FD in value_slots(p, f, i.ops[0])}
def closure_up(p, s):
    seen = set(s); work = list(s)
    while work:
        n = work.pop()
        for c in p.cg.callers.get(n, ()):
            if c not in seen: seen.add(c); work.append(c)
    return seen
def waiters(p):
    """tpoll() and the functions that only hand its result on"""
    w = {'tpoll'}; ch = True
    while ch:
        ch = False
        for f in p.funcs():
            if f.name not in w and list(f.calls(*w)) and hands_out(f, w): w.add(f.name); ch = True
    return w
def mux_funcs(p):
    """the functions that wait for events in the serving phase and serve them"""
    io = closure_up(p, io_funcs(p, ['read'])); out = set(); seen = set()
    work = [f.name for f in p.funcs() if list(f.calls('tpoll')) and f.name != 'tpoll']
    while work:
        n = work.pop()
        if n in seen: continue
        seen.add(n)
        if n in io or not p.cg.callers.get(n): out.add(n)
        else: work += p.cg.callers[n]
    if not out: raise Broken('no function waits for events with tpoll()')
    return sorted(out)
def handlers(p, names):
    """entry points of the event loop's handlers that read (write) an object's descriptor"""
    up = closure_up(p, io_funcs(p, names)); mux = mux_funcs(p); out = set()
    both = closure_up(p, io_funcs(p, ['read'])) & closure_up(p, io_funcs(p, ['write', 'writev', 'send', 'sendmsg']))
    both -= io_funcs(p, ['read', 'write', 'writev', 'send', 'sendmsg'])          # dispatchers: what they call are the handlers
    work = list(mux); seen = set(mux)
    while work:
        for c in p.cg.callees.get(work.pop(), ()):
            if c not in up or c in seen: continue
            seen.add(c)
            if c in both: work.append(c)
            else: out.add(c)
    out = {c for c in out if not c.startswith(('accept_', 'open_', 'reopen_'))}
    if not out: raise Broken('the event loop calls nothing that does %s() on an object' % '/'.join(names))
    return sorted(out)
def stores_through(p, f, k, seen=None):
    """does f store through its k-th parameter?"""
    seen = set() if seen is None else seen
    if (f.name, k) in seen or k >= len(f.params): return False
    seen.add((f.name, k)); der = {f.params[k]}
    ch = True
    while ch:
        ch = False
        for i in f.insts():
            if i.res is None or i.res in der: continue
            src = []
            if i.op == 'getelementptr': src = i.ops[:1]
            elif i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'): src = i.ops[:1]
            elif i.op == 'select': src = i.ops[1:]
            elif i.op == 'phi': src = [v for v, _ in i.x]
            if any(o[0] == '%' and o[1] in der for o in src): der.add(i.res); ch = True
    for i in f.insts():
        if i.op == 'store' and i.ops[1][0] == '%' and i.ops[1][1] in der: return True
        if i.op == 'call' and i.x:
            t = p.mod.funcs.get(i.x)
            for n, o in enumerate(i.ops):
                if o[0] == '%' and o[1] in der:
                    if t is not None and not t.decl:
                        if stores_through(p, t, n, seen): return True
                    elif n == 0 and i.x.startswith(('memmove', 'memcpy', 'llvm.mem', 'str')) and not i.x.startswith('strlen'): return True
    return False
def member_stores(p, member):
    return {f.name for f in p.funcs() for i in f.insts() if i.op == 'store' and member in p.cg._target(f, i.ops[1])}

# ------------------------------------------------------------ common to the rules
class Obj(ListModel):
    sym_elem = True
    derived = {EMPTY: frozenset({IN, OUT_})}
    def on_branch(self, st, t, c, truth):
        for o in {base_of(k) for k in st.mem if last_of(k) in (IN, OUT_)}:
            e = self.empty_now(st, o); k = st.mem.get(addr(o, (EMPTY,)))
            k = st.const(k) if k is not None else None
            if e is not None and k is not None and bool(k) != e: return False       # contradicts what was learnt before
            if e is not None: st.mem[addr(o, (EMPTY,))] = ('i', int(e))
    def ob_init(self, p):
        self.lm_init(p); self.viol = {}; self.n = {}; self.nb = {}
    def bad(self, rule, i, msg, st): self.viol.setdefault((rule, i.id), (rule, i, msg, st.lines(14)))
    def seen(self, k, i): self.n.setdefault(k, {})[i.id] = i
    def on_load_fresh(self, st, i, a, v):
        if last_of(a) == FD: self.origin[v] = a
        return self.lm_fresh(a, v)
    def owner(self, v, st=None):
        """the object whose descriptor v is"""
        if st is not None:
            for k, x in st.mem.items():
                if x == v and last_of(k) == FD: return base_of(k)
        o = self.origin.get(v) or self.origin.get(self.root(v))
        return base_of(o) if o is not None and last_of(o) == FD else None
    def types(self, st, o):
        """possible types of an object"""
        t = st.mem.get(addr(o, (TYPE,)))
        ts = set(TYPES)
        if t is not None:
            lo, hi, ex = st.fact(t)
            ts = {x for x in ts if lo <= x <= hi and x not in ex}
            for v, f in st.facts.items():
                if v[0] == 'bin' and v[1] == 'and' and v[2] == t and v[3][0] == 'i':
                    m = v[3][1]
                    if f[0] == f[1] == 0: ts = {x for x in ts if not x & m}
                    elif f[0] > 0 or f[1] < 0 or 0 in f[2]: ts = {x for x in ts if x & m}
        for k in st.mem:
            if base_of(k) == o:
                l = last_of(k)
                if l.startswith('telnet_obj.'): ts &= {TELNET}
                elif l.startswith('client_obj.'): ts &= {CLIENT}
                elif l.startswith('logfile_obj.'): ts &= {LOGFILE}
        return ts
    def fld(self, st, o, name):
        for k, v in st.mem.items():
            if last_of(k) == name and base_of(k) == o: return v
        return None
    def empty(self, st, o):
        """True/False/None: is the buffer of o empty?"""
        e = st.mem.get(addr(o, (EMPTY,)))
        if e is not None and st.const(e) is not None: return bool(st.const(e))
        return self.empty_now(st, o)
    def empty_now(self, st, o):
        a, b = self.fld(st, o, IN), self.fld(st, o, OUT_)
        if a is None or b is None: return None
        if a == b and not self.A.some(a): return True
        for p, x, y in (('eq', a, b), ('eq', b, a)):
            f = st.facts.get(('cmp', p, x, y))
            if f and f[0] == f[1]: return bool(f[0])
            f = st.facts.get(('cmp', 'ne', x, y))
            if f and f[0] == f[1]: return not f[0]
            for q in ('ugt', 'ult', 'sgt', 'slt'):
                f = st.facts.get(('cmp', q, x, y))
                if f and f[0] == f[1] == 1: return False
        for v, f in st.facts.items():
            if v in self.nb and self.nb[v] == (o, a, b):
                if f[0] == f[1] == 0: return True
                if f[0] > 0 or f[1] < 0 or 0 in f[2]: return False
        return None
    def buffered(self, st, i, name, args):
        """number of bytes in a buffer (D02 decides that the function returns it)"""
        if name != 'num_bytes_buffered': return None
        o = args[0]; v = self.A.fresh(st, i, 'nb'); st.facts[v] = (0, INF, frozenset())
        e = self.empty(st, o)
        if e is not None: st.facts[v] = (0, 0, frozenset()) if e else (1, INF, frozenset())
        for m in (IN, OUT_):
            if self.fld(st, o, m) is None: st.mem[addr(o, (m,))] = self.A.fresh(st, i, 'ld')
        self.nb[v] = (o, self.fld(st, o, IN), self.fld(st, o, OUT_))
        return [(st, v)]
    def suspended(self, st, o):
        v = self.fld(st, o, SUSP)
        if v is None: return None
        return False if st.const(v) == 0 else True if st.nonzero(v) else None
    def isdef(self, name):
        t = self.p.mod.funcs.get(name); return t is not None and not t.decl

def finish(r, runs, kinds):
    """report the violations of the runs; kinds: seen-kind -> (evidence name, description, minimum)"""
    tot = {}
    for c in runs:
        for rule, i, msg, tr in c.viol.values(): r.bad(rule, i, msg, key='%s:%s' % (rule, i.fn.name), path=tr)
        for k, d in c.n.items(): tot.setdefault(k, {}).update(d)
    nv = {rule for c in runs for rule, *_ in c.viol.values()}
    for k, (ev, desc, lo) in kinds.items():
        n = len(tot.get(k, {})); r.need(n, desc, lo); r.count(**{ev: n})
    return nv, tot

# ------------------------------------------------------------ D01 fan-out
class Fan(Obj, Rule):
    """prop: (obj, chunk(buf, n), filters applied, status, iterator, pending element)"""
    exit_k = 4
    def __init__(self, p):
        self.ob_init(p)
        self.rd = closure_up(p, io_funcs(p, ['read']))
        self.f1 = member_stores(p, 'client_obj.gotEscape'); self.f2 = member_stores(p, 'telnet_obj.iac')
        self.dl = {'write_log_data', 'write_obj_data'}
        self.dtouch = closure_up(p, self.dl)
    def initial(self): return (None, None, frozenset(), 'none', None, None, 0)
    def inline(self, t, st, i, a):
        o, ch = st.prop[0], st.prop[1]
        if t.name in self.dl or t.name.startswith(('log_', 'list_', 'tpoll_')): return False
        if t.name in self.rd and o is None: return True
        if ch is not None and any(x == ch[0] or x == st.prop[5] and x is not None for x in a): return True
        if o is not None and o in a and t.name in self.dtouch and t.name in self.iters: return True
        return len(t.blocks) <= 10 and not t.name.startswith('x_pthread') and any(x == o or x == st.prop[5] for x in a if x != UNDEF and x is not None)
    def set(self, st, **kw):
        d = dict(zip(('o', 'ch', 'fl', 's', 'it', 'pe', 'skip'), st.prop)); d.update(kw); st.prop = tuple(d.values())
    def on_call(self, st, i, name, args):
        A = self.A; o, ch, fl, s, it, pe, skip = st.prop
        if name == 'read' and self.owner(args[0], st) is not None:
            self.seen('read', i)
            if s == 'some': self.bad('data-dropped', i, 'another chunk is read before the previous one was passed on', st)
            A.kill_under(st, args[1])
            s2, s3 = st.copy(), st.copy()
            v = A.fresh(st, i, 'n'); st.facts[v] = (1, INF, frozenset())
            self.set(st, o=self.owner(args[0], st), ch=(args[1], v), fl=frozenset(), s='some', it=None, pe=None, skip=0)
            for x in (s2, s3): self.set(x, ch=None, s='none')
            s3.mem.pop(('g', 'errno'), None)
            return [(st, v), (s2, Z), (s3, ('i', -1))]
        if name in ('list_iterator_create', 'list_iterator_reset', 'list_next'):
            out = []
            for x, v in self.list_call(st, i, name, args):
                if name == 'list_iterator_create':
                    l = self.origin.get(args[0]) or self.origin.get(self.root(args[0]))
                    if s != 'none' and l is not None and last_of(l) == 'base_obj.readers':
                        if base_of(l) != o: self.bad('wrong-readers', i, 'the data is passed on to the readers of another object', x)
                        elif s == 'done': self.bad('delivered-twice', i, 'the data is passed on a second time', x)
                        else: self.set(x, it=v, pe=None, skip=0)
                elif it is not None and args[0] == it:
                    if name == 'list_iterator_reset':
                        if pe is not None or skip: self.bad('delivered-twice', i, 'delivery starts over', x)
                    else:
                        if pe is not None: self.set(x, skip=1); self.bad('reader-skipped', i, 'a reader of the object may not be given the data', x)
                        if v == Z: self.set(x, it=None, pe=None, s='done')
                        else: self.set(x, pe=v)
                out.append((x, v))
            return out
        r = self.list_call(st, i, name, args)
        if r is not None: return r
        if name in self.dl and s != 'none' and ch is not None and any(a != UNDEF and base_of(a) == base_of(ch[0]) for a in args[1:2]):
            self.seen('deliver', i)
            if it is None or args[0] != pe:
                if pe is None and it is not None: self.bad('delivered-twice', i, 'a reader may be given the same data twice', st)
                elif args[0] != o: self.bad('wrong-target', i, 'data read from an object is given to something other than the reader being considered', st)
            if args[1] != ch[0]: self.bad('part-dropped', i, 'the data is passed on from another position than its beginning', st)
            if args[2] != ch[1]: self.bad('wrong-length', i, 'the data is passed on with a length that is not that of the chunk', st)
            ts = self.types(st, args[0])
            if name == 'write_log_data' and ts != {LOGFILE}: self.bad('wrong-writer', i, 'log processing may be applied to an object that is not a log file', st)
            if name == 'write_obj_data':
                if LOGFILE in ts: self.bad('log-raw', i, 'console output may reach a log file without log processing', st)
                if st.const(args[3]) != 0: self.bad('data-as-info', i, 'data is marked as an informational message, which a quiet client does not receive', st)
            to = self.types(st, o)
            for t, nm, what in ((CLIENT, 'client', 'escape sequences of a client'), (TELNET, 'telnet', 'telnet commands')):
                if t in to and nm not in fl: self.bad('unfiltered', i, '%s may be passed on as data' % what, st)
                if nm in fl and to != {t}: self.bad('misfiltered', i, 'data may be searched for %s although it is not of that kind' % what, st)
            self.set(st, pe=None)
            return [(st, A.fresh(st, i))]
        if self.isdef(name) and ch is not None and ch[0] in args and stores_through(self.p, self.p.mod.funcs[name], args.index(ch[0])):
            self.seen('filter', i)
            if ch[1] not in args: self.bad('filter-length', i, 'the data is filtered with a length that is not that of the chunk', st)
            if o not in args: self.bad('filter-object', i, 'the data is filtered for another object', st)
            k = {n for n, s_ in (('client', self.f1), ('telnet', self.f2)) if self.p.cg.reach(name) & s_ or name in s_}
            ty = st.mem.get(addr(o, (TYPE,)))
            A.havoc(st, self.p.cg.mods(name)); A.kill_under(st, ch[0]); self.lm_havoc(st, name)
            if ty is not None: st.mem[addr(o, (TYPE,))] = ty
            v = A.fresh(st, i, 'n')
            if s == 'done': self.bad('filter-late', i, 'the data is filtered after it was passed on', st)
            self.set(st, ch=(ch[0], v), fl=fl | ({'client'} if 'client' in k and 'telnet' not in k else {'telnet'} if 'telnet' in k and not name in self.f1 else k))
            return [(st, v)]
        if self.isdef(name): self.lm_havoc(st, name)
        return None
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.seen('end', t)
        o, ch, fl, s, it, pe, skip = st.prop
        if s == 'some' and not (ch is not None and st.fact(ch[1])[1] <= 0):
            self.bad('data-dropped', t, 'data read from an object may not be passed on to all of its readers', st)

@prop('D01', title='Data read is passed on whole to every reader, once', level='other',
      statement='Every chunk of data the event loop reads from a console or client is passed on exactly once, from its first byte and with its full length, to every object in the reader list of that object, and to no other. Only client escape sequences and telnet commands are removed first, the former only from clients and the latter only from telnet consoles. Data for a log file goes through log processing; data for a client or console is never marked as an informational message.',
      quantifier=dict(over=['inputs', 'histories'], text='every chunk, whatever its source and content, and every set of readers'),
      why='What a user sees, what the log records and what the console receives are copies of one stream; a skipped reader, a stale length after escape processing, or console data a quiet client never sees needs several readers or particular bytes to show.',
      anchors=dict(files=['src/server-obj.c'], mechanism=[dict(name='read, filter, fan-out to readers', where='src/server-obj.c:read_from_obj')]),
      technique='path-sensitive typestate analysis of each chunk and reader over LLVM IR with a model of the list API')
def D01(r, tier):
    r.rule('on every path from a successful read of an object\'s descriptor, each element of that object\'s reader list is passed (buffer, current length) exactly once by the routine for its type, after the filter for the source\'s type and no other')
    p = build.load('conmand'); runs = []
    for h in handlers(p, ['read']):
        c = Fan(p); c.iters = {f.name for f in p.funcs() if list(f.calls('list_iterator_create'))}
        c.A = a = Analysis(p.mod, c, p.cg, K=4); a.run(h); runs.append(c)
    nv, tot = finish(r, runs, dict(read=('reads', 'reads of an object by the event loop', 1), deliver=('delivery_sites', 'sites passing data on to a reader', 1), filter=('filters', 'filters of received data', 2), end=('handler_returns', 'returns of the handler', 1)))
    for k in ('deliver', 'filter'):
        for i in tot[k].values():
            if not any(x.id == i.id for c in runs for _, x, *_ in c.viol.values()): r.ok('%s: data and length are those of the chunk read' % i.where())
    if not nv & {'data-dropped', 'reader-skipped'}: r.ok('every return of the handler follows complete delivery')

# ------------------------------------------------------------ D03 scheduling of output
class Sched(Obj, Rule):
    """prop: (objects with data not yet scheduled, objects whose polling for output was withdrawn, lock-held armed objects, suspended/resumed)"""
    exit_k = 4
    def __init__(self, p, root):
        self.ob_init(p); self.root_name = root
        tp = {f.name for f in p.funcs() if list(f.calls('tpoll_set', 'tpoll_clear'))}
        st = member_stores(p, IN) | member_stores(p, OUT_) | member_stores(p, SUSP)
        self.touch = {n for n in tp | st if len(p.mod.funcs[n].blocks) <= 25} - {'write_obj_data', 'shutdown_obj', 'unlink_objs'}
        self.touch |= {f.name for f in p.funcs() for i in f.calls('write_obj_data') if i.ops[0][0] == '%' and i.ops[0][1] in f.params and len(f.blocks) <= 25}
        self.touch |= {c for n in self.touch for c in p.cg.callers.get(n, ()) if len(p.mod.funcs[c].blocks) <= 8}
    def initial(self): return (frozenset(), frozenset(), frozenset(), None, 0)
    def key(self, st):
        return (st.prop, tuple(sorted((repr(base_of(k)), st.const(v) if st.const(v) is not None else st.nonzero(v)) for k, v in st.mem.items() if last_of(k) in (SUSP, EOF_))), tuple(sorted(repr(o) for o in self.objs(st) if self.empty(st, o))))
    def objs(self, st): return {base_of(k) for k in st.mem if last_of(k) in (IN, OUT_)}
    def inline(self, t, st, i, a):
        if t.name.startswith(('log_', 'list_', 'tpoll_', 'x_pthread')) or t.name == 'write_obj_data': return False
        if t.name in self.touch: return True
        return len(t.blocks) <= 8 and any(x[0] in ('p', 's') for x in a if x != UNDEF) and t.name not in self.p.cg.noreturn
    def up(self, st, **kw):
        d = dict(zip(('add', 'clr', 'arm', 'sus', 'lk'), st.prop)); d.update(kw); st.prop = tuple(d.values())
    def fresh_obj(self, o): return o[0] == 's' and o[3] == 'new'
    def on_store(self, st, i, a, v):
        l = last_of(a); o = base_of(a); add, clr, arm, sus, lk = st.prop
        if l == IN and not self.fresh_obj(o):
            self.seen('advance', i)
            self.up(st, add=add | {o}, arm=arm if lk else arm - {o})
        elif l == SUSP and not self.fresh_obj(o):
            self.seen('suspend', i); self.up(st, sus=o, arm=arm - {o}, clr=clr - {o})
        elif l == FD and st.const(v) == -1:
            self.up(st, clr=clr - {o})
    def on_call(self, st, i, name, args):
        add, clr, arm, sus, lk = st.prop
        r = self.buffered(st, i, name, args)
        if r is not None: return r
        if name in ('x_pthread_mutex_lock', 'pthread_mutex_lock'):
            self.up(st, lk=1, arm=frozenset(o for o in arm if o in add or o == sus)); return [(st, Z)]
        if name in ('x_pthread_mutex_unlock', 'pthread_mutex_unlock'):
            self.up(st, lk=0, add=frozenset(o for o in add if not self.excused(st, o))); return [(st, Z)]
        if name == 'tpoll_set':
            o = self.owner(args[1], st); m = st.const(args[2])
            if o is not None and (m is None or m & POLLOUT):
                self.seen('set', i)
                if CLIENT in self.types(st, o) and self.suspended(st, o) is not False and not (sus == o):
                    self.bad('armed-while-suspended', i, 'output to a client may be resumed although it is suspended', st)
                if sus == o and self.suspended(st, o) is not False: self.bad('armed-while-suspended', i, 'output to a client may be resumed although it is suspended', st)
                if m is not None: self.up(st, arm=arm | {o}, clr=clr - {o})
            return [(st, self.A.fresh(st, i))]
        if name == 'tpoll_clear':
            o = self.owner(args[1], st); m = st.const(args[2])
            if m is None or m & POLLOUT:
                self.seen('clear', i)
                if o is not None:
                    self.up(st, arm=arm - {o})
                    if self.empty(st, o) is True and lk: pass
                    elif self.suspended(st, o) is True: self.up(st, clr=clr | {('sus', o)})
                    else: self.up(st, clr=clr | {o})
            return [(st, self.A.fresh(st, i))]
        if name == 'close':
            o = self.owner(args[0], st)
            if o is not None: self.up(st, clr=clr - {o})
            return None
        if name == 'write_obj_data' and args:
            self.up(st, arm=arm | {args[0]}, clr=clr - {args[0]})
            return [(st, self.A.fresh(st, i))]
        r = self.list_call(st, i, name, args)
        return r
    def excused(self, st, o):
        fd = self.fld(st, o, FD)
        return self.empty(st, o) is True or (CLIENT in self.types(st, o) and self.suspended(st, o) is True) or (fd is not None and st.fact(fd)[1] < 0)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.seen('end', t); add, clr, arm, sus, lk = st.prop
        excused = lambda o: self.excused(st, o)
        for o in add:
            if o not in arm and not excused(o): self.bad('not-scheduled', t, 'data added to the buffer of an object may never be written out: nothing makes the event loop look at it', st)
        for o in clr:
            if o[0] == 'sus': continue
            if o not in arm and not excused(o): self.bad('unscheduled', t, 'an object may no longer be polled for output although data is left in its buffer', st)
        if sus is not None:
            s = self.suspended(st, sus)
            if s is not True and sus not in arm: self.bad('not-resumed', t, 'a client that resumes may not be sent what was buffered for it', st)
            if s is not False and ('sus', sus) not in clr and sus not in clr: self.bad('not-suspended', t, 'a client that suspends its output may still be sent data', st)

@prop('D03', title='Buffered output is always scheduled, suspended output never', level='other',
      statement='Whenever data is added to the buffer of an object, the event loop is made to poll the object for output, unless it is a client that has suspended its output. Polling for output is withdrawn only when the buffer is empty (seen so under its lock), the object is closed, a client suspends its output, or more output follows at once. A client that resumes is polled again, and while a client is suspended nothing polls it for output.',
      quantifier=dict(over=['histories', 'schedules'], text='every path of every routine that changes a buffer position, the suspended state, or the output polling of an object'),
      why='Data left in a buffer that nobody polls is stuck until something else happens to be written; whether that shows depends on timing, full sockets and suspensions.',
      anchors=dict(files=['src/server-obj.c', 'src/server-esc.c', 'src/server-telnet.c'], mechanism=[dict(name='arming and clearing POLLOUT', where='src/server-obj.c:write_obj_data, write_to_obj, unlink_objs; src/server-esc.c:perform_suspend')]),
      technique='path-sensitive typestate analysis of buffer and polling state over LLVM IR')
def D03(r, tier):
    r.rule('each advance of a buffer\'s input position is followed (or accompanied under the same lock) by tpoll_set(POLLOUT) on that object unless it is a suspended client; each tpoll_clear(POLLOUT) happens in a state with equal positions, before a close, on suspension, or before further output; POLLOUT is never set for a client not known to be unsuspended')
    p = build.load('conmand'); runs = []
    roots = {f.name for f in p.funcs() if list(f.calls('tpoll_set', 'tpoll_clear')) or f.name in member_stores(p, IN) | member_stores(p, SUSP)}
    roots = {n for n in roots if not n.startswith('tpoll')}
    # a helper is judged where it is called from
    def relevant(f):
        return any(FD in value_slots(p, f, i.ops[1]) for i in f.calls('tpoll_set', 'tpoll_clear')) or f.name in member_stores(p, IN) | member_stores(p, SUSP)
    roots = {n for n in roots if relevant(p.mod.funcs[n])}
    tops = set()
    for n in roots:
        c = Sched(p, n); c.A = a = Analysis(p.mod, c, p.cg, K=4); a.run(n)
        if c.viol and p.cg.callers.get(n) and n not in ('write_obj_data', 'shutdown_obj') and n not in p.cg.addr_taken and not n.startswith(('open_', 'connect_', 'write_to')) and len(p.mod.funcs[n].blocks) <= 8:
            tops |= p.cg.callers[n]; continue
        runs.append(c)
    for n in tops:
        c = Sched(p, n); c.touch |= roots - {'write_obj_data'}; c.A = a = Analysis(p.mod, c, p.cg, K=4); a.run(n); runs.append(c)
    nv, tot = finish(r, runs, dict(advance=('position_stores', 'stores to a buffer input position', 2), set=('arming_sites', 'sites polling an object for output', 3), clear=('clearing_sites', 'sites withdrawing it', 3), suspend=('suspend_sites', 'changes of the suspended state', 1), end=('routine_returns', 'returns of routines', 5)))
    for k, what in (('advance', 'is followed by scheduling'), ('set', 'never applies to a suspended client'), ('clear', 'leaves no data unscheduled'), ('suspend', 'is followed by the matching change of polling')):
        for i in tot[k].values(): 
            if not any(x.fn is i.fn for c in runs for _, x, *_ in c.viol.values()): r.ok('%s: %s' % (i.where(), what))

# ------------------------------------------------------------ D06 end of a connection
class Gone(Obj, Rule):
    """prop: (object, outcome of the last read/write, errno value, shutdown result, POLLIN withdrawn, lock held, emptiness seen under lock)"""
    exit_k = 4
    def __init__(self, p, kind):
        self.ob_init(p); self.kind = kind
        self.io = closure_up(p, io_funcs(p, ['read'] if kind == 'r' else ['write', 'writev', 'send', 'sendmsg']))
        self.tp = {f.name for f in p.funcs() if list(f.calls('tpoll_clear', 'shutdown_obj')) and len(f.blocks) <= 20}
    def initial(self): return (None, None, None, None, 0)
    def key(self, st):
        o = st.prop[0]
        return (st.prop, None if o is None else (self.empty(st, o), self.eof(st, o), self.suspended(st, o), tuple(sorted(self.types(st, o)))))
    def inline(self, t, st, i, a):
        o = st.prop[0]
        if t.name.startswith(('log_', 'list_', 'tpoll_', 'x_pthread', 'open_', 'reopen_')) or t.name in ('shutdown_obj', 'write_obj_data', 'write_log_data', 'process_client_escapes', 'process_telnet_escapes'): return False
        if o is None and t.name in self.io: return True
        if o is not None and o in a and (t.name in self.tp or t.name in self.io): return True
        return len(t.blocks) <= 10 and t.name not in self.p.cg.noreturn and any(x == o or x[0] == 'p' for x in a if x != UNDEF)
    def up(self, st, **kw):
        d = dict(zip(('o', 'oc', 'er', 'sd', 'wd'), st.prop)); d.update(kw); st.prop = tuple(d.values())
    def eof(self, st, o):
        v = self.fld(st, o, EOF_)
        return None if v is None else False if st.const(v) == 0 else True if st.nonzero(v) else None
    def transient(self, st):
        """True/False/None: was the failure a transient one?"""
        er = st.prop[2]
        if er is None: return None
        lo, hi, ex = st.fact(er)
        if lo == hi: return lo in (EINTR, EAGAIN)
        return False if all(x < lo or x > hi or x in ex for x in (EINTR, EAGAIN)) else None
    def setup(self, st, f, args):
        if st.prop[0] is None: self.up(st, o=args[0])
    def on_call(self, st, i, name, args):
        A = self.A; o, oc, er, sd, wd = st.prop
        r = self.buffered(st, i, name, args)
        if r is not None: return r
        if name in ('read', 'write', 'writev', 'send', 'sendmsg') and self.owner(args[0], st) is not None:
            self.seen('io', i)
            if oc == 'err' and self.transient(st) is False: self.bad('error-ignored', i, 'a connection that failed is used again', st)
            if name == 'read': A.kill_under(st, args[1])
            s2, s3 = st.copy(), st.copy(); ow = self.owner(args[0], st)
            v = A.fresh(st, i, 'n'); st.facts[v] = (1, INF, frozenset())
            self.up(st, o=ow, oc='some', er=None); self.up(s2, o=ow, oc='eof' if name == 'read' else 'none', er=None)
            e = A.fresh(s3, i, 'errno'); s3.facts[e] = (1, INF, frozenset()); s3.mem[('g', 'errno')] = e
            self.up(s3, o=ow, oc='err', er=e)
            return [(st, v), (s2, Z), (s3, ('i', -1))]
        if name == 'shutdown_obj':
            self.seen('shutdown', i)
            if args[0] != o: self.bad('wrong-object', i, 'another object than the one served is shut down', st)
            if sd is not None: self.bad('shut-down-twice', i, 'an object may be shut down twice', st)
            eof = self.eof(st, o) is True or oc == 'eof'
            if eof and (self.empty(st, o) is True or (self.suspended(st, o) is True and self.types(st, o) == {CLIENT})): pass
            elif oc == 'err':
                if self.transient(st) is not False: self.bad('transient-error', i, 'a connection may be shut down because of a transient condition (EINTR, EAGAIN)', st)
            elif not eof: self.bad('alive', i, 'an object may be shut down although its connection is alive', st)
            else:
                self.bad('output-lost', i, 'an object may be shut down although output is left in its buffer that could still be written', st)
            A.havoc(st, self.p.cg.mods(name))
            v = A.fresh(st, i, 'sd'); self.up(st, sd=v)
            return [(st, v)]
        if name == 'tpoll_clear':
            if self.owner(args[1], st) == o and (st.const(args[2]) or 0) & POLLIN: self.up(st, wd=1)
            return [(st, A.fresh(st, i))]
        if name == 'tpoll_set':
            if self.owner(args[1], st) == o and (st.const(args[2]) or 1) & POLLIN: self.up(st, wd=0)
            return [(st, A.fresh(st, i))]
        r = self.list_call(st, i, name, args)
        if r is not None: return r
        t = self.p.mod.funcs.get(name)
        if t is not None and not t.decl and oc == 'some' and self.kind == 'r' and not self.inline(t, st, i, args):
            v = A.fresh(st, i, 'ret')
            if any(x != UNDEF and x[0] == 'al' for x in args) and stores_through(self.p, t, [k for k, x in enumerate(args) if x != UNDEF and x[0] == 'al'][0]):
                A.havoc(st, self.p.cg.mods(name)); st.facts[v] = (0, INF, frozenset())     # filters return a length (D04)
                return [(st, v)]
        return None
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.seen('end', t); o, oc, er, sd, wd = st.prop
        if sd is not None:
            fr, fs = st.fact(rv), st.fact(sd)
            if rv != sd and not (fs[1] < 0 and fr[1] < 0 or fs[0] >= 0 and fr[0] >= 0):
                self.bad('result-lost', t, 'the event loop may not be told whether an object that was shut down is to be removed', st)
            return
        if rv is None or st.fact(rv)[0] < 0: self.bad('removed-alive', t, 'the event loop may be told to remove an object that was not shut down', st)
        if oc == 'err' and self.transient(st) is not True: self.bad('error-ignored', t, 'an object whose connection failed may be kept as if it were alive', st)
        if oc == 'eof':
            if self.eof(st, o) is not True: self.bad('eof-forgotten', t, 'the end of a connection may not be recorded', st)
            if not wd: self.bad('eof-polled', t, 'an object whose connection ended may still be polled for input', st)
            if self.empty(st, o) is not False: self.bad('never-removed', t, 'an object whose connection ended may never be shut down: it has no output left that would bring the event loop back to it', st)
            if CLIENT in self.types(st, o) and self.suspended(st, o) is not False: self.bad('suspended-client-kept', t, 'a client that disconnected while suspended may never be removed', st)
        if self.kind == 'w' and oc in ('some', 'none', None) and (oc is not None or self.fld(st, o, IN) is not None):
            if self.empty(st, o) is not False and self.eof(st, o) is not False:
                self.bad('never-removed', t, 'an object that is at end of file may be kept after all of its output was written', st)

class Shut(Obj, Rule):
    """what shutdown_obj() does by type of object. prop: (kind, calls made)"""
    exit_k = 6
    def __init__(self, p, ty): self.ob_init(p); self.ty = ty
    def initial(self): return frozenset()
    def setup(self, st, f, args):
        st.mem[addr(('p', 0), (TYPE,))] = ('i', self.ty)
    def inline(self, t, st, i, a): return t.name not in ('unlink_obj', 'reopen_obj', 'num_bytes_buffered', 'write_notify_msg') and not t.name.startswith(('log_', 'list_', 'tpoll_', 'x_pthread', 'open_')) and len(t.blocks) <= 12 and ('p', 0) in a
    def on_call(self, st, i, name, args):
        if name in self.p.cg.noreturn: self.bad('aborts', i, 'the daemon may be terminated when the connection of an object ends', st)
        if name in ('unlink_obj', 'reopen_obj', 'close') or name.startswith('open_') and self.isdef(name):
            o = args[0] if name != 'close' else self.owner(args[0], st)
            if o == ('p', 0): st.prop = st.prop | {name if not name.startswith('open_') else 'reopen_obj'}; self.seen(name, i)
            if name != 'close': return [(st, None)]
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock'): return [(st, Z)]
        if name in ('tpoll_clear', 'num_bytes_buffered', 'x_pthread_mutex_lock', 'x_pthread_mutex_unlock'): return [(st, self.A.fresh(st, i))]
        return None
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        self.seen('end', t)
        fd0 = 'close' not in st.prop
        if fd0:
            if st.fact(rv)[0] < 0: self.bad('removed-open', t, 'an object is removed although its descriptor was not closed', st)
            return
        if self.ty == CLIENT:
            if st.fact(rv)[1] >= 0: self.bad('client-kept', t, 'a client whose connection was closed is not removed', st)
            if 'unlink_obj' not in st.prop: self.bad('client-linked', t, 'a client is removed although it may still be linked to its consoles', st)
        else:
            if st.fact(rv)[0] < 0: self.bad('console-removed', t, 'a console or log file may be removed from the daemon when its connection ends', st)
            if 'unlink_obj' in st.prop: self.bad('console-unlinked', t, 'a console or log file may lose its readers and writers when its connection ends', st)
            if self.ty != LOGFILE and 'reopen_obj' not in st.prop: self.bad('not-reopened', t, 'a console whose connection was closed may not be opened again', st)

@prop('D06', title='A connection that ended is cleaned up, one that lives is kept', level='other',
      statement='A failed read or write (other than EINTR or EAGAIN) shuts the object down; the end of its input does so at once if no output is buffered for it or it is a suspended client, and otherwise once the last buffered byte was written; nothing else in the handlers does, so transient conditions and pending output never end a connection. Shutting down unlinks and removes a client; a console is opened again and a log file kept, both with their links.',
      quantifier=dict(over=['histories', 'fault_sequences'], text='every outcome of every read and write of the event loop, with every state of the buffer'),
      why='A client that is never removed keeps its console busy for everybody else; a console that is removed is lost until the daemon restarts. Both need a disconnection at a particular moment.',
      anchors=dict(files=['src/server-obj.c'], mechanism=[dict(name='end-of-file and error handling', where='src/server-obj.c:read_from_obj, write_to_obj, shutdown_obj')]),
      technique='path-sensitive typestate analysis of I/O outcomes over LLVM IR')
def D06(r, tier):
    r.rule('in the event loop\'s read and write handlers, shutdown_obj() is reached on exactly the paths where the connection failed, or reached end of file with an empty buffer (or, for a client, while suspended), and its result is what the handler returns; per type of object, shutdown_obj() closes, then unlinks and reports removal (client), reopens (console) or keeps (log file)')
    p = build.load('conmand'); runs = []
    for k, names in (('r', ['read']), ('w', ['write', 'writev', 'send', 'sendmsg'])):
        for h in handlers(p, names):
            c = Gone(p, k); c.A = a = Analysis(p.mod, c, p.cg, K=4); a.run(h); runs.append(c)
    sh = []
    if 'shutdown_obj' not in p.mod.funcs: raise Broken('shutdown_obj() not found')
    for ty in TYPES:
        c = Shut(p, ty); c.A = a = Analysis(p.mod, c, p.cg, K=4); a.run('shutdown_obj'); runs.append(c); sh.append(c)
    nv, tot = finish(r, runs, dict(io=('io_calls', 'reads and writes of the event loop', 2), shutdown=('shutdown_calls', 'calls of shutdown_obj() in the handlers', 2), end=('handler_returns', 'returns of handlers', 3), close=('closes', 'close in shutdown_obj()', 1)))
    for i in list(tot['shutdown'].values()) + list(tot['end'].values()):
        if not any(x.id == i.id for c in runs for _, x, *_ in c.viol.values()): r.ok('%s: consistent with the outcome of the I/O' % i.where())
    for c in sh:
        if not c.viol: r.ok('shutdown_obj() of an object of type 0x%02x' % c.ty)

# ------------------------------------------------------------ D07 dispatch
class Mux(Obj, Rule):
    """prop: (iterator, element, pending ('r','w' -> readiness value), served, deleted)"""
    exit_k = 4
    def __init__(self, p, rd, wr):
        self.ob_init(p); self.rd = rd; self.wr = wr
        self.touch = closure_up(p, {'tpoll_is_set'}) | {c for n in rd | wr for c in p.cg.callers.get(n, ())}
        # the budget of ready descriptors: what the wait returned, counted down
        self.bud = set(); self.bmem = False; self.wait = waiters(p)
        n = {(f.name, i.res) for f in p.funcs() if f.name not in self.wait for i in f.calls(*self.wait) if i.res}
        inb = lambda f, o: o[0] == '%' and (f.name, o[1]) in n
        ch = True
        while ch:
            m = len(n)
            for f in p.funcs():
                if f.name in self.wait: continue
                for i in f.insts():
                    if i.op == 'store' and inb(f, i.ops[0]): self.bmem = True
                    if i.op == 'call' and i.x in p.mod.funcs and not p.mod.funcs[i.x].decl:
                        t = p.mod.funcs[i.x]
                        n |= {(t.name, q) for q, o in zip(t.params, i.ops) if inb(f, o)}
                    if i.op == 'ret' and i.ops and inb(f, i.ops[0]):
                        n |= {(c, j.res) for c in p.cg.callers.get(f.name, ()) for j in p.mod.funcs[c].calls(f.name) if j.res}
                    if i.res is None: continue
                    src = [v for v, _ in i.x] if i.op == 'phi' else i.ops if i.op in ('add', 'sub') else []
                    if any(inb(f, o) for o in src): n.add((f.name, i.res))
            ch = len(n) != m
        self.bud = n
    def initial(self): return (None, None, None, None, None, 0, 0, 0, 0, None)
    def key(self, st):
        it, e, pr, pw, res, dl, fr, cut, sp, oth = st.prop
        sg = lambda v: None if v is None else (st.fact(v)[0] > 0, st.fact(v)[1] <= 0) if isinstance(v, tuple) else v
        return (it, e is not None, sg(pr), sg(pw), sg(res), dl, fr, cut, sp, sg(oth))
    def inline(self, t, st, i, a): return t.name in self.touch and t.name not in self.rd | self.wr and not t.name.startswith(('tpoll', 'inevent', 'accept'))
    def up(self, st, **kw):
        d = dict(zip(('it', 'e', 'pr', 'pw', 'res', 'dl', 'fr', 'cut', 'sp', 'oth'), st.prop)); d.update(kw); st.prop = tuple(d.values())
    def isbud(self, f, o): return o[0] == '%' and (f.name, o[1]) in self.bud
    def on_branch(self, st, t, c, truth):
        d = t.fn.defs.get(t.ops[0][1]) if t.op == 'br' and t.ops[0][0] == '%' else None
        if d is not None and d.op == 'icmp' and any(self.isbud(d.fn, o) for o in d.ops):
            for o in d.ops:
                if self.isbud(d.fn, o):
                    v = self.A.val(st, o) if o[1] in st.env or True else None
                    if v is not None and v != UNDEF and st.fact(v)[1] <= 0: self.up(st, cut=1)
        return None
    def on_bin(self, st, i):
        if i.op not in ('add', 'sub') or not self.isbud(i.fn, i.ops[0]) or self.bmem: return
        self.seen('count', i)
        it, e, pr, pw, res, dl, fr, cut, sp, oth = st.prop
        if (i.op, i.ops[1]) not in (('add', ('i', -1)), ('sub', ('i', 1))): self.bad('miscounted', i, 'the number of descriptors left to serve is not counted one by one', st)
        if e is None:
            if oth is not None and st.fact(oth)[0] > 0: self.up(st, oth=None)
            else: self.bad('miscounted', i, 'the number of descriptors left to serve is reduced without one being ready', st)
        else:
            rdy = any(isinstance(v, tuple) and st.fact(v)[0] > 0 or v == 'done' for v in (pr, pw))
            if not rdy or sp: self.bad('miscounted', i, 'the number of descriptors left to serve is reduced more often than descriptors are ready: objects later in the list may never be served', st)
            self.up(st, sp=1)
    def on_load(self, st, i, a):
        it, e, pr, pw, res, dl = st.prop[:6]
        if dl and e is not None and base_of(a) == e: self.bad('used-after-removal', i, 'an object is used after it was removed (and destroyed)', st)
    def settle(self, st, i):
        it, e, pr, pw, res, dl = st.prop[:6]
        if e is None: return
        if not dl:
            if res is not None and st.fact(res)[0] < 0: self.bad('not-removed', i, 'an object that is to be removed may stay in the list', st)
            for k, v in (('input', pr), ('output', pw)):
                if v is not None and v != 'done' and st.fact(v)[1] > 0: self.bad('not-served', i, 'an object that is ready for %s may not be served' % k, st)
                if v is None: self.bad('not-asked', i, 'an object may be passed over without asking whether it is ready for %s' % k, st)
        self.up(st, e=None, pr=None, pw=None, res=None, dl=0)
    def on_call(self, st, i, name, args):
        it, e, pr, pw, res, dl = st.prop[:6]; A = self.A; fr = st.prop[6]
        if name in ('list_iterator_create', 'list_iterator_reset', 'list_next', 'list_delete', 'list_remove', 'list_delete_all') or name in self.wait:
            if name in ('list_iterator_reset', 'list_next') and args[0] == it or name in self.wait: self.settle(st, i)
            if name == 'list_delete' and self.iter_is(args[0], it):
                self.seen('remove', i)
                if res is None or st.fact(res)[1] >= 0: self.bad('removed-alive', i, 'an object may be removed although no handler asked for it', st)
                self.up(st, dl=1)
            if name in self.wait:
                if it is not None and not self.bmem and self.n.get('remove') is not None and fr == 2 and not st.prop[7]: self.bad('cut-short', i, 'a turn may end before every ready object was looked at', st)
                self.up(st, cut=0, fr=0, oth=None)
                v = A.fresh(st, i, 'n'); return [(st, v)]
            out = []
            for s, v in self.list_call(st, i, name, args):
                if name == 'list_iterator_create':
                    o = self.origin.get(args[0]) or self.origin.get(self.root(args[0]))
                    if o is not None and last_of(o) == 'server_conf.objs': self.up(s, it=v, fr=1)
                elif name == 'list_iterator_reset' and args[0] == it: self.up(s, fr=1)
                elif name == 'list_next' and args[0] == it and it is not None:
                    if fr == 0: self.bad('not-restarted', i, 'the event loop does not start again at the first object', s)
                    self.up(s, e=v if v != Z else None, pr=None, pw=None, res=None, dl=0, sp=0, fr=2 if v != Z else 3, oth=None)
                out.append((s, v))
            return out
        if name == 'tpoll_is_set':
            o = self.owner(args[1], st); m = st.const(args[2]) or 0
            v = A.fresh(st, i, 'rdy'); st.facts[v] = (-1, INF, frozenset())
            if o is not None and o == e:
                self.seen('ask', i)
                if m & POLLIN:
                    if m & 0x18 != 0x18: self.bad('hangup-unseen', i, 'an object whose peer hung up or failed may never be served: only POLLIN is asked for', st)
                    if m & POLLOUT: self.bad('mixed', i, 'input and output readiness cannot be told apart', st)
                    self.up(st, pr=v)
                elif m & POLLOUT: self.up(st, pw=v)
            else: self.up(st, oth=v)
            return [(st, v)]
        if name in self.rd | self.wr:
            k = 'r' if name in self.rd else 'w'
            self.seen('serve', i)
            if args[0] != e: self.bad('wrong-object', i, 'a handler is called for another object than the one that is ready', st)
            if dl: self.bad('used-after-removal', i, 'an object is used after it was removed (and destroyed)', st)
            w = pr if k == 'r' else pw
            if not isinstance(w, tuple) or st.fact(w)[0] <= 0: self.bad('served-unready', i, 'a handler may be called for an object that is not ready', st)
            if res is not None and st.fact(res)[0] < 0: self.bad('used-after-shutdown', i, 'an object that is to be removed is served again', st)
            v = A.fresh(st, i, 'res')
            if k == 'r': self.up(st, pr='done', res=v)
            else: self.up(st, pw='done', res=v)
            A.havoc(st, self.p.cg.mods(name))
            return [(st, v)]
        if dl and e is not None and e in args: self.bad('used-after-removal', i, 'an object is used after it was removed (and destroyed)', st)
        r = self.list_call(st, i, name, args)
        return r
    def iter_is(self, x, it): return it is not None and x == it
    def on_return(self, st, f, rv, t):
        if not self.A.stack: self.settle(st, t); self.seen('end', t)

@prop('D07', title='The event loop serves every ready object it looks at', level='other',
      statement='For each object the event loop looks at, it asks whether its descriptor is ready for input (hang-up and error included) and for output, calls the matching handler if and only if it is, and goes on to the next object; every turn starts at the first object and ends only after the last one or when all descriptors reported ready have been counted. An object is removed from the daemon exactly when a handler reported so, and is not touched afterwards.',
      quantifier=dict(over=['histories', 'schedules'], text='every turn of the event loop with every combination of ready objects and handler results'),
      why='A use after removal or a removal of the wrong object needs a disconnection at a particular point of a turn; a condition that is not asked for spins or hangs the daemon only when that condition arises.',
      anchors=dict(files=['src/server.c'], mechanism=[dict(name='event dispatch', where='src/server.c:mux_io')]),
      technique='path-sensitive typestate analysis over LLVM IR with a model of the list API')
def D07(r, tier):
    r.rule('between two steps of the iterator over all objects, readiness is asked for both directions, each handler is called exactly when its readiness value is positive, list_delete() is called exactly when the last handler result is negative, and nothing dereferences the element after that')
    p = build.load('conmand'); runs = []
    rd, wr = set(handlers(p, ['read'])), set(handlers(p, ['write', 'writev', 'send', 'sendmsg']))
    up = {f.name for f in p.funcs() if list(f.calls('tpoll_is_set'))}
    for m in mux_funcs(p):
        h = rd | wr
        if rd & wr:        # one combined handler: analyse its callees
            r2 = {c for n in rd for c in p.cg.callees.get(n, ()) if c in closure_up(p, io_funcs(p, ['read']))}
            w2 = {c for n in wr for c in p.cg.callees.get(n, ()) if c in closure_up(p, io_funcs(p, ['write', 'writev']))}
            rd, wr = r2 - w2, w2 - r2
        c = Mux(p, rd, wr); c.A = a = Analysis(p.mod, c, p.cg, K=4); a.run(m); runs.append(c)
    nv, tot = finish(r, runs, dict(ask=('readiness_tests', 'readiness tests', 2), serve=('handler_calls', 'handler calls', 2), remove=('removals', 'removals of objects', 1)))
    for k in ('ask', 'serve', 'remove'):
        for i in tot[k].values():
            if not any(x.id == i.id for c in runs for _, x, *_ in c.viol.values()): r.ok('%s: consistent with readiness and results' % i.where())
