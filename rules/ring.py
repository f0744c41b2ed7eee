"""The ring buffer of every object: what is put in, what is taken out, what a log replay shows."""
import re
from num import *
from absint import Budget
from core import Broken
from registry import prop
import build

LOCK = {'pthread_mutex_lock', 'x_pthread_mutex_lock'}
UNLOCK = {'pthread_mutex_unlock', 'x_pthread_mutex_unlock'}
GH = ('al', -1, 'ring')
gK, gW, gR, gT = 0, 8, 16, 24      # appended, written out, replayed in this section; appended in all
gI, gO, gA, gS, gD = 32, 40, 48, 56, 64   # positions when the section began; start of the text; start of a replay and where it goes

def vsyms(v):
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in v[1]) and isinstance(v[0], int): return set(syms(v))
        out = set()
        for x in v: out |= vsyms(x)
        return out
    return set()

class Shape:
    """where the ring lives in an object"""
    def __init__(self, mod):
        self.mod = mod; self.tag = None
        for sty in list(mod.types):
            if not sty.startswith('%struct.'): continue
            nm = re.sub(r'\.\d+$', '', sty[len('%struct.'):]); ms = mod.members(nm)
            if not ms: continue
            d = {n: (bo, bit, sz) for bo, bit, sz, n, bt in ms}
            if {'bufInPtr', 'bufOutPtr', 'buf', 'bufLock', 'fd'} <= set(d):
                self.tag = nm; self.sty = sty; self.d = d; break
        if not self.tag: raise Broken('no object structure with bufInPtr, bufOutPtr, buf and bufLock')
        self.IN, self.OUT, self.BUF, self.LCK, self.FD = (d[n][0] for n in ('bufInPtr', 'bufOutPtr', 'buf', 'bufLock', 'fd'))
        self.SIZE = d['buf'][2] // 8
        self.bits = {}
        for n, (bo, bit, sz) in d.items():
            if bit is not None: self.bits[n] = bit
        lay = mod.layout(sty)
        self.stor = None
        if 'gotBufWrap' in self.bits:
            by = self.bits['gotBufWrap'] // 8
            for off, t in lay[3]:
                if off <= by < off + mod.layout(t)[0] and mod.layout(t)[2] != 's': self.stor = (off, mod.layout(t)[0], self.bits['gotBufWrap'] - 8 * off)
        if self.stor is None: raise Broken('no gotBufWrap member')
        self.lab = {self.IN: self.tag + '.bufInPtr', self.OUT: self.tag + '.bufOutPtr', self.stor[0]: '%s.#bf%d' % (self.tag, self.stor[0]), self.FD: self.tag + '.fd'}
        self.names = {self.tag + '.bufInPtr', self.tag + '.bufOutPtr', self.tag + '.buf'}
    def buf(self, root): return ('sub', root, self.BUF, self.SIZE)

def touches(p, sh, writers=False):
    """functions that compute the address of a ring position, or of the ring"""
    out = set()
    for f in p.funcs():
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'getelementptr' and i.ty == sh.sty and len(i.ops) >= 3 and i.ops[2][0] == 'i':
                    if sh.mod.field_name(i.ty, i.ops[2][1]) in sh.names: out.add(f.name)
    return out

class Ring(NumRule):
    K = 96; exit_k = 96; stable = True
    def __init__(self, p, sh, touch, force=frozenset()):
        self.force = force
        self.p = p; self.sh = sh; self.touch = touch; self.bad = []; self.lift = []; self.exits = []; self.done = set()
        self.ringval = {}; self.gsym = {}; self.stat = dict(sections=0, copies=0, writes=0, resets=0, replays=0); self.seen = set()
        self.leaf = {}; self.start = {}; self.nm = 0
        self.keepl = []
    # ---------------------------------------------------------------- bookkeeping
    def report(self, st, i, rule, msg):
        if self.A.quiet: return
        k = (rule, i.where() if hasattr(i, 'where') else str(i), msg)
        if k not in self.done:
            self.done.add(k); self.bad.append(dict(rule=rule, at=i, msg=msg, path=st.lines(16)))
    def see(self, what, i):
        if not self.A.quiet and (what, i.where()) not in self.seen: self.seen.add((what, i.where())); self.stat[what] += 1
    def initial(self): return ()
    def setup(self, A, st, f, args):
        self.A = A; self.args = args
        for g in (gK, gW, gR, gT, gI, gO, gA, gS, gD): st.mem[(GH, g)] = (C(0), 8)
    def keep(self, st):
        out = [a[1] for a in self.args if a[0] == 'n'] + self.keepl
        for k, x in list(self.A.memo.items())[self.nm:]:
            if k[0] == 'and' and const(k[2]) == 1 and self.member(k[1]) in ('gotEOF', 'enableQuiet'): self.keepl.append(S(x))
        self.nm = len(self.A.memo)
        return out
    def substp(self, prop, m): return prop
    def g(self, st, c): return st.mem[(GH, c)][0][1]
    def gset(self, st, c, l): st.mem[(GH, c)] = (N(l), 8)
    def sec(self, st): return dict(st.prop) if st.prop else {}
    def put(self, st, d): st.prop = tuple(sorted(d.items(), key=lambda x: x[0]))
    def inline(self, A, st, t, i, args):
        if t.name in self.force: return True
        near = t.name in self.touch or bool(self.p.cg.reach(t.name) & self.touch)
        if near and self.sec(st).get('held'): return True
        if near: return False
        l = self.leaf.get(t.name)
        if l is None:
            l = self.leaf[t.name] = len(t.blocks) <= 24 and not any(x.op == 'call' and x.x and not x.x.startswith('llvm.') for b in t.blocks for x in b.insts) and not A.loops(t)[0]
        return l
    def fresh_load(self, A, st, i, label, obj, off):
        for l in label or ():
            if '.#bf' in l:
                s = A.sym('bits'); A.range(st, s, -128, 127); self.gsym[s] = l
                self.keepl.append(S(s))
                return N(S(s))
        if isinstance(off, int) and off in (self.sh.IN, self.sh.OUT) and any(l in self.sh.names for l in label or ()):
            # positions seen without the lock: somewhere in the ring
            s = A.sym('pos'); A.range(st, s, 0, self.sh.SIZE - 1)
            return P(self.sh.buf(obj), S(s))
        return None
    # ---------------------------------------------------------------- bits
    def bit(self, l, b):
        """bit b of l: True, False or a symbolic token"""
        c = const(l)
        if c is not None: return bool(c >> b & 1)
        if l[0] == 0 and len(l[1]) == 1:
            s, k = l[1][0]
            if k == 1:
                e = self.A.expr.get(s)
                if e and e[0] in ('and', 'or', 'xor'):
                    x, y = self.bit(e[1], b), self.bit(e[2], b)
                    if e[0] == 'and':
                        if x is False or y is False: return False
                        if x is True: return y
                        if y is True: return x
                    elif e[0] == 'or':
                        if x is True or y is True: return True
                        if x is False: return y
                        if y is False: return x
                    elif x in (True, False) and y in (True, False): return x != y
                    return x if x == y and e[0] != 'xor' else ('x', s, b)
                if e and e[0] == 'lshr': return self.bit(e[1], b + const(e[2]))
                return ('x', s, b)
            if k > 1 and k & (k - 1) == 0:
                n = k.bit_length() - 1
                return False if b < n else self.bit(S(s), b - n)
        return ('?', l, b)
    def key(self, st):
        x = ()
        if self.sec(st).get('held'):
            d = self.sec(st); ci = st.mem.get((d['held'], self.sh.IN)); pi = self.ring(st, ci[0]) if ci else None
            at = add(self.g(st, gI), self.g(st, gK)) if d.get('rp') is None else add(self.g(st, gS), self.g(st, gR))
            pos = [pi[1]] if pi else []
            for n in sorted(k for k, v in st.env.items() if isinstance(k, str) and v[0] == 'p' and v[1][0] == 'sub'):
                y = self.ring(st, st.env[n])
                if y and len(pos) < 4: pos.append(y[1])
            x = tuple(self.cong(st, y, at) for y in pos)
        return (st.prop, x, tuple(1 if st.entails(sub(K(self.sh.SIZE - 1), a[1])) else 2 if st.entails(sub(a[1], K(self.sh.SIZE - 1))) else 0 for a in self.args if a[0] == 'n' and a[1][1]))
    def templates(self, A, st, f, head):
        d = self.sec(st); r = d.get('held'); out = []
        if not r: return out
        M = K(self.sh.SIZE)
        if d.get('rp') is None: at = add(self.g(st, gI), self.g(st, gK))
        else: at = add(self.g(st, gS), self.g(st, gR))
        pos = []
        for k, (v, sz) in st.mem.items():
            if k == (r, self.sh.IN): y = self.ring(st, v); pos += [y[1]] if y else []
        for k, v in st.env.items():
            y = self.ring(st, v) if v[0] == 'p' else None
            if y: pos.append(y[1])
        for y in pos:
            out += [y, sub(K(self.sh.SIZE - 1), y)]
            for e in (at, sub(at, M)): out += [sub(y, e), sub(e, y)]
        t = self.g(st, gT)
        for k, v in st.env.items():
            if v[0] == 'p' and d.get('ap'):
                ro, off = A.root(v[1], v[2])
                if ro == d['ap']: e = sub(off, add(self.g(st, gA), t)); out += [e, mul(e, -1)]
            if v[0] == 'n' and len(v[1][1]) == 1:
                for q in (t, self.g(st, gR)): e = sub(v[1], q); out += [e, mul(e, -1)]
        if d.get('ap'): e = sub(t, self.g(st, gK)); out += [e, mul(e, -1)]
        if d.get('rp') is not None:
            for k, v in st.env.items():
                if v[0] == 'p' and A.root(v[1])[0] == d['rp']:
                    e = sub(A.root(v[1], v[2])[1], add(self.g(st, gD), self.g(st, gR))); out += [e, mul(e, -1)]
        return out
    def member(self, x):
        """the one-bit member whose value is the lowest bit of x"""
        b = 0; A = self.A
        if x[0] != 0 or len(x[1]) != 1 or x[1][0][1] != 1: return None
        q = x[1][0][0]; e = A.expr.get(q)
        if e and e[0] == 'lshr':
            b = const(e[2])
            if e[1][0] != 0 or len(e[1][1]) != 1: return None
            q = e[1][1][0][0]
        l = self.gsym.get(q)
        return self.p.mod.bitfield_name(l, b).split('.')[-1] if l else None
    def flag(self, st, name):
        """is some bitfield member of this name known to be set on this path?"""
        for k, s in self.A.memo.items():
            if k[0] == 'and' and const(k[2]) == 1 and self.member(k[1]) == name and st.entails(add(S(s), K(-1))): return True
        return False
    def partition(self, A, st, f, head):
        return tuple(const(st.env[p.res][1]) if st.env.get(p.res, ('t',))[0] == 'n' else None for p in head.phis()) + tuple(const(v[1]) for r in sorted(k for k in st.env if isinstance(k, str)) for v in [st.env[r]] if v[0] == 'n' and const(v[1]) is not None)
    # ---------------------------------------------------------------- sections
    def lock_of(self, a):
        if a[0] != 'p': return None
        r, off = self.A.root(a[1], a[2]); c = const(off)
        if c != self.sh.LCK or not any(l == self.sh.tag + '.bufLock' for l in self.A.labels.get((r, c), ())): return None
        return r
    def begin(self, st, i, r):
        A = self.A; sh = self.sh; out = []
        if self.sec(st).get('held'): return [st]      # nested: L01
        self.see('sections', i)
        for used in (0, 1):
            for wrap in (0, 1):
                s = st.copy()
                for k in [k for k in s.mem if k[0] != r and k[1] in (sh.IN, sh.OUT)]: del s.mem[k]
                a, b, g = self.secsyms(A, s, i, r, used, wrap)
                A.range(s, a, 0, sh.SIZE - 1); A.range(s, b, 0, sh.SIZE - 1)
                d = sub(S(a), S(b))
                if not s.assume(d if used == 0 else add(mul(d, -1), K(-1))): continue
                so, sz, bt = sh.stor
                l = A.bitop(s, 'and', S(g), K(0xff ^ (1 << bt)), 'i8')
                if wrap: l = A.bitop(s, 'or', l, K(1 << bt), 'i8')
                for x in syms(l): self.gsym[x] = sh.lab[so]; self.keepl.append(S(x))
                s.mem[(r, sh.IN)] = (P(sh.buf(r), S(a)), 8); s.mem[(r, sh.OUT)] = (P(sh.buf(r), S(b)), 8); s.mem[(r, so)] = (N(l), sz)
                for o in (sh.IN, sh.OUT, so, sh.FD): A.labels.setdefault((r, o), set()).add(sh.lab[o])
                for c in (gK, gW, gR): self.gset(s, c, ZERO)
                s.prop = ()
                old = self.sec(st)
                d = {x: y for x, y in old.items() if x in ('ap', 'closed')}
                d.update(held=r, case=(used, wrap)); self.gset(s, gI, S(a)); self.gset(s, gO, S(b))
                self.put(s, d); out.append(s)
        return out
    def secsyms(self, A, s, i, r, used, wrap):
        """symbols for the state of the buffer when a section starts: the same ones each time the place is analysed,
        unless a value of the last time is still around"""
        k = (tuple(id(x) for x in A.stack), id(i), r, used, wrap); o = self.start.get(k)
        if o is not None:
            live = set()
            for e in (s.env,) + s.frames:
                for v in e.values(): live.update(vsyms(v))
            for v, _ in s.mem.values(): live.update(vsyms(v))
            for (ro, off), (v, _) in s.scell.items(): live.update(vsyms(v)); live.update(syms(off))
            if not live & set(o):
                q = set(o)
                s.cons = {t: c for t, c in s.cons.items() if not any(x in q for x, _ in t)}
                s.neq = frozenset(d for d in s.neq if not any(x in q for x, _ in d[1]))
                return o
        self.start[k] = o = (A.sym('in'), A.sym('out'), A.sym('bits'))
        return o
    def ring(self, st, v):
        """v a pointer into the ring of an object -> (root, offset)"""
        if v[0] != 'p': return None
        r, off = self.A.root(v[1], v[2])
        if v[1][0] == 'sub' and v[1][1] == r and v[1][2] == self.sh.BUF and v[1][3] == self.sh.SIZE: return r, v[2]
        return None
    def cong(self, st, a, b):
        """0: a == b; 1: a == b - SIZE; None: neither is certain"""
        if st.eq(a, b): return 0
        if st.eq(a, add(b, K(-self.sh.SIZE))): return 1
        return None
    def end(self, st, i, r):
        sh = self.sh; d = self.sec(st)
        if d.get('held') != r: return
        ci, co, cs = st.mem.get((r, sh.IN)), st.mem.get((r, sh.OUT)), st.mem.get((r, sh.stor[0]))
        if ci is None or co is None or cs is None: self.report(st, i, 'unknown', 'the positions of the buffer are changed by something that is not understood'); return
        pi, po = self.ring(st, ci[0]), self.ring(st, co[0])
        if pi is None or po is None or pi[0] != r or po[0] != r:
            self.report(st, i, 'bounds', 'a position of the buffer may not point into the buffer of its object'); return
        a, b = pi[1], po[1]; i0, o0 = self.g(st, gI), self.g(st, gO); used, wrap = d['case']
        k, w, n = self.g(st, gK), self.g(st, gW), self.g(st, gR); M = sh.SIZE
        for x, nm in ((a, 'next byte to store'), (b, 'next byte to write out')):
            if not (st.entails(x) and st.entails(sub(K(M - 1), x))):
                self.report(st, i, 'bounds', 'the position of the %s may be left outside of the buffer' % nm)
                if x is b and not st.eq(b, o0) and k == ZERO: self.report(st, i, 'consumed', 'what leaves the buffer may not be exactly what was written')
                return
        usedn = sub(i0, o0) if used == 0 else add(sub(i0, o0), K(M))
        bt = self.bit(cs[0][1], sh.stor[2])
        # flush
        left = self.cong(st, i0, add(o0, w)) is None and self.cong(st, add(o0, w), i0) is None
        if k == ZERO and not (st.eq(a, i0) and self.cong(st, b, add(o0, w)) is not None) and st.eq(a, b):
            self.see('resets', i)
            if d.get('closed') != r and left: self.report(st, i, 'dropped', 'buffered output may be dropped although the object was not shut down')
            if not st.eq(a, i0) and bt is not False:
                if not (st.eq(a, ZERO) and bt is False): self.report(st, i, 'stale', 'the buffer is restarted but is still marked as having wrapped around, so a later replay shows old bytes as the newest')
            return
        # position of the next byte to store
        c = self.cong(st, a, add(i0, k))
        if c is None: self.report(st, i, 'position', 'the position of the next byte to store may not follow the bytes stored'); return
        if not st.entails(sub(K(M - 1), k)): self.report(st, i, 'capacity', 'more bytes may be stored at once than the buffer holds'); return
        # wrapped mark
        if c == 1 and bt is not True: self.report(st, i, 'wrap', 'the buffer wraps around without being marked so')
        if c == 0 and bt is not bool(wrap): self.report(st, i, 'wrap', 'the buffer may be marked as having wrapped around although it has not')
        # position of the next byte to write out
        if k == ZERO or st.eq(k, ZERO):
            if self.cong(st, b, add(o0, w)) is None: self.report(st, i, 'consumed', 'what leaves the buffer may not be exactly what was written')
        else:
            avail = add(sub(K(M - 1), usedn), w)
            if st.entails(sub(avail, k)):
                if self.cong(st, b, add(o0, w)) is None: self.report(st, i, 'kept', 'buffered output may be given up although there is room')
            elif st.entails(sub(k, avail)):
                if self.cong(st, b, add(a, K(1))) is None: self.report(st, i, 'oldest', 'after overwriting the oldest output the position of the next byte to write out may not be the oldest byte left')
            else: self.report(st, i, 'overflow', 'whether output was overwritten is not told from whether there was room')
        # replay
        if d.get('rp'):
            s0 = self.g(st, gS)
            self.see('replays', i)
            if n == ZERO or st.eq(n, ZERO): return
            if not (st.eq(a, i0)): self.report(st, i, 'replay', 'the buffer changes while it is replayed'); return
            c = self.cong(st, a, add(s0, n))
            if c is None: self.report(st, i, 'replay', 'what is replayed may not be the newest bytes of the buffer')
            elif c == 1 and not wrap: self.report(st, i, 'replay', 'bytes may be replayed that were never put into the buffer')
            elif not st.entails(sub(K(M), n)): self.report(st, i, 'replay', 'more bytes may be replayed than the buffer holds')
    # ---------------------------------------------------------------- bytes into the ring, bytes out of it
    def append(self, st, i, r, dst, src, m):
        sh = self.sh; d = self.sec(st)
        if d.get('held') != r: self.lift.append((i, 'the buffer is written without its lock')); return
        self.see('copies', i)
        k = self.g(st, gK); i0 = self.g(st, gI)
        if not st.entails(m): self.report(st, i, 'bounds', 'a negative number of bytes may be copied into the buffer'); return
        if not (st.entails(dst) and st.entails(sub(sub(K(sh.SIZE), dst), m))): self.report(st, i, 'bounds', 'bytes may be stored past the end of the buffer')
        if st.eq(m, ZERO): return
        if self.cong(st, dst, add(i0, k)) is None: self.report(st, i, 'order', 'bytes may be stored at a position that does not follow the last one stored')
        t = self.g(st, gT)
        if src is None: self.report(st, i, 'source', 'bytes of unknown origin are stored in the buffer')
        elif d.get('ap') is None: d['ap'] = src[0]; self.gset(st, gA, src[1])
        elif d['ap'] != src[0] or not st.eq(src[1], add(self.g(st, gA), t)): self.report(st, i, 'source', 'the bytes stored may not be the next ones of the text')
        self.put(st, d); self.gset(st, gK, add(k, m)); self.gset(st, gT, add(t, m))
    def replay(self, st, i, r, src, dst, m):
        sh = self.sh; d = self.sec(st)
        if d.get('held') != r: self.lift.append((i, 'the buffer is read without its lock')); return
        n = self.g(st, gR)
        if not st.entails(m): self.report(st, i, 'bounds', 'a negative number of bytes may be copied out of the buffer'); return
        if not (st.entails(src) and st.entails(sub(sub(K(sh.SIZE), src), m))): self.report(st, i, 'bounds', 'bytes may be read past the end of the buffer')
        if st.eq(m, ZERO): return
        if d.get('rp') is None: d['rp'] = dst[0]; self.put(st, d); self.gset(st, gS, src); self.gset(st, gD, dst[1])
        else:
            if self.cong(st, src, add(self.g(st, gS), n)) is None: self.report(st, i, 'replay', 'the bytes replayed may not be consecutive')
            if d['rp'] != dst[0] or not st.eq(dst[1], add(self.g(st, gD), n)): self.report(st, i, 'replay', 'the bytes replayed may not be put one after the other')
        self.gset(st, gR, add(n, m))
    def on_store(self, A, st, i, ptr, val, size):
        x = self.ring(st, ptr)
        if x is not None:
            src = None
            if size == 1 and val[0] == 'n':
                for (ro, off), (v, sz) in st.scell.items():
                    if sz == 1 and v == val:
                        d = self.sec(st)
                        if d.get('ap') is None or (ro == d['ap'] and st.eq(off, add(self.g(st, gA), self.g(st, gT)))): src = (ro, off); break
                for (ro, off), (v, sz) in st.mem.items():
                    if src is None and sz == 1 and v == val and ro != GH: src = (ro, K(off))
            self.append(st, i, x[0], x[1], src, K(size)); return
        if size == 1 and val[0] == 'n' and len(val[1][1]) == 1:
            o = self.ringval.get(val[1][1][0][0])
            if o and ptr[0] == 'p': self.replay(st, i, o[0], o[1], A.root(ptr[1], ptr[2]), K(1))
        r = A.root(ptr[1], ptr[2]) if ptr[0] == 'p' else None
        if r and const(r[1]) in (self.sh.IN, self.sh.OUT) and any(l in self.sh.names for l in A.labels.get((r[0], const(r[1])), ())):
            d = self.sec(st)
            if d.get('held') != r[0]:
                if r[0][0] == 'new' or d.get('new') == r[0]: pass
                else: d['new'] = r[0]; self.put(st, d)
    def on_load(self, A, st, i, ptr, val, size):
        x = self.ring(st, ptr)
        if x is not None and size == 1 and val[0] == 'n' and len(val[1][1]) == 1: self.ringval[val[1][1][0][0]] = x
    def on_call(self, A, st, i, name, args):
        if name in LOCK and args:
            r = self.lock_of(args[0])
            if r is not None: return [(s, C(0)) for s in self.begin(st, i, r)]
            return [(st, C(0))] if name == 'pthread_mutex_lock' else None
        if name in UNLOCK and args:
            r = self.lock_of(args[0])
            if r is not None:
                self.end(st, i, r); d = self.sec(st)
                if d.get('held') == r:
                    self.put(st, {x: y for x, y in d.items() if x in ('ap', 'closed')})
                    for o in (self.sh.IN, self.sh.OUT, self.sh.stor[0]): st.mem.pop((r, o), None)
                    for c in (gK, gW, gR): self.gset(st, c, ZERO)
            return [(st, C(0))] if name == 'pthread_mutex_unlock' else None
        t = self.p.mod.funcs.get(name)
        if t is not None and not t.decl: return None
        if name == 'close' and args:
            for (ro, off), (v, sz) in st.mem.items():
                if off == self.sh.FD and v == args[0] and self.sh.lab[off] in A.labels.get((ro, off), ()):
                    d = self.sec(st); d['closed'] = ro; self.put(st, d); break
            return None
        base = name[5:].split('.')[0] if name.startswith('llvm.mem') else name
        if base in ('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk', 'mempcpy') and len(args) >= 3:
            m = A.intval(st, args[2]); x, y = self.ring(st, args[0]), self.ring(st, args[1])
            if m is not None and x is not None:
                self.append(st, i, x[0], x[1], A.root(args[1][1], args[1][2]) if args[1][0] == 'p' else None, m)
                return [(st, args[0] if base != 'mempcpy' else P(args[0][1], add(args[0][2], m)))]
            if m is not None and y is not None:
                if args[0][0] == 'p':
                    ro, off = A.root(args[0][1], args[0][2])
                    self.replay(st, i, y[0], y[1], (ro, off), m); A.kill(st, ro, off, m)
                return [(st, args[0] if base != 'mempcpy' else P(args[0][1], add(args[0][2], m)))]
            return None
        if name in ('writev', 'write', 'send') and args:
            d = self.sec(st); r = d.get('held')
            iov = self.vector(st, name, args)
            if iov is not None and any(self.ring(st, b) for b, l in iov): return self.drain(st, i, r, args[0], iov)
            if iov is None and name == 'writev' and r is not None:
                self.report(st, i, 'written', 'it is not clear what is written'); return None
            return None
        if any(self.ring(st, a) for a in args) and name not in ('memset', 'llvm.memset') and not name.startswith('llvm.'):
            self.report(st, i, 'other', 'the bytes of the buffer are handed to %s()' % name)
        return None
    def vector(self, st, name, args):
        A = self.A
        if name != 'writev':
            l = A.intval(st, args[2]) if len(args) > 2 else None
            return [(args[1], l)] if l is not None else None
        n = A.intval(st, args[2])
        n = const(n) if n is not None else None
        if n is None or not 0 <= n <= 8 or args[1][0] != 'p': return None
        r, off = A.root(args[1][1], args[1][2]); c = const(off)
        if c is None: return None
        out = []
        for j in range(n):
            b, l = st.mem.get((r, c + 16 * j)), st.mem.get((r, c + 16 * j + 8))
            if b is None or l is None or A.intval(st, l[0]) is None: return None
            out.append((b[0], A.intval(st, l[0])))
        return out
    def drain(self, st, i, r, fd, iov):
        A = self.A; sh = self.sh; d = self.sec(st); M = sh.SIZE
        roots = {self.ring(st, b)[0] if self.ring(st, b) else None for b, l in iov}
        if roots != {r}:
            if r is None: self.lift.append((i, 'the buffer is written out without its lock'))
            else: self.report(st, i, 'written', 'the bytes written are not those of the buffer of one object')
            return None
        self.see('writes', i)
        f = st.mem.get((r, sh.FD))
        if f is None or f[0] != fd: self.report(st, i, 'written', 'the buffer is written to a descriptor that may not be the one of its object')
        used, wrap = d['case']; i0, o0 = self.g(st, gI), self.g(st, gO); w = self.g(st, gW); k = self.g(st, gK)
        if not (k == ZERO): self.report(st, i, 'written', 'the buffer is filled and written out at once'); return None
        usedn = sub(sub(i0, o0) if used == 0 else add(sub(i0, o0), K(M)), w)
        tot = ZERO
        for b, l in iov:
            p = self.ring(st, b)[1]
            if not (st.entails(l) and st.entails(p) and st.entails(sub(sub(K(M), p), l))): self.report(st, i, 'bounds', 'bytes outside of the buffer may be written out')
            if not st.eq(l, ZERO) and self.cong(st, p, add(add(o0, w), tot)) is None: self.report(st, i, 'written', 'the bytes written may not be the oldest ones of the buffer, in order')
            tot = add(tot, l)
        if not st.entails(sub(usedn, tot)): self.report(st, i, 'written', 'more bytes may be written than are buffered')
        if not st.entails(add(tot, K(-1))): self.report(st, i, 'progress', 'nothing may be written although output is buffered')
        s2 = st.copy(); n = A.sym('n'); A.range(s2, n, 0)
        ok = s2.assume(sub(tot, S(n)))
        self.gset(s2, gW, add(w, S(n)))
        for s in (st, s2): s.mem.pop((('g', 'errno'), 0), None)
        return [(st, C(-1))] + ([(s2, N(S(n)))] if ok else [])
    def on_return(self, A, st, f, rv, t):
        if A.stack or A.quiet: return
        d = self.sec(st)
        if d.get('new'):
            r = d['new']; sh = self.sh
            ci, co = st.mem.get((r, sh.IN)), st.mem.get((r, sh.OUT))
            pi = self.ring(st, ci[0]) if ci else None; po = self.ring(st, co[0]) if co else None
            cs = st.mem.get((r, sh.stor[0]))
            if pi is None or po is None or not st.eq(pi[1], po[1]) or not st.eq(pi[1], ZERO): self.lift.append((t, 'positions of a buffer are set without its lock'))
            elif cs is None or self.bit(cs[0][1], sh.stor[2]) is not False: self.report(st, t, 'init', 'a new buffer may be marked as having wrapped around')
            else: self.see('resets', t)
        tt = self.g(st, gT)
        why = None
        if d.get('ap') is None:
            why = self.flag(st, 'gotEOF') or (self.flag(st, 'enableQuiet') and tuple(k for k, a in enumerate(self.args) if a[0] == 'n' and st.differs(a[1])))
        self.exits.append((t, d, tt, why, st))

def run(p, sh, touch, f, tier, force=frozenset()):
    R = Ring(p, sh, touch, force); A = Num(p.mod, p.cg, R)
    A.run(f)
    # appending functions take the whole text
    ap = {d['ap'] for t, d, tt, why, st in R.exits if d.get('ap')}
    if ap:
        cands = [k for k, a in enumerate(R.args) if a[0] == 'n']
        good = []
        for k in cands:
            L = R.args[k][1]; fails = []
            for t, d, tt, why, st in R.exits:
                if d.get('ap'):
                    if d['ap'][0] == 'p' and not st.eq(R.g(st, gA), ZERO): fails.append((t, st, 'the bytes stored may not begin with the first of the text'))
                    elif not (st.eq(tt, L) or (st.eq(tt, K(sh.SIZE - 1)) and st.entails(sub(L, K(sh.SIZE - 1))))): fails.append((t, st, 'a text may be stored only in part although it fits into the buffer'))
                else:
                    src = [a for a in ap if a[0] == 'p']
                    if not (why is True or (why and any(q != k for q in why)) or st.entails(mul(L, -1)) or any(st.nul.get(a) for a in src)): fails.append((t, st, 'a text may be left out although the object can take it'))
            good.append((len(fails), k, fails))
        if not good: R.lift.append((R.exits[0][0], 'no length of the text stored'))
        else:
            for t, st, msg in min(good)[2]: R.report(st, t, 'whole', msg)
    return R

def analyse(p, sh, tier, cache={}):
    k = (id(p), tier)
    if k in cache: return cache[k]
    touch = touches(p, sh); cg = p.cg
    if not touch: raise Broken('no function touches the buffer of an object')
    res = []; bad = []; seen = set(); stat = {}
    def go(f, depth, force):
        """findings of f, discharged in the callers if they come from something only those know"""
        R = run(p, sh, touch, f, tier, force); seen.add(f)
        callers = sorted(set(cg.callers.get(f, ())))
        own = R.bad + [dict(rule='unlocked', at=i, msg=m, path=[]) for i, m in R.lift]
        if own and depth < 2 and callers and f not in cg.addr_taken and len(callers) <= 4:
            try:
                sub_ = []; st = []
                for c in callers:
                    b, s = go(c, depth + 1, force | {f}); sub_ += b; st += s
                return sub_, st
            except Budget: pass
        return own, [R.stat]
    for f in sorted(touch):
        b, s = go(f, 0, frozenset()); bad += b
        for x in s:
            for q, v in x.items(): stat[q] = stat.get(q, 0) + v
    cache[k] = (touch, bad, stat)
    return cache[k]

GROUP = dict(D02={'bounds', 'position', 'capacity', 'kept', 'oldest', 'overflow', 'order', 'source', 'whole', 'unknown', 'init', 'unlocked', 'other'},
             D05={'consumed', 'dropped', 'written', 'progress'},
             D08={'wrap', 'stale', 'replay'})

RULETEXT = dict(
 D02='between taking and releasing the lock of a buffer: both positions stay inside the buffer; the next-to-store position advances (modulo the size) by exactly the bytes copied, at most SIZE-1; copies go to consecutive positions inside the buffer and come from consecutive bytes of one text, the whole of it (its first SIZE-1 bytes when it is longer) unless the object got its end-of-file or suppresses the message; the next-to-write position moves only when stored bytes exceed the room left, and then exactly to the oldest byte that is left',
 D05='what is handed to write()/writev() is, piece after piece, the oldest buffered bytes of the object whose descriptor it is, no more than are buffered and at least one; the next-to-write position then advances (modulo the size) by exactly the number of bytes the call reported; buffered output is otherwise dropped only where the descriptor has been closed before',
 D08='the mark that the buffer wrapped around is set exactly when the next-to-store position passes the end, and cleared when the buffer is restarted; a replay copies consecutive bytes that end at the newest one, never more than were stored, without changing the buffer')
def judge(r, tier, pid):
    r.rule(RULETEXT[pid])
    p = build.load('conmand'); sh = Shape(p.mod)
    touch, bad, stat = analyse(p, sh, tier)
    r.count(functions_touching_a_buffer=len(touch))
    r.need(stat['sections'], 'sections under the buffer lock', 3)
    if pid == 'D02': r.need(stat['copies'], 'copies into a buffer', 1)
    if pid == 'D05': r.need(stat['writes'], 'writes from a buffer', 1); r.need(stat['resets'], 'restarts of a buffer', 1)
    if pid == 'D08': r.need(stat['replays'], 'replaying sections', 1)
    mine = [b for b in bad if b['rule'] in GROUP[pid]]
    for b in mine:
        i = b['at']; r.bad(b['rule'], i, b['msg'], key='%s %s' % (b['rule'], i.fn.src_name if hasattr(i, 'fn') else ''), path=b['path'])
    for f in sorted(touch):
        if not any(getattr(b['at'], 'fn', None) is not None and b['at'].fn.name == f for b in mine): r.ok('%s: every path through its sections obeys the rule' % f)

ANCH = dict(files=['src/server-obj.c', 'src/server-esc.c', 'src/server.h'])
TECH = 'linear-relational abstract interpretation of LLVM IR with ghost counters (appended, written, replayed bytes), case split per critical section'
@prop('D02', title='Queued text enters the output buffer whole; only the oldest bytes give way', level='other',
      statement='Whatever is queued for an object (console, log or client) enters its output buffer completely and in order, behind what is already queued (the first 16383 bytes of a longer text), unless the object has seen its end-of-file or is a client that asked not to be shown informational messages. When there is no room, the oldest unwritten bytes are given up and only as many as needed; when there is room nothing is. The buffer never reads or writes outside its storage.',
      quantifier=dict(over=['inputs', 'histories'], text='every text and length, every fill level, position and wrap state of the buffer'),
      why='An off-by-one at the physical end of the buffer, or at exactly full, needs one of 16384 positions times one of 16384 fill levels to show; it then loses or duplicates console output silently.',
      anchors=dict(ANCH, mechanism=[dict(name='append', where='src/server-obj.c:write_obj_data'), dict(name='fill level', where='src/server-obj.c:num_bytes_buffered')]), technique=TECH)
def D02(r, tier): judge(r, tier, 'D02')
@prop('D05', title='What is written to an object is what is next in its buffer, exactly once', level='other',
      statement='Writing to an object hands the system the oldest unwritten bytes of that object\'s own buffer, in order and no others, and exactly the bytes the system accepted leave the buffer; after an error or a partial write the rest remains and is next. Unwritten bytes are otherwise discarded only to make room for newer ones or when the object\'s descriptor has been closed.',
      quantifier=dict(over=['inputs', 'faults', 'histories'], text='every fill level and position of the buffer, every partial write and every error'),
      why='Partial writes that end exactly at or beyond the physical end of the buffer depend on the speed of the peer; a mistake repeats or skips output.',
      anchors=dict(ANCH, mechanism=[dict(name='drain', where='src/server-obj.c:write_to_obj'), dict(name='flush', where='src/server-obj.c:shutdown_obj')]), technique=TECH)
def D05(r, tier): judge(r, tier, 'D05')
@prop('D08', title='A log replay shows the newest bytes of the log and never stale memory', level='other',
      statement='The log-replay escape shows the client a contiguous run of bytes that ends with the newest byte of the console\'s log, and never bytes that were not stored in the log\'s buffer since it was created or last restarted.',
      quantifier=dict(over=['histories', 'inputs'], text='every position and wrap state of the log buffer, including restarts after a log file failed'),
      why='It depends on the position in a 16 kB ring and on whether it ever wrapped around; the other cases show uninitialised or outdated memory to a user.',
      anchors=dict(ANCH, mechanism=[dict(name='replay', where='src/server-esc.c:perform_log_replay'), dict(name='wrap mark', where='src/server-obj.c:write_obj_data')]), technique=TECH)
def D08(r, tier): judge(r, tier, 'D08')
