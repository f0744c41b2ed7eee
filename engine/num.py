"""Linear-relational abstract interpretation of the IR.

Values are linear expressions over symbols, or pointers (object, linear byte
offset). A state carries a conjunction of linear inequalities; branches are
pruned and obligations discharged by Fourier-Motzkin elimination over the
rationals with integer tightening. Loop invariants are found by dropping the
candidate inequalities (bounds on and differences between the values the loop
changes, relaxed loop guards) that some arrival at the loop head does not
preserve. Machine integers are taken not to overflow."""
from math import gcd
from absint import Budget

# ------------------------------------------------------------ linear expressions: (const, ((sym, coef), ...))
ZERO = (0, ())
def K(c): return (c, ())
def S(s): return (0, ((s, 1),))
def add(a, b, k=1):
    if not b[1]: return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1: return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + k * c
        if v: d[s] = v
        else: d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))
def sub(a, b): return add(a, b, -1)
def mul(a, k): return (a[0] * k, tuple((s, c * k) for s, c in a[1])) if k else ZERO
def const(a): return a[0] if not a[1] else None
def syms(a): return [s for s, _ in a[1]]
def repl(a, m):
    """substitute symbols by linear expressions"""
    if not any(s in m for s, _ in a[1]): return a
    r = (a[0], tuple((s, c) for s, c in a[1] if s not in m))
    for s, c in a[1]:
        if s in m: r = add(r, m[s], c)
    return r
def norm(a):
    """canonical form of a >= 0 -> (terms, const)"""
    c, t = a
    if not t: return (t, c)
    g = 0
    for _, k in t: g = gcd(g, k)
    if g > 1: return (tuple((s, k // g) for s, k in t), c // g)
    return (t, c)

def infeasible(cs, cap=300):
    """no rational solution (after integer tightening) of the inequalities cs (dict terms -> const)"""
    cur = {}
    def put(d, t, c):
        if not t:
            return c < 0
        o = d.get(t)
        if o is None or c < o: d[t] = c
        return False
    for t, c in cs.items():
        if put(cur, t, c): return True
    while cur:
        # contradictory opposite pairs, equalities
        eq = None
        for t, c in cur.items():
            n = tuple((s, -k) for s, k in t)
            o = cur.get(n)
            if o is not None:
                if c + o < 0: return True
                if c + o == 0 and eq is None:
                    for s, k in t:
                        if k in (1, -1): eq = (t, c, s, k); break
        nxt = {}
        if eq:
            t, c, s, k = eq      # t + c == 0  ->  s = -(t' + c)/k
            e = (c, tuple((x, y) for x, y in t if x != s)); e = mul(e, -1 if k == 1 else 1)
            for t2, c2 in cur.items():
                l = (c2, t2)
                if any(x == s for x, _ in t2): l = repl(l, {s: e})
                nt, nc = norm(l)
                if put(nxt, nt, nc): return True
            cur = nxt; continue
        pos, neg = {}, {}
        for t in cur:
            for s, k in t: (pos if k > 0 else neg).setdefault(s, []).append(t)
        best = None
        for s in set(pos) | set(neg):
            a, b = len(pos.get(s, ())), len(neg.get(s, ()))
            w = a * b - a - b
            if best is None or w < best[0]: best = (w, s)
        s = best[1]
        P, N = pos.get(s, ()), neg.get(s, ())
        if len(P) * len(N) > cap: return False
        drop = set(P) | set(N)
        for t, c in cur.items():
            if t not in drop: nxt[t] = c
        for tp in P:
            kp = dict(tp)[s]
            for tn in N:
                kn = -dict(tn)[s]
                l = add(mul((cur[tp], tp), kn), mul((cur[tn], tn), kp))
                nt, nc = norm(l)
                if put(nxt, nt, nc): return True
        if len(nxt) > cap: return False
        cur = nxt
    return False

# ------------------------------------------------------------ values
TOP = ('t',)
def N(l): return ('n', l)
def C(c): return ('n', (c, ()))
def P(obj, l=ZERO): return ('p', obj, l)

class NS:
    __slots__ = ('env', 'mem', 'scell', 'cons', 'neq', 'nul', 'prop', 'trace', 'frames', 'part')
    def __init__(self):
        self.env = {}; self.mem = {}; self.scell = {}; self.cons = {}; self.neq = frozenset(); self.nul = {}; self.prop = (); self.trace = None; self.frames = (); self.part = ()
    def copy(self):
        n = NS.__new__(NS)
        n.env = dict(self.env); n.mem = dict(self.mem); n.scell = dict(self.scell); n.cons = dict(self.cons); n.neq = self.neq
        n.nul = dict(self.nul); n.prop = self.prop; n.trace = self.trace; n.frames = self.frames; n.part = self.part
        return n
    def slice(self, seed):
        want = set(seed); cs = self.cons; out = {}
        idx = {}
        for t in cs:
            for s, _ in t: idx.setdefault(s, []).append(t)
        work = list(want)
        while work:
            s = work.pop()
            for t in idx.get(s, ()):
                if t in out: continue
                out[t] = cs[t]
                for x, _ in t:
                    if x not in want: want.add(x); work.append(x)
        return out
    def entails(self, l):
        """l >= 0 in every concretisation?"""
        t, c = norm(l)
        if not t: return c >= 0
        o = self.cons.get(t)
        if o is not None and o <= c: return True
        cs = self.slice([s for s, _ in t])
        if not cs: return False
        nt = tuple((s, -k) for s, k in t)
        o = cs.get(nt); v = -c - 1
        if o is None or v < o: cs[nt] = v
        return infeasible(cs)
    def ge(self, a, b): return self.entails(sub(a, b))
    def eq(self, a, b):
        d = sub(a, b)
        return d == ZERO or (self.entails(d) and self.entails(mul(d, -1)))
    def value(self, l):
        """the constant l must have, or None"""
        if not l[1]: return l[0]
        # only worth it when bounded by simple facts
        for t, c in self.cons.items():
            if len(t) <= len(l[1]) and all(any(s == x for x, _ in l[1]) for s, _ in t): break
        else: return None
        lo, hi = self.lower(l), self.upper(l)
        return lo if lo is not None and lo == hi else None
    def lower(self, l):
        b = norm(l); o = self.cons.get(b[0])
        if o is not None and len(l[1]) == 1 and abs(l[1][0][1]) == 1: return l[0] - o
        return None
    def upper(self, l):
        r = self.lower(mul(l, -1))
        return None if r is None else -r
    def assume(self, l):
        """add l >= 0; False if that is contradictory"""
        t, c = norm(l)
        if not t: return c >= 0
        o = self.cons.get(t)
        if o is not None and o <= c: return True
        self.cons[t] = c
        if infeasible(self.slice([s for s, _ in t])): return False
        # disequalities that became one-sided
        if self.neq:
            mine = {s for s, _ in t}
            for d in list(self.neq):
                if any(s in mine for s, _ in d[1]):
                    if not self.apply_neq(d): return False
        return True
    def apply_neq(self, d):
        if not d[1]: return d[0] != 0
        if self.entails(d):
            self.neq = self.neq - {d}; return self.assume(add(d, K(-1)))
        m = mul(d, -1)
        if self.entails(m):
            self.neq = self.neq - {d}; return self.assume(add(m, K(-1)))
        return True
    def assume_eq(self, l): return self.assume(l) and self.assume(mul(l, -1))
    def assume_ne(self, l):
        if not l[1]: return l[0] != 0
        if l[1][0][1] < 0: l = mul(l, -1)
        self.neq = self.neq | {l}
        return self.apply_neq(l)
    def differs(self, l):
        """l != 0 in every concretisation?"""
        if not l[1]: return l[0] != 0
        m = mul(l, -1)
        return l in self.neq or m in self.neq or self.entails(add(l, K(-1))) or self.entails(add(m, K(-1)))
    def lines(self, n=60):
        out = []; t = self.trace
        while t and len(out) < n: out.append(t[1]); t = t[0]
        return out[::-1]

class NumRule:
    stable = False              # name objects after the place that yields them
    K = 6                       # states kept apart per block
    exit_k = 8
    def initial(self): return ()
    def setup(self, A, st, f, args): pass
    def key(self, st): return st.prop
    def partition(self, A, st, f, head): return None              # arrivals at a loop from outside that are kept apart all through it
    def inline(self, A, st, t, i, args): return False
    def on_call(self, A, st, i, name, args): return None         # -> [(st, value)]
    def fresh_load(self, A, st, i, label, obj, off): return None
    def on_store(self, A, st, i, ptr, val, size): pass
    def on_load(self, A, st, i, ptr, val, size): pass
    def access(self, A, st, i, ptr, n, kind): pass               # n: linear size, kind 'r'/'w'
    def on_return(self, A, st, f, rv, t): pass
    def on_head(self, A, st, f, head): pass                       # start of an iteration
    def on_back(self, A, st, f, head): pass                       # end of an iteration
    def templates(self, A, st, f, head): return ()
    def keep(self, st): return ()                                 # values the property state refers to
    def substp(self, prop, m): return prop

class Num:
    def __init__(self, mod, cg, rule, max_steps=200000):
        self.mod = mod; self.cg = cg; self.rule = rule; self.n = 0; self.max = max_steps
        self.names = {}; self.labels = {}; self.caps = {}; self.memo = {}; self.expr = {}; self.bound = {}
        self.objs = {}
        self.quiet = 0; self.stack = []; self.steps = 0; self.types = {}
    # -------------------------------------------------------- symbols
    def sym(self, tag=''):
        self.n += 1; self.names[self.n] = tag
        return self.n
    def fresh(self, st, ty='i32', tag='', at=None):
        if ty == 'ptr' or ty.endswith('*'):
            if at is not None and self.rule.stable:
                # the object this place yields has the same name each time it is analysed, unless the last one is still around
                k = (tuple(id(x) for x in self.stack), id(at)); o = self.objs.get(k)
                if o is not None and not self.refers(st, o):
                    st.nul.pop(o, None); return P(o)
                o = self.objs[k] = ('ld', self.sym(tag)); return P(o)
            return P(('ld', self.sym(tag)))
        s = self.sym(tag)
        r = {'i1': (0, 1), 'i8': (-128, 127), 'i16': (-32768, 32767)}.get(ty)
        if r: self.range(st, s, *r)
        if not ty.startswith('i'): return TOP
        return N(S(s))
    def refers(self, st, o):
        def has(v):
            if v == o: return True
            return isinstance(v, tuple) and any(has(x) for x in v if isinstance(x, tuple))
        return has(st.prop) or any(has(v) for v in st.env.values()) or any(has(v) for e in st.frames for v in e.values()) \
            or any(has(k[0]) or has(v[0]) for k, v in st.mem.items()) or any(has(k[0]) or has(v[0]) for k, v in st.scell.items())
    def range(self, st, s, lo=None, hi=None):
        if lo is not None: st.cons[norm(add(S(s), K(-lo)))[0]] = norm(add(S(s), K(-lo)))[1]
        if hi is not None:
            t, c = norm(sub(K(hi), S(s))); st.cons[t] = c
        o = self.bound.get(s, (None, None)); self.bound[s] = (lo if lo is not None else o[0], hi if hi is not None else o[1])
    def memoized(self, st, k, tag, lo=None, hi=None):
        """same operands, same symbol"""
        s = self.memo.get(k)
        if s is None: s = self.memo[k] = self.sym(tag)
        if lo is not None or hi is not None: self.range(st, s, lo, hi)
        return s
    # -------------------------------------------------------- objects
    @staticmethod
    def root(obj, off=ZERO):
        """(root object, offset in it) of a position in a (sub-)object"""
        while obj[0] == 'sub': off = add(off, K(obj[2])); obj = obj[1]
        return obj, off
    def cap(self, st, obj):
        """size in bytes (linear), or None if unknown"""
        if obj[0] == 'sub': return K(obj[3])
        if obj in self.caps: return self.caps[obj]
        if obj[0] == 'g':
            g = self.mod.globals.get(obj[1])
            if g is not None: return K(self.mod.layout(g.ty)[0])
        return None
    # -------------------------------------------------------- operands
    def val(self, st, op, ty=None):
        k = op[0]
        if k == '%': return st.env.get(op[1], TOP)
        if k == 'i': return C(op[1])
        if k == '@': return P(('g', op[1]))
        if k == 'gepc':
            b = self.val(st, op[2][0][1])
            return self.gep(st, op[1], b, [o[1] for o in op[2][1:]])
        if k == 'null': return C(0)
        return TOP
    def intval(self, st, v, tag='b'):
        """as a linear expression"""
        if v[0] == 'n': return v[1]
        if v[0] == 'b':
            if v[1] == 'k': return K(int(v[2]))
            s = self.memoized(st, ('bool', v), tag, 0, 1)
            return S(s)
        return None
    def gep(self, st, ty, b, idx):
        if b[0] == 'n' and const(b[1]) == 0: b = P(('nul', 0))
        if b[0] != 'p': return TOP
        obj, off = b[1], b[2]
        vals = [self.val(st, o) for o in idx]
        i0 = self.intval(st, vals[0])
        sz = self.mod.layout(ty)[0]
        if i0 is None: i0 = S(self.sym('idx'))
        off = add(off, mul(i0, sz))
        cur = ty; label = None
        for v, o in zip(vals[1:], idx[1:]):
            lay = self.mod.layout(cur)
            if lay[2] == 's':
                n = o[1]; fo, ft = lay[3][n]
                label = self.mod.field_name(cur, n) or label
                off = add(off, K(fo)); cur = ft
                if self.mod.layout(ft)[2] == 'a':
                    r, ro = self.root(obj, off); c = const(ro)
                    if c is not None: obj = ('sub', r, c, self.mod.layout(ft)[0]); off = ZERO
                    else:
                        obj = ('sub', ('anon', r, ro), 0, self.mod.layout(ft)[0]); off = ZERO
            else:
                x = self.intval(st, v)
                if x is None: x = S(self.sym('idx'))
                cur = lay[3][1]
                off = add(off, mul(x, self.mod.layout(cur)[0]))
        if label:
            r, ro = self.root(obj, off); c = const(ro)
            if c is not None: self.labels.setdefault((r, c), set()).add(label)
        return P(obj, off)
    # -------------------------------------------------------- memory
    def load(self, st, i, ptr, ty):
        size = self.mod.layout(ty)[0]
        if ptr[0] != 'p': return self.fresh(st, ty, 'ld', i)
        self.rule.access(self, st, i, ptr, K(size), 'r')
        r, off = self.root(ptr[1], ptr[2]); c = const(off)
        if c is not None:
            v = st.mem.get((r, c))
            if v is not None and v[1] == size: return v[0]
            if v is None and r[0] == 'g':
                g = self.mod.globals.get(r[1])
                if g is not None and g.const and ty.startswith('i') and getattr(g, 'init', None) and g.init[0] == 'i' and c == 0: return C(g.init[1])
            lab = self.labels.get((r, c), ())
            x = self.rule.fresh_load(self, st, i, lab, r, c)
            if x is None: x = self.fresh(st, ty, 'ld', i)
            if i.x != 'volatile': st.mem[(r, c)] = (x, size)
            return x
        v = st.scell.get((r, off))
        if v is not None and v[1] == size: return v[0]
        x = self.fresh(st, ty, 'el', i)
        st.scell[(r, off)] = (x, size)
        return x
    def kill(self, st, r, off=None, size=None):
        """forget what may be stored in [off, off+size) of root object r (everything if off is None)"""
        for k in [k for k in st.mem if k[0] == r]:
            if off is not None:
                o = sub(K(k[1]), off)
                if const(o) is not None:
                    d = const(o); s = const(size) if size is not None else None
                    if s is not None and (d >= s or d + st.mem[k][1] <= 0): continue
                elif size is not None and (st.entails(sub(o, size)) or st.entails(sub(off, K(k[1] + st.mem[k][1])))): continue
            del st.mem[k]
        for k in [k for k in st.scell if k[0] == r]:
            if off is not None and size is not None:
                o = sub(k[1], off)
                if st.entails(sub(o, size)) or st.entails(sub(mul(o, -1), K(st.scell[k][1]))): continue
            del st.scell[k]
    def store(self, st, i, ptr, v, ty):
        size = self.mod.layout(ty)[0]
        if ptr[0] != 'p':
            # unknown address: everything that is not private
            for k in [k for k in st.mem if k[0][0] != 'al']: del st.mem[k]
            st.scell = {k: x for k, x in st.scell.items() if k[0][0] == 'al'}
            return
        self.rule.access(self, st, i, ptr, K(size), 'w')
        self.rule.on_store(self, st, i, ptr, v, size)
        r, off = self.root(ptr[1], ptr[2]); c = const(off)
        self.kill(st, r, off, K(size))
        if r[0] != 'al':
            # other pointers of the same type may point to the same object
            labs = self.labels.get((r, c), ()) if c is not None else ()
            if labs:
                for k in [k for k in st.mem if k[0] != r and k[0][0] not in ('al', 'g', 'new') and self.labels.get(k, set()) & labs]:
                    if not (r[0] == 'p' and k[0][0] == 'p' and self.rule.__dict__.get('params_distinct', True)): del st.mem[k]
        if c is not None: st.mem[(r, c)] = (v, size)
        else: st.scell[(r, off)] = (v, size)
    def havoc(self, st, fields, args=()):
        fields = fields or ()
        for k in [k for k in st.mem if k[0][0] != 'al' and (self.labels.get(k, set()) & set(fields) or (k[0][0] == 'g' and 'g:' + k[0][1] in fields) or ('*' in fields and not self.labels.get(k) and k[0][0] not in ('g',)))]: del st.mem[k]
        for a in args:
            if a[0] == 'p':
                r, _ = self.root(a[1])
                if r[0] in ('al', 'new'): self.kill(st, r)
                st.scell = {k: x for k, x in st.scell.items() if k[0] != r}
    # -------------------------------------------------------- conditions
    def cmp(self, st, p, a, b):
        if a[0] == 'b' and b[0] == 'n' and const(b[1]) is not None:
            k = const(b[1])
            if k == 0 and p in ('ne', 'eq'): return a if p == 'ne' else self.neg(a)
        if b[0] == 'b' and a[0] == 'n': return self.cmp(st, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p), b, a)
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]: x, y = a[2], b[2]
            else:
                ra, oa = self.root(a[1], a[2]); rb, ob = self.root(b[1], b[2])
                if ra == rb: x, y = oa, ob
                elif p in ('eq', 'ne') and ra[0] in ('al', 'g', 'new') and rb[0] in ('al', 'g', 'new'): return ('b', 'k', p == 'ne')
                else:
                    if repr(a) > repr(b): a, b = b, a
                    return ('b', 'pq', (a, b), p) if p in ('eq', 'ne') else None
            if p[0] == 'u': p = 's' + p[1:]
        elif 'p' in (a[0], b[0]):
            q, o = (a, b) if a[0] == 'p' else (b, a)
            if p in ('eq', 'ne') and o[0] == 'n' and const(o[1]) == 0:
                r, off = self.root(q[1], q[2])
                if r[0] in ('al', 'g', 'sub') or const(off) != 0: return ('b', 'k', p == 'ne')
                if r[0] == 'nul': return ('b', 'k', p == 'eq')
                k = st.nul.get(r)
                if k is not None: return ('b', 'k', k == (p == 'eq'))
                return ('b', 'nul', r, p == 'eq')
            return None
        else:
            x, y = self.intval(st, a), self.intval(st, b)
            if x is None or y is None: return None
        d = sub(x, y)
        if p[0] == 'u':
            if const(x) is not None and const(y) is not None:
                M = (1 << 64) - 1; u, w = const(x) & M, const(y) & M
                return ('b', 'k', {'ult': u < w, 'ule': u <= w, 'ugt': u > w, 'uge': u >= w}[p])
            if st.entails(x) and st.entails(y): p = 's' + p[1:]
            else:
                if p in ('ugt', 'uge'): x, y = y, x; p = 'ult' if p == 'ugt' else 'ule'
                return ('b', 'u', x, y, p)
        e = {'slt': ('ge', add(mul(d, -1), K(-1))), 'sle': ('ge', mul(d, -1)), 'sgt': ('ge', add(d, K(-1))), 'sge': ('ge', d), 'eq': ('eq', d), 'ne': ('ne', d)}[p]
        return self.simp(st, ('b',) + e)
    def simp(self, st, v):
        k = v[1]; l = v[2]
        if k in ('ge', 'eq', 'ne') and not l[1]:
            return ('b', 'k', {'ge': l[0] >= 0, 'eq': l[0] == 0, 'ne': l[0] != 0}[k])
        return v
    def neg(self, v):
        k = v[1]
        if k == 'k': return ('b', 'k', not v[2])
        if k == 'ge': return ('b', 'ge', add(mul(v[2], -1), K(-1)))
        if k == 'eq': return ('b', 'ne', v[2])
        if k == 'ne': return ('b', 'eq', v[2])
        if k == 'nul': return ('b', 'nul', v[2], not v[3])
        if k == 'u': return ('b', 'u', v[3], v[2], 'ule' if v[4] == 'ult' else 'ult')
        if k == 'pq': return ('b', 'pq', v[2], 'eq' if v[3] == 'ne' else 'ne')
        return v
    def assume(self, st, v, truth):
        if v[0] == 'n':
            return st.assume_ne(v[1]) if truth else st.assume_eq(v[1])
        if v[0] != 'b': return True
        if not truth: v = self.neg(v)
        k = v[1]
        if k == 'k': return v[2]
        s = self.memo.get(('bool', v))
        if s is not None and not st.assume_eq(add(S(s), K(-1))): return False
        s = self.memo.get(('bool', self.neg(v)))
        if s is not None and not st.assume_eq(S(s)): return False
        if k == 'ge': return st.assume(v[2])
        if k == 'eq': return st.assume_eq(v[2])
        if k == 'ne': return st.assume_ne(v[2])
        if k == 'nul':
            o = st.nul.get(v[2])
            if o is not None and o != v[3]: return False
            st.nul[v[2]] = v[3]; return True
        if k == 'u':        # x <u y (or <=u): if y is known non-negative, x is too
            x, y, p = v[2], v[3], v[4]
            if st.entails(y):
                return st.assume(x) and st.assume(add(sub(y, x), K(-1 if p == 'ult' else 0)))
            return True
        return True
    # -------------------------------------------------------- bits
    def bits(self, st, l):
        """mask of bits that may be set (None: any)"""
        c = const(l)
        if c is not None: return c & 0xffffffffffffffff
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
            s = l[1][0][0]; e = self.expr.get(s)
            if e:
                if e[0] == 'and':
                    a, b = self.bits(st, e[1]), self.bits(st, e[2])
                    return a if b is None else b if a is None else a & b
                if e[0] in ('or', 'xor'):
                    a, b = self.bits(st, e[1]), self.bits(st, e[2])
                    return None if a is None or b is None else a | b
            lo, hi = self.bound.get(s, (None, None))
            if lo is not None and lo >= 0 and hi is not None: return (1 << hi.bit_length()) - 1
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] in (2, 4, 8, 16, 32, 64, 128, 256):
            b = self.bits(st, S(l[1][0][0]))
            return None if b is None else b * l[1][0][1]
        return None
    def bitop(self, st, op, a, b, ty):
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            return K({'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[op])
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if op == 'and' and cb is not None:
            if cb == 0: return ZERO
            m = self.bits(st, a)
            if m is not None and cb >= 0 and m & ~cb == 0: return a
            if m is not None and m & cb & 0xffffffffffffffff == 0: return ZERO
            if len(a[1]) == 1 and a[0] == 0 and a[1][0][1] == 1:
                e = self.expr.get(a[1][0][0])
                if e and e[0] == 'and' and const(e[2]) is not None: return self.bitop(st, 'and', e[1], K(const(e[2]) & cb), ty)
                if e and e[0] == 'or':
                    x = self.bitop(st, 'and', e[1], b, ty); y = self.bitop(st, 'and', e[2], b, ty)
                    return self.bitop(st, 'or', x, y, ty)
                if e and e[0] == 'xor':
                    x = self.bitop(st, 'and', e[1], b, ty); y = self.bitop(st, 'and', e[2], b, ty)
                    return self.bitop(st, 'xor', x, y, ty)
        if op == 'or':
            if a == ZERO: return b
            if b == ZERO: return a
        if op == 'xor' and b == ZERO: return a
        w = {'i8': 8, 'i16': 16, 'i32': 32, 'i1': 1}.get(ty, 64)
        lo = hi = None
        if op == 'and' and cb is not None and cb >= 0: lo, hi = 0, cb
        k = (op, a, b)
        s = self.memoized(st, k, op, lo, hi); self.expr[s] = k
        if op == 'or' or op == 'xor':
            m = self.bits(st, S(s))
            if m is not None and m < 1 << 62: self.range(st, s, 0, m)
        return S(s)
    def binop(self, st, i, a, b):
        op = i.op
        if a[0] == 'b' and b[0] == 'b' or op == 'xor' and a[0] == 'b' or (i.ty == 'i1' and op in ('and', 'or', 'xor')):
            if op == 'xor' and b[0] == 'n' and const(b[1]) in (1, -1) and a[0] == 'b': return self.neg(a)
            if op == 'xor' and b == ('b', 'k', True): return self.neg(a)
        x, y = self.intval(st, a), self.intval(st, b)
        if a[0] == 'p' and op == 'and' and y is not None: return TOP
        if op in ('add', 'sub') and a[0] == 'p' and y is not None:
            return P(a[1], add(a[2], y, 1 if op == 'add' else -1))
        if op == 'sub' and a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]: return N(sub(a[2], b[2]))
            ra, oa = self.root(a[1], a[2]); rb, ob = self.root(b[1], b[2])
            if ra == rb: return N(sub(oa, ob))
            return self.fresh(st, i.ty)
        if x is None or y is None: return self.fresh(st, i.ty)
        if op == 'add': return N(add(x, y))
        if op == 'sub': return N(sub(x, y))
        cx, cy = const(x), const(y)
        if op == 'mul':
            if cy is not None: return N(mul(x, cy))
            if cx is not None: return N(mul(y, cx))
        if op == 'shl' and cy is not None and 0 <= cy < 40: return N(mul(x, 1 << cy))
        if op in ('and', 'or', 'xor'): return N(self.bitop(st, op, x, y, i.ty))
        if op in ('sdiv', 'udiv', 'lshr', 'ashr') and cy is not None and cy >= 0:
            k = cy if op[1:] == 'div' else 1 << cy
            if k > 0:
                if all(c % k == 0 for _, c in x[1]) and x[0] % k == 0: return N((x[0] // k, tuple((s, c // k) for s, c in x[1])))
                if op == 'lshr' and len(x[1]) == 1 and x[0] == 0 and x[1][0][1] == 1:
                    e = self.expr.get(x[1][0][0])
                    if e and e[0] in ('or', 'xor') and False: pass
                s = self.memoized(st, (op, x, k), op)
                if st.entails(x):
                    t = S(s)      # k*t <= x <= k*t + k-1
                    for l in (t, sub(x, mul(t, k)), sub(add(mul(t, k), K(k - 1)), x)):
                        tt, c = norm(l); o = st.cons.get(tt)
                        if tt and (o is None or c < o): st.cons[tt] = c
                if op == 'lshr': self.expr[s] = ('lshr', x, K(cy))
                return N(S(s))
        if op in ('urem', 'srem') and cy is not None and cy > 0:
            if cx is not None and cx >= 0: return C(cx % cy)
            if st.entails(x) and st.entails(sub(K(cy - 1), x)): return N(x)
            s = self.memoized(st, (op, x, cy), op, None, cy - 1)
            if op == 'urem' or st.entails(x): self.range(st, s, 0, cy - 1)
            else: self.range(st, s, -cy + 1, cy - 1)
            return N(S(s))
        return self.fresh(st, i.ty, op)
    # -------------------------------------------------------- joins
    def cells(self, st):
        for k, v in st.env.items(): yield ('e', k), v
        for j, fr in enumerate(st.frames):
            for k, v in fr.items(): yield ('f', j, k), v
        for k, v in st.mem.items(): yield ('m', k), v[0]
    def getc(self, st, c):
        if c[0] == 'e': return st.env.get(c[1])
        if c[0] == 'f': return st.frames[c[1]].get(c[2])
        v = st.mem.get(c[1]); return v[0] if v else None
    def setc(self, st, c, v):
        if c[0] == 'e': st.env[c[1]] = v
        elif c[0] == 'f':
            fr = list(st.frames); d = dict(fr[c[1]]); d[c[2]] = v; fr[c[1]] = d; st.frames = tuple(fr)
        else: st.mem[c[1]] = (v, st.mem[c[1]][1])
    def delc(self, st, c):
        if c[0] == 'e': st.env.pop(c[1], None)
        elif c[0] == 'f':
            fr = list(st.frames); d = dict(fr[c[1]]); d.pop(c[2], None); fr[c[1]] = d; st.frames = tuple(fr)
        else: st.mem.pop(c[1], None)
    def linof(self, v): return v[1] if v[0] == 'n' else v[2] if v[0] == 'p' else None
    def alike(self, v, w):
        return v[0] == w[0] == 'n' or (v[0] == w[0] == 'p' and v[1] == w[1])
    def widen_val(self, st, v, w, name):
        """value standing for v or w; -> (value, symbol or None)"""
        if v[0] == 'b' and w[0] in ('n', 'b') or w[0] == 'b' and v[0] == 'n':
            s = self.sym(name); self.range(st, s, 0, 1); 
            return (N(S(s)), s) if (v[0] == 'b' or const(v[1]) in (0, 1)) and (w[0] == 'b' or const(w[1]) in (0, 1)) else (TOP, None)
        if not self.alike(v, w): return TOP, None
        s = self.sym(name)
        return (N(S(s)) if v[0] == 'n' else P(v[1], S(s))), s
    def as_int(self, st, v): return self.intval(st, v) if v[0] == 'b' else self.linof(v)
    def join(self, A, B):
        """weak join of two states of a block (same key)"""
        R = A.copy(); jm = []
        ca = dict(self.cells(A))
        for c, v in ca.items():
            w = self.getc(B, c)
            if w is None: self.delc(R, c); continue
            if v == w: continue
            x, s = self.widen_val(R, v, w, 'j')
            self.setc(R, c, x)
            if s is not None: jm.append((s, self.as_int(A, v), self.as_int(B, w)))
        R.scell = {k: v for k, v in A.scell.items() if B.scell.get(k) == v}
        R.nul = {k: v for k, v in A.nul.items() if B.nul.get(k) == v}
        R.neq = A.neq & B.neq
        ma = {s: a for s, a, b in jm}; mb = {s: b for s, a, b in jm}
        R.cons = {}
        for t, c in A.cons.items():
            l = (c, t)
            if B.cons.get(t, None) is not None and B.cons[t] <= c or B.entails(l): R.cons[t] = c
        for t, c in B.cons.items():
            if t in R.cons: continue
            l = (c, t)
            if A.entails(l): R.cons[t] = c
        # both sides' bounds on the merged values
        cand = []
        for s, a, b in jm:
            lo, hi = self.bound.get(s, (None, None))
            if lo is not None: cand += [add(S(s), K(-lo)), sub(K(hi), S(s))]
            for e in (a, b): cand += [sub(S(s), e), sub(e, S(s))]
            for e, X in ((a, A), (b, B)):
                if len(e[1]) == 1 and abs(e[1][0][1]) == 1:
                    for t, c in X.cons.items():
                        if len(t) <= 3 and any(q == e[1][0][0] for q, _ in t):
                            q, k = e[1][0]
                            # s = k*q + e0  ->  q = k*(s - e0)
                            cand.append(repl((c, t), {q: mul(add(S(s), K(-e[0])), k)}))
        for n, (s, a, b) in enumerate(jm[:5]):
            for s2, a2, b2 in jm[n + 1:5]:
                for x, y in ((a, a2), (b, b2)):
                    d = sub(sub(S(s), S(s2)), sub(x, y)); cand += [d, mul(d, -1)]
                    d = sub(add(S(s), S(s2)), add(x, y)); cand += [d, mul(d, -1)]
        seen = set()
        for l in cand:
            t, c = norm(l)
            if not t or (t, c) in seen: continue
            seen.add((t, c))
            o = R.cons.get(t)
            if o is not None and o <= c: continue
            if A.entails(repl(l, ma)) and B.entails(repl(l, mb)): R.cons[t] = c
        m = {}
        R.prop = A.prop
        return R
    def live(self, f): return self._live(f)
    _lv = {}
    def _live(self, f):
        k = (id(self.mod), f.name)
        r = Num._lv.get(k)
        if r is not None: return r
        use, dfn = {}, {}
        def names(o):
            if isinstance(o, tuple):
                if len(o) == 2 and o[0] == '%' and isinstance(o[1], str): return [o[1]]
                out = []
                for x in o:
                    if isinstance(x, (tuple, list)): out += names(x)
                return out
            if isinstance(o, list):
                out = []
                for x in o: out += names(x)
                return out
            return []
        phiuse = {b.name: set() for b in f.blocks}
        for b in f.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == 'phi':
                    for v, p in i.x:
                        if v[0] == '%': phiuse[p].add(v[1])
                    d.add(i.res); continue
                for o in i.ops:
                    for n in names(o):
                        if n not in d: u.add(n)
                if i.op == 'switch' and i.ops and i.ops[0][0] == '%' and i.ops[0][1] not in d: u.add(i.ops[0][1])
                if i.res: d.add(i.res)
            use[b.name] = u; dfn[b.name] = d
        inn = {b.name: set() for b in f.blocks}; ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set(phiuse[b.name])
                for s in b.succs: out |= inn[s.name] | {p.res for p in s.phis()}
                n = use[b.name] | (out - dfn[b.name])
                if n != inn[b.name]: inn[b.name] = n; ch = True
        res = {b.name: inn[b.name] | {p.res for p in b.phis()} for b in f.blocks}
        Num._lv[k] = res
        return res
    def gc(self, st):
        """drop constraints on symbols nothing refers to any more (projecting where cheap)"""
        want = set()
        for c, v in self.cells(st):
            l = self.linof(v)
            if l: want.update(syms(l))
            if v[0] == 'b':
                for x in v[2:]:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple): want.update(s for s in [y[0] for y in x[1] if isinstance(y, tuple)] if isinstance(s, int))
        for (r, off), (v, _) in st.scell.items():
            want.update(syms(off)); l = self.linof(v)
            if l: want.update(syms(l))
        for v in self.rule.keep(st): want.update(syms(v))
        for c in self.caps.values():
            if c is not None: want.update(syms(c))
        ex = set()
        for s in list(want):
            e = self.expr.get(s)
            if e:
                for x in e[1:]:
                    if isinstance(x, tuple): ex.update(syms(x))
        want |= ex
        dead = {}
        for t in st.cons:
            for s, _ in t:
                if s not in want: dead.setdefault(s, []).append(t)
        for s in sorted(dead, key=lambda s: len(dead[s])):
            ts = [t for t in st.cons if any(x == s for x, _ in t)]
            if not ts: continue
            eq = next((t for t in ts if dict(t)[s] in (1, -1) and st.cons.get(tuple((x, -k) for x, k in t)) == -st.cons[t]), None)
            if eq is not None:     # an equality: substitute
                k = dict(eq)[s]; e = mul((st.cons[eq], tuple((x, y) for x, y in eq if x != s)), -k)
                old = [(st.cons.pop(t), t) for t in ts]
                for l in old:
                    t, c = norm(repl(l, {s: e}))
                    if t and (t not in st.cons or c < st.cons[t]): st.cons[t] = c
                continue
            P_ = [t for t in ts if dict(t)[s] > 0]; N_ = [t for t in ts if dict(t)[s] < 0]
            new = []
            if len(P_) * len(N_) <= len(ts) + 2:
                for tp in P_:
                    for tn in N_:
                        new.append(norm(add(mul((st.cons[tp], tp), -dict(tn)[s]), mul((st.cons[tn], tn), dict(tp)[s]))))
            for t in ts: del st.cons[t]
            for t, c in new:
                if t and (t not in st.cons or c < st.cons[t]): st.cons[t] = c
        st.neq = frozenset(d for d in st.neq if all(s in want for s in syms(d)))
    # -------------------------------------------------------- loops of a function
    def loops(self, f):
        if not hasattr(f, '_numloops'):
            color = {}; heads = {}; order = []
            def dfs(b):
                stack = [(b, iter(b.succs))]; color[b.name] = 1
                while stack:
                    x, it = stack[-1]
                    for s in it:
                        if s.name not in color:
                            color[s.name] = 1; stack.append((s, iter(s.succs))); break
                        elif color[s.name] == 1: heads.setdefault(s.name, set()).add(x.name)
                    else:
                        color[x.name] = 2; order.append(x.name); stack.pop()
            dfs(f.entry)
            body = {}
            for h, latches in heads.items():
                s = {h}; work = list(latches)
                while work:
                    n = work.pop()
                    if n in s: continue
                    s.add(n); work += [p.name for p in f.bmap[n].preds if p.name in color]
                body[h] = s
            rpo = {n: k for k, n in enumerate(reversed(order))}
            # loops first: a block inside a loop is processed before what follows the loop
            f._numloops = (heads, body, rpo)
        return f._numloops
    # -------------------------------------------------------- execution
    def run(self, fname, args=None, st=None):
        f = self.mod.funcs[fname]; self.rootf = fname
        if st is None:
            st = NS(); st.prop = self.rule.initial()
        if args is None:
            args = []
            for k, (p, t) in enumerate(zip(f.params, f.ptypes)):
                if t.startswith('ptr') or t.endswith('*'): args.append(P(('p', k)))
                else: args.append(self.fresh(st, t, p))
        self.rule.setup(self, st, f, args)
        return self.exec_func(f, st, args)

    def exec_func(self, f, st, args):
        heads, body, rpo = self.loops(f)
        live = self._live(f)
        st = st.copy(); st.env = dict(zip(f.params, args))
        H = {}          # (head, key) -> [state, {cell: sym}, templates seen]
        tmpl = {}       # (head, key) -> list of guard constraints
        inst = len(self.stack)
        for phase in range(4):
            self.quiet += 1 if heads else 0
            exits = None
            if heads:
                for rnd in range(60):
                    ch = self.sweep(f, st, H, tmpl, heads, body, rpo, live, [], True)
                    if not ch: break
                else: raise Budget('loops of %s do not stabilise' % f.name)
                self.quiet -= 1
                # are there guards that were not tried as invariants yet?
                new = False
                for k, t in tmpl.items():
                    if k in H and (t['g'] - t['used']): new = True
                if new and phase < 3:
                    for k, t in tmpl.items(): t['used'] |= t['g']
                    H = {}
                    continue
            break
        exits = []
        self.sweep(f, st, H, tmpl, heads, body, rpo, live, exits, False)
        return self.merge_exits(f, exits)

    def merge_exits(self, f, exits):
        groups = {}
        for s, rv in exits:
            s.env = {}; s.part = tuple(x for x in s.part if x[0] < len(self.stack))
            k = const(rv[1]) if rv is not None and rv[0] == 'n' else None
            groups.setdefault((self.rule.key(s), k), []).append((s, rv))
        out = []
        for k, l in groups.items():
            while len(l) > self.rule.exit_k:
                (a, ra), (b, rb) = l.pop(), l.pop()
                a.env = {'#rv': ra} if ra is not None else {}; b.env = {'#rv': rb} if rb is not None else {}
                j = self.join(a, b)
                l.append((j, j.env.get('#rv')))
            out += l
        return out

    def sweep(self, f, st, H, tmpl, heads, body, rpo, live, exits, fix):
        """one pass over the function with the current loop-head states; True if a head state changed"""
        pend = {}       # block -> key -> [states]
        changed = [False]
        started = set(); inst = len(self.stack)
        def arrive(bb, s, frm):
            lv = live[bb.name]
            s.env = {k: v for k, v in s.env.items() if k in lv}
            if len(bb.preds) > 1: self.gc(s)
            if s.part: s.part = tuple(x for x in s.part if x[0] != inst or bb.name in body[x[1]])
            if bb.name in heads:
                back = frm is not None and frm in body[bb.name]
                if back: self.rule.on_back(self, s, f, bb)
                else:
                    g = self.rule.partition(self, s, f, bb)
                    s.part = tuple(x for x in s.part if x[:2] != (inst, bb.name)) + (((inst, bb.name, g),) if g is not None else ())
            k = (self.rule.key(s), s.part)
            if bb.name in heads:
                hk = (bb.name, k)
                if hk not in H:
                    if fix:
                        h = s.copy(); H[hk] = [h, {}]
                        t = tmpl.setdefault(hk, {'g': set(), 'used': set()})
                        changed[0] = True
                    else: raise Budget('loop head of %s reached in a new state' % f.name)
                elif fix:
                    if self.absorb(f, bb, hk, H, tmpl, s): changed[0] = True
                if hk not in started:
                    started.add(hk); pend.setdefault(bb.name, {})[k] = [H[hk][0].copy()]
                return
            l = pend.setdefault(bb.name, {}).setdefault(k, [])
            for o in l:
                if o.env == s.env and o.mem == s.mem and o.frames == s.frames and all(t in s.cons and s.cons[t] <= c for t, c in o.cons.items()) and o.neq <= s.neq: return
            l.append(s)
            if len(l) > self.rule.K:
                a, b = l.pop(), l.pop(); l.append(self.join(b, a))
        arrive(f.entry, st.copy(), None)
        def prio(n): return rpo[n]
        # order: innermost loops are completed before their exits are followed
        depth = lambda n: sum(n in b for b in body.values())
        while pend:
            n = min(pend, key=lambda n: (self.outside(n, pend, body), rpo[n]))
            for k, l in pend.pop(n).items():
                for s in l:
                    self.exec_block(f, f.bmap[n], s, arrive, exits, heads, body, tmpl, H)
        return changed[0]
    def outside(self, n, pend, body):
        """a block outside a loop that still has pending blocks waits for them"""
        c = 0
        for b in body.values():
            if n not in b and any(m in b for m in pend): c += 1
        return 0 if c == 0 else 1
    def absorb(self, f, bb, hk, H, tmpl, T):
        """generalise head state to cover T"""
        h, L = H[hk]; ch = False
        newl = []
        for c, v in list(self.cells(h)):
            w = self.getc(T, c)
            if w is None or (c[0] == 'm' and T.mem[c[1]][1] != h.mem[c[1]][1]): self.delc(h, c); L.pop(c, None); ch = True; continue
            if v == TOP: continue
            if c in L:
                if not self.alike(v, w):
                    if w[0] == 'b' and v[0] == 'n': continue
                    self.setc(h, c, TOP); L.pop(c); ch = True
                continue
            if v == w: continue
            x, s = self.widen_val(h, v, w, 'L:' + str(c[-1])[-24:])
            self.setc(h, c, x); ch = True
            if s is not None: L[c] = s; newl.append((s, self.as_int(h, v), self.as_int(T, w)))
        n0 = len(h.scell); h.scell = {k: v for k, v in h.scell.items() if T.scell.get(k) == v}
        if len(h.scell) != n0: ch = True
        n0 = len(h.nul); h.nul = {k: v for k, v in h.nul.items() if T.nul.get(k) == v}
        if len(h.nul) != n0: ch = True
        if not h.neq <= T.neq:
            q = frozenset(d for d in h.neq if d in T.neq)
            if q != h.neq: h.neq = q; ch = True
        m = {}
        for c, s in L.items():
            w = self.getc(T, c)
            if w is not None: m[s] = self.as_int(T, w) if self.as_int(T, w) is not None else S(self.sym('?'))
        # candidates for newly generalised cells
        if newl:
            old = {s: e0 for s, e0, _ in newl}
            cand = []
            for s, a, b in newl:
                cand += [sub(S(s), a), sub(a, S(s))]
                lo, hi = self.bound.get(s, (None, None))
                if lo is not None: cand += [add(S(s), K(-lo)), sub(K(hi), S(s))]
                ca, cb = const(a), const(b)
                if cb is not None: cand += [sub(S(s), K(cb)), sub(K(cb), S(s))]
                # facts known about the old value, restated for the new symbol
                if len(a[1]) == 1 and abs(a[1][0][1]) == 1:
                    q, k = a[1][0]
                    for t, c in h.cons.items():
                        if len(t) <= 3 and any(x == q for x, _ in t): cand.append(repl((c, t), {q: mul(add(S(s), K(-a[0])), k)}))
                for kk in (0, 1, -1): cand.append(add(S(s), K(-kk)))
            e0 = dict(old)
            for cc, s2 in L.items():
                if s2 not in e0 and s2 in H[hk][0].__class__.__slots__: pass
            l2 = newl
            for n, (s, a, b) in enumerate(l2):
                for s2, a2, b2 in l2[n + 1:]:
                    d = sub(sub(S(s), S(s2)), sub(a, a2)); cand += [d, mul(d, -1)]
                    d = sub(add(S(s), S(s2)), add(a, a2)); cand += [d, mul(d, -1)]
            cand += list(self.rule.templates(self, h, f, bb))
            byname = {self.names.get(s, ''): s for s in L.values()}
            for g in tmpl[hk]['used']:
                if all(x[0] != '?' or x[1] in L for x, _ in g[1]):
                    cand.append(self.unname(g, L))
            for l in cand:
                t, c = norm(l)
                if not t: continue
                o = h.cons.get(t)
                if o is not None and o <= c: continue
                if self.holds0(h, l, old) : h.cons[t] = c
        # keep what T preserves
        for t, c in list(h.cons.items()):
            l = repl((c, t), m)
            if l == (c, t) and T.cons.get(t) is not None and T.cons[t] <= c: continue
            if not T.entails(l):
                del h.cons[t]; ch = True
        # prop values
        return ch
    def holds0(self, h, l, old):
        return h.entails(repl(l, old))
    def unname(self, g, L):
        d = (g[0], ())
        for x, k in g[1]:
            d = add(d, S(L[x[1]] if x[0] == '?' else x[1]), k)
        return d
    def guard(self, f, bb, st, v, truth, body, heads, tmpl, H):
        """record the relaxed condition of a branch inside a loop as a candidate invariant"""
        if v[0] != 'b' or v[1] not in ('ge', 'ne', 'eq'): return
        if not truth: v = self.neg(v)
        l = v[2]
        forms = [l, add(l, K(1))] if v[1] == 'ge' else [l, mul(l, -1)]
        for h, b in body.items():
            if bb.name not in b: continue
            for (hn, k), (hs, L) in H.items():
                if hn != h: continue
                inv = {s: c for c, s in L.items()}
                if not any(s in inv for s in syms(l)): continue
                known = set()
                for c, w in self.cells(hs):
                    x = self.linof(w)
                    if x: known.update(syms(x))
                for cp in self.caps.values():
                    if cp: known.update(syms(cp))
                for fm in forms:
                    if all(s in inv or s in known or any(s in [x for x, _ in t] for t in hs.cons) for s in syms(fm)):
                        g = (fm[0], tuple((('?', inv[s]) if s in inv else ('s', s), c) for s, c in fm[1]))
                        tmpl[(hn, k)]['g'].add(g)
    def exec_block(self, f, bb, s, arrive, exits, heads, body, tmpl, H):
        self.steps += 1
        if self.steps > self.max: raise Budget('too many steps')
        if bb.name in heads: self.rule.on_head(self, s, f, bb)
        states = [s]
        for i in bb.insts:
            if i.op == 'phi': continue
            if i is bb.term and i.op in ('br', 'switch', 'ret', 'unreachable'): break
            nxt = []
            for s in states:
                nxt += self.step(f, s, i)
            states = nxt
            if len(states) > 40:
                raise Budget('too many states in %s' % f.name)
        t = bb.term
        for s in states:
            if t.op == 'ret':
                rv = self.val(s, t.ops[0]) if t.ops else None
                self.rule.on_return(self, s, f, rv, t)
                for k in [k for k in s.mem if k[0][0] == 'al' and k[0][1] == len(self.stack)]: del s.mem[k]
                s.scell = {k: v for k, v in s.scell.items() if not (k[0][0] == 'al' and k[0][1] == len(self.stack))}
                exits.append((s, rv))
            elif t.op == 'br':
                if not t.ops: self.edge(f, bb, bb.succs[0], s, arrive); continue
                c = self.val(s, t.ops[0])
                if c[0] == 'n' and const(c[1]) is not None: c = ('b', 'k', bool(const(c[1])))
                if c[0] == 'b' and c[1] == 'k':
                    self.edge(f, bb, bb.succs[0 if c[2] else 1], s, arrive); continue
                for truth, nb in ((True, bb.succs[0]), (False, bb.succs[1])):
                    s2 = s.copy()
                    if not self.assume(s2, c, truth): continue
                    if heads: self.guard(f, bb, s2, c, truth, body, heads, tmpl, H)
                    s2.trace = (s2.trace, '%s:%s %s' % (t.loc[0], t.loc[1], 'true' if truth else 'false'))
                    self.edge(f, bb, nb, s2, arrive)
            elif t.op == 'switch':
                v = self.val(s, t.ops[0]); dflt, cases = t.x
                x = self.intval(s, v)
                d = s.copy(); ok = True
                for cv, lb in cases:
                    s2 = s.copy()
                    if x is not None and not s2.assume_eq(add(x, K(-cv))): continue
                    s2.trace = (s2.trace, '%s:%s case %d' % (t.loc[0], t.loc[1], cv))
                    self.edge(f, bb, f.bmap[lb], s2, arrive)
                    if x is not None and ok and not d.assume_ne(add(x, K(-cv))): ok = False
                if ok: self.edge(f, bb, f.bmap[dflt], d, arrive)
    def edge(self, f, bb, nb, s, arrive):
        new = {}
        for p in nb.phis():
            for v, b in p.x:
                if b == bb.name: new[p.res] = self.val(s, v)
        s = s.copy()
        s.env.update(new)
        arrive(nb, s, bb.name)
    def step(self, f, st, i):
        op = i.op
        if op == 'load':
            ptr = self.val(st, i.ops[0]); v = self.load(st, i, ptr, i.ty)
            self.rule.on_load(self, st, i, ptr, v, self.mod.layout(i.ty)[0])
            st.env[i.res] = v
        elif op == 'store':
            self.store(st, i, self.val(st, i.ops[1]), self.val(st, i.ops[0]), i.ty)
        elif op == 'getelementptr':
            st.env[i.res] = self.gep(st, i.ty, self.val(st, i.ops[0]), i.ops[1:])
        elif op == 'icmp':
            v = self.cmp(st, i.x, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            st.env[i.res] = v if v is not None else self.fresh(st, 'i1', 'cmp')
        elif op == 'alloca':
            o = ('al', len(self.stack), f.name, i.res)
            n = 1
            if i.x is not None:
                c = self.intval(st, self.val(st, i.x)) if isinstance(i.x, tuple) else K(i.x)
            else: c = K(1)
            self.caps[o] = mul(c, self.mod.layout(i.ty)[0]) if c is not None else None
            self.kill(st, o)
            st.env[i.res] = P(o)
        elif op == 'select':
            c = self.val(st, i.ops[0]); a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if c[0] == 'b' and c[1] == 'k': st.env[i.res] = a if c[2] else b; return [st]
            s2 = st.copy(); out = []
            if self.assume(st, c, True): st.env[i.res] = a; out.append(st)
            if self.assume(s2, c, False): s2.env[i.res] = b; out.append(s2)
            return out
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            st.env[i.res] = self.cast(st, i, self.val(st, i.ops[0]))
        elif op in ('srem', 'urem', 'and') and self.rule.stable and self.wraps(st, i): return self.wraps(st, i, True)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            st.env[i.res] = self.binop(st, i, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        elif op == 'call': return self.call(f, st, i)
        elif i.res is not None:
            st.env[i.res] = self.fresh(st, i.ty if isinstance(i.ty, str) else 'i64', op) if isinstance(i.ty, str) and i.ty.startswith(('i', 'ptr')) else TOP
        return [st]
    def wraps(self, st, i, do=False):
        """x mod c with 0 <= x < 2c, split into the two cases"""
        x, y = self.intval(st, self.val(st, i.ops[0])), self.intval(st, self.val(st, i.ops[1]))
        c = const(y) if y is not None else None
        if c is None or x is None or const(x) is not None: return None
        if i.op == 'and':
            if c < 255 or c & (c + 1): return None
            c += 1
        if c <= 0 or not st.entails(x) or not st.entails(sub(K(2 * c - 1), x)): return None
        if not do: return True
        out = []
        for l, v in ((sub(K(c - 1), x), x), (add(x, K(-c)), add(x, K(-c)))):
            s = st.copy()
            if s.assume(l): s.env[i.res] = N(v); out.append(s)
        return out
    W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
    def cast(self, st, i, v):
        if i.op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'): return v
        src, dst = i.x, i.ty
        if v[0] == 'b': return v
        if v[0] != 'n': return v if v[0] == 'p' else self.fresh(st, dst)
        l = v[1]; c = const(l); ws, wd = self.W.get(src, 64), self.W.get(dst, 64)
        if i.op == 'sext': return v
        if i.op == 'zext':
            if c is not None: return C(c & ((1 << ws) - 1))
            if st.entails(l): return v
            s = self.memoized(st, ('zext', l, ws), 'zext', 0, (1 << ws) - 1)
            # l >= 0 -> same value: relate through the wrap
            if ws <= 16: 
                t = sub(S(s), l)
                st.cons.setdefault(*self._pair(t)); st.cons.setdefault(*self._pair(sub(K(1 << ws), t)))
            if st.entails(add(mul(l, -1), K(-1))): return N(add(l, K(1 << ws)))
            return N(S(s))
        if i.op == 'trunc':
            if c is not None:
                x = c & ((1 << wd) - 1)
                if wd > 1 and x >> (wd - 1): x -= 1 << wd
                return C(x)
            if wd >= 32: return v
            lo, hi = -(1 << (wd - 1)), (1 << (wd - 1)) - 1
            if st.entails(add(l, K(-lo))) and st.entails(sub(K(hi), l)): return v
            # trunc(zext x) == x
            if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
                for k, s in self.memo.items():
                    if s == l[1][0][0] and k[0] == 'zext' and k[2] == wd: return N(k[1])
            s = self.memoized(st, ('trunc', l, wd), 'trunc', lo, hi)
            self.trunc = getattr(self, 'trunc', {}); self.trunc[s] = l
            return N(S(s))
        return v
    @staticmethod
    def _pair(l): return norm(l)
    # -------------------------------------------------------- calls
    def call(self, f, st, i):
        args = [self.val(st, o) for o in i.ops]
        name = i.x
        if name is None:
            cv = args.pop()
            if cv[0] == 'p' and cv[1][0] == 'g': name = cv[1][1]
        if name is not None:
            r = self.rule.on_call(self, st, i, name, args)
            if r is not None: return self.finish(i, r)
            t = self.mod.funcs.get(name)
            if t is not None and not t.decl:
                if name in self.cg.noreturn: return []
                if len(self.stack) < 12 and not any(s.x == name for s in self.stack) and self.rule.inline(self, st, t, i, args):
                    caller = st.env; st = st.copy(); st.frames = st.frames + (caller,)
                    st.trace = (st.trace, '%s:%s call %s' % (i.loc[0], i.loc[1], t.src_name))
                    self.stack.append(i)
                    try: res = self.exec_func(t, st, args)
                    finally: self.stack.pop()
                    out = []
                    for s, rv in res:
                        s = s.copy(); s.env = dict(s.frames[-1]); s.frames = s.frames[:-1]
                        out.append((s, rv))
                    return self.finish(i, out)
                self.havoc(st, self.cg.mods(name), args)
                return self.finish(i, [(st, None)])
            if name in self.cg.noreturn: return []
        else:
            for k in [k for k in st.mem if k[0][0] != 'al']: del st.mem[k]
        r = self.external(st, i, name or '', args)
        return self.finish(i, r if r is not None else [(st, None)])
    def finish(self, i, r):
        out = []
        for s, rv in r:
            if i.res is not None:
                s.env[i.res] = rv if rv is not None else self.fresh(s, i.ty if isinstance(i.ty, str) else 'i32', 'ret', i)
            out.append(s)
        return out
    PURE = {'strlen', 'strcmp', 'strcasecmp', 'strncasecmp', 'strncmp', 'close', 'fcntl', 'isatty', 'strchr', 'strrchr', 'strstr', 'memcmp', 'memchr',
            'htons', 'htonl', 'ntohs', 'access', 'getenv', 'atoi', 'free', 'printf', 'fprintf', 'write', 'writev', 'syslog', 'kill', 'toupper', 'tolower',
            'pthread_mutex_lock', 'pthread_mutex_unlock', 'getpid', 'umask', 'unlink', 'open', 'socket', 'fork', 'strspn', 'strcspn', 'x_pthread_mutex_lock', 'x_pthread_mutex_unlock', '__errno_location', '__ctype_b_loc', 'localtime', 'time'}
    SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'strlcpy': (0, 2), 'strlcat': (0, 2), 'strftime': (0, 1), 'read': (1, 2), 'recv': (1, 2), 'fgets': (0, 1), 'memcpy': (0, 2), 'memmove': (0, 2),
             'memset': (0, 2), 'inet_ntop': (2, 3), 'gethostname': (0, 1), 'readlink': (1, 2), 'getcwd': (0, 1), 'strncpy': (0, 2), 'fread': None, 'ttyname_r': (1, 2), 'strerror_r': (1, 2), 'recvfrom': (1, 2), 'pread': (1, 2)}
    def external(self, st, i, name, args):
        base = name[5:].split('.')[0] if name.startswith('llvm.mem') else name
        w = self.SIZED.get(base)
        ty = i.ty if isinstance(i.ty, str) else 'void'
        if w and len(args) > w[1]:
            p, n = args[w[0]], self.intval(st, args[w[1]])
            if p[0] == 'p' and n is not None: self.rule.access(self, st, i, p, n, 'w')
            if base in ('memcpy', 'memmove') and args[1][0] == 'p' and n is not None: self.rule.access(self, st, i, args[1], n, 'r')
            if p[0] == 'p':
                r, off = self.root(p[1], p[2]); self.kill(st, r, off, n)
            if base in ('read', 'recv', 'readlink', 'recvfrom', 'pread') and n is not None:
                v = self.fresh(st, 'i64', base); s = v[1]
                st.cons[norm(add(s, K(1)))[0]] = norm(add(s, K(1)))[1]
                if st.entails(n): t, c = norm(sub(n, s)); st.cons[t] = c
                return [(st, v)]
            if base == 'strftime' and n is not None:
                v = self.fresh(st, 'i64', base); s = v[1]
                t, c = norm(s); st.cons[t] = c
                if st.entails(add(n, K(-1))): t, c = norm(sub(add(n, K(-1)), s)); st.cons[t] = c
                return [(st, v)]
            if base in ('snprintf', 'vsnprintf'):
                v = self.fresh(st, 'i32', base); t, c = norm(add(v[1], K(1))); st.cons[t] = c
                return [(st, v)]
            if base in ('strlcpy', 'strlcat'):
                v = self.fresh(st, 'i64', base); t, c = norm(v[1]); st.cons[t] = c
                return [(st, v)]
            if base in ('memcpy', 'memmove', 'memset', 'strncpy', 'fgets', 'inet_ntop', 'getcwd'):
                if ty.startswith('ptr') and base != 'fgets' and base != 'inet_ntop': return [(st, p)]
        if name == 'strlen':
            a = args[0]
            v = self.memoized(st, ('strlen', a, st.nul.get('#' + str(a)), ), 'strlen', 0)
            if a[0] == 'p':
                cp = self.cap(st, a[1])
                if cp is not None: t, c = norm(sub(add(sub(cp, a[2]), K(-1)), S(v))); st.cons[t] = c
            return [(st, N(S(v)))]
        if name in ('malloc', 'calloc'):
            o = ('new', self.sym('new')); n = self.intval(st, args[0])
            if name == 'calloc' and n is not None:
                m = self.intval(st, args[1])
                n = mul(n, const(m)) if m is not None and const(m) is not None else mul(m, const(n)) if m is not None and const(n) is not None else None
            self.caps[o] = n
            return [(st, P(o))]
        if name not in self.PURE and not name.startswith('llvm.dbg'):
            for k, a in enumerate(args):
                if a[0] == 'p':
                    r, off = self.root(a[1], a[2])
                    self.kill(st, r)
        st.mem.pop((('g', 'errno'), 0), None)
        return [(st, None)]
