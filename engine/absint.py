"""Path-sensitive, interprocedural abstract interpretation over the IR
("property simulation"): a worklist dataflow whose states are keyed by the
abstract property state of a rule; states with the same key are joined when
more than K of them meet at a block.  Calls are either modelled by the rule,
inlined, or replaced by a havoc of the fields the callee may modify.

Values are hashable tuples:
  ('i', n)            integer / null
  ('g', name)         address of a global or function
  ('al', ctx, id)     address of a local
  ('s', ctx, id, tag) unknown produced by instruction id in call context ctx
  ('p', i)            i-th parameter of the analysed root
  ('a', base, path)   address of a member: path of 'struct.member' / '[k]' / '[]'
  ('cmp', pred, a, b) comparison;  ('bin', op, a, b) arithmetic
  ('j', ctx, bb, n)   join of different values at a block
  ('old', v)          a value from an earlier iteration
"""
import sys
from ir import BIN, CAST

sys.setrecursionlimit(20000)
NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
        'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
INF = 1 << 70
TOPF = (-INF, INF, frozenset())
Z = ('i', 0)
UNDEF = ('undef',)

class Budget(Exception): pass

def size(v, lim=24):
    n = 1
    for x in v:
        if isinstance(x, tuple): n += size(x, lim)
        if n > lim: return n
    return n

def subst(v, old, new):
    if v == old: return new
    if v == new: return v
    if isinstance(v, tuple):
        r = tuple(subst(x, old, new) for x in v)
        return r if r != v else v
    if isinstance(v, frozenset):
        return frozenset(subst(x, old, new) for x in v)
    return v

def contains(v, old):
    if v == old: return True
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if contains(x, old): return True
    return False

def base_of(v):
    return v[1] if v[0] == 'a' else v
def path_of(v):
    return v[2] if v[0] == 'a' else ()
def addr(base, path):
    if base[0] == 'a': path = base[2] + tuple(path); base = base[1]
    return ('a', base, tuple(path)) if path else base
def last_of(v):
    p = path_of(v)
    return p[-1] if p else ''

class St:
    __slots__ = ('env', 'frames', 'mem', 'facts', 'prop', 'made', 'trace', 'prev')
    def __init__(self):
        self.env = {}; self.frames = (); self.mem = {}; self.facts = {}; self.prop = None
        self.made = set(); self.trace = None; self.prev = None
    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env); s.frames = self.frames; s.mem = dict(self.mem); s.facts = dict(self.facts)
        s.prop = self.prop; s.made = set(self.made); s.trace = self.trace; s.prev = self.prev
        return s
    def fact(self, v):
        if v[0] == 'i': return (v[1], v[1], frozenset())
        if v[0] in ('g', 'al', 'a'): return (1, INF, frozenset())
        if v[0] == 'cmp':
            f = self.facts.get(v)
            if f is None or f[0] != f[1]:
                k = self.decided(v)
                if k is not None: return (k, k, frozenset())
            return f if f else (0, 1, frozenset())
        return self.facts.get(v, TOPF)
    def decided(self, v):
        """outcome of a comparison with a constant as far as the range of its operand settles it"""
        p, a, b = v[1], v[2], v[3]
        if b[0] != 'i' or a == UNDEF: return None
        lo, hi, ex = self.fact(a); c = b[1]
        if p in ('eq', 'ne'):
            if c < lo or c > hi or c in ex: return int(p == 'ne')
            return int(p == 'eq') if lo == hi == c else None
        if p == 'slt': return 1 if hi < c else 0 if lo >= c else None
        if p == 'sle': return 1 if hi <= c else 0 if lo > c else None
        if p == 'sgt': return 1 if lo > c else 0 if hi <= c else None
        if p == 'sge': return 1 if lo >= c else 0 if hi < c else None
        return None
    def const(self, v):
        """the integer v is known to be, or None"""
        if v[0] == 'i': return v[1]
        f = self.facts.get(v)
        if f and f[0] == f[1]: return f[0]
        return self.decided(v) if v[0] == 'cmp' else None
    def nonzero(self, v):
        f = self.fact(v)
        return f[0] > 0 or f[1] < 0 or 0 in f[2]
    def iszero(self, v):
        return self.const(v) == 0
    def neg(self, v): return self.fact(v)[1] < 0
    def nonneg(self, v): return self.fact(v)[0] >= 0
    def lines(self, n=60):
        out = []; t = self.trace
        while t is not None:
            out.append(t[1]); t = t[0]
        out.reverse()
        return out[-n:]

class Analysis:
    def __init__(self, mod, rule, cg, K=3, max_steps=3000000, widen=6):
        self.mod = mod; self.rule = rule; self.cg = cg; self.K = K; self.widen = widen
        self.steps = 0; self.max_steps = max_steps
        self.ctxs = {(): 0}; self.stack = []
        self._live = {}; self._heads = {}
        self.funcs_seen = set(); self.calls_seen = set()
        rule.A = self

    # ------------------------------------------------------------ values
    def ctx(self):
        k = tuple(i.id for i in self.stack)
        c = self.ctxs.get(k)
        if c is None: c = self.ctxs[k] = len(self.ctxs)
        return c

    def fresh(self, st, inst, tag=''):
        v = ('s', self.ctx(), inst.id, tag)
        if v in st.made: self.rename(st, v)
        st.made.add(v)
        return v

    def rename(self, st, v):
        old = ('old', v)
        # drop the previous ('old', v) facts and conflate
        dirty = False
        for e in (st.env, st.mem, st.facts):
            for k, x in e.items():
                if contains(k, v) if isinstance(k, tuple) else False: dirty = True; break
                if isinstance(x, tuple) and contains(x, v): dirty = True; break
            if dirty: break
        if not dirty and contains(st.prop, v): dirty = True
        if not dirty:
            for fr in st.frames:
                for x in fr.values():
                    if contains(x, v): dirty = True; break
                if dirty: break
        if not dirty: return
        st.env = {k: subst(x, v, old) for k, x in st.env.items()}
        st.mem = {subst(k, v, old): subst(x, v, old) for k, x in st.mem.items() if not contains(k, old)}
        nf = {}
        for k, f in st.facts.items():
            if contains(k, old): continue
            nf[subst(k, v, old)] = f
        st.facts = nf
        st.frames = tuple({k: subst(x, v, old) for k, x in fr.items()} for fr in st.frames)
        st.prop = self.rule.rename(subst(st.prop, v, old), v, old)

    def val(self, st, op):
        k = op[0]
        if k == '%': return st.env.get(op[1], UNDEF)
        if k == '@': return ('g', op[1])
        if k == 'i': return op
        if k == 'gepc':
            b = self.val(st, op[2][0][1])
            return self.gep(st, op[1], b, [o[1] for o in op[2][1:]])
        if k == '*': return op[1]          # already a value
        return UNDEF

    def gep(self, st, ty, b, idx):
        """idx: list of operands"""
        path = []
        ivs = [self.val(st, i) for i in idx]
        c0 = st.const(ivs[0])
        cur = ty
        if c0 != 0:
            path.append('[%d]' % c0 if c0 is not None else '[]')
        for v, o in zip(ivs[1:], idx[1:]):
            lay = self.mod.layout(cur)
            if lay[2] == 's':
                n = v[1]
                f = self.mod.field_name(cur, n)
                if f: path.append(f)
                cur = lay[3][n][1]
            elif lay[2] == 'a':
                c = st.const(v)
                cur = lay[3][1]
                if c != 0: path.append('[%d]' % c if c is not None else '[]')
            else:
                path.append('[]')
        if not path: return b
        # collapse index arithmetic
        p = list(path_of(b)); bb = base_of(b)
        for e in path:
            if e[0] == '[' and p and p[-1][0] == '[': p[-1] = self.isum(p[-1], e)
            else: p.append(e)
            if p[-1] == '[0]': p.pop()
        if bb == UNDEF: return UNDEF
        if bb[0] == 'i' and not bb[1]: return ('i', 0) if path == [] else addr(('nullp',), p)
        if len(p) > 8: p = p[:8]
        return addr(bb, p)

    def isum(self, a, b):
        """index arithmetic"""
        if not self.rule.elem_sum or a == '[]' or b == '[]': return '[]'
        k = int(a[1:-1]) + int(b[1:-1])
        return '[%d]' % k if abs(k) <= 64 else '[]'
    def idist(self, a, b):
        """distance between two definite elements of one object, or None"""
        if not self.rule.elem_sum or base_of(a) != base_of(b) or base_of(a)[0] not in ('al', 'g'): return None
        x, i = (path_of(a)[:-1], path_of(a)[-1]) if path_of(a) and path_of(a)[-1][0] == '[' else (path_of(a), '[0]')
        y, j = (path_of(b)[:-1], path_of(b)[-1]) if path_of(b) and path_of(b)[-1][0] == '[' else (path_of(b), '[0]')
        if x != y or '[]' in (i, j) or '[]' in x: return None
        return int(i[1:-1]) - int(j[1:-1])

    # ------------------------------------------------------------ memory
    @staticmethod
    def elem(v):
        """address -> (base, path of the object, element index)"""
        p = path_of(v)
        if p and p[-1][0] == '[': return base_of(v), p[:-1], p[-1]
        return base_of(v), p, '[0]'

    def may_alias(self, a, b):
        if a == b: return True
        ba, pa, ia = self.elem(a); bb, pb, ib = self.elem(b)
        if (pa[-1] if pa else '') != (pb[-1] if pb else ''): return False
        same = ia == ib or ia == '[]' or ib == '[]'
        if ba == bb: return same and pa == pb or '[]' in pa or '[]' in pb
        if ba[0] in ('al', 'g') or bb[0] in ('al', 'g'): return False
        if ba[0] == 's' and bb[0] == 's' and ba[3] == 'new' and bb[3] == 'new': return False
        return same

    def load(self, st, inst, a):
        if a == UNDEF: return self.fresh(st, inst)
        l = last_of(a)
        if '.' in l and '.#bf' not in l and inst.ty in ('i8', 'i16', 'i32'): a = self.mod.first_bits(a); l = last_of(a)
        if '.#bf' in l: return ('bfl', a, 0)
        return self.load_at(st, inst, a)

    def load_at(self, st, inst, a):
        v = st.mem.get(a)
        if v is not None: return v
        if a[0] == 'g':
            g = self.mod.globals.get(a[1])
            if g and g.const and g.init and g.init[0] == 'i': return g.init
        if a[0] == 'a' and a[1][0] == 'g':
            v = self.const_load(a)
            if v is not None: return v
        v = self.fresh(st, inst, 'ld')
        r = self.rule.on_load_fresh(st, inst, a, v)
        if r is not None: v = r
        if '[]' not in path_of(a): st.mem[a] = v
        return v

    def const_load(self, a):
        g = self.mod.globals.get(a[1][1])
        if not g or not g.const or g.init is None: return None
        p = a[2]; cur = g.init; ty = g.ty
        for e in p:
            lay = self.mod.layout(ty)
            if lay[2] == 'a' and e[0] == '[' and e != '[]':
                k = int(e[1:-1]); ty = lay[3][1]
                if cur == ('i', 0): continue
                if cur[0] == 'agg' and k < len(cur[1]): cur = cur[1][k]
                elif cur[0] == 'str' and k < len(cur[1]): return ('i', cur[1][k])
                else: return None
            else: return None
        if cur[0] == 'i': return cur
        if cur[0] == '@': return ('g', cur[1])
        return None

    def store(self, st, inst, a, v):
        if a == UNDEF: return
        l = last_of(a)
        if '.' in l and '.#bf' not in l and inst.ty in ('i8', 'i16', 'i32'): a = self.mod.first_bits(a); l = last_of(a)
        if '.#bf' in l and v[0] == 'bfs':
            name = self.mod.bitfield_name(l, v[2])
            a = addr(base_of(a), path_of(a)[:-1] + (name,)); v = v[3]
        elif '.#bf' in l:
            # whole-storage overwrite (e.g. memset-like or copy): forget everything in it
            pre = l.split('.#bf')[0] + '.'
            for k in [k for k in st.mem if last_of(k).startswith(pre) and base_of(k) == base_of(a)]:
                del st.mem[k]
            return
        if self.rule.sym_elem and self.some(v) and base_of(v)[0] == 's':
            v = self.fresh(st, inst, 'el'); st.facts[v] = (1, INF, frozenset())      # a definite, if unknown, position
        self.rule.on_store(st, inst, a, v)
        self.write(st, a, v)

    def write(self, st, a, v):
        for k in [k for k in st.mem if k != a and self.may_alias(k, a)]:
            del st.mem[k]
        if '[]' in path_of(a): st.mem.pop(a, None)
        else: st.mem[a] = v
        l = last_of(a)
        for d, src in self.rule.derived.items():
            if l in src:
                for k in [k for k in st.mem if last_of(k) == d and (base_of(k) == base_of(a) or not a[0] == 'al')]: del st.mem[k]

    def kill_under(self, st, a):
        """forget everything stored at or under address a"""
        if a == UNDEF: return
        b, p = base_of(a), path_of(a)
        for k in [k for k in st.mem if base_of(k) == b and (path_of(k)[:len(p)] == p or (p and p[-1][:1] == '[' and path_of(k)[:len(p) - 1] == p[:-1]))]:
            del st.mem[k]

    def havoc(self, st, fields):
        """forget the given (type-based) field set"""
        if not fields: return
        dv = [d for d, src in self.rule.derived.items() if src & set(fields)]
        if dv:
            for k in [k for k in st.mem if last_of(k) in dv]: del st.mem[k]
        for k in [k for k in st.mem if base_of(k)[0] != 'al' and (last_of(k) in fields or (not path_of(k) and (k[0] == 'g' and 'g:' + k[1] in fields or k[0] != 'g' and '*' in fields)))]:
            del st.mem[k]

    # ------------------------------------------------------------ facts
    def assume(self, st, v, truth):
        """refine st with (v != 0) == truth ; False if infeasible"""
        if v == UNDEF: return True
        if v[0] == 'i': return bool(v[1]) == truth
        if v[0] == 'cmp':
            _, p, a, b = v
            if not truth: p = NEGP[p]
            ok = self.assume_cmp(st, p, a, b)
            if ok and st.facts.get(v) is None and not (st.const(a) is not None and st.const(b) is not None):
                st.facts[v] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
            return ok
        return self.assume_cmp(st, 'ne' if truth else 'eq', v, Z)

    def assume_cmp(self, st, p, a, b):
        ca, cb = st.const(a), st.const(b)
        if ca is not None and cb is None: return self.assume_cmp(st, SWAP[p], b, a)
        if ca is not None and cb is not None:
            return self.eval_cmp(p, ca, cb)
        if cb is None:
            known = st.facts.get(('cmp', p, a, b))
            if known: return known[0] != 0
            known = st.facts.get(('cmp', NEGP[p], a, b))
            if known: return known[1] == 0
            if self.some(a) or self.some(b): return True
            if a == b: return p in ('eq', 'sle', 'sge', 'ule', 'uge')
            fa, fb = st.fact(a), st.fact(b)
            if p == 'eq' and (fa[1] < fb[0] or fb[1] < fa[0]): return False
            if p == 'slt' and fa[0] >= fb[1]: return False
            if p == 'sgt' and fa[1] <= fb[0]: return False
            if p == 'eq': # unify ranges
                lo, hi = max(fa[0], fb[0]), min(fa[1], fb[1]); ex = fa[2] | fb[2]
                for x in (a, b):
                    if x[0] not in ('g', 'al', 'a', 'i', 'cmp'): st.facts[x] = (lo, hi, ex)
            return True
        lo, hi, ex = st.fact(a)
        if p[0] == 'u':
            if cb >= 0 and (lo >= 0 or cb == 0): p = 's' + p[1:] if lo >= 0 else p
            if p == 'ugt' and cb == 0: p = 'ne'
            elif p == 'ule' and cb == 0: p = 'eq'
            elif p == 'uge' and cb == 1: p = 'ne'
            elif p == 'ult' and cb == 1: p = 'eq'
            elif p in ('ult', 'ule') and cb > 0:
                if lo < 0: lo = 0
                p = 's' + p[1:]
            elif p[0] == 'u': return True
        if p == 'eq':
            if cb < lo or cb > hi or cb in ex: return False
            lo = hi = cb; ex = frozenset()
        elif p == 'ne':
            if lo == hi == cb: return False
            if lo == cb: lo += 1
            elif hi == cb: hi -= 1
            else: ex = ex | {cb}
        elif p == 'slt': hi = min(hi, cb - 1)
        elif p == 'sle': hi = min(hi, cb)
        elif p == 'sgt': lo = max(lo, cb + 1)
        elif p == 'sge': lo = max(lo, cb)
        while lo in ex: lo += 1
        while hi in ex: hi -= 1
        if lo > hi: return False
        ex = frozenset(x for x in ex if lo < x < hi)
        if a[0] in ('g', 'al', 'a'): return True
        st.facts[a] = (lo, hi, ex)
        self.propagate(st, a)
        return True

    def propagate(self, st, a):
        """push a fact on an expression to its operand where invertible"""
        c = st.const(a)
        if a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'i':
            lo, hi, ex = st.facts[a]; k = a[3][1]
            l2, h2, e2 = st.fact(a[2])
            if a[2][0] not in ('i', 'g', 'al', 'a', 'cmp'):
                st.facts[a[2]] = (max(l2, lo - k if lo > -INF else -INF), min(h2, hi - k if hi < INF else INF), e2 | frozenset(x - k for x in ex))
        elif a[0] == 'bin' and a[1] == 'and' and a[3][0] == 'i' and c is not None and c != 0:
            l2, h2, e2 = st.fact(a[2])
            if a[2][0] not in ('i', 'g', 'al', 'a', 'cmp'):
                st.facts[a[2]] = (l2, h2, e2 | {0})

    @staticmethod
    def eval_cmp(p, a, b):
        M = (1 << 64) - 1
        if p[0] == 'u': a &= M; b &= M
        return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b,
                'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[p]

    def cmp(self, st, p, a, b):
        ca, cb = st.const(a), st.const(b)
        if ca is not None and cb is not None: return ('i', int(self.eval_cmp(p, ca, cb)))
        if UNDEF in (a, b): return None
        if self.rule.elem_sum:
            k = self.idist(a, b)
            if k is not None: return ('i', int(self.eval_cmp('s' + p[1:] if p[0] == 'u' else p, k, 0)))
        if ca is not None: a, b, p = b, a, SWAP[p]; ca, cb = cb, ca
        if cb is not None: b = ('i', cb)
        if cb == 0 and p in ('ne', 'eq'):
            if a[0] == 'cmp':
                return a if p == 'ne' else ('cmp', NEGP[a[1]], a[2], a[3])
            if a[0] == 'bin' and a[1] == 'xor' and a[3] == ('i', 1) and a[2][0] == 'cmp':
                a = a[2]; return ('cmp', NEGP[a[1]], a[2], a[3]) if p == 'ne' else a
        if cb is not None:
            lo, hi, ex = st.fact(a)
            if p == 'eq' and (cb < lo or cb > hi or cb in ex): return Z
            if p == 'ne' and (cb < lo or cb > hi or cb in ex): return ('i', 1)
            if p == 'slt':
                if hi < cb: return ('i', 1)
                if lo >= cb: return Z
            if p == 'sle':
                if hi <= cb: return ('i', 1)
                if lo > cb: return Z
            if p == 'sgt':
                if lo > cb: return ('i', 1)
                if hi <= cb: return Z
            if p == 'sge':
                if lo >= cb: return ('i', 1)
                if hi < cb: return Z
        elif self.some(a) or self.some(b): return None
        elif a == b:
            return ('i', int(p in ('eq', 'sle', 'sge', 'ule', 'uge')))
        else:
            if p in ('eq', 'ne'):
                da, db = self.distinct(a, b), None
                if da: return ('i', int(p == 'ne'))
            if repr(a) > repr(b): a, b, p = b, a, SWAP[p]
        v = ('cmp', p, a, b)
        f = st.facts.get(v)
        if f and f[0] == f[1]: return ('i', f[0])
        f = st.facts.get(('cmp', NEGP[p], a, b))
        if f and f[0] == f[1]: return ('i', 1 - f[0])
        return v

    @staticmethod
    def some(a):
        """an address of an unknown element: two such values need not be equal"""
        return a[0] == 'a' and '[]' in a[2]

    def distinct(self, a, b):
        if a[0] in ('al', 'g', 'a') and b[0] in ('al', 'g', 'a'):
            if base_of(a) != base_of(b) and base_of(a)[0] in ('al', 'g') and base_of(b)[0] in ('al', 'g'): return True
        return False

    def binop(self, st, op, a, b, inst):
        # bitfield patterns
        if a[0] == 'bfl':
            if op == 'lshr' and b[0] == 'i': return ('bfl', a[1], a[2] + b[1])
            if op == 'and' and b[0] == 'i':
                m = b[1]
                if m > 0 and (m & (m + 1)) == 0: return self.bf_field(st, inst, a)
                inv = ~m if m < 0 else None
                if inv is None:
                    w = self.mod.layout(inst.ty)[0] * 8; inv = ((1 << w) - 1) ^ m
                off = (inv & -inv).bit_length() - 1
                return ('bfs', a[1], off, Z)
            a = self.bf_field(st, inst, a)
        if b[0] == 'bfl': b = self.bf_field(st, inst, b)
        if op == 'or' and (a[0] == 'bfs' or b[0] == 'bfs'):
            if b[0] == 'bfs': a, b = b, a
            off = a[2]
            if b[0] == 'i': v = ('i', b[1] >> off)
            elif b[0] == 'bin' and b[1] == 'shl' and b[3] == ('i', off): v = b[2]
            else: v = b
            if v[0] == 'bin' and v[1] == 'and' and v[3][0] == 'i' and (v[3][1] & (v[3][1] + 1)) == 0: v = v[2]
            return ('bfs', a[1], off, v)
        if UNDEF in (a, b): return None
        ca, cb = st.const(a), st.const(b)
        if ca is not None and cb is not None:
            try:
                r = {'add': lambda: ca + cb, 'sub': lambda: ca - cb, 'mul': lambda: ca * cb,
                     'sdiv': lambda: int(ca / cb), 'udiv': lambda: ca // cb, 'srem': lambda: ca - cb * int(ca / cb),
                     'urem': lambda: ca % cb, 'shl': lambda: ca << cb, 'lshr': lambda: ca >> cb, 'ashr': lambda: ca >> cb,
                     'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb}[op]()
                if abs(r) < 1 << 66: return ('i', r)
            except Exception: pass
            return None
        if ca is not None and op in ('add', 'mul', 'and', 'or', 'xor'): a, b, ca, cb = b, a, cb, ca
        if cb is not None: b = ('i', cb)
        if cb == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op in ('and', 'mul'): return Z
        if op == 'sub' and a == b: return Z
        if op == 'sub' and self.rule.elem_sum:
            k = self.idist(a, b)
            if k is not None: return ('i', k)
        if op == 'sub' and cb is not None: op = 'add'; b = ('i', -cb); cb = -cb
        if op == 'add' and cb is not None and a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'i':
            b = ('i', cb + a[3][1]); a = a[2]
            if b[1] == 0: return a
        if op == 'xor' and cb == 1 and a[0] == 'cmp': return ('cmp', NEGP[a[1]], a[2], a[3])
        if op == 'and' and a[0] == 'bin' and a[1] == 'or' and cb is not None and a[3][0] == 'i':
            # (x | k) & m
            if a[3][1] & cb == cb: return b
        if op in ('and', 'or') and cb is not None and a[0] == 'bin' and a[1] == op and a[3][0] == 'i':
            k = a[3][1] & cb if op == 'and' else a[3][1] | cb
            a = a[2]; b = ('i', k)
        v = ('bin', op, a, b)
        if size(v) > 20: return None
        return v

    def bf_field(self, st, inst, v):
        a = v[1]; l = last_of(a)
        name = self.mod.bitfield_name(l, v[2])
        return self.load_at(st, inst, addr(base_of(a), path_of(a)[:-1] + (name,)))

    # ------------------------------------------------------------ liveness
    def live(self, f):
        r = self._live.get(f.name)
        if r is not None: return r
        use = {}; defs = {}
        phiuse = {}
        for b in f.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op == 'phi':
                    for v, p in i.x:
                        if v[0] == '%': phiuse.setdefault((p, b.name), set()).add(v[1])
                    d.add(i.res); continue
                for n in self.names(i):
                    if n not in d: u.add(n)
                if i.res is not None: d.add(i.res)
            use[b.name] = u; defs[b.name] = d
        lin = {b.name: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set()
                for s in b.succs:
                    out |= lin[s.name]
                    out |= phiuse.get((b.name, s.name), set())
                n = use[b.name] | (out - defs[b.name])
                if n != lin[b.name]: lin[b.name] = n; ch = True
        # values live on entry, given phis are evaluated on the edge: add phi results used in block
        for b in f.blocks:
            lin[b.name] = lin[b.name] | {i.res for i in b.phis()}
        self._live[f.name] = lin
        # loop heads (targets of back edges in DFS)
        heads = set(); color = {}
        stack = [(f.entry, iter(f.entry.succs))]; color[f.entry.name] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s.name)
                if c == 1: heads.add(s.name)
                elif c is None:
                    color[s.name] = 1; stack.append((s, iter(s.succs))); break
            else:
                color[b.name] = 2; stack.pop()
        self._heads[f.name] = heads
        return lin

    def names(self, i):
        for o in i.ops:
            yield from self.opnames(o)
        if i.op == 'alloca' and isinstance(i.x, tuple): yield from self.opnames(i.x)
    def opnames(self, o):
        if o[0] == '%': yield o[1]
        elif o[0] == 'gepc':
            for t, v in o[2]: yield from self.opnames(v)

    # ------------------------------------------------------------ join
    def join(self, a, b, bb, widen):
        """join two states at block bb (same prop)"""
        r = a.copy()
        c = self.ctx()
        env = {}; nf = {}
        def hull(f1, f2):
            if widen and f1 != f2 and not (f1[0] <= f2[0] and f2[1] <= f1[1] and all(self._ex(f2, x) for x in f1[2])):
                # keep only sign information
                lo = max(min(f1[0], f2[0]), -INF); hi = max(f1[1], f2[1])
                lo = 1 if lo >= 1 else 0 if lo >= 0 else -INF
                hi = -1 if hi <= -1 else 0 if hi <= 0 else INF
                ex = frozenset({0}) if (self._nz(f1) and self._nz(f2)) and lo < 0 < hi else frozenset()
                return (lo, hi, ex)
            lo = min(f1[0], f2[0]); hi = max(f1[1], f2[1])
            cand = f1[2] | f2[2] | {0}
            ex = frozenset(x for x in cand if lo < x < hi and self._ex(f1, x) and self._ex(f2, x))
            return (lo, hi, ex)
        def jv(x, y, tag):
            if x == y: return x
            if x == UNDEF or y == UNDEF: return UNDEF
            w = self.elemjoin(x, y)
            if w is not None: return w
            v = ('j', c, id(bb) if False else bb.idx, bb.fn.name, tag)
            nf[v] = hull(a.fact(x), b.fact(y))
            for k in (x, y):
                pass
            return v
        for k in a.env:
            if k in b.env: env[k] = jv(a.env[k], b.env[k], k)
        r.env = env
        fr = []
        for i, (f1, f2) in enumerate(zip(a.frames, b.frames)):
            if f1 is f2: fr.append(f1); continue
            fr.append({k: jv(f1[k], f2[k], (i, k)) for k in f1 if k in f2})
        r.frames = tuple(fr)
        mem = {}
        for k in a.mem:
            if k in b.mem: mem[k] = jv(a.mem[k], b.mem[k], ('m', k) if size(k) < 16 else ('m', hash(k)))
        r.mem = mem
        facts = {}
        for k in a.facts:
            if k in b.facts:
                f = hull(a.facts[k], b.facts[k])
                if f != TOPF: facts[k] = f
        for k, f in nf.items():
            if f != TOPF: facts[k] = f
            else: facts.pop(k, None)
        r.facts = facts
        r.made = a.made | b.made
        return r
    @staticmethod
    def elemjoin(x, y):
        if base_of(x) != base_of(y) or not (x[0] == 'a' or y[0] == 'a'): return None
        p, q = path_of(x), path_of(y)
        if len(p) != len(q): return None
        if all(a == b or (a[0] == '[' and b[0] == '[') for a, b in zip(p, q)):
            return addr(base_of(x), tuple(a if a == b else '[]' for a, b in zip(p, q)))
        return None
    @staticmethod
    def _ex(f, x): return x < f[0] or x > f[1] or x in f[2]
    @staticmethod
    def _nz(f): return f[0] > 0 or f[1] < 0 or 0 in f[2]

    def same(self, a, b):
        return a.env == b.env and a.mem == b.mem and a.facts == b.facts and a.frames == b.frames and a.prop == b.prop

    def subsumes(self, a, b):
        """a is at least as general as b"""
        if a.prop != b.prop or a.env != b.env or a.frames != b.frames: return False
        for k, v in a.mem.items():
            if b.mem.get(k) != v: return False
        for k, f in a.facts.items():
            g = b.facts.get(k)
            if g is None: return False
            if g != f and not (f[0] <= g[0] and g[1] <= f[1] and all(self._ex(g, x) for x in f[2])): return False
        return True

    def gc(self, st):
        seen = set()
        def walk(v):
            if isinstance(v, tuple):
                if v in seen: return
                seen.add(v)
                for x in v: walk(x)
            elif isinstance(v, frozenset):
                for x in v: walk(x)
        for v in st.env.values(): walk(v)
        for fr in st.frames:
            for v in fr.values(): walk(v)
        for k, v in st.mem.items():
            walk(v); walk(k)
        walk(st.prop)
        st.facts = {k: f for k, f in st.facts.items() if k in seen or (k[0] in ('cmp', 'bin') and all(x in seen or x[0] in ('i', 'g') for x in k[2:]))}
        st.made = {v for v in st.made if v in seen}

    # ------------------------------------------------------------ run
    def run(self, fname, args=None, st=None):
        self.root = fname
        f = self.mod.funcs[fname]
        if st is None:
            st = St(); st.prop = self.rule.initial()
        if args is None: args = [('p', i) for i in range(len(f.params))]
        self.rule.setup(st, f, args)
        return self.exec_func(f, st, args)

    def exec_func(self, f, st, args):
        self.funcs_seen.add(f.name)
        live = self.live(f); heads = self._heads[f.name]
        st = st.copy(); st.env = {}
        for p, a in zip(f.params, args): st.env[p] = a
        inn = {}    # block -> key -> [states]
        merges = {}
        exits = []
        work = []
        def arrive(bb, s):
            lv = live[bb.name]
            s.env = {k: v for k, v in s.env.items() if k in lv}
            if bb.name in heads or len(bb.preds) > 1: self.gc(s)
            k = self.rule.key(s)
            d = inn.setdefault(bb.name, {})
            l = d.setdefault(k, [])
            for e in l:
                if self.subsumes(e, s): return
            m = merges.get((bb.name, k), 0)
            lim = self.K if not (bb.name in heads) else max(1, min(self.K, 2))
            thread = self.threaded(bb)
            if thread and bb.name not in heads: lim = max(lim, 8)
            if thread and bb.name in heads: lim = max(lim, 3)
            if len(l) < lim:
                l.append(s); work.append((bb, s)); return
            merges[(bb.name, k)] = m + 1
            # join with the most similar
            best = l[-1]
            bi = len(l) - 1
            if thread:
                for i, e in enumerate(l):
                    if all(e.env.get(p.res) == s.env.get(p.res) for p in bb.phis()): best = e; bi = i; break
            j = self.join(best, s, bb, m > self.widen)
            self.gc(j)
            if self.subsumes(best, j): return
            l[bi] = j
            for w in range(len(work)):
                if work[w][1] is best: work[w] = (bb, j); break
            else: work.append((bb, j))
        arrive(f.entry, st)
        order = {b.name: i for i, b in enumerate(self.rpo(f))}
        while work:
            # lowest RPO first
            i = min(range(len(work)), key=lambda q: order.get(work[q][0].name, 1 << 30))
            bb, s = work.pop(i)
            self.exec_block(f, bb, s.copy(), arrive, exits)
        return self.merge_exits(f, exits)

    def threaded(self, bb):
        """block whose branch depends on a phi of the block itself"""
        t = bb.term
        if t.op == 'br' and t.ops and t.ops[0][0] == '%':
            d = bb.fn.defs.get(t.ops[0][1]); seen = 0
            while d is not None and seen < 4:
                if d.op == 'phi': return d.bb is bb or True
                if d.op in ('icmp', 'zext', 'xor', 'trunc', 'sext') and d.ops and d.ops[0][0] == '%': d = bb.fn.defs.get(d.ops[0][1])
                else: return False
                seen += 1
        return False

    _rpo = None
    def rpo(self, f):
        if self._rpo is None: self._rpo = {}
        r = self._rpo.get(f.name)
        if r: return r
        seen = set(); out = []
        stack = [(f.entry, iter(f.entry.succs))]; seen.add(f.entry.name)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.name not in seen:
                    seen.add(s.name); stack.append((s, iter(s.succs))); break
            else:
                out.append(b); stack.pop()
        out.reverse()
        self._rpo[f.name] = out
        return out

    def merge_exits(self, f, exits):
        groups = {}
        for s, rv in exits:
            if rv is None: rc = None
            else:
                c = s.const(rv)
                rc = ('c', c) if c is not None else (('nz',) if s.nonzero(rv) else ('?',))
                x = s.fact(rv)
                if c is None: rc = rc + ((x[0] >= 0), (x[1] <= 0))
            groups.setdefault((self.rule.key(s), rc), []).append((s, rv))
        out = []
        for k, l in groups.items():
            uniq = []
            for s, rv in l:
                self.gc_ret(s, rv)
                for s2, rv2 in uniq:
                    if rv2 == rv and self.subsumes(s2, s): break
                else: uniq.append((s, rv))
            lim = max(1, self.rule.exit_k)
            while len(uniq) > lim:
                (s1, r1), (s2, r2) = uniq[-2], uniq[-1]
                s1 = s1.copy(); s2 = s2.copy()
                s1.env = {'$r': r1} if r1 is not None else {}; s2.env = {'$r': r2} if r2 is not None else {}
                j = self.join(s1, s2, f.blocks[-1], False)
                rj = j.env.get('$r'); j.env = {}
                uniq[-2:] = [(j, rj)]
            out += uniq
        return out

    def gc_ret(self, s, rv):
        s.env = {'$r': rv} if rv is not None else {}
        self.gc(s)
        s.env = {}

    def exec_block(self, f, bb, st, arrive, exits):
        states = [st]
        for inst in bb.insts:
            if inst.op == 'phi': continue
            if inst.op in ('br', 'switch', 'ret', 'unreachable'): break
            nxt = []
            for s in states:
                self.steps += 1
                if self.steps > self.max_steps: raise Budget(f.name)
                r = self.step(f, s, inst)
                if r is None: nxt.append(s)
                else: nxt += r
            states = nxt
            if not states: return
        t = bb.term
        for s in states:
            if t.op == 'ret':
                rv = self.val(s, t.ops[0]) if t.ops else None
                r = self.rule.on_return(s, f, rv, t)
                if r is False: continue
                # drop this frame's allocas
                c = self.ctx()
                if not self.rule.keep_allocas:
                    for k in [k for k in s.mem if base_of(k)[0] == 'al' and base_of(k)[1] == c]: del s.mem[k]
                exits.append((s, rv))
            elif t.op == 'br':
                if not t.ops:
                    self.edge(bb, bb.succs[0], s, arrive)
                else:
                    c = self.val(s, t.ops[0])
                    k = s.const(c) if c != UNDEF else None
                    if k is not None:
                        self.edge(bb, bb.succs[0 if k else 1], s, arrive); continue
                    for truth, nb in ((True, bb.succs[0]), (False, bb.succs[1])):
                        s2 = s.copy()
                        if not self.assume(s2, c, truth): continue
                        s2.trace = (s2.trace, '%s:%s %s' % (t.loc[0], t.loc[1], 'true' if truth else 'false'))
                        r = self.rule.on_branch(s2, t, c, truth)
                        if r is False: continue
                        self.edge(bb, nb, s2, arrive)
            elif t.op == 'switch':
                v = self.val(s, t.ops[0])
                dflt, cases = t.x
                k = s.const(v) if v != UNDEF else None
                if k is not None:
                    tgt = dflt
                    for cv, lb in cases:
                        if cv == k: tgt = lb
                    self.edge(bb, f.bmap[tgt], s, arrive); continue
                for cv, lb in cases:
                    s2 = s.copy()
                    if v != UNDEF and not self.assume_cmp(s2, 'eq', v, ('i', cv)): continue
                    s2.trace = (s2.trace, '%s:%s case %d' % (t.loc[0], t.loc[1], cv))
                    self.rule.on_branch(s2, t, v, cv)
                    self.edge(bb, f.bmap[lb], s2, arrive)
                s2 = s.copy(); ok = True
                if v != UNDEF:
                    for cv, lb in cases:
                        if not self.assume_cmp(s2, 'ne', v, ('i', cv)): ok = False; break
                if ok:
                    s2.trace = (s2.trace, '%s:%s default' % t.loc)
                    self.edge(bb, f.bmap[dflt], s2, arrive)

    def edge(self, bb, nb, s, arrive):
        s = s.copy()
        vals = {}
        for p in nb.phis():
            for v, lb in p.x:
                if lb == bb.name:
                    x = self.val(s, v)
                    vals[p.res] = x
                    break
        s.env.update(vals)
        self.rule.on_edge(s, bb, nb)
        arrive(nb, s)

    def step(self, f, st, i):
        op = i.op
        if op == 'load':
            a = self.val(st, i.ops[0])
            self.rule.on_load(st, i, a)
            if i.x == 'volatile':
                v = self.fresh(st, i, 'vol'); r = self.rule.on_load_fresh(st, i, a, v)
                st.env[i.res] = v if r is None else r
            else:
                st.env[i.res] = self.load(st, i, a)
        elif op == 'store':
            v = self.val(st, i.ops[0]); a = self.val(st, i.ops[1])
            if v[0] == 'bfl': v = self.bf_field(st, i, v)
            self.store(st, i, a, v)
        elif op == 'getelementptr':
            b = self.val(st, i.ops[0])
            st.env[i.res] = self.gep(st, i.ty, b, i.ops[1:]) if b != UNDEF else UNDEF
        elif op == 'icmp':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a[0] == 'bfl': a = self.bf_field(st, i, a)
            if b[0] == 'bfl': b = self.bf_field(st, i, b)
            v = self.cmp(st, i.x, a, b)
            st.env[i.res] = v if v is not None else self.fresh(st, i)
        elif op in CAST:
            v = self.val(st, i.ops[0])
            if v[0] == 'bfl': v = self.bf_field(st, i, v)
            if v[0] == 'i' and op == 'trunc':
                w = self.mod.layout(i.ty)[0] * 8; x = v[1] & ((1 << w) - 1)
                if x >> (w - 1) and w > 1: x -= 1 << w
                v = ('i', x)
            elif v[0] == 'i' and op == 'zext' and v[1] < 0:
                w = self.mod.layout(i.x)[0] * 8; v = ('i', v[1] & ((1 << w) - 1))
            elif op in ('fptosi', 'sitofp', 'uitofp', 'fptoui', 'fpext', 'fptrunc'):
                v = self.fresh(st, i)
            st.env[i.res] = v
        elif op in BIN:
            if self.rule.on_bin is not None: self.rule.on_bin(st, i)
            v = self.binop(st, op, self.val(st, i.ops[0]), self.val(st, i.ops[1]), i)
            st.env[i.res] = v if v is not None else self.fresh(st, i)
        elif op == 'select':
            c = self.val(st, i.ops[0]); k = st.const(c) if c != UNDEF else None
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if k is not None: st.env[i.res] = a if k else b
            elif a == b: st.env[i.res] = a
            else:
                out = []
                for truth, v in ((True, a), (False, b)):
                    s2 = st.copy()
                    if c == UNDEF or self.assume(s2, c, truth):
                        s2.env[i.res] = v; out.append(s2)
                return out
        elif op == 'alloca':
            v = ('al', self.ctx(), i.id)
            st.env[i.res] = v
            for k in [k for k in st.mem if base_of(k) == v]: del st.mem[k]
        elif op == 'call':
            return self.call(f, st, i)
        else:
            if i.res is not None: st.env[i.res] = self.fresh(st, i)
        return None

    def call(self, f, st, i):
        name = i.x
        args = [self.val(st, o) for o in i.ops]
        args = [self.bf_field(st, i, a) if a[0] == 'bfl' else a for a in args]
        if name is None:
            cv = args.pop()
            if cv[0] == 'g': name = cv[1]
        tgt = self.mod.funcs.get(name) if name else None
        self.calls_seen.add(i.id)
        if name is None:
            r = self.rule.on_indirect(st, i, cv, args)
            if r is None:
                for k in [k for k in st.mem if base_of(k)[0] != 'al']: del st.mem[k]
                r = [(st, self.fresh(st, i, 'ind'))]
            return self.finish(i, r)
        r = self.rule.on_call(st, i, name, args)
        if r is None:
            if tgt is not None and not tgt.decl:
                if name in self.cg.noreturn and not self.rule.inline_noreturn:
                    self.rule.on_exit(st, i, name, args)
                    return []
                if len(self.stack) < 40 and all(s.x != name or True for s in self.stack) and \
                        sum(1 for s in self.stack if s.x == name) < 1 and (tiny(tgt) or self.rule.inline(tgt, st, i, args)):
                    r = self.inline(st, i, tgt, args)
                elif name in self.cg.noreturn:
                    self.rule.on_exit(st, i, name, args)
                    return []
                else:
                    r = self.havoc_call(st, i, tgt, args)
            else:
                r = self.external(st, i, name, args)
        return self.finish(i, r)

    def finish(self, i, r):
        out = []
        for s, rv in r:
            if i.res is not None:
                s.env[i.res] = rv if rv is not None else self.fresh(s, i)
            out.append(s)
        return out

    def inline(self, st, i, tgt, args):
        caller_env = st.env
        st = st.copy()
        st.frames = st.frames + (caller_env,)
        st.trace = (st.trace, '%s:%s call %s' % (i.loc[0], i.loc[1], tgt.src_name))
        self.stack.append(i)
        try:
            res = self.exec_func(tgt, st, args)
        finally:
            self.stack.pop()
        out = []
        for s, rv in res:
            s = s.copy()
            s.env = dict(s.frames[-1]); s.frames = s.frames[:-1]
            out.append((s, rv))
        return out

    def havoc_call(self, st, i, tgt, args):
        self.havoc(st, self.cg.mods(tgt.name))
        for a in args:
            if base_of(a)[0] == 'al': self.kill_under(st, a)
        return [(st, self.fresh(st, i, 'ret'))]

    PURE = {'strlen', 'strcmp', 'strcasecmp', 'strncasecmp', 'strncmp', 'close', 'fcntl', 'isatty', 'strchr', 'strrchr', 'strstr',
            'htons', 'htonl', 'ntohs', 'access', 'getenv', 'atoi', 'free', 'printf', 'fprintf', 'write', 'writev', 'syslog', 'kill',
            'pthread_mutex_lock', 'pthread_mutex_unlock', 'getpid', 'umask', 'unlink', 'open', 'socket', 'fork', 'strspn', 'toupper'}
    def external(self, st, i, name, args):
        if name == '__errno_location': return [(st, ('g', 'errno'))]
        if name == '__ctype_b_loc': return [(st, ('g', 'ctype_b'))]
        if name in self.cg.noreturn:
            self.rule.on_exit(st, i, name, args); return []
        if name not in self.PURE:
            for a in args:
                if a[0] in ('al', 'a', 's', 'ld', 'p', 'j', 'old'):
                    if name.startswith(('llvm.memcpy', 'llvm.memset', 'strlcpy', 'snprintf', 'strcpy', 'strncpy', 'strlcat', 'strcat')) and a is not args[0]: continue
                    self.kill_under(st, a)
        st.mem.pop(('g', 'errno'), None)
        tag = 'new' if name in ('malloc', 'calloc', 'strdup', 'realloc') else 'ret'
        v = self.fresh(st, i, tag)
        return [(st, v)]

# --------------------------------------------------------------------------
def tiny(f):
    """a loop-free leaf function of a few blocks (a predicate, a setter): always analysed in place"""
    r = TINY.get(id(f))
    if r is None or r[0] is not f:
        bs = list(f.blocks.values()) if isinstance(f.blocks, dict) else list(f.blocks); pos = {id(b): k for k, b in enumerate(bs)}
        r = TINY[id(f)] = (f, len(bs) <= 6
            and not any(i.op in ('call', 'invoke') and not (isinstance(i.x, str) and (i.x.startswith('llvm.') or i.x == '__assert_fail')) for i in f.insts())
            and not any(pos[id(s)] <= pos[id(b)] for b in bs for s in b.succs))
    return r[1]
TINY = {}

class Rule:
    exit_k = 3
    keep_allocas = False
    derived = {}            # pseudo member -> members it summarises
    elem_sum = False        # arithmetic on definite element indices
    sym_elem = False        # give element addresses stored to memory an identity of their own
    inline_noreturn = False
    def initial(self): return ()
    def setup(self, st, f, args): pass
    def key(self, st): return st.prop
    def rename(self, prop, v, old): return prop
    def inline(self, tgt, st, i, args): return True
    def on_call(self, st, i, name, args): return None
    def on_indirect(self, st, i, cv, args): return None
    on_bin = None           # on_bin(st, i): before a binary operation
    def on_load(self, st, i, a): pass
    def on_load_fresh(self, st, i, a, v): return None
    def on_store(self, st, i, a, v): pass
    def on_branch(self, st, t, c, truth): return None
    def on_edge(self, st, bb, nb): pass
    def on_return(self, st, f, rv, t): return None
    def on_exit(self, st, i, name, args): pass

# --------------------------------------------------------------------------
EXT_NORETURN = {'exit', '_exit', 'abort', 'pthread_exit', '__assert_fail', 'err', '_Exit', 'quick_exit'}

class CallGraph:
    def __init__(self, mod):
        self.mod = mod
        self.callees = {}; self.callers = {}; self.sites = {}; self.addr_taken = {}
        for f in mod.funcs.values():
            if f.decl: continue
            s = set()
            for i in f.insts():
                if i.op == 'call':
                    if i.x: s.add(i.x); self.sites.setdefault(i.x, []).append(i)
                    ops = i.ops[:-1] if i.x is None else i.ops
                else: ops = list(i.ops)
                if i.op == 'phi': ops = [v for v, _ in i.x]
                for o in ops: self._taken(o, i)
            self.callees[f.name] = s
            for c in s: self.callers.setdefault(c, set()).add(f.name)
        self.noreturn = set(EXT_NORETURN)
        ch = True
        while ch:
            ch = False
            for f in mod.funcs.values():
                if f.decl or f.name in self.noreturn: continue
                if not self._can_return(f): self.noreturn.add(f.name); ch = True
        self._mods = None
        self._reach = {}
    def _taken(self, o, i):
        if o[0] == '@' and o[1] in self.mod.funcs: self.addr_taken.setdefault(o[1], []).append(i)
        elif o[0] == 'gepc':
            for _, v in o[2]: self._taken(v, i)
    def _can_return(self, f):
        seen = {f.entry.name}; work = [f.entry]
        while work:
            b = work.pop(); dead = False
            for i in b.insts:
                if i.op == 'call' and i.x in self.noreturn: dead = True; break
                if i.op == 'ret': return True
            if dead: continue
            for s in b.succs:
                if s.name not in seen: seen.add(s.name); work.append(s)
        return False
    def reach(self, name):
        """functions (defined and external) transitively callable from name, direct calls + locally taken addresses"""
        r = self._reach.get(name)
        if r is not None: return r
        seen = set(); work = [name]
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            work += list(self.callees.get(n, ()))
        self._reach[name] = seen
        return seen
    def reaching(self, targets):
        """defined functions that may (directly) reach one of targets"""
        seen = set(); work = list(targets)
        while work:
            n = work.pop()
            for c in self.callers.get(n, ()):
                if c not in seen: seen.add(c); work.append(c)
        return seen
    def mods(self, name):
        if self._mods is None:
            own = {}
            for f in self.mod.funcs.values():
                if f.decl: continue
                s = set()
                for i in f.insts():
                    if i.op == 'store':
                        t = self._target(f, i.ops[1])
                        if any('.#bf' in x for x in t): t = self._bits(f, i, t)
                        s |= t
                    elif i.op == 'call' and i.x and i.x.startswith(('llvm.mem', 'read', 'snprintf', 'strlcpy', 'strcpy', 'strncpy', 'fstat', 'stat', 'tcgetattr')):
                        for o in i.ops[:2]: s |= self._target(f, o)
                own[f.name] = s
            ch = True
            while ch:
                ch = False
                for n in own:
                    for c in self.callees[n]:
                        if c in own and not own[c] <= own[n]: own[n] |= own[c]; ch = True
            self._mods = own
        return self._mods.get(name, set())
    def _bits(self, f, i, t):
        """a store into bitfield storage: which members does it change?"""
        bf = next(x for x in t if '.#bf' in x)
        d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == '%' else None
        if d is not None and d.op == 'or':
            for o in d.ops:
                e = f.defs.get(o[1]) if o[0] == '%' else None
                if e is not None and e.op == 'and' and e.ops[1][0] == 'i':
                    g = f.defs.get(e.ops[0][1]) if e.ops[0][0] == '%' else None
                    if g is not None and g.op == 'load' and e.ops[1][1] < 0: d = e; break
        if d is None or d.op != 'and' or d.ops[1][0] != 'i': return t
        w = self.mod.layout(d.ty)[0] * 8; inv = ~d.ops[1][1] & ((1 << w) - 1)
        st, off = bf.split('.#bf'); off = int(off) * 8
        out = set()
        for bo, bit, sz, mn, bt in self.mod.members(st) or []:
            if bit is not None and 0 <= bit - off < w and (inv >> (bit - off)) & ((1 << sz) - 1): out.add('%s.%s' % (st, mn))
        return out or t
    def _target(self, f, o, d=0):
        if o[0] == '@': return {'g:' + o[1]}
        if o[0] == 'gepc': return {'g:' + o[2][0][1][1]} if o[2][0][1][0] == '@' else set()
        if o[0] == '%' and d < 6:
            i = f.defs.get(o[1])
            if i is None: return {'*'}
            if i.op == 'getelementptr':
                names = set()
                if i.ty.startswith('%'):
                    cur = i.ty
                    for k in i.ops[2:]:
                        lay = self.mod.layout(cur)
                        if lay[2] == 's' and k[0] == 'i':
                            fn = self.mod.field_name(cur, k[1])
                            if fn:
                                names = {fn}
                                if '.#bf' in fn:
                                    st = fn.split('.#bf')[0]
                                    names = {fn} | {'%s.%s' % (st, m[3]) for m in self.mod.members(st) or [] if m[1] is not None}
                            cur = lay[3][k[1]][1]
                        elif lay[2] == 'a': cur = lay[3][1]
                    if names: return names
                return self._target(f, i.ops[0], d + 1) if i.ty.startswith(('%', '[')) else {'*', '[]'} | self._target(f, i.ops[0], d + 1)
            if i.op == 'alloca': return set()
            if i.op == 'call' and i.x == '__errno_location': return {'g:errno'}
            if i.op == 'phi':
                s = set()
                for v, _ in i.x: s |= self._target(f, v, d + 2)
                return s
            return {'*'}
        return {'*'}
