"""Abstract semantics of the list API (src/list.h) for the abstract interpreter:
the length of a list is a pseudo member, elements carry their provenance."""
from absint import *

CNT = 'list#.count'
FIRST = 'it#.first'
LISTAPI = {'list_create', 'list_destroy', 'list_is_empty', 'list_count', 'list_append', 'list_prepend', 'list_push', 'list_enqueue', 'list_find_first',
           'list_delete_all', 'list_sort', 'list_pop', 'list_dequeue', 'list_peek', 'list_iterator_create', 'list_iterator_reset', 'list_iterator_destroy',
           'list_next', 'list_insert', 'list_find', 'list_remove', 'list_delete'}
MUTATE = {'list_append', 'list_prepend', 'list_push', 'list_enqueue', 'list_delete_all', 'list_pop', 'list_dequeue', 'list_insert', 'list_remove', 'list_delete', 'list_destroy'}

_fixed = {}
def fixed_lists(p):
    """members to which nothing but a new list is ever stored"""
    if id(p) not in _fixed:
        good, bad, n = set(), set(), {}
        for f in p.funcs():
            for i in f.insts():
                if i.op != 'store': continue
                s = p.fp.slot_of_addr(f, i.ops[1])
                if not s or s[0] != 'f': continue
                d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == '%' else None
                n[s[1]] = n.get(s[1], 0) + 1
                (good if d is not None and d.op == 'call' and d.x == 'list_create' else bad).add(s[1])
        _fixed[id(p)] = {k for k in good - bad if n[k] == 1}
    return _fixed[id(p)]

class ListModel:
    """mixin for Rule: call list_call(st, i, name, args) first in on_call.
    self.elem: element value -> list value;  self.iter: iterator value -> list value;  self.origin: list value -> address it was loaded from"""
    def lm_init(self, p):
        self.p = p; self.elem = {}; self.iter = {}; self.origin = {}
        self.mut = p.cg.reaching(MUTATE); self.fixed = fixed_lists(p)
    def lm_fresh(self, a, v):
        if last_of(a) in self.fixed:            # assigned once, when the object is created: the same list at every load
            w = ('s', 0, ('lf', a), 'lf'); self.origin[w] = a
            return w
        self.origin[v] = a
    def cell(self, l): return addr(l, (CNT,))
    def count(self, st, i, l):
        a = self.cell(l); v = st.mem.get(a)
        if v is None:
            v = self.A.fresh(st, i, 'cnt'); st.facts[v] = (0, INF, frozenset()); st.mem[a] = v
        return v
    def setcount(self, st, i, l, lo, val=None):
        loc = l[0] == 's' and l[3] == 'lnew'
        for k in [k for k in st.mem if last_of(k) == CNT and k != self.cell(l)]:
            b = base_of(k) if len(path_of(k)) == 1 else addr(base_of(k), path_of(k)[:-1])
            if loc or (b[0] == 's' and b[3] == 'lnew'): continue
            ob, ol = self.origin.get(b), self.origin.get(l)
            if ob is not None and ol is not None and last_of(ob) != last_of(ol): continue
            del st.mem[k]
        if val is None:
            val = self.A.fresh(st, i, 'cnt'); st.facts[val] = (lo, INF, frozenset())
        st.mem[self.cell(l)] = val
    def lm_havoc(self, st, name):
        if name in self.mut:
            for k in [k for k in st.mem if last_of(k) == CNT]: del st.mem[k]
    def list_call(self, st, i, name, args):
        if name not in LISTAPI: return None
        A = self.A
        if name == 'list_create':
            v = A.fresh(st, i, 'lnew'); st.facts[v] = (1, INF, frozenset()); st.mem[self.cell(v)] = Z
            return [(st, v)]
        if name == 'list_iterator_create':
            v = A.fresh(st, i, 'it'); st.facts[v] = (1, INF, frozenset()); self.iter[v] = args[0]; st.mem[addr(v, (FIRST,))] = ('i', 1)
            return [(st, v)]
        if name == 'list_iterator_reset' and args[0] != UNDEF: st.mem[addr(args[0], (FIRST,))] = ('i', 1)
        if name in ('list_iterator_reset', 'list_iterator_destroy', 'list_sort', 'list_destroy'):
            return [(st, None)]
        if name in ('list_count', 'list_is_empty'):
            if args[0] == UNDEF: return [(st, A.fresh(st, i, 'n'))]
            c = self.count(st, i, args[0])
            if name == 'list_count': return [(st, c)]
            v = A.cmp(st, 'eq', c, Z)
            return [(st, v if v is not None else A.fresh(st, i, 'b'))]
        if name in ('list_append', 'list_prepend', 'list_push', 'list_enqueue'):
            if args[0] != UNDEF:
                c = st.mem.get(self.cell(args[0])); k = st.const(c) if c is not None else None
                self.setcount(st, i, args[0], 1, ('i', 1) if k == 0 else None)
            return [(st, args[1])]
        if name in ('list_peek', 'list_pop', 'list_dequeue'):
            l = args[0]
            if l == UNDEF: return [(st, A.fresh(st, i, 'e'))]
            c = self.count(st, i, l)
            s2 = st.copy(); out = []
            if A.assume_cmp(st, 'sgt', c, Z):
                v = A.fresh(st, i, 'e'); st.facts[v] = (1, INF, frozenset()); self.elem[v] = l
                if name != 'list_peek': self.setcount(st, i, l, 0)
                out.append((st, v))
            if A.assume_cmp(s2, 'eq', c, Z): out.append((s2, Z))
            return out
        if name == 'list_next':
            l = self.iter.get(args[0])
            first = st.mem.pop(addr(args[0], (FIRST,)), None) == ('i', 1) if args[0] != UNDEF else False
            s2 = st.copy()
            if l is not None:
                c = self.count(st, i, l)
                s2 = st.copy(); more = True
                if first and not A.assume_cmp(s2, 'eq', c, Z): more = False
                if not A.assume_cmp(st, 'sgt', c, Z): return [(s2, Z)]
                if not more:
                    v = A.fresh(st, i, 'e'); st.facts[v] = (1, INF, frozenset()); self.elem[v] = l
                    return [(st, v)]
            v = A.fresh(st, i, 'e'); st.facts[v] = (1, INF, frozenset())
            if l is not None: self.elem[v] = l
            return [(st, v), (s2, Z)]
        if name in ('list_delete_all', 'list_delete', 'list_remove', 'list_insert'):
            l = args[0] if name == 'list_delete_all' else self.iter.get(args[0])
            if l is not None and l != UNDEF: self.setcount(st, i, l, 0)
            v = A.fresh(st, i, 'n')
            if name == 'list_delete_all': st.facts[v] = (0, INF, frozenset())
            return [(st, v)]
        if name in ('list_find_first', 'list_find'):
            s2 = st.copy(); v = A.fresh(st, i, 'e'); st.facts[v] = (1, INF, frozenset())
            l = args[0] if name == 'list_find_first' else self.iter.get(args[0])
            if l is not None: self.elem[v] = l
            return [(st, v), (s2, Z)]
        return None
    # provenance
    def root(self, v):
        while v[0] == 'old': v = v[1]
        return v
    def from_list(self, v):
        """the field address of the list this element came from, or None"""
        l = self.elem.get(v) or self.elem.get(self.root(v))
        if l is None: return None
        return self.origin.get(l) or self.origin.get(self.root(l)) or l
