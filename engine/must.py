"""Interprocedural must-happen-before: the set of events that have certainly
happened when control reaches an instruction (forward must-dataflow with
function summaries; contexts are joined by intersection over call sites)."""
ALL = None      # "unreached" (top of the must lattice)

class Must:
    def __init__(self, p, event, roots=('main',), kill=None, assume=None):
        """event(inst) -> iterable of events; kill(inst) -> iterable of events undone"""
        self.p = p; self.event = event; self.kill = kill or (lambda i: ())
        self.sum = {}; self.entry = {}; self.before = {}
        for r in roots:
            if r in p.mod.funcs: self.visit(r, frozenset(), ())
    def summary(self, name, d=0):
        """events certainly added by running name to its return"""
        if name in self.sum: return self.sum[name]
        self.sum[name] = frozenset()
        f = self.p.mod.funcs[name]
        _, out = self.flow(f, frozenset(), None, d)
        self.sum[name] = out if out is not ALL else frozenset()
        return self.sum[name]
    def step(self, s, i, d=0):
        for e in self.kill(i): s = s - {e}
        if i.op == 'call' and i.x:
            t = self.p.mod.funcs.get(i.x)
            if i.x in self.p.cg.noreturn: return ALL
            if t is not None and not t.decl and d < 30: s = s | self.summary(i.x, d + 1)
        ev = self.event(i)
        return s | frozenset(ev) if ev else s
    def flow(self, f, s0, rec, d):
        inn = {f.entry.name: s0}; work = [f.entry]; outs = ALL
        while work:
            b = work.pop(0); s = inn[b.name]
            for i in b.insts:
                s = self.step(s, i, d)
                if s is ALL: break
            if s is ALL: continue
            for q in b.succs:
                o = inn.get(q.name, ALL)
                n = s if o is ALL else o & s
                if o is ALL or n != o:
                    inn[q.name] = n
                    if q not in work: work.append(q)
        for b in f.blocks:
            if b.name not in inn: continue
            s = inn[b.name]
            for i in b.insts:
                if rec is not None: rec(i, s)
                s = self.step(s, i, d)
                if s is ALL: break
            if s is not ALL and b.term.op == 'ret': outs = s if outs is ALL else outs & s
        return inn, outs
    def visit(self, name, s, stack):
        f = self.p.mod.funcs.get(name)
        if f is None or f.decl or name in stack: return
        o = self.entry.get(name, ALL)
        n = s if o is ALL else o & s
        if o is not ALL and n == o: return
        self.entry[name] = n
        calls = []
        def rec(i, st):
            b = self.before.get(i.id, ALL)
            self.before[i.id] = st if b is ALL else b & st
            if i.op == 'call':
                for t in ([i.x] if i.x else self.p.fp.targets(i)): calls.append((t, st))
        self.flow(f, n, rec, 0)
        for t, st in calls: self.visit(t, st, stack + (name,))
    def at(self, i): return self.before.get(i.id, ALL)

def consts(p, f, o, d=0):
    """constant integers / function names / strings an operand may be, following parameters to the callers; None element = unknown"""
    if o[0] == 'i': return {o[1]}
    if o[0] == '@': return {o[1]}
    if o[0] in ('gepc',): return {('str', p.mod.cstr(o))}
    if o[0] != '%' or d > 6: return {None}
    i = f.defs.get(o[1])
    if i is None:
        if o[1] in f.params:
            k = f.params.index(o[1]); out = set()
            for c in p.cg.sites.get(f.name, []):
                if k < len(c.ops): out |= consts(p, c.fn, c.ops[k], d + 1)
            return out or {None}
        return {None}
    if i.op == 'phi':
        out = set()
        for v, _ in i.x: out |= consts(p, f, v, d + 1)
        return out
    if i.op == 'select': return consts(p, f, i.ops[1], d + 1) | consts(p, f, i.ops[2], d + 1)
    if i.op in ('sext', 'zext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint'): return consts(p, f, i.ops[0], d + 1)
    if i.op == 'call' and i.x in p.mod.funcs and not p.mod.funcs[i.x].decl:
        g = p.mod.funcs[i.x]; out = set()
        for r in g.insts():
            if r.op == 'ret' and r.ops: out |= consts(p, g, r.ops[0], d + 1)
        return out or {None}
    return {None}
