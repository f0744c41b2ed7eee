"""Flow-insensitive, field-based resolution of function pointers."""

class FPtr:
    def __init__(self, prog):
        self.mod = prog.mod; self.pts = {}; self.edges = {}
        for f in self.mod.funcs.values():
            if f.decl: continue
            for i in f.insts():
                if i.op == 'call':
                    if i.x and i.x in self.mod.funcs:
                        t = self.mod.funcs[i.x]
                        for k, o in enumerate(i.ops): self.flow(f, o, ('p', i.x, k))
                elif i.op == 'store':
                    d = self.slot_of_addr(f, i.ops[1])
                    if d: self.flow(f, i.ops[0], d)
                elif i.op == 'ret' and i.ops:
                    self.flow(f, i.ops[0], ('r', f.name))
        for g in self.mod.globals.values():
            if g.init is not None: self.ginit(('g', g.name), g.init)
        ch = True
        while ch:
            ch = False
            for s, ds in self.edges.items():
                p = self.pts.get(s)
                if not p: continue
                for d in ds:
                    q = self.pts.setdefault(d, set())
                    if not p <= q: q |= p; ch = True
    def ginit(self, slot, v):
        if v[0] == '@' and v[1] in self.mod.funcs: self.pts.setdefault(slot, set()).add(v[1])
        elif v[0] == 'agg':
            for x in v[1]: self.ginit(slot, x)
    def slot_of_addr(self, f, o, d=0):
        if o[0] == '@': return ('g', o[1])
        if o[0] == 'gepc':
            b = o[2][0][1]
            return ('g', b[1]) if b[0] == '@' else None
        if o[0] == '%':
            i = f.defs.get(o[1])
            if i is None: return None
            if i.op == 'getelementptr':
                name = None; cur = i.ty
                if cur.startswith('%'):
                    for k in i.ops[2:]:
                        lay = self.mod.layout(cur)
                        if lay[2] == 's' and k[0] == 'i':
                            n = self.mod.field_name(cur, k[1]); name = n or name
                            cur = lay[3][k[1]][1]
                        elif lay[2] == 'a': cur = lay[3][1]
                        else: break
                if name: return ('f', name)
                return self.slot_of_addr(f, i.ops[0], d + 1) if d < 6 else None
            if i.op == 'alloca': return ('l', f.name, i.res)
        return None
    def sources(self, f, o, d=0):
        """slots / functions an operand may come from"""
        if o[0] == '@': return {o[1]} if o[1] in self.mod.funcs else set()
        if o[0] != '%' or d > 8: return set()
        i = f.defs.get(o[1])
        if i is None:
            return {('p', f.name, f.params.index(o[1]))} if o[1] in f.params else set()
        if i.op == 'load':
            s = self.slot_of_addr(f, i.ops[0])
            return {s} if s else set()
        if i.op == 'phi':
            r = set()
            for v, _ in i.x: r |= self.sources(f, v, d + 1)
            return r
        if i.op == 'select':
            return self.sources(f, i.ops[1], d + 1) | self.sources(f, i.ops[2], d + 1)
        if i.op == 'call' and i.x: return {('r', i.x)}
        if i.op in ('bitcast', 'inttoptr', 'ptrtoint'): return self.sources(f, i.ops[0], d + 1)
        return set()
    def flow(self, f, o, dst):
        for s in self.sources(f, o):
            if isinstance(s, str): self.pts.setdefault(dst, set()).add(s)
            elif s != dst: self.edges.setdefault(s, set()).add(dst)
    def slot(self, s): return self.pts.get(s, set())
    def targets(self, inst):
        """functions an indirect call may invoke"""
        f = inst.fn; r = set()
        for s in self.sources(f, inst.ops[-1]):
            r |= {s} if isinstance(s, str) else self.slot(s)
        return r
