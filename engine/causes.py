"""Which external outcomes can drive control into a call that ends the process?"""

def dead_blocks(p, f):
    """blocks from which no return is reachable"""
    NR = p.cg.noreturn
    can = set()
    def stops(b):
        for i in b.insts:
            if i.op == 'call' and i.x in NR: return True
        return False
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            if b in can: continue
            if stops(b): continue
            if b.term.op == 'ret' or any(s in can for s in b.succs): can.add(b); ch = True
    return {b for b in f.blocks if b not in can}

def controlling(p, f, blk, dead=None):
    """conditional branches that decide to enter the doomed region containing blk"""
    if dead is None: dead = dead_blocks(p, f)
    seen = set(); work = [blk]; out = []
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        for q in b.preds:
            if q in dead: work.append(q)
            elif len(q.succs) > 1: out.append(q.term)
            else: work.append(q)
    return out, (f.entry in seen)

def leaves(p, f, o, seen, depth=0):
    """sources a value depends on: ('ext', name, inst) | ('state', field) | ('errno',) | ('const',)"""
    out = set()
    if o[0] != '%': return out
    key = (f.name, o[1])
    if key in seen or depth > 12: return out
    seen.add(key)
    i = f.defs.get(o[1])
    if i is None:
        if o[1] in f.params:
            k = f.params.index(o[1])
            cs = [c for c in p.cg.sites.get(f.name, [])]
            if not cs or depth > 6: return {('state', 'param')}
            for c in cs:
                if k < len(c.ops): out |= leaves(p, c.fn, c.ops[k], seen, depth + 1) or {('const', 'c')}
        return out
    if i.op == 'call':
        if i.x is None: return {('state', 'indirect')}
        t = p.mod.funcs.get(i.x)
        if t is None or t.decl: return {('ext', i.x, i)}
        # outcome of a function of the program: what its return value depends on (data and control)
        if i.x in p.cg.noreturn: return set()
        return retcauses(p, t, seen, depth + 1)
    if i.op == 'load':
        s = p.fp.slot_of_addr(f, i.ops[0])
        a = i.ops[0]; d = f.defs.get(a[1]) if a[0] == '%' else None
        if d is not None and d.op == 'call' and d.x == '__errno_location': return {('errno', 'errno')}
        if s and s[0] == 'l':
            # address-taken local: whatever may write it
            for j in f.insts():
                if j.op == 'store' and p.fp.slot_of_addr(f, j.ops[1]) == s: out |= leaves(p, f, j.ops[0], seen, depth + 1)
                elif j.op == 'call' and any(q == ('%', s[2]) for q in j.ops):
                    t = p.mod.funcs.get(j.x) if j.x else None
                    out |= {('ext', j.x, j)} if (t is None or t.decl) else {('state', 'out:' + str(j.x))}
            return out
        return {('state', s[1] if s else '?')}
    if i.op == 'phi':
        for v, lb in i.x:
            out |= leaves(p, f, v, seen, depth + 1)
            # control: which branch selected the incoming edge
        return out
    for q in i.ops: out |= leaves(p, f, q, seen, depth + 1)
    return out

def retcauses(p, t, seen, depth):
    out = set()
    if depth > 5 or ('ret', t.name) in seen: return {('state', 'deep')}
    seen.add(('ret', t.name))
    for b in t.blocks:
        if b.term.op == 'ret' and b.term.ops:
            o = b.term.ops[0]
            out |= leaves(p, t, o, seen, depth)
            d = t.defs.get(o[1]) if o[0] == '%' else None
            if d is not None and d.op == 'phi':
                # constants selected by control flow: the branches that select them
                for v, lb in d.x:
                    if v[0] == 'i':
                        q = t.bmap[lb]; n = 0
                        while n < 20:
                            if len(q.succs) > 1: out |= leaves(p, t, q.term.ops[0], seen, depth); break
                            if len(q.preds) != 1:
                                for z in q.preds:
                                    if len(z.succs) > 1: out |= leaves(p, t, z.term.ops[0], seen, depth)
                                break
                            q = q.preds[0]; n += 1
                            if len(q.succs) > 1: out |= leaves(p, t, q.term.ops[0], seen, depth); break
    return out or {('state', t.name)}
