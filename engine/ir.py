"""Parser for textual LLVM IR (the subset clang 18 emits at -O0 for C, after
mem2reg), with the debug-info needed to name struct members, enumerators and
source positions.  No third-party dependency."""
import re

# --------------------------------------------------------------------------
class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'id', 'bb', 'fn', 'mod', 'aty')
    def __init__(self, op):
        self.op = op; self.res = None; self.ty = None; self.ops = []; self.x = None
        self.dbg = None; self.id = -1; self.bb = None; self.fn = None
    @property
    def loc(self):
        return self.fn.mod.loc(self.dbg, self.fn)
    @property
    def line(self):
        return self.loc[1]
    def where(self):
        f, l = self.loc
        return '%s:%s (%s)' % (f, l, self.fn.src_name)
    def __repr__(self):
        return '<%s %s @%s>' % (self.op, self.res, self.where())

class Block:
    __slots__ = ('name', 'insts', 'fn', 'succs', 'preds', 'idx')
    def __init__(self, name, fn):
        self.name = name; self.fn = fn; self.insts = []; self.succs = []; self.preds = []; self.idx = -1
    @property
    def term(self): return self.insts[-1]
    def phis(self):
        return [i for i in self.insts if i.op == 'phi']
    def __repr__(self): return '<bb %s.%s>' % (self.fn.name, self.name)

class Func:
    def __init__(self, name, mod):
        self.name = name; self.mod = mod; self.params = []; self.ptypes = []
        self.blocks = []; self.bmap = {}; self.decl = False; self.vararg = False
        self.retty = None; self.dbg = None; self.internal = False; self.defs = {}
    @property
    def src_name(self):
        # static functions merged by llvm-link may be renamed foo.123
        n = self.mod.md_subprogram_name(self.dbg)
        return n or self.name
    @property
    def file(self):
        return self.mod.subprogram_file(self.dbg)
    @property
    def entry(self): return self.blocks[0]
    def insts(self):
        for b in self.blocks:
            for i in b.insts: yield i
    def calls(self, *names):
        for i in self.insts():
            if i.op == 'call' and (not names or i.x in names): yield i
    def __repr__(self): return '<fn %s>' % self.name

class Global:
    def __init__(self, name): self.name = name; self.init = None; self.const = False; self.ty = None; self.internal = False; self.dbg = None

# --------------------------------------------------------------------------
_tok = re.compile(r'"(?:[^"\\]|\\.)*"|[()\[\]{}<>,]|[^\s()\[\]{}<>,"]+(?:"(?:[^"\\]|\\.)*")?')

def split_top(s):
    """split a string at top-level commas"""
    out = []; depth = 0; cur = []; i = 0; n = len(s); q = False
    st = 0
    while i < n:
        c = s[i]
        if q:
            if c == '"': q = False
        elif c == '"': q = True
        elif c in '([{<': depth += 1
        elif c in ')]}>': depth -= 1
        elif c == ',' and depth == 0:
            out.append(s[st:i].strip()); st = i + 1
        i += 1
    t = s[st:].strip()
    if t: out.append(t)
    return out

ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture',
         'readonly', 'writeonly', 'readnone', 'returned', 'immarg', 'noreturn', 'nofree', 'nest', 'swiftself'}

def parse_type(s):
    """consume a type at the head of s -> (type string, rest)"""
    s = s.lstrip()
    if s[0] in '[{<':
        d = 0
        for i, c in enumerate(s):
            if c in '[{<(': d += 1
            elif c in ']}>)':
                d -= 1
                if d == 0: break
        ty = s[:i + 1]; rest = s[i + 1:]
    else:
        m = re.match(r'%"(?:[^"\\]|\\.)*"|[%\w.\-$]+', s)
        ty = m.group(0); rest = s[m.end():]
    # function type suffix:  "i32 (ptr, ...)"
    while True:
        r = rest.lstrip()
        if r.startswith('addrspace('):
            rest = r[r.index(')') + 1:]; continue
        if r.startswith('('):
            d = 0
            for i, c in enumerate(r):
                if c == '(': d += 1
                elif c == ')':
                    d -= 1
                    if d == 0: break
            ty += r[:i + 1]; rest = r[i + 1:]; continue
        break
    return ty, rest

def skip_attrs(s):
    s = s.lstrip()
    while True:
        m = re.match(r'(align \d+|dereferenceable(?:_or_null)?\(\d+\)|(?:byval|sret|elementtype|captures|range|nofpclass|memory|allocsize|preallocated|inalloca|byref)\([^)]*\)|[a-z]+)\b(?![(.])\s*', s)
        if not m: return s
        w = m.group(1)
        if w.split(' ')[0] in ('align',) or '(' in w or w in ATTRS:
            s = s[m.end():]
        else:
            return s

def parse_val(s):
    """parse an operand value (no type)"""
    s = s.strip()
    if not s: return ('undef',)
    c = s[0]
    if c == '%': return ('%', s[1:].strip('"'))
    if c == '@': return ('@', s[1:].strip('"'))
    if c.isdigit() or c == '-':
        if re.match(r'^-?\d+$', s): return ('i', int(s))
        return ('f', s)
    if s == 'null' or s == 'false' or s == 'zeroinitializer': return ('i', 0)
    if s == 'true': return ('i', 1)
    if s in ('undef', 'poison'): return ('undef',)
    if s == 'none': return ('undef',)
    if c == 'c' and s[1:2] == '"': return ('str', unescape(s[2:-1]))
    m = re.match(r'(getelementptr)(?: inbounds)?(?: \w+)? \((.*)\)$', s, re.S)
    if m:
        parts = split_top(m.group(2))
        return ('gepc', parts[0], [parse_tv(p) for p in parts[1:]])
    m = re.match(r'(ptrtoint|inttoptr|bitcast|trunc|zext|sext|addrspacecast) \((.*) to (.*)\)$', s)
    if m:
        return parse_tv(m.group(2))[1]
    m = re.match(r'(add|sub|mul|shl|and|or|xor)(?: nuw| nsw)* \((.*)\)$', s)
    if m:
        return ('cexpr', m.group(1), [parse_tv(p)[1] for p in split_top(m.group(2))])
    if c in '[{':
        inner = s[1:-1]
        return ('agg', [parse_tv(p)[1] for p in split_top(inner)])
    if c == '<' and s[1] == '{':
        return ('agg', [parse_tv(p)[1] for p in split_top(s[2:-2])])
    return ('raw', s)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i]) & 255); i += 1
    return bytes(out)

def parse_tv(s):
    """'ty attrs value' -> (ty, val)"""
    s = s.strip()
    if s.startswith('metadata'):
        return ('metadata', ('raw', s[8:].strip()))
    ty, rest = parse_type(s)
    rest = skip_attrs(rest)
    return ty, parse_val(rest)

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'sitofp', 'uitofp', 'fptoui', 'fpext', 'fptrunc'}

class Module:
    def __init__(self, text):
        self.funcs = {}; self.globals = {}; self.types = {}; self.mdtext = {}
        self._fb = {}; self._mdcache = {}; self._loccache = {}; self._layout = {}; self._members = None
        self._enums = None
        self.parse(text)

    # ---------------------------------------------------------------- parse
    def parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines); nid = 0
        while i < n:
            l = lines[i]
            if not l or l[0] == ';': i += 1; continue
            if l[0] == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: self.mdtext[int(m.group(1))] = m.group(2)
                i += 1; continue
            if l[0] == '%':
                m = re.match(r'%("?)([^"=]+)\1 = type (.*)$', l)
                if m: self.types['%' + m.group(2).strip()] = m.group(3)
                i += 1; continue
            if l[0] == '@':
                self.parse_global(l); i += 1; continue
            if l.startswith('declare'):
                self.parse_header(l, True); i += 1; continue
            if l.startswith('define'):
                f = self.parse_header(l, False); i += 1
                cur = None
                while not lines[i].startswith('}'):
                    s = lines[i]; i += 1
                    if not s.strip() or s.lstrip().startswith(';'): continue
                    if s[0] not in ' \t':
                        m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$\-]+):', s)
                        cur = Block(m.group(1).strip('"'), f); cur.idx = len(f.blocks)
                        f.blocks.append(cur); f.bmap[cur.name] = cur
                        continue
                    if cur is None:
                        cur = Block('entry', f); cur.idx = 0; f.blocks.append(cur); f.bmap['entry'] = cur
                    if s.lstrip().startswith('switch') and s.rstrip().endswith('['):
                        while True:
                            s += ' ' + lines[i].strip(); i += 1
                            if lines[i - 1].strip().startswith(']'): break
                    ins = self.parse_inst(s.strip())
                    if ins is None: continue
                    ins.fn = f; ins.bb = cur; ins.id = nid; nid += 1
                    cur.insts.append(ins)
                    if ins.res is not None: f.defs[ins.res] = ins
                self.link_blocks(f)
                i += 1; continue
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("?)([^"=]+?)\1 = (.*)$', l)
        if not m: return
        g = Global(m.group(2)); rest = m.group(3)
        g.internal = bool(re.match(r'(private|internal)', rest))
        mm = re.search(r'\b(global|constant) ', rest)
        if not mm: return
        g.const = mm.group(1) == 'constant'
        body = rest[mm.end():]
        ty, rem = parse_type(body)
        g.ty = ty
        dm = re.search(r'!dbg !(\d+)', rem)
        g.dbg = int(dm.group(1)) if dm else None
        if not re.search(r'\bexternal\b', rest[:mm.start()]):
            parts = split_top(rem)
            g.init = parse_val(parts[0]) if parts else None
        self.globals[g.name] = g

    def parse_header(self, l, decl):
        m = re.search(r'@("?)([\w.$\-]+)\1\s*\(', l)
        name = m.group(2)
        if decl and name in self.funcs: return self.funcs[name]
        f = Func(name, self); f.decl = decl
        f.internal = ' internal ' in l[:m.start()]
        # params
        d = 0; st = m.end() - 1
        for k in range(st, len(l)):
            if l[k] == '(': d += 1
            elif l[k] == ')':
                d -= 1
                if d == 0: break
        ps = split_top(l[st + 1:k])
        for p in ps:
            if p == '...': f.vararg = True; continue
            ty, rest = parse_type(p); rest = skip_attrs(rest)
            f.ptypes.append(ty); f.params.append(rest.strip()[1:].strip('"') if rest.strip().startswith('%') else None)
        head = l[:m.start()].split()
        f.retty = head[-1] if head else None
        dm = re.search(r'!dbg !(\d+)', l[k:])
        f.dbg = int(dm.group(1)) if dm else None
        f.attrs = l[k:]
        self.funcs[name] = f
        return f

    def link_blocks(self, f):
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'br': b.succs = [f.bmap[x] for x in t.x]
            elif t.op == 'switch': b.succs = [f.bmap[t.x[0]]] + [f.bmap[x] for _, x in t.x[1]]
            seen = set()
            for s in b.succs:
                if id(s) not in seen:
                    seen.add(id(s)); s.preds.append(b)

    def parse_inst(self, s):
        dbg = None
        k = s.rfind(', !dbg !')
        if k >= 0:
            m = re.match(r', !dbg !(\d+)', s[k:])
            dbg = int(m.group(1)); s = s[:k] + s[k + m.end():]
        s = re.sub(r', !(?:srcloc|tbaa|range|prof|llvm\.loop|heapallocsite|nosanitize)(?:\.\w+)? !\d+', '', s)
        res = None
        m = re.match(r'%("?)([^"=]+?)\1 = ', s)
        if m:
            res = m.group(2); s = s[m.end():]
        w = s.split(None, 1); op = w[0]; rest = w[1] if len(w) > 1 else ''
        if op in ('tail', 'musttail', 'notail'):
            op = 'call'; rest = rest.split(None, 1)[1]
        if op == 'call' and ('@llvm.dbg.' in rest or '@llvm.lifetime' in rest): return None
        ins = Inst(op); ins.res = res; ins.dbg = dbg
        if op == 'alloca':
            parts = split_top(rest); ins.ty = parts[0]
            ins.x = parse_tv(parts[1])[1] if len(parts) > 1 and not parts[1].startswith('align') else ('i', 1)
        elif op == 'load':
            rest = re.sub(r'^(volatile|atomic) ', lambda m: setattr(ins, 'x', 'volatile') or '', rest)
            parts = split_top(rest); ins.ty = parts[0]; ins.ops = [parse_tv(parts[1])[1]]
        elif op == 'store':
            rest = re.sub(r'^(volatile|atomic) ', lambda m: setattr(ins, 'x', 'volatile') or '', rest)
            parts = split_top(rest)
            ins.ty, v = parse_tv(parts[0]); ins.ops = [v, parse_tv(parts[1])[1]]
        elif op == 'getelementptr':
            rest = re.sub(r'^(inbounds |nuw |nusw )+', '', rest)
            parts = split_top(rest); ins.ty = parts[0]
            ins.ops = [parse_tv(p)[1] for p in parts[1:]]
        elif op == 'call':
            self.parse_call(ins, rest)
        elif op == 'ret':
            if rest.strip() != 'void': ins.ops = [parse_tv(rest)[1]]
        elif op == 'br':
            if rest.startswith('label'):
                ins.x = [rest.split('%', 1)[1].strip().strip('"')]
            else:
                parts = split_top(rest); ins.ops = [parse_tv(parts[0])[1]]
                ins.x = [p.split('%', 1)[1].strip().strip('"') for p in parts[1:3]]
        elif op == 'switch':
            m = re.match(r'(.*?), label %("?)([\w.$\-]+)\2 \[(.*)\]', rest, re.S)
            ins.ops = [parse_tv(m.group(1))[1]]
            cases = re.findall(r'i\d+ (-?\d+), label %"?([\w.$\-]+)"?', m.group(4))
            ins.x = (m.group(3), [(int(a), b) for a, b in cases])
        elif op in ('icmp', 'fcmp'):
            pred, r2 = rest.split(None, 1); parts = split_top(r2)
            ins.ty, a = parse_tv(parts[0]); ins.x = pred
            ins.ops = [a, parse_val(parts[1])]
        elif op == 'phi':
            ty, r2 = parse_type(rest); ins.ty = ty
            ins.x = []
            for p in split_top(r2):
                p = p.strip()[1:-1]; a, b = split_top(p)
                ins.x.append((parse_val(a), b.strip()[1:].strip('"')))
        elif op == 'select':
            parts = split_top(rest); ins.ops = [parse_tv(p)[1] for p in parts]; ins.ty = parse_tv(parts[1])[0]
        elif op in CAST:
            a, b = rest.rsplit(' to ', 1); t, v = parse_tv(a); ins.ops = [v]; ins.ty = b.strip(); ins.x = t
        elif op in BIN:
            rest = re.sub(r'^(nuw |nsw |exact |fast |disjoint )+', '', rest)
            parts = split_top(rest); ins.ty, a = parse_tv(parts[0]); ins.ops = [a, parse_val(parts[1])]
        elif op in ('extractvalue', 'insertvalue', 'va_arg', 'freeze', 'fneg'):
            parts = split_top(rest)
            if op == 'va_arg': ins.ops = [parse_tv(parts[0])[1]]; ins.ty = parts[1]
            else: ins.ops = [parse_tv(parts[0])[1]]
        elif op == 'unreachable':
            pass
        else:
            ins.x = rest
        return ins

    def parse_call(self, ins, rest):
        rest = re.sub(r'^(fastcc |ccc )', '', rest)
        rest = skip_attrs(rest)
        ty, r2 = parse_type(rest)
        r2 = r2.strip()
        m = re.match(r'(@|%)("?)([\w.$\-]+)\2\s*\(', r2)
        if not m:
            raise ValueError('call? ' + rest)
        # return type w/ signature
        ins.ty = ty.split('(')[0].strip() if '(' in ty and ty[0] not in '{[' else ty
        ins.x = m.group(3) if m.group(1) == '@' else None
        d = 0; st = m.end() - 1
        for k in range(st, len(r2)):
            if r2[k] == '(': d += 1
            elif r2[k] == ')':
                d -= 1
                if d == 0: break
        args = split_top(r2[st + 1:k])
        tv = [parse_tv(a) for a in args]
        ins.ops = [v for _, v in tv]; ins.aty = [t for t, _ in tv]
        if ins.x is None: ins.ops.append(('%', m.group(3)))   # indirect: callee last
        # attribute groups are ignored

    # ---------------------------------------------------------------- layout
    def sizeof(self, ty): return self.layout(ty)[0]

    def layout(self, ty):
        """-> (size, align, kind, detail)"""
        ty = ty.strip()
        r = self._layout.get(ty)
        if r: return r
        if ty == 'ptr': r = (8, 8, 'p', None)
        elif re.match(r'^i\d+$', ty):
            b = int(ty[1:]); s = 1
            while s * 8 < b: s *= 2
            r = (s, s, 'i', b)
        elif ty == 'double': r = (8, 8, 'f', None)
        elif ty == 'float': r = (4, 4, 'f', None)
        elif ty == 'x86_fp80': r = (16, 16, 'f', None)
        elif ty[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', ty)
            es, ea, _, _ = self.layout(m.group(2)); cnt = int(m.group(1))
            r = (es * cnt, ea, 'a', (cnt, m.group(2)))
        elif ty[0] == '%':
            body = self.types[ty]
            if body == 'opaque': r = (0, 1, 's', [])
            else: r = self.layout(body)
        elif ty[0] == '{' or ty[0] == '<':
            packed = ty[0] == '<'
            inner = ty[2:-2] if packed else ty[1:-1]
            off = 0; al = 1; offs = []
            for e in split_top(inner):
                s, a, _, _ = self.layout(e)
                if packed: a = 1
                off = (off + a - 1) // a * a
                offs.append((off, e)); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, 's', offs)
        else:
            r = (8, 8, '?', None)
        self._layout[ty] = r
        return r

    # ---------------------------------------------------------------- metadata
    def md(self, n):
        if n is None: return {}
        r = self._mdcache.get(n)
        if r is not None: return r
        t = self.mdtext.get(n, '')
        r = {}
        m = re.match(r'(?:distinct )?!?(\w+)\((.*)\)$', t)
        if m:
            r['_k'] = m.group(1)
            for p in split_top(m.group(2)):
                if ': ' in p:
                    k, v = p.split(': ', 1)
                    r[k] = v.strip('"') if v.startswith('"') else v
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}$', t)
            if m:
                r['_k'] = 'tuple'; r['elems'] = [int(x.strip()[1:]) if re.match(r'^!\d+$', x.strip()) else None for x in split_top(m.group(1))]
        self._mdcache[n] = r
        return r
    def ref(self, v):
        if v is None or not re.match(r'^!\d+$', v): return None
        return int(v[1:])
    def md_subprogram_name(self, n):
        return self.md(n).get('name') if n is not None else None
    def subprogram_file(self, n):
        d = self.md(n); f = self.md(self.ref(d.get('file')))
        return f.get('filename', '?').split('/')[-1]
    def loc(self, n, fn):
        if n is None: return (fn.file, 0)
        r = self._loccache.get(n)
        if r: return r
        d = self.md(n); line = int(d.get('line', 0)); sc = self.ref(d.get('scope'))
        f = '?'
        while sc is not None:
            sd = self.md(sc)
            if sd.get('file'):
                f = self.md(self.ref(sd['file'])).get('filename', '?').split('/')[-1]; break
            sc = self.ref(sd.get('scope'))
        r = (f, line); self._loccache[n] = r
        return r

    def _strip(self, n):
        """strip typedef/const/volatile -> composite/base md id"""
        while n is not None:
            d = self.md(n)
            if d.get('_k') == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                n = self.ref(d.get('baseType')); continue
            return n
        return None

    def members(self, sname):
        """struct name (without %struct.) -> list of (byteoff, bitoff or None, bits, name, basetype md)"""
        if self._members is None:
            self._members = {}
            for n, t in self.mdtext.items():
                if 'DICompositeType' in t[:30] and 'DW_TAG_structure_type' in t:
                    d = self.md(n)
                    nm = d.get('name')
                    if nm is None: continue
                    el = self.ref(d.get('elements'))
                    if el is None: continue
                    out = []
                    for e in self.md(el).get('elems', []):
                        ed = self.md(e)
                        if ed.get('tag') != 'DW_TAG_member': continue
                        off = int(ed.get('offset', 0)); sz = int(ed.get('size', 0) or 0)
                        bf = 'DIFlagBitField' in ed.get('flags', '')
                        out.append((off // 8, off if bf else None, sz, ed.get('name', ''), self.ref(ed.get('baseType'))))
                    self._members.setdefault(nm, out)
            for n, t in self.mdtext.items():     # anonymous structs via typedef
                if t.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                    d = self.md(n); b = self.ref(d.get('baseType')); bd = self.md(b)
                    if bd.get('tag') == 'DW_TAG_structure_type' and not bd.get('name') and d.get('name') not in self._members:
                        el = self.ref(bd.get('elements')); out = []
                        for e in self.md(el).get('elems', []) if el is not None else []:
                            ed = self.md(e)
                            off = int(ed.get('offset', 0)); sz = int(ed.get('size', 0) or 0)
                            bf = 'DIFlagBitField' in ed.get('flags', '')
                            out.append((off // 8, off if bf else None, sz, ed.get('name', ''), self.ref(ed.get('baseType'))))
                        self._members[d.get('name')] = out
        return self._members.get(sname)

    def field_name(self, sty, idx):
        """('%struct.foo', llvm idx) -> 'foo.member' (or 'foo.#idx'; bitfield storage -> 'foo.#bf<byteoff>')"""
        if sty.startswith('%union.'): return None
        key = (sty, idx)
        c = self._layout.get(key)
        if c: return c
        nm = sty[len('%struct.'):] if sty.startswith('%struct.') else sty
        nm = re.sub(r'\.\d+$', '', nm)
        r = '%s.#%d' % (nm, idx)
        lay = self.layout(sty)
        if lay[2] == 's' and idx < len(lay[3]):
            off = lay[3][idx][0]
            ms = self.members(nm)
            if ms:
                for bo, bit, sz, mn, bt in ms:
                    if bit is None and bo == off: r = '%s.%s' % (nm, mn); break
                else:
                    for bo, bit, sz, mn, bt in ms:
                        if bit is not None:
                            r = '%s.#bf%d' % (nm, off)
        self._layout[key] = r
        return r

    def first_bits(self, a):
        """the address of a struct member accessed as an integer: its leading bitfield storage, if the member is itself such a struct"""
        l = a[2][-1]
        if l not in self._fb:
            r = None; sn, _, mn = l.partition('.')
            for bo, bit, sz, n, bt in self.members(sn) or []:
                if n == mn and bit is None and bt is not None:
                    b = bt; k = 0; nm = []
                    while b is not None and k < 6:
                        d = self.md(b); k += 1
                        if d.get('name'): nm.append(d['name'])
                        if d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'): b = self.ref(d.get('baseType'))
                        else: break
                    if b is not None and self.md(b).get('tag') == 'DW_TAG_structure_type':
                        for x in reversed(nm):
                            ms = self.members(x)
                            if ms:
                                if ms[0][1] == 0: r = x + '.#bf0'
                                break
            self._fb[l] = r
        r = self._fb[l]
        return a if r is None else ('a', a[1], a[2] + (r,))

    def bitfield_name(self, stor, bitoff):
        """'foo.#bf12' + bit offset within storage -> 'foo.member'"""
        m = re.match(r'(.*)\.#bf(\d+)$', stor)
        if not m: return '%s:%d' % (stor, bitoff)
        off = int(m.group(2)) * 8 + bitoff
        for bo, bit, sz, mn, bt in self.members(m.group(1)) or []:
            if bit == off: return '%s.%s' % (m.group(1), mn)
        return '%s:%d' % (stor, bitoff)

    @property
    def enums(self):
        """enumerator name -> value"""
        if self._enums is None:
            self._enums = {}
            for n, t in self.mdtext.items():
                if t.startswith('!DIEnumerator'):
                    d = self.md(n)
                    self._enums[d['name']] = int(d['value'])
        return self._enums

    def enum_type(self, tag=None, has=None):
        """enumerators (ordered) of the enum type containing enumerator `has` or named `tag`"""
        for n, t in self.mdtext.items():
            if 'DW_TAG_enumeration_type' in t:
                d = self.md(n); el = self.ref(d.get('elements'))
                es = [(self.md(e)['name'], int(self.md(e)['value'])) for e in self.md(el).get('elems', [])] if el is not None else []
                if (tag and d.get('name') == tag) or (has and any(x[0] == has for x in es)): return es
        return None

    def cstr(self, v):
        """constant string behind an operand, or None"""
        if v and v[0] == '@':
            g = self.globals.get(v[1])
            if g and g.const and g.init and g.init[0] == 'str': return g.init[1].split(b'\0')[0].decode('latin1')
            if g and g.const and g.init == ('i', 0) and g.ty.startswith('['): return ''
        if v and v[0] == 'gepc':
            b = self.cstr(v[2][0][1])
            if b is not None:
                idx = [x[1] for x in v[2][1:]]
                if idx and all(i[0] == 'i' for i in idx):
                    return b[idx[-1][1]:]
        return None
