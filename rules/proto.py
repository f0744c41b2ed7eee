"""T: keywords and the protocol between client and daemon"""
import re
from absint import *
from core import Broken
from registry import prop
from mem import CONV
import build

CMDS = {'CONNECT': 'CONMAN_CMD_CONNECT', 'MONITOR': 'CONMAN_CMD_MONITOR', 'QUERY': 'CONMAN_CMD_QUERY'}
OPTS = {'BROADCAST': 'enableBroadcast', 'FORCE': 'enableForce', 'JOIN': 'enableJoin', 'QUIET': 'enableQuiet', 'REGEX': 'enableRegex', 'RESET': 'enableReset'}
FLAG = {'request.' + v: k for k, v in OPTS.items()}
STRF = {'request.user': 'USER', 'request.tty': 'TTY', 'client_conf.errmsg': 'MESSAGE'}
CMDF, CONS, ERRN = 'request.command', 'request.consoles', 'client_conf.errnum'
# what a message that begins with a keyword may contain
TAKES = {'HELLO': {'USER', 'TTY'}, 'CONNECT': {'CONSOLE', 'BROADCAST', 'FORCE', 'JOIN', 'QUIET', 'REGEX'}, 'MONITOR': {'CONSOLE', 'QUIET', 'REGEX'}, 'QUERY': {'CONSOLE', 'QUIET', 'REGEX'},
         'OK': {'CONSOLE', 'RESET'}, 'ERROR': {'CODE', 'MESSAGE'}}
HEADS = {'conmand': {'HELLO', 'CONNECT', 'MONITOR', 'QUERY'}, 'conman': {'OK', 'ERROR'}}
STRS = {'USER', 'TTY', 'CONSOLE', 'MESSAGE'}

def tables(p):
    """keyword tables given to the lexer: {global: [call]}"""
    out = {}
    for f in p.funcs():
        for i in f.calls('lex_create'):
            o = i.ops[1]
            gs = {o[1]} if o[0] == '@' else {s for s in p.fp.sources(f, o) if isinstance(s, str)}
            for n in gs:
                if n in p.mod.globals: out.setdefault(n, []).append(i)
    return out

def entries(p, g):
    """strings of a table, None for NULL; None if it is not a constant table"""
    v = p.mod.globals[g].init
    if not v or v[0] != 'agg': return None
    return [None if x == ('i', 0) or x[0] == 'null' else p.mod.cstr(x) or '?' for x in v[1]]

def enum_lists(p):
    out = []; m = p.mod
    for n, t in m.mdtext.items():
        if 'DW_TAG_enumeration_type' not in t: continue
        el = m.ref(m.md(n).get('elements'))
        if el is not None: out.append([(m.md(e)['name'], int(m.md(e)['value'])) for e in m.md(el).get('elems', [])])
    return out

def keyword_table(p):
    ts = [(g, entries(p, g)) for g in tables(p)]
    ts = [(g, e) for g, e in ts if e and 'HELLO' in e]
    if len(ts) != 1: raise Broken('the table of protocol keywords was not found')
    return ts[0]

@prop('T01', title='Every keyword is recognised as itself', level='other',
  statement='Each table of keywords the lexer is given, for the configuration file and for the protocol, is in strictly ascending order regardless of case and ends with a null entry, so that the binary search finds every keyword; and the position of each keyword is that of the enumerator of its name, in both programs.',
  quantifier=dict(over=['inputs'], text='every keyword of every table given to the lexer in either program'),
  why='An entry out of order or out of step makes a directive or request silently unknown or taken for its neighbour; the order is only asserted in debug builds and the correspondence nowhere, and tests use few of the keywords.',
  anchors=dict(files=['src/common.c', 'src/common.h', 'src/server-conf.c', 'src/lex.c'], mechanism=[dict(name='proto_strs', where='src/common.c'), dict(name='server_conf_strs', where='src/server-conf.c'), dict(name='lookup_token', where='src/lex.c')]),
  technique='check of the constant keyword tables and enumerations taken from the LLVM IR and its type information')
def T01(r, tier):
    r.rule('entries of each table given to lex_create() are constants in strictly ascending case-insensitive order, followed by one null entry')
    r.rule('entry k has the value of the enumerator whose name ends in the keyword: LEX_TOK_OFFSET + k')
    n = 0
    for prog in ('conmand', 'conman'):
        p = build.load(prog); off = p.mod.enums.get('LEX_TOK_OFFSET')
        if off is None: raise Broken('LEX_TOK_OFFSET is not known')
        enums = enum_lists(p)
        for g, calls in sorted(tables(p).items()):
            i = calls[0]; es = entries(p, g)
            if es is None: raise Broken('the table %s is not constant' % g)
            stores = [s for f in p.funcs() for s in f.insts() if s.op == 'store' and str(('@', g)) in str(s.ops[1])]
            for s in stores: r.bad('changed', s, 'the keyword table %s is changed at run time' % g)
            if not es or es[-1] is not None or None in es[:-1]:
                r.bad('end', i, '%s: the keyword table %s does not end with its only null entry' % (prog, g)); continue
            ks = es[:-1]; low = [k.lower() for k in ks]
            def of(e): return {v: nm for nm, v in e}
            def hits(e): return sum(1 for nm, v in e if any(nm.upper().endswith('_' + k.upper()) for k in ks))
            e = max(enums, key=hits); vals = of(e)
            if hits(e) * 2 < len(ks): raise Broken('no enumeration was found for the keyword table %s' % g)
            for k, w in enumerate(ks):
                n += 1; bad = 0
                if k and not low[k - 1] < low[k]: r.bad('order', i, '%s: "%s" does not come after "%s" in %s' % (prog, w, ks[k - 1], g), key='%s:%s' % (g, w)); bad = 1
                nm = vals.get(off + k)
                if nm is None or not nm.upper().endswith('_' + w.upper()): r.bad('enumerator', i, '%s: keyword "%s" at position %d of %s has the value of %s' % (prog, w, k, g, nm), key='%s:%s' % (g, w)); bad = 1
                if not bad: r.ok('%s: %s "%s" = %s' % (prog, g, w, nm))
            top = max((v for nm, v in e if v >= off), default=off)
            if top - off + 1 > len(ks): r.bad('missing', i, '%s: %s has no keyword in %s' % (prog, of(e)[top], g))
    r.need(n, 'keywords', 40)

# ------------------------------------------------------------ receiving
def lexers(p, tab):
    """functions that read a protocol message: they make the lexer, or get it from one that does"""
    out = set(); made = {i.fn.name for i in tables(p).get(tab, [])}
    def returns(n):
        f = p.mod.funcs[n]
        return any(i.op == 'ret' and i.ops and i.ops[0][0] == '%' and any(c.res == i.ops[0][1] and (c.x == 'lex_create' or c.x in made) for c in f.insts() if c.op == 'call') for i in f.insts())
    work = list(made)
    while work:
        n = work.pop()
        if returns(n):
            for c in p.cg.callers.get(n, ()):
                if c not in made: made.add(c); work.append(c)
        else: out.add(n)
    return sorted(out)

COPY = {'create_string', 'strdup', 'xstrdup', 'strndup'}
CPY = {'strlcpy', 'strcpy', 'strncpy', 'memcpy', 'llvm.memcpy.p0.p0.i64'}

class Parse(Rule):
    """prop = (tokens: the last three values, head: keyword the message began with, item given complete or None,
       texts {(address or value, keyword, decoded)}, delivered keywords of the item, all delivered, captured keywords)"""
    exit_k = 8
    def __init__(self, p, prog, tab):
        self.p = p; self.prog = prog; self.viol = {}; self.n = {}
        e = p.mod.enums; off = e['LEX_TOK_OFFSET']
        self.kw = {w: off + k for k, w in enumerate(tab) if w}; self.name = {v: k for k, v in self.kw.items()}
        self.STR, self.INT = e['LEX_STR'], e['LEX_INT']; self.EOL, self.EOF = e['LEX_EOL'], e['LEX_EOF']
        self.cmd = {e[v]: k for k, v in CMDS.items() if v in e}
        self.care = sorted(set(self.kw.values()) | {self.STR, self.INT, self.EOL, self.EOF, ord('=')})
        self.touch = p.cg.reaching({'lex_next', 'lex_text', 'lex_prev', 'lex_decode', 'list_append', 'lex_create'})
        own = set(FLAG) | set(STRF) | {CMDF, ERRN}
        for f in p.funcs():
            if any(i.op == 'store' and any(x in own for x in (p.cg._target(f, i.ops[1]) or ())) for i in f.insts()): self.touch = self.touch | {f.name}
        self.touch = {n for n in self.touch if not n.startswith(('lex_', 'list_', 'log_', 'send_', 'create_', 'destroy_'))}
        self.heads = set(); self.delivered = set(); self.acts = set(); self.rets = {}
    def initial(self): return ((), None, None, frozenset(), frozenset(), frozenset(), None, 'start', None)
    def get(self, st): return st.prop
    def put(self, st, **k):
        names = ('toks', 'head', 'text', 'texts', 'now', 'cap', 'cmd', 'wf', 'said')
        st.prop = tuple(k.get(n, o) for n, o in zip(names, st.prop))
    def may(self, st, v):
        lo, hi, ex = st.fact(v)
        return frozenset(c for c in self.care if lo <= c <= hi and c not in ex)
    def key(self, st):
        toks, head, text, texts, now, cap, cmd, wf, said = st.prop
        if wf is None: cap = cmd = None
        return (toks, tuple(self.may(st, t) if len(self.may(st, t)) < 3 else (0, frozenset(self.care) - self.may(st, t)) for t in toks), head, text is None, texts, now, cap, cmd, wf, said)
    def inline(self, t, st, i, a): return t.name in self.touch
    def bad(self, kind, i, msg, st, head=None): self.viol.setdefault((kind, i.id, msg), (kind, i, msg, st.lines(14), head))
    def done(self, st, k, head=None):
        
        if st.prop[7] is not None: self.delivered.add(k); self.acts.add(head or st.prop[1])
    def violations(self):
        """without those about messages that this function is not there to act upon"""
        return [v[:4] for v in self.viol.values() if v[4] is None or v[4] in self.acts] + [('taken', t, 'a reply may be taken for success although it does not say OK', path) for t, path in self.taken()]
    def seen(self, k, i, what=''): self.n.setdefault(k, {})[(i.id, what)] = i
    def item(self, st):
        """keywords the tokens read last may amount to a complete occurrence of: {keyword: certainly?}"""
        toks = st.prop[0]; out = {}
        if len(toks) < 3: return out
        a, b, c = (self.may(st, t) for t in toks[-3:])
        if ord('=') not in b: return out
        def sure(*xs): return b == {ord('=')} and all(len(m) == 1 for m in xs)
        if self.kw['OPTION'] in a:
            for o in OPTS:
                if self.kw[o] in c: out[o] = sure(a, c)
        for k in STRS:
            if self.kw[k] in a and self.STR in c: out[k] = sure(a, c)
        if self.kw['CODE'] in a and self.INT in c: out['CODE'] = sure(a, c)
        return out
    def named(self, st, what, n):
        """an unknown that goes by the same name wherever it is made"""
        v = ('s', 0, what, n)
        if v in st.made: self.A.rename(st, v)
        st.made.add(v)
        return v
    def held(self, st, v):
        if base_of(v)[0] in ('al', 'g'): return True
        return any(v in e.values() for e in (st.env, st.mem, *st.frames))
    def grammar(self, w, head):
        """tokens that may come next in a well-formed message, with what is then expected"""
        kw = self.kw; eq = ord('=')
        if w == 'start': return [(kw[h], 'items') for h in sorted(HEADS[self.prog])]
        if w == 'items':
            t = TAKES.get(head, set()); out = [(self.EOL, 'end')]
            out += [(kw[k], ('=', 'str')) for k in sorted(STRS & t)]
            if t & set(OPTS): out.append((kw['OPTION'], ('=', 'opt')))
            if 'CODE' in t: out.append((kw['CODE'], ('=', 'int')))
            return out
        if w == 'end': return [(self.EOF, 'end')]
        if w[0] == '=': return [(eq, ('v', w[1]))]
        if w[1] == 'str': return [(self.STR, 'items')]
        if w[1] == 'int': return [(self.INT, 'items')]
        return [(kw[o], 'items') for o in sorted(set(OPTS) & TAKES.get(head, set()))]
    def settle(self, st, i):
        """the next token is about to be read: what the message contained so far has been acted upon"""
        toks, head, text, texts, now, cap, cmd, wf, said = st.prop
        if head is None or wf is None: return
        for k, sure in self.item(st).items():
            if k not in TAKES[head] or k in now: continue
            if k in STRS and text is not None:
                c = st.mem.get(text)
                if c is not None and st.const(c) == 0: continue           # an empty string counts as none
            self.bad('ignored', i, '%s in a message beginning with %s may go unheeded' % (k + '=' if k not in OPTS else 'OPTION=' + k, head), st, head)
        # a head that follows is not one
    def on_load_fresh(self, st, i, a, v): return None
    def on_call(self, st, i, name, args):
        A = self.A
        if name == 'lex_create':
            self.put(st, toks=(), head=None, text=None, now=frozenset(), wf='start', said=frozenset())
            return [(st, A.fresh(st, i, 'lex'))]
        if name == 'lex_next':
            self.settle(st, i); self.hear(st); self.seen('token', i)
            for k in [k for k in st.mem if last_of(k) in FLAG or last_of(k) in STRF or last_of(k) == CMDF]: del st.mem[k]
            toks, head, text, texts, now, cap, cmd, wf, said = st.prop
            if toks:
                m = self.may(st, toks[-1])
                hs = {self.name[t] for t in m if t in self.name} & HEADS[self.prog]
                if head is None and len(m) == 1 and hs:
                    head = next(iter(hs)); self.heads.add(head)
                    if wf is not None: cap = cap | {'head:' + head}
                elif m and m <= {self.EOL, self.EOF}: head = None
            starts = {self.kw[k] for k in STRS | {'OPTION', 'CODE'}}
            keep = ()
            if toks and self.may(st, toks[-1]) & starts: keep = toks[-1:]
            if len(toks) > 1 and ord('=') in self.may(st, toks[-1]) and self.may(st, toks[-2]) & starts: keep = toks[-2:]
            live = frozenset(x for x in texts if self.held(st, x[0]))
            st.prop = (keep, head, None, live, frozenset(), cap, cmd, wf, said)
            out = []; nxt = ()
            if wf is not None:
                nxt = self.grammar(wf, head)
                for c, w in nxt:
                    s2 = st.copy(); self.put(s2, toks=keep + (('i', c),), wf=w); out.append((s2, ('i', c)))
                self.put(st, wf=None, cap=frozenset(), cmd=None)
            n = 0
            while ('s', 0, 'tok', n) in keep: n += 1
            v = self.named(st, 'tok', n); st.facts[v] = (-128, 400, frozenset(c for c, w in nxt))
            self.put(st, toks=st.prop[0] + (v,))
            return out + [(st, v)]
        if name == 'lex_prev':
            return [(st, st.prop[0][-1] if st.prop[0] else Z)]
        if name == 'lex_destroy':
            self.settle(st, i); self.finish(st, i); self.hear(st)
            self.put(st, toks=(), head=None, text=None, now=frozenset()); return [(st, None)]
        if name == 'lex_text':
            t = st.prop[2]
            if t is None:
                t = self.named(st, 'text', 0); st.facts[t] = (1, INF, frozenset()); self.put(st, text=t)
            return [(st, t)]
        src = None
        if name in COPY or name in CPY:
            dst = args[0] if name in CPY else None; s = args[1] if name in CPY else args[0]
            w = self.what(st, s); rv = None
            if dst is not None: A.kill_under(st, dst); rv = A.fresh(st, i, 'n')
            else:
                rv = A.fresh(st, i, 'new')
                if name != 'strdup' and name != 'strndup': st.facts[rv] = (1, INF, frozenset())
                dst = rv
            tx = frozenset(x for x in st.prop[3] if x[0] != dst)
            if w: tx = tx | {(dst,) + w}; self.put(st, texts=tx, cap=st.prop[5] | {w[0]}); self.heed(st, i, w[0])
            else: self.put(st, texts=tx)
            outs = [(st, rv)]
            if name in ('strdup', 'strndup'):
                s2 = st.copy(); st.facts[rv] = (1, INF, frozenset()); outs = [(st, rv), (s2, Z)]
            return outs
        if name == 'lex_decode':
            b = args[0]
            if b == Z: return [(st, Z)]
            self.put(st, texts=frozenset((x[0], x[1], True) if x[0] == b else x for x in st.prop[3]))
            self.seen('decode', i); st.mem.pop(b, None) if False else None
            return [(st, b)]
        if name == 'lex_encode': return [(st, args[0])]
        if name in ('atoi', 'strtol', 'strtoul'):
            w = self.what(st, args[0], 'INT')
            v = A.fresh(st, i, 'num')
            if w: self.put(st, texts=st.prop[3] | {(v, 'CODE', True)}, cap=st.prop[5] | {'CODE'}); self.heed(st, i, 'CODE')
            return [(st, v)]
        if name in ('list_append', 'list_push', 'list_prepend', 'list_enqueue') and len(args) > 1:
            if self.origin_cons(st, args[0]): self.deliver(st, i, 'CONSOLE', args[1])
            return [(st, args[1])]
        return None
    def origin_cons(self, st, l):
        return any(last_of(k) == CONS and v == l for k, v in st.mem.items())
    def what(self, st, a, kind='STR'):
        """(keyword, decoded) of the text at an address"""
        if a == st.prop[2] and a is not None:
            it = self.item(st)
            for k in it:
                if k in STRS and kind == 'STR' or k == 'CODE' and kind == 'INT':
                    if it[k]: return (k, False)
            return None
        for x in st.prop[3]:
            if x[0] == a: return (x[1], x[2])
        return None
    def heed(self, st, i, k): self.put(st, now=st.prop[4] | {k})
    def deliver(self, st, i, k, v):
        w = self.what(st, v)
        if w is None: return
        if w[0] != k: self.bad('mixed', i, 'the string given as %s= is taken for %s' % (w[0], k), st)
        elif not w[1]: self.bad('decode', i, 'the string received as %s= is used without being decoded' % k, st)
        else: self.seen('string', i, k)
        self.put(st, now=st.prop[4] | {k}, cap=st.prop[5] | {'done:' + k}, texts=frozenset(x for x in st.prop[3] if x[0] != v)); self.done(st, k)
    def on_store(self, st, i, a, v):
        l = last_of(a)
        if l in FLAG:
            k = FLAG[l]
            if st.const(v) == 0: return
            it = self.item(st)
            if st.prop[0]:
                if not it.get(k): self.bad('flag', i, '%s is set although the message does not certainly say OPTION=%s' % (l.split('.')[1], k), st)
                else: self.seen('option', i, k); self.done(st, k)
                self.put(st, now=st.prop[4] | {k})
        elif l == CMDF:
            c = st.const(v)
            if c == 0 or not st.prop[0]: return
            m = self.may(st, st.prop[0][-1]); h = st.prop[1]
            want = h if h in CMDS else self.name.get(next(iter(m))) if len(m) == 1 else None
            if c is None or self.cmd.get(c) is None or self.cmd[c] != want: self.bad('command', i, 'the command is set to %s although the message does not certainly begin with that keyword' % (self.cmd.get(c) or c), st)
            else: self.seen('command', i, want); self.done(st, want, want); self.put(st, cmd=want)
        elif l in STRF: self.deliver(st, i, STRF[l], v)
        elif l == ERRN:
            w = self.what(st, v)
            if w and w[0] == 'CODE': self.seen('code', i); self.done(st, 'CODE'); self.put(st, now=st.prop[4] | {'CODE'}, cap=st.prop[5] | {'done:CODE'})
        elif st.prop[3] and a[0] in ('al', 'a') and v[0] == 'i':
            pass
    def finish(self, st, i):
        """the message has been read"""
        cap, cmd = st.prop[5], st.prop[6]
        hs = [c[5:] for c in cap if c.startswith('head:') and c[5:] in CMDS]
        if hs and cmd is None and st.prop[7] is not None: self.bad('command', i, 'a message beginning with %s may leave the command unset' % hs[0], st, hs[0])
    def hear(self, st):
        """remember which of the words a message begins with it certainly has"""
        if not st.prop[0] or st.prop[8] is None: return
        m = self.may(st, st.prop[0][-1]); hs = {self.name[t] for t in m if t in self.name} & HEADS[self.prog]
        if len(m) == 1 and hs: self.put(st, said=st.prop[8] | hs)
    def taken(self):
        """returns that say a message was fine although it did not certainly begin with what it should"""
        good = HEADS[self.prog] & {'OK'} & self.acts
        ok = {c for (c, said, wf), _ in self.rets.items() if said & good and wf}
        return [d for (c, said, wf), d in self.rets.items() if c in ok and c is not None and not said & good] if ok else []
    def on_return(self, st, f, rv, t):
        if not self.A.stack and st.prop[8] is not None: self.rets.setdefault((None if rv is None else st.const(rv), st.prop[8], st.prop[7] is not None), (t, st.lines(14)))
        for x in st.prop[3]:
            if base_of(x[0])[0] == 'al':
                c = st.mem.get(x[0])
                if c is not None and st.const(c) == 0: self.put(st, cap=st.prop[5] | {'done:' + x[1]})     # an empty one counts as none
        if self.A.stack: return
        cap = st.prop[5]
        for k in ('USER', 'TTY', 'MESSAGE', 'CODE', 'CONSOLE'):
            if st.prop[7] is not None and k in cap and 'done:' + k not in cap:
                self.bad('lost', t, 'what was received as %s= may not be kept' % k, st)

# ------------------------------------------------------------ sending
WRITE = {'write', 'send', 'write_n'}
BOUNDED = {'snprintf': (2, 3), '__snprintf_chk': (4, 5)}

def appenders(p):
    """formatting functions of the program which add to the end of a string: name -> whether they do"""
    out = {}
    for f in p.funcs():
        if not f.vararg or len(f.params) != 3: continue
        seen = set()
        def src(o):
            if o == ('%', f.params[0]): return True
            if o[0] != '%' or o[1] not in f.defs or o[1] in seen: return False
            seen.add(o[1]); d = f.defs[o[1]]
            return any(src(v) for v in ([v for v, _ in d.x] if d.op == 'phi' else d.ops[:1] if d.op in ('getelementptr', 'bitcast') else []))
        if any(src(i.ops[0]) for i in f.calls('vsnprintf', '__vsnprintf_chk')): out[f.name] = True
    return out

def keyword_loads(p, tab):
    def base(o):
        while o[0] == 'gepc': o = o[2][0][1]
        return o
    out = {}
    for f in p.funcs():
        for i in f.insts():
            if i.op != 'load': continue
            o = i.ops[0]
            if o[0] == '%' and o[1] in f.defs and f.defs[o[1]].op == 'getelementptr': o = f.defs[o[1]].ops[0]
            if base(o) == ('@', tab): out.setdefault(f.name, []).append(i)
    return out

def senders(p, tab):
    """the functions that put together a message and send it"""
    ld = set(keyword_loads(p, tab))
    def full(n): return p.cg.reach(n) | {n}
    q = {f.name for f in p.funcs() if full(f.name) & ld and full(f.name) & (WRITE | {'write_n'}) - {f.name}}
    q = {n for n in q if not (p.cg.reach(n) - {n}) & q}
    return sorted(q)

class Send(Rule):
    """prop = (buffers {(address, head, items, tail, result, limit)}, texts {(value, origin, encoded)}, console in hand, state of the walk over the consoles)"""
    exit_k = 8
    def __init__(self, p, prog, tabname, tab):
        self.p = p; self.prog = prog; self.tn = tabname; self.tab = tab; self.viol = {}; self.n = {}; self.heads = set(); self.items = set()
        self.app = appenders(p); e = p.mod.enums
        self.cmd = {e[v]: k for k, v in CMDS.items() if v in e}
        ld = set(keyword_loads(p, tabname))
        self.touch = {n for n in (f.name for f in p.funcs()) if (p.cg.reach(n) | {n}) & (ld | set(self.app) | {'lex_encode'} | WRITE | {'snprintf', 'strlcpy'})}
        self.touch = {n for n in self.touch if not n.startswith(('log_', 'lex_', 'list_', 'recv_', 'read_', 'write_n', 'create_', 'x_pthread')) and n not in self.app}
    def initial(self): return (frozenset(), frozenset(), None, None)
    def put(self, st, **k):
        st.prop = tuple(k.get(n, o) for n, o in zip(('bufs', 'texts', 'cur', 'walk'), st.prop))
    def field(self, st, l):
        for k, v in st.mem.items():
            if last_of(k) == l: return v
        return None
    def tri(self, st, v):
        return None if v is None else 0 if st.const(v) == 0 else 1 if st.nonzero(v) else None
    def flag(self, st, l): return self.tri(st, self.field(st, l))
    def count(self, st):
        """True if the consoles are known to be none, False if some, None"""
        c = st.mem.get(('g', '$count'))
        if c is None: return None
        f = st.fact(c)
        return True if f[1] <= 0 else False if f[0] >= 1 else None
    def key(self, st):
        c = self.field(st, CMDF)
        bufs = frozenset((b[0], b[1], b[2], b[3], None if b[4] is None else st.fact(b[4])[:2]) for b in st.prop[0])
        return (bufs, st.prop[1], st.prop[2], st.prop[3], None if c is None else st.const(c), tuple(self.flag(st, l) for l in FLAG), self.flag(st, 'request.tty'), self.count(st),
                tuple(sorted((k, v) for k, v in st.env.items() if v[0] == 'g' and v[1].startswith('$kw'))))
    def inline(self, t, st, i, a): return t.name in self.touch
    def bad(self, kind, i, msg, st): self.viol.setdefault((kind, i.id, msg), (kind, i, msg, st.lines(14)))
    def seen(self, k, i, what=''): self.n.setdefault(k, {})[(i.id, what)] = i
    def on_load(self, st, i, a):
        if base_of(a) == ('g', self.tn):
            q = path_of(a); k = 0 if not q else int(q[0][1:-1]) if re.fullmatch(r'\[\d+\]', q[0]) else None
            if k is not None and k < len(self.tab) and self.tab[k]: st.mem[a] = ('g', '$kw:' + self.tab[k])
            return
        l = last_of(a)
        if l in STRF or st.prop[2] is not None and base_of(a) == st.prop[2] and l.endswith('.name'):
            v = self.A.load_at(st, i, a); st.mem[a] = v
            if not any(x[0] == v for x in st.prop[1]): self.put(st, texts=st.prop[1] | {(v, STRF.get(l, 'cur'), False)})
    def on_store(self, st, i, a, v):
        if any(b[0] == a or base_of(b[0]) == a for b in st.prop[0]) and v == Z: self.put(st, bufs=frozenset(b for b in st.prop[0] if base_of(b[0]) != base_of(a)))
    def text(self, st, v):
        for x in st.prop[1]:
            if x[0] == v: return x
        return None
    def word(self, st, v):
        """what a string argument contributes to the message"""
        if v[0] == 'g' and v[1].startswith('$kw:'): return v[1][4:]
        s = self.lit(v)
        if s is not None: return s
        if st.prop[2] == v: return '\x02' + ('e' if (self.text(st, v) or (0, 0, 0))[2] else 'r') + 'cur\x02'
        t = self.text(st, v)
        if t: return '\x02' + ('e' if t[2] else 'r') + (t[1] or '') + '\x02'
        return '\x02r\x02'
    def lit(self, v):
        if v[0] == 'g' or v[0] == 'a' and v[1][0] == 'g' and all(x == '[0]' for x in v[2]):
            return self.p.mod.cstr(('@', base_of(v)[1]))
        return None
    def render(self, st, fmt, args):
        out = ''; k = 0; n = 0
        while True:
            j = fmt.find('%', k)
            if j < 0: return out + fmt[k:]
            out += fmt[k:j]; m = CONV.match(fmt, j)
            if not m: raise Broken('format %r' % fmt)
            k = m.end()
            if m.group(0) == '%%': out += '%'; continue
            if n >= len(args): raise Broken('format %r' % fmt)
            v = args[n]; n += 1
            if m.group(5) == 's': out += self.word(st, v)
            elif m.group(5) == 'c' and st.const(v) is not None: out += chr(st.const(v) & 255)
            else: out += '\x03'
    def add(self, st, i, dst, s, fresh, ret, limit):
        b = [x for x in st.prop[0] if x[0] == dst]
        head, items, tail = (None, frozenset(), '') if fresh or not b else b[0][1:4]
        tail += s
        while True:
            m = re.match(r"( *)((?:'[^'\n]*'|[^ '\n])+)([ \n])", tail)
            if not m: break
            w = m.group(2); end = m.group(3)
            head, items = self.item(st, i, head, items, w)
            tail = (' ' if end == ' ' else '\n') + tail[m.end():]
        if len(tail) > 80: tail = tail[:80]
        self.put(st, bufs=frozenset(x for x in st.prop[0] if x[0] != dst) | {(dst, head, items, tail, ret, limit)})
    def item(self, st, i, head, items, w):
        if '=' not in w:
            if head is None:
                if w in TAKES: self.heads.add(w); self.seen('head', i, w)
                return (w, items)
            return (head, items | {'?' + w[:20]})
        k, v = w.split('=', 1)
        if k == 'OPTION':
            self.seen('option', i, v); self.items.add(v)
            return (head, items | {v})
        if k == 'CODE': return (head, items | {k if re.fullmatch('\x03|[0-9]+', v) else '?CODE'})
        m = re.fullmatch("'\x02([er])([A-Za-z]*)\x02'", v)
        if not m:
            if re.fullmatch(r"'[^'\"\x02\x03\x80-\xff]*'", v) and k in STRS: return (head, items | {k})       # a constant
            if '\x02' in v: self.bad('quote', i, 'the string of %s= is sent without being quoted' % k, st); return (head, items | {k})
            return (head, items | {'?' + w[:20]})
        if m.group(1) != 'e': self.bad('encode', i, 'the string of %s= is sent without being encoded' % k, st)
        else: self.seen('string', i, k)
        o = m.group(2)
        if o in STRS and o != k: self.bad('mixed', i, '%s is sent as %s=' % (o, k), st)
        if o == 'cur' and k == 'CONSOLE': self.put(st, cur=None)
        return (head, items | {k})
    def settle(self, st, i):
        for b in st.prop[0]:
            t = re.sub("CONSOLE='\x02([er])cur\x02'$", "CONSOLE='\x02\\1CONSOLE\x02'", b[3])
            if t != b[3]: self.put(st, cur=None, bufs=st.prop[0] - {b} | {b[:3] + (t,) + b[4:]})
        if st.prop[2] is not None: self.bad('console', i, 'a console of the request may be left out of the message', st); self.put(st, cur=None)
    def on_call(self, st, i, name, args):
        A = self.A
        if name == 'lex_encode':
            b = args[0]; t = self.text(st, b)
            self.put(st, texts=frozenset(x for x in st.prop[1] if x[0] != b) | {(b, t[1] if t else 'cur' if b == st.prop[2] else None, True)})
            return [(st, b)]
        if name == 'lex_decode':
            self.put(st, texts=frozenset(x for x in st.prop[1] if x[0] != args[0])); return [(st, args[0])]
        if name in self.app or name in BOUNDED:
            k, va = BOUNDED.get(name, (2, 3)); fmt = self.lit(args[k]); dst = args[0]
            s = self.render(st, fmt, args[va:]) if fmt is not None else '\x04'
            A.kill_under(st, dst); v = A.fresh(st, i, 'len')
            st.facts[v] = (-1, INF, frozenset())
            self.put(st, texts=frozenset(x for x in st.prop[1] if x[0] != dst))
            self.add(st, i, dst, s, name in BOUNDED, v, args[1] if name in BOUNDED else None)
            return [(st, v)]
        if name in ('strlcpy', 'strcpy', 'strlcat', 'strcat', 'memcpy'):
            dst, src = args[0], args[1]; w = self.word(st, src); t = self.text(st, src)
            A.kill_under(st, dst); v = A.fresh(st, i, 'len'); st.facts[v] = (0, INF, frozenset())
            tx = frozenset(x for x in st.prop[1] if x[0] != dst)
            if name in ('strlcpy', 'strcpy', 'memcpy'):
                o = t[1] if t else 'cur' if src == st.prop[2] else None
                tx = tx | {(dst, o, t[2] if t else False)}
            self.put(st, texts=tx)
            if '\x02' not in w or name in ('strlcat', 'strcat'): self.add(st, i, dst, w, name in ('strlcpy', 'strcpy', 'memcpy'), v, args[2] if name.startswith('strl') else None)
            return [(st, v if name.startswith('strl') else dst)]
        if name in ('create_string', 'strdup'):
            v = A.fresh(st, i, 'new'); st.facts[v] = (1, INF, frozenset()); t = self.text(st, args[0])
            if t or args[0] == st.prop[2]: self.put(st, texts=st.prop[1] | {(v, t[1] if t else 'cur', t[2] if t else False)})
            return [(st, v)]
        if name in ('list_count', 'list_is_empty'):
            if not self.cons(st, args[0]): return None
            c = st.mem.get(('g', '$count'))
            if c is None: c = st.mem[('g', '$count')] = ('s', 0, 'count', 0); st.facts[c] = (0, INF, frozenset())
            return [(st, c if name == 'list_count' else ('cmp', 'eq', c, Z))]
        if name == 'list_iterator_create':
            v = A.fresh(st, i, 'it'); st.facts[v] = (1, INF, frozenset())
            if self.cons(st, args[0]): self.settle(st, i); st.mem[('g', '$iter')] = v; self.put(st, walk='open')
            return [(st, v)]
        if name in ('list_next', 'list_pop', 'list_dequeue'):
            if not (name == 'list_next' and st.mem.get(('g', '$iter')) == args[0] or name != 'list_next' and self.cons(st, args[0])): return None
            self.settle(st, i); s2 = st.copy(); self.put(s2, walk='done')
            A.finish if False else None
            v = ('s', 0, 'console', 0)
            if v in st.made: A.rename(st, v)
            st.made.add(v); st.facts[v] = (1, INF, frozenset())
            self.put(st, cur=v, walk='open', texts=frozenset(x for x in st.prop[1] if x[0] != ('old', v) and x[1] != 'cur'))
            return [(st, v), (s2, Z)]
        if name in WRITE and len(args) >= 3:
            b = [x for x in st.prop[0] if x[0] == args[1]]
            if b and b[0][1] is not None: self.sent(st, i, *b[0])
            v = A.fresh(st, i, 'wr'); return [(st, v)]
        return None
    def cons(self, st, l): return any(last_of(k) == CONS and v == l for k, v in st.mem.items())
    def sent(self, st, i, dst, head, items, tail, ret, limit):
        if head not in TAKES:
            return
        self.settle(st, i)
        if tail.strip(' ') != '\n': self.bad('end', i, 'a message beginning with %s is sent without the newline that ends it' % head, st)
        f = st.fact(ret) if ret is not None else TOPF
        if f[0] < 0: self.bad('overrun', i, 'a message beginning with %s may be sent although it was cut short' % head, st)
        elif limit is not None:
            m = st.const(limit)
            if m is not None and f[1] >= m: self.bad('overrun', i, 'a message beginning with %s may be sent although it was cut short' % head, st)
        odd = {x for x in items if x[0] == '?'}
        for x in odd: self.bad('form', i, '%s in a message beginning with %s is not part of the protocol' % (x[1:].replace('\x02', '').replace('\x03', '%d'), head), st)
        for x in items - odd - TAKES[head]:
            if head in ('HELLO', 'OK', 'ERROR'): self.bad('form', i, '%s is sent in a message beginning with %s, where it is not understood' % (x, head), st)
        if head in CMDS:
            c = self.field(st, CMDF); c = None if c is None else st.const(c)
            if self.cmd.get(c) != head: self.bad('command', i, 'the request sent begins with %s although the command may be another' % head, st)
        for l, k in FLAG.items():
            v = self.flag(st, l)
            if k in items and v != 1: self.bad('flag', i, 'OPTION=%s may be sent although %s is not set' % (k, l.split('.')[1]), st)
            if k in TAKES[head] and k not in items and v != 0:
                if head == 'OK' and self.count(st) is True: continue
                self.bad('flag', i, 'OPTION=%s may be left out of a message beginning with %s although %s is set' % (k, head, l.split('.')[1]), st)
        if 'CONSOLE' in TAKES[head]:
            if st.prop[3] != 'done' and self.count(st) is not True: self.bad('console', i, 'a message beginning with %s may be sent before all consoles are in it' % head, st)
        if head == 'HELLO':
            if 'USER' not in items: self.bad('user', i, 'the greeting may be sent without the user', st)
            t = self.flag(st, 'request.tty')
            if (t != 0 if 'TTY' not in items else t != 1): self.bad('tty', i, 'the greeting may not say what terminal the user is on', st)
        if head == 'ERROR' and not {'CODE', 'MESSAGE'} <= items: self.bad('error', i, 'an error may be reported without its %s' % ' and '.join(sorted({'CODE', 'MESSAGE'} - items)), st)
        self.seen('sent', i, head)

# ------------------------------------------------------------ the encoding itself
class Bytes(Rule):
    """each character of a string is seen, and changed exactly as the encoding says: prop = (address, character, masks stored or None)"""
    def __init__(self, p, enc): self.p = p; self.enc = enc; self.viol = {}; self.n = {}
    def initial(self): return None
    def key(self, st):
        return st.prop and (st.prop[0], st.prop[2], st.prop[3], tuple(st.fact(st.prop[1])[:2]), frozenset(x for x in (0, 34, 39) if x in st.fact(st.prop[1])[2]))
    def inline(self, t, st, i, a): return True
    def bad(self, kind, i, msg, st): self.viol.setdefault((kind, msg), (kind, i, msg, st.lines(14)))
    def on_load(self, st, i, a):
        if i.ty != 'i8': return
        if st.prop is None or st.prop[0] != a or st.prop[3]:
            self.settle(st, i)
            for k in [k for k in st.mem if base_of(k) == base_of(a)]: del st.mem[k]
            c = self.A.load_at(st, i, a); st.mem[a] = c
            st.prop = (a, c, None, False)
    def on_edge(self, st, bb, nb):
        if st.prop is not None and nb.idx <= bb.idx:        # round the loop: another character
            self.settle(st, bb.term); b = base_of(st.prop[0]); st.prop = None
            for k in [k for k in st.mem if base_of(k) == b]: del st.mem[k]
    def masks(self, f, o):
        """(and, or) applied to a character loaded, or None"""
        if o[0] != '%' or o[1] not in f.defs: return None
        d = f.defs[o[1]]
        if d.op == 'load': return (255, 0)
        if d.op in ('sext', 'zext', 'trunc'): return self.masks(f, d.ops[0])
        if d.op in ('and', 'or', 'add', 'xor'):
            for x, y in (d.ops, d.ops[::-1]):
                if y[0] == 'i':
                    m = self.masks(f, x)
                    if m is None: return None
                    k = y[1] & 255
                    if d.op == 'and': return (m[0] & k, m[1] & k)
                    if d.op == 'or': return (m[0] & ~k & 255, m[1] | k)
                    if m == (255, 0) and k == 128: return ('add', d.op)
        return None
    def on_store(self, st, i, a, v):
        if i.ty != 'i8' or a[0] == 'al': return
        if st.prop is None or st.prop[0] != a: self.bad('encoding', i, 'a character other than the one looked at is changed', st); return
        m = self.masks(i.fn, i.ops[0]) or 'other'
        lo, hi, ex = st.fact(st.prop[1])
        if self.enc and m[0] == 'add' and lo >= 0: m = (127, 128)
        st.prop = (a, st.prop[1], m, st.prop[3])
    def settle(self, st, i):
        if st.prop is None: return
        a, c, m, _ = st.prop; lo, hi, ex = st.fact(c)
        if lo == hi == 0: return
        may = {x for x in (34, 39) if lo <= x <= hi and x not in ex}
        self.n['n'] = self.n.get('n', 0) + 1
        if self.enc:
            if m is None and may: self.bad('encoding', i, 'the quote %r may be left as it is' % ''.join(map(chr, sorted(may))), st)
            elif m is not None and (m not in ((127, 128), (255, 128)) or lo != hi or lo not in (34, 39)):
                self.bad('encoding', i, 'a character is changed other than by setting the high bit of a quote', st)
        elif m not in ((127, 0),) and not (m is None and lo >= 0): self.bad('encoding', i, 'a character may be left with its high bit, or changed otherwise', st)
    def on_return(self, st, f, rv, t):
        if self.A.stack: return
        if st.prop is not None: self.last(st, t)
        if rv is not None and rv != ('p', 0) and not st.iszero(rv): self.bad('encoding', t, 'not the string given is returned', st)
    def last(self, st, t):
        c = st.prop[1]; f = st.fact(c)
        if f[0] == f[1] == 0: return
        self.bad('encoding', t, 'the rest of the string may be left as it is', st)

def analyse(p, prog, tier):
    """(Parse violations, Send violations, Bytes violations, counters)"""
    g, es = keyword_table(p); K = 2 if tier == 'quick' else 4; recv = []; sent = []; steps = 0; seen = set()
    for n in lexers(p, g):
        x = Parse(p, prog, es); a = Analysis(p.mod, x, p.cg, K=K, max_steps=1000000); a.run(n); steps += a.steps; recv.append((n, x)); seen |= a.funcs_seen
    for n in senders(p, g):
        x = Send(p, prog, g, es); a = Analysis(p.mod, x, p.cg, K=K + 1, max_steps=1000000); a.run(n); steps += a.steps; sent.append((n, x)); seen |= a.funcs_seen
    return recv, sent, steps, seen

TXT = {'encode', 'quote', 'decode', 'mixed'}
def report(r, lst, kinds, ok):
    for n, x in lst:
        hit = set()
        for v in (x.violations() if isinstance(x, Parse) else x.viol.values()):
            if v[0] in kinds: r.bad(v[0], v[1], v[2], path=v[3]); hit.add(v[1].id)
        for k, d in ok.items():
            for (i, w), inst in x.n.get(k, {}).items():
                if i not in hit: r.ok('%s: %s %s' % (inst.where(), d, w))

TECH = 'path-sensitive interprocedural analysis over LLVM IR with a grammar of the messages as the oracle'

@prop('T02', title='Strings pass through the protocol unchanged', level='other',
  statement="Every string one program puts into a protocol message - user, terminal, console names, error text - is put between quotes and encoded by lex_encode(), which marks exactly the quote characters ' and \" by their high bit and leaves every other character alone; every string taken from a message is decoded by lex_decode(), which clears the high bit of each character, before it is used, and used for what it was sent as. So no name can end its own string and be taken for another item of the message.",
  quantifier=dict(over=['inputs'], text='every string argument of every message either program can send or receive, on every path'),
  why='Names with quotes come from users, terminals and configuration files and are rare, so tests do not send them; unencoded they let a client inject options such as force, undecoded they select no console.',
  anchors=dict(files=['src/client-sock.c', 'src/server-sock.c', 'src/lex.c'], mechanism=[dict(name='lex_encode/lex_decode', where='src/lex.c'), dict(name='senders', where='src/client-sock.c send_greeting/send_req, src/server-sock.c send_rsp'), dict(name='parsers', where='src/server-sock.c parse_greeting/parse_cmd_opts, src/client-sock.c parse_rsp_ok/parse_rsp_err')]), technique=TECH)
def T02(r, tier):
    r.rule('each %s argument between the quotes of an item is the result of lex_encode(), or constant; outside quotes only keywords appear')
    r.rule('each text of a string token that is stored or appended as user, tty, console or error message has been through lex_decode(), and belongs to the keyword of that name')
    r.rule('lex_encode() sets the high bit of exactly the characters \' and ", lex_decode() clears it in all, each looks at every character and returns its argument')
    steps = ns = 0
    for prog in ('conmand', 'conman'):
        p = build.load(prog); recv, sent, k, seen = analyse(p, prog, tier); steps += k
        report(r, recv, TXT, {'string': 'string decoded and kept:'}); report(r, sent, TXT, {'string': 'string encoded:'})
        ns += sum(len(x.n.get('string', {})) for n, x in recv + sent)
        for fn, enc in (('lex_encode', True), ('lex_decode', False)):
            f = p.mod.funcs.get(fn)
            if f is None or f.decl: raise Broken('%s() was not found' % fn)
            x = Bytes(p, enc); Analysis(p.mod, x, p.cg, K=4, max_steps=20000).run(fn)
            for v in x.viol.values(): r.bad(v[0], v[1], v[2], path=v[3])
            for i in f.insts():
                if i.op == 'getelementptr' and i.ty == 'i8' and i.ops[-1][0] == 'i' and i.ops[-1][1] not in (0, 1): r.bad('encoding', i, '%s() may skip characters' % fn)
            r.need(x.n.get('n', 0), 'characters of ' + fn)
            if not x.viol: r.ok('%s: %s() treats every character as the encoding says' % (prog, fn))
    r.need(ns, 'strings sent and received', 8); r.count(steps=steps)

@prop('T03', title='Requests and replies mean the same to client and daemon', level='other',
  statement='The request a client sends says exactly what was asked: the command, OPTION=QUIET and OPTION=REGEX, and for a connection OPTION=FORCE, JOIN and BROADCAST, each if and only if set, and every console given; the greeting names the user, and the terminal if known; the OK reply to a request names every console, and says OPTION=RESET if and only if resets are enabled; an error carries code and text. A message that was cut short is not sent. The receiver of a well-formed message sets exactly the command and options it says, and keeps every string and the error code; no other message sets an option or command it does not contain, and only a reply that says OK is taken for success.',
  quantifier=dict(over=['inputs'], text='every combination of command, options and consoles, and every sequence of tokens, well-formed or not'),
  why='Each of the combinations would need its own end-to-end test; a lost or invented option (say force for join, or a dropped regex flag) changes which consoles are opened and who is thrown out.',
  anchors=dict(files=['src/client-sock.c', 'src/server-sock.c'], mechanism=[dict(name='send_greeting/send_req/parse_rsp_ok/parse_rsp_err', where='src/client-sock.c'), dict(name='parse_greeting/recv_req/parse_cmd_opts/send_rsp', where='src/server-sock.c')]), technique=TECH)
def T03(r, tier):
    r.rule('senders: the text of each message is composed along every path and compared, when written, with what the members of the request are known to be there')
    r.rule('receivers: along every sequence of tokens, a member of the request is set only when the tokens just read say so; along every well-formed message each item is acted upon before the next is read')
    steps = 0; ni = 0
    for prog in ('conmand', 'conman'):
        p = build.load(prog); recv, sent, k, seen = analyse(p, prog, tier); steps += k
        if not recv: raise Broken('no function of %s reads protocol messages' % prog)
        if not sent: raise Broken('no function of %s sends protocol messages' % prog)
        kinds = {'taken', 'ignored', 'flag', 'command', 'lost', 'console', 'end', 'overrun', 'form', 'user', 'tty', 'error'}
        report(r, recv, kinds, {'option': 'sets the option', 'command': 'sets the command', 'code': 'keeps the code', 'string': 'keeps the string'})
        report(r, sent, kinds, {'sent': 'sends', 'option': 'says option'})
        got = set().union(*(x.delivered for n, x in recv))
        want = set().union(*(TAKES[h] for h in HEADS[prog])) | (HEADS[prog] & set(CMDS))
        for w in sorted(want - got): r.bad('ignored', p.mod.funcs[recv[-1][0]].entry.insts[0], '%s never acts upon %s in a message' % (prog, w), key=prog + ':' + w)
        other = HEADS['conman' if prog == 'conmand' else 'conmand']
        have = {w for n, x in sent for (i, w) in x.n.get('sent', {})}
        for w in sorted(other - have): r.bad('command', p.mod.funcs[sent[-1][0]].entry.insts[0], '%s never sends %s' % (prog, w), key=prog + ':' + w)
        r.count(**{prog + ' receivers': len(recv), prog + ' senders': len(sent), prog + ' messages sent': len(have)})
    r.count(steps=steps)
