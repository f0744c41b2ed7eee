"""K05: each word of the configuration sets what it names."""
from absint import *
from core import Broken
from registry import prop
import build, proto

# word -> (members of the configuration it sets, what its value has to be)
WORDS = dict(COREDUMP=(('enableCoreDump',), 'bool'), COREDUMPDIR=(('coreDumpDir',), 'STR'), EXECPATH=(('execPath',), 'STR'), KEEPALIVE=(('enableKeepAlive',), 'bool'),
             LOGDIR=(('logDirName',), 'STR'), LOGFILE=(('logFileName', 'logFileLevel'), 'STR'), LOOPBACK=(('enableLoopBack',), 'bool'), NOFILE=(('numOpenFiles',), 'INT'),
             PIDFILE=(('pidFileName',), 'STR'), PORT=(('port',), 'INT'), RESETCMD=(('resetCmd',), 'STR'), SYSLOG=(('syslogFacility',), 'STR'), TCPWRAPPERS=(('enableTCPWrap',), 'bool'),
             TIMESTAMP=(('tStampMinutes',), 'INT'), LOG=(('globalLogName',), 'STR'), LOGOPTS=(('globalLogOpts',), 'STR'), SEROPTS=(('globalSerOpts',), 'STR'),
             IPMIOPTS=(('globalIpmiOpts',), 'STR'), TESTOPTS=(('globalTestOpts',), 'STR'))
CMDLINE = {'port': 'neg', 'pidFileName': 'null'}
SAY = {'snprintf', '__snprintf_chk', 'sprintf', '__sprintf_chk', 'log_msg', 'log_err', 'strlcpy', 'strncpy', 'strcpy', 'vsnprintf', '__vsnprintf_chk', 'append_format_string'}

class Words(Rule):
    """prop = (tokens since the word, members set since, was something said?)"""
    exit_k = 8
    def __init__(self, p, tab):
        self.p = p; self.viol = {}; self.n = {}; e = p.mod.enums; off = e['LEX_TOK_OFFSET']
        self.kw = {w: off + k for k, w in enumerate(tab) if w}; self.name = {v: k for k, v in self.kw.items()}
        self.tok = dict(STR=e['LEX_STR'], INT=e['LEX_INT'])
        self.care = sorted(set(self.kw.values()) | {e[x] for x in ('LEX_STR', 'LEX_INT', 'LEX_EOL', 'LEX_EOF', 'LEX_ERR') if x in e} | {ord('=')})
        self.field = {'server_conf.' + f: w for w, (fs, k) in WORDS.items() for f in fs}
        own = {f.name for f in p.funcs() if any(i.op == 'store' and any(x in self.field for x in (p.cg._target(f, i.ops[1]) or ())) for i in f.insts())}
        self.touch = {n for n in p.cg.reaching({'lex_next', 'lex_prev', 'lex_text'}) | own if not n.startswith(('lex_', 'list_', 'log_', 'create_', 'destroy_'))}
        self.got = set()
    def initial(self): return ((), frozenset(), False)
    def inline(self, t, st, i, a): return t.name in self.touch
    def may(self, st, v):
        lo, hi, ex = st.fact(v)
        return frozenset(c for c in self.care if lo <= c <= hi and c not in ex)
    def preset(self, st):
        """is the member known to have been, or not to have been, set on the command line?"""
        out = []
        for f, k in sorted(CMDLINE.items()):
            l = 'server_conf.' + f; vs = [self.first[a] for a in self.first if a == l] + [v for a, v in st.mem.items() if last_of(a) == l]
            no = any(st.fact(v)[1] < 0 if k == 'neg' else st.iszero(v) for v in vs); yes = any(st.fact(v)[0] >= 0 if k == 'neg' else st.nonzero(v) for v in vs)
            out.append((f, no, yes))
        return out
    def key(self, st):
        toks, got, said = st.prop
        return (toks, tuple(m if len(m) < 4 else (0, frozenset(self.care) - m) for m in (self.may(st, t) for t in toks)), got, said, tuple(self.preset(st)))
    def bad(self, kind, i, msg, st): self.viol.setdefault((kind, i.id, msg), (kind, i, msg, st.lines(14)))
    def seen(self, k, i, what=''): self.n.setdefault(k, {})[(i.id, what)] = i
    def word(self, st):
        """(the word being dealt with, its value token), as far as certain"""
        toks = st.prop[0]
        if len(toks) < 3 or self.may(st, toks[1]) != {ord('=')}: return None
        m = self.may(st, toks[0])
        return (self.name.get(next(iter(m))), toks[2]) if len(m) == 1 else None
    def setup(self, st, f, args): self.first = {}
    def on_load_fresh(self, st, i, a, v):
        l = last_of(a)
        if l.startswith('server_conf.') and l[12:] in CMDLINE and not st.prop[1] and not st.prop[0]: self.first.setdefault(l, v)
        return None
    def settle(self, st, i):
        toks, got, said = st.prop; w = self.word(st)
        if w is None or w[0] not in WORDS: return
        fs, kind = WORDS[w[0]]; m = self.may(st, w[1])
        ok = {self.kw['ON'], self.kw['OFF']} if kind == 'bool' else {self.tok[kind]}
        if not m & ok: return
        self.seen('done', i, w[0])
        if got & set(fs) or said: return
        for f, no, yes in self.preset(st):
            if f in fs and yes: return
        self.bad('ignored:' + w[0], i, 'the word %s of the configuration may have no effect although its value is in order' % w[0], st)
    def on_call(self, st, i, name, args):
        A = self.A
        if name == 'lex_next':
            toks, got, said = st.prop; keep = (); known = {self.kw[w] for w in WORDS if w in self.kw}
            if toks:
                m0 = self.may(st, toks[0])
                if len(toks) == 1 and m0 <= known: keep = toks
                elif len(toks) == 2 and m0 <= known and self.may(st, toks[1]) == {ord('=')}: keep = toks
                elif len(toks) == 3 and self.word(st) and m0 == {self.kw.get('TIMESTAMP')} and self.may(st, toks[2]) == {self.tok['INT']}: keep = toks
            if not keep:
                self.settle(st, i); got, said = frozenset(), False
                if len(toks) > 1 and len(toks) != 3 and self.may(st, toks[-1]) <= known: keep = toks[-1:]
            n = 0
            while ('s', 0, 'word', n) in keep: n += 1
            v = ('s', 0, 'word', n)
            if v in st.made: A.rename(st, v)
            st.made.add(v); st.facts[v] = (-128, 400, frozenset())
            st.prop = (keep + (v,), got, said)
            return [(st, v)]
        if name == 'lex_prev': return [(st, st.prop[0][-1] if st.prop[0] else A.fresh(st, i, 'prev'))]
        if name in ('lex_text', 'lex_tok_to_str'):
            v = A.fresh(st, i, 'text')
            if name == 'lex_text': st.facts[v] = (1, INF, frozenset())
            return [(st, v)]
        if name in SAY: st.prop = (st.prop[0], st.prop[1], True)
        if name not in self.touch:
            for x in args[:1] if name.startswith('llvm.mem') else args:
                if x and x[0] == 'a' and last_of(x) in self.field: self.put(st, i, last_of(x), None)
        return None
    def on_store(self, st, i, a, v):
        l = last_of(a)
        if l in self.field: self.put(st, i, l, v)
    def put(self, st, i, l, v):
        f = l[12:]; w = self.word(st); toks, got, said = st.prop
        if w is None: print('DBG', i.where(), [(t, len(self.may(st,t)), sorted(self.may(st,t))[:6]) for t in toks]); self.bad('unasked', i, '%s is set although no word of the configuration certainly asks for it' % f, st); return
        fs, kind = WORDS.get(w[0], ((), None))
        if f not in fs: self.bad('field', i, 'the word %s of the configuration sets %s' % (w[0], f), st); return
        m = self.may(st, w[1]); c = None if v is None else st.const(v)
        if kind == 'bool':
            want = {1: 'ON', 0: 'OFF'}.get(c)
            if c is None or c not in (0, 1, -1) or m != {self.kw['ON' if c else 'OFF']}: self.bad('value', i, '%s is set to %s although the value of %s is not certainly so' % (f, c, w[0]), st); return
        elif m != {self.tok[kind]}: self.bad('value', i, '%s is set although the value of %s is not certainly a %s' % (f, w[0], 'string' if kind == 'STR' else 'number'), st); return
        if f in ('port', 'syslogFacility') and v is not None and st.fact(v)[0] < 0: self.bad('value', i, '%s may be set to a negative value' % f, st)
        if f in CMDLINE:
            if not any(no for g, no, yes in self.preset(st) if g == f) and f not in got: self.bad('override', i, 'the configuration may change %s although it was given on the command line' % f, st)
        self.seen('set', i, w[0]); self.got.add(w[0]); st.prop = (toks, got | {f}, said)
    def on_return(self, st, f, rv, t):
        if not self.A.stack: self.settle(st, t)

@prop('K05', title='Each word of the configuration sets what it names', level='other',
  statement='A GLOBAL or SERVER directive changes exactly the settings its words name: a setting changes only on account of the word that stands for it, with a value of the kind it takes (ON sets a switch, OFF clears it); and a word whose value is in order takes effect or is complained of. The port and the pid file given on the command line are not changed by the configuration.',
  quantifier=dict(over=['inputs'], text='every sequence of tokens the lexer can deliver to the parsers of these directives, well-formed or not'),
  why='Settings such as loopback, TCP wrappers or the reset command decide who gets at a console; that one is swapped for, or hidden by, another shows only in a configuration that uses it, and the tests use few.',
  anchors=dict(files=['src/server-conf.c'], mechanism=[dict(name='parse_server_directive/parse_global_directive', where='src/server-conf.c')]),
  technique='path-sensitive interprocedural analysis over LLVM IR of the token sequences, with a table of words and settings as the oracle')
def K05(r, tier):
    r.rule('at each store to a configuration member (or hand-over of its address) the last tokens are certainly the word for that member, "=", and a value of its kind; port and pidFileName only if unset at entry; when the next word or the end is read, a well-formed word has set its member, or a message was composed')
    p = build.load('conmand'); tabs = [(g, proto.entries(p, g)) for g in proto.tables(p)]; tabs = [(g, e) for g, e in tabs if e and 'COREDUMPDIR' in e]
    if len(tabs) != 1: raise Broken('the table of words of the configuration was not found')
    g, es = tabs[0]; up = p.cg.reaching({'lex_next'}); done = set(); steps = 0; funcs = set()
    makers = {i.fn.name for i in proto.tables(p)[g]}; tops = sorted({c for m in makers for c in p.cg.callees.get(m, ()) if c in up and not c.startswith('lex_')})
    probe = Words(p, es)
    def sets(n):
        f = p.mod.funcs.get(n)
        return f is not None and not f.decl and any(set(p.cg._target(f, o) or ()) & set(probe.field) for i in f.insts() if i.op in ('store', 'call') for o in (i.ops[1:] if i.op == 'store' else i.ops) if o[0] == '%')
    tops = [t for t in tops if any(sets(n) for n in {t} | p.cg.reach(t))]
    if not tops: raise Broken('no parser of directives was found')
    sets = 0
    for t in tops:
        x = Words(p, es); a = Analysis(p.mod, x, p.cg, K=4 if tier == 'quick' else 8, max_steps=800000); a.run(t); steps += a.steps; funcs |= a.funcs_seen
        hit = set()
        for kind, i, msg, path in x.viol.values():
            kind, _, w = kind.partition(':')
            if w and w not in x.got: continue
            r.bad(kind, i, msg, key='%s:%s:%s' % (kind, w, i.fn.src_name) if w else None, path=path); hit.add(i.id)
        for (n, w), i in x.n.get('set', {}).items():
            sets += 1
            if n not in hit: r.ok('%s: set on account of %s' % (i.where(), w))
        done |= x.got
    need = {w for w in WORDS if w in es} - ({'TCPWRAPPERS'} if not p.cg.sites.get('hosts_access') and not p.cg.sites.get('hosts_ctl') else set())
    for w in sorted(need - done): r.bad('ignored', p.mod.funcs[tops[-1]].entry.insts[0], 'the word %s of the configuration never has an effect' % w, key='never:' + w)
    r.need(sets, 'places that set a member'); r.count(parsers=len(tops), words=len(done), steps=steps, functions_analysed=len(funcs))
