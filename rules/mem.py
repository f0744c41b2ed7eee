"""M: memory and format safety"""
import re
from registry import prop
import build
from must import consts
from core import Broken

# name -> (index of the format argument, index of the first variadic argument or None for a va_list)
FMT = dict(printf=(0, 1), fprintf=(1, 2), sprintf=(1, 2), snprintf=(2, 3), dprintf=(1, 2), syslog=(1, 2),
           vprintf=(0, None), vfprintf=(1, None), vsprintf=(1, None), vsnprintf=(2, None), vdprintf=(1, None), vsyslog=(1, None),
           err=(1, 2), errx=(1, 2), warn=(0, 1), warnx=(0, 1), asprintf=(1, 2), vasprintf=(1, None),
           __printf_chk=(1, 2), __fprintf_chk=(2, 3), __sprintf_chk=(3, 4), __snprintf_chk=(4, 5), __vsnprintf_chk=(4, None), __vfprintf_chk=(2, None))
SCAN = dict(scanf=(0, 1), fscanf=(1, 2), sscanf=(1, 2), __isoc99_scanf=(0, 1), __isoc99_fscanf=(1, 2), __isoc99_sscanf=(1, 2),
            __isoc23_sscanf=(1, 2), __isoc23_scanf=(0, 1), __isoc23_fscanf=(1, 2))
CONV = re.compile(r"%(?:%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspnCSm]))")

def convs(s):
    """types the conversions of a format expect, or (None, why) if it is malformed"""
    out = []; k = 0
    while True:
        k = s.find('%', k)
        if k < 0: return out, None
        m = CONV.match(s, k)
        if not m: return None, 'malformed conversion at "%s"' % s[k:k + 6]
        k = m.end()
        if m.group(0) == '%%': continue
        if m.group(2) == '*': out.append(('i32', m.group(0)))
        if m.group(3) == '*': out.append(('i32', m.group(0)))
        l, c = m.group(4) or '', m.group(5)
        if c == 'm': continue
        if c == 'n': return None, 'conversion %n writes memory'
        if c in 'sSp': t = 'ptr'
        elif c in 'eEfFgGaA': t = 'x86_fp80' if l == 'L' else 'double'
        elif c == 'c' or c == 'C': t = 'i32'
        else: t = 'i64' if l in ('l', 'll', 'j', 'z', 't', 'q', 'L') else 'i32'
        out.append((t, m.group(0)))

def strs(p, f, o, top, d=0):
    """constant strings an operand may be; ('param', fn, k) for a parameter of the function; ('?',) otherwise"""
    if o[0] == 'gepc' or o[0] == '@':
        s = p.mod.cstr(o)
        return {('?', str(o))} if s is None else {('s', s)}
    if o[0] != '%' or d > 8: return {('?', str(o))}
    i = f.defs.get(o[1])
    if i is None:
        return {('p', f.name, f.params.index(o[1]))} if o[1] in f.params else {('?', str(o))}
    if i.op == 'phi':
        out = set()
        for v, _ in i.x: out |= strs(p, f, v, top, d + 1)
        return out
    if i.op == 'select': return strs(p, f, i.ops[1], top, d + 1) | strs(p, f, i.ops[2], top, d + 1)
    if i.op in ('bitcast', 'freeze'): return strs(p, f, i.ops[0], top, d + 1)
    if i.op == 'getelementptr' and i.ops and all(x == ('i', 0) for x in i.ops[1:]): return strs(p, f, i.ops[0], top, d + 1)
    if i.op == 'load':                      # from a constant table of strings
        b = i.ops[0]
        if b[0] == '%' and b[1] in f.defs and f.defs[b[1]].op == 'getelementptr': b = f.defs[b[1]].ops[0]
        while b[0] == 'gepc': b = b[2][0][1]
        g = p.mod.globals.get(b[1]) if b[0] == '@' else None
        out = set()
        def walk(v):
            if isinstance(v, tuple) and v and v[0] in ('@', 'gepc'):
                s = p.mod.cstr(v); out.add(('s', s) if s is not None else ('?', str(v))); return
            if isinstance(v, (tuple, list)):
                for x in v: walk(x)
        if g is not None and g.const and g.init: walk(g.init)
        return out or {('?', str(o))}
    if i.op == 'call' and i.x in ('gettext', 'dcgettext'): return strs(p, f, i.ops[0], top, d + 1)
    if i.op == 'call' and i.x in p.mod.funcs and not p.mod.funcs[i.x].decl:
        g = p.mod.funcs[i.x]; out = set()
        for r in g.insts():
            if r.op == 'ret' and r.ops: out |= {('?', 'result of %s()' % i.x) if x[0] == 'p' else x for x in strs(p, g, r.ops[0], top, d + 1)}
        return out or {('?', i.x)}
    return {('?', i.where())}

@prop('M01', title='Every message is formatted with arguments its format expects', level='other',
  statement='Every printf-style format used by the daemon or the client, directly or through their own logging, notification and string-building functions, is a constant of the program: no text from a client, console, file or the network is ever interpreted as a format. Each is given exactly the arguments its conversions call for, with the same number, kind and width.',
  quantifier=dict(over=['inputs', 'paths'], text='every call, direct or through wrappers, of a formatting function in either program, on every path including error paths no test takes'),
  why='A wrong argument list shows only when that message is produced, usually on a rare failure path (a peer in an unexpected state), and then crashes the daemon or discloses memory; tests do not produce those messages, and the wrappers carry no attribute the compiler could check.',
  anchors=dict(files=['src/log.c', 'src/server-obj.c', 'src/util-str.c', 'src/client-tty.c', 'src/server-telnet.c'],
    mechanism=[dict(name='logging', where='src/log.c log_msg/log_err/log_aux'), dict(name='notifications', where='src/server-obj.c write_notify_msg'), dict(name='strings', where='src/util-str.c append_format_string/create_format_string')]),
  technique='interprocedural constant-format analysis over LLVM IR: printf-like functions found by flow of a parameter to a format position, every call site checked against argument types')
def m01(r, tier):
    r.rule('every value reaching the format position of a printf-like function is a string constant, or the format parameter of a function which is itself printf-like')
    r.rule('at each variadic call the conversions of every possible format match the arguments in number and machine type')
    total = 0
    for prog in ('conmand', 'conman'):
        p = build.load(prog)
        like = dict(FMT); pend = True; done = set()
        while pend:
            pend = False
            for f in p.funcs():
                for i in f.insts():
                    if i.op != 'call' or i.x not in like: continue
                    k, va = like[i.x]
                    if k >= len(i.ops): continue
                    for s in strs(p, f, i.ops[k], f):
                        if s[0] == 'p' and s[1] not in like:
                            g = p.mod.funcs[s[1]]
                            like[s[1]] = (s[2], len(g.params) if g.vararg else None); pend = True
        # functions whose address is taken could be called with any format
        for n in like:
            if n in p.mod.funcs and not p.mod.funcs[n].decl and n in p.cg.addr_taken:
                r.bad('indirect', p.mod.funcs[n], 'the printf-like function %s() has its address taken' % n)
        def given(s, seen=()):
            """formats the callers give to parameter s"""
            out = set()
            for c in p.cg.sites.get(s[1], []):
                if s[2] >= len(c.ops): continue
                for t in strs(p, c.fn, c.ops[s[2]], c.fn):
                    if t[0] == 'p' and t not in seen: out |= set(given(t, seen + (s,)))
                    elif t[0] != 'p': out.add(t)
            return sorted(out, key=str)
        nf = 0
        for f in p.funcs():
            for i in f.insts():
                if i.op != 'call' or i.x not in like: continue
                k, va = like[i.x]; nf += 1
                if k >= len(i.ops): r.bad('format', i, 'call of %s() without a format' % i.x); continue
                bad = 0
                work = sorted(strs(p, f, i.ops[k], f), key=str)
                while work:
                    s = work.pop(0)
                    if s[0] == 'p':
                        if s[1] == f.name and like.get(f.name, (None,))[0] == s[2]:
                            # passed on with a va_list (checked at the callers), or with arguments of this function
                            if va is not None: work += given(s)
                            continue
                        r.bad('format', i, 'format of %s() is a parameter whose callers are not checked' % i.x); bad = 1; continue
                    if s[0] == '?':
                        r.bad('format', i, 'format of %s() is not a constant of the program (%s)' % (i.x, s[1])); bad = 1; continue
                    if va is None:
                        continue
                    cs, why = convs(s[1])
                    if cs is None: r.bad('conversion', i, '"%s": %s' % (s[1], why)); bad = 1; continue
                    have = i.aty[va:]
                    if len(have) != len(cs):
                        r.bad('count', i, 'format "%s" of %s() needs %d argument(s), %d given' % (s[1], i.x, len(cs), len(have))); bad = 1; continue
                    for n, ((t, c), h) in enumerate(zip(cs, have)):
                        if t != h:
                            r.bad('type', i, 'conversion %s of "%s" needs %s, argument %d is %s' % (c, s[1], t, n + 1, h)); bad = 1
                if not bad: r.ok('%s: %s()' % (i.where(), i.x))
            for i in f.insts():
                if i.op == 'call' and i.x in SCAN:
                    k, va = SCAN[i.x]
                    for s in strs(p, f, i.ops[k], f):
                        if s[0] != 's': r.bad('format', i, 'format of %s() is not a constant' % i.x); continue
        total += nf
        r.count(**{'formatting calls in ' + prog: nf, 'printf-like functions of its own in ' + prog: sum(1 for n in like if n not in FMT)})
        r.need(nf, 'formatting calls in ' + prog, 40)
