"""Check framework: results, known findings, evidence, exit codes."""
import os, sys, json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'rules'))

class Broken(Exception):
    """the analysis could not find what it must analyse"""

class Result:
    def __init__(self):
        self.viol = []          # dict(rule, where, func, msg, key, path)
        self.obl = []           # descriptions of discharged/undischarged obligations: (desc, ok)
        self.info = {}
        self.rules = []
        self.short = []         # floors that were not reached
        self.trusted = []
    def rule(self, s): self.rules.append(s)
    def ok(self, desc): self.obl.append((desc, True))
    def bad(self, rule, inst, msg, key=None, path=None, desc=None):
        """inst: an ir.Inst / ir.Func / string location"""
        if hasattr(inst, 'where'): where = inst.where(); func = inst.fn.src_name
        elif hasattr(inst, 'src_name'): where = '%s (%s)' % (inst.file, inst.src_name); func = inst.src_name
        else: where = str(inst); func = ''
        key = key or '%s@%s' % (rule, func)
        v = dict(rule=rule, where=where, func=func, msg=msg, key=key, path=path or [])
        if not any(x['key'] == key and x['where'] == where and x['msg'] == msg for x in self.viol):
            self.viol.append(v)
            self.obl.append((desc or '%s at %s: %s' % (rule, where, msg), False))
    def count(self, **kw):
        for k, v in kw.items(): self.info[k] = self.info.get(k, 0) + v
    def need(self, n, what, lo=1):
        if n < lo: self.short.append('%s: %d instance(s), at least %d expected' % (what, n, lo))

def known():
    p = os.path.join(ROOT, 'known-findings.txt'); out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=<id> key=<key> :: description
                h, d = l.split('::', 1); w = dict(x.split('=', 1) for x in h.split()[1:])
                out.setdefault(w['property'], {})[w['key']] = d.strip()
    return out

def run(pid, fn, tier, meta):
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    r = Result()
    try:
        fn(r, tier)
        if not r.obl: raise Broken('no obligation was generated')
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 3
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s %s' % (pid, '; '.join(r.short) or 'internal error')); return 3
    kf = known().get(pid, {}); new = []; seen = set()
    for v in r.viol:
        if v['key'] in kf:
            if v['key'] not in seen:
                seen.add(v['key']); print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kf[v['key']], v['where']))
        else: new.append(v)
    if r.short and not new:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, '; '.join(r.short))); return 3
    nob = len(r.obl); nd = sum(1 for _, ok in r.obl if ok)
    cov = dict(r.info)
    cov['rules'] = r.rules
    cov['obligations'] = nob; cov['discharged'] = nd
    cov['explanation'] = meta.get('explain', '') or '; '.join(r.rules)
    cov['checker_cmd'] = 'python3 /verif/check.py %s --tier %s' % (pid, tier)
    cov['trusted_base'] = ['clang 18 front end and mem2reg', 'the analysis engine in /verif/engine', *r.trusted]
    cov['samples'] = [d for d, ok in r.obl][:60]
    e = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=meta['level'], coverage=cov,
             wall_s=round(time.time() - t0, 2))
    if new: e['violations'] = len(new)
    json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %s' % (pid, meta['title']))
    for k, v in r.info.items(): print('  %s: %s' % (k, v if not isinstance(v, (list, tuple, set)) else ', '.join(map(str, v))))
    print('  obligations: %d, discharged: %d, known findings: %d' % (nob, nd, len(seen)))
    if new:
        rp = os.path.join(ev, pid + '.violation.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new:
            print('  %s: [%s] %s' % (v['where'], v['rule'], v['msg']))
            for s in v['path'][-12:]: print('      via %s' % s)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
