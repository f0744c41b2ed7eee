"""Registry of properties: every module in /verif/rules declares its own."""
import os, importlib
_reg = {}
def prop(id, **meta):
    def deco(fn):
        meta['id'] = id; _reg[id] = (fn, meta); return fn
    return deco
NA = []
def not_applicable(id, **meta):
    meta['id'] = id; NA.append(meta)
_loaded = False
def _load():
    global _loaded
    if _loaded: return
    _loaded = True
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rules')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'): importlib.import_module(f[:-3])
def ids(): _load(); return sorted(_reg)
def get(i): _load(); return _reg[i]
