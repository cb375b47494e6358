"""property id -> analysis parts"""
PROPS = {}
class P:
    def __init__(self, pid, rule, assume=(), nofeat=False, technique='static analysis: gated value graph of the MIR (global value numbering across calls and loops) compared with specification terms'):
        self.technique = technique
        self.id = pid; self.rule = rule; self.parts = []
        self.assume = list(assume) or ['the modelled library operations (nalgebra, rand, std) behave as documented', 'floating point is read as real arithmetic; integers do not wrap']
        self.trust = ['rustc nightly (MIR construction, trait resolution)', 'engine/interp.py (gated value graph)', 'engine/terms.py (normal forms)', 'engine/models.py (library models)', 'engine/specs (specification terms)']
        self.nofeat = nofeat
def prop(pid, rule, **kw):
    p = PROPS.get(pid)
    if p is None: p = PROPS[pid] = P(pid, rule, **kw)
    elif p.rule is None:
        parts = p.parts; p.__init__(pid, rule, **kw); p.parts = parts
    else: raise Exception('property %s declared twice' % pid)
    def d(f):
        p.parts.insert(0, f); return f
    return d
def also(*pids):
    def d(f):
        for pid in pids:
            p = PROPS.get(pid)
            if p is None: p = PROPS[pid] = P(pid, None)
            p.parts.append(f)
        return f
    return d
import importlib, os, sys
sys.modules["registry"] = sys.modules[__name__]
sys_specs = sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs')) if f.endswith('.py') and f != '__init__.py')
def load():
    import sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs'))
    for m in sys_specs: importlib.import_module(m)
load()
for p in PROPS.values(): assert p.rule is not None, p.id
