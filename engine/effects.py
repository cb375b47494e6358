"""Who may call what: the call graph of the crate (calls, function values and closures) and the effects at its leaves."""
import re
CATS = [
    ('print', r'^std::io::stdio::(_print|_eprint|stdout|stderr|\{impl.*)$'),
    ('input', r'^std::io::stdio::(stdin|read)'),
    ('file', r'^std::(fs|sys::fs|os)::'),
    ('file', r'^std::path::\{impl#\d+\}::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)$'),
    ('draw', r'^plotters_bitmap::'),
    ('net', r'^std::net::'),
    ('process', r'^std::process::'),
    ('env', r'^std::env::'),
    ('thread', r'^std::thread::'),
    ('machine', r'^rayon(_core)?::(current_num_threads|current_thread_index|max_num_threads|registry::.*current)|^std::thread::available_parallelism|^std::any::type_name$|^std::alloc::'),
    ('entropy', r'^(rand::random$|rand::rngs::(thread|os|std|small|entropy)|rand_core::os|getrandom::|rand_core::SeedableRng::(from_entropy|from_os_rng|from_rng)$|std::(hash::random|collections::hash::map::RandomState)|rand::thread_rng)'),
    ('entropy', r'RandomState|thread_rng|from_entropy|OsRng'),
    ('clock', r'^std::time::'),
]
CATS = [(c, re.compile(r)) for c, r in CATS]
def category(p):
    for c, r in CATS:
        if r.search(p): return c
    return None

class Graph:
    def __init__(self, db):
        self.db = db
        self.edges = {}      # path -> set of local paths
        self.leaf = {}       # path -> {(callee path, span)}
        self.pub = {}        # public roots
        self.info = {}
        for b in db.bodies:
            if b is None or b['crate'] != 'cmaes': continue
            p = b['p']
            self.info.setdefault(p, b)
            es = self.edges.setdefault(p, set()); lf = self.leaf.setdefault(p, set())
            for bl in b['blocks']:
                for s in bl['s']: self.walk(s, s[-1], es, lf)
                t = bl['t']
                sp = [x for x in t if isinstance(x, str) and '.rs:' in x]
                self.walk(t, sp[-1] if sp else b.get('span', ''), es, lf)
        for i in db.roots:
            b = db.bodies[i]
            if b.get('reach') or b.get('itrait'): self.pub[b['p']] = b
        self.callers = {}
        for p, es in self.edges.items():
            for q in es: self.callers.setdefault(q, set()).add(p)
    def walk(self, x, span, es, lf):
        if isinstance(x, dict):
            f = x.get('fn')
            if isinstance(f, dict) and 'p' in f:
                q = (f.get('r') or f)['p'] if isinstance(f.get('r'), dict) else f['p']
                if (f.get('r') or f).get('crate', f.get('crate')) == 'cmaes' or f.get('crate') == 'cmaes':
                    es.add(q); es.add(f['p'])
                else: lf.add((q, span)); lf.add((f['p'], span))
                for a in f.get('targs') or []: self.closure_ty(a, es)
            if 'closure' in x: self.target(x['closure'], es)
            for v in x.values(): self.walk(v, span, es, lf)
        elif isinstance(x, list):
            if len(x) >= 2 and x[0] == 'closure': self.target(x[1], es)
            for v in x: self.walk(v, span, es, lf)
    def target(self, i, es):
        if isinstance(i, int) and i < len(self.db.bodies) and self.db.bodies[i] is not None: es.add(self.db.bodies[i]['p'])
    def closure_ty(self, a, es): pass
    def sites(self, *cats):
        """(category, callee, span, function)"""
        out = set()
        for p, lf in self.leaf.items():
            for q, span in lf:
                c = category(q)
                if c in cats: out.add((c, q, span, p))
        return sorted(out)
    def above(self, p):
        """functions from which p is reachable (p included)"""
        seen = {p}; st = [p]
        while st:
            x = st.pop()
            for y in self.callers.get(x, ()):
                if y not in seen: seen.add(y); st.append(y)
        return seen
    def reach_avoiding_up(self, p, avoid):
        """functions from which p is reachable by a path that stays clear of the given ones"""
        if p in avoid: return set()
        seen = {p}; st = [p]
        while st:
            x = st.pop()
            for y in self.callers.get(x, ()):
                if y not in seen and y not in avoid: seen.add(y); st.append(y)
        return seen
    def below(self, p):
        seen = {p}; st = [p]
        while st:
            x = st.pop()
            for y in self.edges.get(x, ()):
                if y not in seen: seen.add(y); st.append(y)
        return seen
    def roots_of(self, p):
        """public functions (and trait implementations) from which p is reachable, stopping at nothing"""
        return {x for x in self.above(p) if x in self.pub}
    def reach_avoiding(self, root, avoid):
        seen = {root}; st = [root]
        if root in avoid: return set()
        while st:
            x = st.pop()
            for y in self.edges.get(x, ()):
                if y not in seen and y not in avoid: seen.add(y); st.append(y)
        return seen
