#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]   decide one property from /repo's current source (or: check.py all)"""
import sys, os, json, time, subprocess, tempfile, pickle, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
t0 = time.time()

def dump(out, *extra):
    r = subprocess.run(['bash', os.path.join(HERE, 'engine/dump.sh'), out, *extra], capture_output=True, text=True)
    if r.returncode: raise SystemExit('the source could not be analysed (it does not compile):\n' + r.stderr[-3000:])

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if not os.path.exists(os.path.join(HERE, 'build/drv/release/mirdump')):
        subprocess.run(['bash', os.path.join(HERE, 'setup.sh')], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='dump', dir=os.path.join(HERE, 'build'))
    try:
        a = os.path.join(tmp, 'a.json')
        dump(a)
        b = None
        if pid == 'all' or tier == 'thorough':
            b = os.path.join(tmp, 'b.json')
            dump(b, '--no-default-features')
        from registry import PROPS
        ids = sorted(PROPS) if pid == 'all' else pid.split(',')
        res = {}
        for lab, path in (('default features', a), ('--no-default-features', b)):
            if path: res[lab] = analyse(lab, path, [p for p in ids if lab == 'default features' or PROPS[p].nofeat])
        bad = 0
        for p in ids: bad |= one(p, tier, [(lab, r[p]) for lab, r in res.items() if p in r], len(ids) == 1)
        return bad
    finally:
        for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

def analyse(lab, path, ids):
    """decide the properties on one compilation, in a process of its own (terms are interned per compilation)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            with os.fdopen(wr, 'wb') as f: pickle.dump(analyse1(lab, path, ids), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc(); os._exit(3)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f: data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)

def analyse1(lab, path, ids):
    import core
    from registry import PROPS
    C = core.Ctx(path, lab)
    C.plot = lab == 'default features'
    out = {}
    for pid in ids:
        t1 = time.time()
        C.obs = []; C.analysed = {}; C.pid = pid; C.invariants = []; C.runs = []
        for part in PROPS[pid].parts:
            C.invariants = []
            try:
                part(C)
            except core.Undecided as e:
                C.undecided(part.__name__, 'the part can be analysed', e)
            except Exception as e:
                if os.environ.get('VDEBUG'): traceback.print_exc()
                C.undecided(part.__name__, 'the part can be analysed', 'internal: %r' % e)
        C.invariants = []
        try: pid in ('C31', 'C33') or C.panics(nan=pid in ('C08', 'C09', 'C29'), nonempty=pid not in ('C09', 'C29', 'C30'))
        except Exception as e:
            if os.environ.get('VDEBUG'): traceback.print_exc()
            C.undecided('panic', 'the analysed functions do not panic', 'internal: %r' % e)
        for o in C.obs: o['config'] = lab
        out[pid] = (C.obs, C.analysed, time.time() - t1)
    return out

def one(pid, tier, runs, single):
    from registry import PROPS
    t1 = time.time() - sum(r[2] for _, r in runs)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    spec = PROPS[pid]
    obs = []; analysed = {}
    for lab, (o, an, _) in runs: obs += o; analysed.update(an)
    viol = [o for o in obs if o['status'] == 'violated']
    kn = [o for o in obs if o['status'] == 'known']
    und = [o for o in obs if o['status'] == 'undecided']
    n = len(obs); d = len([o for o in obs if o['status'] == 'discharged'])
    knownkeys = {(k['property'], k['key']) for k in known}
    out = []
    real = []
    for o in viol: real.append(o)
    for o in kn:
        if (pid, o['key']) in knownkeys: out.append('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, o['key'], o['site'], o['finding']))
        else: real.append(o)
    fns = sorted({f for v in analysed.values() for f in v['functions']})
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'proof',
          'coverage': {'obligations': n, 'discharged': d,
                       'checker_cmd': 'python3 check.py %s %s' % (pid, tier),
                       'trusted_base': spec.trust,
                       'rule': spec.rule,
                       'known_findings': len(kn), 'undecided': len(und), 'violated': len(real),
                       'functions_analysed': fns, 'entry_points': sorted(analysed),
                       'blocks_evaluated': sum(v['blocks'] for v in analysed.values()),
                       'call_sites_evaluated': sum(v['calls'] for v in analysed.values()),
                       'loops_solved': sum(v['loops'] for v in analysed.values()),
                       'obligation_list': [{k: o[k] for k in ('key', 'rule', 'status', 'site', 'config', 'why', 'case', 'got', 'want') if k in o} for o in obs]},
          'assumptions': spec.assume, 'wall_s': round(time.time() - (t0 if single else t1), 2)}
    path = os.path.join(edir, pid + '.json')
    ev['violations'] = len(real)
    if real: ev['coverage']['violation_list'] = [{'key': o['key'], 'rule': o['rule'], 'site': o['site'], 'case': o.get('case', []), 'got': o.get('got'), 'want': o.get('want')} for o in real]
    json.dump(ev, open(path, 'w'), indent=1)
    for l in sorted(set(out)): print(l)
    for o in und: print('UNDECIDED property=%s %s [%s]: %s' % (pid, o['key'], o['config'], o.get('why')))
    for o in real:
        print('  %s: %s' % (o['key'], o['rule']))
        print('    at %s [%s]' % (o['site'], o['config']))
        if o.get('case'): print('    when %s' % '; '.join(o['case'])[:600])
        print('    source: %s' % o.get('got')); print('    required: %s' % o.get('want'))
    if real:
        print('VIOLATION property=%s replay=%s %s' % (pid, path, real[0]['key']))
    print('%s: %d obligations, %d discharged, %d known, %d undecided, %d violated; %d functions, %.1f s' % (pid, n, d, len(kn), len(und), len(real), len(fns), time.time() - t1))
    return 1 if real else 0

if __name__ == '__main__':
    sys.exit(main())
