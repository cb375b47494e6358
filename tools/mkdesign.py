import json,glob,os
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
ev={}
for f in glob.glob('/verif/evidence/C*.json'):
    e=json.load(open(f)); ev[e['property']]=e['coverage']
seeds={}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); seeds.setdefault(m['property'],[]).append(d)
text=open('/verif/tools/design.md').read()
out=[]
for l in text.split('\n'):
    if l.startswith('### C'):
        pid=l.split()[1]
        out.append('### %s %s'%(pid,props[pid]['title']))
        s=seeds.get(pid)
        if s: out.append(''); out.append('Planted bugs caught: %s.'%', '.join('`%s`'%x for x in s))
    else: out.append(l)
open('/verif/DESIGN.md','w').write('\n'.join(out))
