"""Writes /verif/DESIGN.md: prose here, per-property tables from meta.py / props.py / seeded / known_findings."""
import sys, json, os, glob
sys.path.insert(0,'/verif')
import meta, props
K=json.load(open('/verif/known_findings.json'))['findings']
o=[open('/verif/doc/design_head.md').read()]
o.append('\n## 4. Properties: what decides them\n')
for p in meta.PROPS:
    pid=p['id']
    if pid not in props.PROPS: continue
    o.append('### %s %s\n'%(pid,p['title']))
    o.append('*Decided by*: symbolic execution of the real program from `main` on virtual input files; harness%s %s. *Oracle*: %s.\n'%('es' if len({j['harness'] for j in props.PROPS[pid]['jobs']})>1 else '', ', '.join('`harness/%s`'%h for h in sorted({j['harness'] for j in props.PROPS[pid]['jobs']})), p['_note']))
    o.append('*Why tests cannot settle it*: %s. *Code*: %s.\n'%(p['why_tests_cant'], ', '.join(p['anchors']['files'])))
    o.append('| job | quick bounds | thorough overrides |\n|---|---|---|')
    for j in props.PROPS[pid]['jobs']:
        q={**j.get('defs',{}),**j.get('quick',{})}; t=j.get('thorough',{})
        t={k:v for k,v in t.items() if q.get(k)!=v}
        o.append('| %s | %s | %s |'%(j['name'],' '.join('%s=%s'%kv for kv in q.items()),' '.join('%s=%s'%kv for kv in t.items()) or 'same'))
    kk=[x for x in K if isinstance(x,dict) and x['property']==pid]
    for x in kk: o.append('\nKnown finding %s: %s.'%(x['id'],x['what']))
    o.append('')
o.append(open('/verif/doc/design_tail.md').read())
o.append('\n## 8. Planted changes\n\n| id | property | needs | caught by the property\'s quick check |\n|---|---|---|---|')
res=json.load(open('/verif/seed_results.json')) if os.path.exists('/verif/seed_results.json') else {}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    o.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),res.get(i,'yes')))
open('/verif/DESIGN.md','w').write('\n'.join(o)+'\n')
