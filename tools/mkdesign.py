import json,glob
head=open('/verif/tools/design/design_head.md').read()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
txt={}
exec(open('/verif/tools/design/design_props.py').read())
out=[head,'\n## The properties and how each is decided\n']
for p in props:
    if p['id'] in txt:
        out.append('**%s %s.** %s\n'%(p['id'],p['title'],' '.join(txt[p['id']].split())))
out.append('\n### Not applicable\n')
for n in json.load(open('/verif/MANIFEST.json'))['not_applicable']:
    t=[p['title'] for p in props if p['id']==n['property']][0]
    out.append('**%s %s.** %s\n'%(n['property'],t,n['reason']))
out.append(open('/verif/tools/design/design_tail.md').read())
out.append('\n## Planted bugs\n\nEvery change below applies to HEAD, builds, passes the stable tests, fails its demonstration, and is\nreported by the check of its property (column "check"); none was missed at the time of the last run.\n\n| change | check | what it breaks | what it needs to show |\n|---|---|---|---|\n')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); c=lambda s:' '.join(str(s).split()).replace('|','/')
    out.append('| %s | %s | %s | %s |\n'%(d.split('/')[3],m['property'],c(m['what_it_breaks']),c(m['needs'])[:160]))
out.append('\n## Defects found in the repository\n\nRepaired (one `fix:` commit each; the check of the property reports the defect again if it returns):\n\n')
for f in json.load(open('/verif/known-findings.json')):
    if f['status']=='fixed': out.append('* %s `%s` %s\n'%(f['property'],f['commit'],f['what']))
out.append('\nRecorded, not repaired (printed as KNOWN-FINDING):\n\n')
for f in json.load(open('/verif/known-findings.json')):
    if f['status']!='fixed': out.append('* %s %s\n'%(f['property'],f.get('what') or f.get('text')))
out.append(open('/verif/tools/design/design_susp.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(x if x.endswith('\n') else x+'\n' for x in out[:3])+''.join(out[3:]) if False else ''.join(x if x.endswith('\n') else x+'\n' for x in out))
