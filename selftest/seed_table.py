import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/S*')):
    m=json.load(open(d+'/meta.json')); rows.append('| %s | %s | %s | %s | caught by %s |'%(os.path.basename(d),m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),m['property']))
t=open('/verif/DESIGN.md').read()
a='<!-- seeds -->'; b='<!-- /seeds -->'
i=t.index(a)+len(a); j=t.index(b)
open('/verif/DESIGN.md','w').write(t[:i]+'\n| id | property | what it breaks | needs | result |\n|---|---|---|---|---|\n'+'\n'.join(rows)+'\n'+t[j:])
