#!/usr/bin/env python3
"""mkseed.py ID PROP FILE: reads OLD, NEW, needs, what and demo.go from a spec file and writes seeded/ID.
Spec file sections: ### file path / ### old / ### new (repeatable) / ### needs / ### what / ### demo"""
import sys,os,re,subprocess,json,shutil
spec=sys.argv[1]
V='/verif'
for block in open(spec).read().split('=====\n'):
    if not block.strip(): continue
    parts=re.split(r'^### (.*)\n',block,flags=re.M)
    hdr=parts[0].split(); id,prop=hdr[0],hdr[1]
    w=f'/tmp/mk-{id}'; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',w])
    cur=None; old=None; meta={'property':prop}; demo=None
    for k,body in zip(parts[1::2],parts[2::2]):
        if k.startswith('file '): cur=k[5:].strip()
        elif k=='old': old=body.rstrip('\n')
        elif k=='new':
            s=open(f'{w}/{cur}').read(); assert s.count(old)==1,(id,s.count(old),old)
            s=s.replace(old,body.rstrip('\n')); open(f'{w}/{cur}','w').write(s)
        elif k=='needs': meta['needs']=' '.join(body.split())
        elif k=='what': meta['what_it_breaks']=' '.join(body.split())
        elif k=='demo': demo=body
    d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
    open(f'{d}/demo.go','w').write(demo)
    shutil.copy(f'{V}/tools/demo_template.sh',f'{d}/demo.sh')
    json.dump(meta,open(f'{d}/meta.json','w'),indent=1)
    shutil.rmtree(w); print(id)
