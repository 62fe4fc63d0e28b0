# helper: seed(id, prop, edits, demo, needs, breaks) writes /verif/seeded/<id>; edits: [(file, old, new)]
import os, json, subprocess
R='/tmp/sc/repo'
def sh(*a): return subprocess.run(a,capture_output=True,text=True,check=True).stdout
def seed(id, prop, edits, demo, needs, breaks):
    sh('git','-C',R,'checkout','-q','--','.')
    sh('git','-C',R,'fetch','-q','/repo','HEAD'); sh('git','-C',R,'reset','-q','--hard','FETCH_HEAD')
    for f,o,n in edits:
        p=f'{R}/packages/{f}'; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git','-C',R,'diff'))
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.mjs"\n'); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.mjs','w').write(demo.strip()+'\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    sh('bash','/verif/tools/mkkit.sh',d)
    sh('git','-C',R,'checkout','-q','--','.')
