import os, subprocess, shutil, json, sys
KIT='/verif/seedkit'
def mk(id, prop, edits, needs, breaks, plain=None, main=None, cases=None, standin=None, py=None):
    d='/verif/seeded/'+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    wt='/tmp/seedwt'
    if not os.path.exists(wt):
        subprocess.check_call(['git','-C','/repo','worktree','add','--detach',wt,'HEAD'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    subprocess.check_call(['git','-C',wt,'checkout','-q','--','.'])
    subprocess.check_call(['git','-C',wt,'checkout','-q','--detach',subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()])
    for f,old,new in edits:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1, (id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',wt,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    subprocess.check_call(['git','-C',wt,'checkout','-q','--','.'])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    ign=shutil.ignore_patterns('__pycache__')
    if plain is not None:
        shutil.copy(KIT+'/run_plain.sh',d+'/demo.sh'); open(d+'/sources','w').write(plain+'\n'); open(d+'/main.cpp','w').write(main)
        if standin: shutil.copytree('/verif/standin',d+'/standin',ignore=ign)
    elif py is not None:
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py" "$(pwd)"\n'); open(d+'/demo.py','w').write(py)
    else:
        shutil.copy(KIT+'/run_v3x.sh',d+'/demo.sh'); shutil.copytree('/verif/standin',d+'/standin',ignore=ign)
        if main: open(d+'/main.cpp','w').write(main)
        else: shutil.copy(KIT+'/main_cases.cpp',d+'/main.cpp')
        open(d+'/cases','w').write('\n'.join(cases or [])+'\n')
        if not os.path.exists('/tmp/refbin'): raise SystemExit('no ref')
        # expected output from the unchanged tree
        open(d+'/expected.txt','w').write('')
    os.chmod(d+'/demo.sh',0o755)
    print('made',id)
