"""plant.py SPEC.py [ids...]: build seeded/<id>, validate in scratch copy, run the check."""
import sys, os, json, shutil, subprocess, importlib.util
from concurrent.futures import ThreadPoolExecutor
spec=importlib.util.spec_from_file_location("spec",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids=set(sys.argv[2:])
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',QT_QPA_PLATFORM='offscreen')
def edit(root,e):
    f,old,new=e
    p=f'{root}/swprocess/{f}'; raw=open(p,'rb').read(); crlf=b'\r\n' in raw
    s=raw.decode().replace('\r\n','\n')
    assert s.count(old)==1,(f,s.count(old),old)
    s=s.replace(old,new)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'wb').write(s.encode())
def demo(root,d):
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=root,env=dict(ENV,PYTHONPATH=root),capture_output=True,text=True,timeout=300)
    return r.returncode,(r.stdout+r.stderr).strip().splitlines()[-1:] 
def go(b):
    i=b['id']; root=f'/tmp/pl/{i}'; d=f'/verif/seeded/{i}'
    shutil.rmtree(root,ignore_errors=True); subprocess.run(['cp','-a','/repo',root],check=True)
    try:
        subprocess.run(['git','checkout','-q','--','.'],cwd=root)
        os.makedirs(d,exist_ok=True)
        if 'demo' in b:
            open(d+'/demo.py','w').write(b['demo'].lstrip('\n'))
            open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0=demo(root,d)
        try:
            for e in b['edits']: edit(root,e)
        except AssertionError as x:
            return i,'EDIT',x
        diff=subprocess.run(['git','diff','--binary','--no-color'],cwd=root,capture_output=True).stdout
        open(d+'/patch.diff','wb').write(diff)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        r1=demo(root,d)
        if r0[0]!=0 or r1[0]==0: return i,'DEMO',r0,r1
        t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','-o','junit_family=xunit2',f'--junitxml=/tmp/pl/{i}.xml'],cwd=root+'/test',env=dict(ENV,PYTHONPATH=root),capture_output=True,text=True)
        import xml.etree.ElementTree as ET
        bad=[c.get('name') for c in ET.parse(f'/tmp/pl/{i}.xml').iter('testcase') if c.find('failure') is not None or c.find('error') is not None]
        stable={s.split('::')[-1] for s in base}
        bad=[x for x in bad if x in stable]
        if bad: return i,'TESTS',bad
        c=subprocess.run(['timeout','900','python3-vt','-m','symx.run',b['prop'],'--no-evidence'],cwd='/verif',env=dict(os.environ,SYMX_REPO=root),capture_output=True,text=True)
        return i,'CAUGHT' if c.returncode==1 and f'VIOLATION property={b["prop"]}' in c.stdout else 'MISSED', c.returncode,(c.stdout+c.stderr).strip().splitlines()[-2:] if c.returncode!=1 else ''
    finally:
        shutil.rmtree(root,ignore_errors=True)
bugs=[b for b in m.BUGS if not ids or b['id'] in ids]
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for r in ex.map(go,bugs): print(*r,flush=True)
