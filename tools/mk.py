#!/usr/bin/env python3
"""mk.py FILE.py [ids...]: make + confirm seeded bugs defined in FILE.py (list BUGS)."""
import sys, os, subprocess, json, shutil
R='/repo'; S='/verif/seeded'
ns={}
exec(open(sys.argv[1]).read(), ns)
want=sys.argv[2:]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): assert sh('git -C /repo status --porcelain').stdout=='', 'repo dirty'
for b in ns['BUGS']:
    if want and b['id'] not in want: continue
    clean()
    d=f"{S}/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/demo.cc','w').write(b['demo'])
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Run in /repo. Exit 0: the property holds for this input.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -DNDEBUG -w {b.get('flags','')} -I. -I"$here" "$here/demo.cc" {b.get('srcs','')} -o "$tmp/demo" {b.get('libs','')}
timeout 120 "$tmp/demo"
''')
    os.chmod(d+'/demo.sh',0o755)
    for f,t in b.get('files',{}).items():
        os.makedirs(os.path.dirname(d+'/'+f) or d,exist_ok=True); open(d+'/'+f,'w').write(t)
    for f in b.get('copy',[]):
        dst=d+'/'+f; os.makedirs(os.path.dirname(dst),exist_ok=True); shutil.copy('/verif/shims/'+f,dst)
    try:
        sh('bash /opt/vp/build.sh')
        r=sh(f'bash {d}/demo.sh',cwd=R)
        if r.returncode: print(b['id'],'FAIL: demo fails on clean tree',r.stdout[-500:],r.stderr[-1500:]); continue
        for f,o,n in b['edits']:
            t=open(f'{R}/{f}').read()
            assert t.count(o)==1,(b['id'],f,t.count(o))
            open(f'{R}/{f}','w').write(t.replace(o,n))
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json')
        if r.returncode or '50 passed' not in r.stdout: print(b['id'],'FAIL build/test',r.stdout[-300:],r.stderr[-800:]); continue
        r=sh(f'bash {d}/demo.sh',cwd=R)
        if r.returncode==0: print(b['id'],'FAIL: demo passes with bug'); continue
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        r2=sh(f"python3 check.py {b['prop']} quick",cwd='/verif')
        caught= r2.returncode==1 and f"VIOLATION property={b['prop']}" in r2.stdout
        print(b['id'],'confirmed;', 'CAUGHT' if caught else f'MISSED rc={r2.returncode}', r2.stdout.strip().split('\n')[0][:200])
    finally:
        sh('git -C /repo checkout -- .')
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
