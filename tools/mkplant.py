import os, subprocess, json, sys, shutil
R='/repo'; S='/verif/seeded'
TPL=open('/verif/tools/demo_template.sh').read()
def plant(id, prop, edits, demo, needs, breaks):
    d=f'{S}/{id}'; os.makedirs(d, exist_ok=True)
    t='/tmp/pl'; shutil.rmtree(t, ignore_errors=True); 
    subprocess.run(['git','-C',R,'worktree','prune']); subprocess.run(['git','clone','-q','-s',R,t],check=True)
    for f,old,new in edits:
        p=f'{t}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(id,'MATCHES',s.count(old),f,repr(old)); return
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',t,'diff'],text=True); open(d+'/patch.diff','w').write(diff)
    # removed lines must be original ones
    root=subprocess.check_output(['git','-C',R,'rev-list','--max-parents=0','HEAD'],text=True).split()[-1]
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            f=edits[0][0]
            if not any(l[1:] in subprocess.run(['git','-C',R,'show',f'{root}:{e[0]}'],capture_output=True,text=True).stdout.split('\n') for e in edits): print(id,'NOT ORIGINAL:',l)
    open(d+'/demo.cpp','w').write(demo.strip()+'\n'); open(d+'/demo.sh','w').write(TPL); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(t, ignore_errors=True); print(id,'ok')
PRE='''#include <cstdio>
#include <cmath>
#include <vector>
#include <memory>
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''
