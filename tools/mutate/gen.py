import json,os,subprocess,shutil,sys
SRC='src/OpenMps/'
B={}
def bug(id,prop,file,subs,demo,needs,what,flags=''):
    B[id]=(prop,file,subs,demo,needs,what,flags)
exec(open('/tmp/seed/bugs.py').read())
want=sys.argv[1:]
for id,(prop,file,subs,demo,needs,what,flags) in B.items():
    if want and id not in want: continue
    wt='/tmp/seed/wt'
    shutil.rmtree(wt,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',wt])
    files=file if isinstance(file,list) else [file]*len(subs)
    err=None
    for f,(old,new) in zip(files,subs):
        p=f'{wt}/{SRC}{f}'
        s=open(p,'rb').read().decode('utf-8').replace('\r\n','\n') if False else open(p,'rb').read().decode('utf-8')
        crlf='\r\n' in s
        o,n=(old.replace('\n','\r\n'),new.replace('\n','\r\n')) if crlf else (old,new)
        if s.count(o)!=1: err=f'{id}: match count {s.count(o)} for {old[:60]!r}'; break
        open(p,'wb').write(s.replace(o,n).encode('utf-8'))
    if err: print(err); continue
    d=f'/verif/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',wt,'diff','--binary'],capture_output=True).stdout
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(open('/tmp/seed/demo.sh').read().replace('@FLAGS@',flags)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(demo.lstrip('\n'))
    shutil.copy('/tmp/seed/d.hpp',d+'/d.hpp')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(d+'/meta.json','w'),indent=1)
    subprocess.run(['git','-C',wt,'checkout','-q','--','.'])
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=wt,capture_output=True,text=True)
    subprocess.check_call(['git','-C',wt,'apply',d+'/patch.diff'])
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=wt,capture_output=True,text=True)
    subprocess.run(['rm','-rf','/tmp/seed/wt/_build'])
    # tests on the patched tree
    t=subprocess.run(['bash','/tmp/seed/test.sh',wt],capture_output=True,text=True)
    ok = r0.returncode==0 and r1.returncode not in (0,2) and t.returncode==0
    print('%s %s: clean=%d bug=%d tests=%d %s'%('OK ' if ok else 'BAD',id,r0.returncode,r1.returncode,t.returncode,(r1.stdout+r1.stderr)[:150].replace('\n',' | ')))
    if not ok: print('   ',r0.stdout[-500:],r0.stderr[-800:],t.stdout[-600:])
shutil.rmtree('/tmp/seed/wt',ignore_errors=True)
