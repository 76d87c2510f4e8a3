import os,shutil,subprocess,sys,time
exec(open('/tmp/mu/muts.py').read())
w,nw=int(sys.argv[1]),int(sys.argv[2]); want=sys.argv[3:]
for nm,(id,props,file,subs) in enumerate([x for x in M if not want or any(x[0].startswith(q) for q in want)]):
    if nm%nw!=w: continue
    if want and not any(id.startswith(w) for w in want): continue
    d='/tmp/mu/'+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['cp','-a','/repo/src',d+'/src'])
    p=d+'/src/OpenMps/'+file; s=open(p,'rb').read().decode()
    bad=False
    for o,n in subs:
        if s.count(o)!=1: print(id,'MATCH',s.count(o),o[:50],flush=True); bad=True; break
        s=s.replace(o,n)
    if bad: shutil.rmtree(d); continue
    open(p,'wb').write(s.encode())
    t=subprocess.run(['bash','/tmp/seed/test.sh',d],capture_output=True,text=True)
    if t.returncode: print(id,'tests rc',t.returncode,t.stdout[-200:].replace('\n','|'),flush=True); shutil.rmtree(d); continue
    for c in props:
        t0=time.time()
        try:
            r=subprocess.run(['./run.sh',c,'quick'],cwd='/verif',env=dict(os.environ,VP_REPO=d,VP_BUILD=d+'/b',VP_JOBS='4',VP_FIRST='1'),capture_output=True,text=True,timeout=900)
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            inc=[l[:120] for l in r.stdout.split('\n') if l.startswith(('INCONCL','UNCONF','MODEL'))]
            print(id,c,'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,'%ds'%(time.time()-t0),v[0][-40:] if v else ' '.join(inc[:2]),flush=True)
        except subprocess.TimeoutExpired:
            print(id,c,'TIMEOUT',flush=True); subprocess.run(['pkill','-f','explore_main'])
    shutil.rmtree(d)
