import subprocess,sys,os,shutil
P={}
def probe(id,props,*edits): P[id]=(props,edits)
exec(open('/tmp/pb/probes.py').read())
ids=sys.argv[1:] or [i for i in P]
for id in ids:
    props,edits=P[id]
    d='/tmp/pb/w-'+id
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    bad=False
    for path,old,new in edits:
        p=d+'/'+path; s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT COUNT',s.count(old),old[:60]); bad=True; break
        open(p,'w').write(s.replace(old,new))
    if not bad:
        r=subprocess.run(f'. /opt/vp/env.sh; gofmt -l . | grep -v -e table_cvt -e table_post; go vet . ./internal/... 2>&1 | grep -v "^#" | head -5',shell=True,cwd=d,capture_output=True,text=True)
        if r.stdout.strip(): print(id,'BUILD',r.stdout[:400])
        t=subprocess.run('. /opt/vp/env.sh; go test ./... -v 2>&1 | grep -c -e "--- PASS"',shell=True,cwd=d,capture_output=True,text=True).stdout.strip()
        r=subprocess.run(['/verif/tools/against.sh',d]+props.split(),capture_output=True,text=True,env=dict(os.environ,CUT='230'))
        print(id,'tests',t,'|',r.stdout.strip().replace('\n','\n     '),r.stderr[-300:],flush=True)
    shutil.rmtree(d,ignore_errors=True)
