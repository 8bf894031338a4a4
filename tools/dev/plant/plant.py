import os,sys,subprocess,json,shutil,textwrap
REPO='/repo'
BUGS={}
def bug(id,prop,edits,needs,breaks,demo,imports='',demosh=None,kit=True,files=None):
    BUGS[id]=dict(prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,demosh=demosh,kit=kit,files=files or {})
def run(cmd,cwd=None,timeout=400):
    p=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
    return p.returncode,(p.stdout+p.stderr)
def make(id):
    b=BUGS[id]
    d='/tmp/pw/'+id
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/pw',exist_ok=True)
    rc,o=run(f'git clone -q {REPO} {d}'); assert rc==0,o
    for path,old,new in b['edits']:
        p=os.path.join(d,path); s=open(p).read()
        assert s.count(old)==1,(id,path,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    rc,o=run('. /opt/vp/env.sh; gofmt -l . | grep -v -e table_cvt -e table_post; go vet . ./internal/... 2>&1 | grep -v "^#" | head -5; cd truecli && go build -o /dev/null .',d)
    if rc or o.strip(): print(id,'BUILD',o)
    rc,patch=run('git diff',d)
    out=os.environ.get('OUT','/verif/seeded')+'/'+id
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(patch)
    import re
    cur=None; ln=0; own=[]
    for l in patch.split('\n'):
        m=re.match(r'--- a/(.*)',l)
        if m: cur=m[1]; bl=run(f'git blame -l {cur}',REPO)[1].split('\n'); continue
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            if not bl[ln-1].startswith('^654315a') and not bl[ln-1].startswith('654315a'): own.append((cur,ln,l))
            ln+=1
        elif l.startswith(' '): ln+=1
    if own: print(id,'NOT ORIGINAL',own)
    if b['kit']:
        shutil.copy('/tmp/plant/kit.go',out+'/kit.go'); open(out+'/demo.sh','w').write(b['demosh'] or open('/tmp/plant/demo.sh').read())
        imps=['"testing"']+[f'"{i}"' for i in b['imports'].split()]
        src='package unitype_test\n\nimport (\n'+'\n'.join('\t'+i for i in sorted(imps))+'\n)\n\n'+textwrap.dedent(b['demo']).strip()+'\n'
        open(out+'/demo.go','w').write(src)
        run(f'. /opt/vp/env.sh; gofmt -w {out}/demo.go')
    else:
        open(out+'/demo.sh','w').write(b['demosh'])
        for n,c in b['files'].items(): open(out+'/'+n,'w').write(c)
    run(f'chmod +x {out}/demo.sh')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
    tmp='/tmp/pw/demo-'+id; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(out,tmp)
    rc0,o0=run(f'bash {tmp}/demo.sh','/repo')
    rc1,o1=run(f'bash {tmp}/demo.sh',d)
    rc2,o2=run(f'. /opt/vp/env.sh; go test ./... -v 2>&1 | grep -e "--- PASS"',d)
    got=set(l.split()[2] for l in o2.split('\n') if '--- PASS' in l)
    miss=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.split('unitype/',1)[1].replace('internal/strutils/','') not in got]
    o2='OK' if not miss else 'MISSING '+str(miss)
    print(id,b['prop'],'clean',rc0,'patched',rc1,'tests',o2.replace('\n',' '))
    if rc0: print('CLEAN OUTPUT',o0[-1500:])
    if not rc1 or 'build failed' in o1: print('PATCHED OUTPUT',o1[-1500:])
    else: print('   ',[l for l in o1.split('\n') if 'demo.go' in l or 'panic' in l or 'FAIL' in l or 'race' in l.lower()][:2])
    shutil.rmtree(tmp)
if __name__=='__main__':
    exec(open('/tmp/plant/bugs.py').read()); exec(open('/tmp/plant/bugs2.py').read()); exec(open('/tmp/plant/bugs3.py').read()); exec(open('/tmp/plant/bugs4.py').read()); exec(open('/tmp/plant/bugs5.py').read()); exec(open('/tmp/plant/bugs6.py').read()); exec(open('/tmp/plant/bugs7.py').read())
    for id in (sys.argv[1:] or BUGS): make(id)
