import json,sys
seen=set(open('/tmp/triaged').read().split('\n')) if len(sys.argv)>1 and __import__('os').path.exists('/tmp/triaged') else set()
ls=[json.loads(l) for l in open('/tmp/mut.jsonl')]
out=[]
for m in ls:
    if m['Status']=='survived' or 'broken' in m['Status']:
        k=f"{m['File']}:{m['Line']}:{m['From']}:{m['Op']}:{m['New']}"
        if k in seen: continue
        src=open('/repo/'+m['File']).read().split('\n')[m['Line']-1].strip()
        out.append((m['File'],m['Line'],m['Op'],m['Old'][:50],m['New'][:50],src[:90],m['Status'][:60] if m['Status']!='survived' else '',k))
out.sort()
for o in out: print(f"{o[0]}:{o[1]} {o[2]} {o[3]!r} -> {o[4]!r} | {o[5]} {o[6]}")
open('/tmp/triaged','a').write('\n'.join(o[7] for o in out)+'\n')
