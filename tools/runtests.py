# usage: runtests.py TREE : stable tests on a copy of the repository; prints those that fail
import json,subprocess,sys,os,tempfile
tree=sys.argv[1]
base=json.load(open('/opt/vp/BASELINE.json'))
t=open('/opt/vp/test.sh').read().replace('/repo',tree)
e=open('/opt/vp/env.sh').read().replace('/repo',tree)
w=tempfile.mkdtemp()
ov={"Replace":{tree+"/go.mod":"/opt/vp/gomod/go.mod",tree+"/go.sum":"/opt/vp/gomod/go.sum"}}
json.dump(ov,open(w+'/ov.json','w'))
e=e.replace('/opt/vp/gomod/overlay.json',w+'/ov.json')
open(w+'/env.sh','w').write(e)
t=t.replace('/opt/vp/env.sh',w+'/env.sh')
open(w+'/test.sh','w').write(t)
r=subprocess.run(['bash',w+'/test.sh',w+'/out.json'],capture_output=True,text=True)
o=json.load(open(w+'/out.json'))
print(json.dumps(o)[:300] if '-v' in sys.argv else '')
def flat(x):
    if isinstance(x,dict):
        for k in ('passed','pass','passing'):
            if k in x: return set(x[k])
    return None
stable=flat(base) or set(base.get('stable',[]))
got=flat(o) or set()
print("stable",len(stable),"missing:",sorted(stable-got))
subprocess.run(['rm','-rf',w])
