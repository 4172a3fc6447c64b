#!/usr/bin/env python3
"""Development helper: generate a topic, validate it and summarise the deviations."""
import re,subprocess,sys,json,collections,os,glob
from concurrent.futures import ThreadPoolExecutor
topic=sys.argv[1]; seed=sys.argv[2] if len(sys.argv)>2 else '1'; show=int(sys.argv[3]) if len(sys.argv)>3 else 3; reps=sys.argv[4] if len(sys.argv)>4 else '1'
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)));pre=R+"/build/tr/"+os.environ.get("CFG","std")+topic
os.makedirs(R+"/build/tr",exist_ok=True)
for f in glob.glob(pre+'.*.ndjson'): os.remove(f)
r=subprocess.run([R+"/build/t-"+os.environ.get("CFG","std")+"/debug/vecdrv",'gen',topic,seed,reps,'8',pre]+sys.argv[5:6],capture_output=True,text=True)
print(r.stdout.strip(),r.stderr[-500:])
def go(f):
    return f,subprocess.run([R+"/tools/tlc.sh",f],capture_output=True,text=True).stdout
groups=collections.defaultdict(list)
tot=0
with ThreadPoolExecutor(8) as ex:
    for f,o in ex.map(go,sorted(glob.glob(pre+'.*.ndjson'))):
        lines=open(f).read().split('\n')
        ok=False
        for l in o.split('\n'):
            l=l.strip().strip('"').replace('\\"','"')
            if l.startswith('LINES'): ok=True; tot+=int(l.split()[3])
            if l.startswith('MISMATCH'):
                p=l.split(' ',2); n=int(p[1]); d=json.loads(lines[n-1])
                k=n-1
                while k>=0 and not lines[k].startswith('{"op":"new"'): k-=1
                h=json.loads(lines[k])
                what=p[2].split(' EXPECTED ')[0]
                groups[(what, re.sub('[0-9]+','#',d.get('msg',''))[:60])].append((f,n,h,lines[k:n],p[2].split(' EXPECTED ')[-1]))
        if not ok: print(f, o[-1500:]); break
print('mismatches',tot)
for k,v in sorted(groups.items()):
    print('=====',k,len(v), collections.Counter((h['w'],)+tuple((i['ty'],i['cx']) for i in h['ini'][:1]) for _,_,h,_,_ in v).most_common(8))
    v.sort(key=lambda x:sum(len(y) for y in x[3]))
    for f,n,h,ls,exp in v[:show]:
        print('  ',os.path.basename(f),n)
        h=json.loads(ls[0]); print('      ',h['w'],h['bk'],h['bd'],'q',h['q'],[(i['s'],i['ty'],i['cx'],i['fr'],i['dl'],'slack',i['sl'],'al',i['al'],'mc',i['mc'][0],len(i['d']),i['d'][:12]) for i in h['ini']])
        for x in ls[1:]:
            c=json.loads(x); print('       ',c['op'],c['t'],c['o'],c['a'][:12],'->',c['r'],c['n'][:14],c.get('msg','')[:80],[(i['s'],i['ty'],i['cx'],i['fr'],i['dl'],'nan' if i['dn'] else '',i['len'],i['d'][:24]) for i in c['ws']])
        print('       EXP',exp[:400])
