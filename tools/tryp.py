import sys,time; sys.path.insert(0,'/verif')
from vp.core import *; from vp.gen import *; import vp.props as P, collections
jh=build_harness(); w=BUILD+"/t/w"
for pid in sys.argv[2:]:
  for gen,cl in [P.TRACE[pid]]+P.MORE.get(pid,[]):
    rng=random.Random(int(sys.argv[1]))
    t=time.time(); S=gen(rng,False); R=run_harness(jh,S,w,"p"); T=[convert(s,r) for s,r in zip(S,R)]
    c=collections.Counter((x['op'][:5],x.get('ret') if x['op'] not in('read','safe') or x.get('ret',0)<0 else 'ok') for r in R for x in r if x['op'] in('read','safe','alloc','init','initex','crash','hang'))
    idx=[i for i in range(len(T)) if T[i] is not None]
    th=time.time()-t; t=time.time()
    a,st,d=validate([T[i] for i in idx],set(cl.split()),w,"p",cfg="JentTraceOut.cfg" if set(cl.split())&{"out","residue"} else "JentTrace.cfg")
    bad=[idx[j] for j in range(len(idx)) if j not in a]
    print(pid,len(S),"scn; bad",len(bad),st,"harness %.1f tlc %.1f"%(th,time.time()-t),dict(c))
    dd={idx[k]:v for k,v in d.items()}
    for i in bad[:6]: print("   ",i,S[i].note,[x[:220] for x in dd.get(i,[])][-2:], [e for e in T[i]['ev'] if e['op'] in('crash','badjson')][:1]); open(w+'/%s_%d.scn'%(pid,i),'w').write(S[i].script(1))
