import json,sys,collections
tot=collections.Counter(); viol={}; errs=collections.Counter(); ch=collections.Counter(); per={}
n=0
for l in open(sys.argv[1]):
    d=json.loads(l)
    if 'root' not in d:
        print(l[:1500].strip()); continue
    n+=1
    for k in ('ms','steps','paths','splits','checks','calls'): tot[k]+=d.get(k,0)
    for k,v in d.get('check_sites',{}).items(): ch[k]+=v
    r=d['root']; per.setdefault(r,[0,0,0]); per[r][0]+=1; per[r][1]+=d.get('ms',0); per[r][2]+=d.get('paths',0)
    for v in d.get('violations',[]): viol.setdefault((r,v['rule']),[]).append((d['type'],d.get('shard'),v['text']))
    for e in d['errors']: errs[(r,d['type'] if len(sys.argv)>2 else '',e[:700])]+=1
print(n,dict(tot)); 
for r,v in sorted(per.items(),key=lambda x:-x[1][1]): print('  ',r,v)
for k,v in ch.items(): print('   check',v,k)
for k,v in list(viol.items())[:12]:
    print('VIOL',k,len(v),[x[0] for x in v[:4]]); print(v[0][2][:2600])
for k,v in list(errs.items())[:12]: print('ERR',v,*k)
