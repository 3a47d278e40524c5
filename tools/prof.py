import collections
d=collections.defaultdict(lambda:[0,0,0])
for l in open('/tmp/verif-profile.txt'):
    t,n,j=l.split(None,2); j=eval(j); k=j[:3] if isinstance(j,tuple) else j
    d[k][0]+=float(t); d[k][1]+=int(n); d[k][2]=max(d[k][2],float(t))
for k,v in sorted(d.items(), key=lambda x:-x[1][0])[:45]: print(k,round(v[0],1),v[1], round(v[0]/max(1,v[1])*1e3,2),"ms", "max",v[2])
print("total", sum(v[0] for v in d.values()))
