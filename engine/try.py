import sys,time,build
from terms import *
from absint import *
import models
d,h=build.mir()
p=Program(d)
e=Engine(p)
crate,fn=sys.argv[1],sys.argv[2]
f=p.find(crate,fn)
pre=None
if len(sys.argv)>3:
    var=sys.argv[3]
    msgi=[p_[1][0] for p_ in f.body['names'] if p_[0]=='msg'][0]
names={}
for n,pl in f.body['names']:
    if len(pl)==1 and 1<=pl[0]<=f.body['argc']: names[pl[0]]=n
args=[arg(names.get(i+1,'a%d'%i).lstrip('_')) for i in range(f.body['argc'])]
def pre(e,st):
    if len(sys.argv)>3: st.d[arg('msg')]=('is',sys.argv[3])
t0=time.time()
outs=e.entry(f,args,pre)
def showfacts(s):
    for k,v in s.d.items(): print('    ',show(k),v)
    for (a,b),v in s.o.items(): print('    ',show(a),''.join(sorted(v)),show(b))
    for k,v in s.b.items(): print('    ',('' if v else 'NOT '),show(k))
def showeff(ef,ind='    '):
    for x in ef:
        if x[0]=='loop':
            print(ind,'loop',x[1])
            for fa,ee in x[2]:
                print(ind,'  alt',[ (y[0],show(y[1]) if not isinstance(y[1],tuple) or y[0]!='o' else show(y[1][0])+'?'+show(y[1][1]),y[2]) for y in fa]); showeff(ee,ind+'     ')
        else: print(ind,x[0],[show(y) if isinstance(y,T) else y for y in x[1:]])
n=0
for s,v in outs:
    if v.k=='adt' and v.a[1]=='Err': continue
    n+=1
    if n>int(sys.argv[4]) if len(sys.argv)>4 else n>2: continue
    print('== OK path'); showfacts(s); print('   effects'); showeff(s.eff); print('   ret',show(v))
print(len(outs),'paths',n,'ok',time.time()-t0,'s')
print({k:v for k,v in e.stats.items() if k!='functions'})
