#!/usr/bin/env python3
"""Developer tool (python3-vt): emits function values evaluated by mpmath as JSON
lines, to cross-validate harness/ref/trans.go.
usage: transcross.py N SEED > FILE ; then  TRANSCROSS=FILE go test ./ref"""
import sys, json, random
import mpmath as mp
N=int(sys.argv[1]); R=random.Random(int(sys.argv[2]))
def dec(lo,hi,neg=True):
    k=R.choice([1,2,3,8,17,25,40]); c=R.randrange(1,10**k)
    if R.random()<.2: c=10**k+R.choice([-1,1])
    e=R.randrange(lo,hi+1)-len(str(c))
    return ('-' if neg and R.random()<.5 else '')+'%dE%d'%(c,e)
F=['Exp','Log','Log10','Pow','Sin','Cos','Tan','Atan','Asin','Acos','Atan2','Hypot','Pi','E']
for _ in range(N):
    f=R.choice(F); x=dec(-20,4); y=dec(-6,3); need=R.choice([10,20,60,150,600])
    if f in('Log','Log10','Pow'): x=dec(-30,30,False)
    if f in('Log','Log10','Asin','Acos') and R.random()<.3:
        k=R.randrange(1,30); x='%dE-%d'%(10**k+(R.choice([-3,-1,1,2]) if f[0]=='L' else -R.randrange(1,4)),k)
    if f in('Asin','Acos'):
        while abs(mp.mpf(x))>=1: x=dec(-20,0)
    if f in ('Sin','Cos','Tan') and R.random()<.3: x=dec(0,30)
    mp.mp.prec=need+400
    X,Y=mp.mpf(x),mp.mpf(y)
    if f=='Exp' and abs(X)>1e5: continue
    r={'Exp':lambda:mp.exp(X),'Log':lambda:mp.log(X),'Log10':lambda:mp.log(X)/mp.log(10),'Pow':lambda:mp.power(X,Y),'Sin':lambda:mp.sin(X),'Cos':lambda:mp.cos(X),'Tan':lambda:mp.tan(X),'Atan':lambda:mp.atan(X),'Asin':lambda:mp.asin(X),'Acos':lambda:mp.acos(X),'Atan2':lambda:mp.atan2(X,Y),'Hypot':lambda:mp.hypot(X,Y),'Pi':lambda:+mp.pi,'E':lambda:+mp.e}[f]()
    if r==0: continue
    s=mp.nstr(r,int(need*.30103)+20,min_fixed=1,max_fixed=0,strip_zeros=False)
    m,e=s.split('e') if 'e' in s else (s,'0')
    neg=m.startswith('-'); m=m.lstrip('-'); i,_,fr=m.partition('.')
    print(json.dumps(dict(F=f,X=x,Y=y,Need=need,R=('-' if neg else '')+'%dE%d'%(int(i+fr),int(e)-len(fr)))))
