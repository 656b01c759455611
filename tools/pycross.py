#!/usr/bin/env python3
"""Developer tool: emits General-Decimal-Arithmetic cases evaluated by CPython's
decimal module (libmpdec), as JSON lines, to cross-validate harness/ref.
usage: pycross.py N SEED > FILE ; then  PYCROSS=FILE go test ./ref"""
import sys, json, random
import decimal as D
N=int(sys.argv[1]); R=random.Random(int(sys.argv[2]))
MODES=[D.ROUND_HALF_EVEN,D.ROUND_HALF_UP,D.ROUND_DOWN,D.ROUND_UP,D.ROUND_FLOOR,D.ROUND_CEILING,D.ROUND_HALF_DOWN]
FL=[('Clamped',D.Clamped),('DivisionByZero',D.DivisionByZero),('Inexact',D.Inexact),('Overflow',D.Overflow),('Rounded',D.Rounded),('Subnormal',D.Subnormal),('Underflow',D.Underflow),('InvalidOperation',D.InvalidOperation)]
def coef(p):
    k=R.randrange(8); n=R.choice([1,2,3,p-1,p,p+1,p+2,2*p,19,20,21]); n=max(1,n)
    if k==0: return R.randrange(0,20)
    if k==1: return 10**n-1-R.choice([0,0,1])
    if k==2: return 10**n+R.choice([0,0,1])
    if k==3: return 5*10**n+R.choice([-1,0,0,1])
    if k==4: return 2**64+R.choice([-2,-1,0,1])
    if k==5: return int('9'*max(1,n-2)+R.choice(['5','50','49','51']))
    return R.randrange(10**n)
def dec(p,emin,emax):
    k=R.randrange(14)
    s=R.choice('+-')
    if k==0: return s+R.choice(['Infinity','NaN','sNaN','NaN12','sNaN3'])
    if k==1: return s+'0E%d'%R.choice([0,1,-1,emin,emax,emin-p,emax+3,-p])
    c=coef(p)
    e=R.choice([0,0,0,1,-1,R.randrange(-p-3,p+4),emin-len(str(c))+1+R.randrange(-p,4),emax-len(str(c))+1+R.randrange(-3,4),R.randrange(-40,40)])
    return s+'%dE%d'%(c,e)
OPS=['add','sub','mul','fma','quo','quoint','rem','quantize','toint','plus','sqrt','cmp','cmptotal','class','nextplus','nextminus','str']
for _ in range(N):
    p=R.choice([1,2,3,4,5,7,9,16,19,20,21,34]); 
    emax=R.choice([p+2,9,96,384,6144]); emax=max(emax,p); emin=R.choice([-emax+1,-emax,-9,-p-1]); 
    m=R.randrange(7)
    c=D.Context(prec=p,rounding=MODES[m],Emin=emin,Emax=emax,capitals=1,clamp=0,traps=[])
    big=D.Context(prec=D.MAX_PREC//10**9,Emax=D.MAX_EMAX,Emin=D.MIN_EMIN,traps=[])
    xs=[big.create_decimal(dec(p,emin,emax)) for _ in range(3)]
    op=R.choice(OPS); q=0
    x,y,u=xs
    if op=='sqrt' and R.random()<.4 and x.is_finite():
        t=D.Decimal(coef(max(1,p//2)))
        x=big.multiply(t,t).scaleb(2*R.randrange(-9,9),big); xs[0]=x
    if op in('quoint','rem') and x.is_finite() and y.is_finite() and abs(x.adjusted()-y.adjusted())>3000: continue
    if op=='quo' and R.random()<.3 and x.is_finite() and y.is_finite():
        x=big.multiply(y,D.Decimal(coef(max(1,p//2)))); xs[0]=x
    try:
        if op=='add': r=c.add(x,y)
        elif op=='sub': r=c.subtract(x,y)
        elif op=='mul': r=c.multiply(x,y)
        elif op=='fma': r=c.fma(x,y,u)
        elif op=='quo': r=c.divide(x,y)
        elif op=='quoint': r=c.divide_int(x,y)
        elif op=='rem': r=c.remainder(x,y)
        elif op=='quantize':
            q=R.choice([0,-1,1,R.randrange(-p-2,p+2),emin,emax,emin-p+1,emin-p,emax+1])
            r=c.quantize(x,D.Decimal((0,(1,),q)))
        elif op=='toint': r=c.to_integral_exact(x)
        elif op=='plus': r=c.plus(x)
        elif op=='sqrt': r=c.sqrt(x)
        elif op=='cmp':
            if x.is_nan() or y.is_nan(): continue
            r=str(x.compare(y,context=big)); 
        elif op=='cmptotal': r=str(x.compare_total(y))
        elif op=='class': r=x.number_class(c)
        elif op=='nextplus': r=c.next_plus(x)
        elif op=='nextminus': r=c.next_minus(x)
        elif op=='str': r=str(x)
    except (D.InvalidOperation,MemoryError) as e:
        continue
    def enc(d):
        if isinstance(d,str): return d
        s,dg,e=d.as_tuple()
        sg='-' if s else ''
        if e=='F': return sg+'Inf'
        if e in('n','N'):
            return sg+('NaN' if e=='n' else 'sNaN')+''.join(map(str,dg))
        return sg+''.join(map(str,dg))+'E%d'%e
    print(json.dumps(dict(op=op,p=p,m=m,emax=emax,emin=emin,q=q,x=enc(xs[0]),y=enc(y),u=enc(u),r=enc(r),f=[n for n,f in FL if c.flags[f]])))
