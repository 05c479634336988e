import os
import sys; sys.path.insert(0,sys.argv[1] if len(sys.argv)>1 else "/verif"); sys.dont_write_bytecode=True
import numpy as rnp, math
from fractions import Fraction
from engine import sym, npshim, loader
from engine.sym import Ctx,set_ctx,S,C,B
rng=rnp.random.default_rng(3)
base=dict(v=rng.normal(size=5),w=rng.normal(size=5),M=rng.normal(size=(3,3)),N=rng.normal(size=(3,3)),T=rng.normal(size=(4,2,2)),U=rng.normal(size=(4,2)),
 P=rng.normal(size=(3,2)),ii=rnp.array([2,0,1]),z=rng.normal(size=3)+1j*rng.normal(size=3),s=0.7,n=3,mask=rnp.array([True,False,True,False,True]), V3=rng.normal(size=3), Q=rng.normal(size=(2,4,3)))
base={k:(rnp.round(x*64)/64 if k not in('ii','mask','n') else x) for k,x in base.items()}
E=[l for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "exprs.txt")).read().split("\n") if l.strip() and not l.startswith("#")]
def tofl(x):
    if isinstance(x,(list,tuple)): return [tofl(y) for y in x]
    if isinstance(x,rnp.ndarray):
        a=rnp.asarray(x)
        if a.dtype==object:
            a=a.view(rnp.ndarray); return [tofl(y) for y in a] if a.ndim else tofl(a.item())
        return a.tolist()
    if isinstance(x,S): 
        r=x.const() if hasattr(x,'const') else None
        return float(x)
    if isinstance(x,C): return complex(tofl(x.re),tofl(x.im))
    if isinstance(x,B): return bool(x)
    if isinstance(x,(rnp.generic,)): return x.item()
    if isinstance(x,dict): return {k:tofl(v) for k,v in x.items()}
    if hasattr(x,'__next__') or isinstance(x,(zip,map,range)): return [tofl(y) for y in x]
    return x
def close(a,b):
    if isinstance(a,list): return isinstance(b,list) and len(a)==len(b) and all(close(x,y) for x,y in zip(a,b))
    if isinstance(a,dict): return a.keys()==b.keys() and all(close(a[k],b[k]) for k in a)
    try: return abs(a-b)<1e-9*(1+abs(a))
    except TypeError: return a==b
def ns(np_,conv):
    import functools, operator, itertools, copy
    d={k:conv(rnp.array(x) if isinstance(x,rnp.ndarray) else x) for k,x in base.items()}
    d.update(math=(math if np_ is rnp else npshim.MATH),np=np_,functools=functools,operator=operator,itertools=itertools,copy=copy,float=float)
    return d
def run(e,d):
    if e.startswith("EXEC "):
        exec(e[5:].replace("\\n","\n"),d); return d["r"]
    return eval(e,d)
import warnings; warnings.simplefilter("ignore")
bad=0
for mode in("const","symb"):
  for e in E:
    e=e.strip()
    try: ref=tofl(run(e,ns(rnp,lambda x:x)))
    except Exception as x: print("REF",e,repr(x)); continue
    ctx=Ctx([]); set_ctx(ctx)
    cnt=[0]; sub={}
    def conv(x):
        if isinstance(x,rnp.ndarray) and x.dtype.kind in "iub": return x
        if isinstance(x,rnp.ndarray): return npshim.as_sarr(x) if x.dtype.kind=='f' else npshim.f_array(list(x))
        if isinstance(x,float): return sym.to_s(x)
        return x
    try:
        got=run(e,ns(npshim.NP,conv))
        if ctx.sticky is not None: raise ctx.sticky
        got=tofl(got)
        if not close(ref,got): print("DIFF",e,str(ref)[:150],str(got)[:150]); bad+=1
    except BaseException as x:
        if isinstance(x,KeyboardInterrupt): raise
        bad+=1; print("FAIL",e,type(x).__name__,str(x)[:150])
  break
print(len(E),"bad",bad)
