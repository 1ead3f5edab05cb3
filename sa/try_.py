import sys, traceback, time
sys.path.insert(0,'/verif/sa')
from engine import *
import contracts
CT={'sem':contracts.G,'prim':contracts.PRIM,'none':{}}
def mkE(mode): return Engine(db,'raw' if mode in('raw',) else 'sem',CT.get(mode,{}))
db=DB(); db.load('/verif/.build/out/fawkes_crypto.json')
def find(s): return [b for b in db.bodies.values() if s in strip_generics(b['p']) or s in b['id']]
if __name__=='__main__':
    if sys.argv[1]=='-l':
        for b in db.bodies.values():
            if b.get('kind')!='closure' : print(b['id'],'|',strip_generics(b['p']))
        sys.exit()
    mode=sys.argv[2] if len(sys.argv)>2 else 'sem'
    for b in find(sys.argv[1]):
        if '{closure' in b['id']: continue
        print('=====',b['id'],b['g'])
        e=mkE(mode)
        t=time.time()
        try:
            S=e.run(b,{})
            print('ret',show(S.ret,7)[:1500]); print('outs',{k:show(v,7)[:1500] for k,v in S.outs.items()}); print('pan',show(S.pan)[:600]); 
            for g,k,p in S.eff: print('eff',show(g),k,p)
        except Unsup as x: print('UNSUP',x)
        except Exception: traceback.print_exc(limit=-6)
        print('unknown',e.unknown,'%.2fs'%(time.time()-t))
