import sys, traceback, time, collections
sys.path.insert(0,'/verif/sa')
from try_ import *
pat=sys.argv[1]; mode=sys.argv[2]
for b in db.bodies.values():
    if pat not in b['id'] or '{closure' in b['id'] or '_IMPL_' in b['id'] or '::fmt' in b['id'] or any(x in b['id'] for x in sys.argv[3:]): continue
    e=mkE(mode); t=time.time()
    try: S=e.run(b,{}); r='ok'
    except Unsup as x: r='UNSUP '+str(x)[:150]
    except Exception as x:
        tb=traceback.extract_tb(x.__traceback__)[-1]
        r='EXC %s %s:%d'%(repr(x)[:150],tb.filename.split('/')[-1],tb.lineno)
    print(b['id'].replace('fawkes_crypto::',''),strip_generics(b['p']).split('::')[-2],'->',r,e.unknown or '','%.1f'%(time.time()-t) if time.time()-t>1 else '')
