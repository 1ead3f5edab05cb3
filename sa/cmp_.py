import sys,time
from try_ import *
from compare import *
def body(s):
    r=[b for b in find(s) if b['id'].endswith(s) or strip_generics(b['p']).endswith(s)]
    assert len(r)==1,[b['id'] for b in r]
    return r[0]
def comp(a,b,layer='sem'):
    ea,eb=mkE(layer),mkE(layer)
    t=time.time()
    A=canon(ea.run(body(a),{})); B=canon(eb.run(body(b),{}))
    d=diff(A,B)
    print(a,b,'EQUAL' if not d else 'DIFF','%.1f'%(time.time()-t), ea.unknown, eb.unknown)
    for k,x,y in d:
        print('  ',k)
        if x is not None and y is not None:
            x,y=firstdiff(x,y); print('     A',show(x,8)[:700]); print('     B',show(y,8)[:700])
if __name__=='__main__':
    comp(sys.argv[1],sys.argv[2],*sys.argv[3:])
