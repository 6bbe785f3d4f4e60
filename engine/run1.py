import sys, time, importlib, argparse
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import z3, cfront, vc, solve
from vc import *
from contracts.base import REG
import contracts
VSEL=None; TMO=10
MODS=['core','options','dgops','product','union','dist','spi','check','findseeds','exclusion','typecount', 'typegraph','nng','batch','hier','hiparts','stats','cluster']
def load_all():
    for m in MODS:
        try:
            importlib.import_module('contracts.'+m)
        except ModuleNotFoundError as e:
            if 'contracts.'+m not in str(e): raise
def verify(prog, name, timeout=10, verbose=True, deadline=None, workers=8):
    con=REG[name]
    res=[]
    t0=time.time()
    allobs=[]
    vs=getattr(con,'variants',[{}])
    for var in (vs if VSEL is None else [vs[VSEL]]):
        eng=Engine(prog, REG)
        Ctx0=sys.modules['contract'].Ctx
        Ctx0.variant=var
        info=con.verify(eng)
        t1=time.time()
        n=solve.discharge(eng, eng.obs, timeout, workers, deadline)
        allobs+=eng.obs
        if verbose: print('  %s %s: %d obs, %d quick, %d unique smt, paths %d loops %d, gen %.1fs smt %.1fs'%(name,var,len(eng.obs),eng.nquick,n,info['paths'],info['loops'],t1-t0,time.time()-t1))
    return allobs
if __name__=='__main__':
    import gc; gc.disable()
    load_all()
    prog=cfront.load()
    names=sys.argv[1:] or list(REG)
    dump=None
    if names[0].startswith('-d'): dump=names.pop(0)[2:]
    while names[0].startswith('-'):
        o=names.pop(0)
        if o[1]=='v': VSEL=int(o[2:])
        if o[1]=='t': TMO=float(o[2:])
    for n in names:
        if REG[n].trusted: continue
        try:
            obs=verify(prog,n,TMO)
        except Unsupported as e:
            import traceback
            print(n,'UNSUPPORTED',e); traceback.print_exc(limit=-8) if __import__('os').environ.get('TB') else None; continue
        for o in sorted(obs,key=lambda o:-(o.time or 0))[:3]:
            if (o.time or 0)>3: print('   slow %.1f %s %s %s'%(o.time,o.kind,o.name,o.backend))
        bad=[o for o in obs if o.status!='ok']
        for o in bad[:12][::-1]:
            print('   FAIL',o.kind,'|',o.name,'|',o.status,[x[:22] for x in (o.out or [])],' / '.join(str(t)[-45:] for t in (o.trace or [])[-5:]))
            if dump: open('/tmp/w/%s.smt2'%dump,'w').write(solve.HEAD+(o.model or ''))
        print(n,'OK' if not bad else 'FAILED %d/%d'%(len(bad),len(obs)))
