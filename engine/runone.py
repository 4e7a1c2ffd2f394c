import sys, time
sys.path.insert(0, '/verif/engine')
from llparse import *
import symex
mod = Module(open(sys.argv[1]).read())
t0=time.time()
sx = symex.Symex(mod, sys.argv[2], {'log': sys.stderr})
try:
    sx.run(); print('OK', 'reach', sx.reach)
except symex.Violation as v:
    print('VIOLATION', v.kind, v.msg)
    import terms as tm
    memo={}
    print([ (tm.evaluate(v_, v.model, memo)) for pc, v_, k in sx.inputs if tm.evaluate(pc, v.model, memo)])
print('%.2fs'%(time.time()-t0), sx.nobl, sx.ndis, 'blocks', sx.blocks_run, 'maxloop', sx.maxloop, {k:(round(v,2) if isinstance(v,float) else v) for k,v in sx.solver.stats.items()})
