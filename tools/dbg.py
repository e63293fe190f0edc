import sys; sys.path.insert(0,'/verif')
import warnings; warnings.simplefilter('ignore')
from pydv import verify, arrays, core
import z3
reg=verify.load_contracts('/repo')
op=core.Engine._prove
def P(self,g):
    r=op(self,g)
    if r[0]!='discharged' and not getattr(self,'shown',0):
        self.shown=1
        print('GOAL',g, r[0]); print('TRACE',self.trace)
        for f in self.pc: print('  PC',str(f).replace('\n',' ')[:300])
    return r
core.Engine._prove=P
verify.run_contract('/repo',reg[sys.argv[1]],dict(budget=float(sys.argv[2]) if len(sys.argv)>2 else 20))
