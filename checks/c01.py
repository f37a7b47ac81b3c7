from vf.common import *
from vf.cml import *

def check(c):
    model_check(c, "CmlMC", "CmlMC1.cfg" if c.thorough else "CmlMC1q.cfg", timeout=850)
    p = base_prof(comb=0.4, combs=dict(C=5, W=1, K=.3), leaves=dict(s=5, r=5, a=.1, n=.2),
                  dirs=dict(ds=4, dr=4, dsp=2, drp=2), nch=2)
    few = base_prof(comb=0.3, combs=dict(C=5), leaves=dict(s=5, r=5), dirs=dict(ds=4, dr=4, dsp=1.5, drp=1.5), nch=1, nth=9, nops=10,
                    stms=dict(Y=.5, B=.5, D=6, Y1=1, L=1, G=.1))
    for i in range(12 if c.thorough else 1):
        cml_batch(c, "channels%d" % i, p, 900, c.seed * 100 + i)
        cml_batch(c, "busy channel%d" % i, few, 500, c.seed * 100 + i)
