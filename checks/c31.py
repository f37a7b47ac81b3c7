from vf.common import *
from vf.cml import *

def check(c):
    model_check(c, "CmlMC", "CmlMC4.cfg" if c.thorough else "CmlMC4q.cfg", timeout=850)
    bar = base_prof(leaves=dict(s=1, r=1), stms=dict(Y=1, B=.5, G=.1, D=6, Y1=.3), dirs=dict(den=2, dwt=4, drs=.6, ds=.1, dr=.1), nbar=2, nth=6, nops=12, dead=0.05)
    mc = base_prof(comb=0.4, combs=dict(C=4, W=1), leaves=dict(pr=4, r=.5, s=.5, n=.2), stms=dict(Y=1, B=.5, D=5, Y1=1, L=.5),
                   dirs=dict(dmc=3, dpo=1.5, dcp=1, dpr=3, ds=.2, dr=.2), nmc=2, nth=5, nops=10)
    for i in range(12 if c.thorough else 1):
        cml_batch(c, "barriers%d" % i, bar, 700, c.seed * 100 + i)
        cml_batch(c, "multicast%d" % i, mc, 600, c.seed * 100 + i)
