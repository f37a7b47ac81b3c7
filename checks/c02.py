from vf.common import *
from vf.cml import *

def check(c):
    model_check(c, "CmlMC", "CmlMC2.cfg" if c.thorough else "CmlMC2q.cfg", timeout=850)
    p = base_prof(comb=0.75, depth=4, combs=dict(C=4, W=2, X=.7, H=1.5, g=1, K=2), leaves=dict(s=4, r=4, a=.5, n=.5, ig=.5, mt=.3, mg=.3, ms=.3, br=.5),
                  stms=dict(Y=.5, B=.3, G=.1, D=1.5, S=1.5, V=1, Y1=1.5, L=1.5), dirs=dict(ds=3, dr=3, dsp=.5, drp=.5, dip=.5, dmp=.5, dbs=.5), nch=2)
    few = base_prof(comb=0.8, depth=3, combs=dict(C=4, W=1, H=.5, X=.3, g=.5, K=3), leaves=dict(s=4, r=4, a=1, n=.5), nth=3,
                    stms=dict(Y=.5, D=1, S=1.5, V=1, Y1=1.5, L=2), dirs=dict(ds=3, dr=3), nch=2)
    for i in range(12 if c.thorough else 1):
        cml_batch(c, "events%d" % i, p, 1000, c.seed * 100 + i)
        cml_batch(c, "nacks%d" % i, few, 700, c.seed * 100 + i)
