from vf.common import *
from vf.cml import *

def check(c):
    if c.thorough:
        model_check(c, "CmlMC", "CmlMC3.cfg", timeout=850)
        model_check(c, "CmlMC", "CmlMC3b.cfg", timeout=1800)
    else:
        model_check(c, "CmlMC", "CmlMC3q.cfg", timeout=850)
    p = base_prof(comb=0.4, combs=dict(C=4, W=1, K=.3, g=.3), leaves=dict(s=.3, r=.3, ig=2, mt=2, mg=1, ms=1, br=2),
                  dirs=dict(dip=2, dig=1, digp=1, dmp=3, dmt=1, dmtp=1, dmg=1, dmgp=1, dms=1, dbs=3, dbr=1, dbrp=1))
    few = base_prof(comb=0.3, combs=dict(C=4), leaves=dict(ig=1, mt=3, mg=1.5, ms=1.5, br=3), niv=1, nmv=1, nmb=1, nth=6, nops=8,
                    stms=dict(Y=.5, B=.3, D=5, Y1=1, L=.7), dirs=dict(dip=.5, dig=1, digp=.3, dmp=4, dmt=1.5, dmtp=.5, dmg=1, dmgp=.3, dms=1.5, dbs=5, dbr=2, dbrp=1))
    for i in range(12 if c.thorough else 1):
        cml_batch(c, "variables%d" % i, p, 900, c.seed * 100 + i)
        cml_batch(c, "one variable%d" % i, few, 600, c.seed * 100 + i)
