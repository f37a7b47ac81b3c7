from vf.common import *
from vf.cml import *
from concurrent.futures import ThreadPoolExecutor

def check(c):
    model_check(c, "CmlMC", "CmlMC4.cfg" if c.thorough else "CmlMC4q.cfg", timeout=850)
    p = base_prof(comb=0.4, combs=dict(C=4, W=1, K=.3), leaves=dict(s=2, r=2, j=4, a=.1), stms=dict(Y=1, B=.5, G=.1, D=5, S=.5, V=.5, Y1=1, L=.7),
                  dirs=dict(ds=1, dr=1, dj=3, dps=1.5, dpg=1.5, dpc=.7, dpp=1, dfs=1, dfg=1.2), nth=7, shut=0.06, dead=0.3, tree=0.6)
    tp = base_prof(comb=0.5, combs=dict(C=5, W=1, K=.5, g=.3), leaves=dict(t=5, at=2, r=1, s=1, j=.3), stms=dict(Y=.3, D=.7, Y1=2, L=1.5),
                   dirs=dict(ds=1, dr=1), nth=5, nops=3, depth=2, delays=[0, 20000, 100000, 170000, 240000, 310000])
    reps = 8 if c.thorough else 1
    for i in range(reps):
        cml_batch(c, "threads%d" % i, p, 900, c.seed * 100 + i)
        def fair(scale, i=i):
            rng = random.Random("fair/%d/%d" % (c.seed, i))
            return [fair_program(rng, k, scale * rng.choice([500, 1000, 2000])) for k in range(1, 41)]
        cml_run_validate(c, "spinning threads%d" % i, fair, timeout=120)
    def timed(i):
        def progs(scale):
            rng = random.Random("timed/%d/%d" % (c.seed, i))
            g = Gen(rng, tp)
            res = []
            for k in range(1, 31):
                if k > 8:
                    res.append(timer_program(rng, k, 10000)); continue
                t, m = g.program(k, 10000)
                m["gap"] = 60000
                res.append((t, m))
            return res
        # CML reads the clock once per time slice, so a timeout may be up to a slice early; a run
        # in which the machine stalled is repeated
        cml_run_validate(c, "timeouts%d" % i, progs, slack=40000, confirm=3)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(timed, range(48 if c.thorough else 6)))
