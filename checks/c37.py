from vf.dates import *


def check(c):
    model_check(c, "DateMC", "DateMC.cfg" if c.thorough else "DateMCq.cfg", timeout=3000 if c.thorough else 600)
    o = Os(c, extra=["daterun.sml"], img="daterun")
    k = 15 if c.thorough else 1
    s = c.seed * 100000
    batch(c, o, [(s + i, 120, (0, 0, 40)[i % 3]) for i in range(96 * k)])
    clocks(c, o, 4 * k, s)
