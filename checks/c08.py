from vf.sigs import *


def check(c):
    model_check(c, "SigMC", "SigMC.cfg" if c.thorough else "SigMCq.cfg", timeout=3000 if c.thorough else 600)
    o = Os(c, extra=["sigrun.sml"], img="sigrun")
    if not o.unpriv:
        c.notes.append("no unprivileged user can be had here: scripts that send signals were not run")
        return
    k = 10 if c.thorough else 1
    s = c.seed * 100000
    jobs = [(s + i, ("mask", "plain", "pause")[i % 3], 60, (0, 0, 40)[i % 3]) for i in range(360 * k)]
    batch(c, o, jobs, "signals")
    deaths(c, o)
