from vf.proc import *


def check(c):
    model_check(c, "ProcMC", "ProcMC.cfg" if c.thorough else "ProcMCq.cfg", timeout=600)
    P = Procs(c)
    if not P.unpriv:
        c.notes.append("no unprivileged user can be had here: process scripts (which send signals) were not run")
        return
    k = 15 if c.thorough else 1
    s = c.seed * 100000
    jobs = [(s + i, "wait", 80, (0, 0, 40)[i % 3]) for i in range(60 * k)]
    jobs += [(s + 10000 + i, "group", 80, 0) for i in range(30 * k)]
    jobs += [(s + 20000 + i, "sig", 60, 0) for i in range(30 * k)]
    jobs += [(s + 30000 + i, "exec", 50, (0, 40)[i % 2]) for i in range(50 * k)]
    jobs += [(s + 40000 + i, "alarms", 0, 0) for i in range(8 * k)]
    batch(c, P, jobs, "processes", 61000)
