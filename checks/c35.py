from vf.envs import *


def check(c):
    model_check(c, "EnvMC", "EnvMC.cfg" if c.thorough else "EnvMCq.cfg", timeout=1500)
    o = Os(c, extra=["sockrun.sml", "envrun.sml"], img="envrun")
    if not o.unpriv:
        c.notes.append("not run as root: processes with other identities cannot be started")
        return
    k = 15 if c.thorough else 1
    s = c.seed * 100000
    batch(c, o, [(s + i, "env", 60, (0, 0, 40)[i % 3]) for i in range(240 * k)], "command lines, environments, identities")
    batch(c, o, [(s + 50000 + i, "db", 80, (0, 40)[i % 2]) for i in range(24 * k)], "data bases")
    batch(c, o, [(s + 70000 + i, "times", 12, 0) for i in range(8 * k)], "process times")
