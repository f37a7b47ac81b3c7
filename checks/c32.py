from vf.posixrun import *


def check(c):
    model_check(c, "PosixMC", "PosixMC_fs.cfg" if c.thorough else "PosixMC_fsq.cfg", timeout=1500)
    o = Os(c)
    k = 20 if c.thorough else 1
    s = c.seed * 100000
    jobs = [(s + i, "fs", 120, False, (0, 0, 40, 400)[i % 4]) for i in range(240 * k)]
    jobs += [(s + 40000 + i, "attr", 25, False, (0, 40, 400)[i % 3]) for i in range(40 * k)]
    jobs += [(s + 50000 + i, "deep", 0, False, (0, 100, 400)[i % 3]) for i in range(12 * k)]
    if o.unpriv:
        jobs += [(s + 60000 + i, "own", 80, True, 0) for i in range(12 * k)]
    batch(c, o, jobs, "file system")
