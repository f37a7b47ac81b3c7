from vf.sock import *


def check(c):
    o = Os(c, extra=["sockrun.sml"], img="sockrun")
    k = 15 if c.thorough else 1
    s = c.seed * 100000
    jobs = [(s + i, ("unix", "inet", "tcp", "dgram", "all")[i % 5], 120, (0, 0, 40)[i % 3]) for i in range(280 * k)]
    batch(c, o, jobs, "sockets")
    model_check(c, "SockMC", "SockMC.cfg" if c.thorough else "SockMCq.cfg", timeout=3000 if c.thorough else 600)
