from vf.polls import *


def check(c):
    model_check(c, "PollMC", "PollMCt.cfg" if c.thorough else "PollMC.cfg", timeout=1500)
    o = Os(c, extra=["pollrun.sml"], img="pollrun")
    k = 15 if c.thorough else 1
    s = c.seed * 100000
    batch(c, o, [(s + i, (60, 200, 120)[i % 3], (20 + 50, 200, 900)[i % 3], (0, 0, 40, 3)[i % 4]) for i in range(160 * k)], "polling")
