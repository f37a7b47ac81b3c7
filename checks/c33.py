from vf.posixrun import *


def check(c):
    model_check(c, "PosixMC", "PosixMC_io.cfg", timeout=300)
    model_check(c, "PosixMC", "PosixMC_lk.cfg", timeout=300)
    o = Os(c)
    k = 20 if c.thorough else 1
    s = c.seed * 100000
    jobs = [(s + i, "io", 150, False, (0, 0, 40, 400)[i % 4]) for i in range(140 * k)]
    jobs += [(s + 20000 + i, "pipe", 150, False, (0, 0, 40)[i % 3]) for i in range(60 * k)]
    jobs += [(s + 40000 + i, "lock", 100, False, 0) for i in range(60 * k)]
    jobs += [(s + 60000 + i, "lockw", 10, False, 0) for i in range(8 * k)]
    jobs += [(s + 70000 + i, "big", 10, False, 0) for i in range(16 * k)]
    batch(c, o, jobs, "descriptors")
    probe(c, o)


def probe(c, o):
    """Known finding: the record of spilled arguments {start, whence} of Posix.IO.FLock.flock is a pair whose first word is a raw
    64-bit number; with a number of the form 4k+2 the collector takes the pair for one that was already copied."""
    r = o.script([("flocks", "3000000", "w", "set", "2147483646", "2147483644")])
    if r["ok"]:
        got = (r["res"][0]["e"], r["res"][0]["r"])
        if got != ("", ["w", "set", "2147483646", "2147483644", "none"]):
            c.violation("FLock.flock: %s" % (got,), r)
    elif "bogus overflow fault" in r["out"] and "sig = 11" in r["out"]:
        c.violation("FLock.flock crashes: %s" % r["out"][-300:], r, key="flock-start-4k+2")
    else:
        c.violation("FLock.flock repeated: script ended abnormally (rc=%s): %s" % (r["rc"], r["out"][-500:]), r)
