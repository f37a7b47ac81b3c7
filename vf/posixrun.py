"""Run random file-system/descriptor scripts and validate them against spec/Posix.tla."""
from vf.osgen import *
import concurrent.futures


def one(o, rng_seed, kind, n, root=False, fill=0):
    import random
    rng = random.Random(rng_seed)
    box = {}

    def mk(d):
        box["pc"] = pconf_table(d, PCONF)
        box["dev"] = str(os.stat(d).st_dev)
        box["umask"] = 0o22
    # the scratch directory is needed before the script can be generated
    top, d = o.scratch(root)
    mk(d)
    g = Gen(rng, d, kind, root)
    lines = {"fs": lambda: g.fs(n), "io": lambda: g.io(n), "pipe": lambda: g.io(n), "lock": lambda: g.locks(n),
             "lockw": lambda: g.lockw(n), "big": lambda: g.big(n), "attr": lambda: g.attr(n), "own": lambda: g.own(n), "deep": lambda: g.deep(n)}[kind]()
    if not o.unpriv and not root:         # no other user can be had: leave out changes of owner
        lines = [l for l in lines if l[0] not in ("chown", "fchown")]
    return run_lines(o, "%s/%s" % (kind, rng_seed), lines, top, d, root, fill, box, lim=200 if kind.startswith("lock") else rng.choice([9, 12, 20, 64, 64, 64]))


def run_lines(o, ident, lines, top, d, root, fill, box, lim=64, timeout=60):
    sp = os.path.join(top, "script")
    with open(sp, "wb") as f:
        for l in lines:
            f.write("\t".join([l[0]] + [esc(x) for x in l[1:]]).encode() + b"\n")
    os.chmod(sp, 0o644)
    t0 = time.time_ns()
    p = o.popen([sp], d, root=root, env={"TMPDIR": d, "VF_FILL": str(fill)}, lim=lim)
    to = False
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        hung("a script", dict(lines=lines))
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    run = {"t0": t0, "t1": time.time_ns()}
    res = []
    for ln in out.decode("latin-1").splitlines():
        if ln.startswith('{"e"'):
            try:
                res.append(json.loads(ln))
            except ValueError:
                break
    rmtree_hard(top)
    for l, r in zip(lines, res):          # temporary files made elsewhere because the scratch directory was closed
        if l[0] == "tmpname" and r["r"] and r["r"][0].startswith("/tmp/SMLNJ-") and "/" not in r["r"][0][5:] and os.path.isfile(r["r"][0]) \
                and os.path.getsize(r["r"][0]) == 0:
            os.unlink(r["r"][0])
    if p.returncode != 0 or len(res) != len(lines) or to:
        return {"id": ident, "bad": "script ended abnormally (rc=%s%s) after %d of %d operations" %
                (p.returncode, ", timed out" if to else "", len(res), len(lines)),
                "out": out.decode("latin-1")[-1500:], "script": lines}
    ctx = {"dir": os.path.join(top, "r"), "run": run, "pids": {}, "pc": box["pc"], "dev": box["dev"]}
    ev = [conv(l, r, ctx) for l, r in zip(lines, res)]
    uid, gid = (0, 0) if root or not o.unpriv else (UID, GID)
    return {"id": ident, "uid": uid, "gid": gid, "groups": [XGID] if uid else [], "umask": 0o22, "lim": lim, "depth": DEPTH, "out": "".join(l+"\n" for l in out.decode("latin-1").splitlines() if not l.startswith("{")), "ev": ev}


def batch(c, o, jobs, what):
    """jobs: (seed, kind, n, root, fill)"""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        trs = list(ex.map(lambda j: one(o, *j), jobs))
    good = []
    for t in trs:
        if "bad" in t:
            c.violation("%s: %s: %s\n%s" % (what, t["id"], t["bad"], t["out"]), t)
        else:
            good.append(t)
    validate_traces(c, "PosixTrace", "Trace.cfg", good, what)
    for t in good[:2]:
        c.sample({"id": t["id"], "first": t["ev"][:3]})
    return good
