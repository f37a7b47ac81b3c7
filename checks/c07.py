from vf.common import *
from vf import heap
from concurrent.futures import ThreadPoolExecutor
import glob

ARGS = ["a", "", " ", "-x", "@", "@SM", "@SMLquiet", "@SMLalloc=128k", "@SMLalloc=1m", "@SMLngens=3", "x@SMLquiet", "é", "a b\tc", "--", "@smlquiet",
        "@SMLcmdname=zz/top", "x" * 300, "y" * 5000, "@SMLngens=7", "@SMLverbose", "'\"\\"]

def check(c):
    model_check(c, "GenGC", "GenGCq.cfg", timeout=200)
    w = c.sub("img")
    for f in ("util.sml", "heaprun.sml", "heapimg.sml"):
        shutil.copy(DRV + "/" + f, w)
    open(w + "/sources.cm", "w").write("Group is\n $/basis.cm\n $/smlnj-lib.cm\n util.sml\n heaprun.sml\n heapimg.sml\n")
    open(w + "/go.sml", "w").write(
        'val _ = if CM.make "sources.cm" then () else (print "DRIVER-COMPILE-FAILED\\n"; OS.Process.exit OS.Process.failure);\n'
        'val _ = Heap.canUse := true;\nval _ = Heap.useFile := (fn f => (Control.Print.out := {say = fn _ => (), flush = fn () => ()}; use f));\n'
        'val _ = Img.start () handle e => (print ("DRIVER-EXN " ^ exnMessage e ^ "\\n"); OS.Process.exit OS.Process.failure);\n')
    # compile once so that the runs below only link
    r = run([REPO + "/bin/sml"], cwd=w, inp='CM.make "sources.cm";\n', timeout=120)
    if "val it = true" not in r.out:
        raise CheckError("driver does not compile:\n" + r.out[-2000:])
    chains = 24 if c.thorough else 8
    rnd = c.rng
    def chain(i):
        """one chain: sml -> exportML [-> exportML] -> exportFn; returns traces and problems"""
        out, bad = [], []
        d = c.sub("img/c%d" % i)
        for f in os.listdir(w):
            if os.path.isfile(w + "/" + f) and not f.startswith("img"):
                shutil.copy(w + "/" + f, d)
        shutil.copytree(w + "/.cm", d + "/.cm", dirs_exist_ok=True)
        rr = random.Random("%d/%d" % (c.seed, i))
        m = [15, 40, 90, 30][i % 4]
        depth = [1, 2, 1, 3][i % 4]
        env = {"VF_SEED": c.seed * 100 + i, "VF_M": m, "VF_NEXT": depth, "VF_BIG": 1 if i % 5 == 2 else 0}
        given = []
        cmd = [REPO + "/bin/sml"] + [[], ["@SMLalloc=128k"], ["@SMLngens=2"]][i % 3] + ["go.sml"]
        step = 0
        while True:
            env["VF_ID"] = "chain%d.%d" % (i, step)
            env["VF_OUT"] = "trace%d.out" % step
            env["VF_STATUS"] = st = rr.choice([0, 0, 1, 2, 7, 255, 77])
            r = run(cmd, cwd=d, env=sml_env(env), timeout=200)
            if r.timeout: hung("a chain of images", dict(env=env, cmd=cmd))
            isfn = cmd[0] != REPO + "/bin/sml" and "imgF" in cmd[1]
            tf = d + "/trace%d.out" % step
            made = "img%d.amd64-linux" % env["VF_NEXT"] if env["VF_NEXT"] else "imgF.amd64-linux"
            want = ({0: 0, 1: 1, 2: 1}.get(st, st) if isfn else 0)
            if r.rc != want or r.timeout or (not isfn and not os.path.exists(d + "/" + made)):
                bad.append(("chain %d step %d (%s): status %s instead of %s%s\n%s" % (i, step, "exportFn image" if isfn else "exportML", r.rc, want,
                            " (timed out)" if r.timeout else "", r.out[-800:]), {"chain": i, "step": step, "cmd": cmd, "out": r.out[-2000:]}))
                return out, bad
            if isfn or env["VF_NEXT"]:          # exportFn's parent writes no trace
                if not os.path.exists(tf):
                    bad.append(("chain %d step %d: no trace\n%s" % (i, step, r.out[-800:]), {}))
                    return out, bad
                t = json.loads(open(tf).read())
                t["side"] = "fn" if isfn else "ml"
                t["given"] = given[:]
                out.append(t)
            if isfn:
                return out, bad
            # resume the image just made, with random arguments
            img = d + "/" + made
            al = [rr.choice(ARGS) for _ in range(rr.randint(0, 6))]
            cmd = [heap.RUN, "@SMLload=" + (img if rr.random() < .5 else made)] + al
            name = heap.RUN
            for a in al:
                if a.startswith("@SMLcmdname="):
                    name = a[12:]
            given.append({"name": name, "exe": heap.RUN, "args": [[1 if a.startswith("@SML") else 0, a] for a in cmd[1:]]})
            env["VF_NEXT"] = max(0, env["VF_NEXT"] - 1)
            step += 1
    traces = []
    with ThreadPoolExecutor(NCPU) as ex:
        for o, b in ex.map(chain, range(chains)):
            traces += o
            for what, data in b:
                c.violation("heap images: " + what, data)
    if traces:
        c.cov["operations"] = sum(len(t["ev"]) for t in traces)
        c.cov["images_resumed"] = sum(1 for t in traces for e in t["ev"] if e["o"] == "resume")
        c.sample({"id": traces[0]["id"], "ev": [e for e in traces[0]["ev"] if e["o"] in ("export", "resume", "args")][:4]})
        validate_traces(c, "HeapImgTrace", "Trace.cfg", traces, "heap images", timeout=700)
