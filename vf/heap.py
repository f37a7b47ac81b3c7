"""C05/C06: heap histories of the real runtime against spec/Heap.tla."""
from vf.common import *
from concurrent.futures import ThreadPoolExecutor
import glob

RUN = REPO + "/bin/.run/run.amd64-linux"

def images(c, w):
    """compile the mutator once; two images: a small standalone one and one with the compiler in it"""
    for f in ("util.sml", "heaprun.sml"):
        shutil.copy(DRV + "/" + f, w)
    open(w + "/sources.cm", "w").write("Group is\n $/basis.cm\n $/smlnj-lib.cm\n util.sml\n heaprun.sml\n")
    open(w + "/mk1.sml", "w").write(
        'val _ = if CM.make "sources.cm" then () else (print "DRIVER-COMPILE-FAILED\\n"; OS.Process.exit OS.Process.failure);\n'
        'fun m (_, _) = (Heap.main (); print "\\nDRIVER-DONE\\n"; OS.Process.success) handle e => (print ("DRIVER-EXN " ^ exnMessage e ^ "\\n"); OS.Process.failure);\n'
        'val _ = SMLofNJ.exportFn ("img1", m);\n')
    open(w + "/mk2.sml", "w").write(
        'val _ = if CM.make "sources.cm" then () else (print "DRIVER-COMPILE-FAILED\\n"; OS.Process.exit OS.Process.failure);\n'
        'val _ = Heap.canUse := true;\nval _ = Heap.useFile := (fn f => (Control.Print.out := {say = fn _ => (), flush = fn () => ()}; use f));\n'
        'val _ = if SMLofNJ.exportML "img2" then ((Heap.main (); print "\\nDRIVER-DONE\\n"; OS.Process.exit OS.Process.success) '
        'handle e => (print ("DRIVER-EXN " ^ exnMessage e ^ "\\n"); OS.Process.exit OS.Process.failure)) else OS.Process.exit OS.Process.success;\n')
    for k in "12":
        r = run([REPO + "/bin/sml", "mk%s.sml" % k], cwd=w, timeout=120)
        if not glob.glob(w + "/img%s.amd64-linux" % k):
            if "DRIVER-COMPILE-FAILED" in r.out:
                raise CheckError("driver does not compile:\n" + r.out[-2000:])
            c.violation("making the driver's heap image failed (rc=%s): %s" % (r.rc, r.out[-1000:]), {"output": r.out[-3000:]})
            return False
    return True

def go(c, weak):
    model_check(c, "GenGC", "GenGC.cfg" if c.thorough else "GenGCq.cfg", timeout=400)
    w = c.sub("heap")
    if not images(c, w):
        return
    jobs = []
    params = [["@SMLalloc=128k"], ["@SMLalloc=128k", "@SMLngens=2"], ["@SMLalloc=256k", "@SMLngens=3"], ["@SMLalloc=512k"],
              ["@SMLalloc=128k", "@SMLngens=7"], ["@SMLalloc=128k", "@SMLvmcache=5"], ["@SMLalloc=1m", "@SMLngens=14"], ["@SMLalloc=128k", "@SMLngens=1"]]
    nrun = 160 if c.thorough else 32
    for i in range(nrun):
        p = params[i % len(params)]
        img = "img2" if i % 8 == 3 else "img1"
        env = {"VF_SEED": c.seed * 1000 + i + (500 if weak else 0), "VF_N": (14 if img == "img1" else 5), "VF_M": [150, 400, 90][i % 3], "VF_GCW": [1, 2, 4][(i // 3) % 3],
               "VF_D": [25, 60][i % 2], "VF_ID": "%s%s" % (img, "".join(p)), "VF_OUT": "trace.out"}
        if weak:
            env["VF_P"] = [3, 8][i % 2]
        elif i % 8 in (1, 4, 7):
            env.update(VF_BIG=1, VF_N=4, VF_M=90, VF_GCW=1)
        jobs.append((i, img, p, env))
    if not weak:
        for k in range(5):
            jobs.append((nrun + k, "img2" if k == 4 else "img1", [["@SMLalloc=512k"], ["@SMLalloc=128k"]][k % 2], {"VF_LEAK": k, "VF_ID": "leak%d" % k, "VF_OUT": "trace.out"}))
    def one(j):
        i, img, p, env = j
        d = c.sub("heap/r%d" % i)
        r = run([RUN, "@SMLload=%s/%s.amd64-linux" % (w, img)] + p, cwd=d, env=sml_env(env), timeout=300)
        if r.timeout: hung("a heap history", dict(env=env, params=p))
        return j, r, d
    traces = []
    with ThreadPoolExecutor(NCPU) as ex:
        for j, r, d in ex.map(one, jobs):
            if r.rc != 0 or "DRIVER-DONE" not in r.out or r.timeout:
                c.violation("heap history run %s: %s\n%s" % (j[3]["VF_ID"], "timed out" if r.timeout else "ended abnormally (rc=%s)" % r.rc, r.out[-1000:]),
                            {"params": j[2], "image": j[1], "env": j[3], "output": r.out[-3000:]})
            tf = d + "/trace.out"
            if os.path.exists(tf):
                for x in open(tf):
                    if x.endswith("}\n"):
                        try:
                            traces.append(json.loads(x))
                        except ValueError:
                            c.violation("garbled output of heap history run %s: %s" % (j[3]["VF_ID"], x[:300]))
    if not traces:
        return
    c.cov["operations"] = sum(len(t["ev"]) for t in traces)
    c.cov["collections"] = sum(1 for t in traces for e in t["ev"] if e["o"] == "gc")
    c.cov["graph_dumps"] = sum(1 for t in traces for e in t["ev"] if e["o"] == "dump")
    c.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:4]})
    validate_traces(c, "HeapTrace", "Trace.cfg", traces, "heap histories", timeout=800)
