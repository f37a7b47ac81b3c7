"""Development aid: run checks against mutants of the C runtime only (the runtime binary is rebuilt in a
scratch copy and bind-mounted over /repo's in a private namespace).
usage: mut.py FILE.py   where FILE.py defines MUTS = [(name, prop(s), [(file, old, new)])]"""
import sys, os, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
R = os.environ.get("MUTR", "/repo") + "/base/runtime/"
def one(m):
    name, props, edits = m
    t = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(R, t + "/runtime", symlinks=True)
        for f, old, new in edits:
            p = t + "/runtime/" + f
            s = open(p, encoding="latin-1").read()
            if s.count(old) != 1: return "%s: %d matches of %r" % (name, s.count(old), old)
            open(p, "w", encoding="latin-1").write(s.replace(old, new))
        r = subprocess.run("cd %s/runtime/objs && make -f mk.amd64-linux clean; make -f mk.amd64-linux" % t, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = t + "/runtime/objs/run.amd64-linux"
        if r.returncode or not os.path.exists(b): return "%s: BUILD FAILED %s" % (name, r.stdout[-600:])
        shutil.copytree("/verif", t + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        out = []
        for p in props.split():
            if int(p[1:]) >= 32 or p == "C08":      # operating-system checks: the driver image is run by the mutated runtime
                os.chmod(t, 0o755)
                sh = "cd %s/verif && VF_RUN=%s VF_NOBUILD=dev timeout 900 ./check %s quick" % (t, b, p)
                r = subprocess.run(["bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                why = [l for l in r.stdout.splitlines() if "->" in l or "ERROR" in l]
                out.append("%-28s %s rc=%d %s" % (name, p, r.returncode, (why[0][:230] if why else "")))
                continue
            sh = "mount --bind %s /repo/bin/.run/run.amd64-linux && mount --bind %s/verif /verif && cd /verif && VF_NOBUILD=dev timeout 900 ./check %s quick" % (b, t, p)
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            why = [l for l in r.stdout.splitlines() if "->" in l or "ERROR" in l]
            out.append("%-28s %s rc=%d %s" % (name, p, r.returncode, (why[0][:230] if why else "")))
        return "\n".join(out)
    finally:
        shutil.rmtree(t, ignore_errors=True)
if __name__ == "__main__":
    ms = runpy.run_path(sys.argv[1])["MUTS"]
    if len(sys.argv) > 2: ms = [m for m in ms if any(a in m[0] for a in sys.argv[2:])]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(one, ms): print(r, flush=True)
