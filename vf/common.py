"""Shared machinery of the checks: build /repo, run SML drivers, run TLC, report."""
import fcntl, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.assumptions = []
        self.found = []            # unlisted violations
        self.known = []
        self.replay_dir = os.path.join(VERIF, "replays", pid)
        kf = os.path.join(VERIF, "known_findings.json")
        allk = json.load(open(kf)) if os.path.exists(kf) else []
        self.known_list = [k for k in allk if k.get("property") == pid and k.get("status") == "known"]

    thorough = property(lambda s: s.tier == "thorough")

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def sample(self, x, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(x)

    # ---- violations -----------------------------------------------------------------------
    def violation(self, what, data=None, key=None):
        """Record a violation; `key` identifies it against the known-findings file."""
        for k in self.known_list:
            if key is not None and k.get("key") == key:
                if key not in self.known:
                    self.known.append(key)
                    log("KNOWN-FINDING: property=%s %s" % (self.pid, k.get("what", key)))
                return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "v%d.json" % (len(self.found) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier,
                       "key": key, "data": data}, f, indent=1, default=str)
        self.found.append((what, path))
        log("  -> %s" % what[:2000])

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.found)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.found:
            for what, path in self.found[:10]:
                log("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.exit(1)
        log("OK property=%s tier=%s wall=%.1fs %s" % (self.pid, self.tier, time.time() - self.t0,
            {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        sys.exit(0)


HUNG = []


def hung(what, data=None):
    """A run of the real code did not end within its time limit."""
    HUNG.append((what, data))


def watchdog(c):
    """Give up waiting when many runs hang: report them before the time of the check is over."""
    def children(p):
        ks = []
        try:
            for t in os.listdir("/proc/%d/task" % p):
                ks += open("/proc/%d/task/%s/children" % (p, t)).read().split()
        except OSError:
            pass
        return [int(k) for k in ks]
    while True:
        time.sleep(2)
        if len(HUNG) >= 24 or (len(HUNG) >= 3 and not c.thorough and time.time() - c.t0 > 700):
            for what, data in HUNG[:5]:
                c.violation("does not end: " + what, data)
            try:
                c.finish()
            finally:
                sys.stdout.flush()
                for _ in range(3):          # (other threads may still be starting some)
                    todo, seen = children(os.getpid()), []
                    while todo:
                        x = todo.pop()
                        seen.append(x)
                        todo += children(x)
                    for x in seen:
                        try: os.kill(x, signal.SIGKILL)
                        except OSError: pass
                os._exit(1)


def run_check(pid, fn, level="model_checking"):
    c = Check(pid, level)
    shutil.rmtree(c.replay_dir, ignore_errors=True)
    threading.Thread(target=watchdog, args=(c,), daemon=True).start()
    try:
        build()
        fn(c)
    except Violation as v:
        c.violation(v.what, v.replay)
    except CheckError as e:
        log("CHECK ERROR (%s): %s" % (pid, e))
        if not c.found:
            shutil.rmtree(c.work, ignore_errors=True)
            sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        if not c.found:
            shutil.rmtree(c.work, ignore_errors=True)
            sys.exit(2)
    c.finish()


# ---- building /repo ---------------------------------------------------------------------------
def build():
    t = time.time()
    if os.environ.get("VF_NOBUILD") == "dev":      # development aid (tools/mut.py), never set by a registered command
        return
    with open("/tmp/.vf-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, text=True, errors="replace")
        if r.returncode != 0:
            r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, text=True, errors="replace")
    if r.returncode != 0:
        raise CheckError("build of /repo failed:\n" + r.stdout[-3000:])
    log("build: %s (%.0fs)" % (r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "", time.time() - t))


def sml_env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k not in ("SMLNJ_HOME", "CM_PATHCONFIG", "CM_LOCAL_PATHCONFIG")}
    e["PATH"] = REPO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CM_VERBOSE"] = "false"
    e["LANG"] = "C.UTF-8"
    e["HOME"] = "/root"
    e["TZ"] = "UTC"
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


class Res:
    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout


def run(cmd, cwd=None, env=None, timeout=120, inp=None, text=True):
    """Run a command in its own session; kill the whole group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or sml_env(), stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    if isinstance(inp, str):
        inp = inp.encode("utf-8", "surrogateescape")
    to = False
    try:
        out, _ = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    if text:
        out = out.decode("utf-8", "replace")
    return Res(p.returncode, out, to)


def copy_src(rel, dst):
    """Copy a source tree of /repo without CM's caches, so that it is compiled from scratch.
    (build.sh does not rebuild smlnj-lib/Util, PP, Controls, ml-yacc/lib when only they change.)"""
    shutil.copytree(os.path.join(REPO, rel), dst, ignore=shutil.ignore_patterns(".cm"), dirs_exist_ok=True)


def sml_driver(workdir, sources, libs, main, env=None, timeout=300, args=(), sml=None):
    """Compile `sources` (paths) against `libs` with /repo/bin/sml and evaluate `main`.
    Everything happens in `workdir`; returns Res."""
    os.makedirs(workdir, exist_ok=True)
    names = []
    for s in sources:
        n = os.path.basename(s)
        if os.path.abspath(s) != os.path.join(workdir, n):
            shutil.copy(s, os.path.join(workdir, n))
        names.append(n)
    with open(os.path.join(workdir, "sources.cm"), "w") as f:
        f.write("Group is\n" + "".join("  %s\n" % l for l in libs) + "".join("  %s\n" % n for n in names))
    with open(os.path.join(workdir, "go.sml"), "w") as f:
        f.write('val _ = if CM.make "sources.cm" then () else (print "DRIVER-COMPILE-FAILED\\n"; OS.Process.exit OS.Process.failure);\n')
        f.write('val _ = (%s; print "\\nDRIVER-DONE\\n"; OS.Process.exit OS.Process.success) handle e => (print ("\\nDRIVER-EXN " ^ exnName e ^ ": " ^ exnMessage e ^ "\\n"); OS.Process.exit OS.Process.failure);\n' % main)
    return run([sml or REPO + "/bin/sml", "go.sml"] + list(args), cwd=workdir, env=sml_env(env), timeout=timeout)


def driver_ok(c, r, what):
    """A driver that does not finish normally is a violation: the code under test misbehaved."""
    if r.rc == 0 and "DRIVER-DONE" in r.out and not r.timeout:
        return True
    c.violation("%s: driver %s\n%s" % (what, "timed out" if r.timeout else "ended abnormally (rc=%s)" % r.rc, r.out[-1500:]),
                {"output": r.out[-4000:]})
    return False


# ---- TLC -----------------------------------------------------------------------------------------
class TLC:
    def __init__(self, out, rc, wall):
        out = "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting of) ", l))
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        m2 = re.findall(r"The number of states generated: (\d+)", out)
        self.gen = int(m[-1][0].replace(",", "")) if m else (int(m2[-1]) if m2 else 0)
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.finished = "Model checking completed" in out or "Finished in" in out
        self.noerr = "No error has been found" in out
        self.inv = re.findall(r"Invariant (\S+) is violated", out)
        self.deadlock = "Deadlock reached" in out
        self.prop = "properties were violated" in out or re.search(r"Action property .* is violated", out) is not None
        self.post = "POSTCONDITION" in out.upper() and "violated" in out


def tlc(module, cfg, cwd, workers=None, timeout=600, extra=(), jvm=(), env=None, heap="6g"):
    """Run TLC on `module` (a .tla in spec/ or cwd) with cfg text or file."""
    os.makedirs(cwd, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") and not os.path.exists(os.path.join(cwd, f)):
            os.symlink(os.path.join(SPEC, f), os.path.join(cwd, f))
    if "\n" in cfg or not cfg.endswith(".cfg"):
        cp = os.path.join(cwd, module + "_run.cfg")
        with open(cp, "w") as f:
            f.write(cfg)
        cfg = cp
    elif not os.path.isabs(cfg):
        cfg = os.path.join(SPEC, cfg)
    md = tempfile.mkdtemp(prefix="tlcmeta-", dir=cwd)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md] + list(jvm) + ["-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers or NCPU), "-metadir", md, "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    t = time.time()
    e = dict(os.environ)
    if env:
        e.update(env)
    r = run(cmd, cwd=cwd, env=e, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    if r.timeout:
        raise CheckError("TLC timed out after %ds on %s\n%s" % (timeout, module, r.out[-800:]))
    return TLC(r.out, r.rc, time.time() - t)


def model_check(c, module, cfg, what=None, **kw):
    """Exhaustive check of the specification itself; an error here is an error of the check."""
    if os.environ.get("VF_NOBUILD") == "dev" and os.environ.get("VF_NOMC"):    # development aid
        return
    r = tlc(module, cfg, c.sub("mc-" + module), **kw)
    if not r.noerr:
        raise CheckError("specification check %s %s failed:\n%s" % (module, cfg, r.out[-3000:]))
    c.cov["states"] += r.distinct
    c.cov["transitions"] += r.gen
    c.notes.append("%s/%s: TLC exhaustive, %d distinct states, %d transitions, %.0fs" %
                   (module, os.path.basename(cfg) if cfg.endswith(".cfg") else "inline", r.distinct, r.gen, r.wall))
    log("  spec %s: %d distinct states, no error (%.1fs)" % (module, r.distinct, r.wall))
    return r


def EVALERR(out):
    return re.search(r"evaluating the nested|Attempted to|unexpected exception", out) is not None and "arsing" not in out and "Out of memory" not in out.replace("OutOfMemory", "Out of memory")


def validate_traces(c, module, cfg, traces, what, workers=None, timeout=600, keyf=None, env=None, chunk=None,
                    max_report=5, heap="8g", count=True):
    """Trace validation.  `traces`: list of {"id":..., "ev":[...], ...} dicts.  The trace module reads
    traces.ndjson from its working directory as the sequence Traces, starts one behaviour per trace
    and prints <<"ACC", tr>> when trace number tr has been consumed completely.
    Rejected traces are re-run alone (which must repeat the rejection) and reported."""
    if not traces:
        return []
    acc, rej = set(), []
    chunk = chunk or len(traces)
    todo = [(b, min(chunk, len(traces) - b)) for b in range(0, len(traces), chunk)]
    while todo:
        base, n = todo.pop(0)
        part = traces[base:base + n]
        d = c.sub("tv-%s-%d-%d" % (module, len(os.listdir(c.work)), base))
        with open(os.path.join(d, "traces.ndjson"), "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        r = tlc(module, cfg, d, workers=workers, timeout=timeout, env=env, heap=heap)
        if not r.noerr:
            if not EVALERR(r.out):
                raise CheckError("trace validation %s failed:\n%s" % (module, r.out[-3500:]))
            # a result outside the domains of the specification: find the trace it is in
            shutil.rmtree(d, ignore_errors=True)
            if n > 1:
                todo += [(base, n // 2), (base + n // 2, n - n // 2)]
            continue
        a = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out))
        c.cov["states"] += r.distinct
        c.cov["transitions"] += r.gen
        acc |= set(base + x - 1 for x in a)
        shutil.rmtree(d, ignore_errors=True)
    rejected = [i for i in range(len(traces)) if i not in acc]
    if count:
        c.cov["traces_validated_against_impl"] += len(traces)
    log("  traces %s: %d validated, %d rejected" % (what, len(acc), len(rejected)))
    n = 0
    for i in rejected:
        if n >= max_report:
            break
        d = c.sub("tv1-%s-%d" % (module, i))
        with open(os.path.join(d, "traces.ndjson"), "w") as f:
            f.write(json.dumps(traces[i]) + "\n")
        r = tlc(module, cfg, d, workers=1, timeout=timeout, env=env, heap=heap)
        if not r.noerr and not EVALERR(r.out):
            raise CheckError("trace re-validation %s failed:\n%s" % (module, r.out[-3500:]))
        if re.search(r'<<"ACC", 1>>', r.out):
            raise CheckError("trace %d of %s rejected once and accepted on re-run" % (i, what))
        ls = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', r.out)]
        at = max(ls) if ls else None
        ev = traces[i]["ev"]
        nxt = ev[at - 1] if at and at <= len(ev) else None
        c.violation("%s: trace %s is not a behaviour of %s; stuck at event %s: %s" %
                    (what, traces[i].get("id", i), module, at, json.dumps(nxt)[:600]),
                    {"trace": traces[i], "stuck_at": at, "event": nxt, "module": module},
                    key=keyf(traces[i], at) if keyf else None)
        n += 1
        shutil.rmtree(d, ignore_errors=True)
    return rejected
