"""Processes started with random command lines, environments, identities, groups and terminals; what they report is
judged by spec/Env.tla."""
import concurrent.futures, ctypes, os, pty, random, resource, socket, subprocess
from vf.osx import *

POSIX1 = ["ARG_MAX", "CHILD_MAX", "CLK_TCK", "JOB_CONTROL", "NGROUPS_MAX", "OPEN_MAX", "SAVED_IDS", "STREAM_MAX", "TZNAME_MAX", "VERSION"]
IDS = ["0", "100", "1000", "2000", "3000", "60000", "65534", "70000", "4000000000"]


def rows(f):
    try:
        for l in open(f, encoding="latin-1"):
            t = l.split("#")[0].split()
            if t: yield t
    except OSError:
        return


def tables():
    db = dict(serv=[], prot=[], net=[], host=[], pw=[], gr=[])
    for t in rows("/etc/services"):
        if len(t) > 1 and "/" in t[1]:
            v, p = t[1].split("/")
            db["serv"].append(dict(n=t[0], v=v, p=p, a=t[2:]))
    for t in rows("/etc/protocols"):
        if len(t) > 1: db["prot"].append(dict(n=t[0], v=t[1], a=t[2:]))
    for t in rows("/etc/networks"):
        if len(t) > 1 and t[1].count(".") == 3: db["net"].append(dict(n=t[0], v=t[1], a=t[2:]))
    seen = {}
    hs = [t for t in rows("/etc/hosts") if len(t) > 1]
    for t in hs:
        for n in set(t[1:]): seen[n] = seen.get(n, 0) + 1
    for t in hs:
        if ":" not in t[0]: db["host"].append(dict(n=t[1], v=t[0], a=t[2:]))
    hosts = [n for n in seen if seen[n] == 1 and all(":" not in t[0] for t in hs if n in t[1:])]
    for l in open("/etc/passwd", encoding="latin-1"):
        f = l.rstrip("\n").split(":")
        if len(f) == 7 and f[0][:1] not in "+-#": db["pw"].append(dict(n=f[0], u=f[2], g=f[3], h=f[5], s=f[6] or "/bin/sh"))
    for l in open("/etc/group", encoding="latin-1"):
        f = l.rstrip("\n").split(":")
        if len(f) == 4 and f[0][:1] not in "+-#": db["gr"].append(dict(n=f[0], g=f[2], m=[x for x in f[3].split(",") if x]))
    files_only = {}
    for t in rows("/etc/nsswitch.conf"):
        files_only[t[0].rstrip(":")] = all(x in ("files", "db", "compat", "systemd", "dns") or x.startswith("[") for x in t[1:])
    return db, hosts


class Gen:
    def __init__(self, r, db, hosts, kind):
        self.r, self.db, self.hosts, self.kind = r, db, hosts, kind

    def word(self, big=False):
        r = self.r
        n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 40]) if not big or r.random() < .9 else r.choice([300, 1000, 5000, 30000])
        return "".join(r.choice("abcXYZ019 =@_-%/.:") for _ in range(n))

    def start(self, img, script, fill):
        r = self.r
        rt = ["@SMLquiet", "@SMLverbose", "@SMLfoo", "@SMLfoo=bar", "@SMLcmdname=" + r.choice(["x", "a/b", "z" * 100, "@SML"]), "@SML", "@SML=", "@SMLload=" + img, "@SMLalloc=512k"]
        words = ["", "a", "@sml", "x@SMLy", "@SM", "@", "--", "-x", " ", "=", self.word(), self.word(True)]
        post = [r.choice(rt) if r.random() < .25 else r.choice(words) for _ in range(r.choice([0, 0, 1, 2, 5, 9, 40]))]
        if r.random() < .2: post += ["@SMLcmdname=" + r.choice(["u", "v/w", ""])[:4] + str(i) for i in range(r.choice([1, 2, 3]))]
        pre = [r.choice(rt[:6]) for _ in range(r.choice([0, 0, 1, 2]))]
        name = r.choice([RUN, "sml", "", "a b", "/x/" + self.word()])
        argv = [name] + pre + ["@SMLload=" + img] + [script] + [a for a in post if a != "@SMLload=" + img or True]
        env = []
        for _ in range(r.choice([0, 1, 3, 10, 10, 60])):
            q = r.random()
            k = r.choice(["A", "AB", "B", "ABC", "X1", "a", "PATHX", "HOME", "PATH", self.word().replace("=", "")])
            if q < .75: env.append(k + "=" + self.word(True))
            elif q < .85: env.append(k)                     # no '='
            elif q < .9: env.append("=" + self.word())
            else: env.append(k + "=")
        if fill: env.insert(r.randrange(len(env) + 1), "VF_FILL=%d" % fill)
        env = [e for e in env if e]
        ids = lambda: {"r": r.choice(IDS), "e": r.choice(IDS)}
        u, g = (ids(), ids()) if r.random() < .7 else ({"r": "0", "e": "0"}, {"r": "0", "e": "0"})
        for d in (u, g): d["s"] = d["e"]                     # (exec saves the effective one)
        groups = [str(r.choice([0, 5, 100, 65534, r.randrange(1, 60000), r.randrange(65536, 4294967000)])) for _ in range(r.choice([0, 1, 2, 3, 17, 33, 200, 1500, 6000]))]
        self.x = dict(argv=argv, env=env, uid=u, gid=g, groups=groups)
        return self.x

    def lines(self, n):
        r, L = self.r, []
        out = lambda *a: L.append(tuple(str(x) for x in a))
        names = [e.split("=")[0] for e in self.x["env"]] + ["", "A", "A=B", "NONE", "AB", "PAT"]
        conf = sorted(self.conf)
        plain = self.x["uid"]["r"] == self.x["uid"]["e"] and self.x["gid"]["r"] == self.x["gid"]["e"]
        for _ in range(n):
            if self.kind == "db":
                k = r.choice(["serv", "serv", "servp", "servp", "prot", "protn", "net", "neta", "host", "hosta", "hostname", "pwn", "pwu", "grn", "grg"])
                t = {"serv": "serv", "servp": "serv", "prot": "prot", "protn": "prot", "net": "net", "neta": "net", "host": "host", "hosta": "host",
                     "pwn": "pw", "pwu": "pw", "grn": "gr", "grg": "gr"}.get(k)
                if t and not self.db[t]: continue
                e = r.choice(self.db[t]) if t else None
                miss = r.random() < .15
                p = r.choice(["", "", "tcp", "udp", "dccp"])
                if k == "serv": out(k, "nosuch-service" if miss else r.choice([e["n"]] + e["a"]), p)
                elif k == "servp": out(k, r.choice([4, 60001, 32768]) if miss else e["v"], p)
                elif k == "prot": out(k, "nosuch" if miss else r.choice([e["n"]] + e["a"]))
                elif k == "protn": out(k, 251 if miss else e["v"])
                elif k == "net": out(k, r.choice([e["n"]] + e["a"]))
                elif k == "neta": out(k, e["v"])
                elif k == "host":
                    if self.hosts: out(k, r.choice(self.hosts))
                elif k == "hosta": out(k, e["v"])
                elif k == "hostname": out(k, "x")
                elif k in ("pwn", "grn"): out(k, "nosuch" if miss else e["n"])
                elif k == "pwu": out(k, r.choice([54321, 4294967294]) if miss else e["u"])
                else: out(k, r.choice([54321, 4294967294]) if miss else e["g"])
            elif self.kind == "times":
                k = r.random()
                if k < .4: out("times", r.choice(["u", "s", "cu", "cs"]), r.choice([0, 20, 60, 120]))
                elif k < .7: out("time", "x")
                else: out(r.choice(["ids", "pid"]), "x")
            else:
                k = r.choice(["cmd", "args", "allargs", "shift", "environ", "getenv", "getenv", "osgetenv", "ids", "ids", "groups", "setuid", "setgid", "setuid", "setgid", "uname", "sysconf", "sysconf",
                              "isatty", "ttyname", "ctermid", "pid", "time"])
                if k in ("getenv", "osgetenv"): out(k, r.choice(names))
                elif k in ("setuid", "setgid"):
                    if r.random() < .5:
                        plain = False
                        out(k, r.choice(IDS[1:] + ["4294967295"] + [self.x["uid"]["r"], self.x["gid"]["r"]]))
                elif k == "sysconf": out(k, r.choice(conf) if r.random() < .6 else r.choice(POSIX1 + ["CHILD_MAX", "CHILD_MAX", "FOO", "", "arg_max", "ARG_MA", "ARG_MAXX"]))
                elif k == "ttyname" and not plain: pass      # (the kernel hides /proc/self/fd from such processes)
                elif k in ("isatty", "ttyname"): out(k, r.choice([0, 1, 2, 5, 63]))
                else: out(k, "x")
        if self.kind != "db" and self.kind != "times": out("args", "x"); out("ids", "x")
        return L


LIBC = ctypes.CDLL(None, use_errno=True)


def start(o, g, sp, d, ttyfds, slave, nofile, nproc):
    x = g.x
    enc = lambda l: (ctypes.c_char_p * (len(l) + 1))(*[s.encode("latin-1") for s in l], None)
    argv, envp, path = enc(x["argv"]), enc(x["env"]), RUN.encode()
    def pre():
        default_signals()
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        if nproc is not None: resource.setrlimit(resource.RLIMIT_NPROC, (nproc, nproc))
        for k in ttyfds:
            os.dup2(slave, k)
            os.set_inheritable(k, True)                      # (dup2 onto itself leaves close-on-exec set)
        os.setgroups([int(q) for q in x["groups"]])
        os.setresgid(int(x["gid"]["r"]), int(x["gid"]["e"]), int(x["gid"]["e"]))
        os.setresuid(int(x["uid"]["r"]), int(x["uid"]["e"]), int(x["uid"]["e"]))
        LIBC.execve(path, argv, envp)
    return subprocess.Popen(["/bin/false"], cwd=d, preexec_fn=pre, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def batch(c, o, jobs, what):
    db, hosts = tables()
    conf = {}
    for k in os.sysconf_names:
        if k.startswith("SC_") and k not in ("SC_AVPHYS_PAGES", "SC_THREAD_ROBUST_PRIO_INHERIT"):
            try: v = os.sysconf(k)
            except (ValueError, OSError): continue
            if v >= -1: conf[k[3:]] = str(v)                 # (limits that are negative numbers look like errors)
    u = os.uname()
    uname = ["sysname", u.sysname, "nodename", u.nodename, "release", u.release, "version", u.version, "machine", u.machine]
    none = dict(serv=[], prot=[], net=[], host=[], pw=[], gr=[])

    def one(j):
        seed, kind, n, fill = j
        r = random.Random(seed)
        g = Gen(r, db, hosts, kind)
        top, d = o.scratch(True)
        sp = os.path.join(top, "script")
        g.start(o.img, sp, fill)
        nofile = r.choice([64, 100, 1024])
        nproc = r.choice([None, resource.RLIM_INFINITY, 4000, 5001, 0, 0]) if kind == "env" else None
        if nproc == 0 and g.x["uid"]["r"] != "0": nproc = 3000    # (exec by others than root fails beyond the limit)
        g.conf = dict(conf, OPEN_MAX=str(nofile))
        hard = resource.getrlimit(resource.RLIMIT_NPROC)[1]
        if nproc is not None and hard != resource.RLIM_INFINITY and not 0 <= nproc <= hard: nproc = None
        if nproc is not None: g.conf["CHILD_MAX"] = str(nproc)    # (-1: no limit)
        L = g.lines(n)
        with open(sp, "wb") as f:
            for l in L: f.write("\t".join([l[0]] + [esc(a) if a else "" for a in l[1:]]).encode() + b"\n")
        os.chmod(sp, 0o644)
        tty, master, slave = {"none": "x"}, -1, -1
        fds = r.choice([[], [0], [0, 5]]) if kind == "env" else []
        if fds:
            try:
                master, slave = pty.openpty()
                nm = os.ttyname(slave)
                for k in fds: tty[str(k)] = nm
            except OSError:
                fds = []
        p = start(o, g, sp, d, fds, slave, nofile, nproc)
        to = False
        try:
            out, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            to = True
            hung("a process", dict(lines=L, x=g.x))
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        if to: out, _ = p.communicate()
        for q in (master, slave):
            if q >= 0: os.close(q)
        rmtree_hard(top)
        res = []
        for ln in out.decode("latin-1").splitlines():
            if ln.startswith('{"e"'):
                try: res.append(json.loads(ln))
                except ValueError: break
        if p.returncode != 0 or len(res) != len(L) or to:
            return dict(bad=dict(lines=L, x=g.x, rc=p.returncode, to=to, out=out.decode("latin-1")[-3000:]), seed=seed)
        ev = []
        for l, q in zip(L, res):
            v = dict(op=l[0], e=q["e"], r=q["r"], n=l[1], p=l[2] if len(l) > 2 else "")
            if l[0] == "time" and len(q["r"]) == 4:
                lo, t, us, hi = [int(y) for y in q["r"]]
                v.update(lo=lo, t=t, us=us, hi=hi, r=[])
            elif l[0] == "times" and len(q["r"]) == 15:
                y = [int(z) for z in q["r"]]
                v.update(lo=y[:4], t=[z // 10000 for z in y[4:8]], hi=y[8:12], el=y[12] // 10000, wlo=y[13] // 10000, whi=y[14] // 10000, r=[])
            elif l[0] in ("time", "times"): v.update(e=q["e"] or "no result", lo=0, t=0, us=0, hi=0)
            ev.append(v)
        cf = {l[1]: g.conf[l[1]] for l in L if l[0] == "sysconf" and l[1] in g.conf}
        cf["none"] = "0"
        x = dict(g.x, uname=uname, conf=cf, must={k: k in POSIX1 for k in cf}, tty=tty, pid=[str(p.pid), str(os.getpid()), str(p.pid)], db=db if kind == "db" else none)
        return dict(id="%s%d" % (kind, seed), x=x, ev=ev)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, jobs))
    for x in rs:
        if "bad" in x:
            c.violation("%s: the process of seed %d did not run to its end (rc=%s)" % (what, x["seed"], x["bad"]["rc"]), x["bad"])
    ok = [x for x in rs if "ev" in x]
    if ok: c.sample({"id": ok[0]["id"], "ev": ok[0]["ev"][:4]})
    validate_traces(c, "EnvTrace", "Trace.cfg", ok, what)
