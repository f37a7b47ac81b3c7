"""Process scripts: generation, running (each script as an unprivileged user of its own) and conversion."""
from vf.osx import *
import concurrent.futures, hashlib, random, re

SH = ["-c", "read x <&3"]
FATAL = [1, 2, 3, 9, 10, 12, 14, 15]
BLOCK = b"read x <&3\n"


def tok(s):
    return s if len(s) <= 60 else "<%d:%s>" % (len(s), hashlib.sha1(s.encode("latin-1")).hexdigest()[:16])


class Gen:
    """Keeps just enough state to know whom it may ask, and what will not block."""
    def __init__(self, rng):
        self.r = rng
        self.o = []
        self.st = {0: "run"}
        self.par = {0: -1}
        self.pg = {0: 0}
        self.disp = {0: {}}
        self.pend = {}
        self.unrep = set()
        self.ex = set()
        self.sid = {0: 0}
        self.lost = set()        # dead, with no parent to collect them: they vanish at an unknown moment

    def e(self, p, *op, no=False):
        self.o.append(tuple(op) if p == 0 else ("@!" if no else "@", str(p)) + tuple(op))

    def run(self):
        return [j for j in self.st if self.st[j] == "run" and j not in self.ex]

    def kids(self, p):
        return [j for j in self.st if self.par[j] == p and self.st[j] != "gone"]

    def die(self, j):
        self.st[j] = "gone" if self.par[j] == -1 else "zombie"
        if self.par[j] == -1: self.lost.add(j)
        self.unrep.discard(j)
        for c in self.st:
            if self.par[c] == j:
                self.par[c] = -1
                if self.st[c] == "zombie":
                    self.st[c] = "gone"
                    self.lost.add(c)

    def deliver(self, j, g):
        if self.st[j] not in ("run", "stop"): return
        d = self.disp[j].get(g, "dfl")
        if g == 9: self.die(j)
        elif g == 19:
            if self.st[j] == "run":
                self.st[j] = "stop"
                self.unrep.add(j)
        elif g == 18:
            if self.st[j] == "stop":
                self.st[j] = "run"
                self.unrep.discard(j)
                for x in sorted(self.pend.pop(j, set())): self.deliver(j, x)
        elif d == "ign" or (d == "dfl" and g in (0, 17, 23, 28)): return
        elif self.st[j] == "stop": self.pend.setdefault(j, set()).add(g)
        elif d == "dfl": self.die(j)

    def descstop(self, j):
        """Its death might orphan a process group with stopped members (the kernel then signals that group)."""
        stopped = [c for c in self.st if c != j and self.st[c] == "stop"]
        return bool(stopped) and (any(self.par[c] == j and self.st[c] != "gone" for c in self.st) or any(self.pg[c] == self.pg[j] for c in stopped))

    def letter(self, j):
        return {"run": "S", "stop": "T", "zombie": "Z", "gone": "-"}[self.st[j]]

    def settle(self, js):
        for j in js:
            if j: self.o.append(("settle", str(j), self.letter(j) if not (self.st[j] == "gone") else "-"))

    def fork(self):
        n = len(self.st)
        if n > 7: return
        p = self.r.choice([0, 0, 0] + self.run())
        self.e(p, "pfork", str(n))
        self.st[n], self.par[n], self.pg[n], self.disp[n] = "run", p, self.pg[p], dict(self.disp[p])
        self.sid[n] = self.sid[p]

    def kill(self):
        p = self.r.choice([0] + self.run())
        t = self.r.choice("pppggs")
        ps = [j for j in self.st if j]
        if not ps: return
        j = self.r.choice(ps)
        g = self.r.choice([0, 9, 15, 19, 19, 18, 18, 10, 12, 1, 2, 3, 23, 28, 17, 99, 65])
        if self.r.random() < .04:
            self.e(p, "pkill", "p", "1", str(self.r.choice([0, 23, 99])))
            return
        js = [j] if t == "p" else [c for c in self.st if self.st[c] != "gone" and self.pg[c] == (j if t == "g" else self.pg[p])]
        if t == "p" and self.st[j] == "gone": js = []
        if g < 64 and g not in (0, 23, 28, 17, 18):
            if 0 in js: return                      # never hurt process 0
            for x in js:
                if self.descstop(x) or (g == 19 and self.par[x] != 0): return      # no orphaned groups with stopped members
        if g == 18 and any(self.pend.get(x) for x in js) and len([c for c in self.st if self.st[c] == "stop"]) > 1: return
        if g < 64 and g not in (0, 23, 28, 17, 18, 19) and len(js) > 1 and any(self.st[c] == "stop" for c in self.st): return
        if g == 19 and p in js: return              # its reply would come after it continues
        before = dict(self.st)
        if g <= 64 and g > 0:
            for x in js: self.deliver(x, g)
        selfhit = p != 0 and self.st[p] != "run"
        tgt = "$%d" % j if t != "s" else "0"
        self.e(p, "pkill", t, tgt, str(g), no=selfhit)
        self.settle([x for x in self.st if self.st[x] != before[x]])

    def wait(self):
        p = self.r.choice([0, 0, 0] + self.run())
        k = self.r.choice(["any", "any", "child", "child", "same", "group"])
        ps = [j for j in self.st if j] or [0]
        j = self.r.choice(self.kids(p) or ps) if self.r.random() < .8 else self.r.choice(ps)
        u = self.r.random() < .5
        cs = [c for c in self.kids(p) if k == "any" or (k == "child" and c == j) or (k == "same" and self.pg[c] == self.pg[p]) or (k == "group" and self.pg[c] == j)]
        z = [c for c in cs if self.st[c] == "zombie"]
        t = [c for c in cs if self.st[c] == "stop" and c in self.unrep and u]
        nh = bool(cs) and not (z or t) or self.r.random() < .4
        if len(z) + len(t) > 1 and k != "child":     # several candidates: the outcome is not known here
            self.amb = True
            if self.r.random() < .5:
                return self.drain(p)
            return
        for c in z: self.st[c] = "gone"
        for c in t: self.unrep.discard(c)
        if k == "any" and not u and not nh and self.r.random() < .5 and p == 0: self.o.append(("wait1",))
        else: self.e(p, "pwait", k, "$%d" % j, "u" if u else "-", "1" if nh else "0")

    def blocking(self):
        """A wait that begins before there is anything to report."""
        ps = [(p, c) for p in self.run() if p for c in self.kids(p) if self.st[c] == "run" and not self.descstop(c)]
        if not ps or any(x == "stop" for x in self.st.values()): return self.fork()
        p, c = self.r.choice(ps)
        u = self.r.random() < .5
        g = self.r.choice([9, 15, 19] if u else [9, 15, 10])
        k = "child" if len(self.kids(p)) > 1 else self.r.choice(["child", "any"])
        if k == "any" and any(self.st[x] == "zombie" for x in self.kids(p)): return
        self.e(p, "pwait", k, "$%d" % c, "u" if u else "-", "0", no=True)
        self.o.append(("settle", str(p), "S"))
        self.deliver(c, g)
        if self.st[c] == "run":                     # handled or ignored: it takes a stronger signal
            self.e(0, "pkill", "p", "$%d" % c, str(g))
            g = 9
            self.deliver(c, g)
        self.e(0, "pkill", "p", "$%d" % c, str(g))
        if self.st[c] == "stop": self.unrep.discard(c)
        else: self.st[c] = "gone"
        self.o.append(("@?", str(p)))

    def drain(self, p):
        """Wait for any child until none is ready: the order is the system's choice."""
        z = [c for c in self.kids(p) if self.st[c] == "zombie"]
        for _ in z: self.e(p, "pwait", "any", "0", "-", "0")
        for c in z: self.st[c] = "gone"

    def group(self):
        p = self.r.choice([0, 0] + self.run())
        x = self.r.random()
        if x < .08 and p:
            if any(self.pg[c] == p for c in self.lost): return
            self.e(p, "setsid")
            if not any(self.pg[c] == p and self.st[c] != "gone" for c in self.st):
                self.pg[p] = p
                self.sid[p] = p
            return
        ps = [j for j in self.st if j] or [0]
        j = self.r.choice([None] + self.kids(p) + [self.r.choice(ps)])
        q = self.r.choice([None, None, j] + ps)
        a, b = ("-" if j is None else "$%d" % j), ("-" if q is None else "$%d" % q)
        t = p if j is None else j
        g = t if q is None else q
        if g != t and any(self.pg[c] == g for c in self.lost): return
        self.e(p, "setpgid", a, b)
        ok = (self.st[t] != "gone" and (t == p or self.par[t] == p) and (t == p or (self.sess(t) == self.sess(p) and t not in self.ex))
              and self.sess(t) != t and t != 0
              and (g == t or any(self.pg[c] == g and self.st[c] != "gone" and self.sess(c) == self.sess(p) for c in self.st)))
        if ok: self.pg[t] = g

    def sess(self, j):
        return self.sid[j]

    def exit(self):
        ps = [j for j in self.run() if j and not self.descstop(j)]
        if not ps: return
        p = self.r.choice(ps)
        self.e(p, "pexit", str(self.r.choice([0, 1, 2, 42, 127, 128, 129, 137, 255])), no=True)
        self.die(p)
        self.settle([p])

    def args(self):
        r = self.r
        s = lambda: "".join(chr(r.choice([r.randrange(1, 256), r.randrange(97, 123), 32, 9, 10, 37, 36, 61, 92, 34])) for _ in range(r.choice([0, 1, 3, 8, 30])))
        n = r.choice([0, 0, 1, 2, 5]) if r.random() < .93 else r.choice([511, 512, 513, 1500])
        l = [s() for _ in range(n)]
        if r.random() < .05: l.append("x" * r.choice([1000, 5000, 131071 - 40000]))
        return l

    def exec(self):
        ps = [j for j in self.run() if j]
        if not ps: return
        p = self.r.choice(ps)
        k = self.r.choice(["exec", "execp", "exece"])
        if self.r.random() < .3:
            g = self.r.choice([10, 12, 15, 1, 2])
            self.e(p, "ignore", str(g))
            self.disp[p][g] = "ign"
        good = self.r.random() < .45
        if good:
            path = self.r.choice(["/bin/sh", "d2/prog"]) if k != "execp" else self.r.choice(["sh", "prog", "/bin/sh", "d2/prog", "txt", "d2/txt"])
        else:
            path = self.r.choice(["d1/prog", "d1/only", "d1/ddir", "d2/loop", "d2/prog/x", "d1/none", "", "none", "only", "ddir", "d2/txt", "x" * 300, "/bin/sh", "prog"])
            if k == "execp" and path in ("d2/txt", "prog"): path = "none"
            if k != "execp" and path == "prog": pass
        big = not good and path == "/bin/sh"
        if not good and path == "d2/txt" and k == "execp": return
        a = [self.r.choice(["sh", "prog", "zero", "a b", "\xff"])] + ([] if path in ("txt", "d2/txt") and k == "execp" else SH) + self.args()
        if big: a += ["y" * self.r.choice([131072, 200000])]
        env = self.args() if self.r.random() < .8 else []
        env = [("A%d=" % i + x) for i, x in enumerate(env)]
        op = (k, path) + ((str(len(a)),) if k == "exece" else ()) + tuple(a) + (tuple(env) if k == "exece" else ())
        self.e(p, *op, no=good)
        if good:
            self.ex.add(p)
            ign = [g for g, d in self.disp[p].items() if d == "ign"]
            self.disp[p] = {g: d for g, d in self.disp[p].items() if d == "ign"}
            self.o.append(("obs", str(p)))
            for g in ign:                           # still ignored by the new program
                self.e(0, "pkill", "p", "$%d" % p, str(g))
                self.o.append(("settle", str(p), "S"))

    def dispo(self):
        p = self.r.choice([j for j in self.run() if j] or [0])
        if not p: return
        g = self.r.choice([10, 12, 15, 1, 2, 14, 23])
        x = self.r.random()
        if x < .35: self.e(p, "count", str(g))
        elif x < .7:
            self.e(p, "handle", str(g))
            self.disp[p][g] = "h"
        elif x < .85:
            self.e(p, "ignore", str(g))
            self.disp[p][g] = "ign"
        else:
            self.e(p, "default", str(g))
            self.disp[p][g] = "dfl"

    def timed(self):
        ps = [j for j in self.run() if j]
        if not ps: return
        p = self.r.choice(ps)
        x = self.r.random()
        if x < .5:
            self.e(p, "palarm", str(self.r.choice([0, 0, 100, 200, 3600, 86400 * 20]) * 10**9 + self.r.choice([0, 0, 400000000, 999999999])))
        elif x < .75:
            self.e(p, "handle", "12")
            self.disp[p][12] = "h"
            t = self.r.choice([30, 60, 3000]) * 10**9 + self.r.randrange(10**9)
            self.o += [("@!", str(p), "psleep", str(t)), ("wake", str(p), "12")]
        elif x < .9:
            self.o += [("@!", str(p), "psleep", str(self.r.choice([0, 1, 1500000, 30000000]))), ("@?", str(p))]
        else:
            self.e(p, "handle", "10")
            self.disp[p][10] = "h"
            self.o += [("@!", str(p), "ppause"), ("wake", str(p), "10")]

    def ids(self):
        self.e(self.r.choice(self.run()), self.r.choice(["getpid", "getppid", "getpgrp"]))

    def system(self):
        k = self.r.choice(["exit", "sig"])
        self.e(self.r.choice([0] + self.run()), "system", "exit %d" % self.r.choice([0, 1, 3, 127, 255, 256, 300]) if k == "exit" else "kill -%d $$" % self.r.choice([9, 15, 1]))

    def script(self, n, kinds):
        self.fork()
        self.fork()
        while len(self.o) < n:
            getattr(self, self.r.choice(kinds))()
        for p in self.run(): self.drain(p) if p == 0 else None
        return self.o

    def alarms(self):
        """Alarms that go off."""
        self.fork(); self.fork(); self.fork()
        r = self.r
        ks = [1, 2, 3]
        a = r.sample(ks, 3)
        self.e(a[0], "palarm", "1000000000")
        self.e(a[1], "handle", "14")
        self.e(a[1], "palarm", str(r.choice([1000000000, 1900000000, 2000000000])))
        self.o += [("@!", str(a[1]), "ppause"), ("@?", str(a[1]))]
        self.e(a[1], "count", "14")
        self.e(a[2], "palarm", "1000000000")
        self.e(a[2], "palarm", r.choice(["0", "500000000"]))
        self.o += [("fired", str(a[0]))]
        self.die(a[0])
        self.settle([a[0]])
        self.o += [("settle", str(a[2]), "S")]
        self.e(a[2], "getpid")
        self.e(0, "pwait", "child", "$%d" % a[0], "-", "0")
        return self.o


G2 = Gen


def setup(d):
    os.makedirs(d + "/d1/ddir"); os.makedirs(d + "/d2")
    for f, m in (("d1/prog", 0o644), ("d1/only", 0o644), ("d2/txt", 0o755)):
        open(d + "/" + f, "wb").write(BLOCK)
        os.chmod(d + "/" + f, m)
    os.symlink("/bin/sh", d + "/d2/prog")
    os.symlink("loop", d + "/d2/loop")


class Procs(Os):
    def __init__(self, c):
        Os.__init__(self, c, extra=["procrun.sml"], main="ProcRun.export ()", img="procrun")

    def run(self, ident, lines, uid, fill=0):
        top, d = self.scratch(True)
        setup(d)
        for x, ds, fs in os.walk(top):
            for f in [x] + [os.path.join(x, q) for q in fs]:
                os.lchown(f, uid, uid)
        sp = os.path.join(top, "script")
        with open(sp, "wb") as f:
            for l in lines:
                f.write("\t".join([l[0]] + ["%s" % x if re.fullmatch(r"\$[0-9]", x) else esc(x.encode("latin-1")).replace("$", "%24") for x in l[1:]]).encode() + b"\n")
        os.chmod(sp, 0o644)
        e = {"PATH": d + "/d1:" + d + "/d2:" + d + "/nowhere:/bin", "HOME": "/", "TZ": "UTC", "LANG": "C", "VF_FILL": str(fill)}
        def pre():
            default_signals()
            os.setsid()
            resource.setrlimit(resource.RLIMIT_NOFILE, (200, 200))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([RUN, "@SMLload=" + self.img, sp], cwd=d, env=e, preexec_fn=pre, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, user=uid, group=uid, extra_groups=[])
        t0 = time.time_ns()
        to = False
        try:
            out, _ = p.communicate(timeout=int(os.environ.get("VF_PT", "60")))
        except subprocess.TimeoutExpired:
            to = True
            hung("a script", dict(script=sp))
            out = b""
        for x in os.listdir("/proc"):          # everything this user runs
            if x.isdigit():
                try:
                    if os.stat("/proc/" + x).st_uid == uid:
                        os.kill(int(x), signal.SIGKILL)
                except OSError:
                    pass
        if to:
            out, _ = p.communicate()
        rmtree_hard(top)
        res = []
        for ln in out.decode("latin-1").splitlines():
            if ln.startswith('{"e"'):
                try:
                    res.append(json.loads(ln))
                except ValueError:
                    break
        if p.returncode != 0 or len(res) != len(lines) or to:
            return {"id": ident, "bad": "script ended abnormally (rc=%s%s) after %d of %d operations" % (p.returncode, ", timed out" if to else "", len(res), len(lines)),
                    "out": out.decode("latin-1")[-1500:], "script": lines}
        return {"id": ident, "env": [tok("%s=%s" % kv) for kv in e.items()], "ev": conv(lines, res, d, t0)}


def conv(lines, res, d, t0):
    ids = {}
    ev = []
    wait = {}
    def pid(x):
        return ids.get(x, -1)
    main_pid = None
    BASE = dict(j=0, q=-7, n=0, g=0, t="", k="", u=False, nh=False, path="", args=[], env=[], big=False, long=False, d="", late=False, noreply=False)
    ms = lambda ns: (int(ns) - t0) // 10**6
    dur = lambda ns: min(int(ns) // 10**6, 2 * 10**9)
    for l, r in zip(lines, res):
        p, a, noreply = 0, l, False
        if l[0] in ("@", "@!"):
            p, a, noreply = int(l[1]), l[2:], l[0] == "@!"
        e, rr = r["e"], r["r"]
        op = a[0]
        o = dict(BASE, op=op, pr=p, noreply=noreply)
        sub = lambda x: int(x[1:]) if x.startswith("$") else -7 if x == "-" else -2
        if l[0] == "@!" and op in ("psleep", "ppause", "pwait"):
            wait[p] = a
            continue
        if op in ("@?", "wake"):
            p = int(a[1])
            w = wait.pop(p)
            if w[0] == "pwait":
                ev.append(dict(BASE, op="pwait", pr=p, k=w[1], j=sub(w[2]), u=w[3] == "u", nh=False, e=e,
                               r=[pid(rr[0]), rr[1]] if not e and len(rr) >= 2 else rr))
                continue
            o = dict(BASE, op=w[0], pr=p, g=int(a[2]) if op == "wake" else 14 if w[0] == "ppause" else 0)
            if w[0] == "psleep":
                t, up = int(w[1]), -(-int(rr[1]) // 10**6) if len(rr) > 1 else 0
                o["t"] = dur(t)
                rr = [dur(rr[0]), up + 1] if not e else []
            else:
                rr = []
        elif op == "pfork":
            o["j"] = int(a[1])
            if not e and rr:
                ids[rr[0]] = int(a[1])
                rr = [int(a[1])]
        elif op == "pexit": o["n"] = int(a[1])
        elif op == "pkill": o.update(t=a[1], j=-2 if a[2] == "1" else sub(a[2]), g=int(a[3]))
        elif op in ("pwait", "wait1"):
            if op == "wait1": o.update(op="pwait", k="any")
            else: o.update(k=a[1], j=sub(a[2]), u=a[3] == "u", nh=a[4] == "1")
            if not e and len(rr) == 2: rr = [pid(rr[0]), rr[1]]
        elif op in ("getpid", "getppid", "getpgrp", "setsid"):
            if not e and rr:
                if op == "getpid" and p == 0: ids.setdefault(rr[0], 0)
                if op != "getpid" and rr[0] not in ids and main_pid is None: main_pid = rr[0]
                rr = [rr[0]]
        elif op == "setpgid": o.update(j=sub(a[1]), q=sub(a[2]))
        elif op in ("exec", "execp", "exece"):
            x = list(a[2:])
            if op == "exece":
                k = int(x[0])
                o["env"] = [tok(y) for y in x[1 + k:]]
                x = x[1:1 + k]
            o.update(path=a[1] if len(a[1]) < 200 else "long", long=len(a[1]) >= 200, args=[tok(y) for y in x], big=any(len(y) > 131071 for y in a[1:]))
        elif op in ("handle", "ignore", "default"):
            o.update(op="disp", g=int(a[1]), d={"handle": "h", "ignore": "ign", "default": "dfl"}[op])
        elif op == "count":
            o["g"] = int(a[1])
            rr = [int(x) for x in rr]
        elif op == "palarm":
            o["t"] = int(a[1]) // 10**9
            if not e: rr = [int(rr[0]) // 10**9, ms(rr[1]), ms(rr[2]) + 1]
        elif op == "settle": o["j"] = int(a[1])
        elif op == "fired": o["j"] = int(a[1])
        elif op == "obs":
            o["j"] = int(a[1])
            if not e and len(rr) == 2:
                rr = [[tok(x.replace(d + "/", "D/", 1) if i == 1 and x.startswith(d + "/") else x) for i, x in enumerate(rr[0].split("\0")[:-1])],
                      [tok(x) for x in rr[1].split("\0")[:-1]]]
        elif op == "system":
            o.update(k="exit" if a[1].startswith("exit") else "sig", n=int(a[1][5:]) if a[1].startswith("exit") else 0,
                     g=0 if a[1].startswith("exit") else int(a[1][6:-3]))
            rr = [int(x) for x in rr]
        o["e"], o["r"] = ("", []) if noreply else (e, rr)
        if noreply: o["e"], o["r"] = "", []
        ev.append(o)
    # process IDs reported by getpid and the like
    for o in ev:
        if o["op"] in ("getpid", "getppid", "getpgrp", "setsid") and o["r"]:
            o["r"] = [ids.get(o["r"][0], -1)]
    return ev


def batch(c, P, jobs, what, base):
    def one(j):
        i, (seed, kind, n, fill) = j
        g = G2(random.Random(seed))
        if kind == "alarms": lines = g.alarms()
        else:
            k = {"wait": ["fork", "blocking", "kill", "kill", "kill", "wait", "wait", "wait", "exit", "ids", "group"],
                 "group": ["fork", "group", "group", "group", "group", "kill", "wait", "ids", "exit"],
                 "sig": ["fork", "dispo", "dispo", "dispo", "kill", "kill", "wait", "timed"],
                 "exec": ["fork", "exec", "exec", "exec", "wait", "kill", "dispo", "group", "system", "exit"]}[kind]
            lines = g.script(n, k)
        lines = [("getpid",)] + lines
        return P.run("%s/%d" % (kind, seed), lines, base + i, fill)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        trs = list(ex.map(one, list(enumerate(jobs))))
    good = []
    for t in trs:
        if "bad" in t: c.violation("%s: %s: %s\n%s" % (what, t["id"], t["bad"], t["out"]), t)
        else: good.append(t)
    validate_traces(c, "ProcTrace", "Trace.cfg", good, what)
    for t in good[:2]: c.sample({"id": t["id"], "first": t["ev"][:3]})
