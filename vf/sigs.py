"""Random histories of handlers, masks and signals; judged by spec/Sig.tla."""
import random, signal as _s, concurrent.futures
from vf.osx import *

NAMES = ["HUP", "INT", "QUIT", "USR1", "USR2", "PIPE", "ALRM", "TERM", "CHLD", "CONT", "TSTP", "TTIN", "TTOU", "URG", "VTALRM", "WINCH", "IO", "GC"]
NUM = {n: int(getattr(_s, "SIG" + n)) for n in NAMES if n != "GC"}
WORK = [40, 200, 700]


class Gen:
    def __init__(self, rng, mix):
        self.r, self.mix, self.L, self.n = rng, mix, [], 0
        self.sigs = rng.sample([x for x in NAMES if x not in ("GC", "CHLD")], rng.choice([2, 3, 5])) + ["CHLD"]
        if mix != "pause": self.sigs.append("GC")
        self.mk = {s: 0 for s in NAMES}          # exact unless handlers mask

    def out(self, *a): self.L.append(tuple(str(x) for x in a))

    def some(self): return ",".join(self.r.sample(self.sigs, self.r.randrange(1, len(self.sigs) + 1)))

    def handler(self, s, plain=False):
        """number and actions of a new handler of s"""
        self.n += 1
        me, acts = self.n, []
        if not plain and s != "CHLD":
            i = self.sigs.index(s)
            for _ in range(self.r.choice([0, 0, 0, 1, 2, 3])):
                k = self.r.choice("rrmuihgax")
                if k == "r":
                    later = [x for x in self.sigs[i + 1:] if x != "GC"]
                    if later: acts.append("r:%d" % NUM[self.r.choice(later)])
                elif k in "mu":
                    if self.mix == "mask": acts.append(k + ":" + self.r.choice([self.some(), self.some(), "*"]))
                elif k == "i":
                    t = self.r.choice(self.sigs)
                    acts.append("i:" + t)
                elif k == "h":
                    self.n += 1
                    t = self.r.choice(self.sigs)
                    acts.append("h:%s:%d" % (t, self.n))
                elif k == "x": acts.append("x")
                else: acts.append(k)
        return str(me), " ".join(acts)

    def setup(self):
        for w in WORK: self.out("work", w)
        self.out("threshold", 5)
        for s in self.sigs:
            self.out(self.r.choice(["sethandler", "override"]), s, *(self.handler(s) if self.r.random() < .8 else ("i",)))
        # nothing may be deadly: an ignored one is overridden in vain
        for s in self.sigs: self.out("inq", s)

    def step(self):
        r = self.r
        c = r.random()
        s = r.choice(self.sigs)
        if c < .34:
            self.out("send", *[NUM[x] for x in [r.choice([y for y in self.sigs if y != "GC"]) for _ in range(r.choice([1, 1, 1, 2, 3, 5]))]]) if self.noesc() else self.out("send", NUM[r.choice([y for y in self.sigs if y != "GC"])])
        elif c < .44: self.out("mask", r.choice([self.some(), self.some(), "*"]))
        elif c < .58: self.out("unmask", r.choice([self.some(), self.some(), "*"]))
        elif c < .70:
            q = r.random()
            a = self.handler(s) if q < .75 else ("i",)
            self.out(r.choice(["sethandler", "sethandler", "override"]), s, *a)
        elif c < .74: self.out("inq", s)
        elif c < .80: self.out("masked", "x")
        elif c < .85: self.out("gc", r.choice([0, 1, 5, 5])) if "GC" in self.sigs else self.out("quiet", "x")
        elif c < .88: self.out("work", r.choice(WORK))
        elif c < .92:
            s = r.choice([x for x in self.sigs if x not in ("GC", "CHLD")])
            for t in (s, "CHLD"): self.out("sethandler", t, *self.handler(t, True))
            self.out("async", NUM[s], r.choice([1, 3, 20, 60]), r.choice([0, 50, 300]), r.choice(WORK))
        elif c < .94: self.out("quiet", "x")
        elif c < .97:
            if "ALRM" in self.sigs:
                self.out("sethandler", "ALRM", *self.handler("ALRM", True))
                self.out("timer", *r.choice([(1000, 60), (1000, 60), (2000, 60), (5000, 60), (120000, 300), (1100000, 1500) if r.random() < .1 else (700, 60)]), r.choice(WORK))
        elif self.mix == "pause":
            s = r.choice([x for x in self.sigs if x not in ("GC", "CHLD")])
            for t in (s, "CHLD"): self.out("sethandler", t, *self.handler(t, True))
            for _ in range(max(self.cnt(s), 0)): self.out("unmask", s)
            self.out("pause", NUM[s])

    def cnt(self, s):
        n = 0
        for l in self.L:
            if l[0] in ("mask", "unmask") and (l[1] == "*" or s in l[1].split(",")):
                n = n + 1 if l[0] == "mask" else max(0, n - 1)
        return n

    def noesc(self): return not any(l[0] in ("sethandler", "override") and len(l) > 3 and "x" in l[3].split() for l in self.L)


BYNUM = {v: k for k, v in NUM.items()}


def act(a):
    f = a.split(":")
    d = dict(k=f[0], s="", l=[], id="")
    if f[0] == "r": d["s"] = BYNUM[int(f[1])]
    elif f[0] in "mu" and len(f) > 1: d["l"] = f[1].split(",")
    elif f[0] == "i": d["s"] = f[1]
    elif f[0] == "h": d["s"], d["id"] = f[1], f[2]
    return d


def convert(L, R):
    ev, base = [], {}
    for l, x in zip(L, R):
        v = dict(op=l[0], e=x["e"])
        r = x["r"]
        i = r.index("|") if "|" in r else len(r)
        v["h"] = [[y.split(",")[0], y.split(",")[1], int(y.split(",")[2])] for y in r[i + 1:]]
        v["r"] = r[:i]
        op = l[0]
        if op in ("sethandler", "override"):
            v.update(s=l[1], a=l[2], acts=[act(a) for a in (l[3].split() if len(l) > 3 else [])])
        elif op == "inq": v["s"] = l[1]
        elif op in ("mask", "unmask"): v["l"] = l[1].split(",")
        elif op == "send": v["l"] = [BYNUM[int(y)] for y in l[1:]]
        elif op in ("gc", "threshold"): v["n"] = int(l[1])
        elif op == "work":
            base.setdefault(l[1], v["r"])
            v["want"] = base[l[1]]
        elif op == "async": v.update(s=BYNUM[int(l[1])], n=int(l[2]), want=base[l[4]])
        elif op == "pause": v.update(s=BYNUM[int(l[1])], n=int(v["r"][0]) if v["r"] else -1)
        elif op == "timer": v.update(us=int(l[1]), el=int(v["r"][0]) if v["r"] else 0, bad=int(v["r"][1]) if len(v["r"]) > 1 else 1)
        ev.append(v)
    return ev


def batch(c, o, jobs, what):
    def one(j):
        seed, mix, n, fill = j
        g = Gen(random.Random(seed), mix)
        g.setup()
        for _ in range(n): g.step()
        q = o.script(g.L, env={"VF_FILL": str(fill)} if fill else None, timeout=60)
        if not q["ok"]:
            return dict(bad=dict(lines=g.L, **{k: q[k] for k in ("rc", "to", "out")}), seed=seed)
        return dict(id="%s%d" % (mix, seed), init={s: "i" if s in ("PIPE", "GC") else "d" for s in NAMES}, ev=convert(g.L, q["res"]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, jobs))
    for x in rs:
        if "bad" in x:
            c.violation("the signal script of seed %d did not run to its end (rc=%s)" % (x["seed"], x["bad"]["rc"]), x["bad"])
    validate_traces(c, "SigTrace", "SigTrace.cfg", [x for x in rs if "ev" in x], what)
    return rs


def deaths(c, o):
    """Each signal sent to a process with each action, masked or not: who dies of it?"""
    def one(j):
        s, a, m = j
        L = [("list", "x"), ("sethandler", s, a)] + ([("mask", m)] if m else []) + [("die", str(NUM[s]))]
        q = o.script(L, timeout=30)
        # a stopped process is a timeout
        k = len(q["res"])
        if not k and q["rc"] < 0 and not m:               # (what was logged before is lost with the process)
            return dict(id="%s%s" % (s, a), init={x: a if x == s else "d" for x in NAMES}, ev=[dict(op="die", s=s, by=-q["rc"], num=NUM[s], h=[])])
        if q["to"] or k < len(L):
            return dict(bad={x: q[x] for x in ("rc", "to", "out")}, j=j)
        R = q["res"]
        ev = [dict(op="list", e=R[0]["e"], r=R[0]["r"], h=[])] + convert(L[1:-1], R[1:len(L) - 1])
        ev.append(dict(op="die", s=s, by=-q["rc"], num=NUM[s], h=[] if k < len(L) else convert([("quiet", "x")], [R[-1]])[0]["h"]))
        return dict(id="%s%s%s" % (s, a, m), init={x: "i" if x in ("PIPE", "GC") else "d" for x in NAMES}, ev=ev)
    jobs = [(s, a, m) for s in NAMES if s not in ("GC", "TSTP", "TTIN", "TTOU") for a, m in (("d", ""), ("i", ""), ("1", ""), ("d", s))]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, jobs))
    for x in rs:
        if "bad" in x: c.violation("the script for %s did not run to its end" % (x["j"],), x["bad"])
    validate_traces(c, "SigTrace", "SigTrace.cfg", [x for x in rs if "ev" in x], "deaths")
