"""Random histories of pipes and files on chosen descriptors, polled in between; judged by spec/Poll.tla."""
import concurrent.futures, random
from vf.osx import *


class Gen:
    """Keeps a rough copy of the state only to avoid operations that would wait for ever."""
    def __init__(self, r, top):
        self.r, self.top, self.d, self.p, self.n = r, top, {}, {}, 0
        self.L, self.V, self.socks, self.big, self.secs = [], [], 0, r.random() < .2, 1

    def out(self, l, **v):
        self.L.append(tuple(str(x) for x in l))
        self.V.append(dict(op=l[0], **v))

    def free(self):
        while True:
            f = self.r.choice([self.r.randrange(3, 12), self.r.randrange(3, 70), self.r.randrange(3, self.top), self.top - 1])
            if f not in self.d: return f

    def held(self, p, k): return any(x == (k, p) for x in self.d.values())

    def ready(self, f, c, extra=None):
        k, p = self.d[f]
        if k == "f": return c != "p"
        if k in "tu": return c == "o" or (c == "p" and k == "u")
        n, full = self.p[p]
        if extra == p: n += 1
        if k == "r": return c == "i" and (n > 0 or not self.held(p, "w"))
        return (c == "o" and (not full or not self.held(p, "r"))) or (c == "i" and not self.held(p, "r"))

    def items(self):
        r = self.r
        fs = sorted(self.d)
        n = r.choice([0, 1, 2, 3, 5, 8, len(fs), 1, 2, 3, 80, 300] + [1500] * self.big)
        q = r.random()
        pick = fs if q < .6 else [f for f in fs if not any(self.ready(f, c) for c in "iop")] or fs
        l = [(r.choice(pick), "".join(c for c in "iop" if r.random() < .6)) for _ in range(n)] if pick else []
        if q > .8: l = [(f, "".join(c for c in g if not self.ready(f, c))) for f, g in l]       # nothing ready
        shut = [f for f in range(3, 60) if f not in self.d]      # (the kernel ignores closed ones beyond its table)
        if shut and r.random() < .04: l.insert(r.randrange(len(l) + 1), (r.choice(shut), r.choice(["i", "o", "p", ""])))
        return l

    def step(self):
        r = self.r
        k = r.choice(["mkp", "mkp", "mkf", "mks", "wr", "wr", "wr", "rd", "rd", "fill", "drain", "cls"] + ["poll"] * 10 + ["pollw"])
        ends = lambda t, c: sorted(f for f, (a, p) in self.d.items() if a == t and c(p))
        if k == "mkp" and len(self.d) < (60 if self.top > 200 else 24):
            f = self.free(); self.d[f] = ("r", self.n)
            g = self.free(); self.d[g] = ("w", self.n)
            self.p[self.n] = [0, False]
            self.out(("mkp", f, g), f=f, g=g, p=self.n); self.n += 1
        elif k == "mkf" and len(self.d) < 60:
            f = self.free(); self.d[f] = ("f", -1)
            self.out(("mkf", r.choice(["r", "w", "rw"]), f), f=f)
        elif k == "mks" and self.socks < 6:
            self.socks += 1
            f = self.free(); u = r.random() < .6; self.d[f] = ("u" if u else "t", -1)
            self.out(("mks", int(u), f), f=f, k="u" if u else "t")
        elif k == "wr":
            l = ends("w", lambda p: self.held(p, "r") and self.p[p][0] < 1500 and not self.p[p][1])
            if l:
                f, n = r.choice(l), r.choice([1, 2, 100, 1000]); self.p[self.d[f][1]][0] += n
                self.out(("pwr", f, n), f=f, n=n)
        elif k == "rd":
            l = ends("r", lambda p: not self.p[p][1] and (self.p[p][0] > 0 or not self.held(p, "w")))
            if l:
                f, n = r.choice(l), r.choice([1, 10, 4096]); q = self.p[self.d[f][1]]
                self.out(("prd", f, n), f=f, n=n); q[0] -= min(q[0], n)
        elif k == "fill":
            l = ends("w", lambda p: self.held(p, "r") and not self.p[p][1])
            if l and r.random() < .5:
                f = r.choice(l); q = self.p[self.d[f][1]]; self.out(("fill", f), f=f); q[:] = [q[0] + 4096, True]
                self.V[-1]["pipe"] = self.d[f][1]
        elif k == "drain":
            l = ends("r", lambda p: self.p[p][1] and self.p[p][0] > 0)
            if l:
                f = r.choice(l); self.out(("drain", f, "ALL"), f=f); self.p[self.d[f][1]] = [0, False]
        elif k == "cls" and self.d and r.random() < .5:
            f = r.choice(sorted(self.d)); self.out(("pcls", f), f=f); del self.d[f]
        elif k in ("poll", "pollw"):
            l = self.items()
            bad = any(g and f not in self.d for f, g in l)
            any0 = bad or any(self.ready(f, c) for f, g in l if f in self.d for c in g)
            v = dict(items=[dict(f=f, fl=list(g)) for f, g in l])
            it = ["%d:%s" % x for x in l]
            if k == "poll":
                t = r.choice([-1, 0, 0, 1, 999, 1000, 60000000]) if any0 else r.choice([0, 0, 0, 1, 500, 1000, 20000, 70001])
                if not any0 and self.secs and r.random() < .05: self.secs -= 1; t = r.choice([1000000, 1000001, 1200000])
                self.out(("poll", "-" if t < 0 else t, *it), t=t, **v)
            else:
                w = ends("w", lambda p: self.held(p, "r") and self.p[p][0] < 1500 and not self.p[p][1])
                rd = [f for f, g in l if "i" in g and f in self.d and self.d[f][0] == "r"]
                w2 = [x for x in w if any(self.d[f][1] == self.d[x][1] for f in rd)]
                if w2 and not bad:
                    f, ms, n = r.choice(w2), r.choice([0, 10, 40]), r.choice([1, 700])
                    t = r.choice([-1, 60000000])
                    self.out(("pollw", f, ms, n, "-" if t < 0 else t, *it), f=f, ms=ms, n=n, t=t, **v); self.p[self.d[f][1]][0] += n


def batch(c, o, jobs, what):
    def one(j):
        seed, n, top, fill = j
        g = Gen(random.Random(seed), top)
        while len(g.L) < n: g.step()
        # how much a filled pipe holds is known only when the script runs: it is emptied by repeated reading
        L = [("drainall", l[1]) if l[0] == "drain" else l for l in g.L]
        x = o.script(L, env={"VF_FILL": str(fill)} if fill else None, lim=1024, timeout=120)
        if not x["ok"]: return dict(bad=dict(lines=L, rc=x["rc"], to=x["to"], out=x["out"][-3000:]), seed=seed)
        ev = []
        for v, q in zip(g.V, x["res"]):
            v = dict(v, e=q["e"], r=[], el=0, m=0)
            v.pop("pipe", None)
            if q["e"] == "":
                if v["op"] in ("poll", "pollw"):
                    v["el"] = int(q["r"][0])
                    for y in q["r"][1:]:
                        f, fl = y.split(":")
                        v["r"].append(dict(f=int(f), fl=list(fl)))
                elif v["op"] in ("pwr", "prd", "fill"): v["m"] = int(q["r"][0])
            ev.append(v)
        return dict(id="poll%d" % seed, ev=ev)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, jobs))
    for x in rs:
        if "bad" in x: c.violation("%s: the script of seed %d did not run to its end (rc=%s)" % (what, x["seed"], x["bad"]["rc"]), x["bad"])
    ok = [x for x in rs if "ev" in x]
    if ok: c.sample({"id": ok[0]["id"], "ev": ok[0]["ev"][:4]})
    validate_traces(c, "PollTrace", "Trace.cfg", ok, what)
