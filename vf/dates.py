"""Random questions about dates, local time and the clocks; judged by spec/Date.tla."""
import random, calendar, concurrent.futures
from vf.osx import *

def zone(s, std, dst=0, b=None, e=None, sn="", dn=""):
    return s, dict(std=std, dst=dst, rule=b is not None, b=b or [1, 1, 0, 0], e=e or [1, 1, 0, 0], sn=sn, dn=dn)

H = 3600
ZONES = [
    zone("UTC0", 0, sn="UTC"),
    zone("EST5EDT,M3.2.0,M11.1.0", -5 * H, -4 * H, [3, 2, 0, 2 * H], [11, 1, 0, 2 * H], "EST", "EDT"),
    zone("CET-1CEST,M3.5.0,M10.5.0/3", H, 2 * H, [3, 5, 0, 2 * H], [10, 5, 0, 3 * H], "CET", "CEST"),
    zone("AEST-10AEDT,M10.1.0,M4.1.0/3", 10 * H, 11 * H, [10, 1, 0, 2 * H], [4, 1, 0, 3 * H], "AEST", "AEDT"),
    zone("IST-5:30", 19800, sn="IST"),
    zone("NPT-5:45", 20700, sn="NPT"),
    zone("HST10", -10 * H, sn="HST"),
    zone("LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 11 * H, [10, 1, 0, 2 * H], [4, 1, 0, 2 * H], "LHST", "LHDT"),
    zone("NZST-12NZDT,M9.5.0,M4.1.0/3", 12 * H, 13 * H, [9, 5, 0, 2 * H], [4, 1, 0, 3 * H], "NZST", "NZDT"),
    zone("LINT-14", 14 * H, sn="LINT"),
    zone("AOE12", -12 * H, sn="AOE"),
    zone("QQQ-0:00:07", 7, sn="QQQ"),
]
CONV = "aAbBcdHIjmMpSUwWxXyYZ%"
MAXNS = (1 << 64) - 1


def transition(r, z):
    y = r.randrange(1970, 2554)
    m, w, d, t = z["b"] if r.random() < .5 else z["e"]
    first = calendar.timegm((y, m, 1, 0, 0, 0))
    wd = (calendar.weekday(y, m, 1) + 1) % 7
    k = (d - wd) % 7 + 7 * (w - 1)
    if k >= calendar.monthrange(y, m)[1]: k -= 7
    return first + k * 86400 + t


class Gen:
    def __init__(self, r, z):
        self.r, self.z, self.L, self.E = r, z, [], []

    def secs(self, far=False):
        r = self.r
        c = r.random()
        if c < .25 and self.z["rule"]:
            s = transition(r, self.z) - r.choice([self.z["std"], self.z["dst"]]) + r.choice([-3601, -3600, -3599, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 3601])
        elif c < .45:
            y = r.randrange(1970, 2554)
            s = calendar.timegm((y, r.choice([1, 2, 3, 12]), r.choice([1, 28, 29, 31]), r.choice([0, 23]), r.choice([0, 59]), r.choice([0, 59]))) if True else 0
        elif c < .5: s = r.randrange(0, 200000)
        elif c < .6: s = r.randrange((1 << 31) - 100000, (1 << 31) + 100000) + r.choice([0, 1 << 31])
        elif c < .63: s = MAXNS // 10**9 - r.randrange(0, 10)
        else: s = r.randrange(0, MAXNS // 10**9)
        return max(0, min(s, MAXNS // 10**9 - 1 - (200000 if far else 0)))

    def date(self):
        """driver words, trace fields"""
        r = self.r
        k = r.choice("ullmm")
        a = dict(y=0, m=0, d=0, h=0, mi=0, s=0)
        t = [0, 0]
        if k in "ul":
            s = self.secs()
            ns = s * 10**9 + r.choice([0, 1, 999999999, r.randrange(10**9)])
            return [k, ns], dict(k=k, t=[s // 86400, s % 86400], a=a)
        if r.random() < .5:
            a = dict(y=r.randrange(1965, 2550), m=r.randrange(1, 13), d=r.randrange(-40, 420), h=r.randrange(-50, 100), mi=r.randrange(-200, 200), s=r.randrange(-200, 4000))
        else:
            s = self.secs(True) + r.choice([self.z["std"], self.z["dst"]])
            x = __import__("time").gmtime(s)
            a = dict(y=x.tm_year, m=x.tm_mon, d=x.tm_mday, h=x.tm_hour, mi=x.tm_min, s=min(x.tm_sec, 59))
        return [k] + [a[f] for f in ("y", "m", "d", "h", "mi", "s")], dict(k=k, t=t, a=a)

    def fmt(self):
        r = self.r
        fs, s = [], ""
        lit = lambda n: "".join(r.choice("abcYHdM -:/,.") for _ in range(n))
        for _ in range(r.choice([1, 2, 3, 5, 9, 30])):
            l = lit(r.choice([0, 0, 1, 2, 7, 40, 120]))
            c = r.choice(CONV) if r.random() < .95 else r.choice("q!z")
            fs.append(dict(l=l, c=c))
            s += l + "%" + c
        if r.random() < .3:
            l = lit(r.choice([1, 5, 600]))
            fs.append(dict(l=l, c=""))
            s += l
        if r.random() < .05:
            fs.append(dict(l="%", c=""))
            s += "%"
        return s, fs

    def step(self):
        r = self.r
        op = r.choice(["get", "get", "time", "time", "fmt", "fmt", "str", "cmp", "scan", "off", "now"])
        if op in ("off", "now"):
            self.L.append((op, "x"))
            self.E.append(dict(op=op))
            return
        w, v = self.date()
        v["op"] = op
        if op == "scan" and v["k"] == "m": op = v["op"] = "get"
        if op == "fmt":
            s, v["f"] = self.fmt()
            w.append(s)
        if op == "cmp":
            w2, o = self.date()
            if r.random() < .5 and v["k"] == "m":
                o = dict(v, a=dict(v["a"]))
                f = r.choice(["y", "m", "d", "h", "mi", "s", "no"])
                if f != "no":
                    o["a"][f] += r.choice([-1, 1])
                    o["a"]["m"] = min(12, max(1, o["a"]["m"]))
                w2 = ["m"] + [o["a"][f] for f in ("y", "m", "d", "h", "mi", "s")]
            v["o"] = dict(k=o["k"], t=o["t"], a=o["a"])
            w += w2
        self.L.append(tuple(str(x) for x in [op] + w))
        self.E.append(v)


def num(x):
    return int(x)


def us(ns):
    ns = int(ns)
    return [ns // 10**9, ns % 10**9 // 1000]


def convert(L, E, R, z, t0, t1, d0):
    ev = []
    for v, r in zip(E, R):
        e = dict(v)
        e["e"] = "Date" if r["e"].startswith("exn:Date") else r["e"]
        x = r["r"]
        op = v["op"]
        if e["e"] == "":
            if op in ("get", "scan"): x = [num(y) if y != "NONE" else -9 for y in x]
            elif op == "time":
                s = int(x[0])
                x = [s // 10**9 // 86400, s // 10**9 % 86400] if s % 10**9 == 0 else [-1, -1]
            elif op == "off":
                s = int(x[0])
                x = [s // 10**9]
            elif op == "now": x = us(x[0])
        else: x = []
        if op == "off":
            s = t0 // 10**9
            e["t"] = [s // 86400, s % 86400]
        if op == "now": e["lo"], e["hi"] = us(t0), us(t1 + 1000)
        e["r"] = x
        ev.append(e)
    return ev


def batch(c, o, jobs):
    def one(j):
        seed, n, fill = j
        r = random.Random(seed)
        s, z = ZONES[seed % len(ZONES)] if r.random() < .6 else r.choice(ZONES)
        g = Gen(r, z)
        for _ in range(n): g.step()
        env = {"TZ": s}
        if fill: env["VF_FILL"] = str(fill)
        q = o.script(g.L, env=env)
        if not q["ok"]:
            return dict(bad=dict(zone=s, lines=g.L, **{k: q[k] for k in ("rc", "to", "out")}), seed=seed)
        return dict(id="d%d" % seed, zone=s, z=z, ev=convert(g.L, g.E, q["res"], z, q["t0"], q["t1"], None))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, jobs))
    for x in rs:
        if "bad" in x:
            c.violation("the date script of seed %d did not run to its end (rc=%s)" % (x["seed"], x["bad"]["rc"]), x["bad"])
    validate_traces(c, "DateTrace", "Trace.cfg", [x for x in rs if "ev" in x], "dates")


def clocks(c, o, n, seed):
    """CPU and elapsed timers: what /proc says before and after each reading bounds it."""
    hz = os.sysconf("SC_CLK_TCK")
    def one(k):
        r = random.Random(seed * 77 + k)
        L = [("cpu0", "x")] + [("cpu", r.choice("usg"), str(r.choice([30, 60, 100]))) for _ in range(7)]
        if k == 0: L += [("cpu", "u", "1300"), ("cpu", "s", "1500"), ("cpu", "g", "1200")]
        q = o.script(L, timeout=120)
        if not q["ok"]:
            return dict(bad={x: q[x] for x in ("rc", "to", "out")})
        p0 = [int(x) for x in q["res"][0]["r"]]
        ev, gmin, gmax, last = [], 0.0, 0.0, [0.0, 0.0]
        T = lambda x: [int(max(0, x)), int(max(0, x) % 1 * 10**6)]
        for l, res in zip(L[1:], q["res"][1:]):
            x = [int(y) for y in res["r"]] if res["e"] == "" else []
            if len(x) != 11:
                return dict(bad=dict(res=res))
            lo = [(x[i] - p0[i]) / hz for i in (0, 1)]
            hi = [(x[9 + i] - p0[i]) / hz for i in (0, 1)]
            usr, sys_, gu, gs, nu, ns, w = [y / 1e9 for y in x[2:9]]
            du = hi[0] - last[0]
            if l[1] == "g": gmin += max(0, (lo[0] - last[0]) * .5 - .02); gmax += du + .04
            else: gmax += du * .5 + .04
            last = hi
            tol = .025
            ev.append(dict(op="cpu", e="", u=T(usr), s=T(sys_), g=T(gu), w=T(w), nu=T(nu), gs=T(gs), ns=T(ns), slack=T(.05),
                           maxu=T(hi[0] + tol), minu=T(lo[0] - tol), maxs=T(hi[1] + tol), mins=T(lo[1] - tol), ming=T(gmin), maxg=T(gmax)))
        return dict(id="c%d" % k, zone="", z=ZONES[0][1], ev=ev)
    with concurrent.futures.ThreadPoolExecutor(4) as ex: rs = list(ex.map(one, range(n)))
    for x in rs:
        if "bad" in x: c.violation("the clock script did not run to its end", x["bad"])
    validate_traces(c, "DateTrace", "Trace.cfg", [x for x in rs if "ev" in x], "clocks")
