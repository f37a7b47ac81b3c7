"""Generation of CML programs, running them on the real CML and turning the logs into traces."""
import os, json, re, random
from .common import *

class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof

    def w(self, table):
        ks = [k for k in table if table[k] > 0]
        return self.r.choices(ks, [table[k] for k in ks])[0]

    def val(self):
        self.nv += 1
        return self.nv

    # ---- events: (tokens, leaves, guards) where a leaf is dict(k,c,v,n,w) ----
    def ev(self, d, joinable):
        r, p = self.r, self.p
        comb = d > 0 and r.random() < p["comb"]
        if comb:
            k = self.w(p["combs"])
            if k == "C":
                n = r.choice([0, 1, 2, 2, 2, 3, 3]) if d > 1 else r.choice([1, 2, 2, 3])
                subs = [self.ev(d - 1, joinable) for _ in range(n)]
                return (["C", n] + sum([s[0] for s in subs], []), sum([s[1] for s in subs], []), sum([s[2] for s in subs], []), sum([s[3] for s in subs], []))
            if k == "K":
                i = self.nk; self.nk += 1
                s = self.ev(d - 1, joinable)
                return (["K", i] + s[0], [dict(l, n=l["n"] + [i]) for l in s[1]], s[2] + [100 + i], s[3] + [i])
            i = self.nid; self.nid += 1
            s = self.ev(d - 1, joinable)
            if k == "g":
                return (["g", i] + s[0], s[1], s[2] + [i], s[3])
            return ([k, i] + s[0], [dict(l, w=l["w"] + [[k, i]]) for l in s[1]], s[2], s[3])
        k = self.w(p["leaves"])
        leaf = dict(k=None, c=0, v=0, n=[], w=[])
        def L(kind, c=0, v=0):
            leaf.update(k=kind, c=c, v=v)
            return leaf
        if k == "s":
            c, v = r.randint(1, self.nch), self.val(); return (["s", c, v], [L("send", c, v)], [], [])
        if k == "r":
            c = r.randint(1, self.nch); return (["r", c], [L("recv", c)], [], [])
        if k == "a":
            v = self.val(); return (["a", v], [L("always", 0, v)], [], [])
        if k == "n":
            return (["n"], [L("never")], [], [])
        if k == "ig":
            c = r.randint(1, self.niv); return (["ig", c], [L("iget", c)], [], [])
        if k == "mt":
            c = r.randint(1, self.nmv); return (["mt", c], [L("mtake", c)], [], [])
        if k == "mg":
            c = r.randint(1, self.nmv); return (["mg", c], [L("mget", c)], [], [])
        if k == "ms":
            c, v = r.randint(1, self.nmv), self.val(); return (["ms", c, v], [L("mswap", c, v)], [], [])
        if k == "br":
            c = r.randint(1, self.nmb); return (["br", c], [L("brecv", c)], [], [])
        if k == "t":
            us = r.choice(p["delays"]); return (["t", us], [L("timeout", us, 0)], [], [])
        if k == "at":
            us = r.choice(p["delays"]); return (["at", us], [L("attime", us, 0)], [], [])
        if k == "j":
            if not joinable:
                return (["n"], [L("never")], [], [])
            j = r.choice(joinable); return (["j", j], [L("join", j)], [], [])
        if k == "pr":
            if not self.myports:
                return (["n"], [L("never")], [], [])
            c = r.choice(self.myports); return (["pr", c], [L("mrecv", c)], [], [])
        raise Exception(k)

    DIR = dict(ds="send", dr="recv", dsp="sendP", drp="recvP", dip="iput", dig="iget", digp="igetP", dmp="mput",
               dmt="mtake", dmtp="mtakeP", dmg="mget", dmgp="mgetP", dms="mswap", dbs="bsend", dbr="brecv", dbrp="brecvP", dj="join",
               dps="pset", dpg="pget", dpc="pclr", dpp="ppeek", dfs="fset", dfg="fget", den="enroll", dwt="bwait", drs="resign",
               dmc="mcast", dpo="mport", dcp="mcopy", dpr="mrecv")

    def program(self, pid, q):
        r, p = self.r, self.p
        self.nv, self.nid = 1, 1
        self.nch, self.niv, self.nmv, self.nmb = r.randint(1, p["nch"]), r.randint(1, p["niv"]), r.randint(1, p["nmv"]), r.randint(1, p["nmb"])
        self.nbar, self.nmc, self.npt = p.get("nbar", 0), p.get("nmc", 0), 0
        nth = r.randint(2, p["nth"])
        parent = {1: 0}
        kids = {t: [] for t in range(1, nth + 1)}
        for t in range(2, nth + 1):
            parent[t] = r.randint(1, t - 1) if r.random() < p.get("tree", 0.4) else 1
            kids[parent[t]].append(t)
        bodies, ops = {}, {}
        def joinables(t, spawned):
            res = set(spawned)
            a = t
            while a > 1:
                res |= {a} if r.random() < 0.1 else set()
                sib = kids[parent[a]]
                res |= set(sib[:sib.index(a)])
                a = parent[a]
                res.add(a)
            return sorted(res)
        for t in range(1, nth + 1):
            n = r.randint(1, p["nops"])
            plan = ["op"] * n
            # children are spawned early, some after a few operations
            for k in kids[t]:
                pass
            pos = sorted(r.choice([0, 0, 0, r.randint(0, n)]) for _ in kids[t])
            seq, ki = [], 0
            for i in range(n + 1):
                while ki < len(kids[t]) and pos[ki] <= i:
                    seq.append(("P", kids[t][ki])); ki += 1
                if i < n:
                    seq.append(("op", None))
            body, spawned, slots = [], [], {}
            self.myports, enrolled, resigned = [], [], []
            myops = {}
            for kind, arg in seq:
                pc = len(body) + 1
                if kind == "P":
                    body.append(["P", arg]); spawned.append(arg); continue
                js = joinables(t, spawned)
                o = self.w(p["stms"])
                if o == "Y": body.append(["Y"])
                elif o == "B": body.append(["B", r.choice([10, 200, 2000, 8000])])
                elif o == "G": body.append(["G", r.choice([0, 0, 1, 2])])
                elif o == "D":
                    k = self.w(p["dirs"])
                    kind2 = self.DIR[k]
                    ec = None
                    if k == "den":
                        bs = [b for b in range(1, self.nbar + 1) if b not in enrolled and b not in resigned]
                        if not bs:
                            k = "dwt"
                        else:
                            c = ec = r.choice(bs); enrolled.append(c)
                    if k in ("dwt", "drs"):
                        if not enrolled:
                            body.append(["Y"]); continue
                        c = ec = r.choice(enrolled)
                        if k == "drs":
                            enrolled.remove(c); resigned.append(c)
                    if k in ("dpr", "dcp") and not self.myports:
                        k = "dpo"
                    kind2 = self.DIR[k]
                    if k in ("dps", "dpg", "dpc", "dpp", "dfs", "dfg"):
                        sl = r.randint(0, 1)
                        v = {"dps": r.randint(2, 99), "dpg": 500 + sl, "dfs": r.randint(0, 1)}.get(k, 0)
                        myops[pc] = dict(br=[dict(k=kind2, c=(t - 1) * 4 + (2 if k[1] == "f" else 0) + sl + 1, v=v, n=[], w=[])], gs=[], nks=[], rec=True)
                        body.append(["D", k, sl, v]); continue
                    if ec is not None:
                        myops[pc] = dict(br=[dict(k=kind2, c=ec, v=0, n=[], w=[])], gs=[], nks=[], rec=True)
                        body.append(["D", k, ec, 0]); continue
                    if k in ("dmc", "dpo", "dcp", "dpr"):
                        if k == "dpr": c, v = r.choice(self.myports), 0
                        elif k == "dmc": c, v = r.randint(1, self.nmc), self.val()
                        else:
                            self.npt += 1
                            c, v = (r.randint(1, self.nmc) if k == "dpo" else r.choice(self.myports)), self.npt
                            self.myports.append(v)
                        myops[pc] = dict(br=[dict(k=kind2, c=c, v=v, n=[], w=[])], gs=[], nks=[], rec=True)
                        body.append(["D", k, c, v]); continue
                    if k == "dj":
                        if not js:
                            body.append(["Y"]); continue
                        c, v = r.choice(js), 0
                    elif k[1] == "i": c = r.randint(1, self.niv)
                    elif k[1] == "m": c = r.randint(1, self.nmv)
                    elif k[1] == "b": c = r.randint(1, self.nmb)
                    else: c = r.randint(1, self.nch)
                    v = self.val() if k in ("ds", "dsp", "dip", "dmp", "dms", "dbs") else 0
                    myops[pc] = dict(br=[dict(k=kind2, c=c, v=v, n=[], w=[])], gs=[], nks=[], rec=True)
                    body.append(["D", k, c, v])
                elif o == "S" and slots:
                    k = r.choice(sorted(slots)); e = slots[k]
                    myops[pc] = dict(br=e[1], gs=e[2], nks=e[3], rec=True)
                    body.append(["S", k, 0, 0])
                elif o in ("V", "S"):
                    k = r.randint(0, 9); self.nk = 0
                    e = self.ev(p["depth"], js)
                    slots[k] = e
                    body.append(["V", k, len(e[3])] + e[0])
                    pc = len(body) + 1
                    myops[pc] = dict(br=e[1], gs=e[2], nks=e[3], rec=True)
                    body.append(["S", k, 0, 0])
                elif o == "Y1":
                    self.nk = 0
                    e = self.ev(p["depth"], js)
                    rec = r.random() < 0.7
                    myops[pc] = dict(br=e[1], gs=e[2], nks=e[3], rec=rec)
                    body.append(["Y1", int(rec), 0] + e[0])
                elif o == "L":
                    # select numbers nacks over the whole list
                    self.nk = 0
                    es = [self.ev(p["depth"] - 1, js) for _ in range(r.choice([0, 1, 2, 2, 3, 4]) if r.random() < 0.5 else 2)]
                    rec = r.random() < 0.7
                    myops[pc] = dict(br=sum([e[1] for e in es], []), gs=sum([e[2] for e in es], []), nks=sum([e[3] for e in es], []), rec=rec)
                    body.append(["L", int(rec), 0, len(es)] + sum([e[0] for e in es], []))
            if r.random() < p.get("dead", 0.15):
                body.append([r.choice(["E", "Z"])])
            elif r.random() < p.get("shut", 0):
                body.append(["Q", r.randint(0, 1)])
            bodies[t], ops[t] = body, myops
        toks = [pid, self.nch, self.niv, self.nmv, self.nmb, self.nbar, self.nmc, self.npt, q, nth]
        for t in range(1, nth + 1):
            toks += [t, len(bodies[t])] + sum(bodies[t], [])
        return " ".join(map(str, toks)), dict(id=pid, nch=self.nch, niv=self.niv, nmv=self.nmv, nmb=self.nmb, nbar=self.nbar, nmc=self.nmc, npt=self.npt, nth=nth, q=q, ops=ops,
                                              text=[" ".join(map(str, x)) for t in bodies for x in [["T%d:" % t]] + bodies[t]])

BIGQ = 1000000000

def to_trace(meta, rec, slack=0):
    """Attach operations (with their observed endings) to the start events."""
    evs, out, open_, tids = rec["ev"], [], {}, set(range(1, meta["nth"] + 1))
    tids |= {1000 + i for i in range(rec["nn"])}
    for e in evs:
        t = e["t"]
        if e["o"] == "s":
            if t >= 1000:
                m = dict(br=[dict(k="nack", c=e["n"], v=0, n=[], w=[])], gs=[], nks=[], rec=True)
            else:
                m = meta["ops"][t][e["pc"]]
            base = e["n"]
            br = []
            for b in m["br"]:
                b = dict(b, n=[base + x for x in b["n"]])
                if b["k"] == "timeout":
                    b["v"] = e["tm"] + b["c"] - slack; b["c"] = 0
                if b["k"] == "attime":
                    b["k"], b["v"], b["c"] = "timeout", b["c"] - slack, 0
                br.append(b)
            op = dict(br=br, nk=[base + x for x in m["nks"]], gs=sorted(m["gs"]), ends=False, eb=0, ev=0, ex=0, ws=[])
            ne = dict(t=t, o="s", op=op, tm=e["tm"])
            open_[t] = (op, m)
            out.append(ne)
        elif e["o"] == "e":
            op, m = open_.pop(t, (None, None))
            if op is None:
                raise CheckError("log: end without start")
            op.update(ends=True, eb=e["b"] if m["rec"] and len(m["br"]) > 0 and e["b"] > 0 else (1 if len(m["br"]) == 1 else 0),
                      ev=e["v"], ex=e["x"], ws=e["ws"])
            out.append(dict(t=t, o="e", gs=e["gs"], tm=e["tm"]))
        elif e["o"] in ("x", "p"):
            out.append(dict(t=t, o=e["o"], tm=0))
        elif e["o"] == "d":
            out.append(dict(t=t, o="d", v=e["v"], tm=0))
        else:
            out.append(dict(t=0, o="q", v=e["v"], tm=e["tm"]))
    return dict(id=meta["id"], ev=out, tids=sorted(tids), niv=meta["niv"], nmv=meta["nmv"], nmb=meta["nmb"], npr=4 * meta["nth"], nbar=meta["nbar"], nmc=meta["nmc"], npt=meta["npt"], gap=meta.get("gap", 0),
                strict=meta["q"] >= BIGQ, prog=[], cut=any(e["o"] == "d" for e in out))

def run_cml(c, name, progs, timeout=120, maxrej=3):
    """progs: list of (text, meta).  Runs them in one process; returns traces (violation if the run dies)."""
    w = c.sub(name)
    with open(w + "/programs.txt", "w") as f:
        f.write("%d\n" % len(progs) + "\n".join(p[0] for p in progs) + "\n")
    r = sml_driver(w, [DRV + "/util.sml", DRV + "/cmlrun.sml"], ["$/basis.cm", "$/smlnj-lib.cm", "$cml/cml.cm", "$cml/cml-lib.cm"], "Main.main ()", timeout=timeout)
    recs = []
    if os.path.exists(w + "/trace.out"):
        for l in open(w + "/trace.out"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                break
    metas = {m["id"]: m for _, m in progs}
    return [(metas[x["id"]], x) for x in recs], r


def pack(progs_bodies, pid, q, niv, ops):
    """A program given directly: bodies {t: [stm]}, using only I-variables/cells."""
    nth = len(progs_bodies)
    toks = [pid, 1, niv, 1, 1, 0, 0, 0, q, nth]
    for t in sorted(progs_bodies):
        toks += [t, len(progs_bodies[t])] + sum(progs_bodies[t], [])
    return " ".join(map(str, toks)), dict(id=pid, nch=1, niv=niv, nmv=1, nmb=1, nbar=0, nmc=0, npt=0, nth=nth, q=q, ops=ops,
        text=[" ".join(map(str, x)) for t in sorted(progs_bodies) for x in [["T%d:" % t]] + progs_bodies[t]])

def fair_program(r, pid, q):
    """Threads that busy-wait for plain cells set by other threads; some never stop spinning."""
    n = r.randint(2, 6)
    forever = r.random() < 0.4
    bodies, ops = {}, {}
    seqs = {t: [] for t in range(1, n + 1)}
    m = r.randint(2, 8)
    for i in range(1, m + 1):
        t = r.randint(1, n)
        if i > 1:
            for j in sorted(r.sample(range(1, i), min(i - 1, r.randint(0, 2)))):
                seqs[t].append(("dxw", j))
        seqs[t].append(("dxs", i))
    for t in seqs:
        if r.random() < 0.7:
            seqs[t].append(("dxw", m))
    for t in range(1, n + 1):
        b = [["P", k] for k in range(2, n + 1)] if t == 1 else []
        o = {}
        for k, c in seqs[t]:
            if r.random() < 0.3:
                b.append(["B", r.choice([100, 3000])])
            o[len(b) + 1] = dict(br=[dict(k="iput" if k == "dxs" else "iget", c=c, v=100 + c if k == "dxs" else 0, n=[], w=[])], gs=[], nks=[], rec=True)
            b.append(["D", k, c, 100 + c if k == "dxs" else 0])
        bodies[t], ops[t] = b, o
    niv = m + 1
    if forever:
        for t in range(2, n + 1):
            if r.random() < 0.5:
                ops[t][len(bodies[t]) + 1] = dict(br=[dict(k="iget", c=niv, v=0, n=[], w=[])], gs=[], nks=[], rec=True)
                bodies[t].append(["D", "dxw", niv, 0])
        o = ops[1]
        o[len(bodies[1]) + 1] = dict(br=[dict(k="iget", c=m, v=0, n=[], w=[])], gs=[], nks=[], rec=True)
        bodies[1].append(["D", "dxw", m, 0])
        bodies[1].append(["Q", r.randint(0, 1)])
    return pack(bodies, pid, q, niv, ops)

def timer_program(r, pid, q):
    """Threads waiting for timeouts, some in choices that are cut short by a message at a known time,
    more timeouts being requested while cancelled ones are still queued."""
    n = r.randint(4, 8)
    grid = [100000 * i for i in range(1, 5)]
    bodies, ops = {1: []}, {1: {}}
    def op(t, toks, brs):
        ops[t][len(bodies[t]) + 1] = dict(br=[dict(b, n=[], w=[]) for b in brs], gs=[], nks=[], rec=True)
        bodies[t].append(toks)
    cut = []
    later = []
    for t in range(2, n + 1):
        bodies[t], ops[t] = [], {}
        x = r.random()
        d = r.choice(grid)
        at = r.random() < 0.3
        tk, kk = ("at", "attime") if at else ("t", "timeout")
        if x < 0.45:      # cut short by thread 1
            d += 300000 if at else 0
            br = [["r", t], [tk, d]]
            if r.random() < 0.5: br.reverse()
            op(t, ["L", 1, 0, 2] + br[0] + br[1], [dict(k="recv", c=t, v=0) if b[0] == "r" else dict(k=kk, c=d, v=0) for b in br])
            cut.append(t)
            if r.random() < 0.7:
                d2 = r.choice(grid); op(t, ["Y1", 1, 0, "t", d2], [dict(k="timeout", c=d2, v=0)])
        else:
            op(t, ["Y1", 1, 0, tk, d], [dict(k=kk, c=d, v=0)])
            if r.random() < 0.4:
                d2 = r.choice(grid); op(t, ["Y1", 1, 0, "t", d2], [dict(k="timeout", c=d2, v=0)])
        if r.random() < 0.35: later.append(t)
    first = [t for t in range(2, n + 1) if t not in later or t in cut]
    for t in first: bodies[1].append(["P", t])
    if r.random() < 0.6: bodies[1] += [["Y"], ["Y"]]
    r.shuffle(cut)
    for t in cut:
        if r.random() < 0.3:
            op(1, ["Y1", 1, 0, "t", 40000], [dict(k="timeout", c=40000, v=0)])
        v = 500 + t
        op(1, ["D", "dsp", t, v], [dict(k="sendP", c=t, v=v)])
    for t in range(2, n + 1):
        if t not in first: bodies[1].append(["P", t])
    toks = [pid, n, 1, 1, 1, 0, 0, 0, q, n]
    for t in sorted(bodies):
        toks += [t, len(bodies[t])] + sum(bodies[t], [])
    return " ".join(map(str, toks)), dict(id=pid, nch=n, niv=1, nmv=1, nmb=1, nbar=0, nmc=0, npt=0, nth=n, q=q, ops=ops, gap=60000,
        text=[" ".join(map(str, x)) for t in sorted(bodies) for x in [["T%d:" % t]] + bodies[t]])

def base_prof(**kw):
    d = dict(nch=3, niv=2, nmv=2, nmb=2, nth=6, nops=6, depth=3, comb=0.6,
             combs=dict(C=4, W=2, X=.5, H=1, g=1, K=1.5), leaves={}, stms=dict(Y=.5, B=.3, G=.1, D=3, S=1, V=1, Y1=1, L=1),
             dirs={}, delays=[0], nbar=0, nmc=0, shut=0.0)
    d.update(kw)
    return d

def cml_batch(c, name, prof, n, seed, pre=True, timeout=300):
    """n generated programs, half without pre-emption (strict polls), half with; validated against CmlTrace."""
    def progs(scale):
        rng = random.Random("%s/%s/%s" % (c.pid, name, seed))
        g = Gen(rng, prof)
        return [g.program(i, BIGQ if (i % 2 == 0 or not pre) else scale * rng.choice([30, 40, 80, 150])) for i in range(1, n + 1)]
    return cml_run_validate(c, name, progs, timeout)

def cml_run_validate(c, name, progs, timeout=300, slack=0, confirm=0):
    for attempt in range(confirm + 1):
        recs, ok = None, None
        for scale in (1, 10):
            w = "%s-%d-%d" % (name, attempt, scale)
            recs, r = run_cml(c, w, progs(scale), timeout)
            if not r.timeout:
                break
            log("  %s timed out; larger time slices" % w)      # a slow machine may need longer slices
        tr = [to_trace(m, x, slack) for m, x in recs]
        last = attempt == confirm
        if not last:
            if r.rc == 0 and not r.timeout:
                bad = count_rejected(c, tr, name)
                if not bad:
                    c.cov["traces_validated_against_impl"] += len(tr)
                    c.cov["operations"] = c.cov.get("operations", 0) + sum(len(t["ev"]) for t in tr)
                    return
                log("  %s: %d traces rejected, timing to be confirmed by another run" % (name, bad))
            continue
        driver_ok(c, r, "CML programs (%s)" % name)
        c.cov["operations"] = c.cov.get("operations", 0) + sum(len(t["ev"]) for t in tr)
        if recs:
            c.sample({"program": recs[0][0]["text"][:12], "events": len(recs[0][1]["ev"])})
        validate_traces(c, "CmlTrace", "Trace.cfg", tr, name, timeout=600)

def count_rejected(c, tr, name):
    d = c.sub("cr-%s-%d" % (name, len(os.listdir(c.work))))
    with open(os.path.join(d, "traces.ndjson"), "w") as f:
        for t in tr:
            f.write(json.dumps(t) + "\n")
    r = tlc("CmlTrace", "Trace.cfg", d)
    if not r.noerr:
        raise CheckError("trace validation failed:\n" + r.out[-3000:])
    c.cov["states"] += r.distinct
    c.cov["transitions"] += r.gen
    return len(tr) - len(set(re.findall(r'<<"ACC", (\d+)>>', r.out)))
