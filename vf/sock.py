"""Random socket scripts: UNIX and INET (loopback only) stream and datagram sockets.  The generator keeps a small
mirror of the state only to avoid calls that would block for ever; the verdict is spec/Sock.tla's."""
import errno, random
import concurrent.futures
from vf.osx import *

SIZES = [0, 1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 100, 255, 256, 300]
VARS = ["V", "A", "V'", "A'", "VN", "AN", "VN'", "AN'"]
BOOLS = ["REUSEADDR", "KEEPALIVE", "DONTROUTE", "BROADCAST", "OOBINLINE", "DEBUG"]


class S:
    def __init__(self, dom, typ):
        self.dom, self.typ, self.st, self.bound, self.peer = dom, typ, "new", None, None
        self.rx, self.nrx, self.q, self.dg = 0, 0, [], []
        self.mark, self.ub, self.eof, self.rsh, self.wsh, self.dead, self.unk = -1, False, False, False, False, False, False
        self.k, self.oi, self.small = 0, 0, False


class Gen:
    def __init__(self, rng, mix):
        self.r, self.mix = rng, mix
        self.L, self.sk, self.n, self.names, self.closedp = [], {}, 0, [], []

    def out(self, *a): self.L.append(tuple(str(x) for x in a))
    def new(self):
        self.n += 1
        return self.n
    def pick(self, p):
        l = [s for s in self.sk.values() if p(s)]
        return self.r.choice(l) if l else None
    def name(self):
        n = self.r.choice(["s%d" % self.r.randrange(8), "d/%d" % self.r.randrange(4), "x" * 100 + str(self.r.randrange(2)), "y" * 106 + str(self.r.randrange(2)), "nodir/s", "z" * 108, "z" * 200])
        return n
    def aliven(self, n): return next((s for s in self.sk.values() if s.bound == n and s.dom == "u"), None)

    # --- steps; each returns False when it does not apply
    def mk(self):
        d, t = self.r.choice(self.mix)
        if len(self.sk) > 14: return False
        if d == "u" and self.r.random() < .4:
            a, b = self.new(), self.new()
            if self.r.random() < .15: self.out("gpair", a, b, "UNIX", {"s": "STREAM", "d": "DGRAM"}[t])
            else: self.out("pair", a, b, t)
            x, y = S("u", t), S("u", t)
            x.peer, y.peer, x.st, y.st, x.k, y.k = y, x, "con", "con", a, b
            self.sk[a], self.sk[b] = x, y
            return
        k = self.new()
        if self.r.random() < .2: self.out("sock'", k, d, t, self.r.choice([0, 0, {"i": {"s": 6, "d": 17}[t], "u": 1}[d], 99]))
        else: self.out("sock", k, d, t)
        if self.L[-1][-1] == "99": return
        s = S(d, t)
        s.k = k
        self.sk[k] = s

    def bind(self):
        s = self.pick(lambda s: s.st == "new" and not s.bound) or self.pick(lambda s: True)
        if self.r.random() < .1: s = self.pick(lambda s: True)
        if not s or (s.dom == "i" and s.typ == "s" and s.st == "con" and (s.eof or s.wsh)): return False
        if s.dom == "u":
            n = self.name()
            self.out("bind", s.k, "u", n)
            if len(n.encode()) > 107 or n.startswith("nodir") or s.bound or n in self.names: return
            s.bound = n
            self.names.append(n)
        else:
            busy = [x for x in self.sk.values() if x.dom == "i" and x.typ == s.typ and x.bound and x is not s and x.st != "con" and not x.reuse] if False else \
                   [x for x in self.sk.values() if x.dom == "i" and x.typ == s.typ and x.bound and x is not s and x.st == ("lis" if x.typ == "s" else "new")]
            if busy and self.r.random() < .25:
                self.out("bind", s.k, self.r.choice("pa"), self.r.choice(busy).k)
                return
            self.out("bind", s.k, *self.r.choice([("l", "0"), ("a", "0")]))
            if not s.bound: s.bound = "p"

    def listen(self):
        s = self.pick(lambda s: s.typ == "s" and s.st == "new" and s.bound) or self.pick(lambda s: s.st != "lis")
        if self.r.random() < .15: s = self.pick(lambda s: s.st != "lis" or not s.q)
        if not s: return False
        self.out("listen", s.k, self.r.choice([5, 6, 100]))
        if s.typ == "d" or s.st == "con" or (s.dom == "u" and not s.bound): return
        s.st = "lis"
        s.bound = s.bound or "p"

    def target(self, s):
        """(address args, the socket there or None)"""
        if s.dom == "u":
            n = self.name() if not self.names or self.r.random() < .15 else self.r.choice(self.names)
            if self.r.random() < .6:
                t = self.pick(lambda t: t.dom == "u" and t.bound in self.names and t.typ == s.typ and (t.st == "lis" or s.typ == "d"))
                if t: n = t.bound
            return ("u", n), self.aliven(n) if n in self.names else None
        t = self.pick(lambda t: t.dom == "i" and t.typ == s.typ and t.bound and t is not s and (t.st == "lis" or s.typ == "d"))
        return (("p", str(t.k)), t) if t else (None, None)

    def connect(self):
        s = self.pick(lambda s: s.st == "new" and (s.typ == "s" or not s.peer))
        if self.r.random() < .1: s = self.pick(lambda s: s.st == "con" and s.typ == "s" and not s.dead)
        if not s: return False
        if s.typ == "d" and s.st == "con": return False
        a, t = self.target(s)
        if s.dom == "i" and s.typ == "s" and s.st == "new" and self.r.random() < .1:
            t = self.pick(lambda t: t.dom == "i" and t.typ == "s" and t.st == "new" and t.bound and t is not s)
            if not t: return False
            self.out("connect", s.k, "p", t.k)             # nobody listens there
            self.shut(s)
            return
        if a is None: return False
        if t is s and s.typ == "d": return False
        ok = t is not None and t.typ == s.typ and s.st == "new" and (t.st == "lis" if s.typ == "s" else (s.dom == "i" or t.peer is None or t.peer is s))
        if ok and s.typ == "s" and len(t.q) >= 4: return False
        if s.typ == "s" and t is not None and t.typ == "s" and t.st != "lis" and s.dom == "i": return False
        nb = self.r.random() < .3 and s.typ == "s" and (ok or s.dom == "u")
        if s.typ == "d" and s.dom == "i" and s.dg: return False
        self.out("connectNB" if nb else "connect", s.k, *a)
        if nb and s.dom == "i": self.out("note", s.k)
        if not ok: return
        if s.typ == "d":
            s.st, s.peer = "con", t
            if s.dom == "i": s.bound = s.bound or "p"
            return
        n = S(s.dom, "s")
        n.peer, n.st, s.peer, s.st = s, "con", n, "con"
        n.oi = t.oi
        t.q.append(n)
        if s.dom == "i": s.bound = s.bound or "p"
        n.bound = "acc"
        self.out("ready", t.k)

    def accept(self):
        s = self.pick(lambda s: s.q) or self.pick(lambda s: s.st == "lis")
        if not s or self.r.random() < .08: s = self.pick(lambda s: s.st != "lis")
        if not s: return False
        k = self.new()
        nb = self.r.random() < .4 or (s.st == "lis" and not s.q)
        self.out("acceptNB" if nb else "accept", s.k, k)
        if s.st != "lis" or not s.q: return
        n = s.q.pop(0)
        n.k = k
        self.sk[k] = n
        self.settle(n)

    def settle(self, n):
        """Let what was sent to n arrive."""
        if n.k == 0 or n.unk: return
        if n.ub: self.out("urgent", n.k)
        if n.mark == 0 and n.rx: self.out("ready", n.k)
        w = n.mark if n.mark >= 0 else n.rx
        if n.typ == "s" and w > 0: self.out("avail", n.k, w)
        elif n.typ == "s" and (n.eof or n.dead): self.out("ready", n.k)
        elif n.typ == "d" and n.dg: self.out("ready", n.k)

    def shut(self, s):
        self.out("close", s.k)
        del self.sk[s.k]
        if s.dom == "i" and s.typ == "s" and s.bound == "p": self.closedp.append(s.k)
        if s.typ == "s" and s.peer:
            s.peer.eof = s.peer.dead = True
            s.peer.peer = None
            self.settle(s.peer)
        for n in s.q:
            n.peer.eof = n.peer.dead = True
            n.peer.peer = None
        if self.r.random() < .3:
            k, o = s.k, self.r.choice(["close", "send", "recv", "sockname", "getopt", "setopt", "shutdown", "nread", "listen", "accept", "bind"])
            self.out(*{"close": (o, k), "send": (o, k, "V", "-", 3, 0, 3, 1), "recv": (o, k, "A", "-", 4, 0, 4), "sockname": (o, k), "getopt": (o, k, "KEEPALIVE"), "setopt": (o, k, "KEEPALIVE", 1),
                       "shutdown": (o, k, "w"), "nread": (o, k), "listen": (o, k, 5), "accept": (o, k, self.new()), "bind": (o, k, "u", "s0") if s.dom == "u" else (o, k, "l", "0")}[o])

    def close(self):
        def may(s):
            if s.dom == "i" and s.typ == "s":
                if s.st == "lis": return not s.q
                if s.st == "con": return s.rx == 0 and not s.ub and s.mark < 0 and (s.peer is None or s.peer.k)
            if s.dom == "i" and s.typ == "d": return not any(t.peer is s for t in self.sk.values())
            if s.typ == "s" and s.st == "con": return s.peer is None or s.peer.k != 0
            if s.typ == "s" and s.st == "lis": return all(n.peer is not None for n in s.q)
            return True
        s = self.pick(may)
        if not s or (len(self.sk) < 5 and self.r.random() < .7): return False
        self.shut(s)

    def shutdown(self):
        s = self.pick(lambda s: s.typ == "s" and s.st == "con" and s.peer and s.peer.k)
        if self.r.random() < .1: s = self.pick(lambda s: s.typ == "s" and s.dom == "i" and s.st == "new")
        if not s: return False
        m = self.r.choice("rww+")
        self.out("shutdown", s.k, m)
        if s.st != "con": return self.shut(s)
        if m != "w":
            s.rsh = True
            if s.dom == "u": s.peer.wsh = True
        if m != "r":
            s.wsh = True
            s.peer.eof = True
            self.settle(s.peer)

    def slice(self, big=None):
        n = big or self.r.choice(SIZES)
        i = self.r.choice([0, 0, 0, 0, 1, 1, 5, 8, 64, 100, 300, 1030, 33000, 70000])
        l = i + n + self.r.choice([0, 0, 1, 6])
        return l, i, n

    def send(self):
        s = self.pick(lambda s: s.st == "con" and (s.peer is not None and (s.typ == "s" or s.peer in self.sk.values()) or (s.dom == "u" and not s.dg)))
        if self.r.random() < .06: s = self.pick(lambda s: s.st == "new" and (s.typ == "d" or True))
        if not s: return False
        v = self.r.choice(VARS)
        l, i, n = self.slice()
        fl = "-"
        if "'" in v: fl = self.r.choice(["-", "r"])
        t = s.peer
        if s.st == "con" and t is not None:
            if s.typ == "d" and (t.dom == "i" and t not in self.sk.values() or len(t.dg) >= 7): return False
            if s.typ == "d" and t.dom == "i" and t.st == "con" and t.peer is not s: return False
            if s.typ == "s" and (t.mark > 0 or (t.mark == 0 and t.rx)): return False      # cannot tell when it arrives
            if s.typ == "s" and (t.nrx >= 10 or t.rx > 1500): return False
            if s.typ == "s" and t.dom == "i" and (t.dead or (t.rsh and t.wsh)): return False
            if s.typ == "d" and "'" in v and self.r.random() < .2: fl = "o"
            if s.typ == "s" and s.dom == "i" and "'" in v and not s.wsh and not t.oi and t.mark < 0 and not t.ub and n > 0 and t.k and not t.eof and not t.rsh and self.r.random() < .6: fl = self.r.choice(["o", "ro"])
            if s.typ == "s" and s.dom == "u" and "N" in v and self.r.random() < .25 and not s.wsh and not t.unk:
                l, i, n = self.slice(self.r.choice([3000, 9000, 40000, 70000, 66000]))
                t.unk = True
            elif self.r.random() < .02 and t.rx < 100: l, i, n = self.slice(self.r.choice([1500, 2000]))
        elif s.st == "con" and (s.typ == "s" and s.dom == "i"): return False
        self.out("send", s.k, v, fl, l, i, n, self.r.randrange(200) if self.r.random() < .8 else 0)
        if n and s.typ == "d" and s.dom == "i" and not s.bound:
            s.bound = "p"
            self.out("note", s.k)
        if s.st != "con" or n == 0 or "o" in fl and s.typ == "d": return
        if t is None or (s.typ == "d" and t not in self.sk.values()):
            if s.typ == "d": s.st, s.peer = "new", None
            return
        if s.typ == "d":
            if t.st == "con" and t.peer is not s: return
            t.dg.append(n)
            self.settle(t)
        elif not s.wsh and not (s.dead and s.dom == "u"):
            if "o" in fl:
                t.mark, t.ub = t.rx + n - 1, True
                t.rx += n - 1
            else: t.rx += n
            t.nrx += 1
            self.settle(t)

    def sendto(self):
        s = self.pick(lambda s: s.typ == "d" and (s.st == "new"))
        if not s: return False
        a, t = self.target(s)
        if a is None: return False
        if t is not None and t.typ == "d" and len(t.dg) >= 7: return False
        v = self.r.choice(VARS)
        l, i, n = self.slice()
        fl = self.r.choice(["-", "r", "-", "r", "o"]) if "'" in v else "-"
        self.out("sendto", s.k, v, fl, l, i, n, self.r.randrange(200) if self.r.random() < .8 else 0, *a)
        if n and s.dom == "i" and not s.bound:
            s.bound = "p"
            self.out("note", s.k)
        if n == 0 or "o" in fl: return
        if t is None or t.typ != "d": return
        if t.peer is not None and t.peer is not s and t.st == "con": return
        t.dg.append(n)
        self.settle(t)

    def recv(self):
        s = self.pick(lambda s: s.rx or s.ub or s.dg or s.unk) if self.r.random() < .75 else self.pick(lambda s: s.st == "con" or s.typ == "d")
        if self.r.random() < .03: s = self.pick(lambda s: s.st == "new" and s.typ == "s")
        if not s: return False
        nb = self.r.random() < .4
        n = self.r.choice(SIZES + [400, 1000])
        if self.r.random() < .06: n = self.r.choice([5000, 70000])
        pr = self.r.random() < .5
        fl, oob = "-", False
        if pr:
            fl = self.r.choice(["-", "p", "p"])
            if s.typ == "s" and s.dom == "i" and s.st == "con" and (s.ub or self.r.random() < .3) and n > 0 and not s.oi and not s.eof and not s.rsh:
                fl, oob = self.r.choice(["o", "o", "po"]), True
        if s.typ == "d": some = bool(s.dg)
        else: some = s.rx > 0 or s.eof or s.rsh or s.st == "new" or oob
        if s.mark == 0 and not oob: some = s.rx > 0
        if s.unk or (not some and n > 0): nb = True
        vec = self.r.random() < .5
        if n > 5000 and not vec: n = 3000
        i = self.r.choice([0, 0, 0, 1, 1, 3, 8, 64, 130, 300, 1030]) if self.r.random() > .01 else 33000
        op = "recvfrom" if s.typ == "d" and self.r.random() < .6 else "recv"
        self.out(op, s.k, ("V" if vec else "A") + ("N" if nb else "") + ("'" if pr else ""), fl, i + n + self.r.choice([0, 0, 1, 9]) if not vec else 0, i if not vec else 0, n)
        if n == 0 or s.st != "con" and s.typ == "s": return
        if oob:
            if "p" not in fl: s.ub = False
            return
        if "p" in fl: return
        if s.typ == "d":
            if s.dg: s.dg.pop(0)
            return
        k = min(n, s.mark) if s.mark > 0 else min(n, s.rx)
        if s.mark == 0: s.ub = False
        s.mark = s.mark - k if s.mark > 0 else -1
        s.rx -= k
        if s.rx == 0: s.nrx = 0

    def ctl(self):
        s = self.pick(lambda s: not s.q)
        if not s: return False
        o = self.r.choice(["sockname", "sockname", "peername", "peername", "nread", "atmark", "gettype", "geterror", "getopt", "getopt", "setopt", "setopt", "setopt"])
        if o == "atmark" and not (s.dom == "i" and s.typ == "s" and not s.oi): return False
        if o == "nread" and (s.unk or (s.typ == "s" and s.st != "con") or (s.typ == "s" and (s.eof or s.rsh or s.oi or s.wsh))): return False
        if o in ("getopt", "setopt"):
            names = BOOLS + ["LINGER", "SNDBUF", "RCVBUF"] + (["NODELAY"] * 2 if s.dom == "i" and s.typ == "s" else [])
            n = self.r.choice(names)
            if o == "getopt": return self.out(o, s.k, n)
            v = self.r.randrange(2)
            if n == "LINGER": v = self.r.choice([-1, 1, 2, 3, 2] if s.dom == "i" and s.typ == "s" else [-1, 0, 0, 1, 2, 60, 300, 70000])   # (0 aborts TCP connections)
            if n in ("SNDBUF", "RCVBUF"): v = self.r.choice([8192, 10000, 16384, 32768])
            if n == "OOBINLINE":
                if s.dom == "i" and s.typ == "s" and s.st == "con": return False
                s.oi = v
            if n == "REUSEADDR" and s.dom == "i": return False
            self.out(o, s.k, n, v)
            return self.out("getopt", s.k, n) if self.r.random() < .5 else None
        self.out(o, s.k)

    def unlink(self):
        if not self.names: return False
        n = self.r.choice(self.names)
        self.names.remove(n)
        t = self.aliven(n)
        if t: t.bound = "(unlinked)"
        self.out("unlink", n)

    def select(self):
        l = [s for s in self.sk.values() if not s.unk and s.st != "?"]
        f = lambda p: ",".join(str(s.k) for s in self.r.sample(l, len(l)) if self.r.random() < p)
        p = self.r.choice([0, .3, .6, 1])
        w = [s for s in l if s.st == "lis" or not (s.peer and (s.peer.unk or s.peer.nrx > 6 or len(s.peer.dg) > 5 or s.peer.rx > 1000))]
        fw = ",".join(str(s.k) for s in self.r.sample(w, len(w)) if self.r.random() < self.r.choice([0, .5, 1]))
        self.out("select", f(p), fw, f(self.r.choice([0, .5, 1])))

    def script(self, n):
        self.out("mkdir", "d", "493")
        steps = [self.mk] * 3 + [self.bind] * 3 + [self.listen] * 2 + [self.connect] * 4 + [self.accept] * 3 + [self.close] * 1 + [self.shutdown] + [self.send] * 8 + [self.recv] * 10 \
            + [self.sendto] * 4 + [self.ctl] * 5 + [self.select] * 3 + [self.unlink]
        for _ in range(3): self.mk()
        while len(self.L) < n:
            self.r.choice(steps)()
        return self.L


BASE = dict(op="", k=0, j=0, a="", t="", pk=0, long=False, nodir=False, nb=False, m="", v=0, n=0, i=0, l=0, seed=0, vec=False, peek=False, oob=False, rds=[], wrs=[], exs=[])


def conv(l, r):
    op, e, rr = l[0], r["e"], list(r["r"])
    if e.startswith("#"): e = errno.errorcode.get(int(e[1:]), e)[1:].lower()      # errors that the runtime has no name for
    o = dict(BASE, op=op)
    b = rr == ["block"]
    if b: rr = []
    num = lambda x: int(x) if x.lstrip("-").isdigit() and len(x) < 10 else -99
    by = lambda x: [ord(ch) for ch in x]
    adr = lambda q: q[:2] + [num(q[2])] + q[3:] if len(q) > 2 else q
    def at(t, a):
        o.update(t=t, a=a if t == "u" else "", pk=int(a) if t in "pa" else 0, long=t == "u" and len(a) > 107, nodir=t == "u" and a.startswith("nodir"))
    if op == "unlink": o["a"] = l[1]
    elif op in ("sock", "sock'"):
        o.update(op="sock", k=int(l[1]), a=l[2], t=l[3], v=1 if len(l) > 4 and l[4] == "99" else 0)
    elif op in ("pair", "gpair"): o.update(op="pair", k=int(l[1]), j=int(l[2]), t={"s": "s", "d": "d", "STREAM": "s", "DGRAM": "d"}[l[-1]])
    elif op not in ("mkdir", "select"): o["k"] = int(l[1])
    if op == "bind": at(l[2], l[3])
    elif op in ("connect", "connectNB"):
        o.update(op="connect", nb=op[-1] == "B")
        at(l[2], l[3])
    elif op in ("accept", "acceptNB"):
        o.update(op="accept", nb=op[-1] == "B", j=int(l[2]))
        rr = adr(rr)
    elif op in ("sockname", "peername"): rr = adr(rr)
    elif op == "shutdown": o["m"] = l[2]
    elif op in ("send", "sendto"):
        o.update(vec=l[2][0] == "V", nb="N" in l[2], oob="o" in l[3], l=int(l[4]), i=int(l[5]), n=int(l[6]), seed=int(l[7]))
        if op == "sendto": at(l[8], l[9])
        elif rr and rr[0] != "block": rr[0] = num(rr[0])
    elif op in ("recv", "recvfrom"):
        o.update(vec=l[2][0] == "V", nb="N" in l[2], peek="p" in l[3], oob="o" in l[3], l=int(l[4]), i=int(l[5]), n=int(l[6]))
        if rr and rr[0] != "block":
            rr = [num(rr[0]), by(rr[1])] + (rr[2:3] + adr(rr[3:]) if len(rr) > 2 else [])
    elif op in ("nread", "atmark", "geterror"): rr = [num(x) for x in rr]
    elif op == "getopt":
        o["a"] = l[2]
        rr = [num(x) for x in rr]
    elif op == "setopt": o.update(a=l[2], v=int(l[3]))
    elif op == "select":
        ks = lambda x: [int(y) for y in x.split(",") if y]
        o.update(rds=ks(l[1]), wrs=ks(l[2]), exs=ks(l[3]))
        rr = [[int(y) if y != "?" else -1 for y in x.split(",") if y] for x in rr]
    o.update(e=e, r=rr, b=b)
    return o


MIXES = {"unix": [("u", "s"), ("u", "d")], "inet": [("i", "s"), ("i", "d")], "tcp": [("i", "s")], "dgram": [("u", "d"), ("i", "d")], "all": [("u", "s"), ("u", "d"), ("i", "s"), ("i", "d")]}


def batch(c, o, jobs, what):
    def one(j):
        seed, kind, n, fill = j
        lines = Gen(random.Random(seed), MIXES[kind]).script(n)
        r = o.script(lines, env={"VF_FILL": str(fill)}, timeout=60)
        ident = "%s/%d" % (kind, seed)
        if not r["ok"]:
            return {"id": ident, "bad": "script ended abnormally (rc=%s%s) after %d of %d operations" % (r["rc"], ", timed out" if r["to"] else "", len(r["res"]), len(lines)),
                    "out": r["out"][-1500:], "script": lines}
        ev = [conv(l, x) for l, x in zip(lines, r["res"]) if l[0] != "mkdir"]
        return {"id": ident, "ev": ev}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        trs = list(ex.map(one, jobs))
    good = []
    for t in trs:
        if "bad" in t: c.violation("%s: %s: %s\n%s" % (what, t["id"], t["bad"], t["out"]), t)
        else: good.append(t)
    validate_traces(c, "SockTrace", "Trace.cfg", good, what)
    for t in good[:2]: c.sample({"id": t["id"], "first": t["ev"][:3]})
