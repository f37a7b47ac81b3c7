"""Random scripts for the file system / descriptor specification, and their conversion to traces."""
import os
from vf.osx import *

LONG = "x" * 255
TOOLONG = "y" * 256
BIGS = [0, 1, 5, 17, 100, 4095, 4096, 4097, 5000, 2**20 - 3, 2**20, 2**31 - 3, 2**31, 2**31 + 7, 2**32 - 2, 2**32, 2**32 + 9, 2**33 + 1, 2**35]


def q4(v):
    """Lock starts and lengths are multiples of 4: with others the ML code itself may crash at a garbage
    collection (known finding of C33, looked for separately)."""
    return 0 if v == 0 else 4 * (v // 4) if abs(v) >= 4 else 4 if v > 0 else -4


class Gen:
    def __init__(self, rng, d, kind, root=False):
        self.r, self.d, self.kind, self.root = rng, d, kind, root
        self.names = ["a", "b", "c", "d"]
        self.ops = []
        self.seed = 0
        self.helpers = []

    def name(self):
        r = self.r.random()
        if r < 0.02:
            return LONG
        if r < 0.03:
            return TOOLONG
        if r < 0.05:
            return self.r.choice(["sp ace", "\u00e9\u00fc", "..x", ".h", "%41", "new\nline", "-n", "...", ".hh"])
        return self.r.choice(self.names)

    def path(self, slash=False, up=True):
        r = self.r
        if r.random() < 0.01:
            return ""
        n = r.choice([1, 1, 1, 2, 2, 2, 3])
        cs = [self.name() for _ in range(n)]
        if r.random() < 0.06 and n > 1:
            cs[r.randrange(n - 1)] = "."
        if up and r.random() < 0.06:
            cs[r.randrange(n)] = ".."
        s = "/".join(cs)
        if r.random() < 0.02:
            s = s.replace("/", "//")
        if r.random() < 0.12:
            s = self.d + "/" + s
        if slash and r.random() < 0.06:
            s += "/"
        if r.random() < 0.004:
            s = "./" * 2050 + s
        if r.random() < 0.004:
            s = "./" * 1000 + s
        return s

    def fd(self):
        r = self.r.random()
        if r < 0.04:
            return str(self.r.choice([40, 63, 64, 100, 1000]))
        return str(self.r.choice([3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 8, 9, 12, 20]))

    def mode(self, isdir=False):
        m = self.mode1(isdir)
        return str(int(m) | 0o100) if isdir and self.r.random() < 0.95 else m

    def mode1(self, isdir=False):
        r = self.r.random()
        if r < 0.5:
            return str(self.r.choice([0o755, 0o644, 0o600, 0o700, 0o777, 0o666]))
        if r < 0.75:
            m = self.r.randrange(512)
            return str(m | 0o600 if self.r.random() < 0.6 else m)
        if isdir:
            return str(0o700 | self.r.randrange(64))
        return str(0o600 | self.r.randrange(4096))

    def fl(self):
        s = "".join(x for x in "ants" if self.r.random() < (0.25 if x in "at" else 0.15 if x == "n" else 0.1))
        if self.kind == "pipe" and "n" not in s:
            s += "n"
        return s or "-"

    def off(self, neg=True):
        r = self.r.random()
        if r < 0.5:
            n = self.r.randrange(0, 60)
        elif r < 0.75:
            n = self.r.choice(BIGS)
        else:
            n = self.r.choice(BIGS) + self.r.randrange(0, 40)
        if neg and self.r.random() < 0.2:
            n = -self.r.randrange(0, 50) if self.r.random() < 0.8 else -n
        return str(n)

    def time(self):
        r = self.r
        s = r.choice([0, 1, 59, 86399, 10**9, 1234567890, 2**31 - 1, 2**31, 2**32 + 5, r.randrange(0, 2**32)])
        us = r.choice([0, 0, 1, 999999, 500000, r.randrange(10**6)])
        return str((s * 10**6 + us) * 1000)

    def size(self):
        r = self.r.random()
        if self.kind == "pipe":
            return self.r.randrange(0, 40)
        if r < 0.7:
            return self.r.randrange(0, 50)
        if r < 0.93:
            return self.r.choice([64, 100, 128, 250, 511, 512, 513])
        return self.r.choice([2000, 4095, 4096, 4097, 4104, 5000])

    def slice(self):
        n = self.size()
        if self.r.random() < 0.5:
            return n, 0, n
        i = self.r.randrange(0, n + 1)
        return n, i, self.r.randrange(0, n - i + 1)

    def ids(self):
        r = self.r
        if self.root:
            return r.choice(["0", "1", "77", "65534", "100000", "2147483647", "-1"]), r.choice(["0", "5", "99", "65533", "70000", "-1"])
        return r.choice(["-1", str(UID), str(UID), "0", "1"]), r.choice(["-1", str(GID), str(XGID), str(XGID), "0", "7"])

    def lock(self):
        r = self.r
        s = r.randrange(-3, 60) if r.random() < 0.85 else r.choice([2**31 - 2, 2**31 + 5, 2**32 + 7, 2**33])
        n = r.choice([0, 1, 2, 5, 10, 20, 30, r.randrange(1, 40), -r.randrange(1, 10)])
        if r.random() < 0.12:
            n = r.choice([2**31 - 1, 2**31 + 3, 2**32, 2**32 + 5, 2**33 + 1])
        return [r.choice("rrwwu"), r.choice(["set", "set", "set", "cur", "end"]), str(q4(s)), str(q4(n))]

    def fsop(self):
        r = self.r
        k = r.choice(self.FS)
        P = self.path
        if k == "mkdir": return ("mkdir", P(True), self.mode(True))
        if k == "osmkdir": return ("osmkdir", P(True))
        if k in ("rmdir", "unlink", "stat", "lstat", "isdir", "islink", "filesize", "modtime", "fullpath", "chdir", "readlink"):
            return (k, P(k in ("rmdir", "stat", "lstat", "isdir", "chdir"), k != "chdir"))
        if k in ("link", "rename"): return (k, P(), P())
        if k == "samefile": return (k, P(), P())
        if k == "symlink":
            x = r.random()
            t = P() if x < 0.9 else r.choice(["z" * 300, "a/" * 500, "q" * 1023, "q" * 1024, "q" * 1025, "w" * 4095, "w" * 4096, "r" * 254])
            return ("symlink", t, P())
        if k == "mkfifo": return (k, r.choice(["ff", "ff", "a/ff"]) if r.random() < .8 else "ff", self.mode()) if r.random() < .5 else (r.choice(["stat", "unlink", "lstat"]), "ff")
        if k == "chmod": return (k, P(), self.mode(True))
        if k == "fchmod": return (k, self.fd(), self.mode(True))
        if k == "chown": return (k, P()) + self.ids()
        if k == "fchown": return (k, self.fd()) + self.ids()
        if k == "fstat": return (k, self.fd())
        if k == "access": return (r.choice(["access", "osaccess"]), P(), "".join(x for x in "rwx" if r.random() < 0.4) or "-")
        if k == "openf" and r.random() < .1: return (k, "ff", r.choice(["r", "w", "rw"]), "n")
        if k == "openf": return (k, P(), r.choice(["r", "w", "rw"]), self.fl())
        if k == "createf":
            f = self.fl()
            if r.random() < 0.15:
                f = f.replace("-", "") + "x"
            return (k, P(), r.choice(["r", "w", "rw", "rw"]), f, self.mode())
        if k == "creat": return (k, P(), self.mode())
        if k == "utime":
            return (k, P(), "-", "-") if r.random() < 0.2 else (k, P(), self.time(), self.time())
        if k == "ossettime": return (k, P(), "-" if r.random() < 0.2 else self.time())
        if k == "umask": return (k, str(r.choice([0o22, 0o77, 0, 0o27, r.randrange(512) & 0o677, 0o1077])))
        if k == "getcwd" or k == "tmpname": return (k,)
        if k == "pathconf": return (k, P(), r.choice(list(PCONF) + ["NOSUCH", "", "NAME_MA", "NAME_MAXX"]))
        if k == "fpathconf": return (k, self.fd(), r.choice(list(PCONF) + ["NOSUCH"]))
        raise Exception(k)

    def ioop(self):
        r = self.r
        k = r.choice(self.IO)
        f = self.fd()
        if k == "read": return (k, f, str(self.size() if r.random() < .9 else 0))
        if k == "readarr":
            n, i, m = self.slice()
            return (k, f, str(n), str(i), str(m))
        if k in ("write", "writearr"):
            n, i, m = self.slice()
            self.seed = (self.seed + 1) % 200
            if r.random() < 0.25:
                n = r.randrange(1, 18)
                return (k, f, "0", str(n), "0", str(n))
            return (k, f, str(self.seed), str(n), str(i), str(m))
        if k == "lseek": return (k, f, self.off(), r.choice(["set", "set", "cur", "end"]))
        if k in ("close", "dup", "getfd", "getfl", "fsync", "fstat"): return (k, f)
        if k == "dup2": return (k, f, self.fd())
        if k == "dupfd": return (k, f, r.choice(["0", "3", "5", "7", "10", "30", "63", "64", "70"]))
        if k == "pipe": return (k,)
        if k == "setfd": return (k, f, r.choice("01"))
        if k == "setfl": return (k, f, "".join(x for x in "an" if r.random() < 0.5 or (x == "n" and self.kind == "pipe")) or "-")
        if k == "ftruncate": return (k, f, self.off())
        if k in ("setlk", "getlk", "setlkw"): return (k, f) + tuple(self.lock())
        raise Exception(k)

    FS = (["mkdir"] * 6 + ["osmkdir"] * 2 + ["rmdir"] * 3 + ["unlink"] * 4 + ["stat"] * 6 + ["lstat"] * 6 + ["link"] * 4 + ["symlink"] * 5 +
          ["rename"] * 5 + ["readlink"] * 4 + ["mkfifo"] * 1 + ["chmod"] * 4 + ["fchmod"] * 2 + ["chown"] * 2 + ["fchown"] * 2 + ["fstat"] * 3 +
          ["access"] * 6 + ["openf"] * 4 + ["createf"] * 6 + ["creat"] * 2 + ["utime"] * 5 + ["ossettime"] * 2 + ["umask"] * 2 +
          ["chdir"] * 3 + ["getcwd"] * 2 + ["isdir", "islink"] * 2 + ["filesize", "modtime"] * 2 + ["fullpath"] * 2 + ["samefile"] * 2 +
          ["tmpname"] + ["pathconf"] * 2 + ["fpathconf"])
    IO = (["read"] * 6 + ["readarr"] * 4 + ["write"] * 7 + ["writearr"] * 4 + ["lseek"] * 7 + ["close"] * 4 + ["dup"] * 3 + ["dup2"] * 3 +
          ["dupfd"] * 3 + ["getfd"] * 3 + ["setfd"] * 3 + ["getfl"] * 4 + ["setfl"] * 3 + ["fsync"] + ["ftruncate"] * 3 + ["fstat"] * 2)

    def fs(self, n):
        o = []
        for _ in range(n):
            x = self.r.random()
            if x < 0.10:
                s = str(self.r.randrange(3))
                o.append(("opendir", s, self.path(True) if self.r.random() < .5 else "."))
                o += [("readdir", s)] * self.r.randrange(0, 4)
                if self.r.random() < .5: o.append(("rewinddir", s))
                if self.r.random() < .8: o.append(("readall", s))
                if self.r.random() < .2: o.append(("readdir", s))
                if self.r.random() < .8: o.append(("closedir", s))
                if self.r.random() < .1: o.append((self.r.choice(["readdir", "closedir", "rewinddir"]), s))
            elif x < 0.14:
                o.append(("close", self.fd()))
            elif x < 0.18:
                self.seed += 1
                o.append(("write", self.fd(), str(self.seed), "30", "0", str(self.r.randrange(31))))
            elif x < 0.19:
                o.append(("gc", self.r.choice("0017")))
            else:
                k = self.fsop()
                o.append(k)
        return o

    def io(self, n):
        o = []
        pre = [("createf", "f1", "rw", "n" if self.kind == "pipe" else "-", "420"), ("createf", "f2", "w", "an" if self.kind == "pipe" else "a", "420"), ("openf", "f2", "r", "n" if self.kind == "pipe" else "-")]
        if self.kind == "pipe":
            pre += [("mkfifo", "ff", "420"), ("openf", "ff", "rw", "n"), ("pipenb",)]
        o += pre
        for _ in range(n):
            x = self.r.random()
            if x < 0.06:
                nm = self.r.choice(["f1", "f2", "f3"] + (["ff"] if self.kind == "pipe" else []))
                o.append(("openf", nm, self.r.choice(["r", "w", "rw"]), self.fl()) if self.r.random() < .6 or nm == "ff"
                         else ("createf", nm, self.r.choice(["r", "w", "rw"]), self.fl(), "420"))
            elif x < 0.08 and self.kind == "pipe":
                o.append(("pipenb",))
            elif x < 0.10:
                o.append(self.r.choice([("stat", "f1"), ("filesize", "f1"), ("stat", "f2"), ("unlink", "f1"), ("openf", ".", "r", "n")]))
            elif x < 0.12:
                o.append(("gc", self.r.choice("0017")))
            elif x < 0.15:       # what was read is matched against patterns
                f = self.fd()
                m = self.r.randrange(1, 18)
                o += [("lseek", f, "0", "set"), ("write", f, "0", "17", "0", str(m))]
                o += [("ftruncate", f, str(m))] if self.r.random() < .5 else []
                for k in self.r.sample(range(1, 20), 4):
                    o += [("lseek", f, "0", "set"), ("read", f, str(k))]
            else:
                o.append(self.ioop())
        return o

    def locks(self, n):
        """Several processes contending for record locks."""
        o = [("createf", "f1", "rw", "-", "420"), ("createf", "f2", "rw", "-", "420"), ("write", "3", "1", "20", "0", "20"), ("openf", "f1", "r", "-"),
             ("openf", "f2", "w", "-"), ("fork", "1"), ("fork", "2")]
        live = [0, 1, 2]
        nxt = 3
        for _ in range(n):
            p = self.r.choice(live)
            f = self.r.choice("3344567")
            x = self.r.random()
            if x < 0.42: op = ("setlk", f) + tuple(self.lock())
            elif x < 0.80: op = ("getlk", f) + tuple(self.lock())
            elif x < 0.84: op = ("close", f)
            elif x < 0.90: op = ("openf", self.r.choice(["f1", "f2"]), self.r.choice(["rw", "r", "w"]), "-")
            elif x < 0.93: op = ("lseek", f, str(q4(self.r.randrange(30))), "set")
            elif x < 0.95: op = ("ftruncate", f, str(q4(self.r.randrange(40))))
            elif x < 0.97 and p != 0 and len(live) > 2:
                live.remove(p)
                o.append(("exit", str(p)))
                continue
            elif nxt < 6:
                o.append(("fork", str(nxt)))
                live.append(nxt)
                nxt += 1
                continue
            else: op = ("dup", f)
            o.append(op if p == 0 else ("@", str(p)) + op)
        for p in live[1:]:
            o.append(("exit", str(p)))
        return o


    def big(self, n):
        """Transfers larger than a pipe holds."""
        z = [1, 100, 4095, 4096, 4097, 8192, 30001, 65535, 65536, 65537, 70000, 100001]
        o = [("createf", "f1", "rw", "-", "420"), ("mkfifo", "ff", "420"), ("openf", "ff", "rw", "n"), ("pipenb",)]
        for _ in range(n):
            x = self.r.random()
            w, r = self.r.choice([("4", "4"), ("6", "5"), ("6", "5"), ("3", "3")])
            k = self.r.choice(z)
            self.seed += 1
            if x < .55:
                i = self.r.choice([0, 0, 1, 7, 8, 4096])
                o.append((self.r.choice(["write", "writearr"]), w, str(self.seed), str(i + k + self.r.choice([0, 5])), str(i), str(k)))
            else:
                if w == "3": o.append(("lseek", "3", self.r.choice(["0", "0", "5", "4096"]), "set"))
                o.append(("read", r, str(k)) if x < .8 else ("readarr", r, str(k + 9), str(self.r.choice([0, 1, 8, 9])), str(k)))
        return o + [("read", "4", "300000"), ("read", "5", "300000"), ("lseek", "3", "0", "set"), ("read", "3", "300000")]

    def lockw(self, n):
        """Waiting for a lock: one process holds it, another waits, the first lets go."""
        o = [("createf", "f1", "rw", "-", "420"), ("write", "3", "1", "20", "0", "20"), ("fork", "1"), ("fork", "2")]
        for _ in range(n):
            p, q = self.r.choice([(1, 2), (2, 1), (1, 2)])
            s = 4 * self.r.randrange(0, 8)
            l = 4 * self.r.randrange(1, 6)
            s2 = 4 * self.r.randrange(max(0, s // 4 - 2), (s + l) // 4)
            l2 = self.r.choice([0, s + l - s2 + 4 * self.r.randrange(3)])
            if s2 < s: l2 = 0 if l2 == 0 else max(l2, s - s2 + 4)
            t, t2 = self.r.choice([("w", "w"), ("w", "r"), ("r", "w")])
            o += [("@", str(p), "setlk", "3", t, "set", str(s), str(l)), ("@!", str(q), "setlkw", "3", t2, "set", str(s2), str(l2)),
                  ("sleep", "2000000"), ("@", str(p), "setlk", "3", "u", "set", "0", "0"), ("@?", str(q)),
                  ("getlk", "3", "w", "set", "0", "0"), ("@", str(q), "setlk", "3", "u", "set", "0", "0"), ("getlk", "3", "w", "set", "0", "0")]
        return o + [("exit", "1"), ("exit", "2")]

    def own(self, n):
        """Changes of owner by the super-user (only names made here)."""
        o = [("createf", "a", "rw", "-", "2541"), ("mkdir", "b", "493"), ("symlink", "a", "c"), ("mkfifo", "d", "420")]
        for _ in range(n):
            x = self.r.random()
            nm = self.r.choice("abcde")
            if x < .4: o.append(("chown", nm) + self.ids())
            elif x < .6: o.append(("fchown", self.r.choice("334")) + self.ids())
            elif x < .65: o.append(("chmod", nm, self.mode()))
            elif x < .7: o.append(("fchmod", "3", self.mode()))
            elif x < .8: o.append(("lstat", nm))
            elif x < .85: o.append(("fstat", "3"))
            elif x < .9: o.append(("access", nm, self.r.choice(["r", "w", "x", "rwx"])))
            else: o.append(("stat", nm))
        return o

    def attr(self, n):
        """Attributes with unusual values: many links, large sizes, long link texts, special mode bits, times."""
        r = self.r
        o = [("createf", "a", "rw", "-", "420"), ("mkdir", "b", "493")]
        for _ in range(n):
            x = r.random()
            if x < .12:
                k = r.choice([1, 3, 7, 40, 130, 260])
                b = r.choice(["p", "q"])
                o += [("link", "a", "%s%d" % (b, i)) for i in range(k)] + [("stat", "a"), ("stat", "%s0" % b)]
                o += [("unlink", "%s%d" % (b, i)) for i in range(r.randrange(k + 1))] + [("lstat", "a"), ("fstat", "3")]
            elif x < .3:
                o += [("ftruncate", "3", str(max(0, r.choice(BIGS) + r.randrange(-3, 4)))), (r.choice(["stat", "filesize"]), "a"), ("fstat", "3"), ("lstat", "a")]
            elif x < .45:
                l = r.choice([1, 7, 8, 9, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 1022, 1023, 1024, 1025, 2000, 2048, 4000, 4094, 4095, r.randrange(1, 4096)])
                o += [("symlink", "".join(r.choice("abc/.") for _ in range(l)), "l"), ("readlink", "l"), ("lstat", "l"), ("unlink", "l")]
            elif x < .65:
                nm = r.choice("aaab")
                o += [("utime", nm, self.time(), self.time()), ("stat", nm), ("modtime", nm)]
                if r.random() < .3: o += [("ossettime", nm, self.time()), ("stat", nm), ("modtime", nm)]
            elif x < .8:
                m = r.randrange(4096) | 0o100
                o += [(r.choice(["chmod", "chmod", "fchmod"]), r.choice("ab"), str(m)) if r.random() < .6 else ("fchmod", "3", str(m)), ("stat", "a"), ("stat", "b"), ("access", "a", r.choice(["r", "w", "x", "rw", "rx", "wx", "rwx"]))]
                o[-4] = o[-4] if o[-4][0] == "chmod" or o[-4][1] == "3" else ("fchmod", "3", str(m))
            elif x < .9:
                o += [("umask", str(r.randrange(512) & 0o677)), ("mkdir", "m", str(r.randrange(1024) | 0o100)), ("stat", "m"), ("rmdir", "m"),
                      ("createf", "n", "w", "-", str(r.randrange(4096))), ("stat", "n"), ("unlink", "n"), ("close", "4"),
                      ("mkfifo", "o", str(r.randrange(512))), ("stat", "o"), ("unlink", "o")]
            else:
                o += [("creat", "n", str(r.randrange(4096))), ("lstat", "n"), ("fstat", "4"), ("write", "4", "1", "30", "0", "30"), ("lstat", "n"), ("unlink", "n"), ("fstat", "4"), ("close", "4")]
        return o

    def deep(self, n):
        """Working directories with long names."""
        o = []
        k = self.r.choice([1, 3, 4, 5, 8, 17, 18])
        nm = lambda i: chr(97 + i % 26) * self.r.choice([255, 255, 250, 200, 100])
        for i in range(k):
            m = nm(i)
            o += [("mkdir", m, "493"), ("chdir", m), ("getcwd",)]
            if self.r.random() < .3: o += [("gc", "0"), ("fullpath", "."), ("stat", ".")]
        o += [("createf", "f", "rw", "-", "420"), ("getcwd",), ("fullpath", "f"), ("tmpname",), ("chdir", ".."), ("getcwd",), ("unlink", m + "/f"), ("rmdir", m), ("getcwd",)]
        return o


PCONF = {"NAME_MAX": "PC_NAME_MAX", "PATH_MAX": "PC_PATH_MAX", "LINK_MAX": "PC_LINK_MAX", "PIPE_BUF": "PC_PIPE_BUF",
         "CHOWN_RESTRICTED": "PC_CHOWN_RESTRICTED", "NO_TRUNC": "PC_NO_TRUNC", "MAX_CANON": "PC_MAX_CANON", "MAX_INPUT": "PC_MAX_INPUT",
         "VDISABLE": "PC_VDISABLE"}


def pconf_table(d, names):
    t = {}
    for k in names:
        try:
            v = os.pathconf(d, PCONF[k])
            t[k] = "none" if v == -1 else str(v)
        except (OSError, ValueError):
            t[k] = None
    return t


def bl(h):
    return list(bytes.fromhex(h))


def latin(s):
    return s


def conv(line, res, ctx):
    """Script line + logged result -> event of PosixTrace."""
    d, run = ctx["dir"], ctx["run"]
    pr = 0
    if line[0] == "@!":
        ctx.setdefault("pend", {})[line[1]] = line[2:]
        line = ("nop",)
    if line[0] == "@?":
        pr = int(line[1])
        line = ctx["pend"].pop(line[1])
    if line[0] == "@":
        pr = int(line[1])
        line = line[2:]
    k, a = line[0], list(line[1:])
    e, r = res["e"], list(res["r"])
    ev = {"op": k, "pr": pr, "e": e, "r": r}
    P = lambda s: path(s, d)

    def fl(s, c=False):
        return {"a": "a" in s, "n": "n" in s, "t": "t" in s, "s": "s" in s, "x": "x" in s, "c": c}

    def tm(t):
        t = int(t)
        return "now" if run["t0"] - 2 * 10**9 <= t <= run["t1"] + 10**9 else str(t)

    def resp(s):           # a path result, as raw bytes in latin-1
        s = s.encode("latin-1").decode("utf-8", "surrogateescape")
        if s == d or s.startswith(d + "/"):
            return {"abs": True, "c": [x for x in s[len(d):].split("/") if x]}
        return {"abs": False, "c": [s]}
    if k == "fullpath" and a[0] == "":
        a[0] = "."
    if k in ("mkdir", "mkfifo", "chmod"):
        ev.update(p=P(a[0]), m=int(a[1]))
    elif k == "osmkdir":
        ev.update(op="mkdir", p=P(a[0]), m=0o777)
    elif k in ("rmdir", "unlink", "readlink", "stat", "lstat", "chdir", "isdir", "islink", "filesize", "modtime", "fullpath"):
        ev.update(p=P(a[0]))
    elif k in ("link", "symlink", "rename", "samefile"):
        ev.update(p=P(a[0]), q=P(a[1]))
    elif k == "fchmod":
        ev.update(f=int(a[0]), m=int(a[1]))
    elif k in ("chown", "fchown"):
        ev.update(u=int(a[1]), g=int(a[2]))
        ev.update(p=P(a[0])) if k == "chown" else ev.update(f=int(a[0]))
    elif k in ("access", "osaccess"):
        ev.update(op="access", p=P(a[0]), a=sum({"r": 4, "w": 2, "x": 1, "-": 0}[x] for x in a[1]))
    elif k == "openf":
        ev.update(op="open", p=P(a[0]), am=a[1], fl=fl(a[2]), m=0)
    elif k == "createf":
        ev.update(op="open", p=P(a[0]), am=a[1], fl=fl(a[2], True), m=int(a[3]))
    elif k == "creat":
        ev.update(op="open", p=P(a[0]), am="w", fl=fl("t", True), m=int(a[1]))
    elif k == "ftruncate":
        ev.update(f=int(a[0]), o=off(a[1]))
    elif k == "utime":
        ev.update(p=P(a[0]), at=a[1], mt=a[2])
    elif k == "ossettime":
        ev.update(op="utime", p=P(a[0]), at=a[1], mt=a[1])
    elif k == "umask":
        ev.update(m=int(a[0]))
    elif k == "opendir":
        ev.update(d=int(a[0]), p=P(a[1]))
    elif k in ("readdir", "readall", "rewinddir", "closedir"):
        ev.update(d=int(a[0]))
        if k == "readdir" and not e:
            ev["r"] = [r[0], r[1].encode("latin-1").decode("utf-8", "surrogateescape")]
        if k == "readall" and not e:
            ev["r"] = [x.encode("latin-1").decode("utf-8", "surrogateescape") for x in r]
    elif k == "getcwd":
        ev.update(long=False)
        if not e:
            ev["long"] = len(r[0]) >= 4096
            ev["r"] = [resp(r[0])]
    elif k in ("pathconf", "fpathconf"):
        v = ctx["pc"].get(a[1])
        ev.update(v=v or "")
        ev.update(p=P(a[0])) if k == "pathconf" else ev.update(f=int(a[0]))
    elif k == "read":
        ev.update(f=int(a[0]), n=int(a[1]))
        if not e:
            ev["r"] = [int(r[0]), bl(r[1]), r[2]]
    elif k == "readarr":
        ev.update(f=int(a[0]), n=int(a[1]), i=int(a[2]), k=int(a[3]))
        if not e:
            ev["r"] = [int(r[0]), bl(r[1])]
    elif k in ("write", "writearr"):
        ev.update(op="write", f=int(a[0]), seed=int(a[1]), i=int(a[3]), k=int(a[4]))
        if not e:
            ev["r"] = [int(r[0])]
    elif k == "lseek":
        ev.update(f=int(a[0]), o=off(a[1]), w=a[2])
        if not e:
            ev["r"] = [off(r[0])]
    elif k in ("close", "dup", "getfd", "getfl", "fsync", "fstat"):
        ev.update(f=int(a[0]))
    elif k in ("dup2", "dupfd"):
        ev.update(f=int(a[0]), g=int(a[1]))
    elif k == "setfd":
        ev.update(f=int(a[0]), ce=a[1] == "1")
    elif k == "setfl":
        ev.update(f=int(a[0]), fl=fl(a[1]))
    elif k in ("setlk", "getlk", "setlkw"):
        ev.update(op="getlk" if k == "getlk" else "setlk", f=int(a[0]), t=a[1], w=a[2], o=off(a[3]), n=off(a[4]))
        if not e:
            pids = ctx["pids"]
            pid = r[4] if k != "getlk" else ("p" + str(pids[r[4]]) if r[4] in pids else "p" if r[4] == "0" else "p?" + r[4])
            ev["r"] = [r[0], r[1], off(r[2]), off(r[3]), pid]
    elif k == "fork":
        ev.update(q=int(a[0]))
        if not e:
            ctx["pids"][r[0]] = int(a[0])
            ctx["pids"][r[1]] = 0
            ev["r"] = []
    elif k == "exit":
        ev.update(q=int(a[0]))
        ev["r"] = []
    elif k in ("pipe", "pipenb"):
        ev.update(op="pipe", nb=k == "pipenb")
    elif k in ("gc", "nop", "sleep"):
        ev["op"] = "nop"
    if k in ("stat", "lstat", "fstat") and not e:
        ev["r"] = [r[0], r[1], r[2], "dev" if r[3] == ctx["dev"] or r[0] == "p" else "dev?" + r[3], r[4], r[5], r[6], off(r[7]), tm(r[8]), tm(r[9]), tm(r[10])]
    if k == "modtime" and not e:
        ev["r"] = [tm(r[0])]
    if k == "filesize" and not e:
        ev["r"] = [off(r[0])]
    if k in ("fullpath", "tmpname") and not e:
        ev["r"] = [resp(r[0])]
    if k == "readlink" and not e:
        ev["r"] = [r[0].encode("latin-1").decode("utf-8", "surrogateescape")]
    return ev
