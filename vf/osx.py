"""Operating-system scripts: build the osrun image, run scripts as an unprivileged user in a
scratch directory, convert the logs to traces."""
import json, os, resource, shutil, signal, subprocess, time
from vf.common import *

RUN = os.environ.get("VF_RUN") if os.environ.get("VF_NOBUILD") == "dev" and os.environ.get("VF_RUN") else REPO + "/bin/.run/run.amd64-linux"
DEPTH = 6
UID, GID, XGID = 65534, 65534, 65533
DRIVERS = ["util.sml", "osrun.sml"]


def esc(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return "".join(chr(b) if 33 <= b < 127 and b != 37 else "%%%02X" % b for b in s)


def default_signals():
    """Undo what was inherited (checks may be run in the background, where SIGINT and SIGQUIT are ignored)."""
    for g in range(1, 32):
        if g not in (signal.SIGKILL, signal.SIGSTOP):
            try: signal.signal(g, signal.SIG_DFL)
            except (OSError, ValueError): pass
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


class Os:
    def __init__(self, c, extra=(), libs=("$/basis.cm", "$SMLNJ-LIB/Util/smlnj-lib.cm"), main="OsRun.export ()", img="osrun"):
        self.c = c
        self.w = c.sub("osx-" + img)
        os.chmod(c.work, 0o755)
        self.img = os.path.join(self.w, img)
        r = sml_driver(self.w, [os.path.join(DRV, f) for f in DRIVERS + list(extra)], list(libs), main, env={"VF_IMG": self.img})
        if not os.path.exists(self.img + ".amd64-linux"):
            raise Violation("the driver cannot be compiled and exported as an image: rc=%s\n%s" % (r.rc, r.out[-1500:]))
        self.n = 0
        self.unpriv = self.try_unpriv()

    def try_unpriv(self):
        if os.geteuid() != 0:
            return False
        try:
            subprocess.run(["/bin/true"], user=UID, group=GID, extra_groups=[XGID], check=True)
            return True
        except Exception:
            return False

    def scratch(self, root):
        """A directory some levels down in the scratch tree (so that '..' stays inside)."""
        self.n += 1
        top = os.path.join(self.c.work, "fs%d" % self.n)
        base = os.path.join(top, "r")          # the root of the modelled tree
        d = base + "/up" * (DEPTH - 1)
        os.makedirs(d)
        ds = [top] + [base + "/up" * i for i in range(DEPTH)]
        for x in ds:
            if not root and self.unpriv:
                os.chown(x, UID, GID)
            os.chmod(x, 0o755)
        return top, d

    def popen(self, args, cwd, root=False, env=None, lim=64, umask=0o22, **kw):
        e = {"PATH": "/usr/bin:/bin", "HOME": "/", "TZ": "UTC", "LANG": "C"}
        e.update(env or {})
        def pre():
            default_signals()
            os.setsid()
            resource.setrlimit(resource.RLIMIT_NOFILE, (lim, lim))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.umask(umask)
        u = {} if root or not self.unpriv else dict(user=UID, group=GID, extra_groups=[XGID])
        return subprocess.Popen([RUN, "@SMLload=" + self.img] + args, cwd=cwd, env=e, preexec_fn=pre, stdin=kw.pop("stdin", subprocess.DEVNULL),
                                stdout=kw.pop("stdout", subprocess.PIPE), stderr=kw.pop("stderr", subprocess.STDOUT), **u, **kw)

    def script(self, lines, root=False, env=None, timeout=60, lim=64, umask=0o22, keep=False, pre=None, stops=False):
        """Run a script; returns (results, dir, window) where results is a list of {"e","r"} or None."""
        top, d = self.scratch(root)
        if pre:
            pre(d)
        sp = os.path.join(top, "script")
        with open(sp, "wb") as f:
            for l in lines:
                f.write("\t".join([l[0]] + [esc(x) if x != "" else "" for x in l[1:]]).encode() + b"\n")
        os.chmod(sp, 0o644)
        t0 = time.time_ns()
        e = {"TMPDIR": d}
        e.update(env or {})
        p = self.popen([sp], d, root=root, env=e, lim=lim, umask=umask)
        to = False
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            if not stops: hung("a script", dict(lines=lines))
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, _ = p.communicate()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        t1 = time.time_ns()
        res = []
        for ln in out.decode("latin-1").splitlines():
            if ln.startswith('{"e"'):
                try:
                    res.append(json.loads(ln))
                except ValueError:
                    break
        if not keep:
            rmtree_hard(top)
        ok = p.returncode == 0 and len(res) == len(lines) and not to
        return dict(ok=ok, rc=p.returncode, to=to, res=res, out=out.decode("latin-1"), dir=d, top=top, t0=t0, t1=t1)


def rmtree_hard(p):
    """Remove a scratch tree, also one with paths longer than PATH_MAX."""
    subprocess.run(["chmod", "-R", "u+rwx", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["rm", "-rf", "--", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def off(n):
    n = int(n)
    return [n >> 20, n & 0xfffff]


def path(s, d):
    """The specification's view of a path argument (d: the scratch root)."""
    abs_ = s == d or s.startswith(d + "/")
    rest = s[len(d):] if abs_ else s
    cs = [x for x in rest.split("/") if x]
    cs = [x for i, x in enumerate(cs) if x != "." or i == len(cs) - 1]     # only a final "." matters
    return {"abs": abs_, "c": cs, "slash": s.endswith("/") and len(cs) > 0, "raw": s, "n": len(s.encode("utf-8", "surrogateescape"))}
