"""Development aid: create /verif/seeded/<id>/ from textual edits of /repo and an SML demonstration."""
import os, subprocess, json, shutil, tempfile
S = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$here"/*.sml "$w"/ && cd "$w" || exit 3
%(pre)s
timeout -k 5 200 /repo/bin/sml %(libs)s demo.sml </dev/null >out.txt 2>&1; out=$(cat out.txt)
echo "$out" | tail -15
case "$out" in *DEMO-OK*) exit 0 ;; esac
exit 1
'''
def seed(id, prop, edits, needs, what, sml=None, libs="", pre="", demo=None, files=None):
    d = os.path.join(S, id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    diff = ""
    byf = {}
    for f, old, new in edits: byf.setdefault(f, []).append((old, new))
    for f, l in byf.items():
        s = open("/repo/" + f, encoding="latin-1", newline="").read()
        for old, new in l:
            assert s.count(old) == 1, (f, old, s.count(old))
            s = s.replace(old, new)
        os.makedirs(os.path.dirname(t + "/b/" + f), exist_ok=True)
        open(t + "/b/" + f, "w", encoding="latin-1", newline="").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t + "/b/" + f], stdout=subprocess.PIPE)
        diff += r.stdout.decode("latin-1")
    open(d + "/patch.diff", "w", encoding="latin-1", newline="").write(diff)
    shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    if sml is not None: open(d + "/demo.sml", "w").write(sml)
    for n, x in (files or {}).items(): open(d + "/" + n, "w").write(x)
    open(d + "/demo.sh", "w").write(demo or DEMO % dict(libs=libs, pre=pre))
    os.chmod(d + "/demo.sh", 0o755)
    print("seeded", id)
