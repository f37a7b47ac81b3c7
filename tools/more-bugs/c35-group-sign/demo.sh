#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$here"/demo.sml /repo/bin/.run/run.* "$w"/ && cp /repo/bin/.heap/sml.* "$w"/ && chmod -R a+rX "$w" && cd "$w" || exit 3
cat >go.py <<'X'
import os, glob
os.setgroups([5, 70000, 2147483647, 3000000000])
os.execve(glob.glob("run.*")[0], ["sml", "@SMLload=" + glob.glob("sml.*")[0], "demo.sml"], {"PATH": "/usr/bin:/bin"})
X
timeout -k 5 200 python3 go.py </dev/null >out.txt 2>&1; out=$(cat out.txt)
echo "$out" | tail -15
case "$out" in *DEMO-OK*) exit 0 ;; esac
exit 1
