#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$here"/*.sml "$w"/ && cd "$w" || exit 3
export TZ="EST5EDT,M3.2.0,M11.1.0"
timeout -k 5 200 /repo/bin/sml  demo.sml </dev/null >out.txt 2>&1; out=$(cat out.txt)
echo "$out" | tail -15
case "$out" in *DEMO-OK*) exit 0 ;; esac
exit 1
