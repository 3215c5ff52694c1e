#!/bin/bash
# replay.sh FILE: rebuilds the harness from /repo and replays a scenario file written by check.py
set -e
f=$1
b=$(sed -n 's/^# harness \([a-z]*\),.*/\1/p' "$f" | head -1)
k=$(sed -n 's/^# harness .*observed kinds \(.*\)$/\1/p' "$f" | head -1)
t=$(mktemp -d /tmp/verif-replay-XXXXXX)
trap 'rm -rf "$t"' EXIT
cd "$(dirname "$0")/vc"
python3 -c "import bounded,sys; bounded._build(sys.argv[1],[sys.argv[2]])" "$t" "$b"
"$t/$b" replay "$f" "$k"
