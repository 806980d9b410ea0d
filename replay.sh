#!/bin/bash
# replay a counterexample file against the real code:  bash replay.sh FILE
f="$1"
d="$(cd "$(dirname "$0")" && pwd)"
e="$(sed -n 's/^# entry: //p' "$f")"
p="$(sed -n 's/^# params: //p' "$f")"
case "$e" in
py_*) exec python3-vt "$d/pyreplay.py" "$e" "$f" $p ;;
*) exec "$d/.build/target/debug/replay" "$e" "$f" $p ;;
esac
