#!/bin/bash
# trydemo.sh ID...: runs each planted bug's demonstration in a scratch clone of
# /repo, without and with its patch.
for i in "$@"; do
  w=$(mktemp -d /tmp/demo.XXXXXX)
  git clone -q "${REPO:-/repo}" "$w/r"
  cp -r "${SEEDED:-/verif/seeded}/$i" "$w/s"
  (cd "$w/r" && bash "$w/s/demo.sh" >"$w/o1" 2>&1); a=$?
  (cd "$w/r" && git apply "$w/s/patch.diff" && bash "$w/s/demo.sh" >"$w/o2" 2>&1); b=$?
  echo "$i unchanged=$a patched=$b"
  if [ $a != 0 ] || [ -n "$VERBOSE" ]; then tail -20 "$w/o1"; fi
  if [ $b = 0 ] || [ -n "$VERBOSE" ]; then tail -20 "$w/o2"; fi
  find "$w" -delete
done
