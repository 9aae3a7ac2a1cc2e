#!/bin/bash
# trymut.sh PATCH PROP...: run checks against a scratch copy of /repo with a
# patch applied (development only; the registered checks run on /repo).
# PATCH is a diff, a seed id, or a script run with cwd in the copy.
set -u
f=$1; shift
[ -d "/verif/seeded/$f" ] && f=/verif/seeded/$f/patch.diff
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; mkdir "$d/out"
if [[ "$f" == *.sh ]]; then (cd "$d/repo" && bash "$f") || exit 2; else git -C "$d/repo" apply "$f" || exit 2; fi
bash /verif/tools/build.sh || exit 2
for p in "$@"; do
  t=$(date +%s)
  VERIF_REPO=$d/repo VERIF_OUT=$d/out /verif/.cache/bin/sha1vc check $p > "$d/log" 2>&1; rc=$?
  echo "$(basename "${f%/patch.diff}") $p rc=$rc $(( $(date +%s)-t ))s: $(grep -h VIOLATION "$d/log" | sed 's/replay=[^ ]*//')"
  grep -h "failed obl\|replayed" "$d/log" | cut -c1-${W:-250} | head -${L:-3}
  [ -n "${KEEP:-}" ] && cp "$d/out/replays/$p.json" "$KEEP" 2>/dev/null
done
exit 0
