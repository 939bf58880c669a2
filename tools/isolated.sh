#!/bin/bash
# isolated.sh DIR COMMAND...: runs the command where /repo and /verif are private copies (kept in DIR)
D=$1; shift
mkdir -p "$D/repo" "$D/verif"
rsync -a --delete /repo/ "$D/repo/" 2>/dev/null || { rm -rf "$D/repo"; cp -a /repo "$D/repo"; }
if [ ! -e "$D/verif/check" ]; then cp -a /verif/. "$D/verif/"; else
  (cd /verif && tar cf - --exclude=./harness/target* --exclude=./.git --exclude=./replays --exclude=./evidence .) | tar xf - -C "$D/verif"; fi
exec unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && shift 0 && exec "$@"' "$D" "$@"
