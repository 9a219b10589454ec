#!/bin/bash
# tools/lab.sh DIR: a private copy of /verif and /repo under DIR whose checks use DIR/repo, for
# trying edits and long runs without touching /repo.  The registered checks never use it.
set -e
d=$(realpath -m "$1")
mkdir -p "$d"
rsync -a --delete --exclude .git --exclude /target --exclude /replays --exclude /evidence /verif/ "$d/verif/" 2>/dev/null || {
    mkdir -p "$d/verif"
    (cd /verif && tar cf - --exclude=./.git --exclude=./target --exclude=./replays --exclude=./evidence .) | tar xf - -C "$d/verif"
}
[ -d "$d/repo" ] || git clone -q /repo "$d/repo"
sed -i "s|/repo\b|$d/repo|g" "$d/verif/check" "$d"/verif/{mc,probe,readhive}/Cargo.toml "$d"/verif/tools/*.sh
mkdir -p "$d/verif/replays"
