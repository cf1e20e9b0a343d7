#!/bin/bash
# dev.sh COMMAND...: runs a command with /tmp/dev/repo (a clone to edit) in the place of /repo, while something else needs /repo as it is.
[ -d /tmp/dev/repo ] || { mkdir -p /tmp/dev; cp -a /repo /tmp/dev/repo; }
exec unshare -m sh -c 'mount --bind /tmp/dev/repo /repo && cd /verif && exec "$@"' sh "$@"
