#!/bin/bash
# ns.sh NAME COMMAND...: runs a command where /repo and /verif are scratch copies, in a mount namespace of its own.
n=/tmp/ns/$1; shift
mkdir -p $n
rsync -a --delete /repo/ $n/repo/ 2>/dev/null || { rm -rf $n/repo; cp -a /repo $n/repo; }
[ -d $n/verif ] || cp -a /verif $n/verif
for f in kit gen harness subject standins tools lib.sh check.sh known_findings.txt; do rm -rf $n/verif/$f; cp -a /verif/$f $n/verif/$f; done
exec unshare -m sh -c 'mount --bind '$n'/repo /repo && mount --bind '$n'/verif /verif && cd /verif && exec "$@"' sh "$@"
