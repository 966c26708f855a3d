#!/bin/sh
# scanall.sh SECS PROP...: list the failure classes of each property, both variants
t=$1; shift; cd "$(dirname "$0")/../build"
for p in "$@"; do for v in d r; do echo "== $p $v"; ./simrun-$v scan --prop $p --runs 100000000 --secs $t | grep -v "scan done" | cut -c1-220; done; done
