#!/bin/bash
# Build everything the checks build, once, so that a check only rebuilds what changed in /repo.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
./build.sh || exit 2
./build.sh "$V/.build/setup-dump" && rm -rf "$V/.build/setup-dump"
cd engine && python3-vt - <<'P'
import conc, mtree
for b in ("replay", "fncall"):
    print(b, *conc.build(b))
print("mtree", *mtree.build())
P
exit 0
