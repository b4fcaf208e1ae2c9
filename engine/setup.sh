#!/bin/sh
# use the committed engine when it matches its sources, otherwise build it
cd "$(dirname "$0")/.." || exit 1
want=$(cat engine/usym.cc engine/aig.h engine/sat.h | sha256sum | cut -d' ' -f1)
have=$(head -1 bin/usym.sha256 2>/dev/null)
if [ "$want" = "$have" ] && bin/usym --version >/dev/null 2>&1; then echo "engine is current"; exit 0; fi
exec bash engine/build.sh
