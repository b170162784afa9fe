#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working tree.  This only shows
# that the tools are there and that the specification parses.
set -e
cd "$(dirname "$0")"
command -v cargo java python3 >/dev/null
for m in spec/MC_*.tla spec/Trace*.tla spec/Gen*.tla spec/KAT.tla spec/Unbounded.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
