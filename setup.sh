#!/bin/sh
# Everything is interpreted; check that the tools and the specification are usable.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
chmod +x check.py
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")") >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f "/tmp/sany.$$"
echo setup ok
