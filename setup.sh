#!/bin/bash
# Nothing to compile: checks the toolchain is there and every spec parses.
cd "$(dirname "$0")" || exit 1
set -e
test -x /opt/venv/bin/python
for f in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > /tmp/tv_sany.$$ 2>&1) || { cat /tmp/tv_sany.$$; rm -f /tmp/tv_sany.$$; exit 1; }
done
rm -f /tmp/tv_sany.$$
echo setup ok
