#!/bin/bash
# tools/base.sh UNIT...: record what the extraction of the unchanged tree looks like (local names, loop shapes, uncontracted helpers)
cd "$(dirname "$0")/.."
for u in "$@"; do
  mv -f units/$u.base /tmp/base.old 2>/dev/null
  .build/vx/debug/vx --repo /repo --unit units/$u.rs --shim shim --out /tmp/base_$u.rs | grep -E "^(LOCALS|LOOPS|UNCONTRACTED)" > units/$u.base
done
