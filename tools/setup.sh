#!/bin/bash
# builds the extractor; the checks build everything else from /repo's current tree
cd "$(dirname "$0")/.."
exec python3 -c 'import check; print(check.build_vx())'
