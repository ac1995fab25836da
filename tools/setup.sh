#!/bin/bash
# prime the extraction and driver caches from /repo's working tree (optional: every check does this itself)
cd "$(dirname "$0")/.." || exit 1
mkdir -p cache evidence replays
timeout 1500 python3-vt -m dv.prime || true
exit 0
