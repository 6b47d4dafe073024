#!/bin/bash
# replay.sh FILE: runs a replay file again; exit 1 and the VIOLATION line if it fails exactly as recorded.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
POSIM_ROOT=$here exec "$here/sim/target/release/posim" replay "$1"
