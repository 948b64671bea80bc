#!/bin/bash
# Builds everything the checks use.
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/scripts/build.sh" || exit 1
# one group of C29 needs this one; without it the group is inconclusive, and says so
bash "$here/scripts/build.sh" tsan || echo "no build under ThreadSanitizer"
exit 0
