#!/bin/bash
# the checks build what they need themselves; this only shows that the toolchain can
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
t="$(mktemp -d)"
bash "$here/driver/build.sh" "$t"
rm -rf "$t"
