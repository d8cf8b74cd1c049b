#!/bin/bash
# mkseed.sh ID: makes seeded/ID/patch.diff from the edits in the scratch tree /tmp/sw, and resets that tree.
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/seeded/$1"
git -C /tmp/sw diff > "$V/seeded/$1/patch.diff"
git -C /tmp/sw checkout -q -- .
wc -l "$V/seeded/$1/patch.diff"
