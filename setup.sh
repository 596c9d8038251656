#!/bin/bash
# one-time build of the extractor (offline)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash tools/extract/build.sh
