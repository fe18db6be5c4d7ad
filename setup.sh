#!/bin/bash
# Builds the extractor (clang libTooling) used by every check.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash tool/build.sh build/extract
echo "extractor built"
