#!/bin/bash
# Builds the file-operation monitor used by the checkpoint checks. Nothing else needs building.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
if [ -x "$here/shim/build.sh" ]; then "$here/shim/build.sh"; fi
mkdir -p "$here/evidence"
