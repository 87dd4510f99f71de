#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--seed N] [--case I] [--replay FILE]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HSV_HOME="$here"
export HSV_REPO="${HSV_REPO:-/repo}"
export PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1
export LC_ALL=C.UTF-8
unset UNSAFE_DESERIALIZE_PICKLE
scratch="$(mktemp -d "${TMPDIR:-/tmp}/hsverif.XXXXXX")" || exit 2
export HSV_SCRATCH="$scratch"
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export PYTHONPATH="$HSV_REPO:$here/harness"
export TMPDIR="$scratch/tmp"; mkdir -p "$TMPDIR"
case "$1" in
  C07|C08|C09|C22)
    "$here/shim/build.sh" >&2 || { rm -rf "$scratch"; exit 2; }
    export LD_PRELOAD="$here/build/fsmon.so" ;;
esac
/opt/venv/bin/python "$here/harness/core.py" "$@"
rc=$?
unset LD_PRELOAD
rm -rf "$scratch"
exit $rc
