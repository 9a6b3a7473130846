#!/bin/bash
# run.sh ID quick|thorough          run the check of one property
# run.sh ID replay FILE             replay a saved failing case
# run.sh ID part NAME [N]           run only the parts whose name starts with NAME (development)
# VERIF_REPO selects another lsl tree (development only; the default and registered target is /repo)
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export VERIF_REPO=$REPO
SCRATCH=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/home/.config" "$SCRATCH/lslconf" "$SCRATCH/tmp"
[ -d /opt/vp/etc/astropy ] && cp -r /opt/vp/etc/astropy "$SCRATCH/home/.config/"
export HOME=$SCRATCH/home XDG_CONFIG_HOME=$SCRATCH/home/.config XDG_CACHE_HOME=$SCRATCH/home/.cache
export LSLCONFIGDIR=$SCRATCH/lslconf TMPDIR=$SCRATCH/tmp VERIF_SCRATCH=$SCRATCH
export LANG=C.UTF-8 TZ=UTC MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=${VERIF_OMP:-2} OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONSTARTUP GITHUB_ACTIONS
export PYTHONPATH=$REPO:$HERE
PY=/opt/venv/bin/python
cd "$SCRATCH" || exit 3
$PY "$HERE/vlib/build.py" "$REPO" >"$SCRATCH/build.log" 2>&1
if [ $? -ne 0 ]; then
    tail -n 40 "$SCRATCH/build.log" >&2
    echo "ERROR: the extensions of $REPO do not build" >&2
    exit 3
fi
if [ -e "$HERE/checks/$1.asan" ]; then
    # this check runs on extensions built with AddressSanitizer
    $PY "$HERE/vlib/asan.py" "$REPO" "$SCRATCH/asan" >"$SCRATCH/asan.log" 2>&1
    if [ $? -ne 0 ]; then
        tail -n 40 "$SCRATCH/asan.log" >&2
        echo "ERROR: the extensions of $REPO do not build with AddressSanitizer" >&2
        exit 3
    fi
    export VERIF_ASAN=$SCRATCH/asan
    export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_segv=0:max_allocation_size_mb=4096
    export PYTHONMALLOC=malloc
    LD_PRELOAD="$(gcc -print-file-name=libasan.so) $(gcc -print-file-name=libstdc++.so)" $PY -m vlib.runner "$@"
else
    $PY -m vlib.runner "$@"
fi
rc=$?
cd /
exit $rc
