#!/bin/bash
# Offline sanity check of what the checks need; each check builds lsl from /repo itself.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, astropy, hypothesis
print('numpy', numpy.__version__, 'astropy', astropy.__version__, 'hypothesis', hypothesis.__version__)
P
gcc --version | head -1
mkdir -p evidence replays
