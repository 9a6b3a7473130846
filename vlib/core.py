"""What a check module uses: part registration and small helpers."""
import os, sys, shutil, tempfile
from collections import Counter

HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if HYP not in sys.path:
    sys.path.append(HYP)          # at the end: numpy & co. come from lsl's own environment

REPO = os.environ.get('VERIF_REPO', '/repo')

PARTS = []
KNOWN = []

class HarnessError(Exception):
    """The check itself cannot work (never a violation)."""

class Reject(Exception):
    """The case lies outside the property's domain (counted, not evaluated)."""

class Part:
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards, seconds, explicit):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.seconds, self.explicit = shards, seconds, explicit

def part(name, strategy, quick=200, thorough=None, rule='', shards=1, seconds=45, explicit=()):
    """Register fn(case) over `strategy`.  fn raises on a violation and returns something true when the
    case was non-trivial by `rule`.  A part is split in `shards` processes; `explicit` cases run first."""
    def deco(fn):
        PARTS.append(Part(name, strategy, fn, quick, thorough or quick*20, rule, shards, seconds, list(explicit)))
        return fn
    return deco

def known(fid):
    """Register fn() for a listed finding: returns True while the defect is still there."""
    def deco(fn):
        KNOWN.append((fid, fn))
        return fn
    return deco

LABELS = Counter()

def label(name):
    LABELS[name] += 1

def nontrivial(flag=True):
    return bool(flag)

_tmp = []

def tmpdir():
    """A scratch directory removed when the current case ends."""
    d = tempfile.mkdtemp(prefix='case-')
    _tmp.append(d)
    return d

def clean_tmp():
    while _tmp:
        shutil.rmtree(_tmp.pop(), ignore_errors=True)

def rng(seed):
    import numpy as np
    return np.random.default_rng(seed)

def check(cond, msg='', *args):
    if not cond:
        raise AssertionError((msg % args if '%' in msg else msg + ': ' + ' | '.join(str(a) for a in args)) if args else msg)

def close(a, b, rtol=1e-9, atol=0.0, msg=''):
    import numpy as np
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        raise AssertionError(f"{msg}: shape {a.shape} != {b.shape}")
    if a.size == 0:
        return
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = np.unravel_index(np.argmin(ok), ok.shape) if ok.shape else ()
        raise AssertionError(f"{msg}: {(~ok).sum()} of {ok.size} differ, first at {tuple(int(v) for v in i)}: got {a[i]!r}, expected {b[i]!r}")
