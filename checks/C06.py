"""C06: a capture split over several files reads exactly like the one file it was cut from."""
import io, os
import numpy as np
from vlib.core import *
from vlib import formats as F
from hypothesis import strategies as st
from lsl.reader import ldp, errors, drx
from lsl.reader.utils import SplitFileWrapper, FilePositionSaver

def write(data, sizes, shuffle, names_sorted=True):
    """Cut data at the given fractions; returns the file names, in order of the parts."""
    d = tmpdir()
    cuts = sorted(int(round(f*len(data))) for f in sizes)
    names = []
    for i, (a, b) in enumerate(zip([0]+cuts, cuts+[len(data)])):
        n = os.path.join(d, 'part_%04d' % (i if names_sorted else 9999-i))
        with open(n, 'wb') as fh:
            fh.write(data[a:b])
        names.append(n)
    return names

op = st.one_of(st.tuples(st.just('read'), st.integers(0, 120)), st.tuples(st.just('read'), st.integers(0, 1200)),
               st.tuples(st.just('seek0'), st.integers(0, 1000)), st.tuples(st.just('seek1'), st.integers(-300, 300)),
               st.tuples(st.just('seek2'), st.integers(-1000, 0)), st.tuples(st.just('save'), st.integers(0, 200)))

@part('bytes', st.tuples(st.binary(min_size=1, max_size=300), st.integers(1, 4), st.lists(st.floats(0, 1), max_size=7), st.booleans(), st.lists(op, min_size=1, max_size=25)),
      quick=6000, thorough=60000, shards=4, rule='a sequence of reads and seeks in a file of two or more parts, empty parts included')
def c_bytes(case):
    data, rep, cuts, by_name, ops = case
    data = data*rep
    names = write(data, cuts, False, by_name)
    given = list(reversed(names)) if by_name else list(names)
    ref = io.BytesIO(data)
    with SplitFileWrapper(given, sort=by_name) as f:
        check(f.size == len(data), "size %s, expected %s", f.size, len(data))
        for o, n in ops:
            if o == 'read':
                a, b = f.read(n), ref.read(n)
                check(a == b, "read(%s) at %s returned %s bytes, expected %s", n, ref.tell()-len(b), len(a), len(b))
            elif o == 'seek0':
                n = n % (len(data)+1)
                f.seek(n)
                ref.seek(n)
            elif o == 'seek1':
                if not 0 <= ref.tell() + n <= len(data):
                    continue
                f.seek(n, 1)
                ref.seek(n, 1)
            elif o == 'seek2':
                n = -((-n) % (len(data)+1))
                f.seek(n, 2)
                ref.seek(n, 2)
            else:
                p = ref.tell()
                with FilePositionSaver(f):
                    check(f.read(n) == data[p:p+n], "read in between")
                    f.seek(0)
            check(f.tell() == ref.tell(), "position %s after %s, expected %s", f.tell(), o, ref.tell())
    check(f.closed, "not closed")
    try:
        f.read(1)
    except ValueError:
        pass
    else:
        raise AssertionError("read of a closed file")
    return len(names) > 1

T0 = 196000000*1600000000

@part('capture', st.tuples(st.sampled_from(['drx', 'drx8', 'tbx', 'drspec']), st.lists(st.floats(0, 1), min_size=1, max_size=6), st.integers(0, 2**32-1), st.lists(st.integers(1, 20), min_size=1, max_size=5), st.booleans()),
      quick=300, thorough=3000, shards=2, rule='a capture of any kind cut in two or more parts and read through the file objects')
def c_capture(case):
    kind, cuts, seed, reads, detect = case
    g = rng(seed)
    raw = b''
    for s in range(36):
        if kind in ('drx', 'drx8'):
            raw += F.drx(beam=1, tune=1, pol=s % 2, timetag=T0+(s//2)*40960, re=g.integers(-7, 8, 4096), im=g.integers(-7, 8, 4096), drx8=kind == 'drx8')
        elif kind == 'tbx':
            raw += F.tbx(frame_count=s+1, first_chan=100, nstand=64, nchan=4, timetag=T0+s*8192, re=g.integers(-7, 8, (4, 64, 2)), im=1)
        else:
            raw += F.drspec(timetag=T0+s*10*64, fmt=0x09, nfreq=32, nint=2, data=g.standard_normal((2, 32, 2)))
    names = write(raw, cuts, False)
    whole = os.path.join(tmpdir(), 'whole')
    with open(whole, 'wb') as fh:
        fh.write(raw)
    cls = dict(drx=ldp.DRXFile, drx8=ldp.DRX8File, tbx=ldp.TBXFile, drspec=ldp.DRSpecFile)[kind]
    unit = dict(drx=40960, drx8=40960, tbx=8192, drspec=640)[kind]/F.FS
    sp = SplitFileWrapper(names)
    with cls(whole) as a, (ldp.LWADataFile(fh=sp) if detect else cls(fh=sp)) as b:
        check(type(b) is cls, "opened as %s", type(b).__name__)
        for k in a.get_info():
            x, y = a.get_info(k), b.get_info(k)
            check(np.all(np.asarray(x == y)), "%s is %s of the parts, %s of the whole", k, y, x)
        for n in reads + [40]:
            out = []
            for f in (a, b):
                try:
                    out.append(f.read(n*unit, time_in_samples=True))
                except errors.EOFError:
                    out.append(None)
            check((out[0] is None) == (out[1] is None), "end of file in one only")
            if out[0] is None:
                break
            check(out[0][:2] == out[1][:2] and np.array_equal(out[0][2], out[1][2]), "different data")
    return len(names) > 1
