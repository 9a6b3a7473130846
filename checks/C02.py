"""C02: raw readers reject what is not a frame, cleanly and at the right place, and never touch memory they do not own.
Runs on extensions built with AddressSanitizer."""
import io, os
import numpy as np
from vlib.core import *
from vlib import formats as F
from hypothesis import strategies as st
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
from lsl.reader.errors import EOFError as LEOF, SyncError

seeds = st.integers(0, 2**32-1)
T0 = F.FS*1700000000

def mk_drx(g, is8=False, **kw):
    lo = 128 if is8 else 8
    return F.drx(re=g.integers(-lo, lo, 4096), im=g.integers(-lo, lo, 4096), drx8=is8, timetag=T0 + int(g.integers(0, 2**40)), **kw)

def mk_tbx(g, ns, nc, **kw):
    return F.tbx(nstand=ns, nchan=nc, re=g.integers(-8, 8, (nc, ns, 2)), im=g.integers(-8, 8, (nc, ns, 2)), first_chan=int(g.integers(0, 4000)), timetag=T0, **kw)

def mk_cor(g, nc, **kw):
    return F.cor(vis=g.standard_normal((nc, 2, 2)) + 1j*g.standard_normal((nc, 2, 2)), timetag=T0, stand0=int(g.integers(1, 9)), stand1=int(g.integers(1, 9)), **kw)

def mk_spec(g, fmt, nf, **kw):
    return F.drspec(fmt=fmt, nfreq=nf, data=g.standard_normal((2, nf, len(F.DRSPEC_FORMATS[fmt]))), timetag=T0, **kw)

def mk_vdif(g, bits, cplx, lc, n, legacy, **kw):
    return F.vdif(bits=bits, is_complex=cplx, nchan_log2=lc, legacy=legacy, payload=g.integers(0, 256, 64*n, dtype=np.uint8).tobytes(), **kw)

KINDS = ['drx', 'drx8', 'tbx', 'cor', 'drspec', 'vdif']
READERS = dict(drx=(drx.read_frame, drx.read_frame_ci8), drx8=(drx8.read_frame, drx8.read_frame_ci8), tbx=(tbx.read_frame, tbx.read_frame_ci8),
               cor=(cor.read_frame,), drspec=(drspec.read_frame,), vdif=(vdif.read_frame, vdif.read_frame_i8))

@st.composite
def stream(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind == 'tbx':
        p = (draw(st.sampled_from([64, 128, 256])), draw(st.sampled_from([4, 8, 12, 16])))
    elif kind == 'cor':
        p = (draw(st.sampled_from([33, 72, 112, 192])),)
    elif kind == 'drspec':
        p = (draw(st.sampled_from(sorted(F.DRSPEC_FORMATS))), draw(st.sampled_from([1, 8, 32, 128])))
    elif kind == 'vdif':
        p = (draw(st.sampled_from([1, 2, 4, 8])), draw(st.integers(0, 1)), draw(st.integers(0, 3)), draw(st.integers(1, 4)), draw(st.integers(0, 1)))
    else:
        p = ()
    return kind, p, draw(st.integers(1, 4)), draw(seeds)

def build(kind, p, n, seed):
    g = rng(seed)
    if kind in ('drx', 'drx8'):
        return [mk_drx(g, kind == 'drx8', beam=1+i % 4) for i in range(n)]
    if kind == 'cor':
        n = max(n, -(-6176//(32+p[0]*32)) + 1)
    return [dict(tbx=mk_tbx, cor=mk_cor, drspec=mk_spec, vdif=mk_vdif)[kind](g, *p) for i in range(n)]

def reset():
    try:
        cor.read_frame(io.BytesIO(b'\0'*8192))
    except SyncError:
        pass
    # and leave the TBX reader at its largest frame
    try:
        tbx.read_frame(io.BytesIO(F.tbx(nstand=256, nchan=16, re=0, im=0, timetag=T0)))
    except Exception:
        pass

ALLOWED = (LEOF, SyncError, RuntimeError, MemoryError, IOError, KeyError, ValueError)

def use(f, kind):
    """Touch everything a frame offers."""
    for a in ('header', 'payload', 'id', 'time', 'sample_rate', 'channel_freqs', 'central_freq', 'data_products', 'integration_time', 'extended_user_data'):
        try:
            getattr(f, a, None)
        except Exception:
            pass
    d = f.payload.data if kind != 'drspec' else None
    if d is not None:
        d.copy() if d.dtype.names else float(np.abs(d.astype(np.complex128)).sum())

# (1) truncation at any point: the complete frames before it, then end of file
@part('truncate', st.tuples(stream(), st.integers(0, 10**9)), quick=900, thorough=20000, rule='a stream cut off inside a frame')
def c_trunc(case):
    (kind, p, n, seed), cut = case
    frames = build(kind, p, n, seed)
    raw = b''.join(frames)
    L = len(frames[0])
    cut = cut % (len(raw)+1)
    if kind == 'cor':
        cut = max(cut, 6176)          # the first read of a COR stream looks at the largest frame there is
    label(kind)
    for rd in READERS[kind]:
        reset()
        if kind == 'cor':
            reset_cor()
        fh = io.BytesIO(raw[:cut])
        for i in range(cut//L):
            rd(fh)
            check(fh.tell() == (i+1)*L, "position %s after frame %s", fh.tell(), i)
        try:
            f = rd(fh)
        except LEOF:
            pass
        else:
            raise AssertionError(f"a frame came out of {cut - (cut//L)*L} of {L} bytes")
    return cut % L != 0

def reset_cor():
    try:
        cor.read_frame(io.BytesIO(b'\0'*8192))
    except SyncError:
        pass

# (2) a frame with a damaged sync word is reported where it lies, and the frames after it are all there
@part('sync', st.tuples(stream(), st.integers(0, 3), st.integers(0, 31)), quick=900, thorough=20000, rule='one bit of one sync word flipped')
def c_sync(case):
    (kind, p, n, seed), which, bit = case
    if kind == 'vdif':
        kind, p = 'drx', ()
    frames = build(kind, p, n, seed)
    good = list(frames)
    which = which % len(frames)
    if kind == 'cor':
        # the frame size is recognised from the next sync word
        frames = frames*3
        good = good*3
        which = 2 + which
    if kind == 'tbx':
        # likewise: the first frame tells the reader how large frames are
        frames = frames*2
        good = good*2
        which = 1 + which % (len(frames)-1)
    b = bytearray(frames[which])
    b[bit//8] ^= 1 << (bit % 8)
    frames = list(frames)
    frames[which] = bytes(b)
    L = len(frames[0])
    label(kind)
    for rd in READERS[kind]:
        reset()
        fh = io.BytesIO(b''.join(frames))
        ref = io.BytesIO(b''.join(good))
        for i in range(len(frames)):
            ref.seek(i*L)
            if i == which:
                try:
                    rd(fh)
                except SyncError as e:
                    if kind == 'cor':
                        check(fh.tell() == i*L, 'position after the error %s', fh.tell())
                    check(e.location is not None and int(e.location) == i*L, "error located at %s, the frame lies at %s", e.location, i*L)
                except LEOF:
                    raise AssertionError("end of file instead of a sync error")
                else:
                    raise AssertionError("a frame with a bad sync word was returned")
                fh.seek((i+1)*L)
                if kind == 'cor':
                    break
            else:
                f = rd(fh)
                check(fh.tell() == (i+1)*L, "position %s after frame %s", fh.tell(), i)
    return True

# (3) byte-level damage anywhere: a frame or a clean error, and nothing else
mut = st.lists(st.tuples(st.one_of(st.integers(0, 63), st.integers(0, 10**6)), st.integers(0, 255)), min_size=1, max_size=8)

@part('damage', st.tuples(stream(), mut, st.integers(0, 10**6)), quick=3000, thorough=80000, shards=2, seconds=60, rule='header or payload bytes overwritten')
def c_damage(case):
    (kind, p, n, seed), muts, cut = case
    frames = build(kind, p, min(n, 2), seed)
    raw = bytearray(b''.join(frames))
    for pos, val in muts:
        raw[pos % len(raw)] = val
    if cut % 3 == 0:
        raw = raw[:cut % len(raw)]
    return feed(kind, bytes(raw))

def feed(kind, raw):
    got = False
    for rd in READERS[kind]:
        fh = io.BytesIO(raw)
        for _ in range(6):
            pos = fh.tell()
            try:
                f = rd(fh)
            except LEOF:
                break
            except SyncError:
                fh.seek(pos+1)
                continue
            except ALLOWED:
                break
            got = True
            use(f, kind)
            check(fh.tell() > pos, "a frame was returned without consuming anything")
    return True

# (4) fields over their whole range
@part('fields', st.tuples(st.sampled_from(['drspec', 'vdif', 'vdif', 'tbx']), st.integers(0, 255), st.integers(0, 31), st.integers(0, 31), st.integers(0, 1), st.integers(0, 1),
                          st.one_of(st.integers(0, 300), st.integers(0, 2**24-1)), st.integers(0, 400), seeds), quick=4000, thorough=100000, shards=2, seconds=60,
      rule='format, bit depth, channel count and length fields over their whole range, with less or more payload than they call for')
def c_fields(case):
    kind, fmt, bits, lc, cplx, leg, length, pay, seed = case
    g = rng(seed)
    body = g.integers(0, 256, pay*8, dtype=np.uint8).tobytes()
    if kind == 'vdif':
        raw = F.vdif(bits=bits+1, nchan_log2=lc, is_complex=cplx, legacy=leg, frame_length=length, payload=body)
        if length*8 < (16 if leg else 32):
            try:
                vdif.read_frame(io.BytesIO(raw))
            except SyncError:
                return True
            raise AssertionError("a frame shorter than its header was accepted")
        full = length*8 <= len(raw)
        if full and bits+1 not in (1, 2, 4, 8):
            for rd in READERS['vdif']:
                try:
                    rd(io.BytesIO(raw))
                except RuntimeError:
                    continue
                raise AssertionError(f"{bits+1}-bit data was accepted")
    elif kind == 'drspec':
        raw = F.drspec(fmt=fmt, nfreq=length % 64 if leg else length, data=np.zeros(0), timetag=T0) + body
        if fmt not in F.DRSPEC_FORMATS:
            try:
                drspec.read_frame(io.BytesIO(raw))
            except (RuntimeError, SyncError, LEOF):
                return True
            raise AssertionError(f"spectrometer format 0x{fmt:02x} was accepted")
    else:
        raw = F.SYNC + b'\x08\0\0\1' + b'\0\0\0\2' + b'\0\0\0\7' + int(length % 65536).to_bytes(2, 'big') + int(lc).to_bytes(2, 'big') + b'\0'*8 + body*8
        if (length % 65536) not in (64, 128, 256) or lc not in (4, 8, 12, 16):
            reset()
            for rd in READERS['tbx']:
                try:
                    rd(io.BytesIO(raw))
                except (SyncError, LEOF):
                    continue
                raise AssertionError("an impossible frame geometry was accepted")
    return feed(kind, raw)

# (5) arbitrary bytes
@part('noise', st.tuples(st.sampled_from(KINDS), st.integers(0, 9000), seeds, st.booleans()), quick=600, thorough=10000, rule='random bytes, with or without a sync word in front')
def c_noise(case):
    kind, n, seed, sync = case
    raw = rng(seed).integers(0, 256, n, dtype=np.uint8).tobytes()
    if sync:
        raw = (F.SYNC if kind != 'drspec' else (0xC0DEC0DE).to_bytes(4, 'little')) + raw
    elif kind != 'vdif':
        for rd in READERS[kind]:
            try:
                rd(io.BytesIO(raw))
            except (SyncError, LEOF):
                continue
            raise AssertionError("random bytes were taken for a frame")
    return feed(kind, raw)

# (6) a reader that fails, or no reader at all
class Bad:
    def __init__(self, mode): self.mode = mode
    def read(self, n):
        if self.mode == 0: raise OSError("disk")
        return b'\0'*(n//2)
    def tell(self): return 0
    def seek(self, *a): return 0

@part('badfile', st.tuples(st.sampled_from(KINDS), st.integers(0, 1)), quick=30, thorough=60, rule='a file object that raises, or returns half of what is asked for')
def c_badfile(case):
    kind, mode = case
    for rd in READERS[kind]:
        try:
            rd(Bad(mode))
        except (IOError if mode == 0 else LEOF):
            continue
        except Exception as e:
            raise AssertionError(f"{type(e).__name__}: {e}")
        raise AssertionError("no error")
    return True
