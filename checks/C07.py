"""C07: frames written by the simulated DRX and VDIF writers read back as what was asked for."""
import io, calendar
from fractions import Fraction
import numpy as np
from vlib.core import *
from vlib import formats as F
from hypothesis import strategies as st
from lsl.reader import drx, vdif
from lsl.reader.base import CI8, FrameTimestamp
from lsl.sim import drx as sdrx, ndp as sndp
from lsl.writer import vdif as wvdif
from astropy.time import Time as AstroTime

FS = F.FS

tags = st.one_of(st.integers(0, 2**63-1), st.integers(196000000*10**9, 196000000*2*10**9))

def data4(seed, kind):
    r = rng(seed)
    if kind == 'ci8':
        d = np.zeros(4096, CI8)
        d['re'] = r.integers(-8, 8, 4096)
        d['im'] = r.integers(-8, 8, 4096)
        return d, d['re'].astype(int), d['im'].astype(int)
    if kind == 'ints':
        re, im = r.integers(-8, 8, 4096), r.integers(-8, 8, 4096)
        return (re + 1j*im).astype(np.complex64 if seed % 2 else np.complex128), re, im
    z = (r.standard_normal(4096) + 1j*r.standard_normal(4096))*(5 if kind == 'noise' else 60)
    z = z.astype(np.complex64)
    lim = lambda v: np.clip(np.rint(v.astype(np.float64)), -8, 7).astype(int)
    return z, lim(z.real), lim(z.imag)

def write_read(writers):
    d = tmpdir()
    with open(d + '/f', 'wb') as fh:
        for w in writers:
            w(fh)
    return open(d + '/f', 'rb').read()

sim_s = st.fixed_dictionaries(dict(beam=st.integers(1, 4), tune=st.integers(1, 2), pol=st.integers(0, 1), dec=st.sampled_from([10, 20, 40, 98, 196, 784, 65535, 1]),
                                   off=st.integers(0, 65535), tag=tags, flags=st.integers(0, 2**32-1), seed=st.integers(0, 10**6), kind=st.sampled_from(['ci8', 'ints', 'noise', 'clip']), fc=st.integers(0, 10**6)))

@part('simulated DRX', st.lists(sim_s, min_size=1, max_size=5), quick=1200, thorough=6000, rule='more than one frame')
def c_drx(cs):
    ref, ws, exp = [], [], []
    for c in cs:
        d, re, im = data4(c['seed'], c['kind'])
        keep = d.copy()
        f = sdrx.SimFrame(beam=c['beam'], tune=c['tune'], pol=c['pol'], decimation=c['dec'], time_offset=c['off'], frame_count=c['fc'], obs_time=c['tag'], flags=c['flags'], data=d)
        check(f.is_valid(), "a valid frame is refused")
        raw = f.create_raw_frame()
        want = F.drx(beam=c['beam'], tune=c['tune'], pol=c['pol'], decimation=c['dec'], time_offset=c['off'], timetag=c['tag'], flags=c['flags'], re=re, im=im)
        check(raw.dtype == np.uint8 and raw.size == 4128, "raw frame", raw.dtype, raw.size)
        check(raw.tobytes() == want, "raw frame bytes differ", [i for i in range(4128) if raw.tobytes()[i] != want[i]][:8])
        check(np.array_equal(d, keep), "the data were changed")
        ws.append(f.write_raw_frame)
        exp.append((c, re, im, want))
    blob = write_read(ws)
    check(blob == b''.join(e[3] for e in exp), "file content")
    fh = io.BytesIO(blob)
    for c, re, im, want in exp:
        g = drx.read_frame(fh)
        check(g.id == (c['beam'], c['tune'], c['pol']), "id", g.id)
        check(g.header.decimation == c['dec'] and g.header.time_offset == c['off'] and g.payload.timetag == c['tag'] and g.payload.flags == c['flags'], "header fields")
        check(np.array_equal(g.payload.data, (re + 1j*im).astype(np.complex64)), "data")
    return len(cs) > 1

@part('re-written DRX', st.tuples(st.integers(0, 10**6), st.booleans(), tags), quick=600, thorough=2000, rule='every frame')
def c_rewrite(c):
    r = rng(c[0])
    raw = F.drx(frame_count=int(r.integers(0, 2**24)), beam=int(r.integers(1, 5)), tune=int(r.integers(1, 3)), pol=int(r.integers(0, 2)), second_count=int(r.integers(0, 2**32)),
                decimation=int(r.choice([10, 20, 98])), time_offset=int(r.integers(0, 65536)), timetag=c[2], tuning_word=int(r.integers(0, 2**32)), flags=int(r.integers(0, 2**32)),
                re=r.integers(-8, 8, 4096), im=r.integers(-8, 8, 4096))
    f = (drx.read_frame_ci8 if c[1] else drx.read_frame)(io.BytesIO(raw))
    out = sdrx.frame_to_frame(f).tobytes()
    check(out == raw, "frame_to_frame of a read frame", [i for i in range(4128) if out[i] != raw[i]][:8])
    s = sdrx.SimFrame()
    s.load_frame(f)
    check((s.beam, s.tune, s.pol) == f.id and s.obs_time == c[2], "load_frame fields")
    g = drx.read_frame(io.BytesIO(s.create_raw_frame().tobytes()))
    check(g.id == f.id and g.payload.timetag == c[2] and g.header.decimation == f.header.decimation and g.header.time_offset == f.header.time_offset
          and g.payload.flags == f.payload.flags and g.payload.tuning_word == f.payload.tuning_word, "load_frame then write")
    h = drx.read_frame(io.BytesIO(raw))
    check(np.array_equal(g.payload.data, h.payload.data), "load_frame then write: data")
    return True

@part('invalid DRX', st.tuples(st.sampled_from(['beam', 'tune', 'pol', 'short', 'long', 'real', 'int', 'none', 'ok']), st.integers(0, 7), st.integers(1, 9000)), quick=800, thorough=2000, rule='an invalid frame')
def c_invalid(c):
    what, n, m = c
    kw = dict(beam=1 + n % 4, tune=1 + n % 2, pol=n % 2, decimation=10, time_offset=0, frame_count=1, obs_time=196000000*10**9, flags=0, data=np.zeros(4096, np.complex64))
    bad = what != 'ok'
    if what == 'beam':
        kw['beam'] = n
        bad = n not in (1, 2, 3, 4)
    elif what == 'tune':
        kw['tune'] = n
        bad = n not in (1, 2)
    elif what == 'pol':
        bad = False       # one bit in the header: 0 and 1 only
    elif what in ('short', 'long'):
        kw['data'] = np.zeros(m, np.complex64)
        bad = m != 4096
    elif what == 'real':
        kw['data'] = np.zeros(4096, np.float32)
    elif what == 'int':
        kw['data'] = np.zeros(4096, [np.int8, np.int16, np.int32][n % 3])
    elif what == 'none':
        kw['data'] = None
    f = sdrx.SimFrame(**kw)
    check(f.is_valid() is (not bad), "is_valid()", c, f.is_valid())
    d = tmpdir()
    try:
        with open(d + '/f', 'wb') as fh:
            f.write_raw_frame(fh)
    except ValueError:
        check(bad, "a valid frame was refused", c)
        check(len(open(d + '/f', 'rb').read()) == 0, "part of an invalid frame was written")
    else:
        check(not bad, "an invalid frame was written", c)
    return bad

@part('basic signal', st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True), st.integers(1, 4), st.sampled_from([3, 4, 5, 6, 7]), st.integers(1, 2), st.integers(1, 2*10**9), st.sampled_from([0.0, 0.1])),
      quick=240, thorough=800, rule='several frames')
def c_basic(c):
    beams, n, filt, ntun, start, noise = c
    rate = drx.FILTER_CODES[filt]
    blob = write_read([lambda fh: sndp.basic_signal(fh, beams, n, mode='DRX', filter=filt, ntuning=ntun, start_time=start, noise_strength=noise)])
    check(len(blob) == 4128*n*len(beams)*ntun*2, "file size", len(blob))
    fh = io.BytesIO(blob)
    step = Fraction(4096*FS)/Fraction(rate)
    for i in range(n):
        for b in beams:
            for t in range(1, ntun+1):
                for p in (0, 1):
                    f = drx.read_frame(fh)
                    check(f.id == (b, t, p), "order of the frames", f.id, (b, t, p))
                    check(abs(f.payload.timetag - start*FS - i*step) <= 1, "time tag", f.payload.timetag, i)
                    check(abs(f.sample_rate - rate) < 1, "sample rate", f.sample_rate)
                    s = np.abs(np.fft.fft(f.payload.data))**2
                    k = int(np.argmax(s))
                    fr = np.fft.fftfreq(4096)[k]
                    want = {(1, 0): 0.25, (1, 1): -0.25, (2, 0): -1/3, (2, 1): 1/3}[t, p]
                    check(abs(fr - want) < 0.01, "tone", (t, p), fr)
    try:
        sndp.basic_signal(None, beams, 1, mode='TBN', start_time=1)
    except RuntimeError:
        pass
    else:
        check(False, "an unknown mode was accepted")
    return n > 1

LEAPS = [calendar.timegm((y, m, d, 0, 0, 0))//86400 for y, m, d in ((2005, 12, 31), (2008, 12, 31), (2012, 6, 30), (2015, 6, 30), (2016, 12, 31))]

# --- VDIF -------------------------------------------------------------------------------------------------
@st.composite
def vd(draw):
    bits = draw(st.sampled_from([1, 2, 4, 8]))
    cx = draw(st.booleans())
    fps = draw(st.sampled_from([1, 5, 8, 10, 25, 125, 200, 1000, 25000]))
    nbytes = 8*draw(st.integers(1, 12))
    ns = nbytes*8//bits//(2 if cx else 1)
    # a rate which is a whole number of kHz with whole frames per second
    k = 1000//np.gcd(1000, fps*ns)
    if k > 1:
        fps *= int(k)
    y = draw(st.integers(2000, 2031))
    half = draw(st.integers(0, 1))
    t0 = calendar.timegm((y, 1 + 6*half, 1, 0, 0, 0))
    t1 = calendar.timegm((y + half, 7 - 6*half, 1, 0, 0, 0))
    sec = draw(st.one_of(st.integers(t0, t1-1), st.sampled_from([t0, t0+1, t1-1, t1-2])))
    fr = draw(st.one_of(st.integers(0, fps-1), st.sampled_from([0, fps-1, min(1, fps-1)])))
    return dict(bits=bits, cx=cx, fps=fps, ns=ns, sec=sec, epoch=2*(y-2000) + half, since=sec-t0, frame=fr, stand=draw(st.integers(0, 65535)), seed=draw(st.integers(0, 10**6)),
                tk=draw(st.sampled_from(['pair', 'stamp', 'int', 'float'])), dt=draw(st.sampled_from(['small', 'float', 'int'])))

@part('VDIF', st.lists(vd(), min_size=1, max_size=3), quick=1600, thorough=8000, rule='a frame which is not the first of its second')
def c_vdif(cs):
    for c in cs:
        if c['sec']//86400 in LEAPS:
            raise Reject()      # days with a leap second are stretched in the date library
    ws, exp, nt = [], [], False
    for c in cs:
        r = rng(c['seed'])
        lo, hi = -2**(c['bits']-1), 2**(c['bits']-1)
        fr = c['frame']
        if c['tk'] == 'int' or (c['tk'] == 'float' and c['fps'] > 25000):
            fr = 0
        frac = fr/c['fps']
        t = {'pair': (c['sec'], frac), 'stamp': FrameTimestamp(c['sec'], frac), 'int': c['sec'], 'float': c['sec'] + frac}[c['tk']]
        shape = c['ns']
        if c['cx']:
            re, im = r.integers(lo, hi, shape), r.integers(lo, hi, shape)
            d = (re + 1j*im).astype(np.complex64 if c['dt'] == 'small' else np.complex128)
            flat = np.stack([re, im], axis=1).reshape(-1)
        else:
            flat = r.integers(lo, hi, shape)
            d = flat.astype({'small': np.int8, 'float': np.float64, 'int': np.int32}[c['dt']])
        rate = float(c['fps']*c['ns'])
        f = wvdif.Frame(c['stand'], t, c['bits'], d, sample_rate=rate)
        codes = (flat - lo).astype(np.uint8)
        per = 8//c['bits']
        pay = sum((codes[k::per].astype(int) << (c['bits']*k)) for k in range(per)).astype(np.uint8).tobytes()
        want = F.vdif(seconds=c['since'], frame_in_second=fr, ref_epoch=c['epoch'], version=1, station=c['stand'], bits=c['bits'], is_complex=int(c['cx']), payload=pay)
        raw = f.create_raw_frame().tobytes()
        check(len(raw) == len(want), "frame size", len(raw), len(want))
        check(raw[32:] == want[32:], "payload bytes")
        ws.append(f.write_raw_frame)
        exp.append((c, fr, flat, rate))
    fh = io.BytesIO(write_read(ws))
    for c, fr, flat, rate in exp:
        pos = fh.tell()
        for reader, integer in ((vdif.read_frame, False), (vdif.read_frame_i8, True)):
            fh.seek(pos)
            g = reader(fh)
            h = g.header
            check(h.seconds_from_epoch == c['since'] and h.ref_epoch == c['epoch'], "seconds and epoch", (h.seconds_from_epoch, h.ref_epoch), (c['since'], c['epoch']))
            check(h.frame_in_second == fr, "frame number", h.frame_in_second, fr)
            check(h.station_id == c['stand'] and h.thread_id == 0 and h.nchan == 1, "identity")
            check(h.bits_per_sample == c['bits'] and bool(h.is_complex) == c['cx'] and not h.is_invalid and not h.is_legacy, "format fields")
            check(h.frame_length*8 == fh.tell() - pos, "frame length")
            u = g.extended_user_data
            check(u['sample_rate']*(1e6 if u['sample_rate_units'] == 'MHz' else 1e3) == rate, "sample rate", u, rate)
            t = g.time
            err = (t.astropy - AstroTime(c['sec'], fr/c['fps'], format='unix', scale='utc')).sec
            check(abs(err) < 2e-9 + 1e-11, "time of the frame", t, c['sec'], fr/c['fps'], err)
            lv = F.vdif_levels(c['bits'], integer)[flat + 2**(c['bits']-1)]
            if c['cx']:
                z = g.payload.data
                got = np.stack([z['re'], z['im']] if z.dtype.names else [z.real, z.imag], axis=-1).reshape(-1)
            else:
                got = g.payload.data.reshape(-1)
            close(np.asarray(got, dtype=float), lv, 1e-6, 1e-7, "samples")
        nt = nt or fr > 0
    return nt

@part('VDIF file', st.tuples(st.integers(1, 40), st.integers(0, 39), st.integers(0, 200), st.integers(1, 3), st.sampled_from([1, 2, 4, 8]), st.booleans(), st.integers(0, 10**6)), quick=400, thorough=1500,
      rule='the file starts within a second')
def c_vfile(c):
    fps, start, extra, nth, bits, cx, seed = c
    start %= fps
    n = (fps - start) + fps + extra
    nb = 32
    ns = nb*8//bits//(2 if cx else 1)
    r = rng(seed)
    blob = b''
    for i in range(n):
        k = start + i
        for th in range(nth):
            blob += F.vdif(seconds=1000 + k//fps, frame_in_second=k % fps, ref_epoch=30, version=1, station=5, thread=th, bits=bits, is_complex=int(cx), payload=r.bytes(nb), ext=(1 << 24, 0, 0, 0))
    fh = io.BytesIO(blob)
    check(vdif.get_frame_size(fh) == 32 + nb, "frame size")
    check(vdif.get_thread_count(fh) == nth, "thread count", vdif.get_thread_count(fh), nth)
    if start < fps - 1:
        check(vdif.get_frames_per_second(fh) == fps, "frames per second", vdif.get_frames_per_second(fh), fps)
        check(vdif.get_sample_rate(fh) == float(fps*ns), "sample rate", vdif.get_sample_rate(fh), fps*ns)
    check(fh.tell() == 0, "file position changed")
    return start > 0 and fps > 2

@part('extended user data', st.tuples(st.sampled_from([0, 1, 2, 3, 4, 0x20]), st.lists(st.integers(0, 2**32-1), min_size=4, max_size=4), st.booleans()), quick=1200, thorough=5000, rule='a version which carries fields')
def c_eud(c):
    edv, w, legacy = c
    w = list(w)
    w[0] = (w[0] & 0xFFFFFF) | (edv << 24)
    raw = F.vdif(seconds=5, ref_epoch=30, legacy=int(legacy), bits=8, payload=bytes(16), ext=w)
    f = vdif.read_frame(io.BytesIO(raw))
    if legacy:
        check(f.extended_user_data == {}, "legacy frames carry no extended data", f.extended_user_data)
        return False
    if edv not in (0, 1, 2, 3):
        try:
            f.extended_user_data
        except RuntimeError:
            return True
        check(False, "an unknown version was parsed")
    want = {}
    rate = dict(sample_rate=w[0] & 0x7FFFFF, sample_rate_units='MHz' if w[0] & 0x800000 else 'kHz', sync_pattern=w[1])
    if edv == 1:
        want = dict(rate, station_name=w[2] | (w[3] << 32))
    elif edv == 2:
        want = dict(sync_word=w[0] & 0xFFFF, pic_status_word=w[1], packet_serial_number=w[2] | (w[3] << 32))
    elif edv == 3:
        want = dict(rate, tuning_word=w[2], dbe_unit=(w[3] >> 24) & 15, if_input_number=(w[3] >> 20) & 15, subband=(w[3] >> 17) & 7,
                    electronic_sideband='USB' if (w[3] >> 16) & 1 else 'LSB', version='%i.%i-%02i' % ((w[3] >> 12) & 15, (w[3] >> 8) & 15, w[3] & 255))
    check(f.extended_user_data == want, "extended user data", f.extended_user_data, want)
    return edv > 0

@part('bit depth', st.integers(-4, 40), quick=160, thorough=100, rule='an unsupported depth')
def c_depth(b):
    try:
        wvdif.Frame(1, 1.4e9, b, np.zeros(1024, np.int8), sample_rate=1.024e6)
    except ValueError:
        check(b not in (1, 2, 4, 8), "a valid bit depth was refused")
        return True
    check(b in (1, 2, 4, 8), "an unsupported bit depth was accepted", b)
