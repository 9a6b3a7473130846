"""C01: every raw frame decodes to exactly what its bytes encode."""
import io, warnings
import numpy as np
from vlib.core import *
from vlib import formats as F
from hypothesis import strategies as st
from lsl.reader import drx, drx8, tbx, cor, drspec, vdif
from lsl.reader.errors import EOFError as LEOF, SyncError

u = lambda n: st.one_of(st.integers(0, 2**n-1), st.sampled_from([0, 1, 2**n-1, 2**(n-1), 2**(n-1)-1]))
seeds = st.integers(0, 2**32-1)
TT = st.one_of(st.integers(0, 2**62), st.integers(196000000*1500000000, 196000000*1800000000))

hdr_drx = st.fixed_dictionaries(dict(frame_count=u(24), beam=st.integers(0, 7), tune=st.integers(0, 7), pol=st.integers(0, 1),
                                     second_count=u(32), decimation=st.one_of(st.sampled_from([784, 392, 196, 98, 40, 20, 10]), st.integers(1, 65535)),
                                     time_offset=u(16), timetag=TT, tuning_word=u(32), flags=u(32)))

def exact_time(frame, timetag, offset):
    """Whole and fractional seconds since 1970 from the clock count, in integer arithmetic."""
    got = frame.time
    tt = timetag - offset
    if tt // F.FS < 63158400 or tt // F.FS > 4_000_000_000:   # before 1972 a UTC second is not an SI second
        return                      # outside of what the date library covers
    check(got.dp_timetag == tt, "time of the frame is %s ticks, not %s", got.dp_timetag, tt)

def check_iq(data, re, im, ci8):
    if ci8:
        check(data.dtype.names == ('re', 'im'), "integer data has dtype %s", data.dtype)
        check(data.shape == re.shape, "shape %s, expected %s", data.shape, re.shape)
        check((data['re'] == re).all() and (data['im'] == im).all(), "decoded integer samples differ from the encoded ones")
    else:
        check(data.dtype == np.complex64, "dtype %s", data.dtype)
        check(data.shape == re.shape, "shape %s, expected %s", data.shape, re.shape)
        check((data.real == re).all() and (data.imag == im).all(), "decoded samples differ from the encoded ones")

def samples(g, shape, bits, edge):
    lo, hi = -(1 << (bits-1)), (1 << (bits-1))-1
    if edge:
        return g.choice([lo, lo+1, -1, 0, 1, hi], size=shape), g.choice([lo, lo+1, -1, 0, 1, hi], size=shape)
    return g.integers(lo, hi+1, size=shape), g.integers(lo, hi+1, size=shape)

def run_drx(case, mod, is8):
    frames, seed, pre = case
    g = rng(seed)
    raw, want = [], []
    for i, h in enumerate(frames):
        re, im = samples(g, 4096, 8 if is8 else 4, i % 2)
        raw.append(F.drx(re=re, im=im, drx8=is8, **h))
        want.append((re, im))
    size = len(raw[0])
    check(mod.FRAME_SIZE == size, "frame size constant %s", mod.FRAME_SIZE)
    for reader, ci8 in ((mod.read_frame, False), (mod.read_frame_ci8, True)):
        fh = io.BytesIO(b'\xaa'*pre + b''.join(raw))
        fh.seek(pre)
        for i, h in enumerate(frames):
            f = reader(fh)
            check(fh.tell() == pre + (i+1)*size, "reader consumed %s bytes", fh.tell()-pre)
            hd, pl = f.header, f.payload
            ident = h['beam'] | (h['tune'] << 3) | (0x40 if is8 else 0) | (h['pol'] << 7)
            check(hd.frame_count == h['frame_count'] and hd.drx_id == ident and hd.second_count == h['second_count']
                  and hd.decimation == h['decimation'] and hd.time_offset == h['time_offset'], "header %s", hd)
            check(pl.timetag == h['timetag'] and pl.tuning_word == h['tuning_word'] and pl.flags == h['flags'], "payload header %s", pl)
            check(tuple(f.id) == (h['beam'], h['tune'], h['pol']), "id %s", f.id)
            check((f.is_drx8 if is8 else f.is_drx) is True or (f.is_drx8 if is8 else f.is_drx) == True, "format flag")
            check(abs(f.central_freq - h['tuning_word']*F.FS/2**32) < 1e-6, "central frequency %s", f.central_freq)
            check(abs(f.sample_rate - F.FS/h['decimation']) < 1e-6, "sample rate %s", f.sample_rate)
            codes = {784: 1, 392: 2, 196: 3, 98: 4, 40: 5, 20: 6, 10: 7}
            if h['decimation'] in codes:
                check(f.filter_code == codes[h['decimation']], "filter code %s", f.filter_code)
            check_iq(pl.data, *want[i], ci8)
            exact_time(f, h['timetag'], h['time_offset'])
        try:
            reader(fh)
        except LEOF:
            pass
        else:
            raise AssertionError("no end of file after the last frame")
    # what is read of the file as a whole leaves the position alone
    fh = io.BytesIO(b''.join(raw))
    check(abs(mod.get_sample_rate(fh) - F.FS/frames[0]['decimation']) < 1e-6, "get_sample_rate")
    check(fh.tell() == 0, "get_sample_rate moved the file")
    return len(frames) >= 1

drx_case = st.tuples(st.lists(hdr_drx, min_size=1, max_size=3), seeds, st.integers(0, 40))

@part('drx', drx_case, quick=1500, thorough=8000, rule='any frame with generated header fields and 4096 samples over all 256 byte codes')
def c_drx(case):
    return run_drx(case, drx, False)

@part('drx8', drx_case, quick=1500, thorough=8000, rule='as drx with 8+8 bit samples')
def c_drx8(case):
    return run_drx(case, drx8, True)

# every byte code in one frame, exhaustively
@part('drx_codes', st.just(0), quick=1, thorough=1, rule='all 256 sample codes of the 4+4 bit format and all 65536 of the 8+8 bit format')
def c_codes(_):
    b = np.arange(256)
    re = ((b >> 4) ^ 8) - 8
    im = ((b & 15) ^ 8) - 8
    f = drx.read_frame(io.BytesIO(F.drx(re=np.tile(re, 16), im=np.tile(im, 16), timetag=F.FS)))
    check_iq(f.payload.data, np.tile(re, 16), np.tile(im, 16), False)
    v = np.arange(-128, 128)
    for k in range(16):
        r = np.repeat(v[k*16:(k+1)*16], 256)
        i = np.tile(v, 16)
        for rd, c in ((drx8.read_frame, False), (drx8.read_frame_ci8, True)):
            f = rd(io.BytesIO(F.drx(re=r, im=i, timetag=F.FS, drx8=True)))
            check_iq(f.payload.data, r, i, c)
    return True

beamfile = st.tuples(st.lists(st.tuples(st.integers(1, 4), st.integers(1, 2), st.integers(0, 1)), min_size=32, max_size=34), st.booleans())

@part('drx_census', beamfile, quick=60, thorough=1500, rule='32 or more frames of several beams, tunings and polarizations')
def c_census(case):
    ids, is8 = case
    mod = drx8 if is8 else drx
    fh = io.BytesIO(b''.join(F.drx(beam=b, tune=t, pol=p, re=0, im=0, drx8=is8, timetag=F.FS) for b, t, p in ids))
    fh.seek(0)
    check(mod.get_beam_count(fh) == len({b for b, t, p in ids[:32]}), "beam count")
    per = tuple(len({i for i in ids[:32] if i[0] == b}) for b in (1, 2, 3, 4))
    check(tuple(mod.get_frames_per_obs(fh)) == per, "frames per observation %s, expected %s", mod.get_frames_per_obs(fh), per)
    check(fh.tell() == 0, "the census moved the file")
    return len(set(ids)) > 1

# ---- TBX
hdr_tbx = st.fixed_dictionaries(dict(frame_count=u(24), second_count=u(32), first_chan=st.integers(0, 4095),
                                     frame_id=st.sampled_from([8, 8, 8, 1]), timetag=TT))
geom = st.tuples(st.sampled_from([64, 128, 256]), st.sampled_from([4, 8, 12, 16]))

@part('tbx', st.tuples(st.lists(st.tuples(geom, st.lists(hdr_tbx, min_size=1, max_size=3)), min_size=1, max_size=3), seeds),
      quick=1200, thorough=6000, rule='one or more files in turn, of any supported stand and channel count')
def c_tbx(case):
    files, seed = case
    g = rng(seed)
    for (ns, nc), frames in files:
        raw, want = [], []
        for i, h in enumerate(frames):
            re, im = samples(g, (nc, ns, 2), 4, i % 2)
            raw.append(F.tbx(nstand=ns, nchan=nc, re=re, im=im, **h))
            want.append((re, im))
        for reader, ci8 in ((tbx.read_frame, False), (tbx.read_frame_ci8, True)):
            fh = io.BytesIO(b''.join(raw))
            for i, h in enumerate(frames):
                f = reader(fh)
                check(fh.tell() == (i+1)*len(raw[0]), "reader consumed %s bytes of %s", fh.tell(), (i+1)*len(raw[0]))
                hd = f.header
                check(hd.frame_count == h['frame_count'] and hd.second_count == h['second_count'] and hd.first_chan == h['first_chan']
                      and hd.frame_id == h['frame_id'] and hd.nstand == ns and hd.nchan == nc and f.nstand == ns and f.nchan == nc, "header %s", hd)
                check(bool(f.is_tbx) == (h['frame_id'] == 8), "is_tbx")
                check(f.payload.timetag == h['timetag'], "timetag %s", f.payload.timetag)
                re, im = want[i]
                d = f.payload.data
                check_iq(d, re, im, ci8)
                close(f.channel_freqs, (np.arange(nc)+h['first_chan'])*CHW, rtol=1e-6, msg='channel frequencies')
                exact_time(f, h['timetag'], 0)
            try:
                reader(fh)
            except LEOF:
                pass
            else:
                raise AssertionError("no end of file after the last frame")
        if all(h['frame_id'] == 8 for h in frames):
            fh = io.BytesIO(b''.join(raw))
            chans = sorted({h['first_chan'] for h in frames})
            check(tbx.get_frame_size(fh) == len(raw[0]), "frame size")
            check(tbx.get_frames_per_obs(fh) == len(chans), "frames per observation")
            check(tbx.get_channel_count(fh) == len(chans)*nc, "channel count")
            check(tbx.get_first_channel(fh) == chans[0], "first channel")
            check(list(tbx.get_first_channel(fh, all_frames=True)) == chans, "first channels")
            close(tbx.get_first_channel(fh, frequency=True), chans[0]*CHW, rtol=1e-6, msg='first frequency')
            check(fh.tell() == 0, "the census moved the file")
    return len(files) > 1 or files[0][0] != (256, 16)

from lsl.common import ndp as _ndp
CHW = 196e6/8192

# ---- COR
hdr_cor = st.fixed_dictionaries(dict(frame_count=u(24), adp_id=st.sampled_from([2, 6, 2, 1]), second_count=u(32), first_chan=st.integers(0, 32767),
                                     gain=st.integers(0, 32767), timetag=TT, navg=st.integers(0, 2**31-1), stand0=st.integers(1, 256), stand1=st.integers(1, 256)))

@part('cor', st.tuples(st.sampled_from([33, 72, 112, 192]), st.lists(hdr_cor, min_size=1, max_size=3), st.booleans(), seeds),
      quick=900, thorough=5000, rule='a stream of same-sized frames, auto- and cross-correlations')
def c_cor(case):
    nc, frames, auto, seed = case
    g = rng(seed)
    try:                                  # forget the channel count of an earlier file
        cor.read_frame(io.BytesIO(b'\0'*8192))
    except SyncError:
        pass
    n = max(len(frames), -(-6176//(32+nc*32)) + 1)
    raw, want = [], []
    for i in range(n):
        h = dict(frames[i % len(frames)])
        if auto and i % 2 == 0:
            h['stand1'] = h['stand0']
        v = (g.standard_normal((nc, 2, 2)) + 1j*g.standard_normal((nc, 2, 2))).astype(np.complex64)
        raw.append(F.cor(vis=v, **h))
        if h['stand0'] == h['stand1']:
            v = v.copy()
            v[:, 1, 0] = v[:, 0, 1].conj()
        want.append((h, v))
    fh = io.BytesIO(b''.join(raw))
    for i, (h, v) in enumerate(want):
        f = cor.read_frame(fh)
        check(fh.tell() == (i+1)*len(raw[0]), "reader consumed %s bytes of %s", fh.tell(), (i+1)*len(raw[0]))
        hd, pl = f.header, f.payload
        check(hd.frame_count == h['frame_count'] and hd.adp_id == h['adp_id'] and hd.second_count == h['second_count']
              and hd.first_chan == h['first_chan'] and hd.gain == h['gain'], "header %s", hd)
        check(pl.timetag == h['timetag'] and pl.navg == h['navg'] and pl.stand0 == h['stand0'] and pl.stand1 == h['stand1'], "payload header %s", pl)
        check(tuple(f.id) == (h['stand0'], h['stand1']), "id")
        check(bool(f.is_cor) == (h['adp_id'] in (2, 6)), "is_cor")
        check(pl.data.shape == v.shape and (pl.data == v).all(), "visibilities differ from those encoded")
        close(f.integration_time, h['navg']*_ndp.T2, rtol=1e-12, msg='integration time')
        close(f.channel_freqs, (np.arange(nc)+h['first_chan'])*CHW, rtol=1e-6, msg='channel frequencies')
        exact_time(f, h['timetag'], 0)
    fh.seek(0)
    if want[0][0]['adp_id'] in (2, 6):
        check(cor.get_frame_size(fh) == len(raw[0]), "frame size")
    check(cor.get_channel_count(fh) == nc*len({h['first_chan'] for h, v in want[:64]}), "channel count %s", cor.get_channel_count(fh))
    check(fh.tell() == 0, "the census moved the file")
    return True

# ---- DR spectrometer
spec_case = st.fixed_dictionaries(dict(
    fmt=st.sampled_from(sorted(F.DRSPEC_FORMATS)), nfreq=st.sampled_from([1, 2, 16, 32, 64, 256, 1024]),
    hdrs=st.lists(st.fixed_dictionaries(dict(
        timetag=TT, time_offset=u(16), decimation=st.sampled_from([784, 392, 196, 98, 40, 20, 10]),
        tuning_words=st.tuples(u(32), u(32)), fills=st.tuples(*[st.integers(1, 2**20)]*4), errors=st.tuples(*[u(8)]*4),
        beam=u(8), flags=u(8), nint=st.integers(1, 2**20), sats=st.tuples(*[u(32)]*4))), min_size=1, max_size=3),
    seed=seeds))

@part('drspec', spec_case, quick=2000, thorough=8000, rule='spectrometer frames of all 13 data formats with unequal fills')
def c_spec(c):
    g = rng(c['seed'])
    prods = F.DRSPEC_FORMATS[c['fmt']]
    nf = c['nfreq']
    raw, want = [], []
    for h in c['hdrs']:
        d = (g.standard_normal((2, nf, len(prods)))*10.0**g.integers(-3, 6)).astype(np.float32)
        raw.append(F.drspec(fmt=c['fmt'], nfreq=nf, data=d, **h))
        want.append(d)
    fh = io.BytesIO(b''.join(raw))
    for i, h in enumerate(c['hdrs']):
        f = drspec.read_frame(fh)
        check(fh.tell() == (i+1)*len(raw[0]), "reader consumed %s bytes", fh.tell())
        hd, pl = f.header, f.payload
        check(hd.beam == h['beam'] and hd.format == c['fmt'] and hd.decimation == h['decimation'] and hd.time_offset == h['time_offset']
              and hd.nints == h['nint'], "header %s", hd)
        check(pl.timetag == h['timetag'] and tuple(pl.tuning_words) == h['tuning_words'] and tuple(pl.fills) == h['fills']
              and tuple(pl.errors) == h['errors'] and tuple(pl.saturations) == h['sats'], "payload header %s", pl)
        check(tuple(f.data_products) == prods, "data products %s", f.data_products)
        check(bool(f.is_linear) == (c['fmt'] < 16) and bool(f.is_stokes) == (c['fmt'] >= 16), "linear/stokes")
        check(f.transform_size == nf and f.ffts_per_integration == h['nint'], "sizes")
        close(f.integration_time, h['nint']*nf*h['decimation']/F.FS, rtol=1e-12, msg='integration time')
        close(f.central_freq, [w*F.FS/2**32 for w in h['tuning_words']], rtol=1e-12, msg='central frequencies')
        for t in (0, 1):
            for k, p in enumerate(prods):
                got = getattr(pl, f'{p}{t}')
                close(got, want[i][t, :, k].astype(np.float64)/F.drspec_norm(p, t, nf, h['fills']), rtol=1e-6, msg=f'{p}{t}')
            for p in ('XX', 'XY_real', 'XY_imag', 'YY', 'I', 'Q', 'U', 'V'):
                check(p in prods or getattr(pl, f'{p}{t}', None) is None, "unexpected product %s", p)
        exact_time(f, h['timetag'], h['time_offset'])
    try:
        drspec.read_frame(fh)
    except LEOF:
        pass
    else:
        raise AssertionError("no end of file after the last frame")
    fh.seek(0)
    h = c['hdrs'][0]
    check(drspec.get_frame_size(fh) == len(raw[0]), 'frame size')
    check(list(drspec.get_data_products(fh)) == list(prods), 'products')
    check(drspec.get_transform_size(fh) == nf and drspec.get_ffts_per_integration(fh) == h['nint'], 'sizes')
    close(drspec.get_sample_rate(fh), F.FS/h['decimation'], msg='sample rate')
    check(bool(drspec.is_linear(fh)) == (c['fmt'] < 16) and bool(drspec.is_stokes(fh)) == (c['fmt'] >= 16), "linear/stokes")
    check(fh.tell() == 0, "the census moved the file")
    return len(set(h['fills'])) > 1

# ---- VDIF
vd = st.fixed_dictionaries(dict(
    bits=st.sampled_from([1, 2, 4, 8]), is_complex=st.integers(0, 1), lc=st.integers(0, 3), words=st.integers(1, 12), seed=seeds,
    hdrs=st.lists(st.fixed_dictionaries(dict(seconds=u(30), legacy=st.integers(0, 1), invalid=st.integers(0, 1), frame_in_second=u(24), ref_epoch=st.integers(0, 49),
        version=u(3), station=u(16), thread=u(10), ext=st.tuples(*[u(32)]*4))), min_size=1, max_size=3),
    fps=st.sampled_from([1, 5, 100, 1000, 25600]), sr=st.sampled_from([0.0, 1e6, 19.6e6]), cf=st.sampled_from([0.0, 40e6])))

@part('vdif', vd, quick=3000, thorough=10000, rule='real and complex 1, 2, 4 and 8 bit data of 1 to 8 channels')
def c_vdif(c):
    g = rng(c['seed'])
    nch = 1 << c['lc']
    size = 64*c['words']
    raw, pay = [], []
    for h in c['hdrs']:
        p = g.integers(0, 256, size, dtype=np.uint8).tobytes()
        raw.append(F.vdif(bits=c['bits'], is_complex=c['is_complex'], nchan_log2=c['lc'], payload=p, **h))
        pay.append(p)
    for reader, integer in ((vdif.read_frame, False), (vdif.read_frame_i8, True)):
        fh = io.BytesIO(b''.join(raw))
        pos = 0
        for i, h in enumerate(c['hdrs']):
            f = reader(fh, sample_rate=c['sr'], central_freq=c['cf'])
            pos += len(raw[i])
            check(fh.tell() == pos, "reader consumed %s bytes, not %s", fh.tell(), pos)
            hd = f.header
            check(hd.seconds_from_epoch == h['seconds'] and hd.is_legacy == h['legacy'] and hd.is_invalid == h['invalid']
                  and hd.frame_in_second == h['frame_in_second'] and hd.ref_epoch == h['ref_epoch'] and hd.nchan == nch
                  and hd.frame_length*8 == len(raw[i]) and hd.version == h['version'] and hd.station_id == h['station']
                  and hd.thread_id == h['thread'] and hd.bits_per_sample == c['bits'] and hd.is_complex == c['is_complex'], "header %s", hd)
            check(tuple(f.id) == (h['station'], h['thread']), "id")
            ext = h['ext'] if not h['legacy'] else (0, 0, 0, 0)
            check((hd.extended_data_1, hd.extended_data_2, hd.extended_data_3, hd.extended_data_4) == ext, "extended data")
            check(f.sample_rate == c['sr'] and f.central_freq == c['cf'], "rates")
            v = F.vdif_levels(c['bits'], integer)[F.vdif_codes(pay[i], c['bits'])]
            if c['is_complex']:
                v = v[0::2] + 1j*v[1::2]
            if nch > 1:
                v = v.reshape(-1, nch).T
            d = f.payload.data
            if c['is_complex']:
                check(d.dtype == np.complex64, "dtype %s", d.dtype)
            else:
                check(d.dtype == (np.int8 if integer else np.float32), "dtype %s", d.dtype)
            close(d, v, rtol=2e-6, atol=1e-7, msg='samples')
    check(vdif.get_frame_size(io.BytesIO(raw[0])) == len(raw[0]), "frame size")
    # time within the second, from the sample rate given or the one in the extended data
    h = c['hdrs'][0]
    ns = size*8//c['bits']//nch//(2 if c['is_complex'] else 1)
    for fps, given in ((c['fps'], True), (1000, False)):
        if not given and (h['legacy'] or ns >= 2**23):
            continue
        t = []
        for k in (0, h['frame_in_second'] % fps):
            w = list(h['ext'])
            if not given:
                w[0] = (1 + 2*(w[0] & 1)) << 24 | ns
            b = F.vdif(bits=c['bits'], is_complex=c['is_complex'], nchan_log2=c['lc'], payload=pay[0], **dict(h, frame_in_second=k, ext=tuple(w), seconds=h['seconds'] % 40000000))
            t.append(vdif.read_frame(io.BytesIO(b), sample_rate=float(ns*fps) if given else 0.0).time)
        close(t[1] - t[0], (h['frame_in_second'] % fps)/fps, rtol=0, atol=3e-9, msg=f'time of frame {h["frame_in_second"] % fps} of {fps} in the second')
    return True

@part('vdif extended', st.tuples(st.sampled_from([0, 1, 2, 3]), st.tuples(*[u(32)]*4)), quick=500, thorough=3000, rule='a version which carries fields')
def c_vdif_ext(c):
    edv, w = c
    w = [(w[0] & 0xFFFFFF) | (edv << 24)] + list(w[1:])
    f = vdif.read_frame(io.BytesIO(F.vdif(seconds=5, ref_epoch=30, bits=8, payload=bytes(16), ext=w)))
    want = {}
    rate = dict(sample_rate=w[0] & 0x7FFFFF, sample_rate_units='MHz' if w[0] & 0x800000 else 'kHz', sync_pattern=w[1])
    if edv == 1:
        want = dict(rate, station_name=w[2] | (w[3] << 32))
    elif edv == 2:
        want = dict(sync_word=w[0] & 0xFFFF, pic_status_word=w[1], packet_serial_number=w[2] | (w[3] << 32))
    elif edv == 3:
        want = dict(rate, tuning_word=w[2], dbe_unit=(w[3] >> 24) & 15, if_input_number=(w[3] >> 20) & 15, subband=(w[3] >> 17) & 7,
                    electronic_sideband='USB' if (w[3] >> 16) & 1 else 'LSB', version='%i.%i-%02i' % ((w[3] >> 12) & 15, (w[3] >> 8) & 15, w[3] & 255))
    check(f.extended_user_data == want, "extended user data %s, not %s", f.extended_user_data, want)
    return edv > 0

@known('C01-COR-CHANNELS')
def k_cor():
    """A COR file with more channels per frame than the one read before it: its first frame is misread."""
    g = rng(1)
    def stream(nc):
        v = (g.standard_normal((4, nc, 2, 2))).astype(np.complex64)
        return v, io.BytesIO(b''.join(F.cor(vis=x, stand0=1, stand1=2, timetag=F.FS*10**9) for x in v)*6)
    try:
        cor.read_frame(io.BytesIO(b'\0'*8192))
    except SyncError:
        pass
    v, fh = stream(72)
    cor.read_frame(fh)
    v, fh = stream(192)
    f = cor.read_frame(fh)
    return f.payload.data.shape[0] != 192
