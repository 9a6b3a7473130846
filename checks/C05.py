"""C05: the file objects return each sample of a capture once, in order, at its time, whatever the chunking."""
import os
import numpy as np
from vlib.core import *
from vlib import formats as F
from hypothesis import strategies as st
from lsl.reader import ldp, errors, drx, tbx
from lsl.reader.base import FrameTimestamp

T0 = 196000000*1600000000 + 4096*1234
FS = F.FS
seeds = st.integers(0, 2**32-1)

def ticks(t):
    return t.dp_timetag if isinstance(t, FrameTimestamp) else t

class Done(Exception):
    pass

op = st.one_of(
    st.tuples(st.just('read'), st.integers(1, 12), st.booleans(), st.floats(-0.45, 0.45)),
    st.tuples(st.just('read'), st.integers(1, 40), st.booleans(), st.just(0.0)),
    st.tuples(st.just('offset'), st.integers(-10, 30), st.just(False), st.floats(0, 0.99)),
    st.tuples(st.just('reset'), st.integers(0, 3), st.just(False), st.just(0.0)))

def clean(d):
    return dict(d, lost=[], gap=None, shuffle=None)

drx_case = st.fixed_dictionaries(dict(
    is8=st.booleans(), beam=st.integers(1, 4), tunes=st.sampled_from([[1, 2], [1, 2], [1], [2]]), pols=st.sampled_from([[0, 1], [0, 1], [0], [1]]),
    dec=st.sampled_from([10, 20, 40, 98, 196, 392, 784]), toff=st.sampled_from([0, 0, 5, 65535]), nset=st.one_of(st.integers(34, 70), st.integers(70, 140)),
    lost=st.lists(st.tuples(st.integers(1, 69), st.integers(0, 3)), max_size=6),
    gap=st.one_of(st.none(), st.tuples(st.integers(2, 60), st.sampled_from([1, 2, 5, 30, 49, 50, 60, 400]))),
    shuffle=st.one_of(st.none(), seeds), prefix=st.sampled_from([0, 0, 1, 17]), tail=st.sampled_from([0, 0, 1, 4000]), ci8=st.booleans(),
    ops=st.lists(op, min_size=1, max_size=7), seed=seeds))
drx_case = st.one_of(drx_case, drx_case.map(clean))

def make_drx(c):
    """The file and the model: raw bytes, (4, nslot*4096) integer pairs, slot count."""
    g = rng(c['seed'])
    bits = 8 if c['is8'] else 4
    lim = (1 << (bits-1)) - 1
    pat = g.integers(-lim, lim+1, (2, 4096))
    ids = [(t, p) for t in c['tunes'] for p in c['pols']]
    step = 4096*c['dec']
    gap = c['gap']
    nslot = c['nset'] + (gap[1] if gap and gap[0] < c['nset'] else 0)
    model = np.zeros((4, nslot*4096, 2), np.int16)
    lost = {(s, i % len(ids)) for s, i in c['lost']}
    frames = []
    for s in range(c['nset']):
        slot = s + (gap[1] if gap and s >= gap[0] else 0)
        have = [i for i in range(len(ids)) if (s, i) not in lost]
        if not have:                       # a lost time is a gap, which has its own field
            have = [0]
        for i in have:
            t, p = ids[i]
            re, im = np.roll(pat, 7*slot + 1 + 3*i, axis=1)
            re = re.copy(); re[0] = lim; im = im.copy(); im[0] = -lim
            frames.append(F.drx(frame_count=0, beam=c['beam'], tune=t, pol=p, decimation=c['dec'], time_offset=c['toff'], second_count=0,
                                timetag=T0 + slot*step, tuning_word=2**30 + t, re=re, im=im, drx8=c['is8']))
            model[2*(t-1)+p, slot*4096:(slot+1)*4096, 0] = re
            model[2*(t-1)+p, slot*4096:(slot+1)*4096, 1] = im
    if c['shuffle'] is not None:
        # frames arrive up to a few places late, after the first times
        g2 = rng(c['shuffle'])
        n0 = 2*len(ids)
        key = [k if k < n0 else k + g2.uniform(0, 3*len(ids)) for k in range(len(frames))]
        frames = [frames[k] for k in np.argsort(key, kind='stable')]
    return b'\xaa'*c['prefix'] + b''.join(frames) + b'\xde\xc0\xde\x5c'[:c['tail']] + b'\0'*max(c['tail']-4, 0), model, nslot, step, len(frames)

def same(data, want, ci8, msg):
    if ci8:
        ok = (data['re'] == want[..., 0]) & (data['im'] == want[..., 1])
    else:
        ok = (data.real == want[..., 0]) & (data.imag == want[..., 1])
    if not ok.all():
        i = np.unravel_index(np.argmin(ok), ok.shape)
        raise AssertionError(f"{msg}: {(~ok).sum()} of {ok.size} samples differ, first at {tuple(int(v) for v in i)}: got {data[i]!r}, expected {want[i]}")

@part('drx', drx_case, quick=2000, thorough=20000, shards=8, seconds=60, rule='a capture with missing or late frames or a gap, read in two or more calls')
def c_drx(c):
    raw, model, nslot, step, nframes = make_drx(c)
    fn = os.path.join(tmpdir(), 'f.dat')
    with open(fn, 'wb') as fh:
        fh.write(raw)
    cls = ldp.DRX8File if c['is8'] else ldp.DRXFile
    gap = c['gap'] if c['gap'] and c['gap'][0] < c['nset'] else None
    srate = FS/c['dec']
    per = 4096/srate
    with cls(fn) as f:
        check(f.get_info('sample_rate') == srate and f.sample_rate == srate, "sample rate %s", f.get_info('sample_rate'))
        check(f.get_info('nframe') == nframes, "frame count %s, expected %s", f.get_info('nframe'), nframes)
        check(f.get_info('beam') == c['beam'] and f.get_info('nbeampol') == len(c['tunes'])*len(c['pols']), "beam")
        check(f.get_info('start_time_samples') == T0 - c['toff'] and f.get_info('start_time').dp_timetag == T0 - c['toff'], "start time")
        check(f.get_info('data_bits') == (8 if c['is8'] else 4), "bits")
        for t, k in ((1, 'freq1'), (2, 'freq2')):
            w = (2**30+t)*FS/2**32 if t in c['tunes'] else 0.0
            check(abs(f.get_info(k) - w) < 1e-6, "%s", k)
        pos, reads = 0, 0
        try:
            for o, n, flag, extra in list(c['ops']) + [('read', 10, False, 0.0)]*40:
                if o == 'reset' and n == 0:
                    f.reset()
                    pos = 0
                    continue
                if o == 'reset':
                    continue
                if o == 'offset':
                    # only in a file without holes, and well inside of it
                    if gap or c['lost'] or c['shuffle'] is not None or not (1 <= pos + n <= nslot - 12):
                        continue
                    want = (n + extra)*per
                    # the search looks at 32 frames from where the file stands (reads run ahead) and from where it goes to
                    nid = len(c['tunes'])*len(c['pols'])
                    room = min((len(raw) - c['tail'] - f.fh.tell())//f.get_info('frame_size') - max(n+1, 0)*nid, (nslot - pos - n - 3)*nid)
                    try:
                        got = f.offset(want)
                    except errors.EOFError:
                        check(room < 32, "offset by %s frames at %s of %s met the end of the file", n, pos, nslot)
                        raise Done()
                    check(abs(got - want) < 2.001*per, "offset of %s s went %s s, a frame is %s s", want, got, per)
                    k = round(got/per)
                    check(abs(got - k*per) < 1e-6*per + 1e-9, "offset %s s is no whole number of frames", got)
                    pos += k
                    label('offset')
                    continue
                dur = (n + extra)*per
                try:
                    d, t, data = f.read(dur, time_in_samples=flag, return_ci8=c['ci8'])
                except errors.EOFError:
                    check(pos == nslot, "end of file after %s of %s frames", pos, nslot)
                    label('end')
                    break
                except RuntimeError as e:
                    # a gap that cannot be filled: too long, or too near to the end
                    if not gap or 'timetag' not in str(e):
                        raise
                    check(gap[1] >= 50 or c['nset'] - gap[0] <= 24, "a gap of %s frames at %s of %s is refused: %s", gap[1], gap[0], c['nset'], e)
                    label('gap refused')
                    raise Done()
                k = round(d/per)
                check(abs(d - k*per) < 1e-9, "duration %s", d)
                want_n = max(1, int(round(n+extra)))
                check(data.shape == (4, want_n*4096), "shape %s", data.shape)
                check(0 < k <= want_n and (k == want_n or pos + k == nslot), "%s frames returned of %s asked at %s of %s", k, want_n, pos, nslot)
                check(ticks(t) == T0 + pos*step - c['toff'], "time of the first sample is %s ticks off (at frame %s)", ticks(t) - (T0 + pos*step - c['toff']), pos)
                same(data[:, :k*4096], model[:, pos*4096:(pos+k)*4096], c['ci8'], f"frames {pos} to {pos+k}")
                check(not (data[:, k*4096:].view(np.uint8)).any(), "data behind the end")
                if gap and pos <= gap[0] < pos+k:
                    check(gap[1] < 50, "a gap of %s frames was filled", gap[1])
                    label('gap filled')
                pos += k
                reads += 1
        except Done:
            pass
    return reads >= 2

tbx_case = st.fixed_dictionaries(dict(
    ns=st.sampled_from([64, 64, 128]), nc=st.sampled_from([4, 4, 8]), nblk=st.integers(1, 4), c0=st.integers(0, 3000), nset=st.integers(20, 70), step=st.sampled_from([8192, 8192, 7840]),
    lost=st.lists(st.tuples(st.integers(1, 69), st.integers(0, 3)), max_size=5),
    gap=st.one_of(st.none(), st.tuples(st.integers(2, 60), st.sampled_from([1, 2, 10, 24, 25, 40]))),
    shuffle=st.one_of(st.none(), seeds), ci8=st.booleans(), tail=st.sampled_from([0, 0, 100]),
    ops=st.lists(op, min_size=1, max_size=6), seed=seeds))
tbx_case = st.one_of(tbx_case, tbx_case.map(clean))

@part('tbx', tbx_case, quick=2000, thorough=20000, shards=6, seconds=60, rule='as drx, for frequency-domain captures of one or more channel blocks')
def c_tbx(c):
    g = rng(c['seed'])
    ns, nc, nb, step = c['ns'], c['nc'], c['nblk'], c['step']
    if c['nset']*nb < 2:
        raise Reject()
    gap = c['gap'] if c['gap'] and c['gap'][0] < c['nset'] else None
    nslot = c['nset'] + (gap[1] if gap else 0)
    lost = {(s, i % nb) for s, i in c['lost']}
    pat = g.integers(-7, 8, (nc, ns, 2, 2))
    model = np.zeros((ns*2, nb*nc, nslot, 2), np.int16)
    frames = []
    for s in range(c['nset']):
        slot = s + (gap[1] if gap and s >= gap[0] else 0)
        have = [i for i in range(nb) if (s, i) not in lost] or [0]
        for i in have:
            v = np.roll(pat, 5*slot + 3*i + 1, axis=1).copy()
            v[0, 0, 0] = (7, -7)
            frames.append(F.tbx(frame_count=slot+1, first_chan=c['c0'] + i*nc, nstand=ns, nchan=nc, timetag=T0 + slot*step, re=v[..., 0], im=v[..., 1]))
            model[:, i*nc:(i+1)*nc, slot] = v.reshape(nc, ns*2, 2).transpose(1, 0, 2)
    if c['shuffle'] is not None:
        g2 = rng(c['shuffle'])
        key = [k if k < 2*nb else k + g2.uniform(0, 3*nb) for k in range(len(frames))]
        frames = [frames[k] for k in np.argsort(key, kind='stable')]
    fn = os.path.join(tmpdir(), 'f.tbx')
    with open(fn, 'wb') as fh:
        fh.write(b''.join(frames) + b'\0'*c['tail'])
    srate = FS/step
    with ldp.TBXFile(fn) as f:
        check(abs(f.get_info('sample_rate') - srate) < 1e-6, "sample rate %s", f.get_info('sample_rate'))
        check(f.get_info('nframe') == len(frames) and f.get_info('frame_size') == len(frames[0]), "frame count or size")
        check(f.get_info('nantenna') == 2*ns and f.get_info('nchan') == nb*nc and f.get_info('frame_channel_count') == nc, "geometry")
        check(f.get_info('start_time_samples') == T0, "start")
        close(f.get_info('freq1'), (c['c0'] + np.arange(nb*nc))*srate, rtol=1e-9, msg='frequencies')
        pos, reads = 0, 0
        try:
            for o, n, flag, extra in list(c['ops']) + [('read', 10, False, 0.0)]*40:
                if o == 'reset':
                    if n == 0:
                        f.reset()
                        pos = 0
                    continue
                if o == 'offset':
                    if gap or c['lost'] or c['shuffle'] is not None or c['tail'] or not (1 <= pos + n <= nslot - 4):
                        continue
                    want = (n + extra)/srate
                    got = f.offset(want)
                    check(abs(got - want) < 1.001/srate, "offset of %s s went %s s, a frame is %s s", want, got, 1/srate)
                    k = round(got*srate)
                    check(abs(got*srate - k) < 1e-6, "offset %s s is no whole number of frames", got)
                    pos += k
                    label('offset')
                    continue
                try:
                    d, t, data = f.read((n+extra)/srate, time_in_samples=flag, return_ci8=c['ci8'])
                except errors.EOFError:
                    check(pos == nslot, "end of file after %s of %s frames", pos, nslot)
                    label('end')
                    break
                except RuntimeError as e:
                    if not gap or 'timetag' not in str(e):
                        raise
                    check(gap[1] >= 25 or c['nset'] - gap[0] <= 30, "a gap of %s frames at %s of %s is refused: %s", gap[1], gap[0], c['nset'], e)
                    label('gap refused')
                    raise Done()
                k = round(d*srate)
                want_n = max(1, int(round(n+extra)))
                if pos == nslot:
                    check(k == 0, "data beyond the end")
                    break
                short = c['lost'] or gap     # fewer frames than times*blocks: the capture may be returned in smaller chunks
                check(0 < k <= want_n and (k == want_n or pos + k == nslot or short), "%s frames returned of %s asked at %s of %s", k, want_n, pos, nslot)
                check(data.shape[:2] == (2*ns, nb*nc) and data.shape[2] >= k, "shape %s", data.shape)
                check(ticks(t) == T0 + pos*step, "time of the first sample is %s ticks off (at %s)", ticks(t) - (T0 + pos*step), pos)
                same(data[..., :k], model[:, :, pos:pos+k], c['ci8'], f"frames {pos} to {pos+k}")
                check(not (np.ascontiguousarray(data[..., k:]).view(np.uint8)).any(), "data behind the end")
                if gap and pos <= gap[0] < pos+k:
                    check(gap[1] < 25, "a gap of %s frames was filled", gap[1])
                    label('gap filled')
                pos += k
                reads += 1
        except Done:
            pass
    return reads >= 2

spec_case = st.fixed_dictionaries(dict(
    fmt=st.sampled_from(sorted(F.DRSPEC_FORMATS)), nfreq=st.sampled_from([8, 32, 64]), nint=st.sampled_from([1, 6, 768]), dec=st.sampled_from([10, 20, 98, 784]),
    toff=st.sampled_from([0, 7]), nset=st.integers(1, 60), gap=st.one_of(st.none(), st.tuples(st.integers(1, 60), st.integers(1, 5))),
    ignore=st.booleans(), prefix=st.sampled_from([0, 0, 3, 40]), tail=st.sampled_from([0, 0, 50]), ops=st.lists(op, min_size=1, max_size=6), seed=seeds))

@part('drspec', spec_case, quick=600, thorough=10000, shards=2, seconds=60, rule='a spectrometer file read in two or more calls')
def c_spec(c):
    g = rng(c['seed'])
    prods = F.DRSPEC_FORMATS[c['fmt']]
    nf, npr = c['nfreq'], len(prods)
    step = nf*c['nint']*c['dec']
    data = g.standard_normal((c['nset'], 2, nf, npr)).astype(np.float32)
    fills = (3, 5, 7, 11)
    gap = c['gap'] if c['gap'] and c['gap'][0] < c['nset'] else None
    slot = [s + (gap[1] if gap and s >= gap[0] else 0) for s in range(c['nset'])]
    frames = [F.drspec(timetag=T0 + slot[s]*step, time_offset=c['toff'], decimation=c['dec'], tuning_words=(2**30, 2**31), fills=fills, beam=2, fmt=c['fmt'], nfreq=nf, nint=c['nint'], data=data[s]) for s in range(c['nset'])]
    fn = os.path.join(tmpdir(), 'f.spec')
    with open(fn, 'wb') as fh:
        fh.write(b'\x11'*c['prefix'] + b''.join(frames) + b'\0'*c['tail'])
    model = np.zeros((2*npr, c['nset'], nf))
    for t in (0, 1):
        for k, p in enumerate(prods):
            model[t*npr+k] = data[:, t, :, k].astype(float)/F.drspec_norm(p, t, nf, fills)
    tint = step/FS
    reads = 0
    with ldp.DRSpecFile(fn, ignore_timetag_errors=c['ignore']) as f:
        check(abs(f.get_info('tint') - tint) < 1e-12*max(1, tint) and f.get_info('LFFT') == nf and f.get_info('nint') == c['nint'], "integration")
        check(list(f.get_info('data_products')) == list(prods) and f.get_info('beam') == 2, "products")
        check(f.get_info('start_time_samples') == T0 - c['toff'], "start")
        pos = 0
        for o, n, flag, extra in list(c['ops']) + [('read', 10, False, 0.0)]*40:
            if o == 'reset':
                if n == 0:
                    f.reset()
                    pos = 0
                continue
            if o == 'offset':
                if gap or not (0 <= pos + n <= c['nset'] - 2) or pos >= c['nset']:
                    continue
                want = (n+extra)*tint
                got = f.offset(want)
                check(abs(got - want) <= 1.001*tint, "offset of %s s went %s s, an integration is %s s", want, got, tint)
                k = round(got/tint)
                check(abs(got - k*tint) < 1e-6*tint + 1e-9, "offset %s s is no whole number of integrations", got)
                pos += k
                label('offset')
                continue
            want_n = max(1, int(round(n+extra)))
            try:
                d, t, out = f.read((n+extra)*tint, time_in_samples=flag)
            except errors.EOFError:
                check(pos == c['nset'], "end of file after %s of %s integrations", pos, c['nset'])
                label('end')
                break
            except RuntimeError as e:
                if not gap or c['ignore'] or 'timetag' not in str(e):
                    raise
                check(pos <= gap[0] < pos + want_n, "refused at %s a gap that lies at %s", pos, gap[0])
                label('gap refused')
                break
            k = round(d/tint)
            if pos == c['nset']:
                check(k == 0, "data beyond the end")
                break
            check(not (gap and pos <= gap[0] < pos+k and not c['ignore'] and gap[0] > pos), "a gap went by without an error")
            check(out.shape == (2*npr, want_n, nf), "shape %s", out.shape)
            check(0 < k <= want_n and (k == want_n or pos+k == c['nset']), "%s integrations returned of %s asked at %s of %s", k, want_n, pos, c['nset'])
            check(ticks(t) == T0 + slot[pos]*step - c['toff'], "time of the first integration is %s ticks off", ticks(t) - (T0 + slot[pos]*step - c['toff']))
            close(out[:, :k], model[:, pos:pos+k], rtol=1e-5, atol=1e-12, msg=f"integrations {pos} to {pos+k}")
            check(not out[:, k:].any(), "data behind the end")
            pos += k
            reads += 1
    return reads >= 2

@part('cor', st.tuples(seeds, st.integers(2, 3), st.booleans()), quick=1, thorough=10, seconds=200, rule='correlator captures of two or three integrations of all 32896 pairs')
def c_cor(case):
    seed, nset, whole = case
    from lsl.reader import cor
    try:
        cor.read_frame(__import__('io').BytesIO(b'\0'*8192))
    except errors.SyncError:
        pass
    g = rng(seed)
    nc, navg = 33, 29
    step = navg*1960000
    pairs = [(i, j) for i in range(1, 257) for j in range(i, 257)]
    fn = os.path.join(tmpdir(), 'f.cor')
    vals = g.standard_normal((nset, len(pairs))).astype(np.float32)
    ramp = (np.arange(nc*4).reshape(nc, 2, 2)).astype(np.complex64)
    with open(fn, 'wb') as fh:
        for s in range(nset):
            order = g.permutation(len(pairs))
            if s == 0:
                order = np.arange(len(pairs))
            for i in order:
                a, b = pairs[i]
                fh.write(F.cor(frame_count=1, first_chan=100, timetag=T0 + s*step, navg=navg, stand0=a, stand1=b, vis=ramp + vals[s, i]))
    with ldp.CORFile(fn) as f:
        check(f.get_info('nbaseline') == len(pairs) and f.get_info('nchan') == nc, "geometry")
        pos = 0
        if not whole:
            got = f.offset(1.001*navg*0.01)
            check(abs(got - navg*0.01) < 1e-6, "offset went %s s", got)
            pos = 1
        d, t, data = f.read(None) if whole else f.read(navg*0.01*(nset-1))
        k = nset - pos
        check(abs(d - k*navg*0.01) < 1e-6, "duration %s", d)
        check(ticks(t) == T0 + pos*step, "time")
        check(data.shape == (len(pairs), nc, 2, 2, k), "shape %s", data.shape)
        for s in range(k):
            want = ramp[None] + vals[pos+s][:, None, None, None]
            d = data[..., s].copy()
            auto = [i for i, (a, b) in enumerate(pairs) if a == b]
            want = want.astype(np.complex64)
            want[auto, :, 1, 0] = want[auto][:, :, 0, 1].conj()
            close(d, want, rtol=1e-6, atol=1e-6, msg=f'integration {s}')
        try:
            f.read(1.0)
        except errors.EOFError:
            pass
        else:
            raise AssertionError("data beyond the end")
    return True

@part('detect', st.tuples(st.sampled_from(['drx', 'drx8', 'tbx', 'drspec']), st.integers(0, 2**32-1), st.integers(0, 1), st.one_of(st.just(40), st.integers(3, 40))), quick=120, thorough=1000,
      rule='a file of each kind opened without naming its kind')
def c_detect(case):
    kind, seed, k, n = case
    if kind in ('drx', 'drx8'):
        n = 40                            # the search for the tunings looks at 32 frames
    g = rng(seed)
    fn = os.path.join(tmpdir(), 'f.dat')
    with open(fn, 'wb') as fh:
        for s in range(n):
            if kind in ('drx', 'drx8'):
                for p in (0, 1):
                    fh.write(F.drx(beam=1, tune=1, pol=p, timetag=T0+s*40960, re=g.integers(-7, 8, 4096), im=1, drx8=kind == 'drx8'))
            elif kind == 'tbx':
                fh.write(F.tbx(frame_count=s+1, first_chan=100, nstand=256 if k else 64, nchan=4*(1+k), timetag=T0+s*8192, re=1, im=-1))
            else:
                fh.write(F.drspec(timetag=T0+s*10*64, fmt=0x09, nfreq=32, nint=2, data=g.standard_normal((2, 32, 2))))
    with ldp.LWADataFile(fn) as f:
        check(type(f) is dict(drx=ldp.DRXFile, drx8=ldp.DRX8File, tbx=ldp.TBXFile, drspec=ldp.DRSpecFile)[kind], "a %s file is opened as %s", kind, type(f).__name__)
        check(f.get_info('start_time').dp_timetag == T0, "start time")
    return True
