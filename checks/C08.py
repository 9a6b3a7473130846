"""C08: the spectrometer returns the averaged, windowed power spectra of exactly the samples given."""
import numpy as np
from vlib.core import *
from vlib import dsp
from hypothesis import strategies as st
from lsl.correlator import fx

@st.composite
def case_s(draw):
    kind = draw(st.sampled_from(dsp.REAL + dsp.CPLX))
    L = draw(st.one_of(st.sampled_from([1, 2, 3, 4, 8, 16, 31, 32, 64]), st.integers(1, 80), st.sampled_from([128, 256, 511])))
    n = L*(1 if kind in dsp.CPLX else 2)
    pfb = draw(st.booleans())
    return dict(kind=kind, L=L, nfft=draw(st.integers(1, 9)), extra=draw(st.integers(0, n-1)),
                nstand=draw(st.integers(1, 6)), pfb=pfb,
                window='none' if pfb else draw(st.sampled_from(list(dsp.WINDOWS))),
                clip=draw(st.sampled_from([0, 0, 0, 0.5, 0.8, 1.0])),
                rate=draw(st.sampled_from([None, 19.6e6, 100e3, 196e6, 250e3])), central=draw(st.sampled_from([0.0, 38e6, 74.03e6, 10])),
                layout=draw(st.sampled_from(['c', 'c', 'fortran', 'strided', 'reversed'])), seed=draw(st.integers(0, 10**6)))

def build(c, rows):
    cplx = c['kind'] in dsp.CPLX
    n = c['L']*(1 if cplx else 2)
    r = rng(c['seed'])
    x, ref = dsp.make(r, c['kind'], (rows, n*c['nfft'] + c['extra']))
    clip = 0
    if c['clip']:
        # near the top of each signal so that only few transforms are clipped; at 1.0 exactly at the largest sample
        clip = max(1, int(np.floor(np.quantile(np.abs(ref), 1 - (1-min(c['clip'], 0.97))*0.1 - 0.02))))
        if c['clip'] == 1.0:
            clip = max(1, int(np.abs(ref).max()))
    return cplx, n, x, ref, clip

def expected_freq(c, cplx):
    return dsp.channel_freqs(c['L'], cplx, c['rate'] or 196e6, float(c['central']))

def kwargs(c, clip):
    kw = dict(LFFT=c['L'], pfb=c['pfb'], clip_level=clip, central_freq=c['central'])
    if c['rate']:
        kw['sample_rate'] = c['rate']
    w = dsp.WINDOWS[c['window']]
    if w is not None:
        kw['window'] = w
    return kw

def quiet(f, *a, **k):
    with np.errstate(all='ignore'):
        return f(*a, **k)

def compare(got, want, msg):
    scale = np.abs(want).max()
    check(got.shape == want.shape, f"{msg}: shape", got.shape, want.shape)
    bad = ~(np.abs(got - want) <= 2e-5*scale + 1e-4*np.abs(want))
    check(not bad.any(), msg, np.argwhere(bad)[:4].tolist(), got[bad][:3], want[bad][:3])

@part('psd', case_s(), quick=6000, thorough=20000, rule='at least two transforms averaged')
def psd(c):
    cplx, n, x, ref, clip = build(c, c['nstand'])
    arg = dsp.relayout(x, c['layout'])
    before = arg.copy()
    freq, spec = quiet(fx.SpecMaster, arg, **kwargs(c, clip))
    check((arg == before).all(), "the input was changed")
    close(freq, expected_freq(c, cplx), 1e-12, 1e-6, "channel frequencies")
    check(spec.shape == (c['nstand'], c['L']), "shape", spec.shape)
    w = dsp.WINDOWS[c['window']]
    some = False
    for i in range(c['nstand']):
        F, ok = dsp.blocks(ref[i], c['L'], cplx, pfb=c['pfb'], window=w, clip=clip)
        if not ok.any():
            continue
        want = (np.abs(F[ok])**2).sum(axis=0)/(n*ok.sum())
        compare(spec[i], want, f"power spectrum of signal {i}")
        some |= ok.sum() > 1
        if clip and not ok.all():
            label('clipped')
    # each signal stands alone
    k = c['seed'] % c['nstand']
    _, one = quiet(fx.SpecMaster, x[k:k+1], **kwargs(c, clip))
    check(np.array_equal(one[0], spec[k], equal_nan=True), "spectrum depends on the other signals", k)
    label(c['kind'])
    return some

@part('stokes', case_s(), quick=4800, thorough=16000, rule='at least two transforms averaged')
def stokes(c):
    ns = c['nstand']
    cplx, n, x, ref, clip = build(c, 2*ns)
    # the antennas come in any order, the X and Y lists each keep theirs
    r = rng(c['seed'] + 1)
    pols = r.permutation([0]*ns + [1]*ns)
    count = [0, 0]
    ants = []
    for p in pols:
        ants.append(dsp.antenna(count[p]+1, int(p), (0, 0, 0), 10.0, 1e-9))
        count[p] += 1
    arg = dsp.relayout(x, c['layout'])
    freq, spec = quiet(fx.StokesMaster, arg, ants, **kwargs(c, clip))
    close(freq, expected_freq(c, cplx), 1e-12, 1e-6, "channel frequencies")
    check(spec.shape == (4, ns, c['L']), "shape", spec.shape)
    w = dsp.WINDOWS[c['window']]
    some = False
    for i in range(ns):
        ix = [j for j, p in enumerate(pols) if p == 0][i]
        iy = [j for j, p in enumerate(pols) if p == 1][i]
        X, okx = dsp.blocks(ref[ix], c['L'], cplx, pfb=c['pfb'], window=w, clip=clip)
        Y, oky = dsp.blocks(ref[iy], c['L'], cplx, pfb=c['pfb'], window=w, clip=clip)
        ok = okx & oky
        if not ok.any():
            continue
        X, Y, m = X[ok], Y[ok], n*ok.sum()
        xx, yy, xy = (np.abs(X)**2).sum(0)/m, (np.abs(Y)**2).sum(0)/m, (X*Y.conj()).sum(0)/m
        want = np.array([xx+yy, xx-yy, 2*xy.real, 2*xy.imag])
        compare(spec[:, i], want, f"Stokes spectra of stand {i}")
        some |= ok.sum() > 1
    return some

@part('refuse', st.tuples(st.sampled_from([True, False]), st.sampled_from(['hanning', 'random'])), quick=6, thorough=20, shards=1, rule='always')
def refuse(c):
    x = np.ones((2, 4096))
    try:
        if c[0]:
            fx.SpecMaster(x, window=dsp.WINDOWS[c[1]], pfb=True)
        else:
            fx.StokesMaster(x, [dsp.antenna(1, 0, (0, 0, 0), 1, 0), dsp.antenna(1, 1, (0, 0, 0), 1, 0)], window=dsp.WINDOWS[c[1]], pfb=True)
    except RuntimeError:
        return True
    check(False, "window and filter bank accepted together")

@part('filterbank', st.fixed_dictionaries(dict(kind=st.sampled_from(['f4', 'f8', 'c8', 'c16', 'i2']), n=st.integers(1, 64), taps=st.sampled_from([1, 2, 3, 4, 8, 16, 32]),
                                               named=st.booleans(), window=st.sampled_from(list(dsp.WINDOWS)), extra=st.integers(0, 50), seed=st.integers(0, 10**6))),
      quick=2000, thorough=8000, rule='more than one tap')
def filterbank(c):
    from lsl.correlator import filterbank as fb
    n, p = c['n'], c['taps']
    x, ref = dsp.make(rng(c['seed']), c['kind'], (n*p + c['extra'],))
    w = dsp.WINDOWS[c['window']] or np.ones
    kw = {} if c['window'] == 'none' else {'window': w}
    before = x.copy()
    if c['named'] and p in (2, 4, 8, 16, 32):
        got = getattr(fb, f"fft{p}")(x, n, **kw)
    else:
        got = fb.fft(x, n, P=p, **kw)
    check((x == before).all(), "the input was changed")
    i = np.arange(n*p)
    y = ref[:n*p]*w(n*p)*np.sinc((i - n*p/2 + 0.5)/n)
    # straight from the definition: channel k sees the filtered signal at frequency k/n over all taps
    k = np.arange(n)
    want = np.exp(-2j*np.pi*((k[:, None]*i[None]) % n)/n) @ y
    compare(got, want, "filter bank output")
    return p > 1
