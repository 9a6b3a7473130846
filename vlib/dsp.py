"""Reference implementations (double precision numpy) of the LSL spectrometer and correlator."""
import numpy as np
from hypothesis import strategies as st
from lsl.reader.base import CI8
from lsl.common.stations import Antenna, Stand, Cable

C = 299792458.0
REAL = ['i1', 'i2', 'i4', 'i8', 'f4', 'f8']
CPLX = ['ci8', 'c8', 'c16']

def random_window(n):
    return np.random.default_rng(n).uniform(0.2, 1.5, n)

def ramp_window(n):
    return np.arange(1, n+1)/n

WINDOWS = {'none': None, 'hanning': np.hanning, 'blackman': np.blackman, 'random': random_window, 'ramp': ramp_window}

def make(r, kind, shape):
    """Random samples: (array to hand to LSL, the same samples as float64/complex128)."""
    if kind == 'ci8':
        x = np.empty(shape, CI8)
        x['re'] = r.integers(-128, 128, shape)
        x['im'] = r.integers(-128, 128, shape)
        return x, x['re'].astype(float) + 1j*x['im']
    top = {'i1': 127, 'i2': 3000, 'i4': 100000, 'i8': 100000}.get(kind)
    if top:
        x = r.integers(-top-1, top+1, shape).astype(kind)
        return x, x.astype(float)
    x = r.normal(size=shape)*30 + r.normal()*3
    if kind[0] == 'c':
        x = x + 1j*(r.normal(size=shape)*20 - 4)
    x = x.astype(kind)
    return x, x.astype('c16' if kind[0] == 'c' else 'f8')

def relayout(x, how):
    """The same values with another memory layout."""
    if x.dtype == CI8 and how != 'reversed':
        return x    # must be contiguous along the samples (a clear error otherwise)
    if how == 'fortran':
        return np.asfortranarray(x)
    if how == 'strided':
        y = np.zeros((x.shape[0]*2,) + x.shape[1:-1] + (x.shape[-1]*3,), x.dtype)
        v = y[::2, ..., 1::3]
        v[...] = x
        return v
    if how == 'reversed':
        return np.ascontiguousarray(x[::-1])[::-1]
    return x

def channel_freqs(L, cplx, rate, central):
    if cplx:
        return central + (np.arange(L) - L//2)*(rate/L)
    return np.arange(L)*(rate/(2*L))

def blocks(x, L, cplx, overlap=1, pfb=False, window=None, clip=0, start=0, stop=None):
    """Windowed transforms of one signal: (nfft, L) array, (nfft,) validity."""
    n = L if cplx else 2*L
    taps = 4 if pfb else 1
    avail = (len(x) if stop is None else stop) - start
    nfft = max(0, (avail - n)*overlap//n + 1) if avail >= n else 0
    if pfb:
        i = np.arange(n*taps)
        w = np.sinc((i - n*taps/2 + 0.5)/n)*(0.54 - 0.46*np.cos(2*np.pi*i/(n*taps)))
    else:
        w = np.ones(n) if window is None else window(n)
    pad = np.concatenate([np.zeros(n*(taps-1), x.dtype), x])
    out = np.zeros((nfft, L), complex)
    ok = np.ones(nfft, bool)
    for j in range(nfft):
        s = start + n*j//overlap
        seg = pad[s:s+n*taps]
        if clip and (np.abs(seg) >= clip).any():
            ok[j] = False
        F = np.fft.fft((seg*w).reshape(taps, n).sum(axis=0))
        out[j] = np.fft.fftshift(F) if cplx else F[:L]
    return out, ok

def antenna(sid, pol, xyz, length, dd, vf=0.83, offset=0.0, a0=0.00428, a1=0.00001, id=None):
    c = Cable(f"C{sid}-{pol}", length, vf=vf, dd=dd, a0=a0, a1=a1)
    c.clock_offset = offset
    return Antenna(id if id is not None else 2*sid+pol, stand=Stand(sid, *xyz), pol=pol, cable=c, status=3)

def cable_delay(a, freq):
    c = a.cable
    with np.errstate(all='ignore'):
        return c.length*c.stretch/(c.vf*C) + c.dd*(c.length*c.stretch/100.0)/np.sqrt(freq/c.ref_freq) + c.clock_offset

def cable_gain(a, freq):
    c = a.cable
    L = c.length*c.stretch
    return 1.0/(np.exp(2*c.a0*L*np.sqrt(freq/c.ref_freq) + c.a1*L*(freq/c.ref_freq))*10**(c.asp_atten_db/10))

def pointing(az, alt):
    return np.array([np.cos(alt)*np.sin(az), np.cos(alt)*np.cos(az), np.sin(alt)])
