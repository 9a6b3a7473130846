"""C11: the beamformer sums the good antennas of each polarization with the phases of the pointing."""
import numpy as np, ephem
from vlib.core import *
from vlib import dsp
from hypothesis import strategies as st
from lsl.misc import beamformer
from lsl.common.stations import FEE
from astropy.coordinates import Angle
from astropy import units as u

@st.composite
def beam_s(draw):
    n = draw(st.integers(1, 9))
    return dict(n=n, pols=draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)), status=draw(st.lists(st.sampled_from([33, 33, 33, 32, 23, 13, 30, 0]), min_size=n, max_size=n)),
                edge=draw(st.integers(0, 8)), big=draw(st.lists(st.booleans(), min_size=n, max_size=n)), az=draw(st.floats(0, 360)), alt=draw(st.floats(0, 90)), ak=draw(st.sampled_from(['num', 'angle', 'ephem'])),
                nchan=draw(st.integers(0, 4)), nt=draw(st.sampled_from([1, 2, 5, 31, 32, 33, 64, 70])), kind=draw(st.sampled_from(['c8', 'c16', 'i1', 'i2', 'i4', 'i8', 'f4', 'f8'])),
                layout=draw(st.sampled_from(['c', 'strided', 'fortran'])), spread=draw(st.sampled_from([0.0, 60.0, 3000.0])), seed=draw(st.integers(0, 10**6)))

def make(c):
    r = rng(c['seed'])
    ants = []
    for i in range(c['n']):
        sid = i + 1 + (256 if c['big'][i] and i > 0 else 0)
        if c.get('edge') and i == c['edge']:
            sid = 256
        a = dsp.antenna(sid, c['pols'][i], r.uniform(-1, 1, 3)*c['spread'], r.uniform(5, 200), 2.4e-9, vf=r.uniform(0.7, 0.9), offset=r.uniform(0, 1e-8), id=i+1)
        a.status = c['status'][i]//10
        a.fee = FEE('f', 0)
        a.fee.status = c['status'][i] % 10
        ants.append(a)
    return ants

def pointing(c):
    az, alt = c['az'], c['alt']
    if c['ak'] == 'angle':
        return Angle(az*u.deg), Angle(alt*u.deg)
    if c['ak'] == 'ephem':
        return ephem.degrees(np.radians(az)), ephem.degrees(np.radians(alt))
    return az, alt

def ref_delays(ants, freq, az, alt):
    xyz = np.array([a.stand.xyz for a in ants])
    center = xyz[[a.stand.id <= 256 for a in ants]].mean(axis=0)
    s = dsp.pointing(np.radians(az), np.radians(alt))
    return np.array([dsp.cable_delay(a, freq) for a in ants]) - ((xyz - center) @ s/dsp.C)[:, None]

@part('delay', beam_s(), quick=2000, thorough=8000, rule='at least two antennas')
def delay(c):
    ants = make(c)
    freq = rng(c['seed']+1).uniform(10e6, 88e6, max(1, c['nchan']))
    az, alt = pointing(c)
    if c['ak'] == 'ephem' and (c['alt'] > 89.999999 or c['az'] > 359.999999):
        raise Reject()      # may round to just above the limit
    want = ref_delays(ants, freq, c['az'], c['alt'])
    if c['nchan'] == 0:
        got = beamformer.calc_delay(ants, freq=float(freq[0]), azimuth=az, altitude=alt)
        check(got.shape == (c['n'],), "shape", got.shape)
        got = got[:, None]
    else:
        got = beamformer.calc_delay(ants, freq=freq, azimuth=az, altitude=alt)
    close(got, want, 1e-9, 1e-15, "delays")
    return c['n'] > 1

@part('range', st.tuples(st.floats(-400, 800), st.floats(-200, 200)), quick=400, thorough=1000, rule='outside')
def limits(c):
    ants = make(dict(n=2, seed=0, big=[0, 0], pols=[0, 0], status=[33, 33], spread=10.0))
    bad = not (0 <= c[0] <= 360 and 0 <= c[1] <= 90)
    try:
        beamformer.calc_delay(ants, azimuth=c[0], altitude=c[1])
    except ValueError:
        check(bad, "a valid pointing was refused", c)
    else:
        check(not bad, "an impossible pointing was accepted", c)
    return bad

@part('beam', beam_s(), quick=3200, thorough=12000, rule='both polarizations have a good antenna')
def beam(c):
    ants = make(c)
    if c['alt'] > 89.999999 or c['az'] > 359.999999:
        raise Reject()
    nchan = max(1, c['nchan'])
    freq = rng(c['seed']+1).uniform(10e6, 88e6, nchan)
    x, y = dsp.make(rng(c['seed']+2), c['kind'], (c['n'], nchan, c['nt']))
    d = ref_delays(ants, freq, c['az'], c['alt'])
    d -= d.min()
    w = np.exp(2j*np.pi*freq*d)[:, :, None]
    want = []
    for p in (0, 1):
        use = [i for i, a in enumerate(ants) if a.pol == p and c['status'][i] == 33]
        if use:
            want.append((y*w)[use].sum(axis=0)/len(use))
    if not want:
        want = [np.zeros((nchan, c['nt']))]
    else:
        label(f"{len(want)} pols")
    want = np.array(want)
    az, alt = pointing(c)
    if c['nchan'] == 0:
        arg = dsp.relayout(x[:, 0], c['layout'])
        want = want[:, 0]
        got = beamformer.phase_and_sum(ants, arg, central_freq=float(freq[0]), azimuth=az, altitude=alt)
    else:
        arg = dsp.relayout(x, c['layout'])
        got = beamformer.phase_and_sum(ants, arg, central_freq=list(freq) if c['seed'] % 2 else freq, azimuth=az, altitude=alt)
    check(got.shape == want.shape, "shape", got.shape, want.shape)
    close(got, want, 1e-5, 1e-5*np.abs(y).max(), "formed beam")
    return len(want) > 1

@part('source', st.fixed_dictionaries(dict(b=beam_s(), daz=st.floats(5, 90))), quick=600, thorough=2000, rule='more than two good antennas')
def source(c):
    """A plane wave from the pointing direction adds up fully; no direction gives more."""
    b = dict(c['b'], pols=[0]*c['b']['n'], status=[33]*c['b']['n'], alt=min(c['b']['alt'], 89.9), az=min(c['b']['az'], 359.9))
    ants = make(b)
    f = 60e6
    d = ref_delays(ants, np.array([f]), b['az'], b['alt'])
    x = np.exp(2j*np.pi*f*(np.arange(16)/200e6)[None] - 2j*np.pi*f*d)
    y = beamformer.phase_and_sum(ants, x, central_freq=f, azimuth=b['az'], altitude=b['alt'])
    close(np.abs(y), np.ones_like(np.abs(y)), 1e-4, 0, "power toward the pointing")
    z = beamformer.phase_and_sum(ants, x, central_freq=f, azimuth=(b['az'] + c['daz']) % 360, altitude=b['alt'])
    check((np.abs(z) <= 1 + 1e-4).all(), "more power than the sum of all antennas")
    return b['n'] > 2

@part('circular', st.fixed_dictionaries(dict(n=st.integers(1, 40), iau=st.booleans(), seed=st.integers(0, 10**6))), quick=800, thorough=2000, rule='always')
def circular(c):
    r = rng(c['seed'])
    x = r.normal(size=c['n']) + 1j*r.normal(size=c['n'])
    y = r.normal(size=c['n']) + 1j*r.normal(size=c['n'])
    l, rr = beamformer.circularize(x, y, iau=c['iau']) if c['seed'] % 2 or not c['iau'] else beamformer.circularize(x, y)
    I = np.abs(x)**2 + np.abs(y)**2
    close(np.abs(l)**2 + np.abs(rr)**2, I, 1e-9, 1e-12, "total power")
    close(l, (x + (1j if c['iau'] else -1j)*y)/np.sqrt(2), 1e-9, 1e-12, "left")
    close(rr, (x - (1j if c['iau'] else -1j)*y)/np.sqrt(2), 1e-9, 1e-12, "right")
    return True
