"""C34: self-calibration recovers the antenna gains, delays and phases that relate the data to the model."""
import warnings, logging
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet
from lsl.imaging import selfcal
from lsl.sim import vis as simvis
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
seeds = st.integers(0, 2**31)

case = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(3, 7), nchan=st.integers(1, 8), mode=st.sampled_from(['phase', 'delay', 'both', 'both']), amp=st.booleans(),
    gains=st.sampled_from(['any', 'low', 'high']), ref=st.sampled_from(['first', 'zero', 'other', 'last']), pols=st.sampled_from([['XX'], ['YY', 'XX'], ['XX', 'XY', 'YX', 'YY'], ['I', 'V']]),
    chan=st.sampled_from(['all', 'all', 'some', 'int']), auto=st.booleans(), order=st.sampled_from(['sorted', 'shuffled', 'swapped']),
    zero=st.booleans(), size=st.sampled_from([0.3, 1.0, 1.0]), eps=st.sampled_from([0.0, 0.0, 1e3]), loop=st.sampled_from([None, 0.5, 1.0])))


def build(c, r):
    n, nc = c['n'], c['nchan']
    if c['mode'] == 'both':
        nc = max(nc, 4)
        f0 = r.uniform(25e6, 60e6)
        freq = np.linspace(f0, f0 + r.choice([8e6, 25e6]), nc)
    else:
        freq = r.uniform(20e6, 60e6) + np.arange(nc)*r.choice([1e5, 2e6])
    ids = [int(v) for v in r.permutation(np.arange(1, 257))[:n]]
    site = LWAStation('X', 34.0, -107.0, 2000.0, id='XX')
    ants = [Antenna(i+1, stand=Stand(ids[i], *(r.uniform(-1, 1, 3)*[60, 60, 5])), pol=0, digitizer=i+1) for i in range(n)]
    site.antennas = ants
    aa = simvis.build_sim_array(site, ants, freq, jd=2458000.3, force_flat=True)
    bl = [(i, j) for i in range(n) for j in range(i if c['auto'] else i + 1, n)]
    if c['order'] != 'sorted':
        bl = [bl[k] for k in r.permutation(len(bl))]
    if c['order'] == 'swapped':
        bl = [b if r.integers(2) else b[::-1] for b in bl]
    return aa, ids, freq, bl


def same(a, b, what):
    check(a.pols == b['pols'] and a.baselines == b['bl'] and np.array_equal(a.freq, b['freq']) and np.array_equal(a.uvw, b['uvw']), '%s: set-up changed', what)
    for p in a.pols:
        d = getattr(a, p)
        check(np.array_equal(d.data, b[p]) and np.array_equal(d.weight, b[p + 'w']) and np.array_equal(d.mask, b[p + 'm']), '%s: %s changed', what, p)


def snap(a):
    o = dict(pols=list(a.pols), bl=list(a.baselines), freq=a.freq.copy(), uvw=a.uvw.copy())
    for p in a.pols:
        d = getattr(a, p)
        o[p], o[p + 'w'], o[p + 'm'] = d.data.copy(), d.weight.copy(), d.mask.copy()
    return o


@part('recover', case, quick=900, thorough=15000, shards=4, rule='two or more antennas are off by more than 0.1 radians')
def recover(c):
    r = rng(c['seed'])
    aa, ids, freq, bl = build(c, r)
    n, nc = len(ids), len(freq)
    ref = 0 if c['ref'] in ('first', 'zero') else n - 1 if c['ref'] == 'last' else int(r.integers(0, n))
    refarg = 0 if c['ref'] == 'zero' else ids[ref]
    ph, dl, g = np.zeros(n), np.zeros(n), np.ones(n)
    if c['mode'] in ('phase', 'both'):
        ph = r.uniform(-0.7, 0.7, n)*c['size']
    if c['mode'] in ('delay', 'both'):
        dl = r.uniform(-1, 1, n)*c['size']*(0.35 if c['mode'] == 'both' else 1.2)      # ns
    if c['mode'] == 'phase':
        ph *= 2
    if c['amp']:
        lo, hi = dict(any=(-0.7, 0.7), low=(-0.7, -0.2), high=(0.2, 0.7))[c['gains']]
        g = np.exp(r.uniform(lo, hi, n))
    if c['zero']:
        k = int(r.integers(n))
        ph[k] = dl[k] = 0
    rows = len(bl)
    uvw = r.normal(size=(rows, 3, nc))
    obs = VisibilityDataSet(2458000.3, freq, bl, uvw, antennaarray=aa, phase_center='z')
    mod = VisibilityDataSet(2458000.3, freq.copy(), list(bl), uvw.copy(), antennaarray=aa, phase_center='z')
    G = g[:, None]*np.exp(2j*np.pi*freq[None, :]*1e-9*dl[:, None] + 1j*ph[:, None])
    models = {}
    for p in c['pols']:
        m = np.exp(r.normal(size=(rows, nc))*0.5)*np.exp(2j*np.pi*r.uniform(size=(rows, nc)))
        for b, (i, j) in enumerate(bl):
            if i == j:
                m[b] = np.abs(m[b])
        d = m.copy()
        for b, (i, j) in enumerate(bl):
            d[b] /= G[i]*np.conj(G[j])
        models[p] = m
        mod.append(PolarizationDataSet(p, data=m.copy(), weight=r.uniform(1, 2, m.shape)))
        obs.append(PolarizationDataSet(p, data=d, weight=r.uniform(1, 2, m.shape), mask=r.uniform(size=m.shape) < 0.1))
    pol = c['pols'][int(r.integers(len(c['pols'])))]
    if c['chan'] == 'int' and c['mode'] != 'both':
        ch = int(r.integers(nc))
    elif c['chan'] == 'some' and c['mode'] != 'both':
        ch = sorted(int(v) for v in r.permutation(nc)[:max(1, nc//2)])
    else:
        ch = np.arange(nc) if r.integers(2) else list(range(nc))
    fn = dict(phase=selfcal.phase_only, delay=selfcal.delay_only, both=selfcal.delay_and_phase)[c['mode']]
    kw = dict(ref_ant=refarg, amplitude=c['amp'], return_convergence=True, max_iter=400 if c['mode'] == 'both' else 120, inv_epsilon=c['eps'], amplitude_cutoff=1 + 1e-6)
    if c['loop'] is not None:
        kw['loop_gain'] = c['loop']
    if c['mode'] != 'delay':
        kw['phase_cutoff'] = 1e-6
    if c['mode'] != 'phase':
        kw['delay_cutoff'] = 1e-6
    so, sm = snap(obs), snap(mod)
    out = list(fn(aa, obs, mod, ch, pol, **kw))
    same(obs, so, 'data')
    same(mod, sm, 'model')
    new, conv = out.pop(0), out.pop()
    check(conv is True or conv == True, 'did not converge (%r, amplitude %r)', c['mode'], c['amp'])
    got = dict(g=np.ones(n), d=np.zeros(n), p=np.zeros(n))
    if c['amp']:
        got['g'] = out.pop(0)
    if c['mode'] != 'phase':
        got['d'] = out.pop(0)
    if c['mode'] != 'delay':
        got['p'] = out.pop(0)
    check(not out, 'too many results')
    tol = 1e-3 if c['mode'] == 'both' else 2e-5
    if c['amp']:
        close(got['g'], g, 1e-4, 0, 'gains')
    close(got['d'], dl - dl[ref], 0, tol, 'delays in ns relative to the reference')
    w = got['p'] - (ph - ph[ref])
    close((w + np.pi) % (2*np.pi) - np.pi, np.zeros(n), 0, tol, 'phases relative to the reference')
    check(got['p'][ref] == 0 and got['d'][ref] == 0, 'the reference antenna has moved')
    check(np.all(got['p'] > -np.pi - 1e-12) and np.all(got['p'] <= np.pi + 1e-12), 'phases out of range')
    # the data returned: corrected with these for all channels and polarizations
    check(new.pols == so['pols'] and new.baselines == so['bl'], 'polarizations or baselines of the result')
    for p in c['pols']:
        d = getattr(new, p)
        e = np.abs(d.data - models[p])/np.abs(models[p])
        check(e.max() < 5*tol + 1e-3*c['amp'], '%s of the result differs from the model by %g', p, e.max())
        check(np.array_equal(d.weight, so[p + 'w']) and np.array_equal(d.mask, so[p + 'm']), 'weights or masks of %s', p)
    label(c['mode'] + (' amp' if c['amp'] else ''))
    return int((np.abs(np.angle(G)) > 0.1).any(axis=1).sum()) >= 2


bad = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(3, 5), mode=st.sampled_from(['phase', 'delay', 'both']), what=st.sampled_from(['pol', 'modelpol', 'stand', 'iter', 'names'])))


@part('refuse', bad, quick=120, thorough=1000, rule='always')
def refuse(c):
    r = rng(c['seed'])
    cc = dict(c, nchan=4, auto=False, order='sorted')
    aa, ids, freq, bl = build(cc, r)
    n = len(ids)
    def vis(pols, ph):
        v = VisibilityDataSet(2458000.3, freq, list(bl), np.zeros((len(bl), 3, 4)), antennaarray=aa, phase_center='z')
        for p in pols:
            v.append(PolarizationDataSet(p, data=np.array([np.exp(1j*(ph[i] - ph[j]))*np.ones(4) for i, j in bl])))
        return v
    fn = dict(phase=selfcal.phase_only, delay=selfcal.delay_only, both=selfcal.delay_and_phase)[c['mode']]
    z = np.zeros(n)
    def refused(*a, **k):
        try:
            fn(*a, **k)
        except RuntimeError:
            return True
        return False
    if c['what'] == 'pol':
        check(refused(aa, vis(['XX'], z), vis(['XX', 'YY'], z), [0], 'YY'), 'a polarization not in the data is accepted')
    elif c['what'] == 'modelpol':
        check(refused(aa, vis(['XX', 'YY'], z), vis(['XX'], z), [0], 'YY'), 'a polarization not in the model is accepted')
    elif c['what'] == 'stand':
        check(refused(aa, vis(['XX'], z), vis(['XX'], z), [0], 'XX', ref_ant=300), 'an unknown stand is accepted')
    else:
        # one iteration is not enough for convergence, and is reported so; by default nothing is said
        ph = r.uniform(0.2, 0.6, n)*np.where(np.arange(n) % 2, 1, -1)
        o = fn(aa, vis(['XX'], ph), vis(['XX'], z), list(range(4)), 'XX', max_iter=1, return_convergence=True)
        check(not o[-1], 'one iteration has converged')
        o = fn(aa, vis(['XX'], z), vis(['XX'], z), list(range(4)), 'XX')
        check(len(o) == (3 if c['mode'] == 'both' else 2), 'number of results')
        close(o[-1], z, 0, 1e-9, 'corrections of perfect data')
    return True
