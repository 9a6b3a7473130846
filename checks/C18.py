"""C18: simulated visibilities are the sum over the sources in the sky; scaling, shifting and noise act per baseline."""
import warnings, logging, ephem
import numpy as np
from scipy.special import j1
from vlib.core import *
from hypothesis import strategies as st
from astropy.coordinates import SkyCoord
import astropy.units as u
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.sim import vis as simvis
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

C = 299792458.0

class World:
    def __init__(self, c):
        r = self.r = rng(c['seed'])
        self.n = c['nant']
        self.lat, self.lon, self.elev = r.uniform(-70, 70), r.uniform(-179, 179), 100.0
        self.enu = r.uniform(-1, 1, (self.n, 3))*[60, 60, 5]
        self.ids = [int(v) for v in r.permutation(np.arange(1, 257))[:self.n]]
        self.freq = r.uniform(20e6, 60e6) + np.arange(c['nchan'])*r.choice([25e3, 1e6])
        self.site = LWAStation('X', self.lat, self.lon, self.elev, id='XX')
        self.ants = [Antenna(i+1, stand=Stand(self.ids[i], *self.enu[i]), pol=0, digitizer=i+1) for i in range(self.n)]
        self.site.antennas = self.ants
        self.jd0 = 2455000.5 + int(r.integers(0, 3000)) + r.uniform(0, 1)

    def array(self, beam, jd=None):
        f = self.freq if self.r.integers(2) else self.freq/1e9
        kw = dict(force_flat=True) if beam == 'flat' else dict(force_gaussian=beam)
        return simvis.build_sim_array(self.site, self.ants, f, jd=self.jd0 if jd is None else jd, **kw)

    def observer(self, jd):
        o = ephem.Observer()
        o.lat, o.lon, o.elevation, o.pressure = str(self.lat), str(self.lon), self.elev, 0
        o.date = ephem.Date(jd - 2415020.0)
        return o

    def radec(self, jd, az, alt):
        o = self.observer(jd)
        o.epoch = ephem.J2000
        ra, dec = o.radec_of(az, alt)
        return float(ra), float(dec)

    def direction(self, radec, jd):
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = radec[0], radec[1], ephem.J2000
        b.compute(self.observer(jd))
        return np.array([np.cos(b.alt)*np.sin(b.az), np.cos(b.alt)*np.cos(b.az), np.sin(b.alt)])

    def basis(self, s):
        """East, north and toward vectors about direction s, in ENU."""
        la = np.radians(self.lat)
        pole = np.array([0, np.cos(la), np.sin(la)])
        e = np.cross(pole, s)
        e /= np.linalg.norm(e)
        return np.array([e, np.cross(s, e), s])

sim = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), nant=st.integers(2, 6), nchan=st.integers(1, 6),
    nsrc=st.integers(1, 4), nint=st.integers(1, 3), dt=st.sampled_from([1.0, 600.0, 7200.0]),
    pc=st.sampled_from(['z', 'body', 'sky', 'source']), beam=st.sampled_from(['flat', 40.0, (60.0, 20.0), 1.5]),
    pols=st.sampled_from([['xx'], ['xx', 'yy'], ['yy', 'xy', 'xx', 'yx'], ['xx', 'yy', 'xy', 'yx'], ['yx']]),
    flat=st.booleans(), resolve=st.booleans(), chan=st.booleans(), bl=st.sampled_from(['all', 'subset', 'auto']), low=st.booleans()))

@part('simulate', sim, quick=1000, thorough=15000, rule='at least one source above the horizon and two antennas apart', seconds=150)
def simulate(c):
    w = World(c)
    r = w.r
    jds = [w.jd0 + k*c['dt']/86400 for k in range(c['nint'])]
    aa = w.array(c['beam'])
    srcs, model = {}, []
    for k in range(c['nsrc']):
        alt = r.uniform(0.3, 1.5)
        if c['low'] and k % 2 == 0:
            alt = -alt
        elif c['low'] and k == 1:
            # close to the horizon, on either side of it
            alt = r.uniform(0.002, 0.02)*r.choice([-1, 1])
        rd = w.radec(w.jd0, r.uniform(0, 2*np.pi), alt)
        shape = (r.uniform(0.001, 0.02), r.uniform(0.001, 0.02), r.uniform(0, 3)) if r.integers(3) else (0.0, 0.0, 0.0)
        m = dict(rd=rd, jys=r.uniform(1, 100), index=r.uniform(-2, 1), mfreq=r.uniform(0.02, 0.2), shape=shape)
        kw = dict(jys=m['jys'], index=m['index'], mfreq=m['mfreq'], srcshape=shape)
        if r.integers(2):
            srcs[f's{k}'] = simvis.RadioFixedBody(*rd, name=f's{k}', **kw)
        else:
            srcs[f's{k}'] = simvis.RadioFixedBody.from_astropy(SkyCoord(rd[0]*u.rad, rd[1]*u.rad, frame='fk5'), name=f's{k}', **kw)
        model.append(m)
    if c['pc'] == 'z':
        pc, pcrd = 'z', None
    elif c['pc'] == 'source':
        pc, pcrd = srcs['s0'], model[0]['rd']
    else:
        pcrd = w.radec(w.jd0, r.uniform(0, 2*np.pi), r.uniform(0.5, 1.5))
        pc = simvis.RadioFixedBody(*pcrd, name='pc') if c['pc'] == 'body' else SkyCoord(pcrd[0]*u.rad, pcrd[1]*u.rad, frame='fk5')
    base = None
    expbase = [(i, j) for i in range(w.n) for j in range(i+1, w.n)]
    if c['bl'] != 'all':
        every = [(i, j) for i in range(w.n) for j in range(w.n) if i != j or c['bl'] == 'auto']
        base = [every[k] for k in r.permutation(len(every))[:int(r.integers(1, len(every)+1))]]
        expbase = list(base)
    nchan = len(w.freq)
    chan, cmin, cmax = None, 0, nchan-1
    if c['chan']:
        cmin = int(r.integers(0, nchan))
        cmax = int(r.integers(cmin, nchan))
        chan = list(range(cmin, cmax+1))
    up = [[w.direction(m['rd'], jd)[2] for m in model] for jd in jds]
    if any(abs(v) < 0.0015 for q in up for v in q) or (pcrd is not None and any(w.direction(pcrd, jd)[2] < 0.1 for jd in jds)):
        raise Reject()
    kw = dict(pols=c['pols'], jd=jds if c['nint'] > 1 else (jds[0] if r.integers(2) else None), chan=chan, phase_center=pc, baselines=base,
              flat_response=c['flat'], resolve_src=c['resolve'])
    if any(max(q) < 0 for q in up):
        try:
            simvis.build_sim_data(aa, srcs, **kw)
        except RuntimeError:
            return False
        check(False, 'no source is above the horizon, but data were made')
    out = simvis.build_sim_data(aa, srcs, **kw)
    again = simvis.build_sim_data(aa, srcs, **dict(kw, jd=jds))
    sets = list(out) if isinstance(out, VisibilityData) else [out]
    sets2 = list(again) if isinstance(again, VisibilityData) else [again]
    check(len(sets) == len(sets2) == len(jds), 'number of integrations')
    for jd, ds, ds2 in zip(jds, sets, sets2):
        check(abs(ds.jd - jd) < 1e-8, 'time is {} not {}', ds.jd, jd)
        check([tuple(b) for b in ds.baselines] == expbase, 'baselines {} not {}', ds.baselines, expbase)
        check([p.upper() for p in c['pols']] == list(ds.pols), 'polarizations {}', ds.pols)
        close(ds.freq, w.freq, 1e-9, 0, 'frequencies')
        spc = np.array([0, 0, 1.0]) if pcrd is None else w.direction(pcrd, jd)
        bas = w.basis(spc)
        lam = w.freq/C
        uvw = np.array([np.outer(bas@(w.enu[i] - w.enu[j]), lam) for i, j in expbase])
        sel = np.zeros(nchan, bool)
        sel[cmin:cmax+1] = True
        uvw[:, :, ~sel] = 0
        scale = np.linalg.norm(w.enu, axis=1).max()*2*lam.max()
        perr = 2e-4 if c['pc'] == 'sky' else 1e-6    # astropy and PyEphem positions differ a bit
        close(ds.uvw, uvw, 0, perr*scale+1e-6, 'uvw')
        for pol in c['pols']:
            exp = np.zeros((len(expbase), nchan), complex)
            tot = 0.0
            for m in model:
                s = w.direction(m['rd'], jd)
                if s[2] < 0:
                    continue
                f = m['jys']*(w.freq/1e9/m['mfreq'])**m['index']
                if not c['flat'] and c['beam'] != 'flat':
                    xw, yw = np.broadcast_to(np.radians(np.array(c['beam'])/np.sqrt(8*np.log(2))), 2)
                    g = []
                    for p in pol:
                        # the widths are along east and north for X, turned by 90 degrees for Y
                        a, b = (s[0], s[1]) if p == 'x' else (s[1], s[0])
                        g.append(np.exp(-0.25*((np.arcsin(a)/xw)**2 + (np.arcsin(b)/yw)**2)))
                    f = f*np.sqrt(g[0]*g[1])
                tot = tot + f.max()
                sb = w.basis(s)
                for k, (i, j) in enumerate(expbase):
                    d = w.enu[i] - w.enu[j]
                    v = f*np.exp(2j*np.pi*lam*(d@(s - spc)))
                    if c['resolve'] and m['shape'][0]:
                        uu, vv = np.outer(sb[:2]@d, lam)
                        a0, a1, th = m['shape']
                        x = 2*np.pi*np.hypot(a0*(uu*np.cos(th) - vv*np.sin(th)), a1*(uu*np.sin(th) + vv*np.cos(th)))
                        v = v*np.where(x == 0, 1.0, 2*j1(np.where(x == 0, 1, x))/np.where(x == 0, 1, x))
                    exp[k] += v
            exp[:, ~sel] = 0
            got = getattr(ds, pol.upper()).data
            tol = tot*(2e-5 + 2*np.pi*perr*scale + (0.01 if c['beam'] == 1.5 else 0)) + 1e-30
            check(got.shape == exp.shape, 'shape of the data')
            check(np.isfinite(got).all(), 'values of {} are not finite', pol)
            check(np.abs(got - exp).max() <= tol, '{} differs by {} of {}', pol, np.abs(got - exp).max(), tot)
            close(getattr(ds2, pol.upper()).data, got, 1e-5, 1e-5*tot, 'second simulation')
        if len(c['pols']) > 1:
            a, b = [getattr(ds, p.upper()) for p in c['pols'][:2]]
            keep = b.data.copy()
            a.data *= 3.0
            a.data += 1
            check((b.data == keep).all(), 'polarizations share their values')
    for m, s in zip(model, srcs.values()):
        check(s._jys == m['jys'] and s.index == m['index'], 'source was changed')
    return True

edit = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), nant=st.integers(2, 7), nchan=st.integers(2, 6), nint=st.integers(0, 3),
    offs=st.booleans(), sub=st.booleans(), gap=st.booleans(), same=st.booleans()))

def make(w, c):
    """Data sets with their baselines in different orders; nint 0 is a single data set."""
    r = w.r
    every = [(i, j) for i in range(w.n) for j in range(i, w.n)]
    if c['gap'] and w.n > 2:
        every = [b for b in every if 1 not in b]
    if c['sub']:
        every = [every[k] for k in r.permutation(len(every))[:max(1, len(every)-2)]]
    aa = w.array('flat')
    sets = []
    for k in range(max(1, c['nint'])):
        jd = w.jd0 + k*0.02
        base = [every[q] for q in r.permutation(len(every))]
        pc = 'z'
        if k % 2 or c.get('same'):
            pc = simvis.RadioFixedBody(*w.radec(jd, r.uniform(0, 6), r.uniform(0.5, 1.4)), name='x')
        if k and c.get('same'):
            pc = sets[0].phase_center
        ds = VisibilityDataSet(jd, w.freq.copy(), base, np.zeros((len(base), 3, len(w.freq))), antennaarray=aa, phase_center=pc)
        for p in ('XX', 'YX'):
            ds.append(PolarizationDataSet(p, data=(r.normal(size=(len(base), len(w.freq))) + 1j*r.normal(size=(len(base), len(w.freq))))))
        sets.append(ds)
    return (VisibilityData(sets) if c['nint'] else sets[0]), sets, aa

@part('scale', edit, quick=600, thorough=8000, rule='more than one baseline', seconds=100)
def scale(c):
    w = World(c)
    r = w.r
    data, sets, aa = make(w, c)
    amps, dels, offs = r.uniform(0.2, 3, w.n), r.uniform(-200, 200, w.n), r.uniform(-3, 3, w.n)
    keep = [{p: getattr(d, p).data.copy() for p in d.pols} for d in sets]
    out = simvis.scale_data(data, amps, dels, phase_offsets=offs if c['offs'] else None)
    outs = list(out) if c['nint'] else [out]
    g = amps[:, None]*np.exp(2j*np.pi*w.freq/1e9*dels[:, None] + (1j*offs[:, None] if c['offs'] else 0))
    for d, o, k in zip(sets, outs, keep):
        check([tuple(b) for b in o.baselines] == list(d.baselines), 'baselines')
        for p in k:
            check((getattr(d, p).data == k[p]).all(), 'the input was changed')
            for b, (i, j) in enumerate(d.baselines):
                close(getattr(o, p).data[b], k[p][b]*g[i]*np.conj(g[j]), 1e-5, 1e-5, f'{p} of baseline {i},{j}')
    try:
        simvis.scale_data([1], amps, dels)
    except TypeError:
        pass
    else:
        check(False, 'data of the wrong type were taken')
    return len(sets[0].baselines) > 1

@part('shift', edit, quick=400, thorough=6000, rule='more than one baseline', seconds=100)
def shift(c):
    w = World(c)
    data, sets, aa = make(w, c)
    w.enu = w.r.uniform(-1, 1, (w.n, 3))*[60, 60, 5]
    w.ants = [Antenna(i+1, stand=Stand(w.ids[i], *w.enu[i]), pol=0, digitizer=i+1) for i in range(w.n)]
    new = w.array('flat', jd=w.jd0)
    for d in sets:
        if not isinstance(d.phase_center, str):
            d.phase_center.compute(new)
    keep = [{p: getattr(d, p).data.copy() for p in d.pols} for d in sets]
    out = simvis.shift_data(data, new)
    outs = list(out) if c['nint'] else [out]
    lam = w.freq/C
    for d, o, k in zip(sets, outs, keep):
        check(not d.uvw.any(), 'the input was changed')
        pc = d.phase_center
        s = np.array([0, 0, 1.0]) if isinstance(pc, str) else w.direction((pc._ra, pc._dec), d.jd)
        bas = w.basis(s)
        for b, (i, j) in enumerate(d.baselines):
            close(o.uvw[b], np.outer(bas@(w.enu[i] - w.enu[j]), lam), 0, 3e-4*200*lam.max(), f'uvw of baseline {i},{j}')
        for p in k:
            check((getattr(o, p).data == k[p]).all(), 'values were changed')
    return len(sets[0].baselines) > 1

@part('noise', edit, quick=400, thorough=6000, rule='two antennas with different SEFDs', seconds=100)
def noise(c):
    w = World(dict(c, nchan=2))
    r = w.r
    w.freq = 40e6 + np.arange(400)*r.uniform(1e3, 1e5)
    data, sets, aa = make(w, dict(c, nint=min(c['nint'], 2)))
    keep = [{p: getattr(d, p).data.copy() for p in d.pols} for d in sets]
    tint, bw, eff = r.uniform(0.1, 100), r.choice([None, 12345.0]), r.uniform(0.3, 1)
    ants = sorted({a for b in sets[0].baselines for a in b})
    if c['offs']:
        sefd = r.uniform(500, 20000)
        use = {a: sefd for a in ants}
    else:
        sefd = 10**r.uniform(2, 4, len(ants))
        use = dict(zip(ants, sefd))
    np.random.seed(c['seed'])
    out = simvis.add_baseline_noise(data, sefd, tint, bandwidth=bw, efficiency=eff)
    outs = list(out) if c['nint'] else [out]
    bwx = bw or (w.freq[1] - w.freq[0])
    for d, o, k in zip(sets, outs, keep):
        for p in k:
            check((getattr(d, p).data == k[p]).all(), 'the input was changed')
            for b, (i, j) in enumerate(d.baselines):
                n = getattr(o, p).data[b] - k[p][b]
                sig = np.sqrt(use[i]*use[j])/eff/np.sqrt(2*bwx*tint)
                for q in (n.real, n.imag):
                    x = q.std()/sig
                    check(0.75 < x < 1.3, 'noise of baseline {},{} is {} times the expected', i, j, x)
    if not c['offs']:
        try:
            simvis.add_baseline_noise(data, np.append(sefd, 1.0), tint, bandwidth=bw)
        except RuntimeError:
            pass
        else:
            check(False, 'a wrong number of SEFDs was taken')
    return len(ants) > 1
