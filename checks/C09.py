"""C09: the correlator returns the calibrated, averaged cross products of each baseline."""
import numpy as np
from vlib.core import *
from vlib import dsp
from hypothesis import strategies as st
from lsl.correlator import fx
import ephem
from astropy.coordinates import AltAz, SkyCoord
from astropy import units as u

POLS = {'XX': (0, 0), 'XY': (0, 1), 'YX': (1, 0), 'YY': (1, 1), 'RR': (0, 0), 'LL': (1, 1), 'RL': (0, 1), 'LR': (1, 0)}

@st.composite
def array_s(draw, nmax=4):
    n = draw(st.integers(2, nmax))
    return dict(n=n, spread=draw(st.sampled_from([0.0, 5.0, 60.0, 3000.0])), cable=draw(st.sampled_from([0.0, 50.0, 200.0])),
                samecable=draw(st.booleans()), dd=draw(st.sampled_from([0.0, 2.4e-9, 2.0e-8])), offset=draw(st.sampled_from([0.0, 0.0, 3e-7])),
                order=draw(st.sampled_from(['xy', 'yx', 'blocks'])), aseed=draw(st.integers(0, 10**6)))

def make_array(a):
    """Antennas of a['n'] stands, with X and Y of each stand in the same relative order."""
    r = rng(a['aseed'])
    ids = [int(i) for i in r.permutation(250)[:a['n']] + 1]
    ants = {}
    for s in ids:
        xyz = r.uniform(-1, 1, 3)*a['spread']*np.array([1, 1, 0.05])
        base = r.uniform(0, 1)*a['cable'] + 10
        off = r.uniform(0, 1)*a['offset']
        for p in (0, 1):
            ln = base if a['samecable'] else base + r.uniform(0, 1)*a['cable']
            x = dsp.antenna(s, p, xyz, ln, a['dd'], vf=r.uniform(0.7, 0.9), offset=off, a0=r.uniform(0.001, 0.006), a1=r.uniform(0, 1e-3))
            x.cable.asp_atten_db = float(r.uniform(0, 3))
            if a['samecable'] and p == 1:
                x.cable.vf = ants[s, 0].cable.vf
            x.cable.stretch = float(r.uniform(0.99, 1.01))
            if a['samecable'] and p == 1:
                x.cable.stretch = ants[s, 0].cable.stretch
            ants[s, p] = x
    if a['order'] == 'xy':
        return [ants[s, p] for s in ids for p in (0, 1)]
    if a['order'] == 'yx':
        return [ants[s, p] for s in ids for p in (1, 0)]
    return [ants[s, p] for p in (0, 1) for s in ids]

pc_s = st.one_of(st.just(('z',)), st.tuples(st.sampled_from(['tuple', 'altaz', 'skycoord', 'body']), st.floats(0, 359), st.floats(10, 90)))

class Body(ephem.FixedBody):
    pass

def phase_center(pc):
    """(argument for LSL, azimuth, altitude in radians)"""
    if pc[0] == 'z':
        return 'z', 0.0, np.pi/2
    az, alt = np.radians(pc[1]), np.radians(pc[2])
    if pc[0] == 'tuple':
        return (pc[1], pc[2]), az, alt
    if pc[0] == 'altaz':
        return AltAz(az=pc[1]*u.deg, alt=pc[2]*u.deg), az, alt
    if pc[0] == 'skycoord':
        return SkyCoord(AltAz(az=pc[1]*u.deg, alt=pc[2]*u.deg)), az, alt
    obs = ephem.Observer()
    obs.lat, obs.lon, obs.elevation, obs.pressure = '34.07', '-107.628', 2100, 0
    obs.date = '2020/3/1 12:00:00'
    ra, dec = obs.radec_of(az, alt)
    b = ephem.FixedBody()
    b._ra, b._dec, b._epoch = ra, dec, obs.date
    b.compute(obs)
    return b, float(b.az), float(b.alt)

def delays(ants, freq, az, alt):
    """Per antenna and channel, before the common minimum is taken away."""
    s = dsp.pointing(az, alt)
    d = np.array([dsp.cable_delay(a, freq) - s @ np.array(a.stand.xyz)/dsp.C for a in ants])
    return d

@st.composite
def fx_s(draw):
    kind = draw(st.sampled_from(dsp.REAL + dsp.CPLX*2))
    L = draw(st.sampled_from([2, 3, 4, 7, 8, 15, 16, 33, 64]))
    pfb = draw(st.booleans())
    return dict(arr=draw(array_s()), kind=kind, L=L, nfft=draw(st.integers(2, 8)), extra=draw(st.integers(0, 2*L)),
                overlap=draw(st.sampled_from([1, 1, 1, 2, 3, 4])), pfb=pfb, window='none' if pfb else draw(st.sampled_from(list(dsp.WINDOWS))),
                clip=draw(st.sampled_from([0, 0, 0, 1])), rate=draw(st.sampled_from([None, 19.6e6, 196e6, 1e5])), central=draw(st.sampled_from([38e6, 74.03e6])),
                auto=draw(st.booleans()), gain=draw(st.booleans()), pc=draw(pc_s), pol=draw(st.sampled_from(list(POLS))),
                bl=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))

def setup(c):
    cplx = c['kind'] in dsp.CPLX
    ants = make_array(c['arr'])
    rate = c['rate'] or 196e6
    if cplx and rate > 20e6:
        c = dict(c, central=150e6)      # negative sky frequencies have no cable delay
    freq = dsp.channel_freqs(c['L'], cplx, rate, c['central'])
    pc, az, alt = phase_center(c['pc'])
    d = delays(ants, freq, az, alt)
    n = c['L']*(1 if cplx else 2)
    ref = c['L']//2
    span = d[:, ref].max() - d[:, ref].min()
    nsamp = n*c['nfft'] + c['extra'] + int(span*rate)
    if nsamp > 40000:
        raise Reject()
    x, y = dsp.make(rng(c['seed']), c['kind'], (len(ants), nsamp))
    clip = 0
    if c['clip']:
        clip = max(1, int(np.quantile(np.abs(y), 1 - 1/(3.0*len(ants)*n))))
    kw = dict(LFFT=c['L'], overlap=c['overlap'], include_auto=c['auto'], pfb=c['pfb'], central_freq=c['central'], gain_correct=c['gain'],
              return_baselines=c['bl'], clip_level=clip, phase_center=pc)
    if c['rate']:
        kw['sample_rate'] = c['rate']
    if dsp.WINDOWS[c['window']] is not None:
        kw['window'] = dsp.WINDOWS[c['window']]
    return ants, cplx, rate, freq, d, n, x, y, clip, kw

def spectra(c, sel, ants, cplx, rate, freq, d, n, y, clip, dmin, fifomax):
    """Delayed, phased transforms of the selected antennas."""
    ref = c['L']//2
    F, V = [], []
    for i in sel:
        q = (d[i, ref] - dmin)*rate
        if abs(q % 1 - 0.5) < 1e-6:
            raise Reject()        # rounding tie
        k = int(np.floor(q + 0.5))
        X, ok = dsp.blocks(y[i], c['L'], cplx, overlap=c['overlap'], pfb=c['pfb'], window=dsp.WINDOWS[c['window']], clip=clip, start=k, stop=len(y[i]) - (fifomax - k))
        frac = d[i] - dmin - k/rate
        ph = np.where(freq == 0, 0, freq*np.where(np.isfinite(frac), frac, 0))
        if cplx:
            ph = ph + freq[c['L']//2]*k/rate
        X = X*np.exp(2j*np.pi*ph)/np.sqrt(n)*ok[:, None]
        if c['gain']:
            X = X/np.sqrt(dsp.cable_gain(ants[i], freq))
        F.append(X)
        V.append(ok)
    return F, V

def common(c, s):
    ants, cplx, rate, freq, d, n, x, y, clip, kw = s
    ref = c['L']//2
    return ants, cplx, rate, freq, d, n, y, clip

def compare(got, want, scale, msg, *args):
    bad = ~(np.abs(got - want) <= 5e-5*scale + 1e-4*np.abs(want))
    check(not bad.any(), msg, *args, np.argwhere(bad)[:3].tolist(), got[bad][:2], want[bad][:2])

def baselines_of(n, auto):
    return [(i, j) for i in range(n) for j in range(i if auto else i+1, n)]

@part('fx', fx_s(), quick=6000, thorough=16000, rule='two or more transforms averaged, with delays')
def fxm(c):
    s = setup(c)
    ants, cplx, rate, freq, d, n, x, y, clip, kw = s
    p1, p2 = POLS[c['pol']]
    sel1 = [i for i, a in enumerate(ants) if a.pol == p1]
    sel2 = [i for i, a in enumerate(ants) if a.pol == p2]
    ref = c['L']//2
    dmin = d[sel1 + sel2, ref].min()
    fm = int(np.floor((d[sel1 + sel2, ref].max() - dmin)*rate + 0.5))
    args = (ants, cplx, rate, freq, d, n, y, clip, dmin, fm)
    F1, V1 = spectra(c, sel1, *args)
    F2, V2 = spectra(c, sel2, *args)
    with np.errstate(all='ignore'):
        out = fx.FXMaster(x, ants, pol=c['pol'], **kw)
    want_bl = baselines_of(len(sel1), c['auto'])
    if c['bl']:
        bl, f, vis = out
        check([(a.stand.id, a.pol, b.stand.id, b.pol) for a, b in bl] ==
              [(ants[sel1[i]].stand.id, p1, ants[sel2[j]].stand.id, p2) for i, j in want_bl], "baseline list")
    else:
        f, vis = out
    close(f, freq, 1e-12, 1e-6, "frequencies")
    check(vis.shape == (len(want_bl), c['L']), "shape", vis.shape)
    many = 0
    for b, (i, j) in enumerate(want_bl):
        ok = V1[i] & V2[j]
        if not ok.any():
            continue
        many = max(many, ok.sum())
        want = (F1[i]*F2[j].conj()).sum(axis=0)/ok.sum()
        scale = np.sqrt((np.abs(F1[i])**2).sum(0).max()*(np.abs(F2[j])**2).sum(0).max())/ok.sum()
        compare(vis[b], want, scale, "visibility", (i, j))
        if clip and not ok.all():
            label('clipped')
    label(c['kind'])
    return many > 1 and c['arr']['spread'] > 0

@part('fxstokes', fx_s(), quick=4500, thorough=12000, rule='two or more transforms averaged, with delays')
def fxs(c):
    s = setup(c)
    ants, cplx, rate, freq, d, n, x, y, clip, kw = s
    sel1 = [i for i, a in enumerate(ants) if a.pol == 0]
    sel2 = [i for i, a in enumerate(ants) if a.pol == 1]
    ref = c['L']//2
    dmin = d[:, ref].min()
    fm = int(np.floor((d[:, ref].max() - dmin)*rate + 0.5))
    args = (ants, cplx, rate, freq, d, n, y, clip, dmin, fm)
    X, VX = spectra(c, sel1, *args)
    Y, VY = spectra(c, sel2, *args)
    with np.errstate(all='ignore'):
        out = fx.FXStokes(x, ants, **kw)
    want_bl = baselines_of(len(sel1), c['auto'])
    if c['bl']:
        bl, f, vis = out
        check([(a.stand.id, b.stand.id) for a, b in bl] == [(ants[sel1[i]].stand.id, ants[sel1[j]].stand.id) for i, j in want_bl], "baseline list")
    else:
        f, vis = out
    close(f, freq, 1e-12, 1e-6, "frequencies")
    check(vis.shape == (4, len(want_bl), c['L']), "shape", vis.shape)
    many = 0
    for b, (i, j) in enumerate(want_bl):
        ok = VX[i] & VX[j] & VY[i] & VY[j]
        if not ok.any():
            continue
        many = max(many, ok.sum())
        m = ok.sum()
        dot = lambda p, q: (p[ok]*q[ok].conj()).sum(axis=0)/m
        xx, yy, xy = dot(X[i], X[j]), dot(Y[i], Y[j]), dot(X[i], Y[j])
        want = np.array([xx+yy, xx-yy, 2*xy.real, 2*xy.imag])
        top = lambda p: (np.abs(p)**2).sum(0).max()/m
        scale = np.sqrt((top(X[i])+top(Y[i]))*(top(X[j])+top(Y[j])))
        compare(vis[:, b], want, scale, "Stokes visibility", (i, j))
    return many > 1 and c['arr']['spread'] > 0

x_s = st.fixed_dictionaries(dict(arr=array_s(), L=st.integers(1, 20), nt=st.integers(1, 12), kind=st.sampled_from(['c8', 'c16']), auto=st.booleans(),
                                 gain=st.booleans(), pc=pc_s, pol=st.sampled_from(list(POLS)), bl=st.booleans(), stokes=st.booleans(), seed=st.integers(0, 10**6)))

@part('x', x_s, quick=2500, thorough=10000, rule='two or more times averaged, with delays')
def xm(c):
    ants = make_array(c['arr'])
    freq = np.sort(rng(c['seed']).uniform(10e6, 88e6, c['L']))
    pc, az, alt = phase_center(c['pc'])
    d = delays(ants, freq, az, alt)
    x, y = dsp.make(rng(c['seed']), c['kind'], (len(ants), c['L'], c['nt']))
    before = x.copy()
    z = y*np.exp(2j*np.pi*freq*d)[:, :, None]
    if c['gain']:
        z = z/np.array([np.sqrt(dsp.cable_gain(a, freq)) for a in ants])[:, :, None]
    kw = dict(include_auto=c['auto'], gain_correct=c['gain'], return_baselines=c['bl'], phase_center=pc)
    p1, p2 = (0, 1) if c['stokes'] else POLS[c['pol']]
    sel1 = [i for i, a in enumerate(ants) if a.pol == p1]
    sel2 = [i for i, a in enumerate(ants) if a.pol == p2]
    out = fx.XStokes(freq, x, ants, **kw) if c['stokes'] else fx.XMaster(freq, x, ants, pol=c['pol'], **kw)
    check((x == before).all(), "the input was changed")
    want_bl = baselines_of(len(sel1), c['auto'])
    if c['bl']:
        bl, out = out
        check([(a.stand.id, b.stand.id) for a, b in bl] == [(ants[sel1[i]].stand.id, ants[sel2[j]].stand.id) for i, j in want_bl], "baseline list")
    top = lambda k: (np.abs(z[k])**2).sum(1).max()/c['nt']
    for b, (i, j) in enumerate(want_bl):
        dot = lambda p, q: (z[p]*z[q].conj()).mean(axis=1)
        if c['stokes']:
            xx, yy, xy = dot(sel1[i], sel1[j]), dot(sel2[i], sel2[j]), dot(sel1[i], sel2[j])
            compare(out[:, b], np.array([xx+yy, xx-yy, 2*xy.real, 2*xy.imag]), np.sqrt((top(sel1[i])+top(sel2[i]))*(top(sel1[j])+top(sel2[j]))), "Stokes visibility", (i, j))
        else:
            compare(out[b], dot(sel1[i], sel2[j]), np.sqrt(top(sel1[i])*top(sel2[j])), "visibility", (i, j))
    return c['nt'] > 1 and c['arr']['spread'] > 0

tone_s = st.fixed_dictionaries(dict(arr=array_s(), L=st.sampled_from([8, 16, 32]), chan=st.integers(1, 7), cplx=st.booleans(),
                                    rate=st.sampled_from([19.6e6, 196e6]), pc=pc_s, pol=st.sampled_from(['XX', 'XY', 'YY']), pfb=st.booleans()))

@part('tone', tone_s, quick=2500, thorough=6000, rule='delays of more than a sample')
def tone(c):
    """A plane wave from the phase center has zero phase on every baseline (independent of the reference above)."""
    ants = make_array(c['arr'])
    L, rate = c['L'], c['rate']
    fc = 150e6
    freq = dsp.channel_freqs(L, c['cplx'], rate, fc)
    pc, az, alt = phase_center(c['pc'])
    d = delays(ants, freq, az, alt)
    span = (np.nanmax(d[:, 1:]) - np.nanmin(d[:, 1:]))*rate
    n = (1 if c['cplx'] else 2)*L
    nsamp = n*8 + int(span) + 2
    if nsamp > 30000:
        raise Reject()
    f = freq[c['chan']]
    t = np.arange(nsamp)/rate
    tau = d[:, c['chan']][:, None]
    if c['cplx']:
        x = np.exp(2j*np.pi*((f - fc)*t[None] - f*tau))
    else:
        x = np.cos(2*np.pi*f*(t[None] - tau))
    x = (100*x).astype('c8' if c['cplx'] else 'f4')
    kw = dict(LFFT=L, sample_rate=rate, central_freq=fc, phase_center=pc, pfb=c['pfb'])
    with np.errstate(all='ignore'):
        _, vis = fx.FXMaster(x, ants, pol=c['pol'], **kw)
    v = vis[:, c['chan']]
    check((np.abs(np.angle(v)) < (0.1 if c["pfb"] else 5e-3)).all(), "phase of a source at the phase center", np.angle(v))
    if not c['pfb']:
        close(np.abs(v), np.full(v.shape, 100**2*(L if c['cplx'] else 2*L/4)), 1e-2, 0, "amplitude of a source at the phase center")
    return span > 1

@part('xengine_ci8', st.fixed_dictionaries(dict(n=st.integers(1, 5), L=st.integers(1, 9), nt=st.integers(1, 30), three=st.booleans(), blank=st.booleans(), kind=st.sampled_from(['ci8', 'c8', 'c16']), seed=st.integers(0, 10**6))),
      quick=1500, thorough=5000, rule='more than one stand and time')
def xengine(c):
    from lsl.correlator import _core
    r = rng(c['seed'])
    shape = (c['n'], c['L'], c['nt'])
    x1, y1 = dsp.make(r, c['kind'], shape)
    x2, y2 = dsp.make(r, c['kind'], shape)
    v1, v2 = np.ones((2, c['n'], c['nt']), np.uint8)
    if c['blank']:
        v1 = r.integers(0, 2, v1.shape).astype(np.uint8)
        v2 = r.integers(0, 2, v2.shape).astype(np.uint8)
        if c['kind'] == 'ci8':
            for x, v in ((x1, v1), (x2, v2)):
                for k in ('re', 'im'):
                    x[k] *= v[:, None, :].astype('i1')
        else:
            x1 = (x1*v1[:, None, :]).astype(c['kind'])
            x2 = (x2*v2[:, None, :]).astype(c['kind'])
        y1, y2 = y1*v1[:, None, :], y2*v2[:, None, :]
    if c['kind'] == 'ci8':
        x1, x2 = [x.view('i1').reshape(x.shape + (2,)) for x in (x1, x2)]
    bls = baselines_of(c['n'], True)
    if c['three']:
        out = _core.XEngine3(x1, x2, v1, v2)
        prods = [(y1, y1, v1, v1), (y1, y2, v1, v2), (y2, y1, v2, v1), (y2, y2, v2, v2)]
    else:
        out = _core.XEngine2(x1, x2, v1, v2)[None]
        prods = [(y1, y2, v1, v2)]
    check(out.shape == (len(prods), len(bls), c['L']), "shape", out.shape)
    for k, (a, b, va, vb) in enumerate(prods):
        for m, (i, j) in enumerate(bls):
            cnt = (va[i] & vb[j]).sum()
            if cnt:
                s = np.sqrt((np.abs(a[i])**2).sum(1).max()*(np.abs(b[j])**2).sum(1).max())/cnt + 1e-9
                compare(out[k, m], (a[i]*b[j].conj()).sum(axis=1)/cnt, s, "cross product", (k, i, j))
    return c['n'] > 1 and c['nt'] > 1
