"""C30: dispersion delays, dedispersion and multi-path scattering against the cold plasma law."""
import logging
import math
import numpy as np
from hypothesis import strategies as st
from vlib.core import *
from lsl.misc import dedispersion as dd, scattering as sc
from lsl.logger import LSL_LOGGER
LSL_LOGGER.setLevel(logging.ERROR)

seeds = st.integers(0, 2**32 - 1)
K = 4.148808e3


def refused(f, *exc):
    try:
        f()
    except exc:
        return True
    return False


# ---------------------------------------------------------------- delays and incoherent dedispersion
inc = st.fixed_dictionaries(dict(seed=seeds, nc=st.integers(1, 20), nt=st.integers(1, 60), boundary=st.sampled_from(['wrap', 'fill', 'default']),
                                 dt=st.sampled_from(['f8', 'f4', 'i4', 'c16', 'masked']), sign=st.sampled_from([1, 1, 1, -1]), big=st.booleans(), lst=st.booleans()))


@part('incoherent', inc, quick=6000, thorough=10000, rule='some channel is moved by part of the data')
def incoherent(c):
    r = rng(c['seed'])
    nc, nt = c['nc'], c['nt']
    f = r.uniform(10e6, 98e6, nc)
    if r.random() < 0.6:
        f.sort()
    dm = c['sign'] * 10**r.uniform(-2, 3)
    top = np.inf if nc == 1 else f.max()
    want = np.array([dm * K * ((1e6 / v)**2 - (1e6 / top)**2) for v in f])
    g = dd.delay([float(v) for v in f] if c['lst'] else f, dm)
    close(np.atleast_1d(g), want, 1e-9, 1e-12 * np.abs(want).max() + 1e-15, 'delays')
    check(np.ndim(g) == (0 if nc == 1 else 1), 'one frequency has one delay')
    close(dd.delay(float(f[0]), dm), dm * K * (1e6 / f[0])**2, 1e-9, 0, 'delay of one frequency')
    span = np.abs(want).max()
    tint = max(span / (nt * r.uniform(0.2, 1.5)), 1e-12) if not c['big'] else span / 10**r.uniform(2, 11)
    fr = np.abs(want) / tint % 1
    if (np.abs(fr - 0.5) < 1e-6).any() or span == 0:
        raise Reject()
    sh = [int(v) for v in np.floor(want / tint + 0.5)]
    w = r.integers(-100, 100, (nt, nc)).astype('f8' if c['dt'] == 'masked' else c['dt'])
    if c['dt'] == 'c16':
        w = w + 1j * r.normal(size=w.shape)
    m = np.zeros(w.shape, bool)
    if c['dt'] == 'masked':
        m = r.random(w.shape) < 0.2
        w = np.ma.array(w, mask=m)
    elif c['dt'] == 'f8' and r.random() < 0.3:
        w[r.integers(0, nt), r.integers(0, nc)] = np.nan
    pre = w.copy()
    kw = {} if c['boundary'] == 'default' else {'boundary': c['boundary']}
    fv = np.nan
    if c['boundary'] == 'fill' and r.random() < 0.5:
        fv = kw['fill_value'] = -7.5
    o = dd.incoherent(f, w, tint, dm, **kw)
    check(o.shape == w.shape, 'shape %r', o.shape)
    exp = np.empty(w.shape, np.result_type(w.dtype, float))
    em = np.zeros(w.shape, bool)
    raw = np.ma.getdata(w)
    for i in range(nc):
        for t in range(nt):
            s = t + sh[i]
            if c['boundary'] == 'fill' and not 0 <= s < nt:
                exp[t, i] = fv
            else:
                exp[t, i] = raw[s % nt, i]
                em[t, i] = m[s % nt, i]
    a = np.ma.getdata(o)[~em]
    check(np.allclose(a, exp[~em], rtol=1e-6, atol=1e-6, equal_nan=True), 'dedispersed data (shifts %r, %s) differ', sh, c['boundary'])
    check(np.array_equal(np.ma.getmaskarray(o), em), 'masks have not moved with the data')
    check(np.array_equal(np.ma.getdata(w), np.ma.getdata(pre), equal_nan=c['dt'] not in ('i4',)), 'the data have been changed')
    check(refused(lambda: dd.incoherent(f, w, tint, dm, boundary='clip'), ValueError), 'an unknown boundary is accepted')
    label(c['boundary'])
    return any(0 < abs(s) < nt for s in sh)


# ---------------------------------------------------------------- coherent dedispersion
coh = st.fixed_dictionaries(dict(seed=seeds, logn=st.floats(0.2, 9.5), f0=st.floats(20e6, 88e6), frac=st.floats(0.002, 0.2), extra=st.floats(0, 1.0), sets=st.integers(1, 4),
                                 buf=st.sampled_from(['both', 'both', 'none', 'prev', 'next']), dt=st.sampled_from(['c16', 'c8']), taper=st.booleans(),
                                 cache=st.booleans(), kind=st.sampled_from(['dispersed', 'dispersed', 'zero'])))


def size_of(f0, bw, dm):
    d = abs(dm) * K * ((1e6 / (f0 - bw / 2))**2 - (1e6 / (f0 + bw / 2))**2) * bw
    return d


@part('coherent', coh, quick=1500, thorough=3000, shards=4, rule='a dispersion of more than one sample')
def coherent(c):
    r = rng(c['seed'])
    f0, bw = c['f0'], c['f0'] * c['frac']
    dsz = 2**c['logn']
    unit = size_of(f0, bw, 1.0)
    dm = dsz / unit if c['kind'] == 'dispersed' else 0.0
    if r.random() < 0.15:
        dm = -dm
    N = dd.get_coherent_sample_size(f0, bw, dm)
    check(N == int(N) and N & (N - 1) == 0 and N >= 4, 'window of %r samples', N)
    if dm:
        check(N >= 2 * dsz * (1 - 1e-9) and (N <= 4 * dsz * (1 + 1e-9) or N == 4), 'window of %d for a dispersion of %g samples', N, dsz)
    size = int(N * (c['sets'] + c['extra'] * 0.999))
    tot = max(64, 2**int(math.ceil(math.log2(size + 4 * N))))
    # our own signal: noise, dispersed in one long transform
    f = np.fft.fftfreq(tot, 1 / bw)
    spec = (r.normal(size=tot) + 1j * r.normal(size=tot)) * np.sqrt(tot)
    spec *= np.abs(f) < 0.42 * bw
    fm = (f0 + f) / 1e6
    # phase such that -dphi/df/2pi is the delay against the center of the band
    phi = 2 * np.pi * K * 1e6 * dm * (f / 1e6)**2 / ((f0 / 1e6)**2 * fm)
    clean = np.fft.ifft(spec)
    disp = np.fft.ifft(spec * np.exp(1j * phi)).astype(c['dt'])
    t = np.arange(tot) / bw + 1234.5
    a = N
    x, tx = disp[a:a + size], t[a:a + size]
    kw = dict(taper=c['taper'], enable_caching=c['cache'])
    prev = c['buf'] in ('both', 'prev')
    nxt = c['buf'] in ('both', 'next')
    if prev:
        kw.update(previous_time=t[:a], previous_data=disp[:a])
    if nxt:
        kw.update(next_time=t[a + size:a + size + 2 * N], next_data=disp[a + size:a + size + 2 * N])
    pre = x.copy()
    ot, od = dd.coherent(tx, x, f0, bw, dm, **kw)
    check(np.array_equal(x, pre), 'the data have been changed')
    check(od.shape == x.shape and od.dtype == x.dtype and ot.shape == tx.shape, 'shape or type of the result')
    lo = 0 if prev else N // 2
    hi = size if nxt else N * c['sets'] - N // 2
    if hi <= lo:
        return False
    check(np.array_equal(ot[lo:hi], tx[lo:hi]), 'times of the result')
    e, w = od[lo:hi], clean[a + lo:a + hi]
    rms = math.sqrt((np.abs(clean)**2).mean())
    err = np.abs(e - w) / rms
    lim = 0.12
    got = math.sqrt((err**2).mean())
    if not dm and not c['taper']:
        check(got < 1e-4, 'data without dispersion have changed by %g', got)
    if N < 64 and dm:
        lim = 0.4 if N >= 16 else 1.0   # windows of a few channels only approximate the dispersion
    if N < 64 and c['taper']:
        lim = 99
    check(got < lim, 'dedispersed data differ by %.3f rms (window %d, dispersion %.1f samples, %s, dm %g)', got, N, dsz if dm else 0, c['buf'], dm)
    if hi - lo >= 64:
        # none of the parts of the output is missing
        for q in np.array_split(np.arange(hi - lo), max(1, (hi - lo) // max(16, N // 4))):
            loc = math.sqrt((np.abs(e[q])**2).mean()) / rms
            check(loc > 0.3 * math.sqrt((np.abs(w[q])**2).mean()) / rms, 'part of the output is empty')
    # the cache does not change the result; other parameters are not mixed up with it
    dd.coherent(tx, x, f0, bw, dm * 0.5, taper=c['taper'])
    ot2, od2 = dd.coherent(tx, x, f0, bw, dm, **dict(kw, enable_caching=not c['cache']))
    check(np.array_equal(od2, od) and np.array_equal(ot2, ot), 'the result depends on earlier calls')
    # blocks that follow each other give the same as all at once
    if c['buf'] == 'both' and c['sets'] >= 2:
        h = N // 2 * int(r.integers(2, c['sets'] * 2 - 1)) if c['sets'] * 2 - 1 > 2 else N
        if size - h >= N and h >= N:
            k1 = dict(kw, next_time=t[a + h:], next_data=disp[a + h:])
            k2 = dict(kw, previous_time=t[:a + h], previous_data=disp[:a + h])
            p1 = dd.coherent(tx[:h], x[:h], f0, bw, dm, **k1)
            p2 = dd.coherent(tx[h:], x[h:], f0, bw, dm, **k2)
            close(np.concatenate([p1[1], p2[1]]), od, 1e-4, 1e-4 * rms, 'in two parts')
            check(np.array_equal(np.concatenate([p1[0], p2[0]]), ot), 'times in two parts')
    check(refused(lambda: dd.coherent(tx[:N - 1], x[:N - 1], f0, bw, dm), RuntimeWarning), 'too few samples are accepted')
    for k in (1, N // 4 - 1):
        if 0 < k < N // 4:
            check(refused(lambda: dd.coherent(tx, x, f0, bw, dm, previous_time=t[:k], previous_data=disp[:k]), RuntimeError), '%d of %d previous samples are accepted', k, N // 4)
    if prev:
        # exactly as many previous samples as are needed
        k = N // 4
        o3 = dd.coherent(tx, x, f0, bw, dm, **dict(kw, previous_time=t[a - k:a], previous_data=disp[a - k:a]))
        check(np.array_equal(o3[1], od) and np.array_equal(o3[0], ot), 'the result depends on the number of previous samples')
    if N > 4:
        check(refused(lambda: dd.coherent(tx, x, f0, bw, dm, next_time=t[:1], next_data=disp[:1]), RuntimeError), 'one next sample is accepted')
    label('%s %s' % (c['buf'], 'dm=0' if not dm else 'dm>0' if dm > 0 else 'dm<0'))
    return bool(dm)


tap = st.fixed_dictionaries(dict(seed=seeds, logn=st.floats(5, 8.5), f0=st.floats(20e6, 88e6), frac=st.floats(0.002, 0.2), taper=st.booleans()))


@part('taper', tap, quick=1000, thorough=2000, rule='a tapered tone at the edge of the band')
def taper(c):
    r = rng(c['seed'])
    f0, bw = c['f0'], c['f0'] * c['frac']
    dm = 2**c['logn'] / size_of(f0, bw, 1.0)
    N = dd.get_coherent_sample_size(f0, bw, dm)
    k = int(r.integers(-N // 2 + 1, N // 2))
    if r.random() < 0.6:
        k = int(r.choice([-1, 1])) * int(N * r.uniform(0.45, 0.495))
    x = np.exp(2j * np.pi * k / N * np.arange(3 * N))
    t = np.arange(3 * N) / bw
    _, o = dd.coherent(t, x, f0, bw, dm, taper=c['taper'])
    a = o[N // 2:5 * N // 2]
    q = abs(k) / N
    # half a channel of freedom for the center of the band and its width
    hi, lo = [1 / math.sqrt(1 + (max(q + e, 0) / (0.47 * (1 + f)))**80) if c['taper'] else 1.0 for e, f in ((-0.6 / N, 0), (0.6 / N, -1.0 / N))]
    v = np.abs(a)
    check(lo - 1e-6 <= v.min() and v.max() <= hi + 1e-6, 'tone at %.3f of the band has an amplitude of %g to %g, not %g to %g', k / N, v.min(), v.max(), lo, hi)
    # the tone is only rotated, by the phase of the dispersion
    ph = np.angle(a * np.conj(x[N // 2:5 * N // 2]))
    f = k / N * bw / 1e6
    want = -2 * np.pi * K * 1e6 * dm * f**2 / ((f0 / 1e6)**2 * (f0 / 1e6 + f))
    check(np.abs(np.exp(1j * ph) - np.exp(1j * want)).max() < 1e-3, 'phase of the tone')
    return c['taper'] and q > 0.45


# ---------------------------------------------------------------- scattering
scr = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(2, 400), kind=st.sampled_from(['thin', 'thick', 'uniform'])))


@part('screens', scr, quick=2500, thorough=4000, rule='more than one time after zero')
def screens(c):
    r = rng(c['seed'])
    tau = 10**r.uniform(-4, 1)
    dt = tau * 10**r.uniform(-1.5, 0)
    t = (np.arange(c['n']) - int(r.integers(0, c['n']))) * dt
    with np.errstate(all='ignore'):
        g = getattr(sc, c['kind'])(t.copy(), tau)
    pos = t > 0
    w = np.zeros(len(t))
    for i in np.flatnonzero(t >= 0):
        v = t[i]
        if c['kind'] == 'thin':
            w[i] = math.exp(-v / tau)
        elif v > 0:
            w[i] = v**-1.5 * math.exp(-math.pi**2 * tau / 16 / v) if c['kind'] == 'thick' else v**-2.5 * math.exp(-math.pi**2 * tau / 4 / v)
    if w.sum() <= 1e-250:
        return False
    w /= w.sum()
    close(g, w, 1e-6, 1e-9, 'broadening by a %s screen' % c['kind'])
    label(c['kind'])
    return pos.sum() > 1


uns = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(200, 400), k=st.integers(2, 5), two=st.booleans(), t0=st.sampled_from([0.0, 0.0, -1.0, 3.7]), gain=st.sampled_from([0.05, 0.1, 0.2]),
                                 kind=st.sampled_from(['thin', 'thin', 'thin', 'end', 'none'])))


@part('unscatter', uns, quick=300, thorough=600, shards=4, rule='a scattered pulse is restored')
def unscatter(c):
    r = rng(c['seed'])
    n = c['n']
    t = np.linspace(0, 1.0, n)
    dt = t[1] - t[0]
    tau = c['k'] * 2.5 * dt
    x = np.zeros(n)
    p0 = int(r.integers(30, n - 120))
    x[p0] = 10
    ps = [p0]
    if c['two']:
        ps.append(p0 + 40)
        x[p0 + 40] = 6
    g = np.exp(-t / tau)
    g /= g.sum()
    sca = np.convolve(x, g)[:n]
    s = sca.max() * 0.01
    sca = sca + r.normal(size=n) * s
    if c['kind'] == 'end':
        # the brightest point is the last
        sca[-1] = sca.max() * 3
        for scn in (sc.thick, sc.uniform):
            with np.errstate(all='ignore'):
                try:
                    res = sc.unscatter(t, sca, tau, tau * 1.5, tau, gain=c['gain'], max_iter=50, screen=scn)
                except RuntimeError:
                    continue    # no solution
            check(np.isfinite(res[2]).all() and len(res[2]) == n, 'profile is not finite')
        return False
    if c['kind'] == 'none':
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                check(refused(lambda: sc.unscatter(t, -5 + r.normal(size=n), tau, tau * 2, tau), RuntimeError), 'a profile without a pulse is accepted')
        return False
    pre, pt = sca.copy(), t.copy()
    step = 2.5 * dt
    with np.errstate(all='ignore'):
        tb, merit, out = sc.unscatter(t, sca, step, step * 6.5, step, gain=c['gain'])
    check(np.array_equal(pre, sca) and np.array_equal(pt, t), 'the data have been changed')
    check(out.shape == t.shape and np.isfinite(out).all() and np.isfinite(merit), 'profile %r, merit %r', out.shape, merit)
    check(min(abs(tb - step * k) for k in range(1, 7)) < 1e-9, 'scattering time %r is not on the grid', tb)
    check(abs(out.sum() - sca.sum()) <= 0.05 * abs(sca.sum()), 'flux of %g instead of %g', out.sum(), sca.sum())
    if abs(tb - tau) < 1.5 * step:
        for p in ps:
            a = out[max(0, p - 15):p + 16]
            pk = max(0, p - 15) + int(np.argmax(a))
            check(abs(pk - p) <= 4, 'pulse at %d restored at %d (scattering time %g found as %g)', p, pk, tau / dt, tb / dt)
        i = (np.arange(n) * x).sum() / x.sum()
    else:
        label('other scattering time')
    # any origin of time gives the same
    with np.errstate(all='ignore'):
        t2, m2, o2 = sc.unscatter(t + c['t0'], sca, step, step * 6.5, step, gain=c['gain'])
    check(abs(t2 - tb) < 1e-9 and np.abs(o2 - out).max() <= 1e-3 * np.abs(out).max(), 'the result depends on the origin of time')
    return True
