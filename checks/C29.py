"""C29: mathematical and radio-frequency helpers against direct formulas."""
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from vlib.core import *
from lsl.misc import mathutils as mu, rfutils as rf

seeds = st.integers(0, 2**32 - 1)
KB, C = 1.380649e-23, 299792458.0


def refused(f, *exc):
    try:
        f()
    except exc:
        return True
    return False


# ---------------------------------------------------------------- resampling
res = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(4, 120), factor=st.integers(1, 17), rescale=st.booleans(), dt=st.sampled_from(['f8', 'f4', 'c16', 'i4', 'i2'])))


@part('resample', res, quick=6000, thorough=8000, rule='a factor above one, with values left over or not')
def resample(c):
    r = rng(c['seed'])
    n, f = c['n'], c['factor']
    v = r.integers(-1000, 1000, n).astype(c['dt'])
    if c['dt'] == 'c16':
        v = v + 1j * r.integers(-99, 99, n)
    pre = v.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = mu.downsample(v, f, rescale=c['rescale'])
    want = [sum(complex(x) for x in v[i * f:(i + 1) * f]) / (f if c['rescale'] else 1) for i in range(n // f)]
    check(len(got) == n // f, '%d values from %d by %d', len(got), n, f)
    close(np.asarray(got, complex), np.array(want, complex), 1e-5 if c['dt'] == 'f4' else 1e-12, 1e-4 if c['dt'] == 'f4' else 1e-10, 'downsampled values')
    check(np.array_equal(pre, v), 'the data have been changed')
    # regridding
    x = np.cumsum(r.uniform(0.1, 2, n))
    deg = int(r.integers(0, 4))
    cf = r.normal(size=deg + 1)
    xs = (x - x.mean()) / np.ptp(x)
    y = np.polyval(cf, xs)
    nx = r.uniform(x[0], x[-1], int(r.integers(1, 40)))
    if r.random() < 0.5:
        nx[0] = x[0]
        nx[-1] = x[-1]
    g = mu.regrid(x, y, nx)
    close(g, np.polyval(cf, (nx - x.mean()) / np.ptp(x)), 1e-7, 1e-7, 'spline of a polynomial')
    close(mu.regrid(x, y, x.copy()), y, 1e-9, 1e-9, 'spline at the data')
    k = np.clip(np.searchsorted(x, nx, side='right') - 1, 0, n - 2)
    lin = y[k] + (y[k + 1] - y[k]) * (nx - x[k]) / (x[k + 1] - x[k])
    close(mu.regrid(x, y, nx, method='linear'), lin, 1e-9, 1e-9, 'linear interpolation')
    for m in ('linear', 'spline'):
        for bad in (x[0] - 1, x[-1] + 1):
            check(refused(lambda: mu.regrid(x, y, np.r_[nx, bad], method=m), ValueError), 'extrapolation with %s is not refused', m)
    ex = mu.regrid(x, y, np.r_[nx, x[-1] + 0.1 * np.ptp(x), x[0] - 0.1 * np.ptp(x)], allow_extrapolation=True)
    close(ex[-2:], np.polyval(cf, (np.array([x[-1] + 0.1 * np.ptp(x), x[0] - 0.1 * np.ptp(x)]) - x.mean()) / np.ptp(x)), 1e-5, 1e-5, 'extrapolation')
    check(refused(lambda: mu.regrid(x, y, nx, method='cubist'), ValueError), 'an unknown method is accepted')
    return f > 1


WIN = ['flat', 'hanning', 'hamming', 'bartlett', 'blackman']
smo = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(3, 100), w=st.integers(1, 60), win=st.sampled_from(WIN), kind=st.sampled_from(['ramp', 'noise', 'constant'])))


@part('smooth', smo, quick=6000, thorough=8000, rule='a window of three or more that fits', explicit=[dict(seed=1, n=10, w=10, win='flat', kind='ramp'), dict(seed=1, n=20, w=5, win='hanning', kind='ramp')])
def smooth(c):
    r = rng(c['seed'])
    n, w = c['n'], c['w']
    x = {'ramp': r.normal() + r.normal() * np.arange(n), 'noise': r.normal(size=n), 'constant': np.full(n, r.normal())}[c['kind']]
    if w > n:
        check(refused(lambda: mu.smooth(x, w, c['win']), ValueError), 'a window longer than the data is accepted')
        return False
    check(refused(lambda: mu.smooth(np.zeros((4, 70)), w, c['win']), ValueError), '2-D data are accepted')
    pre = x.copy()
    y = mu.smooth(x, w, c['win'])
    check(np.array_equal(pre, x), 'the data have been changed')
    check(len(y) == n, '%d values instead of %d', len(y), n)
    if w < 3:
        close(y, x, 0, 0, 'data with a short window')
        return False
    check(refused(lambda: mu.smooth(x, w, 'gaussian'), ValueError), 'an unknown window is accepted')
    k = np.arange(w)
    win = {'flat': np.ones(w), 'hanning': 0.5 - 0.5 * np.cos(2 * np.pi * k / (w - 1)), 'hamming': 0.54 - 0.46 * np.cos(2 * np.pi * k / (w - 1)),
           'bartlett': 1 - np.abs(2 * k / (w - 1) - 1), 'blackman': 0.42 - 0.5 * np.cos(2 * np.pi * k / (w - 1)) + 0.08 * np.cos(4 * np.pi * k / (w - 1))}[c['win']]
    win = win / win.sum()
    if c['kind'] == 'constant':
        close(y, x, 1e-9, 1e-12, 'a constant')
    if c['kind'] == 'ramp' and w % 2:
        close(y, x, 1e-9, 1e-9, 'a straight line')
    # away from the edges it is the weighted mean of the window around each value
    h = w // 2
    def around(shift):
        lo, hi = w, n - w
        return np.array([sum(win[j] * x[i + shift - j] for j in range(w)) for i in range(lo, hi)])
    if n > 2 * w:
        opts = [h] if w % 2 else [h, h - 1]
        check(any(np.allclose(y[w:n - w], around(s), rtol=1e-8, atol=1e-9) for s in opts), 'not the mean over the %s window of %d', c['win'], w)
    label(c['win'])
    return True


# ---------------------------------------------------------------- complex numbers, decibels
cpl = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 30), kind=st.sampled_from(['array', 'list', 'tuple', 'scalar', 'c64', '2d'])))


@part('complex', cpl, quick=4800, thorough=5000, rule='always')
def complex_part(c):
    r = rng(c['seed'])
    z = (r.normal(size=c['n']) + 1j * r.normal(size=c['n'])) * 10.0**r.integers(-6, 7)
    k = c['kind']
    tol = 1e-12
    if k == 'scalar':
        v = complex(z[0])
        p = mu.cpolar(v)
        close(np.array(p, float), np.array([math.hypot(v.real, v.imag), math.atan2(v.imag, v.real)]), 1e-12, 0, 'polar form')
        w = mu.crect(p)
        check(abs(w - v) <= 1e-12 * abs(v), 'back from the polar form: %r instead of %r', w, v)
        close(np.array([mu.creal(p), mu.cimag(p)]), np.array([v.real, v.imag]), 1e-9, 1e-12 * abs(v), 'real and imaginary part')
        close(np.array([mu.cmagnitude(v), mu.cphase(v)]), np.array(p, float), 0, 0, 'magnitude and phase')
    else:
        v = {'list': list, 'tuple': tuple}.get(k, lambda a: a)(z)
        if k == 'c64':
            v = z.astype(np.complex64)
            z = v.astype(complex)
            tol = 1e-5
        if k == '2d':
            p = np.dstack([np.abs(z).reshape(1, -1).repeat(3, 0), np.angle(z).reshape(1, -1).repeat(3, 0)])
            w = mu.crect(p)
            check(w.shape == (3, len(z)), 'shape %r of rectangular values', w.shape)
            close(w, np.array([z] * 3), 1e-9, 1e-12 * np.abs(z).max(), 'rectangular values')
            return True
        p = mu.cpolar(v)
        check(p.shape == (len(z), 2), 'shape %r of polar values', p.shape)
        close(p, np.array([[math.hypot(q.real, q.imag), math.atan2(q.imag, q.real)] for q in z]), tol, tol, 'polar form')
        w = mu.crect(p)
        close(w, z, 10 * tol, 10 * tol * np.abs(z).max(), 'back from the polar form')
        check((w.dtype == np.complex64) == (k == 'c64'), 'precision %s', w.dtype)
        close(mu.creal(p) + 1j * mu.cimag(p), z, 10 * tol, 10 * tol * np.abs(z).max(), 'real and imaginary part')
    d = r.uniform(-200, 200, 7)
    close(mu.to_dB(mu.from_dB(d)), d, 1e-9, 1e-9, 'decibels')
    close(mu.from_dB(d), np.array([10**(q / 10) for q in d]), 1e-9, 0, 'from decibels')
    f = 10.0**r.uniform(-15, 15)
    check(abs(float(mu.to_dB(f)) - 10 * math.log10(f)) < 1e-9, 'to decibels')
    label(k)
    return True


nd = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(2, 24), dt=st.sampled_from(['f8', 'f4', 'c16', 'c8', 'i4']), it=st.booleans()))


@part('ndft', nd, quick=1800, thorough=2000, rule='always')
def ndft_part(c):
    r = rng(c['seed'])
    n = c['n']
    t = np.sort(r.choice(np.arange(200), n, replace=False)) if c['it'] else np.sort(r.uniform(-3, 10, n))
    x = (r.normal(size=n) * 9).astype(c['dt']) if c['dt'][0] != 'c' else (r.normal(size=n) + 1j * r.normal(size=n)).astype(c['dt'])
    f, o = mu.ndft(t, x)
    T = float(t.max() - t.min())
    close(f, np.array([(n // 2 - m) / T for m in range(n)]), 1e-12, 1e-15, 'frequencies')
    tol = 1e-9 if c['dt'] in ('f8', 'c16') else 1e-4
    want = np.array([sum(complex(x[i]) * np.exp(-2j * np.pi * float(t[i]) * (n // 2 - m) / T) for i in range(n)) for m in range(n)])
    close(o, want, tol, tol * (1 + np.abs(x).sum()), 'transform')
    return True


gau = st.fixed_dictionaries(dict(seed=seeds, d2=st.booleans(), ints=st.booleans(), coords=st.booleans()))


@part('gaussian', gau, quick=2400, thorough=3000, rule='always')
def gauss_part(c):
    r = rng(c['seed'])
    h = r.uniform(0.5, 20)
    if c['ints']:
        h = float(r.integers(1000, 30000))
    if not c['d2']:
        x0, w = r.uniform(40, 80), r.uniform(3, 8)
        f = mu.gaussian1d(h, x0, w)
        q = r.uniform(0, 120, 9)
        close(f(q), np.array([h * math.exp(-0.5 * ((a - x0) / w)**2) for a in q]), 1e-9, 1e-12, '1-D gaussian')
        x = np.arange(121)
        d = f(x)
        if c['ints']:
            d = d.astype(int)
        s, o = (r.uniform(0.1, 4), r.uniform(-50, 50)) if c['coords'] else (1, 0)
        gh, gc, gw = mu.gaussparams(d, x * s + o) if c['coords'] else mu.gaussparams(d)
        check(abs(gh - d.max()) < 1e-9 * h and abs(gc - (x0 * s + o)) < 0.02 * s and abs(gw - w * s) < 0.03 * w * s, '1-D parameters %r', (gh, gc, gw))
    else:
        x0, y0, a, b, pa = r.uniform(25, 35), r.uniform(35, 45), r.uniform(3, 5), r.uniform(1.5, 3), r.uniform(-180, 180)
        f = mu.gaussian2d(h, x0, y0, a, b, pa)
        t = math.radians(pa)
        q, p = r.uniform(20, 40, 9), r.uniform(30, 50, 9)
        # major axis at the angle from the x axis
        u = (q - x0) * math.cos(t) + (p - y0) * math.sin(t)
        v = -(q - x0) * math.sin(t) + (p - y0) * math.cos(t)
        close(f(q, p), h * np.exp(-0.5 * ((u / a)**2 + (v / b)**2)), 1e-9, 1e-12, '2-D gaussian')
        for s in (1, -1):
            close(f(x0 + s * a * math.cos(t), y0 + s * a * math.sin(t)), h * math.exp(-0.5), 1e-9, 0, 'major axis')
        x, y = np.indices((61, 81))
        d = mu.gaussian2d(h, x0, y0, a, b)(x, y)
        if c['ints']:
            d = d.astype(int)
        pre = d.copy()
        g = mu.gaussparams(d, x * 2.0, y * 3.0) if c['coords'] else mu.gaussparams(d)
        sx, sy = (2, 3) if c['coords'] else (1, 1)
        check(np.array_equal(pre, d), 'the data have been changed')
        check(abs(g[0] - d.max()) < 1e-9 * h and abs(g[1] - x0 * sx) < 0.05 * sx and abs(g[2] - y0 * sy) < 0.05 * sy and abs(g[3] - a * sx) < 0.05 * a * sx
              and abs(g[4] - b * sy) < 0.05 * b * sy and g[5] == 0, '2-D parameters %r instead of %r', g, (h, x0 * sx, y0 * sy, a * sx, b * sy))
    return True


# ---------------------------------------------------------------- spherical harmonics
def legendre(l, m, x):
    """Associated Legendre function with the Condon-Shortley phase."""
    p = np.ones_like(x)
    if m:
        p = (-1.0)**m * np.prod(np.arange(1, 2 * m, 2)) * (1 - x * x)**(m / 2.0)
    if l == m:
        return p
    q = x * (2 * m + 1) * p
    for n in range(m + 2, l + 1):
        p, q = q, ((2 * n - 1) * x * q - (n + m - 1) * p) / (n - m)
    return q


def ylm(l, m, theta, phi):
    k = abs(m)
    n = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - k) / math.factorial(l + k))
    # sin(theta) can be negative when the angles are swapped
    x = np.cos(theta)
    y = n * legendre(l, k, x) * np.exp(1j * k * phi)
    return y if m >= 0 else (-1)**k * np.conj(y)


def swapped():
    """Listed finding: polar and azimuthal angle are swapped."""
    v = mu.sphval(np.array([0, 0, 1, 0], complex), np.array([[0.3]]), np.array([[0.4]]))[0, 0]
    return abs(v - math.sqrt(3 / (4 * math.pi)) * math.cos(0.3)) < 1e-5


@known('C29-SPH-ANGLES')
def sph_angles():
    return swapped()


sph = st.fixed_dictionaries(dict(seed=seeds, lmax=st.integers(0, 5), deg=st.booleans(), real=st.booleans()))


@part('harmonics', sph, quick=1200, thorough=1500, rule='harmonics above order zero')
def sph_part(c):
    r = rng(c['seed'])
    lmax = c['lmax']
    sw = swapped()
    terms = {}
    for l in range(lmax + 1):
        for m in range(0, l + 1):
            a = complex(r.normal(), r.normal() if m or not c['real'] else 0)
            terms[l, m] = a
            if m:
                terms[l, -m] = (-1)**m * a.conjugate() if c['real'] else complex(r.normal(), r.normal())
    packed = np.array([terms[l, m] for l in range(lmax + 1) for m in range(0 if c['real'] else -l, l + 1)])
    na, nz = 48, 60
    az = (np.arange(na) * 2 * np.pi / na)[:, None].repeat(nz, 1)
    alt = (-np.pi / 2 + (np.arange(nz) + 0.5) * np.pi / nz)[None, :].repeat(na, 0)
    base = (lambda l, m: ylm(l, m, az, alt + np.pi / 2)) if sw else (lambda l, m: ylm(l, m, alt + np.pi / 2, az))
    want = sum(a * base(l, m) for (l, m), a in terms.items())
    k = 180 / np.pi if c['deg'] else 1
    pa, pz = az.copy() * k, alt.copy() * k
    got = mu.sphval(packed, pa, pz, degrees=c['deg'], real_only=c['real'])
    check(np.array_equal(pa, az * k) and np.array_equal(pz, alt * k), 'the coordinates have been changed')
    if sw:
        # with swapped angles the values depend on the sign of sin(azimuth) in half of the sky
        ok = np.sin(az) >= 0
    else:
        ok = np.ones(az.shape, bool)
    close(got[ok], (want.real if c['real'] else want)[ok], 1e-4, 1e-4 * (1 + np.abs(packed).sum()), 'sum of the harmonics')
    # projection of the data on the harmonics
    data = want.real if c['real'] else want
    fit = mu.sphfit(pa, pz, data, lmax=lmax, degrees=c['deg'], real_only=c['real'])
    check(fit.shape == packed.shape, '%d coefficients instead of %d', fit.size, packed.size)
    if not sw:
        close(fit, packed, 1e-2, 1e-2 * np.abs(packed).max(), 'coefficients of the fit')
        close(mu.sphval(fit, pa, pz, degrees=c['deg'], real_only=c['real']), data, 3e-2, 3e-2 * np.abs(data).max(), 'data from the fit')
    else:
        j = 0
        w = np.cos(alt) * (2 * np.pi / na) * (np.pi / nz)
        up = np.where(ok, data, 0)
        fit = mu.sphfit(pa, pz, up, lmax=lmax, degrees=c['deg'], real_only=c['real'])
        for l in range(lmax + 1):
            for m in range(0 if c['real'] else -l, l + 1):
                v = (up * w * np.conj(base(l, m)))[ok].sum()
                check(abs(fit[j] - v) <= 1e-4 * (1 + np.abs(packed).sum()), 'coefficient (%d,%d) is %r instead of %r', l, m, fit[j], v)
                j += 1
    return lmax > 0


# ---------------------------------------------------------------- antenna gains
rfc = st.fixed_dictionaries(dict(seed=seeds, form=st.sampled_from(['number', 'quantity', 'text', 'scaled'])))


@part('rf', rfc, quick=3600, thorough=4000, rule='always')
def rf_part(c):
    from astropy import units as u
    r = rng(c['seed'])
    dbi = r.uniform(-20, 60)
    f = 10**r.uniform(6.5, 10)
    def frm(v, unit, scaled, k):
        return {'number': v, 'quantity': v * u.Unit(unit), 'text': '%.17g %s' % (v, unit), 'scaled': (v / k) * u.Unit(scaled)}[c['form']]
    freq = lambda v: frm(v, 'Hz', 'MHz', 1e6)
    gainq = lambda v: frm(v, 'K/Jy', 'mK/Jy', 1e-3)
    check(abs(rf.dBi_to_dBd(rf.dBd_to_dBi(dbi)) - dbi) < 1e-12 and abs(rf.dBd_to_dBi(dbi) - dbi - 2.15) < 0.002, 'dBd and dBi')
    area = (C / f)**2 / (4 * math.pi) * 10**(dbi / 10)
    gain = area / (2 * KB) * 1e-26
    close(rf.dBi_to_gain(dbi, freq(f)), gain, 1e-9, 0, 'gain from dBi')
    close(rf.dBd_to_gain(rf.dBi_to_dBd(dbi), freq(f)), gain, 1e-9, 0, 'gain from dBd')
    close(rf.gain_to_dBi(gainq(gain), freq(f)), dbi, 1e-9, 1e-8, 'dBi from gain')
    close(rf.gain_to_dBd(gainq(gain), freq(f)), rf.dBi_to_dBd(dbi), 1e-9, 1e-8, 'dBd from gain')
    close(rf.calculate_effective_area(gainq(gain)), area, 1e-9, 0, 'effective area')
    T = 10**r.uniform(0, 5)
    tq = frm(T, 'K', 'kK', 1e3)
    eff = r.uniform(0.1, 1)
    A = 10**r.uniform(-1, 5)
    close(rf.calculate_sefd(tq, gain=gainq(gain)), T / gain, 1e-9, 0, 'SEFD from the gain')
    close(rf.calculate_sefd(tq, area=frm(A, 'm2', 'cm2', 1e-4), efficiency=eff), 2 * KB * T / (A * eff) * 1e26, 1e-9, 0, 'SEFD from the area')
    check(refused(lambda: rf.calculate_sefd(tq), RuntimeError) and refused(lambda: rf.calculate_sefd(tq, area=A), RuntimeError)
          and refused(lambda: rf.calculate_sefd(tq, efficiency=eff), RuntimeError), 'too few parameters are accepted')
    S, bw = 10**r.uniform(-3, 9), 10**r.uniform(0, 8)
    dbm = 10 * math.log10(S * 1e-26 * bw * area * 1000)
    close(rf.Jy_to_dBm(frm(S, 'Jy', 'kJy', 1e3), freq(bw), gainq(gain)), dbm, 1e-9, 1e-8, 'dBm from Jy')
    close(rf.dBm_to_Jy(dbm, freq(bw), gainq(gain)), S, 1e-8, 0, 'Jy from dBm')
    ns = {}
    exec('from lsl.misc.rfutils import *', ns)
    check(all(k in ns for k in ('dBd_to_dBi', 'dBi_to_dBd', 'gain_to_dBd', 'dBm_to_Jy')), 'names exported')
    label(c['form'])
    return True
