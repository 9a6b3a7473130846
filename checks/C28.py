"""C28: robust statistics, spectral kurtosis and the runs test against models written from their definitions."""
from fractions import Fraction
import math
import numpy as np
from scipy import special
from hypothesis import strategies as st
from vlib.core import *
from lsl.statistics import robust, kurtosis, stattests

seeds = st.integers(0, 2**32 - 1)


# ---------------------------------------------------------------- models
def m_std(d, zero=False):
    m = 0.0 if zero else np.median(d)
    s = np.median(np.abs(d - m)) / 0.6745
    if s < 1e-20:
        s = np.mean(np.abs(d - m)) / 0.8
    if s < 1e-20:
        return 0.0
    u2 = ((d - m) / (6 * s))**2
    k = u2 <= 1
    if k.sum() < 3:
        return None
    num = math.fsum((d[k] - m)**2 * (1 - u2[k])**4)
    den = math.fsum((1 - u2[k]) * (1 - 5 * u2[k]))
    v = d.size * num / (den * (den - 1))
    return math.sqrt(v) if v > 0 else 0.0


def m_mean(d, cut):
    m = np.median(d)
    s = np.median(np.abs(d - m)) / 0.6745
    if s < 1e-20:
        s = np.mean(np.abs(d - m)) / 0.8
    k = np.abs(d - m) <= cut * s
    if not k.any():
        return None, None
    g = d[k]
    sg = math.sqrt(math.fsum((g - g.mean())**2) / g.size)
    c = max(cut, 1.0)
    if c <= 4.5:
        sg /= -0.15405 + 0.90723 * c - 0.23584 * c**2 + 0.020142 * c**3
    dist = np.abs(np.abs(d - m) - cut * sg)
    k = np.abs(d - m) <= cut * sg
    if k.sum() <= 3:
        return None, dist.min()
    return math.fsum(d[k]) / k.sum(), dist.min() / (sg + 1e-300)


def m_biweight(d):
    y0 = np.median(d)
    if d.size == 1:
        return y0
    s = m_std(d - y0)
    if s is None:
        return None
    if s < 1e-20:
        return y0
    for i in range(25):
        u = np.minimum(((d - y0) / (6 * s))**2, 1)
        w = (1 - u)**2
        y0 = math.fsum(w * d) / math.fsum(w)
        p, s = s, m_std(d - y0, True)
        if s is None:
            return None
        if s <= 1e-20:
            break
        if abs(p - s) / p <= 0.03 * math.sqrt(0.5 / (d.size - 1)):
            break
    return y0


def m_modes(d):
    """All half-sample modes (every choice of equally narrow halves) of sorted d."""
    n = len(d)
    if n == 1:
        return {d[0]}
    if n == 2:
        return {(d[0] + d[1]) / 2}
    if n == 3:
        a, b = d[1] - d[0], d[2] - d[1]
        return {(d[0] + d[1]) / 2} if a < b else {(d[1] + d[2]) / 2} if b < a else {d[1]}
    h = (n + 1) // 2
    w = [d[i + h - 1] - d[i] for i in range(n - h + 1)]
    out = set()
    for i in range(len(w)):
        if w[i] == min(w):
            out |= m_modes(d[i:i + h])
    return out


# ---------------------------------------------------------------- location and scale
def draw(r, n, kind):
    d = r.normal(size=n)
    if kind == 'outliers' and n >= 12:
        k = max(1, int(n * r.uniform(0.02, 0.15)))
        d[r.choice(n, k, replace=False)] = r.uniform(20, 1e4, k) * r.choice([-1, 1])
    elif kind == 'discrete':
        d = r.integers(-3, 4, n).astype(float)
    elif kind == 'skewed':
        d = r.exponential(size=n)
    elif kind == 'constant':
        d = np.zeros(n)
        if n > 3 and r.random() < 0.5:
            d[r.integers(0, n)] = r.normal() * 10
    return (d + r.choice([0, 0, 1, -50, 1e3])) * 10.0**r.integers(-6, 7)


loc = st.fixed_dictionaries(dict(seed=seeds, n=st.one_of(st.integers(1, 12), st.integers(13, 400)),
                                 kind=st.sampled_from(['normal', 'outliers', 'discrete', 'skewed', 'constant']),
                                 cut=st.sampled_from([3.0, 3.0, 2.0, 0.5, 1.0, 4.0, 6.0]), zero=st.booleans(),
                                 dt=st.sampled_from([None, None, 'f4', 'i4'])))


def outcome(f):
    try:
        return f()
    except ValueError as e:
        check('too strange' in str(e), 'unexpected refusal: %s', e)
        return None


@part('location', loc, quick=7200, thorough=20000, shards=4, rule='at least five values that are not all the same')
def location(c):
    r = rng(c['seed'])
    d = draw(r, c['n'], c['kind'])
    x = d
    if c['dt']:
        x = d.astype(c['dt'])
        d = x.astype(float)
    span = np.ptp(d) + np.abs(d).max() * 1e-4 + 1e-300
    tol = 1e-9 if c['dt'] != 'f4' else 1e-4
    pre = x.copy()
    got = {}
    smooth = c['kind'] not in ('discrete', 'constant') and c['dt'] != 'i4'   # no ties: iterations can be compared
    with np.errstate(all='ignore'):
        for nm, f, want in (('std', lambda v, **k: robust.std(v, zero=c['zero'], **k), m_std(d, c['zero'])),
                            ('biweight mean', robust.biweight_mean, m_biweight(d) if smooth else None)):
            if nm != 'std' and not smooth:
                outcome(lambda: f(x, dtype=np.float64))
                continue
            g = got[nm] = outcome(lambda: f(x, **({'dtype': np.float64} if c['dt'] else {})))
            check((g is None) == (want is None), 'robust %s: %r instead of %r', nm, g, want)
            if want is not None:
                check(abs(float(g) - want) <= tol * (span if not c['zero'] else np.abs(d).max() + span), 'robust %s: %r instead of %r', nm, g, want)
        want, margin = m_mean(d, c['cut'])
        if margin is not None and margin > 1e-6:
            g = got['mean'] = outcome(lambda: robust.mean(x, cut=c['cut'], **({'dtype': np.float64} if c['dt'] else {})))
            check((g is None) == (want is None), 'robust mean: %r instead of %r', g, want)
            if want is not None:
                check(abs(float(g) - want) <= tol * span, 'robust mean: %r instead of %r', g, want)
        # the same in any order
        p = r.permutation(x)
        kw = {'dtype': np.float64} if c['dt'] else {}
        for nm, f in (('std', lambda v, **k: robust.std(v, zero=c['zero'], **k)), ('biweight mean', robust.biweight_mean)):
            if nm not in got:
                continue
            g = outcome(lambda: f(p, **kw))
            check((g is None) == (got[nm] is None) and (g is None or abs(g - got[nm]) <= tol * (span + np.abs(d).max())), 'robust %s depends on the order: %r, %r', nm, g, got[nm])
    check(np.array_equal(x, pre), 'the data have been changed')
    label(c['kind'])
    if c['kind'] == 'outliers' and c['n'] >= 40 and smooth:
        core_ = d[np.abs(d - np.median(d)) < 8 * m_std(d)]
        s = core_.std()
        if 'mean' in got and c['cut'] in (2.0, 3.0, 4.0):
            check(abs(got['mean'] - core_.mean()) < s, 'outliers move the mean by %g sigma', abs(got['mean'] - core_.mean()) / s)
        check(abs(got['biweight mean'] - core_.mean()) < s, 'outliers move the biweight mean')
    return c['n'] >= 5 and np.ptp(d) > 0


axes = st.fixed_dictionaries(dict(seed=seeds, shape=st.lists(st.integers(8, 14), min_size=2, max_size=3), masked=st.booleans(),
                                  fn=st.sampled_from(['mean', 'std', 'mode', 'biweight_mean', 'std0', 'meancut'])))


@part('axes', axes, quick=1800, thorough=4000, rule='always')
def axes_part(c):
    r = rng(c['seed'])
    shp = tuple(c['shape'])
    d = r.normal(size=shp) * 3 + 1
    if c['masked']:
        m = r.random(shp) < 0.15
        d = np.where(m, 1e6, d)
        d = np.ma.array(d, mask=m)
    f = {'std0': lambda v, **k: robust.std(v, zero=True, **k), 'meancut': lambda v, **k: robust.mean(v, cut=2.0, **k)}.get(c['fn']) or getattr(robust, c['fn'])
    ax = int(r.integers(-len(shp), len(shp)))
    flat = lambda v: (v.compressed() if isinstance(v, np.ma.MaskedArray) else v.ravel())
    w = outcome(lambda: f(np.array(flat(d))))
    g = outcome(lambda: f(d))
    check(w is not None and g is not None and abs(float(g) - float(w)) <= 1e-9 * (1 + abs(w)), 'all of the data: %r instead of %r', g, w)
    sl = np.moveaxis(d, ax, -1)
    want = np.zeros(sl.shape[:-1])
    for i in np.ndindex(*want.shape):
        v = outcome(lambda: f(np.array(flat(sl[i]))))
        if v is None:
            raise Reject()
        want[i] = v
    got = f(d, axis=ax)
    check(got.shape == want.shape, 'shape %r instead of %r along axis %d', got.shape, want.shape, ax)
    close(np.asarray(got), want, 1e-9, 1e-9, '%s along an axis' % c['fn'])
    label(c["fn"] + (" masked" if c["masked"] else ""))
    return True


modes = st.fixed_dictionaries(dict(seed=seeds, v=st.lists(st.integers(-200, 200), min_size=1, max_size=24), scale=st.sampled_from([1, 4, 0.25]), kind=st.sampled_from(['list', 'cluster', 'few'])))


@part('mode', modes, quick=9000, thorough=30000, rule='at least four values, not all the same', explicit=[
    dict(seed=0, v=[0, 10, 20, 21], scale=1, kind='list'), dict(seed=0, v=[5] * 6, scale=1, kind='list'), dict(seed=0, v=[0, 3, 4], scale=1, kind='list')])
def mode_part(c):
    r = rng(c['seed'])
    v = np.array(c['v'], float)
    if c['kind'] == 'cluster':
        v = np.r_[v, r.integers(0, 4, len(v)) + r.integers(-250, 250)]
    elif c['kind'] == 'few':
        v = np.round(v / 50)
    v = v * c['scale']
    got = robust.mode(r.permutation(v))
    want = m_modes(sorted(v.tolist()))
    check(float(got) in want, 'half-sample mode %r, not one of %r', got, sorted(want))
    return len(v) >= 4 and np.ptp(v) > 0


# ---------------------------------------------------------------- fits
fit = st.fixed_dictionaries(dict(seed=seeds, order=st.integers(0, 7), n=st.one_of(st.integers(12, 60), st.integers(61, 400), st.just(10000), st.just(10501)),
                                 kind=st.sampled_from(['exact', 'noise', 'outliers', 'masked']), line=st.booleans(), bis=st.booleans()))


@part('fit', fit, quick=2400, thorough=6000, shards=2, rule='a fit of noisy data or data with outliers')
def fit_part(c):
    r = rng(c['seed'])
    order = 1 if c['line'] else c['order']
    n = c['n'] if not c['line'] else min(c['n'], 400)
    kind = c['kind'] if c['kind'] != 'outliers' or n >= 20 * (order + 1) else 'noise'
    x = np.sort(r.uniform(-1, 1, n)) * r.choice([0.5, 1, 5]) + r.choice([0, 0, 3])
    if order >= 6:
        x = np.sort(r.uniform(-1, 1, n))
    cf = r.uniform(0.5, 3, order + 1) * r.choice([-1, 1], order + 1)
    y = np.polyval(cf, x)
    s = 0.0
    scale = np.abs(y).max()
    good = np.ones(n, bool)
    if kind != 'exact':
        s = 0.01 * scale
        y = y + r.normal(size=n) * s
    if kind in ('outliers', 'masked'):
        k = max(1, int(n * 0.08))
        i = r.choice(n, k, replace=False)
        good[i] = False
        y[i] += r.choice([-1, 1], k) * r.uniform(3, 10, k) * scale if kind == 'outliers' else 1e6
    p = r.permutation(n)
    x, y, good = x[p], y[p], good[p]
    yy = np.ma.array(y, mask=~good) if kind == 'masked' else y
    if c['line']:
        got = robust.linefit(x, yy, bisector=c['bis'])
    else:
        got = robust.polyfit(x, yy, order)
    got = np.asarray(got, float)
    check(got.shape == (order + 1,), 'result %r of a fit of order %d', got, order)
    ref = np.polyfit(x[good], y[good], order)
    res = np.polyval(got, x) - np.polyval(ref if s else cf, x)
    lim = 1e-6 * scale if not s else 4 * s * math.sqrt(order + 1) / math.sqrt(n) * 2 + 0.3 * s
    if c['line'] and c['bis'] and s:
        lim += s
    check(np.abs(res[good]).max() <= lim * (3 if order > 3 else 1), 'the fit (order %d, %s, n=%d) is off by %g (noise %g)', order, kind, n, np.abs(res[good]).max(), s)
    label("%s %s %s" % (kind, "line" if c["line"] else "order %d" % order, "many" if n >= 10000 else "few"))
    # quality of the fit
    m = np.polyval(cf, x)
    stt, sg, fd, ng, bw, sr = robust.checkfit(y, m, 1e-20, 5e-7)
    if s:
        ws = m_std(y - m, True)
        check(stt == 1 and abs(sg - ws) <= 1e-9 * ws, 'scatter of the residuals %r instead of %r', sg, ws)
        sc = np.minimum(np.abs(y - m) / (6 * ws), 1)
        w = 1 - sc**2
        close(bw, w / w.sum(), 1e-9, 1e-12, 'bisquare weights')
        close(sr, sc, 1e-9, 1e-12, 'scaled residuals')
        check(ng == (np.abs(y - m) / (6 * ws) <= 1).sum(), 'number of good points')
        close(fd, np.median(np.abs((y - m) / m)), 1e-9, 0, 'fractional deviation')
    return kind != 'exact'


# ---------------------------------------------------------------- spectral kurtosis
def dirichlet(M, N, ks):
    out = Fraction(1)
    for k in ks:
        for j in range(k):
            out *= N + j
    for j in range(sum(ks)):
        out /= M * N + j
    return out


def sk_moments(M, N):
    """Exact mean, variance and third central moment of the estimator for gamma distributed powers."""
    a1 = M * dirichlet(M, N, [2])
    a2 = M * dirichlet(M, N, [4]) + M * (M - 1) * dirichlet(M, N, [2, 2])
    a3 = M * dirichlet(M, N, [6]) + 3 * M * (M - 1) * dirichlet(M, N, [4, 2]) + M * (M - 1) * (M - 2) * dirichlet(M, N, [2, 2, 2])
    k = Fraction(M * N + 1, M - 1)
    var = a2 - a1**2
    thr = a3 - 3 * a2 * a1 + 2 * a1**3
    return k * (M * a1 - 1), k**2 * M**2 * var, k**3 * M**3 * thr


kur = st.fixed_dictionaries(dict(seed=seeds, M=st.one_of(st.integers(8, 100), st.integers(100, 20000)), N=st.one_of(st.just(1), st.integers(1, 64), st.integers(64, 4096)),
                                 sigma=st.floats(0.5, 5.5)))


@part('kurtosis', kur, quick=4500, thorough=10000, rule='always')
def kurt_part(c):
    M, N, sg = c['M'], c['N'], c['sigma']
    mu, v, s3 = sk_moments(M, N)
    close(kurtosis.mean(M, N), float(mu), 1e-12, 0, 'mean')
    close(kurtosis.var(M, N), float(v), 1e-9, 0, 'variance')
    close(kurtosis.std(M, N), math.sqrt(v), 1e-9, 0, 'standard deviation')
    close(kurtosis.skew(M, N), float(s3), 1e-9, 0, 'third central moment')
    err = np.geterr()
    lo, hi = kurtosis.get_limits(sg, M, N)
    check(np.geterr() == err, 'the floating point error handling has changed')
    check(lo < 1 < hi or sg < 1, 'limits %r, %r', lo, hi)
    # Pearson type VI with these moments
    v, s3 = float(v), float(s3)
    def a_of(s):
        return (s3 * (s - 2) * s / (2 * v) - s) / 2
    def g(s):
        a = a_of(s)
        return a * (a + s) / ((s - 1) * s**2) - v
    grid = 2 + np.logspace(-6, 12, 400)
    vals = np.array([g(s) if a_of(s) > 0 else -1 for s in grid])
    cr = np.flatnonzero((vals[:-1] < 0) & (vals[1:] >= 0))
    if len(cr) != 1:
        raise Reject()
    a0, b0 = grid[cr[0]], grid[cr[0] + 1]
    for i in range(200):
        m = (a0 + b0) / 2
        if a_of(m) > 0 and g(m) >= 0:
            b0 = m
        else:
            a0 = m
    s = b0
    a = a_of(s)
    off = 1 - a / s
    p = special.erfc(sg / math.sqrt(2)) / 2
    def tails(x):
        z = x - off
        return special.betainc(a, s + 1, z / (1 + z)), special.betainc(s + 1, a, 1 / (1 + z))
    if a > 1e7 or s > 1e7:
        label('nearly normal')
        tol = 0.05
    else:
        tol = 0.01
    pl, pu = tails(lo)[0], tails(hi)[1]
    if not (np.isfinite(pl) and np.isfinite(pu)):
        raise Reject()
    sd = math.sqrt(v)
    if abs(lo - (1 - sg * sd)) > 1e-12 * sd:
        check(abs(pl - p) <= tol * p + 1e-9, 'lower limit %r for M=%d N=%d leaves %g, not %g', lo, M, N, pl, p)
    else:
        label('fallback')
    if abs(hi - (1 + sg * sd)) > 1e-12 * sd:
        check(abs(pu - p) <= tol * p + 1e-9, 'upper limit %r for M=%d N=%d leaves %g, not %g', hi, M, N, pu, p)
    return True


skd = st.fixed_dictionaries(dict(seed=seeds, shape=st.lists(st.integers(2, 12), min_size=1, max_size=3), N=st.integers(1, 40), axis=st.booleans(), bad=st.booleans()))


@part('estimator', skd, quick=4500, thorough=10000, rule='more than one dimension')
def est_part(c):
    r = rng(c['seed'])
    shp, N = tuple(c['shape']), c['N']
    x = r.gamma(N, size=shp) + 0.01
    ax = int(r.integers(-len(shp), len(shp))) if c['axis'] else None
    M = x.size if ax is None else shp[ax]
    k = (M * N + 1) / (M - 1) * (M * (x**2).sum(axis=ax) / x.sum(axis=ax)**2 - 1)
    close(kurtosis.spectral_power(x, N=N, axis=ax), k, 1e-9, 1e-12, 'spectral kurtosis of powers')
    close(kurtosis.spectral_power(x * 2.0**r.integers(-30, 30), N=N, axis=ax), k, 1e-9, 1e-12, 'spectral kurtosis of scaled powers')
    z = r.normal(size=shp) + 1j * r.normal(size=shp)
    p = np.abs(z)**2
    k1 = (M + 1) / (M - 1) * (M * (p**2).sum(axis=ax) / p.sum(axis=ax)**2 - 1)
    close(kurtosis.spectral_fft(z, axis=ax), k1, 1e-9, 1e-12, 'spectral kurtosis of voltages')
    one = np.full(shp, 3.0)
    close(kurtosis.spectral_power(one, N=N, axis=ax), np.zeros(np.shape(k)), 0, 1e-9, 'spectral kurtosis of a constant')
    if c['bad']:
        err = np.geterr()
        try:
            kurtosis.get_limits(3, 1)
        except (ZeroDivisionError, FloatingPointError, ValueError):
            pass
        check(np.geterr() == err, 'the floating point error handling has changed')
        np.seterr(**err)
    return len(shp) > 1


# ---------------------------------------------------------------- runs test
runs = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(2, 400), kind=st.sampled_from(['random', 'alternating', 'blocks', 'zeros']), two=st.booleans()))


@part('runs', runs, quick=4500, thorough=10000, rule='both positive and other values')
def runs_part(c):
    r = rng(c['seed'])
    n = c['n'] // 2 * 2
    d = r.normal(size=n)
    if c['kind'] == 'alternating':
        d = np.abs(d) * np.where(np.arange(n) % 2, 1, -1)
    elif c['kind'] == 'blocks':
        d = np.abs(d) * np.where((np.arange(n) // r.integers(2, 20)) % 2, 1, -1)
    elif c['kind'] == 'zeros':
        d[r.random(n) < 0.3] = 0
    b = d > 0
    R = 1 + int((b[1:] != b[:-1]).sum())
    p, q = int(b.sum()), int((~b).sum())
    if p == 0 or q == 0 or n < 4:
        return False
    mu = 2 * p * q / (p + q) + 1
    s = math.sqrt((mu - 1) * (mu - 2) / (p + q - 1))
    if s == 0:
        return False
    got = stattests.wald_wolfowitz(d.reshape(2, -1) if c['two'] else d)
    dlt = R - mu
    if R <= 50:
        dlt += 0.5 if dlt < 0 else -0.5
    want = special.erfc(abs(dlt / s) / math.sqrt(2))
    check(0 <= got <= 1 and abs(got - want) <= 1e-9, 'probability %r instead of %r', got, want)
    sc = 2.0**r.integers(-10, 10)
    check(abs(stattests.wald_wolfowitz(d * sc) - got) <= 1e-12, 'probability depends on the scale')
    check(abs(stattests.wald_wolfowitz(d[::-1]) - got) <= 1e-12, 'probability depends on the direction')
    label(c['kind'])
    return True
