"""C37: the magnetic field is that of the IGRF, pierce points lie on the line of sight, TEC values are those of the maps."""
import datetime as DT
import gzip, io, math, os, shutil, tarfile, threading, warnings
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
warnings.simplefilter('ignore')
import logging
import ephem, h5py
from astropy.coordinates import Angle
from astropy import units as u
import lsl
from lsl.misc import ionosphere as I
from lsl.misc.ionosphere import _utils
from lsl.common import stations
from lsl.config import LSL_CONFIG
from lsl.logger import LSL_LOGGER
LSL_LOGGER.setLevel(logging.CRITICAL)

seeds = st.integers(0, 2**31)
DATA = os.path.join(os.path.dirname(lsl.__file__), 'data')
DAY0 = DT.datetime(1858, 11, 17)
A, F = 6378137.0, 1 / 298.257223563


# ---- the field of the Earth

def coefficients():
    """{(g or h, n, m): values}, years of the IGRF table that comes with lsl"""
    out, years = {}, None
    with open(os.path.join(DATA, 'geo', 'igrf14coeffs.txt')) as fh:
        for line in fh:
            w = line.split()
            if w and w[0] == 'g/h':
                years = [float(x) for x in w[3:-1]]
            elif w and w[0] in 'gh' and len(w) > 20:
                out[w[0], int(w[1]), int(w[2])] = np.array([float(x) for x in w[3:]])
    return out, np.array(years)

COEF, YEARS = coefficients()

def epoch(year):
    """the coefficients of a decimal year: linear between models, the last one's rate of change after it"""
    if year >= YEARS[-1]:
        return {k: v[-2] + v[-1] * (year - YEARS[-1]) for k, v in COEF.items()}
    return {k: np.interp(year, YEARS, v[:-1]) for k, v in COEF.items()}

def schmidt(nmax, x):
    """Schmidt quasi-normalized P[n][m] at x = cos(colatitude), by recursion"""
    s = math.sqrt(max(0.0, 1 - x * x))
    P = [[0.0] * (nmax + 1) for _ in range(nmax + 1)]
    P[0][0] = 1.0
    for n in range(1, nmax + 1):
        P[n][n] = P[n - 1][n - 1] * s * (1.0 if n == 1 else math.sqrt((2 * n - 1) / (2 * n)))
        for m in range(n):
            a = (2 * n - 1) * x * P[n - 1][m]
            b = math.sqrt((n - 1) ** 2 - m * m) * P[n - 2][m] if n - 2 >= m else 0.0
            P[n][m] = (a - b) / math.sqrt(n * n - m * m)
    return P

def potential(xyz, co):
    x, y, z = xyz
    r = math.sqrt(x * x + y * y + z * z)
    ph = math.atan2(y, x)
    P = schmidt(13, z / r)
    a = 6371200.0
    q = [a * (a / r) ** (n + 1) for n in range(14)]
    c, s = [math.cos(m * ph) for m in range(14)], [math.sin(m * ph) for m in range(14)]
    return sum(v * q[n] * P[n][m] * (c if k == 'g' else s)[m] for (k, n, m), v in co.items())

def geocentric(lat, lng, h):
    b, l = math.radians(lat), math.radians(lng)
    N = A / math.sqrt(1 - (2 * F - F * F) * math.sin(b) ** 2)
    return np.array([(N + h) * math.cos(b) * math.cos(l), (N + h) * math.cos(b) * math.sin(l), (N * (1 - F) ** 2 + h) * math.sin(b)])

def axes(lat, lng):
    """north, east, up at a geodetic position"""
    b, l = math.radians(lat), math.radians(lng)
    return np.array([[-math.sin(b) * math.cos(l), -math.sin(b) * math.sin(l), math.cos(b)], [-math.sin(l), math.cos(l), 0],
                     [math.cos(b) * math.cos(l), math.cos(b) * math.sin(l), math.sin(b)]])

def decimal(mjd):
    t = DAY0 + DT.timedelta(days=mjd)
    j, k = DT.datetime(t.year, 1, 1), DT.datetime(t.year + 1, 1, 1)
    return t.year + (mjd - (j - DAY0).days) / (k - j).days

mjds = st.one_of(st.floats(15020, 69000), st.integers(15020, 69000), st.sampled_from([51544, 60675.999, 60676.0, 60676.5, 62502.2, 57023.0]), st.integers(1900, 2045).map(lambda y: (DT.datetime(y, 1, 1) - DAY0).days))
lats = st.one_of(st.floats(-90, 90), st.sampled_from([0.0, 34.0, -90.0, 90.0, 89.9995, -89.9995, 89.9, -30.0]))
lngs = st.one_of(st.floats(-180, 180), st.floats(-360, 360), st.sampled_from([0.0, -107.0, 180.0, -180.0, 90.0]))

@part('field', st.fixed_dictionaries(dict(lat=lats, lng=lngs, h=st.one_of(st.floats(-500, 1e6), st.just(0.0), st.floats(0, 2e7)), mjd=mjds)), quick=1500, thorough=12000, rule='away from the poles', seconds=60,
      explicit=[dict(lat=34.0, lng=-107.0, h=5e4, mjd=60676.9), dict(lat=34.0, lng=-107.0, h=0.0, mjd=62800.0)])
def field(c):
    lat, lng, h, mjd = c['lat'], c['lng'], c['h'], c['mjd']
    polar = abs(lat) > 89.998
    co = epoch(decimal(mjd))
    p = geocentric(lat, lng, h)
    want = np.array([-(potential(p + d, co) - potential(p - d, co)) / 200 for d in np.eye(3) * 100.0])
    tol = 8.0 if polar else 0.02
    got = np.array(I.get_magnetic_field(lat, lng, h, mjd=mjd, ecef=True))
    check(np.abs(got - want).max() < tol, 'field in ECEF of %s: %s, not %s', c, got, want)
    topo = np.array(I.get_magnetic_field(lat, lng, h, mjd=mjd))
    want = axes(lat, lng) @ want
    check(np.abs(topo - want).max() < tol, 'field (N, E, up) of %s: %s, not %s', c, topo, want)
    label('pole' if polar else 'after the last model' if mjd > 60676 else 'model years')
    return not polar

@part('nofield', st.fixed_dictionaries(dict(lat=lats, lng=lngs, mjd=st.one_of(st.floats(-10000, 15018), st.just(None)))), quick=120, thorough=400, rule='always')
def nofield(c):
    if c['mjd'] is None:
        t = (DT.datetime.now(DT.timezone.utc).replace(tzinfo=None) - DAY0) / DT.timedelta(days=1)
        close(I.get_magnetic_field(c['lat'], c['lng'], 0.0), I.get_magnetic_field(c['lat'], c['lng'], 0.0, mjd=t), 1e-9, 0.05, 'the field now')
        return True
    try:
        got = I.get_magnetic_field(c['lat'], c['lng'], 0.0, mjd=c['mjd'])
    except RuntimeError:
        return True
    check(False, 'a field of %s for %s, before the first model', got, c)

comp = st.one_of(st.floats(-6e4, 6e4), st.sampled_from([0.0, 30000.0, -30000.0, 60.0, -1.0, 99.9]))

@part('angles', st.fixed_dictionaries(dict(n=comp, e=comp, z=comp)), quick=8000, thorough=40000, rule='the horizontal field is at least 100 nT', explicit=[dict(n=-30000.0, e=0.0, z=5.0)])
def angles(c):
    n, e, z = c['n'], c['e'], c['z']
    h = math.hypot(n, e)
    d = I.compute_magnetic_declination(n, e, z)
    if h < 99.999999:
        check(math.isnan(d), 'declination %s where the horizontal field is %s nT', d, h)
    elif h > 100.000001:
        w = math.degrees(math.atan2(e, n))
        check(abs((d - w + 180) % 360 - 180) < 1e-6, 'declination of %s: %s, not %s', c, d, w)
    i = I.compute_magnetic_inclination(n, e, z)
    w = math.degrees(math.atan2(-z, h))
    check(abs(i - w) < 1e-9 or h + abs(z) < 1e-3, 'inclination of %s: %s, not %s', c, i, w)
    return h > 100


# ---- pierce points

@part('pierce', st.fixed_dictionaries(dict(lat=st.one_of(st.floats(-89.5, 89.5), st.sampled_from([34.07, 89.9, -89.9, 0.0])), lng=st.one_of(st.floats(-180, 180), st.sampled_from([179.9, -179.9, -107.6])), h0=st.floats(0, 5000),
                                           az=st.one_of(st.floats(0, 360), st.floats(-180, 540), st.sampled_from([0.0, 359.99, 360.0, 180.0, -45.0, 90])), el=st.one_of(st.floats(0, 90), st.sampled_from([90.0, 45, 89.9, 5.0])),
                                           h=st.one_of(st.floats(60e3, 2e6), st.just(None)), how=st.sampled_from(['deg', 'deg', 'astropy', 'ephem', 'arad']))), quick=260, thorough=2400, rule='more than a degree off the zenith', shards=2, seconds=60)
def pierce(c):
    s = stations.LWAStation('Somewhere', c['lat'], c['lng'], c['h0'])
    how = {'deg': lambda v: v, 'astropy': lambda v: Angle(v, u.deg), 'arad': lambda v: Angle(math.radians(v), u.rad), 'ephem': lambda v: ephem.degrees(math.radians(v))}[c['how']]
    kw = {} if c['h'] is None else dict(height=c['h'])
    h = 450e3 if c['h'] is None else c['h']
    la, lo, hh = I.get_ionospheric_pierce_point(s, how(c['az']), how(c['el']), **kw)
    check(float(hh) == h, 'height of the pierce point: %s, not %s', hh, h)
    check(-90 <= la <= 90, 'latitude of the pierce point of %s: %s', c, la)
    d = geocentric(la, lo, h) - geocentric(c['lat'], c['lng'], c['h0'])
    n, e, up = axes(c['lat'], c['lng']) @ d / np.linalg.norm(d)
    a, b = math.radians(c['az']), math.radians(c['el'])
    off = math.degrees(np.linalg.norm([n - math.cos(a) * math.cos(b), e - math.sin(a) * math.cos(b), up - math.sin(b)]))
    check(off < 0.01, 'pierce point of %s: %s, %s is %.5f deg off the line of sight', c, la, lo, off)
    return c['el'] < 89


# ---- TEC maps

CACHE = []

def cache():
    """the map cache of lsl, emptied, in a directory of this process"""
    k = _utils.get_cache_dir()
    if not CACHE or CACHE[0] != os.getpid():
        CACHE[:] = [os.getpid(), tmpdir()]
        os.makedirs(CACHE[1], exist_ok=True)
    if not os.path.isdir(CACHE[1]):
        os.makedirs(CACHE[1])
    k.cache_dir = CACHE[1]
    for f in os.listdir(CACHE[1]):
        os.unlink(os.path.join(CACHE[1], f))
    forget()
    return k

def forget():
    for v in list(vars(I).values()):
        if callable(getattr(v, 'cache_clear', None)):
            v.cache_clear()

def record(text, tag):
    return '%-60s%-20s\n' % (text, tag)

def ionex(day, times, la, lo, height, tec, rms, exponent, extra):
    """an IONEX file; times in minutes, tec and rms integer counts [time, lat, lng], 9999 is missing"""
    out = [record('%8.1f%12s%-20s%-20s' % (1.0, '', 'IONOSPHERE MAPS', 'GPS'), 'IONEX VERSION / TYPE'), record('a generated map', 'COMMENT'), record('%6d' % len(times), '# OF MAPS IN FILE'),
           record('  COSZ', 'MAPPING FUNCTION'), record('%8.1f' % 6371, 'BASE RADIUS'), record('%6d' % 2, 'MAP DIMENSION'), record('  %6.1f%6.1f%6.1f' % (height, height, 0), 'HGT1 / HGT2 / DHGT'),
           record('  %6.1f%6.1f%6.1f' % (la[0], la[-1], la[1] - la[0]), 'LAT1 / LAT2 / DLAT'), record('  %6.1f%6.1f%6.1f' % (lo[0], lo[-1], lo[1] - lo[0]), 'LON1 / LON2 / DLON')]
    if exponent != -1 or extra & 1:
        out.append(record('%6d' % exponent, 'EXPONENT'))
    out.append(record('', 'END OF HEADER'))
    def block(kind, i, vals):
        t = DT.datetime(1858, 11, 17) + DT.timedelta(days=day, minutes=int(times[i]))
        f = [t.year, t.month, t.day, t.hour, t.minute, t.second]
        if times[i] == 1440 and extra & 2:
            t = DT.datetime(1858, 11, 17) + DT.timedelta(days=day)
            f = [t.year, t.month, t.day, 24, 0, 0]
        out.append(record('%6d' % (i + 1), 'START OF %s MAP' % kind))
        out.append(record(''.join('%6d' % x for x in f), 'EPOCH OF CURRENT MAP'))
        for j, b in enumerate(la):
            out.append(record('  %6.1f%6.1f%6.1f%6.1f%6.1f' % (b, lo[0], lo[-1], lo[1] - lo[0], height), 'LAT/LON1/LON2/DLON/H'))
            for k in range(0, len(lo), 16):
                out.append(''.join('%5d' % v for v in vals[j, k:k + 16]) + '\n')
        out.append(record('%6d' % (i + 1), 'END OF %s MAP' % kind))
    for i in range(len(times)):
        block('TEC', i, tec[i])
    if rms is not None:
        for i in range(len(times)):
            block('RMS', i, rms[i])
    if extra & 4:
        for i in range(len(times)):
            block('HEIGHT', i, tec[i] * 0 + 4500)
    out.append(record('', 'END OF FILE'))
    return gzip.compress(''.join(out).encode())

def judge(source, mjd, t, times, la, lo, tec, rms, where, tag):
    """the values lsl gives at a time (minutes of the day) against maps [time, lat, lng], la and lo in map order"""
    hi = int(np.searchsorted(times, t))
    lo_ = hi if times[hi] == t else hi - 1
    w = 0.0 if hi == lo_ else (t - times[lo_]) / (times[hi] - times[lo_])
    T, R = (m[lo_] * (1 - w) + m[hi] * w for m in (tec, rms))
    if hi == lo_:
        T, R = tec[hi], rms[hi]
    scale = np.nanmax(np.abs(tec)) if np.isfinite(tec).any() else 1.0
    got = np.asarray(I.get_tec_value(mjd, type=source))
    check(got.shape == T.shape, '%s: map of %s, not %s', tag, got.shape, T.shape)
    check(np.array_equal(np.isnan(got), np.isnan(T)), '%s: other values are missing', tag)
    close(np.nan_to_num(got), np.nan_to_num(T), 1e-4, 2e-5 * scale, tag + ': map')
    got, gr = I.get_tec_value(mjd, include_rms=True, type=source)
    close(np.nan_to_num(got), np.nan_to_num(T), 1e-4, 2e-5 * scale, tag + ': map with RMS')
    close(np.nan_to_num(gr), np.nan_to_num(R), 1e-4, 2e-5 * scale, tag + ': RMS map')
    n = 0
    for fa, fo, turn in where:
        b, l = la.min() + fa * (la.max() - la.min()), lo[0] + fo * (lo[-1] - lo[0])
        asc = np.argsort(la)
        i = min(int(np.searchsorted(la[asc], b, side='right')) - 1, len(la) - 2)
        j = min(int(np.searchsorted(lo, l, side='right')) - 1, len(lo) - 2)
        p, q = (b - la[asc][i]) / (la[asc][i + 1] - la[asc][i]), (l - lo[j]) / (lo[j + 1] - lo[j])
        near = np.ix_(asc[max(i - 1, 0):i + 3], range(max(j - 1, 0), min(j + 3, len(lo))))
        if not np.isfinite(T[near]).all() or not np.isfinite(R[near]).all():
            near = np.ix_(asc[i:i + 2], range(j, j + 2))
            if min(p, q, 1 - p, 1 - q) < 0.01 or not np.isfinite(T[near]).all() or not np.isfinite(R[near]).all():
                continue
        v = [sum(m[asc[i + x], j + y] * (p if x else 1 - p) * (q if y else 1 - q) for x in (0, 1) for y in (0, 1)) for m in (T, R)]
        n += 1
        g = I.get_tec_value(mjd, lat=b, lng=l + 360 * turn, type=source)
        close(np.asarray(g).ravel(), [v[0]], 1e-4, 2e-4 * scale, '%s: TEC at %s, %s' % (tag, b, l + 360 * turn))
        g, r = I.get_tec_value(mjd, lat=b, lng=l + 360 * turn, include_rms=True, type=source)
        close(np.asarray(g).ravel(), [v[0]], 1e-4, 2e-4 * scale, '%s: TEC with RMS at %s, %s' % (tag, b, l + 360 * turn))
        close(np.asarray(r).ravel(), [v[1]], 1e-4, 2e-4 * scale, '%s: RMS at %s, %s' % (tag, b, l + 360 * turn))
    return n

fr = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.5, 0.25]), st.floats(0.01, 0.99))
places = st.lists(st.tuples(fr, fr, st.sampled_from([0, 0, 0, 1, -1])), min_size=1, max_size=4)
whens = st.one_of(st.floats(0, 1), st.floats(0.001, 0.999), st.floats(0.001, 0.999), st.integers(0, 96).map(lambda k: k / 96), st.integers(0, 12).map(lambda k: k / 12))
FINAL = {'IGS': 'igsg', 'JPL': 'jplg', 'EMR': 'emrg', 'UQR': 'uqrg', 'CODE': 'codg'}
RAPID = {'IGS': 'igrg', 'JPL': 'jprg', 'EMR': 'ehrg'}

def short(source, day, rapid=False):
    t = DAY0 + DT.timedelta(days=day)
    return '%s%03d0.%02di.Z' % ((RAPID if rapid else FINAL)[source], t.timetuple().tm_yday, t.year % 100)

@part('ionex', st.fixed_dictionaries(dict(seed=seeds, source=st.sampled_from(['IGS', 'JPL', 'EMR', 'UQR', 'CODE', 'igs', 'Code']), day=st.integers(51000, 61500), step=st.sampled_from([120, 120, 60, 30, 15]), t=whens, nlat=st.integers(2, 7), nlng=st.integers(2, 20),
                                          dlat=st.sampled_from([-2.5, -5.0, -1.0, -0.7]), dlng=st.sampled_from([5.0, 2.5, 1.0, 0.7, 0.1, 10.0]), world=st.booleans(), rms=st.booleans(), missing=st.sampled_from([0, 0, 1, 3]),
                                          exponent=st.sampled_from([-1, -1, -1, -2, 0]), extra=st.integers(0, 7), where=places)), quick=260, thorough=2400, rule='the time is between two maps and a place was compared', shards=2, seconds=70,
      explicit=[dict(seed=1, source='CODE', day=58215, step=60, t=10.5 / 24, nlat=4, nlng=5, dlat=-2.5, dlng=5.0, world=True, rms=True, missing=1, exponent=-2, extra=0, where=[(0.6, 0.6, 0), (0.9, 0.9, 1), (0.1, 0.1, 0)])])
def ionex_maps(c):
    r = rng(c['seed'])
    k = cache()
    times = np.arange(0, 1441, c['step'])
    if c['world']:
        la, lo = np.linspace(87.5, -87.5, c['nlat'] if c['nlat'] in (2, 3, 6) else 5), np.arange(-180, 181, [20, 30, 60][c['nlng'] % 3]).astype(float)
        la = np.round(la, 1)
        if np.ptp(np.diff(la)) > 1e-9:
            la = np.array([87.5, 52.5, 17.5, -17.5, -52.5, -87.5])
    else:
        l0 = float(r.integers(-120, 80))
        la, lo = np.round(50 + c['dlat'] * np.arange(c['nlat']), 1), np.round(l0 + c['dlng'] * np.arange(c['nlng']), 1)
    shape = len(times), len(la), len(lo)
    tec, rms = r.integers(-5 if c['seed'] % 5 == 0 else 0, 1200, shape), r.integers(0, 90, shape)
    if c['world']:
        tec[:, :, -1], rms[:, :, -1] = tec[:, :, 0], rms[:, :, 0]
    for _ in range(c['missing']):
        i, j = r.integers(len(la)), r.integers(1, max(len(lo) - 1, 2))
        tec[:, i, j] = 9999
        rms[:, i, j] = 9999
    blob = ionex(c['day'], times, la, lo, 450.0, tec, rms if c['rms'] else None, c['exponent'], c['extra'])
    with k.open(short(c['source'].upper(), c['day']), 'wb') as fh:
        fh.write(blob)
    q = 10.0 ** c['exponent']
    tec, rms = np.where(tec == 9999, np.nan, tec * q), np.where(rms == 9999, np.nan, rms * q)
    if not c['rms']:
        rms = tec * 0.05
    mjd = c['day'] + c['t'] if c['t'] < 1 else c['day'] + 0.99999
    t = (mjd - c['day']) * 1440
    if abs(t - round(t)) < 1e-5:
        t = float(round(t))
    n = judge(c['source'], mjd, t, times, la, lo, tec, rms, c['where'], '%s maps every %d min at %.3f min' % (c['source'], c['step'], t))
    label('world' if c['world'] else 'region')
    return n > 0 and t not in times

def tar(files):
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode='w:gz') as t:
        for name, data in files:
            i = tarfile.TarInfo(name)
            i.size = len(data)
            t.addfile(i, io.BytesIO(data))
    return f.getvalue()

def ustec(r, day, times, la, lo, tec, rms):
    """a day of US-TEC maps; la ascending; rms None or (la, lo, values)"""
    files = []
    def table(la, lo, v, slant):
        s = ':Product: a generated map\n#comment\n\n' + '%6d' % 0 + ''.join('%6d' % round(x * 10) for x in lo) + '\n'
        for b, row in zip(la, v):
            s += '%6d' % round(b * 10) + ''.join('%6d' % x for x in row) + '\n'
        return (s + ('999 1 2 3\n%6d%6d\n' % (1, 2) if slant else '')).encode()
    for i, m in enumerate(times):
        t = (DAY0 + DT.timedelta(days=day, minutes=int(m))).strftime('%Y%m%d%H%M')
        files.append(('ustec/%s_TEC.txt' % t, table(la, lo, tec[i], True)))
        if rms is not None:
            files.append(('ustec/%s_ERR.txt' % t, table(rms[0], rms[1], rms[2][i], False)))
        files.append(('ustec/%s_EOF.txt' % t, b':Product: EOF\n  3  10  6471.0  50.0\n' + b''.join(b'%8.4f 0.1 0.2\n' % x for x in (0.1, 0.4, 0.3))))
    files.append(('ustec/readme.txt', b'nothing'))
    r.shuffle(files)
    return tar(files)

def grid(la, lo, v, la2, lo2):
    """bilinear interpolation of v[la, lo] to la2, lo2"""
    a = np.array([[np.interp(b, la, v[:, j]) for b in la2] for j in range(len(lo))]).T
    return np.array([np.interp(lo2, lo, a[i]) for i in range(len(la2))])

@part('regional', st.fixed_dictionaries(dict(seed=seeds, day=st.integers(53300, 60263), first=st.integers(0, 80), n=st.integers(2, 8), t=whens, nlat=st.integers(3, 8), nlng=st.integers(3, 9), rms=st.booleans(), where=places)), quick=160, thorough=1600,
      rule='a place was compared', seconds=60, explicit=[dict(seed=1, day=58215, first=0, n=3, t=0.4, nlat=4, nlng=7, rms=True, where=[(0.5, 0.9, 0)])])
def regional(c):
    r = rng(c['seed'])
    k = cache()
    times = 15 * (c['first'] + np.arange(c['n']))
    la, lo = 10.0 + np.arange(c['nlat']) * 2, -150.0 + np.arange(c['nlng']) * 3
    tec = r.integers(0, 900, (len(times), len(la), len(lo)))
    err = None
    if c['rms']:
        ra, ro = np.linspace(la[0], la[-1], 3), np.linspace(lo[0], lo[-1], 2)
        err = ra, ro, r.integers(0, 80, (len(times), 3, 2))
    with k.open((DAY0 + DT.timedelta(days=c['day'])).strftime('%Y%m%d_ustec.tar.gz'), 'wb') as fh:
        fh.write(ustec(r, c['day'], times, la, lo, tec, err))
    tec = tec / 10.0
    rms = tec * 0.05 if err is None else np.array([grid(ra, ro, err[2][i] / 10.0, la, lo) for i in range(len(times))])
    t = times[0] + c['t'] * (times[-1] - times[0])
    mjd = c['day'] + t / 1440
    if abs(t - round(t)) < 1e-5:
        t = float(round(t))
    return judge('USTEC', mjd, t, times, la[::-1], lo, tec[:, ::-1], rms[:, ::-1], c['where'], 'US-TEC maps at %.3f min' % t) > 0

def glotec(day, times, la, lo, tec, quality):
    f = io.BytesIO()
    with h5py.File(f, 'w') as h:
        h['time'] = (day - 40587) * 86400.0 + times * 60
        h['latitude'], h['longitude'], h['TEC'], h['quality_flag'] = la, lo, tec, quality
    return f.getvalue()

@part('global', st.fixed_dictionaries(dict(seed=seeds, day=st.integers(60730, 61500), first=st.integers(0, 130), n=st.integers(2, 8), t=whens, half=st.booleans(), where=places)), quick=160, thorough=1600, rule='a place was compared', seconds=60)
def globe(c):
    r = rng(c['seed'])
    k = cache()
    times = 10 * (c['first'] + np.arange(c['n'])) + (5 if c['half'] else 0)
    la, lo = np.arange(-88.75, 90, 17.75), np.arange(-180.0, 180, 24)
    tec = r.uniform(0, 90, (len(times), len(la), len(lo)))
    quality = r.integers(0, 6, tec.shape)
    with k.open((DAY0 + DT.timedelta(days=c['day'])).strftime('GloTEC_TEC_%Y_%m_%d.nc'), 'wb') as fh:
        fh.write(glotec(c['day'], times, la, lo, tec, quality))
    t = times[0] + c['t'] * (times[-1] - times[0])
    mjd = c['day'] + t / 1440
    if abs(t - round(t)) < 1e-5:
        t = float(round(t))
    return judge('GLOTEC', mjd, t, times, la[::-1], lo, tec[:, ::-1], ((6 - quality) / 100 * tec)[:, ::-1], c['where'], 'GloTEC maps at %.3f min' % t) > 0


# ---- where the maps come from

class Handler(BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass
    def do_GET(self):
        path = '/' + '/'.join(x for x in self.path.split('/') if x)
        self.server.asked.append(path)
        how, body = self.server.files.get(path, (404, b''))
        self.send_response(200 if how != 404 else 404)
        self.send_header('Last-Modified', 'Mon, 01 Jan 2024 00:00:00 GMT')
        self.send_header('Content-Length', str(len(body)))
        self.send_header('Connection', 'close')
        self.end_headers()
        try:
            self.wfile.write(body[:len(body) // 2] if how == 'cut' else body)
        except OSError:
            pass

SERVER = []

def server():
    if not SERVER or SERVER[0] != os.getpid():
        s = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        s.daemon_threads = True
        s.files, s.asked = {}, []
        threading.Thread(target=s.serve_forever, args=(0.05,), daemon=True).start()
        SERVER[:] = [os.getpid(), s]
    SERVER[1].files.clear()
    del SERVER[1].asked[:]
    return SERVER[1]

LONG = {'IGS': ('IGS0OPSFIN_%s0000_01D_02H_GIM.INX.gz', 'IGS0OPSRAP_%s0000_01D_02H_GIM.INX.gz'), 'EMR': ('EMR0OPSFIN_%s0000_01D_01H_GIM.INX.gz', 'EMR0OPSRAP_%s0000_01D_01H_GIM.INX.gz'), 'CODE': ('COD0OPSFIN_%s0000_01D_01H_GIM.INX.gz', None)}

def value(source, mjd):
    try:
        v = np.asarray(I.get_tec_value(mjd, lat=35.0, lng=-105.0, type=source)).ravel()
    except (OSError, RuntimeError):
        return None
    return round(float(v[0]), 2)

state = st.sampled_from(['no', 'no', 'yes', 'yes', 'yes', 'cut', 'empty', 'bad'])

@part('fetch', st.fixed_dictionaries(dict(seed=seeds, source=st.sampled_from(['IGS', 'JPL', 'EMR', 'UQR', 'CODE']), day=st.integers(51000, 61500), t=st.sampled_from([0.0, 0.25, 0.9, 0.9999999, 0.51]), final=st.tuples(state, state, state, state),
                                          rapid=st.tuples(state, state, state, state), cached=st.sampled_from(['', '', '', 'final', 'rapid']), mirror=st.booleans())), quick=160, thorough=1600, rule='a map was downloaded', seconds=60)
def fetch(c):
    k, s = cache(), server()
    src, day = c['source'], c['day']
    mjd = day + c['t']
    t = DAY0 + DT.timedelta(days=day)
    names = {}
    for kind in ('final', 'rapid'):
        if kind == 'rapid' and src not in RAPID:
            continue
        a = LONG.get(src, (None, None))[kind == 'rapid']
        names[kind] = [a and a % t.strftime('%Y%j'), short(src, day, kind == 'rapid')]
    lat, lng = np.array([40.0, 35.0, 30.0]), np.array([-110.0, -105.0, -100.0])
    def blob(n):
        return ionex(day, np.arange(0, 1441, 120), lat, lng, 450.0, np.full((13, 3, 3), n), None, -1, 0)
    right = {'final': [], 'rapid': []}
    for kind, nn in names.items():
        for i, name in enumerate(nn):
            for j, base in enumerate(('p', 'm')):
                how = c[kind][2 * i + j]
                if name is None or how == 'no':
                    continue
                if how == 'bad' and name.endswith('.gz'):
                    how = 'empty'
                n = (100 if kind == 'final' else 500) + 10 * i + j
                body = {'empty': b'', 'bad': b'<html>please log in</html>\n' * 20}.get(how) if how in ('empty', 'bad') else blob(n)
                s.files['/%s/%s/%s' % (base, t.strftime('%Y/%j'), name)] = (how, body)
                if how == 'yes' and (base == 'p' or c['mirror']):
                    right[kind].append(n / 10)
    if c['cached'] and (c['cached'] == 'final' or src in RAPID):
        with k.open(short(src, day, c['cached'] == 'rapid'), 'wb') as fh:
            fh.write(blob(77))
    have = c['cached'] if c['cached'] == 'final' or src in RAPID else ''
    want = [7.7] if have == 'final' else right['final'] or ([7.7] if have == 'rapid' else right['rapid'])
    url = 'http://127.0.0.1:%d/' % s.server_address[1]
    with LSL_CONFIG.set_temp('ionosphere.%s_url' % src.lower(), url + 'p/'), LSL_CONFIG.set_temp('ionosphere.%s_mirror' % src.lower(), url + 'm/' if c['mirror'] else None):
        got = value(src, mjd)
        check(got in want if want else got is None, '%s map of day %s: %s for %s (served: %s, cached: %s)', src, day, got, want, {a: b[0] for a, b in s.files.items()}, have)
        if have == 'final':
            check(not s.asked, '%s map in the cache, but %s asked for', src, s.asked)
        for a in s.asked:
            check(a.startswith('/p/') or c['mirror'], 'asked for %s without a mirror', a)
        # once there the final map is not asked for again
        if got is not None and (have == 'final' or right['final']):
            del s.asked[:]
            s.files.clear()
            forget()
            check(value(src, mjd) == got and not s.asked, '%s map of day %s: %s the second time, %s asked for', src, day, value(src, mjd), s.asked)
        # what failed leaves nothing behind
        if got is None:
            s.files.clear()
            i = 0 if names['final'][0] else 1
            s.files['/p/%s/%s' % (t.strftime('%Y/%j'), names['final'][i])] = ('yes', blob(333))
            forget()
            got2 = value(src, mjd)
            check(got2 == 33.3, '%s map of day %s when it is there after all: %s', src, day, got2)
    return got is not None and got != 7.7

@part('fetchday', st.fixed_dictionaries(dict(seed=seeds, source=st.sampled_from(['USTEC', 'GLOTEC']), off=st.integers(0, 700), t=st.sampled_from([0.0, 0.25, 0.5, 0.51, 0.9999955, 0.0069444]), name=st.booleans(), out=st.sampled_from([False, False, False, True]))), quick=80, thorough=600, rule='a map was downloaded', seconds=60)
def fetchday(c):
    k, s, r = cache(), server(), rng(c['seed'])
    us = c['source'] == 'USTEC'
    day = (60264 + c["off"] % 300 if us else 60729 - c['off'] % 300) if c['out'] else 60263 - c["off"] if us else 60730 + c['off']
    t = DAY0 + DT.timedelta(days=day)
    times = np.arange(0, 1440, 15 if us else 10)
    lat, lng = np.array([30.0, 35.0, 40.0]), np.array([-110.0, -105.0, -100.0])
    n = int(r.integers(1, 999))
    if us:
        name, body = t.strftime('ustec_%Y_%m_%d.tar.gz' if c['name'] else '%Y%m%d_ustec.tar.gz'), ustec(r, day, times, lat, lng, np.full((len(times), 3, 3), n), None)
    else:
        name = t.strftime('glotec_%Y_%m_%d.tar.gz')
        body = tar([(t.strftime('glotec_%Y_%m_%d/readme.txt'), b'x'), (t.strftime('glotec_%Y_%m_%d/GloTEC_TEC_%Y_%m_%d.nc'), glotec(day, times, lat, lng, np.full((len(times), 3, 3), n / 10), np.full((len(times), 3, 3), 5)))])
    s.files['/%s/%s/%s' % ('m' if c['seed'] % 3 == 0 else 'p', t.strftime('%Y/%m'), name)] = ('yes', body)
    url = 'http://127.0.0.1:%d/' % s.server_address[1]
    mjd = day + c['t']
    with LSL_CONFIG.set_temp('ionosphere.%s_url' % c['source'].lower(), url + 'p/'), LSL_CONFIG.set_temp('ionosphere.%s_mirror' % c['source'].lower(), url + 'm/'):
        if c['out']:
            try:
                got = I.get_tec_value(mjd, lat=35.0, lng=-105.0, type=c['source'])
            except ValueError:
                return False
            check(False, '%s value of %s for day %s, outside the days it exists for', c['source'], got, day)
        got = value(c['source'], mjd)
        check(got is not None and abs(got - n / 10) < 0.011, '%s value of day %s: %s for %s', c['source'], mjd, got, n / 10)
        del s.asked[:]
        s.files.clear()
        forget()
        check(value(c['source'], mjd) == got and not s.asked, '%s maps of day %s are asked for again: %s', c['source'], day, s.asked)
    return True

@part('unknown', st.fixed_dictionaries(dict(name=st.one_of(st.text('abcdeIGSXY ', max_size=6), st.sampled_from(['ESA', 'IGSX', ''])))), quick=300, thorough=1000, rule='always')
def unknown(c):
    if c['name'].upper() in ('IGS', 'JPL', 'EMR', 'UQR', 'CODE', 'USTEC', 'GLOTEC'):
        raise Reject()
    cache()
    try:
        I.get_tec_value(58215.5, lat=35, lng=-105, type=c['name'])
    except ValueError:
        return True
    check(False, 'TEC of the unknown source %r', c['name'])
