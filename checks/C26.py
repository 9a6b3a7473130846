"""C26: lsl.transform holds times and positions without loss in every representation and points where the sky is."""
import math, pickle, copy, warnings
from datetime import datetime, timedelta
from fractions import Fraction
import numpy as np
from vlib.core import *
from vlib.sky import *
from hypothesis import strategies as st
warnings.simplefilter('ignore')
import erfa, ephem
from astropy.time import Time as ATime
from astropy.utils import iers
iers.conf.auto_download = False
from lsl import astro as A
A.SOLAR_SYSTEM_EPHEMERIS_TO_USE = 'builtin'       # the default one is a download
from lsl import transform as T

seeds = st.integers(0, 2**31)
E0 = datetime(1970, 1, 1)

def refused(f, *kinds):
    try:
        f()
    except kinds or (ValueError, TypeError):
        return True
    return False

def moment(r):
    t = datetime(int(r.integers(1973, 2027)), int(r.integers(1, 13)), 1) + timedelta(days=int(r.integers(0, 28)))
    k = r.choice(['any', 'any', 'start', 'end', 'noon'])
    us = dict(any=int(r.integers(0, 86400*10**6)), start=int(r.choice([0, 1, 999, 1000])), end=86400*10**6 - int(r.choice([1, 100, 499, 501, 1000, 10**6])), noon=43200*10**6 + int(r.integers(-5, 5)))[str(k)]
    t += timedelta(microseconds=us)
    return None if t.date() in LEAPDAYS else t

FORMS = ['PY_DATE', 'STR', 'JD', 'MJD', 'DP', 'MCS', 'TIMET', 'ASTROPY', 'TAI_JD', 'TAI_MJD', 'TAI_TIMET', 'TAI_ASTROPY']

@part('time', st.fixed_dictionaries(dict(seed=seeds, form=st.sampled_from(FORMS), via=st.sampled_from(FORMS), how=st.sampled_from(['new', 'set']))), quick=5000, thorough=60000, rule='every case', seconds=60)
def time(c):
    r = rng(c['seed'])
    t = moment(r)
    if t is None:
        raise Reject()
    us = (t - E0)//timedelta(microseconds=1)
    mjd, day = divmod(us, 86400*10**6)
    mjd += 40587
    n = tai_utc(t)
    def make(form):
        """the time in a representation and how far (seconds) that may be off"""
        if form == 'PY_DATE':
            return t, 1e-9
        if form == 'STR':
            return t.strftime('%Y-%m-%d %H:%M:%S.%f'), 1e-9
        if form == 'JD':
            return float(Fraction(us, 86400*10**6) + Fraction(4881175, 2)), 3e-5
        if form == 'MJD':
            return float(Fraction(us, 86400*10**6) + 40587), 1e-6
        if form == 'DP':
            return us*196, 1e-9
        if form == 'MCS':
            return (mjd, day//1000), 1.1e-3
        if form == 'TIMET':
            return us/1e6, 5e-7
        if form == 'ASTROPY':
            return ATime(t, scale='utc'), 1e-9
        if form == 'TAI_JD':
            return float(Fraction(us + n*10**6, 86400*10**6) + Fraction(4881175, 2)), 3e-5
        if form == 'TAI_MJD':
            return float(Fraction(us + n*10**6, 86400*10**6) + 40587), 1e-6
        if form == 'TAI_TIMET':
            return ATime(t, scale='utc').unix_tai, 5e-7
        if form == 'TAI_ASTROPY':
            return ATime(t, scale='utc').tai, 1e-9
    attr = dict(PY_DATE='utc_py_date', STR='utc_str', JD='utc_jd', MJD='utc_mjd', DP='utc_dp', MCS='utc_mcs', TIMET='utc_timet', ASTROPY='astropy', TAI_JD='tai_jd', TAI_MJD='tai_mjd', TAI_TIMET='tai_timet', TAI_ASTROPY='astropy')
    def secs(form, v):
        """a representation in microseconds since 1970 (UTC, without leap seconds)"""
        if form == 'PY_DATE':
            return Fraction((v - E0)//timedelta(microseconds=1)), 1.01
        if form == 'STR':
            return Fraction((datetime.strptime(v, '%Y-%m-%d %H:%M:%S.%f') - E0)//timedelta(microseconds=1)), 501
        if form in ('JD', 'TAI_JD'):
            return (Fraction(float(v)) - Fraction(4881175, 2))*86400*10**6 - (n*10**6 if form[0] == 'T' else 0), 50
        if form in ('MJD', 'TAI_MJD'):
            return (Fraction(float(v)) - 40587)*86400*10**6 - (n*10**6 if form[0] == 'T' else 0), 1.5
        if form == 'DP':
            check(isinstance(v, int), 'DP samples are %r', v)
            return Fraction(v, 196), 0.006
        if form == 'MCS':
            check(0 <= v[1] < 86400000 and isinstance(v[0], int) and isinstance(v[1], int), 'MJD and MPM are %r', v)
            return Fraction((v[0] - 40587)*86400*10**6 + v[1]*1000), 501
        if form == 'TIMET':
            return Fraction(float(v))*10**6, 0.5
        if form == 'TAI_TIMET':
            return (Fraction(float(v)) - Fraction(ATime(t, scale='utc').unix_tai))*10**6 + us, 0.7
        w = v.utc
        return (Fraction(float(w.jd1)) - Fraction(4881175, 2) + Fraction(float(w.jd2)))*86400*10**6, 0.002
    v, tol = make(c['form'])
    sysm = 'TAI' if c['form'].startswith('TAI') and c['form'] != 'TAI_ASTROPY' else 'UTC'
    if c['how'] == 'new':
        o = T.Time(v, c['form'].replace('TAI_', ''), sysm)
    else:
        o = T.Time(50000.0)
        setattr(o, attr[c['form']], v)
    ref, _ = secs(c['form'], v)                       # what the representation itself says
    if c['form'] == 'MCS':
        ref = Fraction(us - day % 1000)
    if c['form'].endswith('JD') or c['form'].endswith('TIMET'):
        check(abs(ref - us) < tol*1e6, 'harness: %s', float(ref - us))
    got, acc = secs(c['via'], getattr(o, attr[c['via']]))
    err = abs(got - ref) if abs(ref - us) < 1e6 else None
    check(err is not None and err <= acc + 2, '%s given as %s %r reads back as %s %r (%s us)', t, c['form'], v, c['via'], getattr(o, attr[c['via']]), float(got - ref))
    if c['form'] == c['via'] and c['form'] in ('DP', 'MCS', 'PY_DATE'):
        check(getattr(o, attr[c['via']]) == v, '%s %r reads back as %r', c['form'], v, getattr(o, attr[c['via']]))
    # order, hashes, copies
    d = int(r.choice([-1, 1]))*int(r.choice([200, 10**6, 86400*10**6]))
    p = T.Time(t + timedelta(microseconds=d*2 + (-2000 if c['form'] == 'MCS' and d < 0 else 0)), 'PY_DATE')
    check((o < p) == (d > 0) and (o > p) == (d < 0) and o != p and not o == p, 'order of %s and %s', o, p)
    q = pickle.loads(pickle.dumps(o))
    check(q == o and hash(q) == hash(o) and not (q < o) and q <= o and copy.deepcopy(o) == o, 'copy of %r', o)
    check(str(o) == o.utc_str, 'str of %r', o)
    check(refused(lambda: T.Time(1.0, 'XX')) and refused(lambda: T.Time(1.0, 'MJD', 'GPS')) and refused(lambda: T.Time(t, 'PY_DATE', 'TAI')) and refused(lambda: T.Time('x', 'MJD'))
          and refused(lambda: T.Time(1.5, 'DP')) and refused(lambda: T.Time((1, 2, 3), 'MCS')) and refused(lambda: T.Time(5, 'STR')) and refused(lambda: T.Time(5.0, 'PY_DATE')), 'bad times are accepted')
    return True

def near(got, want, tol, msg, *args):
    d = sep(got, want)
    check(d < tol, msg + ' is %s, not %s (%s degrees)', *args, got, want, d)

def xy(p):
    return tuple(float(x) for x in (p[0], p[1]))

@part('celestial', st.fixed_dictionaries(dict(seed=seeds, form=st.sampled_from(['EQU', 'B1950', 'GAL', 'ECL']), how=st.sampled_from(['new', 'set', 'object']))), quick=320, thorough=6000, rule='every case', seconds=75, shards=2)
def celestial(c):
    r = rng(c['seed'])
    p = (float(r.choice([r.uniform(0, 360), 0.0, 359.999])), float(r.choice([r.uniform(-90, 90), 0.0, 89.9])))
    cls = dict(EQU=A.equ_posn, B1950=A.equ_posn, GAL=A.gal_posn, ECL=A.ecl_posn)[c['form']]
    attr = dict(EQU='j2000_equ', B1950='b1950_equ', GAL='j2000_gal', ECL='j2000_ecl')[c['form']]
    v = cls(*p) if c['how'] == 'object' else p
    if c['how'] == 'set':
        o = T.CelestialPosition((1.0, 2.0), name='src')
        setattr(o, attr, v)
    else:
        o = T.CelestialPosition(v, 'EQU' if c['form'] == 'B1950' else c['form'], 'B1950' if c['form'] == 'B1950' else 'J2000', name='src')
    if c['how'] == 'object':
        v[0] = 123.0                     # the caller's object is his own
    check(o.name == 'src', 'name %s', o.name)
    w = vec(*p)
    j = dict(EQU=w, B1950=prec(2433282.4235).T @ w, GAL=GAL.T @ w, ECL=Rx(math.radians(23.4392911)).T @ w)[c['form']]
    tol = dict(EQU=1e-9, B1950=1e-3, GAL=1e-4, ECL=0.015)[c['form']]
    near(xy(o.j2000_equ), sph(j), tol, 'J2000 position of %s %s', c['form'], p)
    near(xy(getattr(o, attr)), p, 1e-4 if c['form'] == 'B1950' else 1e-6, '%s %s', c['form'], p)
    near(xy(o.j2000_gal), sph(GAL @ j), tol + 1e-4, 'galactic position of %s %s', c['form'], p)
    near(xy(o.j2000_ecl), sph(Rx(math.radians(23.4392911)) @ j), tol + 0.015, 'ecliptic position of %s %s', c['form'], p)
    near(xy(o.b1950_equ), sph(prec(2433282.4235) @ j), tol + 1e-3, 'B1950 position of %s %s', c['form'], p)
    t = T.Time(float(r.uniform(42000, 60300)))
    g = (float(r.uniform(-180, 180)), float(r.uniform(-89, 89)), float(r.uniform(0, 4000)))
    site = T.GeographicalPosition(g, name='here')
    tdb = t.astropy.tdb
    pvh, pvb = erfa.epv00(tdb.jd1, tdb.jd2)
    ab = np.array([pvb['v'][i] for i in range(3)])*499.004784/86400
    app = sph(prec(t.utc_jd) @ (j + ab))
    near(xy(o.apparent_equ(t)), app, tol + 0.007, 'apparent position of %s %s', c['form'], p)
    near(xy(o.apparent_ecl(t)), sph(Rx(math.radians(23.4392911)) @ j), tol + 0.03, 'apparent ecliptic position of %s %s', c['form'], p)
    ut = t.astropy.utc
    e = xy(o.j2000_equ)
    k = erfa.atco13(math.radians(e[0]), math.radians(e[1]), 0, 0, 0, 0, ut.jd1, ut.jd2, float(ut.delta_ut1_utc), math.radians(g[0]), math.radians(g[1]), g[2], 0, 0, 0, 0, 0, 1e5)
    want = (math.degrees(float(k[0])), 90 - math.degrees(float(k[1])))
    d = T.PointingDirection(o, site)
    h = d.hrz(t)
    near((h.az, h.alt), want, 1e-3, 'direction of %s from %s at %s', e, g, t)
    dc = d.dir_cos(t)
    check(np.allclose(dc, vec(90 - want[0], want[1]), atol=3e-5), 'direction cosines %s', dc)
    # the ground
    a, f = 6378137.0, 1/298.257223563
    e2, lo, la = f*(2 - f), math.radians(g[0]), math.radians(g[1])
    N = a/math.sqrt(1 - e2*math.sin(la)**2)
    want = [(N + g[2])*math.cos(la)*math.cos(lo), (N + g[2])*math.cos(la)*math.sin(lo), (N*(1 - e2) + g[2])*math.sin(la)]
    q = site.ecef
    check(np.allclose([q.X, q.Y, q.Z], want, atol=1e-4) and site.name == 'here', 'ECEF of %s is %s', g, q)
    for s in (T.GeographicalPosition(tuple(want), 'ECEF'), T.GeographicalPosition(q, 'ECEF'), copy.deepcopy(site)):
        near((s.geo.lng, s.geo.lat), g[:2], 1e-7, 'position of %s', want)
        check(abs(s.geo.elv - g[2]) < 1e-3, 'elevation of %s', want)
    s = T.GeographicalPosition((0.0, 0.0))
    s.ecef = tuple(want)
    near((s.geo.lng, s.geo.lat), g[:2], 1e-7, 'position set to %s', want)
    s.geo = g
    check((s.geo.lng, s.geo.lat, s.geo.elv) == g, 'position set to %s', g)
    check(abs((site.sidereal(t) - A.get_local_sidereal_time(g[0], t.utc_jd) + 12) % 24 - 12) < 1e-6 and 0 <= site.sidereal(t) < 24, 'sidereal time')
    era = 2*math.pi*((0.7790572732640 + 1.00273781191135448*(t.utc_jd - 2451545.0)) % 1.0)
    lst = (math.degrees(era) + 4612.16/3600*(t.utc_jd - 2451545.0)/36525 + g[0])/15
    check(abs((site.sidereal(t) - lst + 12) % 24 - 12) < 3/3600, 'sidereal time %s at %s from %s, not %s', site.sidereal(t), t, g, lst % 24)
    # misuse
    check(refused(lambda: d.hrz(57000.0)) and refused(lambda: d.rst(57000.0)) and refused(lambda: o.apparent_equ(5)) and refused(lambda: site.sidereal(5)) and refused(lambda: T.PointingDirection(site, o))
          and refused(lambda: setattr(d, 'site', o)) and refused(lambda: setattr(d, 'source', site)) and refused(lambda: T.CelestialPosition((1., 2.), 'XX')) and refused(lambda: T.CelestialPosition((1., 2.), 'GAL', 'B1950'))
          and refused(lambda: T.CelestialPosition((1., 2., 3.))) and refused(lambda: T.GeographicalPosition((1.,))) and refused(lambda: T.PlanetaryPosition('Pluto')) and refused(lambda: T.GeographicalPosition((1., 2.), 'ECEF')), 'misuse is accepted')
    return True

EPH = dict(Sun=ephem.Sun, Jupiter=ephem.Jupiter, Saturn=ephem.Saturn, Moon=ephem.Moon, Venus=ephem.Venus, Mars=ephem.Mars)

@part('pointing', st.fixed_dictionaries(dict(seed=seeds, body=st.sampled_from(['star']*3 + sorted(EPH)))), quick=240, thorough=4000, rule='the object rises and sets', seconds=75, shards=3)
def pointing(c):
    r = rng(c['seed'])
    t = T.Time(float(r.uniform(42000, 60300)))
    jd = t.utc_jd
    g = (float(r.uniform(-180, 180)), float(r.choice([r.uniform(-60, 60), 34.07])), float(r.uniform(0, 2500)))
    site = T.GeographicalPosition(g)
    ob = ephem.Observer()
    ob.lon, ob.lat, ob.elevation, ob.pressure, ob.horizon = math.radians(g[0]), math.radians(g[1]), g[2], 0, '0'
    ob.date = jd - 2415020.0
    if c['body'] == 'star':
        p = (float(r.uniform(0, 360)), float(r.uniform(-90, 90)))
        src = T.CelestialPosition(p)
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = math.radians(p[0]), math.radians(p[1]), ephem.J2000
        move = 0
    else:
        src = T.PlanetaryPosition(c['body'])
        check(src.name == c['body'], 'name')
        b = EPH[c['body']]()
        move = 8 if c['body'] == 'Moon' else 1
    b.compute(ob)
    d = T.PointingDirection(src, site)
    h = d.hrz(t)
    near((h.az, h.alt), (math.degrees(b.az), math.degrees(b.alt)), 0.07, '%s at %s from %s', c['body'], t, g)
    check(np.allclose(d.dir_cos(t), vec(90 - h.az, h.alt), atol=1e-6), 'direction cosines')
    near(xy(src.apparent_equ(t)), (math.degrees(b.g_ra), math.degrees(b.g_dec)), 0.06, 'apparent position of %s at %s', c['body'], t)
    if c['body'] != 'star':
        near(xy(src.apparent_ecl(t)), sph(Rx(math.radians(23.4392911)) @ prec(jd).T @ vec(math.degrees(b.g_ra), math.degrees(b.g_dec))), 0.09, 'ecliptic position of %s at %s', c['body'], t)
    dec = math.degrees(b.g_dec)
    top, bot = 90 - abs(g[1] - dec), abs(g[1] + dec) - 90
    if abs(top) < 1.5 + move or abs(bot) < 1.5 + move or top > 86:
        raise Reject()
    rst = d.rst(t)
    if top < 0 or bot > 0:
        check(rst is None, 'a rise of %s at latitude %s', dec, g[1])
        return False
    check(rst is not None, 'no rise of %s at latitude %s', dec, g[1])
    want = dict(rise=ob.next_rising(b, use_center=True), set=ob.next_setting(b, use_center=True), transit=ob.next_transit(b))
    for name in want:
        got, w = getattr(rst, name), want[name] + 2415020.0
        if min(w - jd, abs(w - jd - 1)) < 0.03:
            continue
        tol = 1200 if name == 'transit' and c['body'] == 'Moon' else 240 if name == 'transit' and top > 80 else 60 if name == 'transit' else 50
        check(abs(got - w)*86400 < tol, '%s of %s at %s from %s is %s s off', name, c['body'], t, g, (got - w)*86400)
    return True
