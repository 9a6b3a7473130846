"""C24: angles, calendar dates, time zones, time scales and sidereal times convert into each other exactly."""
import math, pickle, copy, warnings
from datetime import datetime, timedelta
from fractions import Fraction
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
warnings.simplefilter('ignore')
from astropy.time import Time
from astropy.utils import iers
iers.conf.auto_download = False
from lsl import astro as A

seeds = st.integers(0, 2**31)

from vlib.sky import STARTS, LEAPDAYS, tai_utc, jd0

# ---------------------------------------------------------------- angles

ang = st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['grid', 'any', 'edge'])))

def draw(r, kind, top):
    if kind == 'any':
        return float(r.uniform(0, top))
    d, m, s = int(r.integers(0, top)), int(r.choice([0, 1, 29, 30, 59, r.integers(0, 60)])), float(r.choice([0, 0, 0, 30, 59, r.integers(0, 60), round(r.uniform(0, 60), 2)]))
    v = float(Fraction(d) + Fraction(m, 60) + Fraction(s)/3600)
    if kind == 'edge':
        v = float(np.nextafter(v, r.choice([-1e9, 1e9])))
    return min(max(v, 0.0), float(np.nextafter(top, 0)))

def whole(o, top, what):
    f = o.hours if hasattr(o, 'hours') else o.degrees
    check(isinstance(f, int) and isinstance(o.minutes, int) and 0 <= f < top and 0 <= o.minutes < 60 and 0 <= o.seconds < 60, '%s gives %r', what, o)
    return (f*3600 + o.minutes*60 + o.seconds)/3600

@part('angles', ang, quick=5000, thorough=60000, rule='every case', seconds=60, explicit=[dict(seed=1, kind='grid')])
def angles(c):
    r = rng(c['seed'])
    v = draw(r, c['kind'], 360)*(-1 if r.random() < 0.5 else 1)
    d = A.deg_to_dms(v)
    check(abs(whole(d, 360, 'deg_to_dms') - abs(v)) < 1e-10 and bool(d.neg) == (v < 0), '%r degrees is %r', v, d)
    check(abs(d.to_deg() - v) < 1e-10 and abs(A.dms_to_deg(d) - v) < 1e-10 and abs(d.to_rad() - math.radians(v)) < 1e-11, '%r in degrees', d)
    check(abs((-d).to_deg() + v) < 1e-10 and abs(d.to_deg() - v) < 1e-10, 'negation of %r', d)
    check(abs(A.rad_to_dms(math.radians(v)).to_deg() - v) < 1e-10 and abs(A.rad_to_deg(A.deg_to_rad(v)) - v) < 1e-10, 'radians')
    p = str(d).split()
    check(str(d)[0] == ('-' if v < 0 else '+') and abs(abs(int(p[0])) + int(p[1])/60 + float(p[2])/3600 - abs(v)) < 0.006/3600, '%r prints as %s', d, d)
    w = v % 360
    for h in (A.deg_to_hms(v), A.rad_to_hms(math.radians(v)), d.to_hms()):
        diff = (whole(h, 24, 'deg_to_hms')*15 - v) % 360
        check(min(diff, 360 - diff) < 1e-9, '%r degrees is %r', v, h)
        check(abs(h.to_deg() - whole(h, 24, 'hms')*15) < 1e-9 and abs(h.to_rad() - math.radians(h.to_deg())) < 1e-11, '%r in degrees', h)
        check(abs(h.to_sec() - h.to_deg()*240) < 1e-6 and abs(h.to_dms().to_deg() - h.to_deg()) < 1e-9, '%r in seconds and dms', h)
    p = [float(x) for x in str(h).split()]
    check(abs(p[0]*3600 + p[1]*60 + p[2] - h.to_sec()) < 0.006, '%r prints as %s', h, h)
    # sums
    o = A.deg_to_hms(draw(r, c['kind'], 360))
    total = (h.to_sec() + o.to_sec()) % 86400
    a, before = copy.copy(h), repr(o)
    a += o
    diff = (whole(a, 24, '+=')*3600 - total) % 86400
    check(min(diff, 86400 - diff) < 1e-5 and repr(o) == before, '%r + %r is %r', h, o, a)
    off = float(r.choice([r.uniform(-86400, 86400), r.integers(-3600, 3600), 0.5]))
    s = A.add_secs_hms(h, off)
    diff = (whole(s, 24, 'add_secs_hms')*3600 - h.to_sec() - off) % 86400
    check(min(diff, 86400 - diff) < 1e-5, '%r + %s s is %r', h, off, s)
    # comparisons follow the angles
    for x, y in ((d, h), (h, o), (h, d), (d, -d), (h, float(w)), (d, v + 1.0), (h, A.hms(h.hours, h.minutes, h.seconds)), (d, A.dms(d.neg, d.degrees, d.minutes, d.seconds))):
        fx, fy = x.to_deg(), y if isinstance(y, float) else y.to_deg()
        check((x == y) == (fx == fy) and (x < y) == (fx < fy) and (x > y) == (fx > fy) and (x <= y) == (fx <= fy) and (x != y) == (fx != fy), 'comparison of %r and %r', x, y)
    # ranges
    big = float(r.choice([r.uniform(-5000, 5000), 24.0*r.integers(-50, 50), 360.0*r.integers(-50, 50), v]))
    for f, top in ((A.range_hours, 24), (A.range_degrees, 360)):
        q = f(big)
        diff = (q - big) % top
        check(0 <= q < top and min(diff, top - diff) < 1e-9, '%s puts %s at %s', f.__name__, big, q)
    check(abs(A.deg_to_sec(v) - v*240) < 1e-6 and abs(A.sec_to_jd(big)*86400 - big) < 1e-8 and abs(A.jd_to_sec(big) - big*86400) < 1e-3, 'seconds')
    az = abs(v)
    check(A.hrz_to_nswe(A.hrz_posn(az, 10.0)) == 'NESWN'[sum(az >= b for b in (45, 135, 225, 315))], 'direction of azimuth %s', az)
    for x in (d, h):
        y = pickle.loads(pickle.dumps(x))
        check(type(y) is type(x) and y == x and repr(y) == repr(x) and eval(repr(x), dict(lsl=__import__('lsl'))) == x, 'copy of %r', x)
    for f in (lambda: A.hms(24, 0, 0.0), lambda: A.hms(1, 60, 0.0), lambda: A.hms(1, 0, 60.0), lambda: A.hms(-1, 0, 0.0), lambda: A.hms(1, 0, -0.1),
              lambda: A.dms(False, 360, 0, 0.0), lambda: A.dms(False, 1, 60, 0.0), lambda: A.dms(True, 1, 0, 60.0), lambda: A.dms(True, 1, -1, 6.0)):
        try:
            f()
        except ValueError:
            continue
        check(False, 'angle out of range is accepted')
    return True

# ---------------------------------------------------------------- calendar

cal = st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['any', 'any', 'day', 'month', 'leap', 'second'])))

def moment(r, kind):
    if kind == 'leap':
        s = STARTS[int(r.integers(0, len(STARTS)))][0]
        return s + timedelta(microseconds=int(r.choice([0, 1, 10**6, -1, -10**6, -3600*10**6, -43200*10**6, 43200*10**6, 86400*10**6, r.integers(-86400*10**6, 86400*10**6)])))
    base = datetime(int(r.integers(1972, 2027)), int(r.integers(1, 13)), 1)
    if kind == 'month':
        base = base.replace(month=int(r.choice([1, 3, 12])))
        return base + timedelta(seconds=int(r.integers(-3, 3)), microseconds=int(r.choice([0, 1, 500000, 999999])))
    base += timedelta(days=int(r.integers(0, 31)))
    if kind == 'day':
        return base + timedelta(microseconds=int(r.choice([0, 1, 999999, 43200*10**6, 86399*10**6, 86399999999, 43199999999])))
    t = base + timedelta(microseconds=int(r.integers(0, 86400*10**6)))
    if kind == 'second':
        t = t.replace(microsecond=int(r.choice([0, 999999, 999600, 999500, 1, 500])), second=int(r.choice([0, 59, 30])))
    return t

def lsl_date(dt):
    return A.date(dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second + dt.microsecond/1e6)

def as_datetime(d):
    return datetime(d.years, d.months, d.days, d.hours, d.minutes) + timedelta(seconds=d.seconds)

@part('calendar', cal, quick=2400, thorough=40000, rule='every case', seconds=60)
def calendar(c):
    r = rng(c['seed'])
    dt = moment(r, c['kind'])
    if dt < datetime(1972, 1, 3):
        raise Reject()
    d = lsl_date(dt)
    long = dt.date() in LEAPDAYS
    sec = dt.hour*3600 + dt.minute*60 + dt.second + dt.microsecond/1e6
    want = jd0(dt) + sec/(86401 if long else 86400)
    if long:
        label('leap second day')
    check(abs(d.to_jd() - want)*86400 < 1e-4 and A.get_julian_day(d) == d.to_jd(), 'JD of %s is %r, not %r', dt, d.to_jd(), want)
    back = A.get_date(want)
    if not (long and sec > 86399.9):
        check(abs((as_datetime(back) - dt).total_seconds()) < 1e-4, 'JD %r is %s, not %s', want, back, dt)
    if sec < 86399.999:
        check(A.get_day_of_week(d) == (dt.weekday() + 1) % 7, '%s is day %s of the week', dt, A.get_day_of_week(d))
    # reading the text forms
    e = A.date()
    e.load(dt.strftime('%Y-%m-%d'), dt.strftime('%H:%M:%S.%f'))
    check((e.years, e.months, e.days, e.hours, e.minutes) == (dt.year, dt.month, dt.day, dt.hour, dt.minute) and abs(e.seconds - dt.second - dt.microsecond/1e6) < 1e-9, 'loaded date is %r', e)
    for a, b in (('2020-13-01', '00:00:00'), ('2020-01-32', '00:00:00'), ('2020-01', '00:00:00'), ('2020-01-01', '24:00:00'), ('2020-01-01', '00:60:00'),
                 ('2020-01-01', '00:00:60'), ('2020-01-01', '00:00'), ('x-01-01', '00:00:00'), ('2020-01-01', '00:00:-1'), ('2020-00-01', '00:00:00')):
        keep = repr(e)
        try:
            e.load(a, b)
        except ValueError:
            check(repr(e) == keep, 'a failed load changes the date')
            continue
        check(False, 'date %s %s is accepted', a, b)
    # time zones
    off = int(r.choice([r.integers(-43200, 43201), 3600*r.integers(-12, 13), 0]))
    z = d.to_zone(off)
    check(abs((as_datetime(z) - dt).total_seconds() - off) < 1e-5 and z.gmtoff == off and z.seconds < 60, '%s in zone %s is %s', dt, off, z)
    y = z.to_date()
    check(abs((as_datetime(y) - dt).total_seconds()) < 1e-5 and y.seconds < 60, '%s is %s in UTC', z, y)
    if not long:
        check(abs(z.to_jd() - want)*86400 < 1e-4 and abs(A.get_julian_local_date(z) - want)*86400 < 1e-4, 'JD of %s', z)
    # Unix times (not defined to better than a second on a day with a leap second)
    if not long:
        ux = (dt - datetime(1970, 1, 1))/timedelta(seconds=1)
        for f in (A.get_timet_from_julian, A.utcjd_to_unix):
            check(abs(f(want) - ux) < 1e-4, '%s of %s is %r, not %r', f.__name__, dt, f(want), ux)
        for f in (A.get_julian_from_timet, A.unix_to_utcjd):
            check(abs(f(ux) - want)*86400 < 1e-4, '%s of %s', f.__name__, dt)
        check(abs(A.unix_to_taimjd(ux) - (want - 2400000.5 + tai_utc(dt)/86400))*86400 < 1e-4, 'TAI MJD of Unix time %s', ux)
        check(abs(A.taimjd_to_unix(want - 2400000.5 + tai_utc(dt)/86400) - ux) < 1e-4, 'Unix time of a TAI MJD at %s', dt)
    # order and copies
    o = moment(r, c['kind']) if r.random() < 0.5 else dt + timedelta(milliseconds=int(r.choice([-1, 1, 1000, -1000])))
    if abs((o - dt).total_seconds()) > 1e-3 and o > datetime(1972, 1, 3):
        p = lsl_date(o)
        for q in (p, p.to_zone(off)):
            check((d < q) == (dt < o) and (d > q) == (dt > o) and d != q, 'order of %s and %s', d, q)
            check((z < q) == (dt < o) and z != q, 'order of %s and %s', z, q)
    for x in (d, z):
        w = pickle.loads(pickle.dumps(x))
        check(repr(w) == repr(x) and w == x, 'copy of %r', x)
    return True

# ---------------------------------------------------------------- time scales

@part('scales', cal, quick=2400, thorough=40000, rule='every case', seconds=60)
def scales(c):
    r = rng(c['seed'])
    dt = moment(r, c['kind'])
    if dt < datetime(1972, 1, 3):
        raise Reject()
    long = dt.date() in LEAPDAYS
    sec = dt.hour*3600 + dt.minute*60 + dt.second + dt.microsecond/1e6
    utc = jd0(dt) + sec/(86401 if long else 86400)
    # how far a JD double can be off decides what is asked close to the end of a day
    if sec > 86399.999:
        utc = jd0(dt) + 1
        dt = dt.replace(hour=0, minute=0, second=0, microsecond=0) + timedelta(days=1)
        sec, long = 0.0, dt.date() in LEAPDAYS
    n = tai_utc(dt)
    check(A.leap_secs(utc) == n, 'TAI - UTC at %s is %s, not %s', dt, A.leap_secs(utc), n)
    tai = jd0(dt) + (sec + n)/86400
    tt = jd0(dt) + (sec + n + 32.184)/86400
    near = lambda a, b: abs(a - b)*86400 < 1.5e-4
    check(near(A.utc_to_tai(utc), tai), 'TAI of %s', dt)
    check(near(A.utcjd_to_taimjd(utc), tai - 2400000.5), 'TAI MJD of %s', dt)
    check(near(A.utc_to_tt(utc), tt) and near(A.tai_to_tt(tai), tt) and near(A.tt_to_tai(tt), tai), 'TT of %s', dt)
    check(near(A.tai_to_utc(tai), utc) and near(A.tt_to_utc(tt), utc) and near(A.taimjd_to_utcjd(tai - 2400000.5), utc), 'UTC of %s', dt)
    g = math.radians(357.53 + 0.98560028*(tt - 2451545.0))
    tdb = 0.001657*math.sin(g) + 0.000022*math.sin(math.radians(246.11 + 0.90251792*(tt - 2451545.0)))
    check(abs((A.tt_to_tdb(tt) - tt)*86400 - tdb) < 1.5e-4, 'TDB - TT at %s is %s', dt, (A.tt_to_tdb(tt) - tt)*86400)
    check(A.jd_to_mjd(utc) == utc - 2400000.5 and abs(A.mjd_to_jd(utc - 2400000.5) - utc) < 1e-9, 'MJD of %s', dt)
    for f, v in ((A.jd_to_mjd, 2400000.4), (A.mjd_to_jd, -0.1), (A.leap_secs, 2441317.4)):
        try:
            f(v)
        except ValueError:
            continue
        check(False, '%s accepts %s', f.__name__, v)
    return True

@part('sidereal', cal, quick=1600, thorough=20000, rule='every case', seconds=60)
def sidereal(c):
    r = rng(c['seed'])
    dt = moment(r, c['kind'])
    if not datetime(1973, 1, 3) < dt < datetime(2024, 6, 1) or dt.date() in LEAPDAYS:
        raise Reject()
    sec = dt.hour*3600 + dt.minute*60 + dt.second + dt.microsecond/1e6
    utc = jd0(dt) + sec/86400
    ut1 = Time(jd0(dt), sec/86400, format='jd', scale='utc').ut1
    check(abs(ut1.jd - utc)*86400 < 1.0, 'UT1 - UTC')
    d, f = jd0(dt) - 2451545.0, (ut1.jd1 - jd0(dt)) + ut1.jd2
    tt = d + (sec + tai_utc(dt) + 32.184)/86400
    T = tt/36525
    era = 2*math.pi*((0.7790572732640 + 0.00273781191135448*(d + f) + (d % 1.0) + f) % 1.0)
    gmst = (math.degrees(era)*3600 + 0.014506 + 4612.156534*T + 1.3915817*T*T - 0.00000044*T**3)/3600/15 % 24
    om = math.radians(125.04452 - 1934.136261*T)
    L, Lm = math.radians(280.4665 + 36000.7698*T), math.radians(218.3165 + 481267.8813*T)
    dpsi = -17.20*math.sin(om) - 1.32*math.sin(2*L) - 0.23*math.sin(2*Lm) + 0.21*math.sin(2*om)
    eqeq = dpsi*math.cos(math.radians(23.4393))/3600/15
    wrap = lambda a: (a + 12) % 24 - 12
    m, a = A.get_mean_sidereal_time(utc), A.get_apparent_sidereal_time(utc)
    check(0 <= m < 24 and abs(wrap(m - gmst))*3600 < 0.01, 'mean sidereal time at %s is %s, not %s', dt, m, gmst)
    check(0 <= a < 24 and abs(wrap(a - gmst - eqeq))*3600 < 0.06, 'apparent sidereal time at %s is %s, not %s', dt, a, gmst + eqeq)
    lng = float(r.choice([r.uniform(-180, 180), r.uniform(0, 360), -107.6, 0.0, -180.0]))
    l = A.get_local_sidereal_time(lng, utc)
    check(0 <= l < 24 and abs(wrap(l - gmst - eqeq - lng/15))*3600 < 0.06, 'local sidereal time at %s and %s degrees is %s', dt, lng, l)
    return True
