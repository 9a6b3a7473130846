"""Shared by C19 and C20: ways to give times, durations, angles and frequencies, and where things are in the sky."""
import math, ephem
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from astropy.time import Time as ATime
from astropy.coordinates import Angle as AAngle
import astropy.units as u

FS = 196e6
TB10 = 10*1024**4
RATES = {1: 250e3, 2: 500e3, 3: 1e6, 4: 2e6, 5: 4.9e6, 6: 9.8e6, 7: 19.6e6}
DRX_MIN, DRX_MAX, TBS_MIN, TBS_MAX = 222417950, 1928352663, 65739295, 2037918156
EPOCH = datetime(1858, 11, 17, tzinfo=timezone.utc)
ALPHA = 'abcdefgXYZ0123456789 ,.;-_()[]{}+/=#'

def text(r, n=40):
    s = ''.join(r.choice(list(ALPHA), int(r.integers(1, n)))).strip()
    return s or 'x'

WILD = [True]

def edge(r, lo, hi, special, bad=()):
    """A value in lo..hi, one of the special ones now and then or, in wild cases, a bad one."""
    special = list(special) + (list(bad) if WILD[0] else [])
    return special[int(r.integers(len(special)))] if r.uniform() < 0.12 else r.uniform(lo, hi)

def wild(r, p):
    return WILD[0] and r.uniform() < p

def fmt_start(r, t, kinds=6):
    """The start time in one of the accepted forms."""
    k = int(r.integers(kinds))
    ms = f'{t.microsecond//1000:03d}'
    if k == 0:
        return t.strftime('UTC %Y/%m/%d %H:%M:%S.') + ms
    if k == 1:
        return t.strftime('%Y %m %d %H:%M:%S.') + ms
    if k == 2:
        return t.astimezone(ZoneInfo(r.choice(['America/Denver', 'Asia/Kolkata', 'Australia/Adelaide'])))
    if k == 3:
        return t
    if k == 4:
        off = int(r.integers(-11, 13))*60 + int(r.choice([0, 30]))
        l = t.astimezone(timezone(timedelta(minutes=off)))
        a = abs(off)
        sep = ':' if r.integers(2) else ''
        hh = f'{a//60:d}' if sep and r.integers(2) else f'{a//60:02d}'
        return l.strftime('%Y-%m-%dT%H:%M:%S.') + ms + f"{'-' if off < 0 else '+'}{hh}{sep}{a%60:02d}"
    return ATime(t, format='datetime', scale='utc')

def fmt_dur(r, ms):
    k = int(r.integers(5))
    s = ms/1000
    if k == 0:
        return f'{ms//3600000:02d}:{ms//60000%60:02d}:{(ms%60000)/1000:06.3f}'
    if k == 1:
        return timedelta(milliseconds=ms)
    if k == 2:
        return s
    if k == 3:
        return s*u.s if r.integers(2) else (s/60)*u.min
    return f'{ms/1000:.3f}'

def fmt_ra(r, h):
    k = int(r.integers(4))
    if k == 1:
        return ephem.hours(h*math.pi/12)
    if k == 2:
        return AAngle(h, unit='hourangle') if r.integers(2) else AAngle(h*15, unit='deg')
    if k == 3:
        return f'{h*15:.12f}d'
    return h

def fmt_deg(r, d):
    k = int(r.integers(4))
    if k == 1:
        return ephem.degrees(d*math.pi/180)
    if k == 2:
        return AAngle(d, unit='deg') if r.integers(2) else AAngle(math.radians(d), unit='rad')
    if k == 3:
        return f'{d:.12f}d'
    return d

def fmt_freq(r, f):
    return f if r.integers(3) else (f*u.Hz if r.integers(2) else (f/1e6)*u.MHz)

def word(f):
    return int(round(f*2**32/FS))

def altitude(body, site, t):
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.pressure = site.lat, site.lon, site.elev, 0
    o.date = ephem.Date(t.replace(tzinfo=None))
    body.compute(o)
    return float(body.alt)

BODIES = dict(Solar=ephem.Sun, Jovian=ephem.Jupiter, Lunar=ephem.Moon)

class Ambiguous(Exception):
    pass

def visible(body, sites, t, ms):
    n = int(ms//300000) + 1
    out = []
    for k in range(n):
        for s in sites:
            a = altitude(body, s, t + timedelta(seconds=300*k))
            if abs(a) < 0.02:
                raise Ambiguous()
            out.append(a > 0)
    if any(out) != all(out) and n == 1 and len(sites) > 1:
        raise Ambiguous()
    return all(out)

def fixed(ra, dec):
    b = ephem.FixedBody()
    b._ra, b._dec, b._epoch = ra*math.pi/12, dec*math.pi/180, ephem.J2000
    return b

def mjdmpm(t):
    d = t - EPOCH
    return d.days, d.seconds*1000 + d.microseconds//1000
