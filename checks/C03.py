"""C03: frame time stamps are exact to the clock tick and consistent between their representations."""
import operator
import datetime, math
from fractions import Fraction
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
from lsl.reader.base import FrameTimestamp
from lsl.common import ndp

FS = 196000000
DAY = 86400
LO, HI = 63158400, 4102444800                      # 1972-01-02 ... 2100
# days that end (or begin) with a leap second are stretched in the date library; keep out of them
LEAPS = [datetime.date(y, m, d) for y, m, d in [(1972, 6, 30), (1972, 12, 31), (1973, 12, 31), (1974, 12, 31), (1975, 12, 31), (1976, 12, 31), (1977, 12, 31), (1978, 12, 31), (1979, 12, 31), (1981, 6, 30), (1982, 6, 30), (1983, 6, 30), (1985, 6, 30), (1987, 12, 31), (1989, 12, 31), (1990, 12, 31), (1992, 6, 30), (1993, 6, 30), (1994, 6, 30), (1995, 12, 31), (1997, 6, 30), (1998, 12, 31), (2005, 12, 31), (2008, 12, 31), (2012, 6, 30), (2015, 6, 30), (2016, 12, 31)]]
LEAP_DAYS = sorted((d - datetime.date(1970, 1, 1)).days for d in LEAPS)

def quiet(sec):
    """Whether the day of this second holds no leap second."""
    return sec//DAY not in LEAP_DAYS

def tai_minus(sec):
    """Leap seconds inserted before this UNIX second."""
    return sum(1 for d in LEAP_DAYS if sec >= (d+1)*DAY)

sec_s = st.one_of(st.integers(LO, HI), st.integers(1262304000, 1893456000),
                  st.integers(LO//DAY + 1, HI//DAY - 1).map(lambda d: d*DAY), st.integers(LO//DAY + 1, HI//DAY - 1).map(lambda d: d*DAY - 1),
                  st.integers(LO//DAY + 1, HI//DAY - 1).map(lambda d: d*DAY + 43200)).filter(quiet)
tick_s = st.one_of(st.integers(0, FS-1), st.sampled_from([0, 1, 2, FS-1, FS-2, FS//2, FS//2+1, FS//2-1, 98000, FS//1000]))
tag = st.tuples(sec_s, tick_s)

def mk(t):
    return FrameTimestamp.from_dp_timetag(t[0]*FS + t[1])

def exact(t):
    return Fraction(t[0]) + Fraction(t[1], FS)

TOL = Fraction(1, 10**9)

def near(x, want, tol, msg):
    check(abs(Fraction(x) - want) <= Fraction(tol), "%s: %r, expected %r", msg, x, float(want))

@part('views', st.tuples(tag, st.integers(0, 65535)), quick=6000, thorough=80000, shards=2, rule='a clock count anywhere in 1972-2100, midnights and second boundaries included')
def c_views(case):
    t, off = case
    ts = mk(t)
    e = exact(t)
    n = t[0]*FS + t[1]
    check(ts.dp_timetag == n, "ticks %s, expected %s", ts.dp_timetag, n)
    ts2 = FrameTimestamp.from_dp_timetag(n, offset=off)
    if quiet((n-off)//FS):
        check(ts2.dp_timetag == n-off, "ticks with offset %s, expected %s", ts2.dp_timetag, n-off)
    near(ts.unix, e, 1e-6, 'unix')
    near(float(ts), e, 1e-6, 'float')
    near(ts.mjd, 40587 + e/DAY, 2e-11, 'mjd')
    near(ts.jd, Fraction(4881175, 2) + e/DAY, 1e-9, 'jd')
    near(ts.tai_mjd, 40587 + (e + 10 + tai_minus(t[0]))/DAY, 2e-11, 'tai mjd')
    near(Fraction(ts[0]) + Fraction(ts[1]), e, 1e-6, 'items')
    check(0 <= ts[1] < 1, 'fraction %r', ts[1])
    d, s, f = ts.pulsar_mjd
    check(d == int(d) and s == int(s), "day %r and second %r are not whole", d, s)
    near(d*DAY + s + Fraction(f), 40587*DAY + e, 2e-9, 'day, second and fraction together')
    check(0 <= s < DAY, "second of the day %r", s)
    check(0 <= f < 1, "fraction of the second %r", f)
    dt = ts.datetime
    want = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t[0], microseconds=round(t[1]*1e6/FS))
    check(abs((dt - want).total_seconds()) <= 2e-6, "datetime %s, expected %s", dt, want)
    check(dt.tzinfo is None and ts.utc_datetime.tzinfo is not None and ts.utc_datetime.replace(tzinfo=None) == dt, "time zones")
    near(ts.astropy.utc.unix, e, 1e-6, 'astropy')
    check(FrameTimestamp.from_astropy(ts.astropy).dp_timetag == n, "through astropy: %s ticks", FrameTimestamp.from_astropy(ts.astropy).dp_timetag)
    check(FrameTimestamp.from_astropy(ts.astropy) == ts, 'equality through astropy')
    return True

@part('build', st.tuples(sec_s, tick_s, st.integers(0, 86399999), st.floats(0, 0.9999999, allow_nan=False), st.integers(-5, 5)), quick=4000, thorough=60000, shards=2,
      rule='a time stamp built from seconds and a fraction in or out of [0, 1), from MJD and milliseconds, or from MJD, second and fraction')
def c_build(case):
    sec, tick, mpm, frac, k = case
    # (whole, fraction outside of [0, 1))
    f = tick/FS + k
    ts = FrameTimestamp(sec, f)
    e = Fraction(sec) + Fraction(f)
    near(Fraction(ts.dp_timetag), e*FS, 1.01, 'seconds and fraction: ticks') if quiet(sec+k) and quiet(sec+k-1) and quiet(sec+k+1) else None
    # a float number of seconds
    x = sec + tick/FS
    near(Fraction(FrameTimestamp(x).dp_timetag), Fraction(x)*FS, 1.01, 'float seconds: ticks')
    # MJD and milliseconds past midnight
    day = sec//DAY
    ts = FrameTimestamp.from_mjd_mpm(40587+day, mpm)
    n = day*DAY*FS + mpm*(FS//1000)
    check(ts.dp_timetag == n, "MJD/MPM gives %s ticks, expected %s", ts.dp_timetag, n)
    # MJD, seconds, fraction
    s = mpm//1000
    ts = FrameTimestamp.from_pulsar_mjd(40587+day, s, frac)
    near(Fraction(ts.dp_timetag), (day*DAY + s + Fraction(frac))*FS, 1.01, 'pulsar MJD: ticks')
    d2, s2, f2 = ts.pulsar_mjd
    near(d2*DAY + s2 + Fraction(f2), (40587+day)*DAY + s + Fraction(frac), 2e-9, 'pulsar MJD back')
    return True

@part('leapdays', st.tuples(st.sampled_from(LEAP_DAYS), st.integers(0, DAY-1), tick_s, st.integers(0, 65535)), quick=1500, thorough=15000,
      rule='a clock count on a day that ends in a leap second')
def c_leapdays(case):
    day, s, tick, off = case
    n = (day*DAY + s)*FS + tick
    ts = FrameTimestamp.from_dp_timetag(n, offset=off)
    check(ts.dp_timetag == n-off, "ticks with offset %s, expected %s", ts.dp_timetag, n-off)
    ts = FrameTimestamp.from_dp_timetag(n)
    check(ts.dp_timetag == n, "ticks %s, expected %s", ts.dp_timetag, n)
    near(ts.unix, Fraction(n, FS), 1e-6, 'unix')
    near(ts.mjd, 40587 + Fraction(n, FS*DAY), 2e-11, 'mjd')
    check(FrameTimestamp.from_astropy(ts.astropy.tai).dp_timetag in (n-1, n, n+1), "through TAI: %s ticks, expected %s", FrameTimestamp.from_astropy(ts.astropy.tai).dp_timetag, n)
    mpm = s*1000 + tick//(FS//1000)
    n2 = day*DAY*FS + mpm*(FS//1000)
    got = FrameTimestamp.from_mjd_mpm(40587+day, mpm).dp_timetag
    check(abs(got - n2) <= 2300, "MJD/MPM gives %s ticks, expected %s", got, n2)
    return True

delta = st.one_of(st.integers(-10**5, 10**5), st.integers(-FS*3, FS*3).map(lambda n: n/FS), st.floats(-1e5, 1e5, allow_nan=False))

def noleap(a, b):
    a, b = sorted((int(a)//DAY, int(b)//DAY))
    return not any(a - 1 <= d <= b + 1 for d in LEAP_DAYS)

@part('arith', st.tuples(tag, tag, delta, st.integers(0, 3)), quick=5000, thorough=80000, shards=2, rule='differences, sums and comparisons of two time stamps, also one tick apart')
def c_arith(case):
    a, b, dl, kind = case
    if kind == 1:
        b = a
    elif kind == 2:
        n = a[0]*FS + a[1] + 1
        b = (n//FS, n % FS)
    elif kind == 3:
        b = (a[0], b[1])
    if not quiet(b[0]):
        raise Reject()
    A, B = mk(a), mk(b)
    na, nb = a[0]*FS+a[1], b[0]*FS+b[1]
    check((A < B) == (na < nb) and (A > B) == (na > nb) and (A == B) == (na == nb) and (A <= B) == (na <= nb) and (A >= B) == (na >= nb) and (A != B) == (na != nb),
          "order of %s and %s ticks", na, nb)
    # difference: elapsed (atomic) seconds
    e = exact(a) - exact(b) + tai_minus(a[0]) - tai_minus(b[0])
    got = A - B
    check(abs(Fraction(got) - e) <= max(Fraction(1, 10**9), abs(e)*Fraction(1, 10**15)), "difference %r, expected %r", got, float(e))
    # sums
    if LO + 2*10**5 < a[0] < HI - 2*10**5 and noleap(a[0], a[0] + dl):
        want = (exact(a) + Fraction(dl))*FS
        S = A + dl
        near(Fraction(S.dp_timetag), want, 1.01, 'sum: ticks')
        D = A - dl
        if noleap(a[0], a[0]-dl):
            near(Fraction(D.dp_timetag), (exact(a) - Fraction(dl))*FS, 1.01, 'difference: ticks')
        check(A.dp_timetag == na, "a sum changed its operand")
        near((S - A), Fraction(dl), 1e-9, 'sum minus operand')
        C = mk(a)
        C += dl
        near(Fraction(C.dp_timetag), want, 1.01, 'in-place sum: ticks')
        C -= dl
        near(Fraction(C.dp_timetag), Fraction(na), 1.01, 'in-place difference: ticks')
        for k in (1, -1, 1000):
            td = datetime.timedelta(seconds=int(dl)*k, microseconds=123456)
            q = Fraction(td.days*86400 + td.seconds) + Fraction(td.microseconds, 10**6)
            for sg, op, ip in ((1, lambda x: x + td, lambda x: operator.iadd(x, td)), (-1, lambda x: x - td, lambda x: operator.isub(x, td))):
                if not (LO + 86400 < a[0] + sg*q < HI - 86400 and noleap(a[0], float(a[0] + sg*q) - 1) and noleap(a[0], float(a[0] + sg*q) + 1)):
                    continue
                near(Fraction(op(A).dp_timetag), (exact(a) + sg*q)*FS, 1.01, f'sum (sign {sg}) with {td!r}')
                C = mk(a)
                near(Fraction(ip(C).dp_timetag), (exact(a) + sg*q)*FS, 1.01, f'in-place sum (sign {sg}) with {td!r}')
    x = float(A)
    check((A == x) and not (A < x) and (A < x+1) and (A > x-1), "comparison with a number")
    return kind != 1

# MJD/MPM and datetime conversions of the observatory
from lsl.common import mcs

@part('mjdmpm', st.tuples(st.integers(40600, 70000), st.integers(0, 86399999), st.integers(0, 999999)), quick=6000, thorough=80000, shards=1,
      rule='a MJD and a millisecond of the day')
def c_mjdmpm(case):
    mjd, mpm, us = case
    dt = mcs.mjdmpm_to_datetime(mjd, mpm)
    want = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=mjd, milliseconds=mpm)
    naive = dt.replace(tzinfo=None)
    check(abs((naive - want).total_seconds()) < 1.1e-3, "datetime %s, expected %s", dt, want)
    # back, with a time inside the millisecond
    m2, p2 = mcs.datetime_to_mjdmpm(want)
    check((m2, p2) == (mjd, mpm), "MJD/MPM %s, expected %s", (m2, p2), (mjd, mpm))
    w2 = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=mjd, milliseconds=mpm, microseconds=us % 1000)
    m2, p2 = mcs.datetime_to_mjdmpm(w2)
    tot = m2*86400000 + p2
    check(0 <= tot - (mjd*86400000 + mpm) <= 1 and 0 <= p2 < 86400000, "MJD/MPM %s of %s", (m2, p2), w2)
    return True
