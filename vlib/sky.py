"""Spherical trigonometry, precession and leap seconds of our own (oracles for lsl.astro and lsl.transform)."""
import math
from datetime import datetime, timedelta
import numpy as np

# first day of every value of TAI - UTC since 1972
LEAPS = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17),
         (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25),
         (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33),
         (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]
STARTS = [(datetime(y, m, 1), n) for y, m, n in LEAPS]
LEAPDAYS = set((s - timedelta(days=1)).date() for s, _ in STARTS[1:])

def tai_utc(dt):
    return max(n for s, n in STARTS if s <= dt)

def jd0(dt):
    """JD of the start of the day (exact)"""
    return dt.toordinal() + 1721424.5

# ---------------------------------------------------------------- spherical trigonometry of our own

def vec(lon, lat):
    a, d = math.radians(lon), math.radians(lat)
    return np.array([math.cos(d)*math.cos(a), math.cos(d)*math.sin(a), math.sin(d)])

def sph(v):
    return math.degrees(math.atan2(v[1], v[0])) % 360, math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))

def sep(p, q):
    a, b = vec(*p), vec(*q)
    return math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b)))

def Rx(t): return np.array([[1, 0, 0], [0, math.cos(t), math.sin(t)], [0, -math.sin(t), math.cos(t)]])
def Ry(t): return np.array([[math.cos(t), 0, -math.sin(t)], [0, 1, 0], [math.sin(t), 0, math.cos(t)]])
def Rz(t): return np.array([[math.cos(t), math.sin(t), 0], [-math.sin(t), math.cos(t), 0], [0, 0, 1]])

def prec(jd):
    """IAU 1976 precession from J2000 to a date"""
    T = (jd - 2451545.0)/36525
    s = math.radians(1/3600)
    zeta = (2306.2181*T + 0.30188*T*T + 0.017998*T**3)*s
    z = (2306.2181*T + 1.09468*T*T + 0.018203*T**3)*s
    th = (2004.3109*T - 0.42665*T*T - 0.041833*T**3)*s
    return Rz(-z) @ Ry(th) @ Rz(-zeta)

GAL = Rz(math.radians(180 - 122.93192)) @ Ry(math.radians(90 - 27.12825)) @ Rz(math.radians(192.85948))

