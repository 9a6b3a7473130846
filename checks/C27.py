"""C27: command-line values are converted to what they say or refused with an ArgumentTypeError."""
import math, argparse
from datetime import datetime, timedelta
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
import ephem
from lsl.misc import parser as P

C = 299792458.0
seeds = st.integers(0, 2**31)
UNITS = dict(Hz=1.0, kHz=1e3, MHz=1e6, GHz=1e9, mHz=1e-3)
WAVES = dict(m=1.0, cm=1e-2, mm=1e-3, km=1e3, um=1e-6, nm=1e-9, AA=1e-10, Angstrom=1e-10)

def bad(f, s):
    try:
        v = f(s)
    except argparse.ArgumentTypeError:
        return
    check(False, '%s accepts %r as %r', f.__name__, s, v)

def num(r):
    k = str(r.choice(['int', 'dec', 'exp', 'lead']))
    if k == 'int':
        return str(int(r.integers(1, 500)))
    if k == 'dec':
        return '%.*f' % (int(r.integers(1, 6)), r.uniform(0.01, 500))
    if k == 'exp':
        return '%.3e' % 10**r.uniform(-3, 4)
    return '%s%.2f' % ('+' if r.random() < .5 else '', r.uniform(0.1, 90))

def quantity(r):
    s = num(r)
    u = str(r.choice(list(UNITS) + list(WAVES)))
    v = float(s)
    return s, u, (v*UNITS[u] if u in UNITS else C/(v*WAVES[u])), (v*WAVES[u] if u in WAVES else C/(v*UNITS[u]))

rel = lambda a, b: abs(a - b) <= 1e-9*abs(b)

@part('values', st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['numbers', 'frequency', 'wavelength', 'dates', 'angles']))), quick=4000, thorough=80000, rule='every case', seconds=60)
def values(c):
    r = rng(c['seed'])
    if c['kind'] == 'numbers':
        n = int(r.choice([0, 1, -1, r.integers(-10**6, 10**6), r.integers(-10**15, 10**15), 10**20]))
        s = str(r.choice(['%d', ' %d', '%d ', '%+d'])) % n
        for f, ok in ((P.positive_or_zero_int, n >= 0), (P.positive_int, n > 0)):
            if ok:
                check(f(s) == n and isinstance(f(s), int), '%s(%r) is %r', f.__name__, s, f(s))
            else:
                bad(f, s)
        x = float(r.choice([0.0, -0.0, n, r.normal()*10**r.uniform(-5, 5), math.inf, 5e-324]))
        for f, ok in ((P.positive_or_zero_float, x >= 0), (P.positive_float, x > 0)):
            if ok:
                check(f(repr(x)) == x, '%s(%r) is %r', f.__name__, x, f(repr(x)))
            else:
                bad(f, repr(x))
        for s in ('nan', '-nan', 'x', '', '1,2', '0x10', '1.5.2', '--1'):
            bad(P.positive_float, s)
            bad(P.positive_or_zero_float, s)
        for s in ('1.5', '1e3', 'x', '', '0x10', '1,2', 'nan', 'inf'):
            bad(P.positive_int, s)
            bad(P.positive_or_zero_int, s)
    elif c['kind'] in ('frequency', 'wavelength'):
        isf = c['kind'] == 'frequency'
        one, two = (P.frequency, P.frequency_range) if isf else (P.wavelength, P.wavelength_range)
        s = num(r)
        v = float(s)*(1e6 if isf else 1)
        check(rel(one(s), v), '%s(%r) is %r', one.__name__, s, one(s))
        bad(two, s)
        s, u, hz, m = quantity(r)
        v = hz if isf else m
        for t in (s + u, s + ' ' + u):
            check(rel(one(t), v), '%s(%r) is %r, not %r', one.__name__, t, one(t), v)
            bad(two, t)
        a, b = num(r), num(r)
        va, vb = float(a)*(1e6 if isf else 1), float(b)*(1e6 if isf else 1)
        def ranges(t, x, y):
            got = two(t)
            check(len(got) == 2 and rel(got[0], min(x, y)) and rel(got[1], max(x, y)), '%s(%r) is %r, not %r', two.__name__, t, got, sorted([x, y]))
            bad(one, t)
        ranges(a + '~' + b, va, vb)
        s2, u2, hz2, m2 = quantity(r)
        ranges(s + u + '~' + s2 + u2, v, hz2 if isf else m2)
        # a unit at the end is good for both
        k = UNITS[u] if u in UNITS else WAVES[u]
        va = float(a)*k
        va = va if (u in UNITS) == isf else C/va
        ranges(a + '~' + s + u, va, v)
        for t in (s + u + '~' + b, s + 'foo', s + 'kg', s + u + '~' + s2 + 's', 'x', '', '~', s + '~', '~' + s, s + u + '~' + s2 + u2 + '~' + s2 + u2):
            bad(one, t)
            bad(two, t)
    elif c['kind'] == 'dates':
        mjd = int(r.choice([r.integers(40000, 70000), r.integers(15020, 88000), 51544]))
        d = datetime(1858, 11, 17) + timedelta(days=mjd)
        text = '%04d/%02d/%02d' % (d.year, d.month, d.day)
        for s in (str(mjd), text, text.replace('/', '-'), '%d/%d/%d' % (d.year, d.month, d.day)):
            check(P.date(s) == text, 'date(%r) is %r, not %r', s, P.date(s), text)
            check(P.mjd(s) == mjd and isinstance(P.mjd(s), int), 'mjd(%r) is %r, not %r', s, P.mjd(s), mjd)
        for s in ('2020/13/01', '2020/02/30', '2020-1', 'x', '', '1/2/3/4', '2020.5', '2020/01/01 10:00:00'):
            bad(P.date, s)
            bad(P.mjd, s)
        mpm = int(r.choice([0, 1, 999, 1000, 59999, 60000, 3599999, 3600000, 86399999, r.integers(0, 86400000), r.integers(0, 86400000)]))
        h, m, q, f = mpm//3600000, mpm//60000 % 60, mpm//1000 % 60, mpm % 1000
        full = '%i:%02i:%02i.%06i' % (h, m, q, f*1000)
        for s in (str(mpm), '%02d:%02d:%02d.%03d' % (h, m, q, f), '%d:%d:%d.%03d' % (h, m, q, f), full):
            check(P.time(s) == full, 'time(%r) is %r, not %r', s, P.time(s), full)
            check(P.mpm(s) == mpm and isinstance(P.mpm(s), int), 'mpm(%r) is %r, not %r', s, P.mpm(s), mpm)
        s = '%02d:%02d:%02d' % (h, m, q)
        check(P.time(s) == s.lstrip('0')[0 if h >= 1 else 0:] + '.000000' if h >= 1 else P.time(s) == '0:%02d:%02d.000000' % (m, q), 'time(%r) is %r', s, P.time(s))
        check(P.mpm(s) == mpm - f, 'mpm(%r) is %r', s, P.mpm(s))
        us = int(r.integers(0, 1000))
        s = '%02d:%02d:%02d.%03d%03d' % (h, m, q, f, us)
        check(P.time(s) == '%i:%02i:%02i.%06i' % (h, m, q, f*1000 + us), 'time(%r) is %r', s, P.time(s))
        check(abs(P.mpm(s) - mpm - us/1000) <= 1, 'mpm(%r) is %r', s, P.mpm(s))
        for s in ('24:00:00', '10:60:00', '10:00', 'x', '', '-1', '86401000', '10:00:00:00', '1.5'):
            bad(P.time, s)
            bad(P.mpm, s)
    else:
        for f, lst, scale in ((P.hours, P.csv_hours_list, 15), (P.degrees, P.csv_degrees_list, 1)):
            items, vals = [], []
            for i in range(int(r.integers(1, 5))):
                a, m, q = int(r.integers(0, 24 if scale == 15 else 180)), int(r.integers(0, 60)), round(float(r.uniform(0, 59.99)), 3)
                k = int(r.integers(0, 4))
                s = ['%d' % a, '%d:%02d' % (a, m), '%d:%02d:%06.3f' % (a, m, q), '%02d:%d:%d' % (a, m, int(q))][k]
                v = a + (m/60 if k else 0) + [0, 0, q, int(q)][k]/3600
                if scale == 1 and r.random() < 0.5:
                    s, v = '-' + s, -v
                elif scale == 1 and r.random() < 0.3:
                    s = '+' + s
                items.append(s)
                vals.append(math.radians(v*scale))
            for s, v in zip(items, vals):
                check(abs(f(s) - v) < 1e-12 + 1e-12*abs(v), '%s(%r) is %s', f.__name__, s, f(s))
                check(type(f(s)) is type(ephem.hours('1') if scale == 15 else ephem.degrees('1')), '%s(%r) is a %s', f.__name__, s, type(f(s)))
            for t in (','.join(items), ','.join(items) + ',', ', '.join(items) + ' '):
                got = lst(t)
                check(isinstance(got, list) and len(got) == len(vals) and np.allclose(got, vals, rtol=0, atol=1e-11), '%s(%r) is %s', lst.__name__, t, got)
            for s in ('x', '1:x', 'nan:1:x'):
                bad(f, s)
                bad(lst, s)
                bad(lst, items[0] + ',' + s)
    return True

@part('lists', st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['int', 'baseline', 'host']))), quick=4000, thorough=80000, rule='a range or at least two items', seconds=60)
def lists(c):
    r = rng(c['seed'])
    items, want = [], []
    def ints(top=400):
        a = int(r.integers(0, top))
        if r.random() < 0.5:
            return str(a), [a]
        b = a + int(r.choice([0, 1, 2, r.integers(0, 12)]))
        return '%d~%d' % (a, b), list(range(a, b + 1))
    rich = False
    for i in range(int(r.integers(1, 6))):
        if c['kind'] == 'int':
            s, w = ints()
            if r.random() < 0.1:
                s, w = '-%d' % abs(w[0]), [-abs(w[0])]
        elif c['kind'] == 'baseline':
            (a, x), (b, y) = ints(), ints()
            s, w = a + '-' + b, [(i, j) for i in x for j in y]
        elif r.random() < 0.5:
            parts = [ints(244) if r.random() < 0.3 else (lambda v: (str(v), [v]))(int(r.integers(0, 256))) for _ in range(4)]
            parts = [(p if len(p[1]) <= 4 else (str(p[1][0]), p[1][:1])) for p in parts]
            s = '.'.join(p[0] for p in parts)
            w = ['%d.%d.%d.%d' % (i, j, k, l) for i in parts[0][1] for j in parts[1][1] for k in parts[2][1] for l in parts[3][1]]
        else:
            base = str(r.choice(['lwa', 'ucf-node', 'A', 'host-', 'x-y-z']))
            s, w = ints()
            if '~' in s:
                s, w = base + s, [base + str(k) for k in w]
            else:
                s = str(r.choice([base + s, base.strip('-'), base + s + 'b', s + base]))
                w = [s]
        rich |= '~' in s or i > 0
        items.append(s)
        want += w
    f = dict(int=P.csv_int_list, baseline=P.csv_baseline_list, host=P.csv_hostname_list)[c['kind']]
    for t in (','.join(items), ' , '.join(items), ','.join(items) + ',', ',' + ',,'.join(items)):
        got = f(t)
        check(isinstance(got, list) and got == want, '%s(%r) is %s, not %s', f.__name__, t, got, want)
    if c['kind'] != 'host':
        for s, v in (('all', 'all'), ('*', 'all'), ('none', 'none'), ('', 'none')):
            check(f(s) == v, '%s(%r) is %r', f.__name__, s, f(s))
    wrong = dict(int=['x', '1.5', '1~x', '1~', '~3', '1-2', '1~2~3', '1 2'], baseline=['1', 'x-1', '1-x', '1~2', '1.5-2', '-', '1-', '-2'], host=['a_b', 'lwa1~x', 'a b', 'lwa~', 'a.b', '1.2.3~4', '1.2.3.4.5', 'lwa1~2~3', '1.2.3.4~'])[c['kind']]
    w = wrong[int(r.integers(0, len(wrong)))]
    bad(f, w)
    k = int(r.integers(0, len(items) + 1))
    bad(f, ','.join(items[:k] + [w] + items[k:]))
    return rich

TOK = ['1', '0', '5', '12', '60', '-', '~', ',', '.', ':', '/', 'e', 'E', 'MHz', 'm', 'Hz', 'kHz', 'km', 'nm', 'AA', 'all', 'none', '*', ' ', 'inf', 'nan', 'a', 'lwa', 'x', '20', '58000', '9999999999999', '+', '_', '%',
       '2020-01-01', '12:30:00', '12:30:00.5', '\u0661', '\x00', '\n', '10.1.1.1', '\u00e9']
KIND = dict(positive_or_zero_int=int, positive_int=int, positive_or_zero_float=float, positive_float=float, frequency=float, frequency_range=list, wavelength=float, wavelength_range=list, date=str, mjd=int, time=str, mpm=int,
            hours=float, csv_hours_list=list, degrees=float, csv_degrees_list=list, csv_int_list=(list, str), csv_baseline_list=(list, str), csv_hostname_list=list)

@part('anything', st.tuples(st.sampled_from(sorted(KIND)), st.one_of(st.lists(st.sampled_from(TOK), max_size=6).map(''.join), st.text(max_size=12))), quick=12000, thorough=200000, rule='the value is accepted', seconds=60)
def anything(c):
    name, s = c
    # a range of billions of items is not a mistake the converters can notice
    if '~' in s and ('list' in name) and any(len(x) > 4 for x in ''.join(k if k.isdigit() else ' ' for k in s).split()):
        raise Reject()
    if s.count('~') > 1 and name == 'csv_hostname_list':
        raise Reject()
    f = getattr(P, name)
    p = argparse.ArgumentParser(exit_on_error=False)
    p.add_argument('--value', type=f)
    try:
        v = f(s)
    except argparse.ArgumentTypeError:
        return False
    check(isinstance(v, KIND[name]), '%s(%r) is a %s', name, s, type(v))
    if name.startswith('positive'):
        check(v >= 0 and (v > 0 or 'zero' in name), '%s(%r) is %r', name, s, v)
    if name in ('frequency_range', 'wavelength_range'):
        check(len(v) == 2 and not v[1] < v[0], '%s(%r) is %r', name, s, v)
    return True
