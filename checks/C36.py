"""C36: antenna models give the response of the dipole that their files describe, and NEC files are read and set right."""
import io, math, os, stat, sys, warnings
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)
import h5py, ephem
from astropy.coordinates import Angle
from astropy import units as u
import lsl
from lsl.sim import beam as B, necutils as N
from lsl.common import data_access

seeds = st.integers(0, 2**31)
DATA = os.path.join(os.path.dirname(lsl.__file__), 'data')
FULL = {'nec_%s' % s: 'antenna/NEC_er-3p0_sig-0p%s.hdf5' % s for s in ('002', '004', '008', '015', '030')}
POLS = ['XX', 'YY', 'XY', 'YX', 'I', 'Q', 'U', 'V']
HDF = {}

def fresh():
    for v in vars(B).values():
        if hasattr(v, 'cache_clear'):
            v.cache_clear()

class served:
    def __init__(self, files):
        self.files = files
    def open(self, name, mode='r'):
        if name in self.files:
            return io.BytesIO(self.files[name])
        return open(os.path.join(DATA, name), mode)
    def __enter__(self):
        fresh()
        data_access.DataAccess.open = self.open
    def __exit__(self, *a):
        del data_access.DataAccess.open
        fresh()

def lin(grid, vals, x):
    """linear interpolation along the first axis, at the points x, each with its own values of the others"""
    if grid[0] > grid[-1]:
        grid, vals = grid[::-1], vals[::-1]
    i = np.clip(np.searchsorted(grid, x, side='right') - 1, 0, len(grid) - 2)
    return i, (x - grid[i])/(grid[i+1] - grid[i]), grid, vals

def at(freqs, alts, azs, P, freq, alt, az):
    """trilinear interpolation of P[freq, alt, az]"""
    if alts[0] > alts[-1]:
        alts, P = alts[::-1], P[:, ::-1]
    if len(freqs) > 1:
        i, t, _, _ = lin(freqs, P, np.array([freq]))
        P = P[i[0]]*(1 - t[0]) + P[i[0]+1]*t[0]
    else:
        P = P[0]
    i, s, _, _ = lin(alts, P, alt)
    j, t, _, _ = lin(azs, P[0], az)
    return P[i, j]*(1-s)*(1-t) + P[i+1, j]*s*(1-t) + P[i, j+1]*(1-s)*t + P[i+1, j+1]*s*t

def products(J):
    """the products of the feeds X = (E, H) and Y for a sky that is not polarized"""
    (XE, XH), (YE, YH) = J
    XX, YY = abs(XE)**2 + abs(XH)**2, abs(YE)**2 + abs(YH)**2
    XY = XE*np.conj(YE) + XH*np.conj(YH)
    return dict(XX=XX, YY=YY, XY=XY.real, YX=XY.real, I=XX + YY, Q=XX - YY, U=2*XY.real, V=-2*XY.imag)

def mueller(J):
    """of the Stokes parameters, for V = i(XY - YX)"""
    S = [np.array(s) for s in ([[1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, 1j], [-1j, 0]])]
    # coherency of the sky for unit I, Q, U, V with the same convention: C = (S_j conjugate)/2, s_i = sum S_i * C
    J = np.moveaxis(np.array(J), (0, 1), (-2, -1))
    M = np.zeros((4, 4) + J.shape[:-2])
    for j in range(4):
        C = J @ (S[j].conj()/2) @ np.swapaxes(J.conj(), -1, -2)
        for i in range(4):
            M[i, j] = (S[i]*C).sum(axis=(-2, -1)).real
    return M

def fitted(freq, corrected):
    if 'emp' not in HDF:
        HDF['emp'] = dict(np.load(os.path.join(DATA, 'antenna/lwa1-dipole-emp.npz')))
        HDF['cor'] = dict(np.load(os.path.join(DATA, 'antenna/lwa1-dipole-cor.npz')))
    alt, az = np.arange(91.0)[:, None], np.arange(361.0)[None, :]
    z = np.radians(90 - alt)
    c = np.ones((91, 1))
    if corrected:
        d = HDF['cor']
        f = d['freqs']
        if f.min() <= freq/1e6 <= f.max():
            row = np.array([np.interp(freq/1e6, f, d['corrs'][:, k]) for k in range(d['corrs'].shape[1])])
            c = np.interp(alt, d['alts'], row)
    J = []
    for pol in 'XY':
        k = HDF['emp']['fit' + pol]
        p = []
        for plane in range(2):
            a, b, g, d = (sum(k[plane, i, n]*float(freq)**(k.shape[2] - 1 - n) for n in range(k.shape[2])) for i in range(4))
            x = 2*z/np.pi
            p.append((1 - x**a)*np.cos(z)**b + g*x*np.cos(z)**d)
        w = c*np.hypot(p[0]*np.cos(np.radians(az)), p[1]*np.sin(np.radians(az)))
        J.append([np.sqrt(w/2)[None], np.sqrt(w/2)[None]])
    return np.array([freq]), np.arange(91.0), np.arange(361.0), J

def directions(r, form, amax=360.0, amin=0.0, hmin=0.0, hmax=90.0):
    """azimuths and altitudes in degrees, and as they are given"""
    n = {'scalar': (), 'one': (1,), 'list': (7,), 'table': (3, 4)}[str(r.choice(['scalar', 'one', 'list', 'table']))]
    if form == 'ephem':
        n = ()
    az, alt = r.uniform(amin, amax, n), r.uniform(hmin, hmax, n)
    if r.integers(2):
        az, alt = np.clip(np.round(az), amin, amax), np.clip(np.round(alt), hmin, hmax)
    az, alt = np.asarray(az, float), np.asarray(alt, float)
    if n == ():
        az, alt = float(az), float(alt)
    if form == 'degrees':
        return az, alt, (az, alt), {}
    if form == 'radians':
        a, h = (np.radians(x) if n else math.radians(x) for x in (az, alt))
        return az, alt, (a*(1 - 1e-15), h*(1 - 1e-15)), dict(degrees=False)
    if form == 'angle':
        return az, alt, (Angle(az, u.deg), Angle(alt, u.deg)), {}
    if form == 'angle rad':
        return az, alt, (Angle(np.radians(az)*(1 - 1e-15), u.rad), Angle(np.radians(alt)*(1 - 1e-15), u.rad)), {}
    return az, alt, (ephem.degrees(math.radians(az)*(1 - 1e-15)), ephem.degrees(math.radians(alt)*(1 - 1e-15))), {}

def compare(r, model, freq, form, grids, box):
    freqs, alts, azs, J = grids
    az, alt, args, kw = directions(r, form, *box)
    n = np.shape(az)
    fa, fh = np.ravel(az), np.ravel(alt)
    P = products(J)
    big = max(float(np.nanmax(abs(P['I']))), 1e-300)
    name = model.upper() if r.integers(3) == 0 else model
    pols = [str(p) for p in r.permutation(POLS)[:4]]
    first = {}
    for pol in pols:
        got = B.beam_response(name, pol.lower() if r.integers(3) == 0 else pol, *args, frequency=freq, **kw)
        check(np.shape(got) == n and (n != () or isinstance(got, float)), '%s: response of shape %s for %s', pol, np.shape(got), n)
        want = at(freqs, alts, azs, P[pol], freq, fh, fa)
        close(np.ravel(got), want, rtol=1e-6, atol=1e-7*big, msg='%s of %s at %s Hz, azimuth %s, altitude %s (%s)' % (pol, model, freq, fa[:3], fh[:3], form))
        first[pol] = np.array(got)
    got = B.mueller_matrix(name, *args, frequency=freq, **kw)
    check(np.shape(got) == (4, 4) + n, 'Mueller matrix of shape %s for %s', np.shape(got), n)
    M = mueller(J)
    for i in range(4):
        for j in range(4):
            close(np.ravel(got[i, j]), at(freqs, alts, azs, M[i, j], freq, fh, fa), rtol=1e-6, atol=1e-7*big, msg='Mueller matrix element %d,%d of %s at %s Hz (%s)' % (i, j, model, freq, form))
    for pol in pols[:2]:
        close(B.beam_response(name, pol, *args, frequency=freq, **kw), first[pol], rtol=1e-12, msg='response asked for again')
    try:
        B.beam_response(name, str(r.choice(['X', 'Z', 'RR', ''])), *args, frequency=freq, **kw)
        check(False, 'a response for an unknown polarization')
    except ValueError:
        pass
    return True

FORMS = st.sampled_from(['degrees', 'radians', 'angle', 'angle rad', 'ephem'])

@part('empirical', st.fixed_dictionaries(dict(seed=seeds, model=st.sampled_from(['empirical', 'llfss']), form=FORMS)), quick=480, thorough=6000, rule='every case', seconds=90, shards=4)
def empirical(c):
    r = rng(c['seed'])
    freq = float(r.choice([r.uniform(15e6, 85e6), r.integers(35, 80)*1e6, 74e6, 35e6, 80e6]))
    with served({}):
        return compare(r, c['model'], freq, c['form'], fitted(freq, c['model'] == 'llfss'), (360.0, 0.0, 0.0, 90.0))

@part('modelled', st.fixed_dictionaries(dict(seed=seeds, model=st.sampled_from(sorted(FULL)), form=FORMS, nf=st.integers(1, 8))), quick=600, thorough=10000, rule='every case', seconds=90, shards=4)
def modelled(c):
    r = rng(c['seed'])
    step = float(r.choice([3, 5, 7]))
    fm = np.arange(c['nf'])*step + float(r.integers(10, 60))
    dphi, dth = int(r.choice([5, 10, 30, 45])), int(r.choice([5, 10, 15]))
    phi = np.arange(0, 361 if r.integers(3) == 0 else 360, dphi).astype(float)
    theta = np.arange(0, 91, dth).astype(float)
    if r.integers(4) == 0:
        theta = theta[::-1].copy()
    freq = float(r.uniform(fm[0], fm[-1] + (c['nf'] == 1))*1e6)
    if c['nf'] > 1 and r.integers(3) == 0:
        freq = float(r.choice(fm))*1e6
    buf, F = io.BytesIO(), {}
    with h5py.File(buf, 'w') as h:
        h['freq'], h['phi'], h['theta'] = fm, phi, theta
        for pol in 'XY':
            g = h.create_group(pol + '-pol_Efields')
            for comp in ('Etheta', 'Ephi'):
                mag, ph = r.uniform(0, 5, (len(fm), len(theta), len(phi))), r.uniform(-np.pi, np.pi, (len(fm), len(theta), len(phi)))
                if phi[-1] == 360:
                    mag[..., -1], ph[..., -1] = mag[..., 0], ph[..., 0]
                g[comp + '(Mag)'], g[comp + '(Phase)'] = mag, ph
                F[pol, comp] = mag*np.exp(1j*ph)
    near = np.abs(fm*1e6 - freq) < 10e6
    # only those near by are read: the range of these has the frequency
    used = fm[near]*1e6
    if not used.size or (used.size > 1 and not used[0] <= freq <= used[-1]):
        raise Reject()
    J = []
    for pol in 'XY':
        E, H = F[pol, 'Etheta'][near], F[pol, 'Ephi'][near]
        s = max(abs(E).max(), abs(H).max())
        J.append([E/s, H/s])
    azs = phi
    if phi[-1] < 360:
        azs = np.append(phi, 360.0)
        J = [[np.concatenate([q, q[..., :1]], axis=2) for q in row] for row in J]
    label('%d frequencies' % used.size)
    with served({FULL[c['model']]: buf.getvalue()}):
        compare(r, c['model'], freq, c['form'], (used, 90 - theta, azs, J), (360.0, 0.0, 0.0, 90.0))
    return True

@part('unknown', st.text(min_size=1, max_size=8), quick=60, thorough=500, rule='every case')
def unknown(name):
    models = B.get_available_models()
    check(sorted(models) == sorted(list(FULL) + ['empirical', 'llfss']), 'models %s', models)
    if name.lower() in models:
        raise Reject()
    for f in (lambda: B.beam_response(name, 'XX', 10.0, 45.0), lambda: B.mueller_matrix(name, 10.0, 45.0)):
        try:
            f()
            check(False, 'model %r is known', name)
        except ValueError:
            pass
    return True

# ---- NEC files

def head(r):
    rows = [' ' * 40 + 'NUMERICAL ELECTROMAGNETICS CODE', '', ' - - - COMMENTS - - -', ' a model']
    if r.integers(2):
        rows += [' of the FREQUENCY= 12.5 MHZ dipole']
    return rows + ['', ' '*36 + '- - - STRUCTURE SPECIFICATION - - -', '', ' COORDINATES MUST BE INPUT IN METERS', '  WIRE', '   1 0.0 0.0 0.0 1.0', '']

def freq_block(r, f, style):
    rows = ['', ' '*36 + '- - - - - - FREQUENCY - - - - - -', '']
    rows += [' '*36 + ('FREQUENCY=%11.4E MHZ' if style == 2 else 'FREQUENCY : %11.4E MHz') % f, ' '*36 + 'WAVELENGTH=%11.4E METERS' % (299.8/f), '', ' STRUCTURE IMPEDANCE LOADING' if r.integers(2) else '', ' THIS STRUCTURE IS NOT LOADED', '']
    return rows

def imp_block(r, z):
    v = [1.0, 0.0] + list(r.normal(size=2)*1e-3) + [z.real, z.imag] + list(r.normal(size=2)*1e-3) + [0.5]
    sp = ['%12.5E', ' %12.5E'][int(r.integers(2))]
    return ['', ' '*30 + '- - - ANTENNA INPUT PARAMETERS - - -', '', '  TAG   SEG.    VOLTAGE (VOLTS)         CURRENT (AMPS)         IMPEDANCE (OHMS)        ADMITTANCE (MHOS)      POWER',
            '  NO.   NO.    REAL        IMAG.       REAL        IMAG.       REAL        IMAG.       REAL        IMAG.     (WATTS)', '    1     1' + ''.join(sp % x for x in v), '']

def rad_block(r, pat):
    rows = ['', ' '*36 + '- - - RADIATION PATTERNS - - -', '']
    if r.integers(2):
        rows += [' RANGE= 1.0E+03 METERS', ' EXP(-JKR)/R= 1.0E-09 AT PHASE 10.0 DEGREES', '']
    rows += ['  - - ANGLES - -           - POWER GAINS -       - - - POLARIZATION - - -    - - - E(THETA) - - -    - - - E(PHI) - - -', '  THETA     PHI        VERT.   HOR.    TOTAL      AXIAL     TILT   SENSE     MAGNITUDE    PHASE     MAGNITUDE    PHASE',
             ' DEGREES  DEGREES       DB      DB      DB        RATIO     DEG.              VOLTS/M    DEGREES     VOLTS/M    DEGREES']
    for (za, phi), (g, p) in pat:
        rows.append('%8.2f %9.2f   %8.2f%8.2f%8.2f %11.5f%9.2f  LINEAR  %11.4E %9.2f %11.4E %9.2f' % (za, phi, g - 3, g - 4, g, 0.0, p, 1.0, 2.0, 3.0, 4.0))
    return rows + ['', ' RUN TIME = 1.0']

def exc_block(r, pat):
    rows = []
    for (za, phi), (g, p) in pat:
        rows += [' '*36 + '- - - EXCITATION - - -', '', '    PLANE WAVE    THETA=%8.2f DEG,  PHI=%8.2f DEG,  ETA=%8.2f DEG,  TYPE -LINEAR=  AXIAL RATIO= 0.0' % (za, phi, 90.0), '', '', ' '*30 + '- - - CURRENTS AND LOCATION - - -', '', ' DISTANCES IN WAVELENGTHS', '', ' SEG. TAG COORD', ' NO. NO. X Y Z LENGTH REAL IMAG. MAG. PHASE', '',
                 '%6d%5d%9.4f%9.4f%9.4f%9.5f %12.4E%12.4E%12.4E%9.3f' % (10, 1, 0.1, 0.2, 0.3, 0.05, 1e-3, 2e-3, g, p), '', '', '']
    return rows + [' RUN TIME =     1.0']

def put(path, rows):
    with open(path, 'w') as fh:
        fh.write('\n'.join(rows) + '\n')

@part('impedance', st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 12), style=st.sampled_from([2, 4]))), quick=400, thorough=8000, rule='every case')
def impedance(c):
    r, d = rng(c['seed']), tmpdir()
    f = np.sort(np.round(r.uniform(5, 95, c['n']), 2))
    z = np.array([complex(float('%.5E' % a), float('%.5E' % b)) for a, b in zip(10**r.uniform(-1, 3, c['n']), r.normal(size=c['n'])*10**r.uniform(-1, 3, c['n']))])
    rows = head(r)
    for a, b in zip(f, z):
        rows += freq_block(r, a, c['style']) + imp_block(r, b) + (rad_block(r, [((0, 0), (1.0, 2.0))]) if r.integers(2) else [])
    path = os.path.join(d, 'ant.' + str(r.choice(['nec', 'out'])))
    put(os.path.join(d, 'ant.out'), rows)
    o = N.NECImpedance(path)
    close(o.freqs, f, rtol=1e-4, msg='frequencies')
    close(o.z, z, rtol=1e-9, msg='impedances')
    z0 = float(r.choice([100, 50, 75.5]))
    ff, e = N.calculate_ime(path, zpre=z0)
    close(ff, o.freqs, msg='frequencies')
    want = 4*z0*z.real/abs(z0 + z)**2
    close(e, want, rtol=1e-7, atol=1e-9, msg='efficiencies for %s ohms' % z0)
    if c['n'] > 2 and np.diff(f).min() > 0.5:
        g = np.sort(r.uniform(f[0], f[-1], 5))
        gg, e = N.calculate_ime(path, myfreqs=g, zpre=z0)
        close(gg, g, msg='frequencies asked for')
        close(e, np.interp(g, o.freqs, want), rtol=1e-6, atol=1e-9, msg='efficiencies between')
    fh, x = N.open_and_get_nec_freq(os.path.join(d, 'ant.out'))
    fh.close()
    close(x, f[0], rtol=1e-4, msg='first frequency')
    return True

def pattern_of(r, kind, n):
    seen = {}
    for _ in range(n):
        key = (int(r.choice([0, 90, r.integers(0, 91), r.integers(91, 181)])), int(r.choice([0, 359, 360, r.integers(0, 360)])))
        seen[key] = (round(float(r.uniform(-60, 12)), 2) if kind == 'radiation' else float('%.4E' % 10**r.uniform(-6, 0)), round(float(r.uniform(-179, 179)), 2))
    return list(seen.items())

def pat_check(o, pat, kind):
    dB, cx = np.zeros((360, 91)), np.zeros((360, 91), complex)
    for (za, phi), (g, p) in pat:
        if za <= 90 and phi < 360:
            x = g if kind == 'radiation' else 10*math.log10(g)
            dB[phi, 90 - za] = x
            cx[phi, 90 - za] = 10**(x/10)*np.exp(1j*math.radians(p))
    check(o.antenna_pat_dB.shape == (360, 91) and o.antenna_pat_complex.shape == (360, 91), 'shape')
    close(o.antenna_pat_dB, dB, rtol=1e-5, atol=1e-5, msg='pattern (azimuth, altitude) in dB')
    close(o.antenna_pat_complex, cx, rtol=1e-4, atol=1e-9, msg='complex pattern')

@part('pattern', st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 40), kind=st.sampled_from(['radiation', 'excitation']), style=st.sampled_from([2, 4]), off=st.sampled_from(['no', 'no', 'little', 'much', 'missing']))), quick=400, thorough=8000, rule='a pattern is read', seconds=60)
def pattern(c):
    r, d = rng(c['seed']), tmpdir()
    f = round(float(r.uniform(10, 90)), 2)
    pat = pattern_of(r, c['kind'], c['n'])
    rows = head(r) + freq_block(r, f, c['style']) + (imp_block(r, 70 + 3j) if c['kind'] == 'radiation' else []) + (rad_block(r, pat) if c['kind'] == 'radiation' else exc_block(r, pat))
    if c['off'] != 'missing':
        put(os.path.join(d, 'ant.out'), rows)
    ask = f*dict(no=1, little=1.003 if r.integers(2) else 0.997, much=1.01 if r.integers(2) else 0.99, missing=1)[c['off']]
    before = os.listdir(d)
    try:
        o = N.NECPattern(os.path.join(d, 'ant.nec'), ask, rerun=False)
    except ValueError:
        check(c['off'] in ('much', 'missing'), 'a pattern for %s MHz is refused for %s', f, ask)
        check(os.listdir(d) == before, 'files')
        return False
    check(c['off'] in ('no', 'little'), 'a pattern for %s MHz is given for %s', f, ask)
    pat_check(o, pat, c['kind'])
    return True

def card(r, f, sep):
    return sep.join(['FR', '0', '1', '0', '0', '%g' % f] + (['0.0'] if r.integers(2) else [])) if sep == ' ' else 'FR ' + sep.join(['0', '1', '0', '0', '%g' % f, '1'])

@part('card', st.fixed_dictionaries(dict(seed=seeds, sep=st.sampled_from([' ', ',', ', ', '  ']), end=st.sampled_from(['\n', '']))), quick=400, thorough=8000, rule='every case')
def card_(c):
    r, d = rng(c['seed']), tmpdir()
    f, g = round(float(r.uniform(10, 90)), 2), round(float(r.choice([r.uniform(5, 9), r.uniform(10, 99), r.uniform(100, 999)])), 2)
    before = ['CM a model', 'CM of FR 0 1 0 0 12.0', 'CE', 'GW 1 9 0.0 0.0 0.0 1.0 0.0 0.0 0.001', 'GE 1'][:int(r.integers(1, 6))]
    after = [] if c['end'] == '' else ['EX 1 91 360 0 0.0 0.0 90.0 1.0 1.0 0 0', 'EN'][:int(r.integers(0, 3))]
    line = card(r, f, c['sep'])
    path = os.path.join(d, 'ant.nec')
    with open(path, 'w') as fh:
        fh.write('\n'.join(before + [line] + after) + c['end'])
    for x in (g, f, g):
        N.change_nec_freq(path, x)
        rows = open(path).read().split('\n')
        check(rows[-1] == '' and rows[:len(before)] == before and rows[len(before)+1:-1] == after, 'other cards changed: %s', rows)
        was, now = line.replace(',', ' ').split(), rows[len(before)].replace(',', ' ').split()
        check(len(now) == len(was) and now[:5] == was[:5] and now[6:] == was[6:] and abs(float(now[5]) - x) < 0.0051, 'card %r for %s MHz from %r', rows[len(before)], x, line)
    return True

FAKE = '''#!%s
import sys
row = [l for l in open(sys.argv[1]) if l[:2] == 'FR'][0].replace(',', ' ').split()
text = open(sys.argv[0] + '.text').read()
open(sys.argv[2], 'w').write(text.replace('FREQ-VALUE', '%%11.4E' %% (float(row[5]) + float(open(sys.argv[0] + '.shift').read()))))
sys.exit(int(open(sys.argv[0] + '.code').read()))
'''

@part('rerun', st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 8), kind=st.sampled_from(['radiation', 'excitation']), have=st.sampled_from(['none', 'other', 'same']), nec=st.sampled_from(['works', 'works', 'absent', 'fails', 'wrong']))), quick=60, thorough=800, rule='NEC is run', seconds=60)
def rerun(c):
    r, d = rng(c['seed']), tmpdir()
    f, g = round(float(r.uniform(10, 40)), 2), round(float(r.uniform(50, 90)), 2)
    pat, old = pattern_of(r, c['kind'], c['n']), pattern_of(r, c['kind'], c['n'])
    body = lambda freq, p: '\n'.join(head(r) + freq_block(r, 12345.0, 2) + (rad_block(r, p) if c['kind'] == 'radiation' else exc_block(r, p))).replace('%11.4E' % 12345.0, freq) + '\n'
    path, bindir = os.path.join(d, 'ant.nec'), os.path.join(d, 'bin')
    put(path, ['CM a model', 'CE', 'FR 0 1 0 0 %.2f 1' % f, 'EN'])
    if c['have'] != 'none':
        open(os.path.join(d, 'ant.out'), 'w').write(body('%11.4E' % (g if c['have'] == 'same' else f), old))
    os.mkdir(bindir)
    exe = os.path.join(bindir, 'nec4d')
    if c['nec'] != 'absent':
        open(exe, 'w').write(FAKE % sys.executable)
        os.chmod(exe, 0o755)
        open(exe + '.text', 'w').write(body('FREQ-VALUE', pat))
        open(exe + '.shift', 'w').write('5' if c['nec'] == 'wrong' else '0')
        open(exe + '.code', 'w').write('1' if c['nec'] == 'fails' else '0')
    path0 = os.environ['PATH']
    os.environ['PATH'] = bindir
    try:
        check(N.which_nec4() == (None if c['nec'] == 'absent' else exe), 'NEC is found at %s', N.which_nec4())
        want = {'absent': RuntimeError, 'fails': RuntimeError, 'wrong': ValueError}.get(c['nec']) if c['have'] != 'same' else None
        try:
            o = N.NECPattern(path, g)
        except (RuntimeError, ValueError) as e:
            check(want is not None and isinstance(e, want), '%s when NEC %s and %s output is there', e, c['nec'], c['have'])
            return True
    finally:
        os.environ['PATH'] = path0
    check(want is None, 'a pattern when NEC %s', c['nec'])
    pat_check(o, old if c['have'] == 'same' else pat, c['kind'])
    row = open(path).read().split('\n')[2].split()
    check(abs(float(row[5]) - (f if c['have'] == 'same' else g)) < 0.0051, 'card %s', row)
    return c['have'] != 'same'

@part('close', st.tuples(st.floats(0.1, 1e6), st.floats(0.1, 1e6) | st.none(), st.floats(-0.02, 0.02), st.sampled_from([None, 0.001, 0.01, 0.1])), quick=500, thorough=5000, rule='every case')
def closeness(c):
    x, y, rel, eps = c
    y = x*(1 + rel) if y is None else y
    want = abs(x - y)/((x + y)/2)
    e = 0.005 if eps is None else eps
    if abs(want - e) < 1e-9:
        raise Reject()
    got = N.close_to(x, y) if eps is None else N.close_to(x, y, epsilon=eps)
    check(bool(got) == (want < e), '%s and %s within %s: %s', x, y, e, got)
    return True
