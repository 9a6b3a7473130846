"""C14: spectra written to SDFITS are in the file once, under their beam, polarization, frequency and time."""
import os, warnings
import numpy as np
from datetime import datetime, timezone
from vlib.core import *
from hypothesis import strategies as st
from astropy.io import fits
from astropy.time import Time, TimeDelta
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.reader.base import FrameTimestamp
from lsl.writer import sdfits
warnings.simplefilter('ignore')

CODES = {'I': 1, 'Q': 2, 'U': 3, 'V': 4, 'RR': -1, 'LL': -2, 'RL': -3, 'LR': -4, 'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}
SETS = [['XX'], ['YY'], ['YX'], ['XX', 'YY'], ['XX', 'YY', 'XY', 'YX'], ['I'], ['V'], ['I', 'Q', 'U', 'V'], ['RR', 'LL'], ['RR', 'LL', 'RL', 'LR']]
LEAPDAYS = {53736, 54832, 56109, 57204, 57754}

@st.composite
def cases(draw):
    nt = draw(st.integers(1, 6))
    return dict(seed=draw(st.integers(0, 10**6)), nbeam=draw(st.integers(1, 5)), nchan=draw(st.sampled_from([2, 3, 8, 33])), pols=draw(st.sampled_from(SETS)),
                f0=draw(st.floats(1e6, 9e7)), df=draw(st.sampled_from([4785.15625, 25e3, 1e6/3])), day=draw(st.integers(51800, 60000)),
                sec=draw(st.one_of(st.floats(0, 86399.9), st.sampled_from([0.0, 86399.99, 43200.0, 86399.5]))),
                dt=[draw(st.sampled_from([1e-3, 5e-3, 0.02, 0.04, 0.3, 10.0, 3600.0, 86400.0])) for _ in range(nt)],
                inttime=draw(st.sampled_from([1e-3, 0.04, 1.0, 5.5])), order=draw(st.sampled_from(['time', 'polmajor', 'mixed'])),
                tkind=draw(st.sampled_from(['mjd', 'astropy', 'astropytai', 'frame'])), polkind=draw(st.sampled_from(['str', 'lower', 'int'])), setorder=draw(st.booleans()),
                dtype=draw(st.sampled_from(['f4', 'f8'])), beams=draw(st.sampled_from(['same', 'pershuffle', 'subset'])), overwrite=draw(st.booleans()),
                twice=draw(st.booleans()), text=draw(st.booleans()))

@part('sdfits', cases(), quick=300, thorough=8000, shards=2, rule='several polarizations or integrations')
def sdfits_roundtrip(c):
    r = rng(c['seed'])
    d = tmpdir()
    fn = os.path.join(d, 'a.fits')
    site = LWAStation('LWAX', r.uniform(-80, 80), r.uniform(-179, 179), r.uniform(0, 2000), id='XX')
    ids = r.permutation(np.arange(1, 521))[:c['nbeam']]
    dig = r.permutation(np.arange(1, 521))[:c['nbeam']]
    beams = [Antenna(int(ids[i]), stand=Stand(int(ids[i]), 0, 0, 0), pol=0, digitizer=int(dig[i])) for i in range(c['nbeam'])]
    freq = c['f0'] + np.arange(c['nchan'])*c['df']
    if c['tkind'] == 'frame':
        t0 = FrameTimestamp(int((c['day'] - 40587)*86400 + int(c['sec'])), c['sec'] % 1)
        fts, s = [], 0.0
        for dt in c['dt']:
            fts.append(t0 + s)
            s += dt
        times = [f.astropy.utc for f in fts]
    else:
        t0 = Time(c['day'], c['sec']/86400, format='mjd', scale='utc')
        times = [t0 + TimeDelta(s, format='sec') for s in np.concatenate([[0], np.cumsum(c['dt'])[:-1]])]
    for t in times:
        if {int(t.mjd), int(t.mjd)+1} & LEAPDAYS:
            raise Reject()
    pols = list(c['pols'])
    given = list(r.permutation(pols)) if c['setorder'] else pols
    as_pol = {'str': str, 'lower': lambda p: str(p).lower(), 'int': lambda p: CODES[p]}[c['polkind']]
    if c['overwrite']:
        open(fn, 'w').write('old')
        try:
            sdfits.Sd(fn)
        except OSError:
            pass
        else:
            check(False, 'an existing file was taken over without being asked')
        check(open(fn).read() == 'old', 'the existing file changed')
    sd = sdfits.Sd(fn, ref_time=0.0, overwrite=c['overwrite'])
    sd.set_site(site)
    sd.set_stokes([as_pol(p) for p in given])
    sd.set_frequency(freq)
    sd.set_observer('Dr. O', project='PX%d' % (c['seed'] % 100), mode='MODE')
    if c['text']:
        sd.add_comment('first comment')
        sd.add_comment('second comment')
        sd.add_history('some history')
        sd.add_header_keyword('XTRAKEY', 12)
    truth = {}
    jobs = []
    for k, t in enumerate(times):
        if c['beams'] == 'subset':
            use = [b for b in beams if r.integers(2)] or beams[:1]
        else:
            use = list(beams)
        for p in pols:
            u = list(use)
            if c['beams'] == 'pershuffle':
                u = [u[i] for i in r.permutation(len(u))]
            data = r.normal(size=(len(u), c['nchan']))*10**r.uniform(-3, 6)
            data = data.astype(c['dtype'])
            for b, row in zip(u, data):
                truth[(k, b.id, CODES[p])] = row.copy()
            jobs.append((k, p, u, data))
    if c['order'] == 'polmajor':
        jobs.sort(key=lambda j: pols.index(j[1]))
    elif c['order'] == 'mixed':
        jobs = [jobs[i] for i in r.permutation(len(jobs))]
    keep = [j[3].copy() for j in jobs]
    for k, p, u, data in jobs:
        t = times[k]
        ot = {'mjd': lambda: t.tai.mjd, 'astropy': lambda: t, 'astropytai': lambda: t.tai, 'frame': lambda: fts[k]}[c['tkind']]()
        sd.add_data_set(ot, c['inttime'], u, data, pol=as_pol(p))
    sd.write()
    sd.close()
    for j, o in zip(jobs, keep):
        check(np.array_equal(j[3], o), 'the data given were changed')

    with fits.open(fn) as h:
        hd, ph = h['SINGLE DISH'].header, h[0].header
        tab = h['SINGLE DISH'].data
        rows = [{n: np.array(row[n]) for n in tab.names} for row in tab]
        hd, ph = dict(hd), {k: str(ph[k]) for k in ph}
    check(len([k for k in ('SINGLE DISH',)]) == 1)
    codes = sorted((CODES[p] for p in pols), key=abs)
    check(hd['CTYPE1'] == 'FREQ' and hd['CTYPE2'] == 'STOKES', 'axes', hd['CTYPE1'], hd['CTYPE2'])
    check([hd['CRVAL2'] + (i + 1 - hd['CRPIX2'])*hd['CDELT2'] for i in range(len(codes))] == codes, 'Stokes axis', hd['CRVAL2'], hd['CDELT2'], codes)
    check(hd['OBSERVER'] == 'Dr. O' and hd['PROJID'] == 'PX%d' % (c['seed'] % 100) and hd['TELESCOP'] == 'LWAX', 'names')
    close([hd['OBSGEO-X'], hd['OBSGEO-Y'], hd['OBSGEO-Z']], site.geocentric_location, rtol=1e-12, atol=1e-3, msg='location')
    if c['text']:
        check('first comment' in ph['COMMENT'] and 'second comment' in ph['COMMENT'] and 'some history' in ph['HISTORY'] and ph['XTRAKEY'] == '12', 'texts', ph)
    want = {(k, b) for (k, b, _) in truth}
    check(len(rows) == len(want), 'rows: %s for %s spectra', len(rows), len(want))
    seen, lastscan, lastk = set(), None, -1
    for row in rows:
        date, tod = str(row['DATE-OBS']), float(row['TIME'])
        check(0 <= tod < 86400.001, 'time of day %s', tod)
        t = Time(date + 'T00:00:00', scale='utc') + TimeDelta(tod, format='sec')
        off = [abs((t - x).sec) for x in times]
        k = int(np.argmin(off))
        check(off[k] < 2e-4, 'row at %s, no data then (%s s off)', t.isot, off[k])
        scan = int(row['SCAN'])
        check((lastscan is None and scan == 1) or k == lastk and scan == lastscan or k > lastk and scan == lastscan + 1, 'scan %s (time %s) follows scan %s (time %s)', scan, k, lastscan, lastk)
        lastscan, lastk = scan, k
        b = int(row['BEAM'])
        check((k, b) in want and (k, b) not in seen, 'beam %s of integration %s', b, k)
        seen.add((k, b))
        check(abs(row['EXPOSURE'] - c['inttime']) <= 1e-6*c['inttime'], 'exposure %s', row['EXPOSURE'])
        check(str(row['OBSMODE']) == 'MODE', 'mode')
        fr = row['CRVAL1'] + (np.arange(c['nchan']) + 1 - row['CRPIX1'])*row['CDELT1']
        close(fr, freq, rtol=1e-12, atol=1e-4, msg='frequencies')
        close(hd['CRVAL1'] + (np.arange(c['nchan']) + 1 - hd['CRPIX1'])*hd['CDELT1'], freq, rtol=1e-12, atol=1e-4, msg='frequencies of the header')
        close(row['FREQRES'], c['df'], rtol=1e-6, msg='channel width')
        dat = row['DATA']
        check(dat.shape == (1, 1, len(codes), c['nchan']), 'shape of the data %s', dat.shape)
        for i, code in enumerate(codes):
            close(dat[0, 0, i], truth[(k, b, code)].astype('f4'), rtol=1e-6, msg='integration %d beam %d code %d' % (k, b, code))
    for n, code in CODES.items():
        check(sdfits.STOKES_CODES[n] == code and sdfits.NUMERIC_STOKES[code] == n, 'polarization codes: %s %s', n, sdfits.NUMERIC_STOKES[code])
    label(c['order'])
    return len(pols) > 1 or len(times) > 1

@part('long', st.fixed_dictionaries(dict(n=st.sampled_from([300, 3000]), pols=st.sampled_from([['I'], ['XX', 'YY']]), seed=st.integers(0, 1000), dt=st.sampled_from([0.01, 0.16]))),
      quick=4, thorough=30, rule='more than 255 scans', explicit=[dict(n=33000, pols=['XX', 'YY'], seed=1, dt=0.04)])
def sdfits_long(c):
    r = rng(c['seed'])
    fn = os.path.join(tmpdir(), 'a.fits')
    sd = sdfits.Sd(fn)
    sd.set_stokes(c['pols'])
    sd.set_frequency(np.array([10e6, 11e6]))
    b = [Antenna(7, stand=Stand(7, 0, 0, 0), pol=0, digitizer=1)]
    val = r.normal(size=(c['n'], len(c['pols']), 2)).astype('f4')
    t0 = 55000.25 + 37/86400
    for k in range(c['n']):
        for i, p in enumerate(c['pols']):
            sd.add_data_set(t0 + k*c['dt']/86400, c['dt'], b, val[k, i][None, :], pol=p)
    sd.write()
    sd.close()
    with fits.open(fn) as h:
        tab = h['SINGLE DISH'].data
        check(np.array_equal(tab['SCAN'], np.arange(1, c['n']+1)), 'scan numbers')
        close(tab['DATA'][:, 0, 0], val, rtol=1e-6, msg='data')
        close(np.diff(tab['TIME']), np.full(c['n']-1, c['dt']), rtol=0, atol=1e-4, msg='times')
    return c['n'] > 255
