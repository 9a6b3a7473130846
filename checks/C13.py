"""C13: visibilities written to FITS-IDI, UVFITS, Measurement Sets and memory read back as what was written."""
import os, warnings, ephem, logging
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
from astropy.time import Time, TimeDelta
from astropy.coordinates import AltAz, FK5, EarthLocation
from astropy import units as u
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.writer.fitsidi import Idi, Aips, ExtendedIdi
from lsl.writer.uvfits import Uv
from lsl.writer.measurementset import Ms
from lsl.writer.virtual import VirtualWriter
from lsl.imaging import utils
from lsl import astro
warnings.simplefilter('ignore')

C = 299792458.0
A, F = 6378137.0, 1/298.257223563

def ecef(lat, lon, h):
    e2 = F*(2 - F)
    N = A/np.sqrt(1 - e2*np.sin(lat)**2)
    return np.array([(N+h)*np.cos(lat)*np.cos(lon), (N+h)*np.cos(lat)*np.sin(lon), (N*(1-e2)+h)*np.sin(lat)])

def enu_axes(lat, lon):
    e = np.array([-np.sin(lon*1.0), np.cos(lon), 0])
    n = np.array([-np.sin(lat)*np.cos(lon), -np.sin(lat)*np.sin(lon), np.cos(lat)])
    u = np.array([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon), np.sin(lat)])
    return np.array([e, n, u])

IDS = {'idi': 255, 'idi-map': 2000, 'aips': 99, 'aips-map': 999, 'ext': 65535, 'uv': 255, 'uv-big': 2047, 'uv-map': 30000, 'ms': 30000, 'virtual': 30000}
STOKES = [['XX'], ['YY'], ['XX', 'YY'], ['XX', 'YY', 'XY', 'YX'], ['I'], ['I', 'Q', 'U', 'V'], ['RR', 'LL'], ['RR', 'LL', 'RL', 'LR']]

@st.composite
def cases(draw, fmts):
    fmt = draw(st.sampled_from(fmts))
    nant = draw(st.integers(2, 6))
    nt = draw(st.sampled_from([1, 2, 3, 4]))
    return dict(fmt=fmt, nant=nant, seed=draw(st.integers(0, 10**6)), lat=draw(st.floats(-70, 70)), lon=draw(st.floats(-179, 179)), elev=draw(st.sampled_from([0.0, 15.0, 2133.6])),
                site=draw(st.sampled_from(['lwa1', 'random'])),
                spread=draw(st.sampled_from([30.0, 100.0, 3000.0])), nchan=draw(st.sampled_from([2, 3, 5, 8])), nband=draw(st.sampled_from([1, 1, 2, 3])),
                f0=draw(st.floats(5e6, 9e7)), df=draw(st.sampled_from([100e3, 24.9e3, 4785.15625, 1e6/3])),
                day=draw(st.integers(51800, 60000)), sec=draw(st.one_of(st.floats(0, 86400), st.sampled_from([0.0, 86399.0, 43200.0]))),
                edge=draw(st.sampled_from([False]*7+[True])), dt=[draw(st.sampled_from([0.05, 0.3, 1.0, 10.0, 3600.0, 86400.0])) for _ in range(nt)],
                src=[draw(st.sampled_from(['z', 'z', 'fixed', 'fixed2', 'jupiter', 'sun'])) for _ in range(nt)],
                pols=draw(st.sampled_from(STOKES)), auto=draw(st.booleans()), reverse=draw(st.booleans()), weights=draw(st.booleans()),
                bl=[draw(st.sampled_from(['same', 'same', 'shuffle', 'subset', 'pershuffle'])) for _ in range(nt)],
                tkind=draw(st.sampled_from(['mjd', 'astropy'])), ref=draw(st.sampled_from(['unix', 'str', 'datetime'])),
                order=draw(st.sampled_from(['time', 'mixed'])), inttime=draw(st.sampled_from([0.04, 1.0, 5.5])), extra=draw(st.booleans()),
                include_auto=draw(st.booleans()), sort=draw(st.booleans()), many=draw(st.booleans()), generic=draw(st.booleans()), uvcut=draw(st.booleans()))

def expected_uvw(enu, lat, ha, dec):
    """Metres; u towards the east, v towards the north celestial pole, w towards the source."""
    pole = np.array([0, np.cos(lat), np.sin(lat)])
    south = np.array([0, -np.sin(lat), np.cos(lat)])   # meridian point of the equator: east=0
    s = np.sin(dec)*pole + np.cos(dec)*(np.cos(ha)*south - np.sin(ha)*np.array([1.0, 0, 0]))
    u = np.cos(ha)*np.array([1.0, 0, 0]) + np.sin(ha)*south
    v = np.cross(s, u)
    return np.array([enu@u, enu@v, enu@s]).T

def make_source(kind, r):
    if kind == 'jupiter':
        b = ephem.Jupiter()
        return b
    if kind == 'sun':
        return ephem.Sun()
    b = ephem.FixedBody()
    b.name = 'SRC%02d' % r.integers(100)
    b._ra = r.uniform(0, 2*np.pi)
    b._dec = r.uniform(-1.4, 1.4)
    b._epoch = ephem.J2000
    return b

LEAPDAYS = {53736, 54832, 56109, 57204, 57754}

def zenith_name(date, el):
    equ = AltAz(0*u.deg, 90*u.deg, location=el, obstime=date).transform_to(FK5(equinox=date))
    return int(equ.ra.deg*240*10)   # tenths of seconds

def find_edge(t, el):
    """A time when the sidereal time passes a tenth of a second, to within the precision of the day numbers."""
    def two(m):
        return zenith_name(Time(m, format='mjd', scale='tai'), el), zenith_name(Time(astro.taimjd_to_utcjd(m), format='jd', scale='utc'), el)
    lo, hi = t.tai.mjd, t.tai.mjd + 0.11/86400
    n0 = two(lo)[0]
    for _ in range(30):
        mid = (lo+hi)/2
        a, b = two(mid)
        if a != b:
            return Time(mid, format='mjd', scale='tai').utc
        lo, hi = (mid, hi) if a == n0 else (lo, mid)
    return t

RULE = 'several integrations or polarizations, or a source other than zenith'

def roundtrip(c):
    r = rng(c['seed'])
    fmt = c['fmt'].split('-')[0]
    if c['site'] == 'lwa1':
        lat, lon, elev = 34.068894, -107.628350, 2133.6
    else:
        lat, lon, elev = c['lat'], c['lon'], c['elev']
    top = IDS[c['fmt']]
    ids = r.permutation(np.arange(1, top+1))[:c['nant']]
    if '-' in c['fmt']:
        ids[r.integers(len(ids))] = top
    if len(set(ids)) != len(ids):
        raise Reject()
    if r.integers(2):
        ids = np.sort(ids)
    enu = r.uniform(-1, 1, (c['nant'], 3))*[c['spread'], c['spread'], 5.0]
    for i in range(c['nant']):
        for j in range(i):
            if np.hypot(*(enu[i]-enu[j])[:2]) < 3:
                raise Reject()
    site = LWAStation('LWAX', lat, lon, elev, id='XX')
    ants = [Antenna(i+1, stand=Stand(int(ids[i]), *enu[i]), pol=0, digitizer=i+1) for i in range(c['nant'])]
    site.antennas = ants
    latr, lonr = np.radians(lat), np.radians(lon)
    pos = ecef(latr, lonr, elev) + enu@enu_axes(latr, lonr)

    # Times, TAI MJD
    t0 = Time(c['day'], c['sec']/86400, format='mjd', scale='utc')
    if c['edge'] and c['src'][0] == 'z':
        t0 = find_edge(t0, EarthLocation.from_geodetic(lon*u.deg, lat*u.deg, height=elev*u.m))
        label('edge')
    step = np.concatenate([[0], np.cumsum(c['dt'])[:-1]])
    times = [t0 + TimeDelta(s, format='sec') for s in step]
    for t in times:
        if {int(t.mjd), int(t.mjd)+1} & LEAPDAYS:
            raise Reject()
    if fmt in ('uv',) and min(c['dt'][:-1] or [1]) < 0.04:
        raise Reject()
    nband = c['nband'] if fmt in ('idi', 'aips', 'ext', 'ms') else 1
    bands = [c['f0'] + k*(c['nchan']+3)*c['df'] + np.arange(c['nchan'])*c['df'] for k in range(nband)]
    freq = np.concatenate(bands)
    fixed = {k: make_source(k, r) for k in ('fixed', 'fixed2', 'jupiter', 'sun')}
    if fixed['fixed'].name == fixed['fixed2'].name:
        raise Reject()

    pairs = [(i, j) for i in range(c['nant']) for j in range(i if c['auto'] else i+1, c['nant'])]
    if c['reverse']:
        pairs = [p[::-1] if r.integers(2) else p for p in pairs]
    if not [p for p in pairs if p[0] != p[1]]:
        raise Reject()

    path = os.path.join(tmpdir(), 'vis')
    ref = times[0].utc
    rt = {'unix': float(np.floor(ref.unix)), 'str': ref.datetime.strftime('%Y-%m-%dT%H:%M:%S'), 'datetime': ref.datetime}[c['ref']]
    cls = {'idi': Idi, 'aips': Aips, 'ext': ExtendedIdi, 'uv': Uv, 'ms': Ms}.get(fmt)
    w = VirtualWriter(ref_time=rt) if cls is None else cls(path, ref_time=rt)
    pols = list(c['pols'])
    if fmt != 'virtual':
        given = [pols[i] for i in r.permutation(len(pols))]
        w.set_stokes(given)
        for b in bands:
            w.set_frequency(b)
        w.set_observer('Anon', project='PRJ1', mode='ZA')
        if c['extra'] and fmt != 'ms':
            w.add_header_keyword('XTRA', 'hello', 'a comment')
            w.add_comment('first comment')
            w.add_history('first history')
    else:
        w.set_frequency(freq)
    w.set_geometry(site, ants)

    want = []
    adds = []
    for k, t in enumerate(times):
        mode = c['bl'][k]
        sel = list(range(len(pairs)))
        if mode == 'subset' and fmt != 'virtual':
            n = max(1, len(pairs) - 1)
            sel = sorted(r.permutation(len(pairs))[:n])
        if mode == 'shuffle':
            sel = list(r.permutation(sel))
        kind = c['src'][k]
        obs = ephem.Observer()
        obs.lat, obs.lon, obs.elevation, obs.pressure = latr, lonr, elev, 0
        obs.date = ephem.Date(t.utc.datetime.strftime('%Y/%m/%d %H:%M:%S.%f'))
        if kind == 'z':
            src, ha, dec, radec = 'z', 0.0, latr, None
        else:
            src = fixed[kind] if kind.startswith('fixed') else make_source(kind, r)
            src.compute(obs)
            ha, dec = float(obs.sidereal_time() - src.g_ra), float(src.g_dec)
            radec = (float(src.a_ra), float(src.a_dec))
        if kind == 'z':
            b = ephem.FixedBody()
            b._ra, b._dec = obs.radec_of(0, '90')
            radec = (float(b._ra), float(b._dec))
        vis = {p: (r.normal(size=(len(sel), len(freq))) + 1j*r.normal(size=(len(sel), len(freq)))).astype('c8') for p in pols}
        wgt = {p: r.uniform(0.1, 5, size=(len(sel), len(freq))).astype('f4') if c['weights'] and fmt in ('idi', 'aips', 'ext', 'virtual') else None for p in pols}
        rec = dict(t=t, ha=ha, dec=dec, radec=radec, name=None if kind == 'z' else src.name, data={})
        for q, s in enumerate(sel):
            i, j = pairs[s]
            rec['data'][(ids[i], ids[j])] = (enu[i]-enu[j], {p: vis[p][q] for p in pols}, {p: None if wgt[p] is None else wgt[p][q] for p in pols})
        want.append(rec)
        for p in pols:
            o = r.permutation(len(sel)) if mode == 'pershuffle' and fmt != 'virtual' else np.arange(len(sel))
            kw = dict(pol=p, source=src)
            if wgt[p] is not None:
                kw['weights'] = wgt[p][o]
            when = t.tai.mjd if c['tkind'] == 'mjd' else t
            adds.append(((when, c['inttime'], [(ants[pairs[sel[x]][0]], ants[pairs[sel[x]][1]]) for x in o], vis[p][o]), kw))
    if c['order'] == 'mixed' and fmt != 'virtual':
        adds = [adds[i] for i in r.permutation(len(adds))]
    for a, kw in adds:
        w.add_data_set(*a, **kw)
    if fmt == 'virtual':
        rd = w
        nset = len(w.visibility_data)
        check(nset == len(times), "integrations in memory", nset, len(times))
    else:
        w.write()
        w.close()
        if c['generic']:
            rd = utils.CorrelatedData(path)
        else:
            rd = {'uv': utils.CorrelatedDataUV, 'ms': utils.CorrelatedDataMS}.get(fmt, utils.CorrelatedDataIDI)(path)
        check(rd.integration_count == len(times), "integration count", rd.integration_count, len(times))
        check(rd.total_baseline_count == nrows(want)*(nband if fmt == 'ms' else 1), "total baseline count", rd.total_baseline_count)
        close(rd.freq, freq, 1e-7, 1e-3, "frequencies")
        ref0 = ref.datetime.replace(microsecond=0)
        if fmt != 'ms':
            check(abs((rd.date_obs - ref0).total_seconds()) <= 1, "reference date", rd.date_obs, ref0)
        else:
            check(abs((rd.date_obs - ref.datetime).total_seconds() - c['inttime']/2) < 0.01, "reference date", rd.date_obs, ref)
        check([a.stand.id for a in rd.antennas] == list(ids), "stand numbers", [a.stand.id for a in rd.antennas], ids)
        # positions on the Earth
        la, lo, el = float(rd.station.lat), float(rd.station.lon), float(rd.station.elev)
        got = ecef(la, lo, el) + np.array([[a.stand.x, a.stand.y, a.stand.z] for a in rd.antennas])@enu_axes(la, lo)
        check(np.abs(got - pos).max() < 0.05 + 1e-4*c['spread'], "antenna positions", got, pos)
        if fmt != 'ms':
            check(abs(la - latr) < 1e-7 and abs(np.mod(lo - lonr + np.pi, 2*np.pi) - np.pi) < 1e-7 and abs(el - elev) < 0.5, "station position", la, lo, el)
        if c['extra'] and fmt not in ('ms', 'virtual'):
            from astropy.io import fits
            with fits.open(path) as h:
                hd = h[0].header
                check(hd['XTRA'] == 'hello' and hd.comments['XTRA'] == 'a comment' and 'first comment' in list(hd['COMMENT']) and 'first history' in list(hd['HISTORY'])
                      and hd['OBSERVER'] == 'Anon' and (fmt == 'uv' or hd['PROJECT'] == 'PRJ1'), "header entries")

    kw = dict(include_auto=c['include_auto'], sort=c['sort'])
    counts = {len([k for k in x['data'] if k[0] != k[1] or c['include_auto']]) for x in want}
    if 0 in counts:
        raise Reject()
    if c['many'] and len(times) > 1 and len(counts) == 1:   # one count of baselines per collection
        pick = [int(i)+1 for i in r.permutation(len(times))]
        sets = rd.get_data_set(pick, **kw)
        got = dict()
        for ds in sets:
            k = int(np.argmin([abs(ds.jd - x['t'].utc.jd - (c['inttime']/2/86400 if fmt == 'ms' else 0)) for x in want]))
            check(k not in got, "two sets for one time")
            got[k] = ds
        check(len(got) == len(want), "sets returned", len(got))
    else:
        got = {k: rd.get_data_set(k+1, **kw) for k in range(len(want))}
    for x in want:   # one position is stored for each source, also for one that moves
        x['radecs'] = [y['radec'] for y in want if y is x or (x['name'] and y['name'] == x['name'])]
    for k, x in enumerate(want):
        compare(c, fmt, got[k], x, ids, freq, rd)
    if c['uvcut'] and fmt != 'virtual':
        k = len(want)-1
        full = rd.get_data_set(k+1, include_auto=True)
        d = np.sqrt((full.uvw[:, :2, len(freq)//2]**2).sum(axis=1))
        lo, hi = np.quantile(d, [0.2, 0.7])
        if ((d >= lo) & (d < hi)).any():
            cut = rd.get_data_set(k+1, include_auto=True, min_uv=lo, max_uv=hi)
            check([tuple(b) for b in cut.baselines] == [tuple(b) for b, q in zip(full.baselines, d) if lo <= q < hi], "baselines within a uv range")
    return len(times) > 1 or len(pols) > 1 or c['src'][0] != 'z'

def nrows(want):
    return sum(len(x['data']) for x in want)

def compare(c, fmt, ds, x, ids, freq, rd):
    label(f"{c['fmt']}")
    jd = x['t'].utc.jd + (c['inttime']/2/86400 if fmt == 'ms' else 0)
    check(abs(ds.jd - jd) < (1.2e-7 if fmt == 'uv' else 1.5e-9), "time of a set", ds.jd, jd, (ds.jd-jd)*86400)
    check(abs(ds.int_time - c['inttime']) < 1e-5, "integration time", ds.int_time)
    check(sorted(ds.pols) == sorted(c['pols']), "polarizations", ds.pols)
    close(np.asarray(ds.freq), freq, 1e-7, 1e-3, "frequencies of a set")
    want = {k: v for k, v in x['data'].items() if k[0] != k[1] or c['include_auto']}
    got = [(ids[i], ids[j]) for i, j in ds.baselines]
    check(len(got) == len(set(got)), "repeated baselines")
    check(set(got) == set(want), "baselines of a set", got, sorted(want))
    if c['sort']:
        check(list(map(tuple, ds.baselines)) == sorted(map(tuple, ds.baselines)), "baselines are not sorted")
    check(ds.uvw.shape == (len(got), 3, len(freq)), "shape of uvw", ds.uvw.shape)
    enu = np.array([want[k][0] for k in got]).reshape(-1, 3)
    lat = np.radians(34.068894) if c['site'] == 'lwa1' else np.radians(c['lat'])
    m = expected_uvw(enu, lat, x['ha'], x['dec'])
    exp = m[:, :, None]*freq/C
    tol = (3e-4*np.abs(enu).max() + 1e-3)*freq/C
    bad = np.abs(ds.uvw - exp) > tol
    if bad.any():
        i = np.argwhere(bad)[0]
        check(False, "uvw", got[i[0]], ds.uvw[i[0], :, i[2]]*C/freq[i[2]], m[i[0]], 'ha', x['ha'], 'dec', x['dec'])
    for p in c['pols']:
        pd = getattr(ds, p)
        close(pd.data, np.array([want[k][1][p] for k in got]), 1e-6, 1e-7, f"visibilities {p}")
        wg = np.array([np.ones(len(freq)) if want[k][2][p] is None else want[k][2][p] for k in got])
        close(pd.weight, wg, 1e-6, 0, f"weights {p}")
    pc = ds.phase_center
    ra, dec = (pc._ra, pc._dec) if isinstance(pc, ephem.FixedBody) else (pc.a_ra, pc.a_dec)
    sep = min(ephem.separation((float(ra), float(dec)), y) for y in x['radecs'])
    check(float(sep) < 4e-4, "phase centre", ra, dec, x['radec'])
    if x['name'] and fmt != 'virtual':
        check(str(pc.src_name if hasattr(pc, 'src_name') else pc.name).strip() == x['name'], "name of the phase centre", x['name'])
    if rd is not None and ds.antennaarray is not None:
        check(len(ds.antennaarray) == len(ids), "antenna array")

BASE = dict(nant=4, seed=5, lat=10.0, lon=20.0, elev=0.0, site='lwa1', spread=100.0, nchan=3, nband=1, f0=4e7, df=1e5, day=57000, sec=30000.0, edge=False,
            dt=[0.02, 1.0, 1.0], src=['z', 'z', 'fixed'], pols=['XX', 'YY'], auto=True, reverse=False, weights=False, bl=['same', 'same', 'same'], tkind='mjd', ref='unix',
            order='time', inttime=1.0, extra=False, include_auto=False, sort=True, many=False, generic=True, uvcut=False)

@part('idi', cases(['idi', 'idi', 'idi-map']), quick=120, thorough=800, rule=RULE, shards=4, explicit=[dict(BASE, fmt='idi'), dict(BASE, fmt='idi', edge=True)])
def idi(c):
    return roundtrip(c)

@part('aips', cases(['aips', 'aips-map', 'ext', 'ext']), quick=96, thorough=600, rule=RULE, shards=4)
def aips(c):
    return roundtrip(c)

@part('uvfits', cases(['uv', 'uv-big', 'uv-map']), quick=96, thorough=600, rule=RULE, shards=4, explicit=[dict(BASE, fmt='uv', dt=[0.05, 1.0, 1.0])])
def uvfits(c):
    return roundtrip(c)

@part('ms', cases(['ms']), quick=96, thorough=600, rule=RULE, shards=4, explicit=[dict(BASE, fmt='ms')])
def ms(c):
    return roundtrip(c)

@part('virtual', cases(['virtual']), quick=120, thorough=800, rule=RULE, shards=4)
def virtual(c):
    return roundtrip(c)
