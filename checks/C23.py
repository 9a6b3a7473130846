"""C23: stations are what their SSMIF says, and their places on Earth, cables and copies are right."""
import os, math, copy, pickle, io
import numpy as np
from vlib.core import *
from vlib import ssmif as S
from hypothesis import strategies as st
from lsl.common import stations as stn

seeds = st.integers(0, 2**31)
C = 299792458.0
NAMES = {'VL': 'LWA1', 'NA': 'LWANA', 'SV': 'LWASV', 'OV': 'OVROLWA'}

def same_antenna(a, w, tol=1e-12):
    def eq(x, y, what):
        ok = x == y if not isinstance(y, float) else abs(x - y) <= tol*max(1, abs(y))
        check(ok, '%s of antenna %s: got %s, expected %s', what, w['id'], repr(x), repr(y))
    eq(a.id, w['id'], 'number')
    eq(a.stand.id, w['stand'], 'stand')
    for x, y in zip((a.stand.x, a.stand.y, a.stand.z), w['pos']):
        eq(x, y, 'position')
    for k in ('pol', 'theta', 'phi', 'status', 'board', 'input'):
        eq(getattr(a, k), w[k], k)
    eq(a.digitizer, w['dig'], 'digitizer')
    if w['fee'] is not None:
        for x, y, k in zip((a.fee.id, a.fee.id_number, a.fee.gain1, a.fee.gain2, a.fee.status, a.fee_port), w['fee'], ('id', 'number', 'gain1', 'gain2', 'status', 'port')):
            eq(x, y, 'FEE ' + k)
        eq(a.combined_status, 10*w['status'] + w['fee'][4], 'combined status')
    else:
        eq(a.fee.id, '', 'FEE')
    if w['cable'] is not None:
        i, ln, vf, dd, a0, a1, fref, sr = w['cable']
        for x, y, k in zip((a.cable.id, a.cable.length, a.cable.vf, a.cable.dd, a.cable.a0, a.cable.a1, a.cable.ref_freq, a.cable.stretch), (i, ln, vf/100, dd*1e-9, a0, a1, fref, sr), ('id', 'length', 'vf', 'dd', 'a0', 'a1', 'ref_freq', 'stretch')):
            eq(x, y, 'cable ' + k)
        eq(float(a.cable.asp_atten_db), float(w['asp']), 'ASP attenuation')
    else:
        eq(a.cable.id, '', 'cable')
    if w['arx'] is not None:
        for x, y, k in zip((a.arx.id, a.arx.channel, a.arx.asp_channel, a.arx.input, a.arx.output), w['arx'], ('id', 'channel', 'ASP channel', 'input', 'output')):
            eq(x, y, 'ARX ' + k)
    else:
        eq(a.arx.channel, 0, 'ARX')

def same_station(s, m, single):
    want = S.antennas(m, single)
    check(len(s.antennas) == len(want), '%s antennas of %s', len(s.antennas), len(want))
    check([a.digitizer for a in s.antennas] == sorted(w['dig'] for w in want.values()), 'antennas are not in order of the digitizers')
    for a in s.antennas:
        same_antenna(a, want[a.id])
    check(s.name == NAMES.get(m['sid'], 'New LWA Station') and s.id == m['sid'], 'name %s (%s)', s.name, s.id)
    close([float(s.lat), float(s.long), s.elev], [math.radians(m['lat']), math.radians(m['lon']), m['elv']], rtol=1e-12, atol=1e-12, msg='location')
    check(s.default_drx_gain == (m['gain'] or 0), 'DRX gain')
    check([x is y for x, y in zip(s.stands, [a.stand for a in s.antennas])] and s.pols == [a.pol for a in s.antennas] and [c.id for c in s.cables] == [a.cable.id for a in s.antennas], 'lists of the station')
    # antennas of a stand share it
    by = {}
    for a in s.antennas:
        check(by.setdefault(a.stand.id, a.stand) is a.stand, 'stand %s is there twice', a.stand.id)

files = st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['text', 'text', 'binary', 'handle', 'bhandle', 'bbhandle']), full=st.integers(0, 15)))

@part('ssmif', files, quick=1200, thorough=6000, rule='two stands or more', seconds=80, shards=3)
def ssmif(c):
    r = rng(c['seed'])
    m = S.model(r, c['full'] == 0)
    d = tmpdir()
    binary = c['kind'] in ('binary', 'bbhandle')
    fn = os.path.join(d, 'x-ssmif' + ('.dat' if binary else '.txt'))
    with open(fn, 'wb') as fh:
        fh.write(S.binary(m) if binary else S.text(m, r).encode())
    if c['kind'] in ('text', 'binary'):
        s = stn.parse_ssmif(fn)
    else:
        with open(fn, 'r' if c['kind'] == 'handle' else 'rb') as fh:
            s = stn.parse_ssmif(fh)
    same_station(s, m, binary)
    # other extensions and versions are refused
    if r.integers(5) == 0:
        bad = os.path.join(d, 'x.ssmif')
        os.rename(fn, bad)
        try:
            stn.parse_ssmif(bad)
            check(False, 'an unknown kind of file is read')
        except ValueError:
            pass
        with open(fn, 'wb') as fh:
            v = int(r.choice([7, 8, 9, 11]))
            b = open(bad, 'rb').read()
            fh.write(v.to_bytes(4, 'little') + b[4:] if binary else b.replace(b'FORMAT_VERSION 10', b'FORMAT_VERSION %d' % v))
        try:
            stn.parse_ssmif(fn)
            check(False, 'an unknown version is read')
        except RuntimeError:
            pass
    # a copy of it is the same
    k = int(r.integers(3))
    s.beamformer_min_delay, s.beamformer_min_delay_samples = 1.5, 12
    s.antennas[0].cable.clock_offset = 3e-9
    t = pickle.loads(pickle.dumps(s)) if k == 0 else copy.deepcopy(s)
    m2 = dict(m)
    same_station(t, m2, binary)
    check((t.beamformer_min_delay, t.beamformer_min_delay_samples) == (1.5, 12), 'minimum delay of the copy')
    check(t.antennas[0].cable.clock_offset == 3e-9, 'clock offset of the copy')
    check(all(x is not y and x.stand is not y.stand for x, y in zip(s.antennas, t.antennas)), 'the copy shares antennas')
    check(all(a.stand._parent.name == t.name for a in t.antennas), 'stands of the copy')
    return m['n'] > 1

cab = st.fixed_dictionaries(dict(seed=seeds, array=st.booleans(), dB=st.booleans(), asp=st.booleans()))

@part('cable', cab, quick=4500, thorough=30000, rule='every case', seconds=40)
def cable(c):
    r = rng(c['seed'])
    ln, vf, dd, a0, a1, ref, sr = r.uniform(1, 300), r.uniform(0.5, 1), r.uniform(0, 5e-9), r.uniform(0, 0.02), r.choice([0, r.uniform(0, 0.002)]), r.uniform(5e6, 2e7), r.uniform(0.9, 1.1)
    x = stn.Cable('c', ln, vf=vf, dd=dd, a0=a0, a1=a1, ref_freq=ref, stretch=sr)
    x.clock_offset = float(r.choice([0, r.normal()*1e-8]))
    x.asp_atten_db = float(r.choice([0, r.integers(0, 30)*0.5]))
    f = r.uniform(5e6, 98e6, 7) if c['array'] else float(r.uniform(5e6, 98e6))
    if r.integers(5) == 0:
        x = copy.deepcopy(x) if r.integers(2) else pickle.loads(pickle.dumps(x))
    L = ln*sr
    want = L/(vf*C) + dd*(L/100)/np.sqrt(f/ref) + x.clock_offset
    close(x.delay(f), want, rtol=1e-12, atol=1e-18, msg='delay')
    close(x.delay(f, ns=True), want*1e9, rtol=1e-12, atol=1e-9, msg='delay in ns')
    at = np.exp(2*a0*L*np.sqrt(f/ref) + a1*L*(f/ref))*(10**(x.asp_atten_db/10) if c['asp'] else 1)
    fn = (lambda v: 10*np.log10(v)) if c['dB'] else (lambda v: v)
    close(x.attenuation(f, dB=c['dB'], include_asp_atten=c['asp']), fn(at), rtol=1e-10, atol=1e-10, msg='attenuation')
    close(x.gain(f, dB=c['dB'], include_asp_atten=c['asp']), fn(1/at), rtol=1e-10, atol=1e-10, msg='gain')
    fr, v = x.response(dB=c['dB'])
    close(v, x.attenuation(fr, dB=c['dB']), rtol=1e-12, msg='response')
    close(fr, np.arange(1, 11)*1e7, msg='frequencies of the response')
    return True

A, FL = 6378137.0, 1/298.257223563
E2 = FL*(2 - FL)

def ecef(lat, lon, h):
    n = A/math.sqrt(1 - E2*math.sin(lat)**2)
    return np.array([(n + h)*math.cos(lat)*math.cos(lon), (n + h)*math.cos(lat)*math.sin(lon), (n*(1 - E2) + h)*math.sin(lat)])

def enu(lat, lon):
    sl, cl, so, co = math.sin(lat), math.cos(lat), math.sin(lon), math.cos(lon)
    return np.array([[-so, co, 0], [-sl*co, -sl*so, cl], [cl*co, cl*so, sl]])

geo = st.fixed_dictionaries(dict(lat=st.floats(-1.56, 1.56), lon=st.floats(-3.14, 3.14), h=st.floats(-400, 9000), seed=seeds, to=st.sampled_from(['tuple', 'station', 'location', 'near'])))

@part('geo', geo, quick=1200, thorough=8000, rule='every case', seconds=60, shards=2)
def geodesy(c):
    r = rng(c['seed'])
    lat, lon, h = c['lat'], c['lon'], c['h']
    xyz = ecef(lat, lon, h)
    close(stn.geo_to_ecef(lat, lon, h), xyz, atol=1e-4, rtol=0, msg='geocentric position')
    close(stn.ecef_to_geo(*xyz), [lat, lon, h], atol=1e-3, rtol=0, msg='geodetic position')
    close(np.array(stn.ecef_to_geo(*xyz))[:2], [lat, lon], atol=1e-10, rtol=0, msg='geodetic position')
    ants = [stn.Antenna(k, stand=stn.Stand(k, *r.normal(0, 100, 3)), digitizer=int(v)) for k, v in enumerate(r.permutation(4))]
    s = stn.LWAStation('x', math.degrees(lat), math.degrees(lon), h, antennas=ants)
    close([float(s.lat), float(s.lon), s.elev], [lat, lon, h], atol=1e-12, rtol=1e-12, msg='location')
    close(s.geocentric_location, xyz, atol=1e-4, rtol=0, msg='location of the station')
    el = s.earth_location
    close([el.x.to('m').value, el.y.to('m').value, el.z.to('m').value], xyz, atol=1e-4, rtol=0, msg='location of the station')
    close(s.aipy_location, [lat, lon, h], atol=1e-12, rtol=1e-12, msg='location for aipy')
    o = s.get_observer()
    close([float(o.lat), float(o.lon), o.elev, o.pressure], [lat, lon, h, 0], atol=1e-12, rtol=1e-12, msg='observer')
    jd = float(r.uniform(2440000, 2470000))
    check(abs(float(s.get_observer(jd, JD=True).date) - (jd - 2415020)) < 1e-8 and abs(float(s.get_observer(jd - 2415020.0).date) - (jd - 2415020)) < 1e-8, 'date of the observer')
    M, I = s.eci_transform_matrix, s.eci_inverse_transform_matrix
    close(M @ I, np.eye(3), atol=1e-14, rtol=0, msg='transforms are not the inverse of each other')
    rot = np.array([[math.cos(lon), math.sin(lon), 0], [-math.sin(lon), math.cos(lon), 0], [0, 0, 1]])
    close(M, rot @ enu(lat, lon).T, atol=1e-12, rtol=0, msg='transform')
    # stands
    for a in s.antennas:
        p = a.stand.earth_location
        p = np.array([p.x.to('m').value, p.y.to('m').value, p.z.to('m').value])
        close(p, xyz + enu(lat, lon).T @ np.array(a.stand.xyz), atol=2e-3, rtol=0, msg='position of a stand')
    check([a.digitizer for a in s.antennas] == [0, 1, 2, 3], 'antennas are not in order of the digitizers')
    # somewhere else
    if c['to'] == 'near':
        la, lo, hh = lat + r.normal()*1e-4, lon + r.normal()*1e-4, h + r.normal()*10
    else:
        la, lo, hh = r.uniform(-1.56, 1.56), r.uniform(-3.14, 3.14), r.uniform(-400, 9000)
    other = stn.LWAStation('y', math.degrees(la), math.degrees(lo), hh)
    to = {'tuple': (math.degrees(la), math.degrees(lo), hh), 'near': (math.degrees(la), math.degrees(lo), hh), 'station': other, 'location': other.earth_location}[c['to']]
    want = enu(lat, lon) @ (ecef(la, lo, hh) - xyz)
    dist = np.linalg.norm(want)
    close(s.get_enz_offset(to), want, atol=1e-3 + 1e-9*dist, rtol=0, msg='offset')
    az, alt, di = s.get_pointing_and_distance(to)
    close(di, dist, atol=1e-3, rtol=1e-9, msg='distance')
    if dist > 10:
        v = np.array([math.sin(az)*math.cos(alt), math.cos(az)*math.cos(alt), math.sin(alt)])
        close(v, want/dist, atol=1e-4/dist*10 + 1e-8, rtol=0, msg='pointing')
        check(0 <= az <= 2*math.pi + 1e-9 and abs(alt) <= math.pi/2 + 1e-9, 'azimuth %s and elevation %s', az, alt)
    return True

obj = st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['stand', 'order', 'items', 'arx', 'interface', 'known'])))
I_COLS = {5: 0, 1: 1, 4: 2, 0: 3, 3: 4, 6: 5, 7: 6, 2: 7}        # HPF 3, 10, 20, 30 MHz with LPF 83 MHz, and the same with LPF 73 MHz
ALIAS = {0: 'split', 1: 'full', 2: 'reduced', 4: 'split@3MHz', 5: 'full@3MHz'}

@part('objects', obj, quick=1800, thorough=8000, rule='every case', seconds=40)
def objects(c):
    r = rng(c['seed'])
    if c['kind'] == 'stand':
        p, q = r.normal(0, 50, 3), r.normal(0, 50, 3)
        a, b = stn.Stand(int(r.integers(1, 300)), *p), stn.Stand(int(r.integers(1, 300)), *q)
        check([a[i] for i in range(3)] == list(p) and a.xyz == tuple(p), 'coordinates by number')
        close(a + b, p + q, msg='sum'); close(a - b, p - q, msg='difference')
        close(a + list(q), p + q, msg='sum with a list'); close(a - tuple(q), p - q, msg='difference with a tuple')
        close(a + 2.5, p + 2.5, msg='sum with a number'); close(a - 2.5, p - 2.5, msg='difference with a number')
        i = int(r.integers(3))
        a[i] = 7
        check(a.xyz[i] == 7.0 and [a.xyz[j] == p[j] for j in range(3) if j != i] == [True, True], 'setting a coordinate')
        for bad in (3, -1):
            try:
                a[bad]
                check(False, 'coordinate %s', bad)
            except ValueError:
                pass
        check((a == b) == (a.id == b.id) and (a < b) == (a.id < b.id) and (a >= b) == (a.id >= b.id), 'order of stands')
        t = pickle.loads(pickle.dumps(a))
        check(t.xyz == a.xyz and t.id == a.id, 'copy of a stand')
        try:
            a.earth_location
            check(False, 'location of a stand without a station')
        except RuntimeError:
            pass
    elif c['kind'] == 'order':
        n = int(r.integers(2, 12))
        ids, dig = r.permutation(n), r.permutation(n)
        ants = [stn.Antenna(int(i), digitizer=int(d), stand=stn.Stand(int(i) + 1, 0, 0, 0), pol=int(i) % 2) for i, d in zip(ids, dig)]
        given = list(ants)
        s = stn.LWAStation('x', 10, 20, 30, antennas=tuple(ants) if r.integers(2) else ants)
        check([a.digitizer for a in s.antennas] == list(range(n)), 'order of the antennas')
        check(ants == given, 'the list of antennas was changed')
        check([a.id for a in sorted(ants)] == list(range(n)), 'order by number')
        check([a is b for a, b in zip(s, s.antennas)] == [True]*n and s[0] is s.antennas[0], 'antennas by number')
        s.antennas = list(given)
        check([a.digitizer for a in s.antennas] == list(range(n)), 'order of the antennas after setting them')
        for bad in ((given[0],), [1], 'x'):
            try:
                s.antennas = bad
                check(False, 'antennas %s are accepted', bad)
            except TypeError:
                pass
        check(len(s.antennas) == n, 'antennas after a failure')
    elif c['kind'] == 'items':
        n = int(r.integers(3, 12))
        mk = lambda k: stn.Antenna(k, digitizer=k, stand=stn.Stand(k, 1, 2, 3))
        s = stn.LWAStation('x', 10, 20, 30, antennas=[mk(k) for k in range(n)])
        i = int(r.integers(n))
        new = mk(100)
        s[i] = new
        check(s.antennas[i] is new and new.stand._parent.name == 'x', 'a new antenna')
        new.stand.earth_location
        j = int(r.integers(1, n))
        news = [mk(200 + k) for k in range(j)]
        s[0:j] = news
        check(all(x is y for x, y in zip(s.antennas, news)) and len(s.antennas) == n, 'new antennas')
        news[-1].stand.earth_location
    elif c['kind'] == 'arx':
        idn = int(r.choice([0, 150, 250, 350, 450, 8250, 600]))
        ch = int(r.integers(1, 17))
        a = stn.ARX(idn if r.integers(2) else str(idn), ch, 3, 'in', 'out')
        rev = {150: 'D', 250: 'G', 350: 'I', 450: 'I', 8250: 'H'}.get(idn, 'unknown')
        check(a.revision() == rev, 'revision %s of board %s', a.revision(), idn)
        cols = 8 if rev == 'I' else 4
        data = {f'ch{k}': r.normal(size=(20, cols)) for k in range(1, 17)}
        freq = np.sort(r.uniform(5e6, 98e6, 20))
        buf = io.BytesIO()
        np.savez(buf, freq=freq, **data)
        asked = []
        class Store:
            @staticmethod
            def open(name, mode='r'):
                asked.append(name)
                return io.BytesIO(buf.getvalue())
        old = stn.DataAccess
        stn.DataAccess = Store
        try:
            for flt in range(8):
                names = [flt] + ([ALIAS[flt]] if flt in ALIAS else [])
                for nm in names:
                    dB = bool(r.integers(2))
                    mapping = I_COLS if rev == 'I' else {0: 0, 1: 1, 2: 2, 4: 3}
                    try:
                        f, v = a.response(filter=nm, dB=dB)
                    except ValueError:
                        check(flt not in mapping, 'filter %s is refused', nm)
                        continue
                    check(flt in mapping, 'filter %s of a revision %s board', nm, rev)
                    want = data[f'ch{ch}'][:, mapping[flt]]
                    close(v, want if dB else 10**(want/10), rtol=1e-10, msg='filter %s' % nm)
                    close(f, freq, msg='frequencies')
            check(set(asked) == {'arx/ARX_board_%04d_filters.npz' % idn}, 'response file %s', asked)
            for bad in (8, 'other'):
                try:
                    a.response(filter=bad)
                    check(False, 'filter %s is accepted', bad)
                except ValueError:
                    pass
        finally:
            stn.DataAccess = old
        b = pickle.loads(pickle.dumps(a))
        check((b.id, b.channel, b.asp_channel, b.input, b.output) == (idn, ch, 3, 'in', 'out') and a == b, 'copy of an ARX')
    elif c['kind'] == 'interface':
        mods = dict(backend='lsl.common.ndp', mcs='lsl.common.mcs', sdf='lsl.common.sdf', metabundle='lsl.common.metabundle', sdm='lsl.common.sdm')
        keep = {k: v for k, v in mods.items() if r.integers(2)}
        i = stn.LSLInterface(**keep)
        if r.integers(2):
            i = pickle.loads(pickle.dumps(i))
        for k in mods:
            try:
                m = i.get_module(k)
            except RuntimeError:
                check(k not in keep, 'no module for %s', k)
                continue
            check(k in keep and m.__name__ == mods[k], 'module %s for %s', m.__name__, k)
            check(i.get_module(k) is m, 'module changes')
    else:
        full, mini, every = stn.get_full_stations(), stn.get_mini_stations(), stn.get_all_stations()
        check([s.id for s in every] == [s.id for s in full] + [s.id for s in mini], 'list of all stations')
        full.append(1); every.append(1)
        check(1 not in stn.get_full_stations() and 1 not in stn.get_all_stations(), 'lists of stations are shared')
        s = [stn.lwa1, stn.lwasv, stn.lwana][int(r.integers(3))]
        n = {'VL': 256, 'SV': 256, 'NA': 64}[s.id]
        check(len(s.antennas) == 2*n and sorted({a.stand.id for a in s.antennas}) == list(range(1, n + 1)), 'stands of %s', s.name)
        check([a.digitizer for a in s.antennas] == list(range(1, 2*n + 1)), 'digitizers of %s', s.name)
        t = copy.deepcopy(s)
        check(all((x.id, x.stand.xyz, x.pol, x.status, x.cable.asp_atten_db, x.cable.delay(4e7)) == (y.id, y.stand.xyz, y.pol, y.status, y.cable.asp_atten_db, y.cable.delay(4e7)) for x, y in zip(s.antennas, t.antennas)), 'copy of %s', s.name)
    return True
