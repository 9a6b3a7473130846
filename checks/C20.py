"""C20: interferometer definition files say what was asked for, parse back to it, only valid ones are made, and the
session definition files made from them set up the same scans at every station."""
import warnings, logging, os, math, ephem, re
import numpy as np
from datetime import datetime, timedelta, timezone
from vlib.core import *
from vlib.obs import *
from hypothesis import strategies as st
from astropy.coordinates import Angle as AAngle
from lsl.common import idf, sdf, stations
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

ALL = {s.id: s for s in stations.get_all_stations() + [stations.ovrolwa]}
SOLAR = dict(TRK_SOL=ephem.Sun, TRK_JOV=ephem.Jupiter)
INTENTS = ['FluxCal', 'PhaseCal', 'Target', 'dummy']

def pm_of(r):
    return [0.0, 0.0] if r.integers(2) else [round(float(v), 1) for v in r.uniform(-900, 900, 2)]

def unit(ra, dec):
    a, d = ra*math.pi/12, math.radians(dec)
    return np.array([math.cos(d)*math.cos(a), math.cos(d)*math.sin(a), math.sin(d)])

def separation(a, b):
    return math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b)))

def apparent(body, sites, t):
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.pressure = sites[0].lat, sites[0].lon, sites[0].elev, 0
    o.date = ephem.Date(t.replace(tzinfo=None))
    body.compute(o)
    return unit(float(body.ra)*12/math.pi, math.degrees(float(body.dec)))

def scan(r, t, ms, flt, sites):
    m = dict(target=text(r), intent=str(r.choice(INTENTS)), comments=text(r, 120) if r.integers(2) else None, start=t, dur=ms, filter=flt, gain=int(r.integers(-1, 15)),
             asp=-1 if r.integers(2) else int(r.integers(0, 6)), pm=[0.0, 0.0], alt=[])
    ok = True
    f1 = edge(r, 10.2e6, 87.9e6, [DRX_MIN*FS/2**32, DRX_MAX*FS/2**32], [(DRX_MIN-1)*FS/2**32, (DRX_MAX+1)*FS/2**32, 0.0, 93e6, 3e6])
    f2 = edge(r, 10.2e6, 87.9e6, [DRX_MIN*FS/2**32, DRX_MAX*FS/2**32, 0.0], [(DRX_MIN-1)*FS/2**32, (DRX_MAX+1)*FS/2**32, 95e6])
    m['w1'], m['w2'] = word(f1), word(f2)
    ok &= DRX_MIN <= m['w1'] <= DRX_MAX and (DRX_MIN <= m['w2'] <= DRX_MAX or m['w2'] == 0)
    ok &= 1 <= flt <= 7 and ms >= 1
    kind = str(r.choice(['DRX', 'DRX', 'DRX', 'Solar', 'Jovian']))
    if kind != 'DRX' and not WILD[0] and not visible(dict(Solar=ephem.Sun, Jovian=ephem.Jupiter)[kind](), sites, t, ms):
        kind = 'DRX'
    m['mode'] = dict(DRX='TRK_RADEC', Solar='TRK_SOL', Jovian='TRK_JOV')[kind]
    s = fmt_start(r, t)
    if kind == 'DRX':
        ra, dec = edge(r, 0, 23.99, [0.0, 6.0]), r.uniform(-60, 88) if wild(r, 0.5) else r.uniform(60, 88)
        m.update(ra=ra, dec=dec, pm=pm_of(r))
        o = idf.DRX(m['target'], m['intent'], s, fmt_dur(r, ms), fmt_ra(r, ra), fmt_deg(r, dec), fmt_freq(r, f1), fmt_freq(r, f2), flt, gain=m['gain'],
                    pm=tuple(m['pm']) if r.integers(2) else list(m['pm']), comments=m['comments'])
        body = fixed(ra, dec)
    else:
        o = getattr(idf, kind)(m['target'], m['intent'], s, fmt_dur(r, ms), fmt_freq(r, f1), fmt_freq(r, f2), flt, gain=m['gain'], comments=m['comments'])
        body = SOLAR[m['mode']]()
    ok &= visible(body, sites, t, ms)
    o.asp_filter = m['asp']
    if r.integers(2):
        lim = 74e6/max(1.0, m['w1']*FS/2**32, m['w2']*FS/2**32)
        body.compute(ephem.Date(t.replace(tzinfo=None)))
        if kind != 'DRX':
            ra, dec = float(body.a_ra)*12/math.pi, math.degrees(float(body.a_dec))
        n = int(r.choice([10, 11])) if WILD[0] and r.uniform() < 0.1 else (10 if r.uniform() < 0.05 else int(r.integers(1, 4)))
        ok &= n <= 10
        for k in range(n):
            d = min(20.0, lim*(r.uniform(1.0, 1.3) if wild(r, 0.1) else r.uniform(0, 0.95)))
            pa = r.uniform(0, 2*math.pi)
            d2 = math.degrees(math.asin(math.sin(math.radians(dec))*math.cos(math.radians(d)) + math.cos(math.radians(dec))*math.sin(math.radians(d))*math.cos(pa)))
            r2 = (ra + math.degrees(math.atan2(math.sin(pa)*math.sin(math.radians(d))*math.cos(math.radians(dec)),
                                               math.cos(math.radians(d)) - math.sin(math.radians(dec))*math.sin(math.radians(d2))))/15) % 24
            if r2 > 23.999 or abs(d2) > 89:
                continue
            q = dict(target=text(r), intent=str(r.choice(INTENTS)), ra=r2, dec=d2, pm=pm_of(r))
            if r.integers(2):
                o.add_alt_phase_center(q['target'], q['intent'], fmt_ra(r, r2), fmt_deg(r, d2), pm=list(q['pm']))
            else:
                o.add_alt_phase_center(idf.AlternatePhaseCenter(q['target'], q['intent'], fmt_ra(r, r2), fmt_deg(r, d2), pm=tuple(q['pm'])))
            mid = t + timedelta(milliseconds=ms/2)
            pnt = SOLAR[m['mode']]() if kind != 'DRX' else fixed(ra, dec)
            sep = separation(apparent(pnt, sites, mid), apparent(fixed(r2, d2), sites, mid))
            if abs(sep - lim) < 0.05:
                raise Ambiguous()
            ok &= sep < lim and visible(fixed(r2, d2), sites, t, ms)
            m['alt'].append(q)
        if n > 10 and len(m['alt']) <= 10:
            raise Ambiguous()
    m['bytes'] = ms/1000*RATES.get(flt, 0.0)/4096*4128*4
    if abs(m['bytes'] - TB10) < 1e6:
        raise Ambiguous()
    ok &= m['bytes'] < TB10
    return o, m, ok

def compare(o, m, where):
    check((o.mjd, o.mpm) == mjdmpm(m['start']), where + ': start %s is not %s', (o.mjd, o.mpm), mjdmpm(m['start']))
    check(o.dur == m['dur'], where + ': duration %s is not %s', o.dur, m['dur'])
    check((o.mode, o.target, o.intent) == (m['mode'], m['target'], m['intent'].lower()), where + ': mode, target or intent')
    check((o.comments or 'None provided') == (m['comments'] or 'None provided'), where + ': comments %s', o.comments)
    check((o.freq1, o.freq2, o.filter) == (m['w1'], m['w2'], m['filter']), where + ': tunings or filter %s', (o.freq1, o.freq2, o.filter))
    check((o.gain, o.asp_filter) == (m['gain'], m['asp']), where + ': gain or ASP filter %s', (o.gain, o.asp_filter))
    if m['mode'] == 'TRK_RADEC':
        check(abs(o.ra - m['ra']) < 2e-9 and abs(o.dec - m['dec']) < 2e-9, where + ': coordinates %s %s', o.ra, o.dec)
        check(np.allclose(o.pm, m['pm'], atol=1e-9), where + ': proper motion %s', o.pm)
    check(len(o.alt_phase_centers) == len(m['alt']), where + ': number of alternate phase centers')
    for a, b in zip(o.alt_phase_centers, m['alt']):
        check((a.target, a.intent) == (b['target'], b['intent'].lower()), where + ': alternate target %s', a.target)
        check(abs(a.ra - b['ra']) < 2e-9 and abs(a.dec - b['dec']) < 2e-9, where + ': alternate coordinates %s %s', a.ra, a.dec)
        check(np.allclose(a.pm, b['pm'], atol=1e-9), where + ': alternate proper motion %s', a.pm)

def raw(txt):
    head, obs = {}, []
    for l in txt.split('\n'):
        if not l.strip():
            continue
        k, v = (l.split(None, 1) + [''])[:2]
        if k == 'SCAN_ID':
            obs.append({})
        (obs[-1] if obs else head)[k] = v
    return head, obs

def moved(ra, dec, pm, t):
    mjd, mpm = mjdmpm(t)
    y = (mjd + mpm/86400e3 - 51544.5)/365.25
    return (ra + y*pm[0]/math.cos(math.radians(dec))/3.6e6/15) % 24, dec + y*pm[1]/3.6e6

def near(a, b, d):
    return abs((a - b + 12) % 24 - 12)*15*math.cos(math.radians(d)) < 2e-8

case = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), n=st.integers(1, 4), wild=st.booleans(), gap=st.sampled_from([0, 0, 1, 1000, -1, 5000]), order=st.booleans(),
                                  long=st.integers(0, 4).map(lambda k: k == 0), bad=st.integers(0, 24)))

@part('run', case, quick=1200, thorough=20000, rule='valid run of two or more scans, written, read back and turned into session definition files', seconds=240, shards=4)
def run(c):
    r = rng(c['seed'])
    WILD[0] = c['wild']
    if not c['wild']:
        c = dict(c, bad=99, gap=max(0, c['gap']))
    ok = True
    names = [str(v) for v in r.permutation(list(ALL))[:int(r.integers(2, len(ALL)+1))]]
    sites = [ALL[k] for k in names]
    t = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 6000)), milliseconds=int(r.integers(0, 86400000)))
    if r.uniform() < 0.05:
        t = datetime(*[(2012, 6, 30), (2015, 6, 30), (2016, 12, 31)][int(r.integers(3))], tzinfo=timezone.utc) + timedelta(milliseconds=int(r.integers(0, 86400000)))
    flt = int(r.choice([0, 8])) if wild(r, 0.04) else int(r.integers(1, 8))
    obs = []
    try:
        for k in range(c['n']):
            ms = int(10**r.uniform(3, 6.5)) if not (c['long'] and r.integers(3) == 0) else int(r.uniform(1e5, 1.6e8 if c['n'] < 3 else 4e7))
            if wild(r, 0.04):
                ms = int(r.integers(0, 2))
            f = flt
            if wild(r, 0.04):
                f = flt % 7 + 1
            o, m, good = scan(r, t, ms, f, sites)
            ok &= good
            obs.append((o, m))
            t = t + timedelta(milliseconds=m['dur'] + (c['gap'] if c['gap'] >= 0 or m['dur'] > 1 else 0))
    except Ambiguous:
        raise Reject()
    if c['gap'] < 0 and c['n'] > 1 and any(m['dur'] > 1 for o, m in obs[:-1]):
        ok = False
    ok &= len({m['filter'] for o, m in obs}) == 1
    total = sum(m['bytes'] for o, m in obs)
    if abs(total - TB10) < 1e6:
        raise Reject()
    ok &= total < TB10
    if c['order']:
        obs = [obs[k] for k in r.permutation(len(obs))]
    sm = dict(id=int(r.choice([1, 9999, r.integers(1, 10000)])), name=text(r), comments=text(r, 200) if r.integers(2) else None, ret=str(r.choice(['UCF', 'DRSU', 'USB Harddrives'])),
              user=str(r.choice(['jdoe', 'a_b/sub/dir-1', 'x9'])) if r.integers(2) else None, chan=int(r.choice([16, 32768, 2*r.integers(8, 16385)])),
              int=round(float(r.choice([0.1, 10.0, r.uniform(0.1, 10)])), 3), basis=str(r.choice(['linear', 'circular', 'stokes'])))
    pid = text(r, 9).replace(' ', '') or 'LX001'
    if c['bad'] == 0:
        sm['id'] = int(r.choice([0, 10000]))
        ok = False
    elif c['bad'] == 1:
        pid = 'LX0000001'
        ok = False
    elif c['bad'] == 2:
        sites = sites + [sites[0]]
        ok = False
    run = idf.Run(sm['name'], sm['id'], [o for o, m in obs] if r.integers(2) else None, data_return_method=sm['ret'], comments=sm['comments'],
                  correlator_channels=sm['chan'], correlator_inttime=sm['int'], correlator_basis=sm['basis'], stations=sites)
    if not run.scans:
        for o, m in obs:
            run.append(o)
    check(len(run.scans) == len(obs), 'scans were lost')
    run.ucf_username = sm['user']
    po = idf.ProjectOffice(project=text(r) if r.integers(2) else None, runs=[text(r)] if r.integers(2) else None)
    pos = po.runs[0] if po.runs else None
    pm = dict(name=text(r), comments=text(r, 200) if r.integers(2) else None)
    pi = ('Doe, Jane', int(r.integers(0, 1000)))
    proj = idf.Project(idf.Observer(*pi), pm['name'], pid, runs=[run], comments=pm['comments'], project_office=po)
    v = proj.validate()
    check(v == ok, 'validate() gives %s for a run which is %s', v, 'valid' if ok else 'not valid')
    fn = os.path.join(tmpdir(), 'a.idf')
    if not ok:
        for fnc in (lambda: proj.writeto(fn), proj.generate_sdfs):
            try:
                fnc()
            except (RuntimeError, IndexError, ValueError):
                continue
            check(False, 'a definition file was made for an invalid run')
        check(not os.path.exists(fn), 'a file was written for an invalid run')
        return False
    made = proj.generate_sdfs(starting_session_id=7) if r.integers(2) else None
    proj.writeto(fn)
    txt = open(fn).read()
    check(proj.render() == txt, 'rendering again gives another file')
    try:
        proj.writeto(fn)
    except RuntimeError:
        pass
    else:
        check(False, 'an existing file was overwritten')
    check(open(fn).read() == txt, 'an existing file was changed')
    obs.sort(key=lambda q: q[1]['start'])
    model = [m for o, m in obs]
    head, rows = raw(txt)
    check(len(rows) == len(model), 'number of scans in the file')
    for k, (row, m) in enumerate(zip(rows, model)):
        mjd, mpm = mjdmpm(m['start'])
        check((row['SCAN_ID'], row['SCAN_START_MJD'], row['SCAN_START_MPM'], row['SCAN_DUR'], row['SCAN_MODE']) == (str(k+1), str(mjd), str(mpm), str(m['dur']), m['mode']),
              'start, duration or mode of scan %s in the file', k+1)
        check((int(row['SCAN_FREQ1']), int(row['SCAN_FREQ2']), int(row['SCAN_BW'])) == (m['w1'], m['w2'], m['filter']), 'tunings in the file')
        check(int(row.get('SCAN_ALT_N', 0)) == len(m['alt']) and int(row.get('SCAN_DRX_GAIN', -1)) == m['gain'] and int(row.get('SCAN_ASP_FLT', -1)) == m['asp'], 'settings in the file')
        if m['mode'] == 'TRK_RADEC':
            check(abs(float(row['SCAN_RA']) - m['ra']) < 2e-9 and abs(float(row['SCAN_DEC']) - m['dec']) < 2e-9, 'SCAN_RA or SCAN_DEC')
    check(head['PI_ID'] == str(pi[1]) and head['PROJECT_ID'] == pid and head['RUN_ID'] == str(sm['id']) and head['RUN_STATIONS'] == ','.join(names), 'IDs in the file')
    check((int(head['RUN_CHANNELS']), float(head['RUN_INTTIME']), head['RUN_BASIS']) == (sm['chan'], sm['int'], sm['basis']), 'correlator set-up in the file')
    p = None
    for k in range(2):
        p = idf.parse_idf(fn)
        s = p.runs[0]
        check(p.observer.name == pi[0] and p.observer.id == pi[1], 'observer')
        check((p.id, p.name, p.comments) == (pid, pm['name'], pm['comments'] or 'None provided'), 'project %s', (p.id, p.name, p.comments))
        check((p.project_office.project if p.project_office.project != 'None' else None) == po.project, 'project office comments')
        check((p.project_office.runs[0] or None) == pos, 'project office run comments %s', p.project_office.runs[0])
        check((s.id, s.name, s.dataReturnMethod, s.ucf_username) == (sm['id'], sm['name'], sm['ret'], sm['user']), 'run: %s', (s.id, s.name, s.dataReturnMethod, s.ucf_username))
        check((s.correlator_channels, s.correlator_inttime, s.correlator_basis) == (sm['chan'], sm['int'], sm['basis']), 'correlator set-up')
        check([q.id for q in s.stations] == names, 'stations %s', [q.id for q in s.stations])
        com = re.sub(r'^ucfuser:[^;]*(;;|$)', '', s.comments)
        check(com == (sm['comments'] or ('' if sm['user'] else 'None provided')), 'run comments %s', s.comments)
        check(len(s.scans) == len(model), 'number of scans')
        for n, (o, m) in enumerate(zip(s.scans, model)):
            compare(o, m, f'scan {n+1}')
            a, b = idf.get_scan_start_stop(o)
            check(a == m['start'] and b == m['start'] + timedelta(milliseconds=m['dur']), 'start and stop %s %s', a, b)
        check(idf.is_valid(fn), 'the file is not valid')
        new = p.render()
        with open(fn, 'w') as fh:
            fh.write(new)
    bad = [('SCAN_BW ', '8'), ('SCAN_FREQ1 ', str(DRX_MAX+1)), ('SCAN_DUR ', '0'), ('RUN_ID ', '0'), ('SCAN_INTENT ', 'other'), ('RUN_BASIS ', 'xy'), ('RUN_CHANNELS ', '15'), ('RUN_STATIONS ', names[0])]
    key, val = bad[int(r.integers(len(bad)))]
    with open(fn, 'w') as fh:
        fh.write(re.sub('^' + key + '.*$', key + '   ' + val, txt, flags=re.M))
    check(not idf.is_valid(fn), 'a file with %s of %s is taken as valid', key, val)
    for src, which in ((p, 'read'), (proj, 'new')) if made is None else ((p, 'read'), (None, 'made')):
        out = made if src is None else src.generate_sdfs(starting_session_id=7)
        check(len(out) == len(names), 'number of session definition files')
        for k, (q, name) in enumerate(zip(out, names)):
            w = f'SDF {k+1} ({which})'
            s = q.sessions[0]
            check(s.id == 7 + k and s.station.id == name and q.id == pid and (q.observer.name, q.observer.id) == pi, w + ': IDs')
            check(s.drx_beam == 1 and s.data_return_method == 'UCF', w + ': beam or data return method')
            st0 = model[0]['start']
            check(s.ucf_username == f"eLWA/{pid}_{st0:%y%m%d}_{st0:%H%M}_{sm['id']:04d}", w + ': user name %s', s.ucf_username)
            po = q.project_office.sessions[0]
            check(po.startswith(f"corrchannels:{sm['chan']};;corrinttime:{sm['int']:.3f};;corrbasis:{sm['basis']};;origuser:{sm['user']};;origreturn:{sm['ret'].lower()};;"), w + ': correlator set-up %s', po)
            check(len(s.observations) == len(model), w + ': number of observations')
            for n, (o, m) in enumerate(zip(s.observations, model)):
                check((o.mjd, o.mpm) == mjdmpm(m['start']) and o.dur == m['dur'], w + ': start or duration')
                check((o.mode, o.target, o.name) == (m['mode'], m['target'], m['intent'].lower()), w + ': mode, target or name')
                check((o.freq1, o.freq2, o.filter, o.gain) == (m['w1'], m['w2'], m['filter'], m['gain']), w + ': tunings, filter or gain')
                check(all(v == m['asp'] for v in o.asp_filter), w + ': ASP filter %s', o.asp_filter[:3])
                if m['comments']:
                    check((o.comments or '').startswith(m['comments']), w + ': comments %s', o.comments)
                if m['mode'] == 'TRK_RADEC':
                    ra, dec = moved(m['ra'], m['dec'], m['pm'], m['start'])
                    check(near(o.ra, ra, dec) and abs(o.dec - dec) < 2e-8, w + ': pointing at %s %s, not %s %s', o.ra, o.dec, ra, dec)
                pc = q.project_office.observations[0][n] or ''
                for j, a in enumerate(m['alt']):
                    ra, dec = moved(a['ra'], a['dec'], a['pm'], m['start'])
                    pre = f"alttarget{j+1}:{a['target']};;altintent{j+1}:{a['intent'].lower()};;altra{j+1}:"
                    check(pc.startswith(pre), w + ': alternate phase center %s in %s', pre, pc)
                    g = re.match(r'([0-9.]+);;altdec%d:([-+0-9.]+);;' % (j+1), pc[len(pre):])
                    check(g is not None and near(float(g.group(1)), ra, dec) and abs(float(g.group(2)) - dec) < 2e-8, w + ': alternate coordinates %s', pc)
                    pc = pc[len(pre) + g.end():]
            if k == int(r.integers(len(names))):
                check(q.validate(), w + ': not valid')
                fs = fn + '.sdf'
                q.writeto(fs, overwrite=True)
                b = sdf.parse_sdf(fs).sessions[0].observations
                check([(o.mjd, o.mpm, o.dur, o.freq1, o.freq2, o.filter) for o in b] == [(*mjdmpm(m['start']), m['dur'], m['w1'], m['w2'], m['filter']) for m in model], w + ': written and read back')
    return len(obs) > 1

limit = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), kind=st.sampled_from(['ra', 'dec', 'corr', 'list', 'alt', 'update', 'pm'])))

def refused(fn, *exc):
    try:
        fn()
    except exc:
        return True
    return False

@part('limits', limit, quick=250, thorough=4000, rule='every case', seconds=100)
def limits(c):
    """Values at and beyond the limits of each setting, and settings changed after a scan was made."""
    r = rng(c['seed'])
    t = 'UTC 2015/06/07 08:09:10.000'
    def drx(ra=3.0, dec=80.0, dur='00:10:00', f1=40e6, f2=60e6, flt=7):
        return idf.DRX('t', 'target', t, dur, ra, dec, f1, f2, flt)
    def apc(ra=3.0, dec=80.0):
        return idf.AlternatePhaseCenter('t', 'target', ra, dec)
    if c['kind'] == 'ra':
        for mk in (drx, apc):
            for v, ok in ((0.0, True), (-1e-6, False), (23.999999, True), (24.0, False), (r.uniform(24, 100), False), (r.uniform(0, 24), True)):
                for w in (v, ephem.hours(v*math.pi/12), AAngle(v, unit='hourangle')):
                    check(refused(lambda: mk(ra=w), ValueError) != ok, 'RA %s', v)
                    o = mk()
                    check(refused(lambda: setattr(o, 'ra', w), ValueError) != ok, 'RA %s', v)
                    check(abs(o.ra - (v if ok else 3.0)) < 1e-9, 'RA is %s', o.ra)
    elif c['kind'] == 'dec':
        for mk in (drx, apc):
            for v, ok in ((90.0, True), (-90.0, True), (90.00001, False), (-90.00001, False), (r.uniform(-90, 90), True)):
                for w in (v, AAngle(v, unit='deg')):
                    check(refused(lambda: mk(dec=w), ValueError) != ok, 'dec. %s', v)
                    o = mk()
                    check(refused(lambda: setattr(o, 'dec', w), ValueError) != ok, 'dec. %s', v)
                    check(abs(o.dec - (v if ok else 80.0)) < 1e-9, 'dec. is %s', o.dec)
    elif c['kind'] == 'corr':
        run = idf.Run('s', 1, [drx()])
        for v in [0, 2, 14, 15, 16, 17, 32768, 32767, 32769, 32770] + [int(x) for x in r.integers(0, 70000, 30)]:
            ok = 16 <= v <= 32768 and v % 2 == 0
            check(refused(lambda: setattr(run, 'correlator_channels', v), ValueError) != ok, 'channels %s', v)
            check(not ok or run.correlator_channels == v, 'channels %s', v)
        for v in [0.0, 0.1, 0.0999, 10.0, 10.001, -1.0] + list(r.uniform(-2, 14, 20)):
            ok = 0.1 <= v <= 10
            check(refused(lambda: setattr(run, 'correlator_inttime', v), ValueError) != ok, 'integration time %s', v)
            check(not ok or run.correlator_inttime == v, 'integration time %s', v)
        check(refused(lambda: setattr(run, 'correlator_basis', 'xx'), ValueError) and refused(lambda: setattr(run, 'data_return_method', 'mail'), ValueError), 'basis or return method')
        check(refused(lambda: setattr(run, 'stations', [stations.lwa1]), ValueError), 'one station')
        check(refused(lambda: setattr(run, 'stations', [stations.lwa1, 'SV']), TypeError), 'stations by name')
        check(len(run.stations) >= 2, 'stations')
    elif c['kind'] == 'list':
        run = idf.Run('s', 1, [drx()])
        check(refused(lambda: run.scans.append('x'), TypeError), 'append of a wrong type')
        check(refused(lambda: run.scans.extend([drx(), 'x']), TypeError), 'extend with a wrong type')
        check(refused(lambda: idf.Run('s', 1, [drx(), 7]), TypeError), 'run with a wrong type')
        check(len(run.scans) == 1, 'number of scans')
        check(refused(lambda: idf.Project('me', 'p', 'id'), TypeError), 'observer of a wrong type')
        check(refused(lambda: idf.DRX('t', 'other', t, 1.0, 3.0, 80.0, 40e6, 60e6, 7), ValueError), 'intent')
        check(refused(lambda: drx().alt_phase_centers.append('x'), TypeError), 'alternate phase center of a wrong type')
    elif c['kind'] == 'alt':
        # Scans do not share their phase centers, and the limit is ten of them
        a, b = drx(), drx()
        n = int(r.integers(0, 13))
        for _ in range(n):
            a.add_alt_phase_center('x', 'target', 3.01, 80.1)
        check(len(a.alt_phase_centers) == n and len(b.alt_phase_centers) == 0, 'phase centers of another scan')
        check(a.validate() == (n <= 10) and b.validate(), 'a scan with %s alternate phase centers gives %s', n, a.validate())
        lim = 74e6/max(a.frequency1, a.frequency2)
        for f, good in ((0.97, True), (1.03, False)):
            b.alt_phase_centers.clear()
            b.add_alt_phase_center('x', 'target', 3.0, 80.0 - lim*f)
            check(b.validate() == good, 'a phase center at %s of the limit', f)
            b.frequency1 = 70e6
            check(b.validate() == (f*lim < 74/70), 'a phase center at %s deg. and 70 MHz', f*lim)
            b.frequency1 = 40e6
        b.frequency1 = b.frequency2 = 0.0
        check(not b.validate(), 'a scan without tunings is valid')
    elif c['kind'] == 'pm':
        for mk in (drx, apc):
            o = mk()
            v = [r.uniform(-1e3, 1e3), r.uniform(-1e3, 1e3)]
            o.pm = v
            check(list(o.pm) == v, 'proper motion')
            v[0] = 5.0
            check(o.pm[0] != 5.0 and mk().pm == [0.0, 0.0], 'proper motions are shared')
            o.pm = None
            check(list(o.pm) == [0.0, 0.0], 'proper motion')
            for w in ([1.0], [1.0, 2.0, 3.0], 4.0):
                check(refused(lambda: setattr(o, 'pm', w), ValueError), 'proper motion %s', w)
    else:
        o = drx()
        ms = int(10**r.uniform(0, 8))
        o.duration = fmt_dur(r, ms)
        check(o.dur == ms, 'duration %s is not %s', o.dur, ms)
        h, m, s = o.duration.split(':')
        check(round((int(h)*3600 + int(m)*60 + float(s))*1000) == ms and int(m) < 60 and float(s) < 60, 'duration %s of %s ms', o.duration, ms)
        f = r.uniform(10e6, 88e6)
        o.frequency1 = fmt_freq(r, f)
        o.frequency2 = fmt_freq(r, f/2 + 5e6)
        check(o.freq1 == word(f) and abs(o.frequency1 - f) < 0.03 and o.freq2 == word(f/2 + 5e6), 'tunings')
        w = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 6000)), milliseconds=int(r.integers(0, 86400000)))
        o.start = fmt_start(r, w)
        check((o.mjd, o.mpm) == mjdmpm(w), 'start %s', (o.mjd, o.mpm))
        o.start = o.start
        check((o.mjd, o.mpm) == mjdmpm(w), 'start %s', (o.mjd, o.mpm))
        o.update()
        check(abs(o.dataVolumeStation - ms/1000*4128*4*19.6e6/4096) <= 1e-9*o.dataVolumeStation, 'data volume')
        run = idf.Run('s', 1, [o], stations=[stations.lwa1, stations.lwasv])
        run.update()
        check(abs(o.dataVolume - 2*o.dataVolumeStation) <= 1e-9*o.dataVolume, 'total data volume')
    return True

rule = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), kind=st.sampled_from(['sky', 'sky', 'filter', 'vol', 'overlap', 'nalt', 'altsky', 'altsep', 'freq'])))

@part('rules', rule, quick=700, thorough=8000, rule='every case', seconds=100)
def rules(c):
    """Runs that are valid but for one thing, which is on either side of its limit."""
    r = rng(c['seed'])
    t0 = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 6000)), milliseconds=int(r.integers(0, 86400000)))
    names = [str(v) for v in r.permutation(list(ALL))[:int(r.integers(2, len(ALL)+1))]]
    sites = [ALL[k] for k in names]
    ok = True
    def drx(t, ms=10000, flt=7, ra=3.0, dec=85.0, f1=40e6, f2=60e6):
        return idf.DRX('t', 'target', t, ms/1000, ra, dec, f1, f2, flt)
    def up(dec, t, ms, good=True):
        for _ in range(60):
            ra = r.uniform(0, 23.99)
            try:
                if visible(fixed(ra, dec), sites, t, ms) == good:
                    return ra
            except Ambiguous:
                continue
        raise Reject()
    if c['kind'] == 'sky':
        # One of the scans has a target which, now and then, is down for one or all of the stations
        n = int(r.integers(1, 4))
        odd, how = int(r.integers(n)), int(r.integers(3))
        scans, t = [], t0
        for k in range(n):
            dec, ms = r.uniform(-30, 60), int(10**r.uniform(5.6, 7))
            if k == odd and how == 0:
                # rises or sets, or is up at some of the stations only
                for _ in range(200):
                    ra = r.uniform(0, 23.99)
                    try:
                        one = [visible(fixed(ra, dec), [s], t, ms) for s in sites]
                        both = visible(fixed(ra, dec), sites, t, ms)
                    except Ambiguous:
                        continue
                    if any(one) and not both:
                        break
                else:
                    raise Reject()
                ok = False
            else:
                ra = up(dec, t, ms, not (k == odd and how == 1))
                ok &= not (k == odd and how == 1)
            scans.append(drx(t, ms, 1, ra, dec))
            t = t + timedelta(milliseconds=ms)
    elif c['kind'] == 'filter':
        n = int(r.integers(2, 6))
        flts = [int(r.integers(1, 8))]*n
        if r.integers(4):
            k = int(r.integers(n))
            flts[k] = flts[k] % 7 + 1
            ok = False
        scans = [drx(t0 + timedelta(seconds=20*k), flt=f) for k, f in enumerate(flts)]
    elif c['kind'] == 'vol':
        # as many bytes at each station as one recorder can hold, or not
        n, flt = int(r.integers(1, 5)), int(r.integers(4, 8))
        rate = 4128*4*RATES[flt]/4096
        total = TB10*float(r.choice([0.97, 0.9999, 1.0001, 1.03, 0.55, 1.7]))
        ok = total < TB10
        scans, t = [], t0
        for w in r.dirichlet(np.ones(n)*3):
            ms = int(1000*total/rate*w)
            if ms < 1 or ms > 8.6e8:
                raise Reject()
            scans.append(idf.DRX('t', 'target', t, timedelta(milliseconds=ms), 3.0, 85.0, 40e6, 60e6, flt))
            t = t + timedelta(milliseconds=ms)
    elif c['kind'] == 'overlap':
        n = int(r.integers(2, 6))
        spans, t = [], t0
        for k in range(n):
            ms = 2*int(r.integers(5, 5000))
            spans.append([t, ms])
            t = t + timedelta(milliseconds=ms + int(r.choice([0, 0, 1, 7000])))
        if r.integers(2):
            a, b = [int(v) for v in r.choice(n, 2, replace=False)]
            s, ms = spans[a]
            spans[b][0] = s + timedelta(milliseconds=[0, ms - 1, ms//2, 1, ms][int(r.integers(5))])
        ok = all(a[0] + timedelta(milliseconds=a[1]) <= b[0] or b[0] + timedelta(milliseconds=b[1]) <= a[0] for i, a in enumerate(spans) for b in spans[:i])
        scans = [drx(*spans[k]) for k in r.permutation(n)]
    elif c['kind'] == 'nalt':
        scans = [drx(t0 + timedelta(seconds=20*k)) for k in range(int(r.integers(1, 4)))]
        n = int(r.integers(8, 13))
        o = scans[int(r.integers(len(scans)))]
        for k in range(n):
            o.add_alt_phase_center('x', 'target', 3.0 + k/100, 85.0 + k/100)
        ok = n <= 10
    elif c['kind'] == 'altsky':
        # The pointing is up; the alternate phase center need not be
        ms, dec, f, want = int(10**r.uniform(4, 6)), r.uniform(-20, 50), 10.3e6, bool(r.integers(4) == 0)
        for _ in range(600):
            ra = r.uniform(0, 23.99)
            d2, r2 = dec + r.uniform(-5, 5), (ra + r.uniform(-4, 4)/15) % 24
            try:
                if visible(fixed(ra, dec), sites, t0, ms):
                    good = visible(fixed(r2, d2), sites, t0, ms)
                    if good == want:
                        break
            except Ambiguous:
                continue
        else:
            raise Reject()
        mid = t0 + timedelta(milliseconds=ms/2)
        sep = separation(apparent(fixed(ra, dec), sites, mid), apparent(fixed(r2, d2), sites, mid))
        if sep > 74/10.3 - 0.1:
            raise Reject()
        scans = [drx(t0, ms, 1, ra, dec, f, 0.0 if r.integers(2) else 10.25e6)]
        for _ in range(int(r.integers(0, 3))):
            scans[0].add_alt_phase_center('x', 'target', ra, dec)
        scans[0].add_alt_phase_center('y', 'phasecal', r2, d2)
        ok = good
    elif c['kind'] == 'altsep':
        # The higher of the two tunings sets how far away the phase centers may be
        f = [r.uniform(12e6, 87e6), r.uniform(12e6, 87e6)]
        lim = 74e6/max(f)
        n = int(r.integers(1, 5))
        dec = [85.0 - lim*r.uniform(0, 0.9) for _ in range(n)]
        odd = int(r.integers(n))
        x = float(r.choice([0.9, 0.97, 1.03, 1.2, max(f)/min(f)*0.95]))
        dec[odd] = 85.0 - lim*x
        if abs(x - 1) < 0.02:
            raise Reject()
        try:
            ok = x < 1 and visible(fixed(3.0, dec[odd]), sites, t0, 10000)
            for v in dec:
                ok &= visible(fixed(3.0, v), sites, t0, 10000)
        except Ambiguous:
            raise Reject()
        scans = [drx(t0, f1=f[0], f2=f[1])]
        for v in dec:
            scans[0].add_alt_phase_center('y', 'phasecal', 3.0, v)
    else:
        n = int(r.integers(1, 4))
        k, which, w = int(r.integers(n)), int(r.integers(2)), int(r.choice([DRX_MIN-1, DRX_MIN, DRX_MAX, DRX_MAX+1, 0, 2**31]))
        fs = [[40e6, 60e6] for _ in range(n)]
        fs[k][which] = w*FS/2**32
        ok = DRX_MIN <= w <= DRX_MAX or (w == 0 and which == 1)
        scans = [drx(t0 + timedelta(seconds=20*j), f1=a, f2=b) for j, (a, b) in enumerate(fs)]
    label(c['kind'] + ('' if ok else ' invalid'))
    if r.integers(2):
        scans = [scans[k] for k in r.permutation(len(scans))]
    run = idf.Run('s', int(r.integers(1, 10000)), scans, stations=sites)
    check(run.validate() == ok, '%s: a run which is %s gives %s', c['kind'], 'valid' if ok else 'not valid', not ok)
    proj = idf.Project(idf.Observer('Doe, Jane', 1), 'p', 'LX001', runs=[run])
    check(proj.validate() == ok, '%s: a project which is %s gives %s', c['kind'], 'valid' if ok else 'not valid', not ok)
    fn = os.path.join(tmpdir(), 'a.idf')
    if ok:
        proj.writeto(fn)
        check(idf.is_valid(fn), 'a file written is not valid')
    else:
        check(refused(lambda: proj.writeto(fn), RuntimeError, ValueError, IndexError) and not os.path.exists(fn), '%s: a file was written for an invalid run', c['kind'])
        check(refused(proj.generate_sdfs, RuntimeError, ValueError, IndexError), '%s: session definition files were made for an invalid run', c['kind'])
    return True
