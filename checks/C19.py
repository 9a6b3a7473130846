"""C19: session definition files say what the observer asked for, parse back to it, and only valid ones are made."""
import warnings, logging, os, math, ephem, re
import numpy as np
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from vlib.core import *
from vlib.obs import *
from hypothesis import strategies as st
from astropy.time import Time as ATime
from astropy.coordinates import Angle as AAngle
import astropy.units as u
from lsl.common import sdf, stations
from lsl.common.mcs import LWA_MAX_NSTD, MAX_STP_N
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

def arx(r, o, m):
    """FEE and ASP settings; returns whether they are valid."""
    n = LWA_MAX_NSTD
    ok = True
    m['fee'] = [[-1, -1] for _ in range(n)]
    for k in ('flt', 'at1', 'at2', 'at3'):
        m[k] = [-1]*n
    if r.uniform() < 0.5:
        return True
    how = int(r.integers(4))
    if how == 0:
        v = [int(r.integers(-1, 2)), int(r.integers(-1, 2))]
        m['fee'] = [list(v) for _ in range(n)]
    elif how == 1:
        for _ in range(5):
            m['fee'][int(r.integers(n))][int(r.integers(2))] = int(r.integers(0, 2))
    elif how == 2 and wild(r, 0.4):
        m['fee'][int(r.integers(n))][int(r.integers(2))] = int(r.choice([-2, 2]))
        ok = False
    for key, top in (('flt', 7), ('at1', 15), ('at2', 15), ('at3', 31)):
        w = r.uniform()
        if w < 0.3:
            m[key] = [int(r.integers(0, top+1))]*n
        elif w < 0.6:
            for _ in range(4):
                m[key][int(r.integers(n))] = int(r.choice([0, top, r.integers(0, top+1)]))
        elif wild(r, 0.06):
            m[key][int(r.integers(n))] = int(r.choice([-2, top+1]))
            ok = False
    o.fee_power = [list(v) for v in m['fee']]
    o.asp_filter, o.asp_atten_1, o.asp_atten_2, o.asp_atten_3 = [list(m[k]) for k in ('flt', 'at1', 'at2', 'at3')]
    return ok

def observation(r, kind, t, ms, sites, spc):
    """An observation, the model of it, and whether it is valid."""
    m = dict(kind=kind, name=text(r), target=text(r), comments=text(r, 120) if r.integers(2) else None, start=t, dur=ms, gain=-1, bdm=None, high=False)
    ok = True
    s = fmt_start(r, t)
    f1 = edge(r, 10.2e6, 87.9e6, [DRX_MIN*FS/2**32, DRX_MAX*FS/2**32], [(DRX_MIN-1)*FS/2**32, (DRX_MAX+1)*FS/2**32, 0.0, 93e6, 3e6, 93.01e6])
    f2 = edge(r, 10.2e6, 87.9e6, [DRX_MIN*FS/2**32, DRX_MAX*FS/2**32, 0.0], [(DRX_MIN-1)*FS/2**32, (DRX_MAX+1)*FS/2**32, 95e6])
    w1, w2 = word(f1), word(f2)
    drxf = DRX_MIN <= w1 <= DRX_MAX and (DRX_MIN <= w2 <= DRX_MAX or w2 == 0)
    flt = int(r.choice([0, 8])) if wild(r, 0.05) else int(r.integers(1, 8))
    rate = RATES.get(flt, 0.0)
    drate = 4128*4*rate/4096
    if spc[0] and spc[1]:
        drate = (76 + spc[0]*2*(4 if spc[2] == '{Stokes=IQUV}' else 2)*4)*rate/(spc[0]*spc[1])
    if kind == 'TBT':
        n = int(edge(r, 1, 392000000, [392000000, 1], [392000001]))
        o = sdf.TBT(m['name'], m['target'], s, n, comments=m['comments'])
        m.update(mode='TBT', samples=n, dur=int(round((n/196000 + 1)*150 + 5000)))
        ok &= n <= 392000000
        m['bytes'] = n/8192*192*(28 + 16*512)
    elif kind == 'TBS':
        flt = int(r.choice([7, 9])) if wild(r, 0.1) else 8
        if r.uniform() < 0.2:
            f1 = r.choice([TBS_MIN, TBS_MAX] + ([TBS_MIN-1, TBS_MAX+1] if WILD[0] else []))*FS/2**32
            w1 = word(f1)
        o = sdf.TBS(m['name'], m['target'], s, fmt_dur(r, ms), fmt_freq(r, f1), flt, comments=m['comments'])
        m.update(mode='TBS', filter=flt, w1=w1)
        ok &= TBS_MIN <= w1 <= TBS_MAX and flt == 8 and ms >= 1
        m['bytes'] = ms/1000*FS/8192*(32 + 8*512)
    elif kind == 'STEPPED':
        m.update(mode='STEPPED', filter=flt, radec=bool(r.integers(2)), gain=int(r.integers(-1, 15)))
        o = sdf.Stepped(m['name'], m['target'], s, flt, is_radec=m['radec'], gain=m['gain'], comments=m['comments'])
        steps, tt = [], t
        n = int(r.integers(1, 5))
        for k in range(n):
            f1, f2 = edge(r, 10.2e6, 87.9e6, [DRX_MIN*FS/2**32, DRX_MAX*FS/2**32], [(DRX_MIN-1)*FS/2**32, 0.0]), edge(r, 10.2e6, 87.9e6, [0.0], [(DRX_MAX+1)*FS/2**32])
            w1, w2 = word(f1), word(f2)
            d = int(r.integers(1, 8)) if wild(r, 0.08) else max(5, ms//n)
            radec = not m['radec'] if wild(r, 0.05) else m['radec']
            if radec:
                c1, c2 = edge(r, 0, 23.99, [0.0, 12.0]), r.uniform(-60, 89) if wild(r, 0.5) else edge(r, 60, 89, [90.0])
            else:
                c1, c2 = edge(r, 0, 359.9, [0.0, 180.0]), edge(r, 1, 90, [90.0])
            q = dict(c1=c1, c2=c2, dur=d, w1=w1, w2=w2, high=bool(r.integers(2)), delays=None, gains=None, radec=radec)
            if r.uniform() < 0.25:
                q['delays'] = [int(v) for v in r.integers(0, 65536, 2*LWA_MAX_NSTD)]
                q['gains'] = [[[int(v) for v in g] for g in st2] for st2 in r.integers(-32768, 32768, (LWA_MAX_NSTD, 2, 2))]
            bad = r.uniform() if WILD[0] else 1
            b = sdf.BeamStep(fmt_ra(r, c1) if radec else fmt_deg(r, c1), fmt_deg(r, c2), fmt_dur(r, d), fmt_freq(r, f1), fmt_freq(r, f2), is_radec=radec, high_dr=q['high'],
                             spec_delays=q['delays'], spec_gains=q['gains'])
            if q['delays'] is not None and bad < 0.15:
                b.delays = b.delays[:-1]
                ok = False
            elif q['delays'] is not None and bad < 0.25:
                b.gains = None
                ok = False
            ok &= d >= 5 and DRX_MIN <= w1 <= DRX_MAX and (DRX_MIN <= w2 <= DRX_MAX or w2 == 0) and radec == m['radec']
            if radec:
                ok &= visible(fixed(c1, c2), sites, tt, d)
            o.append(b)
            steps.append(q)
            tt = tt + timedelta(milliseconds=d)
        m['steps'] = steps
        m['dur'] = sum(q['dur'] for q in steps)
        ok &= 1 <= flt <= 7
        m['bytes'] = m['dur']/1000*drate
    else:
        m.update(mode=dict(DRX='TRK_RADEC', Solar='TRK_SOL', Jovian='TRK_JOV', Lunar='TRK_LUN')[kind], filter=flt, w1=w1, w2=w2,
                 gain=int(r.integers(-1, 15)), high=bool(r.integers(2)))
        kw = dict(gain=m['gain'], high_dr=m['high'], comments=m['comments'])
        if kind == 'DRX':
            ra, dec = edge(r, 0, 23.99, [0.0, 6.0]), r.uniform(-60, 89) if wild(r, 0.5) else edge(r, 60, 89, [90.0])
            o = sdf.DRX(m['name'], m['target'], s, fmt_dur(r, ms), fmt_ra(r, ra), fmt_deg(r, dec), fmt_freq(r, f1), fmt_freq(r, f2), flt, **kw)
            m.update(ra=ra, dec=dec)
            body = fixed(ra, dec)
        else:
            o = getattr(sdf, kind)(m['name'], m['target'], s, fmt_dur(r, ms), fmt_freq(r, f1), fmt_freq(r, f2), flt, **kw)
            body = dict(Solar=ephem.Sun, Jovian=ephem.Jupiter, Lunar=ephem.Moon)[kind]()
        ok &= drxf and 1 <= flt <= 7 and ms >= 1 and visible(body, sites, t, ms)
        m['bytes'] = ms/1000*drate
    if kind in ('DRX', 'Solar', 'STEPPED') and r.uniform() < 0.25 and not (kind == 'STEPPED' and any(q['delays'] for q in m['steps'])):
        stand, bg, dg, pol = int(r.integers(1, 257)), round(r.uniform(0, 1), 4), round(r.uniform(0, 1), 4), str(r.choice(['X', 'Y', 'x']))
        dig = [a.digitizer for a in stations.lwa1.antennas if a.stand.id == stand]
        if dig:
            o.set_beamdipole_mode(stand, bg, dg, pol)
            m['bdm'] = [(min(dig)+1)//2, bg, dg, pol.upper()]
    ok &= arx(r, o, m)
    if abs(m['bytes'] - TB10) < 1e6:
        raise Ambiguous()
    ok &= m['bytes'] < TB10
    return o, m, ok

def raw(txt):
    """An independent reading of the file: the session keywords and a list of observations."""
    head, obs = {}, []
    for l in txt.split('\n'):
        if not l.strip():
            continue
        k, v = (l.split(None, 1) + [''])[:2]
        if k == 'OBS_ID':
            obs.append({})
        (obs[-1] if obs else head)[k] = v
    return head, obs

def compare_obs(o, m, where):
    mjd, mpm = mjdmpm(m['start'])
    check((o.mjd, o.mpm) == (mjd, mpm), where + ': start %s is not %s', (o.mjd, o.mpm), (mjd, mpm))
    check(o.dur == m['dur'], where + ': duration %s is not %s', o.dur, m['dur'])
    check(o.mode == m['mode'] and o.name == m['name'] and o.target == m['target'], where + ': mode, name or target')
    check((o.comments or 'None provided') == (m['comments'] or 'None provided'), where + ': comments %s', o.comments)
    if m['mode'] == 'TBT':
        check(o.samples == m['samples'], where + ': samples')
    else:
        check(o.filter == m['filter'], where + ': filter')
    if m['mode'] not in ('TBT', 'STEPPED'):
        check(o.freq1 == m['w1'], where + ': tuning 1 %s is not %s', o.freq1, m['w1'])
    if m['mode'].startswith('TRK'):
        check(o.freq2 == m['w2'], where + ': tuning 2 %s is not %s', o.freq2, m['w2'])
        check(bool(o.high_dr) == m['high'], where + ': high DR is %s', o.high_dr)
        check(o.beam == ('HIGH_DR' if m['high'] else 'SIMPLE'), where + ': beam type')
    if m['mode'] not in ('TBT', 'TBS'):
        check(o.gain == m['gain'], where + ': gain %s is not %s', o.gain, m['gain'])
    if m['mode'] == 'TRK_RADEC':
        check(abs(o.ra - m['ra']) < 2e-9 and abs(o.dec - m['dec']) < 2e-9, where + ': coordinates %s %s', o.ra, o.dec)
    if m['mode'] == 'STEPPED':
        check(bool(o.is_radec) == m['radec'] and len(o.steps) == len(m['steps']), where + ': steps')
        for k, (a, b) in enumerate(zip(o.steps, m['steps'])):
            w = f'{where} step {k+1}'
            check(abs(a.c1 - b['c1']) < 2e-9 and abs(a.c2 - b['c2']) < 2e-9, w + ': coordinates %s %s', a.c1, a.c2)
            check((a.dur, a.freq1, a.freq2) == (b['dur'], b['w1'], b['w2']), w + ': duration or tunings %s', (a.dur, a.freq1, a.freq2))
            bt = 'SPEC_DELAYS_GAINS' if b['delays'] is not None else ('HIGH_DR' if b['high'] else 'SIMPLE')
            check(a.beam == bt, w + ': beam %s is not %s', a.beam, bt)
            check((a.delays is None) == (b['delays'] is None), w + ': delays')
            if b['delays'] is not None:
                check(list(a.delays) == b['delays'] and [[list(g) for g in q] for q in a.gains] == b['gains'], w + ': delays or gains')
    check((o.beamDipole is None) == (m['bdm'] is None), where + ': beam-dipole mode %s', o.beamDipole)
    if m['bdm']:
        check(int(o.beamDipole[0]) == m['bdm'][0] and abs(o.beamDipole[1] - m['bdm'][1]) < 6e-5 and abs(o.beamDipole[2] - m['bdm'][2]) < 6e-5
              and o.beamDipole[3] == m['bdm'][3], where + ': beam-dipole mode %s', o.beamDipole)
    for a, b in (('fee_power', 'fee'), ('asp_filter', 'flt'), ('asp_atten_1', 'at1'), ('asp_atten_2', 'at2'), ('asp_atten_3', 'at3')):
        got = [list(v) if b == 'fee' else v for v in getattr(o, a)]
        check(got == m[b], where + ': ' + a)

def compare_raw(d, m, where):
    mjd, mpm = mjdmpm(m['start'])
    check((d['OBS_START_MJD'], d['OBS_START_MPM'], d['OBS_DUR'], d['OBS_MODE']) == (str(mjd), str(mpm), str(m['dur']), m['mode']), where + ': start, duration or mode in the file')
    if m['mode'] not in ('TBT', 'STEPPED'):
        check(int(d['OBS_FREQ1']) == m['w1'], where + ': OBS_FREQ1')
    if m['mode'].startswith('TRK'):
        check(int(d['OBS_FREQ2']) == m['w2'] and d['OBS_B'] == ('HIGH_DR' if m['high'] else 'SIMPLE'), where + ': OBS_FREQ2 or OBS_B')
    if m['mode'] == 'TRK_RADEC':
        check(abs(float(d['OBS_RA']) - m['ra']) < 2e-9 and abs(float(d['OBS_DEC']) - m['dec']) < 2e-9, where + ': OBS_RA or OBS_DEC')
    if m['mode'] == 'STEPPED':
        check(int(d['OBS_STP_N']) == len(m['steps']) and int(d['OBS_STP_RADEC']) == m['radec'], where + ': OBS_STP_N')
        for k, q in enumerate(m['steps'], 1):
            check(abs(float(d[f'OBS_STP_C1[{k}]']) - q['c1']) < 2e-9 and abs(float(d[f'OBS_STP_C2[{k}]']) - q['c2']) < 2e-9 and int(d[f'OBS_STP_T[{k}]']) == q['dur']
                  and int(d[f'OBS_STP_FREQ1[{k}]']) == q['w1'] and int(d[f'OBS_STP_FREQ2[{k}]']) == q['w2'], where + ': step in the file')
            if q['delays'] is not None:
                n = int(q['w1']) % LWA_MAX_NSTD
                check(int(d[f'OBS_BEAM_DELAY[{k}][{2*n+1}]']) == q['delays'][2*n] and int(d[f'OBS_BEAM_GAIN[{k}][{n+1}][1][2]']) == q['gains'][n][0][1]
                      and int(d[f'OBS_BEAM_GAIN[{k}][{n+1}][2][1]']) == q['gains'][n][1][0], where + ': delays or gains in the file')
    if m['mode'] == 'TBT':
        check(int(d['OBS_TBT_SAMPLES']) == m['samples'], where + ': OBS_TBT_SAMPLES')
    else:
        check(int(d['OBS_BW']) == m['filter'], where + ': OBS_BW')
    if m['mode'] not in ('TBT', 'TBS'):
        check(int(d.get('OBS_DRX_GAIN', -1)) == m['gain'], where + ': OBS_DRX_GAIN')
    for key, b in (('OBS_ASP_FLT', 'flt'), ('OBS_ASP_AT1', 'at1'), ('OBS_ASP_AT2', 'at2'), ('OBS_ASP_AT3', 'at3')):
        got = [int(d.get(f'{key}[{n+1}]', d.get(f'{key}[0]', -1))) for n in range(LWA_MAX_NSTD)]
        check(got == m[b], where + ': ' + key)
    got = [[int(d.get(f'OBS_FEE[{n+1}][{p}]', d.get(f'OBS_FEE[0][{p}]', -1))) for p in (1, 2)] for n in range(LWA_MAX_NSTD)]
    check(got == m['fee'], where + ': OBS_FEE')
    check(('OBS_BDM' in d) == (m['bdm'] is not None), where + ': OBS_BDM')

case = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), n=st.integers(1, 5), group=st.sampled_from(['drx', 'drx', 'tb', 'tb', 'mixed']),
    order=st.booleans(), gap=st.sampled_from([0, 1, 5000, -1]), long=st.booleans(), sv=st.booleans(), spc=st.booleans(), bad=st.integers(0, 12), wild=st.booleans()))

@part('session', case, quick=1200, thorough=15000, rule='valid session of two or more observations, written and read back', seconds=240)
def session(c):
    r = rng(c['seed'])
    WILD[0] = c['wild']
    if not c['wild']:
        c = dict(c, bad=99, gap=max(0, c['gap']), group='drx' if c['group'] == 'mixed' else c['group'])
    site = stations.lwasv if c['sv'] else stations.lwa1
    sites = [stations.lwa1, stations.lwasv] if c['sv'] else [stations.lwa1]
    ok = True
    spc = (0, 0, None)
    if c['spc'] and c['group'] == 'drx':
        spc = (int(r.choice([2, 64, 1024, 8192])), int(r.choice([384, 768, 196608])), r.choice([None, '{Stokes=XXYY}', '{Stokes=IQUV}', '{Stokes=IV}']))
    kinds = dict(drx=['DRX', 'DRX', 'STEPPED', 'STEPPED'] + ['Solar', 'Jovian', 'Lunar'], tb=['TBT', 'TBS'], mixed=['DRX', 'TBS'])[c['group']]
    t = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 6000)), milliseconds=int(r.integers(0, 86400000)))
    if r.uniform() < 0.05:
        t = datetime(*[(2012, 6, 30), (2015, 6, 30), (2016, 12, 31)][int(r.integers(3))], tzinfo=timezone.utc) + timedelta(milliseconds=int(r.integers(0, 86400000)))
    obs = []
    try:
        for k in range(c['n']):
            ms = int(10**r.uniform(3, 6.5)) if not (c['long'] and r.integers(3) == 0) else int(r.uniform(1e5, 1.6e8 if c['n'] < 3 else 4e7))
            if wild(r, 0.04):
                ms = int(r.integers(0, 2))
            kind = str(r.choice(kinds))
            if not c['wild'] and kind in BODIES and not visible(BODIES[kind](), sites, t, ms):
                kind = 'DRX'
            o, m, good = observation(r, kind, t, ms, sites, spc)
            ok &= good
            obs.append((o, m))
            t = t + timedelta(milliseconds=m['dur'] + (c['gap'] if c['gap'] >= 0 or m['dur'] > 1 else 0))
    except Ambiguous:
        raise Reject()
    if c['gap'] < 0 and c['n'] > 1 and any(m['dur'] > 1 for o, m in obs[:-1]):
        ok = False
    modes = {m['mode'] in ('TBT', 'TBS') for o, m in obs}
    ok &= len(modes) == 1
    total = sum(m['bytes'] for o, m in obs)
    if abs(total - TB10) < 1e6:
        raise Reject()
    ok &= total < TB10
    if c['order']:
        obs = [obs[k] for k in r.permutation(len(obs))]
    sm = dict(id=int(r.choice([1, 9999, r.integers(1, 10000)])), name=text(r), comments=text(r, 200) if r.integers(2) else None, cra=int(r.choice([0, 0, 65535, r.integers(0, 65536)])),
              beam=int(r.choice([-1, 1, 4, r.integers(1, 5)])), ret=str(r.choice(['UCF', 'DRSU', 'USB Harddrives'])), user=str(r.choice(['jdoe', 'a_b/sub/dir-1', 'x9'])) if r.integers(2) else None)
    pid = text(r, 9).replace(' ', '') or 'LX001'
    if c['bad'] == 0:
        sm['id'] = int(r.choice([0, 10000]))
        ok = False
    elif c['bad'] == 1:
        sm['cra'] = int(r.choice([-1, 65536]))
        ok = False
    elif c['bad'] == 2:
        sm['beam'] = int(r.choice([0, 5]))
        ok = False
    elif c['bad'] == 3:
        pid = 'LX0000001'
        ok = False
    ses = sdf.Session(sm['name'], sm['id'], [o for o, m in obs] if r.integers(2) else None, data_return_method=sm['ret'], comments=sm['comments'], station=site)
    if not ses.observations:
        for o, m in obs:
            ses.append(o)
    check(len(ses.observations) == len(obs), 'observations were lost')
    ses.configuration_authority, ses.drx_beam, ses.ucf_username = sm['cra'], sm['beam'], sm['user']
    if spc[0]:
        ses.spectrometer_channels, ses.spectrometer_integration, ses.spectrometer_metatag = spc
    mib = {}
    for k in ('ASP', 'NDP', 'DR1', 'DR5', 'SHL', 'MCS'):
        if r.uniform() < 0.3:
            mib[k] = (int(r.integers(-1, 60)), int(r.integers(-1, 60)))
            ses.set_mib_record_interval(k, mib[k][0])
            ses.set_mib_update_interval(k, mib[k][1])
    flags = [bool(v) for v in r.integers(0, 2, 4)]
    ses.include_mcssch_log, ses.include_mcsexe_log, ses.include_station_smib, ses.include_station_design = flags
    if c['bad'] == 4:
        ses.set_mib_record_interval('SHL', -2)
        ok = False
    elif c['bad'] == 5:
        ses.set_mib_update_interval('MCS', -2)
        ok = False
    elif c['bad'] == 6:
        ses.spc_setup = [int(r.choice([0, 3, 16384])), 768]
        ok = False
    elif c['bad'] == 7 and not spc[0] and c['group'] == 'tb':
        ses.spc_setup = [1024, 768]
        ok = False
    po = sdf.ProjectOffice(project=text(r) if r.integers(2) else None, sessions=[text(r)] if r.integers(2) else None)
    pm = dict(name=text(r), comments=text(r, 200) if r.integers(2) else None)
    pi = ('Doe, Jane', int(r.integers(0, 1000)))
    proj = sdf.Project(sdf.Observer(*pi), pm['name'], pid, sessions=[ses], comments=pm['comments'], project_office=po)
    v = proj.validate()
    check(v == ok, 'validate() gives %s for a session which is %s', v, 'valid' if ok else 'not valid')
    d = tmpdir()
    fn = os.path.join(d, 'a.sdf')
    if not ok:
        try:
            proj.writeto(fn)
        except (RuntimeError, IndexError, ValueError):
            pass
        check(not os.path.exists(fn), 'a file was written for an invalid session')
        return False
    proj.writeto(fn)
    txt = open(fn).read()
    check(proj.render() == txt, 'rendering again gives another file')
    try:
        proj.writeto(fn)
    except RuntimeError:
        pass
    else:
        check(False, 'an existing file was overwritten')
    check(open(fn).read() == txt, 'an existing file was changed')
    obs.sort(key=lambda q: q[1]['start'])
    head, rows = raw(txt)
    check(len(rows) == len(obs), 'number of observations in the file')
    for k, (row, (o, m)) in enumerate(zip(rows, obs)):
        check(row['OBS_ID'] == str(k+1), 'OBS_ID')
        compare_raw(row, m, f'file obs {k+1}')
    check(head['PI_ID'] == str(pi[1]) and head['PROJECT_ID'] == pid and head['SESSION_ID'] == str(sm['id']), 'IDs in the file')
    check(int(head.get('SESSION_CRA', 0)) == sm['cra'] and int(head.get('SESSION_DRX_BEAM', -1)) == sm['beam'], 'CRA or beam in the file')
    if spc[0]:
        check(head['SESSION_SPC'].replace(' ', '') == f"{spc[0]}{spc[1]}{spc[2] or ''}", 'SESSION_SPC')
    for k in range(2):
        p = sdf.parse_sdf(fn)
        s = p.sessions[0]
        check(p.observer.name == pi[0] and p.observer.id == pi[1] and p.observer.last == 'Doe' and p.observer.first == 'Jane', 'observer')
        check((p.id, p.name, p.comments) == (pid, pm['name'], pm['comments'] or 'None provided'), 'project %s', (p.id, p.name, p.comments))
        check((p.project_office.project if p.project_office.project != 'None' else None) == po.project, 'project office comments')
        check((p.project_office.sessions[0] or None) == (po.sessions[0] if po.sessions else None), 'project office session comments %s', p.project_office.sessions[0])
        check((s.id, s.name, s.configuration_authority, s.drx_beam, s.dataReturnMethod, s.ucf_username) == (sm['id'], sm['name'], sm['cra'], sm['beam'], sm['ret'], sm['user']),
              'session: %s', (s.id, s.name, s.configuration_authority, s.drx_beam, s.dataReturnMethod, s.ucf_username))
        com = s.comments
        if sm['user']:
            check(com.startswith('ucfuser:' + sm['user']), 'user name in the comments')
            com = com[len('ucfuser:' + sm['user']):]
            com = com[2:] if com.startswith(';;') else com
            check(com == (sm['comments'] or ''), 'session comments %s', com)
        else:
            check(com == (sm['comments'] or 'None provided'), 'session comments %s', com)
        check(tuple(s.spc_setup) == spc[:2] and s.spc_metatag == spc[2], 'spectrometer set-up')
        for q in s.record_mib:
            check((s.record_mib[q], s.update_mib[q]) == mib.get(q, (-1, -1)), 'MIB intervals')
        check([s.include_mcssch_log, s.include_mcsexe_log, s.include_station_smib, s.include_station_design] == flags, 'log flags')
        check(len(s.observations) == len(obs), 'number of observations')
        for n, (o, (_, m)) in enumerate(zip(s.observations, obs)):
            compare_obs(o, m, f'obs {n+1}')
            a, b = sdf.get_observation_start_stop(o)
            check(a == m['start'] and b == m['start'] + timedelta(milliseconds=m['dur']), 'start and stop %s %s', a, b)
        check(sdf.is_valid(fn), 'the file is not valid')
        new = p.render()
        with open(fn, 'w') as fh:
            fh.write(new)
    return len(obs) > 1

times = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), kind=st.sampled_from(['str', 'dt', 'astro', 'named', 'lst', 'round'])))

@part('times', times, quick=1500, thorough=40000, rule='every case', seconds=60)
def time_strings(c):
    from lsl.common._sdf_utils import parse_time
    r = rng(c['seed'])
    t = datetime(2000, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 14000)), milliseconds=int(r.integers(0, 86400000)))
    tol = timedelta(0)
    if c['kind'] in ('str', 'dt', 'astro'):
        s = fmt_start(r, t)
        if c['kind'] == 'astro':
            s = ATime(t, format='datetime', scale='utc')
    elif c['kind'] == 'named':
        name, zone = [('UT', 'UTC'), ('UTC', 'UTC'), ('EST', 'America/New_York'), ('CDT', 'America/Chicago'), ('MST', 'America/Denver'), ('PST', 'America/Los_Angeles')][int(r.integers(6))]
        l = t.astimezone(ZoneInfo(zone))
        if l.fold or (l + timedelta(hours=2)).utcoffset() != l.utcoffset() or (l - timedelta(hours=2)).utcoffset() != l.utcoffset():
            raise Reject()
        mon = l.strftime('%b') if r.integers(2) else l.strftime('%m')
        s = f"{name} {l.year:04d}{r.choice(list(' -/'))}{mon}{r.choice(list(' -/'))}{l.day:d} {l.hour:d}:{l.minute:d}:{l.second + l.microsecond/1e6:.3f}"
    elif c['kind'] == 'lst':
        # LST times are good to about half a second
        site = stations.lwa1
        h, mi, se = int(r.integers(24)), int(r.integers(60)), int(r.integers(60))
        s = f'LST {t.year:04d} {t.month:02d} {t.day:02d} {h:02d}:{mi:02d}:{se:02d}'
        got = parse_time(s)
        check(got.utcoffset() == timedelta(0), 'not UTC')
        o = ephem.Observer()
        o.lat, o.lon = site.lat, site.lon
        o.date = ephem.Date(got.replace(tzinfo=None))
        lst = float(o.sidereal_time())*12/math.pi
        d = (lst - (h + mi/60 + se/3600) + 12) % 24 - 12
        check(abs(d)*3600 < 3, 'LST at %s is off by %s s', got, d*3600)
        d0 = (got - t.replace(hour=0, minute=0, second=0, microsecond=0)).total_seconds()
        check(-1 <= d0 <= 86401, 'LST time is on another day')
        return True
    else:
        us = int(r.integers(0, 1000000)) if r.integers(2) else int(r.integers(999000, 1000000))
        t = t.replace(microsecond=us)
        tol = timedelta(microseconds=500)
        s = t if r.integers(2) else t.strftime('UTC %Y/%m/%d %H:%M:%S.%f')
    got = parse_time(s)
    check(abs(got - t) <= tol and got.microsecond % 1000 == 0, '%s is read as %s, not %s', s, got, t)
    check(got.utcoffset() == timedelta(0), 'not UTC')
    return True

limit = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), kind=st.sampled_from(['steps', 'ra', 'dec', 'bdm', 'list', 'spec', 'c', 'update']), k=st.integers(0, 5)))

def refused(fn, *exc):
    try:
        fn()
    except exc:
        return True
    return False

@part('limits', limit, quick=300, thorough=5000, rule='every case', seconds=100)
def limits(c):
    """Values at and beyond the limits of each setting, and settings changed after an observation was made."""
    r = rng(c['seed'])
    t = 'UTC 2015/06/07 08:09:10.000'
    def drx(ra=3.0, dec=80.0, dur='00:10:00', f1=40e6, f2=60e6, flt=7):
        return sdf.DRX('n', 't', t, dur, ra, dec, f1, f2, flt)
    if c['kind'] == 'steps':
        n = [0, 1, 2, MAX_STP_N-1, MAX_STP_N, MAX_STP_N+1][c['k']]
        o = sdf.Stepped('n', 't', t, 7, is_radec=False, steps=[sdf.BeamStep(10.0, 45.0, 1.0, 40e6, 60e6, is_radec=False) for _ in range(n)])
        check(o.validate() == (1 <= n <= MAX_STP_N), 'an observation of %s steps gives %s', n, o.validate())
        check(o.dur == 1000*n, 'duration %s of %s steps', o.dur, n)
    elif c['kind'] == 'ra':
        for v, ok in ((0.0, True), (-1e-6, False), (23.999999, True), (24.0, False), (r.uniform(24, 100), False), (r.uniform(0, 24), True)):
            for w in (v, ephem.hours(v*math.pi/12), AAngle(v, unit='hourangle')):
                check(refused(lambda: drx(ra=w), ValueError) != ok, 'RA %s', v)
                o = drx()
                check(refused(lambda: setattr(o, 'ra', w), ValueError) != ok, 'RA %s', v)
                check(abs(o.ra - (v if ok else 3.0)) < 1e-9, 'RA is %s', o.ra)
    elif c['kind'] == 'dec':
        for v, ok in ((90.0, True), (-90.0, True), (90.00001, False), (-90.00001, False), (r.uniform(-90, 90), True)):
            for w in (v, AAngle(v, unit='deg')):
                check(refused(lambda: drx(dec=w), ValueError) != ok, 'dec. %s', v)
                o = drx()
                check(refused(lambda: setattr(o, 'dec', w), ValueError) != ok, 'dec. %s', v)
                check(abs(o.dec - (v if ok else 80.0)) < 1e-9, 'dec. is %s', o.dec)
    elif c['kind'] == 'c':
        radec = bool(c['k'] % 2)
        top, lo = (24.0, -90.0) if radec else (360.0, 0.0)
        for v1, v2, ok in ((0.0, 45.0, True), (-1e-6, 45.0, False), (top, 45.0, False), (top-1e-6, lo, True), (1.0, lo-1e-6, False), (1.0, 90.0, True), (1.0, 90.0001, False), (r.uniform(0, top), r.uniform(lo, 90), True)):
            check(refused(lambda: sdf.BeamStep(v1, v2, 1.0, 40e6, 60e6, is_radec=radec), ValueError) != ok, 'step at %s, %s', v1, v2)
    elif c['kind'] == 'bdm':
        o = drx()
        for a, ok in (((1, 0.0, 1.0, 'X'), True), ((-1, 0.1, 1.0, 'X'), False), ((257, 0.1, 1.0, 'X'), False), ((5, -0.01, 1.0, 'X'), False), ((5, 1.01, 1.0, 'Y'), False),
                      ((5, 1.0, 0.0, 'y'), True), ((5, 0.5, 1.01, 'X'), False), ((5, 0.5, -0.01, 'X'), False), ((5, 0.5, 0.5, 'Z'), False)):
            check(refused(lambda: o.set_beamdipole_mode(*a), ValueError) != ok, 'beam-dipole mode %s', a)
        o.set_beamdipole_mode(0)
        check(o.beamDipole is None, 'beam-dipole mode is still on')
    elif c['kind'] == 'list':
        ses = sdf.Session('s', 1, [drx()])
        check(refused(lambda: ses.observations.append('x'), TypeError), 'append of a wrong type')
        check(refused(lambda: ses.observations.extend([drx(), 'x']), TypeError), 'extend with a wrong type')
        check(refused(lambda: ses.observations.insert(0, 3), TypeError), 'insert of a wrong type')
        check(refused(lambda: ses.observations.__setitem__(0, 3), TypeError), 'item of a wrong type')
        check(refused(lambda: sdf.Session('s', 1, [drx(), 7]), TypeError), 'session with a wrong type')
        check(len(ses.observations) == 1, 'number of observations')
        check(refused(lambda: sdf.Project('me', 'p', 'id'), TypeError), 'observer of a wrong type')
    elif c['kind'] == 'spec':
        ses = sdf.Session('s', 1, [drx()])
        for v in range(0, 20000) if c['k'] == 0 else [int(x) for x in r.integers(0, 300000, 50)]:
            check(refused(lambda: setattr(ses, 'spectrometer_channels', v), ValueError) != (v in [2**k for k in range(1, 14)]), 'channels %s', v)
            check(refused(lambda: setattr(ses, 'spectrometer_integration', v), ValueError) != (v in [384*2**k for k in range(10)]), 'integration %s', v)
        for v, w in (('Stokes=XXYY', '{Stokes=XXYY}'), ('{Stokes=IQUV}', '{Stokes=IQUV}'), ('', None), (None, None)):
            ses.spectrometer_metatag = v
            check(ses.spc_metatag == w, 'metatag %s', ses.spc_metatag)
        check(refused(lambda: setattr(ses, 'spectrometer_metatag', 'Stokes=XY'), ValueError), 'metatag')
        check(refused(lambda: setattr(ses, 'data_return_method', 'mail'), ValueError), 'data return method')
        check(refused(lambda: ses.set_mib_record_interval('XYZ', 5), KeyError) and refused(lambda: ses.set_mib_update_interval('XYZ', 5), KeyError), 'unknown subsystem')
    else:
        o = drx()
        ms = int(10**r.uniform(0, 8))
        o.duration = fmt_dur(r, ms)
        check(o.dur == ms, 'duration %s is not %s', o.dur, ms)
        h, m, s = o.duration.split(':')
        check(round((int(h)*3600 + int(m)*60 + float(s))*1000) == ms and int(m) < 60 and float(s) < 60, 'duration %s of %s ms', o.duration, ms)
        f = r.uniform(10e6, 88e6)
        o.frequency1 = fmt_freq(r, f)
        o.frequency2 = fmt_freq(r, f/2 + 5e6)
        check(o.freq1 == word(f) and abs(o.frequency1 - f) < 0.03 and o.freq2 == word(f/2 + 5e6), 'tunings')
        w = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 6000)), milliseconds=int(r.integers(0, 86400000)))
        o.start = fmt_start(r, w)
        check((o.mjd, o.mpm) == mjdmpm(w), 'start %s', (o.mjd, o.mpm))
        o.start = o.start
        check((o.mjd, o.mpm) == mjdmpm(w), 'start %s', (o.mjd, o.mpm))
        o.high_dr = True
        o.update()
        check(o.beam == 'HIGH_DR', 'beam')
        check(abs(o.dataVolume - ms/1000*4128*4*19.6e6/4096) <= 1e-9*o.dataVolume, 'data volume')
    return True

rule = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31), kind=st.sampled_from(['steplen', 'mix', 'set', 'vol', 'overlap', 'modes', 'spc', 'mib', 'sky'])))

def up_at(r, body):
    """A time at which the body is well up for the next ten minutes."""
    t = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 5000)))
    for h in range(48):
        q = t + timedelta(minutes=30*h)
        if all(altitude(body, stations.lwa1, q + timedelta(minutes=m)) > 0.1 for m in (0, 5, 10)):
            return q
    raise Reject()

@part('rules', rule, quick=900, thorough=9000, rule='every case', seconds=100)
def rules(c):
    """Sessions that are valid but for one thing, which is on either side of its limit."""
    r = rng(c['seed'])
    t0 = datetime(2012, 1, 1, tzinfo=timezone.utc) + timedelta(days=int(r.integers(0, 6000)), milliseconds=int(r.integers(0, 86400000)))
    spc, ok, vols, mib = None, True, None, []
    def beam(kind, t, ms=10000, flt=7):
        a = ('n', 't', t)
        if kind == 'STEPPED':
            return sdf.Stepped(*a, flt, is_radec=False, steps=[sdf.BeamStep(10.0, 45.0, ms/2000, 40e6, 60e6, is_radec=False) for _ in range(2)])
        if kind == 'DRX':
            return sdf.DRX(*a, ms/1000, r.uniform(0, 23.9), 85.0, 40e6, 60e6, flt)
        if kind == 'TBS':
            return sdf.TBS(*a, ms/1000, 40e6, 8)
        if kind == 'TBT':
            return sdf.TBT(*a, 196000)
        return getattr(sdf, kind)(*a, ms/1000, 40e6, 60e6, flt)
    beams = ['DRX', 'STEPPED', 'Solar', 'Jovian', 'Lunar']
    kind = str(r.choice(beams))
    if kind in BODIES:
        t0 = up_at(r, BODIES[kind]())
    if c['kind'] == 'steplen':
        n = int(r.integers(1, 5))
        ds = [int(v) for v in r.integers(5, 3000, n)]
        ds[int(r.integers(n))] = int(r.integers(1, 9))
        obs = [sdf.Stepped('n', 't', t0, 7, is_radec=False, steps=[sdf.BeamStep(10.0, 45.0, d/1000, 40e6, 60e6, is_radec=False) for d in ds])]
        ok = min(ds) >= 5
    elif c['kind'] == 'mix':
        tb = str(r.choice(['TBS', 'TBT']))
        obs = [beam(kind, t0), beam(tb, t0 + timedelta(minutes=5))]
        if r.integers(2):
            obs = [beam(tb, t0 - timedelta(minutes=5)), beam(kind, t0)]
        ok = False
    elif c['kind'] in ('set', 'sky'):
        # targets that may rise or set between the steps, or during an observation
        n = int(r.integers(2, 5))
        steps, t = [], t0
        try:
            for k in range(n):
                ra, dec, ms = r.uniform(0, 23.99), r.uniform(20, 80), int(10**r.uniform(4, 7.2))
                if c['kind'] == 'set':
                    # all but one of the steps have their target up
                    dec, ms = r.uniform(-20, 50), int(10**r.uniform(6, 7) if k < n-1 else 10**r.uniform(4, 6))
                    good = r.integers(2) if k == n-1 else True
                    for _ in range(40):
                        ra = r.uniform(0, 23.99)
                        try:
                            if visible(fixed(ra, dec), [stations.lwa1], t, ms) == good:
                                break
                        except Ambiguous:
                            continue
                    else:
                        raise Reject()
                steps.append((ra, dec, ms))
                ok &= visible(fixed(ra, dec), [stations.lwa1], t, ms)
                t = t + timedelta(milliseconds=ms)
        except Ambiguous:
            raise Reject()
        if c['kind'] == 'set' or r.integers(2):
            obs = [sdf.Stepped('n', 't', t0, 1, is_radec=True, steps=[sdf.BeamStep(ra, dec, ms/1000, 40e6, 60e6, is_radec=True) for ra, dec, ms in steps])]
        else:
            obs, t = [], t0
            for ra, dec, ms in steps:
                obs.append(sdf.DRX('n', 't', t, ms/1000, ra, dec, 40e6, 60e6, 1))
                t = t + timedelta(milliseconds=ms)
    elif c['kind'] == 'vol':
        n = int(r.integers(1, 4))
        flt = int(r.integers(1, 8))
        rate = 4128*4*RATES[flt]/4096
        if r.integers(2):
            spc = (int(r.choice([2, 4, 32, 1024, 8192])), int(r.choice([384, 768, 3072])), r.choice([None, '{Stokes=XXYY}', '{Stokes=IQUV}', '{Stokes=IV}']))
            rate = (76 + spc[0]*2*(4 if spc[2] == '{Stokes=IQUV}' else 2)*4)*RATES[flt]/(spc[0]*spc[1])
        total = TB10*r.choice([0.97, 0.9999, 1.0001, 1.03, 0.55, 1.7])
        if total/rate > 1e8:
            raise Reject()
        ok = total < TB10
        parts = [int(1000*total/rate*w) for w in (r.dirichlet(np.ones(n)*3))]
        obs, vols, t = [], [], t0
        for ms in parts:
            obs.append(sdf.Stepped('n', 't', t, flt, is_radec=False, steps=[sdf.BeamStep(10.0, 45.0, timedelta(milliseconds=ms), 40e6, 60e6, is_radec=False)]))
            vols.append(ms/1000*rate)
            t = t + timedelta(milliseconds=ms)
    elif c['kind'] == 'overlap':
        n = int(r.integers(2, 6))
        spans, t = [], t0
        for k in range(n):
            ms = 2*int(r.integers(5, 5000))
            spans.append([t, ms])
            t = t + timedelta(milliseconds=ms + int(r.choice([0, 0, 1, 7000])))
        if r.integers(2):
            a, b = [int(v) for v in r.choice(n, 2, replace=False)]
            s, ms = spans[a]
            how = int(r.integers(5))
            spans[b][0] = s + timedelta(milliseconds=[0, ms - 1, ms//2, 1, ms][how])
        ok = all(a[0] + timedelta(milliseconds=a[1]) <= b[0] or b[0] + timedelta(milliseconds=b[1]) <= a[0] for i, a in enumerate(spans) for b in spans[:i])
        obs = [beam(str(r.choice(['DRX', 'STEPPED'])), *spans[k]) for k in r.permutation(n)]
    elif c['kind'] == 'modes':
        obs = [beam(kind, t0)]
        for k in range(int(r.integers(0, 3))):
            obs.append(beam(str(r.choice(['DRX', 'STEPPED'])), t0 + timedelta(minutes=k+1)))
        if r.integers(2):
            spc = (1024, 768, '{Stokes=IQUV}')
    elif c['kind'] == 'spc':
        tb = r.integers(4) == 0
        obs = [beam(str(r.choice(['TBS', 'TBT'])) if tb else kind, t0)]
        nch = 2**int(r.integers(0, 16)) + (int(r.choice([-1, 1])) if r.integers(4) == 0 else 0)
        nint = 384*2**int(r.integers(0, 12)) + (int(r.choice([-1, 1])) if r.integers(4) == 0 else 0)
        spc = (nch, nint, r.choice([None, '{Stokes=XXYY}', '{Stokes=IQUV}', '{Stokes=IV}']))
        ok = not tb and nch in [2**k for k in range(1, 14)] and nint in [384*2**k for k in range(10)]
    else:
        obs = [beam(kind, t0)]
        for k in ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS'):
            if r.integers(2):
                mib.append((k, int(r.integers(2)), int(r.choice([-1, 0, 1, 60]))))
        if mib and r.integers(2):
            k = int(r.integers(len(mib)))
            mib[k] = mib[k][:2] + (int(r.choice([-2, -60])),)
            ok = False
    ses = sdf.Session('s', 1, obs, station=stations.lwa1)
    if spc:
        try:
            ses.spectrometer_channels, ses.spectrometer_integration, ses.spectrometer_metatag = spc
        except ValueError:
            check(not ok, 'a spectrometer set-up of %s is refused', spc)
            return True
    for k, up, v in mib:
        (ses.set_mib_update_interval if up else ses.set_mib_record_interval)(k, v)
    v = ses.validate()
    check(v == ok, '%s: a session which is %s gives %s', c['kind'], 'valid' if ok else 'not valid', v)
    if vols:
        for o, b in zip(obs, vols):
            check(abs(o.estimate_bytes() - b) <= 1e-6*b + 1, '%s bytes, not %s', o.estimate_bytes(), b)
    proj = sdf.Project(sdf.Observer('Doe, Jane', 1), 'p', 'LX001', sessions=[ses])
    check(proj.validate() == ok, '%s: a project which is %s', c['kind'], 'valid' if ok else 'not valid')
    return True
