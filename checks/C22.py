"""C22: a meta-data tarball gives what was put in it, whatever the order, names and compression, and never touches other files."""
import io, os, struct, tarfile, tempfile, shutil, time
import numpy as np
from vlib.core import *
from vlib import ssmif
from hypothesis import strategies as st
from lsl.common import metabundle as mb
from lsl.common.mcs import ObservingMode, SubsystemID, CommandID, SummaryCode
from lsl.common import sdf as lsdf

seeds = st.integers(0, 2**31)
SUBS = ['ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS']

SSF = np.dtype([('version', '<u2'), ('project', 'S9'), ('session', '<u4'), ('cra', '<u2'), ('beam', '<i2'), ('spc', 'S32'),
                ('mjd', '<u8'), ('mpm', '<u8'), ('dur', '<u8'), ('nobs', '<u4'), ('mrp', '<i2', 9), ('mup', '<i2', 9), ('flags', 'i1', 4)], align=True)
OSF = np.dtype([('version', '<u2'), ('project', 'S9'), ('session', '<u4'), ('beam', '<i2'), ('spc', 'S32'), ('obs', '<u4'),
                ('mjd', '<u8'), ('mpm', '<u8'), ('dur', '<u8'), ('mode', '<u2'), ('bdm', 'S32'), ('ra', '<f4'), ('dec', '<f4'), ('b', '<u2'),
                ('f1', '<u4'), ('f2', '<u4'), ('bw', '<u2'), ('nstp', '<u4'), ('radec', '<u2')], align=True)
STP = np.dtype([('c1', '<f4'), ('c2', '<f4'), ('t', '<u4'), ('f1', '<u4'), ('f2', '<u4'), ('b', '<u2')], align=True)
BEAM = np.dtype([('delay', '<u2', 512), ('gain', '<i2', (256, 2, 2))], align=True)
OSF2 = np.dtype([('fee', '<i2', (256, 2)), ('flt', '<i2', 256), ('at1', '<i2', 256), ('at2', '<i2', 256), ('at3', '<i2', 256), ('tbt', '<u4'), ('gain', '<i2'), ('mark', '<u4')], align=True)
STAT = np.dtype([('summary', '<i4'), ('info', 'S256'), ('tv', '<i8', 2)], align=True)
SUBSUB = np.dtype([('fee', '<i4', 256), ('rpd', '<i4', 512), ('sep', '<i4', 512), ('arb', '<i4', (32, 16)), ('snap', '<i4', (16, 64)), ('server', '<i4', 5), ('dr', '<i4', 5)], align=True)
ANTS = np.dtype([('ant', '<i4', (256, 2)), ('ndpo', '<i4', 5)], align=True)
SETT = np.dtype([('mrp', '<i2', 9), ('mup', '<i2', 9), ('fee', '<i2', 256), ('flt', '<i2', 256), ('at1', '<i2', 256), ('at2', '<i2', 256), ('at3', '<i2', 256), ('gain', '<i2')], align=True)

def word(r, n, first='abcXYZ'):
    return ''.join(r.choice(list('abcdefghijXYZ0123456789'), int(r.integers(1, n + 1))))

def fill(r, dt):
    """A record of random bits (no NaNs, no text)."""
    a = np.zeros((), dt)
    for k in dt.names:
        f = a[k]
        if f.dtype.kind == 'S':
            continue
        if f.dtype.kind == 'f':
            a[k] = r.normal(size=f.shape)*100
        else:
            i = np.iinfo(f.dtype)
            a[k] = r.integers(i.min, i.max, size=f.shape, endpoint=True, dtype=f.dtype)
    return a

def names(r):
    return dict(project=word(r, 8).encode(), session=int(r.integers(1, 10000)))

def make_ses(r, nm, nobs):
    a = fill(r, SSF)
    a['project'], a['session'] = nm['project'], nm['session']
    a['spc'] = word(r, 31).encode() if r.integers(2) else b''
    a['nobs'] = nobs
    return a.tobytes(), a

def make_obs(r, nm, i, big=False):
    a = fill(r, OSF)
    a['project'], a['session'], a['obs'] = nm['project'], nm['session'], i
    a['spc'] = word(r, 31).encode() if r.integers(2) else b''
    a['bdm'] = word(r, 31).encode() if r.integers(2) else b''
    a['mode'] = int(r.choice([m.value for m in ObservingMode]))
    n = int(r.choice([0, 0, 1, 2, 7, 1024 if big else 3]))
    a['nstp'] = n
    out, steps = [a.tobytes()], []
    for k in range(n):
        s = fill(r, STP)
        s['b'] = int(r.choice([1, 2, 3])) if n < 50 or k % 200 == 0 else 1
        out.append(s.tobytes())
        bm = None
        if s['b'] == 3:
            bm = fill(r, BEAM)
            out.append(bm.tobytes())
        out.append(struct.pack('<I', 2**32 - 2))
        steps.append((s, bm))
    f = fill(r, OSF2)
    f['mark'] = 2**32 - 1
    out.append(f.tobytes())
    return b''.join(out), (a, steps, f)

def make_cs(r):
    out, cmds = [], []
    sids = [s for s in SubsystemID if s.name not in ('DP', 'ADP')]
    for k in range(int(r.integers(0, 30))):
        n = int(r.choice([0, 1, 5, 40, 255, 256]))
        text = ''.join(r.choice(list('abcdef 0123456789'), max(n - 1, 0))).encode()
        data = (text + b'\0')[:n]
        v = (int(r.integers(1, 2**33)), int(r.integers(0, 10**6)), int(r.integers(0, 2)), sids[int(r.integers(len(sids)))], list(CommandID)[int(r.integers(len(CommandID)))], n)
        out.append(struct.pack('<qqiiii', v[0], v[1], v[2], v[3].value, v[4].value, n) + data)
        cmds.append((v, text if n else None))
    if r.integers(2):
        out.append(struct.pack('<qqiiii', 0, 0, 0, 0, 0, 0))
        if r.integers(2):
            out.append(b'\xff'*40)
    return b''.join(out), cmds

def make_meta(r, nobs):
    lines, m = [], {}
    for i in range(1, nobs + 1):
        tag = '%06d_%09d' % (r.integers(50000, 70000), r.integers(0, 10**9))
        bar = word(r, 12).upper() + 'S'
        oc = int(r.integers(0, 5))
        msg = ''.join(r.choice(list('abc de,.'), int(r.integers(0, 20))))
        k = int(r.integers(3))
        if k == 0:
            lines.append(f"   {i}   [{tag}]   ['{bar}']   {oc}   [{msg}]")
        elif k == 1:
            lines.append(f"{i} [{tag}] [{bar}] {oc} [{msg}]")
        else:
            bar, oc, msg = 'UNK', oc, 'UNK'
            tag = 'UNK'
            lines.append(f"{i} {'Failed' if oc == 1 and r.integers(2) else oc}")
        m[i] = dict(tag=tag, barcode=bar, outcome=oc, msg=msg)
        if r.integers(3) == 0:
            lines.append('')
    return ('\n'.join(lines) + ('\n' if r.integers(2) else '')).encode(), m

def make_sdm(r):
    stats = []
    for k in range(9):
        a = np.zeros((), STAT)
        a['summary'] = int(r.choice([s.value for s in SummaryCode]))
        a['info'] = word(r, 200).encode()
        a['tv'] = (int(r.integers(0, 2**31)), int(r.integers(0, 10**6)))
        stats.append(a)
    ss, an, se = fill(r, SUBSUB), fill(r, ANTS), fill(r, SETT)
    an['ant'] = r.integers(0, 4, (256, 2))
    return b''.join(x.tobytes() for x in stats + [ss, an, se]), (stats, ss, an, se)

def make_asp(r, fn):
    import dbm.gnu as gnu
    want = dict(asp_filter=[-1]*256, asp_atten_1=[-1]*256, asp_atten_2=[-1]*256, asp_atten_3=[-1]*256)
    with gnu.open(fn, 'n') as db:
        def put(index, v):
            db['X_' + index] = struct.pack('<i12s8192s6s6s4xqq', 1, index.encode(), str(v).encode(), b'a3', b'a3', 1, 2)
        put('1.1', 'NORMAL')
        for key, pre in (('asp_filter', '3.'), ('asp_atten_1', '4.1.'), ('asp_atten_2', '4.2.'), ('asp_atten_3', '4.3.')):
            base = int(r.integers(0, 16))
            for i in r.choice(256, int(r.choice([0, 3, 40])), replace=False):
                v = base if r.integers(2) else int(r.integers(0, 32))
                put(f'{pre}{i + 1}', v)
                want[key][int(i)] = v
        if r.integers(2):
            put('3.257', 4)
            put('4.1.300', 4)
        put('4.4.1', 9)
        put('5.1', 'x')
    return open(fn, 'rb').read(), want

SDFT = """PI_ID            42
PI_NAME          Hogg, David

PROJECT_ID       %s
PROJECT_TITLE    %s
PROJECT_REMPI    none
PROJECT_REMPO    None

SESSION_ID       %d
SESSION_TITLE    %s
SESSION_REMPI    none
SESSION_REMPO    none

SESSION_DRX_BEAM 2

OBS_ID           1
OBS_TITLE        one
OBS_TARGET       Cyg A
OBS_REMPI        a
OBS_REMPO        b
OBS_START_MJD    %d
OBS_START_MPM    %d
OBS_START        UTC 2018 Jun 01 12:00:00.000
OBS_DUR          %d
OBS_DUR+         00:00:10.000
OBS_MODE         TRK_RADEC
OBS_RA           20.5
OBS_DEC          %+.6f
OBS_B            SIMPLE
OBS_FREQ1        438261968
OBS_FREQ1+       20.0 MHz
OBS_FREQ2        1928352663
OBS_FREQ2+       88.0 MHz
OBS_BW           7
OBS_BW+          19.6 MHz
"""

def make(r, d, big=False, heavy=False):
    """The members of a tarball, {name: bytes}, and what they stand for."""
    nm = names(r)
    pre = f"{nm['project'].decode()}_{nm['session']:04d}"
    nobs = int(r.choice([1, 2, 3, 9, 10]))
    mem, w = {}, dict(nm=nm, pre=pre)
    def have(p):
        return r.uniform() < p
    mem[pre + '.ses'], w['ses'] = make_ses(r, nm, nobs)
    w['obs'] = []
    for i in range(1, nobs + 1):
        b, m = make_obs(r, nm, i, big)
        mem[f'{pre}_{i:04d}.obs'] = b
        w['obs'].append(m)
    mem[pre + '.cs'], w['cs'] = make_cs(r)
    mem[pre + '_metadata.txt'], w['meta'] = make_meta(r, nobs)
    if have(0.7):
        v = dict(project=word(r, 8), title=word(r, 20), session=int(r.integers(1, 10000)), stitle=word(r, 20), mjd=int(r.integers(56000, 60000)), mpm=int(r.integers(0, 86400000)), dur=int(r.integers(1, 10**6)), dec=float(np.round(r.uniform(-20, 80), 6)))
        mem[pre + '.txt'] = (SDFT % tuple(v.values())).encode()
        w['sdf'] = v
    if have(0.6):
        n = int(r.integers(0, 5000))
        mem['mindelay.txt'] = (str(n) + ('\n' if r.integers(2) else '')).encode()
        w['min'] = n
    elif have(0.2):
        mem['mindelay.txt'] = b'nothing'
    if have(0.6):
        w['host'] = str(r.choice(['lwa1-mcs', 'lwasv-mcs', 'lwana', word(r, 10)]))
        mem['mcs.host'] = (w['host'] + '\n').encode()
    if have(0.7):
        mem['dynamic/sdm.dat'], w['sdm'] = make_sdm(r)
    for k in ('begin', 'end'):
        if have(0.5):
            fn = os.path.join(d, f'x_{k}.gdb')
            mem[f'{pre}_ASP_{k}.{"gdb" if r.integers(2) else "pag"}'], w['asp' + k] = make_asp(r, fn)
            os.unlink(fn)
    if heavy:
        w['ssmif'] = ssmif.model(r, r.integers(8) == 0)
        mem['ssmif.dat'] = ssmif.binary(w['ssmif'])
    if have(0.5):
        mem['extra/notes.log'] = b'nothing to see'
    return mem, w

def write(fn, mem, r):
    mode, order = {'.tgz': 'w:gz', '.tar': 'w', '.tbz': 'w:bz2', '.gz': 'w:gz'}[os.path.splitext(fn)[1]], list(mem)
    if r.integers(2):
        order = [order[i] for i in r.permutation(len(order))]
    with tarfile.open(fn, mode) as tf:
        for n in order:
            ti = tarfile.TarInfo(n)
            ti.size = len(mem[n])
            tf.addfile(ti, io.BytesIO(mem[n]))

def eq(a, b, what):
    if isinstance(b, np.generic) or isinstance(b, np.ndarray):
        b = b.tolist()
    if hasattr(a, '_length_') and not isinstance(a, (str, bytes)):
        a = list(a)
    check(a == b, '%s: got %s, expected %s', what, a, b)

def refused(f, exc, what):
    try:
        f()
    except exc:
        return
    check(False, what)

def intervals(v):
    return dict(zip(SUBS, v.tolist()))

def same_obs(o, m):
    a, steps, f = m
    for k, n in (('version', 'version'), ('session_id', 'session'), ('drx_beam', 'beam'), ('spc_setup', 'spc'), ('obs_id', 'obs'), ('mjd', 'mjd'), ('mpm', 'mpm'), ('dur', 'dur'),
                 ('beamdipole_mode', 'bdm'), ('ra', 'ra'), ('dec', 'dec'), ('beam', 'b'), ('bw', 'bw'), ('nsteps', 'nstp'), ('is_radec', 'radec'), ('project_id', 'project')):
        eq(o[k], a[n], 'observation ' + k)
    check(o['mode'].value == int(a['mode']), 'mode %s', o['mode'])
    for k, n in (('freq1', 'f1'), ('freq2', 'f2')):
        check(abs(o[k] - int(a[n])*196e6/2**32) < 1e-6, '%s of %s', k, a[n])
    check(len(o['steps']) == len(steps), 'steps')
    for s, (t, bm) in zip(o['steps'], steps):
        for n in STP.names:
            eq(getattr(s, 'OBS_STP_' + n.upper().replace('F1', 'FREQ1').replace('F2', 'FREQ2')), t[n], 'step ' + n)
        eq(list(s.delay), bm['delay'] if bm is not None else [], 'beam delays')
        if bm is None:
            check(len(s.gain) == 0, 'gains of a step without them')
        else:
            eq(np.array(s.gain).tolist(), bm['gain'], 'beam gains')
    for k, n in (('fee_power', 'fee'), ('asp_filter', 'flt'), ('asp_atten_1', 'at1'), ('asp_atten_2', 'at2'), ('asp_atten_3', 'at3')):
        eq(np.array(o[k]).tolist(), f[n], k)
    eq(o['tbt_samples'], f['tbt'], 'samples')
    eq(o['drx_gain'], f['gain'], 'gain')

def compare(fn, mem, w, r):
    s = mb.get_session_spec(fn)
    a = w['ses']
    for k, n in (('version', 'version'), ('project_id', 'project'), ('session_id', 'session'), ('configuration_authority', 'cra'), ('drx_beam', 'beam'), ('spc_setup', 'spc'),
                 ('mjd', 'mjd'), ('mpm', 'mpm'), ('dur', 'dur'), ('nobs', 'nobs')):
        eq(s[k], a[n], 'session ' + k)
    eq(s['record_mib'], intervals(a['mrp']), 'record intervals')
    eq(s['update_mib'], intervals(a['mup']), 'update intervals')
    eq([s['include_mcssch_log'], s['include_mcsexe_log'], s['include_station_smib'], s['include_station_design']], a['flags'], 'session flags')
    o = mb.get_observation_spec(fn)
    check(len(o) == len(w['obs']), '%s observations of %s', len(o), len(w['obs']))
    for x, m in zip(o, w['obs']):
        same_obs(x, m)
    n = len(w['obs'])
    pick = sorted(int(v) for v in r.choice(np.arange(1, n + 1), int(r.integers(1, n + 1)), replace=False))
    sel = mb.get_observation_spec(fn, obs_id=pick if len(pick) > 1 or r.integers(2) else pick[0])
    if len(pick) == 1:
        same_obs(sel, w['obs'][pick[0] - 1])
    else:
        check([x['obs_id'] for x in sel] == pick, 'selection %s of observations %s', [x['obs_id'] for x in sel], pick)
    cs = mb.get_command_script(fn)
    check(len(cs) == len(w['cs']), '%s commands of %s', len(cs), len(w['cs']))
    for x, (v, data) in zip(cs, w['cs']):
        check(abs(x['time'] - v[0] - v[1]/1e6) < 1e-5 and x['ignore_time'] is bool(v[2]) and x['subsystem_id'] is v[3] and x['command_id'] is v[4] and x['command_length'] == v[5], 'command %s of %s', x, v)
        eq(x['data'], data, 'command data')
    eq(mb.get_session_metadata(fn), w['meta'], 'session meta-data')
    check(mb.is_valid(fn) is True, 'tarball is not valid')
    eq(mb.get_beamformer_min_delay(fn), w.get('min'), 'minimum delay')
    eq(mb.get_mcs_hostname(fn), w.get('host', 'unknown'), 'host name')
    if 'sdf' in w:
        p, v = mb.get_sdf(fn), w['sdf']
        s = p.sessions[0]
        o = s.observations[0]
        eq([p.id, p.name, s.id, s.name, o.mjd, o.mpm, o.dur], [v['project'], v['title'], v['session'], v['stitle'], v['mjd'], v['mpm'], v['dur']], 'session definition')
        check(abs(o.dec - v['dec']) < 1e-6, 'declination of the session definition')
    else:
        refused(lambda: mb.get_sdf(fn), RuntimeError, 'a session definition out of nowhere')
    dyn = mb.get_sdm(fn)
    if 'sdm' in w:
        stats, ss, an, se = w['sdm']
        for x, t, name in zip([dyn.station, dyn.shl, dyn.asp, dyn.ndp] + list(dyn.dr), stats, ['station', 'shl', 'asp', 'ndp'] + [f'dr{k}' for k in range(1, 6)]):
            check(x.summary.value == int(t['summary']) and x.info == t['info'].item().decode() and abs(x.time - t['tv'][0] - t['tv'][1]/1e6) < 1e-5 and x.name == name, 'status of %s', name)
            check(x.info in str(x) and name in str(x), 'description of the status of %s', name)
        for k in SUBSUB.names:
            eq(np.array(getattr(dyn.status, k)).tolist(), ss[k], 'status of ' + k)
        eq(np.array(dyn.ant_status).tolist(), an['ant'], 'antenna status')
        eq(np.array(dyn.ndpo_status).tolist(), an['ndpo'], 'output status')
        eq(dyn.settings.report, intervals(se['mrp']), 'report intervals')
        eq(dyn.settings.update, intervals(se['mup']), 'update intervals')
        for k, q in (('fee_power', 'fee'), ('asp_filter', 'flt'), ('asp_atten_1', 'at1'), ('asp_atten_2', 'at2'), ('asp_atten_3', 'at3'), ('drx_gain', 'gain')):
            eq(np.array(getattr(dyn.settings, k)).tolist(), se[q], 'setting ' + k)
    else:
        check(dyn is None, 'a dynamic MIB out of nowhere')
    for which in ('beginning', 'begin', 'end', 'END'):
        want = w.get('asp' + which.lower()[:5], dict(asp_filter=[-1]*256, asp_atten_1=[-1]*256, asp_atten_2=[-1]*256, asp_atten_3=[-1]*256))
        eq(mb.get_asp_configuration(fn, which=which), want, 'ASP configuration')
        top = mb.get_asp_configuration_summary(fn, which=which)
        for k, v in want.items():
            check(v.count(top[k]) == max(v.count(q) for q in set(v)), '%s is not the most common %s', top[k], k)
    refused(lambda: mb.get_asp_configuration(fn, which='middle'), ValueError, 'an unknown time of the configuration is accepted')
    if 'ssmif.dat' in mem:
        apply = bool(r.integers(4))
        stn = mb.get_station(fn, apply_sdm=apply)
        want = ssmif.antennas(w['ssmif'], True)
        check(len(stn.antennas) == len(want) and stn.id == w['ssmif']['sid'], 'antennas')
        for x in stn.antennas:
            y = want[x.id]
            check((x.stand.id, x.pol, x.digitizer) == (y['stand'], y['pol'], y['dig']), 'antenna %s', x.id)
            s = int(w['sdm'][2]['ant'][x.stand.id - 1][x.pol]) if apply and 'sdm' in w else y['status']
            check(x.status == s, 'status %s of stand %s, pol %s is not %s', x.status, x.stand.id, x.pol, s)
        if w.get('min') is not None:
            check(stn.beamformer_min_delay_samples == w['min'] and abs(stn.beamformer_min_delay - w['min']/196e6) < 1e-15, 'minimum delay of the station')
    else:
        stn = mb.get_station(fn)
        host = w.get('host', 'unknown').split('-')[0]
        if host in ('lwa1', 'lwasv', 'lwana'):
            check(stn is not None and stn.name.lower() in (host, {'lwa1': 'vl', 'lwasv': 'sv', 'lwana': 'na'}[host]), 'station %s of host %s', stn, host)
        elif host == 'unknown':
            check(stn is None, 'a station out of nowhere')

bundle = st.fixed_dictionaries(dict(seed=seeds, ext=st.sampled_from(['.tgz', '.tar', '.tbz', '.gz']), own=st.booleans(), again=st.booleans(), big=st.booleans(), heavy=st.booleans()))

def leftovers(tmp):
    return sorted(os.listdir(tmp))

@part('bundle', bundle, quick=360, thorough=2000, rule='steps, a command script and a dynamic MIB, or a tarball replaced by another', seconds=70, shards=3)
def contents(c):
    r = rng(c['seed'])
    d = tmpdir()
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        n = 1 + c['again']
        fn = None
        for k in range(n):
            mem, w = make(r, d, c['big'] and k == 0, c['heavy'])
            if fn is None:
                fn = os.path.join(d, (w['pre'] if c['own'] else 'other') + c['ext'])
            elif r.integers(2):
                os.unlink(fn)
            write(fn, mem, r)
            compare(fn, mem, w, r)
            check(leftovers(tmp) == [], 'files left behind: %s', leftovers(tmp))
        # without one of the files
        drop = str(r.choice(['.ses', '.cs', '_metadata.txt']))
        mem2 = {k: v for k, v in mem.items() if not k.endswith(drop)}
        write(fn, mem2, r)
        refused(lambda: {'.ses': mb.get_session_spec, '.cs': mb.get_command_script, '_metadata.txt': mb.get_session_metadata}[drop](fn), RuntimeError, 'a tarball without a %s file is read' % drop)
        if drop != '_metadata.txt':
            check(mb.is_valid(fn) is False, 'a tarball without a %s file is valid' % drop)
        check(leftovers(tmp) == [], 'files left behind: %s', leftovers(tmp))
    finally:
        tempfile.tempdir = old
    return c['again'] or ('sdm' in w and any(m[1] for m in w['obs']) and len(w['cs']) > 0)

bad = st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['cut', 'mark', 'endmark', 'steps', 'many', 'command', 'DP', 'ADP'])))

@part('broken', bad, quick=450, thorough=3000, rule='every case', seconds=40)
def broken(c):
    r = rng(c['seed'])
    d = tmpdir()
    fn = os.path.join(d, 'x.bin')
    def put(b):
        with open(fn, 'wb') as fh:
            fh.write(b)
    nm = names(r)
    if c['kind'] in ('cut', 'mark', 'endmark', 'steps', 'many'):
        while True:
            b, m = make_obs(r, nm, 1)
            if c['kind'] != 'mark' or len(m[1]):
                break
        if c['kind'] == 'cut':
            b = b[:int(r.integers(0, len(b) - 3))] if r.integers(2) else b[:-int(r.integers(4, 3000))]
        elif c['kind'] == 'endmark':
            b = b[:-4] + struct.pack('<I', int(r.integers(0, 2**32 - 1)))
        elif c['kind'] == 'mark':
            k = int(r.integers(len(m[1])))
            at = OSF.itemsize + sum(STP.itemsize + (BEAM.itemsize if x[1] is not None else 0) + 4 for x in m[1][:k + 1]) - 4
            b = b[:at] + struct.pack('<I', int(r.integers(0, 2**32 - 2))) + b[at + 4:]
        elif c['kind'] == 'many':
            # a good file but for the number of the steps
            a = m[0].copy()
            a['nstp'] = n = int(r.choice([1025, 1026, 1100, 1500]))
            b = a.tobytes() + (np.array((1, 2, 3, 4, 5, 1), STP).tobytes() + struct.pack('<I', 2**32 - 2))*n + m[2].tobytes()
        else:
            a = m[0].copy()
            a['nstp'] = int(r.integers(1025, 2**32))
            b = a.tobytes() + b[OSF.itemsize:]
        put(b)
        t0 = time.time()
        refused(lambda: mb.read_obs_file(fn), IOError, 'a broken observation file is read (%s)' % c['kind'])
        check(time.time() - t0 < 20, 'broken file keeps the reader busy')
        mem, w = make(r, d)
        mem[f"{w['pre']}_0001.obs"] = b
        tn = os.path.join(d, 'x.tgz')
        write(tn, mem, r)
        check(mb.is_valid(tn) is False, 'a tarball with a broken observation is valid')
    elif c['kind'] == 'command':
        # a length beyond the largest or a file that stops ends the script, what comes before is kept
        b, cmds = make_cs(r)
        body = b''.join(struct.pack('<qqiiii', v[0], v[1], v[2], v[3].value, v[4].value, v[5]) + ((t + b'\0')[:v[5]] if v[5] else b'') for v, t in cmds)
        put(body + struct.pack('<qqiiii', 5, 6, 0, SubsystemID.MCS.value, CommandID.PNG.value, int(r.integers(257, 2**31))) + b'x'*50)
        out = mb.read_cs_file(fn)
        check(len(out) == len(cmds), '%s commands of %s before the broken one', len(out), len(cmds))
    else:
        put(struct.pack('<qqiiii', 5, 6, 0, SubsystemID[c['kind']].value, CommandID.PNG.value, 0))
        refused(lambda: mb.read_cs_file(fn), RuntimeError, 'a command script of another station is read')
    return True

def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            st_ = os.lstat(p)
            out[os.path.relpath(p, d)] = (st_.st_mode, os.readlink(p) if os.path.islink(p) else (open(p, 'rb').read() if os.path.isfile(p) else None))
    return out

SUFFIX = ['.ses', '.obs', '.cs', '_metadata.txt', '.txt', '_ASP_begin.pag', '_ASP_end.gdb']
SPECIAL = ['mindelay.txt', 'mcs.host', 'dynamic/sdm.dat', 'ssmif.dat']
hostile = st.fixed_dictionaries(dict(seed=seeds, how=st.sampled_from(['dotdot', 'absolute', 'middle', 'symlink', 'hardlink', 'through', 'special', 'dirlink']), suffix=st.sampled_from(SUFFIX), ms=st.integers(0, 4), extra=st.booleans()))

@part('hostile', hostile, quick=1500, thorough=8000, rule='every case', seconds=60, shards=2)
def outside(c):
    """All names resolve inside the scratch directory of this case even if nothing stops them."""
    r = rng(c['seed'])
    d = tmpdir()
    tmp, deep = os.path.join(d, 'tmp'), os.path.join(d, 'keep')
    os.mkdir(tmp)
    os.mkdir(deep)
    sfx = c['suffix']
    victim = os.path.join(deep, 'victim' + sfx)
    with open(victim, 'wb') as fh:
        fh.write(b'7\n')
    os.mkdir(os.path.join(deep, 'dynamic'))
    nm = names(r)
    payload = {'.ses': make_ses(r, nm, 1)[0], '.obs': make_obs(r, nm, 1)[0], '.cs': make_cs(r)[0], '_metadata.txt': make_meta(r, 2)[0], '.txt': b'PI_ID 1\n'}.get(sfx, b'x'*20)
    tn = os.path.join(d, 'x.tgz')
    before = tree(deep)
    ms = c['ms'] == 0
    if ms:
        sfx = '/MAIN'
    mem = []
    def reg(n, b=payload):
        ti = tarfile.TarInfo(n)
        ti.size = len(b)
        mem.append((ti, b))
    def link(n, to, kind=tarfile.SYMTYPE):
        ti = tarfile.TarInfo(n)
        ti.type, ti.linkname = kind, to
        mem.append((ti, None))
    if ms:
        reg('x.ms/table.dat')
    if c['how'] == 'dotdot':
        reg('../../keep/new' + sfx)
        reg('../../keep/' + os.path.basename(victim))
    elif c['how'] == 'middle':
        reg('a/../../../keep/new' + sfx)
    elif c['how'] == 'absolute':
        reg(os.path.join(deep, 'new' + sfx))
    elif c['how'] == 'symlink':
        link('l' + sfx, victim if r.integers(2) else '../../keep/' + os.path.basename(victim))
        if r.integers(2):
            reg('l' + sfx)
    elif c['how'] == 'hardlink':
        link('l' + sfx, victim if r.integers(2) else '../../keep/' + os.path.basename(victim), tarfile.LNKTYPE)
        if r.integers(2):
            reg('l' + sfx)
    elif c['how'] == 'through':
        link('l' + ('.ses' if ms else sfx), deep if r.integers(2) else '../../keep')
        reg('l' + ('.ses' if ms else sfx) + '/new' + sfx)
    elif c['how'] == 'dirlink':
        link('dynamic', os.path.join(deep, 'dynamic'))
        reg('dynamic/sdm.dat', b'z'*10)
    else:
        n = SPECIAL[int(r.integers(len(SPECIAL)))]
        link(n, victim, tarfile.SYMTYPE if r.integers(2) else tarfile.LNKTYPE)
        if r.integers(2):
            reg(n)
    if c['extra']:
        for s in SUFFIX[:3]:
            reg('good_0001' + s, b'')
    with tarfile.open(tn, 'w:gz') as tf:
        for ti, b in mem:
            tf.addfile(ti, io.BytesIO(b) if b is not None else None)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        if ms:
            from lsl.imaging.utils import CorrelatedData, CorrelatedDataMS
            calls = [lambda: CorrelatedDataMS(tn), lambda: CorrelatedData(tn)]
        else:
            calls = [lambda f=f: f(tn) for f in (mb.get_session_spec, mb.get_observation_spec, mb.get_command_script, mb.get_session_metadata, mb.get_sdf, mb.get_sdm, mb.get_beamformer_min_delay, mb.get_mcs_hostname, mb.get_station, mb.is_valid, mb.get_asp_configuration, mb.get_asp_configuration_summary)]
            calls.append(lambda: mb.get_asp_configuration(tn, which='end'))
        for k, f in enumerate(calls):
            res = None
            try:
                res = f()
            except (Exception, SystemExit):
                pass
            check(tree(deep) == before, 'a file outside of the temporary directory changed')
            check(res != 7, 'a file outside of the temporary directory was read')
            if not ms:
                check(leftovers(tmp) == [], 'files left behind: %s', leftovers(tmp))
    finally:
        os.chdir(cwd)
        tempfile.tempdir = old
    return True
