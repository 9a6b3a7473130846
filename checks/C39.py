"""C39: the command line tools split, correlate, average, and predict what their options ask for."""
import builtins
import contextlib
import glob
import io
import logging
import math
import os
import runpy
import sys
import warnings
from types import SimpleNamespace
from unittest import mock
os.environ['MPLBACKEND'] = 'Agg'
import ephem
import numpy as np
from hypothesis import strategies as st
from vlib.core import *
from vlib import core, formats as F
import lsl
from lsl import astro, skymap
from lsl.common import metabundle, stations
from lsl.common.mcs import ObservingMode
from lsl.correlator import fx
from lsl.imaging import utils as iutils
from lsl.misc import ionosphere
from lsl.reader.base import FrameTimestamp
from lsl.sim.beam import beam_response
from lsl.logger import LSL_LOGGER
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
warnings.simplefilter('ignore')
LSL_LOGGER.setLevel(logging.CRITICAL)

FS = 196000000
seeds = st.integers(0, 2**31)
SITES = {n: (getattr(stations, n).lat*1.0, getattr(stations, n).long*1.0, getattr(stations, n).elev*1.0) for n in ('lwa1', 'lwasv', 'lwana')}
SITES['ovrolwa'] = (math.radians(37.23977727), math.radians(-118.2816667), 1183.48)
SCRIPTS = os.path.join(core.REPO, 'scripts')


def tool(name, args, cwd, answers=()):
    """Run a script as a user would, in the directory cwd; its output, and the code of sys.exit if it called that."""
    out, ans, lvl = io.StringIO(), list(answers), LSL_LOGGER.level
    keep = [(s, {k: getattr(s, k) for k in ('name', 'lat', 'long', 'elev')}) for s in (stations.lwa1, stations.lwasv, stations.lwana)]
    old = os.getcwd()
    plt.close('all')
    os.chdir(cwd)
    code = None
    try:
        with mock.patch.object(sys, 'argv', [name] + [str(a) for a in args]), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), \
                mock.patch.object(plt, 'show', lambda *a, **k: None), mock.patch.object(builtins, 'input', lambda *a: ans.pop(0)):
            try:
                runpy.run_path(os.path.join(SCRIPTS, name), run_name='__main__')
            except SystemExit as e:
                code = e.code if e.code is not None else 0
    finally:
        os.chdir(old)
        LSL_LOGGER.setLevel(lvl)
        for s, d in keep:
            for k, v in d.items():
                setattr(s, k, v)
    return out.getvalue(), code


def put(path, data):
    with open(path, 'wb') as fh:
        fh.write(data)


def get(path):
    with open(path, 'rb') as fh:
        return fh.read()


T0 = FS*1600000000 + 4096*784*3
DECS = {1: 784, 2: 392, 3: 196, 4: 98, 5: 40, 6: 20, 7: 10}

split_case = st.fixed_dictionaries(dict(
    seed=seeds, code=st.sampled_from(sorted(DECS)), tunes=st.sampled_from([(1, 2), (1, 2), (1,)]), ncap=st.integers(45, 90), part=st.integers(0, 3), junk=st.sampled_from([0, 0, 0, 5, 4128]),
    off=st.one_of(st.just(0.0), st.floats(0, 25)), count=st.one_of(st.integers(1, 12), st.integers(1, 200)), frac=st.floats(0.1, 0.9), recursive=st.booleans(), date=st.booleans(), toff=st.sampled_from([0, 0, 1000])))


@part('split_drx', split_case, quick=240, thorough=2000, shards=2, seconds=60, rule='a file that starts inside of a capture or an offset that is not zero')
def c_split_drx(c):
    g = rng(c['seed'])
    dec = DECS[c['code']]
    ids = [(t, p) for t in c['tunes'] for p in (0, 1)]
    frames = [(k, i, F.drx(beam=2, tune=t, pol=p, decimation=dec, time_offset=c['toff'], timetag=T0 + k*4096*dec, tuning_word=2**30, re=int(g.integers(-7, 8)), im=int(g.integers(-7, 8))))
              for k in range(c['ncap']) for i, (t, p) in enumerate(ids)]
    frames = frames[c['part'] % len(ids):]
    d = tmpdir()
    put(os.path.join(d, 'in.dat'), b'\x01'*c['junk'] + b''.join(f for _, _, f in frames))
    per = 4096*dec/FS
    args = ['in.dat', '-c', repr((c['count'] + c['frac'])*per), '-o', repr(c['off']*per)] + ['-r']*c['recursive'] + ['-d']*c['date']
    out, code = tool('splitDRX.py', args, d)
    check(code is None, 'exit %s: %s', code, out)
    whole = b''.join(f for k, i, f in frames)
    names = sorted(n for n in os.listdir(d) if n != 'in.dat')
    got = [get(os.path.join(d, n)) for n in names]
    # where the first piece starts
    at = {f: (k, i) for k, i, f in frames if True}
    starts = [(k, i) for k, i, f in frames]
    first = whole.find(got[0][:4128])
    check(got[0] and first >= 0 and first % 4128 == 0, 'the first piece does not start with a frame of the file')
    k0, i0 = starts[first//4128]
    check(i0 == 0, 'the first piece starts with frame %s of a capture', i0)
    d0 = k0 - frames[0][0] - c['off']
    check(-1 <= d0 <= 1.001 + (1 if c['part'] % len(ids) else 0), 'the first piece starts %s captures from the offset asked for', d0)
    size = 4128*len(ids)*c['count']
    left = len(whole) - first
    n = max(left//size, 1) if c['recursive'] else 1
    check(len(got) == n, '%s files, expected %s', names, n)
    for r in range(n):
        check(got[r] == whole[first + r*size:first + (r+1)*size], 'piece %s of %s has %s bytes, expected those at %s', r, n, len(got[r]), first + r*size)
        if c['date']:
            t = (T0 + (k0 + r*c['count'])*4096*dec - c['toff'])/FS
            base = names[r][len('in_'):-len('.dat')]
            from datetime import datetime, timezone
            w = datetime.fromisoformat(base).replace(tzinfo=timezone.utc).timestamp()
            check(abs(w - t) < 2e-5, 'piece %s is named %s', r, names[r])
    label('recursive' if n > 1 else 'date' if c['date'] else 'single')
    return bool(c['part'] % len(ids) or c['off'])


class Target:
    def __init__(self, i):
        self.target = ['Cyg A', 'B1919/21', 'Sun & Moon', 'Zenith'][i % 4] + str(i)


sess_case = st.fixed_dictionaries(dict(
    seed=seeds, tbs=st.sampled_from([False, False, False, True]), nobs=st.integers(1, 5), early=st.sampled_from([0, 0, 0, 0.2, 2.5]), cut=st.sampled_from([1, 1, 0.7, 0.3]), shuffle=st.booleans(),
    source=st.booleans(), force=st.booleans(), old=st.lists(st.booleans(), min_size=5, max_size=5), answer=st.sampled_from(['y', 'n', '', 'N']), list=st.sampled_from([False]*5 + [True]),
    wrong=st.sampled_from(['']*8 + ['beam', 'time']), gap=st.floats(0, 0.6)))


@part('split_session', sess_case, quick=240, thorough=2000, shards=2, seconds=60, rule='two or more observations in the file')
def c_split_session(c):
    g = rng(c['seed'])
    base_mjd, base_mpm = 59000 + int(g.integers(0, 500)), int(g.integers(0, 86000000))
    start = (base_mjd - 40587)*86400000 + base_mpm                    # ms since 1970
    obs, frames, t = [], [], start
    for i in range(c['nobs']):
        code = 8 if c['tbs'] else int(g.integers(1, 4))
        dur = int(g.integers(3, 20)) if c['tbs'] else int(g.integers(100, 400))
        mjd, mpm = divmod(t, 86400000)
        obs.append(dict(mjd=40587 + mjd, mpm=mpm, mode=ObservingMode.TBS if c['tbs'] else ObservingMode.TRK_RADEC, dur=dur, bw=code, project_id='LT001', session_id=7, obs_id=i+1, drx_beam=3))
        # the frames of this observation; the recorder may leave gaps between observations
        end = t + dur
        nxt = end + (int(g.integers(0, 50)) if g.random() < 0.5 else 0)
        step = 8192 if c['tbs'] else 4096*DECS[code]
        lo = t*FS//1000 - (-t*FS//1000) % 1
        tick = t*FS//1000 + int(g.integers(0, step))
        stop = (end if g.random() < c['gap'] else nxt)*FS//1000
        while tick < stop:
            if c['tbs']:
                frames.append((tick, F.tbx(frame_count=len(frames) + 1, first_chan=100, nstand=64, nchan=4, timetag=tick, re=int(g.integers(-7, 8)), im=int(g.integers(-7, 8)))))
            else:
                for tn, p in ((1, 0), (1, 1), (2, 0), (2, 1)):
                    frames.append((tick, F.drx(beam=3, tune=tn, pol=p, decimation=DECS[code], timetag=tick, tuning_word=2**30, re=int(g.integers(-7, 8)), im=int(g.integers(-7, 8)))))
            tick += step
        t = nxt
    # the recording may start late and stop early
    frames = frames[int(c['early']*len(frames)/c['nobs']):]
    frames = frames[:int(len(frames)*c['cut'])]
    if len(frames) < 16:
        raise Reject()
    limits = [((o['mjd'] - 40587)*86400000 + o['mpm'])*FS//1000 for o in obs]
    if any(abs(f[0] - s) < 600 for f in frames for s in limits):
        raise Reject()                                                # a frame within 3 us of a start belongs to either side
    data = b''.join(f for _, f in frames)
    fs = len(frames[0][1])
    pos = [sum(1 for f in frames if f[0] < s)*fs for s in limits] + [len(data)]
    given = list(obs)
    if c['shuffle']:
        given = [obs[i] for i in g.permutation(len(obs))]
    d = tmpdir()
    put(os.path.join(d, 'data'), data)
    put(os.path.join(d, 'meta.tgz'), b'')
    if c['wrong'] == 'beam' and c['tbs']:
        c['wrong'] = ''
    if c['wrong'] == 'beam':
        given = [dict(o, drx_beam=2) for o in given]
    if c['wrong'] == 'time':
        given = [dict(o, mjd=o['mjd'] + 1) for o in given]
    targets = [Target(i) for i in range(c['nobs'])]
    sdf = SimpleNamespace(sessions=[SimpleNamespace(observations=targets)])

    def name(i):
        return 'LT001_7_' + (targets[i].target.replace(' ', '').replace('/', '').replace('&', 'and') if c['source'] else str(i+1)) + '.dat'
    for i in range(c['nobs']):
        if c['old'][i]:
            put(os.path.join(d, name(i)), b'old')
    seen = []

    def stand_in(v):
        def f(fn, *a, **k):
            seen.append(fn)
            return v
        return f
    with mock.patch.object(metabundle, 'get_sdf', stand_in(sdf)), mock.patch.object(metabundle, 'get_session_spec', stand_in({})), mock.patch.object(metabundle, 'get_observation_spec', stand_in([dict(o) for o in given])):
        out, code = tool('splitSession.py', ['meta.tgz', 'data'] + ['-l']*c['list'] + ['-s']*c['source'] + ['-f']*c['force'], d, [c['answer']]*5)
    if c['list'] or c['wrong']:
        check(sorted(os.listdir(d)) == sorted(['data', 'meta.tgz'] + [name(i) for i in range(c['nobs']) if c['old'][i]]), 'files %s of a run that should write none', os.listdir(d))
        return False
    check(code is None, 'exit %s: %s', code, out)
    n = 0
    for i in range(c['nobs']):
        p = os.path.join(d, name(i))
        got = get(p) if os.path.exists(p) else None
        want = data[pos[i]:pos[i+1]] if pos[i] < len(data) else None
        if c['old'][i] and (want is None or not c['force'] and c['answer'].lower() == 'n'):
            check(got == b'old', 'an output file that should have been kept was changed')
        elif not want:
            check(not got, 'observation %s, which has no data, has %s bytes', i+1, len(got or b''))
        else:
            check(got is not None, 'no file for observation %s: %s', i+1, sorted(os.listdir(d)))
            check(got == want, 'observation %s: %s bytes from %s, expected %s from %s', i+1, len(got), data.find(got[:fs*2]), len(want), pos[i])
            n += 1
    label('tbs' if c['tbs'] else 'drx')
    return n >= 2


def curves():
    """Each curve of the figures: the title, the frequencies in Hz, the values."""
    out = []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            u = {'Hz': 1, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}[ax.get_xlabel().split('[')[1].split(']')[0]]
            out.append((ax.get_title(), np.array(ax.lines[0].get_xdata(), float)*u, np.array(ax.lines[0].get_ydata(), float)))
    plt.close('all')
    return out


def same_curve(title, f, y, wf, wp, msg):
    check(len(f) == len(wf), '%s: %s channels, expected %s', title, len(f), len(wf))
    close(f, wf, 1e-9, 1.0, msg + ': frequencies of ' + title)
    with np.errstate(all='ignore'):
        close(y, 10*np.log10(wp), 0, 2e-3, msg + ': spectrum of ' + title)


freqs = st.sampled_from([2**30, 2**29 + 12345, 2**31 - 7, 1000003])
drx_case = st.fixed_dictionaries(dict(
    seed=seeds, code=st.sampled_from(sorted(DECS)), is8=st.booleans(), ncap=st.integers(45, 70), skip=st.one_of(st.just(0), st.integers(0, 12)), n=st.integers(2, 20), L=st.sampled_from([64, 128, 256, 1024]),
    win=st.sampled_from(['', '-t', '-b', '-n', '-p']), w1=freqs, w2=freqs, beam=st.integers(1, 4)))


@part('drx_spectra', drx_case, quick=90, thorough=800, shards=2, seconds=60, rule='a run with a skip or a window')
def c_drx_spectra(c):
    g = rng(c['seed'])
    dec = DECS[c['code']]
    ids = [(t, p) for t in (1, 2) for p in (0, 1)]
    lim = 100 if c['is8'] else 7
    amp = [lim, lim*0.7, lim*0.5, lim*0.9]
    x = np.zeros((4, c['ncap']*4096, 2), int)
    tt = np.arange(c['ncap']*4096)
    for i in range(4):
        ph = 2*np.pi*tt*float(g.uniform(-0.5, 0.5))
        env = amp[i]*(0.4 + 0.6*(tt//4096 % 7)/7)
        noise = g.normal(0, 1, (2, tt.size))
        x[i, :, 0] = np.clip(np.round(env*np.cos(ph) + noise[0]), -lim, lim)
        x[i, :, 1] = np.clip(np.round(env*np.sin(ph) + noise[1]), -lim, lim)
    raw = b''.join(F.drx(beam=c['beam'], tune=t, pol=p, decimation=dec, timetag=T0 + k*4096*dec, tuning_word=c['w1'] if t == 1 else c['w2'], drx8=c['is8'],
                         re=x[i, k*4096:(k+1)*4096, 0], im=x[i, k*4096:(k+1)*4096, 1]) for k in range(c['ncap']) for i, (t, p) in enumerate(ids))
    d = tmpdir()
    put(os.path.join(d, 'x.dat'), raw)
    per = 4096*dec/FS
    skip = min(c['skip'], c['ncap'] - 40)
    out, code = tool('drxSpectra.py', ['x.dat', '-q', '-s', repr((skip + 0.01)*per if skip else 0.0), '-a', repr((c['n'] + 0.2)*per), '-l', c['L']] + [c['win']]*bool(c['win']) + ['-o', 'x.png'], d)
    check(os.path.exists(os.path.join(d, 'x.png')), 'no image')
    got = curves()
    check(len(got) == 4, '%s curves', len(got))
    win = {'-t': np.bartlett, '-b': np.blackman, '-n': np.hanning}.get(c['win'], fx.null_window)
    z = (x[..., 0] + 1j*x[..., 1])[:, skip*4096:(skip + c['n'])*4096]
    if c['win'] == '-p':
        wf, wp = fx.SpecMaster(z.astype(np.complex64), LFFT=c['L'], window=win, pfb=True, sample_rate=FS/dec, clip_level=0)
    else:
        s = np.abs(np.fft.fft(z.reshape(4, -1, c['L'])*win(c['L']), axis=2))**2
        wp = np.fft.fftshift(s.mean(axis=1), axes=1)/c['L']
        wf = np.fft.fftshift(np.fft.fftfreq(c['L'], d=dec/FS))
    for i, (t, p) in enumerate(ids):
        title, f, y = got[i]
        check('Tune. %d' % t in title and 'Pol. %d' % p in title and 'Beam %d' % c['beam'] in title, 'curve %s is called %s', i, title)
        with np.errstate(all='ignore'):
            m = wp[i] > 1e-3*wp[i].mean()                 # the samples are few bits: deep nulls of strong tones are rounding
        same_curve(title, f[m], y[m], (wf + (c['w1'] if t == 1 else c['w2'])*FS/2**32)[m], wp[i][m], 'drxSpectra')
    label(c['win'] or 'none')
    return bool(skip or c['win'])


spec_case = st.fixed_dictionaries(dict(seed=seeds, dec=st.sampled_from([10, 20, 40, 98]), fmt=st.sampled_from(sorted(F.DRSPEC_FORMATS)), nf=st.sampled_from([32, 64, 256]), nint=st.sampled_from([1, 8, 100]),
                                       nset=st.integers(12, 40), skip=st.integers(0, 6), n=st.integers(1, 6), w1=freqs, w2=freqs, fills=st.lists(st.integers(1, 50), min_size=4, max_size=4)))


@part('drspec_spectra', spec_case, quick=120, thorough=800, seconds=60, rule='two or more products')
def c_drspec(c):
    g = rng(c['seed'])
    prods = F.DRSPEC_FORMATS[c['fmt']]
    nf, npr = c['nf'], len(prods)
    step = nf*c['nint']*c['dec']
    data = g.uniform(0.5, 20, (c['nset'], 2, nf, npr)).astype(np.float32)*np.float32(10)**g.integers(0, 3, (1, 2, 1, npr)).astype(np.float32)
    d = tmpdir()
    put(os.path.join(d, 'x.dat'), b''.join(F.drspec(timetag=T0 + k*step, decimation=c['dec'], tuning_words=(c['w1'], c['w2']), fills=c['fills'], beam=2, fmt=c['fmt'], nfreq=nf, nint=c['nint'], data=data[k]) for k in range(c['nset'])))
    tint = step/FS
    out, code = tool('drSpecSpectra.py', ['x.dat', '-q', '-s', repr((c['skip'] + 0.01)*tint if c['skip'] else 0.0), '-a', repr((c['n'] + 0.2)*tint)], d)
    got = curves()
    check(len(got) == 2*npr, '%s curves', len(got))
    sel = data[c['skip']:c['skip'] + c['n']].astype(float)
    base = np.fft.fftshift(np.fft.fftfreq(nf, d=c['dec']/FS))
    for i, (title, f, y) in enumerate(got):
        t, k = divmod(i, npr)
        check(title.endswith(prods[k]) and 'Beam 2' in title, 'curve %s is called %s', i, title)
        same_curve(title, f, y, base + (c['w1'], c['w2'])[t]*FS/2**32, sel[:, t, :, k].mean(axis=0)/F.drspec_norm(prods[k], t, nf, c['fills']), 'drSpecSpectra')
    label(str(npr))
    return npr > 1


tbx_case = st.fixed_dictionaries(dict(seed=seeds, nchan=st.sampled_from([4, 8]), blocks=st.integers(1, 2), nset=st.integers(20, 40), c0=st.integers(200, 1600), full=st.booleans(),
                                      gain=st.booleans(), keep=st.one_of(st.none(), st.lists(st.integers(1, 64), min_size=1, max_size=24, unique=True))))


def tbx_file(c, path, nset):
    """A TBX file for LWA-NA: samples (antenna, channel, time)."""
    g = rng(c['seed'])
    lo = -8 if c['full'] else -7
    nch = c['nchan']*c['blocks']
    x = g.integers(lo, 8, (128, nch, nset, 2))
    if c['full']:
        x[g.random(x.shape[:3]) < 0.2] = -8
    # antennas that have something in common, with a phase that differs
    com = g.integers(-3, 4, (1, nch, nset, 2))
    h = g.random(128) < 0.5
    x[h] = np.clip(x[h]//2 + com, lo, 7)
    step = 8192
    put(path, b''.join(F.tbx(frame_count=k+1, first_chan=c['c0'] + b*c['nchan'], nstand=64, nchan=c['nchan'], timetag=T0 + k*step,
                             re=x[:, b*c['nchan']:(b+1)*c['nchan'], k, 0].T.reshape(c['nchan'], 64, 2), im=x[:, b*c['nchan']:(b+1)*c['nchan'], k, 1].T.reshape(c['nchan'], 64, 2))
                       for k in range(nset) for b in range(c['blocks'])))
    return x


@part('tbx_spectra', tbx_case, quick=30, thorough=200, shards=2, seconds=70, rule='a list of stands or the cable loss correction')
def c_tbx_spectra(c):
    d = tmpdir()
    x = tbx_file(c, os.path.join(d, 'x.dat'), c['nset'])
    from lsl.reader import ldp
    with ldp.LWADataFile(os.path.join(d, 'x.dat')) as f:
        freq = np.array(f.get_info('freq1'))
        fC = f.get_info('sample_rate')
    close(freq, (c['c0'] + np.arange(x.shape[1]))*fC, 1e-9, 0, 'channel frequencies')
    args = ['x.dat', '-q', '-n', '-a', '1.0'] + ['-g']*c['gain']
    if c['keep']:
        args += ['-k', ','.join(str(k) for k in c['keep'])]
    out, code = tool('tbxSpectra.py', args, d)
    got = curves()
    ants = stations.lwana.antennas
    pw = (x.astype(float)**2).sum(axis=3).mean(axis=2)
    sel = [i for i in range(128)] if not c['keep'] else [i for k in c['keep'] for i, a in enumerate(ants) if a.stand.id == k]
    check(len(got) == len(sel), '%s curves for %s antennas', len(got), len(sel))
    for (title, f, y), i in zip(got, sel):
        a = ants[i]
        check('Stand: %i' % a.stand.id in title and '(%i)' % a.pol in title and 'Dig: %i ' % a.digitizer in title, 'curve of antenna %s is called %s', i, title)
        same_curve(title, f, y, freq, pw[i]/(a.cable.gain(freq) if c['gain'] else 1.0), 'tbxSpectra')
    label('keep' if c['keep'] else 'all')
    return bool(c['keep'] or c['gain'])


cor_case = st.fixed_dictionaries(dict(seed=seeds, nchan=st.sampled_from([4, 8]), blocks=st.integers(1, 2), c0=st.integers(400, 1600), full=st.booleans(), nint=st.integers(2, 6), per=st.integers(2, 6),
                                      samples=st.integers(1, 4), off=st.integers(0, 1), pols=st.sampled_from(['-x', '-y', '-2', '-4']), decim=st.sampled_from([1, 1, 2, 4]), all=st.booleans(), zero=st.sampled_from([False]*4 + [True])))


@part('correlate', cor_case, quick=24, thorough=100, shards=2, seconds=90, rule='two or more integrations')
def c_correlate(c):
    if c['nchan']*c['blocks']//c['decim'] < 2:
        raise Reject()                    # the writers need two channels for the channel width
    d = tmpdir()
    nset = c['nint']*c['per'] + 1
    x = tbx_file(c, os.path.join(d, 'x.dat'), nset)
    fC = FS/8192
    args = ['x.dat', '-n', '-q', c['pols'], '-s', c['samples'], '-d', c['decim']] + ['-a']*c['all']
    off = 0
    if c['zero']:
        per = nset
    else:
        per = c['per']
        off = c['off']*per if c['nint'] > 2 else 0
        args += ['-t', repr((per + 0.01)/fC), '-o', repr((off + 0.01)/fC if off else 0.0)]
    out, code = tool('correlateTBX.py', args, d)
    pols = {'-x': ['XX'], '-y': ['YY'], '-2': ['XX', 'YY'], '-4': ['XX', 'YY', 'XY', 'YX']}[c['pols']]
    ants = stations.lwana.antennas
    ok = {0: set(), 1: set()}
    for a in ants:
        if c['all'] or a.combined_status == 33:
            ok[a.pol].add(a.stand.id)
    use = [i for i, a in enumerate(ants) if a.stand.id in ok[0] & ok[1]]
    freq = (c['c0'] + np.arange(x.shape[1]))*fC
    z = (x[..., 0] + 1j*x[..., 1]).astype(np.complex64)
    if c['decim'] > 1:
        freq = freq.reshape(-1, c['decim']).mean(axis=1)
        z = z.reshape(128, -1, c['decim'], nset).mean(axis=2)
    total = min(c['samples'], nset//per - off//per)
    check(sorted(os.listdir(d)) == ['x.FITS_1', 'x.dat'], 'files %s', os.listdir(d))
    idi = iutils.CorrelatedData(os.path.join(d, 'x.FITS_1'))
    try:
        check(idi.integration_count == total, '%s integrations, expected %s', idi.integration_count, total)
        check(sorted(idi.pols) == sorted({'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}[p] for p in pols), 'products %s', idi.pols)
        close(np.array(idi.freq), freq, 1e-9, 1.0, 'frequencies')
        for k in range(total):
            ds = idi.get_data_set(k+1, include_auto=True)
            lo = off + k*per
            t = (T0 + lo*8192)/FS
            check(abs((ds.jd - 2440587.5)*86400 - t) < 1e-4 + per/fC, 'integration %s is at %s s from its start', k, (ds.jd - 2440587.5)*86400 - t)
            for p in pols:
                bl, want = fx.XMaster(freq, z[use][:, :, lo:lo+per], [ants[i] for i in use], pol=p, include_auto=True, gain_correct=True, return_baselines=True)
                ref = {(a.stand.id, b.stand.id): v for (a, b), v in zip(bl, want)}
                vis = getattr(ds, p).data
                check(len(vis) == len(ref), '%s baselines, expected %s', len(vis), len(ref))
                pairs = [(idi.stands[i], idi.stands[j]) for i, j in ds.baselines]
                check(set(pairs) == set(ref), 'baselines')
                w = np.array([ref[q] for q in pairs])
                w = np.ma.filled(w, 0)
                close(np.asarray(vis), w, 1e-4, 1e-4*float(np.abs(w).max()), '%s of integration %s' % (p, k))
    finally:
        idi.close()
    label(c['pols'])
    return total > 1


rm_case = st.fixed_dictionaries(dict(seed=seeds, ra=st.floats(0, 23.99), dec=st.floats(-30, 88), site=st.sampled_from(['lwa1', 'lwasv', 'lwana', 'ovrolwa']), n=st.integers(1, 5),
                                     kind=st.sampled_from(['', '-i', '-j', '-e', '-c', '-u', '-q', '-g']), day=st.integers(0, 3000), s=st.integers(0, 86399), dur=st.integers(1, 86000), file=st.booleans()))


@part('ionosphere', rm_case, quick=250, thorough=1500, seconds=60, rule='the source is above the horizon at some of the times')
def c_rm(c):
    from datetime import datetime, timedelta
    t1 = datetime(2012, 1, 1) + timedelta(days=c['day'], seconds=c['s'])
    t2 = t1 + timedelta(seconds=c['dur'])
    seen = []

    def tec(mjd, lat=None, lng=None, include_rms=False, type='IGS'):
        seen.append((mjd, lat, lng, type))
        v = 10 + 5*math.sin(lat*0.3) + 3*math.cos(lng*0.2) + (mjd % 1)
        return (np.array([[v]]), np.array([[v/7]])) if include_rms else np.array([[v]])
    ra, dec = ephem.hours(c['ra']*math.pi/12), ephem.degrees(math.radians(c['dec']))
    d = tmpdir()
    args = ['--' + c['site']]*(c['site'] != 'lwa1') + [c['kind']]*bool(c['kind']) + ['-n', c['n']]
    m1 = (t1 - datetime(1858, 11, 17)).total_seconds()/86400
    m2 = (t2 - datetime(1858, 11, 17)).total_seconds()/86400
    mjds = np.linspace(m1, m2, c['n'])
    if c['file']:
        g = rng(c['seed'])
        mjds = np.sort(np.round(g.uniform(m1, m2, c['n']), 6))
        with open(os.path.join(d, 'm.txt'), 'w') as fh:
            fh.write('\n'.join('%.6f' % m for m in g.permutation(mjds)) + '\n')
        args += ['-f', 'm.txt']
    args += ['--', str(ra), str(dec), t1.strftime('%Y/%m/%d'), t1.strftime('%H:%M:%S'), t2.strftime('%Y/%m/%d'), t2.strftime('%H:%M:%S')]
    with mock.patch.object(ionosphere, 'get_tec_value', tec):
        out, code = tool('getIonosphericRM.py', args, d)
    check(code is None, 'exit %s: %s', code, out)
    rows = [l.split() for l in out.splitlines() if l[:1].isdigit()]
    check(len(rows) == len(mjds), '%s rows, expected %s', len(rows), len(mjds))
    lat, lon, elev = SITES[c['site']]
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.pressure = lat, lon, elev, 0
    b = ephem.FixedBody()
    b._ra, b._dec = ephem.hours(str(ra)), ephem.degrees(str(dec))
    up = 0
    for m, row in zip(mjds, rows):
        check(abs(float(row[0]) - m) < 2e-6, 'row for %s, expected %s', row[0], m)
        o.date = m + 2400000.5 - 2415020.0
        b.compute(o)
        az, el = math.degrees(b.az), math.degrees(b.alt)
        if abs(el) < 0.1:
            continue
        check(abs(float(row[2]) - el) < 0.03 and abs((float(row[1]) - az + 180) % 360 - 180)*math.cos(math.radians(el)) < 0.03, 'az/el %s at %s, expected %s %s', row[1:3], c['site'], az, el)
        if el < 0:
            check(row[3] == '---', 'a value for a source below the horizon')
            continue
        up += 1
        st_ = SimpleNamespace(lat=lat, long=lon, elev=elev)
        s = stations.lwa1
        keep = (s.lat, s.long, s.elev)
        try:
            s.lat, s.long, s.elev = lat, lon, elev
            ilat, ilon, ielv = ionosphere.get_ionospheric_pierce_point(s, az, el)
        finally:
            s.lat, s.long, s.elev = keep
        q = min(seen, key=lambda v: abs(v[0] - m))
        check(abs(q[0] - m) < 1e-5 and abs(q[1] - ilat) < 0.05 and abs((q[2] - ilon + 180) % 360 - 180) < 0.1, 'the TEC is that of %s, expected %s %s', q, ilat, ilon)
        check(q[3] == {'': 'IGS', '-i': 'IGS', '-j': 'JPL', '-e': 'EMR', '-c': 'CODE', '-u': 'USTEC', '-q': 'UQR', '-g': 'GloTEC'}[c['kind']], 'TEC of %s for %s', q[3], c['kind'])
        v = tec(q[0], ilat, ilon)[0][0]
        seen.pop()
        B = np.array(ionosphere.get_magnetic_field(ilat, ilon, ielv, mjd=m, ecef=True))
        E = np.array([-math.sin(lon), math.cos(lon), 0])
        N = np.array([-math.sin(lat)*math.cos(lon), -math.sin(lat)*math.sin(lon), math.cos(lat)])
        U = np.array([math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat)])
        a, e = math.radians(az), math.radians(el)
        los = math.cos(e)*math.sin(a)*E + math.cos(e)*math.cos(a)*N + math.sin(e)*U
        bp = -float(B @ los)
        dm, rm = v*1e16/3.0857e22, 2.63e-13*v*1e16*bp*1e-9
        tol = 0.006*2.63e-13*v*1e16*float(np.linalg.norm(B))*1e-9 + 1e-3
        check(abs(float(row[3]) - dm) < 2e-3*dm + 2e-6, 'DM %s, expected %s', row[3], dm)
        check(abs(float(row[5]) - dm/7) < 2e-3*dm/7 + 2e-6, 'error of the DM %s, expected %s', row[5], dm/7)
        check(abs(float(row[6]) - rm) < tol, 'RM %s, expected %s', row[6], rm)
        check(abs(float(row[8]) - rm/7) < tol, 'error of the RM %s, expected %s', row[8], rm/7)
    label(c['site'])
    return up > 0


drift_case = st.fixed_dictionaries(dict(seed=seeds, site=st.sampled_from(['lwa1', 'lwasv', 'lwana', 'ovrolwa']), pol=st.sampled_from(['EW', 'NS']), emp=st.booleans(), lfsm=st.booleans(),
                                        f=st.integers(36, 79), step=st.sampled_from([120.0, 240.0, 333.0]), now=st.floats(2456000, 2459000)))


class SmallMap:
    degToRad = math.pi/180

    def __init__(self, seed, freq):
        g = rng(seed)
        z = g.uniform(-1, 1, 4000)
        self.ra = g.uniform(0, 360, z.size)
        self.dec = np.degrees(np.arcsin(z))
        self._power = 1000*(2 + np.sin(np.radians(self.ra)) + 0.5*np.cos(3*np.radians(self.dec)))*(freq/74.0)**-2.5

    def normalize_power(self):
        return self._power

    def compute_total_power(self):
        return self._power.sum()


@part('drift', drift_case, quick=48, thorough=300, shards=2, seconds=70, rule='every case')
def c_drift(c):
    d = tmpdir()
    maps = []

    def gsm(kind):
        def f(filename=None, freq_MHz=73.9):
            maps.append((kind, freq_MHz))
            return SmallMap(c['seed'] + (kind == 'lfsm'), freq_MHz)
        return f
    args = ['-f', c['f'], '-p', c['pol'], '-t', c['step']] + ['--' + c['site']]*(c['site'] != 'lwa1') + ['-e']*c['emp'] + ['-l']*c['lfsm']
    with mock.patch.object(skymap, 'SkyMapGSM', gsm('gsm')), mock.patch.object(skymap, 'SkyMapLFSM', gsm('lfsm')), mock.patch.object(astro, 'get_julian_from_sys', lambda: c['now']):
        out, code = tool('driftcurve.py', args, d)
    check(maps == [('lfsm' if c['lfsm'] else 'gsm', c['f'])], 'sky maps %s', maps)
    files = glob.glob(os.path.join(d, '*.txt'))
    check(len(files) == 1 and c['pol'] in os.path.basename(files[0]), 'files %s', files)
    tab = np.loadtxt(files[0], ndmin=2)
    n = int(math.ceil(1440/c['step'] - 1e-9))
    check(tab.shape == (n, 2), 'table %s, expected %s rows', tab.shape, n)
    lat, lon, elev = SITES[c['site']]
    smap = SmallMap(c['seed'] + c['lfsm'], c['f'])
    lst0 = float(astro.get_local_sidereal_time(math.degrees(lon), c['now']))
    for k in range(n):
        jd = c['now'] - lst0/24/1.00273791 + k*c['step']/1440
        w = float(astro.get_local_sidereal_time(math.degrees(lon), jd))
        check(abs((tab[k, 0] - w + 12) % 24 - 12) < 5e-3, 'row %s is for LST %s, expected %s', k, tab[k, 0], w)
        pm = skymap.ProjectedSkyMap(smap, math.degrees(lat), math.degrees(lon), jd)
        gain = beam_response('empirical' if c['emp'] else 'llfss', 'XX' if c['pol'] == 'EW' else 'YY', pm.visibleAz, pm.visibleAlt, frequency=c['f']*1e6, degrees=True)
        T = (pm.visiblePower*gain).sum()/gain.sum()
        check(abs(tab[k, 1]/T - 1) < 2e-3, 'temperature %s at LST %s of %s, expected %s', tab[k, 1], tab[k, 0], c['site'], T)
    label(c['site'])
    return True


insp_case = st.fixed_dictionaries(dict(seed=seeds, modes=st.one_of(st.lists(st.sampled_from(['TRK_RADEC', 'TRK_SOL', 'STEPPED']), min_size=1, max_size=4), st.lists(st.sampled_from(['TBS', 'TBT']), min_size=1, max_size=4)),
                                       beam=st.integers(-1, 4), spc=st.sampled_from([(0, 0), (1024, 6144), (32, 768)]), site=st.sampled_from(['lwa1', 'lwasv', 'lwana'])))


@part('inspect', insp_case, quick=120, thorough=1500, rule='every case')
def c_inspect(c):
    g = rng(c['seed'])
    start = 59000*86400000 + int(g.integers(0, 10**11))
    obs, spec, t = [], [], start
    for i, m in enumerate(c['modes']):
        dur = int(g.integers(1, 10**7))
        obs.append(SimpleNamespace(mjd=t//86400000, mpm=t % 86400000, dur=dur, mode=m, target='T%d x' % i, frequency1=float(g.integers(10, 88)*10**6), frequency2=float(g.integers(10, 88)*10**6),
                                   filter=int(g.integers(1, 8)), comments='note %d' % i, steps=[SimpleNamespace(is_radec=bool(g.integers(2)))]*int(g.integers(1, 9))))
        if g.random() < 0.8:
            spec.append(dict(obs_id=i+1, drx_gain=int(g.integers(0, 15))))
        t += dur + int(g.integers(0, 10**5))
    spec = [spec[i] for i in g.permutation(len(spec))]
    ses = SimpleNamespace(id=12, observations=obs, spc_setup=list(c['spc']), drx_beam=c['beam'])
    info = {i+1: {'tag': '05%04d_00%07d' % (i, i)} for i in range(len(obs))}
    asp = {'Beginning': {'asp_atten_1': 7}, 'End': {'asp_atten_1': 9}}
    stand = dict(get_sdf=lambda f: SimpleNamespace(id='LT001', sessions=[ses]), get_observation_spec=lambda f: spec, get_session_metadata=lambda f: info,
                 get_asp_configuration_summary=lambda f, which='Beginning': asp[which], get_station=lambda f: getattr(stations, c['site']))
    with contextlib.ExitStack() as es:
        for k, v in stand.items():
            es.enter_context(mock.patch.object(metabundle, k, v))
        out, code = tool('inspectTarball.py', ['x.tgz'], tmpdir())
    check(code is None, 'exit %s', code)
    lines = [l.strip() for l in out.splitlines()]

    def when(ms):
        from datetime import datetime, timedelta
        return datetime(1858, 11, 17) + timedelta(milliseconds=ms)

    def near(txt, ms):
        from datetime import datetime
        check(abs((datetime.strptime(txt.replace(' UTC', '').strip(), '%Y/%m/%d %H:%M:%S.%f') - when(ms)).total_seconds()) < 2e-3, 'time %s, expected %s', txt, when(ms))
    near([l for l in lines if l.startswith('-> First observation starts at')][0].split(' at ')[1], start)
    near([l for l in lines if l.startswith('-> Last observation ends at')][0].split(' at ')[1], (obs[-1].mjd*86400000 + obs[-1].mpm) + obs[-1].dur)
    tb = c['modes'][0] in ('TBS', 'TBT')
    if tb:
        kinds = set(c['modes'])
        w = 'Transient Buffer Mode: ' + (kinds.pop() if len(kinds) == 1 else 'both TBT and TBS')
        check(w in lines and not any(l.startswith('DRX Beam') for l in lines), 'expected %s in %s', w, lines[:14])
    else:
        check('DRX Beam: %s' % (c['beam'] if c['beam'] > 0 else 'MCS decides') in lines, 'beam %s in %s', c['beam'], lines[:14])
        check('DR Spectrometer used? %s' % ('Yes' if c['spc'][0] else 'No') in lines, 'spectrometer')
        if c['spc'][0]:
            check('-> %d channels, %d windows/integration' % c['spc'] in lines, 'spectrometer setup')
    at = [lines.index('Observation #%d' % (i+1)) for i in range(len(obs))] + [len(lines)]
    check(at == sorted(at), 'the order of the observations')
    for i, o in enumerate(obs):
        blk = lines[at[i]:at[i+1]]
        want = ['Target: ' + o.target, 'Mode: ' + o.mode, 'MJD: %d' % o.mjd, 'MPM: %d' % o.mpm, 'Observer Comments: ' + o.comments]
        if o.mode == 'STEPPED':
            want += ['Step Mode: ' + ('RA/Dec' if o.steps[0].is_radec else 'az/alt'), 'Step Count: %d' % len(o.steps)]
        if o.mode != 'TBT':
            want += ['Tuning 1: %.3f MHz' % (o.frequency1/1e6), 'Filter code: %d' % o.filter]
        if not tb:
            want += ['Tuning 2: %.3f MHz' % (o.frequency2/1e6)]
        sp = [s for s in spec if s['obs_id'] == i+1]
        if sp and not tb:
            want += ['Gain setting: %d' % sp[0]['drx_gain']]
        for w in want:
            check(w in blk, 'observation %s: no %r in %s', i+1, w, blk)
        near([l for l in blk if l.startswith('-> ')][0][3:], o.mjd*86400000 + o.mpm)
    for i in info:
        check('Obs. #%d: %s' % (i, info[i]['tag']) in lines, 'file of observation %s', i)
    label('tb' if tb else 'drx')
    return True


@part('drspec_chunks', st.fixed_dictionaries(dict(seed=seeds, nset=st.integers(10003, 10200), over=st.integers(0, 2), off=st.booleans())), quick=4, thorough=20, seconds=60, rule='every case')
def c_chunks(c):
    """More spectra than are read at once."""
    g = rng(c['seed'])
    step = 32*10
    data = g.uniform(0.5, 20, (c['nset'], 2, 32, 1)).astype(np.float32)
    data[c['nset']//2:] *= 3
    d = tmpdir()
    put(os.path.join(d, 'x.dat'), b''.join(F.drspec(timetag=T0 + k*step, decimation=10, tuning_words=(2**30, 2**29), beam=2, fmt=0x10, nfreq=32, nint=1, data=data[k]) for k in range(c['nset'])))
    n = c['nset'] - c['over']
    tool('drSpecSpectra.py', ['x.dat', '-q', '-a', repr((n + 0.2)*step/FS)] + ['-d']*c['off'], d)
    lines = [len(ax.lines) for ax in plt.gcf().axes]
    check(lines == [1 if c['off'] else 3]*2, '%s curves, for two chunks that are %s', lines, 'disabled' if c['off'] else 'enabled')
    for t, (title, f, y) in enumerate(curves()):
        w = data[:n, t, :, 0].astype(float).mean(axis=0)/F.drspec_norm('I', t, 32, (1, 1, 1, 1))
        close(y, 10*np.log10(w), 0, 5e-3, 'average of ' + title)
    return True
