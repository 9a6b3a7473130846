"""C15: in-memory visibility data keep every value with its baseline through sorting, selection, copying and rephasing."""
import warnings, logging, copy, ephem
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
import aipy
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.sim import vis as simvis
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

C = 299792458.0
POLS = [['XX'], ['YY', 'XX'], ['XX', 'YY', 'XY', 'YX'], ['I', 'Q', 'U', 'V'], ['RR', 'LL']]

class World:
    """A small array, a set of integrations and a reference model of them: {pol: {(i, j): (data, weight, mask)}}."""
    def __init__(self, c):
        r = self.r = rng(c['seed'])
        self.n = c['nant']
        self.lat, self.lon, self.elev = r.uniform(-60, 60), r.uniform(-179, 179), 100.0
        self.enu = r.uniform(-1, 1, (self.n, 3))*[80, 80, 3]
        self.ids = [int(v) for v in r.permutation(np.arange(1, 257))[:self.n]]
        self.freq = r.uniform(20e6, 60e6) + np.arange(c['nchan'])*r.choice([25e3, 1e6])
        site = LWAStation('X', self.lat, self.lon, self.elev, id='XX')
        ants = [Antenna(i+1, stand=Stand(self.ids[i], *self.enu[i]), pol=0, digitizer=i+1) for i in range(self.n)]
        site.antennas = ants
        self.aa = simvis.build_sim_array(site, ants, self.freq/1e9, jd=2455000.5, force_flat=True)
        self.auto = c['auto']
        self.pols = c['pols']
        self.base = [(i, j) for i in range(self.n) for j in range(i if self.auto else i+1, self.n)]
        self.jd0 = 2455000.5 + int(r.integers(0, 3000)) + r.uniform(0, 1)

    def observer(self, jd):
        o = ephem.Observer()
        o.lat, o.lon, o.elevation, o.pressure = str(self.lat), str(self.lon), self.elev, 0
        o.date = ephem.Date(jd - 2415020.0)
        return o

    def direction(self, pc, jd):
        if isinstance(pc, str):
            return np.array([0, 0, 1.0])
        o = self.observer(jd)
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = pc._ra, pc._dec, ephem.J2000
        b.compute(o)
        return np.array([np.cos(b.alt)*np.sin(b.az), np.cos(b.alt)*np.cos(b.az), np.sin(b.alt)])

    def source(self, jd, alt, az, name='src'):
        """A body with this position in the sky at this time, and J2000 coordinates."""
        o = self.observer(jd)
        o.epoch = ephem.J2000
        ra, dec = o.radec_of(az, alt)
        return aipy.amp.RadioFixedBody(float(ra), float(dec), name=name, epoch=ephem.J2000)

    def w(self, bl, pc, jd):
        i, j = bl
        return (self.enu[i] - self.enu[j])@self.direction(pc, jd)*self.freq/C

    def dataset(self, jd, pc='z', base=None, **extra):
        r = self.r
        base = list(base if base is not None else self.base)
        base = [base[k] for k in r.permutation(len(base))]
        uvw = np.zeros((len(base), 3, len(self.freq)))
        for k, (i, j) in enumerate(base):
            uvw[k, :, :] = r.normal(size=(3, 1))*r.uniform(0, 40)*self.freq/self.freq[0]
        ds = VisibilityDataSet(jd, self.freq.copy(), list(base), uvw.copy(), antennaarray=self.aa, phase_center=pc, **extra)
        m = dict(jd=jd, pc=pc, base=list(base), uvw={b: uvw[k].copy() for k, b in enumerate(base)}, pols={}, extra=dict(extra))
        for p in self.pols:
            d = (r.normal(size=(len(base), len(self.freq))) + 1j*r.normal(size=(len(base), len(self.freq)))).astype('c8' if r.integers(2) else 'c16')
            wgt = r.uniform(0.1, 2, d.shape).astype('f4')
            msk = r.uniform(size=d.shape) < 0.2
            kind = r.integers(3)
            if kind == 0:
                ds.append(PolarizationDataSet(p.lower() if r.integers(2) else p, data=d.copy(), weight=wgt.copy(), mask=msk.copy()))
            elif kind == 1:
                wgt, msk = np.ones_like(wgt), np.zeros_like(msk)
                ds.append(PolarizationDataSet(p, data=d.copy()))
            else:
                ds.append(PolarizationDataSet(p, data=d.copy(), weight=wgt.copy(), mask=msk.copy()))
            m['pols'][p] = {b: (d[k].copy(), wgt[k].copy(), msk[k].copy()) for k, b in enumerate(base)}
        return ds, m

def same(ds, m, what, rtol=0.0, order=True):
    check(ds.jd == m['jd'], '%s: jd', what)
    check(abs(ds.mjd - (m['jd'] - 2400000.5)) < 1e-9, '%s: mjd', what)
    bls = [tuple(int(v) for v in b) for b in ds.baselines]
    if order:
        check(bls == m['base'], '%s: baselines %s, expected %s', what, bls, m['base'])
    else:
        check(sorted(bls) == sorted(m['base']), '%s: baselines', what)
    check(ds.nbaseline == len(bls) and ds.npol == len(m['pols']) and ds.nchan == len(ds.freq), '%s: counts', what)
    check(list(ds.pols) == list(m['pols']), '%s: polarizations %s', what, ds.pols)
    check([p.polarization for p in ds] == list(m['pols']), '%s: iteration', what)
    check(all(p in ds for p in m['pols']) and 'ZZ' not in ds, '%s: membership', what)
    check(ds.uvw.shape == (len(bls), 3, ds.nchan), '%s: shape of uvw', what)
    for k, b in enumerate(bls):
        close(ds.uvw[k], m['uvw'][b], rtol=1e-12, atol=m.get('uvwtol', 0), msg=f'{what}: uvw of {b}')
    for p, vals in m['pols'].items():
        pd = getattr(ds, p)
        check(pd.nbaseline == len(bls), '%s: length of %s', what, p)
        check(pd.data.shape == pd.weight.shape == pd.mask.shape == (len(bls), ds.nchan), '%s: shapes of %s', what, p)
        for k, b in enumerate(bls):
            close(pd.data[k], vals[b][0], rtol=rtol, atol=m.get('tol', 0), msg=f'{what}: {p} of {b}')
            check(np.array_equal(pd.weight[k], vals[b][1]), '%s: weights of %s %s', what, p, b)
            check(np.array_equal(pd.mask[k], vals[b][2]), '%s: mask of %s %s', what, p, b)
    for k, v in m['extra'].items():
        check(np.array_equal(getattr(ds, k), v), '%s: attribute %s', what, k)
    if isinstance(m['pc'], str):
        check(ds.phase_center == m['pc'], '%s: phase center', what)
    else:
        check(ds.phase_center is m['pc'], '%s: phase center', what)

def select(m, keep):
    base = [b for b in m['base'] if keep(b)]
    n = dict(m)
    n['base'] = base
    n['uvw'] = {b: m['uvw'][b].copy() for b in base}
    n['pols'] = {p: {b: tuple(x.copy() for x in v[b]) for b in base} for p, v in m['pols'].items()}
    n['extra'] = dict(m['extra'])
    return n

def scribble(ds):
    """Change everything in a data set in place."""
    for pd in ds:
        pd.data[...] = 99 if pd.data.size else 0
        pd.weight[...] = -1
        pd.mask[...] = True
    ds.uvw[...] = 1e9
    ds.freq[...] = 1
    if ds.baselines:
        ds.baselines[0] = (77, 77)
        ds.baselines.append((1, 1))

sizes = dict(nant=st.integers(2, 6), nchan=st.sampled_from([1, 2, 3, 5]), auto=st.booleans(), pols=st.sampled_from(POLS), seed=st.integers(0, 10**6))

# --- one polarization ---------------------------------------------------------------------------------------

def rows(r, n, nchan):
    return [((r.normal(size=nchan) + 1j*r.normal(size=nchan)).astype('c8'), r.uniform(0, 2, nchan).astype('f4'), r.uniform(size=nchan) < 0.3) for _ in range(n)]

@part('pol', st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), nchan=st.integers(1, 5), ops=st.lists(st.sampled_from(['append', 'append2', 'appendw', 'extend', 'extendw', 'sort', 'subset', 'copy', 'bad']), min_size=1, max_size=8),
                                         start=st.integers(0, 4))), quick=2000, thorough=50000, rule='at least two rows')
def polarization(c):
    r = rng(c['seed'])
    model = rows(r, c['start'], c['nchan'])
    if model:
        pd = PolarizationDataSet('xx', *[np.array([m[k] for m in model]) for k in range(3)])
    else:
        pd = PolarizationDataSet('xx')
    def verify(pd, model, what):
        check(pd.polarization == 'XX' and pd.nbaseline == len(model), '%s: %s rows, expected %s', what, pd.nbaseline, len(model))
        if not model:
            return
        check(pd.data.shape == pd.weight.shape == pd.mask.shape == (len(model), c['nchan']), '%s: shapes %s %s %s', what, pd.data.shape, pd.weight.shape, pd.mask.shape)
        for k, m in enumerate(model):
            check(np.array_equal(pd.data[k], m[0]) and np.array_equal(pd.weight[k], m[1]) and np.array_equal(pd.mask[k], m[2]), '%s: row %s', what, k)
    verify(pd, model, 'start')
    one = lambda m: (m[0], np.ones(c['nchan'], 'f4'), np.zeros(c['nchan'], bool))
    for op in c['ops']:
        if op == 'append':                       # one visibility, default weight and mask
            m = rows(r, 1, c['nchan'])[0]
            pd.append(m[0].copy()[None, :] if not model else (m[0].copy() if r.integers(2) else m[0].copy()[None, :]))
            model.append(one(m))
        elif op == 'append2':
            m = rows(r, 1, c['nchan'])[0]
            pd.append(*[x.copy()[None, :] for x in m])
            model.append(m)
        elif op == 'appendw':
            m = rows(r, 1, c['nchan'])[0]
            pd.append(m[0][None, :].copy(), weight=m[1][None, :].copy())
            model.append((m[0], m[1], np.zeros(c['nchan'], bool)))
        elif op == 'extend':
            ms = rows(r, int(r.integers(1, 4)), c['nchan'])
            pd.extend(np.array([m[0] for m in ms]))
            model += [one(m) for m in ms]
        elif op == 'extendw':
            ms = rows(r, int(r.integers(1, 4)), c['nchan'])
            pd.extend(*[np.array([m[k] for m in ms]) for k in range(3)])
            model += ms
        elif op == 'sort' and model:
            o = [int(v) for v in r.permutation(len(model))]
            pd.sort(o)
            model = [model[i] for i in o]
        elif op == 'subset' and model:
            sel = [int(v) for v in r.permutation(len(model))[:r.integers(1, len(model)+1)]]
            sub = pd.subset(sel)
            verify(sub, [model[i] for i in sel], 'subset')
            sub.data[...] = 0
        elif op == 'copy' and model:
            q = pd.copy()
            verify(q, model, 'copy')
            q.data[...] = 0; q.weight[...] = 9; q.mask[...] = True
        elif op == 'bad':
            for bad in (lambda: pd.sort(list(range(len(model)+1))) if model else (_ for _ in ()).throw(ValueError()),
                        lambda: pd.append(np.zeros((1, c['nchan']), 'c8'), weight=np.ones((1, c['nchan']+1), 'f4')),
                        lambda: pd.append(np.zeros((1, c['nchan']), 'c8'), mask=np.ones((2, c['nchan']), bool))):
                try:
                    bad()
                except ValueError:
                    pass
                else:
                    check(False, 'wrong shapes were accepted')
        verify(pd, model, op)
    return len(model) >= 2

# --- histories of a collection --------------------------------------------------------------------------------

OPS = ['append', 'append', 'extend', 'pop', 'sort', 'sortone', 'copy', 'uv', 'subset', 'subsetall', 'rephase', 'setitem', 'dup', 'replace', 'bad']

@part('history', st.fixed_dictionaries(dict(sizes, ops=st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10**6)), min_size=1, max_size=10),
                                             start=st.sampled_from(['empty', 'list', 'tuple', 'one']))), quick=1500, thorough=60000, shards=3, rule='at least two integrations at some time')
def history(c):
    W = World(c)
    r = W.r
    njd = [0]
    def new():
        njd[0] += 1
        jd = W.jd0 + njd[0]*int(r.integers(1, 50))*0.001 + njd[0]*1.0
        pc = 'z' if r.integers(2) else W.source(jd, r.uniform(0.6, 1.5), r.uniform(0, 6.28))
        ex = {'int_time': float(r.uniform(1, 9)), 'tags': np.arange(3)} if r.integers(2) else {}
        return W.dataset(jd, pc, **ex)
    if c['start'] == 'empty':
        V, M = VisibilityData(), []
    elif c['start'] == 'one':
        d, m = new()
        V, M = VisibilityData(d), [m]
    else:
        pairs = [new() for _ in range(2)]
        arg = [d for d, _ in pairs]
        given = tuple(arg) if c['start'] == 'tuple' else arg
        V, M = VisibilityData(given), [m for _, m in pairs]
    deep = len(M) >= 2
    def verify(what):
        check(len(V) == len(M), '%s: %s integrations, expected %s', what, len(V), len(M))
        check(V.jds == [m['jd'] for m in M], '%s: order of the integrations', what)
        close(V.mjds, [m['jd'] - 2400000.5 for m in M], rtol=0, atol=1e-9, msg='mjds')
        for k, ds in enumerate(V):
            same(ds, M[k], f'{what} [{k}]')
        if M:
            check(V.nbaseline == len(M[0]['base']) and V.npol == len(W.pols) and V.nchan == len(W.freq), '%s: counts', what)
            check([tuple(b) for b in V.baselines] == M[0]['base'] and list(V.pols) == W.pols, '%s: lists', what)
            check(np.array_equal(V.freq, W.freq), '%s: frequencies', what)
        else:
            check(V.nbaseline == 0 and V.npol == 0 and V.nchan == 0, '%s: counts of nothing', what)
    verify('start')
    for op, sd in c['ops']:
        W.r = r = rng(sd)
        if op == 'append':
            d, m = new()
            V.append(d); M.append(m)
        elif op == 'extend':
            pairs = [new() for _ in range(2)]
            V.extend([d for d, _ in pairs]); M += [m for _, m in pairs]
        elif op == 'pop' and M:
            k = int(r.integers(-len(M), len(M)))
            d = V.pop(k); m = M.pop(k)
            same(d, m, 'popped')
        elif op == 'sort':
            V.sort()
            M.sort(key=lambda m: m['jd'])
            for m in M:
                m['base'] = sorted(m['base'])
        elif op == 'sortone' and M:
            k = int(r.integers(len(M)))
            if r.integers(2):
                V[k].sort()
                M[k]['base'] = sorted(M[k]['base'])
            else:
                o = [int(v) for v in r.permutation(len(M[k]['base']))]
                V[k].sort(o)
                M[k]['base'] = [M[k]['base'][i] for i in o]
        elif op == 'copy' and M:
            Q = V.copy()
            check(len(Q) == len(M), 'copy: integrations')
            for k, q in enumerate(Q):
                same(q, M[k], 'copy')
                scribble(q)
            q = V[0].copy(include_pols=False)
            check(q.npol == 0 and not list(q) and q.jd == M[0]['jd'], 'copy without polarizations')
            Q2 = V.copy(include_pols=False)
            check(len(Q2) == len(M) and Q2.npol == 0, 'copy without polarizations')
            label('copy')
        elif op == 'uv' and M:
            k = int(r.integers(len(M)))
            mid = len(W.freq)//2
            dist = {b: float(np.hypot(*M[k]['uvw'][b][:2, mid])) for b in M[k]['base']}
            lo, hi = sorted(r.uniform(0, 60, 2))
            if any(min(abs(v-lo), abs(v-hi)) < 1e-6 for v in dist.values()):
                continue
            a, b_ = (lo, hi) if r.integers(2) else (hi, lo)
            sub = V[k].get_uv_range(min_uv=a, max_uv=b_)
            n = select(M[k], lambda b: lo <= dist[b] < hi)
            same(sub, n, 'uv range')
            if n['base']:
                scribble(sub)
            if len(M) == 1:
                sub = V.get_uv_range(a, b_)
                same(sub[0], n, 'uv range of the collection')
            label('uv')
        elif op in ('subset', 'subsetall') and M:
            k = int(r.integers(len(M)))
            pick = lambda: [int(v) for v in r.permutation(W.n)[:r.integers(0, W.n+1)]]
            inc = pick() if r.integers(3) else None
            exc = pick() if r.integers(3) else None
            keepset = set(range(W.n)) if inc is None else set(inc)
            if exc is not None and inc is None:
                keepset -= set(exc)
            idx = bool(r.integers(2))
            conv = (lambda v: v) if idx else (lambda v: None if v is None else [W.ids[i] for i in v])
            if inc is not None and exc is not None:
                label('both')
            kw = dict(include=conv(inc), exclude=conv(exc), indicies=idx)
            if kw['include'] is None and r.integers(2):
                kw['include'] = 'all'
            if kw['exclude'] is None and r.integers(2):
                kw['exclude'] = 'none'
            for q in ('include', 'exclude'):
                if isinstance(kw[q], list) and r.integers(2):
                    kw[q] = tuple(kw[q])
            if not idx and isinstance(kw['exclude'], (list, tuple)) and r.integers(2):
                kw['exclude'] = list(kw['exclude']) + [5000]          # a stand that is not there
            before = copy.deepcopy(kw)
            noaa = idx and bool(r.integers(2))
            if noaa:
                saved = [d.antennaarray for d in V]
                for d in V:
                    d.antennaarray = None
                label('no-array')
            keep = lambda b: b[0] in keepset and b[1] in keepset
            if op == 'subset':
                subs, ks = [V[k].get_antenna_subset(**kw)], [k]
            else:
                subs, ks = V.get_antenna_subset(**kw), range(len(M))
                check(len(subs) == len(M), 'subset: integrations')
            for s, kk in zip(subs, ks):
                n = select(M[kk], keep)
                same(s, n, 'antenna subset %s' % (kw,))
                if n['base']:
                    scribble(s)
            if noaa:
                for d, a in zip(V, saved):
                    d.antennaarray = a
            check(kw == before, 'the selection lists were changed: %s', kw)
            label('subset-stands' if not idx else 'subset-index')
        elif op == 'rephase' and M:
            k = int(r.integers(len(M)))
            jd = M[k]['jd']
            new_pc = 'z' if r.integers(3) == 0 else W.source(jd, r.uniform(0.6, 1.5), r.uniform(0, 6.28), name='new')
            old = M[k]['pc']
            V[k].rephase(new_pc)
            s, s0 = W.direction(new_pc, jd), W.direction(old, jd)
            for b in M[k]['base']:
                ph = np.exp(2j*np.pi*(W.w(b, old, jd) - W.w(b, new_pc, jd)))
                for p in W.pols:
                    d, wg, mk = M[k]['pols'][p][b]
                    M[k]['pols'][p][b] = (d*ph, wg, mk)
            M[k]['pc'] = new_pc
            M[k]['tol'] = M[k].get('tol', 0) + 0.15
            # projected coordinates: length and w are fixed by the directions
            for kk, b in enumerate(V[k].baselines):
                uvw = V[k].uvw[kk]
                sep = W.enu[b[0]] - W.enu[b[1]]
                close(uvw[2], W.w(b, new_pc, jd), rtol=1e-3, atol=0.02, msg='w after rephasing')
                close(np.sqrt((uvw**2).sum(axis=0)), np.full(len(W.freq), np.linalg.norm(sep))*W.freq/C, rtol=1e-4, atol=1e-3, msg='length after rephasing')
                if new_pc != 'z':
                    pole = np.array([0, np.cos(np.radians(W.lat)), np.sin(np.radians(W.lat))])
                    east = np.cross(pole, s); east /= np.linalg.norm(east)
                    if np.linalg.norm(np.cross(pole, s)) > 0.2:
                        close(uvw[0], sep@east*W.freq/C, rtol=3e-3, atol=0.3, msg='u after rephasing')
                        close(uvw[1], sep@np.cross(s, east)*W.freq/C, rtol=3e-3, atol=0.3, msg='v after rephasing')
                else:
                    close(uvw[:2], sep[:2, None]*W.freq/C, rtol=1e-3, atol=0.02, msg='uv after rephasing to zenith')
            M[k]['uvw'] = {tuple(b): V[k].uvw[kk].copy() for kk, b in enumerate(V[k].baselines)}
            label('rephase')
        elif op == 'setitem' and M:
            k = int(r.integers(len(M)))
            d, m = new()
            V[k] = d; M[k] = m
        elif op == 'dup' and M:
            try:
                V.append(V[int(r.integers(len(M)))].copy())
            except ValueError:
                pass
            else:
                check(False, 'a second integration of the same time was accepted')
        elif op == 'replace' and M:
            k = int(r.integers(len(M)))
            p = W.pols[int(r.integers(len(W.pols)))]
            shape = (len(M[k]['base']), len(W.freq))
            d = r.normal(size=shape) + 1j*r.normal(size=shape)
            V[k].append(PolarizationDataSet(p, data=d.copy()))
            M[k]['pols'][p] = {b: (d[i].copy(), np.ones(shape[1], 'f4'), np.zeros(shape[1], bool)) for i, b in enumerate(M[k]['base'])}
        elif op == 'bad':
            calls = [lambda: V.append('x'), lambda: V.extend(['x']), lambda: VisibilityData(['x']), lambda: VisibilityData(3)]
            if M:
                calls += [lambda: V[0].append('x'), lambda: V[0].append(PolarizationDataSet('XX', data=np.zeros((len(M[0]['base'])+1, len(W.freq)), 'c8'))), lambda: V.__setitem__(0, 'x'),
                          lambda: V[0].get_antenna_subset(include=3.5)]
                below = W.source(M[0]['jd'], -0.5, 1.0)
                calls += [lambda: V[0].rephase(below)]
            for f in calls:
                try:
                    f()
                except (TypeError, ValueError, RuntimeError):
                    pass
                else:
                    check(False, 'a wrong value was accepted')
        verify(op)
        deep |= len(M) >= 2
    if c['start'] == 'list':
        check([d.jd for d in arg] == [arg[0].jd, arg[1].jd] and len(given) == 2, 'the list given was changed')
    return deep

# --- a point source ------------------------------------------------------------------------------------------

@part('pointsource', st.fixed_dictionaries(dict(sizes, alt=st.floats(0.3, 1.5), az=st.floats(0, 6.28), alt0=st.floats(0.3, 1.5), az0=st.floats(0, 6.28), start=st.sampled_from(['z', 'src']), nt=st.integers(1, 3))),
      quick=1200, thorough=30000, rule='phase centers more than a degree apart')
def pointsource(c):
    W = World(c)
    V = VisibilityData()
    src = W.source(W.jd0, c['alt'], c['az'])
    for t in range(c['nt']):
        jd = W.jd0 + t*600/86400
        pc0 = 'z' if c['start'] == 'z' else W.source(jd, c['alt0'], c['az0'], name='first')
        ds, m = W.dataset(jd, pc0)
        for p in W.pols:
            for k, b in enumerate(ds.baselines):
                getattr(ds, p).data[k] = np.exp(2j*np.pi*(W.w(b, src, jd) - W.w(b, pc0, jd)))
        V.append(ds)
    if W.direction(src, W.jd0 + (c['nt']-1)*600/86400)[2] < 0.1:
        raise Reject()
    start = [{p: getattr(d, p).data.copy() for p in W.pols} for d in V]
    pcs = [d.phase_center for d in V]
    V.rephase(src)
    for d in V:
        for p in W.pols:
            close(getattr(d, p).data, np.ones_like(getattr(d, p).data), rtol=0, atol=0.1, msg='a point source at the phase center')
    for k, d in enumerate(V):
        d.rephase(pcs[k])
        for p in W.pols:
            close(getattr(d, p).data, start[k][p], rtol=0, atol=1e-4, msg='rephasing back')
    # below the horizon: refused, and nothing changes
    low = W.source(W.jd0, -0.4, c['az'])
    if all(W.direction(low, d.jd)[2] < -0.05 for d in V):
        state = [(d.uvw.copy(), {p: getattr(d, p).data.copy() for p in W.pols}) for d in V]
        try:
            V.rephase(low)
        except RuntimeError:
            pass
        else:
            check(False, 'rephased to a source below the horizon')
        V.rephase(low, ignore_errors=True)
        for d, (uvw, dd), pc in zip(V, state, pcs):
            check(np.array_equal(d.uvw, uvw) and all(np.array_equal(getattr(d, p).data, dd[p]) for p in W.pols) and d.phase_center is pc, 'a refused rephasing changed the data')
        label('below')
    return abs(c['alt'] - c['alt0']) + abs(c['az'] - c['az0']) > 0.02
