"""C16: conversions between linear, Stokes and circular polarization products."""
import warnings, logging
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.imaging import utils
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

LIN, STO, CIR = ['XX', 'YY', 'XY', 'YX'], ['I', 'Q', 'U', 'V'], ['RR', 'LL', 'RL', 'LR']

# output: (two inputs, coefficients)
TO_STOKES = {'I': ('XX', 'YY', 1, 1), 'Q': ('XX', 'YY', 1, -1), 'U': ('XY', 'YX', 1, 1), 'V': ('XY', 'YX', 1j, -1j)}
TO_LINEAR = {'XX': ('I', 'Q', .5, .5), 'YY': ('I', 'Q', .5, -.5), 'XY': ('U', 'V', .5, -.5j), 'YX': ('U', 'V', .5, .5j)}
TO_CIRC = {'RR': ('I', 'V', 1, 1), 'LL': ('I', 'V', 1, -1), 'RL': ('Q', 'U', 1, 1j), 'LR': ('Q', 'U', 1, -1j)}
FUNC = {'stokes': (utils.convert_to_stokes, TO_STOKES, LIN, STO), 'linear': (utils.convert_to_linear, TO_LINEAR, STO, LIN), 'circular': (utils.convert_to_circular, TO_CIRC, STO, CIR)}

case = st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), kind=st.sampled_from(sorted(FUNC)), which=st.sampled_from([15]*12 + [3, 12]*2 + list(range(16))), order=st.booleans(), nbl=st.integers(1, 5), nchan=st.integers(1, 4),
                                  nt=st.sampled_from([0, 1, 2, 3]), dtype=st.sampled_from(['c8', 'c16']), extra=st.booleans(), wrong=st.sampled_from([False, False, False, True])))

@part('convert', case, quick=7500, thorough=100000, rule='at least one product can be formed')
def convert(c):
    r = rng(c['seed'])
    fn, table, src, dst = FUNC[c['kind']]
    have = [p for i, p in enumerate(src) if c['which'] >> i & 1]
    if c['order']:
        have = [have[i] for i in r.permutation(len(have))]
    if c['wrong']:
        have = have + [dst[int(r.integers(4))]]
    shape = (c['nbl'], c['nchan'])
    def one(jd):
        base = [(0, k+1) for k in range(c['nbl'])]
        ds = VisibilityDataSet(jd, 30e6 + 1e6*np.arange(c['nchan']), base, r.normal(size=(c['nbl'], 3, c['nchan'])), phase_center='z', **({'int_time': 4.5} if c['extra'] else {}))
        for p in have:
            ds.append(PolarizationDataSet(p, data=(r.normal(size=shape) + 1j*r.normal(size=shape)).astype(c['dtype']), weight=r.uniform(0, 2, shape).astype('f4'), mask=r.uniform(size=shape) < .3))
        return ds
    sets = [one(2455000.5 + k) for k in range(max(1, c['nt']))]
    orig = [d.copy() for d in sets]
    arg = sets[0] if c['nt'] == 0 else VisibilityData(list(sets))
    want = {o: t for o, t in table.items() if t[0] in have and t[1] in have}
    def call(f, a):
        try:
            return f(a)
        except RuntimeError:
            return None
    out = call(fn, arg)
    def equal(a, b):
        return list(a.pols) == list(b.pols) and all(np.array_equal(getattr(a, p).data, getattr(b, p).data) and np.array_equal(getattr(a, p).weight, getattr(b, p).weight)
                                                    and np.array_equal(getattr(a, p).mask, getattr(b, p).mask) for p in a.pols)
    check(all(equal(a, b) for a, b in zip(sets, orig)), 'the input changed')
    if not want or c['wrong']:
        check(out is None, 'converted %s to %s', have, None if out is None else out.pols)
        return False
    check(out is not None, 'refused to convert %s', have)
    outs = [out] if c['nt'] == 0 else list(out)
    check(isinstance(out, VisibilityDataSet if c['nt'] == 0 else VisibilityData) and len(outs) == len(sets), 'kind of the result')
    tol = 1e-5 if c['dtype'] == 'c8' else 1e-12
    for a, b in zip(outs, sets):
        check(a.jd == b.jd and list(a.baselines) == list(b.baselines) and np.array_equal(a.uvw, b.uvw) and np.array_equal(a.freq, b.freq) and a.phase_center == b.phase_center, 'metadata')
        check(not c['extra'] or a.int_time == 4.5, 'extra attributes')
        check(sorted(a.pols) == sorted(want), 'products %s from %s', a.pols, have)
        for o, (p, q, cp, cq) in want.items():
            P, Q, O = getattr(b, p), getattr(b, q), getattr(a, o)
            check(O.polarization == o, 'name')
            close(O.data, cp*P.data + cq*Q.data, rtol=tol, atol=tol, msg=o)
            close(O.weight, (P.weight + Q.weight)/2, rtol=1e-6, msg='weights of ' + o)
            check(np.array_equal(O.mask, P.mask | Q.mask), 'mask of %s', o)
    # there and back
    if c['kind'] != 'circular':
        other = 'linear' if c['kind'] == 'stokes' else 'stokes'
        back = call(FUNC[other][0], out)
        wb = {o for o, t in FUNC[other][1].items() if t[0] in want and t[1] in want}
        check((back is None) == (not wb), 'conversion back')
        if back is not None:
            for a, b in zip([back] if c['nt'] == 0 else list(back), sets):
                for o in wb:
                    close(getattr(a, o).data, getattr(b, o).data, rtol=tol, atol=tol, msg='back: ' + o)
            label('back')
    # mutating the result leaves the input alone
    for a in outs:
        for pd in a:
            pd.data[...] = 5; pd.weight[...] = 5; pd.mask[...] = True
        a.uvw[...] = 0
    check(all(equal(a, b) and np.array_equal(a.uvw, b.uvw) for a, b in zip(sets, orig)), 'the result shares memory with the input')
    return True

# A physical oracle: polarized waves built from Jones vectors
@part('jones', st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), kind=st.sampled_from(['x', 'y', '45', 'rot', 'circ', 'unpol']))), quick=600, thorough=5000, rule='always')
def jones(c):
    r = rng(c['seed'])
    if c['kind'] == 'unpol':
        coh = np.eye(2)*r.uniform(0.1, 5)
    else:
        a = r.uniform(0.1, 3)
        v = {'x': [a, 0], 'y': [0, a], '45': [a, a], 'rot': [a*np.cos(0.3), a*np.sin(0.3)], 'circ': [a, 1j*a]}[c['kind']]
        coh = np.outer(v, np.conj(v))
    ds = VisibilityDataSet(2455000.5, np.array([30e6]), [(0, 1)], np.zeros((1, 3, 1)))
    for p, val in zip(LIN, (coh[0, 0], coh[1, 1], coh[0, 1], coh[1, 0])):
        ds.append(PolarizationDataSet(p, data=np.array([[val]], 'c16')))
    s = utils.convert_to_stokes(ds)
    I, Q, U, V = [complex(getattr(s, p).data[0, 0]) for p in STO]
    check(max(abs(x.imag) for x in (I, Q, U, V)) < 1e-9, 'Stokes parameters of a wave are real: %s', (I, Q, U, V))
    pol = np.sqrt(Q.real**2 + U.real**2 + V.real**2)
    if c['kind'] == 'unpol':
        check(pol < 1e-9*I.real, 'polarization of an unpolarized wave')
    else:
        close(pol, I.real, rtol=1e-9, msg='degree of polarization')
    exp = {'x': Q.real, 'y': -Q.real, '45': U.real, 'circ': abs(V.real)}.get(c['kind'])
    if exp is not None:
        close(exp, I.real, rtol=1e-9, msg='type of polarization')
    k = utils.convert_to_circular(s)
    RR, LL, RL, LR = [complex(getattr(k, p).data[0, 0]) for p in CIR]
    close(RR + LL, 2*I, rtol=1e-9, msg='total intensity')
    close(RL, np.conj(LR), rtol=1e-9, atol=1e-12, msg='RL and LR')
    close(abs(RL), np.hypot(Q.real, U.real), rtol=1e-9, atol=1e-12, msg='linear polarization')
    return True
