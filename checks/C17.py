"""C17: gridded images are the dirty image of the visibilities, at the right place on the sky."""
import warnings, logging, ephem
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
import aipy
from astropy.coordinates import SkyCoord, FK5, ICRS
from astropy.time import Time
from astropy import units as u_
from lsl import astro
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.imaging import utils
from lsl.sim import vis as simvis
warnings.simplefilter('ignore')
np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

LAT, LON, ELEV = 34.068894, -107.628350, 2133.6
_site = LWAStation('X', LAT, LON, ELEV, id='XX')
_ants = [Antenna(i+1, stand=Stand(i+1, 10.0*i, 3.0*i*i, 0), pol=0, digitizer=i+1) for i in range(2)]
_site.antennas = _ants
AA = simvis.build_sim_array(_site, _ants, np.array([0.03, 0.04]), jd=2455000.5, force_flat=True)

def lm(N, res):
    """Direction cosines of the pixels of an unshifted image: east to the left, north up."""
    f = np.arange(N)
    f = np.where(f > N//2, f - N, f)/(N*res)
    L, M = np.meshgrid(-f, f)
    ok = L**2 + M**2 < 1
    return L, M, ok, np.sqrt(np.where(ok, 1 - L**2 - M**2, 0))

def dirty(uvw, V, N, res):
    L, M, ok, n = lm(N, res)
    img = np.zeros((N, N))
    for (a, b, c), val in zip(uvw.T, V):
        img += (val*np.exp(-2j*np.pi*(a*L + b*M + c*(n - 1)))).real
    return 2*img/N**2

def center_at(jd, r, kind):
    """A phase center well up in the sky, and its apparent position."""
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.pressure = str(LAT), str(LON), ELEV, 0
    o.date = ephem.Date(jd - 2415020.0)
    o.epoch = ephem.J2000
    ra, dec = o.radec_of(r.uniform(0, 2*np.pi), r.uniform(0.9, 1.5))
    body = aipy.amp.RadioFixedBody(float(ra), float(dec), name='pc', epoch=ephem.J2000)
    AA.set_jultime(jd)
    body.compute(AA)
    app = (float(body.ra), float(body.dec))
    if kind == 'body':
        return body, app, o
    fk5 = FK5(float(ra)*u_.rad, float(dec)*u_.rad, equinox='J2000')
    pc = {'skycoord': lambda: SkyCoord(fk5), 'fk5': lambda: fk5, 'icrs': lambda: fk5.transform_to(ICRS()), 'equ': lambda: astro.equ_posn(np.degrees(float(ra)), np.degrees(float(dec)))}[kind]()
    return pc, app, o

def coverage(r, nv, size, wmax, planar):
    uvw = np.array([r.uniform(-.33, .33, nv)*size, r.uniform(-.33, .33, nv)*size, r.uniform(-1, 1, nv)*wmax])
    if planar:
        uvw[2] = 0.0 if r.integers(2) else uvw[2]*1e-6
    return uvw

@st.composite
def gridcases(draw):
    return dict(seed=draw(st.integers(0, 10**6)), N=draw(st.sampled_from([30, 32, 40, 48, 50, 33])), res=draw(st.sampled_from([0.5, 0.75, 1.0, 2.0])), nbl=draw(st.sampled_from([3, 12, 40])), nchan=draw(st.integers(2, 5)),
                nt=draw(st.sampled_from([0, 1, 2, 3])), wmax=draw(st.sampled_from([0.5, 3.0, 10.0])), planar=draw(st.booleans()), wres=draw(st.sampled_from([0.1, 0.05, 1e-6])), dtype=draw(st.sampled_from(['c8', 'c16'])),
                chan=draw(st.sampled_from([None, 'one', 'list', 'array'])), outside=draw(st.sampled_from([0, 0, 1, 2])), far=draw(st.sampled_from([0.7, 1.5, 4.0, 1000.0])), weights=draw(st.booleans()), pol=draw(st.sampled_from(['XX', 'V'])),
                sizing=draw(st.sampled_from(['uv', 'uv', 'im'])), accumulate=draw(st.booleans()), sky=draw(st.sampled_from(['noise', 'source'])))

def build(c):
    r = rng(c['seed'])
    N, res = c['N'], c['res']
    size = N*res
    sets, uvws, Vs, Ws = [], [], [], []
    chans = {None: list(range(c['nchan'])), 'one': [int(r.integers(c['nchan']))], 'list': sorted(int(v) for v in r.permutation(c['nchan'])[:2])}
    chans['array'] = chans['list']
    sel = chans[c['chan']]
    jd0 = 2455000.5 + r.uniform(0, 3000)
    pc = center_at(jd0, r, 'body')[0]
    ls, ms = r.uniform(-.2, .2, 2)/res
    ls, ms = (ls, ms) if np.hypot(ls, ms) < 0.6 else (0.1, -0.2)
    ns = np.sqrt(1 - ls**2 - ms**2)
    for t in range(max(1, c['nt'])):
        nv = c['nbl']*c['nchan']
        uvw = coverage(r, nv, size, c['wmax'], c['planar'])
        V = np.exp(2j*np.pi*(uvw[0]*ls + uvw[1]*ms + uvw[2]*(ns - 1))) if c['sky'] == 'source' else r.normal(size=nv) + 1j*r.normal(size=nv)
        W = r.uniform(0.2, 2, nv) if c['weights'] else np.ones(nv)
        out = np.zeros(nv, bool)
        if c['outside']:
            k = r.permutation(nv)[:c['outside']*2]
            out[k] = True
            uvw[int(r.integers(2)), k] = c['far']*size*r.choice([-1, 1])
        shape = (c['nbl'], c['nchan'])
        cube = uvw.reshape(3, *shape).transpose(1, 0, 2)
        ds = VisibilityDataSet(jd0 + t*0.01, 30e6 + np.arange(c['nchan'])*1e6, [(0, k+1) for k in range(c['nbl'])], cube.copy(), antennaarray=AA, phase_center=pc)
        ds.append(PolarizationDataSet('YY', data=r.normal(size=shape).astype(c['dtype'])))
        ds.append(PolarizationDataSet(c['pol'], data=V.reshape(shape).astype(c['dtype']), weight=W.reshape(shape).astype('f4')))
        sets.append(ds)
        keep = ~out.reshape(shape)
        keep[:, [k for k in range(c['nchan']) if k not in sel]] = False
        keep = keep.ravel()
        uvws.append(uvw[:, keep]); Vs.append(V[keep]); Ws.append(W[keep])
    arg = sets[0] if c['nt'] == 0 else VisibilityData(sets)
    kw = dict(pol=c['pol'], wres=c['wres'], chan={None: None, 'one': sel[0], 'list': sel, 'array': np.array(sel)}[c['chan']])
    if c['sizing'] == 'im':
        kw.update(im_size=N, im_res=np.degrees(2*np.arcsin(1/(2*size))))
    else:
        kw.update(size=size, res=res)
    return arg, sets, kw, np.concatenate(uvws, axis=1), np.concatenate(Vs), np.concatenate(Ws), (ls, ms), sel

BIG = dict(seed=5, N=32, res=0.5, nbl=300, nchan=5, nt=0, wmax=10.0, planar=False, wres=1e-6, dtype='c8', chan=None, outside=0, far=0.7, weights=True, pol='XX', sizing='uv', accumulate=False, sky='noise')

@part('dirty', gridcases(), quick=1000, thorough=30000, shards=4, seconds=60, explicit=[BIG], rule='visibilities in several w planes, or several integrations')
def dirty_image(c):
    arg, sets, kw, uvw, V, W, (ls, ms), sel = build(c)
    N, res = c['N'], c['res']
    before = [(d.uvw.copy(), getattr(d, c['pol']).data.copy()) for d in sets]
    if c['accumulate'] and c['nt'] > 1:
        im = None
        for d in sets:
            im = utils.build_gridded_image(d, im=im, **kw)
        label('accumulate')
    else:
        im = utils.build_gridded_image(arg, **kw)
    for d, (a, b) in zip(sets, before):
        check(np.array_equal(d.uvw, a) and np.array_equal(getattr(d, c['pol']).data, b), 'the data given were changed')
    check(im.image().shape == (N, N), 'size of the image %s', im.image().shape)
    check(abs(im.mjd - sets[-1].mjd) < 1e-9 and im.phase_center is sets[-1].phase_center and im.antennaarray is not None, 'attributes of the image')
    check(abs(im.pixel_size - 1/(N*res)) < 2e-2/(N*res), 'pixel size %s', im.pixel_size)
    L, M, ok, n = lm(N, res)
    inner = ok & (np.abs(L)*res < 0.25) & (np.abs(M)*res < 0.25) & (L**2 + M**2 < 0.9)
    if len(V) == 0:
        raise Reject()
    for got, val, what in ((im.image(), V, 'image'), (im.bm_image(term=0), W, 'beam'), (im.bm_image()[0], W, 'beam')):
        want = dirty(uvw, val, N, res)
        rms = np.sqrt((want[inner]**2).mean())
        err = np.sqrt(((got - want)[inner]**2).mean())
        scale = (got*want)[inner].sum()/(want[inner]**2).sum()
        check(err < 0.2*rms, '%s: error %.3g of the rms', what, err/rms)
        check(abs(scale - 1) < 0.1, '%s: scale %.4f', what, scale)
    return c['nt'] > 1 or not c['planar']

@part('weighting', gridcases().map(lambda c: dict(c, outside=0, planar=False)), quick=1000, thorough=30000, shards=2, seconds=60, rule='always')
def weighting(c):
    arg, sets, kw, uvw, V, W, lm_, sel = build(c)
    N, res = c['N'], c['res']
    im = utils.build_gridded_image(arg, **kw)
    uv, bm = im.uv.copy(), [b.copy() for b in im.bm]
    r = rng(c['seed']+1)
    f = np.arange(N)
    f = np.where(f < N//2, f, f - N)*res
    Ug, Vg = np.meshgrid(f, f)               # u along columns, v along rows
    eps = r.normal(size=(N, N))*3e-7*np.abs(bm[0]).max()
    def ref(data, weighting, robust, taper, nudge=0):
        w = bm[0].real.astype('f8')
        w = np.where(w != 0, w + nudge*eps, w)
        if weighting == 'uniform':
            data = np.where(w != 0, data/np.where(w == 0, 1, w), 0)
        elif weighting == 'briggs':
            s2 = (5*10**-robust)**2/((w**2).sum()/w.sum())
            data = np.where(w != 0, data/(1 + w*s2), 0)
        try:
            tu, tv = taper
        except TypeError:
            tu = tv = taper
        g = np.ones((N, N))
        if tu > 0:
            g = g*0.3**((Ug/tu)**2)
        if tv > 0:
            g = g*0.3**((Vg/tv)**2)
        return np.fft.ifft2(data*g).real/im.kern_corr
    hist = []
    for _ in range(6):
        wt = ['natural', 'uniform', 'briggs'][int(r.integers(3))]
        rob = float(r.choice([-1, 0, 0.5, 2]))
        tap = [(0.0, 0.0), 0.0, (3*res, 0.0), (0.0, 5*res), (4*res, 9*res), 6*res][int(r.integers(6))]
        op = ['image', 'bm', 'bmall'][int(r.integers(3))]
        ctr = [(0, 0), (N//2, N//2), (N//2, N//2), (int(r.integers(N)), int(r.integers(-3, N)))][int(r.integers(4))]
        hist.append((op, wt, rob, tap))
        q = dict(weighting=wt, robust=rob, taper=tap, center=ctr)
        if op == 'image':
            got, src = im.image(**q), uv
        elif op == 'bm':
            got, src = im.bm_image(term=0, **q), bm[0]
        else:
            got, src = im.bm_image(**q)[0], bm[0]
        want = ref(src, wt, rob, tap)
        spread = np.abs(ref(src, wt, rob, tap, 1) - want).max()      # cells of nearly no weight make it ill-conditioned
        if spread > 0.02*np.abs(want).max():
            label('ill-conditioned')
            continue
        if ctr != (0, 0):
            want = np.roll(np.roll(want, ctr[0], axis=0), ctr[1], axis=1)
        close(got, want, rtol=2e-3, atol=2e-3*np.abs(want).max() + 20*spread + 1e-12, msg='after %s' % (hist,))
        check(np.array_equal(im.uv, uv) and np.array_equal(im.bm[0], bm[0]), 'making an image changed the gridded data (%s)', hist)
    for bad in (lambda: im.image(weighting='other'), lambda: utils.build_gridded_image(arg, im=im, **dict(kw, **({'size': N*res*2} if 'size' in kw else {'im_size': 2*N}))), ):
        try:
            bad()
        except ValueError:
            pass
        else:
            check(False, 'a wrong setting was accepted')
    # sums of images
    other = utils.build_gridded_image(arg, **kw)
    im += other
    close(im.uv, uv*2, rtol=1e-5, atol=1e-5*np.abs(uv).max(), msg='sum of two images')
    close(im.bm[0], bm[0]*2, rtol=1e-5, atol=1e-5*np.abs(bm[0]).max(), msg='sum of two beams')
    return True

@part('place', st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), N=st.sampled_from([32, 64, 80]), res=st.sampled_from([0.5, 0.75, 1.0, 2.0]), kind=st.sampled_from(['body', 'skycoord', 'fk5', 'icrs', 'equ']), shifted=st.booleans())),
      quick=1000, thorough=20000, shards=2, rule='source off the phase center')
def place(c):
    r = rng(c['seed'])
    N, res = c['N'], c['res']
    size = N*res
    jd = 2455000.5 + r.uniform(0, 4000)
    pc, (ra0, dec0), obs = center_at(jd, r, 'body')
    rad = min(0.55, 0.3/res)*np.sqrt(r.uniform(0.01, 1))
    th = r.uniform(0, 2*np.pi)
    l, m = rad*np.cos(th), rad*np.sin(th)
    n = np.sqrt(1 - l*l - m*m)
    uvw = coverage(r, 600, size, 5.0, False)
    V = np.exp(2j*np.pi*(uvw[0]*l + uvw[1]*m + uvw[2]*(n - 1)))
    ds = VisibilityDataSet(jd, 30e6 + np.arange(20)*1e6, [(0, k+1) for k in range(30)], uvw.reshape(3, 30, 20).transpose(1, 0, 2).copy(), antennaarray=AA, phase_center=pc)
    ds.append(PolarizationDataSet('XX', data=V.reshape(30, 20)))
    im = utils.build_gridded_image(ds, size=size, res=res)
    pix = 1/size
    # position of the source
    dec = np.arcsin(m*np.cos(dec0) + n*np.sin(dec0))
    ra = ra0 + np.arctan2(l, n*np.cos(dec0) - m*np.sin(dec0))
    def sep(a1, d1, a2, d2):
        v1, v2 = [np.array([np.cos(d)*np.cos(a), np.cos(d)*np.sin(a), np.sin(d)]) for a, d in ((a1, d1), (a2, d2))]
        return np.linalg.norm(v1 - v2)
    if c['kind'] != 'body':
        st_ = rng(c['seed'])
        jd2 = 2455000.5 + st_.uniform(0, 4000)
        im.phase_center = center_at(jd2, st_, c['kind'])[0]
    img = im.image()
    if c['shifted']:
        img = np.roll(np.roll(img, N//2, axis=0), N//2, axis=1)
    i, j = np.unravel_index(np.nanargmax(img), img.shape)
    R, D = utils.get_image_radec(im, shifted=c['shifted'])
    check(R.shape == img.shape, 'shape of the coordinates')
    stretch = 1/max(n, 0.3)
    check(sep(R[i, j], D[i, j], ra, dec) < 1.2*pix*stretch + 3e-4, 'source at (%.2f, %.2f) deg is imaged at (%.2f, %.2f), pixels of %.2f deg', np.degrees(ra), np.degrees(dec), np.degrees(R[i, j]), np.degrees(D[i, j]), np.degrees(pix))
    A_, E_ = utils.get_image_azalt(im, shifted=c['shifted'])
    ha = float(obs.sidereal_time()) - R[i, j]
    lat = np.radians(LAT)
    d = D[i, j]
    alt = np.arcsin(np.sin(lat)*np.sin(d) + np.cos(lat)*np.cos(d)*np.cos(ha))
    az = np.arctan2(-np.cos(d)*np.sin(ha), np.sin(d)*np.cos(lat) - np.cos(d)*np.cos(ha)*np.sin(lat))
    check(sep(A_[i, j], E_[i, j], az, alt) < 1e-3, 'azimuth/altitude (%.3f, %.3f) of a pixel at (%.3f, %.3f)', np.degrees(A_[i, j]), np.degrees(E_[i, j]), np.degrees(az), np.degrees(alt))
    # the pixel centers of the coordinates are those of the image
    k = N//2 if c['shifted'] else 0
    check(sep(R[k, k], D[k, k], ra0, dec0) < 3e-4, 'phase center')
    fov = im.field_of_view
    check(abs(fov - 2*np.arcsin(min(1.0, 1/(2*res)))) < 1e-9, 'field of view %s', fov)
    return rad > 2*pix
