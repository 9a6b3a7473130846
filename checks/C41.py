"""C41: what is drawn over an image of the sky is drawn at the pixels of what it stands for."""
import warnings, logging, re, ephem
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
from astropy.coordinates import SkyCoord, FK5, ICRS
import astropy.units as u
from astropy.time import Time as ATime
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
from lsl import astro
from lsl.common.stations import LWAStation, Antenna, Stand
from lsl.imaging import overlay, utils
from lsl.sim import vis as simvis
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

def unit(lon, lat):
    lon, lat = np.broadcast_arrays(lon, lat)
    return np.array([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon), np.sin(lat)])

class Sky:
    """An image of the sky, and an independent idea of where things are in it."""
    def __init__(self, c):
        r = self.r = rng(c['seed'])
        self.lat, self.lon, self.elev = r.uniform(-65, 65), r.uniform(-179, 179), r.uniform(0, 3000)
        site = LWAStation('X', self.lat, self.lon, self.elev, id='XX')
        ants = [Antenna(i+1, stand=Stand(i+1, 10.0*i, 5.0*i, 0.0), pol=0, digitizer=i+1) for i in range(2)]
        site.antennas = ants
        self.jd = 2455000.5 + int(r.integers(0, 4000)) + r.uniform(0, 1)
        self.aajd = self.jd if c['now'] else self.jd + r.uniform(-2000, 2000)
        self.aa = simvis.build_sim_array(site, ants, np.array([40e6, 41e6]), jd=self.aajd, force_flat=True)
        o = self.obs = ephem.Observer()
        o.lat, o.lon, o.elevation, o.pressure = str(self.lat), str(self.lon), self.elev, 0
        o.date = ephem.Date(self.jd - 2415020.0)
        o.epoch = o.date
        self.lst = float(o.sidereal_time())
        self.N, self.res = c['N'], c['res']
        self.size = self.N*self.res
        # the phase center, J2000 and of date
        if c['pc'] == 'zenith':
            az, alt = 0.0, np.pi/2
        else:
            az, alt = r.uniform(0, 2*np.pi), r.uniform(0.3, 1.5)
        o.epoch = ephem.J2000
        ra, dec = [float(v) for v in o.radec_of(az, alt)]
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = ra, dec, ephem.J2000
        b.compute(o)
        self.ra0, self.dec0 = float(b.ra), float(b.dec)
        sc = SkyCoord(ra*u.rad, dec*u.rad, frame='fk5', equinox='J2000')
        im = utils.ImgWPlus(size=self.size, res=self.res)
        im.mjd = self.jd - 2400000.5 if r.integers(2) else ATime(self.jd, format='jd', scale='utc')
        im.antennaarray = self.aa
        kind = c['kind']
        if kind == 'body':
            self.obs.epoch = ephem.J2000
            im.phase_center = b
        elif kind == 'skycoord':
            im.phase_center = sc
        elif kind == 'fk5':
            im.phase_center = FK5(ra*u.rad, dec*u.rad)
        elif kind == 'icrs':
            im.phase_center = sc.transform_to(ICRS()).frame
        else:
            im.phase_center = astro.equ_posn(np.degrees(ra), np.degrees(dec))
        self.im = im

    def pixels(self, ra, dec):
        """Pixels (x, y) and direction cosine to the center of a place of date."""
        d = ra - self.ra0
        l = np.cos(dec)*np.sin(d)
        m = np.sin(dec)*np.cos(self.dec0) - np.cos(dec)*np.sin(self.dec0)*np.cos(d)
        n = np.sin(dec)*np.sin(self.dec0) + np.cos(dec)*np.cos(self.dec0)*np.cos(d)
        return self.N//2 - l*self.size, self.N//2 + m*self.size, n

    def radec(self, az, alt):
        la = np.radians(self.lat)
        dec = np.arcsin(np.sin(la)*np.sin(alt) + np.cos(la)*np.cos(alt)*np.cos(az))
        ha = np.arctan2(-np.sin(az)*np.cos(alt), np.sin(alt)*np.cos(la) - np.cos(alt)*np.sin(la)*np.cos(az))
        return self.lst - ha, dec

    def alt(self, ra, dec):
        la = np.radians(self.lat)
        return np.arcsin(np.sin(la)*np.sin(dec) + np.cos(la)*np.cos(dec)*np.cos(self.lst - ra))

    @property
    def tol(self):
        return 2e-3*self.size + 0.05        # in pixels; aberration, nutation and diurnal parallax are left out of the oracle

def axes():
    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.add_subplot(111)

def drawn(ax):
    """Lines (lists of points), labels, and single points in an axes."""
    lines = [np.array(q.get_xydata(), float).reshape(-1, 2) for q in ax.get_lines()]
    for q in ax.collections:
        lines += [np.array(p, float).reshape(1, 2) for p in q.get_offsets()]
    points = [q[0] for q in lines if len(q) == 1]
    lines = [q for q in lines if len(q) > 1]
    return lines, [(t.get_text(), np.array(t.get_position(), float)) for t in ax.texts], points

def dist(a, b):
    """Distance of each of the points a to the nearest of b."""
    if len(b) == 0:
        return np.full(len(a), np.inf)
    return np.sqrt(((a[:, None, :] - b[None, :, :])**2).sum(axis=2)).min(axis=1)

def curves(s, which):
    """The curves that are to be drawn as {name: (pixels, n)}, sampled at 0.25 degrees."""
    out = {}
    full, part_ = np.radians(np.arange(0, 360.01, 0.25)), np.radians(np.arange(-80, 80.01, 0.25))
    if which == 'azalt':
        for a in range(0, 90, 20):
            out['alt', a] = s.radec(full, np.full_like(full, np.radians(a)))
        for a in range(0, 360, 45):
            out['az', a] = s.radec(np.full_like(part_, np.radians(a)), part_)
    elif which == 'radec':
        for a in range(-80, 90, 20):
            out['dec', a] = (full, np.full_like(full, np.radians(a)))
        for a in range(0, 360, 30):
            out['ra', a] = (np.full_like(part_, np.radians(a)), part_)
    else:
        out['horizon', 0] = s.radec(full, np.full_like(full, np.radians(which)))
    for k, (ra, dec) in out.items():
        x, y, n = s.pixels(ra, dec)
        out[k] = np.stack([x, y], axis=1), n
    return out

case = dict(seed=st.integers(0, 2**31), N=st.sampled_from([32, 64, 80, 81]), res=st.sampled_from([0.5, 1.0, 2.0]), now=st.booleans(),
            kind=st.sampled_from(['body', 'skycoord', 'fk5', 'icrs', 'equ']), pc=st.sampled_from(['zenith', 'other']), label=st.booleans())

@part('lines', st.fixed_dictionaries(dict(case, which=st.sampled_from(['azalt', 'radec', 'horizon']))), quick=150, thorough=3000, shards=4, seconds=60,
      rule='phase center away from the zenith')
def lines(c):
    s = Sky(c)
    before = s.aa.get_jultime()
    ax = axes()
    which = c['which']
    if which == 'horizon':
        cut = [None, 1e-3, 10.0, 30.0, -5.0][int(s.r.integers(5))]
        overlay.horizon(ax, s.im, **({} if cut is None else dict(altitude_cut=cut)))
        want = curves(s, cut or 1e-3)
    elif which == 'azalt':
        overlay.graticule_azalt(ax, s.im, label=c['label'])
        want = curves(s, 'azalt')
    else:
        overlay.graticule_radec(ax, s.im, label=c['label'])
        want = curves(s, 'radec')
    check(abs(s.aa.get_jultime() - before) < 1e-9, 'the time of the antenna array was changed')
    got, labels, points = drawn(ax)
    check(not points, 'points were drawn')
    step = np.radians(1.0)*s.size
    used = set()
    for q in got:
        f = np.isfinite(q).all(axis=1)
        if f.sum() == 0:
            continue
        on = [k for k, (xy, n) in want.items() if dist(q[f], xy[n > -0.05]).max() <= s.tol + 0.2*step]
        on = [k for k in on if k not in used] or on
        check(bool(on), 'a line through %s is no line of the %s grid', q[f][0], which)
        # one that fits all of it
        best = max(on, key=lambda k: (k not in used, -dist(want[k][0][want[k][1] > 0.05], q[f]).max() if (want[k][1] > 0.05).any() else 0))
        used.add(best)
        xy, n = want[best]
        vis = xy[n > 0.05]
        if len(vis):
            check(dist(vis, q[f]).max() <= 1.2*step + s.tol, '%s is not drawn in full', best)
        if best[0] in ('alt', 'dec', 'horizon') and f.all():
            check(np.hypot(*(q[0] - q[-1])) <= 0.3*step + 0.05, '%s is not closed', best)
        jump = np.sqrt((np.diff(q, axis=0)**2).sum(axis=1))
        jump = jump[np.isfinite(jump)]
        check(len(jump) == 0 or jump.max() <= 3.1*step + s.tol, '%s has a jump of %s pixels', best, jump.max() if len(jump) else 0)
    for k, (xy, n) in want.items():
        if (n > 0.05).sum() > 8:
            check(k in used, '%s is not drawn', k)
    if not c['label'] or which == 'horizon':
        check(not labels, 'labels were drawn')
    else:
        check(labels or which == 'radec', 'no labels')
        for text, at in labels:
            if not np.isfinite(at).all():
                check(which != 'azalt', 'label %s is nowhere', text)
                continue
            v = int(re.match(r'[+-]?\d+', text).group(0))
            if which == 'azalt':
                near = min(dist(at[None], want[k][0][want[k][1] > -0.05])[0] for k in (('alt', v), ('az', v)) if k in want and (want[k][1] > -0.05).any())
                check(near <= s.tol + 0.2*step, 'label %s is %s pixels from its line', text, near)
                continue
            if '^h' in text:
                check(dist(at[None], np.stack(s.pixels(np.radians(15*v + np.array([-5.0])), np.zeros(1))[:2], axis=1))[0] <= s.tol + 0.2*step, 'label %s is not at its line', text)
                check(s.alt(np.radians(15*v - 5.0), 0.0) > np.radians(19.5), 'label %s is below the horizon', text)
            else:
                check(dist(at[None], np.stack(s.pixels(np.array([s.ra0]), np.radians(np.array([v + 5.0])))[:2], axis=1))[0] <= s.tol + 0.2*step, 'label %s is not at its line', text)
                check(s.alt(s.ra0, np.radians(v + 5.0)) > np.radians(14.5), 'label %s is below the horizon', text)
        if which == 'azalt':
            for k, (xy, n) in want.items():
                if (n > 0.05).mean() > 0.2:
                    check(any(t == r'%i$^\circ$' % k[1] for t, _ in labels), 'no label for %s', k)
        if which == 'radec':
            texts = [t for t, _ in labels]
            for v in range(0, 24, 2):
                if s.alt(np.radians(15*v - 5.0), 0.0) > np.radians(20.5):
                    check('%i$^h$' % v in texts, 'no label for %i h', v)
            for v in range(-80, 90, 20):
                if s.alt(s.ra0, np.radians(v + 5.0)) > np.radians(15.5):
                    check(r'%+i$^\circ$' % v in texts, 'no label for %+i degrees', v)
    return c['pc'] != 'zenith'

@part('sources', st.fixed_dictionaries(dict(case, nsrc=st.integers(0, 5))), quick=500, thorough=8000, shards=2, seconds=60, rule='a source that is up and one that is not')
def sources(c):
    s = Sky(c)
    r = s.r
    srcs, want = {}, {}
    for k in range(c['nsrc']):
        name = f'src {k}'
        if r.integers(3) == 0:
            body = [ephem.Sun, ephem.Jupiter, ephem.Moon][int(r.integers(3))]()
            srcs[name] = body.__class__()
        else:
            s.obs.epoch = ephem.J2000
            a, e = r.uniform(0, 2*np.pi), r.uniform(-1.5, 1.5)
            ra, dec = [float(v) for v in s.obs.radec_of(a, e)]
            srcs[name] = simvis.RadioFixedBody(ra, dec, name=name) if r.integers(2) else ephem.FixedBody()
            srcs[name]._ra, srcs[name]._dec = ra, dec
            body = ephem.FixedBody()
            body._ra, body._dec, body._epoch = ra, dec, ephem.J2000
            body.compute(s.obs)
        o2 = ephem.Observer()
        o2.lat, o2.lon, o2.elevation, o2.pressure, o2.date = s.obs.lat, s.obs.lon, s.obs.elevation, 0, s.obs.date
        o2.epoch = o2.date
        body.compute(o2)
        if abs(float(body.alt)) < 0.01:
            raise Reject()
        rd = s.radec(float(body.az), float(body.alt))
        want[name] = (float(body.alt), s.pixels(np.array([rd[0]]), np.array([rd[1]])))
    before = s.aa.get_jultime()
    ax = axes()
    overlay.sources(ax, s.im, srcs, label=c['label'])
    check(abs(s.aa.get_jultime() - before) < 1e-9, 'the time of the antenna array was changed')
    got, labels, points = drawn(ax)
    check(not got, 'lines were drawn')
    points = [p for p in points if np.isfinite(p).all()]
    left = list(points)
    n = 0
    for name, (alt, (x, y, nn)) in want.items():
        at = [t for t in labels if t[0] == name and np.isfinite(t[1]).all()]
        p = np.array([x[0], y[0]])
        tol = s.tol
        if alt < 0 or nn[0] < -0.01:
            check(not at, '%s is not in the image (altitude %.1f degrees) but has a label', name, np.degrees(alt))
            continue
        if nn[0] < 0.01:
            raise Reject()
        hit = [q for q in left if np.hypot(*(q - p)) <= tol]
        check(bool(hit), '%s should be at %s; marks at %s', name, p, left)
        n += 1
        if c['label']:
            check(len(at) == 1 and np.hypot(*(at[0][1] - p)) <= tol, 'label of %s: %s', name, at)
    check(len(points) == n, '%i marks for %i sources', len(points), n)
    if not c['label']:
        check(not labels, 'labels were drawn')
    for fn in (lambda: overlay.sources(ax, s.aa, srcs), lambda: overlay.horizon(ax, s.aa), lambda: overlay.graticule_radec(ax, np.zeros((4, 4))), lambda: overlay.graticule_azalt(ax, None)):
        try:
            fn()
        except TypeError:
            pass
        else:
            check(False, 'something that is no image was taken')
    return 0 < n < len(want)

@part('image', st.fixed_dictionaries(dict(case, shifted=st.sampled_from([None, True, False]), origin=st.sampled_from([None, 'lower', 'upper']))), quick=100, thorough=1500, seconds=40, rule='shifted to the center')
def image(c):
    """The image itself is drawn with the phase center at the reference pixel of its WCS."""
    s = Sky(c)
    s.im.uv = (s.r.normal(size=s.im.uv.shape) + 1j*s.r.normal(size=s.im.uv.shape)).astype(s.im.uv.dtype)
    s.im.kern_corr = np.ones(s.im.uv.shape, np.float32)
    keep = s.im.uv.copy()
    ax = axes()
    kw = {k: c[k] for k in ('shifted', 'origin') if c[k] is not None}
    out = utils.plot_gridded_image(ax, s.im, cmap='gray', **kw)
    check(len(ax.images) == 1 and out is ax.images[0], 'what was drawn is not what is returned')
    check(np.array_equal(s.im.uv, keep), 'the image was changed')
    want = s.im.image()
    if c['shifted'] is not False:
        want = np.roll(want, (s.N//2, s.N//2), axis=(0, 1))
    close(np.asarray(out.get_array()), want, 1e-6, 1e-9, 'image')
    check(out.origin == (c['origin'] or 'lower') and out.get_cmap().name == 'gray', 'settings of the image')
    x, y = s.im.wcs.world_to_pixel(SkyCoord(s.ra0*u.rad, s.dec0*u.rad, frame='fk5', equinox=ATime(s.jd, format='jd')))
    check(abs(x - s.N//2) < s.tol and abs(y - s.N//2) < s.tol, 'the phase center is at %s', (x, y))
    return c['shifted'] is not False
