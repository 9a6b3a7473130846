"""C38: backgrounds, point sources, and deconvolved images follow the image."""
import copy
import math
import warnings
import logging
import numpy as np
from vlib.core import *
from hypothesis import strategies as st
from lsl.imaging import analysis, deconv, utils
from lsl.sim import vis
from lsl.common import stations
from aipy.fit import RadioFixedBody

logging.getLogger('__main__').setLevel(logging.ERROR)
from lsl.logger import LSL_LOGGER
LSL_LOGGER.setLevel(logging.ERROR)
warnings.simplefilter('ignore')
seeds = st.integers(0, 2**31)


def background(img, *a):
    out = analysis.estimate_background(img, *a)
    check(out.shape == img.shape, 'a background of %s for an image of %s', out.shape, img.shape)
    check(np.isfinite(out).all(), 'the background is not finite')
    return out


bg = st.fixed_dictionaries(dict(seed=seeds, nx=st.integers(20, 140), ny=st.integers(20, 140), window=st.sampled_from([8, 10, 15, 16, 20, 24, 32, 32]),
                                level=st.sampled_from([0.0, 10.0, -300.0, 1e4]), noise=st.sampled_from([0.0, 0.1, 1.0, 30.0]),
                                grad=st.sampled_from([0, 0, 1, 2]), kind=st.sampled_from(['plain', 'sources', 'nan', 'int', 'f4'])))


@part('background', bg, quick=700, thorough=12000, rule='noise and more than one tile')
def bkg(c):
    r = rng(c['seed'])
    w, sig = c['window'], c['noise']
    nx, ny = max(c['nx'], w), max(c['ny'], w)
    x, y = np.mgrid[:nx, :ny].astype(float)
    gx, gy = r.normal(size=2) * c['grad'] * (sig or 1) / 100
    truth = c['level'] + gx * x + gy * y
    img = truth + sig * r.normal(size=(nx, ny))
    out = background(img, w)
    npix = max(1, (w // 2) ** 2)
    drop = (abs(gx) + abs(gy)) * w
    tol = sig * (0.05 + 9 / math.sqrt(npix)) + drop + 1e-9 * (abs(c['level']) + 1)
    if not sig and c['grad']:
        tol += 0.2 * drop
    err = abs(out - truth)
    check(err.max() <= tol, 'the background is off by %g at %s (noise %g, level %g)', err.max(), np.unravel_index(err.argmax(), err.shape), sig, c['level'])
    i0, i1, j0, j1 = 3 * w, nx - 3 * w, 3 * w, ny - 3 * w
    if not sig and i1 > i0 and j1 > j0:
        # a plane without noise comes back exactly away from the edge
        close(out[i0:i1, j0:j1], truth[i0:i1, j0:j1], 1e-7, 1e-9 + 0.004 * drop, 'plane')
    # units, an offset, and the order of the axes do not matter
    for k in (1e-6, 1024.0):
        close(background(img * k, w) / k, out, 1e-6, 1e-6 * (sig + abs(c['level']) + 1), 'the background in other units')
    off = float(r.integers(-500, 500))
    close(background(img + off, w) - off, out, 1e-6, 1e-6 * (sig + abs(c['level']) + 500), 'the background with an offset')
    close(background(np.ascontiguousarray(img.T), w).T, out, 1e-6, 1e-6 * (sig + abs(c['level']) + 1), 'the background of the transposed image')
    close(background(img[::-1].copy(), w) if nx * 2 % w == 0 and w % 2 == 0 else out[::-1], out[::-1], 1e-6, 1e-6 * (sig + abs(c['level']) + 1), 'the background of the flipped image')
    if c['kind'] == 'sources':
        # a bright pixel in a tile every so often is not background
        im2 = img.copy()
        h = w // 2
        n = 0
        for i in range(0, nx // h, 4):
            for j in range(0, ny // h, 4):
                im2[i * h + r.integers(h), j * h + r.integers(h)] += 1000 * (sig or 1)
                n += 1
        b2 = background(im2, w)
        check(abs(b2 - out).max() <= tol, 'bright pixels pull the background by %g', abs(b2 - out).max())
    elif c['kind'] == 'nan' and nx * ny > 8 * w * w:
        im2 = img.copy()
        im2[r.integers(nx), r.integers(ny)] = np.nan
        b2 = background(im2, w)
        check(abs(b2 - truth).max() <= tol + (abs(gx) * nx + abs(gy) * ny), 'a NaN pixel spoils the background')
    elif c['kind'] == 'int':
        im2 = np.round(img).astype(np.int32 if r.random() < 0.5 else np.int64)
        close(background(im2, w), background(im2.astype(float), w), 1e-6, 1e-6, 'the background of an integer image')
    elif c['kind'] == 'f4':
        close(background(img.astype(np.float32), w), out, 1e-5, 1e-5 * (abs(c['level']) + sig + 1) + sig * 1e-2, 'the background of single precision')
    label(c['kind'])
    return sig > 0 and nx * ny > w * w


@part('smooth', st.fixed_dictionaries(dict(seed=seeds, window=st.sampled_from([16, 32]))), quick=60, thorough=600, rule='always')
def smooth(c):
    """A smooth background is followed."""
    r = rng(c['seed'])
    n, w = 160, c['window']
    x, y = np.mgrid[:n, :n]
    L = r.uniform(2.5, 5) * w
    a, b = r.uniform(-5, 5, 2)
    p, q = r.uniform(0, 6, 2)
    truth = a * np.sin(x / L + p) + b * np.sin(y / L + q) + r.normal() * 50
    k = 10.0 ** r.integers(-6, 7)
    out = background((truth + 0.1 * r.normal(size=(n, n))) * k, w) / k
    err = abs(out - truth)[w:-w, w:-w].max()
    check(err <= 0.15 + 0.03 * (abs(a) + abs(b)), 'a smooth background is not followed: off by %g of %g, %g', err, a, b)
    return True


src = st.fixed_dictionaries(dict(seed=seeds, nx=st.integers(40, 110), ny=st.integers(40, 110), n=st.integers(0, 8), fwhm=st.sampled_from([0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0]),
                                 level=st.sampled_from([0.0, 0.0, 20.0, -20.0, 5000.0]), scale=st.sampled_from([1.0, 1.0, 1e-3, 1e5]), sharp=st.booleans(), noise=st.booleans(), bgs=st.sampled_from([0, 16, 32])))


@part('sources', src, quick=900, thorough=15000, rule='two or more sources off the centers of pixels')
def sources(c):
    r = rng(c['seed'])
    nx, ny, k = c['nx'], c['ny'], c['scale']
    fw = max(1.0, c['fwhm'])
    sg = fw / (2 * math.sqrt(2 * math.log(2)))
    rad = max(1.5 * sg, 2.0)
    h = min(int(rad), 6)
    x, y = np.mgrid[:nx, :ny].astype(float)
    img = np.zeros((nx, ny))
    th = 10.0
    srcs = []
    for i in range(c['n'] * 4):
        px, py = r.uniform(h + 1, nx - h - 2), r.uniform(h + 1, ny - h - 2)
        # a peak that sits between two pixels belongs to either
        if max(abs(px % 1 - 0.5), abs(py % 1 - 0.5)) > 0.5 or min(abs(px % 1 - 0.5), abs(py % 1 - 0.5)) < 0.05:
            continue
        if any(math.hypot(px - a, py - b) < 6 * fw + 2 * h + 2 for a, b, _, _ in srcs) or len(srcs) == c['n']:
            continue
        faint = r.random() < 0.25
        peak = r.uniform(0.3, 0.8) * th if faint else th * r.uniform(4, 40)
        srcs.append((px, py, peak, faint))
        img += peak * np.exp(-((x - px)**2 + (y - py)**2) / 2 / sg**2)
    bgs = c['bgs']
    if bgs == 0:
        lev = 0
    else:
        lev = c['level']
        if 6 * fw > bgs // 2 or len(srcs) > nx * ny / bgs**2 / 2:
            bgs, lev = 0, 0
    if c['noise']:
        img += 0.05 * r.normal(size=img.shape)
    full = (img + lev) * k
    keep = full.copy()
    lim = dict(sharp=[0.1, 1.0]) if not c['sharp'] else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = analysis.find_point_sources(full, threshold=th * k, fwhm=c['fwhm'], background_size=bgs, **lim)
    check((full == keep).all(), 'the image was changed')
    check(len(out) == 5 and len({len(v) for v in out}) == 1, 'five arrays of one length')
    rows = sorted(zip(*out))
    bright = [s for s in srcs if not s[3]]
    # reference
    row = np.arange(2 * h + 1) - h
    mask = (row[:, None]**2 + row[None, :]**2) <= rad**2
    c1 = np.exp(-row**2 / 2 / sg**2)
    c1 /= c1.sum()
    mask[h, h] = False
    want = []
    for px, py, peak, _ in bright:
        ix, iy = int(round(px)), int(round(py))
        s = img[ix - h:ix + h + 1, iy - h:iy + h + 1]
        sharp = (s[h, h] - s[mask].mean()) / s[h, h]
        if c['sharp'] and sharp < 0.25:
            return False
        if sharp > 0.97:
            return False
        dx, dy = (s.sum(1) * c1).sum(), (s.sum(0) * c1).sum()
        want.append((ix + (s.sum(1) * row).sum() / s.sum(), iy + (s.sum(0) * row).sum() / s.sum(), full[ix, iy], sharp, (dx - dy) / (dx + dy)))
    want.sort()
    check(len(rows) == len(want), '%d sources found and %d there: %s for %s', len(rows), len(want), [tuple(float(x) for x in v[:3]) for v in rows], want)
    tol = 0.02 + (0.03 if bgs else 0)
    for g, w in zip(rows, want):
        check(abs(g[0] - w[0]) < tol * 3 and abs(g[1] - w[1]) < tol * 3, 'source at %s, %s and not %s, %s', g[0], g[1], w[0], w[1])
        close(g[2], w[2], 1e-6, 0, 'peak')
        check(abs(g[3] - w[3]) < tol * 1.5 and abs(g[4] - w[4]) < tol, 'shape %s, %s and not %s, %s', g[3], g[4], w[3], w[4])
    for g in rows:
        p = min(bright, key=lambda s: math.hypot(g[0] - s[0], g[1] - s[1]))
        check(abs(g[0] - p[0]) < 0.4 and abs(g[1] - p[1]) < 0.4, 'source %s found at %s, %s', p, g[0], g[1])
    # the axes
    tr = analysis.find_point_sources(np.ascontiguousarray(full.T), threshold=th * k, fwhm=c['fwhm'], background_size=bgs, **lim)
    rt = sorted((b, a, f, s, -q) for a, b, f, s, q in zip(*tr))
    check(len(rt) == len(rows), 'transposed')
    for g, w in zip(rows, rt):
        check(max(abs(a - b) for a, b in zip((g[0], g[1], g[3], g[4]), (w[0], w[1], w[3], w[4]))) < 0.03, 'the sources of the transposed image differ: %s, %s', g, w)
    # limits on the shapes
    if rows:
        i = r.integers(len(rows))
        s0, q0 = rows[i][3], rows[i][4]
        sel = analysis.find_point_sources(full, threshold=th * k, fwhm=c['fwhm'], background_size=bgs, sharp=[s0 + 1e-6, 2.0], round=[-2, 2])
        check(sorted(sel[0]) == sorted(g[0] for g in rows if g[3] >= s0 + 1e-6), 'limit on the sharpness')
        sel = analysis.find_point_sources(full, threshold=th * k, fwhm=c['fwhm'], background_size=bgs, sharp=[-2, 2], round=[-2.0, q0 - 1e-6])
        check(sorted(sel[0]) == sorted(g[0] for g in rows if g[4] <= q0 - 1e-6), 'limit on the roundness')
    label('level' if lev else 'flat')
    return len(want) > 1


SITE = stations.lwa1
POOL = [a for a in SITE.antennas if a.pol == 0 and a.stand.id <= 250]
_cache = {}


def array(r, size, px=(5, 9)):
    """A sub-array, a few channels, and a time."""
    f0 = r.uniform(45, 80) * 1e6
    fr = f0 + 1e6 * np.arange(int(r.integers(1, 4)))
    # a compact one, for a beam that is 5 to 9 pixels across
    rad = size / r.uniform(*px) * 299792458.0 / f0 / 2 * 1.2
    pool = [a for a in POOL if math.hypot(a.stand.x, a.stand.y) < rad]
    n = min(len(pool), int(r.integers(14, 22)))
    if n < 10:
        raise Reject()
    sel = sorted(r.choice(len(pool), n, replace=False))
    jd = 2461110.0 + r.uniform(0, 300)
    aa = vis.build_sim_array(SITE, [pool[i] for i in sel], fr, jd=jd)
    aa.set_jultime(jd)
    return aa, jd, fr


def altaz(aa, ra, dec):
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    ha = lst - ra
    v = (math.cos(dec) * math.cos(ha), math.cos(dec) * math.sin(ha), math.sin(dec))
    up = v[0] * math.cos(lat) + v[2] * math.sin(lat)
    north = -v[0] * math.sin(lat) + v[2] * math.cos(lat)
    return math.asin(max(-1, min(1, up))), -v[1], north


def place(aa, r, where, low=25.0):
    """Somewhere in the sky above `low` degrees."""
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    for _ in range(400):
        if where == 'pole':
            ra, dec = r.uniform(0, 2 * math.pi), math.pi / 2 - abs(r.normal()) * 0.01
        elif where == 'zero':
            ra, dec = (r.normal() * 0.02) % (2 * math.pi), r.uniform(-0.5, 1.4)
        elif where == 'high':
            ra, dec = lst + r.normal() * 0.1, lat + r.normal() * 0.1
        else:
            z = r.uniform(-0.5, 1)
            ra, dec = r.uniform(0, 2 * math.pi), math.asin(z)
        a, l, m = altaz(aa, ra, dec)
        if a > math.radians(low if where != 'low' else 12) and (where != 'low' or a < math.radians(25)):
            return ra % (2 * math.pi), dec, l, m
    raise Reject()


def body(aa, p, jy):
    return RadioFixedBody(p[0], p[1], jys=jy, index=0, epoch=aa.date)


def dirty(aa, srcs, jd, pol, chan, size, res):
    d = vis.build_sim_data(aa, srcs, jd=jd, pols=[pol], flat_response=True)
    g = utils.build_gridded_image(d, size=size, res=res, pol=pol, chan=chan)
    n = g.shape[0]
    return d, g, np.roll(np.roll(g.image(), n // 2, 0), n // 2, 1)


dec_case = st.fixed_dictionaries(dict(seed=seeds, where=st.lists(st.sampled_from(['any', 'any', 'pole', 'zero', 'high', 'low']), min_size=1, max_size=2), size=st.sampled_from([30, 40, 50]),
                                      res=st.sampled_from([0.5, 0.5, 0.25, 0.4]), pol=st.sampled_from(['XX', 'YY']), sub=st.booleans(), scale=st.sampled_from([1.0, 2.0**-10, 2.0**12])))


def scene(c, nsrc=None, low=25.0, px=(5, 9)):
    r = rng(c['seed'])
    aa, jd, fr = array(r, c['size'], px)
    chan = None if not c['sub'] else [int(r.integers(len(fr)))]
    ps, js = [], []
    for w in c['where'][:nsrc]:
        for _ in range(30):
            p = place(aa, r, w, low)
            if all(math.hypot(p[2] - q[2], p[3] - q[3]) > 0.6 for q in ps):
                ps.append(p)
                js.append(100.0 * r.uniform(0.5, 1) if js else 100.0)
                break
    return r, aa, jd, fr, chan, ps, js


def top(img, mask=None):
    v = np.where(np.isfinite(img), img, -np.inf) if mask is None else np.where(mask, img, -np.inf)
    return np.unravel_index(v.argmax(), v.shape)


@part('clean', dec_case, shards=2, quick=100, thorough=2000, rule='two or more sources, or one near the pole, the horizon, or 0h', seconds=60)
def clean(c):
    r, aa, jd, fr, chan, ps, js = scene(c)
    size, res = c['size'], c['res']
    names = [chr(97 + i) for i in range(len(ps))]
    srcs = {n: body(aa, p, j) for n, p, j in zip(names, ps, js)}
    d, g, img = dirty(aa, srcs, jd, c['pol'], chan, size, res)
    each = [dirty(aa, {n: body(aa, p, j)}, jd, c['pol'], chan, size, res)[2] for n, p, j in zip(names, ps, js)]
    spots = [top(e) for e in each]
    ra, dec = utils.get_image_radec(g)
    sky = np.isfinite(ra)
    if not all(sky[s] for s in spots):
        raise Reject()
    X, Y = np.indices(img.shape)
    near = np.zeros(img.shape, bool)
    wid = max(4, img.shape[0] * 0.12)
    for s in spots:
        near |= np.hypot(X - s[0], Y - s[1]) < wid
    kw = dict(size=size, res=res, pol=c['pol'], chan=chan)
    keep = img.copy()
    vis0 = d.get_pol(c['pol']).data.copy() if hasattr(d, 'get_pol') else None
    out = deconv.clean(d, g, max_iter=60, gain=0.2, sigma=2.0, **kw)
    check(out.shape == img.shape, 'shape')
    o = np.ma.filled(np.ma.asarray(out).astype(float), np.nan)
    check(np.isfinite(o[sky]).all(), 'the cleaned image has pixels that are not finite')
    check((np.roll(np.roll(g.image(), img.shape[0] // 2, 0), img.shape[0] // 2, 1) == keep).all(), 'the gridded image was changed')
    if vis0 is not None:
        check((d.get_pol(c['pol']).data == vis0).all(), 'the visibilities were changed')
    tot = np.array([e.max() for e in each])
    for s, want in zip(spots, tot):
        box = o[max(0, s[0] - 3):s[0] + 4, max(0, s[1] - 3):s[1] + 4]
        if not np.isfinite(box).any():
            continue
        pk = np.unravel_index(np.nanargmax(box), box.shape)
        pk = (pk[0] + max(0, s[0] - 3), pk[1] + max(0, s[1] - 3))
        check(max(abs(pk[0] - s[0]), abs(pk[1] - s[1])) <= 1, 'a source at %s is at %s in the cleaned image', s, pk)
        check(abs(o[pk] - want) < (0.35 * want + 0.1 * tot.max() if len(ps) > 1 else 0.05 * want), 'a source of %g is one of %g in the cleaned image', want, o[pk])
    far = sky & ~near
    if far.sum() > 50:
        a, b = np.sqrt(np.mean(img[far]**2)), np.sqrt(np.mean(o[far]**2))
        label('side lobes down to %d0%%' % int(10 * b / a))
        check(b < 0.5 * a, 'the side lobes are %g in the cleaned image and %g in the image', b, a)
    # the image given, in other units
    k = c['scale']
    out2 = deconv.clean(d, g, input_image=img * k, max_iter=60, gain=0.2, sigma=2.0, **kw)
    o2 = np.ma.filled(np.ma.asarray(out2).astype(float), np.nan) / k
    check(np.nanmax(abs(o2 - o)[sky]) < 0.05 * tot.max(), 'the cleaned image depends on the units of the image: %g', np.nanmax(abs(o2 - o)[sky]))
    return len(ps) > 1 or c['where'][0] in ('pole', 'zero', 'low')


@part('clean_sources', dec_case, shards=2, quick=120, thorough=2000, rule='two or more sources, one of which is not listed, or one near the pole or 0h', seconds=60)
def clean_sources(c):
    r, aa, jd, fr, chan, ps, js = scene(c)
    size, res = c['size'], c['res']
    names = [chr(97 + i) for i in range(len(ps))]
    srcs = {n: body(aa, p, j) for n, p, j in zip(names, ps, js)}
    d, g, img = dirty(aa, srcs, jd, c['pol'], chan, size, res)
    each = [dirty(aa, {n: body(aa, p, j)}, jd, c['pol'], chan, size, res)[2] for n, p, j in zip(names, ps, js)]
    spots = [top(e) for e in each]
    sky = np.isfinite(utils.get_image_radec(g)[0])
    if not all(sky[s] for s in spots):
        raise Reject()
    listed = {n for i, n in enumerate(names) if i == 0 or r.random() < 0.5}
    if r.random() < 0.15:
        listed = set()
    lst = {n: body(aa, p, j) for n, p, j in zip(names, ps, js) if n in listed}
    # a source that is not up is left alone
    down = ((float(aa.sidereal_time()) + math.pi) % (2 * math.pi), -0.3)
    lst['down'] = body(aa, down, 1e4)
    kw = dict(size=size, res=res, pol=c['pol'], chan=chan)
    conv, work = deconv.clean_sources(d, g, lst, max_iter=80, gain=0.2, sigma=0.5, **kw)
    check(conv.shape == img.shape and work.shape == img.shape, 'shape')
    o = np.ma.filled(np.ma.asarray(conv).astype(float), 0.0)
    check(np.isfinite(o).all() and np.isfinite(work).all(), 'the components or the residuals are not finite')
    if not listed:
        check((o == 0).all() and (work == img).all(), 'an image without sources to clean was changed')
        return False
    # what is left is the other sources
    others = sum(e for n, e in zip(names, each) if n not in listed) + 0 * img
    mx = max(e.max() for e in each)
    for n, s, e in zip(names, spots, each):
        if n in listed:
            check(abs(work[s] - others[s]) < (0.5 * e.max() + 0.15 * mx if len(ps) > 1 else 0.2 * mx), 'a listed source of %g was left at %g (%g)', e.max(), work[s], others[s])
            box = o[max(0, s[0] - 2):s[0] + 3, max(0, s[1] - 2):s[1] + 3]
            pk = np.unravel_index(box.argmax(), box.shape)
            pk = (pk[0] + max(0, s[0] - 2), pk[1] + max(0, s[1] - 2))
            check(max(abs(pk[0] - s[0]), abs(pk[1] - s[1])) <= 1, 'a source at %s has its component at %s', s, pk)
            check(abs(o[pk] - e.max()) < 0.5 * e.max() + (0.15 * mx if len(ps) > 1 else 0), 'a source of %g has components of %g', e.max(), o[pk])
        else:
            check(work[s] > 0.5 * e.max() - 0.1 * mx, 'a source that was not listed went from %g to %g', e.max(), work[s])
            check(o[s] < 0.25 * e.max() + 0.05 * mx, 'a source that was not listed has components of %g', o[s])
    label('%d of %d listed' % (len(listed), len(ps)))
    return len(listed) < len(ps) or c['where'][0] in ('pole', 'zero')


@part('lsq', st.fixed_dictionaries(dict(seed=seeds, where=st.lists(st.sampled_from(['any', 'high', 'zero', 'pole']), min_size=1, max_size=2), size=st.sampled_from([16, 20]), res=st.sampled_from([0.5, 0.5, 0.4]),
                                        pol=st.just('XX'), sub=st.booleans(), gain=st.sampled_from([0.02, 0.05, 0.2, 0.5]), scale=st.sampled_from([2.0**-8, 2.0**6]))), quick=40, thorough=300, rule='the residuals went up again', seconds=60)
def lsq(c):
    r, aa, jd, fr, chan, ps, js = scene(c, low=35, px=(2.2, 3.5))
    size, res = c['size'], c['res']
    srcs = {chr(97 + i): body(aa, p, j) for i, (p, j) in enumerate(zip(ps, js))}
    d, g, img = dirty(aa, srcs, jd, c['pol'], chan, size, res)
    sky = np.isfinite(utils.get_image_radec(g)[0])
    kw = dict(size=size, res=res, pol=c['pol'], chan=chan, gain=c['gain'])
    msgs = []

    class H(logging.Handler):
        def emit(self, rec):
            msgs.append(rec.getMessage())
    run = lambda n, im=None: np.ma.filled(np.ma.asarray(deconv.lsq(d, g, input_image=im, max_iter=n, **kw)).astype(float), np.nan)
    h = H()
    lev = LSL_LOGGER.level
    LSL_LOGGER.addHandler(h)
    hs = [(x, x.level) for x in LSL_LOGGER.handlers if x is not h]
    try:
        for x, _ in hs:
            x.setLevel(logging.CRITICAL)
        LSL_LOGGER.setLevel(logging.INFO)
        outs = [run(n) for n in (1, 2, 3, 4)]
    finally:
        LSL_LOGGER.setLevel(lev)
        LSL_LOGGER.removeHandler(h)
        for x, l in hs:
            x.setLevel(l)
    for o in outs:
        check(o.shape == img.shape and np.isfinite(o[sky]).all(), 'not finite')
    up = False
    n = 0
    tell = [m for m in msgs if 'Exited after' in m]
    for i, m in enumerate(tell):
        if "'residuals'" in m:
            n = int(m.split('Exited after')[1].split()[0])
            if n > 1:
                up = True
                check(np.nanmax(abs(outs[i] - outs[n - 2])[sky]) <= 1e-6 * np.nanmax(abs(outs[n - 2][sky])), 'the residuals went up in iteration %d, but the result is not that of iteration %d', n, n - 1)
    k = c['scale']
    o2 = run(2, img * k)
    check(np.nanmax(abs(o2 / k - outs[1])[sky]) < 1e-3 * np.nanmax(abs(outs[1][sky])), 'the result depends on the units of the image')
    label('up' if up else 'down')
    return up
