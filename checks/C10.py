"""C10: baselines and their uvw coordinates follow the geometry."""
import numpy as np, ephem
from vlib.core import *
from vlib import dsp
from hypothesis import strategies as st
from lsl.correlator import uvutils
from lsl.common.stations import lwa1, lwasv
from lsl import astro
from astropy.coordinates import Angle, EarthLocation
from astropy import units as u

ant_s = st.fixed_dictionaries(dict(n=st.integers(1, 8), seed=st.integers(0, 10**6), spread=st.sampled_from([1.0, 60.0, 5e4])))

def make(c, pol=0):
    r = rng(c['seed'])
    return [dsp.antenna(int(s)+1, pol, r.uniform(-1, 1, 3)*c['spread'], 10.0, 0.0) for s in r.permutation(300)[:c['n']]]

@part('numbering', st.fixed_dictionaries(dict(a=ant_s, auto=st.booleans(), cross=st.booleans(), lists=st.booleans(), swap=st.booleans(), both=st.booleans())), quick=1800, thorough=5000, rule='at least three antennas')
def numbering(c):
    X = make(c['a'])
    Y = make(c['a'], 1) if c['cross'] else None
    if c['both']:
        # both antennas of each stand in the one list
        X, Y = [a for k in zip(make(c['a']), make(c['a'], 1)) for a in k], None
    kw = dict(antennas2=Y, include_auto=c['auto'])
    B = uvutils.get_baselines(X, **kw)
    Z = Y or X
    n = len(X)
    want = [(X[i].id, Z[j].id) for i in range(n) for j in range(i if c['auto'] else i+1, n)]
    check([(a.id, b.id) for a, b in B] == want, "baseline list")
    if c['lists']:
        kw['baseline_list'] = B
    for k in range(len(B)):
        a, b = uvutils.baseline_to_antennas(k, X, **kw)
        check((a.id, b.id) == want[k], "antennas of a baseline", k, (a.id, b.id), want[k])
        if c['swap']:
            a, b = b, a
        got = uvutils.antennas_to_baseline(a, b, X, **kw)
        check(got == k, "baseline of two antennas", got, k)
    other = dsp.antenna(5000, 0, (0, 0, 0), 1, 0)
    check(uvutils.antennas_to_baseline(X[0], other, X, **kw) == -1, "an unknown baseline is not -1")
    return n > 2

def angle(v_rad, kind, hours=False):
    if kind == 'angle':
        return Angle(v_rad*u.rad)
    if kind == 'ephem':
        return ephem.hours(v_rad) if hours else ephem.degrees(v_rad)
    if kind == 'astro':
        return astro.deg_to_hms(np.degrees(v_rad) % 360 % 360) if hours else astro.deg_to_dms(np.degrees(v_rad))
    return np.degrees(v_rad)/15 if hours else np.degrees(v_rad)

class Site:
    def __init__(self, lat):
        self.lat = lat

@st.composite
def uvw_s(draw):
    nf = draw(st.integers(0, 4))
    return dict(a=draw(ant_s), ha=draw(st.floats(-12, 12)), dec=draw(st.floats(-90, 90)), nf=nf, shape2=draw(st.booleans()), aslist=draw(st.booleans()),
                site=draw(st.sampled_from(['lwa1', 'lwasv', 'loc', 'other'])), lat=draw(st.floats(-89, 89)), auto=draw(st.booleans()),
                hk=draw(st.sampled_from(['num', 'num', 'angle', 'ephem', 'astro'])), dk=draw(st.sampled_from(['num', 'num', 'angle', 'ephem', 'astro'])), bl=draw(st.booleans()))

@part('uvw', uvw_s(), quick=3600, thorough=10000, rule='at least one baseline')
def uvw(c):
    ants = make(c['a'])
    H, D = np.radians(c['ha']*15), np.radians(c['dec'])
    site, lat = {'lwa1': (lwa1, float(lwa1.lat)), 'lwasv': (lwasv, float(lwasv.lat)), 'loc': (EarthLocation.from_geodetic(0, c['lat'], 0), np.radians(c['lat'])),
                 'other': (Site(np.radians(c['lat'])), np.radians(c['lat']))}[c['site']]
    r = rng(c['a']['seed'] + 5)
    if c['nf'] == 0:
        freq, fa, shape = 49.0e6, np.array([49.0e6]), (1,)
    else:
        fa = r.uniform(5e6, 90e6, c['nf'])
        freq, shape = (list(fa), fa.shape) if c['aslist'] else (fa, fa.shape)
        if c['shape2'] and c['nf'] == 4 and not c['aslist']:
            freq, shape = fa.reshape(2, 2), (2, 2)
    pairs = [(i, j) for i in range(len(ants)) for j in range(i if c['auto'] else i+1, len(ants))]
    arg = [(ants[i], ants[j]) for i, j in pairs] if c['bl'] and pairs else ants
    got = uvutils.compute_uvw(arg, HA=angle(H, c['hk'], True), dec=angle(D, c['dk']), freq=freq, site=site, include_auto=c['auto'])
    check(got.shape == (len(pairs), 3) + shape, "shape", got.shape)
    got = got.reshape(len(pairs), 3, fa.size)
    # direction of the phase center in the local east, north, up frame
    s = np.array([-np.cos(D)*np.sin(H), np.cos(lat)*np.sin(D) - np.sin(lat)*np.cos(D)*np.cos(H), np.sin(lat)*np.sin(D) + np.cos(lat)*np.cos(D)*np.cos(H)])
    pole = np.array([0, np.cos(lat), np.sin(lat)])
    # east (increasing right ascension) is the derivative of s along decreasing hour angle
    east = np.array([np.cos(H), -np.sin(lat)*np.sin(H), np.cos(lat)*np.sin(H)])
    north = np.cross(s, east)
    for k, (i, j) in enumerate(pairs):
        b = np.array(ants[i].stand.xyz) - np.array(ants[j].stand.xyz)
        want = np.outer([b @ east, b @ north, b @ s], fa)/dsp.C
        close(got[k], want, 1e-7, 1e-8*max(1, np.linalg.norm(b)), f"uvw of baseline {(i, j)}")
        close(np.linalg.norm(got[k], axis=0), np.linalg.norm(b)*fa/dsp.C, 1e-9, 1e-9, "length")
    return len(pairs) > 0

@part('track', st.fixed_dictionaries(dict(a=ant_s, dec=st.floats(-85, 85), dk=st.sampled_from(['num', 'angle', 'ephem']), freq=st.floats(5e6, 90e6), lat=st.floats(-89, 89), ha=st.floats(-12, 12), bl=st.booleans())),
      quick=900, thorough=3000, rule='at least one baseline')
def track(c):
    ants = make(c['a'])
    if len(ants) < 2:
        raise Reject()
    D = np.radians(c['dec'])
    site = Site(np.radians(c['lat']))
    bls = uvutils.get_baselines(ants)
    arg = bls if c['bl'] else ants
    T = uvutils.compute_uv_track(arg, dec=angle(D, c['dk']), freq=c['freq'], site=site)
    check(T.shape == (len(bls), 2, 512), "shape", T.shape)
    # every point of the track is where some hour angle puts the baseline
    for k, (a, b) in enumerate(bls):
        # the track starts at transit positions: find the hour angle for each u from two reference positions
        u0 = uvutils.compute_uvw([(a, b)], HA=0.0, dec=c['dec'], freq=c['freq'], site=site)[0, :, 0]
        u6 = uvutils.compute_uvw([(a, b)], HA=6.0, dec=c['dec'], freq=c['freq'], site=site)[0, :, 0]
        # u(H) = X sin H + Y cos H; v(H) = -sin(dec)(X cos H - Y sin H) + Z cos(dec)
        Y, X = u0[0], u6[0]
        Zc = u0[1] + np.sin(D)*X
        R = np.hypot(X, Y)
        tol = 1e-6*(R + abs(Zc)) + 1e-9
        check(np.abs(T[k, 0]).max() <= R + tol, "track exceeds the baseline")
        e = np.sqrt(np.maximum(R**2 - T[k, 0]**2, 0))*abs(np.sin(D))
        check((np.abs(np.abs(T[k, 1] - Zc) - e) < 3e-4*(R + abs(Zc)) + 1e-9).all(), "track leaves the ellipse")
        # both halves, and both ends
        close(T[k, 0, :256], np.linspace(-R, R, 256), 1e-6, tol, "track abscissae")
        close(T[k, 0, 256:], np.linspace(R, -R, 256), 1e-6, tol, "track abscissae, return")
        close(T[k, 1, :256] + T[k, 1, 256:][::-1], np.full(256, 2*Zc), 1e-6, tol, "halves of the track")
        # and a generated hour angle lies on the curve drawn through the track
        p = uvutils.compute_uvw([(a, b)], HA=c['ha'], dec=c['dec'], freq=c['freq'], site=site)[0, :, 0]
        check(abs((p[1] - Zc)**2 + (np.sin(D)**2)*(p[0]**2 - R**2)) < 1e-6*(R + abs(Zc))**2 + 1e-9, "uvw is not on the track")
    return True
