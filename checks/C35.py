"""C35: source catalogs give back the sources of their files, and sky maps the sky of their survey maps."""
import io, math, os, warnings
import numpy as np
from vlib.core import *
from vlib.sky import *
from hypothesis import strategies as st
warnings.simplefilter('ignore')
import erfa
from astropy.io import fits
from astropy.time import Time as ATime
from astropy.utils import iers
iers.conf.auto_download = False
from scipy.interpolate import CubicSpline
import lsl
from lsl import catalog as K, skymap as S
from lsl.common import data_access

seeds = st.integers(0, 2**31)
DATA = os.path.join(os.path.dirname(lsl.__file__), 'data')
B1950 = 2433282.4235

class served:
    """files that lsl asks its data store for come from a dictionary"""
    def __init__(self, files):
        self.files, self.asked = files, []
    def open(self, name, mode='r'):
        self.asked.append(name)
        data = self.files[name]
        return io.BytesIO(data) if 'b' in mode else io.StringIO(data.decode(), newline=None)
    def __enter__(self):
        data_access.DataAccess.open = self.open
        return self
    def __exit__(self, *a):
        del data_access.DataAccess.open

def local(name, mode='r'):
    """a data file of the package"""
    with open(os.path.join(DATA, name), 'rb') as fh:
        return fh.read()

CLASSES = dict(LWA='LWA_Catalog', PSR='PSR_Catalog', PKS='PKS_Catalog', PKS90='PKS90_Catalog')
CLASSES.update({'3C': 'C3C_Catalog', '4C': 'C4C_Catalog', '2FGL': 'F2FGL_Catalog', '3FGL': 'F3FGL_Catalog', '4FGL': 'F4FGL_Catalog', '4FGL-DR4': 'F4FGLDR4_Catalog'})
FILES = {'LWA': 'lwa_catalog.dat', 'PSR': 'psrcat.db', 'PKS': 'pkscat.txt', 'PKS90': 'PKS90.txt', '3C': '3c.dat', '4C': '4c.dat',
         '2FGL': 'gll_psc_v08.fit', '3FGL': 'gll_psc_v16.fit', '4FGL': 'gll_psc_v22.fit', '4FGL-DR4': 'gll_psc_v33.fit'}
FILES = {k: 'catalog/' + v for k, v in FILES.items()}

def judge(cat, key, want, tag):
    """a catalog object against [(name, aliases, ra, dec, epoch)]"""
    names = [w[0] for w in want]
    check(len(cat) == len(names) and sorted(cat) == sorted(names) and sorted(cat.keys()) == sorted(names), '%s: %s sources for %s: %s', tag, len(cat), len(names), sorted(set(cat) ^ set(names))[:5])
    every = set(names)
    for name, aliases, ra, dec, epoch in want:
        e = cat[name]
        check(e.name == name and e.position.name == name, '%s: source %s is called %s', tag, name, e.name)
        check(sorted(e.alias_list) == sorted(aliases), '%s: other names of %s: %s for %s', tag, name, e.alias_list, aliases)
        q = e.position.j2000_equ
        w = (ra, dec) if epoch == 2000 else sph(prec(B1950).T @ vec(ra, dec))
        check(sep((float(q.ra), float(q.dec)), w) < (1e-6 if epoch == 2000 else 1e-3), '%s: %s is at %s, not %s', tag, name, (q.ra, q.dec), w)
        check(name in cat and cat.get(name) is e and cat.lookup(name) is e, '%s: %s cannot be looked up', tag, name)
        for a in aliases:
            if a not in every:
                check(a in cat and cat[a] is e, '%s: %s does not find %s', tag, a, name)
                check(a not in list(cat), '%s: %s is counted as a source', tag, a)
        every.update(aliases)
    check(all(k in cat and v is cat[k] for k, v in cat.items()), '%s: items', tag)
    for a in ('nonsense', names[0] + 'x' if names else 'x', ''):
        if a not in every:
            check(cat.lookup(a) is None and a not in cat and cat.get(a, 5) == 5, '%s: %r is found', tag, a)
            try:
                cat[a]
                check(False, '%s: %r is given', tag, a)
            except KeyError:
                pass

def word(r, n, first='', chars='ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0123456789+-._'):
    k = int(r.integers(1, n + 1 - len(first)))
    return first + ''.join(r.choice(list(chars), k))

def place(r):
    """hours, minutes, hundredths of seconds; sign, degrees, minutes, tenths of seconds"""
    h, m, s = int(r.integers(24)), int(r.integers(60)), int(r.choice([0, 5999, r.integers(6000)]))
    neg, d = bool(r.integers(2)), int(r.choice([0, 0, 89, r.integers(90)]))
    return h, m, s, neg, d, int(r.choice([0, 59, r.integers(60)])), int(r.choice([0, 599, r.integers(600)]))

def deg(h, m, s, neg, d, dm, ds):
    return (h + m/60 + s/3600)*15, (-1 if neg else 1)*(d + dm/60 + ds/3600)

def put(line, col, s):
    line = line.ljust(col + len(s))
    return line[:col] + s + line[col+len(s):]

def build(kind, r, n):
    """a file of a catalog and the sources in it"""
    used, out, lines = set(), [], []
    def fresh(n, first='', tries=50, **kw):
        for _ in range(tries):
            w = word(r, n, first, **kw)
            if w not in used and w.strip('*') == w:
                used.add(w)
                return w
        raise Reject()
    for i in range(n):
        h, m, s, neg, d, dm, ds = place(r)
        if kind == 'LWA':
            if r.integers(5) == 0:
                lines.append(str(r.choice(['# a remark', '', '   '])))
            name, al = fresh(8), [fresh(12) for _ in range(int(r.integers(0, 4)))]
            if name[0] == '#':
                raise Reject()
            line = f'{name:8s} {h:02d} {m:02d} {s//100:02d}.{s%100:02d} {"-" if neg else str(r.choice([" ", "+"]))}{d:02d} {dm:02d} {ds//10:02d}.{ds%10}  ' + ' '.join(al) + ' '*int(r.integers(0, 3))
            out.append((name, al) + deg(h, m, s/100, neg, d, dm, ds/10) + (2000,))
        elif kind == 'PKS':
            name, a = fresh(8, chars='0123456789+-ABC').ljust(8, '0'), fresh(6)
            if name in [o[0] for o in out]:
                raise Reject()
            al = [a] if r.integers(2) else []
            line = put(put('', 0, name), 22, f'{h:02d} {m:02d} {s//100:02d}.{s//10%10} {"-" if neg else " "}{d:02d} {dm:02d} {ds//10:02d}')
            if al:
                line = put(line, 12 + int(r.integers(0, 8 - len(a))), a)
            line = put(line, 44, str(r.choice(['', '  IIIB', '  NSO  20.0'])))
            out.append((name, al) + deg(h, m, s//10/10, neg, d, dm, ds//10) + (1950,))
        elif kind == 'PKS90':
            name = fresh(10, 'J', chars='0123456789+-').ljust(10, '0')
            if name in [o[0] for o in out]:
                raise Reject()
            al, nd, dd = [], int(r.integers(3)), int(r.integers(2))
            line = put(put('', 0, name), 10, f'{h:02d} {m:02d} ' + f'{s//100:02d}.{("%d" % (s//10%10), "%02d" % (s%100), "%02d7" % (s%100))[nd]}'.ljust(7) + f'{"-" if neg else "+"}{d:02d} {dm:02d} {ds//10:02d}.{ds%10}' + '5'*dd)
            line = line.ljust(139)
            if r.integers(2):
                al.append(fresh(9, 'B'))
                line = put(line, 139, al[-1])
            if r.integers(2):
                al.append(fresh(7, '3'))
                line = put(line, 168 + int(r.integers(0, 8 - len(al[-1]))), al[-1])
            out.append((name, al) + deg(h, m, (s//10/10, s/100, s/100 + 0.007)[nd], neg, d, dm, ds/10 + 0.05*dd) + (2000,))
        elif kind == '3C':
            num = str(i*int(r.integers(1, 3)) + 1)
            if '3C' + num in [o[0] for o in out]:
                raise Reject()
            line = put(put('', 0, num.rjust(3)), 12, f'{h:02d} {m:02d} {s//100:02d}.{s//10%10}')
            line = put(line, 27, f'{"-" if neg else " "}{d:02d} {dm:02d}.{ds%10}')
            line = put(line, 40, '8.0   2.0')
            out.append(('3C' + num, []) + deg(h, m, s//10/10, neg, d, dm + ds%10/10, 0) + (1950,))
        elif kind == '4C':
            name = fresh(6, chars='0123456789.-')
            al = [fresh(8)] if r.integers(2) else []
            line = put(put('', 0, name), 10, f'{h:2d} {m:2d} {s//100:2d}.{s//10%10}')
            line = put(line, 22, f'{"-" if neg else " "}{d:02d} {dm:02d}.{ds%10}      8.2   1')
            if al or r.integers(2):
                line = put(line, 64, (al[0] if al else '') + str(r.choice(['', '*'])))
            out.append(('4C' + name, al) + deg(h, m, s//10/10, neg, d, dm + ds%10/10, 0) + (1950,))
        elif kind == 'PSR':
            j, b = fresh(11, 'J', chars='0123456789+-'), fresh(9, 'B', chars='0123456789+-')
            if r.integers(2):
                b = None
            rows = ([f'PSRB     {b:<30s}dth78       '] if b else []) + [f'PSRJ     {j:<30s}']
            digits = int(r.integers(0, 3))
            full, dfull = r.integers(4) > 0, r.integers(4) > 0
            ra = f'{h:02d}:{m:02d}' + (f':{s//100:02d}.{s%100:02d}' if full else '')
            de = str('-' if neg else r.choice(['', '+'])) + f'{d:02d}:{dm:02d}' + (f':{ds//10:02d}.{ds%10}' if dfull else '')
            whole = str(r.choice(['yes', 'yes', 'yes', 'no ra', 'no dec', 'bad ra', 'bad dec', 'odd ra', 'odd dec']))
            if whole == 'bad ra':
                ra = str(r.choice(['25:00:00', '12:61:00', '23:59:60.5']))
            if whole == 'bad dec':
                de = str(r.choice(['12:61:00', '-10:00:60.2']))
            if whole == 'odd ra':
                ra = str(r.choice(['12', '1:2:3:4']))
            if whole == 'odd dec':
                de = str(r.choice(['12', '-13:23:56:027']))
            if whole != 'no ra':
                rows.append(f'RAJ      {ra:<25s}2    cn95        ')
            if whole != 'no dec':
                rows.append(f'DECJ     {de:<25s}2    cn95        ')
            extra = [f'DM       {r.uniform(1, 99):.2f}', 'PMRA     19.3                     18', 'SURVEY   gb1,gb2', 'P0       0.69374767047']
            rows += [extra[k] for k in r.permutation(4)[:int(r.integers(0, 4))]]
            rows = [rows[k] for k in r.permutation(len(rows))]
            lines += rows + ['@-----------------------------------------------------------------']
            if whole == 'yes':
                out.append((b or j, [j] if b else []) + deg(h, m, s/100 if full else 0, neg, d, dm, ds/10 if dfull else 0) + (2000,))
            else:
                label('source without a position')
            continue
        lines.append(line)
        if kind in ('PKS', 'PKS90') and r.integers(6) == 0:
            lines.append('')
    head = ['#CATALOGUE 1.25', '#'] if kind == 'PSR' else []
    return '\n'.join(head + lines + ['']).encode(), out

def build_fermi(kind, r, n):
    out, rows, used = [], [], set()
    fields = ['0FGL_NAME', '1FGL_NAME', '2FGL_NAME', 'ASSOC_FGL', 'ASSOC_GAM1', 'ASSOC_GAM2', 'ASSOC_GAM3', 'ASSOC1', 'ASSOC2']
    fields = [f for f in fields if r.integers(2)]
    for i in range(n):
        name = '%s J%04d.%d%+05d' % (kind[:4], r.integers(2400), i, r.integers(-9000, 9000))
        ra, de = round(float(r.uniform(0, 360)), 3), round(float(r.uniform(-90, 90)), 3)
        al = {f: '%s %s' % (word(r, 6), word(r, 8)) if r.integers(2) else '' for f in fields}
        if len(set(filter(None, al.values()))) != len([a for a in al.values() if a]) or used & set(al.values()) - {''}:
            raise Reject()
        used |= set(al.values())
        rows.append((name, ra, de, al))
        out.append((name.replace(' ', '_'), [a.replace(' ', '_') for a in al.values() if a], ra, de, 2000))
    cols = [fits.Column('Source_Name', '18A', array=np.array([x[0] for x in rows])), fits.Column('RAJ2000', 'D', array=np.array([x[1] for x in rows])), fits.Column('DEJ2000', 'D', array=np.array([x[2] for x in rows]))]
    cols += [fits.Column(f, '26A', array=np.array([x[3][f] for x in rows])) for f in fields]
    buf = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(cols, name='LAT_POINT_SOURCE_CATALOG')]).writeto(buf)
    return buf.getvalue(), out

@part('files', st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(list(FILES)), n=st.integers(1, 12))), quick=600, thorough=20000, rule='a file with two sources or more, or one with a name besides its own', seconds=120, shards=2)
def files(c):
    r, kind = rng(c['seed']), c['kind']
    data, want = build_fermi(kind, r, c['n']) if 'FGL' in kind else build(kind, r, c['n'])
    if not want:
        raise Reject()
    with served({FILES[kind]: data}) as s:
        cat = getattr(K, CLASSES[kind])()
        check(s.asked == [FILES[kind]], 'files asked for %s', s.asked)
    check(cat.name == kind, 'name of the catalog %s', cat.name)
    label(kind)
    judge(cat, kind, want, 'catalog %s' % kind)
    return len(want) > 1 or bool(want[0][1])

@part('malformed', st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['LWA', 'PKS', 'PKS90', '3C', '4C']), n=st.integers(1, 6))), quick=150, thorough=4000, rule='every case')
def malformed(c):
    r, kind = rng(c['seed']), c['kind']
    data, want = build(kind, r, c['n'])
    rows = data.decode().split('\n')
    k = [i for i, x in enumerate(rows) if x.strip() and x[0] != '#']
    i = k[int(r.integers(len(k)))]
    at = dict(LWA=[10, 13, 16, 22, 26, 29], PKS=[23, 26, 28, 34, 37, 41], PKS90=[11, 13, 16, 25, 28, 30])
    at.update({'3C': [13, 16, 18, 28, 32], '4C': [11, 14, 16, 24, 26]})
    j = int(r.choice(at[kind]))
    rows[i] = rows[i][:j] + str(r.choice(['x', '?', '*'])) + rows[i][j+1:]
    with served({FILES[kind]: '\n'.join(rows).encode()}):
        try:
            getattr(K, CLASSES[kind])()
        except RuntimeError:
            return True
    check(False, '%s: line %r is accepted', kind, rows[i])

def real(kind):
    """the sources of the catalog file in the package, read by position of the words"""
    text = local(FILES[kind])
    out = []
    if kind == '2FGL':
        with fits.open(io.BytesIO(text)) as h:
            t = h['LAT_POINT_SOURCE_CATALOG'].data
            have = [n.upper() for n in t.columns.names]
            for row in t:
                al = [str(row[f]).replace(' ', '_') for f in ('0FGL_NAME', '1FGL_NAME', '2FGL_NAME', 'ASSOC_FGL', 'ASSOC_GAM1', 'ASSOC_GAM2', 'ASSOC_GAM3', 'ASSOC1', 'ASSOC2') if f in have and str(row[f])]
                out.append((str(row['Source_Name']).replace(' ', '_'), al, float(row['RAJ2000']), float(row['DEJ2000']), 2000))
        return out
    text = text.decode()
    if kind == 'PSR':
        for rec in text.split('\n@-'):
            d = {}
            for l in rec.split('\n'):
                f = l.split()
                if len(f) > 1:
                    d.setdefault(f[0], f[1])
            if 'RAJ' in d and 'DECJ' in d and d['DECJ'].count(':') in (1, 2) and d['RAJ'].count(':') in (1, 2):
                a, b = [float(x) for x in d['RAJ'].split(':')], [float(x) for x in d['DECJ'].lstrip('+-').split(':')]
                if max(a[1:]) < 60 and max(b[1:]) < 60:
                    a, b = a + [0]*(3 - len(a)), b + [0]*(3 - len(b))
                    out.append((d.get('PSRB', d.get('PSRJ')), [d['PSRJ']] if 'PSRB' in d else []) + deg(a[0], a[1], a[2], d['DECJ'][0] == '-', b[0], b[1], b[2]) + (2000,))
        return out
    for l in text.split('\n'):
        if not l.strip():
            continue
        if kind == 'LWA':
            f = l[8:33].split()
            out.append((l[:8].strip(), l[33:].split()) + deg(*[float(x) for x in f[:3]], f[3][0] == '-', abs(float(f[3])), float(f[4]), float(f[5])) + (2000,))
        elif kind == 'PKS':
            f = l[21:43].split()
            out.append((l[:8], l[12:19].split()) + deg(*[float(x) for x in f[:3]], f[3][0] == '-', abs(float(f[3])), float(f[4]), float(f[5])) + (1950,))
        elif kind == 'PKS90':
            f, g = l[10:22].split(), l[22:36].split()
            out.append((l[:10], l[139:148].split() + ([l[168:175].strip()] if l[168:175].strip() else [])) + deg(*[float(x) for x in f[:3]], g[0][0] == '-', abs(float(g[0])), float(g[1]), float(g[2])) + (2000,))
        elif kind == '3C':
            f, g = l[12:22].split(), l[27:35].split()
            g = [x for x in ' '.join(g).replace('-', '- ').split()]
            neg = g[0] == '-'
            g = g[1:] if neg else g
            out.append(('3C' + l[:3].strip(), []) + deg(float(f[0]), float(f[1]), float(f[2]), neg, float(g[0]), float(g[1]), 0) + (1950,))
        else:
            f = l[9:20].split()
            g = l[21:30].split()
            out.append(('4C' + l[:8].strip(), [a for a in [l[63:].strip().rstrip('*').strip()] if a]) + deg(*[float(x) for x in f], g[0][0] == '-', abs(float(g[0])), float(g[1]), 0) + (1950,))
    return out

CATS = {}
def ours(kind):
    if kind not in CATS:
        name = FILES[kind]
        with served({name: local(name)}):
            cat = K.CatalogFactory.get_catalog(kind)
            again = K.CatalogFactory.get_catalog(kind)
        check(cat is again, '%s is read again', kind)
        check(type(cat) is getattr(K, CLASSES[kind]), '%s is a %s', kind, type(cat))
        want = real(kind)
        names = [w[0] for w in want]
        owner = {}
        for w in want:
            for a in w[1]:
                owner.setdefault(a, set()).add(w[0])
        check(set(cat) == set(names), '%s: sources that are not those of the file: %s', kind, sorted(set(cat) ^ set(names))[:10])
        CATS[kind] = cat, [w for w in want if names.count(w[0]) == 1] if len(want) < 2000 else want, owner, names
    return CATS[kind]

@part('shipped', st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['LWA', 'PSR', 'PKS', 'PKS90', '3C', '4C', '2FGL']))), quick=1500, thorough=30000, rule='every case', seconds=90)
def shipped(c):
    r, kind = rng(c['seed']), c['kind']
    cat, want, owner, names = ours(kind)
    label(kind)
    if r.integers(3) == 0:
        want2 = [w for w in want if w[1]]
        want = want2 or want
    name, al, ra, dec, epoch = want[int(r.integers(len(want)))]
    if names.count(name) > 1:
        raise Reject()
    e = cat[name]
    check(e.name == name, '%s: %s is called %s', kind, name, e.name)
    w = (ra, dec) if epoch == 2000 else sph(prec(B1950).T @ vec(ra, dec))
    q = e.position.j2000_equ
    check(sep((float(q.ra), float(q.dec)), w) < (1e-6 if epoch == 2000 else 1e-3), '%s: %s is at %s, not %s', kind, name, (q.ra, q.dec), w)
    check(e.alias_list == al, '%s: other names of %s: %s for %s', kind, name, e.alias_list, al)
    for a in al:
        check(a in cat, '%s: %s does not find %s', kind, a, name)
        if len(owner[a]) == 1 and a not in names:
            check(cat[a] is e, '%s: %s finds %s instead of %s', kind, a, cat[a].name, name)
    return True

@part('factory', st.text(max_size=8), quick=100, thorough=1000, rule='every case')
def factory(name):
    check(sorted(K.CatalogFactory.get_names()) == sorted(FILES), 'names of catalogs %s', K.CatalogFactory.get_names())
    if name in FILES:
        raise Reject()
    try:
        K.CatalogFactory.get_catalog(name)
    except ValueError:
        return True
    check(False, 'catalog %r is known', name)

# ---- sky maps

def survey(r, npix, nfreq, ncomp):
    f = np.sort(10**r.uniform(1, 5, nfreq))
    if np.diff(np.log(f)).min() < 0.05:
        raise Reject()
    sig = np.exp(r.normal(0, 2, nfreq))
    comps = r.normal(size=(nfreq, ncomp))
    maps = r.normal(size=(npix, ncomp))
    z = r.uniform(-1, 1, npix)
    ra, dec = r.uniform(0, 2*np.pi, npix), np.arcsin(z)
    return f, sig, comps, maps, ra, dec

def model(kind, f, sig, comps, maps, freq):
    x, lf = math.log(freq), np.log(f)
    scale = float(CubicSpline(lf, np.log(sig))(x) if kind == 'GSM' else np.interp(x, lf, np.log(sig)))
    if abs(scale) > 50:
        raise Reject()
    scale = math.exp(scale)
    return scale*sum(float(CubicSpline(lf, comps[:, i])(x))*maps[:, i] for i in range(comps.shape[1]))

def load(kind, f, sig, comps, maps, ra, dec, freq, name=None):
    buf = io.BytesIO()
    np.savez(buf, freqs=f, sigmas=sig, comps=comps, maps=maps, ra=ra, dec=dec)
    asked = name or {'GSM': 'skymap/gsm-408locked.npz', 'LFSM': 'skymap/lfsm-5.1deg.npz'}[kind]
    with served({asked: buf.getvalue()}):
        cls = getattr(S, 'SkyMap' + kind)
        return cls(freq_MHz=freq) if name is None else cls(filename=name, freq_MHz=freq)

maps_case = dict(seed=seeds, kind=st.sampled_from(['GSM', 'LFSM']), npix=st.sampled_from([1, 12, 48, 192, 300]), nfreq=st.integers(4, 12), ncomp=st.integers(1, 4))

@part('maps', st.fixed_dictionaries(dict(maps_case, at=st.sampled_from(['survey', 'between', 'outside']))), quick=300, thorough=8000, rule='a frequency in the range of the surveys', seconds=60)
def maps(c):
    r = rng(c['seed'])
    f, sig, comps, mp, ra, dec = survey(r, c['npix'], c['nfreq'], c['ncomp'])
    if c['at'] == 'outside':
        freq = float(r.choice([f[0]*0.99, f[-1]*1.01]))
        try:
            load(c['kind'], f, sig, comps, mp, ra, dec, freq)
        except ValueError:
            return False
        check(False, 'a sky at %s MHz from surveys of %s to %s', freq, f[0], f[-1])
    freq = float(r.choice(f[1:-1])) if c['at'] == 'survey' else float(np.exp(r.uniform(np.log(f[0]*1.0001), np.log(f[-1]*0.9999))))
    s = load(c['kind'], f, sig, comps, mp, ra, dec, freq, name=None if r.integers(2) else 'elsewhere/map.npz')
    close(s.ra, np.degrees(ra), msg='right ascensions')
    close(s.dec, np.degrees(dec), msg='declinations')
    want = model(c['kind'], f, sig, comps, mp, freq)
    if c['at'] == 'survey':
        k = int(np.argmin(np.abs(f - freq)))
        close(want, sig[k]*(mp @ comps[k]), rtol=1e-7, atol=1e-9*np.abs(want).max(), msg='(model of the sky)')
    tol = 1e-7*np.abs(want).max() + 1e-300
    close(s.normalize_power(), want, rtol=1e-7, atol=tol, msg='%s at %s MHz' % (c['kind'], freq))
    close(s.compute_total_power(), want.sum(), rtol=1e-7, atol=tol*len(want), msg='total power')
    check(s.freq_MHz == freq, 'frequency %s', s.freq_MHz)
    return True

REAL = {}
def shipped_map(kind, freq):
    name = {'GSM': 'skymap/gsm-408locked.npz', 'LFSM': 'skymap/lfsm-5.1deg.npz'}[kind]
    if kind not in REAL:
        raw = local(name)
        REAL[kind] = raw, dict(np.load(io.BytesIO(raw)))
    raw, d = REAL[kind]
    with served({name: raw}):
        return getattr(S, 'SkyMap' + kind)(freq_MHz=freq), d

@part('projected', st.fixed_dictionaries(dict(maps_case, lat=st.sampled_from(['any', 'pole', 'equator']), shipped=st.sampled_from([False]*9 + [True]))), quick=250, thorough=5000, rule='some of the sky is up and some is not', seconds=120, shards=4)
def projected(c):
    r = rng(c['seed'])
    if c['shipped']:
        freq = float(np.exp(r.uniform(np.log(10.5), np.log(400))))
        s, d = shipped_map(c['kind'], freq)
        want = model(c['kind'], d['freqs'], d['sigmas'], d['comps'], d['maps'], freq)
        ra, dec = d['ra'].ravel(), d['dec'].ravel()
        close(s.normalize_power(), want, rtol=1e-6, atol=1e-6*np.abs(want).max(), msg='%s at %s MHz' % (c['kind'], freq))
        label('shipped map')
    else:
        f, sig, comps, mp, ra, dec = survey(r, c['npix'], c['nfreq'], c['ncomp'])
        freq = float(np.exp(r.uniform(np.log(f[0]*1.0001), np.log(f[-1]*0.9999))))
        want = model(c['kind'], f, sig, comps, mp, freq)
        s = load(c['kind'], f, sig, comps, mp, ra, dec, freq)
    lat = {'any': float(r.uniform(-90, 90)), 'pole': float(r.choice([-90, 90, 89.999])), 'equator': 0.0}[c['lat']]
    lon = float(r.uniform(-360, 360))
    jd = float(r.uniform(2444240, 2460300))
    p = S.ProjectedSkyMap(s, lat, lon, jd)
    # where the sky is: precession, nutation and aberration by ERFA
    t = ATime(jd, format='jd', scale='utc')
    dut = float(t.delta_ut1_utc)
    o = erfa.atco13(ra, dec, 0, 0, 0, 0, t.jd1, t.jd2, dut, math.radians(lon), math.radians(lat), 0, 0, 0, 0, 0, 0, 0)
    az, alt = o[0], np.pi/2 - o[1]
    v = np.array([np.cos(alt)*np.sin(az), np.cos(alt)*np.cos(az), np.sin(alt)])
    a, b = np.radians(p.alt), np.radians(p.az)
    w = np.array([np.cos(a)*np.sin(b), np.cos(a)*np.cos(b), np.sin(a)])
    off = np.degrees(np.arcsin(np.clip(np.linalg.norm(v - w, axis=0)/2, 0, 1))*2)
    check(off.max() < 0.003, 'directions are off by %s degrees at latitude %s, longitude %s and JD %s', off.max(), lat, lon, jd)
    up = p.alt > 0
    sure = np.abs(np.degrees(alt)) > 0.005
    check((up[sure] == (alt > 0)[sure]).all(), 'what is up')
    n = int(up.sum())
    check(all(len(x) == n for x in (p.visibleAlt, p.visibleAz, p.visiblePower, p.visibleNormalizedPower, p.visibleRa, p.visibleDec)), 'what is visible')
    close(p.visibleAlt, p.alt[up], msg='altitudes')
    close(p.visibleAz, p.az[up], msg='azimuths')
    close(p.visibleRa, np.degrees(ra)[up], msg='right ascensions')
    close(p.visibleDec, np.degrees(dec)[up], msg='declinations')
    tol = 1e-6*np.abs(want).max() + 1e-300
    close(p.visiblePower, want[up], rtol=1e-6, atol=tol, msg='powers')
    l, m, k = p.get_direction_cosines()
    close(np.array([l, m, k]), w[:, up], atol=1e-12, msg='direction cosines')
    # the power that is received is that of each pixel for its part of the whole sky
    close(p.visibleNormalizedPower, want[up]/len(want), rtol=1e-6, atol=tol/len(want), msg='power of the pixels for their part of the sky')
    if n:
        close(p.compute_visible_power(), want[up].sum()/len(want), rtol=1e-5, atol=tol*10, msg='visible power')
    else:
        try:
            p.compute_visible_power()
            check(False, 'a sky with nothing up has power')
        except RuntimeError:
            pass
    return 0 < n < len(want)

@part('site', st.sampled_from([(90.1, 0), (-91, 0), (0, 361), (0, -360.5), (1000, 1000)]), quick=5, thorough=5, rule='every case')
def site(c):
    r = rng(1)
    s = load('GSM', *survey(r, 12, 5, 2), 200.0)
    try:
        S.ProjectedSkyMap(s, c[0], c[1], 2455555.5)
    except (ValueError, AssertionError):
        return True
    check(False, 'a site at %s', c)
