"""Station static MIB initialization files (SSMIF): a model of one, and the same thing as text and in binary."""
import numpy as np

STRUCT = [('ver', '<i4'), ('sid', 'S3'), ('geo', '<f8', 3), ('nstd', '<i4'), ('lx', '<f8', 256), ('ly', '<f8', 256), ('lz', '<f8', 256),
          ('astd', '<i4', 512), ('aorie', '<i4', 512), ('astat', '<i4', 512), ('atheta', '<f4', 512), ('aphi', '<f4', 512), ('adesi', '<i4', 512),
          ('nfee', '<i4'), ('feeid', 'S11', 256), ('feestat', '<i4', 256), ('feedesi', '<i4', 256), ('feeg1', '<f4', 256), ('feeg2', '<f4', 256),
          ('feea1', '<i4', 256), ('feea2', '<i4', 256), ('feerack', '<i4', 256), ('feeport', '<i4', 256),
          ('nrpd', '<i4'), ('rpdid', 'S26', 512), ('rpdstat', '<i4', 512), ('rpddesi', '<i4', 512), ('rpdleng', '<f4', 512), ('rpdvf', '<f4', 512), ('rpddd', '<f4', 512),
          ('rpda0', '<f4', 512), ('rpda1', '<f4', 512), ('rpdfref', '<f4', 512), ('rpdstr', '<f4', 512), ('rpdant', '<i4', 512),
          ('nsep', '<i4'), ('sepid', 'S26', 512), ('sepstat', '<i4', 512), ('sepcabl', 'S26', 512), ('sepleng', '<f4', 512), ('sepdesi', '<i4', 512), ('sepgain', '<f4', 512), ('sepant', '<i4', 512),
          ('narb', '<i4'), ('narbch', '<i4'), ('arbid', 'S11', 32), ('arbslot', '<i4', 32), ('arbdesi', '<i4', 32), ('arbrack', '<i4', 32), ('arbport', '<i4', 32),
          ('arbstat', '<i4', (32, 16)), ('arbgain', '<f4', (32, 16)), ('arbant', '<i4', (32, 16)), ('arbin', 'S11', (32, 16)), ('arbout', 'S11', (32, 16)),
          ('nsnap', '<i4'), ('nsnapch', '<i4'), ('snapid', 'S11', 16), ('snapslot', 'S11', 16), ('snapdesi', '<i4', 16), ('snapstat', '<i4', (16, 64)),
          ('snapinr', 'S11', (16, 64)), ('snapinc', 'S11', (16, 64)), ('snapant', '<i4', (16, 64)),
          ('nserver', '<i4'), ('serverid', 'S11', 5), ('serverslot', 'S11', 5), ('serverstat', '<i4', 5), ('serverdesi', '<i4', 5),
          ('ndr', '<i4'), ('drstat', '<i4', 5), ('drid', 'S11', 5), ('drpc', 'S11', 5), ('drndp', '<i4', 5),
          ('npwrrack', '<i4'), ('npwrport', '<i4', 8), ('pwrss', '<i4', (8, 50)), ('pwrname', 'S4', (8, 50)), ('cra', '<i4'), ('pc', '<f4', 3)]
SSMIF = np.dtype(STRUCT, align=True)
SETTINGS = np.dtype([('mrp', '<i2', 9), ('mup', '<i2', 9), ('fee', '<i2', 256), ('flt', '<i2', 256), ('at1', '<i2', 256), ('at2', '<i2', 256), ('at3', '<i2', 256), ('gain', '<i2')], align=True)

def f32(v):
    return float(np.float32(v))

def model(r, full=False):
    """What a SSMIF says; None where it says nothing (text: a line left out)."""
    n = 256 if full else int(r.choice([1, 2, 3, 5, 8, 16, 64]))
    m = dict(sid=str(r.choice(['VL', 'NA', 'SV', 'OV', 'CS', 'MC', 'XX'])), lat=f32(r.uniform(-89, 89)), lon=f32(r.uniform(-180, 180)), elv=f32(r.uniform(-100, 4000)), n=n)
    def some(seq, p=0.8):
        return [v if r.uniform() < p else None for v in seq]
    def lab(k=8):
        return ''.join(r.choice(list('ABCxyz0123456789-_'), int(r.integers(1, k))))
    m['pos'] = [[f32(v) for v in r.normal(0, 60, 3)] for _ in range(n)]
    na = 2*n
    order = r.permutation(na)
    # antennas of a stand: normally 2n-1 and 2n, here in any order in some files
    std = [int(k)//2 + 1 for k in (order if r.integers(3) == 0 else range(na))]
    orie = [int(k) % 2 for k in (order if std != [k//2 + 1 for k in range(na)] else range(na))]
    m['std'], m['orie'] = std, orie
    m['stat'] = some([int(v) for v in r.integers(0, 4, na)])
    m['theta'] = some([f32(v) for v in r.uniform(-5, 5, na)], 0.3)
    m['phi'] = some([f32(v) for v in r.uniform(-5, 5, na)], 0.3)
    m['nfee'] = max(1, min(n + int(r.choice([0, 0, 0, -1, 2])), 256))
    fa = r.permutation(n)
    m['feeid'] = some([lab() for _ in range(m['nfee'])])
    m['feestat'] = some([int(v) for v in r.integers(0, 4, m['nfee'])])
    m['feeg1'] = some([f32(v) for v in r.uniform(20, 40, m['nfee'])])
    m['feeg2'] = some([f32(v) for v in r.uniform(20, 40, m['nfee'])])
    m['feea1'] = [int(2*fa[k] + 1) if k < n else 0 for k in range(m['nfee'])]
    m['feea2'] = [int(2*fa[k] + 2) if k < n else 0 for k in range(m['nfee'])]
    m['nrpd'] = max(1, min(na + int(r.choice([0, 0, 0, -1, 1])), 512))
    ra = r.permutation(na) if r.integers(2) else np.arange(na)
    m['rpdid'] = some([lab(20) for _ in range(m['nrpd'])])
    m['rpdleng'] = some([f32(v) for v in r.uniform(1, 200, m['nrpd'])])
    for k, lo, hi in (('rpdvf', 60, 95), ('rpddd', 0, 5), ('rpda0', 0.001, 0.02), ('rpda1', 0, 0.001), ('rpdfref', 5e6, 2e7), ('rpdstr', 0.9, 1.1)):
        # one value for all, values for some on top of it, or nothing at all
        m[k + '_all'] = f32(r.uniform(lo, hi)) if r.integers(2) else None
        m[k] = some([f32(v) for v in r.uniform(lo, hi, m['nrpd'])], float(r.choice([0, 0.5, 1])))
    m['rpdant'] = [int(ra[k] + 1) if k < na else 0 for k in range(m['nrpd'])]
    nch = int(r.choice([2, 4, 16]))
    nb = min(32, -(-na//nch))
    m['narb'], m['narbch'] = nb, nch
    aa = list(r.permutation(na))
    if r.integers(3) == 0:
        aa = aa[:-1]
    m['arbid'] = some([str(int(v)) for v in r.integers(1, 9000, nb)])
    m['arbant'] = [[(int(aa[b*nch + c]) + 1 if b*nch + c < len(aa) else 0) for c in range(nch)] for b in range(nb)]
    m['arbin'] = [some([lab(10) for _ in range(nch)]) for _ in range(nb)]
    m['arbout'] = [some([lab(10) for _ in range(nch)]) for _ in range(nb)]
    nch = int(r.choice([16, 32, 64] if n > 32 else [2, 8, 32, 64]))
    nb = min(16, -(-na//nch) + int(r.integers(0, 2)))
    m['nsnap'], m['nsnapch'] = nb, nch
    slots = r.permutation(nb*nch) if r.integers(2) else np.arange(nb*nch)
    grid = np.zeros(nb*nch, int)
    ants = r.permutation(na) + 1
    k = min(na, nb*nch) - (int(r.integers(0, 2)) if r.integers(4) == 0 else 0)
    grid[np.sort(slots[:k]) if r.integers(2) else slots[:k]] = ants[:k]
    m['snapant'] = grid.reshape(nb, nch).tolist()
    m['snapinr'] = [some([lab(10) for _ in range(nch)]) for _ in range(nb)]
    for k, hi in (('flt', 8), ('at1', 16), ('at2', 16), ('at3', 32)):
        m[k + '_all'] = int(r.integers(0, hi)) if r.integers(3) else None
        m[k] = some([int(v) for v in r.integers(0, hi, n)], float(r.choice([0, 0.3, 1])))
    m['gain'] = int(r.integers(0, 13)) if r.integers(4) else None
    return m

DEF = dict(stat=3, theta=0.0, phi=0.0, feeid='UNK', feestat=3, feeg1=35.7, feeg2=35.7, rpdid='UNK', rpdleng=0.0, rpdvf=83.0, rpddd=2.4, rpda0=0.00428, rpda1=0.0, rpdfref=10e6, rpdstr=1.0,
           arbid='UNK', arbin='UNK', arbout='UNK', snapinr='UNK', flt=-1, at1=0, at2=0, at3=0)

def val(m, k, i):
    v = m[k][i]
    if v is None:
        v = m.get(k + '_all')
    return DEF[k] if v is None else v

def val2(m, k, i, j):
    v = m[k][i][j]
    return DEF[k] if v is None else v

def text(m, r):
    out = ['# a comment', '', 'FORMAT_VERSION 10']
    def put(key, v, *ids):
        if v is None:
            return
        if isinstance(v, float):
            v = repr(v)
        s = key + ''.join('[%i]' % (i + 1) for i in ids) + str(r.choice([' ', '  ', '\t'])) + str(v)
        k = int(r.integers(12))
        if k == 0:
            s += '   # note 3'
        elif k == 1:
            s += '  '
        out.append(s)
        if r.integers(40) == 0:
            out.append(str(r.choice(['', '   ', '# other', '#GEO_N 12'])))
    put('STATION_ID', m['sid'])
    put('GEO_N', m['lat']); put('GEO_E', m['lon']); put('GEO_EL', m['elv'])
    put('N_STD', m['n'])
    for i, p in enumerate(m['pos']):
        put('STD_LX', p[0], i); put('STD_LY', p[1], i); put('STD_LZ', p[2], i)
    plain = m['std'] == [k//2 + 1 for k in range(2*m['n'])]
    for i in range(2*m['n']):
        if not plain:
            put('ANT_STD', m['std'][i], i)
            put('ANT_ORIE', m['orie'][i], i)
        put('ANT_STAT', m['stat'][i], i); put('ANT_THETA', m['theta'][i], i); put('ANT_PHI', m['phi'][i], i)
    put('N_FEE', m['nfee'])
    for i in range(m['nfee']):
        put('FEE_ID', m['feeid'][i], i); put('FEE_STAT', m['feestat'][i], i); put('FEE_GAI1', m['feeg1'][i], i); put('FEE_GAI2', m['feeg2'][i], i)
        put('FEE_ANT1', m['feea1'][i], i); put('FEE_ANT2', m['feea2'][i], i)
    put('N_RPD', m['nrpd'])
    for k in ('vf', 'dd', 'a0', 'a1', 'fref', 'str'):
        put('RPD_' + k.upper(), m['rpd' + k + '_all'])
    for i in range(m['nrpd']):
        put('RPD_ID', m['rpdid'][i], i); put('RPD_LENG', m['rpdleng'][i], i); put('RPD_ANT', m['rpdant'][i], i)
        for k in ('vf', 'dd', 'a0', 'a1', 'fref', 'str'):
            put('RPD_' + k.upper(), m['rpd' + k][i], i)
    put('N_SEP', 2*m['n'])
    put('SEP_CABL', 'abc', 0)
    put('N_ARB', m['narb']); put('N_ARBCH', m['narbch'])
    for b in range(m['narb']):
        put('ARB_ID', m['arbid'][b], b); put('ARB_RACK', 3, b); put('ARB_PORT', 4, b); put('ARB_SLOT', 'a1' if r.integers(2) else 5, b)
        for c in range(m['narbch']):
            put('ARB_ANT', m['arbant'][b][c], b, c); put('ARB_IN', m['arbin'][b][c], b, c); put('ARB_OUT', m['arbout'][b][c], b, c); put('ARB_STAT', 3, b, c)
    put('N_SNAP', m['nsnap']); put('N_SNAPCH', m['nsnapch'])
    for b in range(m['nsnap']):
        put('SNAP_ID', 'X%d' % b, b)
        for c in range(m['nsnapch']):
            put('SNAP_ANT', m['snapant'][b][c], b, c); put('SNAP_INR', m['snapinr'][b][c], b, c); put('SNAP_STAT', 2, b, c)
    put('N_SERVER', 2); put('SERVER_ID', 'abc', 0)
    put('N_DR', 5); put('DR_STAT', 3, 1)
    for k in ('flt', 'at1', 'at2', 'at3'):
        put('ASP_' + k.upper(), m[k + '_all'])
        for i in range(m['n']):
            put('ASP_' + k.upper(), m[k][i], i)
    put('DRX_GAIN', m['gain'])
    nl = '\r\n' if r.integers(6) == 0 else '\n'
    return nl.join(out) + nl

def binary(m):
    a = np.zeros((), SSMIF)
    a['ver'], a['sid'], a['geo'], a['nstd'] = 10, m['sid'].encode(), (m['lat'], m['lon'], m['elv']), m['n']
    n = m['n']
    for k, i in (('lx', 0), ('ly', 1), ('lz', 2)):
        a[k][:n] = [p[i] for p in m['pos']]
    a['astd'][:2*n], a['aorie'][:2*n] = m['std'], m['orie']
    def put(k, key, cnt):
        a[k][:cnt] = [val(m, key, i) for i in range(cnt)]
    put('astat', 'stat', 2*n); put('atheta', 'theta', 2*n); put('aphi', 'phi', 2*n)
    a['nfee'] = m['nfee']
    for k in ('feeid', 'feestat', 'feeg1', 'feeg2'):
        put(k, k, m['nfee'])
    a['feea1'][:m['nfee']], a['feea2'][:m['nfee']] = m['feea1'], m['feea2']
    a['nrpd'] = m['nrpd']
    for k in ('rpdid', 'rpdleng', 'rpdvf', 'rpddd', 'rpda0', 'rpda1', 'rpdfref', 'rpdstr'):
        put(k, k, m['nrpd'])
    a['rpdant'][:m['nrpd']] = m['rpdant']
    a['nsep'] = 2*n
    a['narb'], a['narbch'] = m['narb'], m['narbch']
    put('arbid', 'arbid', m['narb'])
    b, c = m['narb'], m['narbch']
    a['arbant'][:b, :c] = m['arbant']
    for k in ('arbin', 'arbout'):
        a[k][:b, :c] = [[val2(m, k, i, j) for j in range(c)] for i in range(b)]
    b, c = m['nsnap'], m['nsnapch']
    a['nsnap'], a['nsnapch'] = b, c
    a['snapant'][:b, :c] = m['snapant']
    a['snapinr'][:b, :c] = [[val2(m, 'snapinr', i, j) for j in range(c)] for i in range(b)]
    a['nserver'], a['ndr'] = 2, 5
    s = np.zeros((), SETTINGS)
    for k in ('flt', 'at1', 'at2', 'at3'):
        s[k][:n] = [val(m, k, i) for i in range(n)]
    s['gain'] = m['gain'] or 0
    return a.tobytes() + s.tobytes()

def antennas(m, single=False):
    """What the station consists of, by antenna number; floats rounded to single precision for binary files."""
    fl = f32 if single else float
    out = {}
    n = m['n']
    mins = {k: min(val(m, k, i) for i in range(n)) for k in ('at1', 'at2', 'at3')}
    for a in range(1, 2*n + 1):
        s = m['std'][a - 1]
        d = dict(id=a, stand=s, pos=[fl(v) if not single else float(v) for v in m['pos'][s - 1]], pol=m['orie'][a - 1], theta=fl(val(m, 'theta', a - 1)), phi=fl(val(m, 'phi', a - 1)), status=val(m, 'stat', a - 1),
                 fee=None, cable=None, arx=None, dig=0, board=0, input='')
        d['asp'] = 2*(val(m, 'at1', s - 1) - mins['at1']) + 2*(val(m, 'at2', s - 1) - mins['at2']) + 0.5*(val(m, 'at3', s - 1) - mins['at3'])
        out[a] = d
    for i in range(m['nfee']):
        for port, k in ((1, 'feea1'), (2, 'feea2')):
            if m[k][i]:
                out[m[k][i]]['fee'] = (val(m, 'feeid', i), i + 1, fl(val(m, 'feeg1', i)), fl(val(m, 'feeg2', i)), val(m, 'feestat', i), port)
    for i in range(m['nrpd']):
        if m['rpdant'][i]:
            out[m['rpdant'][i]]['cable'] = (val(m, 'rpdid', i),) + tuple(fl(val(m, k, i)) for k in ('rpdleng', 'rpdvf', 'rpddd', 'rpda0', 'rpda1', 'rpdfref', 'rpdstr'))
    for b in range(m['narb']):
        for c in range(m['narbch']):
            if m['arbant'][b][c]:
                v = val(m, 'arbid', b)
                out[m['arbant'][b][c]]['arx'] = (int(v) if v.isdigit() else 0, c + 1, b*m['narbch'] + c + 1, val2(m, 'arbin', b, c), val2(m, 'arbout', b, c))
    for b in range(m['nsnap']):
        for c in range(m['nsnapch']):
            if m['snapant'][b][c]:
                out[m['snapant'][b][c]].update(dig=b*m['nsnapch'] + c + 1, board=b + 1, input=val2(m, 'snapinr', b, c))
    return out
