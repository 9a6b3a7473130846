"""C21: conversions between MCS/NDP values and physical ones, C structures and MIB entries are exact."""
import math, struct, os, ctypes
import numpy as np
from datetime import datetime, timedelta, timezone
from vlib.core import *
from hypothesis import strategies as st
from lsl.common import mcs, ndp

FS = 196e6
seeds = st.integers(0, 2**31)

def swap(v):
    return ((v & 255) << 8) | (v >> 8)

word = st.fixed_dictionaries(dict(seed=seeds, kind=st.sampled_from(['freq', 'delay', 'gain', 'filter'])))

@part('words', word, quick=1500, thorough=20000, rule='every case', seconds=60)
def words(c):
    r = rng(c['seed'])
    if c['kind'] == 'freq':
        for f in list(r.uniform(0, 98e6, 40)) + [0.0, 98e6, 10e6, 88e6, 38e6] + list(np.round(r.uniform(3e6, 93e6, 10), -5)):
            w = ndp.freq_to_word(f)
            check(isinstance(w, int) and 0 <= w <= 2**31, 'tuning word %s', w)
            check(abs(w*FS/2**32 - f) <= FS/2**33 + 1e-7, 'tuning word %s is not the closest to %s Hz', w, f)
            check(abs(ndp.word_to_freq(w) - w*FS/2**32) < 1e-7, 'frequency of word %s', w)
        for w in [int(v) for v in r.integers(0, 2**32, 40)] + [0, 2**31, 222417950, 1928352663]:
            check(abs(ndp.word_to_freq(w) - w*FS/2**32) < 1e-7, 'frequency of word %s', w)
            check(ndp.freq_to_word(ndp.word_to_freq(w)) == w, 'word %s changes on the way through the frequency', w)
    elif c['kind'] == 'delay':
        # 12 bits of samples and 4 of 1/16 of one, with the bytes swapped for NDP
        for to, back, sw in ((ndp.delay_to_ndpd, ndp.ndpd_to_delay, swap), (mcs.delay_to_mcsd, mcs.mcsd_to_delay, lambda v: v)):
            for w in [int(v) for v in r.integers(0, 65536, 60)] + [0, 1, 15, 16, 255, 256, 4095, 65535]:
                d = back(sw(w))
                check(abs(d - w/16*1e9/FS) < 1e-6, 'delay %s of word %s', d, w)
                check(to(d) == sw(w), 'word %s becomes %s on the way through the delay', w, sw(to(d)))
            for s in list(r.uniform(0, 4095.99, 40)):
                w = sw(to(s*1e9/FS))
                check(0 <= w < 65536 and -1e-5 <= s - w/16 <= 1/16 + 1e-5, 'delay of %s samples is word %s', s, w)
    elif c['kind'] == 'gain':
        for to, back, sw in ((ndp.gain_to_ndpg, ndp.ndpg_to_gain, swap), (mcs.gain_to_mcsg, mcs.mcsg_to_gain, lambda v: v)):
            for w in [int(v) for v in r.integers(0, 32768, 60)] + [0, 1, 255, 256, 32767]:
                g = back(sw(w))
                check(abs(g - w/32767) < 1e-9, 'gain %s of word %s', g, w)
                check(to(g) == sw(w), 'word %s becomes %s on the way through the gain', w, sw(to(g)))
            for g in list(r.uniform(0, 1, 40)) + [0.0, 1.0, 0.5]:
                w = sw(to(g))
                check(0 <= w <= 32767 and -1e-9 <= g - w/32767 <= 1/32767 + 1e-9, 'gain %s is word %s', g, w)
    else:
        rate = float(r.choice([250e3, 500e3, 1e6, 2e6, 4.9e6, 9.8e6, 19.6e6, r.uniform(1e5, 2e7)]))
        npts = int(r.integers(200, 1500))
        flt = ndp.drx_filter(sample_rate=rate, npts=npts)
        h = np.array(ndp._DRX_FIR) if hasattr(ndp, '_DRX_FIR') else None
        top = rate/2*(1 - 1.0/npts)
        f = r.uniform(-top, top, 30)*0.999
        v = flt(f)
        check(np.allclose(v, flt(-f), atol=1e-6), 'filter is not symmetric')
        check(np.all(v >= -1e-6) and np.all(v <= 1 + 1e-3), 'filter response outside of 0 to 1')
        check(np.all(flt(np.array([-0.51, 0.51, 2.0])*rate) == 0), 'filter response outside of the band')
        if h is not None:
            n = np.arange(len(h))
            g = np.linspace(0, math.pi*(1 - 1.0/npts), 4000)
            peak = (np.abs(np.exp(-1j*np.outer(g, n)) @ h)**2).max()
            ref = np.abs(np.exp(-1j*np.outer(f/rate*2*math.pi, n)) @ h)**2/peak
            check(np.abs(v - ref).max() < 2e-3, 'filter response is off by %s', np.abs(v - ref).max())
    return True

@part('time', seeds, quick=6000, thorough=200000, rule='every case', seconds=60)
def times(seed):
    r = rng(seed)
    EPOCH = datetime(1858, 11, 17, tzinfo=timezone.utc)
    mjd = int(r.choice([r.integers(40587, 70000), r.integers(15020, 88000), 51544, 57753, 57754, 60000]))
    mpm = int(r.choice([0, 1, 999, 1000, 86399999, 86399000, 43200000, r.integers(0, 86400000), r.integers(0, 86400000), r.integers(0, 86400000)]))
    want = EPOCH + timedelta(days=mjd, milliseconds=mpm)
    got = mcs.mjdmpm_to_datetime(mjd, mpm)
    check(got == want and got.utcoffset() == timedelta(0), 'MJD %s, MPM %s is %s, not %s', mjd, mpm, got, want)
    check(mcs.datetime_to_mjdmpm(got) == (mjd, mpm), 'and back is %s', mcs.datetime_to_mjdmpm(got))
    tz = timezone(timedelta(minutes=int(r.integers(-14*60, 14*60))))
    loc = mcs.mjdmpm_to_datetime(mjd, mpm, tz=tz)
    check(loc == want and loc.utcoffset() == tz.utcoffset(None), 'time in another zone')
    check(mcs.datetime_to_mjdmpm(loc) == (mjd, mpm), 'time from another zone')
    check(mcs.datetime_to_mjdmpm(want.replace(tzinfo=None)) == (mjd, mpm), 'naive time')
    us = int(r.integers(0, 1000))
    check(mcs.datetime_to_mjdmpm(want + timedelta(microseconds=us)) == (mjd, mpm), 'parts of a millisecond')
    return True

TYPES = [('signed int', 'i4'), ('int', 'i4'), ('unsigned int', 'u4'), ('signed short int', 'i2'), ('signed short', 'i2'), ('short int', 'i2'), ('short', 'i2'), ('unsigned short int', 'u2'), ('unsigned short', 'u2'),
         ('signed long int', 'i8'), ('signed long', 'i8'), ('long int', 'i8'), ('long', 'i8'), ('unsigned long int', 'u8'), ('unsigned long', 'u8'), ('signed long long', 'i8'), ('long long', 'i8'), ('unsigned long long', 'u8'),
         ('float', 'f4'), ('double', 'f8'), ('char', 'S'), ('signed char', 'i1'), ('unsigned char', 'u1')]
MACROS = {'ME_MAX_NSTD': 256, 'ME_MAX_NDR': 5, 'ME_MAX_NARBCH': 16, 'ME_MAX_SSNAME_LENGTH': 3, 'ME_MAX_RACK': 8}

structs = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 12), char=st.sampled_from(['str', 'int']), endian=st.sampled_from(['little', 'big', 'network', 'native', 'LITTLE'])))

@part('struct', structs, quick=3000, thorough=60000, rule='two or more fields of different sizes', seconds=80)
def c_struct(c):
    r = rng(c['seed'])
    over = {'ME_MAX_RACK': int(r.integers(1, 9)), 'MY_SIZE': 3} if r.integers(2) else None
    macros = dict(MACROS, **(over or {}))
    text, fields, dims = ['struct foo {'] if r.integers(2) else [], [], {}
    bo = '>' if c['endian'] in ('big', 'network') else '<'
    for k in range(c['n']):
        dec, typ = TYPES[int(r.integers(len(TYPES)))]
        shape, spec = [], ''
        for _ in range(int(r.choice([0, 0, 1, 1, 2, 3, 4]))):
            if r.uniform() < 0.3 and np.prod(shape + [1]) < 50:
                m = str(r.choice([k for k in macros if macros[k] < 20]))
                how = int(r.integers(3))
                d, s = [(macros[m], m), (macros[m]+1, m + '+1'), (2*macros[m], '2*' + m)][how]
            else:
                d = int(r.integers(1, 5))
                s = str(d)
            shape.append(d)
            spec += f'[{s}]'
        name = f'f{k}_' + ''.join(r.choice(list('abcXYZ_09'), 4))
        text.append(' '*int(r.integers(0, 5)) + dec + str(r.choice([' ', '   ', '\t'])) + name + spec + ';' + str(r.choice(['', ' /* a comment [2] */', ' // another; one'])))
        if r.uniform() < 0.1:
            text.append(str(r.choice(['', '   ', '// int x;'])))
        base = 'i1' if typ == 'S' else typ
        fields.append((name, typ, np.dtype(bo + base) if base[-1] != '1' else np.dtype(base), tuple(shape)))
        dims[name] = shape
    if text[0].startswith('struct'):
        text.append('}')
    try:
        s = mcs.parse_c_struct('\n'.join(text), char_mode=c['char'], endianness=c['endian'], overrides=over)
    except RuntimeError:
        raise
    ref = np.dtype([(n, d, sh) if sh else (n, d) for n, t, d, sh in fields], align=True)
    check(ctypes.sizeof(s) == ref.itemsize == s.sizeof(), 'size %s of the structure is not %s', ctypes.sizeof(s), ref.itemsize)
    buf = r.integers(0, 256, ref.itemsize).astype(np.uint8)
    buf[r.uniform(size=buf.size) < 0.1] = 0
    buf = buf.tobytes()
    ctypes.memmove(ctypes.addressof(s), buf, len(buf))
    want = np.frombuffer(buf, ref)[0]
    dct = s.as_dict()
    check(list(dct) == [f[0] for f in fields], 'fields')
    check(s.dims == dims, 'dimensions %s', s.dims)
    for n, t, d, sh in fields:
        off = ref.fields[n][1]
        check(getattr(type(s), n).offset == off, 'offset of %s', n)
        got = getattr(s, n)
        w = want[n]
        if t == 'S' and c['char'] == 'str':
            raw = w.tobytes() if sh else np.array([w]).tobytes()
            check((got == raw.split(b'\0')[0]) if sh else (got == raw), 'characters %s', n)
            continue
        got = np.array(list(got) if sh else got, dtype=d.newbyteorder('='))
        w = np.asarray(w).ravel() if sh else w
        check(np.array_equal(got.astype(d.newbyteorder('=')), np.asarray(w).astype(d.newbyteorder('=')), equal_nan=d.kind == 'f'), 'values of %s', n)
        if sh and len(sh) > 1:
            m = mcs.flat_to_multi(list(got), *s.dims[n])
            check(np.array_equal(np.array(m), got.reshape(sh), equal_nan=d.kind == 'f'), 'flat_to_multi of %s', n)
    return len({f[2].itemsize for f in fields}) > 1

@part('nested', seeds, quick=300, thorough=5000, rule='two or more dimensions', seconds=40)
def nested(seed):
    r = rng(seed)
    shape = [int(v) for v in r.integers(1, 6, int(r.integers(1, 5)))]
    flat = [int(v) for v in r.integers(0, 1000, int(np.prod(shape)))]
    keep = list(flat)
    out = mcs.flat_to_multi(flat, *shape)
    check(out == np.array(flat).reshape(shape).tolist() and flat == keep, 'flat_to_multi %s', shape)
    try:
        mcs.flat_to_multi(flat + [1], *shape)
    except ValueError:
        pass
    else:
        check(False, 'a list of the wrong size is accepted')
    return len(shape) > 1

def enu(az, el):
    return np.array([math.cos(el)*math.sin(az), math.cos(el)*math.cos(az), math.sin(el)])

@part('pointing', seeds, quick=1500, thorough=30000, rule='rotation of more than a degree', seconds=60)
def pointing(seed):
    r = rng(seed)
    th, ph, ps = r.uniform(0, math.pi), r.uniform(-math.pi, 2*math.pi), r.choice([0.0, r.uniform(-math.pi, math.pi), r.uniform(-0.05, 0.05)])
    az, el = r.uniform(0, 2*math.pi), r.uniform(0.01, 1.55)
    deg = bool(r.integers(2))
    k = 180/math.pi if deg else 1.0
    def go(a, e, t, p, s):
        x, y = mcs.apply_pointing_correction(a*k, e*k, t*k, p*k, s*k, degrees=deg)
        return float(x)/k, float(y)/k
    a2, e2 = go(az, el, th, ph, ps)
    u = np.array([math.cos(ph)*math.sin(th), math.sin(ph)*math.sin(th), math.cos(th)])
    v = enu(az, el)
    w = v*math.cos(ps) + np.cross(u, v)*math.sin(ps) + u*np.dot(u, v)*(1 - math.cos(ps))
    check(np.abs(enu(a2, e2) - w).max() < 1e-9, 'rotated to %s %s', a2, e2)
    check(0 <= a2 < 2*math.pi + 1e-12 and abs(e2) <= math.pi/2 + 1e-12, 'range of the angles')
    if abs(e2) < 1.5:
        a3, e3 = go(a2, e2, th, ph, -ps)
        check(np.abs(enu(a3, e3) - v).max() < 1e-9, 'rotating back gives %s %s', a3, e3)
    return abs(ps) > 0.02

CODES = [('i1u', '<B'), ('i2u', '<H'), ('i4u', '<I'), ('i4s', '<i'), ('i8u', '<Q'), ('f4', '<f'), ('f4r', '>f'), ('f8', '<d'), ('f8r', '>d')]

def mib_value(r):
    if r.integers(3) == 0:
        n = int(r.integers(1, 257))
        t = ''.join(r.choice(list('abcXYZ 0123456789.-'), n))
        return f'a{n}', t.encode(), t
    code, fmt = CODES[int(r.integers(len(CODES)))]
    if 'f' in code:
        v = float(np.float32(r.choice([0.0, 1.0, -2.5, r.normal()*10**r.uniform(-5, 5)])))
    else:
        lo, hi = (-2**31, 2**31) if code == 'i4s' else (0, 256**int(code[1]))
        v = int(r.choice([0, 1, 5, 255])) if r.integers(2) else lo + int(r.integers(0, 2**62)) % (hi - lo)
        if r.integers(3) == 0:
            v = v & ~0xff if v >= 0 else v
    return code, struct.pack(fmt, v), v

def mib_entry(r, index):
    code, raw, v = mib_value(r)
    tv = (int(r.integers(0, 2**31)), int(r.integers(0, 10**6)))
    branch = r.uniform() < 0.15
    rec = struct.pack('<i12s8192s6s6s4xqq', 0 if branch else 1, index.encode(), raw, code.encode(), b'a1', *tv)
    return rec, (None if branch else (code, v, tv))

mibs = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 30), file=st.booleans(), dirname=st.booleans()))

def same_entry(e, index, m):
    code, v, tv = m
    check(e.index == index and e.dbmType == code and e.icdType == 'a1' and e.eType == 1, 'index or types of %s', index)
    check(e.value == v and type(e.value) is type(v), 'value %s of a %s entry is not %s', e.value, code, v)
    check(abs((e.updateTime - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds() - tv[0] - tv[1]/1e6) < 2e-6, 'update time %s of %s', e.updateTime, tv)

@part('mib', mibs, quick=1000, thorough=15000, rule='two or more values', seconds=80)
def mib(c):
    r = rng(c['seed'])
    ent = {}
    for k in range(c['n']):
        index = '.'.join(str(int(v)) for v in r.integers(0, 40, int(r.integers(1, 4))))
        ent[index] = mib_entry(r, index)
    n = 0
    for index, (rec, m) in ent.items():
        try:
            e = mcs.MIBEntry.from_entry(rec)
        except ValueError:
            check(m is None, 'a value entry is refused')
            continue
        check(m is not None, 'a branch is accepted')
        same_entry(e, index, m)
        n += 1
    for bad in (b'', rec[:int(r.integers(0, len(rec)))], struct.pack('<i12s8192s6s6s4xqq', 1, b'abc', b'1', b'a1', b'a1', 0, 0), struct.pack('<i12s8192s6s6s4xqq', 1, b'1.2', b'1', b'z9', b'a1', 0, 0)):
        try:
            mcs.MIBEntry.from_entry(bad)
        except ValueError:
            continue
        check(False, 'a broken entry is accepted')
    if c['file']:
        try:
            import dbm.gnu as gnu
        except ImportError:
            return n > 1
        d = tmpdir()
        fn = os.path.join(d, 'x_ASP_begin.pag')
        with gnu.open(fn, 'n') as db:
            for index, (rec, m) in ent.items():
                db['KEY_' + index] = rec
        init = os.path.join(d, 'init.dat')
        with open(init, 'w') as fh:
            for index, (rec, m) in ent.items():
                fh.write(f"{'B' if m is None else 'V'} {index} NAME_{index.replace('.', '_')} 0 a1 a1\n")
        use = bool(r.integers(2))
        b = mcs.MIB.from_file(fn[:-4] + '.dir' if c['dirname'] else fn, init_filename=init if use else None)
        keep = {i for i, (rec, m) in ent.items() if m is not None}
        check(set(b.keys()) == keep, 'indices %s', sorted(b.keys()))
        for i in keep:
            same_entry(b[i], i, ent[i][1])
            if use:
                check(b['NAME_' + i.replace('.', '_')] is b[i], 'entry by name')
        if use:
            check(set(b.keys(name=True)) == {'NAME_' + i.replace('.', '_') for i in keep}, 'names')
        check(str(len(keep)) in str(b), 'description')
    return n > 1
