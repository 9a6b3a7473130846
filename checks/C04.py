"""C04: a frame buffer puts a shuffled, lossy, duplicated stream back in order and loses nothing silently."""
import io
import numpy as np
from vlib.core import *
from vlib import formats as F
from hypothesis import strategies as st
from lsl.reader import drx, drx8, tbx, cor, vdif
from lsl.reader.buffer import DRXFrameBuffer, DRX8FrameBuffer, TBXFrameBuffer, CORFrameBuffer, VDIFFrameBuffer

T0 = 196000000*1600000000

class Kind:
    """How to make, name and read back frames of one format."""
    def __init__(self, name):
        self.name = name

    def buffer(self, ids, n, reorder):
        if self.name in ('drx', 'drx8'):
            beams, tunes, pols = ids
            return (DRXFrameBuffer if self.name == 'drx' else DRX8FrameBuffer)(beams=beams, tunes=tunes, pols=pols, nsegments=n, reorder=reorder)
        if self.name == 'tbx':
            return TBXFrameBuffer(chans=ids, nsegments=n, reorder=reorder)
        return VDIFFrameBuffer(threads=ids, nsegments=n, reorder=reorder)

    def expect(self, ids):
        if self.name in ('drx', 'drx8'):
            return [(b, t, p) for b in ids[0] for t in ids[1] for p in ids[2]]
        return list(ids)

    def frame(self, ident, slot, serial, ci8):
        v = serial % 7 + 1
        if self.name in ('drx', 'drx8'):
            m = drx if self.name == 'drx' else drx8
            raw = F.drx(frame_count=serial, beam=ident[0], tune=ident[1], pol=ident[2], timetag=T0 + slot*40960, re=v, im=-v, drx8=self.name == 'drx8', tuning_word=12345)
            return (m.read_frame_ci8 if ci8 else m.read_frame)(io.BytesIO(raw))
        if self.name == 'tbx':
            raw = F.tbx(frame_count=serial, first_chan=ident, timetag=T0 + slot*8192, nstand=64, nchan=4, re=v, im=-v)
            return (tbx.read_frame_ci8 if ci8 else tbx.read_frame)(io.BytesIO(raw))
        # VDIF: several frames in a second
        raw = F.vdif(seconds=1000 + slot//3, frame_in_second=slot % 3, thread=ident, station=77, ext=(serial, 0, 0, 0), bits=8, payload=bytes([128+v])*64)
        return (vdif.read_frame_i8 if ci8 else vdif.read_frame)(io.BytesIO(raw))

    def key(self, f):
        if self.name in ('drx', 'drx8'):
            return tuple(f.id)
        if self.name == 'tbx':
            return f.header.first_chan
        return f.id[1]

    def serial(self, f):
        return f.header.extended_data_1 if self.name == 'vdif' else f.header.frame_count

    def slot(self, f):
        if self.name in ('drx', 'drx8'):
            return (f.payload.timetag - T0)/40960
        if self.name == 'tbx':
            return (f.payload.timetag - T0)/8192
        return (f.header.seconds_from_epoch - 1000)*3 + f.header.frame_in_second

    def intact(self, f):
        v = self.serial(f) % 7 + 1
        d = f.payload.data
        if d.dtype.names:
            return bool((d['re'] == v).all() and (d['im'] == -v).all())
        if np.iscomplexobj(d):
            return bool((d == v - 1j*v).all())
        return bool((d == (v if d.dtype == np.int8 else np.float32((2*(128+v)-255)/256.0))).all())

    def zero(self, f):
        d = f.payload.data
        if d.dtype.names:
            return not d['re'].any() and not d['im'].any()
        return not d.any()

ids_s = st.one_of(
    st.tuples(st.sampled_from(['drx', 'drx8']), st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=2, unique=True),
              st.sampled_from([[1], [2], [1, 2]]), st.sampled_from([[0], [1], [0, 1]]))),
    st.tuples(st.just('tbx'), st.lists(st.sampled_from([0, 4, 8, 100, 2000, 4092]), min_size=1, max_size=4, unique=True)),
    st.tuples(st.just('vdif'), st.lists(st.integers(0, 1023), min_size=1, max_size=4, unique=True)))

op = st.one_of(
    st.tuples(st.just('a'), st.integers(-3, 3), st.integers(0, 7)),           # append: slot around the clock, which id
    st.tuples(st.just('a'), st.integers(-3, 3), st.integers(0, 7)),
    st.tuples(st.just('A'), st.integers(-3, 3), st.integers(0, 255)),         # append several ids of one slot at once (bit mask)
    st.tuples(st.just('t'), st.integers(1, 2), st.integers(0, 0)),            # the clock moves on
    st.tuples(st.just('g'), st.integers(0, 0), st.integers(0, 0)),            # get
    st.tuples(st.just('p'), st.integers(0, 1), st.integers(0, 0)),            # peek
    st.tuples(st.just('f'), st.integers(0, 9), st.integers(0, 0)),            # flush (only when the number is 9), else get
    st.tuples(st.just('r'), st.integers(0, 9), st.integers(0, 0)))            # reset (likewise)

case_s = st.tuples(ids_s, st.integers(1, 6), st.booleans(), st.booleans(), st.lists(op, min_size=3, max_size=60))

def verify(kind, buf, out, slot, model, expected, reorder, stats):
    """What was returned for `slot` against the model's frames [(key, serial)]."""
    have = {}
    for k, s in model:
        if k in have:
            stats['dropped'] += 1
        else:
            have[k] = s
    out = list(out)
    keys = [kind.key(f) for f in out]
    check(sorted(keys) == sorted(set(expected)), "returned %s, expected %s", sorted(keys), sorted(expected))
    for f, k in zip(out, keys):
        check(kind.slot(f) == slot, "a frame of time %s among those of %s", kind.slot(f), slot)
        if k in have:
            check(f.valid, "a received frame is marked invalid")
            check(kind.serial(f) == have[k], "frame %s is serial %s, not %s", k, kind.serial(f), have[k])
            check(kind.intact(f), "the data of a received frame changed")
        else:
            check(not f.valid, "the fill frame of %s is marked valid", k)
            check(kind.zero(f), "the fill frame of %s is not zero", k)
            if kind.name in ('drx', 'drx8'):
                check((f.is_drx if kind.name == 'drx' else f.is_drx8), "a fill frame of another format")
    if reorder:
        check(keys == sorted(keys), "not ordered: %s", keys)
    n = len(have)
    if n == len(expected):
        stats['full'] += 1
    else:
        stats['partial'] += 1
        stats['missing'] += len(expected) - n

@part('stream', case_s, quick=9000, thorough=60000, shards=4, seconds=60, rule='a history with a get or flush that returns frames after out-of-order, late, duplicate or missing ones')
def c_stream(case):
    (name, ids), nseg, reorder, ci8, ops = case
    kind = Kind(name)
    expected = kind.expect(ids)
    buf = kind.buffer(ids, nseg, reorder)
    model, done, serial, clock = {}, -10**9, 0, 5
    stats = dict(full=0, partial=0, missing=0, dropped=0)
    events = set()
    for o, a, b in ops:
        if o in 'aA':
            slot = max(0, clock + a)
            which = [expected[b % len(expected)]] if o == 'a' else [e for i, e in enumerate(expected) if b >> i & 1]
            if not which:
                continue
            frames = []
            for e in which:
                serial += 1
                frames.append((e, serial, kind.frame(e, slot, serial, ci8)))
            got = buf.append([f for _, _, f in frames]) if len(frames) > 1 or o == 'A' else buf.append(frames[0][2])
            late = slot <= done
            check(got is (not late), "append returned %s for a frame that is %s", got, 'late' if late else 'in time')
            if late:
                stats['dropped'] += len(frames)
                events.add('late')
            else:
                if slot in model and {k for k, _ in model[slot]} & set(which):
                    events.add('duplicate')
                if model and slot < max(model):
                    events.add('disorder')
                model.setdefault(slot, []).extend((k, s) for k, s, _ in frames)
        elif o == 't':
            clock += a
        elif o == 'p':
            k = buf.peek(require_filled=bool(a))
            if not model or (a and len(model) < nseg):
                check(k is None, "peek of a buffer that is not ready: %s", k)
            else:
                check(k is not None, "peek of a ready buffer returned None")
        elif o == 'f' and a == 9:
            slots = sorted(model)
            outs = list(buf.flush())
            check(len(outs) == len(slots), "flush returned %s segments of %s", len(outs), len(slots))
            for out, slot in zip(outs, slots):
                verify(kind, buf, out, slot, model.pop(slot), expected, reorder, stats)
                done = slot
                events.add('return')
            check(buf.is_empty(), "not empty after flush")
        elif o == 'r' and a == 9:
            buf.reset()
            model, done = {}, -10**9
            check(buf.is_empty(), "not empty after reset")
        else:
            out = buf.get()
            if len(model) < nseg:
                check(out is None, "get of a buffer with %s of %s segments returned something", len(model), nseg)
            else:
                check(out is not None, "get of a buffer with %s of %s segments returned None", len(model), nseg)
                slot = min(model)
                frames = model.pop(slot)
                if len({k for k, _ in frames}) < len(expected):
                    events.add('missing')
                verify(kind, buf, out, slot, frames, expected, reorder, stats)
                done = slot
                events.add('return')
        check(buf.is_empty() == (not model), "is_empty is %s", buf.is_empty())
        check(bool(buf.filled) == (len(model) >= nseg) and bool(buf.overfilled) == (len(model) > nseg), "filled/overfilled")
        got = dict(full=buf.full, partial=buf.partial, missing=buf.missing, dropped=buf.dropped)
        check(got == stats, "statistics %s, expected %s", got, stats)
    # at the end nothing that was accepted is left behind
    for slot, out in zip(sorted(model), buf.flush()):
        verify(kind, buf, out, slot, model.pop(slot), expected, reorder, stats)
        events.add('return')
    check(not model, "flush did not return the segments %s", sorted(model))
    check(buf.is_empty(), "not empty after the last flush")
    check(dict(full=buf.full, partial=buf.partial, missing=buf.missing, dropped=buf.dropped) == stats, "statistics at the end")
    for e in events:
        label(e)
    return 'return' in events and len(events) > 1

@part('cor', st.tuples(st.integers(0, 2**32-1), st.integers(1, 300), st.sampled_from([[3], [10, 7]])), quick=3, thorough=30, seconds=100,
      rule='correlation frames of 256 stands with a few missing and duplicated ones')
def c_cor(case):
    seed, nlost, chans = case
    g = rng(seed)
    buf = CORFrameBuffer(chans=chans, nsegments=1)
    pairs = [(i, j, c) for i in range(1, 257) for j in range(i, 257) for c in chans]
    lost = set(int(v) for v in g.choice(len(pairs), nlost, replace=False))
    order = g.permutation(len(pairs))
    have = {}
    nc = 192
    vis = np.zeros((nc, 2, 2), np.complex64)
    for n, i in enumerate(order):
        if int(i) in lost:
            continue
        if n > 500 and n % 8 and len(chans) == 1 or len(chans) == 2 and n % 16:
            lost.add(int(i))                 # keep the case small
            continue
        s0, s1, c = pairs[i]
        vis[:] = n+1
        for rep in range(2 if n % 1000 == 5 else 1):
            f = cor.read_frame(io.BytesIO(F.cor(frame_count=rep, first_chan=c, stand0=s0, stand1=s1, timetag=T0, vis=vis)))
            check(buf.append(f) is True, "append")
        have[pairs[i]] = n+1
    out = list(buf.get())
    keys = [tuple(f.id) + (f.header.first_chan,) for f in out]
    check(sorted(keys) == sorted(pairs), "the returned frames are not one per pair of stands and channel block")
    check(buf.missing == len(lost) and buf.partial == 1, "statistics: %s missing of %s", buf.missing, len(lost))
    for f, k in zip(out, keys):
        check(f.payload.timetag == T0, "time")
        if k in have:
            check(f.valid and f.header.frame_count == 0 and f.payload.data[0, 0, 0] == have[k], "a received frame changed")
        else:
            check(not f.valid and not f.payload.data.any(), "a fill frame of %s is not zero or valid", k)
    return True
