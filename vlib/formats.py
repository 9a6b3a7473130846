"""Independent encoders (and reference values) for the raw data formats, written from the format documents."""
import struct
import numpy as np

SYNC = bytes.fromhex('dec0de5c')          # Mark 5C sync word as it lies in the file
FS = 196000000

def enc44(re, im):
    """4+4 bit complex: real in the high nibble, two's complement."""
    return (((np.asarray(re).astype(np.int64) & 0xF) << 4) | (np.asarray(im).astype(np.int64) & 0xF)).astype(np.uint8)

def drx(frame_count=0, beam=1, tune=1, pol=0, second_count=0, decimation=10, time_offset=0, timetag=0,
        tuning_word=0, flags=0, re=None, im=None, drx8=False, sync=SYNC, drx_id=None):
    if drx_id is None:
        drx_id = (beam & 7) | ((tune & 7) << 3) | (0x40 if drx8 else 0) | ((pol & 1) << 7)
    hdr = sync + struct.pack('>IIHHQII', (drx_id << 24) | (frame_count & 0xFFFFFF), second_count & 0xFFFFFFFF,
                             decimation, time_offset, timetag, tuning_word, flags)
    if drx8:
        a = np.empty((4096, 2), np.int8)
        a[:, 0] = re
        a[:, 1] = im
        return hdr + a.tobytes()
    return hdr + np.broadcast_to(enc44(re, im), (4096,)).tobytes()

def tbx(frame_count=0, frame_id=8, second_count=0, first_chan=0, nstand=64, nchan=4, timetag=0, re=None, im=None,
        sync=SYNC):
    hdr = sync + struct.pack('>IIIHHq', (frame_id << 24) | (frame_count & 0xFFFFFF), second_count & 0xFFFFFFFF,
                             first_chan, nstand, nchan, timetag)
    return hdr + np.ascontiguousarray(np.broadcast_to(enc44(re, im), (nchan, nstand, 2))).tobytes()

def tbx_size(nstand, nchan):
    return 28 + nstand*nchan*2

def cor(frame_count=0, adp_id=2, second_count=0, first_chan=0, gain=0, timetag=0, navg=1, stand0=1, stand1=1,
        vis=None, sync=SYNC):
    hdr = sync + struct.pack('>IIHHqihh', (adp_id << 24) | (frame_count & 0xFFFFFF), second_count & 0xFFFFFFFF,
                             first_chan, gain, timetag, navg, stand0, stand1)
    return hdr + np.ascontiguousarray(vis, dtype='<c8').tobytes()

DRSPEC_FORMATS = {0x01: ('XX',), 0x02: ('XY_real',), 0x04: ('XY_imag',), 0x08: ('YY',), 0x09: ('XX', 'YY'),
                  0x06: ('XY_real', 'XY_imag'), 0x0F: ('XX', 'XY_real', 'XY_imag', 'YY'),
                  0x10: ('I',), 0x20: ('Q',), 0x40: ('U',), 0x80: ('V',), 0x90: ('I', 'V'),
                  0xF0: ('I', 'Q', 'U', 'V')}

def drspec(timetag=0, time_offset=0, decimation=10, tuning_words=(0, 0), fills=(1, 1, 1, 1), errors=(0, 0, 0, 0),
           beam=1, fmt=0x09, version=2, flags=0, nfreq=32, nint=1, sats=(0, 0, 0, 0), data=None,
           magic1=0xC0DEC0DE, magic2=0xED0CED0C):
    """data: (2 tunings, nfreq, nproduct) float32"""
    hdr = struct.pack('<IQHH2I4I4BBBBBII4II', magic1, timetag, time_offset, decimation, *tuning_words, *fills,
                      *errors, beam, fmt, version, flags, nfreq, nint, *sats, magic2)
    return hdr + np.ascontiguousarray(data, dtype='<f4').tobytes()

def drspec_norm(prod, tuning, nfreq, fills):
    x, y = fills[2*tuning], fills[2*tuning+1]
    if prod == 'XX':
        f = x
    elif prod == 'YY':
        f = y
    else:
        f = min(x, y)
    return np.float64(nfreq)*f

def vdif(seconds=0, legacy=0, invalid=0, frame_in_second=0, ref_epoch=0, nchan_log2=0, version=0, station=0,
         thread=0, bits=8, is_complex=0, ext=(0, 0, 0, 0), payload=b'', frame_length=None):
    hsize = 16 if legacy else 32
    if frame_length is None:
        assert (hsize + len(payload)) % 8 == 0
        frame_length = (hsize + len(payload))//8
    w0 = (seconds & 0x3FFFFFFF) | (legacy << 30) | (invalid << 31)
    w1 = (frame_in_second & 0xFFFFFF) | ((ref_epoch & 0x3F) << 24)
    w2 = (frame_length & 0xFFFFFF) | (nchan_log2 << 24) | (version << 29)
    w3 = (station & 0xFFFF) | ((thread & 0x3FF) << 16) | ((bits-1) << 26) | (is_complex << 31)
    h = struct.pack('<4I', w0, w1, w2, w3)
    if not legacy:
        h += struct.pack('<4I', *ext)
    return h + payload

def vdif_levels(bits, integer):
    if bits == 1:
        v = [-1.0, 1.0]
    elif bits == 2:
        v = [-3, -1, 1, 3] if integer else [-3.3359, -1.0, 1.0, 3.3359]
    elif bits == 4:
        v = [n-8 for n in range(16)] if integer else [(n-8)/2.95 for n in range(16)]
    else:
        v = [b-128 for b in range(256)] if integer else [(2*b-255)/256.0 for b in range(256)]
    return np.array(v)

def vdif_codes(payload, bits):
    """Sample codes in time order: the first sample lies in the least significant bits."""
    a = np.frombuffer(payload, np.uint8)
    out = np.stack([(a >> (bits*k)) & ((1 << bits)-1) for k in range(8//bits)], axis=1)
    return out.reshape(-1)
