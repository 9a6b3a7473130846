"""C32: locks exclude each other, caches keep files and their limit, downloads are complete or refused."""
import gzip
import io
import os
import sys
import threading
import time
import warnings
import zlib
from email.utils import formatdate
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from unittest import mock
from hypothesis import strategies as st
from vlib.core import *
from lsl.misc import file_cache as fc, file_lock as fl
from lsl.common import data_access as da
import logging
from lsl.logger import LSL_LOGGER
LSL_LOGGER.setLevel(logging.CRITICAL)
warnings.simplefilter('ignore')

NAMES = ['a', 'b.txt', 'sub/c.dat', 'sub/deep/d', '[x]*?', 'wörter.txt']
text = st.text('abcdef 0123\n', max_size=30)
rops = st.lists(st.one_of(st.tuples(st.just('read'), st.integers(0, 12)), st.tuples(st.just('line')), st.tuples(st.just('tell')), st.tuples(st.just('seek'), st.integers(0, 20)),
                          st.tuples(st.just('end')), st.tuples(st.just('all'))), max_size=5)
op = st.one_of(
    st.tuples(st.just('w'), st.sampled_from(NAMES), st.sampled_from(['w', 'wb', 'a', 'ab', 'w', 'a']), st.lists(text, max_size=3), st.booleans()),
    st.tuples(st.just('r'), st.sampled_from(NAMES), st.sampled_from(['r', 'rb']), rops, st.sampled_from(['all', 'iter', 'lines'])),
    st.tuples(st.just('rm'), st.sampled_from(NAMES)), st.tuples(st.just('info'), st.sampled_from(NAMES)),
    st.tuples(st.just('nest'), st.sampled_from(NAMES), st.sampled_from(NAMES), text))
hist = st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=14), mem=st.booleans(), deep=st.booleans(), uni=st.booleans()))


class Boom(Exception):
    pass


def other_thread(fn, seconds=20):
    """Run fn in another thread; True if it came to an end."""
    out = []

    def run():
        try:
            out.append(fn())
        except BaseException as e:
            out.append(e)
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(seconds)
    return not t.is_alive(), (out or [None])[0]


def cache(c, **kw):
    if c['mem']:
        return fc.MemoryCache(**kw)
    d = os.path.join(tmpdir(), 'one', 'two') if c.get('deep') else tmpdir()
    k = fc.FileCache(d, **kw)
    check(os.path.isdir(d) and k.cache_dir == d, 'cache directory')
    return k


@part('history', hist, quick=4800, thorough=15000, rule='a file is written twice or appended to and read', shards=2)
def history(c):
    k = cache(c)
    model = {}
    times = {}
    wrote = set()
    rich = False
    for o in c['ops']:
        name = o[1]
        check((name in k) == (name in model), 'contains', name)
        if o[0] == 'w':
            binary = 'b' in o[2]
            old = model.get(name, b'') if o[2][0] == 'a' else b''
            t0 = time.time()
            try:
                with k.open(name, o[2]) as fh:
                    for s in o[3]:
                        s = ('ü' + s if c['uni'] else s).encode()
                        n = fh.write(s if binary else s.decode())
                        old += s
                        check(not binary or n == len(s), 'number of bytes written')
                    if o[4]:
                        raise Boom()
            except Boom:
                pass
            rich = rich or name in wrote
            wrote.add(name)
            if o[3] and any(o[3]) or c['uni'] and o[3] or o[2][0] == 'w' or name not in model:
                times[name] = (t0, time.time())
            model[name] = old
        elif o[0] == 'r':
            if name not in model:
                try:
                    with k.open(name, o[2]) as fh:
                        pass
                    check(False, 'a missing file was opened')
                except OSError:
                    pass
                check(name not in k, 'reading created a file')
                continue
            ref = io.BytesIO(model[name])
            with k.open(name, o[2]) as fh:
                dec = (lambda b: b) if 'b' in o[2] else (lambda b: b.decode())
                if not c['uni']:
                    for r in o[3]:
                        if r[0] == 'read':
                            check(fh.read(r[1]) == dec(ref.read(r[1])), 'read')
                        elif r[0] == 'line':
                            check(fh.readline() == dec(ref.readline()), 'readline')
                        elif r[0] == 'tell':
                            check(fh.tell() == ref.tell(), 'tell')
                        elif r[0] == 'seek':
                            check(fh.seek(r[1]) == ref.seek(r[1]), 'seek')
                        elif r[0] == 'end':
                            check(fh.seek(0, 2) == ref.seek(0, 2), 'seek to the end')
                        else:
                            check(fh.read() == dec(ref.read()), 'read of the rest')
                if o[4] == 'all':
                    check(fh.read() == dec(ref.read()), 'contents')
                elif o[4] == 'iter':
                    check([l for l in fh] == [dec(l) for l in ref], 'lines')
                else:
                    while True:
                        l = fh.readline()
                        check(l == dec(ref.readline()), 'line')
                        if not l:
                            break
        elif o[0] == 'rm':
            k.remove(name)
            model.pop(name, None)
        elif o[0] == 'info':
            if name in model:
                check(k.getsize(name) == len(model[name]), 'size')
                check(k.stat(name).st_size == len(model[name]), 'size from stat')
                t0, t1 = times[name]
                m = k.getmtime(name)
                check(t0 - 0.1 <= m <= t1 + 0.1, 'modification time', m, t0, t1)
                check(t0 - 1.1 <= k.stat(name).st_mtime <= t1 + 1.1, 'modification time from stat')
            else:
                for f in (k.getsize, k.stat, k.getmtime):
                    try:
                        f(name)
                        check(False, 'a missing file has information')
                    except OSError:
                        pass
        else:
            # write one file while another one is read
            if name not in model or o[2] == name:
                continue
            t0 = time.time()
            with k.open(name, 'rb') as a:
                with k.open(o[2], 'w') as b:
                    b.write(o[3])
                check(k._lock.locked(), 'the lock of the outer file was lost')
                ok, res = other_thread(lambda: k._lock.acquire(blocking=False))
                check(ok and res is False, 'another thread could use the cache')
                check(a.read() == model[name], 'contents of the outer file')
            model[o[2]] = o[3].encode()
            times[o[2]] = (t0, time.time())
    check(not k._lock.locked(), 'the cache stayed locked')
    ok, res = other_thread(lambda: {n: n in k for n in NAMES})
    for n in model:
        ok, res = other_thread(lambda: k.getsize(n), 5)
        check(ok and res == len(model[n]), 'another thread cannot use the cache')
    label('memory' if c['mem'] else 'file')
    return rich


limits = st.fixed_dictionaries(dict(ops=st.lists(st.tuples(st.sampled_from(NAMES[:4] + ['e', 'f.lock', 'sub/g.tmp', 'access.lock.gz']), st.sampled_from(['w', 'a', 'wb']), st.integers(0, 400)), min_size=2, max_size=16),
                                    mem=st.booleans(), limit=st.integers(1, 900), call=st.booleans()))


@part('limit', limits, quick=4800, thorough=15000, rule='a file was removed to make room', shards=2)
def limit(c):
    lim = c['limit'] / 1024**2
    k = cache(c, max_size=(lambda: lim) if c['call'] else lim)
    clock = [1000000.0]

    def now():
        clock[0] += 1
        return clock[0]
    model = {}          # name -> (size, order)
    n = 0
    removed = False
    for name, mode, size in c['ops']:
        n += 1
        start = 0 if mode[0] == 'w' else model.get(name, (0, 0))[0]
        with mock.patch('time.time', now):
            with k.open(name, mode) as fh:
                others = sorted((v[1], f) for f, v in model.items() if f != name)
                total = start + sum(v[0] for f, v in model.items() if f != name)
                for _, f in others:
                    if total <= c['limit']:
                        break
                    total -= model.pop(f)[0]
                    removed = True
                model[name] = (start + size, n if size or mode[0] == 'w' or name not in model else model[name][1])
                if size:
                    fh.write(b'x' * size if 'b' in mode else 'x' * size)
        if not c['mem']:
            t = 1000000 + model[name][1]
            os.utime(os.path.join(k.cache_dir, name), (t, t))
        here = {f for f in NAMES + ['e', 'f.lock', 'sub/g.tmp', 'access.lock.gz'] if f in k}
        check(here == set(model), 'after writing %s the cache has %s and not %s', name, sorted(here), sorted(model))
        check(k.getsize(name) == model[name][0], 'size')
    return removed


# ---------------------------------------------------------------- locks
lock_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['file', 'file', 'memory']), shared=st.booleans(), nt=st.integers(2, 4), np=st.integers(0, 2), k=st.integers(1, 5),
                                       nest=st.lists(st.integers(0, 3), min_size=1, max_size=5), delay=st.sampled_from([0, 0.0002, 0.002])))


def bump(path, delay):
    with open(path) as fh:
        v = int(fh.read())
    time.sleep(delay)
    with open(path, 'w') as fh:
        fh.write(str(v + 1))


@part('exclusion', lock_case, quick=300, thorough=800, rule='at least two threads or processes on the same lock', seconds=60)
def exclusion(c):
    d = tmpdir()
    path = os.path.join(d, 'count')
    with open(path, 'w') as fh:
        fh.write('0')
    mem = c['kind'] == 'memory'
    kls = fl.MemoryLock if mem else fl.FileLock
    one = kls(path)
    nproc = 0 if mem else c['np']
    problems = []

    def work(share):
        try:
            for i in range(c['k']):
                lock = one if (share or mem) else kls(path)
                nest = c['nest'][i % len(c['nest'])]
                with lock:
                    if nest == 1:
                        with lock:
                            pass
                        if not lock.locked():
                            problems.append('the lock was lost when an inner one was released')
                    elif nest == 2 and not mem:
                        with kls(path) as inner:
                            if not inner.locked():
                                problems.append('the owner could not lock again')
                    elif nest == 3:
                        with lock:
                            with lock:
                                bump(path, c['delay'])
                        bump(path, c['delay'])
                        continue
                    bump(path, c['delay'])
        except BaseException as e:
            problems.append(repr(e))
    pids = []
    for _ in range(nproc):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                work(False)
                code = 1 if problems else 0
            finally:
                os._exit(code)
        pids.append(pid)
    ts = [threading.Thread(target=work, args=(c['shared'],), daemon=True) for _ in range(c['nt'])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(30)
    check(not any(t.is_alive() for t in ts), 'a thread waits for ever')
    for pid in pids:
        _, status = os.waitpid(pid, 0)
        check(status == 0, 'a process failed')
    check(not problems, '; '.join(problems))
    per = sum(2 if c['nest'][i % len(c['nest'])] == 3 else 1 for i in range(c['k']))
    with open(path) as fh:
        got = int(fh.read())
    check(got == per * (c['nt'] + nproc), 'updates were lost: %s of %s', got, per * (c['nt'] + nproc))
    check(not one.locked(), 'still locked')
    label(c['kind'])
    return True


wait_case = st.fixed_dictionaries(dict(kind=st.sampled_from(['file', 'memory']), shared=st.booleans(), depth=st.integers(1, 3), proc=st.booleans(), timeout=st.sampled_from([0.02, 0.1])))


@part('waiting', wait_case, quick=90, thorough=200, rule='the lock is held by another thread or process')
def waiting(c):
    path = os.path.join(tmpdir(), 'x')
    mem = c['kind'] == 'memory'
    one = (fl.MemoryLock if mem else fl.FileLock)(path)
    check(not one.locked(), 'locked before')
    for _ in range(c['depth']):
        check(one.acquire() is True, 'acquire')
    check(one.locked(), 'not locked')

    def attempt():
        other = one if mem or (c['shared'] and not c['proc']) else fl.FileLock(path)
        t0 = time.time()
        a = other.acquire(blocking=False)
        b = other.acquire(timeout=c['timeout'])
        return a, b, time.time() - t0
    if c['proc'] and not mem:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                res = attempt()
                os.write(w, b'1' if not res[0] and not res[1] and res[2] < 5 else b'0')
            finally:
                os._exit(0)
        os.close(w)
        out = os.read(r, 1)
        os.close(r)
        os.waitpid(pid, 0)
        check(out == b'1', 'another process got the lock or waited for too long')
    else:
        ok, res = other_thread(attempt)
        check(ok and isinstance(res, tuple), 'waits for ever', res)
        check(res[0] is False and res[1] is False and res[2] < 5, 'another thread got the lock or waited for too long', res)
    for i in range(c['depth']):
        check(one.locked(), 'unlocked too early')
        one.release()
    check(not one.locked(), 'still locked')
    ok, res = other_thread(lambda: (one if mem else fl.FileLock(path)).acquire(timeout=2))
    check(ok and res is True, 'another thread cannot lock')
    return True


@part('readonly', st.integers(1, 3), quick=4, thorough=10, rule='the directory cannot be written')
def readonly(n):
    d = tmpdir()
    os.chmod(d, 0o555)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b'harness'
        try:
            os.setgid(65534)
            os.setuid(65534)
            out = b'failed'
            lock = fl.FileLock(os.path.join(d, 'x'))
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                got = [lock.acquire() for _ in range(n)]
                held = lock.locked()
                for _ in range(n):
                    lock.release()
                with lock:
                    pass
            out = b'good' if all(got) and held and not lock.locked() and len(ws) == 1 else b'bad'
        except PermissionError:
            pass
        finally:
            os.write(w, out)
            os._exit(0)
    os.close(w)
    out = os.read(r, 20)
    os.close(r)
    os.waitpid(pid, 0)
    if out == b'harness':
        raise Reject()
    check(out == b'good', 'a lock in a directory that cannot be written: %s', out.decode())
    return True


# ---------------------------------------------------------------- downloads
class Handler(BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *a):
        pass

    def reply(self, head):
        spec = self.server.files.get(self.path)
        self.close_connection = True
        if spec is None or spec['how'] in (404, 500):
            self.send_response(spec['how'] if spec else 404)
            self.send_header('Content-Length', '0')
            self.send_header('Connection', 'close')
            self.end_headers()
            return
        body, how = spec['body'], spec['how']
        code = 200
        rg = self.headers.get('Range')
        if rg:
            a, b = rg.split('=')[1].split('-')
            body, code = body[int(a):int(b) + 1], 206
        enc = how.startswith('gzip') and 'gzip' in (self.headers.get('Accept-Encoding') or '')
        if enc:
            body = gzip.compress(body)
            if how == 'gzipbad':
                body = body[:10] + bytes(255 - v for v in body[10:])
            elif how == 'gzipshort':
                body = body[:max(len(body) - 9, 1)]
        if how == 'drop':
            return
        self.send_response(code)
        if spec['mtime'] is not None:
            self.send_header('Last-Modified', spec['mtime'] if isinstance(spec['mtime'], str) else formatdate(spec['mtime'], usegmt=True))
        if enc:
            self.send_header('Content-Encoding', 'gzip')
        cut = body[:len(body) * 2 // 3] if how.startswith('cut') or how == 'chunkcut' else body
        if how.startswith('chunk'):
            self.send_header('Transfer-Encoding', 'chunked')
        elif how != 'nolength':
            self.send_header('Content-Length', str(len(body)))
        self.send_header('Connection', 'close')
        self.end_headers()
        if head:
            return
        try:
            if how.startswith('chunk'):
                for i in range(0, len(cut), 1000):
                    p = cut[i:i + 1000]
                    self.wfile.write(b'%x\r\n' % len(p) + p + b'\r\n')
                if how == 'chunk':
                    self.wfile.write(b'0\r\n\r\n')
            else:
                self.wfile.write(cut)
        except OSError:
            pass

    def do_GET(self):
        self.reply(False)

    def do_HEAD(self):
        self.reply(True)


SERVER = []


def server():
    if not SERVER or SERVER[0] != os.getpid():
        s = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        s.daemon_threads = True
        s.files = {}
        threading.Thread(target=s.serve_forever, args=(0.05,), daemon=True).start()
        SERVER[:] = [os.getpid(), s]
    SERVER[1].files.clear()
    return SERVER[1]


GOOD = ['plain', 'gzip', 'chunk', 'nolength']
BAD = ['cut', 'chunkcut', 404, 500, 'drop', 'gzipbad', 'gzipshort']
dl = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), how=st.sampled_from(GOOD * 2 + BAD), size=st.integers(0, 30000), mt=st.sampled_from(['yes', 'yes', 'no', 'bad']),
                                rng=st.one_of(st.none(), st.none(), st.integers(0, 20000), st.tuples(st.integers(0, 3000), st.integers(0, 20000))), to=st.sampled_from(['name', 'file', 'mem']),
                                ext=st.sampled_from(['.txt', '.npz', '.gz', '.Z']), block=st.sampled_from([64, 1000, 8192])))


def blob(r, n):
    return r.integers(0, 256, n).astype('u1').tobytes() if r.random() < 0.5 else (b'some text %d\n' % r.integers(0, 99) * (n // 8 + 1))[:n]


@part('download', dl, quick=2400, thorough=5000, rule='the file has at least one block', shards=2, seconds=60)
def download(c):
    s = server()
    r = rng(c['seed'])
    body = blob(r, c['size'])
    mtime = int(r.integers(10**9, 17 * 10**8))
    path = '/x' + c['ext']
    how = c['how']
    packed = c['ext'] in ('.gz', '.Z')      # no further compression is asked for
    if how in ('gzipbad', 'gzipshort') and (packed or c['size'] < 100):
        how = 'plain'
    br = c['rng']
    kw = {}
    want = body
    if br is not None:
        a, b = (0, br) if isinstance(br, int) else br
        if b < a:
            raise Reject()
        want = body[a:b + 1]
        kw['byte_range'] = br
    if how in ('cut', 'chunkcut') and len(want) < 3 or how in ('gzipbad', 'gzipshort') and len(want) < 60:
        raise Reject()
    s.files[path] = dict(body=body, how=how, mtime={'yes': mtime, 'no': None, 'bad': 'yesterday'}[c['mt']])
    url = f'http://127.0.0.1:{s.server_address[1]}{path}'
    name = os.path.join(tmpdir(), 'out')
    if c['to'] == 'name':
        fh = name
    elif c['to'] == 'file':
        fh = open(name, 'wb')
    else:
        fh = fc.MemoryFile('out').open('wb')
    with da.LSL_CONFIG.set_temp('download.block_size', c['block']):
        size, got, mt = da.download_file(url, fh, verbose=bool(r.integers(0, 2)), **kw)
    if c['to'] == 'mem':
        fh.seek(0)
        data = fh.read()
        fh.close()
    else:
        if c['to'] == 'file':
            check(not fh.closed, 'the file was closed')
            fh.close()
        with open(name, 'rb') as f:
            data = f.read()
    sent = want if not how in ('gzip',) or packed else gzip.compress(want)
    if how in BAD or c['mt'] == 'bad':
        check((size, got, mt) == (0, 0, 0), 'a failed download returned %s', (size, got, mt))
    else:
        check(data == want, 'the contents differ from the file on the server')
        check(mt == (mtime if c['mt'] == 'yes' else 0), 'modification time', mt)
        if how == 'gzip' and not packed:
            check(size == got and (got > 0), 'sizes', size, got)
        else:
            check((size, got) == (len(want), len(want)), 'sizes', size, got, len(want))
    if how not in ('gzip', 'gzipbad', 'gzipshort'):
        hs, hm = da.check_url(url, verbose=bool(r.integers(0, 2)), **kw)
        if how in (404, 500, 'drop') or c['mt'] == 'bad' or how in ('chunk', 'chunkcut', 'nolength'):
            check((hs, hm) == (0, 0) or how in ('chunk', 'chunkcut', 'nolength'), 'a failed check returned %s', (hs, hm))
        else:
            check(hs == len(want) and hm == (mtime if c['mt'] == 'yes' else 0), 'check of the URL', hs, hm)
    for bad in ((1,), (1, 2, 3)):
        for f in (lambda: da.check_url(url, byte_range=bad), lambda: da.download_file(url, name, byte_range=bad)):
            try:
                f()
                check(False, 'bad range accepted')
            except ValueError:
                pass
    try:
        with open(name, 'w') as f:
            da.download_file(url, f)
        check(False, 'a text file was accepted')
    except RuntimeError:
        pass
    label(str(how))
    return c['size'] >= c['block']


spec = st.one_of(st.none(), st.tuples(st.integers(0, 5), st.sampled_from(['plain', 'plain', 'gzip', 'cut', 404]), st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from([False] * 5 + [True])))
src = st.tuples(st.sampled_from(['local', 'main', 'backup']), spec)
refresh = st.tuples(st.sampled_from([15, 400, 400, 13]), src).map(lambda v: [('read',), ('age', v[0]), ('src', v[1]), ('read',)])
step = st.one_of(st.tuples(st.just('src'), src), st.just(('read',)), st.tuples(st.just('age'), st.sampled_from([1, 13, 15, 400])), st.just(('rm',)), st.tuples(st.just('stop'), st.integers(0, 6))).map(lambda o: [o])
acc = st.fixed_dictionaries(dict(ops=st.tuples(st.lists(spec, min_size=3, max_size=3).map(lambda v: [('src', (w, x)) for w, x in zip(('local', 'main', 'backup'), v)]),
                                               st.lists(st.one_of(refresh, step, step), min_size=1, max_size=8)).map(lambda v: v[0] + sum(v[1], [])),
                                 mem=st.booleans(), name=st.sampled_from(['x.dat', 'sub/y.txt', 'lwaq-ssmif.txt'])))
DAY = 86400


class Stop(KeyboardInterrupt):
    pass


@part('access', acc, quick=1800, thorough=3000, rule='the cached file is replaced, kept after a failure or fetched after an interruption', shards=2, seconds=60)
def access(c):
    s = server()
    base = tmpdir()
    d = da._DataAccess()
    d._data_cache = fc.MemoryCache() if c['mem'] else fc.FileCache(os.path.join(base, 'cache'))
    d._BASE_URL = f'http://127.0.0.1:{s.server_address[1]}/main'
    d._BACKUP_URL = f'http://127.0.0.1:{s.server_address[1]}/backup'
    data = os.path.join(base, 'data')
    name = c['name']
    os.makedirs(os.path.join(data, os.path.dirname(name)))
    local = os.path.join(data, name)
    now = int(time.time())
    body = lambda where, k, short: (b'%s %d ' % (where.encode(), k) * (900 if not short else 1))[:2 if short else None]
    S = {'local': None, 'main': None, 'backup': None}       # (contents, good, mtime)
    have = None            # contents in the cache
    when = 0               # modification time of the cached copy
    rich = False

    def remote():
        """What a download gives now."""
        for w in ('main', 'backup'):
            if S[w] and S[w][1]:
                return S[w][0]
        return None
    with mock.patch.object(da, 'DATA_PATH', data):
        for o in c['ops']:
            if o[0] == 'src':
                where, spec = o[1]
                if spec is None:
                    S[where] = None
                    if where == 'local':
                        if os.path.exists(local):
                            os.unlink(local)
                    else:
                        s.files.pop(f'/{where}/{name}', None)
                else:
                    k, how, age, short = spec
                    b = body(where, k, short)
                    mt = now - [0, 5, 20, 500][age] * DAY - 100
                    if where == 'local':
                        with open(local, 'wb') as fh:
                            fh.write(b)
                        os.utime(local, (mt, mt))
                        S[where] = (b, len(b) >= 3, mt)
                    else:
                        s.files[f'/{where}/{name}'] = dict(body=b, how=how, mtime=mt)
                        # a cut short body of 2 bytes is refused for both reasons; gzip of anything is more than 3 bytes
                        good = how in ('plain', 'gzip') and (len(b) >= 3 or how == 'gzip')
                        S[where] = (b, good, 0 if how == 404 else mt)
            elif o[0] == 'rm':
                d.remove(name)
                have = None
            elif o[0] == 'age':
                if have is not None:
                    when = now - o[1] * DAY
                    if c['mem']:
                        d._data_cache._cache[name]._mtime = when
                    else:
                        os.utime(os.path.join(d._data_cache.cache_dir, name), (when, when))
            elif o[0] == 'stop':
                # the user interrupts the transfer after some blocks
                if have is not None or S['local'] and S['local'][1]:
                    continue
                left = [o[1]]

                def inc(self, n=1):
                    left[0] -= 1
                    if left[0] < 0:
                        raise Stop()
                stopped = False
                with mock.patch.object(da.DownloadBar, 'inc', inc), da.LSL_CONFIG.set_temp('download.block_size', 1000):
                    try:
                        d.fetch_data_file(name)
                    except Stop:
                        stopped = True
                    except RuntimeError:
                        check(remote() is None or left[0] < 0, 'not fetched')
                if stopped:
                    check(name not in d._data_cache, 'an incomplete file is in the cache')
                    rich = True
                elif name in d._data_cache:
                    have, when = remote(), now
            else:
                # what to expect
                want = have
                fresh = have is not None
                if have is None:
                    want = S['local'][0] if S['local'] and S['local'][1] else remote()
                elif (now - when) > 14 * DAY:
                    lm = S['local'][2] if S['local'] else 0
                    rm = S['main'][2] if S['main'] and S['main'][2] else (S['backup'][2] if S['backup'] else 0)
                    if max(lm, rm) > when:
                        if lm >= rm:
                            if S['local'][1]:
                                want, fresh = S['local'][0], False
                        else:
                            got = remote()
                            if got is not None:
                                want, fresh = got, False
                        rich = True
                try:
                    with d.open(name, 'rb') as fh:
                        got = fh.read()
                except RuntimeError:
                    check(want is None, 'the file could not be opened')
                    check(name not in d._data_cache, 'a file that could not be fetched is in the cache')
                    continue
                check(want is not None, 'a file that cannot be fetched was opened: %r', got[:30])
                check(got == want, 'opened %r and not %r', got[:30], want[:30])
                check(d.getsize(name) == len(want) and d.stat(name).st_size == len(want), 'size')
                have = want
                if not fresh:
                    when = now
                    check(abs(d.getmtime(name) - time.time()) < 60, 'modification time')
    return rich
