"""C33: configuration parameters keep the values they are set to, within a session and across sessions."""
import os
import time
import warnings
import threading
from hypothesis import strategies as st
from vlib.core import *
from lsl import config as cfg
warnings.simplefilter('ignore')

ALL = {s + '.' + k: v for s in cfg.DEFAULTS_ALL for k, v in cfg.DEFAULTS_ALL[s].items()}
KEYS = sorted(ALL)
word = st.text('abcXYZ/:._-= #%&?~', min_size=1, max_size=20).map(str.strip).filter(lambda s: s and s[0] not in '#[=')


def looks_like(s):
    """Text that stands for another type in the file."""
    if s in ('True', 'False'):
        return True
    try:
        float(s)
        return True
    except ValueError:
        return False


word = word.filter(lambda s: not looks_like(s))
val = st.one_of(st.booleans(), st.sampled_from([0, 1, 1.0]), st.integers(-10**9, 10**9), st.floats(-1e9, 1e9, allow_nan=False).filter(lambda v: v != 0), word, st.none())
op = st.one_of(
    st.tuples(st.just('set'), st.integers(0, 3), val, st.booleans(), st.booleans()),
    st.tuples(st.just('set'), st.integers(0, 3), val, st.booleans(), st.just(True)),
    st.tuples(st.just('set'), st.integers(0, 3), val, st.booleans(), st.just(True)), st.tuples(st.just('session'), st.booleans()),
    st.tuples(st.just('default'), st.integers(0, 3)), st.tuples(st.just('back'), st.integers(0, 3)),
    st.tuples(st.just('save')), st.tuples(st.just('session'), st.booleans()),
    st.tuples(st.just('temp'), st.lists(st.tuples(st.integers(0, 3), val), min_size=1, max_size=3), st.sampled_from(['none', 'KeyError', 'ValueError', 'RuntimeError', 'save']), st.booleans()),
    st.tuples(st.just('unknown'), st.sampled_from(['nope', 'ldp.nope', 'timeout', 'nope.timeout', '', 'download']), val),
    st.tuples(st.just('retype'), st.integers(0, 3), st.lists(st.sampled_from([1, 1.0, True, 0, 0.0, False]), min_size=2, max_size=4)),
    st.tuples(st.just('edit'), st.integers(0, 3), val, st.sampled_from([0.02, 0.5, 1.0, 5.0, 1000.0])))
OPT = [n for n in KEYS if ALL[n]['is_optional']]
hist = st.fixed_dictionaries(dict(ops=st.lists(op, min_size=3, max_size=16), pool=st.tuples(st.lists(st.sampled_from(KEYS), min_size=3, max_size=3, unique=True), st.sampled_from(OPT)).map(lambda t: [t[1]] + t[0])))


def fits(key, v, cur):
    return ALL[key]['is_optional'] or type(v) is type(cur)


def eq(a, b):
    return type(a) is type(b) and a == b


@part('history', hist, quick=2000, thorough=15000, rule='a changed value is read in a later session', shards=2)
def history(c):
    fn = os.path.join(tmpdir(), 'lsl.cfg')
    k = cfg.LSLConfigContainer(fn)
    now = {n: v['value'] for n, v in ALL.items()}       # of this session
    disk = dict(now)                                   # in the file
    tick = [0]
    edited = False
    rich = False

    def stamp():
        # every version of the file has its own time
        tick[0] += 10
        if os.path.exists(fn):
            os.utime(fn, (10**9 + tick[0],) * 2)

    def same(msg):
        for n in KEYS:
            check(eq(k.get(n), now[n]), '%s: %s is %r and not %r', msg, n, k.get(n), now[n])

    check(k.dirname == os.path.dirname(fn), 'dirname')
    same('defaults')
    for o in c['ops']:
        if o[0] in ('set', 'default', 'back', 'edit', 'retype'):
            o = (o[0], c['pool'][o[1]]) + tuple(o[2:])
        elif o[0] == 'temp':
            o = (o[0], [(c['pool'][i], v) for i, v in o[1]]) + tuple(o[2:])
        if o[0] == 'back':
            # to the value which was loaded
            k.set(o[1], disk[o[1]])
            now[o[1]] = disk[o[1]]
        elif o[0] == 'retype':
            # equal values of other types
            for v in o[2]:
                if fits(o[1], v, now[o[1]]):
                    k.set(o[1], v)
                    now[o[1]] = v
        elif o[0] == 'set':
            _, n, v, view, dflt = o
            if dflt and not fits(n, v, now[n]):
                v = type(now[n])((now[n] + 1) % 5 if not isinstance(now[n], bool) else not now[n]) if now[n] is not None and not isinstance(now[n], str) else 'text'
            s, i = n.split('.')
            f = (lambda: k.view(s).set(i, v)) if view else (lambda: k.set(n, v))
            if fits(n, v, now[n]):
                f()
                now[n] = v
            else:
                try:
                    f()
                    check(False, 'a value of the wrong type was accepted')
                except TypeError:
                    pass
            check(eq(k.view(s).get(i), now[n]), 'value in the view')
            # another section's view finds it by its full name
            check(eq(k.view('ldp').get(n), now[n]), 'value by full name')
        elif o[0] == 'default':
            if eq(type(ALL[o[1]]['value']), type(now[o[1]])) or ALL[o[1]]['is_optional']:
                k.set(o[1], ALL[o[1]]['value'])
                now[o[1]] = ALL[o[1]]['value']
        elif o[0] in ('save', 'session'):
            if edited and o[0] == 'save':
                continue
            if edited:
                # somebody else changed the file: our changes are dropped, theirs stay
                k._save_config()
            else:
                idle = os.path.exists(fn) and all(eq(disk[n], now[n]) for n in KEYS)
                if idle:
                    stamp_was = os.stat(fn).st_mtime_ns, os.stat(fn).st_ino
                k._save_config()
                check(not idle or (os.stat(fn).st_mtime_ns, os.stat(fn).st_ino) == stamp_was, 'the file was written although nothing has changed')
                disk = dict(now)
                check(os.path.exists(fn), 'not saved')
                check(os.listdir(os.path.dirname(fn)) in (['lsl.cfg'], ['lsl.cfg', 'lsl.cfg.lock'], ['lsl.cfg.lock', 'lsl.cfg']), 'left behind: %s', os.listdir(os.path.dirname(fn)))
            if o[0] == 'session':
                with open(fn) as fh:
                    text = fh.read()
                check(text.startswith('# LSL Configuration File'), 'file header')
                stamp()
                k = cfg.LSLConfigContainer(fn)
                rich = rich or any(not eq(disk[n], ALL[n]['value']) for n in KEYS)
                now = dict(disk)
                edited = False
                same('new session')
                if o[1]:
                    # nothing was changed: the file stays as it is
                    m = os.path.getmtime(fn)
                    k._save_config()
                    check(os.path.getmtime(fn) == m, 'an unchanged configuration was written')
                    with open(fn) as fh:
                        check(fh.read() == text, 'an unchanged configuration was changed')
        elif o[0] == 'temp':
            items = []
            for n, v in o[1]:
                if not fits(n, v, now[n]):
                    try:
                        with k.set_temp(n, v):
                            check(False, 'a value of the wrong type was accepted')
                    except TypeError:
                        pass
                elif n not in [i[0] for i in items]:
                    items.append((n, v))
            same('after a refused value')
            before = dict(now)
            exc = {'KeyError': KeyError, 'ValueError': ValueError, 'RuntimeError': RuntimeError}.get(o[2])

            def nest(left):
                if not left:
                    for n, v in items:
                        check(eq(k.get(n), v), 'temporary value')
                    if exc is not None:
                        raise exc('from the user')
                    return
                n, v = left[0]
                s, i = n.split('.')
                with (k.view(s).set_temp(i, v) if o[3] else k.set_temp(n, v)):
                    nest(left[1:])
            try:
                nest(items)
                check(exc is None, 'an exception was swallowed')
            except (KeyError, ValueError, RuntimeError) as e:
                check(exc is type(e) and e.args == ('from the user',), 'an exception became %r', e)
            same('after temporary values')
        elif o[0] == 'unknown':
            for f in (lambda: k.get(o[1]), lambda: k.set(o[1], o[2]), lambda: k.set_temp(o[1], o[2]).__enter__()):
                try:
                    f()
                    check(False, 'an unknown parameter was accepted')
                except ValueError:
                    pass
            if o[1] not in cfg.DEFAULTS_ALL:
                try:
                    k.view(o[1])
                    check(False, 'an unknown section was accepted')
                except ValueError:
                    pass
            vw = k.view('astro')
            for f in (lambda: vw.get(o[1]), lambda: vw.set(o[1], o[2]), lambda: vw.set_temp(o[1], o[2]).__enter__()):
                try:
                    f()
                    check(False, 'an unknown parameter was accepted by a view')
                except ValueError:
                    pass
        elif o[0] == 'edit' and os.path.exists(fn) and not edited:
            n, v = o[1], o[2]
            if not fits(n, v, disk[n]) or v is None:
                continue
            # another session changes the file after ours was loaded, perhaps just after
            t = os.path.getmtime(fn) + o[3]
            k2 = cfg.LSLConfigContainer(fn)
            k2.set(n, v)
            k2._save_config()
            disk[n] = v
            os.utime(fn, (t, t))
            edited = True
    same('at the end')
    return rich


# ---------------------------------------------------------------- files by hand
# what is written in the file, and what it stands for
RAW = [('007', 7), ('+5', 5), ('-3', -3), ('0x10', '0x10'), ('0b1', '0b1'), ('1e3', 1000.0), ('.5', 0.5), ('true', 'true'), ('None', 'None'), ('"a b"', '"a b"'), ('a = b', 'a = b')]
line = st.one_of(
    st.tuples(st.just('kv'), st.sampled_from(KEYS), val), st.tuples(st.just('kv'), st.sampled_from(KEYS), val),
    st.tuples(st.just('junk'), st.sampled_from(['', '#', '# a comment = 3', 'no equal sign here', 'x', '   ', '##[ ldp ]', 'timeo'])),
    st.tuples(st.just('new'), st.sampled_from(['ldp.other', 'mine.a', 'mine.b', 'Mine.B', 'My Own.Key']), val),
    st.tuples(st.just('raw'), st.sampled_from(['download.timeout', 'mine.a', 'ionosphere.igs_mirror']), st.sampled_from(RAW)))
files = st.fixed_dictionaries(dict(lines=st.lists(line, max_size=12), sp=st.lists(st.sampled_from(['', ' ', '  ']), min_size=3, max_size=3), sec=st.sampled_from(['[ %s ]', '[%s]', ' [ %s]']),
                                   cut=st.one_of(st.none(), st.integers(0, 400)), nl=st.booleans()))


@part('file', files, quick=1200, thorough=12000, rule='some parameter is set in the file')
def file(c):
    fn = os.path.join(tmpdir(), 'lsl.cfg')
    want = {n: v['value'] for n, v in ALL.items()}
    out = []
    sec = None
    for l in c['lines']:
        if l[0] == 'junk':
            if not (l[1] and sec is None and '=' in l[1]):
                out.append(l[1])
            continue
        s, i = l[1].split('.')
        if s != sec:
            out.append(c['sec'] % s)
            sec = s
        if l[0] == 'raw':
            v, want[l[1]] = l[2]
        else:
            v = '' if l[2] is None else str(l[2])
            want[l[1]] = l[2]
        out.append(f"{c['sp'][0]}{i}{c['sp'][1]}={c['sp'][2]}{v}")
        if len(out[-1].strip()) < 3:
            raise Reject()
    text = '\n'.join(out) + ('\n' if c['nl'] else '')
    with open(fn, 'w') as fh:
        fh.write(text)
    k = cfg.LSLConfigContainer(fn)
    for n in want:
        check(eq(k.get(n), want[n]), '%s is %r and not %r', n, k.get(n), want[n])
    # what was there is kept in a new file
    k.set('observing.project_id', 'changed')
    want['observing.project_id'] = 'changed'
    k._save_config()
    k = cfg.LSLConfigContainer(fn)
    for n in want:
        if n not in ALL and want[n] is None:
            continue
        check(eq(k.get(n), want[n]), 'after saving, %s is %r and not %r', n, k.get(n), want[n])
    if c['cut'] is not None:
        # a file which is cut short can be loaded, and has the parameters of its whole lines
        with open(fn) as fh:
            text = fh.read()[:c['cut'] * 20]
        with open(fn, 'w') as fh:
            fh.write(text)
        k = cfg.LSLConfigContainer(fn)
        text = text[:text.rfind('\n') + 1]
        sec = None
        last = None
        for l in text.split('\n'):
            if l.startswith('['):
                sec = l.strip('[ ]')
            elif '=' in l and not l.startswith('#'):
                last = sec + '.' + l.split('=')[0].strip()
        for n in want:
            if n == last:
                check(eq(k.get(n), want[n]), 'in a cut file, %s is %r and not %r', n, k.get(n), want[n])
    return any(l[0] == 'kv' for l in c['lines'])


class Died(BaseException):
    pass


@part('crash', st.tuples(st.integers(0, 5000), st.sampled_from(KEYS), val, st.sampled_from(['write', 'open', 'replace'])), quick=150, thorough=1500, rule='saving is interrupted')
def crash(c):
    """A save which is interrupted leaves the old or the new values."""
    from unittest import mock
    import builtins
    n0, key, v, where = c
    fn = os.path.join(tmpdir(), 'lsl.cfg')
    k = cfg.LSLConfigContainer(fn)
    k.set('download.timeout', 77)
    k.set('observing.observer_name', 'somebody')
    k._save_config()
    os.utime(fn, (10**9, 10**9))
    k = cfg.LSLConfigContainer(fn)
    old = {n: k.get(n) for n in KEYS}
    if not fits(key, v, old[key]) or eq(v, old[key]):
        raise Reject()
    k.set(key, v)
    real = builtins.open
    hit = [0]

    class Half:
        def __init__(self, fh):
            self.fh = fh

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.fh.close()

        def __getattr__(self, n):
            return getattr(self.fh, n)

        def write(self, s):
            hit[0] += 1
            self.fh.write(s[:n0])
            self.fh.flush()
            raise Died()

    def fake(name, mode='r', *a, **kw):
        fh = real(name, mode, *a, **kw)
        if 'w' in mode and str(name).startswith(fn) and not str(name).endswith('.lock'):
            if where == 'open':
                hit[0] += 1
                fh.close()
                raise Died()
            return Half(fh)
        return fh
    try:
        if where == 'replace':
            def rep(*a, **kw):
                hit[0] += 1
                raise Died()
            with mock.patch('os.replace', rep), mock.patch('os.rename', rep):
                k._save_config()
        else:
            with mock.patch('builtins.open', fake):
                k._save_config()
    except Died:
        pass
    k2 = cfg.LSLConfigContainer(fn)
    new = dict(old)
    new[key] = v
    got = {n: k2.get(n) for n in KEYS}
    check(all(eq(got[n], old[n]) for n in KEYS) or all(eq(got[n], new[n]) for n in KEYS), 'an interrupted save left %s', {n: got[n] for n in KEYS if not eq(got[n], old[n])})
    return hit[0] > 0
