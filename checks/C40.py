"""C40: progress bars, coloured text, log messages and usage records say what happened."""
import io
import os
import re
import sys
import json
import time
import queue
import fnmatch
import logging
import warnings
import threading
import contextlib
import subprocess
from unittest import mock
from hypothesis import strategies as st
from vlib.core import *
from lsl.common import color, progress, busy
from lsl import logger as lg

HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- colours

CODES = {'black': 30, 'red': 31, 'green': 32, 'yellow': 33, 'blue': 34, 'magenta': 35, 'cyan': 36, 'white': 37,
         'bkg-black': 40, 'bkg-red': 41, 'bkg-green': 42, 'bkg-yellow': 43, 'bkg-blue': 44, 'bkg-magenta': 45,
         'bkg-cyan': 46, 'bkg-white': 47, 'bold': 1, 'underline': 4, 'blink': 5, 'reverse': 7}
plain = st.text(st.characters(blacklist_categories=('Cs', 'Cc'), blacklist_characters='{}'), min_size=1, max_size=8)
leaf = st.one_of(plain, plain, st.sampled_from(['a\\1b', 'C:\\x', '\\', '\\g<1>', 'two\nlines', ' {x} ', '100%', '%red', '{%red x}', ' {{x ', '\t', '\\n', 'a\r\nb', '{{']))
tags = st.sampled_from(sorted(CODES))
node = st.recursive(leaf, lambda kids: st.tuples(tags, st.integers(0, 2), st.lists(kids, min_size=1, max_size=3)), max_leaves=10)


def write(n, parents=()):
    """The source and the expected (character, styles) of a node."""
    if isinstance(n, str):
        return n, [(ch, parents) for ch in n]
    tag, case, kids = n
    src = [write(k, parents + (CODES[tag],)) for k in kids]
    name = [tag, tag.upper(), tag.title()][case]
    return '{{%' + name + ' ' + ''.join(s for s, _ in src) + '}}', [c for _, e in src for c in e]


def state(codes):
    """What a terminal shows after these codes."""
    fg = bg = None
    attr = set()
    for v in codes:
        if 30 <= v < 40:
            fg = v
        elif 40 <= v < 50:
            bg = v
        else:
            attr.add(v)
    return fg, bg, frozenset(attr)


def terminal(text):
    out, cur = [], []
    pos = 0
    while pos < len(text):
        m = re.compile('\x1b\\[(\\d+)m').match(text, pos)
        if m:
            v = int(m.group(1))
            cur = [] if v == 0 else cur + [v]
            pos = m.end()
        else:
            out.append((text[pos], state(cur)))
            pos += 1
    return out, cur



@part('colour', st.lists(node, min_size=1, max_size=4), quick=2500, thorough=30000, rule='a style is inside of another one', shards=2)
def colour(nodes):
    merged = [write(n) for n in nodes]
    src = ''.join(s for s, _ in merged)
    # a leaf that ends in a brace next to a tag, or digits next to the end of one, is not defined
    def ntag(n):
        return 0 if isinstance(n, str) else 1 + sum(ntag(k) for k in n[2])

    def inner(n):
        return [n] if isinstance(n, str) else [x for k in n[2] for x in inner(k)]
    nt = sum(ntag(n) for n in nodes)
    leaves = [x for n in nodes for x in inner(n)]
    if src.count('{{%') != nt or '{{{' in src or re.search(r'\}\}\d|\{\{\d', src) or any(x[-1] in '{}' or x[0] in '{}%' for x in leaves):
        raise Reject()
    exp = [(ch, state(p)) for _, e in merged for ch, p in e]
    got, left = terminal(color.colorfy(src))
    check(''.join(c for c, _ in got) == ''.join(c for c, _ in exp), 'colorfy(%r) shows %r', src, ''.join(c for c, _ in got))
    check(got == exp, 'colorfy(%r) gives %r and not %r', src, got, exp)
    check(left == [], 'colorfy(%r) leaves styles on', src)
    check(color.uncolorfy(color.colorfy(src)) == ''.join(c for c, _ in exp), 'uncolorfy')
    return any(not isinstance(n, str) and any(not isinstance(k, str) for k in n[2]) for n in nodes)


@part('braces', st.tuples(st.sampled_from(['', '}} ', 'x }} }} ', '{{ ', 'a {{ b ']), plain, tags, st.sampled_from(['', ' }}', ' {{', ' {', ' }'])), quick=400, thorough=2000, rule='there are braces around the tag')
def braces(c):
    pre, txt, tag, post = c
    if txt[0].isdigit():
        txt = 'x' + txt
    src = pre + '{{%' + tag + ' ' + txt + '}}' + post
    got, _ = terminal(color.colorfy(src))
    check(''.join(x for x, _ in got) == pre + txt + post, 'colorfy(%r) shows %r', src, ''.join(x for x, _ in got))
    for i, (x, s) in enumerate(got):
        inside = len(pre) <= i < len(pre) + len(txt)
        check(s == (state([CODES[tag]]) if inside else state([])), 'style of %r in colorfy(%r)', x, src)
    return bool(pre or post)


# ---------------------------------------------------------------- progress bars

@contextlib.contextmanager
def clock(t):
    with mock.patch('time.time', lambda: t[0]), mock.patch('time.monotonic', lambda: t[0]), mock.patch('time.perf_counter', lambda: t[0]):
        yield


bar_ops = st.lists(st.one_of(st.tuples(st.sampled_from(['inc', 'dec', '+=', '-=', '+', '-']), st.integers(0, 60), st.floats(0, 500)),
                             st.tuples(st.sampled_from(['inc1', 'dec1', 'copy']), st.just(1), st.floats(0, 0.3))), min_size=1, max_size=14)
bars = st.fixed_dictionaries(dict(kind=st.sampled_from(['ProgressBar', 'ProgressBarPlus', 'DownloadBar']), max=st.integers(1, 400), scale=st.sampled_from([1, 1, 1000, 2**20, 2**30]),
                                  span=st.integers(14, 90), sym=st.sampled_from(['=', '#', '\\', 'x', '*']), percent=st.booleans(), color=st.sampled_from([None, None, 'green', 'bkg-red', 'bold']),
                                  timer=st.one_of(st.none(), st.floats(0, 100)), ops=bar_ops))


def seconds(text):
    m = re.fullmatch(r' *(\d+)m(\d\d)s', text)
    check(m is not None and int(m.group(2)) < 60, 'time left %r', text)
    return 60*int(m.group(1)) + int(m.group(2))


def size(text, done):
    m = re.fullmatch(r' *(\d+\.\d) *([kMG]?B)(/s|  )', text)
    check(m is not None, 'rate %r', text)
    check((m.group(3) == '  ') == done, 'units of %r', text)
    unit = {'B': 1, 'kB': 1024, 'MB': 1024**2, 'GB': 1024**3}[m.group(2)]
    check(unit == 1 or float(m.group(1)) >= 0.9, 'units of %r', text)
    check(unit == 1024**3 or float(m.group(1)) <= 921.7, 'units of %r', text)
    return float(m.group(1))*unit, 0.0501*unit


@part('bars', bars, quick=1500, thorough=20000, rule='the bar is partly full after several steps', shards=2)
def run_bars(c):
    t = [1e9]
    mx = c['max']*c['scale']
    with clock(t):
        pb = getattr(progress, c['kind'])(max=mx, span=c['span'], sym=c['sym'], print_percent=c['percent'], color=c['color'])
        start = last = None
        amount = 0
        if c['timer'] is not None and c['kind'] != 'ProgressBar':
            pb.startTimer()
            start = t[0]
            t[0] += c['timer']
            if amount == 0:
                last = None
        width = None
        moved = 0
        for op, n, dt in [(None, 0, 0.0)] + list(c['ops']):
            t[0] += dt
            n = n*c['scale']
            before = pb
            old = amount
            if op in ('inc', '+=', '+'):
                if amount + n > mx:
                    n = mx - amount
                if op == 'inc':
                    pb.inc(n)
                elif op == '+=':
                    pb += n
                else:
                    pb = pb + n
                amount += n
            elif op == 'inc1':
                if amount + 1 > mx:
                    continue
                pb.inc()
                amount += 1
            elif op in ('dec', '-=', '-'):
                if op == 'dec':
                    pb.dec(n)
                elif op == '-=':
                    pb -= n
                else:
                    pb = pb - n
                # there is nothing to take away
                amount = amount - n if amount >= n else amount
            elif op == 'dec1':
                pb.dec()
                amount = amount - 1 if amount >= 1 else amount
            if op in ('+', '-'):
                check(before.amount == old and pb is not before, '%s changed the bar', op)
            elif op in ('inc', 'inc1', 'dec', 'dec1', '+=', '-='):
                check(pb is before, '%s made another bar', op)
            if op not in (None, 'copy', '-'):
                start = t[0] if start is None else start
                last = t[0]
            elif op == '-':
                # nothing happens if there is nothing to take away
                if old >= n:
                    start = t[0] if start is None else start
                    last = t[0]
            moved += op is not None
            check(pb.amount == amount, 'the amount is %r and not %r', pb.amount, amount)
            text = pb.show()
            check(str(pb) == text, 'str and show')
            if c['color'] is not None:
                shown, left = terminal(text)
                check(left == [], 'the colour stays on')
                for i, (ch, s) in enumerate(shown):
                    end = ''.join(x for x, _ in shown).rindex(']')
                    check(s == (state([CODES[c['color']]]) if 1 <= i < end else state([])), 'colour at %i of %r', i, text)
                text = ''.join(x for x, _ in shown)
            if re.search(r'\d{5}m\d\ds|\d{4}\.\dGB', text):
                # no room for more than a week or a terabyte
                break
            width = len(text) if width is None else width
            check(len(text) == width, 'the bar was %i and is %i wide: %r', width, len(text), text)
            m = re.fullmatch(r'\[(.*)\](?: (.{6}))?(?: (.{8,9}))?' if c['percent'] else r'\[(.*)\](?: (.{8,9}))?', text, re.S)
            check(m is not None, 'layout of %r', text)
            body = m.group(1)
            if c['kind'] == 'ProgressBar':
                check(width == c['span'], 'the bar is %i wide', width)
            marks = amount / mx * len(body)
            near = abs(marks - round(marks)) < 1e-6
            full = max(0, round(marks) - 1) if near else int(marks)
            check(body[:full] == c['sym']*full, '%r has not %i marks', body, full)
            check(body[full + 1 + near:].strip(' ') == '', '%r has more than %.3f marks', body, marks)
            check(full == len(body) or body[full] in '-\\|/' + c['sym'] + ' '*near, 'last mark of %r', body)
            if near and amount == mx:
                check(body == c['sym']*len(body), '%r is not full', body)
            if c['percent']:
                check(abs(float(m.group(2).rstrip('%')) - 100*amount/mx) <= 0.0501 and m.group(2).endswith('%'), '%r for %r of %r', m.group(2), amount, mx)
            if c['kind'] == 'ProgressBar':
                check(m.group(m.lastindex) == (m.group(2) if c['percent'] else body), 'layout of %r', text)
                continue
            extra = m.group(3 if c['percent'] else 2)
            if last is None or amount == 0:
                check('-' in extra, 'estimate %r of nothing', extra)
            elif c['kind'] == 'ProgressBarPlus':
                el = last - start
                if amount >= mx:
                    check(abs(seconds(extra) - (el - 0.5)) <= 0.5 + 1e-5, 'time %r after %r s', extra, el)
                elif el >= 0.21:
                    left = (mx - amount)*el/amount
                    if left < 599000:
                        check(abs(seconds(extra) - (left - 0.5)) <= 0.5 + 1e-5, 'time left %r and not %r s', extra, left)
                elif el < 0.19:
                    check('-' in extra, 'estimate %r after %r s', extra, el)
            else:
                el = last - start
                if amount >= mx:
                    v, tol = size(extra, True)
                    check(abs(v - amount) <= tol, 'size %r for %r bytes', extra, amount)
                elif el >= 0.011:
                    rate = amount/el
                    if rate < 900*2**30:
                        v, tol = size(extra, False)
                        check(abs(v - rate) <= tol*1.001 + rate*1e-6, 'rate %r and not %r', extra, rate)
                elif el < 0.009:
                    check('-' in extra, 'estimate %r after %r s', extra, el)
    return moved > 2 and 0 < amount < mx


# ---------------------------------------------------------------- busy indicators

busies = st.fixed_dictionaries(dict(kind=st.sampled_from(['plain', 'boomerang', 'pingpong', 'flow']), message=st.sampled_from(['Busy', 'Working hard', 'x\\y ', '']), color=st.sampled_from([None, 'red', 'bkg-blue']),
                                    size=st.integers(5, 12), wait=st.sampled_from([0.0, 0.02, 0.04]), how=st.sampled_from(['stop', 'failed', 'with', 'raise', 'twice', 'never'])))


@part('busy', busies, quick=120, thorough=1500, rule='the indicator moved', seconds=40)
def run_busy(c):
    out = io.StringIO()
    errors = []
    nthread = set(threading.enumerate())
    if c['kind'] == 'plain':
        b = busy.BusyIndicator(message=c['message'], interval=0.002, dots=c['size'], color=c['color'])
    else:
        b = busy.BusyIndicatorPlus(message=c['message'], interval=0.002, width=c['size'], style=c['kind'], color=c['color'])
    with contextlib.redirect_stdout(out), mock.patch('threading.excepthook', lambda a: errors.append(a.exc_value)):
        if c['how'] == 'never':
            b.stop()
            check(out.getvalue() == '', 'an indicator that was not started printed %r', out.getvalue())
            return False
        if c['how'] in ('with', 'raise'):
            try:
                with b as same:
                    check(same is b, 'with')
                    time.sleep(c['wait'])
                    if c['how'] == 'raise':
                        raise KeyError('own')
                check(c['how'] == 'with', 'the exception is lost')
            except KeyError:
                check(c['how'] == 'raise', 'another exception')
        else:
            b.start()
            time.sleep(c['wait'])
            if c['how'] == 'twice' and c['kind'] == 'plain':
                b.start()
                time.sleep(c['wait'])
            b.stop(success=c['how'] != 'failed')
            if c['how'] == 'twice':
                b.stop()
    check(not errors, 'the indicator failed with %r', errors)
    check(set(threading.enumerate()) <= nthread, 'the indicator is still running')
    text = ''.join(x for x, _ in terminal(out.getvalue())[0])
    lines = [l for l in re.split('[\r\n]', text) if l != '']
    last = [l for l in lines if 'Done' in l or 'Failed' in l]
    check(len(last) == (2 if c['how'] == 'twice' and c['kind'] == 'plain' else 1), 'last lines are %r', last)
    check(('Failed' if c['how'] in ('failed', 'raise') else 'Done') in last[-1], '%s ends in %r', c['how'], last)
    for l in lines:
        check(l.startswith(c['message']), '%r without the message', l)
        body = l[len(c['message']):]
        if c['kind'] == 'plain':
            check(body.count('.') <= c['size'] and body.lstrip('.').replace('Done', '').replace('Failed', '').strip() == '', 'line %r', l)
        elif l in last:
            check(len(body.rstrip()) <= c['size'] + 6, 'line %r', l)
        else:
            check(len(body) == c['size'] + 6 and re.fullmatch(r' *\d+s', body[c['size']:]), 'line %r', l)
            pic = body[:c['size']]
            n = sum(ch != ' ' for ch in pic)
            check(n == {'boomerang': 1, 'pingpong': 3, 'flow': 3}[c['kind']], 'picture %r', pic)
    return len(lines) > 3


# ---------------------------------------------------------------- log messages

LEVELS = [logging.DEBUG, logging.INFO, lg.NOTE, logging.WARNING, logging.ERROR, logging.CRITICAL]
NAMES = {logging.DEBUG: 'DEBUG', logging.INFO: 'INFO', 25: 'NOTE', logging.WARNING: 'WARNING', logging.ERROR: 'ERROR', logging.CRITICAL: 'CRITICAL'}
FILTERS = ['lsl_logger', 'lsl*', 'lsl.*', '*', 'py.*', '?sl_logger', '*g*', 'LSL_LOGGER']
lvl = st.sampled_from(LEVELS)
log_op = st.one_of(
    st.tuples(st.just('level'), lvl), st.tuples(st.just('log'), lvl, st.integers(0, 2)), st.tuples(st.just('log'), lvl, st.integers(0, 2)), st.tuples(st.just('log'), lvl, st.integers(0, 2)),
    st.tuples(st.just('note'), st.booleans()), st.tuples(st.just('console'), st.one_of(st.none(), lvl)), st.tuples(st.just('noconsole')),
    st.tuples(st.just('file'), st.integers(0, 1), st.one_of(st.none(), lvl), st.sampled_from('aw')), st.tuples(st.just('nofile')),
    st.tuples(st.just('queue'), st.booleans()), st.tuples(st.just('filter'), st.sampled_from(FILTERS)), st.tuples(st.just('nofilter'), st.sampled_from(FILTERS)),
    st.tuples(st.just('clear')), st.tuples(st.just('capture'), st.booleans()), st.tuples(st.just('warn'), st.booleans()), st.tuples(st.just('other'), st.sampled_from(['lsl.imaging.x', 'lsl_logger', 'other']), lvl))


start = st.sampled_from([[('console', None)], [('queue', True)], [('file', 0, None, 'a')], [('console', None), ('queue', True), ('file', 1, None, 'w')], []])


@part('log', st.tuples(start, st.lists(log_op, min_size=3, max_size=25)).map(lambda t: t[0] + t[1]), quick=900, thorough=10000, rule='a message reached a sink and another did not', shards=2)
def run_log(ops):
    d = tmpdir()
    old_handlers = list(lg.LSL_LOGGER.handlers)
    old_level = lg.get_log_level()
    for h in old_handlers:
        lg.remove_handler(h)
    while not lg.LSL_LOG_QUEUE.empty():
        lg.LSL_LOG_QUEUE.get_nowait()
    level = logging.INFO
    console = None          # (stream, level, expected)
    consoles = []
    files = {}              # name -> expected
    cur = None              # (name, level)
    qh = None
    expq = []
    filters = []
    capture = False
    count = [0]
    passed = dropped = 0

    def deliver(name, lev, msg, check_level=True):
        nonlocal passed, dropped
        if (check_level and lev < level) or not all(fnmatch.fnmatchcase(name, f) for f in filters):
            dropped += 1
            return
        if console is not None and lev >= (console[1] or 0):
            console[2].append((lev, msg))
            passed += 1
        if cur is not None and lev >= (cur[1] or 0):
            files[cur[0]].append((lev, msg))
            passed += 1
        if qh is not None:
            expq.append((lev, msg))
            passed += 1

    with warnings.catch_warnings():
        warnings.simplefilter('always')
        try:
            lg.set_log_level(level)
            for o in ops:
                if o[0] == 'level':
                    lg.set_log_level(o[1])
                    level = o[1]
                elif o[0] == 'log':
                    count[0] += 1
                    msg = 'message %i' % count[0]
                    if o[2] == 0:
                        lg.LSL_LOGGER.log(o[1], msg)
                    elif o[2] == 1:
                        lg.LSL_LOGGER.log(o[1], 'message %i', count[0])
                    else:
                        msg += ' 100% %s {}'
                        lg.LSL_LOGGER.log(o[1], msg)
                    deliver('lsl_logger', o[1], msg)
                elif o[0] == 'note':
                    count[0] += 1
                    msg = 'note %i' % count[0]
                    if o[1]:
                        lg.make_note('note %i', count[0])
                    else:
                        lg.make_note(msg)
                    deliver('lsl_logger', lg.NOTE, msg)
                elif o[0] == 'other':
                    # of other loggers only what is handed over
                    count[0] += 1
                    msg = 'other %i' % count[0]
                    rec = logging.LogRecord(o[1], o[2], 'x.py', 1, msg, None, None)
                    lg.LSL_LOGGER.handle(rec)
                    deliver(o[1], o[2], msg, False)
                elif o[0] == 'console':
                    s = io.StringIO()
                    lg.enable_console_logging(level=o[1], stream=s)
                    console = (s, o[1], [])
                    consoles.append(console)
                elif o[0] == 'noconsole':
                    lg.disable_console_logging()
                    console = None
                elif o[0] == 'file':
                    name = os.path.join(d, 'log%i.txt' % o[1])
                    if cur is not None:
                        was = capture
                        if was:
                            # so that its own warning is not among the messages
                            lg.capture_warnings(False)
                        with warnings.catch_warnings(record=True) as w:
                            warnings.simplefilter('always')
                            lg.enable_file_logging(name, level=o[2], mode=o[3])
                        check(any(issubclass(x.category, RuntimeWarning) for x in w), 'no warning that the log file changes')
                        if was:
                            lg.capture_warnings(True)
                    else:
                        lg.enable_file_logging(name, level=o[2], mode=o[3])
                    if o[3] == 'w' or name not in files:
                        files[name] = []
                    cur = (name, o[2])
                elif o[0] == 'nofile':
                    lg.disable_file_logging()
                    cur = None
                elif o[0] == 'queue':
                    if o[1] and qh is None:
                        qh = lg.ThreadedHandler()
                        lg.add_handler(qh)
                    elif not o[1] and qh is not None:
                        lg.remove_handler(qh)
                        qh = None
                elif o[0] == 'filter':
                    lg.add_filter(o[1])
                    if o[1] not in filters:
                        filters.append(o[1])
                elif o[0] == 'nofilter':
                    lg.remove_filter(o[1])
                    if o[1] in filters:
                        filters.remove(o[1])
                elif o[0] == 'clear':
                    lg.clear_filters()
                    filters = []
                elif o[0] == 'capture':
                    lg.capture_warnings(o[1])
                    capture = o[1]
                elif o[0] == 'warn':
                    if level > logging.WARNING:
                        continue
                    count[0] += 1
                    msg = 'warning %i' % count[0]
                    text = color.colorfy('{{%yellow ' + msg + '}}') if o[1] else msg
                    if capture:
                        warnings.warn(text, RuntimeWarning)
                        deliver('py.warnings', logging.WARNING, msg)
                    else:
                        with warnings.catch_warnings(record=True) as w:
                            warnings.simplefilter('always')
                            warnings.warn(text, RuntimeWarning)
                        check(len(w) == 1, 'a warning was taken away')
                check(lg.get_log_level() == level, 'log level %r', lg.get_log_level())
        finally:
            lg.capture_warnings(False)
            lg.disable_console_logging()
            lg.disable_file_logging()
            lg.clear_filters()
            if qh is not None:
                lg.remove_handler(qh)
            left = list(lg.LSL_LOGGER.handlers)
            for h in left:
                lg.remove_handler(h)
            for h in old_handlers:
                lg.LSL_LOGGER.addHandler(h)
            lg.set_log_level(old_level)

    check(left == [], 'handlers are left: %r', left)

    def same(text, exp, where):
        # of a captured warning there is more than its text
        lines = [l for l in text.splitlines() if re.match(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[', l)]
        check(len(lines) == len(exp), '%s has %r and not %r', where, lines, exp)
        for l, (lev, msg) in zip(lines, exp):
            head = re.match(r'\S+ \S+ \[(.*?)\] (.*)', l)
            check(head.group(1).strip() == NAMES[lev], 'level of %r', l)
            if msg.startswith('warning'):
                check(re.search(re.escape(msg) + r'(?!\d)', l) and '\x1b' not in l, '%s has %r and not %r', where, l, msg)
            else:
                check(head.group(2) == msg, '%s has %r and not %r', where, l, msg)
    for i, (s, _, exp) in enumerate(consoles):
        same(s.getvalue(), exp, 'console')
    for name, exp in files.items():
        with open(name) as fh:
            same(fh.read(), exp, 'file')
    got = []
    while not lg.LSL_LOG_QUEUE.empty():
        got.append(lg.LSL_LOG_QUEUE.get_nowait())
    check(len(got) == len(expq), 'the queue has %r and not %r', [g.getMessage() for g in got], expq)
    for g, (lev, msg) in zip(got, expq):
        check(g.levelno == lev and (msg in g.getMessage() if msg.startswith('warning') else msg == g.getMessage()), 'the queue has %r and not %r', g.getMessage(), msg)
    return passed > 0 and dropped > 0


# ---------------------------------------------------------------- usage records

sess_op = st.one_of(
    st.tuples(st.just('call'), st.integers(0, 7), st.integers(1, 4)), st.tuples(st.just('call'), st.integers(0, 7), st.integers(1, 4)), st.tuples(st.just('call'), st.integers(0, 7), st.integers(1, 4)),
    st.tuples(st.just('fail'), st.integers(0, 7)), st.tuples(st.just('threads'), st.integers(2, 4), st.integers(1, 50)),
    st.tuples(st.sampled_from(['enable', 'disable', 'ignore'])), st.tuples(st.sampled_from(['disable', 'ignore'])))
tele = st.fixed_dictionaries(dict(max=st.sampled_from([2, 3, 5, 100]), sessions=st.lists(st.lists(sess_op, min_size=2, max_size=10), min_size=2, max_size=4),
                                  readonly=st.booleans() if os.getuid() else st.just(False)))

SESSION = r'''
import sys, os, json, time, types, threading, subprocess
ops, mx, repo, outname = json.loads(sys.argv[1])
sys.path.insert(0, repo)
sent = []
class P:
    def __init__(self, *a, **k): sent.append([str(x) for x in a[0]])
subprocess.Popen = P
from lsl.config import LSL_CONFIG
if LSL_CONFIG.get('telemetry.max_entries') != mx:
    LSL_CONFIG.set('telemetry.max_entries', mx)
from lsl.misc import telemetry as t
src = """
def make(t, i):
    if i % 4 == 0:
        @t.track_function
        def f(a, *args, b=3, **kw):
            'doc of f'
            if a == 'fail': raise err
            return (a, args, b, kw)
    elif i % 4 == 1:
        @t.track_function_timed
        def f(a, *args, b=3, **kw):
            'doc of f'
            if a == 'fail': raise err
            return (a, args, b, kw)
    else:
        tr = t.track_method if i % 4 == 2 else t.track_method_timed
        class K:
            @tr
            def f(self, a, *args, b=3, **kw):
                'doc of f'
                if a == 'fail': raise err
                return (a, args, b, kw)
        K.__name__ = 'K%i' % i
        return K().f
    return f
err = KeyError('own')
def track(t, i):
    return make(t, i)
@__t.track_class
class C0(object):
    def __init__(self, a, b=2):
        self.a, self.b = a, b
class C1(C0):
    pass
"""
mods = {}
fns = []
for i in range(8):
    m = types.ModuleType('lsl.fake%i' % i)
    m.__dict__['__t'] = t
    exec(src, m.__dict__)
    fns.append(m.__dict__['make'](t, i))
    mods[i] = m
bad = []
log = []
def files():
    d = os.path.join(os.path.expanduser('~'), '.lsl', 'telemetry_cache')
    return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith('.log')} if os.path.isdir(d) else {}
active0 = t.is_active()
for o in ops:
    if o[0] == 'call':
        for k in range(o[2]):
            a = object()
            r = fns[o[1]](a, 1, 2, b=k, c=5)
            if not (r[0] is a and r[1] == (1, 2) and r[2] == k and r[3] == {'c': 5}): bad.append('result %r' % (r,))
    elif o[0] == 'fail':
        try:
            fns[o[1]]('fail'); bad.append('no exception')
        except KeyError as e:
            if e is not mods[o[1]].__dict__['err']: bad.append('other exception')
    elif o[0] == 'threads':
        ts = [threading.Thread(target=lambda: [fns[0](1) for _ in range(o[2])]) for _ in range(o[1])]
        [x.start() for x in ts]; [x.join() for x in ts]
    else:
        getattr(t, o[0])()
    log.append([t.is_active(), files() if o[0] in ('disable', 'ignore') else None])
for i, f in enumerate(fns):
    if f.__name__ != 'f' or f.__doc__ != 'doc of f': bad.append('name %r' % f.__name__)
n0 = mods[0].__dict__['C0'](1, b=7); n1 = mods[0].__dict__['C1'](3)
if (n0.a, n0.b, n1.a, n1.b) != (1, 7, 3, 2) or type(n1) is not mods[0].__dict__['C1']: bad.append('class')
import atexit
json.dump(dict(bad=bad, log=log, active0=active0, sent=sent), open(outname, 'w'))
'''


@part('usage', tele, quick=200, thorough=800, rule='usage is recorded and switched off', shards=4, seconds=60)
def usage(c):
    import lsl
    repo = os.path.dirname(os.path.dirname(os.path.abspath(lsl.__file__)))
    home = tmpdir()
    enabled = True
    old = {}
    rich = [False, False]
    cache = os.path.join(home, '.lsl', 'telemetry_cache')
    env = dict(os.environ, HOME=home, LSLCONFIGDIR=os.path.join(home, '.lsl'))
    script = os.path.join(home, 'session.py')
    with open(script, 'w') as fh:
        fh.write(SESSION)

    def files():
        if not os.path.isdir(cache):
            return {}
        res = {}
        for f in sorted(os.listdir(cache)):
            if f.endswith('.log'):
                with open(os.path.join(cache, f)) as fh:
                    res[f] = fh.read()
        return res

    keys = set()
    for ops in c['sessions']:
        out = os.path.join(home, 'out.json')
        r = subprocess.run([sys.executable, script, json.dumps([ops, c['max'], repo, out])], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        check(r.returncode == 0, 'the session failed: %s', r.stderr[-400:])
        with open(out) as fh:
            res = json.load(fh)
        check(res['bad'] == [], 'tracked functions: %r', res['bad'])
        check(res['active0'] == enabled, 'usage tracking is %s at the start and not %s', res['active0'], enabled)
        check(enabled or res['sent'] == [], 'usage data are sent although that is switched off: %r', res['sent'])
        active = enabled
        calls = {}
        new = files()
        for o, (now, snap) in zip(ops, res['log']):
            if o[0] == 'call' and active:
                name = ('lsl.fake%i.f()' if o[1] % 4 < 2 else 'lsl.fake%i.K' + str(o[1]) + '.f()') % o[1]
                e = calls.setdefault(name, [0, o[1] % 2])
                e[0] += o[2]
            elif o[0] == 'threads' and active:
                e = calls.setdefault('lsl.fake0.f()', [0, 0])
                e[0] += o[1]*o[2]
            elif o[0] == 'enable':
                active = enabled = True
            elif o[0] == 'disable':
                active = enabled = False
            elif o[0] == 'ignore':
                active = False
            check(now == active, 'after %r tracking is %s', o, now)
            if snap is not None and not active:
                off = snap
        if active:
            calls['lsl.fake0.C0'] = [1, 0]
        # what was recorded
        got = {}
        for f in set(new) - set(old):
            p = json.loads(new[f])
            keys.add(p['install_key'])
            for name, v in p['calls'].items():
                g = got.setdefault(name, [0, 0, 0.0])
                g[0] += v['total_count']
                g[1] += v['timed_count']
                g[2] += v['total_time']
        check(set(old) <= set(new) and all(new[f] == old[f] for f in old), 'old usage records changed')
        fake = {n: g for n, g in got.items() if n.startswith('lsl.fake')}
        if active:
            check({n: g[0] for n, g in fake.items()} == {n: v[0] for n, v in calls.items()}, 'recorded are %r of the calls %r', fake, calls)
            for n, g in fake.items():
                check(g[1] <= g[0] if calls[n][1] else g[1] == 0 and g[2] == 0, 'times of %s: %r', n, g)
            rich[0] = rich[0] or bool(fake)
        else:
            rich[1] = True
            for n, g in fake.items():
                check(n in calls and g[0] <= calls[n][0], 'recorded are %r of the calls %r', fake, calls)
            # nothing from the time when it was switched off the last time
            last = max([i for i, o in enumerate(ops) if o[0] in ('disable', 'ignore')], default=None)
            snap = {} if last is None else res['log'][last][1]
            check(set(new) - set(old) <= set(snap) or (last is not None and set(new) - set(old) == set(snap) - set(old)), 'usage is recorded although it is switched off')
        old = new
    check(len(keys) <= 1, 'keys %r', keys)
    return all(rich)


SEND = r'''
import sys, json, urllib.request
repo, cache, answer, outname, extra = json.loads(sys.argv[1])
sys.path.insert(0, repo)
sent = []
class R:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def read(self): return answer.encode()
def urlopen(url, data=None, timeout=None, **k):
    if not isinstance(url, str): data, url = url.data, url.full_url
    import urllib.parse
    sent.append(json.loads(urllib.parse.parse_qs(data.decode())['payload'][0]))
    if extra: open(extra, 'w').write('{"new": 1}')
    if answer == 'raise': raise OSError('no route')
    return R()
urllib.request.urlopen = urlopen
from lsl.misc import _telemetry_send as s
s.main(cache, 5)
json.dump(sent, open(outname, 'w'))
'''
sends = st.fixed_dictionaries(dict(ages=st.lists(st.sampled_from([0, 1, 3, 6.9, 7.1, 8, 30]), min_size=0, max_size=4), answer=st.sampled_from(['', '', 'error', 'raise']), damaged=st.booleans(),
                                   locked=st.sampled_from([False, False, False, True]), during=st.booleans()))


@part('sending', sends, quick=60, thorough=600, rule='records were sent', shards=2, seconds=45)
def sending(c):
    import fcntl
    import lsl
    repo = os.path.dirname(os.path.dirname(os.path.abspath(lsl.__file__)))
    d = tmpdir()
    cache = os.path.join(d, 'cache')
    os.mkdir(cache)
    now = time.time()
    for i, a in enumerate(c['ages']):
        fn = os.path.join(cache, 'telemetry_%i_%i.log' % (i, i))
        with open(fn, 'w') as fh:
            fh.write(json.dumps({'n': i}) if not (c['damaged'] and i == 0) else '{"n": 0')
        os.utime(fn, (now - a*86400,)*2)
    with open(os.path.join(cache, 'install.key'), 'w') as fh:
        fh.write('key')
    script, out = os.path.join(d, 's.py'), os.path.join(d, 'out.json')
    with open(script, 'w') as fh:
        fh.write(SEND)
    extra = os.path.join(cache, 'telemetry_9_9.log') if c['during'] else ''
    lock = open(os.path.join(cache, 'send.lock'), 'w')
    if c['locked']:
        fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run([sys.executable, script, json.dumps([repo, cache, c['answer'], out, extra])], env=dict(os.environ, HOME=d, LSLCONFIGDIR=os.path.join(d, '.lsl')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    lock.close()
    check(r.returncode == 0, 'sending failed: %s', r.stderr[-400:])
    with open(out) as fh:
        sent = json.load(fh)
    good = [{'n': i} for i in range(len(c['ages'])) if not (c['damaged'] and i == 0)]
    due = bool(good) and max(c['ages'], default=0) > 7 and not c['locked']
    check(len(sent) == (1 if due else 0), 'records of %r days: %i messages', c['ages'], len(sent))
    if due:
        check(sorted(sent[0], key=lambda p: p['n']) == good, 'sent %r and not %r', sent[0], good)
    left = sorted(f for f in os.listdir(cache) if f.endswith('.log'))
    exp = [] if due and c['answer'] == '' else ['telemetry_%i_%i.log' % (i, i) for i in range(len(c['ages']))]
    if due and c['during']:
        exp = sorted(exp + ['telemetry_9_9.log'])
    check(left == exp, 'left are %r and not %r', left, exp)
    check(os.path.exists(os.path.join(cache, 'install.key')), 'the key is gone')
    return due
