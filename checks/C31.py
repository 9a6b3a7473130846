"""C31: text headers - what is written is laid out as asked and comes back from parse_header()."""
import argparse
import io
import json
import logging
import math
import re
import sys
from datetime import datetime, timezone, timedelta
from hypothesis import strategies as st
from vlib.core import *
from lsl.common import header as hd
from lsl.logger import LSL_LOGGER
LSL_LOGGER.setLevel(logging.CRITICAL)

words = st.text('abcXYZ019_-+.()', min_size=1, max_size=8).filter(lambda s: not set(s) <= set('-+.'))
words = st.one_of(words, words, words.map(lambda s: '...' + s))
names = st.lists(words, min_size=1, max_size=3).map(' '.join).filter(lambda s: s != '_freeform')
chars = st.characters(blacklist_categories=('Cs',))
scalars = st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.floats(allow_nan=False), st.text(max_size=20),
                    st.text('#/;%!:"\\ ab\n\t...', max_size=20), st.text(chars, max_size=12))
values = st.recursive(scalars, lambda c: st.lists(c, max_size=4) | st.dictionaries(st.text(max_size=5), c, max_size=3), max_leaves=6)
# free-form text: no colon (that makes it a key), not blank, single spaces
free = st.lists(st.text('abcdefgh,#/;%!()=019', min_size=1, max_size=9), min_size=1, max_size=6).map(' '.join).filter(lambda s: any(ch.isalpha() for ch in s))
entry = st.recursive(
    st.one_of(st.tuples(st.just('kv'), names, values), st.tuples(st.just('kv'), names, values), st.tuples(st.just('line'), free),
              st.tuples(st.just('blank')), st.tuples(st.just('rule')), st.tuples(st.just('ns'), names, st.lists(st.tuples(names, values), max_size=4), st.booleans()),
              st.tuples(st.just('cols'), names, st.lists(st.tuples(words, st.sampled_from(['', 'K', 'MHz', 'm s^-1', '[K]', 'K [log10]', '%', ' '])), max_size=4), st.booleans())),
    lambda c: st.tuples(st.just('sec'), names, st.lists(c, max_size=5), st.booleans()), max_leaves=12)
docs = st.fixed_dictionaries(dict(items=st.lists(entry, min_size=0, max_size=7), kind=st.sampled_from(['comment', 'box', 'text']),
                                  comment=st.sampled_from(['#', '#', '//', ';', '%%', '!--', '*']), indent=st.integers(1, 5),
                                  form=st.sampled_from(['str', 'list', 'readlines', 'embedded'])))


def depth(items):
    return 1 + max([depth(i[2]) for i in items if i[0] == 'sec'], default=0)


def build(h, items, d):
    """Write the items to the header and return what should come back."""
    for it in items:
        if it[0] in ('blank', 'rule'):
            getattr(h, it[0])()
        elif it[0] == 'line':
            h.line(it[1])
            d['_freeform'] = d['_freeform'] + '\n' + it[1] if '_freeform' in d else it[1]
        else:
            key = it[1]
            while key in d:
                key += 'x'
            if it[0] == 'kv':
                h.key_value(key, it[2])
                d[key] = it[2]
            elif it[0] == 'ns':
                ns = dict(it[2])
                h.namespace(ns if it[3] else argparse.Namespace(**ns), title=key)
                d[key] = ns
            elif it[0] == 'cols':
                h.columns([n for n, _ in it[2]], title=key, column_units=[u for _, u in it[2]] if it[3] else None)
                d[key] = {str(i + 1): conv(n + (f' [{u}]' if u and it[3] else '')) for i, (n, u) in enumerate(it[2])}
            else:
                d[key] = {}
                with h.section(key + (':' if it[3] else '')):
                    build(h, it[2], d[key])


def conv(v):
    # column names that are numbers come back as numbers
    try:
        return json.loads(v)
    except ValueError:
        return v


def make(c, width=0):
    if c['kind'] == 'text':
        return hd.TextHeader(width=width, indent=c['indent']), ''
    return {'comment': hd.CommentHeader, 'box': hd.BoxHeader}[c['kind']](comment=c['comment'], width=width, indent=c['indent']), c['comment']


def same(a, b):
    return json.dumps(a) == json.dumps(b)


def flat(d):
    return [k for k in d]


@part('roundtrip', docs, quick=1600, thorough=25000, rule='has a nested section or a free-form line and at least three entries', shards=2)
def roundtrip(c):
    h, cm = make(c)
    want = {}
    build(h, c['items'], want)
    text = str(h)
    s = io.StringIO()
    h.write(s)
    check(s.getvalue() == text, 'write() and str() differ')
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        h.write()
        got = sys.stdout.getvalue()
    finally:
        sys.stdout = out
    check(got == text, 'write() to the terminal differs')
    if not c['items']:
        check(text == '', 'empty header')
        check(hd.parse_header(text, comment=cm) == {}, 'empty header')
        return False
    check(text.endswith('\n'), 'unfinished line')
    lines = text[:-1].split('\n')
    if cm:
        check(all(l.startswith(cm) for l in lines), 'line without comment')
    if c['kind'] == 'box':
        check(len({len(l) for l in lines}) == 1 and all(l.endswith(cm) or l == (cm * len(l))[:len(l)] for l in lines), 'ragged box')
        w = len(lines[0])
        full = (cm * w)[:w]
        check(lines[0] == full and lines[-1] == full, 'open box')
        check(lines[1][len(cm):-len(cm)].strip() == '' and lines[-2][len(cm):-len(cm)].strip() == '', 'box without margin')
    n = {'blank': 0, 'rule': 0}

    def count(items):
        for i in items:
            if i[0] in n:
                n[i[0]] += 1
            elif i[0] == 'sec':
                count(i[2])
    count(c['items'])
    if c['kind'] != 'box':
        rules = [l for l in lines if len(l) > len(cm) and l == ((cm or '#') * 4)[:len(l)]]
        check(len(rules) == n['rule'], 'rules', rules)
        check(len([l for l in lines if l.strip() == cm]) == n['blank'], 'blank lines')
    if c['form'] == 'str':
        src = text
    elif c['form'] == 'list':
        src = lines
    elif c['form'] == 'readlines' or not cm:
        src = io.StringIO(text).readlines()
    else:
        src = text + '1.0 2.0\n3.0: 4.0\n\n'
    got = hd.parse_header(src, comment=cm)
    check(same(got, want), 'the header came back as %r and not %r', got, want)
    # once more with what was written before, after clear()
    h.clear()
    check(str(h) == '', 'clear')
    again = {}
    build(h, c['items'], again)
    check(str(h) == text, 'second use differs')
    label(c['kind'])
    return len(c['items']) > 2 and (any(i[0] in ('sec', 'line') for i in c['items']))


fixed = st.fixed_dictionaries(dict(items=st.lists(entry, min_size=1, max_size=6), kind=st.sampled_from(['comment', 'box', 'text']),
                                   comment=st.sampled_from(['#', '#', '//', ';']), indent=st.integers(1, 3), width=st.integers(4, 100)))


def logical(items, ind, base):
    for it in items:
        if it[0] == 'sec':
            yield from logical(it[2], ind + base, base)


def small(h, w, items, d, base, box, cm):
    """Smallest room for a line."""
    e = w - len(cm) - d - ((base + len(cm)) if box else 0)
    m = e
    for it in items:
        if it[0] in ('sec', 'ns', 'cols'):
            m = min(m, small(h, w, it[2] if it[0] == 'sec' else [], d + base, base, box, cm))
    return m


@part('fixed_width', fixed, quick=1500, thorough=15000, rule='some line had to be wrapped')
def fixed_width(c):
    base = c['indent']
    cm = '' if c['kind'] == 'text' else c['comment']
    e = c['width'] - len(cm) - base - ((base + len(cm)) if c['kind'] == 'box' else 0)
    if e < 8:
        try:
            make(c, c['width'])
        except ValueError:
            return False
        raise AssertionError('a width without room was accepted')
    h, cm = make(c, c['width'])
    if c['kind'] != 'text':
        check(h.effective_width == e, 'effective width', h.effective_width, e)
    if small(h, c['width'], c['items'], base, base, c['kind'] == 'box', cm) < 8:
        raise Reject()
    want = {}
    build(h, c['items'], want)
    text = str(h)
    lines = text[:-1].split('\n')
    check(max(map(len, lines)) <= c['width'], 'line longer than the width')
    if c['kind'] == 'box':
        check({len(l) for l in lines} == {c['width']}, 'ragged box')
    check(all(l.startswith(cm) for l in lines), 'line without comment')
    # nothing but white space is lost
    h0, _ = make(c, 0)
    build(h0, c['items'], {})

    def squeeze(t):
        out = []
        for l in t.split('\n'):
            if not l or l == ((cm or '#') * len(l))[:len(l)]:
                continue
            l = l[len(cm):]
            if c['kind'] == 'box':
                l = l[:-len(cm)]
            l = l.strip()
            if l.startswith('... '):
                l = l[4:]
            out.append(re.sub(r'\s', '', l))
        return ''.join(out)
    check(squeeze(text) == squeeze(str(h0)), 'text lost in wrapping: %r %r', squeeze(text), squeeze(str(h0)))
    got = hd.parse_header(text, comment=cm)

    # keys of the sections without free-form lines, and values without blanks, come back
    def comp(a, b, path=()):
        for k, v in b.items():
            if k == '_freeform' or ' ' in k or '-' in k:
                continue
            if isinstance(v, dict) and k in a and isinstance(a[k], dict) and path is not None:
                continue
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                check(k in a and same(a[k], v), 'number %s: %s came back as %s', k, v, a.get(k))
    comp(got, want)
    return '... ' in text


stamps = st.fixed_dictionaries(dict(spec=st.sampled_from(['hours', 'minutes', 'seconds', 'milliseconds', 'microseconds', None]), off=st.one_of(st.none(), st.integers(-14 * 60, 14 * 60)),
                                    prefix=names))


@part('timestamp', stamps, quick=200, thorough=2000, rule='always')
def timestamp(c):
    h = hd.CommentHeader()
    kw = {} if c['spec'] is None else {'timespec': c['spec']}
    if c['off'] is not None:
        kw['tz'] = timezone(timedelta(minutes=c['off']))
    t0 = datetime.now(tz=timezone.utc)
    h.timestamp(c['prefix'], **kw)
    h.lsl_version()
    t1 = datetime.now(tz=timezone.utc)
    d = hd.parse_header(str(h))
    t = datetime.fromisoformat(d[c['prefix']])
    check(t.utcoffset() == timedelta(minutes=c['off'] or 0), 'time zone')
    res = {'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': 1e-3, 'microseconds': 1e-6, None: 1}[c['spec']]
    if c['spec'] == 'hours' and (c['off'] or 0) % 60:
        pass
    check(t0 - timedelta(seconds=res) <= t <= t1, 'time', t, t0)
    form = t.isoformat(timespec=c['spec'] or 'seconds')
    check(d[c['prefix']] == form, 'format', d[c['prefix']], form)
    from lsl.version import version
    check(d['LSL Version'] == version, 'version')
    return True


@part('refusal', st.tuples(st.integers(0, 5), st.integers(0, 5)), quick=20, thorough=40, rule='the lists differ in length')
def refusal(c):
    h = hd.CommentHeader()
    try:
        h.columns(['a'] * c[0], column_units=['b'] * c[1])
        check(c[0] == c[1], 'names and units of different lengths accepted')
    except RuntimeError:
        check(c[0] != c[1], 'refused')
    try:
        hd._BaseHeader('round')
        check(False, 'unknown style accepted')
    except ValueError:
        pass
    return c[0] != c[1]


