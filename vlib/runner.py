"""Runs one check: forks a process for each part (shard), watches them, writes evidence and replay files."""
import argparse, base64, faulthandler, glob, hashlib, importlib, importlib.util, json, os, pickle, resource, signal, sys, time, traceback
from vlib import core
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase, seed as hseed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 240          # one case (normally milliseconds) running this long counts as a hang
JOBS = 8

class Abort(KeyboardInterrupt):
    pass

def show(case, n=600):
    s = repr(case)
    return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'

def stable(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')

class Shard:
    def __init__(self, part, k, n_examples, seed, seconds, scratch):
        self.part, self.k, self.n, self.seed, self.seconds = part, k, n_examples, seed, seconds
        self.dir = os.path.join(scratch, f'{part.name}.{k}')
        self.pid = None

def describe(e):
    tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    return tb[-3000:]

def child(sh, isolate):
    """Never returns."""
    os.makedirs(sh.dir, exist_ok=True)
    tmp = os.path.join(sh.dir, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    os.chdir(tmp)
    os.environ['TMPDIR'] = tmp
    import tempfile
    tempfile.tempdir = tmp
    log = open(os.path.join(sh.dir, 'log'), 'wb')
    os.dup2(log.fileno(), 1)
    os.dup2(log.fileno(), 2)
    faulthandler.enable(log)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not os.environ.get('VERIF_ASAN'):
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    curf = open(os.path.join(sh.dir, 'cur'), 'wb', buffering=0)
    st = dict(evaluations=0, rejected=0, nontrivial=set(), samples=[], fail=None, budget=False)
    t0 = time.time()
    state = dict(first=None)
    import warnings
    warnings.simplefilter('ignore')

    def one(case):
        curf.seek(0)
        curf.truncate()
        curf.write(pickle.dumps(case))
        now = time.time()
        if state['first'] is None and now - t0 > sh.seconds:
            st['budget'] = True
            raise Abort()
        if state['first'] is not None and now - state['first'] > 40:
            raise Abort()
        st['evaluations'] += 1
        try:
            if isolate:
                res = isolated(sh.part.fn, case)
            else:
                res = sh.part.fn(case)
        except core.Reject:
            st['rejected'] += 1
            return
        except (core.HarnessError, MemoryError):
            raise
        except Exception as e:
            if state['first'] is None:
                state['first'] = now
            r = len(repr(case))
            if st['fail'] is None or r <= st['fail'][0]:
                st['fail'] = (r, pickle.dumps(case), show(case, 4000), describe(e))
            raise
        finally:
            core.clean_tmp()
        if res:
            d = hashlib.md5(repr(case).encode()).digest()[:8]
            if d not in st['nontrivial']:
                st['nontrivial'].add(d)
                if len(st['samples']) < 2 or (len(st['samples']) < 3 and st['evaluations'] > 50):
                    st['samples'].append(show(case))

    out = dict(error=None)
    try:
        try:
            if sh.k == 0:
                for c in sh.part.explicit:
                    one(c)
            if sh.n > 0:
                test = given(sh.part.strategy)(one)
                test = hseed(sh.seed)(test)
                test = settings(max_examples=sh.n, deadline=None, database=None, derandomize=False,
                                print_blob=False, report_multiple_bugs=False,
                                suppress_health_check=list(HealthCheck),
                                phases=[Phase.generate, Phase.shrink])(test)
                test()
        except Abort:
            pass
        except Exception as e:
            if st['fail'] is None:
                out['error'] = describe(e)
    except BaseException as e:
        out['error'] = describe(e)
    st['labels'] = dict(core.LABELS)
    out['st'] = st
    with open(os.path.join(sh.dir, 'out.tmp'), 'wb') as fh:
        pickle.dump(out, fh)
    os.rename(os.path.join(sh.dir, 'out.tmp'), os.path.join(sh.dir, 'out'))
    sys.stdout.flush()
    os._exit(0)

def isolated(fn, case):
    """Evaluate one case in a process of its own, so that a crash is an ordinary failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(CASE_LIMIT)
            res = ('ok', bool(fn(case)))
        except core.Reject:
            res = ('reject', None)
        except BaseException as e:
            res = ('fail', describe(e))
        os.write(w, pickle.dumps(res)[:60000])
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise AssertionError(f'process killed by signal {os.WTERMSIG(status)}')
    if not data:
        raise AssertionError(f'process exited with {status} and no answer')
    kind, v = pickle.loads(data)
    if kind == 'reject':
        raise core.Reject()
    if kind == 'fail':
        raise AssertionError('in isolated case:\n' + v)
    return v

def spawn(sh, isolate=False):
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            child(sh, isolate)
        finally:
            os._exit(97)
    sh.pid = pid

def run_shards(shards, limit):
    """Returns [(shard, kind, out)] with kind in done, crash, hang, killed."""
    todo, live, res = list(shards), [], []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < JOBS:
            sh = todo.pop(0)
            spawn(sh, getattr(sh, 'isolate', False))
            sh.t0 = time.time()
            live.append(sh)
        time.sleep(0.02)
        for sh in list(live):
            pid, status = os.waitpid(sh.pid, os.WNOHANG)
            if pid:
                live.remove(sh)
                outf = os.path.join(sh.dir, 'out')
                if os.path.exists(outf):
                    with open(outf, 'rb') as fh:
                        res.append((sh, 'done', pickle.load(fh)))
                elif os.WIFSIGNALED(status) and os.WTERMSIG(status) != signal.SIGKILL:
                    res.append((sh, 'crash', f'signal {os.WTERMSIG(status)}'))
                elif os.WIFSIGNALED(status):
                    res.append((sh, 'killed', f'signal {os.WTERMSIG(status)}'))
                else:
                    res.append((sh, 'crash', f'exit status {status}'))
                continue
            try:
                age = time.time() - os.stat(os.path.join(sh.dir, 'cur')).st_mtime
            except FileNotFoundError:
                age = time.time() - sh.t0
            if age > CASE_LIMIT:
                os.kill(sh.pid, signal.SIGKILL)
                os.waitpid(sh.pid, 0)
                live.remove(sh)
                res.append((sh, 'hang', f'no answer within {CASE_LIMIT} s'))
    return res

def tail(path, n=2500):
    try:
        with open(path, 'rb') as fh:
            return fh.read()[-n:].decode('utf8', 'replace')
    except OSError:
        return ''

def write_replay(prop, part, case_pickle, case_repr, err):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = f'{prop}-{part}-{hashlib.md5(case_pickle or b"").hexdigest()[:10]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as fh:
        json.dump(dict(property=prop, part=part, case=base64.b64encode(case_pickle or b'').decode(),
                       case_repr=case_repr, error=err,
                       how=f'bash run.sh {prop} replay {path}'), fh, indent=1)
    return path

def load_known():
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.json')) as fh:
        return json.load(fh)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('mode')
    ap.add_argument('arg', nargs='?')
    ap.add_argument('n', nargs='?', type=int)
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.mode == 'thorough' else 'quick'
    scratch = os.environ['VERIF_SCRATCH']
    sys.path.insert(0, VERIF)
    import lsl
    where = os.path.realpath(os.path.dirname(lsl.__file__))
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        print(f'ERROR: lsl comes from {where}', file=sys.stderr)
        return 3
    if os.environ.get('VERIF_ASAN'):
        pass
        root = os.environ['VERIF_ASAN']
        for so in sorted(glob.glob(os.path.join(root, 'lsl', '*', '*.so'))):
            name = '.'.join(os.path.relpath(so, root).split(os.sep))[:].split('.cpython')[0]
            spec = importlib.util.spec_from_file_location(name, so)
            mod = importlib.util.module_from_spec(spec)
            try:
                spec.loader.exec_module(mod)
            except ImportError as e:
                print(f'ERROR: {name}: {e}', file=sys.stderr)
                return 3
            sys.modules[name] = mod
    try:
        importlib.import_module('checks.' + prop)
    except Exception as e:
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(os.path.realpath(f).startswith(where) for f in files) or isinstance(e, ImportError) and 'lsl' in str(e):
            err = describe(e)
            path = write_replay(prop, 'import', pickle.dumps(None), 'import of the modules under test', err)
            print(err, file=sys.stderr)
            print(f'VIOLATION property={prop} replay={path}')
            write_evidence(prop, tier, seed, t0, [], 1, {})
            return 1
        traceback.print_exc()
        return 3

    if a.mode == 'replay':
        with open(a.arg) as fh:
            r = json.load(fh)
        if r['part'] == 'import':
            print('modules import; not reproduced')
            return 0
        p = [p for p in core.PARTS if p.name == r['part']][0]
        case = pickle.loads(base64.b64decode(r['case']))
        print('case:', show(case, 4000))
        try:
            isolated(p.fn, case)
        except core.Reject:
            print('rejected (outside the domain)')
            return 0
        except AssertionError as e:
            print(e)
            print(f'VIOLATION property={prop} replay={os.path.abspath(a.arg)}')
            return 1
        print('held')
        return 0

    parts = core.PARTS
    if a.mode == 'part':
        parts = [p for p in parts if p.name.startswith(a.arg or '')]
    shards = []
    for p in parts:
        n = p.thorough if tier == 'thorough' else p.quick
        if a.n:
            n = a.n
        ks = max(1, p.shards) if tier == 'quick' else max(p.shards, 2)
        secs = p.seconds if tier == 'quick' else max(p.seconds*5, 240)
        for k in range(ks):
            shards.append(Shard(p, k, max(1, n//ks), stable(prop, p.name, k, seed) % (1 << 62), secs, scratch))
    res = run_shards(shards, 800)

    # a crash is located again with every case in a process of its own, so that it shrinks
    again = []
    for sh, kind, out in res:
        if kind == 'crash':
            s2 = Shard(sh.part, sh.k, sh.n, sh.seed, 90, os.path.join(scratch, 'iso'))
            s2.isolate = True
            again.append((sh, s2))
    iso = {}
    if again:
        os.makedirs(os.path.join(scratch, 'iso'), exist_ok=True)
        r2 = run_shards([s2 for _, s2 in again], 200)
        for s2, kind, out in r2:
            iso[(s2.part.name, s2.k)] = (kind, out)

    violations, errors, stats = [], [], []
    for sh, kind, out in res:
        if kind == 'done':
            if out['error']:
                errors.append((sh.part.name, out['error']))
            st = out['st']
            stats.append((sh, st))
            if st['fail']:
                violations.append((sh.part.name, st['fail'][1], st['fail'][2], st['fail'][3]))
        elif kind in ('crash', 'hang'):
            cur = b''
            try:
                with open(os.path.join(sh.dir, 'cur'), 'rb') as fh:
                    cur = fh.read()
                rep = show(pickle.loads(cur), 4000)
            except Exception:
                rep = '(no case recorded)'
            k2, o2 = iso.get((sh.part.name, sh.k), (None, None))
            if k2 == 'done' and o2['st']['fail']:
                f = o2['st']['fail']
                violations.append((sh.part.name, f[1], f[2], f'{kind}: {out}\n{f[3]}\n{tail(os.path.join(sh.dir, "log"))}'))
            else:
                violations.append((sh.part.name, cur, rep, f'{kind}: {out}\n{tail(os.path.join(sh.dir, "log"))}'))
        else:
            errors.append((sh.part.name, f'{kind}: {out}\n{tail(os.path.join(sh.dir, "log"))}'))

    # listed findings
    kf = {f['id']: f for f in load_known() if f.get('property') == prop and f.get('status') == 'known'}
    if a.mode != 'part':
        for fid, fn in core.KNOWN:
            try:
                still = isolated(lambda _: fn(), None)
                why = 'still fails'
            except AssertionError as e:
                errors.append((fid, str(e)))
                continue
            if still:
                if fid in kf:
                    print(f"KNOWN-FINDING: property={prop} {kf[fid]['what']}")
                else:
                    violations.append((fid, pickle.dumps(None), fid, 'defect not listed in KNOWN_FINDINGS.json'))

    seen = set()
    rc = 0
    for name, case, rep, err in violations:
        if name in seen:
            continue
        seen.add(name)
        path = write_replay(prop, name, case, rep, err)
        print(f'--- {prop}/{name} fails on: {rep}\n{err}', file=sys.stderr)
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    if a.mode != 'part':
        write_evidence(prop, tier, seed, t0, stats, len(seen), kf)
    for sh, st in stats:
        print(f"{prop} {sh.part.name}.{sh.k}: {st['evaluations']} cases, {len(st['nontrivial'])} distinct non-trivial, "
              f"{st['rejected']} rejected{', time budget reached' if st['budget'] else ''}; {st['labels']}")
    print(f'{prop} {tier}: {time.time()-t0:.1f} s')
    if rc == 0 and errors:
        for name, e in errors:
            print(f'ERROR in {prop}/{name}: {e}', file=sys.stderr)
        return 3
    return rc

def write_evidence(prop, tier, seed, t0, stats, nviol, kf):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    seen, samples, rules, per = set(), [], [], {}
    ev = 0
    for sh, st in stats:
        ev += st['evaluations']
        seen |= {(sh.part.name, x) for x in st['nontrivial']}
        pp = per.setdefault(sh.part.name, dict(cases=0, nontrivial=0, rejected=0, labels={}))
        pp['cases'] += st['evaluations']
        pp['nontrivial'] += len(st['nontrivial'])
        pp['rejected'] += st['rejected']
        for k, v in st['labels'].items():
            pp['labels'][k] = pp['labels'].get(k, 0) + v
        if sh.k == 0:
            samples += [f'{sh.part.name}: {s}' for s in st['samples'][:2]]
            rules.append(f'{sh.part.name}: {sh.part.rule}')
    lv = 'exploration'
    rule = ('Cases are drawn by Hypothesis generators from VERIF_SEED and judged by an oracle written apart from the '
            'code; what makes one non-trivial, part by part: ' + '; '.join(rules))
    with open(os.path.join(d, prop + '.json'), 'w') as fh:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=lv,
                       coverage=dict(evaluations=ev, distinct_nontrivial=len(seen), rule=rule,
                                     samples=samples or ['(no case ran)'], parts=per,
                                     known_findings=sorted(kf)),
                       wall_s=round(time.time()-t0, 2), violations=nviol), fh, indent=1)

if __name__ == '__main__':
    sys.exit(main())
