"""Generation, shrinking, sharding, evidence (runs under python3-vt = CPython + Hypothesis)."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import select
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('KV_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')


def load(pid):
    return importlib.import_module('kv.props.' + pid.lower())


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class WorkerDied(Exception):
    pass


class WorkerHang(Exception):
    pass


class Worker(object):
    def __init__(self, pid):
        self.pid = pid
        self.p = None

    def start(self):
        env = dict(os.environ)
        for k in ('PYTHONHOME', 'PYTEST_ADDOPTS'):
            env.pop(k, None)
        env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   LC_ALL='C.UTF-8', KV_REPO=REPO)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, 'worker.py'), self.pid.lower()],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd='/', bufsize=0)
        self.buf = b''
        self.ready = False
        self._read(120)
        self.ready = True

    def stderr_tail(self):
        try:
            self.err.seek(0, 2)
            n = self.err.tell()
            self.err.seek(max(0, n - 3000))
            return self.err.read().decode('utf8', 'replace')
        except Exception:
            return ''

    def _read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise WorkerHang()
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    raise WorkerDied(self.stderr_tail())
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def once(self, case, timeout):
        if self.p is None:
            self.start()
        data = (json.dumps({'case': case}) + '\n').encode()
        try:
            mv = memoryview(data)
            while mv:
                n = self.p.stdin.write(mv)
                mv = mv[n:]
        except BrokenPipeError:
            raise WorkerDied(self.stderr_tail())
        return self._read(timeout)

    def run(self, case, timeout=60):
        """Verdict for one case; a hang or crash counts only if a fresh worker repeats it."""
        try:
            return self.once(case, timeout)
        except (WorkerHang, WorkerDied) as e1:
            self.stop()
            try:
                return self.once(case, timeout * 2)
            except WorkerHang:
                self.stop()
                return {'ok': False, 'sig': 'hang', 'fatal': True, 'tags': [], 'nontrivial': True,
                        'msg': 'case did not finish within %ss, twice (first: %s)' % (timeout * 2, type(e1).__name__)}
            except WorkerDied as e:
                ready = self.ready
                self.stop()
                if ready:
                    return {'ok': False, 'sig': 'process-dies', 'fatal': True, 'tags': [], 'nontrivial': True,
                            'msg': 'the process that ran the case died, twice: %s' % e}
                return {'harness': 'worker died twice: %s' % e, 'tags': [], 'nontrivial': False}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
                self.err.close()
            except Exception:
                pass
            self.p = None


class Known(object):
    def __init__(self, pid):
        self.items = []
        path = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(path):
            with open(path) as f:
                for k in json.load(f):
                    if k['property'] == pid and k['status'] == 'known':
                        self.items.append(k)

    def matches(self, r):
        return any(k['sig'] == r.get('sig') for k in self.items)


class Abort(KeyboardInterrupt):
    pass


class Found(Exception):
    pass


def shard(pid, tier, seed, idx, n, budget, conn, stop):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    mod = load(pid)
    known = Known(pid)
    w = Worker(pid)
    st = {'evals': 0, 'discards': 0, 'hashes': set(), 'nt': set(), 'tags': {}, 'samples': [],
          'violation': None, 'harness': None, 'known': 0, 'budget_hit': False, 'fails': 0}
    t0 = time.monotonic()
    timeout = getattr(mod, 'CASE_TIMEOUT', 60)
    shrink_s = 30 if tier == 'quick' else 180
    first_fail = [None]

    def evaluate(case):
        now = time.monotonic()
        if first_fail[0] is None:
            if now - t0 > budget:
                st['budget_hit'] = True
                raise Abort()
            if stop.is_set():
                raise Abort()
        elif now - first_fail[0] > shrink_s:
            raise Abort()
        r = w.run(case, timeout)
        st['evals'] += 1
        if r.get('harness'):
            st['harness'] = {'msg': r['harness'], 'case': case}
            raise Abort()
        if 'discard' in r:
            st['discards'] += 1
            st['tags']['discard:' + r['discard']] = st['tags'].get('discard:' + r['discard'], 0) + 1
            return
        if first_fail[0] is None:
            h = digest(case)
            st['hashes'].add(h)
            if r.get('nontrivial'):
                st['nt'].add(h)
                if len(st['samples']) < 3 and idx < 4:
                    st['samples'].append(case)
            for t in r['tags']:
                st['tags'][t] = st['tags'].get(t, 0) + 1
        if not r['ok']:
            if known.matches(r):
                st['known'] += 1
                return
            st['fails'] += 1
            best = st['violation']
            size = len(json.dumps(case))
            if best is None or size <= best['size']:
                st['violation'] = {'case': case, 'sig': r['sig'], 'msg': r['msg'], 'size': size,
                                   'fatal': bool(r.get('fatal'))}
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
                stop.set()
            if r.get('fatal'):
                raise Abort()
            raise Found(r['sig'])

    @hypothesis.seed(seed * 1000 + idx)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
              verbosity=Verbosity.quiet, print_blob=False)
    @given(mod.cases(tier))
    def prop(case):
        evaluate(case)

    try:
        prop()
    except (Found, Abort):
        pass
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            pass
        elif st['violation'] is None and st['harness'] is None:
            if type(e).__name__ in ('Flaky', 'FlakyFailure', 'FlakyReplay'):
                pass
            else:
                st['harness'] = {'msg': traceback.format_exc(), 'case': None}
    w.stop()
    st['hashes'] = list(st['hashes'])
    st['nt'] = list(st['nt'])
    st['wall'] = time.monotonic() - t0
    conn.send(st)
    conn.close()


def quiet_shard(*a):
    # Hypothesis prints falsifying examples; keep stdout for our own lines only
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get('KV_DEBUG'):
        os.dup2(fd, 2)
    try:
        shard(*a)
    except BaseException:
        a[-2].send({'evals': 0, 'discards': 0, 'hashes': [], 'nt': [], 'tags': {}, 'samples': [],
                    'violation': None, 'known': 0, 'budget_hit': False, 'fails': 0, 'wall': 0,
                    'harness': {'msg': traceback.format_exc(), 'case': None}})


def fixed_cases(pid, mod):
    """Hand-written and regression cases, run before generation."""
    out = [('example-%d' % i, c) for i, c in enumerate(getattr(mod, 'EXAMPLES', []))]
    d = os.path.join(ROOT, 'regress', pid)
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            with open(os.path.join(d, fn)) as f:
                out.append((fn, json.load(f)['case']))
    return out


def prune(pid, mod, v, timeout):
    """Drop operations from a failing history while the same failure remains (lists made by gens.oplist shrink badly)."""
    end = time.monotonic() + 15
    w = Worker(pid)
    for key in getattr(mod, 'HISTORY', ('ops',)):
        if v.get('fatal') or not isinstance(v['case'], dict) or not isinstance(v['case'].get(key), list):
            continue
        step = max(1, len(v['case'][key]) // 2)
        while step and time.monotonic() < end:
            i, hit = 0, False
            while i < len(v['case'][key]) and time.monotonic() < end:
                ops = v['case'][key]
                cand = dict(v['case'])
                cand[key] = ops[:i] + ops[i + step:]
                r = w.run(cand, timeout)
                if not r['ok'] if 'ok' in r else False:
                    if r['sig'] == v['sig']:
                        v['case'], v['msg'], hit = cand, r['msg'], True
                        continue
                i += step
            step = step if hit and step == 1 else step // 2
    w.stop()


def write_replay(pid, v, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, digest(v['case'])))
    rec = {'property': pid, 'case': v['case'], 'sig': v['sig'], 'msg': v['msg'],
           'how': 'python3-vt /verif/run.py %s --replay %s' % (pid, path)}
    rec.update(extra or {})
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def check(pid, tier, seed, shards=None, cases=None):
    t0 = time.monotonic()
    mod = load(pid)
    known = Known(pid)
    violations, harness = [], []
    tags, samples = {}, []
    evals = 0
    hashes, nts = set(), set()
    timeout = getattr(mod, 'CASE_TIMEOUT', 60)
    w = Worker(pid)
    n_known = 0
    for k in known.items:
        r = w.run(k['case'], timeout)
        evals += 1
        if r.get('harness'):
            harness.append(r['harness'])
        elif not r['ok'] and r['sig'] == k['sig']:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        elif not r['ok']:
            violations.append({'case': k['case'], 'sig': r['sig'], 'msg': r['msg']})
    for name, case in fixed_cases(pid, mod):
        r = w.run(case, timeout)
        evals += 1
        h = digest(case)
        hashes.add(h)
        if r.get('nontrivial'):
            nts.add(h)
        for t in r['tags']:
            tags[t] = tags.get(t, 0) + 1
        if r.get('harness'):
            harness.append('%s: %s' % (name, r['harness']))
        elif not r['ok']:
            if known.matches(r):
                n_known += 1
            else:
                violations.append({'case': case, 'sig': r['sig'], 'msg': r['msg']})
    w.stop()
    budget_hit = False
    discards = 0
    if not violations and not harness:
        total = cases or mod.CASES[tier]
        nsh = shards or getattr(mod, 'SHARDS', 8)
        nsh = max(1, min(nsh, total))
        budget = 300 if tier == 'quick' else getattr(mod, 'THOROUGH_S', 3000)
        ctx = mp.get_context('fork')
        stop = ctx.Event()
        procs = []
        for i in range(nsh):
            n = total // nsh + (1 if i < total % nsh else 0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=quiet_shard, args=(pid, tier, seed, i, n, budget, tx, stop))
            p.start()
            tx.close()
            procs.append((p, rx))
        for p, rx in procs:
            try:
                st = rx.recv()
            except EOFError:
                harness.append('shard process died')
                continue
            finally:
                p.join()
            evals += st['evals']
            discards += st['discards']
            n_known += st['known']
            hashes.update(st['hashes'])
            nts.update(st['nt'])
            samples.extend(st['samples'])
            budget_hit = budget_hit or st['budget_hit']
            for t, c in st['tags'].items():
                tags[t] = tags.get(t, 0) + c
            if st['harness']:
                harness.append('%s\ncase: %s' % (st['harness']['msg'], json.dumps(st['harness']['case'])))
            if st['violation']:
                st['violation']['fails'] = st['fails']
                violations.append(st['violation'])
    lines = []
    unrepro = 0
    violations.sort(key=lambda v: len(json.dumps(v['case'])))
    reported = None
    for v in violations[:1]:
        prune(pid, mod, v, timeout)
    for v in violations:
        ok = False
        if v.get('fatal'):
            ok = True
        else:
            for attempt in range(getattr(mod, 'REPLAY_TRIES', 2)):
                w = Worker(pid)
                r = w.run(v['case'], timeout)
                w.stop()
                if not r.get('harness') and not r['ok']:
                    v['sig'], v['msg'] = r['sig'], r['msg']
                    ok = True
                    break
        if ok or v.get('fails', 0) > 1 or getattr(mod, 'TRUST_ONCE', False) or getattr(mod, 'TRUST_MARK', None) and mod.TRUST_MARK in v['msg']:
            path = write_replay(pid, v, {'reproduced_in_fresh_process': ok, 'seed': seed, 'tier': tier})
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            reported = v
            break
        unrepro += 1
        print('not reproduced: %s: %s\ncase: %s' % (v['sig'], v['msg'][:1500], json.dumps(v['case'])[:3000]))
    wall = time.monotonic() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nts), 'rule': mod.RULE,
                       'samples': [shorten(s) for s in (samples[:5] or [c for _, c in fixed_cases(pid, mod)[:5]])],
                       'distinct': len(hashes), 'discards': discards, 'classes': dict(sorted(tags.items())),
                       'known_finding_hits': n_known, 'unreproduced_failures': unrepro,
                       'budget_hit': budget_hit},
          'wall_s': round(wall, 2)}
    if reported:
        ev['violation'] = {'sig': reported['sig'], 'msg': reported['msg'][:1500]}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases (%d distinct, %d non-trivial, %d discarded) in %.1fs%s' % (
        pid, tier, seed, evals, len(hashes), len(nts), discards, wall, ' BUDGET' if budget_hit else ''))
    if lines:
        print('%s: %s' % (reported['sig'], reported['msg'][:3000]))
        print('case: %s' % json.dumps(reported['case'])[:3000])
        for l in lines:
            print(l)
        return 1
    if harness:
        print('HARNESS ERROR (%d)\n%s' % (len(harness), harness[0]))
        return 3
    return 0


def shorten(x, limit=1500):
    s = json.dumps(x)
    return x if len(s) <= limit else s[:limit] + '...'


def replay(pid, path):
    mod = load(pid)
    with open(path) as f:
        rec = json.load(f)
    for attempt in range(getattr(mod, 'REPLAY_TRIES', 2)):
        w = Worker(pid)
        r = w.run(rec['case'], getattr(mod, 'CASE_TIMEOUT', 60))
        w.stop()
        if r.get('harness'):
            print('HARNESS ERROR\n' + r['harness'])
            return 3
        if not r['ok']:
            print('%s: %s' % (r['sig'], r['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
    print('%s: replay passes' % pid)
    return 0
