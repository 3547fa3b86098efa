"""Shared machinery of the checks: bounded exhaustive exploration, violation
reporting (with replay artefacts), known findings, evidence files.

A check is a Python program run as `python run.py <ID>`; it creates one
`Check`, explores, and calls `finish()`.  Exit status: 0 = held on everything
explored, 1 = violation (line `VIOLATION property=<id> replay=<path>`), 2 = the
check itself is broken (never reported as a verdict).
"""
import os, sys, json, time, traceback, hashlib, tempfile, shutil, atexit, fnmatch, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)

LISTCAP = 200


def known_findings():
    """[(property, pattern, text)] of active (not repaired) findings."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            # finding: property=<id> key=<glob> <text>
            parts = line[len('finding:'):].strip().split(None, 2)
            prop = parts[0].split('=', 1)[1]
            key = parts[1].split('=', 1)[1]
            out.append((prop, key, parts[2] if len(parts) > 2 else ''))
    return out


class Check(object):
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []          # (key, description, replay data)
        self.known_hit = {}
        self._known = [(k, t) for p, k, t in known_findings() if p == prop]
        self.maxviol = int(os.environ.get("VERIF_MAXVIOL", "25"))
        self.truncated = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- accounting -------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x, maxn=6):
        if len(self.samples) < maxn:
            self.samples.append(x)

    # -- verdicts -----------------------------------------------------------
    def fail(self, key, what, **replay):
        """Record a violation. `key` identifies the failing input/history/site."""
        key = str(key).replace(' ', '_')
        for k, t in self._known:
            if fnmatch.fnmatchcase(key, k):
                self.known_hit.setdefault((k, t), 0)
                self.known_hit[(k, t)] += 1
                return False
        if len(self.viol) >= self.maxviol:
            self.truncated += 1
        else:
            self.viol.append((key, what, replay))
        return True

    def expect(self, cond, key, what, **replay):
        self.trans()
        if not cond:
            self.fail(key, what, **replay)
        return bool(cond)

    # merging results of worker processes
    def export(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    samples=self.samples, viol=self.viol, known=self.known_hit,
                    extra=self.extra, truncated=self.truncated)

    def merge(self, d):
        self.states += d['states']
        self.transitions += d['transitions']
        self.traces += d['traces']
        for s in d['samples']:
            self.sample(s)
        for k, v in d['known'].items():
            self.known_hit[k] = self.known_hit.get(k, 0) + v
        for v in d['viol']:
            if len(self.viol) < self.maxviol:
                self.viol.append(v)
            else:
                self.truncated += 1
        self.truncated += d['truncated']
        for k, v in d['extra'].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.extra[k] = self.extra.get(k, 0) + v
            elif isinstance(v, list):
                self.extra.setdefault(k, [])
                self.extra[k] = (self.extra[k] + v)[:LISTCAP]
            else:
                self.extra[k] = v

    def sub(self):
        c = Check(self.prop, self.tier)
        return c

    # -- end ---------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6] or ['-'],
                   exhaustive=True)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 3),
                  violations=len(self.viol) + self.truncated)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=jsonable)
        os.replace(path + '.tmp', path)
        for (k, t), n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s [key=%s, %d occurrence(s)]' % (self.prop, t, k, n))
        rc = 0
        if self.viol:
            rc = 1
            rdir = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rdir, exist_ok=True)
            for i, (key, what, replay) in enumerate(self.viol):
                h = hashlib.sha1(key.encode('utf8', 'replace')).hexdigest()[:10]
                rp = os.path.join(rdir, '%s-%s.json' % (self.prop, h))
                with open(rp, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, what=what, replay=replay), f,
                              indent=1, default=jsonable)
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
                print('   [%s] %s' % (key, str(what)[:600]))
            if self.truncated:
                print('   ... and %d more' % self.truncated)
        print('%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d' % (
            self.prop, self.tier, self.states, self.transitions, self.traces, wall,
            len(self.viol) + self.truncated))
        sys.stdout.flush()
        return rc


def jsonable(x):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item() if not isinstance(x, np.complexfloating) else str(x)
    except ImportError:
        pass
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    return repr(x)


def from_repo(exc):
    """True if the traceback of `exc` goes through code of the repository."""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(os.path.join(REPO, 'flavio') + os.sep):
            return True
        tb = tb.tb_next
    return False


def exc_text(e):
    return '%s: %s' % (type(e).__name__, str(e)[:300])


# ---------------------------------------------------------------------------
# parallel exploration in forked workers
# ---------------------------------------------------------------------------
def parallel(check, func, items, nproc=None, chunk=None):
    """Run func(check_sub, item) for every item, in forked workers that pull
    work from a shared counter; merge the results. An exception in `func` that
    went through the repository's code is a violation (the code under test
    failed where the property says it must answer); any other one is an error
    of the check."""
    import multiprocessing as mp
    items = list(items)
    nproc = nproc or NPROC
    nproc = max(1, min(nproc, len(items)))
    ctx = mp.get_context('fork')
    counter = ctx.Value('i', 0)
    chunk = chunk or max(1, min(16, len(items) // (nproc * 8)))
    pipes = []
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nproc):
        r, s = ctx.Pipe(False)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                r.close()
                c = check.sub()
                try:
                    while True:
                        with counter.get_lock():
                            i0 = counter.value
                            counter.value += chunk
                        if i0 >= len(items):
                            break
                        for it in items[i0:i0 + chunk]:
                            try:
                                func(c, it)
                            except Exception as e:
                                if from_repo(e):
                                    c.fail('exception/%s' % (repr(it)[:120],), 'unexpected exception ' + exc_text(e),
                                           item=repr(it)[:2000], traceback=traceback.format_exc()[-3000:])
                                else:
                                    raise
                    s.send(('ok', c.export()))
                except BaseException:
                    s.send(('err', traceback.format_exc()))
                s.close()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        s.close()
        pipes.append(r)
        procs.append(pid)
    errs = []
    for r, pid in zip(pipes, procs):
        try:
            kind, data = r.recv()
            if kind == 'ok':
                check.merge(data)
            else:
                errs.append(data)
        except EOFError:
            errs.append('worker %d died' % pid)
        os.waitpid(pid, 0)
    if errs:
        raise HarnessError('\n'.join(errs[:2]))


def in_fork(func, *args):
    """Run func in a forked child and return its (picklable) result; the
    child's effects on process state are discarded. Returns ('ok', value) or
    ('exc', text, from_repo) or ('died', status)."""
    import pickle
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', func(*args))
            except BaseException as e:
                out = ('exc', exc_text(e), from_repo(e))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(('exc', 'unpicklable ' + exc_text(e), False))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('died', st)
    return pickle.loads(data)


class HarnessError(Exception):
    pass


def main(prop, run, argv=None):
    c = Check(prop)
    try:
        run(c)
        rc = c.finish()
    except BaseException as e:
        if isinstance(e, Exception) and not isinstance(e, HarnessError) and from_repo(e):
            c.fail('exception', 'unexpected exception from the code under test: ' + exc_text(e),
                   traceback=traceback.format_exc()[-4000:])
            rc = c.finish()
            traceback.print_exc()
        else:
            traceback.print_exc()
            if c.viol:
                # violations found before the harness stopped are still real
                rc = c.finish()
            else:
                print('CHECK-ERROR property=%s' % prop)
                rc = 2
    sys.stdout.flush()
    return rc
