"""Harness: runs the jobs of one property in forked workers, collects states / transitions / traces,
turns failed cases into replayable violations and writes the evidence file.

A property module (mc/props/cNN.py) provides

    ID, TITLE            identifier and title
    BOUNDS               dict tier -> text of the bounds within which the exploration is exhaustive
    jobs(tier)           -> list of (name, function, kwargs); function(ctx, **kwargs) enumerates cases
    warm(tier)           optional; run in the parent before any fork (import and jit compilation)
    ASSUMPTIONS          optional list of texts

A case is one complete execution (a history of operations, or one input configuration) of the real code that is
compared, step by step, with a reference model written in the property module.  Everything is enumerated in a fixed
order; no random choice decides anything (VERIF_SEED only permutes the order in which jobs are started).
"""

import contextlib
import hashlib
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')

CASE_TIMEOUT = 100  # seconds: no case of the unchanged tree takes more than a few
SOFT_DEADLINE = 690  # no job is started after this many seconds
HARD_DEADLINE = 800  # jobs still running are ended (and reported as not completed)
MAX_VIOLATIONS_PER_JOB = 3


class Violation(Exception):
    """The property does not hold in the case being run."""


class Hang(BaseException):
    """A case did not finish in CASE_TIMEOUT seconds."""


def expect(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


@contextlib.contextmanager
def about(what):
    """Names the member of a batch in whatever goes wrong within it."""
    try:
        yield
    except Violation as e:
        raise Violation(f'{what}: {e}') from None
    except Exception as e:
        import traceback
        frames = [f for f in traceback.extract_tb(e.__traceback__) if '/resqpy/' in f.filename]
        at = f' at {os.path.basename(frames[-1].filename)} {frames[-1].name}' if frames else ''
        raise Violation(f'{what}: unexpected {type(e).__name__}: {e}{at}') from e


def digest(obj):
    return hashlib.blake2b(_freeze(obj), digest_size = 8).digest()


def _freeze(obj):
    import numpy as np
    if isinstance(obj, (bytes, bytearray)):
        return b'b' + bytes(obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == 'f':
            obj = np.round(obj, 9) + 0.0
        return b'a' + str((obj.shape, obj.dtype.str)).encode() + obj.tobytes()
    if isinstance(obj, dict):
        return b'd' + b'|'.join(sorted(_freeze(k) + b':' + _freeze(v) for k, v in obj.items()))
    if isinstance(obj, (set, frozenset)):
        return b's' + b'|'.join(sorted(_freeze(x) for x in obj))
    if isinstance(obj, (list, tuple)):
        return b'l' + b'|'.join(_freeze(x) for x in obj)
    return repr(obj).encode()


class Ctx:
    """Handed to each job; collects what was covered."""

    def __init__(self, prop, job, tier, only_case = None, deadline = None):
        self.prop, self.job, self.tier = prop, job, tier
        self.only_case = only_case
        self.deadline = deadline
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.capped = None
        self.progress = None  # file naming the case being run
        self._dirs = []
        self._key = None

    # ---- coverage -------------------------------------------------------------------------------
    def state(self, obj):
        """Notes a state reached on the real code; returns True when it had not been seen before in this job."""
        h = digest(obj)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n = 1):
        """Notes n operations executed on the real code and compared with the model."""
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def dir(self):
        d = tempfile.mkdtemp(prefix = 'c')
        self._dirs.append(d)
        return d

    def path(self, name = 'm.epc'):
        return os.path.join(self.dir(), name)

    # ---- cases ----------------------------------------------------------------------------------
    def full(self):
        return len(self.violations) >= MAX_VIOLATIONS_PER_JOB or self.capped

    def run(self, key, fn, *args, **kwargs):
        """Runs one case.  Any exception that leaves fn is a violation.  Returns fn's value (None on failure)."""
        key = str(key)
        if self.only_case is not None and key != self.only_case:
            return None
        if len(self.violations) >= MAX_VIOLATIONS_PER_JOB:
            return None
        if self.deadline is not None and time.time() > self.deadline:
            self.capped = self.capped or f'time cap reached before case {key}'
            return None
        self._key = key
        if self.progress:
            with open(self.progress, 'w') as f:
                f.write(key)
        import resqpy.olio.uuid as bu
        bu.switch_on_test_mode(int.from_bytes(hashlib.blake2b((self.job + '/' + key).encode(), digest_size = 4).digest(),
                                              'big'))
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        value = None
        try:
            value = fn(*args, **kwargs)
        except Hang:
            self._violation(key, f'no answer within {CASE_TIMEOUT} seconds', '')
        except (Exception, SystemExit) as e:
            tb = traceback.format_exc()
            what = str(e) if isinstance(e, Violation) else f'unexpected {type(e).__name__}: {e}'
            self._violation(key, what, tb)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            for d in self._dirs:
                shutil.rmtree(d, ignore_errors = True)
            self._dirs = []
        self.traces += 1
        if len(self.samples) < 3:
            self.samples.append({'job': self.job, 'case': key[:400]})
        return value

    def _violation(self, key, what, tb):
        self.violations.append({'job': self.job, 'case': key, 'what': what[:2000], 'trace': tb[-6000:]})


def _on_alarm(signum, frame):
    raise Hang()


def _child(mod, job, tier, only_case, out, progress, deadline):
    name, fn, kwargs = job
    signal.signal(signal.SIGALRM, _on_alarm)
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    ctx = Ctx(mod.ID, name, tier, only_case, deadline)
    ctx.progress = progress
    try:
        fn(ctx, **kwargs)
    except BaseException as e:
        # the enumeration itself failed outside any case: treat as a violation of the job (it drives the real code)
        ctx._violation('(enumeration)', f'unexpected {type(e).__name__}: {e}', traceback.format_exc())
    res = dict(states = ctx.states,
               outcomes = ctx.outcomes,
               transitions = ctx.transitions,
               traces = ctx.traces,
               samples = ctx.samples,
               violations = ctx.violations,
               capped = ctx.capped)
    tmp = out + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump(res, f)
    os.rename(tmp, out)
    os._exit(0)


def _scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 1 << 30:
            base = '/tmp'
    except OSError:
        base = '/tmp'
    return tempfile.mkdtemp(prefix = 'resqpy_mc_', dir = base)


def run_property(mod, tier, only_job = None, only_case = None, workers = None):
    """Runs every job; returns (results list, not-completed list, wall seconds)."""
    t0 = time.time()
    scratch = _scratch()
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = scratch
    os.chdir(scratch)
    try:
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter('ignore')
        jobs = list(mod.jobs(tier))
        names = [j[0] for j in jobs]
        assert len(set(names)) == len(names), 'duplicate job names'
        if only_job is not None:
            jobs = [j for j in jobs if j[0] == only_job]
        if hasattr(mod, 'warm'):
            saved = os.dup(1)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            try:
                mod.warm(tier)
            except Exception:
                pass  # whatever is broken will show itself in the cases
            finally:
                sys.stdout.flush()
                os.dup2(saved, 1)
                os.close(saved)
                os.close(null)
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        order = list(range(len(jobs)))
        if seed != 1:
            random.Random(seed).shuffle(order)
        workers = workers or min(8, os.cpu_count() or 8)
        soft = t0 + SOFT_DEADLINE
        hard = t0 + HARD_DEADLINE
        running = {}
        results, lost = [], []
        queue = [jobs[i] for i in order]
        n = 0
        while queue or running:
            while queue and len(running) < workers and time.time() < soft:
                job = queue.pop(0)
                n += 1
                out = os.path.join(scratch, f'out{n}')
                prog = os.path.join(scratch, f'prog{n}')
                wdir = os.path.join(scratch, f'w{n}')
                os.mkdir(wdir)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    tempfile.tempdir = wdir
                    os.environ['TMPDIR'] = wdir
                    os.chdir(wdir)
                    try:
                        _child(mod, job, tier, only_case, out, prog, soft + 60)
                    finally:
                        os._exit(3)
                running[pid] = (job, out, prog, wdir)
            if queue and not running and time.time() >= soft:
                lost += [(j[0], 'not started: time cap') for j in queue]
                queue = []
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (job, out, prog, wdir) in list(running.items()):
                    try:
                        stuck = now - os.path.getmtime(prog) > CASE_TIMEOUT + 20
                    except OSError:
                        stuck = False
                    if stuck and not os.path.exists(out):
                        # only a native loop gets here: the alarm interrupts anything else
                        with open(prog) as f:
                            key = f.read()
                        _kill(p)
                        results.append((job[0], _dead(job, key, 'no answer (native code did not return)')))
                        del running[p]
                    elif now > hard:
                        _kill(p)
                        lost.append((job[0], 'ended at the time cap'))
                        del running[p]
                time.sleep(0.004)
                continue
            if pid not in running:
                continue
            job, out, prog, wdir = running.pop(pid)
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    results.append((job[0], pickle.load(f)))
                os.unlink(out)
            else:
                key = '(start)'
                if os.path.exists(prog):
                    with open(prog) as f:
                        key = f.read()
                results.append((job[0], _dead(job, key, f'the process died (wait status {status})')))
            shutil.rmtree(wdir, ignore_errors = True)
        return results, lost, time.time() - t0
    finally:
        os.chdir(old_cwd)
        tempfile.tempdir = old_tmp
        shutil.rmtree(scratch, ignore_errors = True)


def _dead(job, key, what):
    return dict(states = set(),
                outcomes = set(),
                transitions = 0,
                traces = 1,
                samples = [],
                violations = [{
                    'job': job[0],
                    'case': key,
                    'what': what,
                    'trace': ''
                }],
                capped = None)


def _kill(pid):
    with contextlib.suppress(OSError):
        os.kill(pid, signal.SIGKILL)
    with contextlib.suppress(OSError):
        os.waitpid(pid, 0)


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f).get('findings', [])
    except OSError:
        return []


def main(mod, tier):
    known = [k for k in load_known() if k['property'] == mod.ID]
    os.makedirs(REPLAYS, exist_ok = True)
    results, lost, wall = run_property(mod, tier)
    states, outcomes = set(), set()
    transitions = traces = 0
    samples, viols, capped = [], [], []
    per_job = {}
    for name, r in sorted(results, key = lambda x: x[0]):
        states |= r['states']
        outcomes |= r['outcomes']
        transitions += r['transitions']
        traces += r['traces']
        if len(samples) < 24:
            samples += r['samples'][:1]
        viols += r['violations']
        if r['capped']:
            capped.append(f'{name}: {r["capped"]}')
        fam = name.split(':')[0]
        pj = per_job.setdefault(fam, [0, 0, 0])
        pj[0] += 1
        pj[1] += r['traces']
        pj[2] += r['transitions']
    capped += [f'{j}: {why}' for j, why in lost]
    hit_known, new = {}, []
    for v in viols:
        for i, k in enumerate(known):
            if k['job'] == v['job'] and k['case'] == v['case'] and k['match'] in v['what']:
                hit_known.setdefault(i, v)
                break
        else:
            new.append(v)
    for f in os.listdir(REPLAYS):
        if f.startswith(mod.ID + '_'):
            os.unlink(os.path.join(REPLAYS, f))
    nth = {}
    for v in new:  # one violation of each job first
        v['_n'] = nth[v['job']] = nth.get(v['job'], 0) + 1
    new.sort(key = lambda v: v.pop('_n'))
    for i in sorted(hit_known):
        print(f'KNOWN-FINDING: property={mod.ID} {known[i]["what"]}')
    for i, v in enumerate(new[:int(os.environ.get('VERIF_SHOW', '6'))]):
        path = os.path.join(REPLAYS, f'{mod.ID}_{i}.json')
        with open(path, 'w') as f:
            json.dump(dict(property = mod.ID, tier = tier, **v), f, indent = 1)
        print(f'VIOLATION property={mod.ID} replay={os.path.relpath(path, VERIF)}')
        print('   job :', v['job'])
        print('   case:', v['case'][:300])
        print('   what:', v['what'][:400])
    ev = dict(property = mod.ID,
              tier = tier,
              seed = int(os.environ.get('VERIF_SEED', '1') or 1),
              level = 'model_checking',
              coverage = dict(states = len(states),
                              transitions = transitions,
                              traces_validated_against_impl = traces,
                              distinct_observed_outcomes = len(outcomes),
                              exhaustive = not capped and not new,
                              bounds = mod.BOUNDS.get(tier, mod.BOUNDS['quick']),
                              job_families = {
                                  k: dict(jobs = a, cases = b, transitions = c) for k, (a, b, c) in per_job.items()
                              },
                              caps_hit = capped[:20],
                              samples = samples or [{'note': 'no case completed'}]),
              assumptions = list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s = round(wall, 2),
              violations = len(new))
    os.makedirs(EVIDENCE, exist_ok = True)
    tmp = os.path.join(EVIDENCE, f'.{mod.ID}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent = 1, default = str)
    os.replace(tmp, os.path.join(EVIDENCE, f'{mod.ID}.json'))
    print(f'{mod.ID} {tier}: states={len(states)} transitions={transitions} traces={traces} '
          f'outcomes={len(outcomes)} jobs={len(results)} violations={len(new)} known={len(hit_known)} '
          f'caps={len(capped)} wall={wall:.1f}s')
    for c in capped[:5]:
        print('   cap:', c)
    return 1 if new else 0


def replay(mod, rec):
    """Re-runs a recorded case; when it passes on its own, re-runs the job that contained it."""
    for case in (rec['case'], None):
        results, lost, wall = run_property(mod, rec['tier'], only_job = rec['job'], only_case = case, workers = 1)
        vs = [v for _, r in results for v in r['violations']]
        if vs:
            v = vs[0]
            print(f'reproduced ({"single case" if case is not None else "whole job"}): {v["job"]} / {v["case"][:600]}')
            print(v['what'])
            print(v['trace'])
            return 1
    print('not reproduced')
    return 0
