"""Planted bugs: seed.py confirm ID...   (scratch copies under /tmp; never touches /repo)

For each ID: applies the patch to a scratch copy of /repo, runs the repository's tests, the demonstration with and without
the patch, and the check of its property against the patched copy."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def mk(id, prop, edits, demo, needs, breaks):
    """Makes a seeded bug folder from (file, old, new) replacements."""
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok = True)
    tmp = f'/tmp/mk_{id}'
    shutil.rmtree(tmp, ignore_errors = True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '--detach', '-q', tmp, 'HEAD'])
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', tmp, 'diff'])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property = prop, needs = needs, what_it_breaks = breaks), open(os.path.join(d, 'meta.json'), 'w'),
              indent = 1)


def confirm(id, tests = True, check = True, tier = 'quick'):
    d = os.path.join(HERE, 'seeded', id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = f'/tmp/sd_{id}'
    shutil.rmtree(tmp, ignore_errors = True)
    subprocess.check_call(['cp', '-a', '/repo', tmp])
    res = {}
    try:
        subprocess.check_call(['git', '-C', tmp, 'checkout', '-q', '--', '.'])
        subprocess.check_call(['git', '-C', tmp, 'apply', os.path.join(d, 'patch.diff')])
        env = dict(os.environ, PYTHONPATH = tmp, PYTHONDONTWRITEBYTECODE = '1', OMP_NUM_THREADS = '1',
                   NUMBA_NUM_THREADS = '2', PYTHONHASHSEED = '0')
        a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd = '/repo', stdout = subprocess.DEVNULL,
                           stderr = subprocess.DEVNULL, timeout = 300).returncode
        b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd = tmp, env = env, stdout = subprocess.DEVNULL,
                           stderr = subprocess.PIPE, timeout = 300)
        res['demo'] = f'clean={a} patched={b.returncode} {b.stderr.decode()[-100:].strip()!r}'
        ok = a == 0 and b.returncode != 0
        if check:
            c = subprocess.run(['./run.sh', meta['property'], tier], cwd = HERE, env = env, stdout = subprocess.PIPE,
                               stderr = subprocess.STDOUT)
            res['check'] = 'CAUGHT' if c.returncode == 1 and b'VIOLATION property=' in c.stdout else f'MISSED rc={c.returncode}'
            res['out'] = c.stdout.decode()[:700]
        if tests:
            base = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300']
            t = subprocess.run(base + ['-n', '8', '--dist', 'loadfile', '--ignore=tests/unit_tests/multiprocessing', 'tests'],
                               cwd = tmp, env = env, stdout = subprocess.PIPE, stderr = subprocess.STDOUT)
            t2 = subprocess.run(base + ['tests/unit_tests/multiprocessing'], cwd = tmp, env = env, stdout = subprocess.PIPE,
                                stderr = subprocess.STDOUT)
            res['tests'] = t.stdout.decode().strip().split('\n')[-1] + ' | ' + t2.stdout.decode().strip().split('\n')[-1]
            res['failed'] = [x[:150] for x in (t.stdout + t2.stdout).decode().split('\n') if x.startswith('FAILED')]
            ok = ok and t.returncode == 0 and t2.returncode == 0
        res['valid'] = ok
    finally:
        shutil.rmtree(tmp, ignore_errors = True)
    print(id, meta['property'], json.dumps(res, indent = 1), flush = True)


if __name__ == '__main__':
    args = sys.argv[1:]
    cmd = args.pop(0)
    if cmd == 'confirm':
        tests = '--notests' not in args
        check = '--nocheck' not in args
        for a in args:
            if not a.startswith('--'):
                confirm(a, tests, check)
