"""Plant a bug in a scratch copy of /repo, confirm it, and keep it under seeded/<id>/.

A definition file calls bug(id, prop, edits=[(file, old, new)], demo=..., needs=..., breaks=...).
Usage: python3 tools/bug.py DEFS.py [ID ...]      plant the definitions
       python3 tools/bug.py --check [ID ...]      run the property's check against the kept bugs
       python3 tools/bug.py --verify [ID ...]     build, tests and demo of the kept bugs once more
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, TZ='UTC', LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository: 0 if the property holds, 1 if the demonstration shows it broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
for py in /opt/venv/bin/python python3; do command -v "$py" >/dev/null && break; done
exec timeout 120 "$py" "$here/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), capture_output=True, text=True)


def copy(name):
    d = f'/tmp/b/{name}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


def stable(d):
    """Names of the stable tests that do not pass in the copy d."""
    with tempfile.TemporaryDirectory() as w:
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=300',
            '--continue-on-collection-errors', '--doctest-glob=README.md', '-o', 'junit_family=xunit2',
            f'--junitxml={w}/r.xml', '--ignore=tests/test_performance.py', 'tests', 'README.md'], d,
           PYTHONPATH=d, PYTHONPYCACHEPREFIX=w + '/pyc')
        sh([PY, '/opt/vp/results.py', f'{w}/o.json', f'junit:{w}/r.xml'], d)
        o = json.load(open(f'{w}/o.json'))
    passed = o['passed']
    return sorted(STABLE - set(passed))


def own_lines(d):
    """The removed lines of the patch in the copy d that commits after the first one added, and how many are original."""
    own, orig = [], 0
    first = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], '/repo').stdout.split()[0]
    for f in sh(['git', 'diff', '--name-only'], d).stdout.split():
        blame = sh(['git', 'blame', '-l', 'HEAD', '--', f], d).stdout.splitlines()
        for line in sh(['git', 'diff', '-U0', '--', f], d).stdout.splitlines():
            if line.startswith('@@'):
                at = line.split()[1][1:].split(',')
                start, n = int(at[0]), int(at[1]) if len(at) > 1 else 1
                for b in blame[start - 1:start - 1 + n] if n else []:
                    if b.lstrip('^')[:30] == first[:30]:
                        orig += 1
                    else:
                        own.append(b.split(') ', 1)[-1].strip())
    return own, orig


def confirm(ident, d):
    """'' or what is wrong with the bug in the copy d."""
    own, orig = own_lines(d)
    if own or not orig:
        return f'touches {len(own)} lines added later, {orig} original ones: {own[:4]}'
    p = sh([PY, '-m', 'compileall', '-q', '-f', 'jsons'], d, PYTHONPYCACHEPREFIX='/tmp/b/pyc-' + ident)
    if p.returncode:
        return 'does not compile: ' + p.stdout
    miss = stable(d)
    if miss:
        return f'breaks {len(miss)} tests: {miss[:4]}'
    demo = os.path.join(SEEDED, ident, 'demo.sh')
    for n in range(3):
        p = sh(['bash', demo], '/repo')
        if p.returncode:
            return 'demo fails on the unchanged tree: ' + p.stdout + p.stderr
        p = sh(['bash', demo], d)
        if not p.returncode:
            return 'demo does not fail with the patch: ' + p.stdout + p.stderr
    return ''


def bug(ident, prop, edits, demo, needs, breaks):
    if WANT and ident not in WANT:
        return
    DEFS.append((ident, prop, edits, demo, needs, breaks))


def plant(ident, prop, edits, demo, needs, breaks):
    d = copy(ident)
    for f, old, new in edits:
        path = os.path.join(d, 'jsons', f)
        s = open(path).read()
        if s.count(old) != 1:
            return f'{f}: {s.count(old)} matches of {old!r}'
        open(path, 'w').write(s.replace(old, new))
    p = sh(['git', 'diff'], d)
    out = os.path.join(SEEDED, ident)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, 'patch.diff'), 'w').write(p.stdout)
    open(os.path.join(out, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    bad = confirm(ident, d)
    if bad:
        shutil.rmtree(os.path.join('/tmp/b', 'bad-' + ident), ignore_errors=True)
        shutil.move(out, '/tmp/b/bad-' + ident)
    return bad


def applied(ident):
    d = copy(ident)
    p = sh(['git', 'apply', os.path.join(SEEDED, ident, 'patch.diff')], d)
    return d, p.stderr


def main():
    global WANT, DEFS
    args = sys.argv[1:]
    DEFS = []
    if args[0] in ('--check', '--verify'):
        ids = args[1:] or sorted(os.listdir(SEEDED))

        def verify(i):
            d, bad = applied(i)
            bad = bad or confirm(i, d)
            shutil.rmtree(d, ignore_errors=True)
            return i, bad
        if args[0] == '--verify':
            with ThreadPoolExecutor(6) as ex:
                for i, bad in ex.map(verify, ids):
                    print(i, bad or 'ok', flush=True)
            return
        for i in ids:
            meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
            d, bad = applied(i)
            if bad:
                print(i, 'does not apply', bad)
                continue
            p = subprocess.run(['./check', meta['property'], '--no-minimise'], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, SIM_REPO=d, VERIF_SEED='1'))
            v = [x for x in p.stdout.splitlines() if x.startswith('seed ')]
            runs = p.stdout.strip().splitlines()[-1:] or ['']
            print(i, meta['property'], {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(p.returncode, '?'),
                  (v or [''])[0][:150], '|', runs[0].split(' (')[0], p.stderr[-300:] if p.returncode == 2 else '', flush=True)
            shutil.rmtree(d, ignore_errors=True)
        return
    WANT = args[1:]
    for line in [open(args[0]).read()]:
        exec(compile(line, args[0], 'exec'), {'bug': bug})
    with ThreadPoolExecutor(6) as ex:
        for (i, *_), bad in zip(DEFS, ex.map(lambda x: plant(*x), DEFS)):
            print(i, bad or 'planted', flush=True)


if __name__ == '__main__':
    main()
