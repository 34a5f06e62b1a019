"""Make and judge planted bugs: seed.py BUGFILE [id ...]

BUGFILE defines BUGS: dicts with id, prop, edits [(file, old, new)], needs, breaks, demo (python source).
For each: a scratch copy of /repo is changed; the demo must pass on /repo and fail on the copy; the stable
tests must pass on the copy; then the property's check is run against the copy. A bug that satisfies all but
the last is kept under /verif/seeded, caught or not."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

PY = '/opt/venv/bin/python'
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def tests(copy):
    out = tempfile.mktemp()
    env = dict(os.environ, PIP_NO_INDEX='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=copy)
    ign = ['serialization_test.py', 'schedule_object_test.py', 'scheduler/material_scheduling_test.py',
           'scheduler/genetic/operators_test.py', 'scheduler/resources_in_time', 'scheduler/timeline/zone_timeline_test.py']
    subprocess.run([PY, '-m', 'pytest', 'tests/', '-q', '-p', 'no:cacheprovider', '-n', '8', '--dist', 'loadfile',
                    '--timeout=120', '--continue-on-collection-errors', '--disable-warnings', '-o', 'junit_family=xunit2',
                    '--junitxml=' + out + '.xml'] + ['--ignore=tests/' + i for i in ign],
                   cwd=copy, env=env, capture_output=True, timeout=900)
    sh(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + out + '.xml'])
    r = json.load(open(out))
    os.unlink(out), os.unlink(out + '.xml')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(r.get('passed') or [k for k, v in r.items() if v == 'passed'])
    return sorted(stable - passed)


def one(b, skip_tests=False, skip_check=False):
    res = {'id': b['id'], 'prop': b['prop']}
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        sh(['cp', '-a', '/repo/.', d])
        sh(['git', '-C', d, 'checkout', '-q', '--', '.'])
        for f, old, new in b['edits']:
            p = f'{d}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return dict(res, status=f'edit matches {s.count(old)} times in {f}')
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', d, 'diff']).stdout
        t = tempfile.mkdtemp(prefix='seedd.', dir='/tmp')
        open(t + '/demo.py', 'w').write(b['demo'])
        open(t + '/demo.sh', 'w').write(DEMO)
        os.chmod(t + '/demo.sh', 0o755)
        open(t + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(t + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', t + '/demo.sh'], cwd='/repo', timeout=300)
        r1 = sh(['bash', t + '/demo.sh'], cwd=d, timeout=300)
        if r0.returncode != 0 or r1.returncode == 0:
            shutil.rmtree(t)
            return dict(res, status=f'demo: clean {r0.returncode} patched {r1.returncode}',
                        out=(r0.stdout + r0.stderr)[-1500:])
        if 'AssertionError' not in r1.stderr:
            res['note'] = r1.stderr[-200:]
        if not skip_check:
            env = dict(os.environ, VT_REPO=d, VT_BUDGET='800', VERIF_SEED='1')
            c = sh(['./run.py', b['prop'], 'quick'], cwd='/verif', env=env, timeout=1000)
            v = re.findall(r'VIOLATION property=(\w+)', c.stdout)
            res['check'] = f'rc {c.returncode} {sorted(set(v))}'
            res['caught'] = c.returncode == 1 and b['prop'] in v
            if not res['caught']:
                res['tail'] = c.stdout[-300:]
        if not skip_tests:
            bad = tests(d)
            if bad:
                shutil.rmtree(t)
                return dict(res, status='tests fail', n=len(bad), out=bad[:3])
        shutil.rmtree(f'{SEED}/{b["id"]}', ignore_errors=True)
        shutil.copytree(t, f'{SEED}/{b["id"]}')
        shutil.rmtree(t)
        return dict(res, status='kept')
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    args = sys.argv[2:]
    skip = '--skip-tests' in args
    skip_check = '--skip-check' in args
    ids = [a for a in args if not a.startswith('-')]
    for b in bugs:
        if ids and b['id'] not in ids:
            continue
        print(json.dumps(one(b, skip, skip_check)), flush=True)
