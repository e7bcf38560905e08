"""Plants a bug: python3 tools/plant.py SPEC.py [--tests]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO
(python source; must exit non-zero when the property is broken) and optionally
TESTS (test files deciding an exchange-only change; default all).
Writes seeded/ID after confirming the demonstration in a scratch copy.
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
scratch = '/tmp/plant-' + ID
shutil.rmtree(scratch, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', scratch])
out = os.path.join(VERIF, 'seeded', ID)
os.makedirs(out, exist_ok=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', PYTHONHASHSEED='0', TZ='UTC')
try:
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(spec['DEMO'].lstrip('\n'))
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0 TZ=UTC\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')

    def demo():
        return subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=scratch, env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=300)
    p = demo()
    assert p.returncode == 0, 'demo fails on the unchanged tree:\n' + p.stdout.decode()
    for fn, old, new in spec['EDITS']:
        path = os.path.join(scratch, fn)
        s = open(path).read()
        assert s.count(old) == 1, '%s: %d occurrences of %r' % (fn, s.count(old), old)
        open(path, 'w').write(s.replace(old, new))
    p = demo()
    assert p.returncode != 0, 'demo passes with the change'
    print(p.stdout.decode()[-400:])
    diff = subprocess.check_output(['git', 'diff'], cwd=scratch)
    with open(os.path.join(out, 'patch.diff'), 'wb') as f:
        f.write(diff)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, f, indent=1)
        f.write('\n')
    if '--tests' in sys.argv:
        base = json.load(open('/opt/vp/BASELINE.json'))
        xml = scratch + '/junit.xml'
        tests = spec.get('TESTS') or ['tests']
        e = dict(env, PYTHONPATH=scratch)
        q = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--dist', 'loadscope',
                            '-o', 'junit_family=xunit2', '--junitxml=' + xml] + tests, cwd=scratch, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        bad = []
        for tc in ET.parse(xml).getroot().iter('testcase'):
            if tc.find('failure') is not None or tc.find('error') is not None:
                bad.append('%s::%s' % (tc.get('classname'), tc.get('name')))
        print(ID, 'tests:', q.stdout.decode().strip().split('\n')[-1], bad[:10])
        if bad:
            print('REJECTED', ID)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
