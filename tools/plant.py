#!/usr/bin/env python3
"""Developer tool: validates planted bugs (seeded/<id>) against /repo and shows which checks catch them.
usage: plant.py new ID PROPERTY 'needs' 'what it breaks'   (takes /repo's uncommitted diff; demo.sh must exist already or be written after)
       plant.py try ID [--no-tests] [--checks C01,C02]     (applies, builds, tests, runs demo and the checks, reverts)"""
import json, os, subprocess, sys
V = '/verif'; R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def clean():
    return sh('git -C /repo status --porcelain').stdout.strip() == ''


def tests():
    r = sh('bash %s/run_tests.sh' % V)
    return r.returncode == 0, r.stdout.strip()[-300:]


def main():
    cmd, ID = sys.argv[1:3]
    d = '%s/seeded/%s' % (V, ID)
    if cmd == 'new':
        os.makedirs(d, exist_ok=True)
        diff = sh('git -C /repo diff').stdout
        assert diff.strip()
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': sys.argv[3], 'needs': sys.argv[4], 'what_it_breaks': sys.argv[5]}, open(d + '/meta.json', 'w'), indent=1)
        sh('git -C /repo checkout -- .')
        print('saved', d)
        return
    assert clean(), '/repo not clean'
    meta = json.load(open(d + '/meta.json'))
    checks = [meta['property']]
    if '--checks' in sys.argv:
        checks = sys.argv[sys.argv.index('--checks') + 1].split(',')
    res = {}
    bd = sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=R)
    res['demo_clean'] = r.returncode
    if r.returncode:
        print('DEMO FAILS ON CLEAN TREE', r.stdout[-800:]); return
    a = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        assert a.returncode == 0, a.stdout
        if '--no-tests' in sys.argv:
            b = sh('bash /opt/vp/build.sh'); res['build'] = b.returncode
        else:
            res['tests'] = tests()
        r = sh('bash %s/demo.sh' % d, cwd=R)
        res['demo_patched'] = r.returncode
        for c in checks:
            r = sh('python3 check.py ' + c, cwd=V)
            res['check ' + c] = (r.returncode, 'VIOLATION property=' + c in r.stdout)
            print(r.stdout[:600])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    ok = res.get('demo_patched') and res.get('tests', (True,))[0]
    print(ID, 'VALID' if ok else 'INVALID', 'CAUGHT' if all(res['check ' + c] == (1, True) for c in checks) else 'MISSED', res)


main()
