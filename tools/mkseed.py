"""Makes /verif/seeded/<id> from the entries of tools/seeds.py after confirming each in a scratch copy of /repo:
the demonstration passes without the change and fails with it, and the stable tests still pass with it.
usage: mkseed.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import seeds

SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
PRE = '''import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''


def main():
    only = sys.argv[1:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in seeds.SEEDS:
        if only and s['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        try:
            repo = os.path.join(tmp, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', repo])
            demo = os.path.join(tmp, 'demo')
            os.mkdir(demo)
            open(os.path.join(demo, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
            open(os.path.join(demo, 'demo.py'), 'w').write(PRE + s['demo'])
            run = lambda: subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=250)
            r = run()
            if r.returncode != 0:
                print(s['id'], 'DEMO FAILS ON THE UNCHANGED TREE', r.stderr[-800:])
                continue
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                text = open(p).read()
                if text.count(old) != 1:
                    print(s['id'], 'edit matches %d times' % text.count(old), old)
                    break
                open(p, 'w').write(text.replace(old, new))
            else:
                r = run()
                if r.returncode == 0:
                    print(s['id'], 'DEMO PASSES WITH THE CHANGE')
                    continue
                diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
                # Tests, on the changed copy put in place of /repo for the run
                out = os.path.join(tmp, 'tests.json')
                patch = os.path.join(tmp, 'p.diff')
                open(patch, 'w').write(diff)
                subprocess.check_call(['git', '-C', '/repo', 'apply', patch])
                try:
                    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
                    subprocess.run(['bash', '/opt/vp/test.sh', out], capture_output=True, text=True)
                finally:
                    subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
                res = json.load(open(out))
                missing = stable - set(res['passed'])
                if b.returncode or missing:
                    print(s['id'], 'TESTS FAIL', b.stderr[-300:], sorted(missing)[:5])
                    continue
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(demo, d)
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                print(s['id'], 'ok:', (r.stderr.strip().splitlines() or ['?'])[-1][:150])
        finally:
            shutil.rmtree(tmp)


main()
