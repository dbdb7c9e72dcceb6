#!/usr/bin/env python3
"""seed.py SPEC.py : make and confirm planted bugs in a scratch copy.

SPEC defines BUGS: {id: dict(property, file, edits=[(old, new)...], needs, breaks, demo)}.
demo is a Python program (exit status non-zero when the property is broken)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venvpp/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; uses what build.sh made
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="${TREE:-/opt/vp/py3/tree}" exec /opt/venvpp/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for bid, b in ns['BUGS'].items():
        if only and bid not in only:
            continue
        work = tempfile.mkdtemp(prefix='seed_')
        try:
            repo, tree, clean = work + '/repo', work + '/tree', work + '/clean'
            sh(['git', 'clone', '-q', '/repo', repo])
            sh(['/usr/bin/python3', '/opt/vp/py3/translate.py', repo, clean])
            for f, old, new in b['edits']:
                p = os.path.join(repo, 'tracer', f)
                s = open(p).read()
                assert s.count(old) == 1, (bid, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', '-C', repo, 'diff']).stdout
            r = sh(['/usr/bin/python3', '/opt/vp/py3/translate.py', repo, tree])
            if r.returncode:
                print(bid, 'TRANSLATE', r.stdout[-500:], r.stderr[-500:]); continue
            d = os.path.join(HERE, 'seeded', bid)
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(b['demo'].lstrip())
            open(d + '/demo.sh', 'w').write(SH)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            a1 = sh(['bash', d + '/demo.sh'], env=dict(ENV, TREE=clean), cwd=repo)
            a2 = sh(['bash', d + '/demo.sh'], env=dict(ENV, TREE=tree), cwd=repo)
            t = sh([PY, '-m', 'pytest', '-p', 'seed_random', '-q', '-p', 'no:cacheprovider', '-c', '/dev/null', '--rootdir=' + tree,
                    '--continue-on-collection-errors', '--ignore=tests/test_assembly_tree.py', '-o', 'junit_family=xunit2',
                    '--junitxml=' + work + '/j.xml', 'tests'], env=dict(ENV, PYTHONPATH=tree + ':/opt/vp/py3/plugin'), cwd=tree)
            sh(['/usr/bin/python3', '/opt/vp/results.py', work + '/o.json', 'junit:' + work + '/j.xml'])
            passed = set(json.load(open(work + '/o.json'))['passed'])
            lost = sorted(stable - passed)
            ok = a1.returncode == 0 and a2.returncode != 0 and not lost
            print('%-28s %s demo clean=%d patched=%d %s lost=%s' % (
                bid, 'OK ' if ok else 'BAD', a1.returncode, a2.returncode, (a2.stdout + a2.stderr).strip()[-110:].replace('\n', ' | '), lost[:4]))
            if a1.returncode:
                print(a1.stderr[-800:])
            if not ok:
                shutil.rmtree(d)
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
