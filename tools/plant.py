"""python3 tools/plant.py ID...: for each planted bug: applies it to /repo, builds, runs the stable tests, the demonstration and the checks of its
property (or those in CHECKS=F01,F02), undoes it, and runs the demonstration again. Development only; never run by a check."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('PLANT_REPO', '/repo')   # or a scratch copy of it
BUILD = 'bash /opt/vp/build.sh' if R == '/repo' else \
    'cd %s && find panels -name "*.so" -delete; find panels -name "*.pyx" | while read -r f; do rm -f "${f%%.pyx}.cpp" "${f%%.pyx}.c"; done; PATH=/usr/lib/ccache:$PATH CYTHON_FORCE_REGEN=1 /opt/venv/bin/python setup.py build_ext --inplace --force' % R
TEST = 'bash /opt/vp/test.sh /tmp/plant.json' if R == '/repo' else \
    'cd %s && MPLCONFIGDIR=/tmp/plant.mpl MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest tests -q ' \
    '-p no:cacheprovider -n 6 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/plant.xml; rm -f example_isotropic.png tmp_*.png; /usr/bin/python3 /opt/vp/results.py /tmp/plant.json junit:/tmp/plant.xml' % (R, R)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def stable():
    sh(TEST)
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    o = json.load(open('/tmp/plant.json'))
    return [t for t in b if t not in o['passed']]


def main():
    notest = 'NOTEST' in os.environ
    for i in sys.argv[1:]:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
        r = sh('git -C %s apply %s/patch.diff' % (R, d))
        out = []
        try:
            if r.returncode:
                print(i, 'DOES NOT APPLY', r.stdout)
                continue
            if not notest:
                b = sh(BUILD)
                out.append('build %d' % b.returncode)
                miss = stable()
                out.append('stable ok' if not miss else 'STABLE BROKEN %s' % miss)
                dm = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
                out.append('demo with patch: %d%s' % (dm.returncode, '' if dm.returncode else ' NOT SHOWN ' + dm.stdout[-300:]))
            for p in os.environ.get('CHECKS', meta['property']).split(','):
                t = time.time()
                c = sh('python3 check.py %s --tier quick --no-evidence' % p, cwd=V, env=dict(os.environ, PANELS_SIM_REPO=R))
                lines = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
                out.append('%s: %d %s (%.0f s)' % (p, c.returncode, 'CAUGHT' if c.returncode == 1 and lines else 'MISSED ' + c.stdout[-400:], time.time() - t))
                open('/tmp/pl/%s.%s.out' % (i, p), 'w').write(c.stdout)
        finally:
            sh('git -C %s checkout -- .' % R)
        if not notest:
            sh(BUILD)
            dm = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
            out.append('demo without: %d%s' % (dm.returncode, '' if not dm.returncode else ' BROKEN ' + dm.stdout[-400:]))
        print(i, '; '.join(out), flush=True)


main()
