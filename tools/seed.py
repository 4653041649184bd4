#!/opt/venv/bin/python
"""Writes /verif/seeded/<id>/ from the table in tools/seeds/*.py after confirming each bug in a scratch copy of /repo.

  seed.py confirm [ID..]   build patch, run the 52 tests with it, run the demo with and without it; write what is confirmed
  seed.py catch [ID..]     run the quick check of each seeded bug's property on a scratch copy with the patch
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    out = []
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        out += ns['SEEDS']
    return out


def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def edit(root, s):
    for f, old, new in s['edits']:
        p = os.path.join(root, f)
        t = open(p).read()
        assert t.count(old) == 1, '%s: %d matches of %r' % (s['id'], t.count(old), old[:60])
        open(p, 'w').write(t.replace(old, new))


def tests(root):
    e = dict(os.environ, PYTHONPATH='/opt/vp/plugins', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', 'pympc'], cwd=root, env=e,
                       capture_output=True, text=True, timeout=300)
    return r.returncode == 0, r.stdout[-600:]


DEMO = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$here/demo.py"\n'


def confirm(s):
    d = scratch()
    try:
        root = d + '/repo'
        work = d + '/s'
        os.makedirs(work)
        open(work + '/demo.py', 'w').write('import numpy as np\n' + s['demo'].strip() + '\n')
        open(work + '/demo.sh', 'w').write(DEMO)
        os.chmod(work + '/demo.sh', 0o755)
        r0 = subprocess.run(['bash', work + '/demo.sh'], cwd=root, capture_output=True, text=True, timeout=300)
        if r0.returncode:
            return s['id'], 'demo fails on the unchanged tree: ' + r0.stderr[-300:]
        edit(root, s)
        diff = subprocess.run(['git', 'diff'], cwd=root, capture_output=True, text=True).stdout
        ok, tail = tests(root)
        if not ok:
            return s['id'], 'tests notice: ' + tail[-300:]
        r1 = subprocess.run(['bash', work + '/demo.sh'], cwd=root, capture_output=True, text=True, timeout=300)
        if not r1.returncode:
            return s['id'], 'demo does not notice'
        out = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(work, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return s['id'], 'confirmed (%s)' % r1.stderr.strip().split('\n')[-1][:100]
    except Exception as e:
        return s['id'], 'error: %r' % e
    finally:
        shutil.rmtree(d)


def catch(s):
    d = scratch()
    try:
        root = d + '/repo'
        edit(root, s)
        e = dict(os.environ, VP_REPO=root, VP_EVIDENCE=d + '/ev')
        out = []
        for p in [s['property']] + s.get('also', []):
            r = subprocess.run([V + '/run.py', p, '--procs', '3'], cwd=V, env=e, capture_output=True, text=True, timeout=1500)
            what = next((l for l in r.stdout.split('\n') if l.startswith('  ')), r.stdout.strip().split('\n')[-1])
            out.append('%s %s %s' % (p, {0: 'MISSED', 1: 'CAUGHT'}.get(r.returncode, 'NO ANSWER'), what.strip()[:130]))
        return s['id'], '; '.join(out)
    except Exception as e:
        return s['id'], 'error: %r' % e
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ts = [s for s in table() if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    if sys.argv[1] == 'catch':
        ts = [s for s in ts if os.path.isdir(os.path.join(V, 'seeded', s['id']))]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(confirm if sys.argv[1] == 'confirm' else catch, ts):
            print(i, m, flush=True)
