"""plant(id, prop, needs, breaks, edits=[(file, old, new)...], demo=python text)  -> /verif/seeded/<id>/ after confirmation"""
import os, subprocess, json, shutil, tempfile, sys, re
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONIOENCODING='utf-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
ENV.pop('PYTHONPATH', None)
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def plant(id, prop, needs, breaks, edits, demo, tests=True):
    wt = tempfile.mkdtemp(prefix='plant-'); os.rmdir(wt)
    sh('cp -a /repo %s' % wt)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, 'metaknowledge', f); s = open(p, encoding='utf-8').read()
            if s.count(old) != 1: print(id, 'EDIT NOT UNIQUE', f, s.count(old), repr(old[:60])); return False
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.run('git diff', shell=True, cwd=wt, stdout=subprocess.PIPE).stdout
        d = os.path.join('/verif/seeded', id); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w', encoding='utf-8').write(demo.strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd at the repository: 0 when the property holds, nonzero when it is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        # original lines?
        orig = True
        for f in {e[0] for e in edits}:
            h = subprocess.run('git diff -U0 -- metaknowledge/' + f, shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', h, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    b = subprocess.run('git blame -l -L %d,%d HEAD -- metaknowledge/%s' % (a, a + n - 1, f), shell=True, cwd='/repo', stdout=subprocess.PIPE, text=True).stdout
                    for line in b.splitlines():
                        hsh = line.split()[0].lstrip('^')
                        if sh('git merge-base --is-ancestor %s fc0533d' % hsh, cwd='/repo').returncode: orig = False; print('   not original:', line[:160])
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        lost = '?'
        if tests:
            sh('rm -f %s/metaknowledge/tests/tests.*.mk*DirCache' % wt)
            sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --tb=short -W ignore -o junit_family=xunit2 --junitxml=%s/junit.xml metaknowledge/tests' % wt, cwd=wt, env=ENV)
            sh('python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (wt, wt))
            o = json.load(open(wt + '/out.json')); bl = json.load(open('/opt/vp/BASELINE.json'))
            p = set(o.get('passed') or o.get('pass') or [])
            lost = [t for t in bl['stable'] if t not in p]
        ok = a.returncode == 0 and b.returncode != 0 and lost in ([], '?') and orig
        print(id, 'OK' if ok else 'BAD', 'clean rc', a.returncode, 'patched rc', b.returncode, 'lost', lost, 'orig', orig)
        if a.returncode: print(a.stdout[-800:])
        if not ok and b.returncode == 0: print('   patched demo passes')
        if b.returncode and 'Assert' not in b.stdout: print('   patched output:', b.stdout[-500:])
        if not ok: shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(wt, ignore_errors=True)
