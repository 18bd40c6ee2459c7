"""usage: mkbug.py SPEC.py ...   builds seeded/<id>/ from a spec (ID, PROPERTY, EDITS=[(file,old,new)], DEMO, NEEDS, BREAKS), confirms in a scratch copy that the demonstration
passes without and fails with the change, and prints whether the check of the property (run against the scratch copy) reports it"""
import sys, os, subprocess, json, shutil, re, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'ed7868a'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(path, check=True):
    s = {}
    exec(open(path).read(), s)
    d = os.path.join(V, 'seeded', s['ID']); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkbug_')
    try:
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % r)
        for f, old, new in s['EDITS']:
            p = os.path.join(r, f); t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % r).stdout
        assert diff
        # changed lines must come from the original repository
        for f, old, new in s['EDITS']:
            for l in sh('git -C %s diff -U0 -- %s' % (r, f)).stdout.splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m and m.group(2) != '0':
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    b = sh('git -C /repo blame -s -L %d,%d HEAD -- %s' % (a, a + n - 1, f)).stdout
                    for bl in b.splitlines():
                        if not sh('git -C /repo merge-base --is-ancestor %s %s' % (bl.split()[0].lstrip('^'), BASE)).returncode == 0: print('   NOT ORIGINAL:', bl)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=2 PYTHONWARNINGS=ignore\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=r)
        ok = a.returncode == 0 and b.returncode != 0
        print(s['ID'], s['PROPERTY'], 'demo', 'OK' if ok else 'BAD', a.returncode, b.returncode, (a.stderr[-300:] if a.returncode else ''), (b.stderr[-200:].strip().splitlines() or [''])[-1])
        if check and ok:
            for P in [s['PROPERTY']] + s.get('ALSO', []):
                c = sh('VK_REPO=%s %s/run.sh %s' % (r, V, P))
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                print('   check', P, 'exit', c.returncode, len(v), 'violations', '(noinput)' if v and all('no-failing' in x for x in v) else '', '' if v else c.stdout[-300:] + c.stderr[-300:])
    finally:
        shutil.rmtree(tmp)
if __name__ == '__main__':
    for p in sys.argv[1:]: main(p, os.environ.get('NOCHECK') is None)
