"""plant.py ID PROPERTY FILE <<< JSON {"edits":[[file,old,new],...], "needs":..., "what_it_breaks":..., "demo": "python text"}
Creates /verif/seeded/ID after confirming, in a scratch copy, that the change
builds, passes the stable tests, and that the demonstration tells it apart."""
import json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def plant(d):
    wid = d['id']
    tmp = tempfile.mkdtemp(prefix='plant')
    repo = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in d['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit does not apply (%d matches): %s' % (s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        demo = os.path.join(tmp, 'demo')
        os.makedirs(demo)
        open(os.path.join(demo, 'demo.py'), 'w').write(d['demo'])
        open(os.path.join(demo, 'demo.sh'), 'w').write(DEMO_SH)
        a = sh('bash %s/demo.sh' % demo, '/repo')
        b = sh('bash %s/demo.sh' % demo, repo)
        if a.returncode != 0:
            return 'demo fails on the unchanged tree: ' + a.stdout[-800:]
        if b.returncode == 0:
            return 'demo passes with the change: ' + b.stdout[-400:]
        t = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --timeout=300 timeboard 2>&1 | tail -30', repo)
        if ' failed' in t.stdout or ' error' in t.stdout or ' passed' not in t.stdout:
            return 'tests: ' + t.stdout[-700:]
        out = os.path.join(SEED, wid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        shutil.copy(os.path.join(demo, 'demo.py'), out)
        shutil.copy(os.path.join(demo, 'demo.sh'), out)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['what']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return 'ok: ' + b.stdout.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp)

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for d in ns['BUGS']:
        if only and d['id'] not in only:
            continue
        if not only and os.path.exists(os.path.join(SEED, d['id'])):
            continue
        print(d['id'], plant(d), flush=True)
