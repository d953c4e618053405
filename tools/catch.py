"""catch.py [--no-proof|--no-rt] [ids]: runs the checks against the planted changes, each in a scratch copy of /repo"""
import json, os, shutil, subprocess, sys, tempfile, time
SEED = '/verif/seeded'
flags = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(SEED))
for i in ids:
    meta = json.load(open(os.path.join(SEED, i, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='catch')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', 'apply', os.path.join(SEED, i, 'patch.diff')], cwd=repo, check=True)
        t = time.time()
        p = subprocess.run(['python3-vt', '/verif/check.py', meta['property']] + flags, env=dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1'), cwd='/verif', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        n = [l for l in p.stdout.splitlines() if 'obligations' in l]
        print('%-28s %s rc=%d %.0fs %s | %s' % (i, meta['property'], p.returncode, time.time() - t, 'CAUGHT' if v and p.returncode == 1 else 'MISSED', (v or [''])[0][-90:]), (n or [''])[0][:110], flush=True)
    finally:
        shutil.rmtree(tmp)
