"""developer tool: write and confirm planted bugs.
plant(id, prop, edits, demo, needs, breaks) writes seeded/<id>/ ; `seed.py confirm [ids]` confirms every entry in private
mount namespaces (a scratch copy of /repo mounted over /repo), without touching /repo itself."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python "$here/demo.py"
'''
def plant(id, prop, edits, demo, needs, breaks):
	d = f'{S}/{id}'
	t = tempfile.mkdtemp(prefix='plant')
	try:
		subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
		for p, o, w in edits:
			f = f'{t}/r/{p}'
			s = open(f).read()
			assert s.count(o) == 1, (id, p, o, s.count(o))
			open(f, 'w').write(s.replace(o, w))
		for p, o, w in edits:
			old = subprocess.run(['git', 'show', f'd77c332:{p}'], cwd='/repo', capture_output=True, text=True).stdout.splitlines()
			gone = [l for l in o.splitlines() if l not in w.splitlines()]
			if not all(any(l in x for x in old) for l in gone):
				print('NOT ORIGINAL', id, gone)
		diff = subprocess.run(['git', 'diff'], cwd=t + '/r', capture_output=True, text=True).stdout
		os.makedirs(d, exist_ok=True)
		open(d + '/patch.diff', 'w').write(diff)
		open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
		open(d + '/demo.sh', 'w').write(DEMO)
		os.chmod(d + '/demo.sh', 0o755)
		json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
	finally:
		shutil.rmtree(t)

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def confirm(id):
	d = f'{S}/{id}'
	t = tempfile.mkdtemp(prefix='seed')
	try:
		shutil.copytree('/repo', t + '/r', symlinks=True)
		shutil.copytree(d, t + '/demo')
		os.makedirs(t + '/c')
		def ns(cmd, timeout=600):
			return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {t}/r /repo && mount --bind {t}/c /opt/vp-cache && cd /repo && {cmd}'], capture_output=True, text=True, timeout=timeout)
		r0 = ns(f'bash {t}/demo/demo.sh')
		a = ns(f'git -c safe.directory=/repo apply {d}/patch.diff')
		b = ns('bash /opt/vp/build.sh')
		r1 = ns(f'bash {t}/demo/demo.sh')
		ns(f'bash /opt/vp/test.sh {t}/out.json')
		passed = set(json.load(open(t + '/out.json'))['passed'])
		lost = sorted(STABLE - passed)
		prop = json.load(open(d + '/meta.json'))['property']
		shutil.copytree(V, t + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
		c = subprocess.run(['/usr/bin/python3', 'check.py', prop], cwd=t + '/v', env=dict(os.environ, VERIF_REPO=t + '/r'), capture_output=True, text=True)
		ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and r1.returncode != 0 and not lost
		msg = ''
		if not ok:
			msg = f'demo0={r0.returncode} {r0.stderr[-300:]} apply={a.returncode} {a.stderr[-200:]} build={b.returncode} demo1={r1.returncode} lost={lost[:4]}'
		line = [l for l in c.stdout.splitlines() if 'violated:' in l or 'undecided:' in l][:1]
		return id, ok, f'{prop} exit {c.returncode}', msg, (line or [''])[0][:200]
	finally:
		shutil.rmtree(t)

if __name__ == '__main__':
	ids = sys.argv[2:] or sorted(os.listdir(S))
	with ThreadPoolExecutor(3) as ex:
		for r in ex.map(confirm, ids):
			print(*r, flush=True)
