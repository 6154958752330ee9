"""developer tool: run checks on mutated scratch copies of /repo.
usage: mut.py FILE [filter]   where FILE lists  (checks, kind, path, old, new)  ; kind 'bug' or 'ok'"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(m):
	n, (checks, kind, path, old, new) = m
	d = tempfile.mkdtemp(prefix='mut')
	try:
		shutil.copytree(os.environ.get('MUT_SRC', '/repo') + '/numga', d + '/r/numga', ignore=shutil.ignore_patterns('__pycache__', 'tests', 'test'))
		shutil.copytree(V, d + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
		edits = [(path, old, new)] if isinstance(path, str) else [(p, o, w) for p, o, w in zip(path, old, new)]
		for p, o, w in edits:
			f = f'{d}/r/numga/{p}'
			s = open(f).read()
			if s.count(o) < 1:
				return n, m[1], 'NO MATCH', ''
			open(f, 'w').write(s.replace(o, w, 1))
		res = []
		for c in checks.split():
			try:
				r = subprocess.run(['/usr/bin/python3', 'check.py', c], cwd=d + '/v', env=dict(os.environ, VERIF_REPO=d + '/r'), capture_output=True, text=True, timeout=240)
			except subprocess.TimeoutExpired:
				res.append((c, 'TIMEOUT', '', ''))
				continue
			lines = [l for l in r.stdout.splitlines() if 'violated:' in l]
			und = [l for l in r.stdout.splitlines() if 'undecided:' in l]
			res.append((c, r.returncode, (lines or und or r.stderr.splitlines()[-2:] or [''])[0][:230], r.stdout.splitlines()[0] if r.stdout else ''))
		bad = (kind == 'bug') != any(r[1] == 1 for r in res) or any(r[1] not in (0, 1) for r in res)
		return n, m[1], ('MISS ' if kind == 'bug' else 'FALSE ALARM ') if bad else 'ok ', res
	finally:
		shutil.rmtree(d)
ms = [(i, m) for i, m in enumerate(ns['M']) if (str(i) in flt[1:].split(',') if flt.startswith('#') else flt in str(m))]
with ThreadPoolExecutor(8) as ex:
	for n, m, s, res in ex.map(one, ms):
		print(n, s, m[1], m[0], repr(m[4])[:90])
		for r in res:
			print('      ', *r)
