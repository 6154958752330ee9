"""developer tool: systematic mutants of the package; which of them neither the checks nor the tests notice?
usage: automut.py N [SEED] [path filter] ; prints one line per mutant that no check reports and that passes the tests"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ORDER = {
	'algebra/description.py': 'C02 C01 C04', 'algebra/algebra.py': 'C01 C02 C05', 'subspace/subspace.py': 'C03 C04 C18', 'subspace/factory.py': 'C04 C03',
	'subspace/namespaces.py': 'C04', 'operator/operator.py': 'C08 C13', 'operator/factory.py': 'C06 C07 C05 C01', 'operator/abstract.py': 'C10 C11',
	'operator/sparse_tensor.py': 'C08 C10', 'multivector/multivector.py': 'C09 C17 C18', 'multivector/factory.py': 'C18 C16', 'context.py': 'C17 C15 C14',
	'multivector/factory.py': 'C20', 'multivector/extension/': 'C19 C14', 'backend/': 'C10 C11 C12 C13 C16', 'util.py': 'C01 C08', 'dispatch': 'C14', 'flyweight': 'C15 C03',
}
ALL = 'C20 C21 C22 C02 C12 C09 C17 C10 C07 C03 C08 C01 C05 C06 C04 C15 C11 C16 C19 C14 C18 C13'.split()
def order(p):
	o = []
	for k, v in ORDER.items():
		if k in p:
			o += [c for c in v.split() if c not in o]
	return o + [c for c in ALL if c not in o]
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitXor: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq, ast.LtE], ast.NotEq: [ast.Eq, ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}

def mutants(src):
	"""[(line, what, text)]"""
	tree = ast.parse(src)
	names = {}
	for c in ast.walk(tree):
		if isinstance(c, ast.ClassDef):
			for f in c.body:
				if isinstance(f, ast.FunctionDef):
					names.setdefault((len(f.args.args), bool(f.decorator_list)), []).append(f.name)
	skip = set()
	for f in ast.walk(tree):
		if isinstance(f, ast.FunctionDef) and f.name in ('__repr__', '__str__'):
			skip |= {id(x) for x in ast.walk(f)}
		if isinstance(f, ast.FunctionDef):
			for a in [f.args, f.returns, *f.args.args]:
				if a is not None and not isinstance(a, ast.arguments):
					skip |= {id(x) for x in ast.walk(a)}
		if isinstance(f, (ast.Raise, ast.Assert)) and not isinstance(f, ast.Assert):
			skip |= {id(x) for x in ast.walk(f)}
		if isinstance(f, ast.JoinedStr):
			skip |= {id(x) for x in ast.walk(f)}
		if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
			skip |= {id(x) for x in ast.walk(f)}
	nodes = list(ast.walk(tree))
	out = []
	def emit(i, what, fn):
		t = copy.deepcopy(tree)
		n = list(ast.walk(t))[i]
		r = fn(n, t)
		if r is False:
			return
		try:
			s = ast.unparse(ast.fix_missing_locations(t))
			compile(s, 'x', 'exec')
		except Exception:
			return
		out.append((getattr(nodes[i], 'lineno', 0), what, s))
	def setf(**k):
		def g(n, t):
			for a, b in k.items():
				setattr(n, a, b)
		return g
	for i, n in enumerate(nodes):
		if id(n) in skip:
			continue
		if isinstance(n, ast.BinOp) and type(n.op) in BIN:
			b = BIN[type(n.op)]
			emit(i, f'{type(n.op).__name__}->{b.__name__}: {ast.unparse(n)[:60]}', setf(op=b()))
		if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.LShift)):
			def g(x, t): x.left, x.right = x.right, x.left
			emit(i, f'swapped: {ast.unparse(n)[:60]}', g)
		if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
			for c in CMP[type(n.ops[0])]:
				emit(i, f'{type(n.ops[0]).__name__}->{c.__name__}: {ast.unparse(n)[:60]}', setf(ops=[c()]))
		if isinstance(n, ast.BoolOp):
			emit(i, f'and/or: {ast.unparse(n)[:60]}', setf(op=ast.Or() if isinstance(n.op, ast.And) else ast.And()))
			for k in range(len(n.values)):
				def g(x, t, k=k):
					del x.values[k]
					if len(x.values) == 1:
						x.values.append(copy.deepcopy(x.values[0]))
				emit(i, f'operand {k} dropped: {ast.unparse(n)[:60]}', g)
		if isinstance(n, ast.UnaryOp):
			def g(x, t): x.op = ast.UAdd() if isinstance(x.op, ast.USub) else ast.Not() if not isinstance(x.op, ast.Not) else x.op
			if isinstance(n.op, ast.USub):
				emit(i, f'minus dropped: {ast.unparse(n)[:60]}', g)
			if isinstance(n.op, ast.Not):
				def g(x, t): x.operand = ast.UnaryOp(ast.Not(), x.operand)
				emit(i, f'not dropped: {ast.unparse(n)[:60]}', g)
		if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
			for v in {n.value + 1, n.value - 1}:
				emit(i, f'{n.value}->{v}', setf(value=v))
		if isinstance(n, ast.Constant) and isinstance(n.value, bool):
			emit(i, f'{n.value}->{not n.value}', setf(value=not n.value))
		if isinstance(n, ast.Constant) and isinstance(n.value, float):
			emit(i, f'{n.value}->{n.value * 2}', setf(value=n.value * 2))
		if isinstance(n, (ast.If, ast.IfExp)):
			def g(x, t): x.test = ast.UnaryOp(ast.Not(), x.test)
			emit(i, f'if negated: {ast.unparse(n.test)[:60]}', g)
			emit(i, f'if always: {ast.unparse(n.test)[:60]}', setf(test=ast.Constant(True)))
			emit(i, f'if never: {ast.unparse(n.test)[:60]}', setf(test=ast.Constant(False)))
		if isinstance(n, ast.Call):
			for k in range(len(n.args) - 1):
				def g(x, t, k=k): x.args[k], x.args[k + 1] = x.args[k + 1], x.args[k]
				emit(i, f'args {k} swapped: {ast.unparse(n)[:60]}', g)
			for k in range(len(n.keywords)):
				def g(x, t, k=k): del x.keywords[k]
				emit(i, f'keyword {n.keywords[k].arg} dropped: {ast.unparse(n)[:60]}', g)
			if len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Call, ast.GeneratorExp, ast.ListComp)):
				pass
			if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call)) and n.func.attr in ('astype', 'copy', 'reverse', 'squeeze', 'dual', 'symmetry', 'fuse', 'conjugate', 'involute', 'sum', 'to_dense', 'flatten', 'complement'):
				pass
		if isinstance(n, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
			for k, v in names.items():
				if n.attr in v and len(v) > 1:
					w = v[(v.index(n.attr) + 1) % len(v)]
					if w != n.attr:
						emit(i, f'.{n.attr}->.{w}: {ast.unparse(n)[:60]}', setf(attr=w))
		for field in ('body', 'orelse'):
			b = getattr(n, field, None)
			if not isinstance(b, list):
				continue
			for k, s in enumerate(b):
				if id(s) in skip or isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Pass)):
					continue
				if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
					continue
				def g(x, t, k=k, field=field):
					getattr(x, field)[k] = ast.Pass()
				if isinstance(s, (ast.Expr, ast.AugAssign)) or isinstance(s, ast.Assign) and not isinstance(n, ast.Module) and any(isinstance(t, (ast.Subscript, ast.Attribute)) or isinstance(t, ast.Name) and sum(isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Store) for y in ast.walk(n)) > 1 for t in s.targets) or isinstance(s, ast.If):
					emit(i, f'dropped: {ast.unparse(s)[:60]!r}', g)
		if isinstance(n, ast.FunctionDef):
			for k, d in enumerate(n.decorator_list):
				if isinstance(d, ast.Name) and d.id in ('property', 'classmethod', 'staticmethod', 'abstractmethod', 'cached_property'):
					continue
				def g(x, t, k=k): del x.decorator_list[k]
				emit(i, f'decorator dropped: {ast.unparse(d)[:60]} of {n.name}', g)
	return out

def files():
	for d, ds, fs in os.walk(R + '/numga'):
		if any(x in d for x in ('/test', '/examples', '__pycache__')):
			continue
		for f in sorted(fs):
			if f.endswith('.py') and f not in ('optimized.py',):
				yield os.path.join(d, f)

SRC = {}
def clean_unparse(p):
	if p not in SRC:
		SRC[p] = ast.unparse(ast.parse(open(p).read()))
	return SRC[p]

ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
def tests_pass(d):
	try:
		r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--randomly-seed=1', '--randomly-dont-reorganize', '--timeout=300', '--continue-on-collection-errors', '--junitxml', d + '/junit.xml'], cwd=d + '/r', env=ENV, capture_output=True, text=True, timeout=900)
	except subprocess.TimeoutExpired:
		return 'TIMEOUT'
	return 'pass' if r.returncode == 0 else 'fail'

def one(m):
	n, p, line, what, text = m
	rel = p[len(R) + 7:]
	d = tempfile.mkdtemp(prefix='am')
	try:
		shutil.copytree(R, d + '/r', ignore=shutil.ignore_patterns('__pycache__', '.git'))
		shutil.copytree(V, d + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
		open(d + '/r/numga/' + rel, 'w').write(text)
		und = []
		for c in order(rel):
			try:
				r = subprocess.run(['/usr/bin/python3', 'check.py', c], cwd=d + '/v', env=dict(os.environ, VERIF_REPO=d + '/r'), capture_output=True, text=True, timeout=400)
			except subprocess.TimeoutExpired:
				und.append(c + ':TIMEOUT')
				continue
			if r.returncode == 1:
				return m, 'caught ' + c, und
			if r.returncode != 0:
				und.append(f'{c}:exit{r.returncode}')
			s = r.stdout.splitlines()[0] if r.stdout else ''
			import re
			u = re.search(r'(\d+) undecided', s)
			if u and int(u.group(1)) > {'C12': 1, 'C13': 2}.get(c, 0):
				und.append(f'{c}:u{u.group(1)}')
		return m, 'tests ' + tests_pass(d), und
	except Exception as e:
		return m, f'ERR {e}', []
	finally:
		shutil.rmtree(d)

if __name__ == '__main__':
	N = int(sys.argv[1])
	seed = int(sys.argv[2]) if len(sys.argv) > 2 else 0
	flt = sys.argv[3] if len(sys.argv) > 3 else ''
	ms = []
	for p in files():
		if flt in p:
			ms += [(p, *x) for x in mutants(open(p).read())]
	print(len(ms), 'mutants', flush=True)
	random.Random(seed).shuffle(ms)
	ms = [(i, *m) for i, m in enumerate(ms[:N])]
	stat = {}
	with ThreadPoolExecutor(int(os.environ.get('J', 7))) as ex:
		for m, s, und in ex.map(one, ms):
			stat[s] = stat.get(s, 0) + 1
			if not s.startswith('caught'):
				print(f'{s:12} {m[1][12:]}:{m[2]} {m[3]} {" ".join(und)}', flush=True)
	print(sorted(stat.items()))
