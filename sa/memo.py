"""Dataflow lints for memoisation: what a memoised value depends on against what its key determines."""
import ast
import os

from .core import parse_file

SKIP_DIRS = {'test', 'tests', 'examples', '__pycache__', 'benchmarks'}
CACHE_DECOS = {'cache', 'lru_cache', 'cached_property', 'functools.cache', 'functools.lru_cache', 'functools.cached_property', 'util.cache', 'util.cached_property'}
LOSSY = {'len', 'type', 'sum', 'min', 'max', 'bool', 'callable', 'abs', 'isinstance', 'any', 'all'}
LOSSY_ATTR = {'shape', 'ndim', 'size', 'dtype', '__class__', '__name__', 'arity'}
WEAK = {'sorted', 'set', 'frozenset', 'str', 'repr', 'hash', 'id', 'int', 'float'}
INJ = {'tuple', 'list', 'bytes'}
ONESHOT = {'map', 'filter', 'zip', 'iter', 'reversed', 'enumerate'}
IMMUTABLE_OF = {'shape', 'ndim', 'dtype', 'size'}


def package(repo):
	root = os.path.join(repo, 'numga')
	for d, ds, fs in os.walk(root):
		ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
		for f in sorted(fs):
			if f.endswith('.py'):
				p = os.path.join(d, f)
				yield p, os.path.relpath(p, repo), parse_file(p)


def functions(tree):
	"""(qualified name, function node, enclosing class node or None, enclosing function nodes)"""
	def rec(node, qual, cls, outer):
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, ast.ClassDef):
				yield from rec(ch, qual + [ch.name], ch, outer)
			elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
				yield '.'.join(qual + [ch.name]), ch, cls, outer
				yield from rec(ch, qual + [ch.name], cls if not outer else cls, outer + [ch])
			else:
				yield from rec(ch, qual, cls, outer)
	yield from rec(tree, [], None, [])


def params(fn):
	a = fn.args
	out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
	if a.vararg:
		out.append(a.vararg.arg)
	if a.kwarg:
		out.append(a.kwarg.arg)
	return out


def deco_name(d):
	if isinstance(d, ast.Call):
		d = d.func
	return ast.unparse(d)


def memoised(fn):
	return any(deco_name(d) in CACHE_DECOS for d in fn.decorator_list)


def own_nodes(fn):
	"""nodes of the body, nested functions and lambdas included, decorators and defaults not"""
	for s in fn.body:
		yield from ast.walk(s)


def locals_of(fn):
	"""name -> list of expressions it may be bound to"""
	out = {}
	def bind(t, v):
		if isinstance(t, ast.Name):
			out.setdefault(t.id, []).append(v)
		elif isinstance(t, (ast.Tuple, ast.List)):
			for y in t.elts:
				bind(y.value if isinstance(y, ast.Starred) else y, v)
	for n in own_nodes(fn):
		if isinstance(n, ast.Assign):
			for t in n.targets:
				bind(t, n.value)
		elif isinstance(n, ast.AnnAssign) and n.value is not None:
			bind(n.target, n.value)
		elif isinstance(n, ast.AugAssign):
			bind(n.target, n.value)
		elif isinstance(n, ast.NamedExpr):
			bind(n.target, n.value)
		elif isinstance(n, (ast.For, ast.comprehension)):
			bind(n.target, n.iter)
		elif isinstance(n, ast.With):
			for i in n.items:
				if i.optional_vars is not None:
					bind(i.optional_vars, i.context_expr)
		elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
			if isinstance(n, ast.FunctionDef):
				for s in n.body:
					out.setdefault(n.name, []).append(s)
	return out


class Slicer:
	"""which parameters an expression depends on, and how"""
	def __init__(self, fn, outer, tree, mutable):
		self.fn, self.outer = fn, outer
		self.params = list(params(fn))
		for o in outer:
			self.params += params(o)
		self.locals = {}
		for o in outer + [fn]:
			for k, v in locals_of(o).items():
				self.locals.setdefault(k, []).extend(v)
		self.mutable = mutable

	def deps(self, e, seen=(), skip=()):
		"""what e depends on: ('param', name, attribute path), ('mut', self path) or ('thunk', name); subexpressions spelled like a part of the key are skipped"""
		out = set()
		def rec(n):
			if isinstance(n, ast.expr) and not isinstance(n, ast.Constant) and ast.unparse(n) in skip:
				return
			if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.params and not n.args and not n.keywords:
				out.add(('thunk', n.func.id))
				return
			if isinstance(n, ast.Attribute):
				base, path = n, []
				while isinstance(base, ast.Attribute):
					path.append(base.attr)
					base = base.value
				path = path[::-1]
				if isinstance(base, ast.Name) and base.id in self.params and base.id not in self.locals:
					if base.id == 'self' and any(x in self.mutable for x in path):
						out.add(('mut', ast.unparse(n)))
					else:
						out.add(('param', base.id, '.'.join(path)))
					return
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
				if n.id in self.locals and n.id not in seen:
					for v in self.locals[n.id]:
						out.update(self.deps(v, seen + (n.id,), skip))
					if n.id not in self.params:
						return
				if n.id in self.params:
					out.add(('param', n.id, ''))
				return
			for c in ast.iter_child_nodes(n):
				rec(c)
		rec(e)
		return out

	def parts(self, e, depth=0):
		"""spellings of the key and of its components"""
		out = {ast.unparse(e)} if not isinstance(e, ast.Constant) else set()
		if isinstance(e, (ast.Tuple, ast.List)):
			for x in e.elts:
				out |= self.parts(x, depth)
		if isinstance(e, ast.Name) and len(self.locals.get(e.id, ())) == 1 and depth < 4:
			out |= self.parts(self.locals[e.id][0], depth + 1)
		if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
			out |= self.parts(e.left, depth) | self.parts(e.right, depth)
		if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in INJ and len(e.args) == 1:
			out |= self.parts(e.args[0], depth)
		if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('tobytes', 'tolist', 'copy', 'hex') and not e.args:
			out |= self.parts(e.func.value, depth)
		return out

	def covered(self, e, seen=()):
		"""dict: parameter or path -> 'inj' | 'weak' | 'lossy'"""
		out = {}
		rank = {'lossy': 0, 'weak': 1, 'inj': 2}
		def put(k, q):
			if k not in out or rank[out[k]] < rank[q]:
				out[k] = q
		def rec(n, q):
			if isinstance(n, ast.Name):
				if n.id in self.locals and n.id not in seen:
					for v in self.locals[n.id]:
						for k, w in self.covered(v, seen + (n.id,)).items():
							put(k, min(q, w, key=rank.get))
					if n.id not in self.params:
						return
				if n.id in self.params:
					put(('param', n.id), q)
				return
			if isinstance(n, ast.Attribute):
				put(('mut', ast.unparse(n)), q)
				rec(n.value, 'lossy' if n.attr in LOSSY_ATTR else min(q, 'weak', key=rank.get))
				return
			if isinstance(n, ast.Call):
				f = n.func
				name = f.id if isinstance(f, ast.Name) else None
				if name in LOSSY:
					nq = 'lossy'
				elif name in INJ:
					nq = q
				else:
					nq = min(q, 'weak', key=rank.get)
				for c in list(n.args) + [k.value for k in n.keywords]:
					rec(c, nq)
				if isinstance(f, ast.Attribute):
					rec(f.value, nq)
				return
			if isinstance(n, (ast.Tuple, ast.List, ast.Starred)):
				for c in ast.iter_child_nodes(n):
					rec(c, q)
				return
			if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
				for c in n.generators:
					rec(c.iter, q)
				# attribute projections of the elements
				names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
				if not isinstance(n.elt, ast.Name) or n.elt.id not in names:
					lossy = any(isinstance(x, ast.Attribute) and x.attr in LOSSY_ATTR or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in LOSSY for x in ast.walk(n.elt))
					for g in n.generators:
						for k in list(self.covered(g.iter, seen)):
							if k[0] == 'param':
								out[k] = 'lossy' if lossy else 'weak'
				return
			for c in ast.iter_child_nodes(n):
				rec(c, min(q, 'weak', key=rank.get))
		rec(e, 'inj')
		return out


def mutable_attrs(trees):
	"""attributes that are rebound after construction on an object not made in the same function"""
	out = {}
	for path, rel, tree in trees:
		for q, fn, cls, outer in functions(tree):
			if fn.name in ('__init__', '__new__', '__post_init__', '__set_name__', '__setstate__') or fn.name.endswith('unflatten'):
				continue
			made = set()
			for k, vs in locals_of(fn).items():
				if all(isinstance(v, ast.Call) for v in vs):
					made.add(k)
			for n in own_nodes(fn):
				ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
				for t in ts:
					for y in ast.walk(t):
						if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
							if isinstance(y.value, ast.Name) and y.value.id in made:
								continue
							out.setdefault(y.attr, f'{rel}:{y.lineno} ({q})')
	return out


def root_of(e, sl, fn, cls, tree, depth=0):
	"""(kind, text) of a container expression: 'self' per-object, 'shared' class or module wide, or None"""
	if isinstance(e, ast.Name):
		if e.id in sl.locals and depth < 4:
			vs = sl.locals[e.id]
			if len(vs) == 1:
				return root_of(vs[0], sl, fn, cls, tree, depth + 1)
			return None
		if e.id in sl.params:
			a = fn.args
			defs = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
			defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
			d = defs.get(e.id)
			if isinstance(d, (ast.Dict,)) or isinstance(d, ast.Call) and ast.unparse(d.func) in ('dict', 'defaultdict', 'OrderedDict'):
				return 'shared', e.id
			return None
		for n in tree.body:
			if isinstance(n, (ast.Assign, ast.AnnAssign)):
				ts = n.targets if isinstance(n, ast.Assign) else [n.target]
				if any(isinstance(t, ast.Name) and t.id == e.id for t in ts):
					return 'shared', e.id
		return None
	if isinstance(e, ast.Attribute):
		b = e.value
		if isinstance(b, ast.Name) and b.id == 'self' and 'self' in sl.params:
			if cls is not None and class_level(cls, e.attr):
				return 'shared', ast.unparse(e)
			return 'self', ast.unparse(e)
		if isinstance(b, ast.Name) and b.id == 'cls' or isinstance(b, ast.Name) and cls is not None and b.id == cls.name or ast.unparse(b) in ('type(self)', 'self.__class__'):
			return 'shared', ast.unparse(e)
	return None


def class_level(cls, attr):
	"""attribute is bound in the class body and never on the instance"""
	body = any(isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == attr for t in (n.targets if isinstance(n, ast.Assign) else [n.target])) for n in cls.body)
	inst = any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self' for n in ast.walk(cls))
	return body and not inst


def memo_sites(fn, sl, cls, tree):
	"""(container kind, container text, key expr, value expr, line) of hand-written memo stores read back in the same function"""
	own = list(own_nodes(fn))
	nested = {id(x) for n in own if isinstance(n, (ast.FunctionDef,)) for x in ast.walk(n) if x is not n}
	own = [n for n in own if id(n) not in nested]
	reads = set()
	stores = []
	for n in own:
		if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
			reads.add(ast.unparse(n.value))
		if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
			reads.add(ast.unparse(n.comparators[0]))
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'setdefault'):
			reads.add(ast.unparse(n.func.value))
			if n.func.attr == 'setdefault' and len(n.args) == 2:
				stores.append((n.func.value, n.args[0], n.args[1], n.lineno))
		if isinstance(n, ast.Assign):
			for t in n.targets:
				if isinstance(t, ast.Subscript):
					stores.append((t.value, t.slice, n.value, n.lineno))
	for c, k, v, line in stores:
		r = root_of(c, sl, fn, cls, tree)
		if r is None or ast.unparse(c) not in reads:
			continue
		yield r[0], ast.unparse(c), k, v, line


def uses_self(cls, classes, name, seen=()):
	"""True: the method reads data of its object; False: it does not; None: cannot tell"""
	if name in seen:
		return False
	m = None
	todo, done = [cls], set()
	while todo and m is None:
		c = todo.pop(0)
		if c.name in done:
			continue
		done.add(c.name)
		for x in c.body:
			if isinstance(x, ast.FunctionDef) and x.name == name:
				m = x
		for b in c.bases:
			todo += [k for _, k in classes.get(ast.unparse(b).split('.')[-1], [])]
	if m is None:
		return None
	if any(deco_name(d) in ('staticmethod', 'classmethod') for d in m.decorator_list):
		return False
	me = (params(m) or ['self'])[0]
	owner = set()
	out = False
	for n in own_nodes(m):
		if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
			owner.add(id(n.value))
			r = uses_self(cls, classes, n.attr, seen + (name,))
			if r is None or r is True:
				out = True     # data attribute, or a method that reads data
	for n in own_nodes(m):
		if isinstance(n, ast.Name) and n.id == me and id(n) not in owner:
			return True
	return out
