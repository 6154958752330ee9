"""behaviour-preserving rewrites of the whole package, on which every check has to stay quiet (developer tool)

  refac.py [NAME...] [--tests] [--checks=C01,C02]
"""
import ast, copy, os, shutil, subprocess, sys, tempfile, builtins
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUN = (ast.FunctionDef,)


def own_nodes(fn):
	"""nodes of a function without those of nested scopes"""
	out, todo = [], list(fn.body)
	while todo:
		n = todo.pop()
		out.append(n)
		if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
			continue
		todo += list(ast.iter_child_nodes(n))
	return out


def is_gen(fn):
	return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn))


class Blocks(ast.NodeTransformer):
	"""visit statement lists"""
	def block(self, body, fn):
		out = []
		for s in body:
			r = self.stmt(s, fn)
			out += r if isinstance(r, list) else [r]
		return out
	def stmt(self, s, fn):
		return s
	def walk(self, node, fn=None):
		if isinstance(node, ast.FunctionDef):
			fn = node
			self.n = 0
		for f in ('body', 'orelse', 'finalbody'):
			b = getattr(node, f, None)
			if isinstance(b, list):
				for s in b:
					self.walk(s, fn)
				setattr(node, f, self.block(b, fn) if fn is not None else b)
		for h in getattr(node, 'handlers', []):
			self.walk(h, fn)
		return node
	def visit(self, tree):
		return self.walk(tree)
	def tmp(self):
		self.n = getattr(self, 'n', 0) + 1
		return f'_t{self.n}'


def name(n, ctx=None):
	return ast.Name(n, ctx or ast.Load())


class ReturnTemp(Blocks):
	def stmt(self, s, fn):
		if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
			return [ast.Assign([name('result_', ast.Store())], s.value), ast.Return(name('result_'))]
		return s


class NotElse(Blocks):
	def stmt(self, s, fn):
		if isinstance(s, ast.If) and s.orelse:
			return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
		return s


class EarlyElse(Blocks):
	"""if c: return a; return b  ->  if c: r = a else: r = b; return r"""
	def block(self, body, fn):
		if len(body) >= 2 and isinstance(body[-1], ast.Return) and isinstance(body[-2], ast.If) and len(body[-2].body) == 1 and isinstance(body[-2].body[0], ast.Return) and not body[-2].orelse:
			i = body[-2]
			a, b = i.body[0].value or ast.Constant(None), body[-1].value or ast.Constant(None)
			st = name('chosen', ast.Store())
			return body[:-2] + [ast.If(i.test, [ast.Assign([st], a)], [ast.Assign([st], b)]), ast.Return(name('chosen'))]
		return body


class Ternary(Blocks):
	def stmt(self, s, fn):
		if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
			v = s.value
			return [ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])]
		if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
			v = s.value
			return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
		if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.Or) and len(s.value.values) == 2:
			t = s.targets[0].id
			a, b = s.value.values
			return [ast.Assign([name('alt_', ast.Store())], a), ast.If(ast.UnaryOp(ast.Not(), name('alt_')), [ast.Assign([name('alt_', ast.Store())], b)], []), ast.Assign([name(t, ast.Store())], name('alt_'))]
		return s


class Comp(Blocks):
	"""list comprehensions in returns and assignments become loops"""
	def stmt(self, s, fn):
		if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
			c = s.value
			g = c.generators[0]
			t = self.tmp()
			names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
			inner = {n.id for n in ast.walk(c) if isinstance(n, ast.Name)}
			if any(isinstance(n, ast.Lambda) for n in ast.walk(c)):
				return s
			used = {n.id for n in own_nodes(fn) if isinstance(n, ast.Name)} | {a.arg for a in fn.args.args}
			# the loop variable would shadow: rename
			class R(ast.NodeTransformer):
				def visit_Name(self, n):
					return ast.Name(n.id + '_i', n.ctx) if n.id in names else n
			c = R().visit(copy.deepcopy(c))
			g = c.generators[0]
			body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [c.elt], []))]
			for i in reversed(g.ifs):
				body = [ast.If(i, body, [])]
			# the iterable is evaluated outside of the renamed scope
			it = s.value.generators[0].iter
			new = ast.Return(name(t)) if isinstance(s, ast.Return) else ast.Assign(s.targets, name(t))
			return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, it, body, [])] + [new]
		return s


class Anf(Blocks):
	"""arguments of calls are computed into temporaries first, in order"""
	def stmt(self, s, fn):
		if not isinstance(s, (ast.Return, ast.Assign)) or s.value is None:
			return s
		pre = []
		me = self
		class H(ast.NodeTransformer):
			def visit_Call(self, n):
				if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals'):
					return n
				self.generic_visit(n)
				new = []
				for i, a in enumerate(n.args):
					if isinstance(a, (ast.Starred, ast.Constant, ast.Name, ast.Lambda)):
						new.append(a)
						continue
					t = me.tmp()
					pre.append(ast.Assign([name(t, ast.Store())], a))
					new.append(name(t))
				n.args = new
				for k in n.keywords:
					if k.arg and not isinstance(k.value, (ast.Constant, ast.Name, ast.Lambda)):
						t = me.tmp()
						pre.append(ast.Assign([name(t, ast.Store())], k.value))
						k.value = name(t)
				return n
			def stop(self, n):
				return n
			visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda = visit_IfExp = visit_BoolOp = visit_JoinedStr = visit_Compare = stop
		s.value = H().visit(s.value)
		return pre + [s]


class Flip(ast.NodeTransformer):
	M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
	def visit_Compare(self, n):
		self.generic_visit(n)
		if len(n.ops) == 1 and type(n.ops[0]) in self.M:
			return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
		return n


class Lambda(Blocks):
	"""lambdas bound to names or passed as arguments of decorators stay; assigned ones become defs"""
	def stmt(self, s, fn):
		if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Lambda):
			return ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [], None, None, [])
		return s


class Noop(Blocks):
	def walk(self, node, fn=None):
		if isinstance(node, ast.FunctionDef):
			doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
			node.body.insert(doc, ast.Pass())
			node.body.insert(doc, ast.Assign([name('_unused', ast.Store())], ast.Constant(None)))
			node.body.insert(doc, ast.If(ast.Constant(False), [ast.Expr(ast.Constant(0))], []))
		return super().walk(node, fn)


class Rename(ast.NodeTransformer):
	"""local variables get other names"""
	def visit_FunctionDef(self, fn):
		nested = [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda))]
		params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
		skip = set(params)
		for n in nested:
			skip |= {a.arg for a in n.args.args + n.args.kwonlyargs}
			if isinstance(n, ast.FunctionDef):
				skip.add(n.name)
				skip |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
		for n in ast.walk(fn):
			if isinstance(n, (ast.Global, ast.Nonlocal)):
				skip |= set(n.names)
			if isinstance(n, (ast.Import, ast.ImportFrom)):
				skip |= {(a.asname or a.name).split('.')[0] for a in n.names}
		loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - skip
		class R(ast.NodeTransformer):
			def visit_Name(self, n):
				return ast.Name('v_' + n.id, n.ctx) if n.id in loc else n
		fn.body = [R().visit(s) for s in fn.body]
		return fn
	def visit_ClassDef(self, c):
		c.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in c.body]
		return c


class Alias(ast.NodeTransformer):
	"""import numpy as np -> import numpy"""
	def visit_Module(self, m):
		al = {}
		for s in m.body:
			if isinstance(s, ast.Import) and len(s.names) == 1 and s.names[0].asname and '.' not in s.names[0].name:
				al[s.names[0].asname] = s.names[0].name
				s.names[0].asname = None
		class R(ast.NodeTransformer):
			def visit_Name(self, n):
				return ast.Name(al[n.id], n.ctx) if n.id in al else n
		return R().visit(m)


class FromImport(ast.NodeTransformer):
	"""functions used from numpy are imported by name"""
	def visit_Module(self, m):
		al = {}
		for s in m.body:
			if isinstance(s, ast.Import):
				for a in s.names:
					if a.asname and a.name in ('numpy', 'torch'):
						al[a.asname] = a.name
		used = {}
		class R(ast.NodeTransformer):
			def visit_Attribute(self, n):
				self.generic_visit(n)
				if isinstance(n.value, ast.Name) and n.value.id in al and isinstance(n.ctx, ast.Load) and n.attr not in ('linalg', 'random', 'add', 'array', 'ndarray'):
					used.setdefault((al[n.value.id], n.attr), f'{al[n.value.id]}_{n.attr}')
					return name(used[al[n.value.id], n.attr])
				return n
		m = R().visit(m)
		i = next((i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom)) and not (isinstance(s, ast.ImportFrom) and s.module == '__future__')), 0)
		m.body[i:i] = [ast.ImportFrom(mod, [ast.alias(a, v)], 0) for (mod, a), v in sorted(used.items())]
		return m


class Helper(ast.NodeTransformer):
	"""the bodies of methods move to module level helpers"""
	def visit_Module(self, m):
		out = []
		for s in m.body:
			if isinstance(s, ast.ClassDef):
				for f in s.body:
					if not isinstance(f, ast.FunctionDef) or f.name in ('__init__', '__new__', '__getattr__') or is_gen(f):
						continue
					src = ast.dump(f)
					if "'super'" in src or '__class__' in src or f.args.defaults and 0 or f.args.kwonlyargs or f.args.posonlyargs:
						continue
					cls_names = {g.name for g in s.body if isinstance(g, ast.FunctionDef)} | {t.id for g in s.body if isinstance(g, ast.Assign) for t in g.targets if isinstance(t, ast.Name)}
					h = copy.deepcopy(f)
					h.decorator_list = []
					h.returns = None
					h.name = f'_{s.name.lower()}_{f.name.replace("__","_d_")}_body'
					h.args.defaults = []
					for a in h.args.args:
						a.annotation = None
					out.append(h)
					args = [name(a.arg) for a in f.args.args]
					kws = []
					if f.args.vararg:
						args.append(ast.Starred(name(f.args.vararg.arg), ast.Load()))
					if f.args.kwarg:
						kws.append(ast.keyword(None, name(f.args.kwarg.arg)))
					doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
					f.body = doc + [ast.Return(ast.Call(name(h.name), args, kws))]
		m.body += out
		return m


class MethodHelper(ast.NodeTransformer):
	"""the bodies of methods move to private methods"""
	def visit_ClassDef(self, c):
		new = []
		for f in c.body:
			if not isinstance(f, ast.FunctionDef) or f.name.startswith('__') or is_gen(f) or not f.args.args or f.args.args[0].arg != 'self':
				continue
			if "'super'" in ast.dump(f) or f.args.kwonlyargs or f.args.posonlyargs:
				continue
			h = copy.deepcopy(f)
			h.decorator_list = []
			h.name = f'_{f.name}_impl_{c.name.lower()}'
			h.args.defaults = []
			new.append(h)
			args = [name(a.arg) for a in f.args.args[1:]]
			kws = []
			if f.args.vararg:
				args.append(ast.Starred(name(f.args.vararg.arg), ast.Load()))
			if f.args.kwarg:
				kws.append(ast.keyword(None, name(f.args.kwarg.arg)))
			f.body = [ast.Return(ast.Call(ast.Attribute(name('self'), h.name, ast.Load()), args, kws))]
		c.body += new
		return c


class SumLoop(Blocks):
	"""return sum(gen) -> accumulation"""
	def stmt(self, s, fn):
		if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('sum', 'all', 'any') and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)) and len(s.value.args[0].generators) == 1 and not s.value.keywords:
			k = s.value.func.id
			c = s.value.args[0]
			names = {n.id for n in ast.walk(c.generators[0].target) if isinstance(n, ast.Name)}
			if any(isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.ListComp)) for n in ast.walk(c.elt)):
				return s
			class R(ast.NodeTransformer):
				def visit_Name(self, n):
					return ast.Name(n.id + '_i', n.ctx) if n.id in names else n
			it = c.generators[0].iter
			c = R().visit(copy.deepcopy(c))
			g = c.generators[0]
			t = self.tmp()
			if k == 'sum':
				body = [ast.Assign([name(t, ast.Store())], ast.BinOp(name(t), ast.Add(), c.elt))]
				init = ast.Constant(0)
			elif k == 'all':
				body = [ast.If(ast.UnaryOp(ast.Not(), c.elt), [ast.Assign([name(t, ast.Store())], ast.Constant(False)), ast.Break()], [])]
				init = ast.Constant(True)
			else:
				body = [ast.If(c.elt, [ast.Assign([name(t, ast.Store())], ast.Constant(True)), ast.Break()], [])]
				init = ast.Constant(False)
			for i in reversed(g.ifs):
				body = [ast.If(i, body, [])]
			new = ast.Return(name(t)) if isinstance(s, ast.Return) else ast.Assign(s.targets, name(t))
			return [ast.Assign([name(t, ast.Store())], init), ast.For(g.target, it, body, []), new]
		return s


class Unpack(Blocks):
	"""a, b = f()  ->  pair = f(); a = pair[0]; b = pair[1]   (not for generators)"""
	def stmt(self, s, fn):
		if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
			ts = [self.tmp() for _ in s.value.elts]
			return [ast.Assign([name(t, ast.Store())], e) for t, e in zip(ts, s.value.elts)] + [ast.Assign([e], name(t)) for t, e in zip(ts, s.targets[0].elts)]
		return s


class Chain(Blocks):
	"""receivers of method calls in returns are bound to names first"""
	def stmt(self, s, fn):
		if not isinstance(s, (ast.Return, ast.Assign)) or not isinstance(s.value, ast.Call):
			return s
		pre = []
		v = s.value
		if isinstance(v.func, ast.Attribute) and not (isinstance(v.func.value, ast.Name)) and 'super' not in ast.dump(v.func.value):
			t = self.tmp()
			pre.append(ast.Assign([name(t, ast.Store())], v.func.value))
			v.func.value = name(t)
		return pre + [s]


class Guard(Blocks):
	"""if c: body (last statement of a function without value) and asserts -> if not c: raise"""
	def stmt(self, s, fn):
		if isinstance(s, ast.Assert):
			return ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(name('AssertionError'), [s.msg] if s.msg else [], []), None)], [])
		return s


class Fstring(ast.NodeTransformer):
	"""f-strings -> str.format"""
	def visit_JoinedStr(self, n):
		fmt, args = '', []
		for v in n.values:
			if isinstance(v, ast.Constant):
				fmt += v.value.replace('{', '{{').replace('}', '}}')
			else:
				if v.conversion != -1 or v.format_spec:
					return n
				fmt += '{}'
				args.append(self.visit(v.value))
		return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class Enumerate(Blocks):
	"""for a in xs -> for a in list(xs)?  only over range: while loops"""
	def stmt(self, s, fn):
		if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(n, (ast.Continue, ast.Break)) for b in s.body for n in ast.walk(b)):
			t, e = self.tmp(), self.tmp()
			return [ast.Assign([name(t, ast.Store())], ast.Constant(0)), ast.Assign([name(e, ast.Store())], s.iter.args[0]),
				ast.While(ast.Compare(name(t), [ast.Lt()], [name(e)]), [ast.Assign([name(s.target.id, ast.Store())], name(t))] + s.body + [ast.AugAssign(name(t, ast.Store()), ast.Add(), ast.Constant(1))], [])]
		return s


class Order(ast.NodeTransformer):
	"""methods of a class in reverse order of definition (where nothing in the class body depends on it)"""
	def visit_ClassDef(self, c):
		names = {}
		for s in c.body:
			if isinstance(s, ast.FunctionDef):
				names[s.name] = names.get(s.name, 0) + 1
		free = lambda s: isinstance(s, ast.FunctionDef) and names[s.name] == 1 and not any(isinstance(n, ast.Name) and n.id in names for d in s.decorator_list for n in ast.walk(d)) and not any(isinstance(n, ast.Name) and n.id == s.name for t in c.body if isinstance(t, ast.Assign) for n in ast.walk(t.value))
		idx = [i for i, s in enumerate(c.body) if free(s)]
		fs = [c.body[i] for i in idx][::-1]
		for i, f in zip(idx, fs):
			c.body[i] = f
		return c


class DeMorgan(ast.NodeTransformer):
	def visit_If(self, n):
		self.generic_visit(n)
		if isinstance(n.test, ast.BoolOp):
			op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
			n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
		return n


class Keyword(ast.NodeTransformer):
	"""functools.partial-free: positional arguments of constructors named"""
	def visit_Call(self, n):
		self.generic_visit(n)
		if isinstance(n.func, ast.Name) and n.func.id == 'Operator' and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
			n.keywords = [ast.keyword('kernel', n.args[0]), ast.keyword('axes', n.args[1])]
			n.args = []
		return n


class Method(ast.NodeTransformer):
	"""operators written as method or function calls: x ^ y on numpy as np.bitwise..., -x, abs"""
	def visit_Attribute(self, n):
		self.generic_visit(n)
		if isinstance(n.ctx, ast.Load) and n.attr in ('subspace', 'values', 'algebra', 'context'):
			return ast.Call(name('getattr'), [n.value, ast.Constant(n.attr)], [])
		return n


class NpFunc(ast.NodeTransformer):
	"""array methods as numpy functions"""
	numpy = True
	def visit_Call(self, n):
		self.generic_visit(n)
		if isinstance(n.func, ast.Attribute) and n.func.attr in ('take', 'any', 'reshape', 'swapaxes', 'argsort', 'nonzero') and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'npi')):
			return ast.Call(ast.Attribute(name('np'), n.func.attr, ast.Load()), [n.func.value] + n.args, n.keywords)
		if isinstance(n.func, ast.Attribute) and n.func.attr == 'sum' and any(k.arg == 'axis' for k in n.keywords) and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'np'):
			return ast.Call(ast.Attribute(name('np'), 'sum', ast.Load()), [n.func.value] + n.args, n.keywords)
		return n


class NpMethod(ast.NodeTransformer):
	"""numpy functions as array methods"""
	numpy = True
	def visit_Call(self, n):
		self.generic_visit(n)
		if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' and n.args and not isinstance(n.args[0], ast.Starred):
			a = n.func.attr
			if a in ('swapaxes', 'argsort', 'nonzero', 'take'):
				return ast.Call(ast.Attribute(n.args[0], a, ast.Load()), n.args[1:], n.keywords)
			if a == 'flatnonzero':
				return ast.Subscript(ast.Call(ast.Attribute(name('np'), 'nonzero', ast.Load()), n.args, []), ast.Constant(0), ast.Load())
			if a == 'abs':
				return ast.Call(name('abs'), n.args, [])
		return n


class BitFn(ast.NodeTransformer):
	"""bit operators of arrays as functions"""
	numpy = True
	only = ('algebra.py', 'factory.py')
	def visit_BinOp(self, n):
		self.generic_visit(n)
		f = {ast.BitXor: 'bitwise_xor', ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or'}.get(type(n.op))
		if f:
			return ast.Call(ast.Attribute(name('np'), f, ast.Load()), [n.left, n.right], [])
		return n


class While(Blocks):
	"""for loops as while loops over an iterator"""
	def stmt(self, s, fn):
		if isinstance(s, ast.For) and not s.orelse and not is_gen(fn):
			t = self.tmp()
			return [ast.Assign([name(t, ast.Store())], ast.Call(name('iter'), [s.iter], [])), ast.While(ast.Constant(True), [
				ast.Try([ast.Assign([s.target], ast.Call(name('next'), [name(t)], []))], [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])] + s.body, [])]
		return s


class Map(ast.NodeTransformer):
	"""list comprehensions and generators over one name as map"""
	def conv(self, n, wrap):
		self.generic_visit(n)
		if len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name):
			g = n.generators[0]
			it = g.iter
			lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
			for c in g.ifs:
				it = ast.Call(name('filter'), [lam(c), it], [])
			r = ast.Call(name('map'), [lam(n.elt), it], [])
			return ast.Call(name('list'), [r], []) if wrap else r
		return n
	def visit_ClassDef(self, n):
		n.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
		return n
	def visit_ListComp(self, n):
		return self.conv(n, True)
	def visit_GeneratorExp(self, n):
		return self.conv(n, False)


class Star(ast.NodeTransformer):
	def visit_Call(self, n):
		self.generic_visit(n)
		if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
			n.args = [ast.Starred(ast.Tuple(n.args, ast.Load()), ast.Load())]
		return n


class ConstLift(ast.NodeTransformer):
	"""numbers in functions become module constants"""
	def visit_Module(self, m):
		self.c = {}
		for i, s in enumerate(m.body):
			if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
				m.body[i] = self.fun(s)
		m.body[:0] = [s for s in m.body if isinstance(s, ast.ImportFrom) and s.module == '__future__']
		k = 1 if m.body and isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else 0
		m.body[k:k] = [ast.Assign([name(v, ast.Store())], ast.Constant(c)) for c, v in self.c.items()]
		return m
	def fun(self, n):
		for f in ast.walk(n):
			if isinstance(f, ast.FunctionDef):
				f.body = [self.visit(s) for s in f.body]
				break_ = True
		return n
	def visit_JoinedStr(self, n):
		return n
	def visit_Constant(self, n):
		if type(n.value) is int:
			return name(self.c.setdefault(n.value, f'_NUM_{n.value}'))
		return n


class Inline(Blocks):
	"""a temporary used once in the next statement is inlined"""
	def block(self, body, fn):
		out = list(body)
		i = 0
		while fn is not None and i + 1 < len(out):
			s, t = out[i], out[i + 1]
			if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Return, ast.Assign)) and t.value is not None:
				v = s.targets[0].id
				uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == v]
				inner = [n for n in ast.walk(t.value) if isinstance(n, ast.Name) and n.id == v]
				# first thing evaluated in the next statement
				if len(uses) == 2 and len(inner) == 1 and self.first(t.value, inner[0]):
					class R(ast.NodeTransformer):
						def visit_Name(s2, n):
							return s.value if n is inner[0] else n
					t.value = R().visit(t.value)
					del out[i]
					continue
			i += 1
		return out
	def first(self, e, n):
		while e is not n:
			if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
				e = e.value
			elif isinstance(e, ast.Call):
				e = e.func if not isinstance(e.func, ast.Name) else e.args[0] if e.args else None
			elif isinstance(e, ast.BinOp):
				e = e.left
			elif isinstance(e, (ast.Tuple, ast.List)):
				e = e.elts[0] if e.elts else None
			else:
				return False
		return True


class NoDoc(ast.NodeTransformer):
	"""no annotations of functions, other documentation"""
	def visit_FunctionDef(self, n):
		self.generic_visit(n)
		n.returns = None
		for a in n.args.args + [n.args.vararg, n.args.kwarg]:
			if a is not None:
				a.annotation = None
		if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
			n.body[0].value = ast.Constant('see the manual')
		return n


class LruCache(ast.NodeTransformer):
	imports = 'functools'
	def visit_FunctionDef(self, n):
		self.generic_visit(n)
		n.decorator_list = [ast.Call(ast.Attribute(name('_functools'), 'lru_cache', ast.Load()), [], [ast.keyword('maxsize', ast.Constant(None))]) if isinstance(d, ast.Name) and d.id == 'cache' else d for d in n.decorator_list]
		return n


class Issub(ast.NodeTransformer):
	def visit_Call(self, n):
		self.generic_visit(n)
		if isinstance(n.func, ast.Name) and n.func.id == 'isinstance':
			return ast.Call(name('issubclass'), [ast.Call(name('type'), [n.args[0]], []), n.args[1]], [])
		return n


class Closure(ast.NodeTransformer):
	"""the body of every method in a nested function"""
	def visit_FunctionDef(self, n):
		if is_gen(n) or "'super'" in ast.dump(n) or n.name == '__init__':
			return n
		doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
		stored = {a.arg for a in n.args.args} & {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
		if stored:
			return n
		n.body = doc + [ast.FunctionDef('compute', ast.arguments([], [], None, [], [], None, []), n.body[len(doc):] or [ast.Pass()], [], None, None, []), ast.Return(ast.Call(name('compute'), [], []))]
		return n


class Dunder(ast.NodeTransformer):
	"""comparison and arithmetic through the operator module"""
	imports = 'operator'
	F = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.BitXor: 'xor', ast.BitAnd: 'and_'}
	def f(self, op):
		return ast.Attribute(name('_operator'), self.F[type(op)], ast.Load())
	def visit_BinOp(self, n):
		self.generic_visit(n)
		return ast.Call(self.f(n.op), [n.left, n.right], []) if type(n.op) in self.F else n
	def visit_Compare(self, n):
		self.generic_visit(n)
		return ast.Call(self.f(n.ops[0]), [n.left, n.comparators[0]], []) if len(n.ops) == 1 and type(n.ops[0]) in self.F else n


ALL = [ReturnTemp, NotElse, EarlyElse, Ternary, Comp, Anf, Flip, Lambda, Noop, Rename, Alias, FromImport, Helper, MethodHelper, SumLoop, Unpack, Chain, Guard, Fstring, Enumerate, Order, DeMorgan, Keyword, Method, NpFunc, NpMethod, BitFn, While, Map, Star, ConstLift, Inline, NoDoc, LruCache, Issub, Closure, Dunder]


def build(T, dst):
	shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
	n = 0
	for d, _, fs in os.walk(os.path.join(dst, 'numga')):
		if '/test' in d or '/examples' in d:
			continue
		for f in fs:
			if not f.endswith('.py') or f.startswith('test'):
				continue
			p = os.path.join(d, f)
			src = open(p).read()
			tree = ast.parse(src)
			if getattr(T, 'numpy', False) and ('import numpy as np' not in src or '/backend/' in p or '/multivector/' in p) or f not in getattr(T, 'only', (f,)):
				continue
			new = ast.fix_missing_locations(T().visit(tree))
			if getattr(T, 'imports', None):
				i = [k for k, x in enumerate(new.body) if isinstance(x, (ast.Import, ast.ImportFrom))]
				new.body.insert(i[-1] + 1 if i else 0, ast.fix_missing_locations(ast.Import([ast.alias(T.imports, '_' + T.imports)])))
			out = ast.unparse(new)
			if out != ast.unparse(ast.parse(src)):
				n += 1
				compile(out, p, 'exec')
				open(p, 'w').write(out + '\n')
	return n


def check(repo, c):
	env = dict(os.environ, VERIF_REPO=repo, SA_EVIDENCE='/tmp/refac_evidence')
	r = subprocess.run(['/usr/bin/python3', 'check.py', c], cwd=V, env=env, capture_output=True, text=True, timeout=1800)
	return c, r.returncode, (r.stdout + r.stderr)


def main():
	args = [a for a in sys.argv[1:] if not a.startswith('--')]
	tests = '--tests' in sys.argv
	ck = next((a[9:].split(',') for a in sys.argv if a.startswith('--checks=')), None) or [f'C{i:02d}' for i in range(1, 21)]
	for T in ALL:
		if args and T.__name__ not in args:
			continue
		d = tempfile.mkdtemp(prefix='refac')
		repo = os.path.join(d, 'repo')
		n = build(T, repo)
		print(f'{T.__name__}: {n} files', flush=True)
		if tests:
			r = subprocess.run(f'cd {repo} && /opt/venv/bin/python -m pytest -q --no-header -p no:cacheprovider -n 4 --randomly-seed=1 --timeout=900 numga 2>&1 | tail -3', shell=True, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=repo, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu'))
			print('  tests:', r.stdout.strip()[-300:], flush=True)
		with ThreadPoolExecutor(int(os.environ.get('J', 8))) as ex:
			for c, rc, out in ex.map(lambda c: check(repo, c), sorted(ck, key=lambda c: c not in ('C13', 'C16', 'C11'))):
				last = [l for l in out.strip().split('\n') if 'obligations' in l or 'Error' in l]
				und = [l for l in last if l.startswith(c)]
				if rc != 0:
					print(f'  {c} exit {rc}', flush=True)
					for l in [l for l in out.split('\n') if 'violated:' in l or 'Error' in l][:3]:
						print('      ', l.strip()[:300])
				else:
					u = und[-1].split(':', 1)[1][:80] if und else out[-200:]
					k = int(u.split(' undecided')[0].split()[-1]) if ' undecided' in u else -1
					if k != {'C12': 1, 'C13': 2}.get(c, 0):
						print(f'  {c} quiet {u}')
						for l in [l for l in out.split('\n') if 'undecided:' in l][:3]:
							print('      ', l.strip()[:300])
		shutil.rmtree(d)


if __name__ == '__main__':
	main()
