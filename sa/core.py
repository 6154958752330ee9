"""Abstract interpreter for the Python subset numga is written in.

The interpreter walks the *syntax tree* of the current sources under /repo.  It
never imports or executes the analysed package: names are resolved across
modules from their trees, external libraries (numpy, jax, torch, ...) are
replaced by abstract transfer functions, and values of interest are elements of
an abstract domain (subclasses of AV).  Branches on values the domain does not
decide are handled by trace partitioning: every partition is analysed and
reported separately, together with the condition that selects it.

Stdlib only.
"""
import ast
import builtins
import os
import sys

PY_NAMES = frozenset(dir(builtins))

sys.setrecursionlimit(20000)

REPO = os.environ.get('VERIF_REPO', '/repo')


class Unsupported(Exception):
	"""construct outside of the analysed subset -> obligation is UNDECIDED"""


class AnchorMissing(Exception):
	"""a public anchor of a property disappeared -> analysis is broken"""


class Budget(Exception):
	pass


CALLED, FILES = set(), set()
ARRAY_METHODS = {'reshape', 'take', 'any', 'all', 'sum', 'swapaxes', 'argsort', 'nonzero', 'ravel', 'transpose', 'repeat', 'cumsum', 'min', 'max', 'argmax', 'argmin', 'prod', 'mean', 'squeeze', 'diagonal', 'copy'}


class PyRaise(Exception):
	"""an exception raised by the analysed program"""
	def __init__(self, kind, msg='', value=None):
		Exception.__init__(self, f'{kind}: {msg}')
		self.kind = kind
		self.msg = msg
		self.value = value


class _Return(Exception):
	def __init__(self, v):
		self.v = v


class _Break(Exception):
	pass


class _Continue(Exception):
	pass


# --------------------------------------------------------------------------
# values


class AV:
	"""base class of abstract values; every hook defaults to 'do not know'"""
	def a_getattr(self, I, name):
		return I.top(f'attribute {name} of {self}')
	def a_setattr(self, I, name, v):
		raise Unsupported(f'setattr {name} on {self}')
	def a_call(self, I, args, kw):
		return I.top(f'call of {self}')
	def a_binop(self, I, op, other, refl):
		return NotImplemented
	def a_unop(self, I, op):
		return I.top(f'{op} {self}')
	def a_cmp(self, I, op, other, refl):
		return NotImplemented
	def a_getitem(self, I, key):
		return I.top(f'{self}[{key}]')
	def a_setitem(self, I, key, v):
		raise Unsupported(f'item store on {self}')
	def a_iter(self, I):
		raise Unsupported(f'iteration over {self}')
	def a_generic(self, I):
		"""generic element for symbolic iteration, or None"""
		return None
	def a_len(self, I):
		return I.top(f'len({self})')
	def a_bool(self, I):
		return I.decide(('truth', self))
	def a_contains(self, I, x):
		return I.top(f'{x} in {self}')
	def a_isinstance(self, I, cls):
		return None
	def a_str(self, I):
		return I.top(f'str({self})')


class Top(AV):
	"""no information"""
	def __init__(self, why):
		self.why = why
	def __repr__(self):
		return f'Top({self.why})'
	def a_getattr(self, I, name):
		return Top(self.why)
	def a_setattr(self, I, name, v):
		I.imprecise.append(f'store on unknown: {self.why}')
	def a_call(self, I, args, kw):
		return Top(self.why)
	def a_binop(self, I, op, other, refl):
		return Top(self.why)
	def a_unop(self, I, op):
		return Top(self.why)
	def a_cmp(self, I, op, other, refl):
		return Top(self.why)
	def a_getitem(self, I, key):
		return Top(self.why)
	def a_setitem(self, I, key, v):
		I.imprecise.append(f'store on unknown: {self.why}')
	def a_iter(self, I):
		raise Unsupported(f'iteration over unknown: {self.why}')
	def a_len(self, I):
		return Top(self.why)
	def a_contains(self, I, x):
		return Top(self.why)
	def a_str(self, I):
		return Top(self.why)
	def a_bool(self, I):
		I.imprecise.append(f'branch on unknown: {self.why}')
		return I.decide(('unknown', self.why))


class Ext(AV):
	"""external module / function / class, by dotted path"""
	def __init__(self, path):
		self.path = path
	def __repr__(self):
		return f'<{self.path}>'
	def __eq__(self, o):
		return isinstance(o, Ext) and o.path == self.path
	def __hash__(self):
		return hash(('Ext', self.path))
	def a_getattr(self, I, name):
		p = f'{self.path}.{name}'
		c = I.world.ext_const(I, p)
		if c is not NotImplemented:
			return c
		return Ext(p)
	def a_call(self, I, args, kw):
		return I.call_ext(self.path, args, kw)
	def a_getitem(self, I, key):
		return self      # typing subscripts
	def a_bool(self, I):
		return True
	def a_str(self, I):
		return f'<{self.path}>'
	def a_cmp(self, I, op, other, refl):
		if op in ('==', 'is'):
			return self == other
		if op in ('!=', 'is not'):
			return not self == other
		return NotImplemented


class PyFunc:
	def __init__(self, name, node, module, env, defaults, kwdefaults, qual):
		self.name, self.node, self.module, self.env = name, node, module, env
		self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
		self.attrs = {}
		self.is_gen = _is_gen(node)
	def __repr__(self):
		return f'<fn {self.qual}>'


class Cached:
	"""functools.cache / lru_cache wrapped function"""
	def __init__(self, fn, bounded=None):
		self.fn = fn
		self.memo = {}
	@property
	def name(self):
		return self.fn.name
	def __repr__(self):
		return f'<cached {self.fn}>'


class Prop:
	def __init__(self, fget, cached=False):
		self.fget, self.cached = fget, cached


class StaticM:
	def __init__(self, fn):
		self.fn = fn


class ClassM:
	def __init__(self, fn):
		self.fn = fn


class Bound:
	def __init__(self, fn, self_):
		self.fn, self.self_ = fn, self_
	def __repr__(self):
		return f'<bound {self.fn}>'
	def __eq__(self, o):
		return isinstance(o, Bound) and o.fn is self.fn and o.self_ is self.self_
	def __hash__(self):
		return hash((id(self.fn), id(self.self_)))


class Partial:
	def __init__(self, fn, args, kw):
		self.fn, self.args, self.kw = fn, args, kw


class HostFn:
	"""host-implemented callable (a transfer function): fn(I, args, kw)"""
	def __init__(self, fn, name='host'):
		self.fn, self.name = fn, name
	def __repr__(self):
		return f'<host {self.name}>'


class PyClass:
	def __init__(self, name, bases, attrs, module, node):
		self.name, self.bases, self.attrs, self.module, self.node = name, bases, attrs, module, node
		self.qual = f'{module.name}.{name}'
		self.mro = [self]
		seen = [[c for c in b.mro] for b in bases if isinstance(b, PyClass)]
		seen.append([b for b in bases if isinstance(b, PyClass)])
		while any(seen):
			for s in seen:
				if s and not any(s[0] in o[1:] for o in seen):
					c = s[0]
					break
			else:
				raise Unsupported(f'mro of {name}')
			self.mro.append(c)
			seen = [[x for x in s if x is not c] for s in seen]
	def __repr__(self):
		return f'<class {self.qual}>'
	def lookup(self, name):
		for c in self.mro:
			if name in c.attrs:
				return c.attrs[name]
		return None
	def ext_bases(self):
		return [b for c in self.mro for b in c.bases if not isinstance(b, PyClass)]


class Obj:
	"""instance of an analysed class"""
	def __init__(self, cls):
		self.cls = cls
		self.attrs = {}
	def __repr__(self):
		return f'<{self.cls.name}>'


class Super:
	def __init__(self, cls, obj):
		self.cls, self.obj = cls, obj


class Module:
	def __init__(self, name, path):
		self.name, self.path = name, path
		self.env = None
	def __repr__(self):
		return f'<module {self.name}>'


class Env:
	__slots__ = ('vars', 'parent', 'is_class', 'globals', 'nonlocals', 'fn')
	def __init__(self, parent=None, is_class=False):
		self.vars = {}
		self.parent = parent
		self.is_class = is_class
		self.globals = set()
		self.nonlocals = set()
		self.fn = None
	def module_env(self):
		e = self
		while e.parent is not None:
			e = e.parent
		return e


def _is_gen(node):
	g = getattr(node, '_is_gen', None)
	if g is None:
		g = node._is_gen = _find_yield(node)
	return g


def _find_yield(node):
	body = node.body if isinstance(node.body, list) else [node.body]
	stack = list(body)
	while stack:
		n = stack.pop()
		if isinstance(n, (ast.Yield, ast.YieldFrom)):
			return True
		if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
			continue
		stack.extend(ast.iter_child_nodes(n))
	return False


BINOPS = {
	ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
	ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@',
}
DUNDER = {
	'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
	'<<': 'lshift', '>>': 'rshift', '&': 'and', '|': 'or', '^': 'xor', '@': 'matmul',
}
CMPOPS = {
	ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
	ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in',
}
UNOPS = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~', ast.Not: 'not'}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!=', 'is': 'is', 'is not': 'is not'}

HOST = (int, float, complex, str, bytes, bool, type(None), tuple, list, dict, set, frozenset, range, slice, type(...))


def host_binop(op, a, b):
	if op == '+': return a + b
	if op == '-': return a - b
	if op == '*': return a * b
	if op == '/': return a / b
	if op == '//': return a // b
	if op == '%': return a % b
	if op == '**':
		if isinstance(a, int) and isinstance(b, int) and b > 4096:
			raise Unsupported('huge power')
		return a ** b
	if op == '<<':
		if isinstance(b, int) and b > 4096:
			raise Unsupported('huge shift')
		return a << b
	if op == '>>': return a >> b
	if op == '&': return a & b
	if op == '|': return a | b
	if op == '^': return a ^ b
	raise Unsupported(op)


def host_cmp(op, a, b):
	if op == '==': return a == b
	if op == '!=': return a != b
	if op == '<': return a < b
	if op == '<=': return a <= b
	if op == '>': return a > b
	if op == '>=': return a >= b
	raise Unsupported(op)


class World:
	"""abstract transfer functions of one analysis"""
	def __init__(self):
		self.ext = {}          # dotted path -> fn(I, args, kw)
		self.consts = {}       # dotted path -> value
		self.intercepts = {}   # qualified name of analysed function -> fn(I, args, kw)
		self.builtins = {}     # overrides of builtins
		self.aliases = {}      # path prefix rewriting
	def ext_const(self, I, path):
		return self.consts.get(path, NotImplemented)
	def ext_call(self, I, path, args, kw):
		f = self.ext.get(path)
		if f is None:
			return NotImplemented
		return f(I, args, kw)
	def binop(self, I, op, a, b):
		return NotImplemented


_AST_CACHE = {}


def parse_file(path):
	st = os.stat(path)
	key = (path, st.st_mtime_ns, st.st_size)
	if key not in _AST_CACHE:
		with open(path, encoding='utf-8') as f:
			_AST_CACHE[key] = ast.parse(f.read(), path)
	return _AST_CACHE[key]


LAST = [None]        # the interpreter made last


class Interp:
	PKG = 'numga'

	def __init__(self, world, repo=None, max_steps=3_000_000):
		LAST[0] = self
		self.world = world
		self.repo = repo or REPO
		self.modules = {}
		self.steps = 0
		self.max_steps = max_steps
		self.depth = 0
		self.decisions = []       # replay prefix
		self.trace = []           # (condition, choice)
		self.known = {}           # decided condition key -> bool on this partition
		self.imprecise = []
		self.called = CALLED      # qualified names analysed (by all interpreters of the process)
		self.files = FILES
		self.stack = []
		self.effects = []         # world specific log
		self.generic_stack = []   # active generic iteration binders
		self.fresh_lists = []     # lists created inside the innermost generic iteration
		self.builtin_env = self._builtins()

	# ---- infrastructure
	def top(self, why):
		return Top(why)

	def decide(self, cond):
		"""trace partitioning on an undecided condition"""
		key = cond_key(cond)
		if key in self.known:
			return self.known[key]
		i = len(self.trace)
		if i < len(self.decisions):
			choice = self.decisions[i]
		else:
			choice = True
			self.decisions.append(True)
		self.trace.append((cond, choice))
		self.known[key] = choice
		if len(self.trace) > 400:
			raise Budget('too many undecided branches')
		return choice

	def tick(self):
		self.steps += 1
		if self.steps > self.max_steps:
			raise Budget('step budget')

	# ---- modules
	def module_path(self, name):
		p = os.path.join(self.repo, *name.split('.'))
		if os.path.isfile(p + '.py'):
			return p + '.py'
		if os.path.isfile(os.path.join(p, '__init__.py')):
			return os.path.join(p, '__init__.py')
		if os.path.isdir(p):
			return p
		return None

	def load(self, name):
		if name in self.modules:
			return self.modules[name]
		path = self.module_path(name)
		if path is None:
			raise AnchorMissing(f'module {name}')
		m = Module(name, path)
		m.env = Env()
		m.env.vars['__name__'] = name
		self.modules[name] = m
		if '.' in name:
			parent, leaf = name.rsplit('.', 1)
			pm = self.load(parent)
			pm.env.vars.setdefault(leaf, m)
		if path.endswith('.py'):
			self.files.add(os.path.relpath(path, self.repo))
			tree = parse_file(path)
			for st in tree.body:
				try:
					self.exec_block([st], m.env, m)
				except Unsupported as e:
					# what a module level statement outside the fragment binds is unknown; it matters only where it is used
					if isinstance(st, (ast.ClassDef, ast.FunctionDef, ast.Import, ast.ImportFrom)):
						raise
					for n in ast.walk(st):
						if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
							m.env.vars[n.id] = Top(f'{n.id}: {e}')
		return m

	def is_internal(self, name):
		return name == self.PKG or name.startswith(self.PKG + '.')

	def import_(self, name):
		if self.is_internal(name):
			return self.load(name)
		return Ext(name)

	def get(self, dotted):
		"""resolve 'numga.a.b:Class.attr' to a raw class/function value"""
		mod, _, attr = dotted.partition(':')
		if self.module_path(mod) is None:
			raise AnchorMissing(f'module {mod}')
		v = self.load(mod)
		cur = v
		for part in attr.split('.') if attr else []:
			if isinstance(cur, Module):
				if part not in cur.env.vars:
					raise AnchorMissing(f'{dotted}')
				cur = cur.env.vars[part]
			elif isinstance(cur, PyClass):
				cur = cur.lookup(part)
				if cur is None:
					raise AnchorMissing(f'{dotted}')
			else:
				raise AnchorMissing(dotted)
		return cur

	# ---- names
	def lookup(self, env, name):
		e = env
		first = True
		while e is not None:
			if (first or not e.is_class) and name in e.vars:
				return e.vars[name]
			first = False
			e = e.parent
		if name in self.world.builtins:
			return self.world.builtins[name]
		if name in self.builtin_env:
			return self.builtin_env[name]
		if name in PY_NAMES or name.startswith('__'):
			return Ext(f'builtins.{name}')
		raise PyRaise('NameError', name)

	def assign_name(self, env, name, v):
		if name in env.globals:
			env.module_env().vars[name] = v
			return
		if name in env.nonlocals:
			e = env.parent
			while e is not None:
				if name in e.vars and not e.is_class:
					e.vars[name] = v
					return
				e = e.parent
		env.vars[name] = v

	# ---- statements
	def exec_block(self, body, env, module):
		for s in body:
			self.exec(s, env, module)

	def exec(self, s, env, module):
		self.tick()
		m = getattr(self, 'x_' + type(s).__name__, None)
		if m is None:
			raise Unsupported(f'statement {type(s).__name__}')
		try:
			return m(s, env, module)
		except PyRaise as e:
			if not hasattr(e, 'where'):
				e.where = f'{os.path.relpath(module.path, self.repo)}:{getattr(s, "lineno", 0)}'
			raise

	def x_Expr(self, s, env, module):
		if isinstance(s.value, ast.Constant):
			return
		self.eval(s.value, env, module)

	def x_Pass(self, s, env, module):
		pass

	def x_Import(self, s, env, module):
		for a in s.names:
			v = self.import_(a.name)
			if a.asname:
				self.assign_name(env, a.asname, v)
			else:
				top = a.name.split('.')[0]
				self.assign_name(env, top, self.import_(top))

	def x_ImportFrom(self, s, env, module):
		if s.level:
			base = module.name.split('.')
			is_pkg = module.path.endswith('__init__.py') or not module.path.endswith('.py')
			cut = s.level - (1 if is_pkg else 0)
			base = base[:len(base) - cut] if cut else base
			name = '.'.join(base + ([s.module] if s.module else []))
		else:
			name = s.module
		if self.is_internal(name):
			m = self.load(name)
			for a in s.names:
				if a.name == '*':
					for k, v in m.env.vars.items():
						if not k.startswith('_'):
							self.assign_name(env, k, v)
					continue
				if a.name in m.env.vars:
					v = m.env.vars[a.name]
				elif self.module_path(f'{name}.{a.name}'):
					v = self.load(f'{name}.{a.name}')
				else:
					raise PyRaise('ImportError', f'cannot import {a.name} from {name}')
				self.assign_name(env, a.asname or a.name, v)
		else:
			for a in s.names:
				v = Ext(name).a_getattr(self, a.name)
				self.assign_name(env, a.asname or a.name, v)

	def make_func(self, node, env, module, name):
		a = node.args
		defaults = [self.eval(d, env, module) for d in a.defaults]
		kwdefaults = [None if d is None else (self.eval(d, env, module),) for d in a.kw_defaults]
		prefix = ''
		e = env
		names = []
		while e is not None:
			if e.fn is not None:
				names.append(e.fn)
			e = e.parent
		qual = '.'.join([module.name] + list(reversed(names)) + [name])
		cenv = env
		if env.is_class:
			pass
		return PyFunc(name, node, module, cenv, defaults, kwdefaults, qual)

	def x_FunctionDef(self, s, env, module):
		f = self.make_func(s, env, module, s.name)
		v = f
		for d in reversed(s.decorator_list):
			dv = self.eval(d, env, module)
			v = self.call(dv, [v], {})
		self.assign_name(env, s.name, v)

	def x_ClassDef(self, s, env, module):
		bases = [self.eval(b, env, module) for b in s.bases]
		cenv = Env(env, is_class=True)
		cenv.fn = s.name
		self.exec_block(s.body, cenv, module)
		c = PyClass(s.name, [b for b in bases if b is not object_cls], cenv.vars, module, s)
		for k, v in cenv.vars.items():
			self._own(v, c)
		v = c
		for d in reversed(s.decorator_list):
			v = self.call(self.eval(d, env, module), [v], {})
		self.assign_name(env, s.name, v)

	def _own(self, v, c):
		if isinstance(v, PyFunc):
			if not hasattr(v, 'owner'):
				v.owner = c
		elif isinstance(v, (Cached, StaticM, ClassM)):
			self._own(v.fn, c)
		elif isinstance(v, Prop):
			self._own(v.fget, c)

	def x_Return(self, s, env, module):
		raise _Return(self.eval(s.value, env, module) if s.value else None)

	def x_Assign(self, s, env, module):
		if isinstance(s.value, ast.GeneratorExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
			# the body of a named generator runs when it is consumed, in the scope as it is then
			g = s.value
			first = self.eval(g.generators[0].iter, env, module)
			stack = list(self.generic_stack)
			def force():
				if self.generic_stack != stack:
					raise Unsupported('generator consumed in another loop')
				r = self.comp(g, env, module, lambda en: self.eval(g.elt, en, module), first)
				return r if isinstance(r, AV) else GenList(r)
			self.assign(s.targets[0], LazyGen(force), env, module)
			return
		if self.is_lazy(s.value, env, module) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
			run = self.lazy_call(s.value, env, module)
			stack = list(self.generic_stack)
			def force():
				if self.generic_stack != stack:
					raise Unsupported('iterator consumed in another loop')
				return run()
			self.assign(s.targets[0], LazyGen(force), env, module)
			return
		v = self.eval(s.value, env, module)
		for t in s.targets:
			self.assign(t, v, env, module)

	def is_lazy(self, e, env, module):
		return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('map', 'filter') and len(e.args) > 1 and not e.keywords \
			and not any(isinstance(a, ast.Starred) for a in e.args) and self.eval(e.func, env, module) is self.builtin_env.get(e.func.id)

	def lazy_call(self, e, env, module):
		"""map and filter evaluate their arguments at once, but call the function when they are consumed"""
		if not self.is_lazy(e, env, module):
			v = self.eval(e, env, module)
			return lambda: v
		f, fn = self.eval(e.func, env, module), self.eval(e.args[0], env, module)
		its = [self.lazy_call(a, env, module) for a in e.args[1:]]
		return lambda: self.call(f, [fn] + [t() for t in its], {})

	def x_AnnAssign(self, s, env, module):
		if s.value is not None:
			self.assign(s.target, self.eval(s.value, env, module), env, module)

	def x_AugAssign(self, s, env, module):
		op = BINOPS[type(s.op)]
		t = s.target
		if isinstance(t, ast.Name):
			cur = self.lookup(env, t.id)
			v = self.inplace(op, cur, self.eval(s.value, env, module))
			self.assign_name(env, t.id, v)
		elif isinstance(t, ast.Attribute):
			o = self.eval(t.value, env, module)
			cur = self.getattr(o, t.attr)
			v = self.inplace(op, cur, self.eval(s.value, env, module))
			self.setattr(o, t.attr, v)
		elif isinstance(t, ast.Subscript):
			o = self.eval(t.value, env, module)
			k = self.eval(t.slice, env, module)
			cur = self.getitem(o, k)
			v = self.inplace(op, cur, self.eval(s.value, env, module))
			self.setitem(o, k, v)
		else:
			raise Unsupported('augassign')

	def inplace(self, op, cur, v):
		if isinstance(cur, AV) and hasattr(cur, 'a_inplace'):
			return cur.a_inplace(self, op, v)
		if isinstance(cur, list) and op == '+':
			cur.extend(self.iterate(v))
			return cur
		if isinstance(cur, set) and isinstance(v, (set, frozenset)) and op in '|&-^':
			if op == '|': cur |= v
			elif op == '&': cur &= v
			elif op == '-': cur -= v
			else: cur ^= v
			return cur
		if isinstance(cur, Obj):
			m = cur.cls.lookup(f'__i{DUNDER[op]}__')
			if m is not None:
				return self.call(self.bind(m, cur, cur.cls), [v], {})
		return self.binop(op, cur, v)

	def assign(self, t, v, env, module):
		if isinstance(t, ast.Name):
			self.assign_name(env, t.id, v)
		elif isinstance(t, (ast.Tuple, ast.List)):
			vals = list(self.iterate(v, want=len(t.elts)))
			star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
			if star:
				i = star[0]
				after = len(t.elts) - i - 1
				if len(vals) < len(t.elts) - 1:
					raise PyRaise('ValueError', 'not enough values to unpack')
				for e, x in zip(t.elts[:i], vals[:i]):
					self.assign(e, x, env, module)
				self.assign(t.elts[i].value, vals[i:len(vals) - after], env, module)
				for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
					self.assign(e, x, env, module)
				return
			if len(vals) != len(t.elts):
				raise PyRaise('ValueError', 'wrong number of values to unpack')
			for e, x in zip(t.elts, vals):
				self.assign(e, x, env, module)
		elif isinstance(t, ast.Attribute):
			self.setattr(self.eval(t.value, env, module), t.attr, v)
		elif isinstance(t, ast.Subscript):
			o = self.eval(t.value, env, module)
			self.setitem(o, self.eval(t.slice, env, module), v)
		else:
			raise Unsupported(f'assign to {type(t).__name__}')

	def x_If(self, s, env, module):
		if self.truth(self.eval(s.test, env, module)):
			self.exec_block(s.body, env, module)
		else:
			self.exec_block(s.orelse, env, module)

	def x_While(self, s, env, module):
		n = 0
		while self.truth(self.eval(s.test, env, module)):
			n += 1
			if n > 5000:
				raise Budget('while loop')
			try:
				self.exec_block(s.body, env, module)
			except _Break:
				return
			except _Continue:
				pass
		self.exec_block(s.orelse, env, module)

	def x_For(self, s, env, module):
		it = self.eval(s.iter, env, module)
		g = self.generic(it)
		if g is not None:
			elem, binder = g
			carried = {}
			if hasattr(binder, 'placeholder'):
				# names rebound by the body and already bound before it carry a value from one iteration to the next
				targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
				for n in {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - targets:
					if n in env.vars:
						ph = binder.placeholder(self, env.vars[n])
						if ph is not None:
							carried[n] = (env.vars[n],) + ph
							env.vars[n] = ph[0]
			self.generic_stack.append(binder)
			try:
				self.assign(s.target, elem, env, module)
				try:
					self.exec_block(s.body, env, module)
				except _Break:
					raise Unsupported('break in generic loop')
				except _Continue:
					pass
				except _Return:
					raise Unsupported('return in generic loop')
			finally:
				self.generic_stack.pop()
			for n, (old, ph, h) in carried.items():
				env.vars[n] = binder.accumulate(self, old, ph, h, env.vars[n])
			self.exec_block(s.orelse, env, module)
			return
		for x in self.iterate(it):
			self.assign(s.target, x, env, module)
			try:
				self.exec_block(s.body, env, module)
			except _Break:
				return
			except _Continue:
				continue
		self.exec_block(s.orelse, env, module)

	def x_Break(self, s, env, module):
		raise _Break()

	def x_Continue(self, s, env, module):
		raise _Continue()

	def x_Assert(self, s, env, module):
		v = self.eval(s.test, env, module)
		h = getattr(self.world, 'on_assert', None)
		if h is not None and h(self, v, s, module):
			return
		if isinstance(v, AV) and not isinstance(v, Top):
			r = v.a_bool(self)
		elif isinstance(v, Top):
			return            # assumed to hold
		else:
			r = self.truth(v)
		if not r:
			raise PyRaise('AssertionError', ast.unparse(s.test))

	def x_Raise(self, s, env, module):
		if s.exc is None:
			raise PyRaise('reraise')
		if isinstance(s.exc, ast.Call):
			f = self.eval(s.exc.func, env, module)
		else:
			f = self.eval(s.exc, env, module)
		name = f.path if isinstance(f, Ext) else getattr(f, 'name', str(f))
		raise PyRaise(name.split('.')[-1], ast.unparse(s.exc))

	def x_Try(self, s, env, module):
		try:
			try:
				self.exec_block(s.body, env, module)
			except PyRaise as e:
				for h in s.handlers:
					if self.handler_matches(h, e, env, module):
						if h.name:
							self.assign_name(env, h.name, Top('exception object'))
						self.exec_block(h.body, env, module)
						break
				else:
					raise
			else:
				self.exec_block(s.orelse, env, module)
		finally:
			if s.finalbody:
				self.exec_block(s.finalbody, env, module)

	def handler_matches(self, h, e, env, module):
		if h.type is None:
			return True
		t = h.type
		names = [ast.unparse(x).split('.')[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
		if e.kind in names or 'Exception' in names or 'BaseException' in names:
			return True
		parents = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'ModuleNotFoundError': ['ImportError'],
			'ZeroDivisionError': ['ArithmeticError'], 'NotImplementedError': ['RuntimeError']}
		return any(p in names for p in parents.get(e.kind, []))

	def x_With(self, s, env, module):
		for i in s.items:
			v = self.eval(i.context_expr, env, module)
			if i.optional_vars is not None:
				self.assign(i.optional_vars, v, env, module)
		self.exec_block(s.body, env, module)

	def x_Global(self, s, env, module):
		env.globals.update(s.names)

	def x_Nonlocal(self, s, env, module):
		env.nonlocals.update(s.names)

	def x_Delete(self, s, env, module):
		for t in s.targets:
			if isinstance(t, ast.Name):
				env.vars.pop(t.id, None)
			elif isinstance(t, ast.Subscript):
				o = self.eval(t.value, env, module)
				k = self.eval(t.slice, env, module)
				if isinstance(o, (dict, list)):
					try:
						del o[k]
					except Exception as e:
						raise PyRaise(type(e).__name__, str(e))
				else:
					raise Unsupported('del')
			else:
				raise Unsupported('del')

	# ---- expressions
	def eval(self, e, env, module):
		self.tick()
		m = getattr(self, 'e_' + type(e).__name__, None)
		if m is None:
			raise Unsupported(f'expression {type(e).__name__}')
		return m(e, env, module)

	def e_Constant(self, e, env, module):
		return e.value

	def e_Name(self, e, env, module):
		v = self.lookup(env, e.id)
		return v.force() if isinstance(v, LazyGen) else v

	def e_Attribute(self, e, env, module):
		return self.getattr(self.eval(e.value, env, module), e.attr)

	def e_Tuple(self, e, env, module):
		return tuple(self.elts(e.elts, env, module))

	def e_List(self, e, env, module):
		l = self.e_List_(e, env, module)
		if self.generic_stack and isinstance(l, list):
			self.fresh_lists.append(l)
		return l

	def e_List_(self, e, env, module):
		return list(self.elts(e.elts, env, module))

	def e_Set(self, e, env, module):
		r = self.elts(e.elts, env, module)
		return self.make_set(r)

	def elts(self, elts, env, module):
		out = []
		for x in elts:
			if isinstance(x, ast.Starred):
				out.extend(self.iterate(self.eval(x.value, env, module), star=True))
			else:
				out.append(self.eval(x, env, module))
		return out

	def e_Dict(self, e, env, module):
		d = {}
		for k, v in zip(e.keys, e.values):
			if k is None:
				o = self.eval(v, env, module)
				if not isinstance(o, dict):
					raise Unsupported('** of non dict')
				d.update(o)
			else:
				self.dict_set(d, self.eval(k, env, module), self.eval(v, env, module))
		return d

	def dict_set(self, d, k, v):
		d[self.key(k)] = v

	def key(self, k):
		return hkey(k)

	def e_UnaryOp(self, e, env, module):
		op = UNOPS[type(e.op)]
		v = self.eval(e.operand, env, module)
		if op == 'not':
			if isinstance(v, AV) and hasattr(v, 'a_not'):
				return v.a_not(self)
			return not self.truth(v)
		return self.unop(op, v)

	def unop(self, op, v):
		if isinstance(v, AV):
			return v.a_unop(self, op)
		if isinstance(v, Obj):
			m = v.cls.lookup({'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op])
			if m is None:
				raise PyRaise('TypeError', f'bad operand type for unary {op}')
			return self.call(self.bind(m, v, v.cls), [], {})
		try:
			return -v if op == '-' else +v if op == '+' else ~v
		except TypeError as ex:
			raise PyRaise('TypeError', str(ex))

	def e_BinOp(self, e, env, module):
		return self.binop(BINOPS[type(e.op)], self.eval(e.left, env, module), self.eval(e.right, env, module))

	def binop(self, op, a, b):
		r = self.world.binop(self, op, a, b)
		if r is not NotImplemented:
			return r
		if isinstance(a, Obj):
			m = a.cls.lookup(f'__{DUNDER[op]}__')
			if m is not None:
				r = self.call(self.bind(m, a, a.cls), [b], {})
				if r is not NotImplemented:
					return r
		if isinstance(a, AV):
			r = a.a_binop(self, op, b, False)
			if r is not NotImplemented:
				return r
		if isinstance(b, Obj):
			m = b.cls.lookup(f'__r{DUNDER[op]}__')
			if m is not None:
				r = self.call(self.bind(m, b, b.cls), [a], {})
				if r is not NotImplemented:
					return r
		if isinstance(b, AV):
			r = b.a_binop(self, op, a, True)
			if r is not NotImplemented:
				return r
		if isinstance(a, AV) or isinstance(b, AV):
			if isinstance(a, (Top,)) or isinstance(b, Top):
				return Top('operand')
			return Top(f'{a} {op} {b}')
		if isinstance(a, HOST) and isinstance(b, HOST):
			try:
				return host_binop(op, a, b)
			except (TypeError, ZeroDivisionError, ValueError, OverflowError) as ex:
				raise PyRaise(type(ex).__name__, str(ex))
		raise PyRaise('TypeError', f'unsupported operand type(s) for {op}: {a!r} and {b!r}')

	def e_BoolOp(self, e, env, module):
		is_and = isinstance(e.op, ast.And)
		v = None
		for i, x in enumerate(e.values):
			v = self.eval(x, env, module)
			if i == len(e.values) - 1:
				return v
			t = self.truth(v)
			if is_and and not t:
				return v if not isinstance(v, AV) else False
			if not is_and and t:
				return v if not (isinstance(v, AV) and getattr(v, 'is_boolean', False)) else True
		return v

	def e_Compare(self, e, env, module):
		left = self.eval(e.left, env, module)
		res = True
		for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
			right = self.eval(r, env, module)
			res = self.compare(CMPOPS[type(op)], left, right)
			if i < len(e.ops) - 1:
				if not self.truth(res):
					return False
			left = right
		return res

	def compare(self, op, a, b):
		if op in ('in', 'not in'):
			r = self.contains(b, a)
			return self.not_(r) if op == 'not in' else r
		h = getattr(self.world, 'compare', None)
		if h is not None:
			r = h(self, op, a, b)
			if r is not NotImplemented:
				return r
		if op in ('is', 'is not'):
			if isinstance(a, AV) or isinstance(b, AV):
				if a is b:
					return op == 'is'
				for x, y, refl in ((a, b, False), (b, a, True)):
					if isinstance(x, AV):
						r = x.a_cmp(self, op, y, refl)
						if r is not NotImplemented:
							return r
				if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
					o = b if (a is None or isinstance(a, bool)) else a
					if isinstance(o, Top):
						return Top('is')
					return op == 'is not'
				return Top('identity')
			if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)):
				r = (type(a) is type(b)) and a == b
			else:
				r = a is b or (isinstance(a, Bound) and a == b)
			return r if op == 'is' else not r
		for x, y, o, refl in ((a, b, op, False), (b, a, SWAP[op], True)):
			if isinstance(x, AV):
				r = x.a_cmp(self, o, y, refl)
				if r is not NotImplemented:
					return r
			elif isinstance(x, Obj):
				m = x.cls.lookup({'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[o])
				if m is not None:
					return self.call(self.bind(m, x, x.cls), [y], {})
				if o == '!=':
					m = x.cls.lookup('__eq__')
					if m is not None:
						return self.not_(self.call(self.bind(m, x, x.cls), [y], {}))
		if isinstance(a, AV) or isinstance(b, AV):
			if isinstance(a, HOST) or isinstance(b, HOST) or True:
				return Top(f'{a} {op} {b}')
		if op == '==' or op == '!=':
			r = self.host_eq(a, b)
			return r if op == '==' else self.not_(r)
		try:
			return host_cmp(op, a, b)
		except TypeError as ex:
			raise PyRaise('TypeError', str(ex))

	def host_eq(self, a, b):
		if type(a) in (tuple, list) and type(b) is type(a):
			if len(a) != len(b):
				return False
			und = None
			for x, y in zip(a, b):
				if x is y:
					continue
				r = self.compare('==', x, y)
				if isinstance(r, AV):
					und = r if und is None else Top('tuple equality')
				elif not self.truth(r):
					return False
			return True if und is None else und
		if isinstance(a, (Obj, PyClass, PyFunc, Bound, Cached)) or isinstance(b, (Obj, PyClass, PyFunc, Bound, Cached)):
			return a is b or (isinstance(a, Bound) and a == b)
		return a == b

	def not_(self, r):
		if isinstance(r, AV):
			if hasattr(r, 'a_not'):
				return r.a_not(self)
			if isinstance(r, Top):
				return r
			return Top(f'not {r}')
		return not r

	def contains(self, c, x):
		h = getattr(self.world, 'contains', None)
		if h is not None:
			r = h(self, c, x)
			if r is not NotImplemented:
				return r
		if isinstance(c, AV):
			return c.a_contains(self, x)
		if isinstance(c, Obj):
			m = c.cls.lookup('__contains__')
			if m is not None:
				return self.call(self.bind(m, c, c.cls), [x], {})
			raise Unsupported('contains')
		if isinstance(c, dict):
			return self.dict_has(c, x)
		if isinstance(c, (set, frozenset)):
			if isinstance(x, AV) and hasattr(x, 'a_in_host'):
				return x.a_in_host(self, c)
			return self.key(x) in c
		if isinstance(c, str):
			if isinstance(x, AV):
				if hasattr(x, 'a_in_host'):
					return x.a_in_host(self, c)
				return Top('in str')
			return x in c
		if isinstance(x, AV) and hasattr(x, 'a_in_host'):
			return x.a_in_host(self, list(self.iterate(c)))
		und = None
		for y in self.iterate(c):
			if y is x:
				return True
			r = self.compare('==', x, y)
			if isinstance(r, AV):
				und = r if und is None else Top('membership')
			elif self.truth(r):
				return True
		return False if und is None else und

	def dict_has(self, d, x):
		if isinstance(x, AV) and hasattr(x, 'a_in_host') and not hasattr(x, 'a_key'):
			return x.a_in_host(self, list(d))
		return self.key(x) in d

	def e_IfExp(self, e, env, module):
		t = self.eval(e.test, env, module)
		if isinstance(t, AV) and hasattr(t, 'a_select') and isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant):
			r = t.a_select(self, e.body.value, e.orelse.value)
			if r is not NotImplemented:
				return r
		if self.truth(t):
			return self.eval(e.body, env, module)
		return self.eval(e.orelse, env, module)

	def e_Lambda(self, e, env, module):
		return self.make_func(e, env, module, '<lambda>')

	def e_NamedExpr(self, e, env, module):
		v = self.eval(e.value, env, module)
		self.assign(e.target, v, env, module)
		return v

	def e_Slice(self, e, env, module):
		f = lambda x: None if x is None else self.eval(x, env, module)
		lo, up, st = f(e.lower), f(e.upper), f(e.step)
		if any(isinstance(x, AV) for x in (lo, up, st)):
			return SliceV(lo, up, st)
		return slice(lo, up, st)

	def e_Subscript(self, e, env, module):
		o = self.eval(e.value, env, module)
		k = self.eval(e.slice, env, module)
		return self.getitem(o, k)

	def e_Starred(self, e, env, module):
		raise Unsupported('starred')

	def e_JoinedStr(self, e, env, module):
		parts = []
		for v in e.values:
			if isinstance(v, ast.Constant):
				parts.append(v.value)
			else:
				x = self.eval(v.value, env, module)
				if v.format_spec is not None or v.conversion not in (-1, 115, 114):
					if isinstance(x, (int, float, str)) and v.format_spec is not None:
						spec = self.eval(v.format_spec, env, module)
						if isinstance(spec, str):
							try:
								parts.append(format(x, spec))
							except ValueError as ex:
								raise PyRaise('ValueError', str(ex))
							continue
					parts.append(Top('format'))
				elif v.conversion == 114:
					parts.append(repr(x) if isinstance(x, (int, float, str, bool, type(None))) else Top('repr'))
				else:
					parts.append(self.to_str(x))
		return self.concat_str(parts)

	def concat_str(self, parts):
		if all(isinstance(p, str) for p in parts):
			return ''.join(parts)
		h = getattr(self.world, 'concat_str', None)
		if h is not None:
			return h(self, parts)
		return Top('string with abstract parts')

	def to_str(self, x):
		if isinstance(x, AV):
			return x.a_str(self)
		if isinstance(x, Obj):
			m = x.cls.lookup('__str__') or x.cls.lookup('__repr__')
			if m is not None:
				return self.call(self.bind(m, x, x.cls), [], {})
			return f'<{x.cls.qual} object>'
		if isinstance(x, PyClass):
			return f"<class '{x.qual}'>"
		if isinstance(x, (PyFunc, Bound, Cached, Partial, HostFn)):
			return Top('str of function')
		if isinstance(x, (tuple, list)):
			inner = [self.to_repr(y) for y in x]
			if all(isinstance(i, str) for i in inner):
				if isinstance(x, list):
					return '[' + ', '.join(inner) + ']'
				return '(' + ', '.join(inner) + (',)' if len(inner) == 1 else ')')
			if getattr(self.world, 'str_tokens', False):
				parts = ['[' if isinstance(x, list) else '(']
				for n, i in enumerate(inner):
					parts += ([', '] if n else []) + [i]
				return self.concat_str(parts + [']' if isinstance(x, list) else ')'])
			return Top('str of container')
		return str(x)

	def to_repr(self, x):
		if isinstance(x, str):
			return repr(x)
		return self.to_str(x)

	def e_ListComp(self, e, env, module):
		r = self.comp(e, env, module, lambda en: self.eval(e.elt, en, module))
		return r

	def e_GeneratorExp(self, e, env, module):
		r = self.comp(e, env, module, lambda en: self.eval(e.elt, en, module))
		return r if isinstance(r, AV) else GenList(r)

	def e_SetComp(self, e, env, module):
		r = self.comp(e, env, module, lambda en: self.eval(e.elt, en, module))
		return r if isinstance(r, AV) else self.make_set(r)

	def make_set(self, r):
		h = getattr(self.world, 'make_set', None)
		if h is not None:
			x = h(self, r)
			if x is not NotImplemented:
				return x
		return set(self.key(x) for x in r)

	def e_DictComp(self, e, env, module):
		r = self.comp(e, env, module, lambda en: (self.eval(e.key, en, module), self.eval(e.value, en, module)))
		if isinstance(r, AV):
			return Top('symbolic dict comprehension')
		d = {}
		for k, v in r:
			self.dict_set(d, k, v)
		return d

	def comp(self, e, env, module, elt, *first):
		out = []
		gens = e.generators
		def rec(i, en):
			if i == len(gens):
				out.append(elt(en))
				return None
			g = gens[i]
			it = first[0] if first and not i else self.eval(g.iter, en if i else env, module)
			gen = self.generic(it)
			if gen is not None:
				if i != 0 or len(gens) != 1:
					raise Unsupported('nested symbolic comprehension')
				elem, binder = gen
				en2 = Env(en)
				self.generic_stack.append(binder)
				try:
					self.assign(g.target, elem, en2, module)
					guards = []
					for c in g.ifs:
						cv = self.eval(c, en2, module)
						if isinstance(cv, AV) and hasattr(cv, 'a_guard'):
							guards.append(cv.a_guard(self))
						elif isinstance(cv, AV):
							guards.append(cv)
						elif not self.truth(cv):
							guards.append(False)
					v = elt(en2)
				finally:
					self.generic_stack.pop()
				return binder.seq(self, v, guards)
			for x in self.iterate(it):
				en2 = Env(en)
				self.assign(g.target, x, en2, module)
				ok = True
				for c in g.ifs:
					if not self.truth(self.eval(c, en2, module)):
						ok = False
						break
				if ok:
					r = rec(i + 1, en2)
					if r is not None:
						raise Unsupported('nested symbolic comprehension')
			return None
		r = rec(0, Env(env))
		return out if r is None else r

	def e_Yield(self, e, env, module):
		v = self.eval(e.value, env, module) if e.value else None
		self._yields(env).append(v)
		return None

	def e_YieldFrom(self, e, env, module):
		it = self.eval(e.value, env, module)
		self._yields(env).extend(self.iterate(it))
		return None

	def _yields(self, env):
		e = env
		while e is not None:
			if '%yields' in e.vars:
				return e.vars['%yields']
			e = e.parent
		raise Unsupported('yield outside function')

	def e_Call(self, e, env, module):
		# super() needs the frame
		if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
			en = env
			while en is not None and '%self' not in en.vars:
				en = en.parent
			if en is None:
				raise Unsupported('super()')
			return Super(en.vars['%cls'], en.vars['%self'])
		f = self.eval(e.func, env, module)
		args = self.elts(e.args, env, module)
		kw = {}
		for k in e.keywords:
			v = self.eval(k.value, env, module)
			if k.arg is None:
				if not isinstance(v, dict):
					raise Unsupported('** of non dict')
				kw.update(v)
			else:
				kw[k.arg] = v
		return self.call(f, args, kw, e)

	# ---- protocol helpers
	def truth(self, v):
		if isinstance(v, AV):
			r = v.a_bool(self)
			return r
		if isinstance(v, Obj):
			m = v.cls.lookup('__bool__')
			if m is not None:
				return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
			m = v.cls.lookup('__len__')
			if m is not None:
				r = self.call(self.bind(m, v, v.cls), [], {})
				return self.truth(self.compare('!=', r, 0))
			return True
		if isinstance(v, (PyFunc, PyClass, Bound, Cached, Partial, HostFn, Module)):
			return True
		return bool(v)

	def generic(self, v):
		if isinstance(v, AV):
			return v.a_generic(self)
		return None

	def iterate(self, v, want=None, star=False):
		if isinstance(v, AV):
			if hasattr(v, 'a_unpack') and want is not None:
				return v.a_unpack(self, want)
			if star and hasattr(v, 'a_star'):
				return v.a_star(self)
			return v.a_iter(self)
		if isinstance(v, Obj):
			m = v.cls.lookup('__iter__')
			if m is not None:
				return self.iterate(self.call(self.bind(m, v, v.cls), [], {}))
			raise Unsupported(f'iterate {v}')
		if isinstance(v, dict):
			return [unkey(k) for k in v]
		if isinstance(v, (set, frozenset)):
			return [unkey(k) for k in v]
		if isinstance(v, (str, list, tuple, range)) or hasattr(v, '__next__') or hasattr(v, '__iter__'):
			return v
		if not (v is None or isinstance(v, (int, float, complex))):
			raise Unsupported(f'iteration over {v!r}')
		raise PyRaise('TypeError', f'{v!r} is not iterable')

	def length(self, v):
		if isinstance(v, AV):
			return v.a_len(self)
		if isinstance(v, Obj):
			m = v.cls.lookup('__len__')
			if m is None:
				raise PyRaise('TypeError', 'no len')
			return self.call(self.bind(m, v, v.cls), [], {})
		try:
			return len(v)
		except TypeError as ex:
			raise PyRaise('TypeError', str(ex))

	def getattr(self, o, name):
		h = getattr(self.world, 'getattr', None)
		if h is not None:
			r = h(self, o, name)
			if r is not NotImplemented:
				return r
		if isinstance(o, AV):
			return o.a_getattr(self, name)
		if isinstance(o, Obj):
			c = o.cls.lookup(name)
			if isinstance(c, Prop) and not c.cached:
				return self.call(c.fget, [o], {})
			if name in o.attrs:
				return o.attrs[name]
			if c is not None or any(name in k.attrs for k in o.cls.mro):
				return self.bind(c, o, o.cls, name)
			if name == '__class__':
				return o.cls
			if name == '__dict__':
				return o.attrs
			ga = o.cls.lookup('__getattr__')
			if ga is not None:
				return self.call(self.bind(ga, o, o.cls), [name], {})
			raise PyRaise('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")
		if isinstance(o, PyClass):
			c = o.lookup(name)
			if c is None and not any(name in k.attrs for k in o.mro):
				if name == '__name__':
					return o.name
				if name == '__mro__':
					return tuple(o.mro)
				if name == '__new__':
					return HostFn(lambda I, a, k: Obj(a[0]), '__new__')
				raise PyRaise('AttributeError', f"class {o.name} has no attribute '{name}'")
			if isinstance(c, StaticM):
				return c.fn
			if isinstance(c, ClassM):
				return Bound(c.fn, o)
			if isinstance(c, Obj):
				g = c.cls.lookup('__get__')
				if g is not None:
					return self.call(self.bind(g, c, c.cls), [None, o], {})
			return c
		if isinstance(o, Module):
			if name in o.env.vars:
				return o.env.vars[name]
			if self.module_path(f'{o.name}.{name}'):
				return self.load(f'{o.name}.{name}')
			raise PyRaise('AttributeError', f'module {o.name} has no attribute {name}')
		if isinstance(o, Super):
			mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
			i = mro.index(o.cls)
			for c in mro[i + 1:]:
				if name in c.attrs:
					return self.bind(c.attrs[name], o.obj, c)
			if name in ('__init__', '__init_subclass__'):
				return HostFn(lambda I, a, k: None, 'object.__init__')
			raise PyRaise('AttributeError', name)
		if isinstance(o, (PyFunc, Cached)):
			if name == '__name__':
				return o.name
			if name == '__doc__':
				return None
			if name in ('cache_clear',):
				return HostFn(lambda I, a, k: o.memo.clear(), name)
			f = o.fn if isinstance(o, Cached) else o
			if isinstance(f, PyFunc) and name in f.attrs:
				return f.attrs[name]
			if name == '__wrapped__' and isinstance(o, Cached):
				return o.fn
			raise PyRaise('AttributeError', name)
		if isinstance(o, Bound):
			if name == '__self__':
				return o.self_
			if name == '__func__':
				return o.fn
			return self.getattr(o.fn, name)
		if isinstance(o, HOST) or isinstance(o, GenList):
			return self.host_attr(o, name)
		if isinstance(o, HostType):
			if o.name == 'dict' and name == 'fromkeys':
				def fromkeys(I, a, k):
					d = {}
					v = a[1] if len(a) > 1 else k.get('value')
					for x in I.iterate(a[0]):
						I.setitem(d, x, v)
					return d
				return HostFn(fromkeys, name)
			if o.name in ('str', 'list', 'dict', 'tuple', 'set', 'frozenset', 'int', 'float') and not name.startswith('__') and name != 'from_bytes' and name != 'maketrans' and name != 'fromhex':
				return HostFn(lambda I, a, k: I.call(I.getattr(a[0], name), list(a[1:]), k), name)
		raise Unsupported(f'getattr {name} on {type(o).__name__}')

	def bind(self, c, o, owner, name=None):
		if isinstance(c, (PyFunc, Cached)):
			return Bound(c, o)
		if isinstance(c, Prop):
			v = self.call(c.fget, [o], {})
			if c.cached and name is not None and isinstance(o, Obj):
				o.attrs[name] = v
				h = getattr(self.world, 'on_cached', None)
				if h is not None:
					h(self, name, v)
			return v
		if isinstance(c, StaticM):
			return c.fn
		if isinstance(c, ClassM):
			return Bound(c.fn, o.cls if isinstance(o, Obj) else o)
		if isinstance(c, Obj):
			g = c.cls.lookup('__get__')
			if g is not None:
				return self.call(self.bind(g, c, c.cls), [o, owner], {})
			return c
		if isinstance(c, HostFn):
			return Bound(c, o)
		if isinstance(c, Partial):
			return c
		return c

	STR_M = {'join', 'split', 'format', 'replace', 'index', 'find', 'startswith', 'endswith', 'strip', 'lower', 'upper', 'count', 'isdigit', 'isalpha', 'zfill', 'rjust', 'ljust', 'encode', 'lstrip', 'rstrip', 'partition', 'rpartition', 'rsplit', 'rfind', 'isalnum', 'title', 'center', 'translate', 'isupper', 'islower', 'isidentifier'}

	def host_attr(self, o, name):
		h = getattr(self.world, 'host_attr', None)
		if h is not None:
			r = h(self, o, name)
			if r is not NotImplemented:
				return r
		if not hasattr(o, name):
			raise PyRaise('AttributeError', f"'{type(o).__name__}' object has no attribute '{name}'")
		if isinstance(o, dict):
			def dm(I, a, k):
				if name == 'items':
					return [(unkey(kk), v) for kk, v in o.items()]
				if name == 'keys':
					return [unkey(kk) for kk in o]
				if name == 'values':
					return list(o.values())
				if name == 'get':
					return o.get(I.key(a[0]), a[1] if len(a) > 1 else k.get('default'))
				if name == 'setdefault':
					return o.setdefault(I.key(a[0]), a[1] if len(a) > 1 else None)
				if name == 'pop':
					kk = I.key(a[0])
					if kk in o:
						return o.pop(kk)
					if len(a) > 1:
						return a[1]
					raise PyRaise('KeyError', str(kk))
				if name == 'update':
					for x in a:
						if isinstance(x, dict):
							o.update(x)
						else:
							for kk, v in I.iterate(x):
								o[I.key(kk)] = v
					for kk, v in k.items():
						o[kk] = v
					return None
				if name == 'clear':
					o.clear()
					return None
				if name == 'copy':
					return dict(o)
				if name == '__contains__':
					return I.dict_has(o, a[0])
				if name == '__getitem__':
					return I.getitem(o, a[0])
				raise Unsupported(f'dict.{name}')
			return HostFn(dm, f'dict.{name}')
		if isinstance(o, list):
			def lm(I, a, k):
				if I.generic_stack and name in ('append', 'extend', 'insert', 'remove', 'pop') and not any(l is o for l in I.fresh_lists):
					raise Unsupported('list grown by a symbolic loop')
				if name == 'append':
					o.append(a[0]); return None
				if name == 'extend':
					o.extend(I.iterate(a[0])); return None
				if name == 'insert':
					o.insert(a[0], a[1]); return None
				if name == 'pop':
					try:
						return o.pop(*a)
					except IndexError as ex:
						raise PyRaise('IndexError', str(ex))
				if name == 'copy':
					return list(o)
				if name == 'clear':
					o.clear(); return None
				if name == 'reverse':
					o.reverse(); return None
				if name == 'index':
					for i, y in enumerate(o):
						if y is a[0] or I.truth(I.compare('==', y, a[0])):
							return i
					raise PyRaise('ValueError', 'not in list')
				if name == 'count':
					return sum(1 for y in o if y is a[0] or I.truth(I.compare('==', y, a[0])))
				if name == 'remove':
					for i, y in enumerate(o):
						if y is a[0] or I.truth(I.compare('==', y, a[0])):
							del o[i]
							return None
					raise PyRaise('ValueError', 'not in list')
				if name == 'sort':
					o[:] = I.sort_values(o, k.get('key'), k.get('reverse', False)); return None
				raise Unsupported(f'list.{name}')
			return HostFn(lm, f'list.{name}')
		if isinstance(o, (set, frozenset)):
			def sm(I, a, k):
				if name == 'add':
					o.add(I.key(a[0])); return None
				if name == 'update':
					for x in a:
						o.update(I.key(y) for y in I.iterate(x))
					return None
				others = [set(I.key(y) for y in I.iterate(x)) for x in a]
				if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'):
					return getattr(o, name)(*others)
				if name == 'copy':
					return set(o)
				if name in ('discard', 'remove'):
					o.discard(I.key(a[0])); return None
				raise Unsupported(f'set.{name}')
			return HostFn(sm, f'set.{name}')
		if isinstance(o, tuple):
			def tm(I, a, k):
				if name == 'index':
					for i, y in enumerate(o):
						if y is a[0] or I.truth(I.compare('==', y, a[0])):
							return i
					raise PyRaise('ValueError', 'tuple.index(x): x not in tuple')
				if name == 'count':
					return sum(1 for y in o if y is a[0] or I.truth(I.compare('==', y, a[0])))
				raise Unsupported(f'tuple.{name}')
			return HostFn(tm, f'tuple.{name}')
		if isinstance(o, str):
			if name not in self.STR_M:
				raise Unsupported(f'str.{name}')
			def strm(I, a, k):
				if name == 'join':
					if isinstance(a[0], AV) and hasattr(a[0], 'a_join'):
						return a[0].a_join(I, o)
					parts = list(I.iterate(a[0]))
					if all(isinstance(p, str) for p in parts):
						return o.join(parts)
					h2 = getattr(I.world, 'join_str', None)
					if h2 is not None:
						return h2(I, o, parts)
					return Top('join of abstract strings')
				if any(isinstance(x, AV) for x in a):
					if name == 'format':
						return Top('format')
					h2 = getattr(I.world, 'str_method', None)
					if h2 is not None:
						return h2(I, o, name, a, k)
					return Top(f'str.{name}')
				try:
					return getattr(o, name)(*a, **k)
				except (ValueError, TypeError, IndexError, KeyError) as ex:
					raise PyRaise(type(ex).__name__, str(ex))
			return HostFn(strm, f'str.{name}')
		v = getattr(o, name)
		if callable(v):
			return HostFn(lambda I, a, k: v(*a, **k), name)
		return v

	def sort_values(self, vals, key=None, reverse=False):
		vals = list(vals)
		ks = [self.call(key, [v], {}) for v in vals] if key is not None else vals
		if any(isinstance(k, AV) for k in ks):
			if all(isinstance(k, AV) and hasattr(k, 'a_sortkey') for k in ks):
				ks = [k.a_sortkey() for k in ks]
			elif len(vals) <= 1:
				return vals
			else:
				raise Unsupported('sort of abstract values')
		try:
			idx = sorted(range(len(vals)), key=lambda i: ks[i], reverse=bool(reverse))
		except TypeError as ex:
			raise PyRaise('TypeError', str(ex))
		return [vals[i] for i in idx]

	def setattr(self, o, name, v):
		h = getattr(self.world, 'setattr', None)
		if h is not None:
			r = h(self, o, name, v)
			if r is not NotImplemented:
				return
		if isinstance(o, AV):
			return o.a_setattr(self, name, v)
		if isinstance(o, Obj):
			m = o.cls.lookup('__setattr__')
			if m is not None:
				self.call(self.bind(m, o, o.cls), [name, v], {})
				return
			o.attrs[name] = v
		elif isinstance(o, PyClass):
			o.attrs[name] = v
			self._own(v, o)
		elif isinstance(o, PyFunc):
			o.attrs[name] = v
		elif isinstance(o, Cached):
			o.fn.attrs[name] = v
		elif isinstance(o, Module):
			o.env.vars[name] = v
		else:
			raise Unsupported(f'setattr on {type(o).__name__}')

	def getitem(self, o, k):
		h = getattr(self.world, 'getitem', None)
		if h is not None:
			r = h(self, o, k)
			if r is not NotImplemented:
				return r
		if isinstance(o, AV):
			return o.a_getitem(self, k)
		if isinstance(o, Obj):
			m = o.cls.lookup('__getitem__')
			if m is None:
				raise PyRaise('TypeError', f"'{o.cls.name}' object is not subscriptable")
			return self.call(self.bind(m, o, o.cls), [k], {})
		if isinstance(o, dict):
			kk = self.key(k)
			if isinstance(k, AV) and hasattr(k, 'a_index_dict'):
				return k.a_index_dict(self, o)
			if kk not in o:
				raise PyRaise('KeyError', str(k))
			return o[kk]
		if isinstance(o, PyClass):
			return o
		if isinstance(k, AV):
			if hasattr(k, 'a_index_host'):
				return k.a_index_host(self, o)
			return Top(f'host sequence indexed by {k}')
		try:
			return o[k]
		except (IndexError, TypeError, KeyError) as ex:
			raise PyRaise(type(ex).__name__, str(ex))

	def setitem(self, o, k, v):
		h = getattr(self.world, 'setitem', None)
		if h is not None:
			r = h(self, o, k, v)
			if r is not NotImplemented:
				return
		if isinstance(o, AV):
			return o.a_setitem(self, k, v)
		if isinstance(o, Obj):
			m = o.cls.lookup('__setitem__')
			if m is None:
				raise PyRaise('TypeError', 'item assignment')
			return self.call(self.bind(m, o, o.cls), [k, v], {})
		if isinstance(o, dict):
			o[self.key(k)] = v
			return
		if isinstance(o, list):
			if isinstance(k, AV):
				raise Unsupported('abstract list store')
			try:
				o[k] = v
			except (IndexError, TypeError) as ex:
				raise PyRaise(type(ex).__name__, str(ex))
			return
		raise PyRaise('TypeError', f"'{type(o).__name__}' object does not support item assignment")

	def isinstance_(self, v, cls):
		if isinstance(cls, tuple):
			und = None
			for c in cls:
				r = self.isinstance_(v, c)
				if isinstance(r, AV):
					und = r
				elif r:
					return True
			return False if und is None else und
		if isinstance(v, AV):
			r = v.a_isinstance(self, cls)
			if r is None:
				return Top(f'isinstance({v})')
			return r
		if isinstance(v, Obj):
			if isinstance(cls, PyClass):
				return cls in v.cls.mro
			if isinstance(cls, Ext):
				return any(b == cls for b in v.cls.ext_bases())
			if cls is object_cls:
				return True
			return False
		if isinstance(cls, HostType):
			return isinstance(v, cls.types) and not (cls.name != 'bool' and cls.name == 'int' and False)
		if isinstance(v, PyClass) and isinstance(cls, HostType):
			return cls.name == 'type'
		if isinstance(cls, Ext):
			p = cls.path
			if p.startswith(('collections.abc', 'typing', 'numbers')):
				leaf = p.split('.')[-1]
				m = {'Iterable': (str, list, tuple, dict, set, range, frozenset), 'Sequence': (str, list, tuple, range), 'Mapping': (dict,), 'Number': (int, float, complex), 'Integral': (int,), 'Real': (int, float)}
				if leaf in m and isinstance(v, HOST):
					return isinstance(v, m[leaf])
				if leaf == 'Callable':
					return isinstance(v, (PyFunc, Bound, Cached, Partial, HostFn, PyClass))
				if leaf in m:
					return False
			if isinstance(v, HOST):
				return False
			return Top(f'isinstance {p}')
		return False

	# ---- calls
	def call(self, f, args, kw, node=None):
		self.tick()
		h = getattr(self.world, 'call', None)
		if h is not None:
			r = h(self, f, args, kw)
			if r is not NotImplemented:
				return r
		if isinstance(f, Bound):
			return self.call(f.fn, [f.self_] + list(args), kw, node)
		if isinstance(f, PyFunc):
			return self.call_func(f, args, kw)
		if isinstance(f, Cached):
			return self.call_cached(f, args, kw)
		if isinstance(f, HostFn):
			return f.fn(self, list(args), kw)
		if isinstance(f, AV):
			return f.a_call(self, list(args), kw)
		if isinstance(f, PyClass):
			return self.instantiate(f, args, kw)
		if isinstance(f, Partial):
			return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw})
		if isinstance(f, HostType):
			return f.make(self, list(args), kw)
		if isinstance(f, Obj):
			m = f.cls.lookup('__call__')
			if m is None:
				ga = f.cls.lookup('__getattr__')
				raise PyRaise('TypeError', f"'{f.cls.name}' object is not callable")
			return self.call(self.bind(m, f, f.cls), args, kw)
		if isinstance(f, (StaticM, ClassM)):
			return self.call(f.fn, args, kw)
		raise PyRaise('TypeError', f'{f!r} is not callable')

	def call_cached(self, f, args, kw):
		try:
			key = (tuple(self.key(a) for a in args), tuple(sorted((k, self.key(v)) for k, v in kw.items())))
			hash(key)
		except TypeError:
			raise PyRaise('TypeError', 'unhashable argument to cached function')
		if key in f.memo:
			return f.memo[key]
		v = self.call(f.fn, args, kw)
		f.memo[key] = v
		h = getattr(self.world, 'on_cached', None)
		if h is not None:
			h(self, f.name, v)
		return v

	def instantiate(self, c, args, kw):
		h = self.world.intercepts.get(c.qual)
		if h is not None:
			r = h(self, list(args), kw)
			if r is not NotImplemented:
				return r
		o = Obj(c)
		init = c.lookup('__init__')
		if init is not None:
			self.call(self.bind(init, o, c), args, kw)
		elif (args or kw) and not c.ext_bases():
			raise PyRaise('TypeError', f'{c.name}() takes no arguments')
		return o

	def bind_args(self, f, args, kw):
		a = f.node.args
		pos = [x.arg for x in a.posonlyargs + a.args]
		vars = {}
		args = list(args)
		kw = dict(kw)
		n = len(pos)
		for name, v in zip(pos, args):
			vars[name] = v
		if len(args) > n:
			if a.vararg is None:
				raise PyRaise('TypeError', f'{f.name}() takes {n} positional arguments but {len(args)} were given')
			vars[a.vararg.arg] = tuple(args[n:])
		elif a.vararg is not None:
			vars[a.vararg.arg] = ()
		nd = len(f.defaults)
		for i, name in enumerate(pos):
			if name in vars:
				if name in kw:
					raise PyRaise('TypeError', f'multiple values for {name}')
				continue
			if name in kw:
				vars[name] = kw.pop(name)
			elif i >= n - nd:
				vars[name] = f.defaults[i - (n - nd)]
			else:
				raise PyRaise('TypeError', f"{f.name}() missing required argument '{name}'")
		for x, d in zip(a.kwonlyargs, f.kwdefaults):
			if x.arg in kw:
				vars[x.arg] = kw.pop(x.arg)
			elif d is not None:
				vars[x.arg] = d[0]
			else:
				raise PyRaise('TypeError', f'missing keyword-only {x.arg}')
		if a.kwarg is not None:
			vars[a.kwarg.arg] = kw
		elif kw:
			raise PyRaise('TypeError', f'{f.name}() got an unexpected keyword argument {list(kw)[0]}')
		return vars

	def call_func(self, f, args, kw):
		ic = self.world.intercepts.get(f.qual)
		if ic is not None:
			r = ic(self, list(args), kw)
			if r is not NotImplemented:
				return r
		self.called.add(f.qual)
		self.depth += 1
		if self.depth > 180:
			self.depth = 0
			raise PyRaise('RecursionError', f.qual)
		self.stack.append(f.qual)
		try:
			env = Env(f.env)
			env.fn = f.name
			env.vars.update(self.bind_args(f, args, kw))
			owner = getattr(f, 'owner', None)
			if owner is not None and args:
				env.vars['%cls'] = owner
				env.vars['%self'] = args[0]
			if isinstance(f.node, ast.Lambda):
				return self.eval(f.node.body, env, f.module)
			if f.is_gen:
				env.vars['%yields'] = ys = []
				try:
					self.exec_block(f.node.body, env, f.module)
				except _Return:
					pass
				return GenList(ys)
			try:
				self.exec_block(f.node.body, env, f.module)
			except _Return as r:
				return r.v
			return None
		finally:
			self.depth -= 1
			if self.stack:
				self.stack.pop()

	def call_ext(self, path, args, kw):
		r = self.world.ext_call(self, path, args, kw)
		if r is not NotImplemented:
			return r
		g = GENERIC_EXT.get(path)
		if g is not None:
			return g(self, args, kw)
		if path[:6] == 'numpy.' and path[6:] in ARRAY_METHODS and args and isinstance(args[0], AV) and not isinstance(args[0], (Top, Ext)):
			# the function of that name is the method of that name
			m = self.getattr(args[0], path[6:])
			if not isinstance(m, Top):
				return self.call(m, args[1:], kw)
		self.imprecise.append(f'unmodelled {path}')
		return Top(f'unmodelled call {path}')

	# ---- builtins
	def _builtins(self):
		B = {}
		def reg(name):
			def w(f):
				B[name] = HostFn(f, name)
				return f
			return w
		for t, types in (('int', (int,)), ('float', (float,)), ('str', (str,)), ('bool', (bool,)), ('list', (list,)), ('tuple', (tuple,)),
				('dict', (dict,)), ('set', (set,)), ('frozenset', (frozenset,)), ('bytes', (bytes,)), ('complex', (complex,)), ('slice', (slice,)), ('range', (range,)), ('type', ())):
			B[t] = HostType(t, types)
		B['object'] = object_cls
		B['Ellipsis'] = ...
		B['NotImplemented'] = NotImplemented
		B['__debug__'] = True
		for n in ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'NotImplementedError', 'AssertionError',
				'RuntimeError', 'StopIteration', 'ImportError', 'ZeroDivisionError', 'BaseException', 'LookupError', 'ArithmeticError', 'ModuleNotFoundError', 'OverflowError', 'Warning', 'DeprecationWarning', 'UserWarning', 'RecursionError'):
			B[n] = Ext(f'builtins.{n}')
		@reg('len')
		def _(I, a, k):
			return I.length(a[0])
		@reg('print')
		def _(I, a, k):
			return None
		@reg('isinstance')
		def _(I, a, k):
			return I.isinstance_(a[0], a[1])
		@reg('issubclass')
		def _(I, a, k):
			c, d = a
			ds = d if isinstance(d, tuple) else (d,)
			if isinstance(c, PyClass):
				return any(x in c.mro for x in ds)
			if isinstance(c, TypeOf):
				return I.isinstance_(c.v, d)
			if isinstance(c, HostType):
				if all(isinstance(x, HostType) for x in ds):
					return any(x.name == c.name or (c.name == 'bool' and x.name == 'int') for x in ds)
				if c.name in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
					return I.isinstance_(c.make(I, [], {}), d)
			return Top('issubclass')
		@reg('callable')
		def _(I, a, k):
			v = a[0]
			if isinstance(v, (PyFunc, Bound, Cached, Partial, HostFn, PyClass, HostType)):
				return True
			if isinstance(v, Obj):
				return v.cls.lookup('__call__') is not None
			if isinstance(v, Ext):
				return True
			if isinstance(v, AV):
				return Top('callable')
			return False
		@reg('hasattr')
		def _(I, a, k):
			try:
				r = I.getattr(a[0], a[1])
				return Top('hasattr') if isinstance(r, Top) else True
			except PyRaise as e:
				if e.kind == 'AttributeError':
					return False
				raise
		@reg('getattr')
		def _(I, a, k):
			if isinstance(a[1], AV):
				return Top('getattr with abstract name')
			if len(a) > 2:
				try:
					return I.getattr(a[0], a[1])
				except PyRaise as e:
					if e.kind == 'AttributeError':
						return a[2]
					raise
			return I.getattr(a[0], a[1])
		@reg('setattr')
		def _(I, a, k):
			I.setattr(a[0], a[1], a[2])
		@reg('vars')
		def _(I, a, k):
			if a and isinstance(a[0], Obj):
				return a[0].attrs
			raise Unsupported('vars')
		@reg('id')
		def _(I, a, k):
			return ('id', id(a[0]))
		@reg('hash')
		def _(I, a, k):
			if isinstance(a[0], Obj):
				m = a[0].cls.lookup('__hash__')
				if m is not None:
					return I.call(I.bind(m, a[0], a[0].cls), [], {})
				return ('id', id(a[0]))
			if isinstance(a[0], AV):
				return a[0].a_hash(I) if hasattr(a[0], 'a_hash') else Top('hash')
			return HashV(I.key(a[0]))
		@reg('iter')
		def _(I, a, k):
			return GenList(list(I.iterate(a[0])))
		@reg('next')
		def _(I, a, k):
			it = a[0]
			if isinstance(it, AV):
				return Top('next')
			if isinstance(it, list):
				raise PyRaise('TypeError', 'list is not an iterator')
			try:
				return next(it)
			except StopIteration:
				if len(a) > 1:
					return a[1]
				raise PyRaise('StopIteration')
		@reg('enumerate')
		def _(I, a, k):
			start = a[1] if len(a) > 1 else k.get('start', 0)
			if isinstance(a[0], AV) and hasattr(a[0], 'a_enumerate'):
				r = a[0].a_enumerate(I, start)
				if r is not None:
					return r
			return GenList([(i, x) for i, x in enumerate(I.iterate(a[0]), start)])
		@reg('zip')
		def _(I, a, k):
			for x in a:
				if isinstance(x, AV) and hasattr(x, 'a_zip'):
					r = x.a_zip(I, a)
					if r is not None:
						return r
			return GenList([tuple(t) for t in zip(*[list(I.iterate(x)) for x in a])])
		@reg('map')
		def _(I, a, k):
			f = a[0]
			if len(a) == 2:
				g = I.generic(a[1])
				if g is not None:
					elem, binder = g
					I.generic_stack.append(binder)
					try:
						v = I.call(f, [elem], {})
					finally:
						I.generic_stack.pop()
					return binder.seq(I, v, [])
			return GenList([I.call(f, list(t), {}) for t in zip(*[list(I.iterate(x)) for x in a[1:]])])
		@reg('filter')
		def _(I, a, k):
			return GenList([x for x in I.iterate(a[1]) if I.truth(x if a[0] is None else I.call(a[0], [x], {}))])
		@reg('reversed')
		def _(I, a, k):
			if isinstance(a[0], AV) and hasattr(a[0], 'a_reversed'):
				return a[0].a_reversed(I)
			return GenList(list(reversed(list(I.iterate(a[0])))))
		@reg('sorted')
		def _(I, a, k):
			if isinstance(a[0], AV) and hasattr(a[0], 'a_sorted'):
				return a[0].a_sorted(I, k)
			return I.sort_values(I.iterate(a[0]), k.get('key'), k.get('reverse', False))
		@reg('sum')
		def _(I, a, k):
			start = a[1] if len(a) > 1 else k.get('start', 0)
			if isinstance(a[0], AV) and hasattr(a[0], 'a_sum'):
				return a[0].a_sum(I, start)
			r = start
			for x in I.iterate(a[0]):
				r = I.binop('+', r, x)
			return r
		@reg('any')
		def _(I, a, k):
			if isinstance(a[0], AV) and hasattr(a[0], 'a_any'):
				return a[0].a_any(I)
			vals = list(I.iterate(a[0]))
			for x in vals:
				if not isinstance(x, AV) and I.truth(x):
					return True
			return any([I.truth(x) for x in vals if isinstance(x, AV)])
		@reg('all')
		def _(I, a, k):
			if isinstance(a[0], AV) and hasattr(a[0], 'a_all'):
				return a[0].a_all(I)
			vals = list(I.iterate(a[0]))
			for x in vals:
				if not isinstance(x, AV) and not I.truth(x):
					return False
			return all([I.truth(x) for x in vals if isinstance(x, AV)])
		def mm(name):
			def f(I, a, k):
				if len(a) == 1 and isinstance(a[0], AV) and hasattr(a[0], 'a_' + name):
					return getattr(a[0], 'a_' + name)(I)
				vals = list(I.iterate(a[0])) if len(a) == 1 else a
				if any(isinstance(v, AV) for v in vals):
					return Top(name)
				if not vals and 'default' in k:
					return k['default']
				try:
					if k.get('key') is not None:
						ks = [I.call(k['key'], [v], {}) for v in vals]
						i = (min if name == 'min' else max)(range(len(vals)), key=lambda j: ks[j])
						return vals[i]
					return (min if name == 'min' else max)(vals)
				except (ValueError, TypeError) as ex:
					raise PyRaise(type(ex).__name__, str(ex))
			return f
		B['min'] = HostFn(mm('min'), 'min')
		B['max'] = HostFn(mm('max'), 'max')
		@reg('abs')
		def _(I, a, k):
			v = a[0]
			if isinstance(v, AV):
				return v.a_unop(I, 'abs')
			if isinstance(v, Obj):
				return I.call(I.getattr(v, '__abs__'), [], {})
			return abs(v)
		@reg('round')
		def _(I, a, k):
			if isinstance(a[0], AV):
				return Top('round')
			return round(*a)
		@reg('divmod')
		def _(I, a, k):
			return (I.binop('//', a[0], a[1]), I.binop('%', a[0], a[1]))
		@reg('pow')
		def _(I, a, k):
			return I.binop('**', a[0], a[1])
		@reg('bin')
		def _(I, a, k):
			return bin(a[0]) if isinstance(a[0], int) else Top('bin')
		@reg('repr')
		def _(I, a, k):
			v = a[0]
			if isinstance(v, Obj):
				m = v.cls.lookup('__repr__')
				if m is not None:
					return I.call(I.bind(m, v, v.cls), [], {})
			return I.to_repr(v)
		@reg('property')
		def _(I, a, k):
			return Prop(a[0])
		@reg('staticmethod')
		def _(I, a, k):
			return StaticM(a[0])
		@reg('classmethod')
		def _(I, a, k):
			return ClassM(a[0])
		@reg('super')
		def _(I, a, k):
			return Super(a[0], a[1])
		@reg('ord')
		def _(I, a, k):
			return ord(a[0]) if isinstance(a[0], str) else Top('ord')
		@reg('chr')
		def _(I, a, k):
			return chr(a[0]) if isinstance(a[0], int) else Top('chr')
		return B


class LazyGen:
	"""a generator expression bound to a name, not consumed yet"""
	def __init__(self, run):
		self.run, self.done = run, False
	def force(self):
		if not self.done:
			self.value = self.run()
			self.done = True
		return self.value


class GenList:
	"""result of a generator: an iterator over eagerly computed values"""
	def __init__(self, vals):
		self.vals = list(vals)
		self.i = 0
	def __iter__(self):
		return self
	def __next__(self):
		if self.i >= len(self.vals):
			raise StopIteration
		self.i += 1
		return self.vals[self.i - 1]
	def rest(self):
		r = self.vals[self.i:]
		self.i = len(self.vals)
		return r


class HashV(AV):
	def __init__(self, k):
		self.k = k
	def __repr__(self):
		return f'hash({self.k})'


class SliceV(AV):
	def __init__(self, lo, up, st):
		self.lo, self.up, self.st = lo, up, st
	def __repr__(self):
		return f'slice({self.lo},{self.up},{self.st})'


class HKey:
	"""hashable key of an unhashable / identity-compared value"""
	__slots__ = ('v',)
	def __init__(self, v):
		self.v = v
	def __eq__(self, o):
		return isinstance(o, HKey) and o.v is self.v
	def __hash__(self):
		return id(self.v)
	def __repr__(self):
		return f'#{self.v!r}'


class AKey:
	__slots__ = ('v', 'k')
	def __init__(self, v, k):
		self.v, self.k = v, k
	def __eq__(self, o):
		return isinstance(o, AKey) and o.k == self.k
	def __hash__(self):
		return hash(self.k)
	def __repr__(self):
		return f'#{self.v!r}'


class TKey:
	__slots__ = ('v', 'k')
	def __init__(self, v, k):
		self.v, self.k = v, k
	def __eq__(self, o):
		return isinstance(o, TKey) and o.k == self.k
	def __hash__(self):
		return hash(self.k)
	def __repr__(self):
		return repr(self.v)


def hkey(v):
	if isinstance(v, (HKey, AKey, TKey)):
		return v
	if isinstance(v, AV):
		if hasattr(v, 'a_key'):
			return AKey(v, v.a_key())
		return HKey(v)
	if isinstance(v, (Obj, PyFunc, PyClass, Cached, Module, HostFn, HostType, Partial)):
		return HKey(v)
	if isinstance(v, Bound):
		return TKey(v, ('bound', hkey(v.fn), hkey(v.self_)))
	if isinstance(v, tuple):
		if any(not isinstance(x, (int, str, float, bool, type(None), bytes)) for x in v):
			return TKey(v, tuple(hkey(x) for x in v))
		return v
	if isinstance(v, (list, dict, set)):
		raise PyRaise('TypeError', f'unhashable type: {type(v).__name__}')
	if isinstance(v, slice):
		return TKey(v, ('slice', hkey(v.start), hkey(v.stop), hkey(v.step)))
	return v


def unkey(k):
	return k.v if isinstance(k, (HKey, AKey, TKey)) else k


def cond_key(c):
	if isinstance(c, tuple):
		return tuple(cond_key(x) for x in c)
	if isinstance(c, AV):
		if hasattr(c, 'a_key'):
			return c.a_key()
		return ('id', id(c), c)
	try:
		hash(c)
		return c
	except TypeError:
		return ('id', id(c))


class TypeOf(AV):
	"""the class of a value known only abstractly"""
	def __init__(self, v):
		self.v = v
	def __repr__(self):
		return f'type({self.v!r})'
	def a_key(self):
		return ('type', self.v.a_key() if hasattr(self.v, 'a_key') else id(self.v))
	def a_bool(self, I):
		return True
	def a_cmp(self, I, op, o, refl):
		if op in ('==', 'is', '!=', 'is not') and isinstance(o, (PyClass, HostType, Ext)):
			r = I.isinstance_(self.v, o)
			if r is False or (r is True and isinstance(o, HostType)):
				return r == (op in ('==', 'is'))
		return Top(f'{self!r} {op} {o!r}')
	def a_getattr(self, I, name):
		return Top(f'{self!r}.{name}')
	def a_call(self, I, args, kw):
		return Top(f'call of {self!r}')


class HostType:
	def __init__(self, name, types):
		self.name, self.types = name, types
	def __repr__(self):
		return f'<type {self.name}>'
	def make(self, I, a, k):
		n = self.name
		if n == 'type':
			v = a[0]
			if isinstance(v, Obj):
				return v.cls
			if isinstance(v, AV):
				return v.a_type(I) if hasattr(v, 'a_type') else TypeOf(v)
			for t in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
				if type(v).__name__ == t:
					return I.builtin_env[t]
			return TypeOf(v)
		h = getattr(I.world, 'convert', None)
		if h is not None:
			r = h(I, n, a, k)
			if r is not NotImplemented:
				return r
		if not a:
			if n == 'dict':
				return dict(k)
			return {'int': 0, 'float': 0.0, 'str': '', 'bool': False, 'list': [], 'tuple': (), 'set': set(), 'frozenset': frozenset(), 'bytes': b''}[n]
		v = a[0]
		if n in ('list', 'tuple', 'set', 'frozenset'):
			if isinstance(v, AV):
				m = getattr(v, 'a_to_' + n, None)
				if m is not None:
					return m(I)
			if n in ('set', 'frozenset') and isinstance(v, Obj):
				pass
			vals = list(I.iterate(v))
			if n == 'list':
				return vals
			if n == 'tuple':
				return tuple(vals)
			s = I.make_set(vals)
			return frozenset(s) if n == 'frozenset' and isinstance(s, set) else s
		if n == 'dict':
			if isinstance(v, dict):
				d = dict(v)
			else:
				d = {}
				for kv in I.iterate(v):
					kk, vv = list(I.iterate(kv))
					d[I.key(kk)] = vv
			d.update(k)
			return d
		if n == 'bool':
			if isinstance(v, AV) and getattr(v, 'is_boolean', False):
				return v
			return I.truth(v)
		if n == 'range':
			if any(isinstance(x, AV) for x in a):
				for x in a:
					if hasattr(x, 'a_range'):
						r = x.a_range(I, a)
						if r is not None:
							return r
				return Top('range of abstract bound')
			try:
				return range(*a)
			except (TypeError, ValueError) as ex:
				raise PyRaise(type(ex).__name__, str(ex))
		if n == 'slice':
			if any(isinstance(x, AV) for x in a):
				b = ([None] + a + [None])[:3] if len(a) == 1 else (a + [None])[:3]
				return SliceV(*b)
			return slice(*a)
		if n == 'str':
			return I.to_str(v)
		if isinstance(v, AV):
			m = getattr(v, 'a_to_' + n, None)
			if m is not None:
				return m(I, *a[1:])
			if n in ('int', 'float'):
				return v if not isinstance(v, Top) else v
			return Top(n)
		if isinstance(v, Obj):
			m = v.cls.lookup(f'__{n}__')
			if m is not None:
				return I.call(I.bind(m, v, v.cls), [], {})
			raise PyRaise('TypeError', n)
		try:
			return {'int': int, 'float': float, 'complex': complex, 'bytes': bytes}[n](*a, **k)
		except (ValueError, TypeError) as ex:
			raise PyRaise(type(ex).__name__, str(ex))


class _ObjectCls:
	def __repr__(self):
		return '<object>'


object_cls = _ObjectCls()

# transfer functions of stdlib helpers that are the same in every analysis
GENERIC_EXT = {}


def gext(*paths):
	def w(f):
		for p in paths:
			GENERIC_EXT[p] = f
		return f
	return w


@gext('functools.cache')
def _(I, a, k):
	return Cached(a[0])


@gext('functools.lru_cache')
def _(I, a, k):
	if a and isinstance(a[0], (PyFunc, Cached)):
		return Cached(a[0])
	return HostFn(lambda I2, a2, k2: Cached(a2[0], bounded=True), 'lru_cache')


@gext('functools.cached_property')
def _(I, a, k):
	return Prop(a[0], cached=True)


@gext('functools.wraps')
def _(I, a, k):
	return HostFn(lambda I2, a2, k2: a2[0], 'wraps')


@gext('functools.partial')
def _(I, a, k):
	return Partial(a[0], a[1:], k)


@gext('functools.reduce')
def _(I, a, k):
	f = a[0]
	if len(a) == 2 and isinstance(a[1], AV) and hasattr(a[1], 'a_reduce'):
		return a[1].a_reduce(I, f)
	it = list(I.iterate(a[1]))
	if len(a) > 2:
		r = a[2]
	else:
		if not it:
			raise PyRaise('TypeError', 'reduce() of empty iterable')
		r = it.pop(0)
	for x in it:
		r = I.call(f, [r, x], {})
	return r


@gext('abc.abstractmethod', 'jax.jit', 'jax.custom_jvp', 'functools.singledispatch', 'typing.overload', 'typing.no_type_check', 'jax.vmap', 'jax.checkpoint')
def _(I, a, k):
	return a[0] if a else HostFn(lambda I2, a2, k2: a2[0], 'decorator')


@gext('jax.tree_util.register_pytree_node')
def _(I, a, k):
	return None


@gext('warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings')
def _(I, a, k):
	return None


@gext('typing.TypeVar', 'typing.NewType', 'typing.NamedTuple')
def _(I, a, k):
	return Top('typing')


@gext('typing.cast')
def _(I, a, k):
	return a[1]


for _n, _op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'), ('pow', '**'),
		('xor', '^'), ('and_', '&'), ('or_', '|'), ('lshift', '<<'), ('rshift', '>>'), ('matmul', '@')):
	GENERIC_EXT['operator.' + _n] = (lambda op: lambda I, a, k: I.binop(op, a[0], a[1]))(_op)
for _n, _op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('is_', 'is'), ('is_not', 'is not')):
	GENERIC_EXT['operator.' + _n] = (lambda op: lambda I, a, k: I.compare(op, a[0], a[1]))(_op)
GENERIC_EXT['operator.neg'] = lambda I, a, k: I.unop('-', a[0])
GENERIC_EXT['operator.pos'] = lambda I, a, k: I.unop('+', a[0])
GENERIC_EXT['operator.invert'] = lambda I, a, k: I.unop('~', a[0])
GENERIC_EXT['operator.not_'] = lambda I, a, k: I.not_(a[0]) if isinstance(a[0], AV) else not I.truth(a[0])
GENERIC_EXT['operator.contains'] = lambda I, a, k: I.contains(a[0], a[1])
GENERIC_EXT['operator.getitem'] = lambda I, a, k: I.getitem(a[0], a[1])
GENERIC_EXT['operator.attrgetter'] = lambda I, a, k: HostFn(lambda I2, a2, k2: I2.getattr(a2[0], a[0]), 'attrgetter')
GENERIC_EXT['operator.itemgetter'] = lambda I, a, k: HostFn(lambda I2, a2, k2: I2.getitem(a2[0], a[0]) if len(a) == 1 else tuple(I2.getitem(a2[0], x) for x in a), 'itemgetter')
GENERIC_EXT['operator.methodcaller'] = lambda I, a, k: HostFn(lambda I2, a2, k2: I2.call(I2.getattr(a2[0], a[0]), a[1:], k), 'methodcaller')


def _itertools(name):
	import itertools
	def f(I, a, k):
		if any(isinstance(x, AV) for x in a):
			for x in a:
				h = getattr(x, 'a_itertools', None)
				if h is not None:
					r = h(I, name, a, k)
					if r is not None:
						return r
			return Top(f'itertools.{name}')
		fn = getattr(itertools, name)
		b = []
		for x in a:
			b.append(x if isinstance(x, (int, type(None))) else list(I.iterate(x)))
		if name in ('count', 'cycle', 'repeat') and not (name == 'repeat' and len(b) == 2):
			raise Unsupported(f'itertools.{name}')
		return GenList([tuple(t) if isinstance(t, tuple) else t for t in fn(*b, **k)])
	return f


for _n in ('permutations', 'product', 'combinations', 'chain', 'combinations_with_replacement', 'zip_longest', 'islice', 'pairwise', 'repeat'):
	GENERIC_EXT['itertools.' + _n] = _itertools(_n)


@gext('itertools.chain.from_iterable')
def _(I, a, k):
	out = []
	for x in I.iterate(a[0]):
		out.extend(I.iterate(x))
	return GenList(out)


@gext('itertools.accumulate')
def _(I, a, k):
	f = a[1] if len(a) > 1 else k.get('func')
	out = []
	init = k.get('initial')
	it = list(I.iterate(a[0]))
	if init is not None:
		it = [init] + it
	for x in it:
		if not out:
			out.append(x)
		else:
			out.append(I.binop('+', out[-1], x) if f is None else I.call(f, [out[-1], x], {}))
	return GenList(out)


@gext('itertools.starmap')
def _(I, a, k):
	return GenList([I.call(a[0], list(I.iterate(x)), {}) for x in I.iterate(a[1])])


@gext('math.prod')
def _(I, a, k):
	r = k.get('start', 1)
	if isinstance(a[0], AV) and hasattr(a[0], 'a_prod'):
		return a[0].a_prod(I, r)
	for x in I.iterate(a[0]):
		r = I.binop('*', r, x)
	return r


@gext('math.comb', 'math.factorial', 'math.ceil', 'math.floor', 'math.sqrt', 'math.log2', 'math.gcd')
def _(I, a, k):
	return Top('math on abstract')


def _mathf(name):
	import math
	def f(I, a, k):
		if any(isinstance(x, AV) for x in a):
			return Top(f'math.{name}')
		return getattr(math, name)(*a)
	return f


for _n in ('comb', 'factorial', 'ceil', 'floor', 'sqrt', 'log2', 'gcd', 'perm', 'isqrt'):
	GENERIC_EXT['math.' + _n] = _mathf(_n)


@gext('types.MethodType')
def _(I, a, k):
	return Bound(a[0], a[1]) if a[1] is not None else a[0]


@gext('collections.OrderedDict', 'collections.defaultdict')
def _(I, a, k):
	return {}


# --------------------------------------------------------------------------


class Path:
	def __init__(self, I, kind, value, conds):
		self.I, self.kind, self.value, self.conds = I, kind, value, conds
		self.imprecise = list(I.imprecise)
	def __repr__(self):
		return f'<{self.kind} {self.value} under {self.conds}>'


def explore(make, run, limit=256):
	"""trace partitioning driver.

	make() -> fresh Interp ; run(I) -> value.  Returns the list of partitions.
	kind is 'value', 'raise' (program raises) or 'undecided' (outside subset).
	"""
	out = []
	prefix = []
	while True:
		I = make()
		I.decisions = list(prefix)
		try:
			v = run(I)
			out.append(Path(I, 'value', v, list(I.trace)))
		except PyRaise as e:
			out.append(Path(I, 'raise', e, list(I.trace)))
		except (Unsupported, Budget) as e:
			out.append(Path(I, 'undecided', f'{type(e).__name__}: {e}', list(I.trace)))
		except RecursionError:
			out.append(Path(I, 'undecided', 'recursion', list(I.trace)))
		if len(out) >= limit:
			out.append(Path(I, 'undecided', 'partition limit', []))
			return out
		d = [c for _, c in I.trace]
		while d and not d[-1]:
			d.pop()
		if not d:
			return out
		d[-1] = False
		prefix = d
