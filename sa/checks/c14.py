"""C14: dispatch picks the first applicable rule, whatever was called before."""
import ast
import os
from ..core import *
from ..report import Report, Violation, Undecided, loc, unwrap
from .c03 import KTok

D = 'numga.dynamic_dispatch:DynamicDispatch'
SD = 'numga.dynamic_dispatch:SubspaceDispatch'
S = 'numga.subspace.subspace:SubSpace'
R_FIRST = 'first applicable rule'
R_COND = 'condition tests the subspaces it is given'


# ---- A. the dispatcher ----------------------------------------------------

class SubTok(AV):
	"""a subspace; nothing but its identity distinguishes it from another one"""
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return self.name
	def a_key(self):
		return ('SubTok', self.name)
	def a_hash(self, I):
		return KTok(('hash',))
	def a_cmp(self, I, op, other, refl):
		if op in ('==', 'is'):
			return self is other
		if op in ('!=', 'is not'):
			return self is not other
		return I.top('order of subspaces')
	def a_getattr(self, I, name):
		# within one algebra the blades (and the text) tell subspaces apart,
		# across algebras the algebra does and the blades may coincide
		if name == 'algebra':
			return KTok(('attr', name, None if I.decide(('one algebra',)) else self.name))
		if name == 'blades':
			return KTok(('attr', name, self.name if I.decide(('one algebra',)) else None))
		return KTok(('attr', name))
	def a_len(self, I):
		return KTok(('len',))
	def a_str(self, I):
		return KTok(('str', self.name if I.decide(('one algebra',)) else None))
	def a_bool(self, I):
		return I.decide(('nonempty', self.name))


class CondV(AV):
	"""outcome of registered condition i on a tuple of subspaces"""
	def __init__(self, key):
		self.key = key
	def __repr__(self):
		return f'{self.key}'
	def a_bool(self, I):
		return I.decide(('accepts',) + self.key)
	def a_not(self, I):
		return not self.a_bool(I)


class Mv(AV):
	"""an argument: attributes collide except for its subspace"""
	def __init__(self, name, sub):
		self.name, self.sub = name, sub
	def __repr__(self):
		return self.name
	def a_key(self):
		return ('Mv', self.name)
	def a_getattr(self, I, name):
		if name == 'subspace':
			return self.sub
		return KTok(('mvattr', name))
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not'):
			return (self is other) == (op == 'is')
		return KTok(('mvcmp',))
	def a_hash(self, I):
		raise PyRaise('TypeError', 'unhashable type: MultiVector')


class DWorld(World):
	def __init__(self):
		World.__init__(self)
		self.builtins['id'] = HostFn(lambda I, a, k: KTok(('id', id(a[0]))), 'id')
		self.builtins['hash'] = HostFn(lambda I, a, k: KTok(('hash',)), 'hash')
		def mt(I, a, k):
			return Bound(a[0], a[1])
		self.ext['types.MethodType'] = mt
		self.ext['functools.partial'] = lambda I, a, k: Partial(a[0], a[1:], k)
		self.log = []
	str_tokens = True
	def concat_str(self, I, parts):
		if all(isinstance(p, (str, KTok)) for p in parts):
			return KTok(tuple(p if isinstance(p, str) else ('KTok',) + tuple(p.data) for p in parts))
		return Top('string with abstract parts')
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], (SubTok, Mv)):
			if n == 'type':
				return KTok(('type',))
			if n in ('str', 'repr'):
				return a[0].a_str(I)
			return KTok((n,))
		return NotImplemented


class Run:
	"""one history on fresh dispatchers"""
	def __init__(self, I):
		self.I = I
		self.subs = {s: SubTok(s) for s in 'ABC'}
		self.rules = {}
		self.calls = []       # (label, dispatcher, subs, order of rules at the time, outcome)
	def new(self, d):
		self.rules[d] = []
		setattr(self, d, self.I.call(self.I.get(SD), [], {}))
		return getattr(self, d)
	def cond(self, name):
		def f(I, a, k):
			if k or not all(isinstance(x, SubTok) for x in a):
				if any(isinstance(x, Mv) for x in a):
					I.effects.append(('condarg', f'condition of {name} is given the argument itself instead of its subspace'))
				else:
					raise Unsupported(f'condition called with {a}')
				a = [x.sub if isinstance(x, Mv) else x for x in a]
			return CondV((name,) + tuple(x.name for x in a))
		return HostFn(f, name)
	def func(self, name):
		def f(I, a, k):
			return ('ran', name, tuple(a))
		return HostFn(f, name)
	def register(self, d, name, default=False, **kw):
		I = self.I
		f = self.func('impl of ' + name)
		args = [] if default else [self.cond(name)]
		wrap = I.call(I.getattr(getattr(self, d), 'register'), args, kw)
		r = I.call(wrap, [f], {})
		if r is not f:
			I.effects.append(('decorator', 'the register decorator does not hand back the function it decorates'))
		pos = kw.get('position')
		order = list(self.rules[d])
		order.insert(len(order) if pos is None else pos, (name, default))
		self.rules[d] = order
	def call(self, d, subs, method=False):
		I = self.I
		args = [Mv(f'{s}-vector {len(self.calls)}.{i}', self.subs[s]) for i, s in enumerate(subs)]
		try:
			if method:
				c = I.getattr(getattr(self, d), '__get__')
				m = I.call(c, [args[0], None], {})
				r = I.call(m, args[1:], {})
			else:
				r = I.call(getattr(self, d), args, {})
		except PyRaise as e:
			r = e
		self.calls.append((d, tuple(subs), list(self.rules[d]), args, r))


HISTORIES = {
	'one call, three rules': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('r', 'x', 'c3'), ('c', 'x', 'A')],
	'alternating subspaces': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'A'), ('c', 'x', 'B'), ('c', 'x', 'A')],
	'two arguments in order': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'AB'), ('c', 'x', 'BA'), ('c', 'x', 'AB')],
	'shared first argument': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'AB'), ('c', 'x', 'AC')],
	'shared second argument': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'AC'), ('c', 'x', 'BC')],
	'three arguments': [('r', 'x', 'c1'), ('c', 'x', 'ABC'), ('c', 'x', 'ACB')],
	'repeated argument': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'AA'), ('c', 'x', 'AB')],
	'rule appended after a call': [('r', 'x', 'c1'), ('c', 'x', 'A'), ('r', 'x', 'c2'), ('c', 'x', 'A')],
	'rule prepended after a call': [('r', 'x', 'c1'), ('c', 'x', 'A'), ('r', 'x', 'c2', 0), ('c', 'x', 'A')],
	'rule inserted in between after a call': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'A'), ('r', 'x', 'c3', 1), ('c', 'x', 'A')],
	'prepended twice': [('r', 'x', 'c1'), ('r', 'x', 'c2', 0), ('r', 'x', 'c3', 0), ('c', 'x', 'A')],
	'no rule, then one': [('c', 'x', 'A'), ('r', 'x', 'c1'), ('c', 'x', 'A'), ('c', 'x', 'A')],
	'default rule last': [('r', 'x', 'c1'), ('d', 'x', 'c2'), ('c', 'x', 'A'), ('c', 'x', 'B')],
	'default rule superseded': [('d', 'x', 'c1'), ('c', 'x', 'A'), ('r', 'x', 'c2', 0), ('c', 'x', 'A')],
	'default rule, two arguments': [('r', 'x', 'c1'), ('d', 'x', 'c2'), ('c', 'x', 'AB'), ('c', 'x', 'A')],
	'two methods': [('r', 'x', 'c1'), ('r', 'y', 'c2'), ('c', 'x', 'A'), ('c', 'y', 'A'), ('c', 'x', 'A')],
	'two methods, one registered to later': [('r', 'x', 'c1'), ('c', 'x', 'A'), ('r', 'y', 'c2'), ('c', 'y', 'A'), ('c', 'x', 'A')],
	'as bound method': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('m', 'x', 'A'), ('c', 'x', 'A'), ('m', 'x', 'B')],
	'as bound method, two arguments': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('m', 'x', 'AB'), ('m', 'x', 'BA')],
	'mixed arity': [('r', 'x', 'c1'), ('r', 'x', 'c2'), ('c', 'x', 'A'), ('c', 'x', 'AA'), ('c', 'x', 'A')],
}


def history(rep, title, steps):
	where = None
	def make():
		w = DWorld()
		I = Interp(w)
		I.get(SD)
		I.imprecise.clear()
		return I
	def run(I):
		r = Run(I)
		for d in sorted({s[1] for s in steps}):
			r.new(d)
		for s in steps:
			if s[0] in 'rd':
				r.register(s[1], s[2], s[0] == 'd', **({'position': s[3]} if len(s) > 3 else {}))
			else:
				r.call(s[1], s[2], s[0] == 'm')
		return r
	def go():
		n = 0
		for p in explore(make, run, 400):
			rep.absorb(p.I)
			w = loc(p.I, D + '.__call__')
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.imprecise:
				raise Undecided(p.imprecise[0])
			if p.kind == 'raise':
				raise Violation(loc(p.I, D + '.register'), f'registering a rule raises {p.value}')
			if p.I.effects:
				for e in p.I.effects:
					if e[0] in ('condarg', 'decorator'):
						raise Violation(loc(p.I, D + ('.match' if e[0] == 'condarg' else '.register')), e[1])
			known = {c[1:]: v for c, v in p.conds if c[0] == 'accepts'}
			other = [c for c, v in p.conds if c[0] not in ('accepts', 'one algebra')]
			if other:
				raise Undecided(f'depends on {other[0]}')
			for i, (d, subs, rules, args, out) in enumerate(p.value.calls):
				n += 1
				want = None
				unsure = None
				for nm, default in rules:
					v = True if default else known.get((nm,) + subs)
					if v is None:
						unsure = nm
						break
					if v:
						want = nm
						break
				hist = f'history "{title}", call {i + 1} on subspaces {",".join(subs)} with rules {[r[0] for r in rules]}'
				show = ', '.join(f'{k[0]}({",".join(k[1:])})={v}' for k, v in known.items())
				if isinstance(out, PyRaise):
					if want is not None:
						raise Violation(w, f'{hist}: raises {out} although {want} accepts [{show}]')
					if unsure is not None:
						raise Violation(w, f'{hist}: raises {out} without consulting the condition of {unsure} [{show}]')
					if out.kind in ('TypeError', 'AttributeError', 'NameError', 'UnboundLocalError'):
						raise Violation(w, f'{hist}: raises {out} instead of reporting that no rule matches')
					continue
				if not (isinstance(out, tuple) and len(out) == 3 and out[0] == 'ran'):
					if want is None and unsure is None:
						raise Violation(w, f'{hist}: returns {out!r} although no rule accepts [{show}]')
					raise Violation(w, f'{hist}: returns {out!r} instead of the result of the selected implementation')
				got = out[1][len('impl of '):]
				if unsure is not None:
					raise Violation(w, f'{hist}: runs {got} without ever consulting the condition of {unsure}, which comes first [{show}]')
				if want is None:
					raise Violation(w, f'{hist}: runs {got} although no condition accepts [{show}]')
				if got != want:
					raise Violation(w, f'{hist}: runs {got}, the first rule that accepts is {want} [{show}]')
				if list(out[2]) != args:
					raise Violation(w, f'{hist}: implementation is called with {list(out[2])} instead of {args}')
		return f'{n} calls over all outcomes of the conditions'
	rep.run(title, R_FIRST, go, 'DynamicDispatch')


# ---- B. registered conditions ---------------------------------------------

class Member(AV):
	"""method of the real SubSpace class bound to a symbolic subspace"""
	def __init__(self, sub, name):
		self.sub, self.name = sub, name
	def __repr__(self):
		return f'{self.sub}.{self.name}'
	def a_key(self):
		return ('Member', self.sub.path, self.name)
	def a_call(self, I, args, kw):
		I.world.touched.add(self.sub.root)
		for x in args:
			if isinstance(x, CSub):
				I.world.touched.add(x.root)
		return I.world.result(I, self.sub, self.name, args)
	def a_bool(self, I):
		I.effects.append(('constant', f'{self} is a method and always true; it is never called'))
		return True
	def a_cmp(self, I, op, other, refl):
		I.effects.append(('constant', f'{self} is a method; comparing it with anything is constant'))
		return op in ('!=', 'is not')
	def a_getattr(self, I, name):
		return Atom(self.sub.root, f'{self}.{name}')


class CSub(AV):
	"""symbolic subspace argument of a condition"""
	def __init__(self, root, path):
		self.root, self.path = root, path
	def __repr__(self):
		return self.path
	def a_key(self):
		return ('CSub', self.path)
	def a_getattr(self, I, name):
		w = I.world
		if name == 'algebra':
			return Atom(self.root, self.path + '.algebra')
		if name in ('inside', 'equals'):
			return NS(self, name)
		if name in ('select', 'restrict'):
			return NS(self, name)
		if name in ('blades',):
			w.touched.add(self.root)
			return Atom(self.root, self.path + '.blades')
		c = w.subcls
		if c is not None and any(name in k.attrs for k in c.mro):
			v = c.lookup(name)
			if isinstance(v, Prop):
				w.touched.add(self.root)
				if name == 'subspace':
					return self
				return w.result(I, self, name, None)
			return Member(self, name)
		# operator constructor syntax of SubSpace.__getattr__
		if w.opfactory is not None and any(name in k.attrs for k in w.opfactory.mro):
			w.touched.add(self.root)
			return Member(self, name)
		if w.opfactory is not None and w.opfactory.lookup('__getattr__') is not None:
			return Member(self, name)
		raise PyRaise('AttributeError', f'subspaces have no attribute {name}')
	def a_cmp(self, I, op, other, refl):
		I.world.touched.add(self.root)
		if isinstance(other, CSub):
			I.world.touched.add(other.root)
			return Atom(self.root, f'{self.path} {op} {other.path}')
		if isinstance(other, (str, int, float)) or other is None:
			I.effects.append(('constant', f'comparing the subspace {self} with the {type(other).__name__} {other!r} is constant'))
			return op in ('!=', 'is not')
		return Atom(self.root, f'{self.path} {op} {other}')
	def a_contains(self, I, x):
		I.world.touched.add(self.root)
		if isinstance(x, CSub):
			I.world.touched.add(x.root)
		return Atom(self.root, f'{x} in {self.path}')
	def a_len(self, I):
		I.world.touched.add(self.root)
		return Atom(self.root, f'len({self.path})')
	def a_bool(self, I):
		return I.decide(('truth', self.path))
	def a_str(self, I):
		I.world.touched.add(self.root)
		return Atom(self.root, f'str({self.path})')


class NS(AV):
	def __init__(self, sub, kind):
		self.sub, self.kind = sub, kind
	def __repr__(self):
		return f'{self.sub}.{self.kind}'
	def a_getattr(self, I, name):
		w = I.world
		f = w.factory
		if f is not None and any(name in k.attrs for k in f.mro):
			if isinstance(f.lookup(name), Prop):
				return Atom(self.sub.root, f'{self}.{name}')
			return NSM(self.sub, self.kind, name)
		return Atom(self.sub.root, f'{self}.{name}')
	def a_call(self, I, args, kw):
		I.world.touched.add(self.sub.root)
		return Atom(self.sub.root, f'{self}(..)')
	def a_getitem(self, I, k):
		I.world.touched.add(self.sub.root)
		return CSub(self.sub.root, f'{self}[{k}]')
	def a_bool(self, I):
		I.effects.append(('constant', f'{self} is a namespace object and always true'))
		return True


class NSM(AV):
	"""namespace member, a closure that still has to be called"""
	def __init__(self, sub, kind, name):
		self.sub, self.kind, self.name = sub, kind, name
	def __repr__(self):
		return f'{self.sub}.{self.kind}.{self.name}'
	def a_call(self, I, args, kw):
		I.world.touched.add(self.sub.root)
		if self.kind in ('select', 'restrict'):
			return CSub(self.sub.root, f'{self}()')
		return Atom(self.sub.root, f'{self}()')
	def a_bool(self, I):
		I.effects.append(('constant', f'{self} is a function and always true; it is never called'))
		return True
	def a_cmp(self, I, op, other, refl):
		I.effects.append(('constant', f'{self} is a function; comparing it is constant'))
		return op in ('!=', 'is not')


class Atom(AV):
	"""unknown value derived from a condition argument"""
	def __init__(self, root, what):
		self.root, self.what = root, what
	def __repr__(self):
		return self.what
	def a_key(self):
		return ('Atom', self.what)
	def t(self, I, what):
		I.world.touched.add(self.root)
		return Atom(self.root, what)
	def a_getattr(self, I, name):
		return self.t(I, f'{self.what}.{name}')
	def a_call(self, I, args, kw):
		return self.t(I, f'{self.what}({", ".join(map(str, args))})')
	def a_binop(self, I, op, other, refl):
		return self.t(I, f'({other} {op} {self.what})' if refl else f'({self.what} {op} {other})')
	def a_unop(self, I, op):
		return self.t(I, f'{op}{self.what}')
	def a_cmp(self, I, op, other, refl):
		return self.t(I, f'({self.what} {op} {other})')
	def a_getitem(self, I, k):
		return self.t(I, f'{self.what}[{k}]')
	def a_len(self, I):
		return self.t(I, f'len({self.what})')
	def a_contains(self, I, x):
		return self.t(I, f'{x} in {self.what}')
	def a_str(self, I):
		return self.t(I, f'str({self.what})')
	def a_to_int(self, I, *a):
		return self.t(I, f'int({self.what})')
	def a_bool(self, I):
		I.world.touched.add(self.root)
		return I.decide(('truth', self.what))
	def a_not(self, I):
		return Atom(self.root, f'not {self.what}')
	def a_generic(self, I):
		return self.t(I, f'{self.what}[i]'), ABind(self)


class ABind:
	label = None
	def __init__(self, a):
		self.a = a
	def seq(self, I, v, guards):
		return Atom(self.a.root, f'[{v} for {self.a}]')


BOOLISH = {'is_subspace', '__contains__'}


class CWorld(World):
	"""conditions over symbolic subspaces"""
	def __init__(self):
		World.__init__(self)
		self.touched = set()
		self.subcls = self.opfactory = self.factory = None
		for nm in ('all', 'any', 'sum', 'min', 'max', 'set', 'sorted', 'len'):
			pass
	def result(self, I, sub, name, args):
		s = f'{sub}.{name}' + ('' if args is None else '(' + ', '.join(map(repr, args)) + ')')
		c = self.subcls
		f = unwrap(c.lookup(name)) if c is not None else None
		node = getattr(f, 'node', None)
		if name.startswith('is_') or name.startswith('in_') or name in BOOLISH:
			return Atom(sub.root, s)
		ann = getattr(node, 'returns', None)
		if isinstance(ann, ast.Constant) and ann.value == 'SubSpace' or isinstance(ann, ast.Name) and ann.id == 'SubSpace':
			return CSub(sub.root, s)
		return AtomSub(sub.root, s)
	def ext_call(self, I, path, args, kw):
		for x in args:
			if isinstance(x, (Atom, CSub)):
				return Atom(x.root, f'{path}({x})')
		return World.ext_call(self, I, path, args, kw)
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], (Atom, CSub)):
			self.touched.add(a[0].root)
			if n == 'bool' and isinstance(a[0], Atom):
				return a[0]
			return Atom(a[0].root, f'{n}({a[0]})')
		return NotImplemented


class AtomSub(Atom):
	"""value of unknown type, perhaps a subspace"""
	def a_getattr(self, I, name):
		c = I.world.subcls
		if name in ('inside', 'equals', 'select', 'restrict') or c is not None and any(name in k.attrs for k in c.mro):
			return CSub(self.root, self.what).a_getattr(I, name)
		return Atom.a_getattr(self, I, name)


def rule_modules(I):
	"""every module of the package that registers dispatch rules"""
	root = os.path.join(I.repo, 'numga')
	out = []
	for d, _, fs in os.walk(root):
		if any(x in d[len(root):].split(os.sep) for x in ('test', 'tests', 'examples', '__pycache__')):
			continue
		for fn in sorted(fs):
			if fn.endswith('.py'):
				path = os.path.join(d, fn)
				try:
					src = open(path, encoding='utf-8').read()
				except Exception:
					continue
				if '.register(' in src and 'Dispatch' in src or 'register(' in src and 'multivector as mv' in src:
					m = os.path.relpath(path, I.repo)[:-3].replace(os.sep, '.')
					if m.endswith('.__init__'):
						m = m[:-9]
					out.append(m)
	return out


def collect(I, rep):
	"""dispatch object -> list of (condition, implementation), with names"""
	mods = rule_modules(I)
	for m in mods:
		if m == 'numga.dynamic_dispatch':
			continue
		I.load(m)
	mv = I.get('numga.multivector.multivector:AbstractMultiVector')
	out = []
	for k, v in mv.attrs.items():
		if isinstance(v, Obj) and any(c.name == 'DynamicDispatch' for c in v.cls.mro):
			opts = I.getattr(v, 'options')
			if not isinstance(opts, list):
				raise AnchorMissing(f'rules of {k}')
			out.append((k, v, opts))
	return mods, out


def conditions(rep):
	def make():
		w = CWorld()
		I = Interp(w)
		return I
	I0 = make()
	try:
		mods, rules = collect(I0, rep)
	except AnchorMissing as e:
		rep.lost.append(str(e))
		return
	rep.count('dispatch methods', len(rules))
	rep.count('rule modules', len(mods))
	for name, d, opts in rules:
		rep.count('registered rules', len(opts))
		if not opts:
			rep.add(f'{name} has rules', 'undecided', R_COND, name, 'no rule registered')
		for k, opt in enumerate(opts):
			if not (isinstance(opt, (tuple, list)) and len(opt) == 2):
				rep.add(f'{name}[{k}]', 'undecided', R_COND, name, 'rule representation not recognised')
				continue
			condition(rep, make, name, k, opt)
			arity(rep, I0, name, k, opt)


def condition(rep, make, name, k, opt):
	fn = unwrap(opt[1])
	cn = unwrap(opt[0])
	node = getattr(cn, 'node', None)
	where = f'{os.path.relpath(fn.module.path, REPO_OF(fn))}:{getattr(node, "lineno", fn.node.lineno)} (condition of {fn.name})' if isinstance(fn, PyFunc) and node is not None else name
	na = len(node.args.posonlyargs + node.args.args) if node is not None else 0
	star = bool(node is not None and node.args.vararg)
	params = [a.arg for a in node.args.posonlyargs + node.args.args] if node is not None else []
	def mk():
		I = make()
		mods, rules = collect(I, None)
		w = I.world
		w.subcls = I.get(S)
		w.factory = I.get('numga.subspace.factory:SubSpaceFactory')
		w.opfactory = I.get('numga.operator.factory:OperatorFactory')
		I.imprecise.clear()
		I.effects.clear()
		I.trace.clear()
		I.cond_opt = next(o for n, _, o in rules if n == name)[k]
		return I
	def run(I):
		w = I.world
		names = params + ['s'] if star else params
		c = I.cond_opt[0]
		v = I.call(c, [CSub(p, p) for p in names], {})
		return I.truth(v)
	def go():
		if node is None:
			raise Undecided('condition is not a function of the package')
		seen, touched, n = set(), set(), 0
		for p in explore(mk, run, 200):
			n += 1
			if rep is not None:
				rep.absorb(p.I)
			for e in p.I.effects:
				if e[0] == 'constant':
					raise Violation(where, f'rule {k} of {name} ({fn.name}): {e[1]}')
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.imprecise:
				raise Undecided(p.imprecise[0])
			if p.kind == 'raise':
				if p.value.kind in ('AttributeError', 'NameError', 'TypeError', 'UnboundLocalError'):
					raise Violation(where, f'rule {k} of {name} ({fn.name}): condition raises {p.value}')
				raise Undecided(str(p.value))
			seen.add(bool(p.value))
			touched |= p.I.world.touched
		if seen == {False} :
			raise Violation(where, f'rule {k} of {name} ({fn.name}): condition rejects every subspace')
		if seen == {True} and n == 1 and not touched:
			return 'unconditional rule'
		if seen == {True} and not star:
			raise Violation(where, f'rule {k} of {name} ({fn.name}): condition looks at its argument but accepts everything')
		ignored = [x for x in params if x not in touched]
		if ignored:
			raise Violation(where, f'rule {k} of {name} ({fn.name}): condition never looks at its parameter{"s" if len(ignored) > 1 else ""} {", ".join(ignored)}')
		return f'{n} partitions, depends on {", ".join(sorted(touched))}'
	rep.run(f'condition of {name}[{k}] {fn.name}', R_COND, go, where)


def REPO_OF(fn):
	p = fn.module.path
	i = p.rfind(os.sep + 'numga' + os.sep)
	return p[:i] if i >= 0 else os.path.dirname(p)


def arity(rep, I, name, k, opt):
	"""a rule whose condition takes m subspaces is applied to m multivectors"""
	fn, cn = unwrap(opt[1]), unwrap(opt[0])
	def go():
		if not isinstance(fn, PyFunc) or not isinstance(cn, PyFunc):
			raise Undecided('not functions of the package')
		a, b = cn.node.args, fn.node.args
		if a.vararg is not None:
			return 'variadic condition'
		m = len(a.posonlyargs + a.args)
		lo = len(b.posonlyargs + b.args) - len(b.defaults)
		hi = len(b.posonlyargs + b.args) if b.vararg is None else 99
		clo = m - len(a.defaults)
		if m < lo or clo > hi:
			raise Violation(f'{os.path.relpath(fn.module.path, REPO_OF(fn))}:{fn.node.lineno} ({fn.name})', f'rule {k} of {name}: condition takes {m} subspaces, implementation needs {lo} multivectors')
		return f'{m} subspaces, {lo}..{hi} arguments'
	rep.run(f'arity of {name}[{k}] {fn.name}', R_COND, go, name)


# ---- C. rules are correct where they are accepted ---------------------------

def accepted(rep):
	"""the condition, as facts about the argument, suffices for its implementation (same analysis as C19)"""
	from . import c19
	try:
		c19.rules(rep, 'condition accepts only where the implementation is correct')
		c19.simple(rep)
	except AnchorMissing as e:
		rep.lost.append(str(e))


def main():
	rep = Report('C14', 'The dispatcher is abstractly interpreted on histories of registrations and calls; the outcomes of the conditions are opaque and both branches of each are explored, '
		'subspaces are distinguishable by identity only. In every partition the rule that ran must be the first one, in registration order, whose condition is true. '
		'Every condition registered anywhere in the package is interpreted on a symbolic subspace: it must neither be constant by using an uncalled method or namespace as truth value, nor fail, nor ignore a parameter. '
		'Each implementation is interpreted under the facts its condition establishes and must equal the operation it is registered for.',
		['identity semantics of subspaces (C03)', 'meaning of the subspace predicates (C04)'])
	I0 = Interp(DWorld())
	I0.get(D + '.__call__')
	I0.get(SD)
	for t, s in HISTORIES.items():
		history(rep, t, s)
	if not any(o['status'] == 'violated' for o in rep.obs):
		conditions(rep)
		accepted(rep)
	return rep.finish()
