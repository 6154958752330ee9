"""C20: multivectors constructed by name live on the subspace named and carry the components given."""
import itertools
from ..core import *
from ..report import Report, Violation, Undecided, loc
from .c02 import mk, names_of, show, D

F = 'numga.multivector.factory:MultiVectorFactory'
RULE = 'a named constructor builds on the subspace of that name, with the components given'
WRITTEN = 'a blade name is the wedge of its generators in the order written'


def grades_of(name, n, args):
	"""grades of a named subspace of an algebra of n generators"""
	k = {'scalar': 0, 'vector': 1, 'bivector': 2, 'trivector': 3, 'quadvector': 4, 'pseudoscalar': -1, 'antiscalar': -1, 'antivector': -2, 'antibivector': -3, 'antitrivector': -4, 'antiquadvector': -5}
	if name in k and not args:
		return pick(k[name], n)
	if name == 'k_vector' and len(args) == 1 and isinstance(args[0], int):
		return pick(args[0], n)
	if name in ('even_grade', 'motor', 'self_involute') and not args:
		return frozenset(range(0, n + 1, 2))
	if name == 'odd_grade' and not args:
		return frozenset(range(1, n + 1, 2))
	if name in ('full', 'multivector') and not args:
		return frozenset(range(n + 1))
	if name == 'empty' and not args:
		return frozenset()
	if name == 'from_grades' and len(args) == 1 and isinstance(args[0], (list, tuple, range)) and all(isinstance(x, int) for x in args[0]):
		return frozenset().union(*[pick(x, n) for x in args[0]])
	return None


def pick(k, n):
	if not -n - 1 <= k <= n:
		raise PyRaise('IndexError', 'grade')
	return frozenset([k % (n + 1)])


class Space(AV):
	"""subspace: a set of grades, one blade, or a name outside the tables"""
	names = ()      # generator names of the algebra under study
	def __init__(self, tok):
		self.tok = tok
	def __repr__(self):
		k, x = self.tok
		return f'the space of grades {sorted(x)}' if k == 'grades' else f'the blade {x:b}' if k == 'blade' else f'subspace.{x[0]}{x[1:]}'
	def a_key(self):
		return ('space', self.tok)
	def a_bool(self, I):
		return True
	def a_isinstance(self, I, cls):
		return isinstance(cls, PyClass) and cls.name == 'SubSpace'
	def a_cmp(self, I, op, o, refl):
		if op in ('==', '!=', 'is', 'is not') and (o is None or isinstance(o, Space)):
			if o is not None and 'named' in (self.tok[0], o.tok[0]) and self.tok != o.tok:
				return Top('equality of spaces')
			return (o is not None and o.tok == self.tok) == (op in ('==', 'is'))
		return NotImplemented
	def a_getattr(self, I, name):
		if name == 'blades' and self.tok[0] == 'blade':
			return [self.tok[1]]
		if name in ('named_str', '__str__') and self.tok[0] == 'blade':
			return ''.join(Space.names[i] for i in range(len(Space.names)) if self.tok[1] >> i & 1) or '1'
		return Top(f'subspace.{name}')


class Spaces(AV):
	"""namespace of the subspaces of an algebra of n generators"""
	def __init__(self, n):
		self.n = n
	def a_getattr(self, I, name):
		def f(I2, a, k):
			args = list(a) + list(k.values())
			args = [list(x) if isinstance(x, range) else x for x in args]
			if name == 'basis' and not args:
				return [Space(('blade', 1 << i)) for i in range(self.n)]
			if name == 'blade' and len(args) == 1 and isinstance(args[0], int):
				return Space(('blade', args[0]))
			if name == 'from_blades' and len(args) == 1 and isinstance(args[0], (list, tuple)) and len(args[0]) == 1 and isinstance(args[0][0], int):
				return Space(('blade', args[0][0]))
			g = grades_of(name, self.n, args)
			if g is not None:
				return Space(('grades', g))
			return Space(('named', (name,) + tuple(repr(x) for x in args)))
		return HostFn(f, name)


class Alg(AV):
	def __init__(self, n, desc):
		self.n, self.desc = n, desc
	def a_getattr(self, I, name):
		if name == 'subspace':
			return Spaces(self.n)
		if name == 'description':
			return self.desc
		if name in ('n_dimensions', 'pseudo_scalar_index'):
			return self.n
		if name == 'n_grades':
			return self.n + 1
		if name == 'n_blades':
			return 1 << self.n
		return Top(f'algebra.{name}')


class Given(AV):
	"""components supplied by the caller"""
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return self.name
	def a_key(self):
		return ('given', self.name)
	def a_cmp(self, I, op, o, refl):
		if op in ('is', 'is not', '==', '!=') and o is None:
			return op in ('is not', '!=')
		return NotImplemented
	def a_isinstance(self, I, cls):
		return False if isinstance(cls, PyClass) else None


class Made(AV):
	"""a constructed multivector"""
	def __init__(self, w, values, space, ctx):
		self.w, self.values, self.space, self.ctx = w, values, space, ctx
	def __repr__(self):
		return f'components {self.values} on {self.space}'
	def a_getattr(self, I, name):
		if name in ('subspace', 'values'):
			return self.space if name == 'subspace' else self.values
		if name == 'context':
			return self.ctx
		if name in ('wedge', 'outer', 'op', 'wedge_product', 'outer_product'):
			return HostFn(lambda I2, a, k: self.wedge(I, a[0]) if len(a) == 1 and not k else Top(name), name)
		return Top(f'multivector.{name}')
	def element(self):
		"""{blade: component} of a multivector over one blade, or the unit scalar"""
		b = {('grades', frozenset([0])): 0}.get(self.space.tok) if self.space.tok[0] != 'blade' else self.space.tok[1]
		if b is None:
			return None
		v = 1 if self.values is None and b == 0 else self.values
		if isinstance(v, (list, tuple)) and len(v) == 1:
			v = v[0]
		return Elem(self.w, {b: v}) if isinstance(v, (int, float)) or v is None or isinstance(v, Given) else None
	def wedge(self, I, o, refl=False):
		a, b = self.element(), o.element() if isinstance(o, (Made, Elem)) else None
		if a is None or b is None:
			return Top('wedge')
		return b.mul(a) if refl else a.mul(b)
	def a_binop(self, I, op, o, refl):
		return self.wedge(I, o, refl) if op in '^*' and self.apart(op, o) else self.squared(o) if op == '*' else Top(f'multivector {op}')
	def apart(self, op, o):
		"""the geometric product of blades without common generators is their wedge"""
		a, b = self.element(), o.element() if isinstance(o, Made) else None
		return op == '^' or (a is not None and b is not None and all(not x & y for x in a.d for y in b.d))
	def squared(self, o):
		a, b = self.element(), o.element() if isinstance(o, Made) else None
		if a is None or b is None or len(a.d) != 1 or len(b.d) != 1:
			return Top('multivector *')
		(x, c), (y, d) = *a.d.items(), *b.d.items()
		if not isinstance(c, (int, float)) or not isinstance(d, (int, float)):
			return Top('multivector *')
		return Elem(self.w, {x ^ y: Given('the square of a generator')})
	def a_unop(self, I, op):
		e = self.element()
		return e.a_unop(I, op) if e is not None else Top(op)


class Elem(Made):
	"""explicit element of the exterior algebra"""
	def __init__(self, w, d):
		self.w, self.d = w, d
	def __repr__(self):
		return ' + '.join(f'{c}*blade({b:b})' for b, c in sorted(self.d.items())) or '0'
	def element(self):
		return self
	def a_getattr(self, I, name):
		return Top(f'multivector.{name}') if name in ('subspace', 'values', 'context') else Made.a_getattr(self, I, name)
	def mul(self, o):
		out = {}
		for a, x in self.d.items():
			for b, y in o.d.items():
				if a & b:
					continue
				if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
					return Top('product of unknown components')
				s = sum(bin(a >> i + 1).count('1') for i in range(b.bit_length()) if b >> i & 1)
				out[a | b] = out.get(a | b, 0) + (-1) ** s * x * y
		return Elem(self.w, {b: c for b, c in out.items() if c != 0})
	def a_unop(self, I, op):
		if op == '-' and all(isinstance(x, (int, float)) for x in self.d.values()):
			return Elem(self.w, {b: -c for b, c in self.d.items()})
		return Top(op)


class MvType(AV):
	def __init__(self, w):
		self.w = w
	def a_isinstance(self, I, cls):
		return False
	def a_getattr(self, I, name):
		if name == 'construct':
			return HostFn(self.construct, 'construct')
		return Top(f'mvtype.{name}')
	def construct(self, I, a, k):
		b = dict(zip(('context', 'values', 'subspace'), a))
		b.update(k)
		if set(b) - {'context', 'values', 'subspace'} or not isinstance(b.get('subspace'), Space):
			return Top('construct')
		return Made(self.w, b.get('values'), b['subspace'], b.get('context'))


class Ctx(AV):
	def __init__(self, w, alg):
		self.w, self.alg, self.t = w, alg, MvType(w)
	def __repr__(self):
		return 'the context'
	def a_getattr(self, I, name):
		return {'algebra': self.alg, 'mvtype': self.t, 'subspace': self.alg.a_getattr(I, 'subspace')}.get(name) or Top(f'context.{name}')


def setup(lens):
	n = len(lens)
	I, w = mk(n)
	names = names_of(lens)
	from ..bits import SignAtom
	d = I.call(I.get(D), [names, tuple(SignAtom(w, i) for i in range(n))], {})
	ctx = Ctx(w, Alg(n, d))
	f = I.call(I.get(F), [ctx], {})
	I.imprecise.clear()
	Space.names = names
	return I, ctx, f, names


def clean(I):
	if I.imprecise:
		raise Undecided(str(I.imprecise[:2]))
	if I.trace:
		raise Undecided(f'branches on {I.trace[0][0]}')


def main():
	rep = Report('C20', 'The constructors of the multivector factory are interpreted over a namespace of subspaces (sets of grades or single blades) with opaque components and opaque generator names; what reaches the multivector type is compared with the name used.',
		['which grades a subspace name denotes is C04, which generator a name denotes is C02, what a multivector type does with components and subspace is C18'])
	N = 9
	def where(I, m):
		c = I.get(F)
		return loc(I, f'{F}.{m}') if c.lookup(m) is not None else loc(I, F)

	def ob(name, call, want, m, lens=(1,) * N, rule=RULE):
		def go():
			I, ctx, f, names = setup(lens)
			wh = where(I, m)
			try:
				r = call(I, f, names)
			except PyRaise as e:
				clean(I)
				raise Violation(wh, f'{name} raises {e}')
			rep.absorb(I)
			clean(I)
			return want(I, ctx, r, wh)
		rep.run(name, rule, go, f'{F}.{m}')

	def made(values, *spaces):
		def judge(I, ctx, r, wh):
			if not isinstance(r, Made) or isinstance(r, Elem):
				raise Undecided(f'result {r}')
			if r.space.tok not in spaces:
				if r.space.tok[0] == 'named':
					raise Undecided(f'{r.space}')
				raise Violation(wh, f'builds on {r.space} instead of {Space(spaces[0])}')
			got = r.values
			if values is None or isinstance(values, Given):
				ok = got is values or (isinstance(got, Given) and isinstance(values, Given) and got.name == values.name)
			else:
				ok = isinstance(got, (list, tuple)) and list(got) == values
			if not ok:
				if got is None or isinstance(got, Given) or (isinstance(got, (list, tuple)) and all(isinstance(x, (int, float, Given)) for x in got)):
					raise Violation(wh, f'passes the components {got} instead of {values}')
				raise Undecided(f'components {got}')
			if r.ctx is not ctx:
				if isinstance(r.ctx, Top):
					raise Undecided(f'context {r.ctx}')
				raise Violation(wh, f'the multivector belongs to {r.ctx} instead of the context of the factory')
			return str(r)
		return judge

	V = Given('values')
	NAMES = ['scalar', 'vector', 'bivector', 'trivector', 'pseudoscalar', 'antivector', 'antibivector', 'antitrivector', 'even_grade', 'motor', 'rotor']
	for nm_ in NAMES:
		for n in (N, 1, 2, 3, 4, 5):
			try:
				grades_of('even_grade' if nm_ == 'rotor' else nm_, n, [])
			except PyRaise:
				continue        # there is no such grade
			spaces = [('grades', grades_of('even_grade' if nm_ == 'rotor' else nm_, n, []))]
			if nm_ == 'rotor':
				spaces.append(('named', ('rotor',)))
			call = lambda a, k, nm_=nm_: lambda I, f, names: I.call(I.getattr(f, nm_), a, k)
			ob(f'{nm_}(values) n={n}', call([V], {}), made(V, *spaces), nm_, (1,) * n)
			ob(f'{nm_}(values=values) n={n}', call([], {'values': V}), made(V, *spaces), nm_, (1,) * n)
			ob(f'{nm_}() n={n}', call([], {}), made(None, *spaces), nm_, (1,) * n)
	for k in range(-N - 1, N + 1):
		for a, v in (([k, V], V), ([k], None)):
			ob(f'k_vector({k}{", values" if v else ""})', lambda I, f, names, a=a: I.call(I.getattr(f, 'k_vector'), a, {}), made(v, ('grades', pick(k, N))), 'k_vector')
	full = ('grades', frozenset(range(N + 1)))
	A = ('grades', frozenset([2, 5]))
	for m, tag, a, k, want in (
		('multivector', '(values)', [V], {}, made(V, full)), ('multivector', '()', [], {}, made(None, full)),
		('multivector', '(values, A)', [V, Space(A)], {}, made(V, A)), ('multivector', '(values=, subspace=A)', [], {'values': V, 'subspace': Space(A)}, made(V, A)), ('multivector', '(subspace=A)', [], {'subspace': Space(A)}, made(None, A)),
		('__call__', '(A, values)', [Space(A), V], {}, made(V, A)), ('__call__', '(A)', [Space(A)], {}, made(None, A)), ('__call__', '()', [], {}, made(None, full)), ('__call__', '(values=)', [], {'values': V}, made(V, full)), ('__call__', '(subspace=A, values=)', [], {'subspace': Space(A), 'values': V}, made(V, A)),
		('empty', '()', [], {}, made(None, ('grades', frozenset())))):
		ob(m + tag, lambda I, f, names, m=m, a=a, k=k: I.call(I.getattr(f, m), a, k), want, m)
	S = Given('s')
	for b in (0, 1, 5, 6, 256, 511):
		ob(f'blade({b}, s)', lambda I, f, names, b=b: I.call(I.getattr(f, 'blade'), [b, S], {}), made([S], ('blade', b)), 'blade')
		ob(f'blade({b}, s=s)', lambda I, f, names, b=b: I.call(I.getattr(f, 'blade'), [b], {'s': S}), made([S], ('blade', b)), 'blade')
		ob(f'blade({b})', lambda I, f, names, b=b: I.call(I.getattr(f, 'blade'), [b], {}), made([1], ('blade', b)), 'blade')

		ob(f'blade({b}, 0)', lambda I, f, names, b=b: I.call(I.getattr(f, 'blade'), [b, 0], {}), made([0], ('blade', b)), 'blade')

	def elem(r):
		e = r.element() if isinstance(r, Made) else None
		if e is None or any(not isinstance(c, (int, float)) for c in e.d.values()):
			raise Undecided(f'result {r}')
		return e.d
	for lens in ((1,), (1, 1), (2, 1, 3), (1,) * 4, (2,) * 5, (1,) * 9):
		n = len(lens)
		def basis(I, ctx, r, wh, n=n):
			r = list(I.iterate(r))
			got = [elem(x) for x in r]
			if got != [{1 << i: 1} for i in range(n)]:
				raise Violation(wh, f'basis() is {r}')
			return f'{n} vectors'
		ob(f'basis() n={n}', lambda I, f, names: I.call(I.getattr(f, 'basis'), [], {}), basis, 'basis', lens, 'the basis is the unit vectors in the order of the generators')
		words = [c for k in (1, 2, 3) for c in itertools.product(range(n), repeat=k)]
		words = words if len(words) < 200 else words[:n] + words[n::5][:120] + [tuple(reversed(range(n)))]
		if n == 9:
			words += [tuple(range(9)), tuple(reversed(range(9))), (3, 1, 4, 0, 5), (8, 0, 7, 1, 6)]
		def written(I, f, names, words=words):
			return [(c, I.getattr(f, ''.join(names[i] for i in c))) for c in words]
		def judge(I, ctx, r, wh):
			for c, x in r:
				want = Elem(None, {0: 1})
				for i in c:
					want = want.mul(Elem(None, {1 << i: 1}))
				if (x.element().d if isinstance(x, Made) and x.element() and any(isinstance(c, Given) for c in x.element().d.values()) else elem(x)) != want.d:
					raise Violation(wh, f'the name {".".join("e%d" % i for i in c)} gives {x}, expected {want}')
			return f'{len(r)} names'
		ob(f'blade names n={n} lengths {lens}', written, judge, '__getattr__', lens, WRITTEN)

	# ---- namespaces of a context
	from ..tensetup import T, BACKENDS
	for backend, (cq, mq) in BACKENDS.items():
		def spaces(backend=backend, cq=cq, mq=mq):
			t = T(backend)
			I, ctx = t.I, t.ctx
			w = loc(I, 'numga.context:AbstractContext')
			f = I.getattr(ctx, 'multivector')
			for n, want in (('context', ctx), ('mvtype', I.get(mq)), ('algebra', t.w.alg)):
				got = I.getattr(f, n)
				if isinstance(got, Top):
					raise Undecided(f'{n}: {got}')
				if got is not want:
					raise Violation(w, f'the multivector factory of a {backend} context has {n} {got}')
			other = I.call(I.get(cq), [t.w.alg], {})
			for c in (ctx, other):
				if I.getattr(I.getattr(c, 'multivector'), 'context') is not c:
					raise Violation(w, f'of two {backend} contexts, the multivector factory of one belongs to the other')
			if I.getattr(I.getattr(ctx, 'operator'), 'context') is not ctx or I.getattr(I.getattr(other, 'operator'), 'context') is not other:
				raise Violation(w, f'the operator namespace of a {backend} context is that of another context')
			if I.getattr(ctx, 'algebra') is not t.w.alg:
				raise Violation(w, f'the algebra of a {backend} context is {I.getattr(ctx, "algebra")}')
			rep.absorb(I)
			if I.imprecise:
				raise Undecided(str(I.imprecise[:2]))
			return 'context, multivector type and algebra'
		rep.run(f'{backend} namespaces', 'the namespaces of a context belong to that context', spaces, cq)
	return rep.finish()
