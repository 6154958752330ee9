"""C22: the opt-in optimised rules compute the operation they are registered for.

Every rule of numga.multivector.extension.optimized is interpreted on a
multivector whose components are symbols, for every algebra and subspace its
condition accepts out of a grid of both.  A component is an exact rational
expression in the symbols, fractional powers of polynomials, cosines and sines
(a ring with a decidable normal form), kept once for general components and
once for the null vectors (all non-null components zero), where 0/0 is NaN.

exp is characterised by its power series: M = exp(b) iff E(M) = b M for the
Euler operator E = sum x_i d/dx_i (which multiplies degree k by k), and the
degree 0 part is 1.  normalized is characterised by n ~n = 1 and ~m n a study
number with scalar part |m|.
"""
import itertools
import os
from fractions import Fraction
from ..core import *
from ..report import Report, Violation, Undecided, loc, unwrap

OPT = 'numga.multivector.extension.optimized'
MV = 'numga.multivector.multivector:AbstractMultiVector'
F = Fraction
GARBAGE = 1000		# components from here on are uninitialised memory


# ------------------------------------------------------------------ expressions
# polynomial: dict monomial -> Fraction; monomial: sorted tuple of (atom, exponent).
# atoms: ('x', i) a component, ('P', poly key) a polynomial raised to an exponent,
# ('cos', poly key) ('sin', poly key): argument sqrt of that polynomial
def mono(d):
	return tuple(sorted((a, e) for a, e in d.items() if e))


class R:
	def __init__(self, c=None):
		self.c = {m: v for m, v in (c or {}).items() if v}
	@staticmethod
	def const(v):
		return R({(): F(v)})
	@staticmethod
	def var(i):
		return R({((('x', i), F(1)),): F(1)})
	@staticmethod
	def atom(a, e=1):
		return R({((a, F(e)),): F(1)})
	def add(self, o, s=1):
		r = dict(self.c)
		for m, v in o.c.items():
			r[m] = r.get(m, 0) + s * v
		return R(r)
	def mul(self, o):
		r = {}
		for m, v in self.c.items():
			for n, w in o.c.items():
				d = dict(m)
				for a, e in n:
					d[a] = d.get(a, 0) + e
				k = mono(d)
				r[k] = r.get(k, 0) + v * w
		if len(r) > 20000:
			raise Unsupported('expression size')
		return R(r)
	def scale(self, v):
		return R({m: v * w for m, w in self.c.items()})
	def key(self):
		return tuple(sorted(self.c.items()))
	def number(self):
		if not self.c:
			return F(0)
		if set(self.c) == {()}:
			return self.c[()]
		return None
	def pure(self):
		"""polynomial in the components only"""
		return all(a[0] == 'x' and e >= 0 and e.denominator == 1 for m in self.c for a, e in m)
	def __repr__(self):
		def at(a, e):
			n = {'x': lambda: f'x{a[1]}', 'P': lambda: 'P'}.get(a[0], lambda: a[0])()
			return n if e == 1 else f'{n}^{e}'
		s = [f'{v}*' * (v != 1 or not m) + '*'.join(at(a, e) for a, e in m) for m, v in list(self.c.items())[:6]]
		return ' + '.join(x.rstrip('*') for x in s) + (' + ..' if len(self.c) > 6 else '') or '0'


def norm(x):
	"""equal expressions become equal: integer powers of polynomials are expanded over a common denominator"""
	while True:
		atoms = {a for m in x.c for a, e in m if a[0] == 'P'}
		done = True
		for a in sorted(atoms):
			lo = min((dict(m).get(a, F(0)) for m in x.c), default=F(0))
			sh = -(lo.numerator // lo.denominator)
			if sh:
				x = x.mul(R.atom(a, sh))
			P = R({m: v for m, v in a[1]})
			out = R()
			for m, v in x.c.items():
				d = dict(m)
				e = d.pop(a, F(0))
				k = e.numerator // e.denominator
				if e - k:
					d[a] = e - k
				t = R({mono(d): v})
				for _ in range(k):
					t = t.mul(P)
				if k:
					done = False
				out = out.add(t)
			x = out
		if done:
			return x


def zero(x):
	return not norm(x).c


def power(x, e):
	"""x**e, or None"""
	e = F(e).limit_denominator(64)
	n = x.number()
	if n is not None:
		if n == 0:
			return R.const(0) if e > 0 else R.const(1) if e == 0 else None
		if e.denominator == 1:
			return R.const(n ** e.numerator)
		if n == 1:
			return R.const(1)
		if n > 0:
			for q in (e.denominator,):
				p = F(round(float(n.numerator) ** (1 / q)), round(float(n.denominator) ** (1 / q)))
				if p ** q == n:
					return R.const(p ** e.numerator)
		raise Unsupported(f'{n} ** {e}')
	if len(x.c) == 1:
		(m, v), = x.c.items()
		if all(a[0] == 'P' for a, _ in m) or e.denominator == 1:
			s = power(R.const(v), e)
			return R({mono({a: k * e for a, k in m}): s.number()})
	if e.denominator == 1 and e >= 0:
		r = R.const(1)
		for _ in range(e.numerator):
			r = r.mul(x)
		return r
	if x.pure():
		return R.atom(('P', x.key()), e)
	x = norm(x)
	if x.pure() and len(x.c) > 1:
		return R.atom(('P', x.key()), e)
	raise Unsupported(f'({x}) ** {e}')


def trig(name, x):
	"""cos / sin of the square root of a polynomial"""
	n = x.number()
	if n is not None:
		if n == 0:
			return R.const(1 if name == 'cos' else 0)
		raise Unsupported(f'{name}({n})')
	if len(x.c) == 1:
		(m, v), = x.c.items()
		if len(m) == 1 and m[0][0][0] == 'P' and m[0][1] == F(1, 2) and abs(v) == 1:
			r = R.atom((name, m[0][0][1]))
			return r.scale(v) if name == 'sin' else r
	raise Unsupported(f'{name}({x})')


def euler(x):
	"""sum x_i d/dx_i"""
	r = R()
	for m, v in x.c.items():
		for a, e in m:
			d = dict(m)
			if a[0] == 'x':
				r = r.add(R({m: v * e}))
				continue
			P = R({k: w for k, w in a[1]})
			DP = euler(P)
			if a[0] == 'P':			# e P^(e-1) E(P)
				d[a] -= 1
				r = r.add(R({mono(d): v * e}).mul(DP))
			else:				# E(sqrt P) = E(P) / (2 sqrt P)
				d[a] -= 1
				b = ('sin' if a[0] == 'cos' else 'cos', a[1])
				d[b] = d.get(b, F(0)) + 1
				p = ('P', a[1])
				d[p] = d.get(p, F(0)) - F(1, 2)
				r = r.add(R({mono(d): v * e * (-1 if a[0] == 'cos' else 1) / 2}).mul(DP))
	return r


def degree(m):
	n = F(0)
	for a, e in m:
		if a[0] == 'x':
			n += e
		else:
			ds = {degree(k) for k, _ in a[1]}
			if len(ds) != 1:
				raise Unsupported('inhomogeneous polynomial')
			n += e * ds.pop()
	return n


def series(x, order=4):
	"""parts of degree <= 0, with cos and sin replaced by their series"""
	def expand(x):
		out = R()
		for m, v in x.c.items():
			t = R({tuple((a, e) for a, e in m if a[0] in 'xP'): v})
			for a, e in m:
				if a[0] in ('cos', 'sin'):
					if e.denominator != 1 or e < 0:
						raise Unsupported(f'{a[0]}^{e}')
					p = ('P', a[1])
					s = R()
					f = 1
					for k in range(order):
						i = 2 * k + (a[0] == 'sin')
						f = 1
						for j in range(1, i + 1):
							f *= j
						s = s.add(R({mono({p: F(i, 2)}): F((-1) ** k, f)}))
					for _ in range(int(e)):
						t = t.mul(s)
			out = out.add(t)
		return out
	return R({m: v for m, v in expand(x).c.items() if degree(m) <= 0})


class Elt(AV):
	"""one number per batch element: general value and value on the null components (None is NaN)"""
	def __init__(self, g, z):
		self.g, self.z = g, z
	def __repr__(self):
		return f'{self.g}' + ('' if self.z is not None else ' (NaN on null components)')
	def a_key(self):
		return ('Elt', self.g.key(), self.z.key() if self.z is not None else None)


def num(v):
	if isinstance(v, bool):
		raise Unsupported('boolean number')
	r = R.const(F(v) if not isinstance(v, float) else F(str(v)))
	return Elt(r, r)


def e_op(op, a, b):
	def ring(x, y):
		if x is None or y is None:
			return None
		if op == '+':
			return x.add(y)
		if op == '-':
			return x.add(y, -1)
		if op == '*':
			return x.mul(y)
		if op == '/':
			i = power(norm(y) if y.number() is None and len(y.c) > 1 else y, -1)
			return None if i is None else x.mul(i)
		if op == '**':
			n = y.number()
			if n is None:
				raise Unsupported(f'** {y}')
			return power(x, n)
		raise Unsupported(f'operator {op}')
	return Elt(ring(a.g, b.g), ring(a.z, b.z))


class Cond(AV):
	"""comparison of components with a small constant: true in general, zv on the null components"""
	def __init__(self, g, z, eps, x, text):
		self.g, self.z, self.eps, self.x, self.text = g, z, eps, x, text
	def __repr__(self):
		return self.text
	def a_key(self):
		return ('Cond', self.text)
	def a_bool(self, I):
		raise Unsupported('truth of an array')


# ------------------------------------------------------------------ arrays
class Cell:
	def __init__(self, v):
		self.v = v


class Shape(AV):
	"""batch axes followed by known sizes"""
	def __init__(self, tail=()):
		self.tail = tuple(tail)
	def __repr__(self):
		return f'(*batch, {self.tail})'
	def a_key(self):
		return ('Shape', self.tail)
	def a_binop(self, I, op, other, refl):
		if op == '+' and isinstance(other, tuple) and not refl:
			return Shape(self.tail + other)
		return NotImplemented
	def a_getitem(self, I, key):
		if isinstance(key, SliceV) and key.lo is None and key.st is None and key.up == -1 and self.tail:
			return Shape(self.tail[:-1])
		if key == -1 and self.tail:
			return self.tail[-1]
		return Top('shape item')


def broadcast(a, b):
	"""cells of both operands, aligned"""
	if not isinstance(b, Arr):
		return [(c.v, b) for c in a.cells], a.axis
	if not isinstance(a, Arr):
		return [(a, c.v) for c in b.cells], b.axis
	if a.axis == b.axis:
		n, k = len(a.cells), len(b.cells)
		if n == k:
			return [(x.v, y.v) for x, y in zip(a.cells, b.cells)], a.axis
		if a.axis and n == 1:
			return [(a.cells[0].v, y.v) for y in b.cells], a.axis
		if a.axis and k == 1:
			return [(x.v, b.cells[0].v) for x in a.cells], a.axis
	raise Unsupported('batch axes against the component axis')


class Arr(AV):
	"""cells along the component axis ('last' or 'first'), or a single cell without that axis (None)"""
	def __init__(self, cells, axis='last'):
		self.cells, self.axis = cells, axis
	def __repr__(self):
		return f'[{", ".join(repr(c.v) for c in self.cells)}]'
	def a_key(self):
		return ('Arr', id(self))
	def a_binop(self, I, op, other, refl):
		if isinstance(other, (int, float)) and not isinstance(other, bool):
			other = num(other)
		if not isinstance(other, (Arr, Elt)):
			return NotImplemented
		a, b = (other, self) if refl else (self, other)
		cs, ax = broadcast(a, b)
		return Arr([Cell(e_op(op, x, y)) for x, y in cs], ax)
	def a_inplace(self, I, op, v):
		if isinstance(v, (int, float)) and not isinstance(v, bool):
			v = num(v)
		if not isinstance(v, (Arr, Elt)):
			raise Unsupported(f'in place {op} with {v}')
		cs, ax = broadcast(self, v)
		if len(cs) != len(self.cells):
			raise Unsupported('in place broadcasting')
		for c, x in zip(self.cells, [e_op(op, *p) for p in cs]):
			c.v = x
		return self
	def a_unop(self, I, op):
		if op == '+':
			return self
		if op == '-':
			return Arr([Cell(e_op('*', c.v, num(-1))) for c in self.cells], self.axis)
		return Top(op)
	def a_cmp(self, I, op, other, refl):
		if not isinstance(other, (int, float)) or isinstance(other, bool) or len(self.cells) != 1 or self.axis:
			return Top('comparison')
		e = self.cells[0].v
		if op not in ('>', '>=', '<', '<=', '==', '!=') or e.z is None or e.g.number() is not None:
			return Top('comparison')
		z = e.z.number()
		if z is None:
			return Top('comparison')
		# a sum of squares or its root is above every small constant, except on the null components
		if len(e.g.c) == 1 and e.g.c and list(e.g.c.values())[0] == 1 and all(a[0] == 'P' and k > 0 for a, k in list(e.g.c)[0]) or squares(e.g):
			g = {'>': True, '>=': True, '<': False, '<=': False, '==': False, '!=': True}[op]
			return Cond(g, host_cmp(op, float(z), other), float(other), e.g, f'{e.g} {op} {other}')
		return Top('comparison')
	def _pick(self, key):
		"""cells, axis of an index"""
		n = len(self.cells)
		if isinstance(key, tuple) and len(key) == 2 and key[0] is Ellipsis and self.axis == 'last':
			k = key[1]
		elif not isinstance(key, tuple) and key is not Ellipsis and self.axis == 'first':
			k = key
		elif key is Ellipsis:
			return self.cells, self.axis
		else:
			raise Unsupported(f'index {key}')
		if k is None:
			raise Unsupported('new axis')
		if isinstance(k, SliceV):
			k = slice(k.lo, k.up, k.st)
		if isinstance(k, slice):
			if not all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
				raise Unsupported('symbolic slice')
			return self.cells[k], self.axis
		if isinstance(k, int) and not isinstance(k, bool):
			if not -n <= k < n:
				raise PyRaise('IndexError', f'component {k} of {n}')
			return [self.cells[k]], None
		if isinstance(k, list) and all(type(x) is int for x in k):
			return [Cell(self.cells[x].v) for x in k], self.axis
		raise Unsupported(f'index {key}')
	def a_getitem(self, I, key):
		if isinstance(key, tuple) and len(key) == 2 and key[0] is Ellipsis and key[1] is None and self.axis is None:
			return Arr(self.cells, 'last')
		c, ax = self._pick(key)
		return Arr(c, ax)
	def a_setitem(self, I, key, v):
		if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], list):
			c = [self.cells[x] for x in key[1]]
			ax = self.axis
		else:
			c, ax = self._pick(key)
		if isinstance(v, (int, float)) and not isinstance(v, bool):
			v = num(v)
		if not isinstance(v, (Arr, Elt)):
			raise Unsupported(f'store of {v}')
		cs, _ = broadcast(Arr(c, ax), v)
		if len(cs) != len(c):
			raise Unsupported('store broadcasting')
		vals = [y for _, y in cs]
		for d, y in zip(c, vals):
			d.v = y
	def a_iter(self, I):
		if self.axis != 'first':
			raise Unsupported('iteration over a batch axis')
		return [Arr([c], None) for c in self.cells]
	def a_len(self, I):
		return len(self.cells) if self.axis == 'first' else Top('len')
	def a_getattr(self, I, name):
		if name == 'shape':
			if self.axis == 'first':
				return Top('shape')
			return Shape((len(self.cells),) if self.axis else ())
		if name == 'copy':
			return HostFn(lambda I2, a, k: Arr([Cell(c.v) for c in self.cells], self.axis), name)
		if name == 'T' and False:
			return None
		if name == 'sum':
			def f(I2, a, k):
				ax = a[0] if a else k.get('axis')
				if ax != -1 or self.axis != 'last':
					return Top('sum')
				return total(self, bool(k.get('keepdims', False)))
			return HostFn(f, name)
		return Top(f'array.{name}')


def total(x, keep):
	r = num(0)
	for c in x.cells:
		r = e_op('+', r, c.v)
	return Arr([Cell(r)], 'last' if keep else None)


def squares(x):
	return x.pure() and len(x.c) > 1 and all(v > 0 and all(e % 2 == 0 for _, e in m) for m, v in x.c.items())


def arr(x):
	if isinstance(x, Arr):
		return x
	if isinstance(x, (int, float)) and not isinstance(x, bool):
		return Arr([Cell(num(x))], None)
	raise Unsupported(f'array {x}')


class OWorld(World):
	def __init__(self):
		World.__init__(self)
		def fn(name, f):
			for lib in ('numpy', 'math'):
				self.ext[f'{lib}.{name}'] = f
		def unary(op):
			def f(I, a, k):
				x = arr(a[0])
				if k:
					raise Unsupported('keywords')
				return Arr([Cell(op(c.v)) for c in x.cells], x.axis)
			return f
		def both(f):
			return lambda e: Elt(f(e.g), None if e.z is None else f(e.z))
		fn('sqrt', unary(both(lambda x: power(x, F(1, 2)))))
		fn('cos', unary(both(lambda x: trig('cos', x))))
		fn('sin', unary(both(lambda x: trig('sin', x))))
		fn('square', unary(lambda e: e_op('*', e, e)))
		fn('negative', unary(lambda e: e_op('*', e, num(-1))))
		fn('reciprocal', unary(lambda e: e_op('/', num(1), e)))
		for n, op in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'), ('power', '**')):
			fn(n, lambda I, a, k, op=op: arr(a[0]).a_binop(I, op, a[1], False))
		self.ext['numpy.where'] = self.where
		self.ext['numpy.moveaxis'] = self.moveaxis
		for n in ('empty', 'zeros', 'ones'):
			self.ext[f'numpy.{n}'] = lambda I, a, k, n=n: self.alloc(n, a[0] if a else k.get('shape'))
			self.ext[f'numpy.{n}_like'] = lambda I, a, k, n=n: self.like(n, a[0])
		self.ext['numpy.stack'] = self.stack
		self.ext['numpy.concatenate'] = self.concat
		self.ext['numpy.sum'] = lambda I, a, k: total(arr(a[0]), bool(k.get('keepdims'))) if (a[1] if len(a) > 1 else k.get('axis')) == -1 and arr(a[0]).axis == 'last' else Top('sum')
		self.ext['numpy.array'] = self.ext['numpy.copy'] = lambda I, a, k: Arr([Cell(c.v) for c in arr(a[0]).cells], a[0].axis) if isinstance(a[0], Arr) else Top('array')
		self.ext['numpy.asarray'] = lambda I, a, k: a[0] if isinstance(a[0], Arr) else Top('asarray')
	def where(self, I, a, k):
		c = a[0]
		if not isinstance(c, Cond) or len(a) != 3:
			return Top('where')
		x, y = arr(a[1]), arr(a[2])
		if len(x.cells) == 1 and x.axis is None and y.axis is not None or len(y.cells) == 1 and y.axis is None and x.axis is not None:
			return Top('where')
		cs, ax = broadcast(x, y)
		out = []
		for p, q in cs:
			g, o = (p, q) if c.g else (q, p)
			if c.g != c.z:
				I.guards.append((c, o))
			out.append(Cell(Elt(g.g, (p if c.z else q).z)))
		return Arr(out, ax)
	def moveaxis(self, I, a, k):
		if len(a) == 3 and not k and isinstance(a[0], Arr):
			x, s, d = a
			if (s, d) == (-1, 0) and x.axis == 'last':
				return Arr(x.cells, 'first')
			if (s, d) == (0, -1) and x.axis == 'first':
				return Arr(x.cells, 'last')
			if s == d:
				return x
		return Top('moveaxis')
	FILL = {'zeros': 0, 'ones': 1}
	def alloc(self, n, shape):
		if not isinstance(shape, Shape) or len(shape.tail) > 1 or any(type(x) is not int for x in shape.tail):
			return Top('allocation')
		ax = 'last' if shape.tail else None
		return Arr([Cell(num(self.FILL[n]) if n in self.FILL else Elt(R.var(GARBAGE + i), R.var(GARBAGE + i))) for i in range(shape.tail[0] if shape.tail else 1)], ax)
	def like(self, n, x):
		x = arr(x)
		if n not in self.FILL:
			return Top('allocation')
		return Arr([Cell(num(self.FILL[n])) for _ in x.cells], x.axis)
	def stack(self, I, a, k):
		xs = [arr(x) for x in I.iterate(a[0])]
		ax = a[1] if len(a) > 1 else k.get('axis', 0)
		if ax != -1 and ax != 0 or any(x.axis for x in xs) or any(not isinstance(x, Arr) for x in I.iterate(a[0])):
			return Top('stack')
		return Arr([Cell(x.cells[0].v) for x in xs], 'last' if ax == -1 else 'first')
	def concat(self, I, a, k):
		xs = [arr(x) for x in I.iterate(a[0])]
		ax = a[1] if len(a) > 1 else k.get('axis', 0)
		if ax != -1 or any(x.axis != 'last' for x in xs):
			return Top('concatenate')
		return Arr([Cell(c.v) for x in xs for c in x.cells], 'last')


# ------------------------------------------------------------------ algebras
class Alg:
	def __init__(self, desc):
		self.desc = desc
		self.names, self.sig = zip(*[(desc[i], {'+': 1, '-': -1, '0': 0}[desc[i + 1]]) for i in range(0, len(desc), 2)])
		self.n = len(self.sig)
		self.full = 1 << self.n
	def product(self, a, b):
		s = 1
		t = a >> 1
		k = 0
		while t:
			k += bin(t & b).count('1')
			t >>= 1
		s = -1 if k & 1 else 1
		for i, g in enumerate(self.sig):
			if a & b & (1 << i):
				s *= g
		return a ^ b, s
	def order(self, blades):
		return tuple(sorted(set(blades), key=lambda b: (bin(b).count('1'), b)))
	def name(self, b):
		return ''.join(n for i, n in enumerate(self.names) if b >> i & 1) or '1'
	def null(self, b):
		return any(b >> i & 1 and g == 0 for i, g in enumerate(self.sig))
	def grade(self, *ks):
		return self.order(b for b in range(self.full) if bin(b).count('1') in ks)
	def even(self):
		return self.grade(*range(0, self.n + 1, 2))
	def named(self, n):
		g = {'empty': (), 'scalar': (0,), 'vector': (1,), 'bivector': (2,), 'trivector': (3,), 'quadvector': (4,), 'pseudoscalar': (self.n,), 'antivector': (self.n - 1,), 'antiscalar': (self.n,)}
		if n in g:
			return self.grade(*g[n])
		if n in ('even_grade', 'motor'):
			return self.even()
		if n == 'odd_grade':
			return self.grade(*range(1, self.n + 1, 2))
		if n in ('multivector', 'full'):
			return self.order(range(self.full))
		if n == 'rotor':
			return self.order(b for b in self.grade(0, 2) if not self.null(b)) if self.n <= 4 else None
		if n == 'translator':
			return self.order((0,) + tuple(b for b in self.grade(2) if self.null(b)))
		return None


class SpQuery(AV):
	def __init__(self, s, kind):
		self.s, self.kind = s, kind
	def a_key(self):
		return ('SpQuery', self.kind)
	def a_getattr(self, I, name):
		def f(I2, a, k):
			o = self.s.alg.named(name) if not a and not k else None
			if o is None:
				return Top(f'{self.kind}.{name}')
			return set(self.s.blades) <= set(o) if self.kind == 'inside' else self.s.blades == o
		return HostFn(f, name)


class Data(AV):
	def __init__(self, what, attrs):
		self.what, self.attrs = what, attrs
	def __repr__(self):
		return self.what
	def a_key(self):
		return ('Data', self.what)
	def a_getattr(self, I, name):
		return self.attrs[name] if name in self.attrs else Top(f'{self.what}.{name}')


class Space(AV):
	def __init__(self, alg, blades):
		self.alg, self.blades = alg, tuple(blades)
	def __repr__(self):
		return f'{",".join(map(self.alg.name, self.blades))} of {self.alg.desc}'
	def a_key(self):
		return ('Space', self.alg.desc, self.blades)
	def a_cmp(self, I, op, other, refl):
		if op in ('==', 'is', '!=', 'is not') and isinstance(other, Space):
			return (self.a_key() == other.a_key()) == (op in ('==', 'is'))
		return NotImplemented
	def a_len(self, I):
		return len(self.blades)
	def a_getattr(self, I, name):
		A = self.alg
		if name == 'named_str':
			return ','.join(map(A.name, self.blades))
		if name in ('inside', 'equals'):
			return SpQuery(self, name)
		if name == 'algebra':
			sig = ''.join({1: '+', -1: '-', 0: '0'}[g] for g in A.sig)
			cnt = (A.sig.count(1), A.sig.count(-1), A.sig.count(0))
			d = Data('description', dict(description_str=A.desc, signature_str=sig, signature=A.sig, basis_names=A.names, pqr=cnt, pqr_str='%d%d%d' % cnt, n_dimensions=A.n, n_blades=A.full, n_grades=A.n + 1))
			return Data('algebra', dict(description=d, n_dimensions=A.n, n_blades=A.full, n_grades=A.n + 1))
		if name in ('bivector', 'motor', 'rotor', 'translator', 'even_grade', 'vector', 'scalar', 'multivector', 'pseudoscalar', 'full', 'trivector'):
			def f(I2, a, k):
				o = A.named(name)
				return Space(A, o) if o is not None and not a and not k else Top(name)
			return HostFn(f, name)
		if name in ('degenerate', 'nondegenerate'):
			return HostFn(lambda I2, a, k: Space(A, [b for b in self.blades if A.null(b) == (name == 'degenerate')]), name)
		return Top(f'subspace.{name}')


class Ctx(AV):
	def __init__(self, alg):
		self.alg = alg
	def __repr__(self):
		return 'context'
	def a_key(self):
		return ('Ctx',)
	def a_getattr(self, I, name):
		full = Space(self.alg, range(self.alg.full))
		if name == 'subspace':
			return full
		if name == 'algebra':
			return full.a_getattr(I, 'algebra')
		if name == 'multivector':
			return Maker(self)
		return Top(f'context.{name}')


class Maker(AV):
	def __init__(self, ctx):
		self.ctx = ctx
	def a_key(self):
		return ('Maker',)
	def build(self, I, values, space):
		if not isinstance(space, Space) or not isinstance(values, Arr) or values.axis != 'last':
			return Top('multivector')
		return M(self.ctx, space, values)
	def a_call(self, I, a, k):
		v = a[0] if a else k.get('values')
		s = a[1] if len(a) > 1 else k.get('subspace')
		return self.build(I, v, s)
	def a_getattr(self, I, name):
		o = self.ctx.alg.named(name)
		if o is None:
			return Top(name)
		return HostFn(lambda I2, a, k: self.build(I2, a[0] if a else k.get('values'), Space(self.ctx.alg, o)), name)


class M(AV):
	"""a multivector"""
	def __init__(self, ctx, space, values):
		self.ctx, self.space, self.values = ctx, space, values
	def __repr__(self):
		return f'multivector on {self.space}'
	def a_key(self):
		return ('M', id(self))
	def a_getattr(self, I, name):
		if name == 'values':
			return self.values
		if name == 'subspace':
			return self.space
		if name == 'context':
			return self.ctx
		if name == 'algebra':
			return self.space.a_getattr(I, 'algebra')
		if name == 'shape':
			return Shape()
		if name == 'copy':
			return HostFn(lambda I2, a, k: M(self.ctx, self.space, a[0] if a else k['values'] if 'values' in k else Arr([Cell(c.v) for c in self.values.cells])), name)
		if name == 'construct':
			return HostFn(lambda I2, a, k: Top('construct'), name)
		return Top(f'multivector.{name}')
	def a_setattr(self, I, name, v):
		if name == 'values' and isinstance(v, Arr):
			self.values = v
			return
		raise Unsupported(f'setattr {name}')


def mul(alg, a, b):
	"""geometric product of {blade: R}"""
	r = {}
	for x, p in a.items():
		for y, q in b.items():
			z, s = alg.product(x, y)
			if s:
				r[z] = r.get(z, R()).add(p.mul(q), s)
	return r


def rev(a):
	return {b: x.scale(-1 if bin(b).count('1') * (bin(b).count('1') - 1) // 2 % 2 else 1) for b, x in a.items()}


DESCS = ['x+y+z+w0', 'x+y+z+w+', 'x+y+z+w-', 'w0x+y+z+', 'x-y+z+w0', 'x+y+w0z+', 'a+b+c+d0', 'x+y+z+', 'x+y+w0', 'x-y-z-w0', 'x+y+z0w0']


def spaces(A):
	"""subspaces a rule may be asked about"""
	part = []
	for g in range(A.n + 1):
		for z in (False, True):
			p = [b for b in A.grade(g) if A.null(b) == z]
			if p:
				part.append(p)
	out = {A.order(sum(c, [])) for n in range(len(part) + 1) for c in itertools.combinations(part, n)}
	for b in range(A.full):
		out.add((b,))
	for i in range(A.n):
		for g in range(A.n + 1):
			for has in (0, 1):
				p = tuple(b for b in A.grade(g) if (b >> i & 1) == has)
				out |= {p, A.order(p + (0,))} if p else set()
	for n in (A.grade(2), A.even()):
		for i in range(len(n)):
			out.add(n[:i] + n[i + 1:])
	return sorted(out)


def main():
	rep = Report('C22', 'Each opt-in optimised rule is interpreted on symbolic components for every algebra and subspace of a grid that its condition accepts. exp has to satisfy Euler(M) = b M with M = 1 + O(b), normalized n ~n = 1 and ~m n = |m| + multiple of the rest of the study number, also on null multivectors where 0/0 is NaN, and operands may not change.',
		['component order of subspaces: by grade, then by bit pattern (C03)', 'geometric product of basis blades follows the signature (C01)', 'real arithmetic; sums of squares are positive away from zero', 'rules are tried on the algebras ' + ', '.join(DESCS)])
	def make():
		I = Interp(OWorld())
		I.guards = []
		return I
	I0 = make()
	try:
		I0.load('numga.multivector.extension.optimized')
		mv = I0.get(MV)
	except (AnchorMissing, PyRaise, Unsupported) as e:
		rep.run('optimised rules load', 'module loads', lambda: (_ for _ in ()).throw(Undecided(str(e))), OPT)
		return rep.finish()
	rules = []
	for k, v in mv.attrs.items():
		if isinstance(v, Obj) and any(c.name == 'DynamicDispatch' for c in v.cls.mro):
			opts = v.attrs.get('options')
			for n, pr in enumerate(opts if isinstance(opts, list) else ()):
				try:
					cond, f = I0.iterate(pr)
				except Exception:
					continue
				f = unwrap(f)
				if isinstance(f, PyFunc) and getattr(f.module, 'name', '') == OPT:
					rules.append((k, n, cond, f))
	rep.count('optimised rules', len(rules))
	algs = [Alg(d) for d in DESCS]
	for op, pos, cond, f in rules:
		where = f'{os.path.relpath(f.module.path, I0.repo)}:{f.node.lineno} ({f.name})'
		rep.absorb(I0)
		hits = []
		def accepted(cond=cond, hits=hits, where=where):
			unknown = 0
			for A in algs:
				for b in spaces(A):
					I0.imprecise.clear()
					I0.trace.clear()
					s = Space(A, b)
					try:
						r = I0.call(cond, [s], {})
					except (PyRaise, Unsupported):
						unknown += 1
						continue
					if isinstance(r, bool) and not I0.imprecise:
						if r:
							hits.append(s)
					else:
						unknown += 1
				rep.count('conditions evaluated', 1)
			if not hits:
				raise Undecided(f'accepts nothing of the grid ({unknown} unknown)')
			return f'accepts {", ".join(map(repr, hits))}'
		rep.run(f'{op}: {f.name} condition', 'the rule applies to some subspace', accepted, where)
		for s in hits:
			def go(s=s):
				return check(rep, make, op, f, s, where)
			rep.run(f'{op}: {f.name} on {s}', {'exp': 'Euler(M) = b M, M(0) = 1', 'normalized': 'n ~n = 1, ~m n = |m| + ..'}.get(op, op), go, where)
	return rep.finish()


def check(rep, make, op, f, s, where):
	A = s.alg
	I = make()
	x0 = [Elt(R.var(i), R.var(i) if A.null(b) else R.const(0)) for i, b in enumerate(s.blades)]
	cells = [Cell(e) for e in x0]
	m = M(Ctx(A), s, Arr(cells))
	try:
		r = I.call(f, [m], {})
	except PyRaise as e:
		raise Violation(where, f'raises {e} on {s}') if not I.imprecise and not I.trace else Undecided(str(e))
	rep.absorb(I)
	if I.imprecise or I.trace:
		raise Undecided(f'{I.imprecise[:2]} {I.trace[:1]}')
	if [c.v for c in cells] != x0 or m.values.cells is not cells and [c.v for c in m.values.cells] != x0:
		raise Violation(where, f'the operand is modified')
	if not isinstance(r, M) or not isinstance(r.values, Arr):
		raise Undecided(f'{r}')
	if len(r.values.cells) != len(r.space.blades):
		raise Violation(where, f'{len(r.values.cells)} components on the subspace {r.space}')
	N = {b: c.v.g for b, c in zip(r.space.blades, r.values.cells)}
	Z = {b: c.v.z for b, c in zip(r.space.blades, r.values.cells)}
	X = {b: e.g for b, e in zip(s.blades, x0)}
	X0 = {b: e.z for b, e in zip(s.blades, x0)}
	def same(a, b, what, show=A.name):
		for k in sorted(set(a) | set(b)):
			d = a.get(k, R()).add(b.get(k, R()), -1)
			d = norm(d)
			if d.c:
				if any(at[1] >= GARBAGE for mm in d.c for at, _ in mm if at[0] == 'x'):
					raise Violation(where, f'{what}: component {show(k)} is not initialised')
				raise Violation(where, f'{what} fails on {s}: component {show(k)} is off by {d} (up to a common factor)')
	if op == 'exp':
		same({b: euler(x) for b, x in N.items()}, mul(A, X, N), 'd/dt exp(t b) = b exp(t b)')
		same({b: series(x) for b, x in N.items()}, {0: R.const(1)}, 'exp(0) = 1')
		nul = any(A.null(b) for b in s.blades)
		T = mul(A, X0, X0)
		if any(norm(t).c for t in T.values()):
			raise Undecided('null components do not square to zero')
		nan = [A.name(b) for b, z in Z.items() if z is None]
		if nan:
			raise Violation(where, f'the exponential of {"a null bivector" if nul else "zero"} on {s} is NaN in component {", ".join(nan)} (0/0)')
		same(Z, {0: R.const(1), **X0}, 'exp(b) = 1 + b for b*b = 0')
		for c, o in I.guards:
			lim = F(1, 10**6) if any(a[0] == 'P' and e < 1 for mm in c.x.c for a, e in mm) else F(1, 10**12)
			if o.g.number() is not None and F(c.eps) > lim:
				raise Violation(where, f'{c} is a precondition of the general formula, below it a constant replaces it; the threshold is too large for the dtype')
	elif op == 'normalized':
		same(mul(A, N, rev(N)), {0: R.const(1)}, 'n ~n = 1')
		q = mul(A, rev(X), N)
		q = {b: norm(x) if len(x.c) > 1 else x for b, x in mul(A, rev(X), N).items()}
		sq = R()
		for b, x in X.items():
			_, g = A.product(b, b)
			if g:
				sq = sq.add(x.mul(x), g * (-1 if bin(b).count('1') * (bin(b).count('1') - 1) // 2 % 2 else 1))
		full = mul(A, rev(X), N)
		same({0: full.get(0, R())}, {0: power(sq, F(1, 2))}, 'the scalar part of ~m n is |m|')
		off = {b: x for b, x in full.items() if bin(b).count('1') % 4 and norm(x).c}
		if off:
			raise Violation(where, f'~m n has the component {A.name(sorted(off)[0])}: n is not m times a study number')
	else:
		raise Undecided(f'no specification of {op}')
	return f'{len(N)} components'


if __name__ == '__main__':
	main()
