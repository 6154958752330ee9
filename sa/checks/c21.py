"""C21: Butcher tableaux of the example integrators, and the rigid body step against its inverse.

The integrators are interpreted on a symbolic state y, step h and an opaque
derivative f: every value is a linear combination of y and of the stages
k_1..k_s with coefficients that are exact rational polynomials in h.  The
tableau read off this way decides the order for every f, y and h: a method has
order p iff it satisfies the condition of every rooted tree with at most p
vertices (Butcher).
"""
import functools
from fractions import Fraction
from ..core import *
from ..report import Report, Violation, Undecided, loc

INT = 'numga.examples.integrators'
CORE = 'numga.examples.physics.core'
RULE = 'Butcher order conditions'


def exact(x):
	if isinstance(x, bool):
		raise Unsupported('boolean coefficient')
	if isinstance(x, int):
		return Fraction(x)
	if isinstance(x, Fraction):
		return x
	f = Fraction(x)
	if f.denominator <= 1 << 20:
		return f
	g = f.limit_denominator(100000)		# 1/3 written as a float
	if abs(g - f) <= abs(f) * Fraction(1, 10**15):
		return g
	raise Unsupported(f'coefficient {x}')


class H(AV):
	"""Laurent polynomial in the step h"""
	is_boolean = False
	def __init__(self, c):
		self.c = {k: v for k, v in c.items() if v}
	def __repr__(self):
		return ' + '.join(f'{v}*h^{k}' for k, v in sorted(self.c.items())) or '0'
	def a_key(self):
		return ('H', tuple(sorted(self.c.items())))
	@staticmethod
	def of(x):
		if isinstance(x, H):
			return x
		if isinstance(x, (int, float, Fraction)):
			return H({0: exact(x)})
		return None
	def mul(self, o):
		r = {}
		for a, x in self.c.items():
			for b, y in o.c.items():
				r[a + b] = r.get(a + b, 0) + x * y
		return H(r)
	def add(self, o, s=1):
		r = dict(self.c)
		for b, y in o.c.items():
			r[b] = r.get(b, 0) + s * y
		return H(r)
	def inv(self):
		if len(self.c) != 1:
			raise Unsupported(f'division by {self}')
		(k, v), = self.c.items()
		return H({-k: 1 / v})
	def a_binop(self, I, op, other, refl):
		if op == '**' and not refl and isinstance(other, int):
			r = H({0: Fraction(1)})
			for _ in range(abs(other)):
				r = r.mul(self)
			return r if other >= 0 else r.inv()
		o = H.of(other)
		if o is None:
			return NotImplemented
		a, b = (o, self) if refl else (self, o)
		if op == '*':
			return a.mul(b)
		if op == '+':
			return a.add(b)
		if op == '-':
			return a.add(b, -1)
		if op == '/':
			return a.mul(b.inv())
		return Top(f'{a} {op} {b}')
	def a_unop(self, I, op):
		return self if op == '+' else H({k: -v for k, v in self.c.items()}) if op == '-' else Top(op)


class Spaces(AV):
	"""subspace of a value whose type the analysis does not track: every query the code asserts holds"""
	def a_getattr(self, I, name):
		return self
	def a_call(self, I, a, k):
		return True


class Lin(AV):
	"""linear combination of named vectors"""
	def __init__(self, c):
		self.c = {k: v for k, v in c.items() if v.c}
	def __repr__(self):
		return ' + '.join(f'({v})*{k}' for k, v in sorted(self.c.items())) or '0'
	def a_key(self):
		return ('Lin', tuple(sorted((k, v.a_key()) for k, v in self.c.items())))
	def scale(self, h):
		return Lin({k: v.mul(h) for k, v in self.c.items()})
	def add(self, o, s=1):
		r = dict(self.c)
		for k, v in o.c.items():
			r[k] = r.get(k, H({})).add(v, s)
		return Lin(r)
	def a_binop(self, I, op, other, refl):
		if op in '+-' and isinstance(other, (int, float)) and not isinstance(other, bool) and other == 0:
			other = Lin({})
		if isinstance(other, Lin) and op in '+-':
			a, b = (other, self) if refl else (self, other)
			return a.add(b, 1 if op == '+' else -1)
		h = H.of(other)
		if h is not None and (op == '*' or op == '/' and not refl):
			return self.scale(h if op == '*' else h.inv())
		return NotImplemented if not isinstance(other, (Lin, H, int, float)) else Top(f'{self} {op} {other}')
	def a_unop(self, I, op):
		return self if op == '+' else self.scale(H({0: Fraction(-1)})) if op == '-' else Top(op)
	def a_getattr(self, I, name):
		if name in ('exp_linear_normalized', 'exp', 'exp_quadratic', 'exp_bisect'):
			return HostFn(lambda I2, a, k: G([(name, self, 1)]), name)
		if name == 'subspace':
			return Spaces()
		if name in ('copy',):
			return HostFn(lambda I2, a, k: self if not a and not k else Top('copy'), name)
		return Top(f'bivector.{name}')


LOG = {'motor_log_linear_normalized': 'exp_linear_normalized', 'motor_log': 'exp', 'motor_log_quadratic': 'exp_quadratic', 'motor_log_bisect': 'exp_bisect'}


class G(AV):
	"""product of normalised motors: atoms and exponentials, possibly reversed"""
	def __init__(self, w):
		out = []
		for x in w:
			if out and self.cancels(out[-1], x):
				out.pop()
			else:
				out.append(x)
		self.w = out
	@staticmethod
	def cancels(a, b):
		return a[0] == b[0] and a[2] == -b[2] and (a[1] is b[1] or isinstance(a[1], Lin) and a[1].a_key() == b[1].a_key() or a[1] == b[1])
	def __repr__(self):
		return ' '.join(('~' if s < 0 else '') + (f'{n}({x})' if isinstance(x, Lin) else str(x)) for n, x, s in self.w) or '1'
	def a_key(self):
		return ('G', repr(self))
	def rev(self):
		return G([(n, x, -s) for n, x, s in reversed(self.w)])
	def a_binop(self, I, op, other, refl):
		if op == '*' and isinstance(other, G):
			a, b = (other, self) if refl else (self, other)
			return G(a.w + b.w)
		return Top(f'{self} {op}')
	def a_unop(self, I, op):
		return self.rev() if op == '~' else Top(op)
	def a_getattr(self, I, name):
		if name in ('reverse', 'inverse', 'motor_inverse'):
			return HostFn(lambda I2, a, k: self.rev(), name)
		if name in ('normalized', 'copy'):
			return HostFn(lambda I2, a, k: self if not a and not k else Top(name), name)
		if name in ('product', 'geometric_product', 'reverse_product'):
			return HostFn(lambda I2, a, k: G(self.w + (a[0].rev() if name == 'reverse_product' else a[0]).w) if len(a) == 1 and isinstance(a[0], G) else Top(name), name)
		if name in LOG:
			def log(I2, a, k):
				if len(self.w) == 1 and self.w[0][0] == LOG[name] and not a and not k:
					n, x, s = self.w[0]
					return x.scale(H({0: Fraction(s)}))
				return Top(f'{name} of {self}')
			return HostFn(log, name)
		if name == 'subspace':
			return Spaces()
		return Top(f'motor.{name}')


class Blank(AV):
	"""a value that only gets passed on"""
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return self.name
	def a_key(self):
		return ('blank', self.name)
	def a_getattr(self, I, name):
		if name in ('subspace', 'output'):
			return Spaces()
		return Top(f'{self.name}.{name}')


# ------------------------------------------------------------------ rooted trees
@functools.lru_cache(None)
def trees(n):
	if n == 1:
		return ((),)
	def forests(m, top):
		if m == 0:
			yield ()
			return
		for k in range(1, m + 1):
			for t in trees(k):
				if top is None or (k, t) <= top:
					for r in forests(m - k, (k, t)):
						yield (t,) + r
	return tuple(sorted({tuple(sorted(f)) for f in forests(n - 1, None)}))


def order(t):
	return 1 + sum(map(order, t))


def gamma(t):
	g = order(t)
	for s in t:
		g *= gamma(s)
	return g


def weight(A, t):
	v = [Fraction(1)] * len(A)
	for s in t:
		p = weight(A, s)
		v = [x * sum(a * b for a, b in zip(row, p)) for x, row in zip(v, A)]
	return v


def show_tree(t):
	return '[' + ''.join(map(show_tree, t)) + ']'


def tableau(call, I):
	"""Butcher tableau of one step of a method"""
	stages = []
	def f(I2, a, k):
		if len(a) != 1 or k or not isinstance(a[0], Lin):
			raise Unsupported(f'derivative of {a}')
		for n, x in enumerate(stages):
			if x.a_key() == a[0].a_key():
				return Lin({f'k{n}': H({0: Fraction(1)})})
		stages.append(a[0])
		return Lin({f'k{len(stages) - 1}': H({0: Fraction(1)})})
	one = H({0: Fraction(1)})
	r = call(HostFn(f, 'f'), Lin({'y': one}), H({1: Fraction(1)}))
	return r, stages


def row(x, s, what):
	"""coefficients of h*k_j in y + sum"""
	if not isinstance(x, Lin):
		raise Undecided(f'{what}: {x}')
	c = dict(x.c)
	y = c.pop('y', H({}))
	if y.c != {0: 1}:
		return None, f'{what} contains ({y})*y instead of y'
	out = [Fraction(0)] * s
	for k, v in c.items():
		if set(v.c) != {1}:
			return None, f'{what} contains ({v}) times stage {k}, which is not proportional to h'
		out[int(k[1:])] = v.c[1]
	return out, None


METHODS = {'RK1': (1, 1), 'RK4': (4, 4), 'RK8': (7, 8)}


def main():
	rep = Report('C21', 'The Runge-Kutta example integrators are interpreted on an opaque derivative, state and step, yielding their exact Butcher tableau; it is compared with the order condition of every rooted tree up to the claimed order. The rigid body step is interpreted on words of normalised motors: without constraints, post integration has to recover the integrated rate.',
		['a Runge-Kutta method has order p iff it satisfies the order condition of every rooted tree of at most p vertices', 'exp/log pairs of one family are inverse (C19); motors are normalised'])
	def run_method(name, p, quad):
		base = Interp(World())
		where = loc(base, f'{INT}:{name}')
		keep = {}
		def read():
			if keep:
				return keep['A'], keep['b']
			I = Interp(World())
			fn = I.get(f'{INT}:{name}')
			I.imprecise.clear()
			try:
				r, stages = tableau(lambda f, y, h: I.call(fn, [f, y, h], {}), I)
			except PyRaise as e:
				raise Violation(where, f'{name} raises {e}') if not I.imprecise and not I.trace else Undecided(str(e))
			rep.absorb(I)
			if I.imprecise or I.trace:
				raise Undecided(f'{I.imprecise[:2]} {I.trace[:1]}')
			s = len(stages)
			A = []
			for n, x in enumerate(stages):
				a, err = row(x, s, f'the argument of stage {n + 1}')
				if err:
					raise Violation(where, f'{name}: {err}')
				A.append(a)
			b, err = row(r, s, 'the result')
			if err:
				raise Violation(where, f'{name}: {err}')
			keep.update(A=A, b=b)
			return A, b
		def shape():
			A, b = read()
			return f'{len(b)} stages; b = {", ".join(map(str, b))}'
		rep.run(f'{name} is a one step method', 'the result is y + h times a combination of derivatives', shape, where)
		for n in range(1, p + 1):
			def go(n=n):
				A, b = read()
				got = [(t, sum(x * y for x, y in zip(b, weight(A, t)))) for t in trees(n)]
				bad = [(t, v) for t, v in got if v != Fraction(1, gamma(t))]
				# the residuals identify the defect, however the coefficients are written
				print_ = sum(i * (v - Fraction(1, gamma(t))) for i, (t, v) in enumerate(got, 1))
				for t, v in bad:
						raise Violation(f'{where} {len(bad)} of {len(got)} trees of {n} vertices, residual {print_}', f'{name} misses the order {n} condition of the tree {show_tree(t)}: {v} instead of 1/{gamma(t)}; its order is at most {n - 1}')
				return f'{len(trees(n))} trees'
			rep.run(f'{name} order {n} conditions', RULE, go, where)
		for n in range(p + 1, quad + 1):
			def go(n=n):
				A, b = read()
				v = sum(x * sum(a) ** (n - 1) for x, a in zip(b, A))
				if v != Fraction(1, n):
					raise Violation(where, f'{name} does not integrate t^{n - 1} exactly: {v} instead of 1/{n}')
				return 'exact'
			rep.run(f'{name} quadrature of degree {n - 1}', 'the weights integrate polynomials exactly', go, where)
	for name, (p, quad) in METHODS.items():
		run_method(name, p, quad)

	# ---- rigid bodies
	base = Interp(World())
	where = loc(base, f'{CORE}:Body.integrate')
	one = H({0: Fraction(1)})
	def body(I):
		B = I.get(f'{CORE}:Body')
		I.imprecise.clear()
		n = [0]
		def deriv(I2, a, k):
			n[0] += 1
			return Lin({f'k{n[0]}': one})
		B.attrs['rate_derivative'] = HostFn(deriv, 'rate_derivative')
		o = Obj(B)
		for x in ('first_moment', 'inertia', 'inertia_inv', 'damping', 'gravity'):
			o.attrs[x] = Blank(x)
		o.attrs.update(motor=G([('m', 'm', 1)]), rate=Lin({'rate': one}))
		return o
	h = H({1: Fraction(1)})
	def steps():
		I = Interp(World())
		b = body(I)
		try:
			pre = I.call(I.getattr(b, 'pre_integrate'), [h], {})
			post = I.call(I.getattr(pre, 'post_integrate'), [b, h], {})
			whole = I.call(I.getattr(body(I), 'integrate'), [h], {})
		except PyRaise as e:
			raise Undecided(str(e)) if I.imprecise else Violation(where, f'raises {e}')
		rep.absorb(I)
		if I.imprecise or I.trace:
			raise Undecided(f'{I.imprecise[:2]} {I.trace[:1]}')
		return b, pre, post, whole
	def get(o, n, t):
		x = o.attrs.get(n) if isinstance(o, Obj) else None
		if not isinstance(x, t):
			raise Undecided(f'{n} is {x}')
		return x
	def recover():
		b, pre, post, whole = steps()
		x, y = get(pre, 'rate', Lin), get(post, 'rate', Lin)
		if x.a_key() != y.a_key():
			raise Violation(loc(base, f'{CORE}:Body.post_integrate'), f'an unconstrained step of a body with rate {x} is read back as rate {y}')
		if get(pre, 'motor', G).a_key() != get(post, 'motor', G).a_key():
			raise Violation(loc(base, f'{CORE}:Body.post_integrate'), f'the motor {pre.attrs["motor"]} becomes {post.attrs["motor"]}')
		if x.c.get('rate', H({})).c != {0: 1} or any(set(v.c) - {1} for k, v in x.c.items() if k != 'rate'):
			raise Violation(loc(base, f'{CORE}:Body.pre_integrate'), f'the rate becomes {x}, which is not the rate plus dt times its derivatives')
		return repr(y)
	rep.run('post integration recovers the rate of pre integration', 'the step of an unconstrained body is inverted', recover, where)
	def forward():
		b, pre, post, whole = steps()
		r = get(pre, 'rate', Lin)
		m = get(pre, 'motor', G)
		if len(m.w) != 2 or m.w[0] != ('m', 'm', 1) or not isinstance(m.w[1][1], Lin):
			raise Violation(loc(base, f'{CORE}:motor_add_step'), f'the motor becomes {m}; the local step has to multiply the old motor from the right')
		n, x, s = m.w[1]
		got = x.scale(H({0: Fraction(s)}))
		if got.a_key() != r.scale(H({1: Fraction(-1, 2)})).a_key():
			raise Violation(loc(base, f'{CORE}:motor_add_step'), f'the motor is advanced by the exponential of {got}, expected -dt/2 times the rate {r}')
		return repr(m)
	rep.run('the motor advances by half the local rate', 'd/dt motor = -1/2 motor * rate', forward, where)
	def whole():
		b, pre, post, w = steps()
		for n, t in (('rate', Lin), ('motor', G)):
			if len(get(w, n, t).a_key()) and (n == 'motor') and len(get(w, n, t).w) != len(get(post, n, t).w):
				raise Violation(where, f'integrate gives {w.attrs[n]}, the two halves give {post.attrs[n]}')
		for n in ('first_moment', 'inertia', 'inertia_inv', 'damping', 'gravity'):
			x = w.attrs.get(n)
			if not isinstance(x, Blank):
				raise Undecided(f'{n} is {x}')
			if x.name != n:
				raise Violation(loc(base, 'numga.examples.physics.base:BodyBase.copy'), f'{n} of the integrated body is the {x.name} of the old one')
		return 'kept'
	rep.run('integration keeps the other attributes of a body', 'copies keep what they are not given', whole, where)
	return rep.finish()
