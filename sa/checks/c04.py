"""C04: subspace set algebra and named subspaces (blade-set polynomial domain)."""
from math import comb
from ..core import *
from ..bits import *
from ..sets import *
from ..report import Report, Violation, Undecided, loc
from ..algebra_setup import atoms, sum_anf

RULE_SET = 'set operation equals its definition'
RULE_NAME = 'named subspace equals its definition'
RULE_NS = 'namespace query equals the set query'
RULE_OP = 'subspace of the operator of that name'
SSQ = 'numga.subspace.subspace:SubSpace'
SFQ = 'numga.subspace.factory:SubSpaceFactory'
NAMES = 'xyztuvwspq'


class OpStub(AV):
	def __init__(self, space):
		self.space = space
	def a_getattr(self, I, name):
		if name in ('subspace', 'output'):
			return self.space
		return I.top('operator ' + name)


class OpFac(AV):
	"""operator factory: products of blade sets by definition, other operators opaque"""
	def __init__(self, s):
		self.s = s
		self.opaque = {}
	def a_getattr(self, I, name):
		def f(I, a, k):
			ps = [getattr(x, 'setpoly', None) for x in a]
			if name == 'product' and len(a) == 2 and None not in ps:
				p = self.s.product(ps[0], ps[1])
				if p is not None:
					return OpStub(self.s.pool(p))
			if name == 'squared' and len(a) == 1 and None not in ps and self.s.sig is not None and self.s.w.const_elements(ps[0]) is not None:
				return OpStub(self.s.pool(self.s.w.from_ints(squares(self.s.w.const_elements(ps[0]), self.s.sig))))
			key = (name, tuple(id(x) for x in a))
			if key not in self.opaque:
				self.opaque[key] = OpStub(OpaqueSpace(name, list(a)))
			return self.opaque[key]
		return HostFn(f, name)


def squares(xs, sig):
	"""blades of x * x for x of these blades: a b + b a vanishes for anticommuting blades"""
	zm = sum(1 << i for i, v in enumerate(sig) if v == 0)
	def swaps(a, b):
		return sum(bin(a >> i + 1).count('1') for i in range(len(sig)) if b >> i & 1)
	return {a ^ b for a in xs for b in xs if not a & b & zm and (swaps(a, b) - swaps(b, a)) % 2 == 0}


class OpaqueSpace(AV):
	def __init__(self, name, args):
		self.name, self.args = name, args
	def __repr__(self):
		return f'subspace of {self.name}'
	def a_key(self):
		return ('opspace', self.name, tuple(id(x) for x in self.args))


class Set4:
	"""interpreter, abstract algebra and pooled subspaces"""
	def __init__(self, n, sig=None):
		self.n, self.sig = n, sig
		w = self.w = SetsWorld(n)
		I = self.I = Interp(w)
		D = I.get('numga.algebra.description:AlgebraDescription')
		A = I.get('numga.algebra.algebra:Algebra')
		d = I.call(D, [tuple(NAMES[:n]), tuple(sig or (SignAtom(w, i) for i in range(n)))], {})
		self.alg = I.call(A, [d], {})
		w.blade_dtype = dtname(I.getattr(self.alg, 'blade_dtype'))
		self.m = [w.vars.atom('m', i) for i in range(n)]
		self.z = [w.vars.atom('z', i) for i in range(n)] if sig is None else [ONE if s == 0 else ZERO for s in sig]
		self.x = [w.vars.atom('x', i) for i in range(n)]
		self.table = {}
		self.SS = I.get(SSQ)
		w.intercepts['numga.subspace.factory.SubSpaceFactory.from_blades'] = lambda I, a, k: self.from_blades(a[1] if len(a) > 1 else k.get('blades'))
		self.fac = I.getattr(self.alg, 'subspace')
		self.alg.attrs['operator'] = OpFac(self)
		w.compare = self.compare
	def compare(self, I, op, a, b):
		if isinstance(a, Obj) and isinstance(b, Obj) and op in ('==', '!=', 'is', 'is not') and hasattr(a, 'setpoly') and hasattr(b, 'setpoly'):
			if a is b:
				return op in ('==', 'is')
			return EmptyV(self.w, a.setpoly ^ b.setpoly, op in ('!=', 'is not'))
		return NotImplemented
	def from_blades(self, v):
		try:
			p = self.w.set_of(self.I, v)
		except Outside as e:
			raise Violation('', f'a subspace is built from {e}')
		if p is None:
			return self.I.top('subspace of unmodelled blades')
		if p[1]:
			raise PyRaise('AssertionError', 'duplicate blades')
		return self.pool(p[0])
	def pool(self, p):
		p = self.w.canon(p)
		if p not in self.table:
			o = Obj(self.SS)
			o.setpoly = p
			self.table[p] = o
			arr = self.w.array(self.I, p, ordered=True)
			I = self.I
			m = self.SS.lookup('__init__')
			I.call(I.bind(m, o, self.SS), [self.alg, arr], {})
			if 'blades' not in o.attrs:
				raise Undecided('subspace constructor stores no blades')
			o.setpoly = p
		return self.table[p]
	def generic(self, name):
		return self.pool(self.w.inatom(name, 'x'))
	def const(self, f):
		"""subspace of blades x with f(x)"""
		return self.w.from_ints([x for x in range(1 << self.n) if f(x)])
	def indicator(self, f):
		"""indicator of {x : f(x, nulls)} for symbolic or concrete null generators"""
		w, n = self.w, self.n
		consts = [z in (ONE, ZERO) for z in self.z]
		if all(consts):
			zm = sum(1 << i for i, z in enumerate(self.z) if z == ONE)
			return self.const(lambda x: f(x, zm))
		N = 2 * n
		t = [0] * (1 << N)
		for x in range(1 << n):
			for z in range(1 << n):
				if f(x, z):
					t[x | z << n] = 1
		for i in range(N):
			b = 1 << i
			for x in range(1 << N):
				if x & b:
					t[x] ^= t[x ^ b]
		vb = [1 << w.vars.var('x', i) for i in range(n)] + [1 << w.vars.var('z', i) for i in range(n)]
		return frozenset(sum(vb[i] for i in range(N) if x >> i & 1) for x in range(1 << N) if t[x])
	def product(self, p, q):
		"""blades of the geometric product of two blade sets"""
		w, n = self.w, self.n
		cb = w.const_elements(q)
		if cb is None or len(cb) * max(1, len(p)) > 4000:
			ca = w.const_elements(p)
			if ca is None:
				return self.slow_product(p, q)
			cb, p = ca, q
		out = ZERO
		for b in cb:
			# a = x ^ b in p, and no shared null generator
			t = w.rename(p, 'x', 'x', b)
			for i in range(n):
				if b >> i & 1:
					# a_i = 1 + x_i
					t = conj(t, ONE ^ conj(self.x[i] ^ ONE, self.z[i]))
			out = out ^ t ^ conj(out, t)
		return w.canon(out)
	def slow_product(self, p, q):
		return None


def entails(w, E, p):
	"""Empty(E) implies Empty(p)"""
	return w.canon(p ^ conj(p, E)) == ZERO


def facts(w, path):
	E, N = ZERO, []
	for c, val in path.conds:
		c = getattr(c, 'v', c)
		if not (isinstance(c, tuple) and c and c[0] == 'empty'):
			return None
		p = c[1]
		if val:
			E = w.canon(E ^ p ^ conj(E, p))
		else:
			N.append(p)
	return E, N


def decide_pred(make, run, spec, where):
	"""every outcome of run equals the predicate Empty(spec)"""
	box = {}
	def mk():
		s = make()
		box['s'] = s
		return s.I
	out = explore(mk, lambda I: (box['s'], run(box['s'])), 64)
	for p in out:
		if p.kind == 'undecided':
			raise Undecided(p.value)
		if p.kind == 'raise':
			if p.imprecise:
				raise Undecided(p.imprecise[0])
			raise Violation(where, f'raises {p.value} instead of answering')
		s, r = p.value
		w = s.w
		if p.imprecise or isinstance(r, Top):
			raise Undecided(p.imprecise[0] if p.imprecise else r)
		f = facts(w, p)
		if f is None:
			raise Undecided(f'depends on {p.conds[0][0]}')
		E, N = f
		want = spec(s)
		wneg = False
		if isinstance(want, EmptyV):
			want, wneg = want.poly, want.neg
		if isinstance(r, bool) or r in (0, 1) and isinstance(r, int):
			r = bool(r) != wneg
			if r:
				if not entails(w, E, want):
					raise Violation(where, f'answers {r != wneg} although it depends on whether {w.vars.show(want)} holds for some blade')
			else:
				# definite False needs a witness that want is non-empty
				if want != ZERO and w.free_of_unknowns(want):
					continue
				if not any(entails(w, w.canon(want ^ E ^ conj(want, E)), q) for q in N):
					raise Violation(where, f'answers {r != wneg} although it depends on whether {w.vars.show(want)} holds for some blade')
		elif isinstance(r, EmptyV):
			if r.neg != wneg:
				raise Violation(where, 'answers the negation of the query')
			d = w.canon(r.poly ^ want)
			if w.canon(d ^ conj(d, E)) != ZERO:
				raise Violation(where, f'tests emptiness of [{w.vars.show(r.poly)}] instead of [{w.vars.show(want)}]')
		else:
			raise Undecided(f'answer {r}')


def decide_set(make, run, spec, where, may_raise=False):
	"""every outcome of run is the subspace with indicator spec"""
	box = {}
	def mk():
		s = make()
		box['s'] = s
		return s.I
	for p in explore(mk, lambda I: (box['s'], run(box['s'])), 64):
		if p.kind == 'undecided':
			raise Undecided(p.value)
		if p.kind == 'raise':
			if p.imprecise:
				raise Undecided(p.imprecise[0])
			if may_raise:
				continue
			raise Violation(where, f'raises {p.value}')
		s, r = p.value
		w = s.w
		if p.imprecise or isinstance(r, Top):
			raise Undecided(p.imprecise[0] if p.imprecise else r)
		f = facts(w, p)
		if f is None:
			raise Undecided(f'depends on {p.conds[0][0]}')
		if not hasattr(r, 'setpoly'):
			if isinstance(r, (Obj, AV)) and not isinstance(r, OpaqueSpace):
				raise Undecided(f'result {r}')
			raise Violation(where, f'gives {r} instead of a subspace')
		want = w.canon(spec(s))
		d = w.canon(r.setpoly ^ want)
		if w.canon(d ^ conj(d, f[0])) != ZERO:
			c = w.const_elements(d)
			ex = f'; wrong on blade {c[0]:0{s.n}b}' if c else f'; differs on [{w.vars.show(d)}]'
			raise Violation(where, f'{s.n} generators: the blade set is not the defined one{ex}')
	return 'indicator polynomials identical'


def g(x):
	return bin(x).count('1')


def named_specs(n):
	"""name -> predicate(x, nulls) ; None where the grade does not exist"""
	full = (1 << n) - 1
	def kv(k):
		kk = k if k >= 0 else n + 1 + k
		if not 0 <= kk <= n:
			return None
		return lambda x, z: g(x) == kk
	def refl(k):
		def f(x, z):
			if g(x) > k or (k - g(x)) % 2:
				return False
			return g(x) == k or z != full
		return f
	s = {
		'scalar': kv(0), 'vector': kv(1), 'bivector': kv(2), 'trivector': kv(3), 'quadvector': kv(4),
		'pseudoscalar': kv(-1), 'antiscalar': kv(-1), 'antivector': kv(-2), 'antibivector': kv(-3), 'antitrivector': kv(-4), 'antiquadvector': kv(-5),
		'scalar_pseudoscalar': lambda x, z: x in (0, full), 'nonscalar': lambda x, z: x != 0,
		'multivector': lambda x, z: True, 'full': lambda x, z: True, 'empty': lambda x, z: False,
		'even_grade': lambda x, z: g(x) % 2 == 0, 'motor': lambda x, z: g(x) % 2 == 0, 'self_involute': lambda x, z: g(x) % 2 == 0,
		'odd_grade': lambda x, z: g(x) % 2 == 1, 'self_reverse': lambda x, z: g(x) * (g(x) - 1) // 2 % 2 == 0, 'mod4': lambda x, z: g(x) % 4 == 0,
		'degenerate': lambda x, z: x & z != 0, 'nondegenerate': lambda x, z: x & z == 0, 'scalar_degenerate': lambda x, z: x == 0 or x & z != 0,
		'rotor': lambda x, z: g(x) % 2 == 0 and x & z == 0,
		'translator': lambda x, z: refl(2)(x, z) and not (g(x) == 2 and x & z == 0),
		'reflection': refl(1), 'bireflection': refl(2), 'trireflection': refl(3), 'quadreflection': refl(4),
	}
	return s, refl


OPNAMES1 = {
	'squared': 'squared', 'cubed': 'cubed', 'symmetric_reverse': 'symmetric_reverse_product', 'symmetric_involute': 'symmetric_involute_product',
	'symmetric_conjugate': 'symmetric_conjugate_product', 'symmetric_scalar_negation': 'symmetric_scalar_negation_product',
	'symmetric_pseudoscalar_negation': 'symmetric_pseudoscalar_negation_product', 'symmetric_alt_product': 'inverse_factor_completed_alt',
}
OPNAMES2 = ['wedge', 'inner', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product', 'anti_reverse_product']


def main():
	rep = Report('C04', 'Abstract interpretation of SubSpace, SubSpaceFactory and the query namespaces in a blade-set domain: a subspace is the '
		'indicator polynomial of its blades over the bits of a generic blade, the metric indicators and opaque membership atoms of arbitrary '
		'operands S, T; set operations are proved for all S, T and all metrics, named subspaces against their definition for every metric of 1..6 '
		'generators (5 where the definition depends on which generators are null), queries by entailment between emptiness predicates.',
		['from_blades maps a list of blades to the subspace with exactly those blades (C03)', 'the blades of an operator product are the products of operand blades (C01, C06)'])
	def m(name):
		try:
			return loc(Set4(2).I, f'{SSQ}.{name}')
		except Exception:
			return name
	I0 = Set4(2).I
	SSc, SFc = I0.get(SSQ), I0.get(SFQ)
	def L(cls, name):
		return loc(I0, f'{cls}.{name}')
	# ---- set operations on arbitrary S, T
	def binop(name, f):
		for n in (2, 3, 4, 5, 9):
			where = L(SSQ, name)
			def ob():
				def run(s):
					return s.I.call(s.I.getattr(s.generic('S'), name), [s.generic('T')], {})
				def spec(s):
					return f(s.w.inatom('S', 'x'), s.w.inatom('T', 'x'))
				return decide_set(lambda: Set4(n), run, spec, where)
			rep.run(f'{name} of arbitrary subspaces, {n} generators', RULE_SET, ob, where)
	OR = lambda p, q: p ^ q ^ conj(p, q)
	binop('intersection', conj)
	binop('union', OR)
	binop('difference', lambda p, q: p ^ conj(p, q))
	binop('restrict_subspace', conj)
	binop('select_subspace', lambda p, q: q)
	for n in (2, 3, 4, 5, 9):
		for name, same in (('is_subspace', False), ('is_subspace', True)):
			where = L(SSQ, name)
			rep.run(f'is_subspace {"of itself" if same else "of arbitrary subspaces"}, {n} generators', RULE_SET, lambda: decide_pred(
				lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.generic('S'), 'is_subspace'), [s.generic('S' if same else 'T')], {}),
				lambda s: ZERO if same else s.w.inatom('S', 'x') ^ conj(s.w.inatom('S', 'x'), s.w.inatom('T', 'x')), where), where)
		where = L(SSQ, '__contains__')
		rep.run(f'in, {n} generators', RULE_SET, lambda: decide_pred(
			lambda: Set4(n), lambda s: s.I.contains(s.generic('T'), s.generic('S')),
			lambda s: s.w.inatom('S', 'x') ^ conj(s.w.inatom('S', 'x'), s.w.inatom('T', 'x')), where), where)
	# ---- unary
	def unary(name, f, ns=(1, 2, 3, 4, 5, 9), call=True):
		for n in ns:
			where = L(SSQ, name)
			def run(s):
				v = s.I.getattr(s.generic('S'), name)
				return s.I.call(v, [], {}) if call else v
			rep.run(f'{name} of an arbitrary subspace, {n} generators', RULE_SET, lambda: decide_set(lambda: Set4(n), run, f, where), where)
	def in_s(s, mask=0):
		return s.w.inatom('S', 'x', mask)
	def nulls(s):
		"""[x contains a null generator]"""
		p = ONE
		for a, z in zip(s.x, s.z):
			p = conj(p, ONE ^ conj(a, z))
		return p ^ ONE
	unary('complement', lambda s: in_s(s, (1 << s.n) - 1))
	unary('dual', lambda s: in_s(s, (1 << s.n) - 1))
	unary('degenerate', lambda s: conj(in_s(s), nulls(s)), (1, 2, 3, 4, 5, 6))
	unary('nondegenerate', lambda s: conj(in_s(s), nulls(s) ^ ONE), (1, 2, 3, 4, 5, 6))
	unary('scalar_degenerate', lambda s: OR(conj(in_s(s), nulls(s)), s.const(lambda x: x == 0)), (1, 2, 3, 4, 5))
	unary('subspace', in_s, (2,), False)
	# ---- predicates of an arbitrary subspace
	def pred(name, f, ns=(2, 3, 4)):
		for n in ns:
			where = L(SSQ, name)
			rep.run(f'{name} of an arbitrary subspace, {n} generators', RULE_SET, lambda: decide_pred(
				lambda: Set4(n), lambda s: s.I.getattr(s.generic('S'), name), f, where), where)
	def sub(p, q):
		return p ^ conj(p, q)
	even = lambda s: s.const(lambda x: g(x) % 2 == 0)
	odd = lambda s: s.const(lambda x: g(x) % 2 == 1)
	pred('in_even', lambda s: sub(in_s(s), even(s)))
	pred('in_odd', lambda s: sub(in_s(s), odd(s)))
	pred('is_even', lambda s: in_s(s) ^ even(s))
	pred('is_odd', lambda s: in_s(s) ^ odd(s))
	pred('is_empty', lambda s: in_s(s))
	pred('in_self_reverse', lambda s: sub(in_s(s), s.const(lambda x: g(x) * (g(x) - 1) // 2 % 2 == 0)), (2, 3, 4, 5))
	pred('is_degenerate', lambda s: sub(in_s(s), nulls(s)))
	pred('is_degenerate_scalar', lambda s: in_s(s) ^ OR(s.const(lambda x: x == 0), conj(in_s(s), nulls(s))))
	for n in (1, 2, 3, 4):
		where = L(SSQ, 'is_blade')
		def ob():
			for f, want in ((lambda x: x == 1, True), (lambda x: x in (0, 1), False), (lambda x: False, False)):
				s = Set4(n)
				r = s.I.getattr(s.pool(s.const(f)), 'is_blade')
				clean(s)
				r = truth_of(s, r)
				if r != want:
					raise Violation(where, f'{r} for a subspace of {[x for x in range(1 << n) if f(x)]}')
		rep.run(f'is_blade, {n} generators', RULE_SET, ob, where)
	# ---- named subspaces
	for n in (1, 2, 3, 4, 5, 6, 7, 9):
		specs, refl = named_specs(n)
		for name, f in specs.items():
			metric = name in ('degenerate', 'nondegenerate', 'scalar_degenerate', 'rotor', 'translator', 'reflection', 'bireflection', 'trireflection', 'quadreflection')
			if metric and n > 5 or (name in ('trireflection', 'quadreflection') and n > 4):
				continue
			where = L(SFQ, name)
			def run(s):
				return s.I.call(s.I.getattr(s.fac, name), [], {})
			def ob():
				ff = f or (lambda x, z: False)
				return decide_set(lambda: Set4(n), run, lambda s: s.indicator(ff) if metric else s.const(lambda x: ff(x, 0)), where, may_raise=f is None or (n == 1 and name == 'translator'))
			rep.run(f'{name}, {n} generators', RULE_NAME, ob, where)
		for k in range(-n - 1, n + 1):
			where = L(SFQ, 'k_vector')
			rep.run(f'k_vector({k}), {n} generators', RULE_NAME, lambda: decide_set(
				lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.fac, 'k_vector'), [k], {}), lambda s: s.const(lambda x: g(x) == k % (n + 1)), where), where)
		for gs in ([0, n], [-1], list(range(0, n + 1, 2)), [n, 0], []):
			if len(set(x % (n + 1) for x in gs)) < len(gs):
				continue
			where = L(SFQ, 'from_grades')
			rep.run(f'from_grades({gs}), {n} generators', RULE_NAME, lambda: decide_set(
				lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.fac, 'from_grades'), [list(gs)], {}), lambda s: s.const(lambda x: g(x) in [q % (n + 1) for q in gs]), where, may_raise=not gs), where)
		for b in {0, 1, (1 << n) - 1, 1 << (n - 1)}:
			where = L(SFQ, 'blade')
			rep.run(f'blade({b}), {n} generators', RULE_NAME, lambda: decide_set(
				lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.fac, 'blade'), [b], {}), lambda s: s.const(lambda x: x == b), where), where)
		if n <= 4:
			for k in range(0, 6 if n < 4 else 5):
				where = L(SFQ, 'k_reflection')
				rep.run(f'k_reflection({k}), {n} generators', RULE_NAME, lambda: decide_set(
					lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.fac, 'k_reflection'), [k], {}), lambda s: s.indicator(refl(k)), where), where)
		if n > 6:
			continue
		# basis and blade-name syntax
		def basis():
			s = Set4(n)
			bs = list(s.I.iterate(s.I.call(s.I.getattr(s.fac, 'basis'), [], {})))
			clean(s)
			if len(bs) != n:
				raise Violation(L(SFQ, 'basis'), f'{len(bs)} basis subspaces for {n} generators')
			for i, b in enumerate(bs):
				if getattr(b, 'setpoly', None) != s.const(lambda x: x == 1 << i):
					raise Violation(L(SFQ, 'basis'), f'entry {i} is not generator {i}')
		rep.run(f'basis, {n} generators', RULE_NAME, basis, L(SFQ, 'basis'))
		exprs = [NAMES[0], NAMES[n - 1], NAMES[:n], '_'.join(NAMES[:n]), '_'.join(a + b for a in NAMES[:n] for b in NAMES[:n] if a < b and n < 4)]
		for e in exprs:
			if not e:
				continue
			want = [sum(1 << NAMES.index(c) for c in part) for part in e.split('_')]
			where = L(SFQ, '__getattr__')
			rep.run(f'subspace.{e}, {n} generators', RULE_NAME, lambda: decide_set(
				lambda: Set4(n), lambda s: s.I.getattr(s.fac, e), lambda s: s.w.from_ints(want), where), where)
		# bit strings
		for strs in (['1' + '0' * (n - 1)], ['0' * n, '1' * n], ['0' * n]):
			want = {sum(1 << i for i, c in enumerate(t) if c == '1') for t in strs}
			where = L(SFQ, 'from_bit_str')
			rep.run(f'from_bit_str({",".join(strs)})', RULE_NAME, lambda: decide_set(
				lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.fac, 'from_bit_str'), [','.join(strs)], {}), lambda s: s.w.from_ints(want), where), where)
	# ---- grades
	for n in (1, 2, 3, 4, 5, 9):
		def ob():
			s = Set4(n)
			v = s.generic('S')
			r = s.I.call(s.I.getattr(v, 'grades'), [], {})
			clean(s)
			b = v.attrs['blades']
			lab = b.axes[0]
			if isinstance(r, IntV):
				r = r.to_tab(s.I)
			if not isinstance(r, Tab) or r.axes != (lab,):
				raise Undecided(f'grades {r}')
			if r.vals != tuple(range(n + 1)):
				raise Violation(L(SSQ, 'grades'), f'grade table {r.vals}')
		rep.run(f'grades, {n} generators', RULE_SET, ob, L(SSQ, 'grades'))
	for n in (1, 2, 3, 4):
		for k in range(n + 1):
			def ob():
				s = Set4(n)
				v = s.pool(s.const(lambda x: g(x) == k))
				r = s.I.call(s.I.getattr(v, 'grade'), [], {})
				clean(s)
				if isinstance(r, CArr):
					r = int(r.flat[0])
				if isinstance(r, IntV) and not r.terms and r.mod is None:
					r = r.const
				if not isinstance(r, int):
					raise Undecided(f'grade {r}')
				if r != k:
					raise Violation(L(SSQ, 'grade'), f'grade {r} of the {k}-vectors')
			rep.run(f'grade of the {k}-vectors of {n}', RULE_SET, ob, L(SSQ, 'grade'))
		def mixed():
			s = Set4(n)
			v = s.pool(s.const(lambda x: g(x) in (0, n)))
			try:
				r = s.I.call(s.I.getattr(v, 'grade'), [], {})
			except PyRaise:
				clean(s)
				return
			clean(s)
			raise Violation(L(SSQ, 'grade'), f'grade of a mixed-grade subspace is {r} instead of an error')
		rep.run(f'grade of a mixed subspace of {n}', RULE_SET, mixed, L(SSQ, 'grade'))
	# ---- closure under the product
	import itertools
	for n in (1, 2, 3, 5, 6):
		for sig in itertools.product((0, 1), repeat=n) if n < 4 else [(1,) * n, (1,) * (n - 1) + (0,)]:
			zm = sum(1 << i for i in range(n) if sig[i] == 0)
			sets = {'even': [x for x in range(1 << n) if g(x) % 2 == 0], 'vector': [1 << i for i in range(n)], 'scalar+last': [0, 1 << n - 1],
				'top': [(1 << n) - 1], 'full': list(range(1 << n)), 'empty': []}
			if n == 3:
				sets.update({'bivectors': [3, 5, 6], 'one bivector': [3], 'mixed': [1, 6], 'pair': [3, 5]})
			if n > 3:
				sets = {'vector': sets['vector']}
			if n == 6:
				sets['three planes'] = [3, 12, 48]
			for nm, xs in sets.items():
				def prod(A, B):
					return {a ^ b for a in A for b in B if not a & b & zm}
				close = set(xs)
				while True:
					nxt = close | prod(close, close)
					if nxt == close:
						break
					close = nxt
				mk = lambda: Set4(n, sig)
				w1 = L(SSQ, 'is_subalgebra')
				rep.run(f'is_subalgebra of {nm}, signature {sig}', RULE_SET, lambda: decide_pred(mk, lambda s: s.I.getattr(s.pool(s.w.from_ints(xs)), 'is_subalgebra'),
					lambda s: s.w.from_ints(prod(xs, xs) - set(xs)), w1), w1)
				w2 = L(SSQ, 'minimal_subalgebra')
				rep.run(f'minimal_subalgebra of {nm}, signature {sig}', RULE_SET, lambda: decide_set(mk, lambda s: s.I.getattr(s.pool(s.w.from_ints(xs)), 'minimal_subalgebra'),
					lambda s: s.w.from_ints(close), w2), w2)
				grow = set(xs) | {0}
				while not squares(grow, sig) <= grow:
					grow |= squares(grow, sig)
				w3 = L(SSQ, 'minimal_exponential')
				rep.run(f'minimal_exponential of {nm}, signature {sig}', RULE_SET, lambda: decide_set(mk, lambda s: s.I.getattr(s.pool(s.w.from_ints(xs)), 'minimal_exponential'),
					lambda s: s.w.from_ints(grow), w3), w3)
	# ---- positions
	for n in (2, 3, 9):
		def ob():
			s = Set4(n)
			S, T = s.generic('S'), s.generic('T')
			r = s.I.call(s.I.getattr(S, 'to_relative_indices'), [T.attrs['blades']], {})
			clean(s)
			if isinstance(r, SearchV) and n > 2 and s.w.set_of(s.I, r.a)[0] == S.setpoly:
				raise Violation(L(SSQ, 'to_relative_indices'), 'binary search in blades that are ordered by grade, not by value')
			if not isinstance(r, IndicesV):
				raise Undecided(f'{r}')
			if s.w.set_of(s.I, r.a)[0] != S.setpoly or r.b is not T.attrs['blades']:
				raise Violation(L(SSQ, 'to_relative_indices'), 'not the positions of the given blades within this subspace')
		rep.run(f'to_relative_indices, {n} generators', RULE_SET, ob, L(SSQ, 'to_relative_indices'))
		for what, key in (('everything', slice(None)),):
			where = L(SSQ, 'slice_subspace')
			rep.run(f'slice_subspace({what}), {n} generators', RULE_SET, lambda: decide_set(
				lambda: Set4(n), lambda s: s.I.call(s.I.getattr(s.generic('S'), 'slice_subspace'), [key], {}), in_s, where), where)
	for n in (2, 3, 4):
		for what, key, pick in (('[1, 0]', [1, 0], (1, 0)), ('a mask', 'mask', (0, 2)), ('1:', slice(1, None), None), ('[-1]', [-1], (-1,))):
			where = L(SSQ, 'slice_subspace')
			order = sorted(range(1 << n), key=lambda x: (g(x), x))
			def run(s):
				v = s.pool(ONE)
				kk = key
				if key == 'mask':
					kk = CArr((1 << n,), [i in pick for i in range(1 << n)], 'bool')
				return s.I.call(s.I.getattr(v, 'slice_subspace'), [kk], {})
			want = order[1:] if pick is None else [order[i] for i in pick]
			rep.run(f'slice_subspace({what}) of the full subspace, {n} generators', RULE_SET, lambda: decide_set(lambda: Set4(n), run, lambda s: s.w.from_ints(want), where), where)
	# ---- operator subspaces
	def opsub(name, op, two):
		where = L(SSQ, name)
		def ob():
			s = Set4(3)
			S, T = s.generic('S'), s.generic('T')
			r = s.I.call(s.I.getattr(S, name), [T] if two else [], {})
			clean(s)
			if not isinstance(r, OpaqueSpace):
				raise Undecided(f'{r}')
			want = [S, T] if two else [S]
			if r.name != op or len(r.args) != len(want) or any(a is not b for a, b in zip(r.args, want)):
				raise Violation(where, f'subspace of operator {r.name} on {["S" if a is S else "T" if a is T else "?" for a in r.args]} instead of {op}')
		rep.run(f'{name} is the subspace of operator {op}', RULE_OP, ob, where)
	for name, op in OPNAMES1.items():
		opsub(name, op, False)
	for name in OPNAMES2:
		opsub(name, name, True)
	# ---- n-simple: a subspace that some chain of n self products maps into the scalars
	simple(rep, L)
	# ---- namespaces
	namespaces(rep, I0, L)
	mv_namespaces(rep, I0, L)
	for n in (2, 3):
		s = Set4(n)
		try:
			s.I.call(s.I.getattr(s.fac, 'even_grade'), [], {})
		except Exception:
			pass
		rep.absorb(s.I)
	return rep.finish()


def clean(s):
	if s.I.imprecise:
		raise Undecided(s.I.imprecise[0])
	if s.I.trace:
		raise Undecided(f'depends on {s.I.trace[0][0]}')


def truth_of(s, r):
	if isinstance(r, EmptyV):
		c = r.const()
		if c is None:
			raise Undecided(f'{r}')
		return c
	if isinstance(r, (bool, int)):
		return bool(r)
	raise Undecided(f'{r}')


SIMPLE = {'is_squared_n_simple': 'squared', 'is_reverse_n_simple': 'symmetric_reverse', 'is_involute_n_simple': 'symmetric_involute', 'is_conjugate_n_simple': 'symmetric_conjugate',
	'is_scalar_negation_n_simple': 'symmetric_scalar_negation', 'is_pseudoscalar_negation_n_simple': 'symmetric_pseudoscalar_negation'}


class Recover:
	"""an exception of the analysed code is a wrong answer"""
	def __init__(self, rep):
		self.rep = rep
	def run(self, name, rule, fn, where):
		def ob():
			try:
				return fn()
			except PyRaise as e:
				raise Violation(where, f'raises {e}')
		return self.rep.run(name, rule, ob, where)


def simple(rep, L):
	"""the simplicity recursion, with the self-product subspaces as opaque edges"""
	rep = Recover(rep)
	def world(edges):
		"""edges: (name of self product) -> space it leads to, from S; scalar() is simple"""
		s = Set4(2)
		S = s.generic('S')
		scal = s.pool(s.const(lambda x: x == 0))
		other = s.generic('T')
		for nm in SIMPLE.values():
			tgt = {'scalar': scal, 'stuck': other}[edges.get(nm, 'stuck')]
			def f(I, a, k, tgt=tgt, nm=nm):
				return tgt if a[0] is S else (scal if a[0] is scal else other)
			s.w.intercepts[f'numga.subspace.subspace.SubSpace.{nm}'] = f
		falsify(s)
		return s, S
	base = Set4(2)
	for meth, edge in SIMPLE.items():
		where = L(SSQ, meth)
		def ob():
			for tgt, want in (('scalar', True), ('stuck', False)):
				s, S = world({edge: tgt, **{v: 'scalar' if tgt == 'stuck' else 'stuck' for v in SIMPLE.values() if v != edge}})
				r = decide_atom(s, s.I.call(s.I.getattr(S, meth), [1], {}))
				if r != want:
					raise Violation(where, f'{r} when {edge} maps {"into" if want else "outside"} the scalars')
		rep.run(f'{meth}(1)', RULE_SET, ob, where)
		where2 = L(SSQ, 'is_n_simple')
		def ob2():
			s, S = world({edge: 'scalar'})
			r = decide_atom(s, s.I.call(s.I.getattr(S, 'is_n_simple'), [1], {}))
			if r is not True:
				raise Violation(where2, f'is_n_simple(1) is {r} when {edge} maps into the scalars')
			s, S = world({})
			if decide_atom(s, s.I.call(s.I.getattr(S, 'is_n_simple'), [1], {})) is not False:
				raise Violation(where2, 'is_n_simple(1) holds although no self product maps into the scalars')
			s, S = world({})
			scal = s.pool(s.const(lambda x: x == 0))
			if decide_atom(s, s.I.call(s.I.getattr(scal, 'is_n_simple'), [0], {})) is not True:
				raise Violation(where2, 'the scalars are not 0-simple')
			if decide_atom(s, s.I.call(s.I.getattr(S, 'is_n_simple'), [0], {})) is not False:
				raise Violation(where2, 'an arbitrary subspace is 0-simple')
			for p, want in (({edge: 'scalar'}, 1),):
				s, S = world(p)
				r = explore_atom(s, S, 'simplicity')
				if r != want:
					raise Violation(L(SSQ, 'simplicity'), f'simplicity {r} instead of {want}')
		rep.run(f'is_n_simple through {edge}', RULE_SET, ob2, where2)
	def study():
		for tgt, want in (('scalar', True), ('stuck', False)):
			s, S = world({'symmetric_scalar_negation': tgt, 'squared': 'stuck' if want else 'scalar'})
			r = decide_atom(s, s.I.getattr(S, 'is_study'))
			if r != want:
				raise Violation(L(SSQ, 'is_study'), f'{r} when the scalar-negation self product maps {"into" if want else "outside"} the scalars')
	rep.run('is_study', RULE_SET, study, L(SSQ, 'is_study'))


def falsify(s):
	"""decide every emptiness question about arbitrary subspaces negatively"""
	s.I.decide = lambda c: False


def decide_atom(s, r):
	if isinstance(r, EmptyV):
		c = r.const()
		r = r.neg if c is None else c
	if s.I.imprecise:
		raise Undecided(s.I.imprecise[0])
	return r


def explore_atom(s, S, name):
	r = s.I.getattr(S, name)
	return decide_atom(s, r)


def namespaces(rep, I0, L):
	import itertools
	NQ = 'numga.subspace.namespaces'
	queries = [('even_grade', (), lambda n: lambda x: g(x) % 2 == 0), ('k_vector', (2,), lambda n: lambda x: g(x) == 2), ('vector', (), lambda n: lambda x: g(x) == 1),
		('scalar', (), lambda n: lambda x: x == 0), ('self_reverse', (), lambda n: lambda x: g(x) * (g(x) - 1) // 2 % 2 == 0), ('empty', (), lambda n: lambda x: False),
		('multivector', (), lambda n: lambda x: True), ('blade', (3,), lambda n: lambda x: x == 3), ('xy', None, lambda n: lambda x: x == 3), ('x_y', None, lambda n: lambda x: x in (1, 2))]
	NSC = {'inside': 'InNamespace', 'equals': 'IsNamespace', 'select': 'SelectNamespace', 'restrict': 'RestrictNamespace'}
	def sub(p, q):
		return p ^ conj(p, q)
	for n in (2, 3, 4):
		for attr, args, fq in queries:
			f = fq(n)
			for ns in NSC:
				where = L(f'{NQ}:{NSC[ns]}', '__getattr__')
				def run(s):
					o = s.I.getattr(s.I.getattr(s.generic('S'), ns), attr)
					return o if args is None else s.I.call(o, list(args), {})
				go(rep, n, ns, f'S.{ns}.{attr}{args if args is not None else ""}', run, lambda s: s.const(f), where)
		for ns in NSC:
			where = L(f'{NQ}:{NSC[ns]}', '__call__')
			go(rep, n, ns, f'S.{ns}(T)', lambda s: s.I.call(s.I.getattr(s.generic('S'), ns), [s.generic('T')], {}), lambda s: s.w.inatom('T', 'x'), where)
			go(rep, n, ns, f'S.{ns}(S)', lambda s: s.I.call(s.I.getattr(s.generic('S'), ns), [s.generic('S')], {}), lambda s: s.w.inatom('S', 'x'), where)
			if ns in ('select', 'restrict'):
				for item in (0, 1, n, -1, [0, 1], (0, n), (n, 0)):
					gs = [x % (n + 1) for x in (item if isinstance(item, (list, tuple)) else [item])]
					where = L(f'{NQ}:{NSC[ns]}', '__getitem__')
					go(rep, n, ns, f'S.{ns}[{item}]', lambda s: s.I.getitem(s.I.getattr(s.generic('S'), ns), item), lambda s: s.const(lambda x: g(x) in gs), where)


def go(rep, n, ns, title, run, tgt, where):
	S = lambda s: s.w.inatom('S', 'x')
	name = f'{title}, {n} generators'
	if ns == 'inside':
		rep.run(name, RULE_NS, lambda: decide_pred(lambda: Set4(n), run, lambda s: S(s) ^ conj(S(s), tgt(s)), where), where)
	elif ns == 'equals':
		rep.run(name, RULE_NS, lambda: decide_pred(lambda: Set4(n), run, lambda s: S(s) ^ tgt(s), where), where)
	elif ns == 'select':
		rep.run(name, RULE_NS, lambda: decide_set(lambda: Set4(n), run, tgt, where), where)
	else:
		rep.run(name, RULE_NS, lambda: decide_set(lambda: Set4(n), run, lambda s: conj(S(s), tgt(s)), where), where)


class MVStub(AV):
	"""multivector: records which of its own selection methods is called with which subspace"""
	def __init__(self, s):
		self.s = s
		self.calls = []
	def a_getattr(self, I, name):
		if name == 'context':
			return CtxStub(self.s)
		if name == 'algebra':
			return self.s.alg
		if name == 'subspace':
			return self.s.generic('S')
		if name in ('select_subspace', 'restrict_subspace'):
			return HostFn(lambda I, a, k: SelV(name, a[0] if a else k.get('subspace')), name)
		if name in ('select_grade', 'restrict_grade'):
			return HostFn(lambda I, a, k: SelV(name[:-5] + 'subspace', I.call(I.getattr(self.s.fac, 'k_vector'), list(a), {})), name)
		return I.top('multivector ' + name)


class CtxStub(AV):
	def __init__(self, s):
		self.s = s
	def a_getattr(self, I, name):
		if name == 'subspace':
			return self.s.fac
		if name == 'algebra':
			return self.s.alg
		return I.top('context ' + name)


class SelV(AV):
	def __init__(self, how, space):
		self.how, self.space = how, space


def mv_namespaces(rep, I0, L):
	NQ = 'numga.multivector.namespaces'
	for n in (2, 3, 4):
		for cls, how in (('SelectNamespace', 'select_subspace'), ('RestrictNamespace', 'restrict_subspace')):
			forms = []
			for attr, args, f in (('even_grade', (), lambda x: g(x) % 2 == 0), ('k_vector', (2,), lambda x: g(x) == 2), ('k_vector', (-1,), lambda x: g(x) == n), ('scalar', (), lambda x: x == 0),
					('blade', (3,), lambda x: x == 3), ('xy', None, lambda x: x == 3), ('x_y', None, lambda x: x in (1, 2)), ('empty', (), lambda x: False), ('odd_grade', (), lambda x: g(x) % 2)):
				forms.append((f'{attr}{args if args is not None else ""}', '__getattr__', attr, args, f))
			for item in (0, 1, n, -1, (0, n), (n, 0)):
				gs = [x % (n + 1) for x in (item if isinstance(item, tuple) else [item])]
				forms.append((f'[{item}]', '__getitem__', None, item, lambda x, gs=gs: g(x) in gs))
			for title, meth, attr, args, f in forms:
				where = L(f'{NQ}:{cls}', meth)
				def ob():
					s = Set4(n)
					o = s.I.call(s.I.get(f'{NQ}:{cls}'), [MVStub(s)], {})
					if attr is None:
						r = s.I.getitem(o, args)
					else:
						r = s.I.getattr(o, attr)
						if args is not None:
							r = s.I.call(r, list(args), {})
					clean(s)
					if not isinstance(r, SelV):
						raise Undecided(f'{r}')
					if r.how != how:
						raise Violation(where, f'{cls} calls {r.how}')
					p = getattr(r.space, 'setpoly', None)
					if p is None:
						raise Undecided(f'{r.space}')
					if p != s.const(f):
						raise Violation(where, f'{title}: wrong subspace [{s.w.vars.show(p)}]')
				rep.run(f'multivector {cls} {title}, {n} generators', RULE_NS, ob, where)
