"""C05: involutions and duals carry the exact per-blade sign (blade-bit polynomial domain)."""
import os
from math import comb
from ..core import *
from ..bits import *
from ..report import Report, Violation, Undecided, loc
from ..algebra_setup import *

RULE = 'signed blade map equals its definition'
OF = 'numga.operator.factory:OperatorFactory'
OP = 'numga.operator.operator:Operator'


class Sparse(AV):
	"""SparseTensor.from_cayley((v,), image, sign) before it is laid out"""
	def __init__(self, space, image, sign):
		self.space, self.image, self.sign = space, image, sign
	def a_getattr(self, I, name):
		if name == 'to_dense':
			return HostFn(lambda I, a, k: self.dense(I, a[0]), 'to_dense')
		return I.top('sparse ' + name)
	def a_isinstance(self, I, cls):
		return isinstance(cls, PyClass) and cls.name == 'SparseTensor'
	def dense(self, I, axes):
		return SignedMap(self.space.label, self.image, self.sign)


def setup(n):
	I, w, alg = make_algebra(n)
	dt = dtname(I.getattr(alg, 'blade_dtype'))
	SS = I.get('numga.subspace.subspace:SubSpace')
	def space(kind):
		v = Obj(SS)
		v.label = kind
		v.attrs['algebra'] = alg
		v.attrs['blades'] = w.generic_blade(kind, dt, (kind,))
		return v
	v, vc = space('a'), space('c')
	v.pair, vc.pair = vc, v
	pss = Obj(SS)
	pss.attrs['algebra'] = alg
	pss.attrs['blades'] = BV([ONE] * n, dt, (1,))
	def comp(I, a, k):
		p = getattr(a[0], 'pair', None)
		return p if p is not None else I.top('complement')
	w.intercepts['numga.subspace.subspace.SubSpace.complement'] = comp
	w.intercepts['numga.subspace.subspace.SubSpace.dual'] = comp
	w.intercepts['numga.subspace.factory.SubSpaceFactory.pseudoscalar'] = lambda I, a, k: pss
	w.intercepts['numga.subspace.factory.SubSpaceFactory.antiscalar'] = lambda I, a, k: pss
	def cayley(I, a, k):
		if len(a) != 3 or not isinstance(a[0], (tuple, list)) or len(a[0]) != 1 or getattr(a[0][0], 'label', None) is None:
			return I.top('from_cayley')
		image, sign = a[1], a[2]
		sp = a[0][0]
		if not isinstance(image, BV) or Sgn.of(sign) is None:
			return I.top('from_cayley of unmodelled map')
		if tuple(x for x in image.axes if x != 1) != (sp.label,):
			return I.top('from_cayley axes')
		return Sparse(sp, image.clone(axes=()), Sgn.of(sign).clone(axes=()))
	w.intercepts['numga.operator.sparse_tensor.SparseTensor.from_cayley'] = cayley
	fac = Obj(I.get('numga.subspace.factory:SubSpaceFactory'))
	fac.attrs['algebra'] = alg
	alg.attrs['subspace'] = fac
	of = I.call(I.get(OF), [alg], {})
	alg.attrs['operator'] = of
	return I, w, alg, of, v, vc


def grade_par(w, f, a):
	"""sign (+1/-1 per grade) as Sgn over variable kind a"""
	return Sgn(ZERO, (), {a: tuple(f(g) for g in range(w.n + 1))}, ())


def specs(w, n):
	"""name -> (image is complement?, Sgn over variable 'a')"""
	a = atoms(w, 'a')
	c = [x ^ ONE for x in a]
	m = atoms(w, 'm')
	neg = Sgn(sum_anf(conj(x, y) for x, y in zip(a, m)), (), {}, ())
	cneg = Sgn(sum_anf(conj(x, y) for x, y in zip(c, m)), (), {}, ())
	ones = [ONE] * n
	def sw(x, y):
		return Sgn(swaps_par(w, x, y), (), {}, ())
	def mul(s, t):
		return Sgn(s.par ^ t.par, s.Z | t.Z, {**s.tabs, **t.tabs}, ())
	rev = lambda g: -1 if g * (g - 1) // 2 % 2 else 1
	inv = lambda g: -1 if g % 2 else 1
	return {
		'identity': (False, Sgn(ZERO, (), {}, ())),
		'reverse': (False, grade_par(w, rev, 'a')),
		'involute': (False, grade_par(w, inv, 'a')),
		'conjugate': (False, grade_par(w, lambda g: rev(g) * inv(g), 'a')),
		'scalar_negation': (False, grade_par(w, lambda g: 1 if g == 0 else -1, 'a')),
		'study_conjugate': (False, grade_par(w, lambda g: 1 if g == 0 else -1, 'a')),
		'pseudoscalar_negation': (False, grade_par(w, lambda g: 1 if g in (0, n) else -1, 'a')),
		'right_complement': (True, mul(sw(a, ones), neg)),
		'left_complement': (True, mul(sw(ones, a), neg)),
		'right_complement_dual': (True, sw(a, c)),
		'left_complement_dual': (True, sw(c, a)),
		'right_hodge': (True, mul(sw(a, c), neg)),
		'left_hodge': (True, mul(sw(c, a), neg)),
		'dual': (True, mul(sw(a, c), neg)),
		'right_hodge_inverse': (True, mul(sw(c, a), cneg)),
		'left_hodge_inverse': (True, mul(sw(a, c), cneg)),
		'dual_inverse': (True, mul(sw(c, a), cneg)),
	}


def renamed(w, s, frm, to):
	tabs = {(to if k == frm else k): v for k, v in s.tabs.items()}
	return Sgn(rename(w.vars, s.par, frm, to), s.Z, tabs, ())


def sym_values(w, par, var):
	"""grade table of a symmetric parity, or None"""
	V = w.vars
	mask = 0
	for i in range(w.n):
		mask |= 1 << V.var(var, i)
	by = {}
	for mm in par:
		if mm & ~mask:
			return None
		by.setdefault(bin(mm).count('1'), 0)
		by[bin(mm).count('1')] += 1
	for k, c in by.items():
		if c != comb(w.n, k):
			return None
	return tuple(-1 if sum(comb(g, k) for k in by) % 2 else 1 for g in range(w.n + 1))


def compare(w, got, want):
	"""None if equal, text if definitely different; raises Undecided"""
	g, h = got.canon(w), want.canon(w)
	if g == h:
		return None
	if g[2] or h[2]:
		# fold what is symmetric on both sides
		def fold(c):
			v = sym_values(w, c[0], 'a')
			if v is None or c[1]:
				raise Undecided('sign tables of mixed form')
			for k, t in c[2]:
				if k != 'a':
					raise Undecided('sign tables of mixed form')
				v = tuple(x * y for x, y in zip(v, t))
			return v
		x, y = fold(g), fold(h)
		if x == y:
			return None
		bad = [i for i in range(len(x)) if x[i] != y[i]]
		return f'wrong sign on grades {bad[:6]}'
	if g[1] != h[1]:
		return 'vanishes on some blades'
	d = g[0] ^ h[0]
	v = sym_values(w, d, 'a')
	if v is not None:
		return f'wrong sign on grades {[i for i in range(len(v)) if v[i] == -1][:6]}'
	return 'sign parity off by ' + w.vars.show(d)


def check_op(I, w, r, axes, comp, sgn, n, name):
	where = loc(I, f'{OF}.{name}')
	if not isinstance(r, Obj) or r.cls.name != 'Operator':
		raise Undecided(f'returns {r}')
	ax = r.attrs.get('axes')
	k = r.attrs.get('kernel')
	if not isinstance(k, SignedMap):
		raise Undecided(f'kernel {k}')
	if not isinstance(ax, tuple) or not all(isinstance(x, Obj) for x in ax):
		raise Undecided(f'axes {ax}')
	if len(ax) != 2 or ax[0] is not axes[0] or ax[1] is not axes[1]:
		raise Violation(where, f'n={n}: {name} maps {[getattr(x, "label", "?") for x in ax]} instead of {[x.label for x in axes]} (a: input subspace, c: its complement)')
	s = Sgn.of(k.sign)
	if s is None:
		raise Undecided(f'sign {k.sign}')
	for i in range(n):
		b = rename(w.vars, k.image.bit(i), k.var, 'a')
		want = w.vars.atom('a', i) ^ (ONE if comp else ZERO)
		if b != want:
			raise Violation(where, f'n={n}: generator {i} of the image of a is {w.vars.show(b)}, expected {w.vars.show(want)}')
	d = compare(w, renamed(w, s, k.var, 'a'), sgn)
	if d:
		raise Violation(where, f'n={n}: {name}: {d}')
	return 'image and sign match for every blade and signature'


def one(rep, n):
	I, w, alg, of, v, vc = setup(n)
	w0 = w
	for name, (comp, sgn) in specs(w, n).items():
		anchor = f'{OF}.{name}'
		def direct():
			I.imprecise.clear()
			I.trace.clear()
			r = I.call(I.getattr(of, name), [v], {})
			check_clean(I, name)
			return check_op(I, w, r, (v, vc if comp else v), comp, sgn, n, name)
		rep.run(f'n={n} {name}', RULE, direct, anchor)
		if name in ('study_conjugate', 'identity'):
			continue
		def bound():
			# applied to an operator whose output is the subspace: composition after it
			I.imprecise.clear()
			I.trace.clear()
			pre = SignedMap('c', BV([x ^ ONE for x in atoms(w, 'c')], I.getattr(alg, 'blade_dtype') and v.attrs['blades'].dtype, ()), Sgn(frozenset((0,)) ^ frozenset((1 << w.vars.var('c', 0),)), (), {}, ()))
			op = I.call(I.get(OP), [pre, (vc, v)], {})
			r = I.call(I.getattr(of, name), [op], {})
			check_clean(I, name)
			# expected: input c -> a = complement of c with sign of pre, then the map
			post = SignedMap('a', BV([x ^ (ONE if comp else ZERO) for x in atoms(w, 'a')], v.attrs['blades'].dtype, ()), sgn)
			want = pre.compose(I, post)
			if not isinstance(want, SignedMap):
				raise Undecided('specification of the composition')
			check_clean(I, name)
			k = r.attrs.get('kernel') if isinstance(r, Obj) else None
			if not isinstance(k, SignedMap):
				raise Undecided(f'kernel {k}')
			ax = r.attrs['axes']
			exp = (vc, vc if comp else v)
			if len(ax) != 2 or ax[0] is not exp[0] or ax[1] is not exp[1]:
				raise Violation(loc(I, anchor), f'n={n}: {name} of an operator maps {[getattr(x, "label", "?") for x in ax]}, expected {[x.label for x in exp]}')
			for i in range(n):
				if rename(w.vars, k.image.bit(i), k.var, 'c') != want.image.bit(i):
					raise Violation(loc(I, anchor), f'n={n}: {name} of an operator: wrong image blade')
			s = Sgn.of(k.sign)
			if s is None:
				raise Undecided(f'sign {k.sign}')
			d = compare(w, renamed(w, s, k.var, 'a'), renamed(w, want.sign, 'c', 'a'))
			if d:
				raise Violation(loc(I, anchor), f'n={n}: {name} applied to an operator: {d}')
			return 'composition after the operator'
		rep.run(f'n={n} {name} of an operator', 'a unary map of an operator is applied after it', bound, anchor)

	def alg_sign(name, f):
		def go():
			I.imprecise.clear()
			I.trace.clear()
			r = I.call(I.getattr(alg, name), [v.attrs['blades']], {})
			check_clean(I, name)
			s = Sgn.of(r)
			if s is None:
				raise Undecided(f'value {r}')
			d = compare(w, s.clone(axes=()), grade_par(w, f, 'a'))
			if d:
				raise Violation(loc(I, 'numga.algebra.algebra:Algebra.' + name), f'n={n}: {name}: {d}')
			return 'per blade sign'
		rep.run(f'n={n} Algebra.{name}', RULE, go, 'numga.algebra.algebra:Algebra.' + name)
	alg_sign('reverse', lambda g: -1 if g * (g - 1) // 2 % 2 else 1)
	alg_sign('involute', lambda g: -1 if g % 2 else 1)

	def complement():
		I.imprecise.clear()
		I.trace.clear()
		r = I.call(I.getattr(alg, 'complement'), [v.attrs['blades']], {})
		check_clean(I, 'complement')
		if not isinstance(r, BV):
			raise Undecided(f'value {r}')
		for i in range(max(n, len(r.bits))):
			if r.bit(i) != ((w.vars.atom('a', i) ^ ONE) if i < n else ZERO):
				raise Violation(loc(I, 'numga.algebra.algebra:Algebra.complement'), f'n={n}: generator {i} of the complement is {w.vars.show(r.bit(i))}')
		return 'a xor I'
	rep.run(f'n={n} Algebra.complement', RULE, complement, 'numga.algebra.algebra:Algebra.complement')
	rep.absorb(I)


def main():
	rep = Report('C05', 'Abstract interpretation of the unary constructors of OperatorFactory over the domain of signed blade maps: the image of a generic blade is a vector of Boolean '
		'polynomials in its generator-membership bits, the sign a Boolean polynomial in those bits and the unknown signature (plus tables over the grade). The normal form is compared with '
		'the definition of each involution, complement and dual, on a subspace and after an operator, for dimensions 1..32; one abstract run covers all 2^n blades and 3^n signatures.',
		['numpy integer, bitwise and matrix semantics as modelled in sa/bits.py', 'SparseTensor.from_cayley lays a blade map out as the matrix of that map (decided by C08)',
			'the Python subset semantics of sa/core.py'])
	dims = list(range(1, 15)) + [16, 17, 20, 24, 25, 32]
	if os.environ.get('VERIF_TIER') == 'thorough':
		dims = range(1, 33)
	for n in dims:
		rep.run(f'n={n} setup', 'analysable', lambda: one(rep, n) or 'analysed', OF)
	return rep.finish()
