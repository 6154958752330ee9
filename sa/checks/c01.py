"""C01: blade product law, by abstract interpretation over blade-bit polynomials."""
import os
from ..core import *
from ..bits import *
from ..report import Report, Violation, Undecided, loc
from ..algebra_setup import *

RULE = 'bit-polynomial normal form equals the blade product law'


def one(rep, n):
	I, w, alg = make_algebra(n)
	dt = dtname(I.getattr(alg, 'blade_dtype'))
	A = 'numga.algebra.algebra:Algebra'

	def storage():
		if dt is None or DT[dt][0] < n:
			raise Violation(loc(I, 'numga.algebra.bitops:minimal_uint_type'), f'blade integers of type {dt} cannot hold {n} generators')
		if DT[dt][1]:
			raise Violation(loc(I, 'numga.algebra.bitops:minimal_uint_type'), f'blade integers of signed type {dt}')
		return f'{dt} holds {n} bits'
	rep.run(f'n={n} storage', 'blade integer wide enough', storage, A)

	def product():
		a, b = w.generic_blade('a', dt, ('A',)), w.generic_blade('b', dt, ('B',))
		r = I.call(I.getattr(alg, 'product'), [a, b], {})
		check_clean(I, 'Algebra.product')
		if not isinstance(r, tuple) or len(r) != 2:
			raise Undecided(f'product returns {r}')
		bl, sg = r
		if not isinstance(bl, BV):
			raise Undecided(f'blades {bl}')
		s = Sgn.of(sg)
		if s is None:
			raise Undecided(f'signs {sg}')
		for v, what in ((bl, 'blades'), (s, 'signs')):
			if tuple(v.axes) != ('A', 'B'):
				raise Violation(loc(I, A + '.product'), f'{what} of the product table are laid out as {v.axes}, expected (left, right)')
		want = [x ^ y for x, y in zip(atoms(w, 'a'), atoms(w, 'b'))]
		for i in range(max(n, len(bl.bits))):
			g = bl.bits[i] if i < len(bl.bits) else ZERO
			h = want[i] if i < n else ZERO
			if g != h:
				raise Violation(loc(I, A + '.cayley'), f'n={n}: generator {i} of the product is {w.vars.show(g)}, expected {w.vars.show(h)}')
		spec = product_spec(w, atoms(w, 'a'), atoms(w, 'b'))
		if not same_sign(w, s, spec):
			raise Violation(loc(I, A + '.product'), f'n={n}: ' + diff_sign(w, s, spec))
		return f'{len(s.canon(w)[0])} parity monomials, {len(s.Z)} vanishing conditions'
	rep.run(f'n={n} product', RULE, product, A + '.product')

	def grade():
		a = w.generic_blade('a', dt, ('A',))
		g = I.call(I.getattr(alg, 'grade'), [a], {})
		check_clean(I, 'Algebra.grade')
		is_grade(w, I, g, atoms(w, 'a'), loc(I, A + '.grade'), n)
		return 'sum of all bits, no wrap-around'
	rep.run(f'n={n} grade', 'grade is the exact bit count', grade, A + '.grade')

	def dot():
		a, b = w.generic_blade('a', dt, ('A',)), w.generic_blade('b', dt, ('A',))
		g = I.call(I.getattr(alg, 'bit_dot'), [a, b], {})
		check_clean(I, 'Algebra.bit_dot')
		is_grade(w, I, g, [conj(x, y) for x, y in zip(atoms(w, 'a'), atoms(w, 'b'))], loc(I, A + '.bit_dot'), n)
		return 'count of shared bits'
	rep.run(f'n={n} shared', 'shared generator count is exact', dot, A + '.bit_dot')

	def pss():
		I2, w2, alg2 = make_algebra(n)
		ps = Obj(I2.get('numga.subspace.subspace:SubSpace'))
		ps.attrs['algebra'] = alg2
		ps.attrs['blades'] = BV([ONE] * n, dt, (1,))
		fac = Obj(I2.get('numga.subspace.factory:SubSpaceFactory'))
		w2.intercepts['numga.subspace.factory.SubSpaceFactory.pseudoscalar'] = lambda I, a, k: ps
		alg2.attrs['subspace'] = fac
		r = I2.getattr(alg2, 'pseudo_scalar_squared')
		rep.absorb(I2)
		check_clean(I2, 'pseudo_scalar_squared')
		s = Sgn.of(r)
		if s is None:
			raise Undecided(f'value {r}')
		m, z = atoms(w2, 'm'), atoms(w2, 'z')
		par = sum_anf(m) ^ (ONE if n * (n - 1) // 2 % 2 else ZERO)
		want = Sgn(par, z, {}, ())
		if not same_sign(w2, s, want):
			raise Violation(loc(I2, A + '.pseudo_scalar_squared'), f'n={n}: ' + diff_sign(w2, s, want))
		return 'matches'
	rep.run(f'n={n} pss squared', RULE, pss, A + '.pseudo_scalar_squared')
	rep.absorb(I)


def is_grade(w, I, g, bits, where, n):
	if isinstance(g, IntV):
		want = {}
		for b in bits:
			want[b] = want.get(b, 0) + 1
		mono = all(len(t) == 1 for t in g.terms)
		if g.const == 0 and dict(g.terms) == want:
			if g.mod is None or (DT[g.dtype] == (g.mod, False) and n < 1 << g.mod):
				return
			raise Violation(where, f'n={n}: the count wraps around modulo 2**{g.mod}')
		if mono:
			d = [w.vars.show(b) for b in set(want) | set(g.terms) if want.get(b, 0) != g.terms.get(b, 0)]
			raise Violation(where, f'n={n}: does not count every generator exactly once (constant {g.const}, wrong terms {sorted(d)[:4]})')
	elif isinstance(g, Tab):
		if tuple(g.vals) == tuple(range(n + 1)):
			return
		raise Violation(where, f'n={n}: grade table {g.vals}')
	raise Undecided(f'value {g}')


def main():
	rep = Report('C01', 'Abstract interpretation of Algebra.product/cayley/grade/bit_dot and bitops over the domain of blade bit-vectors whose bits are '
		'Boolean polynomials in the generator-membership bits of generic blades a, b and the unknown signature (negative/null bit per generator); '
		'the resulting normal form is compared with the product law for every dimension 1..32. One abstract run covers all 4^n blade pairs and 3^n signatures.',
		['numpy integer, bitwise, shift and buffer-reinterpretation semantics as modelled in sa/bits.py (little endian)', 'the Python subset semantics of sa/core.py'])
	tier = os.environ.get('VERIF_TIER', 'quick')
	for n in range(1, 33):
		rep.run(f'n={n} setup', 'analysable', lambda: one(rep, n) or 'analysed', 'numga.algebra.algebra:Algebra')
	return rep.finish()
