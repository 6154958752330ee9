"""Objects of the analysed program that several bit-domain checks start from."""
from .core import *
from .bits import *
from .report import Violation, Undecided, loc


def make_algebra(n, sig=None):
	"""(interp, world, abstract Algebra with unknown signature of n generators)"""
	w = BitsWorld(n)
	I = Interp(w)
	D = I.get('numga.algebra.description:AlgebraDescription')
	A = I.get('numga.algebra.algebra:Algebra')
	d = I.call(D, [tuple('e%d' % i for i in range(n)), tuple(sig or (SignAtom(w, i) for i in range(n)))], {})
	alg = I.call(A, [d], {})
	return I, w, alg


def check_clean(I, what=''):
	if I.imprecise:
		raise Undecided(f'{what}: outside the modelled fragment: {I.imprecise[0]}')
	if I.trace:
		raise Undecided(f'{what}: depends on undecided condition {I.trace[0][0]}')


def atoms(w, kind):
	return [w.vars.atom(kind, i) for i in range(w.n)]


def sum_anf(ps):
	out = frozenset()
	for p in ps:
		out = out ^ p
	return out


def swaps_par(w, a, b):
	"""parity of transpositions sorting a*b : pairs i > j, i in a, j in b"""
	out = set()
	for i in range(w.n):
		for j in range(i):
			for x in a[i]:
				for y in b[j]:
					out ^= {x | y}
	return frozenset(out)


def anf_mul(p, q):
	return conj(p, q)


def product_spec(w, a, b):
	m, z = atoms(w, 'm'), atoms(w, 'z')
	par = swaps_par(w, a, b) ^ sum_anf(conj(conj(a[i], b[i]), m[i]) for i in range(w.n))
	Z = [conj(conj(a[i], b[i]), z[i]) for i in range(w.n)]
	return Sgn(par, Z, {}, ())


def same_sign(w, got, want):
	g = got.canon(w) if got is not None else None
	h = want.canon(w)
	return g == h


def diff_sign(w, got, want):
	g, h = got.canon(w), want.canon(w)
	if g[2] != h[2]:
		return f'grade dependent factors differ: {g[2]} vs {h[2]}'
	if g[1] != h[1]:
		d = sorted(g[1] ^ h[1], key=sorted)[:2]
		return 'the product vanishes on the wrong blades: ' + ', '.join(w.vars.show(x) for x in d)
	return 'sign parity off by ' + w.vars.show(g[0] ^ h[0])
