"""C06: grade-selected products keep exactly the grades that define them."""
import itertools
import os
from ..core import *
from ..bits import *
from ..report import Report, Violation, Undecided, loc, unwrap
from ..algebra_setup import *

RULE = 'grade mask equals the defining grade condition'
OF = 'numga.operator.factory:OperatorFactory'
OP = 'numga.operator.operator:Operator'

PRODUCTS = {
	'wedge_product op outer wedge outer_product': lambda l, r, o: l + r == o,
	'inner_product ip inner': lambda l, r, o: abs(l - r) == o,
	'scalar_product sp dp dot scalar dot_product': lambda l, r, o: o == 0,
	'left_contraction_product lc left_contract': lambda l, r, o: r - l == o,
	'right_contraction_product rc right_contract': lambda l, r, o: l - r == o,
	'geometric_product gp product': lambda l, r, o: True,
}


class Ker(AV):
	"""kernel of a product: the geometric product table times a mask, possibly after other operators"""
	def __init__(self, kind, labels, mask=None, base=None, squeezed=False):
		self.kind, self.labels, self.mask, self.base, self.squeezed = kind, tuple(labels), mask, base, squeezed
	def __repr__(self):
		return f'Ker({self.kind},{self.labels})'
	def a_isinstance(self, I, cls):
		if isinstance(cls, PyClass):
			return self.kind == 'cayley' and cls.name == 'SparseTensor'
		return array_isinstance(cls, True)
	def a_getattr(self, I, name):
		if name == 'ndim':
			return len(self.labels)
		if name == 'shape':
			return tuple(DimTok(x) for x in self.labels)
		if name == 'dtype':
			return DTypeV('int8')
		if name == 'to_dense' and self.kind == 'cayley':
			def dense(I, a, k):
				ax = list(I.iterate(a[0]))
				return Ker('gp', tuple(getattr(x, 'label', '?') for x in ax))
			return HostFn(dense, name)
		if name in ('copy', 'astype'):
			return HostFn(lambda I, a, k: self, name)
		return I.top('kernel ' + name)
	def a_binop(self, I, op, other, refl):
		if op != '*':
			return NotImplemented
		if other is True or (isinstance(other, int) and other == 1):
			return self
		if isinstance(other, CArr) and other.shape == ():
			return self.a_binop(I, op, other.flat[0], refl)
		if isinstance(other, (Tab, MTab, BoolV, IntV)):
			return self.masked(I, other)
		return NotImplemented
	def masked(self, I, m):
		t = mtab(I, m)
		if t is None:
			return I.top('kernel mask')
		ax = tuple(t.axes)
		ax = (1,) * (len(self.labels) - len(ax)) + ax
		if len(ax) != len(self.labels) or any(x != 1 and x != y for x, y in zip(ax, self.labels)):
			raise Violation(loc(I, f'{OP}.grade_selection'), f'grade mask laid out as {ax} on a kernel with axes {self.labels}')
		if self.mask is not None:
			t = t.merge(I, self.mask, lambda x, y: int(x) * int(y), 'int64')
		return Ker(self.kind, self.labels, t, self.base, self.squeezed)


def mtab(I, m):
	if isinstance(m, MTab):
		return m
	if isinstance(m, Tab):
		return MTab.of(m)
	if isinstance(m, BoolV):
		m = m.as_int()
	if isinstance(m, IntV):
		t = m.to_tab(I)
		return MTab.of(t) if t is not None else None
	return None


class Stack(AV):
	"""array whose last axis enumerates concrete entries"""
	is_boolean = False
	def __init__(self, items):
		self.items = items
	def a_getattr(self, I, name):
		if name in ('any', 'all', 'sum', 'max', 'min'):
			return HostFn(lambda I, a, k: self.reduce(I, name, a, k), name)
		return I.top('stack ' + name)
	def a_binop(self, I, op, other, refl):
		return Stack([I.binop(op, other, x) if refl else I.binop(op, x, other) for x in self.items])
	def a_unop(self, I, op):
		return Stack([I.unop(op, x) for x in self.items])
	def reduce(self, I, name, a, k):
		ax = k.get('axis', a[0] if a else None)
		if ax != -1 or k.get('keepdims'):
			return I.top('reduction of stack')
		r = None
		ini = {'any': False, 'all': True, 'sum': 0}.get(name)
		for x in self.items:
			t = mtab(I, x) if not isinstance(x, (bool, int)) else x
			if t is None:
				return I.top('reduction of stack')
			if r is None:
				r = t
				continue
			f = {'any': lambda p, q: bool(p or q), 'all': lambda p, q: bool(p and q), 'sum': lambda p, q: int(p) + int(q), 'max': max, 'min': min}[name]
			if isinstance(r, (bool, int)) and isinstance(t, (bool, int)):
				r = f(r, t)
			elif isinstance(r, MTab) and isinstance(t, MTab):
				r = r.merge(I, t, f, 'bool' if name in ('any', 'all') else 'int64')
			elif isinstance(r, MTab):
				r = r.lift(lambda v, t=t: f(v, t), 'bool' if name in ('any', 'all') else 'int64')
			else:
				r = t.lift(lambda v, r=r: f(r, v), 'bool' if name in ('any', 'all') else 'int64')
		return ini if r is None else r


class Spread(AV):
	"""x[..., None] of a grade array: waits for a concrete vector on the new last axis"""
	def __init__(self, v):
		self.v = v
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, (list, tuple, CArr)):
			flat = other.flat if isinstance(other, CArr) else list(other)
			if isinstance(other, CArr) and len(other.shape) != 1:
				return NotImplemented
			return Stack([I.compare(op, self.v, int(x)) for x in flat])
		return NotImplemented
	def a_getattr(self, I, name):
		if name == 'astype':
			return HostFn(lambda I, a, k: self, name)
		return I.top('spread ' + name)


def setup(n):
	I, w, alg = make_algebra(n)
	dt = dtname(I.getattr(alg, 'blade_dtype'))
	SS = I.get('numga.subspace.subspace:SubSpace')
	made = {}
	def space(kind):
		if kind in made:
			return made[kind]
		v = Obj(SS)
		v.label = kind
		v.attrs['algebra'] = alg
		v.attrs['blades'] = w.generic_blade(kind, dt, (kind,))
		made[kind] = v
		return v
	w.space = space
	def grades(I, a, k):
		if getattr(a[0], 'label', None) is None:
			return I.top('grades')
		return Tab(a[0].label, range(n + 1), 'uint8', (a[0].label,))
	w.grades = grades
	w.intercepts['numga.subspace.subspace.SubSpace.grades'] = grades
	def agrade(I, a, k):
		b = a[1] if len(a) > 1 else None
		if isinstance(b, BV) and len(b.axes) == 1 and b.axes[0] in made and b is made[b.axes[0]].attrs['blades']:
			return Tab(b.axes[0], range(n + 1), 'uint8', b.axes)
		return I.top('grade')
	w.intercepts['numga.algebra.algebra.Algebra.grade'] = agrade
	full = space('o')
	w.intercepts['numga.subspace.factory.SubSpaceFactory.multivector'] = lambda I, a, k: full
	w.intercepts['numga.subspace.factory.SubSpaceFactory.full'] = lambda I, a, k: full
	def kvec(I, a, k):
		g = a[1] if len(a) > 1 else k.get('k')
		return space('biv' if g == 2 else f'grade{g}') if isinstance(g, int) else I.top('k_vector')
	w.intercepts['numga.subspace.factory.SubSpaceFactory.k_vector'] = kvec
	def inter(I, a, k):
		x, y = a
		if getattr(x, 'label', None) and getattr(y, 'label', None):
			return space('&'.join(sorted((x.label, y.label))))
		return I.top('intersection')
	w.intercepts['numga.subspace.subspace.SubSpace.intersection'] = inter
	w.intercepts['numga.subspace.subspace.SubSpace.restrict_subspace'] = inter
	def cayley(I, a, k):
		ins = [getattr(x, 'label', None) for x in a[0]] if len(a) == 3 and isinstance(a[0], (tuple, list)) else [None]
		if None in ins or not isinstance(a[1], BV) or tuple(a[1].axes) != tuple(ins):
			return I.top('from_cayley')
		s = Sgn.of(a[2])
		if s is None or not same_sign(w, s.clone(axes=()), product_spec2(w, *ins)):
			return I.top('from_cayley of an unmodelled table')
		for i in range(n):
			if a[1].bit(i) != w.vars.atom(ins[0], i) ^ w.vars.atom(ins[1], i):
				return I.top('from_cayley of an unmodelled table')
		return Ker('cayley', tuple(ins) + ('o',))
	w.intercepts['numga.operator.sparse_tensor.SparseTensor.from_cayley'] = cayley
	def squeeze(I, a, k):
		op = a[0]
		kr = op.attrs.get('kernel')
		if not isinstance(kr, Ker):
			return I.top('squeeze')
		r = Obj(op.cls)
		r.attrs['kernel'] = Ker(kr.kind, kr.labels, kr.mask, kr.base, True)
		ax = list(op.attrs['axes'])
		out = ax[-1]
		if not out.label.endswith("'"):
			o2 = space(out.label + "'")
			o2.attrs['blades'] = out.attrs['blades']
			ax[-1] = o2
		r.attrs['axes'] = tuple(ax)
		return r
	w.intercepts['numga.operator.operator.Operator.squeeze'] = squeeze
	def fuse(I, a, k):
		self_, other = a[0], a[1]
		axis = k.get('axis', a[2] if len(a) > 2 else None)
		if not (isinstance(other, Obj) and isinstance(axis, int)):
			return I.top('fuse')
		sx, ox = self_.attrs['axes'], other.attrs['axes']
		if getattr(sx[-1], 'label', 0) != getattr(ox[axis], 'label', 1):
			raise Violation(loc(I, f'{OP}.fuse'), 'operator bound to an argument of another subspace')
		r = Obj(other.cls)
		axes = tuple(ox[:axis]) + tuple(sx[:-1]) + tuple(ox[axis + 1:])
		r.attrs['axes'] = axes
		r.attrs['kernel'] = Ker('fused', tuple(x.label for x in axes), None, (self_.attrs['kernel'], other.attrs['kernel'], axis))
		return r
	w.intercepts['numga.operator.operator.Operator.fuse'] = fuse
	def select(I, a, k):
		_, i, o = a
		r = Obj(I.get(OP))
		r.attrs['axes'] = (i, o)
		r.attrs['kernel'] = Ker('select', (i.label, o.label))
		return r
	w.intercepts['numga.operator.factory.OperatorFactory.select'] = select
	w.ext['numpy.unique'] = lambda I, a, k: CArr((len(set(a[0].flat)),), sorted(set(a[0].flat)), a[0].dtype) if isinstance(a[0], CArr) and not k else I.top('unique')
	old = w.ext['numpy.any'], w.ext['numpy.all'], w.ext['numpy.sum'], w.ext['numpy.where']
	for i, nm in enumerate(('any', 'all', 'sum')):
		w.ext['numpy.' + nm] = (lambda i, nm: lambda I, a, k: a[0].reduce(I, nm, a[1:], k) if isinstance(a[0], Stack) else old[i](I, a, k))(i, nm)
	def minmax(f, host):
		def go(I, a, k):
			x, y = a
			t, u = (mtab(I, v) if not isinstance(v, (int, bool)) else v for v in (x, y))
			if isinstance(t, MTab) and isinstance(u, MTab):
				return t.merge(I, u, host, promote(t.dtype, u.dtype))
			if isinstance(t, MTab) and isinstance(u, int):
				return t.lift(lambda v: host(v, u), t.dtype)
			if isinstance(u, MTab) and isinstance(t, int):
				return u.lift(lambda v: host(v, t), u.dtype)
			return I.top(f)
		return go
	w.ext['numpy.maximum'] = minmax('maximum', max)
	w.ext['numpy.minimum'] = minmax('minimum', min)
	def where(I, a, k):
		if len(a) == 3 and isinstance(a[1], Ker) and a[2] == 0:
			return a[1].a_binop(I, '*', a[0], False)
		return old[3](I, a, k)
	w.ext['numpy.where'] = where
	fac = Obj(I.get('numga.subspace.factory:SubSpaceFactory'))
	fac.attrs['algebra'] = alg
	alg.attrs['subspace'] = fac
	of = I.call(I.get(OF), [alg], {})
	alg.attrs['operator'] = of
	return I, w, alg, of


def product_spec2(w, x, y):
	a = [w.vars.atom(x, i) for i in range(w.n)]
	b = [w.vars.atom(y, i) for i in range(w.n)]
	m, z = atoms(w, 'm'), atoms(w, 'z')
	par = swaps_par(w, a, b) ^ sum_anf(conj(conj(a[i], b[i]), m[i]) for i in range(w.n))
	return Sgn(par, [conj(conj(a[i], b[i]), z[i]) for i in range(w.n)], {}, ())


def patch_index(I):
	"""grade arrays accept [..., None]"""
	orig = Sized.a_getitem
	def gi(self, I, key):
		if isinstance(self, (Tab, IntV, MTab)) and isinstance(key, tuple) and len(key) == 2 and key[0] is ... and key[1] is None and self.axes:
			return Spread(self)
		return orig(self, I, key)
	for c in (Tab, IntV, MTab):
		c.a_getitem = gi


def feasible(n):
	for gl in range(n + 1):
		for gr in range(n + 1):
			for k in range(max(0, gl + gr - n), min(gl, gr) + 1):
				yield gl, gr, gl + gr - 2 * k


def check_mask(I, k, n, spec, vs, name, triples=None):
	where = loc(I, f'{OF}.{name}')
	if not isinstance(k, Ker):
		raise Undecided(f'kernel {k}')
	if k.kind != 'gp':
		raise Undecided(f'kernel {k}')
	for t in feasible(n):
		want = bool(spec(*t))
		if k.mask is None:
			got = 1
		else:
			idx = dict(zip(vs, t))
			try:
				got = k.mask.f[tuple(idx[v] for v in k.mask.vars)]
			except KeyError:
				raise Undecided(f'mask over {k.mask.vars}')
		if bool(got) != want:
			raise Violation(where, f'n={n}: {name} {"drops" if want else "keeps"} the grade {t[2]} part of the product of grades {t[0]} and {t[1]}')
		if want and int(got) != 1:
			raise Violation(where, f'n={n}: {name} scales the grade {t[2]} part of the product of grades {t[0]} and {t[1]} by {got}')


def one(rep, n):
	I, w, alg, of = setup(n)
	def clean():
		I.imprecise.clear()
		I.trace.clear()
	for names, spec in PRODUCTS.items():
		for name in names.split():
			def direct():
				clean()
				l, r = w.space('l'), w.space('r')
				op = I.call(I.getattr(of, name), [l, r], {})
				check_clean(I, name)
				if not isinstance(op, Obj):
					raise Undecided(f'returns {op}')
				check_mask(I, op.attrs['kernel'], n, spec, ('l', 'r', 'o'), name)
				ax = op.attrs['axes']
				if [x.label.rstrip("'") for x in ax] != ['l', 'r', 'o']:
					raise Violation(loc(I, f'{OF}.{name}'), f'axes {[x.label for x in ax]}')
				return f'{sum(1 for _ in feasible(n))} grade triples'
			rep.run(f'n={n} {name}', RULE, direct, f'{OF}.{name}')
		name = names.split()[0]
		def bound():
			clean()
			l, r = w.space('l'), w.space('r')
			def pre(x, y):
				o = Obj(I.get(OP))
				o.attrs['axes'] = (w.space(x), y)
				o.attrs['kernel'] = Ker('pre', (x, y.label))
				return o
			for L, R in ((pre('x', l), r), (l, pre('y', r)), (pre('x', l), pre('y', r))):
				op = I.call(I.getattr(of, name), [L, R], {})
				check_clean(I, name)
				k = op.attrs['kernel'] if isinstance(op, Obj) else None
				if not isinstance(k, Ker):
					raise Undecided(f'returns {op}')
				slots = {0: L, 1: R}
				want = sorted(i for i, x in slots.items() if x is not l and x is not r)
				seen = []
				while k.kind == 'fused':
					if k.mask is not None:
						raise Violation(loc(I, f'{OF}.{name}'), f'{name}: grades are selected after the bound operator was fused in, so on its inputs instead of the operands of the product')
					seen.append(k.base[2])
					if k.base[0].kind != 'pre':
						raise Undecided('fusion')
					k = k.base[1]
				if sorted(seen) != want:
					raise Undecided('fusion structure')
				check_mask(I, k, n, spec, ('l', 'r', 'o'), name)
			return 'mask applied to the operands before binding'
		if n in (2, 3, 5):
			rep.run(f'n={n} {name} of operators', 'grades are selected on the operands, before other operators are bound', bound, f'{OF}.make_product')

	def npr(biv):
		def go():
			clean()
			l, r = w.space('l'), w.space('r')
			tgt = 'biv' if biv else 'out'
			op = I.call(I.getattr(of, 'bivector_product' if biv else 'n_product'), [l, r] + ([] if biv else [w.space('out')]), {})
			check_clean(I, 'n_product')
			k = op.attrs['kernel'] if isinstance(op, Obj) else None
			where = loc(I, f'{OF}.n_product')
			if not isinstance(k, Ker):
				raise Undecided(f'returns {op}')
			lab = [x.label for x in op.attrs['axes']]
			full = "&".join(sorted((tgt, "o'")))
			full2 = "&".join(sorted((tgt, "o")))
			if k.kind == 'fused' and k.base[1].kind == 'select' and k.base[2] == 0:
				check_mask(I, k.base[0], n, lambda *t: True, ('l', 'r', 'o'), 'n_product')
				if lab[:2] != ['l', 'r']:
					raise Violation(where, f'inputs {lab[:2]}')
				out = lab[2].rstrip("'")
				if out in (full.rstrip("'"), full2, tgt):
					return 'geometric product restricted to the requested subspace'
				raise Violation(where, f'output subspace {lab[2]}, expected the requested subspace within the product')
			raise Undecided(f'structure {k.kind}')
		return go
	if n in (1, 2, 3, 4, 6):
		rep.run(f'n={n} n_product', 'geometric product restricted to the requested subspace', npr(False), f'{OF}.n_product')
		rep.run(f'n={n} bivector_product', 'geometric product restricted to the bivectors', npr(True), f'{OF}.bivector_product')
	rep.absorb(I)


def sandwich(rep, n, G, name):
	def go():
		I, w, alg, of = setup(n)
		patch_index(I)
		v = w.space('v')
		w.intercepts['numga.subspace.subspace.SubSpace.grades'] = lambda I, a, k: (CArr((len(G),), list(G), 'uint8') if a[0] is v and not w.inmask else w.grades(I, a, k))
		w.inmask = False
		fs = Obj(I.get(OP))
		R, o = w.space('r'), w.space('o')
		w.space('s')
		fs.attrs['axes'] = (R, v, w.space('s'), o)
		fs.attrs['kernel'] = Ker('gp', ('r', 'v', 's', 'o'))
		w.intercepts['numga.operator.factory.OperatorFactory.full_sandwich'] = lambda I, a, k: fs
		orig = I.get(OP + '.grade_selection')
		def gs(I, a, k):
			w.inmask = True
			del w.intercepts['numga.operator.operator.Operator.grade_selection']
			try:
				return I.call(unwrap(orig), a, k)
			finally:
				w.inmask = False
				w.intercepts['numga.operator.operator.Operator.grade_selection'] = gs
		w.intercepts['numga.operator.operator.Operator.grade_selection'] = gs
		op = I.call(I.getattr(of, name), [R, v], {})
		check_clean(I, name)
		k = op.attrs['kernel'] if isinstance(op, Obj) else None
		if not isinstance(k, Ker) or k.kind != 'gp':
			raise Undecided(f'returns {op}')
		where = loc(I, f'{OF}.{name}')
		if k.mask is None:
			if set(G) != set(range(n + 1)):
				raise Violation(where, f'n={n}: no grade restriction for grades {G}')
		elif any(x not in ('o', 'v') for x in k.mask.vars):
			raise Undecided(f'mask over {k.mask.vars}')
		else:
			for m in sorted(set(G)):
				for g in range(n + 1):
					if (m * (m - 1) // 2 - g * (g - 1) // 2) % 2:
						continue          # R x ~R keeps the sign under reversion: grade g never arises from grade m
					got = k.mask.f[tuple({'o': g, 'v': m}[x] for x in k.mask.vars)]
					if bool(got) != (g in G):
						raise Violation(where, f'n={n}: sandwich on a subspace of grades {sorted(set(G))} {"drops" if g in G else "keeps"} grade {g} of the images of grade {m}')
					if got and int(got) != 1:
						raise Violation(where, f'n={n}: grade {g} is scaled by {got}')
		rep.absorb(I)
		return 'exactly the input grades'
	rep.run(f'n={n} {name} grades {G}', 'sandwich keeps exactly the grades of its argument', go, f'{OF}.{name}')


def main():
	rep = Report('C06', 'Abstract interpretation of the product constructors of OperatorFactory: grades of generic blades are tables over grade values, the mask produced by each formula is a table '
		'over (grade l, grade r, grade o) and is compared with the definition on every feasible grade triple of dimensions 1..12 and larger ones; the kernel stays symbolic so that order of masking and binding, mask layout '
		'and coefficient changes are visible. The sandwich restriction is decided for every non-empty set of input grades of dimensions 1..4.',
		['SubSpace.grades returns the grade of each blade (decided by C01)', 'SparseTensor.from_cayley and Operator.squeeze/fuse mean what C08 decides', 'the Python subset semantics of sa/core.py', 'numpy integer semantics of sa/bits.py'])
	dims = list(range(1, 13)) + [16, 17, 24, 32]
	if os.environ.get('VERIF_TIER') == 'thorough':
		dims = range(1, 33)
	for n in dims:
		rep.run(f'n={n} setup', 'analysable', lambda: one(rep, n) or 'analysed', OF)
	for n in (1, 2, 3, 4):
		for m in range(1, 1 << (n + 1)):
			G = [g for g in range(n + 1) if m >> g & 1]
			sandwich(rep, n, G + G[-1:], 'sandwich')
	for G in ([1], [0, 5], [2, 6], [1, 3, 7]):
		sandwich(rep, 8, G, 'sandwich')
	return rep.finish()
