"""C17: addition, subtraction, negation, upcasting and selection, over word expressions with component layouts."""
from ..core import *
from ..words import *
from ..mvsetup import *
from ..report import Report, Violation, Undecided, loc
from .c09 import check_path, X, Y, SCALAR

RULE = 'componentwise combination on the union of the subspaces'
MV = 'numga.multivector.multivector:AbstractMultiVector'


def union_tok(w, a, b):
	return w.union(SubV(w, a), SubV(w, b)).tok


def same_space(p, got, want_parts):
	"""is the token `got` the union of the parts, given what is known on this partition"""
	w, I = p.setup.w, p.I
	parts = set()
	for t in want_parts:
		parts |= set(t[1]) if t[0] == 'u' else {t}
	def equal(a, b):
		return a == b or I.known.get(cond_key(('eq', frozenset({a, b})))) is True
	def inside(a, b):
		return w.sub_in(I, SubV(w, a), SubV(w, b)) is True or I.known.get(cond_key(('inside', a, b))) is True
	gp = set(got[1]) if got[0] == 'u' else {got}
	left = all(any(equal(a, b) or inside(a, b) for b in parts) for a in gp)
	right = all(any(equal(a, b) or inside(a, b) for b in gp) for a in parts)
	return left and right


def named(k):
	return ('name', {0: 'scalar', 1: 'vector', 2: 'bivector'}[k], ())


def batches(rep):
	"""arrays of numbers of any rank are scalars whose batch axes are the axes of the array"""
	from ..tensetup import T, explore_T, decide_path, conds
	from ..tensor import Ten, ONE, SCALAR_TOK
	from .c10 import check_mv, op_where
	RB = 'batch axes broadcast, an array of numbers being a batch of scalars'
	A = ('in', 'A')
	CASES = [((), ()), ((), ('n',)), ((), ('m', 'n')), (('n',), ()), (('m', 'n'), ('n',)), (('n',), ('m', 'n')), (('m', 'n'), ('m', 'n')), (('m', 1), ('n',)), (('k', 'm', 'n'), ('m', 'n'))]
	for backend in ('numpy', 'jax', 'torch'):
		q = BACKENDS[backend]
		q = f'numga.backend.{backend}.multivector:' + {'numpy': 'NumpyMultiVector', 'jax': 'JaxMultiVector', 'torch': 'TorchMultiVector'}[backend]
		def mk(backend=backend):
			t = T(backend)
			t.w.opfac = dict(select=lambda a, o: t.op(('E', a.tok), [a, o]))
			return t
		base = mk()
		def array(t, batch, backend=backend):
			return t.w.atom('a', [s if s == 1 else ('b', s) for s in batch], backend)
		def run(name, call, judge, method, q=q, mk=mk, base=base):
			where = op_where(base.I, q, method)
			def go():
				out = ''
				for p in explore_T(mk, call):
					rep.absorb(p.I)
					c = dict((x, v) for x, v in p.conds)
					if any(x[0] == 'subeq' and v for x, v in c.items()) and ('multivector' in name or any(x[0] == 'dimeq' and not v for x, v in c.items())):
						continue		# equal spaces have equal lengths; multivectors of one space are a case of their own
					decide_path(p, where, name)
					out = judge(p, where, name) or out
				return out
			rep.run(name, RB, go, where)
		for b in ((), ('n',), ('m', 'n'), ('k', 'm', 'n'), ('m', 1)):
			run(f'{backend} upcast of an array of shape {b}', lambda t, b=b: t.I.call(t.I.getattr(t.mv('x', 'A'), 'upcast'), [array(t, b)], {}),
				lambda p, where, name, b=b: check_mv(p, p.value, p.t.w.atom('a', [s if s == 1 else ('b', s) for s in b] + [1], backend), SCALAR_TOK, where, name), 'upcast')
		for other, name, sx, sa in [('array',) + x for x in (('__add__', 1, 1), ('__radd__', 1, 1), ('__sub__', 1, -1), ('__rsub__', -1, 1))] + [(m, *f) for m in ('multivector', 'multivector of the same space') for f in (('__add__', 1, 1), ('__sub__', 1, -1))]:
			T2 = {'array': SCALAR_TOK, 'multivector': ('in', 'B')}.get(other, A)
			for bx, ba in CASES:
				def call(t, name=name, bx=bx, ba=ba, other=other):
					return t.I.call(t.I.getattr(t.mv('x', 'A', bx), name), [array(t, ba) if other == 'array' else t.mv('a', 'B' if other == 'multivector' else 'A', ba)], {})
				def judge(p, where, what, bx=bx, ba=ba, sx=sx, sa=sa, T2=T2):
					w = p.t.w
					r = max(len(bx), len(ba))
					shape = [1] * r
					for b in (bx, ba):
						for k, s in enumerate(b):
							if s != 1:
								shape[r - len(b) + k] = ('b', s)
					axes = [(w.V.fresh(s), s) for s in shape]
					def idx(b):
						return tuple(axes[r - len(b) + k][0] for k, s in enumerate(b) if s != 1)
					same = T2 == A or any(x[0] == 'subeq' and v for x, v in p.conds)
					U = A if same else w.union(A, T2)
					if same:
						o = w.V.fresh(w.length(U))
						body = ((ONE * sx, (('x', idx(bx) + (o,)),), ()), (ONE * sa, (('a', idx(ba) + ((o,) if T2 == A else ())),), ()))
						if isinstance(p.value, Obj) and getattr(p.value.attrs.get('subspace'), 'tok', None) == T2:
							U = T2
					else:
						o = w.V.fresh(w.length(U))
						i = w.V.fresh(w.length(A))
						j = () if T2 == SCALAR_TOK else (w.V.fresh(w.length(T2)),)
						body = ((ONE * sx, (('x', idx(bx) + (i,)), (('E', A), (i, o))), (i,)), (ONE * sa, (('a', idx(ba) + j), (('E', T2), j + (o,))), j))
					return check_mv(p, p.value, Ten(w, axes + [(o, w.length(A if same else U))], body, None), U, where, what)
				run(f'{backend} {name} of batch {bx} with {other} of batch {ba}', call, judge, name)


def main():
	rep = Report('C17', 'combine, the addition/subtraction/negation dunders, upcast and the selections of every backend are abstractly interpreted on multivectors with symbolic components. Component arrays carry the subspace their last axis enumerates; adding arrays of different layouts is a violation. The result must be the signed sum of the operands, laid out on the union of their subspaces.',
		['operator.select into a superset embeds components by blade (decided by C08/C17 select obligations)', 'reflected Python operators are tried after the left operand declines'])
	for backend in BACKENDS:
		mk = lambda: Setup(backend)
		base = mk()
		def where_of(name):
			for c in base.mvcls.mro:
				if name in c.attrs:
					return loc(base.I, f'{c.module.name}:{c.name}.{name}')
			return name
		def ob(name, variant, call, want, parts):
			def go():
				out = ''
				for p in run_paths(mk, call):
					rep.absorb(p.I)
					out = check_path(p, want, where_of(name), f'{backend} {name}{variant}')
					v, s = unmv(p.value)
					if not same_space(p, s.tok, parts):
						raise Violation(where_of(name), f'{backend} {name}{variant}{showconds(p)} lives in {showtok(s.tok)}, expected the union of {[showtok(t) for t in parts]}')
				return out
			rep.run(f'{backend} {name}{variant}', RULE, go, f'{MV}.{name}')
		A, B = ('in', 'Sx'), ('in', 'Sy')
		XY = [('(x, y)', 'Sy', B), ('(x, y of the same subspace)', 'Sx', A)]
		for variant, sub, tok in XY:
			Y1 = atom('y', tok)
			for name, want in (('__add__', X + Y1), ('__radd__', X + Y1), ('__sub__', X - Y1), ('__rsub__', Y1 - X)):
				ob(name, variant, lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [s.mv('y', sub)], {}), want, [A, tok])
			for sign in (1, -1, 2):
				ob('combine', f'{variant} sign {sign}', lambda s, sign=sign: s.I.call(s.I.getattr(s.mv('x'), 'combine'), [s.mv('y', sub)], {'sign': sign}), X + Y1.scale(sign), [A, tok])
		for name, want in (('__add__', X + const(3)), ('__radd__', X + const(3)), ('__sub__', X - const(3)), ('__rsub__', const(3) - X)):
			ob(name, '(number)', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [3], {}), want, [A, SCALAR])
		if backend != 'python':
			arr = atom('a', SCALAR)
			for name, want in (('__add__', X + arr), ('__radd__', X + arr), ('__sub__', X - arr), ('__rsub__', arr - X)):
				ob(name, '(array)', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [s.array('a')], {}), want, [A, SCALAR])
			ob('upcast', '(array)', lambda s: s.I.call(s.I.getattr(s.mv('x'), 'upcast'), [s.array('a')], {}), arr, [SCALAR])
		ob('__neg__', '', lambda s: s.I.call(s.I.getattr(s.mv('x'), '__neg__'), [], {}), -X, [A])
		ob('__pos__', '', lambda s: s.I.call(s.I.getattr(s.mv('x'), '__pos__'), [], {}), X, [A])
		ob('upcast', '(multivector)', lambda s: s.I.call(s.I.getattr(s.mv('x'), 'upcast'), [s.mv('y')], {}), Y, [B])
		O = ('in', 'O')
		for name in ('select_subspace', 'restrict_subspace'):
			ob(name, '', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [s.w.sub('O')], {}), func('sel', [X], (O,)), [O] if name == 'select_subspace' else [('n', frozenset({A, O}))])
		for k in (1, 2):
			G = lambda s, name, k: s.I.call(s.I.getattr(s.mv('x'), name), [k], {})
			for name in ('select_grade', 'restrict_grade'):
				K = named(k)
				ob(name, f'({k})', lambda s, name=name, k=k: G(s, name, k), func('sel', [X], (K,)), [K] if name == 'select_grade' else [('n', frozenset({A, K}))])
		for ns, res in (('select', lambda t: [t]), ('restrict', lambda t: [('n', frozenset({A, t}))])):
			K1 = ('name', 'vector', ())
			BV_ = ('name', 'bivector', ())
			XYB = ('name', 'blades', ('xy',))
			ob(ns, '.xy', lambda s: s.I.getattr(s.I.getattr(s.mv('x'), ns), 'xy'), func('sel', [X], (XYB,)), res(XYB))
			EG = ('name', 'even_grade', ())
			ob(ns, '[1]', lambda s: s.I.getitem(s.I.getattr(s.mv('x'), ns), 1), func('sel', [X], (K1,)), res(K1))
			ob(ns, '.bivector()', lambda s: s.I.call(s.I.getattr(s.I.getattr(s.mv('x'), ns), 'bivector'), [], {}), func('sel', [X], (BV_,)), res(BV_))
			ob(ns, '.even_grade()', lambda s: s.I.call(s.I.getattr(s.I.getattr(s.mv('x'), ns), 'even_grade'), [], {}), func('sel', [X], (EG,)), res(EG))
			ob(ns, '[0, 2]', lambda s: s.I.getitem(s.I.getattr(s.mv('x'), ns), (0, 2)), func('sel', [X], (('name', 'grades', ('[0, 2]',)),)), res(('name', 'grades', ('[0, 2]',))))
		def reflected():
			u = base.mvcls.lookup('__array_ufunc__')
			has = any('__array_ufunc__' in c.attrs for c in base.mvcls.mro)
			if not has:
				raise Violation(f'{base.mvcls.module.path.split("/numga/", 1)[-1]} ({base.mvcls.name})', f'{backend}: a numpy array on the left does not decline the operation (no __array_ufunc__ = None), so it distributes over its elements instead of the reflected operation being used')
			if u is not None:
				raise Undecided('custom __array_ufunc__')
			return 'numpy defers to reflected operators'
		rep.run(f'{backend} array op multivector', 'numpy arrays on the left defer to the reflected operator', reflected, f'{MV}.__array_ufunc__')
	batches(rep)
	return rep.finish()
