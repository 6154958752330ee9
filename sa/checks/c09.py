"""C09: multivector methods, by abstract interpretation over word expressions."""
from ..core import *
from ..words import *
from ..mvsetup import *
from ..report import Report, Violation, Undecided, loc
from .c07 import *
from .c07 import spec as _spec

RULE = 'method evaluates the operation it names'
MV = 'numga.multivector.multivector:AbstractMultiVector'
X, Y = atom('x', ('in', 'Sx')), atom('y', ('in', 'Sy'))
TRI = ('name', 'trivector', ())
sandw = lambda a, v: func('gsel', [a * v * a.rev()], (('in', 'Sy'),))
rsandw = lambda a, v: func('gsel', [a.rev() * v * a], (('in', 'Sy'),))
IPX = (frozenset({('self',), ('par', ('in', 'Sx'))}),)
ipx = lambda e: func('ipar', [e], IPX)

UN = dict(
	dual=rh, dual_inverse=rhi, reverse=rev, involute=inv, conjugate=conj, study_conjugate=sneg, scalar_negation=sneg, pseudoscalar_negation=pneg,
	squared=lambda x: x * x, symmetric_reverse_product=lambda x: x * x.rev(), symmetric_involute_product=lambda x: x * x.inv_(),
	symmetric_conjugate_product=lambda x: x * x.conj(), symmetric_scalar_negation_product=lambda x: x * sneg(x),
	symmetric_pseudoscalar_negation_product=lambda x: x * pneg(x), inverse_factor=lambda x: x.rev() * (x * x.rev()).conj(),
	degenerate=lambda x: func('sel', [x], (('degenerate', ('in', 'Sx')),)), nondegenerate=lambda x: func('sel', [x], (('nondegenerate', ('in', 'Sx')),)),
	__neg__=lambda x: -x, __pos__=lambda x: x, __invert__=rev, copy=lambda x: x,
)
BI = dict(
	product=gp, anti_product=anti(gp), wedge=wedge, outer=wedge, anti_wedge=awedge, regressive=regr, cross=lambda l, r: rh(wedge(l, r)),
	inner=inner, anti_inner=anti(inner), scalar_product=sp, bivector_product=lambda l, r: func('sel', [l * r], (BIV,)), trivector_product=lambda l, r: func('sel', [l * r], (TRI,)),
	commutator=comm(gp, -1), commutator_product=comm(gp, -1), anti_commutator=comm(gp, 1), anti_commutator_product=comm(gp, 1),
	commutator_anti=comm(anti(gp), -1), commutator_anti_product=comm(anti(gp), -1), anti_commutator_anti=comm(anti(gp), 1), anti_commutator_anti_product=comm(anti(gp), 1),
	left_contract=lcn, right_contract=rcn, reverse_product=with_(rev), involute_product=with_(inv), conjugate_product=with_(conj),
	scalar_negation_product=with_(sneg), pseudoscalar_negation_product=with_(pneg), anti_reverse_product=anti(with_(rev)),
	sandwich=sandw, reverse_sandwich=rsandw, full_sandwich=lambda a, v: a * v * a.rev(),
	transform=lambda a, v: func('gsel', [a * ipx(v) * a.rev()], (('in', 'Sy'),)),
	reverse_transform=lambda a, v: func('gsel', [a.rev() * ipx(v) * a], (('in', 'Sy'),)),
	__mul__=gp, __rmul__=lambda a, b: b * a, __xor__=wedge, __and__=regr, __or__=inner, __rshift__=sandw, __lshift__=rsandw,
	__truediv__=lambda a, b: a * inverse(b), __rtruediv__=lambda a, b: b * inverse(a), _divide=lambda a, b: a * inverse(b),
)


def check_path(p, want, where, what, opts=None, tok=None):
	what += showconds(p)
	if p.kind == 'undecided':
		raise Undecided(p.value)
	if p.imprecise:
		raise Undecided(p.imprecise[0])
	bad = [e for e in p.I.effects if e[0] in ('operand-space', 'arity', 'symmetry', 'layout', 'axes', 'sign-axis', 'bind-space')]
	if bad:
		raise Violation(where, f'{what}: {bad[0][1]}')
	zero = set()        # leaves known to vanish on this partition
	for c, v in p.conds:
		if c[0] == 'truth' and isinstance(c[1], frozenset) and len(c[1]) == 1 and len(next(iter(c[1]))[0]) == 1:
			if not v:
				zero.add(next(iter(c[1]))[0][0][0])
			continue        # elsewhere the component is an arbitrary number other than zero
		if c[0] not in ('eq', 'inside', 'parity', 'nsimple', 'eqlen'):
			raise Undecided(f'branch on {c}')
	if p.kind == 'raise':
		raise Violation(where, f'{what} raises {p.value}')
	v, s = unmv(p.value)
	got = refine(v.expr, p.I)
	w = refine(want, p.I)
	if zero:
		got, w = (Expr({t: q for t, q in e.t.items() if not any(x[0] in zero for x in t)}) for e in (got, w))
	if not same_given(got, w, p):
		raise Violation(where, f'{what} computes {show(got)}, expected {show(w)}')
	if v.tok is None:
		raise Violation(where, f'{what}: the values have no component axis')
	if isinstance(v.tok, tuple) and v.tok != s.tok and p.setup.w.sub_eq(p.I, v.tok, s.tok) is not True and not p.I.known.get(cond_key(('eq', frozenset({v.tok, s.tok})))) and not (p.setup.w.known_scalar(p.I, v.tok) and p.setup.w.known_scalar(p.I, s.tok)):
		raise Violation(where, f'{what}: components of {showtok(v.tok)} are labelled as {showtok(s.tok)}')
	if tok is not None and s.tok != tok:
		raise Violation(where, f'{what} lives in {showtok(s.tok)}, expected {showtok(tok)}')
	return show(got)


def scalar_view(e, toks):
	"""leaves known to be scalars on this partition commute"""
	def f(n):
		if n[0] in ('a', 's') and n[2] in toks:
			return factor((n[0], n[1], SCALAR))
		if n[0] == 't' and n[1] in toks:
			return factor(('t', SCALAR))
	return rescale(subst(e, f))


def rescale(e):
	"""recompute scalar flags of inverses after leaves became scalars"""
	out = Expr()
	for w, c in e.t.items():
		p = const(c)
		for n, r, i in w:
			if n[0] == 'inv':
				p = p * inverse(rescale(unkeyE(n[1])), n[2])
			elif n[0] == 'f':
				p = p * func(n[1], [rescale(unkeyE(a)) for a in n[2]], n[3]).flag(r, i)
			else:
				p = p * Expr({((n, r, i),): Fraction(1)})
		out = out + p
	return out


def same_given(got, want, p):
	if got == want:
		return True
	sc = set()
	for c, v in p.conds:
		if v and c[0] == 'eq' and SCALAR in c[1]:
			sc |= {t for t in c[1] if t != SCALAR}
		if v and c[0] == 'inside' and c[2] == SCALAR:
			sc.add(c[1])
	return bool(sc) and scalar_view(got, sc) == scalar_view(want, sc)


def run_all(rep):
	for backend in BACKENDS:
		def mk():
			return Setup(backend)
		base = mk()
		mvq = f'{BACKENDS[backend][1]}'
		def where_of(name):
			v = None
			for c in base.mvcls.mro:
				if name in c.attrs:
					return loc(base.I, f'{c.module.name}:{c.name}.{name}')
			return f'{mvq}.{name}'
		covered = set()
		def ob(name, variant, call, want, tok=None):
			covered.add(name)
			def go():
				out = ''
				for p in run_paths(mk, call):
					rep.absorb(p.I)
					out = check_path(p, want, where_of(name), f'{backend} mv.{name}', tok=tok)
				return out
			rep.run(f'{backend} {name}{variant}', RULE, go, f'{MV}.{name}')
		for name, f in UN.items():
			ob(name, '()', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [], {}), f(X))
		for name, f in BI.items():
			ob(name, '(x, y)', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [s.mv('y')], {}), f(X, Y))
			X1, X2 = atom('x', ('in', 'Sy')), atom('y', ('in', 'Sy'))
			if 'transform' not in name:
				ob(name, '(x, y of the same subspace)', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x', 'Sy'), name), [s.mv('y', 'Sy')], {}), f(X1, X2))
		# numbers and arrays are scalars
		A = atom('a', SCALAR)
		for name, f in (('__mul__', gp), ('__rmul__', lambda a, b: b * a), ('__truediv__', lambda a, b: a * inverse(b)), ('__rtruediv__', lambda a, b: b * inverse(a))):
			if backend == 'python' and 'div' in name:
				continue
			ob(name, '(number)', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [3], {}), f(X, const(3)))
			if backend != 'python':
				ob(name, '(array)', lambda s, name=name: s.I.call(s.I.getattr(s.mv('x'), name), [s.array('a')], {}), f(X, A))
		# grade / subspace selection
		O = ('in', 'O')
		ob('select_subspace', '', lambda s: s.I.call(s.I.getattr(s.mv('x'), 'select_subspace'), [s.w.sub('O')], {}), func('sel', [X], (O,)), O)
		ob('restrict_subspace', '', lambda s: s.I.call(s.I.getattr(s.mv('x'), 'restrict_subspace'), [s.w.sub('O')], {}), func('sel', [X], (O,)))
		for k in (0, 1, 2, 3, -1):
			K = named('k_vector', (k,))
			ob('select_grade', f'({k})', lambda s, k=k: s.I.call(s.I.getattr(s.mv('x'), 'select_grade'), [k], {}), func('sel', [X], (K,)), K)
			ob('restrict_grade', f'({k})', lambda s, k=k: s.I.call(s.I.getattr(s.mv('x'), 'restrict_grade'), [k], {}), func('sel', [X], (K,)))
		# pre-bound maps
		VEC, BV_ = ('name', 'vector', ()), ('name', 'bivector', ())
		for name, f in (('sandwich_map', lambda a, v, t: func('gsel', [a * v * a.rev()], (t,))), ('inertia_map', lambda a, v, t: regr(a, comm(gp, -1)(a, v)))):
			dflt = VEC if name == 'sandwich_map' else BV_
			ob(name, '(V)', lambda s, name=name: s.I.call(s.I.call(s.I.getattr(s.mv('x'), name), [s.w.sub('Sy')], {}), [s.mv('y')], {}), f(X, Y, ('in', 'Sy')))
			ob(name, '()', lambda s, name=name, dflt=dflt: s.I.call(s.I.call(s.I.getattr(s.mv('x'), name), [], {}), [s.mv('y', dflt)], {}), f(X, atom('y', dflt), dflt))
		ob('inverse_hitzer', '', lambda s: s.I.call(s.I.getattr(s.mv('x'), 'inverse_hitzer'), [], {}), UN['inverse_factor'](X) * inverse(sp(X, UN['inverse_factor'](X)), True))
		# operators that have to exist
		for name, args in (('join', 1), ('meet', 1), ('project', 1), ('project_map', 0)):
			covered.add(name)
			def exists():
				n = 0
				for p in run_paths(mk, lambda s: s.I.call(s.I.getattr(s.mv('x'), name), [s.mv('y')][:args], {})):
					if p.kind == 'raise' and p.value.kind in ('AttributeError', 'NameError'):
						raise Violation(where_of(name), f'mv.{name} cannot be evaluated: {p.value}')
					if p.kind != 'value':
						raise Undecided(str(p.value))
					n += 1
				raise Undecided('no definition to compare with')
			if backend == 'numpy':
				rep.run(f'{name} exists', 'method refers to an operator that exists', exists, f'{MV}.{name}')
		rep.count(f'{backend} methods covered', len(covered))


def main():
	rep = Report('C09', 'Every method and overloaded operator of the multivector classes of all four backends is abstractly interpreted on multivectors with symbolic components in symbolic subspaces, through the real operator factories. The result is compared as a word expression with the named operation; each operand must be passed to an operator slot built for its own subspace, and declared-equal slots must receive equal operands.',
		['elementary operators (C05, C06), execution of concrete operators (C10, C11) and subspace-dispatched methods (C14, C19) are opaque here', 'x[..., None] of a batch array appends a component axis of length one'])
	run_all(rep)
	from . import c12
	for backend, cls, lib in c12.BACK:
		I, ctx = c12.make(backend, cls, lib)
		c12.math_methods(rep, backend, I, ctx)
		rep.absorb(I)
	return rep.finish()
