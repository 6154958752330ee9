"""C07: composite operators, by abstract interpretation over linear combinations
of noncommutative words (multilinear maps in normal form)."""
from ..core import *
from ..words import *
from ..report import Report, Violation, Undecided, loc

RULE = 'composite operator equals its defining formula'
OF = 'numga.operator.factory:OperatorFactory'


def f1(name, *extra):
	return lambda x: func(name, [x], tuple(extra))


rc, lc, rh, lh, rhi, lhi = (f1(x) for x in ('rc', 'lc', 'rh', 'lh', 'rhi', 'lhi'))
sneg, pneg = f1('sneg'), f1('pneg')


def bil(name):
	return lambda l, r: func(name, [l, r])


gp = lambda l, r: l * r
wedge, inner, sp, lcn, rcn = (bil(x) for x in ('wedge', 'inner', 'sp', 'lcn', 'rcn'))
rev, inv, conj = (lambda x: x.rev()), (lambda x: x.inv_()), (lambda x: x.conj())
anti = lambda op: lambda l, r: lc(op(rc(l), rc(r)))
half = Fraction(1, 2)
comm = lambda op, s: lambda l, r: (op(l, r) + op(r, l).scale(s)).scale(half)
awedge = anti(wedge)
lint = lambda l, r: awedge(lc(l), r)
rint = lambda l, r: awedge(l, rc(r))
regr = lambda l, r: rhi(wedge(rh(l), rh(r)))
with_ = lambda f: lambda l, r: l * f(r)
BIV = ('name', 'bivector', ())
V = ('in', 'v')
SIG = {}
# name : (argument names, slots as argument indices, formula on the slots, groups of equal slots)


def spec(names, args, f, groups=(), slots=None):
	for n in names.split():
		SIG[n] = (args, slots if slots is not None else tuple(range(len(args))), f, frozenset(frozenset(g) for g in groups))


LR = ('l', 'r')
spec('geometric_product gp product', LR, gp)
spec('wedge_product op outer wedge outer_product', LR, wedge)
spec('inner_product ip inner', LR, inner)
spec('scalar_product sp dp dot scalar dot_product', LR, sp)
spec('left_contraction_product lc left_contract', LR, lcn)
spec('right_contraction_product rc right_contract', LR, rcn)
spec('reverse', ('v',), rev)
spec('involute', ('v',), inv)
spec('conjugate', ('v',), conj)
spec('scalar_negation study_conjugate', ('v',), sneg)
spec('pseudoscalar_negation', ('v',), pneg)
spec('right_complement', ('v',), rc)
spec('left_complement', ('v',), lc)
spec('right_complement_dual', ('v',), f1('rcd'))
spec('left_complement_dual', ('v',), f1('lcd'))
spec('right_hodge dual', ('v',), rh)
spec('left_hodge', ('v',), lh)
spec('right_hodge_inverse dual_inverse', ('v',), rhi)
spec('left_hodge_inverse', ('v',), lhi)
spec('nondegenerate', ('v',), f1('sel', ('nondegenerate', V)))
spec('degenerate', ('v',), f1('sel', ('degenerate', V)))
spec('bivector_product', LR, lambda l, r: func('sel', [l * r], (BIV,)))
spec('n_product', ('l', 'r', 'o'), lambda l, r: func('sel', [l * r], (('in', 'o'),)), slots=(0, 1))
spec('restrict', ('i', 'o'), f1('sel', ('in', 'o')), slots=(0,))
spec('select', ('i', 'o'), f1('sel', ('in', 'o')), slots=(0,))
spec('left_interior_product lip left_interior', LR, lint)
spec('right_interior_product rip right_interior', LR, rint)
spec('anti_geometric_product agp anti_product', LR, anti(gp))
spec('anti_wedge_product aop anti_outer anti_wedge anti_outer_product', LR, awedge)
spec('anti_inner_product aip anti_inner', LR, anti(inner))
spec('anti_scalar_product asp adp anti_dot anti_dot_product anti_scalar', LR, anti(sp))
spec('anti_left_interior_product alip anti_left_interior', LR, anti(lint))
spec('anti_right_interior_product arip anti_right_interior', LR, anti(rint))
spec('anti_reverse_product', LR, anti(with_(rev)))
spec('regressive_product rp regressive', LR, regr)
spec('commutator_product commutator', LR, comm(gp, -1))
spec('anti_commutator_product anti_commutator', LR, comm(gp, 1))
spec('commutator_anti_product commutator_anti', LR, comm(anti(gp), -1))
spec('anti_commutator_anti_product anti_commutator_anti', LR, comm(anti(gp), 1))
spec('cross_product', LR, lambda l, r: rh(wedge(l, r)))
for _n, _f in (('reverse', rev), ('involute', inv), ('conjugate', conj), ('scalar_negation', sneg), ('pseudoscalar_negation', pneg), ('study_conjugate', sneg)):
	spec(_n + '_product', LR, with_(_f))
	spec(f'symmetric_{_n}_product', ('x',), with_(_f), [(0, 1)], (0, 0))
spec('squared', ('v',), gp, [(0, 1)], (0, 0))
spec('cubed', ('v',), lambda a, b, c: a * b * c, [(0, 1, 2)], (0, 0, 0))
spec('dual_norm_squared', ('v',), lambda a, b: rh(a) * rh(b).rev(), [(0, 1)], (0, 0))
spec('study_norm_squared', ('v',), lambda a, b: sp(a, sneg(b)), [], (0, 0))
S3 = lambda a, v, b: a * v * b
spec('full_sandwich', ('R', 'v'), lambda a, v, b: a * v * b.rev(), [(0, 2)], (0, 1, 0))
GS = lambda e: func('gsel', [e], (V,))
spec('sandwich', ('R', 'v'), lambda a, v, b: GS(a * v * b.rev()), [(0, 2)], (0, 1, 0))
spec('reverse_sandwich', ('R', 'v'), lambda a, v, b: GS(a.rev() * v * b), [(0, 2)], (0, 1, 0))
IP = (frozenset({('self',), ('par', ('in', 'R'))}),)
spec('transform', ('R', 'v'), lambda a, v, b: GS(a * func('ipar', [v], IP) * b.rev()), [(0, 2)], (0, 1, 0))
spec('inverse_transform', ('R', 'v'), lambda a, v, b: GS(a.rev() * func('ipar', [v], IP) * b), [(0, 2)], (0, 1, 0))
spec('inverse_factor', ('x',), lambda a, b, c: a.rev() * (b * c.rev()).conj(), [(0, 1, 2)], (0, 0, 0))
spec('inverse_factor_completed', ('x',), lambda a, b, c, d: a * b.rev() * (c * d.rev()).conj(), [(0, 1, 2, 3)], (0,) * 4)
spec('inverse_factor_alt', ('x',), lambda a, b, c: a.rev() * sneg(b * c.rev()), [(0, 1, 2)], (0, 0, 0))
spec('inverse_factor_completed_alt', ('x',), lambda a, b, c, d: a * b.rev() * sneg(c * d.rev()), [(0, 1, 2, 3)], (0,) * 4)
spec('inertia', ('l', 'r'), lambda a, b, r: regr(a, comm(gp, -1)(b, r)), [(0, 1)], (0, 0, 1))
spec('euclidian_factorization', ('m',), lambda a, b: func('sel', [rh(a * rh(b))], (BIV,)), [(0, 1)], (0, 0))


def merge(groups):
	out = []
	for g in groups:
		g = set(g)
		for h in [h for h in out if h & g]:
			out.remove(h)
			g |= h
		out.append(g)
	return frozenset(frozenset(g) for g in out if len(g) > 1)


def refine(e, I):
	"""use what is known on this partition: parity of a versor"""
	def par(T):
		return I.known.get(cond_key(('parity', T)))
	def rec(e):
		out = Expr()
		for w, c in e.t.items():
			p = const(c)
			for n, r, i in w:
				if n[0] == 'f':
					args = [rec(unkeyE(a)) for a in n[2]]
					if n[1] == 'ipar' and len(n[3]) == 1 and ('self',) in n[3][0] and len(n[3][0]) == 2:
						T, = [x[1] for x in n[3][0] if x != ('self',)]
						if par(T) is not None:
							p = p * (args[0].inv_() if par(T) else args[0]).flag(r, i)
							continue
					if n[1] == 'fsgn':
						T, = [x[1] for x in n[3][0] if x[0] == 'par']
						if par(T) is not None:
							p = p * (grade_sign(args[0], frozenset(x for x in n[3][0] if x[0] != 'par')) if par(T) else args[0]).flag(r, i)
							continue
					if n[1] == 'sel' and len(args) == 1:
						t, O = SCALAR if set(args[0].t) == {()} else leaf_tok(unkeyE(tokkey(args[0]))), n[3][0]
						if t is not None and (I.known.get(cond_key(('inside', t, O))) is True or I.known.get(cond_key(('eq', frozenset({t, O})))) is True):
							p = p * args[0].flag(r, i)
							continue
					p = p * func(n[1], args, n[3]).flag(r, i)
				else:
					p = p * Expr({((n, r, i),): Fraction(1)})
			out = out + p
		return out
	return rec(e)


def judge(path, args, slots, f, groups, where, what, strict=True):
	I = path.I
	conds = ''.join(f' [{"" if v else "not "}{showcond(c) if isinstance(c, tuple) and len(c) > 1 else c}]' for c, v in path.conds)
	what = what + conds
	if path.kind == 'undecided':
		raise Undecided(path.value)
	if path.imprecise:
		raise Undecided(path.imprecise[0])
	for c, v in path.conds:
		if c[0] not in ('eq', 'inside', 'parity', 'nsimple'):
			raise Undecided(f'branch on {c}')
	if path.kind == 'raise':
		if not strict:
			raise Undecided(f'raises {path.value}')
		raise Violation(where, f'{what} raises {path.value}')
	op = path.value
	if not isinstance(op, OpV):
		raise Undecided(f'result {op}')
	if I.effects:
		k = I.effects[0]
		raise Violation(where, f'{what}: {k[0]} {k[1:]}')
	if len(op.slots) != len(slots):
		raise Violation(where, f'{what} has {len(op.slots)} operands, expected {len(slots)}')
	for n, (s, a) in enumerate(zip(op.slots, slots)):
		got = s[1]
		want = args[a][0]
		if got != want:
			raise Violation(where, f'{what}: slot {n} belongs to {showtok(got)}, expected {showtok(want)}')
	order = {s[0]: n for n, s in enumerate(op.slots)}
	got_groups = merge(frozenset(order[i] for i in g) for g in op.groups)
	for g in got_groups:
		if len({slots[n] for n in g}) > 1:
			raise Violation(where, f'{what}: slots {sorted(g)} are symmetrised although they receive different arguments')
	if got_groups != merge(groups):
		raise Violation(where, f'{what}: symmetrised over slots {[sorted(g) for g in got_groups]}, expected {[sorted(g) for g in merge(groups)]}')
	raw = {frozenset(order[i] for i in g) for g in op.groups}
	for g in got_groups:
		if g not in raw and all(h <= g or not h & g for h in raw):
			raise Violation(where, f'{what}: symmetrised over {sorted(sorted(h) for h in raw if h <= g)} only, which is not symmetric in {sorted(g)}')
	rep = {}
	for g in got_groups:
		for n in g:
			rep[n] = min(g)
	at = [atom(f'x{rep.get(n, n)}', s[1]) for n, s in enumerate(op.slots)]
	got = subst(op.expr, lambda n: at[order[n[1]]] if n[0] == 's' else None)
	want = f(*[args[a][1](at[n]) for n, a in enumerate(slots)])
	got, want = refine(got, I), refine(want, I)
	if got != want:
		raise Violation(where, f'{what} computes {show(got)}, expected {show(want)}')
	return show(got)


def main():
	rep = Report('C07', 'Every operator constructor of OperatorFactory (public names and aliases) is abstractly interpreted on symbolic subspaces: elementary operators are opaque multilinear functions, products are words, reversion/involution are pushed through. The normal form, the subspace of every slot and the symmetrised slot groups are compared with the defining formula. Variants: all arguments different, all arguments the same subspace, arguments that are operators themselves.',
		['elementary operators (C05, C06) and the Operator algebra (C08) mean what their own checks establish', 'integer division by two in commutators is exact (kernel of l r -/+ r l is even for blade products)'])
	for name, (anames, slots, f, groups) in sorted(SIG.items()):
		where0 = f'{OF}.{name}'
		for variant in ('different', 'same', 'bound'):
			if variant == 'same' and (len(set(anames)) < 2 or name in ('restrict', 'select')):
				continue
			if variant == 'bound' and name in ('transform', 'inverse_transform', 'reverse_sandwich', 'select', 'restrict', 'degenerate', 'nondegenerate', 'dual_inverse', 'left_hodge_inverse', 'right_hodge_inverse'):
				continue
			info = {}
			def go():
				hit = []
				def make():
					w = WordWorld()
					I = Interp(w)
					w.attach(I)
					return I
				def run(I):
					w = I.world
					info['loc'] = loc(I, where0)
					a = []
					spec_args = []
					for k, n in enumerate(anames):
						nm = n if variant != 'same' or n == 'o' else 'v' if 'v' in anames else anames[0]
						s = w.sub(nm)
						if variant == 'bound' and n not in ('o',) and not (n == 'v' and 'sandwich' in name):
							word = 'lc' if k == 0 else 'pneg'
							a.append(w.elem(I, word, [s]))
							spec_args.append((s.tok, f1(word)))
						else:
							a.append(s)
							spec_args.append((s.tok, lambda e: e))
					info[id(I)] = spec_args
					r = I.call(I.getattr(w.of, name), a, {})
					rep.absorb(I)
					return r
				out = ''
				for p in explore(make, run):
					hit.append(p)
					ff = f
					if variant == 'same' and anames == ('R', 'v'):
						ff = same_versor(f)
					out = judge(p, info[id(p.I)], slots, ff, groups, info['loc'], name, variant != 'bound')
				return out
			rep.run(f'{name} [{variant}]', RULE, go, where0)

	def helpers():
		for n1, o1 in (('reverse', rev), ('involute', inv), ('scalar_negation', sneg)):
			for n2, o2 in (('conjugate', conj), ('pseudoscalar_negation', pneg)):
				w = WordWorld()
				I = Interp(w)
				w.attach(I)
				x = w.sub('x')
				r = I.call(I.getattr(w.of, 'compose_symmetry_ops'), [x, I.getattr(w.of, n1), I.getattr(w.of, n2)], {})
				p = Path(I, 'value', r, list(I.trace))
				judge(p, [(x.tok, lambda e: e)], (0, 0, 0), lambda a, b, c: o1(a) * o2(b * o1(c)), [(0, 1, 2)], loc(I, OF + '.compose_symmetry_ops'), f'compose_symmetry_ops({n1}, {n2})')
				r = I.call(I.getattr(w.of, 'complete_op'), [x, r], {})
				p = Path(I, 'value', r, list(I.trace))
				judge(p, [(x.tok, lambda e: e)], (0, 0, 0, 0), lambda d, a, b, c: d * o1(a) * o2(b * o1(c)), [(0, 1, 2, 3)], loc(I, OF + '.complete_op'), f'complete_op({n1}, {n2})')
				rep.absorb(I)
		return 'op1(x) op2(x op1(x)) and x times it'
	rep.run('compose_symmetry_ops, complete_op', RULE, helpers, OF + '.compose_symmetry_ops')
	return rep.finish()


def same_versor(f):
	"""R and v are the same subspace: the transform sign refers to it"""
	def g(*x):
		e = f(*x)
		def rec(e):
			out = Expr()
			for w, c in e.t.items():
				p = const(c)
				for n, r, i in w:
					if n[0] == 'f':
						ex = tuple(frozenset(('par', V) if y[0] == 'par' else y for y in m) if n[1] == 'ipar' else m for m in n[3])
						p = p * func(n[1], [rec(unkeyE(a)) for a in n[2]], ex).flag(r, i)
					else:
						p = p * Expr({((n, r, i),): Fraction(1)})
				out = out + p
			return out
		return rec(e)
	return g
