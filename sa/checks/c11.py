"""C11: partial application agrees with full application."""
import itertools
from ..core import *
from ..tensor import *
from ..tensetup import *
from ..report import Report, Violation, Undecided, loc
from .c10 import STRATEGIES, NAMES, sz, contraction, operator, inputs, check_mv, op_where

RULE = 'binding some arguments first and the rest later is the same contraction'
PATTERNS = {
	1: [((),), (('n',),), (('m', 'n'),)],
	2: [((), ()), (('n',), ('n',)), (('n',), ()), ((), ('n',)), (('m', 1), ('n',)), (('m', 'n'), ('n',))],
	3: [((), (), ()), (('n',), ('n',), ('n',)), (('m', 1), (1, 'n'), ('n',)), ((), ('n',), ('m', 1))],
	4: [((), (), (), ()), ((), ('n',), ('m', 1), ())],
}


def partial_kernel(t, batches, toks, bound, kbatch=(), head='K'):
	"""kernel of the operator left after binding the slots in `bound`"""
	w = t.w
	full = [sz(kbatch)] + [sz(batches[i]) for i in sorted(bound)]
	r = max(len(b) for b in full)
	shape = [1] * r
	for b in full:
		for k, s in enumerate(b):
			j = r - len(b) + k
			if s != 1:
				shape[j] = s
	axes = [(w.V.fresh(s), s) for s in shape]
	def bidx(b):
		return tuple(axes[r - len(b) + k][0] for k, s in enumerate(b) if s != 1)
	vs = [w.V.fresh(w.length(x)) for x in toks]
	fs = [(head, bidx(full[0]) + tuple(vs))]
	for b, i in zip(full[1:], sorted(bound)):
		fs.append((f'x{i}', bidx(b) + (vs[i],)))
	rest = [i for i in range(len(toks)) if i not in bound]
	return Ten(w, axes + [(vs[i], w.length(toks[i])) for i in rest], ((ONE, tuple(fs), tuple(vs[i] for i in bound)),), None), [toks[i] for i in rest]


def concrete(r, what):
	if not isinstance(r, Obj) or not isinstance(r.attrs.get('operator'), Obj):
		raise Undecided(f'{what}: {r}')
	return r.attrs['operator']


def check_op(p, r, toks, kernel, where, what):
	"""concrete operator with the given axes and kernel, seen through its own properties"""
	I, w = p.I, p.t.w
	if not isinstance(r, Obj):
		raise Undecided(f'{what}: {r}')
	ax = I.getattr(concrete(r, what), 'axes')
	if not isinstance(ax, tuple) or not all(isinstance(a, Sub) for a in ax):
		if isinstance(ax, (GenList, AV)) or not isinstance(ax, tuple):
			raise Undecided(f'{what}: axes {ax}')
		raise Undecided(f'{what}: axes {ax}')
	got = [a.tok for a in ax]
	if got != toks:
		raise Violation(where, f'{what}{conds(p)} lists the subspaces ({", ".join(map(show_tok, got))}), expected ({", ".join(map(show_tok, toks))})')
	if I.getattr(r, 'arity') != len(toks) - 1:
		raise Violation(where, f'{what} has arity {I.getattr(r, "arity")}, expected {len(toks) - 1}')
	return same_tensor(w, I.getattr(r, 'kernel'), kernel, where, f'kernel of {what}{conds(p)}')


def main():
	rep = Report('C11', 'Partial application of every strategy class of every array backend is interpreted over index-generic arrays, for every ordered subset of arguments up to arity 3 (4: a selection), with batched arguments, in one or two steps, '
		'and the remaining operator is compared with the kernel of the partial contraction: its listed subspaces, its kernel axes, and the value after supplying the remaining arguments. Inverse, transpose and batch sums of operators are compared likewise.',
		['array library functions do what their documentation states (transfer functions in sa/tensor.py)', 'the call of each strategy is decided by C10'])
	for backend, classes in STRATEGIES.items():
		if backend == 'python':
			continue
		mk = lambda backend=backend: T(backend)
		base = mk()
		for cls in classes:
			q = f'numga.backend.{backend}.operator:{cls}'
			base.I.get(q)
			def ob(name, call, judge, method, rule=RULE, q=q, mk=mk):
				where = op_where(base.I, q, method)
				def go():
					out = ''
					for p in explore_T(mk, call):
						rep.absorb(p.I)
						decide_path(p, where, name)
						out = judge(p, p.value, where, name)
					return out
				rep.run(name, rule, go, where)
			for n in (1, 2, 3, 4):
				axes = list(NAMES[:n]) + ['Z']
				toks = [('in', a) for a in axes]
				for pat in PATTERNS[n]:
					for r_ in range(1, n + 1):
						for order in itertools.permutations(range(n), r_):
							if n == 4 and order not in ((0,), (3, 1), (2, 0, 1), (1, 2), (3, 2, 1, 0)):
								continue
							if n == 3 and any(pat) and r_ == 3 and order not in ((2, 0, 1), (1, 0, 2)):
								continue
							bound = {i: pat[i] for i in order}
							def part(t, axes=axes, pat=pat, order=order, cls=cls, backend=backend):
								o = operator(t, backend, cls, axes)
								x = inputs(t, axes[:-1], pat)
								return t.I.call(t.I.getattr(o, 'partial'), [{i: x[i] for i in order}], {})
							def left(p, r, where, name, axes=axes, pat=pat, order=order, toks=toks):
								k, tk = partial_kernel(p.t, pat, toks, order)
								return check_op(p, r, tk, k, where, name)
							tag = f'{cls} arity {n} batches {pat} partial {list(order)}'
							ob(tag, part, left, 'partial', 'the remaining operator is the partial contraction over the remaining subspaces in their original order')
							if r_ < n:
								def then(t, axes=axes, pat=pat, order=order, part=part):
									o = part(t)
									x = inputs(t, axes[:-1], pat)
									return t.I.call(o, [x[i] for i in range(len(x)) if i not in order], {})
								def value(p, r, where, name, pat=pat, toks=toks):
									return check_mv(p, r, contraction(p.t, (), pat, toks), toks[-1], where, name)
								ob(tag + ', rest by call', then, value, 'partial')
								if n == 3 and r_ == 1 or n == 4 and r_ == 2:
									def two(t, axes=axes, pat=pat, order=order, part=part):
										o = part(t)
										x = inputs(t, axes[:-1], pat)
										rest = [i for i in range(len(x)) if i not in order]
										o = t.I.call(t.I.getattr(o, 'partial'), [{1: x[rest[1]]}], {})
										return t.I.call(o, [x[rest[0]]] + [x[i] for i in rest[2:]], {})
									ob(tag + ', then slot 1 of the rest, then call', two, value, 'partial')
			# linear maps
			if 'Einsum' in cls or True:
				for kb in ((), ('n',), ('m', 'n')):
					if kb and 'Einsum' not in cls:
						continue
					toks = [('in', 'A'), ('in', 'Z')]
					def un(name, args, cls=cls, backend=backend, kb=kb):
						def f(t):
							o = operator(t, backend, cls, ['A', 'Z'], kb)
							return t.I.call(t.I.getattr(o, name), args, {})
						return f
					def ker(p, kb=kb, toks=toks):
						w = p.t.w
						return w.atom('K', sz(kb) + [w.length(x) for x in toks], None)
					def inv(p, r, where, name, toks=toks):
						k = FUNCS['linalg.inv'](p.t.w, p.I, [ker(p)], {})
						return check_op(p, r, toks[::-1], k, where, name)
					def tr(p, r, where, name, toks=toks):
						k = ker(p)
						return check_op(p, r, toks[::-1], Ten(p.t.w, k.axes[:-2] + [k.axes[-1], k.axes[-2]], k.body, None), where, name)
					ob(f'{cls} inverse of a unary operator, kernel batch {kb}', un('inverse', []), inv, 'inverse', 'the inverse swaps input and output and inverts the kernel matrix')
					if base.I.get(q).lookup('transpose') is not None and not kb:
						ob(f'{cls} transpose of a unary operator', un('transpose', []), tr, 'transpose', 'the transpose swaps input and output')
			if 'Einsum' in cls:
				for n in (1, 2):
					axes = list(NAMES[:n]) + ['Z']
					toks = [('in', a) for a in axes]
					for kb in (('n',), ('m', 'n')):
						for ax in range(len(kb)):
							def sm(t, axes=axes, kb=kb, ax=ax, cls=cls, backend=backend):
								o = operator(t, backend, cls, axes, kb)
								return t.I.call(t.I.getattr(o, 'sum'), [ax], {})
							def summed(p, r, where, name, kb=kb, ax=ax, toks=toks):
								w = p.t.w
								k = FUNCS['sum'](w, p.I, [w.atom('K', sz(kb) + [w.length(x) for x in toks], None), ax], {})
								return check_op(p, r, toks, k, where, name)
							ob(f'{cls} arity {n} sum({ax}) over kernel batch {kb}', sm, summed, 'sum', 'the sum over a batch axis keeps the subspaces')
			if backend == 'numpy' and 'Einsum' in cls:
				for n in (2, 3):
					axes = list(NAMES[:n]) + ['Z']
					toks = [('in', a) for a in axes]
					for keep in range(n):
						def mixed(t, axes=axes, keep=keep, cls=cls):
							o = operator(t, 'numpy', cls, axes)
							x = inputs(t, axes[:-1], [()] * (len(axes) - 1))
							return t.I.call(o, [t.S(axes[i]) if i == keep else y for i, y in enumerate(x)], {})
						def left2(p, r, where, name, n=n, keep=keep, toks=toks):
							k, tk = partial_kernel(p.t, [()] * n, toks, [i for i in range(n) if i != keep])
							return check_op(p, r, tk, k, where, name)
						ob(f'{cls} arity {n} called with a subspace in slot {keep}', mixed, left2, '__call__')
	return rep.finish()
