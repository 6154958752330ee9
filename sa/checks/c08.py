"""C08: operators as multilinear maps: every kernel axis belongs to the subspace listed at its position."""
import itertools
from ..core import *
from ..tensor import *
from ..tensetup import *
from ..report import Report, Violation, Undecided, loc

OP = 'numga.operator.operator:Operator'
RULE = 'operation on the kernel is the stated operation on multilinear maps'


def L(t):
	return ('len', t)


def main():
	rep = Report('C08', 'Every kernel manipulation of the abstract Operator is interpreted over index-generic arrays (named axes of symbolic length, bodies that are sums of products of opaque kernels). '
		'The resulting kernel and the subspaces listed on its axes are compared, as normal forms, with the operation on multilinear maps, for every arity up to 4 (binding: up to 3) and every slot; subspaces, signature and dimension are symbols, so one run covers all of them.',
		['array library functions do what their documentation states (transfer functions in sa/tensor.py)', 'SubSpace set operations and index helpers are decided by C03/C04'])
	mk = lambda: T()
	base = mk()
	# anchors
	base.I.get(OP)

	def where(name):
		return loc(base.I, f'{OP}.{name}')

	def ob(name, variant, call, judge, rule=RULE):
		def go():
			out = ''
			for p in explore_T(mk, call):
				rep.absorb(p.I)
				decide_path(p, where(name), f'{name}{variant}')
				if any(c[0] == 'subeq' for c, _ in p.conds):
					raise Undecided(f'{name}{variant}: branches on {p.conds}')
				out = judge(p, p.value)
			return out
		rep.run(f'{name}{variant}', rule, go, where(name))

	def call(o, name, *a, **k):
		return lambda t: None

	names = 'ABCD'

	def mkop(t, n, head='K', pre=''):
		"""operator with n inputs of distinct subspaces and output Z"""
		return t.op(head, [pre + names[i] for i in range(n)] + [pre + 'Z'])

	def method(n, name, args, kw=None, head='K'):
		def f(t):
			t.o = mkop(t, n, head)
			t.k0 = t.o.attrs['kernel'].body, list(t.o.attrs['kernel'].axes)
			r = t.I.call(t.I.getattr(t.o, name), args(t) if callable(args) else list(args), kw or {})
			if t.o.attrs['kernel'].body != t.k0[0] or t.o.attrs['kernel'].axes != t.k0[1]:
				raise Unsupported('operator changed in place')
			return r
		return f

	def toks(t, *ns):
		return [t.S(n).tok for n in ns]

	# ---------------------------------------------------------------- structure
	for n in (1, 2, 3):
		for variant, build in (('', lambda t, k, ax: t.I.call(t.I.get(OP), [k, ax], {})), (' (axes from an iterator)', lambda t, k, ax: t.I.call(t.I.get(OP), [k, GenList(list(ax))], {})), (' (keyword)', lambda t, k, ax: t.I.call(t.I.get(OP), [], {'kernel': k, 'axes': ax}))):
			def structure(t, n=n, build=build):
				ax = [t.S(names[i]) for i in range(n)] + [t.S('Z')]
				o = build(t, t.arr('K', [L(s.tok) for s in ax]), tuple(ax))
				return (o, t.I.getattr(o, 'arity'), t.I.getattr(o, 'inputs'), t.I.getattr(o, 'output'), t.I.getattr(o, 'subspace'), t.I.getattr(o, 'algebra'))
			def judge(p, v, n=n):
				o, ar, ins, out, sub, alg = v
				w = [('in', names[i]) for i in range(n)]
				if ar != n:
					raise Violation(where('arity'), f'arity of an operator with {n} inputs is {ar}')
				if [x.tok for x in ins] != w or out.tok != ('in', 'Z') or sub.tok != ('in', 'Z'):
					raise Violation(where('output'), f'inputs {ins}, output {out}, subspace {sub} of an operator with axes {w + ["Z"]}')
				same_op(p, o, w + [('in', 'Z')], p.t.arr('K', [L(x) for x in w] + [L(('in', 'Z'))]), where('__init__'), 'Operator(kernel, axes)')
				return 'inputs and output as listed'
			ob('__init__', f' {n} inputs{variant}', structure, judge, 'axes of an operator are its inputs followed by its output')

	# ---------------------------------------------------------------- linear structure
	for n in (1, 2, 3):
		A = [names[i] for i in range(n)] + ['Z']
		tk = [('in', a) for a in A]
		sz = [L(x) for x in tk]
		K = lambda p, h='K': p.t.arr(h, sz)
		def lin(c, d=None):
			def judge(p, r, sz=sz, tk=tk):
				w, I = p.t.w, p.I
				x = w.arith(I, '*', p.t.arr('K', sz), c)
				if d is not None:
					x = w.arith(I, '+', x, w.arith(I, '*', p.t.arr('M', sz), d))
				return same_op(p, r, tk, x, where('add' if d else 'mul'), 'result')
			return judge
		other = lambda t, A=A: [t.op('M', A)]
		ob('add', f' arity {n}', method(n, 'add', other), lin(1, 1))
		ob('__add__', f' arity {n}', method(n, '__add__', other), lin(1, 1))
		ob('__sub__', f' arity {n}', method(n, '__sub__', other), lin(1, -1))
		ob('__neg__', f' arity {n}', method(n, '__neg__', []), lin(-1))
		ob('__pos__', f' arity {n}', method(n, '__pos__', []), lin(1))
		for c in (2, -3):
			ob('mul', f' by {c} arity {n}', method(n, 'mul', [c]), lin(c))
			ob('__mul__', f' by {c} arity {n}', method(n, '__mul__', [c]), lin(c))
			ob('__rmul__', f' by {c} arity {n}', method(n, '__rmul__', [c]), lin(c))
		for c in (2, 3, -2):
			def div(p, r, sz=sz, tk=tk, c=c):
				w, I = p.t.w, p.I
				if not isinstance(r, Obj) or not isinstance(r.attrs.get('kernel'), Ten):
					raise Undecided(f'div: {r}')
				k = w.arith(I, '*', p.t.arr('K', sz), c)
				if axes_toks(I, r, 'div') == tk and r.attrs['kernel'].canon() == w.arith(I, '//', k, c).canon():
					return 'integer division of a multiple'
				return same_op(p, r, tk, p.t.arr('K', sz), where('div'), f'{c} * op divided by {c}')
			def dv(t, n=n, c=c):
				return t.I.call(t.I.getattr(t.I.call(t.I.getattr(mkop(t, n), 'mul'), [c], {}), 'div'), [c], {})
			ob('div', f' by {c} arity {n}', dv, div)
		ob('copy', f' arity {n}', method(n, 'copy', lambda t, sz=sz: [t.arr('M', sz)]), lambda p, r, sz=sz, tk=tk: same_op(p, r, tk, p.t.arr('M', sz), where('copy'), 'copy(kernel)'))
	for ax1, ax2 in (('AZ', 'BZ'), ('AZ', 'AW'), ('ABZ', 'ACZ'), ('ABZ', 'ABW'), ('ABZ', 'CBZ')):
		def mismatch(t, ax1=ax1, ax2=ax2):
			for x, y in zip(ax1, ax2):
				if x != y:
					t.w.same_length[('in', y)] = ('in', x)
			o = t.op('K', list(ax1))
			try:
				t.I.call(t.I.getattr(o, 'add'), [t.op('M', list(ax2))], {})
			except PyRaise:
				return 'raises'
			return 'accepted'
		def no_mismatch(mismatch=mismatch):
			for p in explore_T(mk, mismatch):
				if p.kind != 'value' or p.imprecise:
					raise Undecided(str(p.value))
				eq = any(c[0] in ('subeq', 'dimeq') and v for c, v in p.conds)
				if not eq and p.value != 'raises':
					raise Violation(where('add'), 'operators over different subspaces are added entry by entry')
			return 'operators over different subspaces are rejected'
		rep.run(f'add of different subspaces {ax1} {ax2}', 'only operators over the same subspaces are added entrywise', no_mismatch, where('add'))

	# ---------------------------------------------------------------- add_broadcast, deslice
	def embed(t, head, have, want):
		"""kernel over `have` re-expressed over `want`"""
		w = t.w
		x = t.arr(head, [L(('in', h)) for h in have])
		for i, (h, u) in enumerate(zip(have, want)):
			v, s = x.axes[i]
			nb, nv = w.V.fresh(s), w.V.fresh(L(u))
			body = b_bind(b_mul(w, b_sub(w, x.body, {v: nb}), ((ONE, ((('match', ('in', h), u), (nb, nv)),), ()),)), [nb])
			x = Ten(w, x.axes[:i] + [(nv, L(u))] + x.axes[i + 1:], body, x.lib)
		return x
	for n in (1, 2, 3):
		A = [names[i] for i in range(n)] + ['Z']
		P = ['P' + a for a in A]
		U = [('u', frozenset({('in', a), ('in', b)})) for a, b in zip(A, P)]
		ob('add_broadcast', f' arity {n}', method(n, 'add_broadcast', lambda t, P=P: [t.op('M', P)]),
			lambda p, r, A=A, P=P, U=U: same_op(p, r, U, p.t.w.arith(p.I, '+', embed(p.t, 'K', A, U), embed(p.t, 'M', P, U)), where('add_broadcast'), 'add_broadcast'))
		D = [('in', 'D' + a) for a in A]
		ob('deslice', f' arity {n}', method(n, 'deslice', lambda t, A=A: [[t.S('D' + a) for a in A]]),
			lambda p, r, A=A, D=D: same_op(p, r, D, embed(p.t, 'K', A, D), where('deslice'), 'deslice'))
		for given in range(1, n + 1):
			D = [('in', 'D' + a) for a in A[:given]]
			keep = [('in', a) for a in A]
			want = D + keep[given:]
			for entry, args in (('slice', lambda t, D=D: [tuple(t.w.sub(d[1]) for d in D)]), ('__getitem__', lambda t, D=D: [tuple(t.w.sub(d[1]) for d in D) if len(D) != 1 else t.w.sub(D[0][1])])):
				ob(entry, f' {given} of {n} inputs', method(n, entry, args),
					lambda p, r, A=A, want=want: same_op(p, r, want, embed_same(p.t, 'K', A, want), where('slice'), 'slice'))
		if n > 1:
			A_ = A
			ob('__getitem__', f' [:, D] of {n} inputs', method(n, '__getitem__', lambda t: [(slice(None), t.S('DB'))]),
				lambda p, r, A=A_: same_op(p, r, [FULL, ('in', 'DB')] + [('in', a) for a in A[2:]], embed_same(p.t, 'K', A, [FULL, ('in', 'DB')] + [('in', a) for a in A[2:]]), where('__getitem__'), 'op[:, D]'))

	# ---------------------------------------------------------------- swapaxes
	for n in (1, 2, 3, 4):
		A = [('in', names[i]) for i in range(n)] + [('in', 'Z')]
		for a, b in itertools.combinations(range(n + 1), 2):
			for x, y in ((a, b), (b, a)):
				perm = list(range(n + 1))
				perm[a], perm[b] = perm[b], perm[a]
				def judge(p, r, A=A, perm=perm):
					k = p.t.arr('K', [L(x) for x in A])
					return same_op(p, r, [A[i] for i in perm], Ten(p.t.w, [k.axes[i] for i in perm], k.body, k.lib), where('swapaxes'), 'swapaxes')
				ob('swapaxes', f'({x}, {y}) arity {n}', method(n, 'swapaxes', [x, y]), judge)

	# ---------------------------------------------------------------- fuse and bind
	def composed(t, outer, slots, inner):
		"""outer(..., inner_s(...), ...): expected axes and kernel"""
		w = t.w
		k = t.arr('K', [L(x) for x in outer])
		body, axes, tk = k.body, [], []
		for i, x in enumerate(outer):
			v, s = k.axes[i]
			if i in slots:
				g = t.arr(f'G{i}', [L(y) for y in inner[i]])
				vo, so = g.axes[-1]
				b = w.V.fresh(s)
				body = b_bind(b_mul(w, b_sub(w, body, {v: b}), b_sub(w, g.body, {vo: b})), [b])
				axes += g.axes[:-1]
				tk += inner[i][:-1]
			else:
				axes.append((v, s))
				tk.append(x)
		return tk, Ten(w, axes, body, 'numpy')

	for n in (1, 2, 3, 4):
		outer = [('in', names[i]) for i in range(n)] + [('in', 'Z')]
		for slot in range(n):
			for m in (1, 2, 3):
				inner = {slot: [('in', f'I{slot}{q}') for q in range(m)] + [outer[slot]]}
				def run(t, outer=outer, inner=inner, slot=slot):
					o = t.op('K', [Sub(t.w, x) for x in outer])
					g = t.op(f'G{slot}', [Sub(t.w, x) for x in inner[slot]])
					return t.I.call(t.I.getattr(g, 'fuse'), [o, slot], {})
				def judge(p, r, outer=outer, inner=inner, slot=slot):
					tk, k = composed(p.t, outer, [slot], inner)
					return same_op(p, r, tk, k, where('fuse'), f'fuse into slot {slot} of {len(outer) - 1}')
				ob('fuse', f' {m}-ary into slot {slot} of arity {n}', run, judge)
	for n in (1, 2, 3):
		outer = [('in', names[i]) for i in range(n)] + [('in', 'Z')]
		for k in range(0, n + 1):
			for slots in itertools.combinations(range(n), k):
				for ms in itertools.product((1, 2), repeat=k):
					inner = {s: [('in', f'I{s}{q}') for q in range(m)] + [outer[s]] for s, m in zip(slots, ms)}
					def ops(t, outer=outer, inner=inner):
						o = t.op('K', [Sub(t.w, x) for x in outer])
						return o, {s: t.op(f'G{s}', [Sub(t.w, x) for x in ax]) for s, ax in inner.items()}
					def judge(p, r, outer=outer, slots=slots, inner=inner):
						tk, kk = composed(p.t, outer, slots, inner)
						return same_op(p, r, tk, kk, where('bind'), f'bind slots {slots}')
					tag = f' slots {slots} arities {ms} of arity {n}'
					def bind_dict(t, ops=ops):
						o, d = ops(t)
						return t.I.call(t.I.getattr(o, 'bind'), [d], {})
					def bind_rev(t, ops=ops):
						o, d = ops(t)
						return t.I.call(t.I.getattr(o, 'bind'), [dict(reversed(list(d.items())))], {})
					ob('bind', tag + ' (mapping)', bind_dict, judge)
					if k > 1:
						ob('bind', tag + ' (mapping in reverse order)', bind_rev, judge)
					if slots == tuple(range(k)) and k:
						def bind_pos(t, ops=ops):
							o, d = ops(t)
							return t.I.call(t.I.getattr(o, 'bind'), [d[i] for i in range(len(d))], {})
						ob('bind', tag + ' (positional)', bind_pos, judge)
					def _b(t, ops=ops, outer=outer, slots=slots):
						o, d = ops(t)
						return t.I.call(t.I.getattr(o, '_build'), [tuple(d.get(i, o.attrs['axes'][i]) for i in range(len(outer)-1))], {})
					ob('_build', tag, _b, judge)
					def b_(t, ops=ops, outer=outer, slots=slots):
						o, d = ops(t)
						return t.I.call(t.I.getattr(t.I.get(OP), 'build'), [o.attrs['kernel'], tuple(d.get(i, o.attrs['axes'][i]) for i in range(len(outer)))], {})
					ob('build', tag, b_, judge)

	def bad_fuse(t):
		t.w.same_length[('in', 'Q')] = ('in', 'A')
		o = t.op('K', ['A', 'B', 'Z'])
		g = t.op('G', ['C', 'Q'])
		try:
			t.I.call(t.I.getattr(o, 'bind'), [{0: g}], {})
		except PyRaise:
			return 'raises'
		return 'accepted'
	def rejects():
		for p in explore_T(mk, bad_fuse):
			if p.kind != 'value' or p.imprecise:
				raise Undecided(str(p.value))
			eq = any(c[0] in ('subeq', 'dimeq') and v for c, v in p.conds)
			if not eq and p.value != 'raises':
				raise Violation(where('fuse'), 'an operator with another output subspace is bound into a slot')
			if any(c[0] == 'dimeq' and v for c, v in p.conds) and not any(c[0] == 'subeq' and v for c, v in p.conds) and p.value != 'raises':
				raise Violation(where('fuse'), 'an operator whose output subspace differs from the input subspace of the slot is bound when their dimensions agree')
		return 'an operator with another output subspace is rejected'
	rep.run('bind of a mismatched operator', 'only an operator whose output is the subspace of the slot is bound', rejects, where('fuse'))

	# ---------------------------------------------------------------- output selection, squeeze, sum, grade selection
	for n in (1, 2, 3):
		A = [('in', names[i]) for i in range(n)] + [('in', 'Z')]
		sz = [L(x) for x in A]
		def sel(p, r, A=A, out=('in', 'O'), name='select_subspace'):
			return same_op(p, r, A[:-1] + [out], embed_same(p.t, 'K', [a[1] for a in A], A[:-1] + [out]), where(name), name)
		ob('select_subspace', f' arity {n}', method(n, 'select_subspace', lambda t: [t.S('O')]), sel)
		ob('select_grade', f' arity {n}', method(n, 'select_grade', [2]), lambda p, r, A=A: sel(p, r, A, ('name', 'k_vector', 2), 'select_grade'))

		def squeezed(p, r, kernel, A, name, what):
			"""r is `kernel` with only nonzero outputs dropped"""
			w = p.t.w
			if not isinstance(r, Obj) or 'kernel' not in r.attrs:
				raise Undecided(f'{what}: {r}')
			tk = axes_toks(p.I, r, what)
			if tk[:-1] != A[:-1]:
				raise Violation(where(name), f'{what}{conds(p)} has inputs ({", ".join(map(show_tok, tk[:-1]))}), expected ({", ".join(map(show_tok, A[:-1]))})')
			if not w.inside(tk[-1], A[-1]):
				raise Violation(where(name), f'{what}{conds(p)} has output {show_tok(tk[-1])}, not a part of {show_tok(A[-1])}')
			ks = [s for _, s in r.attrs['kernel'].axes] if isinstance(r.attrs['kernel'], Ten) else None
			if ks is None:
				raise Undecided(f'{what}: kernel {r.attrs["kernel"]}')
			if ks != [L(t) for t in tk]:
				raise Violation(where(name), f'{what}{conds(p)}: kernel axes have lengths ({", ".join(map(show_size, ks))}) but list the subspaces ({", ".join(map(show_tok, tk))})')
			return same_tensor(w, embed_output(w, r, A[-1]), kernel, where(name), f'{what}{conds(p)}')
		def drops(p, r, A):
			t = axes_toks(p.I, r, 'squeeze')[-1]
			return t[0] == 'sq' and t[1] == A[-1]
		def sq(p, r, A=A, sz=sz):
			d = squeezed(p, r, p.t.arr('K', sz), A, 'squeeze', 'squeeze()')
			if not drops(p, r, A):
				raise Violation(where('squeeze'), 'squeeze() keeps outputs that are known to be zero')
			return d
		ob('squeeze', f' arity {n}', method(n, 'squeeze', []), sq)
		for i in range(n if n < 4 else 0):
			def shared(t, n=n, i=i):
				return t.I.call(t.I.getattr(t.op('K', [names[j] for j in range(n)] + [names[i]]), 'squeeze'), [], {})
			A2 = A[:-1] + [A[i]]
			def sqs(p, r, A=A2):
				return squeezed(p, r, p.t.arr('K', [L(x) for x in A]), A, 'squeeze', 'squeeze()')
			ob('squeeze', f' arity {n}, output space equal to input {i}', shared, sqs)
		for ax in range(n):
			def sm(p, r, A=A, sz=sz, ax=ax):
				k = FUNCS['sum'](p.t.w, p.I, [p.t.arr('K', sz), ax], {})
				return squeezed(p, r, k, A[:ax] + A[ax + 1:], 'sum', f'sum({ax})')
			if n > 1:
				ob('sum', f'({ax}) arity {n}', method(n, 'sum', [ax]), sm)
		def formula(t, n=n):
			def f(I, a, k):
				if len(a) != n + 1:
					raise PyRaise('TypeError', f'formula of {n + 1} grades called with {len(a)}')
				ts = []
				for x in a:
					if not isinstance(x, Ten):
						raise Unsupported('grades')
					ts.append(x)
				ax, bs = t.w.broadcast(I, ts)
				fs = []
				for i, b in enumerate(bs):
					if len(b) != 1 or len(b[0][1]) != 1:
						raise Unsupported('grades')
					h, idx = b[0][1][0]
					fs.append((('of slot', i, h), idx))
				return Ten(t.w, ax, ((ONE, ((('keeps',) + tuple(x[0] for x in fs), tuple(y for x in fs for y in x[1])),), ()),), 'numpy', True)
			return [HostFn(f, 'formula')]
		def gs(p, r, A=A, sz=sz):
			k = p.t.arr('K', sz)
			h = ('keeps',) + tuple(('of slot', i, ('grade', a)) for i, a in enumerate(A))
			m = Ten(p.t.w, k.axes, ((ONE, ((h, tuple(v for v, _ in k.axes)),), ()),), 'numpy', True)
			return squeezed(p, r, p.t.w.arith(p.I, '*', k, m), A, 'grade_selection', 'grade_selection')
		ob('grade_selection', f' arity {n}', method(n, 'grade_selection', formula), gs)

	# ---------------------------------------------------------------- symmetry
	for n in (2, 3, 4):
		for r_ in (2, 3):
			for axes in itertools.permutations(range(n), r_):
				if r_ == 3 and (n > 3 or axes != tuple(sorted(axes))):
					continue
				sub = ['X' if i in axes else names[i] for i in range(n)] + ['Z']
				A = [('in', s) for s in sub]
				def run(t, sub=sub, axes=axes):
					return t.I.call(t.I.getattr(t.op('K', sub), 'symmetry'), [tuple(axes)], {})
				def judge(p, r, A=A, axes=axes):
					w = p.t.w
					k = p.t.arr('K', [L(x) for x in A])
					if not isinstance(r, Obj) or not isinstance(r.attrs.get('kernel'), Ten):
						raise Undecided(str(r))
					tk = axes_toks(p.I, r, 'symmetry')
					if tk[:-1] != A[:-1] or not w.inside(tk[-1], A[-1]):
						raise Violation(where('symmetry'), f'symmetry{axes} has axes ({", ".join(map(show_tok, tk))})')
					ks = [s for _, s in r.attrs['kernel'].axes]
					if ks != [L(t) for t in tk]:
						raise Violation(where('symmetry'), f'symmetry{axes}{conds(p)}: kernel axes have lengths ({", ".join(map(show_size, ks))}) but list the subspaces ({", ".join(map(show_tok, tk))})')
					x = embed_output(w, r, A[-1])
					def symm(y):
						axs = None
						body = ()
						for perm in itertools.permutations(axes):
							m = dict(zip(axes, perm))
							o = [y.axes[m.get(i, i)] for i in range(len(y.axes))]
							if axs is None:
								axs = y.axes
							body += b_sub(w, y.body, {v: u for (v, _), (u, _) in zip(o, axs)})
						return Ten(w, axs, body, y.lib)
					return same_tensor(w, symm(x), symm(k), where('symmetry'), f'value on equal arguments of symmetry{axes}{conds(p)}')
				ob('symmetry', f'{axes} arity {n}', run, judge, 'symmetrising leaves the value on equal arguments unchanged')

	# ---------------------------------------------------------------- selection
	OF = 'numga.operator.factory:OperatorFactory'
	def wof(name):
		return loc(base.I, f'{OF}.{name}')
	for m in ('select', 'restrict'):
		for arg in ('subspace', 'operator of 1 input', 'operator of 2 inputs', 'output given as an operator'):
			for kw in (False, True):
				if arg.startswith('output') and m == 'restrict':
					continue
				n = {'operator of 1 input': 1, 'operator of 2 inputs': 2}.get(arg, 0)
				def run(t, m=m, n=n, kw=kw, arg=arg):
					t.I.get(OF)
					fac = Obj(t.I.get(OF))
					fac.attrs['algebra'] = t.w.alg
					i = mkop(t, n) if n else t.S('Z')
					o = t.op('G', ['X', 'O']) if arg.startswith('output') else t.S('O')
					f = t.I.getattr(fac, m)
					return t.I.call(f, [], {'i': i, 'o': o}) if kw else t.I.call(f, [i, o], {})
				def judge(p, r, m=m, n=n, arg=arg):
					w = p.t.w
					Z, O = ('in', 'Z'), ('in', 'O')
					if m == 'restrict':
						O = ('n', frozenset({Z, O}))
					if n:
						want = embed_output(w, mkop(p.t, n), O)
						A = [('in', names[i]) for i in range(n)]
					else:
						a, b = w.V.fresh(L(Z)), w.V.fresh(L(O))
						want = Ten(w, [(a, L(Z)), (b, L(O))], ((ONE, ((('match', Z, O), (a, b)),), ()),), 'numpy')
						A = [Z]
					return same_op(p, r, A + [O], want, wof(m), f'{m}({arg}, subspace)')
				def go(m=m, run=run, judge=judge, arg=arg):
					out = ''
					for p in explore_T(mk, run):
						rep.absorb(p.I)
						decide_path(p, wof(m), f'{m}({arg}, subspace)')
						out = judge(p, p.value)
					return out
				rep.run(f'{m}({arg}, subspace{", by keyword" if kw else ""})', 'selecting components of an operand is the identity on the blades kept, composed with the operand', go, wof(m))

	# ---------------------------------------------------------------- layout of Cayley tables
	from ..coo import layout
	layout(rep)
	return rep.finish()


def embed_same(t, head, have, want):
	"""like embed, but axes with an unchanged subspace stay as they are"""
	w = t.w
	x = t.arr(head, [('len', ('in', h)) for h in have])
	for i, (h, u) in enumerate(zip(have, want)):
		if u == ('in', h):
			continue
		v, s = x.axes[i]
		nb, nv = w.V.fresh(s), w.V.fresh(('len', u))
		body = b_bind(b_mul(w, b_sub(w, x.body, {v: nb}), ((ONE, ((('match', ('in', h), u), (nb, nv)),), ()),)), [nb])
		x = Ten(w, x.axes[:i] + [(nv, ('len', u))] + x.axes[i + 1:], body, x.lib)
	return x
