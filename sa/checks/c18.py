"""C18: the last axis of a multivector is its component axis under every array operation."""
from ..core import *
from ..tensor import *
from ..tensetup import *
from ..report import Report, Violation, Undecided, loc
from .c10 import STRATEGIES, sz, contraction, operator, inputs, check_mv, op_where

RULE = 'batch operations act on the leading axes only and keep the component axis last'
ARRAY = ['numpy', 'jax', 'torch']
MV = {'numpy': 'NumpyMultiVector', 'jax': 'JaxMultiVector', 'torch': 'TorchMultiVector', 'python': 'PythonMultiVector'}
BATCHES = [(), ('n',), ('m', 'n'), ('k', 'm', 'n')]
S = slice(None)


def keys(t, r):
	"""index expressions over r batch axes that leave the component axis alone"""
	out = [('1: on the first axis', slice(1, None)), (': on the first axis', S), ('0', 0), ('-1', -1), ('an index array', t.arr('I', ['q'])), ('a list', [0, 2]), ('None', None)]
	if r >= 2:
		out += [('a tuple of integers', (0, 1)), ('(0, :)', (0, S)), ('(:, 0)', (S, 0)), ('(:, 1:)', (S, slice(1, None))), ('(:, index array)', (S, t.arr('I', ['q']))), ('(1:, None)', (slice(1, None), None)), ('an index matrix', t.arr('I', ['p', 'q']))]
	if r >= 3:
		out += [('(0, :, 1)', (0, S, 1)), ('(..., 0, :)', (..., 0, S)), ('(:, :, 0)', (S, S, 0))]
	return out


def main():
	rep = Report('C18', 'Construction, indexing, joining, selection and reduction of multivectors and operators of every array backend are interpreted over index-generic arrays (symbolic batch and component lengths) and compared with the same operation on the batch axes of the components.',
		['array library functions do what their documentation states (transfer functions in sa/tensor.py)'])
	for backend in ARRAY:
		mk = lambda backend=backend: T(backend)
		base = mk()
		q = f'numga.backend.{backend}.multivector:{MV[backend]}'
		ctxq = BACKENDS[backend][0]
		def ob(name, call, judge, method, rule=RULE, q=q, mk=mk):
			where = op_where(base.I, q, method)
			name = f'{q.partition(":")[2]} {name}'
			def go():
				out = ''
				for p in explore_T(mk, call):
					rep.absorb(p.I)
					out = judge(p, where, name) or out
				return out
			rep.run(name, rule, go, where)
		def plain(want, tok=('in', 'A')):
			"""result is a multivector over tok with the wanted components"""
			def judge(p, where, name):
				decide_path(p, where, name)
				return check_mv(p, p.value, want(p.t), tok, where, name)
			return judge
		def arr(t, batch, tok=('in', 'A'), head='x'):
			return t.w.atom(head, sz(batch) + [t.w.length(tok)], {'numpy': 'numpy', 'jax': 'jax', 'torch': 'torch'}[backend])

		# ---- construction
		def build(via, batch, backend=backend):
			def f(t):
				v = arr(t, batch)
				if via == 'factory':
					return t.I.call(t.I.getattr(t.ctx, 'multivector'), [], {'values': v, 'subspace': t.S('A')})
				if via == 'factory method':
					return t.I.call(t.I.getattr(t.I.getattr(t.ctx, 'multivector'), 'multivector'), [v, t.S('A')], {})
				if via == 'copy':
					return t.I.call(t.I.getattr(t.mv('x', 'B', batch), 'copy'), [v, t.S('A')], {})
				return t.I.call(t.I.getattr(t.mvcls, 'construct'), [], {'context': t.ctx, 'values': v, 'subspace': t.S('A')})
			return f
		for via in ('construct', 'factory', 'factory method', 'copy'):
			for b in BATCHES:
				ob(f'{via} from values with batch {b}', build(via, b), plain(lambda t, b=b: arr(t, b)), 'construct', 'construction keeps the given components')
		# a trailing axis of another length is rejected
		def wrong(size):
			def f(t):
				w = t.w
				v = w.atom('x', [('b', 'n'), w.length(('in', size)) if isinstance(size, str) else size], None)
				return t.I.call(t.I.getattr(t.mvcls, 'construct'), [], {'context': t.ctx, 'values': v, 'subspace': t.S('A')})
			return f
		def rejects(p, where, name):
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.kind == 'raise':
				return 'raises'
			if p.imprecise:
				raise Undecided(p.imprecise[:2])
			if any(isinstance(c, tuple) and c[0] == 'dimeq' and v for c, v in p.conds):
				return 'equal lengths'
			raise Violation(where, f'{name}{conds(p)} is accepted although the last axis does not enumerate the subspace')
		ob('construct with the length of another subspace', wrong('B'), rejects, 'construct', 'the last axis enumerates the subspace')
		ob('construct with a trailing batch axis', wrong(('b', 'm')), rejects, 'construct', 'the last axis enumerates the subspace')
		# default values
		def unit(t, tok):
			w = t.w
			v = w.V.fresh(w.length(tok))
			return Ten(w, [(v, w.length(tok))], ((ONE, ((('blade is', tok, 0), (v,)),), ()),), None)
		ob('construct without values', lambda t: t.I.call(t.I.getattr(t.mvcls, 'construct'), [], {'context': t.ctx, 'values': None, 'subspace': t.S('A')}), plain(lambda t: unit(t, ('in', 'A'))), 'construct', 'unspecified components default to the unit scalar')
		ob('factory without values', lambda t: t.I.call(t.I.getattr(t.ctx, 'multivector'), [t.S('A')], {}), plain(lambda t: unit(t, ('in', 'A'))), 'construct', 'unspecified components default to the unit scalar')
		ob('factory without anything', lambda t: t.I.call(t.I.getattr(t.ctx, 'multivector'), [], {}), plain(lambda t: unit(t, FULL), FULL), 'construct', 'unspecified components default to the unit scalar of the full space')

		# ---- shape
		for b in BATCHES:
			def shape(p, where, name, b=b):
				decide_path(p, where, name)
				got = p.value
				want = tuple(p.t.w.dim(s) for s in sz(b))
				if not isinstance(got, tuple) or not all(isinstance(x, (int, Dim)) for x in got):
					raise Undecided(f'{got}')
				if [getattr(x, 'tok', x) for x in got] != [getattr(x, 'tok', x) for x in want]:
					raise Violation(where, f'{name} is {got}, expected {want}')
				return f'{got}'
			ob(f'shape of batch {b}', lambda t, b=b: t.I.getattr(t.mv('x', 'A', b), 'shape'), shape, 'shape', 'the shape is the batch axes only')
			if b and base.I.get(q).lookup('__len__') is not None:
				def ln(p, where, name, b=b):
					decide_path(p, where, name)
					if not isinstance(p.value, (int, Dim)):
						raise Undecided(f'{p.value}')
					if getattr(p.value, 'tok', p.value) != ('b', b[0]):
						raise Violation(where, f'{name} is {p.value}, expected the first batch length {b[0]}')
					return f'{p.value}'
				ob(f'len of batch {b}', lambda t, b=b: t.I.call(t.I.builtin_env['len'], [t.mv('x', 'A', b)], {}), ln, '__len__', 'the length is the first batch axis')

		# ---- indexing
		for b in BATCHES[1:]:
			names = [n for n, _ in keys(base, len(b))]
			for kn, n in enumerate(names):
				ob(f'batch {b} indexed by {n}', lambda t, b=b, kn=kn: t.I.getitem(t.mv('x', 'A', b), keys(t, len(b))[kn][1]),
					plain(lambda t, b=b, kn=kn: t.w.index(t.I, arr(t, b), keys(t, len(b))[kn][1])), '__getitem__', 'indexing selects batch entries with all their components')
				if n == 'None' or 'None' in n:
					continue
				for what in ('multivector', 'array'):
					def setter(t, b=b, kn=kn, what=what):
						x, k = t.mv('x', 'A', b), keys(t, len(b))[kn][1]
						y = t.I.getitem(arr(t, b, head='y'), k)
						if what == 'multivector':
							m = t.mv('y', 'A', b)
							m.attrs['values'] = y
							y = m
						return t.I.call(t.I.getattr(t.I.getitem(t.I.getattr(x, 'at'), k), 'set'), [y], {})
					def stored(t, b=b, kn=kn):
						x, k = arr(t, b), keys(t, len(b))[kn][1]
						t.w.store(t.I, x, k, t.w.index(t.I, arr(t, b, head='y'), k))
						return x
					ob(f'batch {b} .at[{n}].set({what})', setter, plain(stored), 'at', 'an update replaces the selected batch entries with all their components')
		# ---- joining
		for b, ax in ((('n',), 0), (('m', 'n'), 0), (('m', 'n'), 1), (('m', 'n'), -2), (('m', 'n'), -3), (('k', 'm', 'n'), 1)):
			def other(b, ax):
				b = list(b)
				b[ax if ax >= 0 else ax + 1] = 'h'
				return tuple(b)
			def cat(t, b=b, ax=ax):
				return t.I.call(t.I.getattr(t.mv('x', 'A', b), 'concatenate'), [t.mv('y', 'A', other(b, ax)), ax], {})
			def joined(t, b=b, ax=ax):
				return FUNCS['concatenate'](t.w, t.I, [[arr(t, b), arr(t, other(b, ax), head='y')], ax], {})
			ob(f'batch {b} concatenate along {ax}', cat, plain(joined), 'concatenate', 'joining acts on a batch axis')
		def mixed(t):
			t.w.same_length[('in', 'B')] = ('in', 'A')
			return t.I.call(t.I.getattr(t.mv('x', 'A', ('n',)), 'concatenate'), [t.mv('y', 'B', ('n',)), 0], {})
		def refuses(p, where, name):
			if p.kind == 'raise':
				return 'raises'
			if p.kind == 'undecided' or p.imprecise:
				raise Undecided(p.value)
			if any(isinstance(c, tuple) and c[0] == 'subeq' and v for c, v in p.conds):
				return 'same subspace'
			raise Violation(where, f'{name}{conds(p)} is accepted, components of different blades are joined')
		ob('concatenate of equally long different subspaces', mixed, refuses, 'concatenate', 'components of different subspaces are not joined')
		# ---- selection along an axis
		for b, ib, ax in ((('n',), ('q',), 0), (('m', 'n'), ('q', 'n'), 0), (('m', 'n'), ('m', 'q'), 1), (('m', 'n'), ('m', 'q'), -2), (('m', 'n'), ('m', 1), 1), (('m', 'n'), (1, 'q'), 1)):
			def sel(t, b=b, ib=ib, ax=ax):
				return t.I.call(t.I.getattr(t.mv('x', 'A', b), 'take_along_axis'), [t.w.atom('I', sz(ib), backend), ax], {})
			def along(t, b=b, ib=ib, ax=ax):
				i = t.w.atom('I', sz(ib) + [1], backend)
				return FUNCS['take_along_axis'](t.w, t.I, [arr(t, b), i, ax], {})
			ob(f'batch {b} take_along_axis {ib} axis {ax}', sel, plain(along), 'take_along_axis', 'all components follow the selected batch entry')
		# ---- reductions
		for f in ('sum', 'mean'):
			for b, ax in ((('n',), 0), (('n',), -2), (('m', 'n'), 0), (('m', 'n'), 1), (('m', 'n'), -2), (('m', 'n'), -3), (('m', 'n'), (0, 1)), (('k', 'm', 'n'), 1), (('k', 'm', 'n'), (0, 2))):
				def red(t, b=b, ax=ax, f=f):
					return t.I.call(t.I.getattr(t.mv('x', 'A', b), f), [ax], {})
				def reduced(t, b=b, ax=ax, f=f):
					return FUNCS[f](t.w, t.I, [arr(t, b), ax], {})
				ob(f'batch {b} {f}({ax})', red, plain(reduced), f, 'reductions act on the given batch axes')
		# ---- rearranging by pattern
		for f, b, pat, kw, want in (
			('rearrange', ('m', 'n'), 'a b c -> b a c', {}, ('n', 'm')), ('rearrange', ('k', 'm', 'n'), 'a b d c -> d a b c', {}, ('n', 'k', 'm')), ('rearrange', ('n',), 'a c -> a 1 c', {}, None), ('rearrange', ('m', 'n'), 'a ... -> ... a', {}, 'whole'),
			('repeat', ('n',), 'a c -> r a c', dict(r=3), None), ('repeat', ('m', 'n'), 'a b c -> a r b c', dict(r=3), None), ('repeat', (), 'c -> r c', dict(r=3), None)):
			def pattern(t, f=f, b=b, pat=pat, kw=kw):
				return t.I.call(t.I.getattr(t.mv('x', 'A', b), f), [pat], dict(kw))
			def patterned(t, f=f, b=b, pat=pat, kw=kw):
				return einops(f, t.w, t.I, [arr(t, b), pat], kw)
			if want != 'whole':
				ob(f'batch {b} {f} {pat}', pattern, plain(patterned), f, 'patterns rearrange the storage array, whose last axis is the component axis')
		# ---- reshaping
		if base.I.get(q).lookup('reshape') is not None:
			for b in (('m', 'n'), ('k', 'm', 'n')):
				ob(f'batch {b} flatten', lambda t, b=b: t.I.call(t.I.getattr(t.mv('x', 'A', b), 'flatten'), [], {}), plain(lambda t, b=b: FUNCS['reshape'](t.w, t.I, [arr(t, b), (-1, t.w.dim(t.w.length(('in', 'A'))))], {})), 'flatten', 'flattening joins the batch axes in order')
				new = ('p', 'q')
				ob(f'batch {b} reshape {new}', lambda t, b=b: t.I.call(t.I.getattr(t.mv('x', 'A', b), 'reshape'), [tuple(t.w.dim(s) for s in sz(('p', 'q')))], {}),
					plain(lambda t, b=b: FUNCS['reshape'](t.w, t.I, [arr(t, b), tuple(t.w.dim(s) for s in sz(('p', 'q'))) + (t.w.dim(t.w.length(('in', 'A'))),)], {})), 'reshape', 'reshaping rearranges the batch axes only')
			ob(f'batch (n,) reshape (n, 1)', lambda t: t.I.call(t.I.getattr(t.mv('x', 'A', ('n',)), 'reshape'), [(t.w.dim(('b', 'n')), 1)], {}), plain(lambda t: arr(t, ('n', 1))), 'reshape', 'reshaping rearranges the batch axes only')

		# ---- operators
		for cls in STRATEGIES[backend]:
			oq = f'numga.backend.{backend}.operator:{cls}'
			base.I.get(oq)
			lib = {'numpy': 'numpy', 'jax': 'jax', 'torch': 'torch'}[backend]
			batches = ((), ('n',), ('m', 'n')) if 'Einsum' in cls else ((),)
			for arity in (1, 2):
				axes = ['A', 'B'][:arity] + ['Z']
				toks = [('in', a) for a in axes]
				def kern(t, kb, toks=toks, head='K'):
					return t.w.atom(head, sz(kb) + [t.w.length(x) for x in toks], lib)
				def obo(name, call, judge, method, rule, oq=oq, cls=cls):
					where = op_where(base.I, oq, method)
					name = f'{cls} arity {arity} {name}'
					def go():
						out = ''
						for p in explore_T(mk, call):
							rep.absorb(p.I)
							decide_path(p, where, name)
							out = judge(p, where, name) or out
						return out
					rep.run(name, rule, go, where)
				def opj(want, toks=toks):
					from .c11 import check_op
					return lambda p, where, name: check_op(p, p.value, toks, want(p.t), where, name)
				for kb in batches:
					def mkop(t, kb, cls=cls, axes=axes, head='K'):
						return operator(t, backend, cls, axes, kb, head)
					def oshape(p, where, name, kb=kb):
						got, want = p.value, tuple(p.t.w.dim(s) for s in sz(kb))
						if not isinstance(got, tuple) or not all(isinstance(x, (int, Dim)) for x in got):
							raise Undecided(f'{got}')
						if [getattr(x, 'tok', x) for x in got] != [getattr(x, 'tok', x) for x in want]:
							raise Violation(where, f'{name} is {got}, expected {want}')
						return f'{got}'
					obo(f'kernel batch {kb} shape', lambda t, kb=kb, mkop=mkop: t.I.getattr(mkop(t, kb), 'shape'), oshape, 'shape', 'the shape of an operator is the batch axes of its kernel')
					if not kb:
						continue
					names = [n for n, _ in keys(base, len(kb))]
					for kn, n in enumerate(names):
						obo(f'kernel batch {kb} indexed by {n}', lambda t, kb=kb, kn=kn, mkop=mkop: t.I.getitem(mkop(t, kb), keys(t, len(kb))[kn][1]),
							opj(lambda t, kb=kb, kn=kn, kern=kern: t.w.index(t.I, kern(t, kb), keys(t, len(kb))[kn][1])), '__getitem__', 'indexing an operator selects batch entries of its kernel')
						if 'None' in n:
							continue
						def oset(t, kb=kb, kn=kn, mkop=mkop, kern=kern):
							x, k = mkop(t, kb), keys(t, len(kb))[kn][1]
							return t.I.call(t.I.getattr(t.I.getitem(t.I.getattr(x, 'at'), k), 'set'), [t.w.index(t.I, kern(t, kb, head='L'), k)], {})
						def ostored(t, kb=kb, kn=kn, kern=kern):
							x, k = kern(t, kb), keys(t, len(kb))[kn][1]
							t.w.store(t.I, x, k, t.w.index(t.I, kern(t, kb, head='L'), k))
							return x
						obo(f'kernel batch {kb} .at[{n}].set', oset, opj(ostored), 'at', 'an update replaces batch entries of the kernel')
					for ax in range(len(kb)):
						ob2 = list(kb)
						ob2[ax] = 'h'
						obo(f'kernel batch {kb} concatenate along {ax}', lambda t, kb=kb, ob2=tuple(ob2), ax=ax, mkop=mkop: t.I.call(t.I.getattr(mkop(t, kb), 'concatenate'), [mkop(t, ob2, head='L'), ax], {}),
							opj(lambda t, kb=kb, ob2=tuple(ob2), ax=ax, kern=kern: FUNCS['concatenate'](t.w, t.I, [[kern(t, kb), kern(t, ob2, head='L')], ax], {})), 'concatenate', 'joining operators acts on a batch axis of the kernel')

	# ---- python backend: plain lists of components
	mk = lambda: T('python')
	base = mk()
	q = f'numga.backend.python.multivector:{MV["python"]}'
	where = op_where(base.I, q, 'construct')
	def go():
		for p in explore_T(mk, lambda t: t.I.call(t.I.getattr(t.mvcls, 'construct'), [], {'context': t.ctx, 'values': t.w.atom('x', [t.w.length(('in', 'A'))], 'numpy'), 'subspace': t.S('A')})):
			rep.absorb(p.I)
			decide_path(p, where, 'construct')
			v = p.value.attrs['values']
			v = p.t.w.lift(v)
			r = same_tensor(p.t.w, v, p.t.w.atom('x', [p.t.w.length(('in', 'A'))], None), where, 'python construct')
		return r
	rep.run('PythonMultiVector construct from values', 'construction keeps the given components', go, where)
	return rep.finish()
