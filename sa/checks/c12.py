"""C12: backend primitives compute the function they are named after."""
import math
from ..core import *
from ..terms import *
from ..report import Report, Violation, Undecided, loc

RULE = 'canonical term of the primitive equals its definition'
BACK = (('numpy', 'numga.backend.numpy.context:NumpyContext', 'numpy'), ('jax', 'numga.backend.jax.context:JaxContext', 'jax.numpy'), ('torch', 'numga.backend.torch.context:TorchContext', 'torch'))
X, Y, C = Term(('var', 'x')), Term(('var', 'y')), Term(('var', 'c'))
N = 0.25
REAL = [0.3, 0.9, 2.0, 5.5, -0.7, -3.25, 0.0, 1.0, math.nan, math.inf]
ENV1 = [dict(x=a, y=b, c=c) for a in REAL for b in (0.4, 2.0, -1.5, 0.0) for c in (True, False)]
# truth values of any kind: masks are boolean, but a nonzero number counts as true as well
ENVB = [dict(x=a, y=b, c=a) for v in ((True, False), (0, 1, 2), (0.0, 1.0, 2.5)) for a in v for b in v]

# name -> (argument lists to try, expected term, samples)
PRIMS = {
	'sqrt': ([X], mk('sqrt', X), ENV1), 'exp': ([X], mk('exp', X), ENV1), 'log': ([X], mk('log', X), ENV1),
	'cos': ([X], mk('cos', X), ENV1), 'sin': ([X], mk('sin', X), ENV1), 'abs': ([X], mk('abs', X), ENV1), 'isnan': ([X], mk('isnan', X), ENV1),
	'pow': ([X, Y], mk('pow', X, Y), ENV1), 'where': ([C, X, Y], mk('where', C, X, Y), ENV1),
	'nan_to_num': ([X, N], mk('nan_to_num', X, N), [e for e in ENV1 if abs(e['x']) != math.inf]),
	'logical_xor': ([X, Y], mk('logical_xor', X, Y), ENVB), 'logical_or': ([X, Y], mk('logical_or', X, Y), ENVB),
	'logical_and': ([X, Y], mk('logical_and', X, Y), ENVB),
	'arctan2': ([X, Y], mk('arctan2', X, Y), ENV1), 'arctan': ([X], mk('arctan', X), ENV1), 'arccos': ([X], mk('arccos', X), ENV1), 'arcsinh': ([X], mk('arcsinh', X), ENV1),
	'arcsin': ([X], mk('arcsin', X), ENV1), 'arccosh': ([X], mk('arccosh', X), ENV1), 'arctanh': ([X], mk('arctanh', X), ENV1), 'sinh': ([X], mk('sinh', X), ENV1), 'cosh': ([X], mk('cosh', X), ENV1),
	'tan': ([X], mk('tan', X), ENV1), 'tanh': ([X], mk('tanh', X), ENV1), 'maximum': ([X, Y], mk('maximum', X, Y), ENV1), 'minimum': ([X, Y], mk('minimum', X, Y), ENV1),
}
REQUIRED = ['sqrt', 'exp', 'log', 'cos', 'sin', 'abs', 'isnan', 'pow', 'where', 'nan_to_num', 'logical_xor', 'logical_or']
REDS = ['min', 'argmin', 'all', 'max', 'argmax', 'any']
REQUIRED_RED = ['min', 'argmin', 'all']


def leaf(k):
	return not isinstance(k, tuple) or k[0] in ('var', 'item') and not isinstance(k[1], tuple) or k[0] == 'ext'


def judge(got, want, envs, where, what):
	if isinstance(got, Pair):
		raise Violation(where, f'{what} returns a (values, indices) pair')
	if got is None:
		raise Violation(where, f'{what} returns nothing')
	if isinstance(got, Top) or isinstance(got, Term) and unknown(got.k):
		raise Undecided(f'{what}: {got}')
	g, w = K(got), K(want)
	if strip(g) == strip(w):
		return f'{show(g)}'
	r = refute(g, w, envs) if envs else None
	if r:
		e, a, b = r
		raise Violation(where, f'{what} computes {show(g)}; expected {show(w)}: at {e} it gives {a} instead of {b}')
	if isinstance(g, tuple) and isinstance(w, tuple) and g[0] in set(ELEM_CANON) | set(REDUCE.values()) and all(leaf(x) for x in g[1:]) and not envs:
		raise Violation(where, f'{what} computes {show(g)}; expected {show(w)}')
	raise Undecided(f'{what} computes {show(g)}, not comparable with {show(w)}')


ELEM_CANON = {c for c, _ in ELEM.values()} | {'where', 'nan_to_num'}


def strip(k):
	"""array conversions without a type change do not matter; float constants as numbers"""
	if isinstance(k, tuple):
		if k and k[0] == 'asarray' and k[2] is None:
			return strip(k[1])
		return tuple(strip(x) for x in k)
	return k


def make(backend, cls, lib):
	w = TermWorld(lib)
	I = Interp(w)
	A = Obj(I.get('numga.algebra.algebra:Algebra'))
	A.attrs.update(subspace=Obj(I.get('numga.subspace.factory:SubSpaceFactory')), operator=Obj(I.get('numga.operator.factory:OperatorFactory')))
	ctx = I.call(I.get(cls), [A], {})
	return I, ctx


def owner_loc(I, ctx, name, cls):
	for c in ctx.cls.mro:
		if name in c.attrs:
			return loc(I, f'{c.module.name}:{c.name}.{name}')
	return loc(I, cls)


def math_methods(rep, backend, I, ctx):
	"""multivector level math"""
	mvcls = I.getattr(ctx, 'mvtype')
	S = Obj(I.get('numga.subspace.subspace:SubSpace'))
	for name, args, want in (('sqrt', [], mk('sqrt', X)), ('invsqrt', [], mk('pow', X, -0.5)), ('abs', [], mk('abs', X)), ('cos', [], mk('cos', X)), ('sin', [], mk('sin', X)), ('nan_to_num', [N], mk('nan_to_num', X, N))):
		def mvm():
			I.imprecise.clear()
			m = Obj(mvcls)
			m.attrs.update(context=ctx, subspace=S, values=Term(X.k))
			where = loc(I, f'numga.multivector.multivector:AbstractMultiVector.{name}')
			made = []
			for c in mvcls.mro:
				f = c.attrs.get('construct')
				if f is not None:
					q = f.fn.qual if isinstance(f, ClassM) else f.qual
					def ic(I2, a, k, f=f):
						b = dict(zip(['cls'] + [x.arg for x in f.fn.node.args.args][1:], a)); b.update(k)
						o = Obj(mvcls)
						o.attrs.update(context=b.get('context'), subspace=b.get('subspace'), values=b.get('values'))
						return o
					I.world.intercepts[q] = ic
			try:
				r = I.call(I.getattr(m, name), list(args), {})
			except PyRaise as e:
				raise Violation(where, f'{backend} multivector.{name} raises {e}')
			if I.imprecise or I.trace:
				raise Undecided(str(I.imprecise[:1]))
			if not isinstance(r, Obj):
				raise (Violation(where, f'{backend} multivector.{name} returns {r}') if r is None else Undecided(str(r)))
			if r.attrs.get('subspace') is not S:
				raise Violation(where, f'{backend} multivector.{name} changes the subspace')
			if m.attrs['values'].k != X.k:
				raise Violation(where, f'{backend} multivector.{name} overwrites its operand')
			return judge(r.attrs['values'], want, ENV1 if name != 'nan_to_num' else PRIMS['nan_to_num'][2], where, f'{backend} multivector.{name}')
		rep.run(f'{backend} mv.{name}', 'componentwise function of the name, subspace kept', mvm, f'numga.multivector.multivector:AbstractMultiVector.{name}')


def main():
	rep = Report('C12', 'Abstract interpretation of every backend context over a term domain: each primitive is evaluated on opaque arrays and the resulting '
		'canonical library term (numpy, jax and torch names mapped onto one vocabulary, keyword and positional conventions resolved per library) is compared with the '
		'definition its name states. Multivector level math methods and the availability of every context attribute the multivector layer refers to are checked the same way.',
		['the vocabulary table of library functions in sa/terms.py', 'sample evaluation of canonical terms is used only to refute a composite term, never to accept it'])
	for backend, cls, lib in BACK:
		I, ctx = make(backend, cls, lib)
		def get(name):
			try:
				return I.getattr(ctx, name)
			except PyRaise:
				return None
		for name, (args, want, envs) in PRIMS.items():
			def prim():
				I.imprecise.clear()
				where = owner_loc(I, ctx, name, cls)
				f = get(name)
				if f is None:
					raise Violation(loc(I, cls), f'{backend} context offers no {name}')
				a = [Term(x.k) if isinstance(x, Term) else x for x in args]
				try:
					r = I.call(f, a, {})
				except PyRaise as e:
					raise Violation(where, f'{backend} context.{name} raises {e}')
				if I.imprecise or I.trace:
					raise Undecided(f'{I.imprecise[:1]} {I.trace[:1]}')
				for x, y in zip(a, args):
					if isinstance(x, Term) and x.k != y.k:
						raise Violation(where, f'{backend} context.{name} overwrites its argument')
				return judge(r, want, envs, where, f'{backend} context.{name}')
			if name in REQUIRED or any(name in c.attrs for c in ctx.cls.mro[:-1]):
				rep.run(f'{backend}.{name}', RULE, prim, cls)
		for name in REDS:
			def red():
				I.imprecise.clear()
				where = owner_loc(I, ctx, name, cls)
				f = get(name)
				if f is None:
					raise Violation(loc(I, cls), f'{backend} context offers no {name}')
				for axis in (-1, 0):
					try:
						r = I.call(f, [Term(X.k)], {'axis': axis})
					except PyRaise as e:
						raise Violation(where, f'{backend} context.{name}(x, axis={axis}) raises {e}')
					if I.imprecise or I.trace:
						raise Undecided(f'{I.imprecise[:1]}')
					judge(r, mk(name, X, axis, False), None, where, f'{backend} context.{name}')
				return 'reduces the given axis'
			if name in REQUIRED_RED or any(name in c.attrs for c in ctx.cls.mro[:-1]):
				rep.run(f'{backend}.{name}', RULE, red, cls)

		def coerce():
			where = owner_loc(I, ctx, 'coerce_array', cls)
			dt = I.getattr(ctx, 'dtype')
			f = I.getattr(ctx, 'coerce_array')
			for a, kw, want in (([X], {}, dt), ([X, Ext('some.dtype')], {}, Ext('some.dtype')), ([X], {'dtype': Ext('some.dtype')}, Ext('some.dtype')), ([X, None], {}, dt)):
				r = I.call(f, [Term(X.k)] + a[1:], kw)
				k = K(r)
				if isinstance(r, Top) or not isinstance(r, Term) or I.imprecise:
					raise Undecided(str(r))
				if k == K(X) or k == ('asarray', K(X), None):
					raise Violation(where, f'{backend} coerce_array does not convert to {"the given" if want != dt else "the context"} dtype')
				if k[0] == 'asarray' and (k[1] == K(X) or k[1][0] == 'asarray' and k[1][1] == K(X)) and k[2] != K(want):
					raise Violation(where, f'{backend} coerce_array converts to {show(k[2])} where {show(K(want))} was requested')
				if k != ('asarray', K(X), K(want)):
					raise Undecided(show(k))
			return 'value preserved, dtype honoured'
		rep.run(f'{backend}.coerce_array', 'conversion keeps the values and yields the requested dtype', coerce, cls)

		def alloc():
			where = owner_loc(I, ctx, 'allocate_array', cls)
			shape = Term(('var', 'shape'))
			r = I.call(I.getattr(ctx, 'allocate_array'), [shape], {})
			k = K(r)
			if not isinstance(r, Term) or k[0] != 'alloc':
				raise Undecided(str(r))
			if k[1] != 0:
				raise Violation(where, f'{backend} allocate_array yields {k[1]} instead of zeros; operators rely on unwritten components being zero')
			if k[2] != K(shape):
				raise Violation(where, f'{backend} allocate_array has shape {show(k[2])}')
			if k[3] != K(I.getattr(ctx, 'dtype')):
				raise Violation(where, f'{backend} allocate_array has dtype {show(k[3])}')
			return show(k)
		rep.run(f'{backend}.allocate_array', 'allocation is zero-filled, of the requested shape and context dtype', alloc, cls)

		def setarr():
			where = owner_loc(I, ctx, 'set_array', cls)
			arr, idx, val = Term(('var', 'arr')), Term(('var', 'idx')), Term(('var', 'val'))
			r = I.call(I.getattr(ctx, 'set_array'), [arr, idx, val], {})
			if I.trace or I.imprecise or not isinstance(r, Term):
				raise Undecided(f'{r} {I.imprecise[:1]}')
			if arr.k != ('var', 'arr'):
				raise Violation(where, f'{backend} set_array modifies the array it is given')
			if r.k != ('set', ('var', 'arr'), ('var', 'idx'), ('var', 'val')):
				raise Violation(where, f'{backend} set_array returns {show(r.k)}')
			return show(r.k)
		rep.run(f'{backend}.set_array', 'functional update: copy with the indexed entries replaced', setarr, cls)

		if 'trigonometry' in {k for c in ctx.cls.mro for k in c.attrs}:
			def trig():
				I.imprecise.clear()
				where = owner_loc(I, ctx, 'trigonometry', cls)
				r = I.call(I.getattr(ctx, 'trigonometry'), [Term(X.k)], {})
				if not isinstance(r, tuple) or len(r) != 2 or I.imprecise:
					raise Undecided(str(r))
				for k, i in zip(r, (0, 1)):
					for t in (0.0, 0.7, 2.0, -0.7, -2.0):
						s = cmath.sqrt(t)
						want = (cmath.cosh(s), cmath.sinh(s) / s if t else 1 + 0j)[i].real
						try:
							got = ev(K(k), dict(x=t))
						except KeyError:
							raise Undecided(show(K(k)))
						if not close(got, want):
							raise Violation(where, f'{backend} trigonometry component {i} at {t} is {got}, expected {want}')
				raise Undecided('agrees on the sampled points (no normal form)')
			rep.run(f'{backend}.trigonometry', 'hyperbolic/circular functions of sqrt(t)', trig, cls)

		math_methods(rep, backend, I, ctx)

		# ---- availability
		def avail():
			import ast as A
			miss = []
			n = 0
			mods = [m for m in I.modules.values() if m.path.endswith('.py') and (m.name == 'numga.multivector.multivector' or m.name.startswith('numga.multivector.extension.')) and not m.name.endswith('optimized')]
			for m in mods:
				for node in A.walk(parse_file(m.path)):
					if isinstance(node, A.Attribute) and isinstance(node.value, (A.Attribute, A.Name)) and (getattr(node.value, 'attr', None) or getattr(node.value, 'id', None)) == 'context':
						n += 1
						try:
							I.getattr(ctx, node.attr)
						except PyRaise:
							miss.append(f'{m.path.split("/repo/")[-1]}:{node.lineno} context.{node.attr}')
			rep.count('context attribute references resolved', n)
			if miss:
				raise Violation(miss[0], f'{backend} context does not provide: {miss}')
			return f'{n} references resolved'
		rep.run(f'{backend} availability', 'every context attribute used by the multivector layer exists', avail, cls)
		rep.absorb(I)
	return rep.finish()
