"""Operators and multivectors of the tensor world, and comparison of results."""
import itertools
from fractions import Fraction
from .core import *
from .tensor import *
from .report import Undecided, Violation, loc

OPERATOR = 'numga.operator.operator:Operator'
BACKENDS = {
	'numpy': ('numga.backend.numpy.context:NumpyContext', 'numga.backend.numpy.multivector:NumpyMultiVector'),
	'jax': ('numga.backend.jax.context:JaxContext', 'numga.backend.jax.multivector:JaxMultiVector'),
	'torch': ('numga.backend.torch.context:TorchContext', 'numga.backend.torch.multivector:TorchMultiVector'),
	'python': ('numga.backend.python.context:PythonContext', 'numga.backend.python.multivector:PythonMultiVector'),
}


class T:
	"""one fresh analysis"""
	def __init__(self, backend=None):
		self.w = TensorWorld()
		self.w.partial_take = []
		self.I = Interp(self.w)
		self.I.tens = self
		for q in (OPERATOR, 'numga.algebra.algebra:Algebra', 'numga.subspace.subspace:SubSpace', 'numga.algebra.bitops:biterator'):
			self.I.get(q)
		self.I.imprecise.clear()		# module level code does not take part
		self.backend = backend
		if backend:
			C = self.I.get(BACKENDS[backend][0])
			self.mvcls = self.I.get(BACKENDS[backend][1])
			for q in ('numga.multivector.extension',):
				pass
			self.ctx = self.I.call(C, [self.w.alg], {})
			self.I.imprecise.clear()
			if self.I.trace:
				raise Undecided(f'context construction branches on {self.I.trace[0][0]}')
	def S(self, name):
		return self.w.sub(name) if isinstance(name, str) else name
	def op(self, head, axes, batch=(), lib='numpy'):
		"""Operator whose kernel is an opaque array"""
		subs = [self.S(a) for a in axes]
		k = self.w.atom(head, list(batch) + [self.w.length(s.tok) for s in subs], lib)
		o = Obj(self.I.get(OPERATOR))
		o.attrs.update(kernel=k, axes=tuple(subs))
		return o
	def arr(self, head, sizes, lib='numpy'):
		return self.w.atom(head, [('b', s) if isinstance(s, str) else s for s in sizes], lib)
	def mv(self, head, sub, batch=()):
		s = self.S(sub)
		lib = {'numpy': 'numpy', 'jax': 'jax', 'torch': 'torch', 'python': 'numpy'}[self.backend]
		v = self.w.atom(head, [b if b == 1 else ('b', b) for b in batch] + [self.w.length(s.tok)], lib)
		o = Obj(self.mvcls)
		o.attrs.update(context=self.ctx, subspace=s, values=v)
		return o


def explore_T(mk, call, limit=32):
	keep = {}
	def make():
		t = mk()
		keep[id(t.I)] = t
		return t.I
	def run(I):
		return call(keep[id(I)])
	for p in explore(make, run, limit):
		p.t = keep[id(p.I)]
		p.t.w.conds = p.conds
		yield p


def conds(p):
	out = []
	for c, v in p.conds:
		out.append(('' if v else 'not ') + str(c)[:80])
	return f' [{"; ".join(out)}]' if out else ''


OPAQUE = ('fn', 'unknown', 'uninitialised')


def precise(d, w):
	"""all factors of a canonical polynomial are fully modelled"""
	opaque = ['fn', 'unknown', 'acc', 'lit']
	if not all(isinstance(c, tuple) and c[0] in ('dtype', 'anyzero', 'subeq', 'dimeq') for c, _ in w.conds):
		opaque.append('fdiv')		# an unmodelled condition may make the division exact
	fns = [(h, b) for fs, b in d for h, _ in fs if isinstance(h, tuple) and h[0] == 'fn']
	if 'fdiv' not in opaque and len(fns) == 1 and fns[0][0][1] in ('abs', 'cmp'):
		# one occurrence of a non-polynomial function of a linear expression
		args = [a for a in fns[0][0][2:] if isinstance(a, tuple)]
		if all(len(f) == 1 and isinstance(f[0][0], str) for a in args for _, f, _ in a) and any(args):
			opaque.remove('fn')
	for (fs, b) in d:
		for h, idx in fs:
			for x in idx:
				if isinstance(x, tuple) and x and x[0] == 'free':
					return False
			if isinstance(h, tuple) and h[0] in opaque:
				return False
	return True


def decide_path(p, where, what):
	if p.kind == 'undecided':
		raise Undecided(f'{what}{conds(p)}: {p.value}')
	if p.imprecise:
		raise Undecided(f'{what}{conds(p)}: {p.imprecise[:2]}')
	if p.kind == 'raise':
		raise Violation(where, f'{what}{conds(p)} raises {p.value}')


class NoSample(Exception):
	pass


def sample_value(h, idx, env, seed, depth=0):
	"""value of a factor at a sampled point"""
	import hashlib, math
	def num(*key, lo=-3, hi=3):
		return lo + int.from_bytes(hashlib.sha256(repr((seed,) + key).encode()).digest()[:4], 'big') % (hi - lo + 1)
	def at(x, e):
		if isinstance(x, int):
			return x
		if isinstance(x, tuple) and x and x[0] in ('o', 'p', 'b') and x in e:
			return e[x]
		raise NoSample(str(x))
	vals = tuple(at(x, env) for x in idx)
	def tmpl(items):
		e = {('p', k): v for k, v in enumerate(vals)}
		return sample_terms({(f, b): c for c, f, b in items}, e, seed, depth + 1)
	if isinstance(h, str):
		return num(h, vals)
	if h[0] in ('grade',):
		return num(h, vals, lo=0, hi=4)
	if h[0] == 'keeps':
		return num(h, vals, lo=0, hi=1)
	if h[0] == 'fdiv':
		return Fraction(math.floor(tmpl(h[2]) / h[1]))
	if h[0] == 'fn' and depth < 4:
		if h[1] == 'cmp':
			import operator as o
			return int({'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[h[2]](tmpl(h[3]), tmpl(h[4])))
		f = {'abs': abs, 'sign': lambda x: (x > 0) - (x < 0), 'trunc': math.trunc, 'maximum': max, 'minimum': min, '//': lambda x, y: Fraction(math.floor(x / y)) if y else 0, '%': lambda x, y: x - y * math.floor(x / y) if y else 0}.get(h[1])
		if f is None:
			raise NoSample(str(h[1]))
		return Fraction(f(*[tmpl(x) for x in h[2:]]))
	raise NoSample(str(h[0]))


def sample_terms(d, env, seed, depth=0):
	out = Fraction(0)
	for (fs, b), c in d.items():
		if len(b) > 5:
			raise NoSample('indices')
		for vs in itertools.product(*[range(1 if s == 1 else 2) for _, s in b]):
			e = dict(env)
			e.update({('b', k): v for (k, _), v in zip(b, vs)})
			x = c
			for h, idx in fs:
				if not x:
					break
				x = x * sample_value(h, idx, e, seed, depth)
			out += x
	return out


def refuted(w, g, x, rank):
	"""two normal forms that differ at a point: opaque arrays are free integers, so the arrays differ"""
	if w.facts or not all(isinstance(c, tuple) and c[0] == 'dtype' for c, _ in w.conds):
		return False
	try:
		for seed in range(12):
			for pt in ((0, 1, 0, 1, 1), (1, 1, 0, 0, 1)):
				env = {('o', k): pt[k] for k in range(rank)}
				a, b = sample_terms(g, env, seed), sample_terms(x, env, seed)
				if a != b:
					return True
	except (NoSample, IndexError, KeyError, TypeError, AttributeError):
		return False
	return False


def same_tensor(w, got, want, where, what):
	"""want: Ten of the same world"""
	if not isinstance(got, Ten):
		raise Undecided(f'{what}: result {got}')
	if [s for _, s in got.axes] != [s for _, s in want.axes]:
		a, b = ', '.join(show_size(s) for _, s in got.axes), ', '.join(show_size(s) for _, s in want.axes)
		raise Violation(where, f'{what} has shape ({a}), expected ({b})')
	g, x = got.canon(), want.canon()
	if g == x:
		return show_terms(g)
	if not precise(g, w) and not refuted(w, g, x, len(want.axes)):
		raise Undecided(f'{what}: {show_terms(g)} not comparable with {show_terms(x)}')
	raise Violation(where, f'{what} is {show_terms(g)[:400]}, expected {show_terms(x)[:400]}')


def axes_toks(I, op, what):
	ax = op.attrs.get('axes')
	if not isinstance(ax, tuple) or not all(isinstance(s, Sub) for s in ax):
		raise Undecided(f'{what}: axes {ax}')
	return [s.tok for s in ax]


def same_op(p, got, want_toks, want_kernel, where, what):
	if not isinstance(got, Obj) or 'kernel' not in got.attrs:
		raise Undecided(f'{what}: result {got}')
	toks = axes_toks(p.I, got, what)
	if toks != want_toks:
		raise Violation(where, f'{what}{conds(p)} has axes ({", ".join(map(show_tok, toks))}), expected ({", ".join(map(show_tok, want_toks))})')
	return same_tensor(p.t.w, got.attrs['kernel'], want_kernel, where, f'kernel of {what}{conds(p)}')


def embed_output(w, op, out_tok):
	"""kernel with its output axis re-expressed over out_tok"""
	k = op.attrs['kernel']
	o = op.attrs['axes'][-1].tok
	v, s = k.axes[-1]
	if s != ('len', o):
		raise Undecided('kernel and output disagree')
	n = w.V.fresh(('len', out_tok))
	b = w.V.fresh(s)
	body = b_bind(b_mul(w, b_sub(w, k.body, {v: b}), ((ONE, ((('match', o, out_tok), (b, n)),), ()),)), [b])
	return Ten(w, k.axes[:-1] + [(n, ('len', out_tok))], body, k.lib)
