"""Multivectors of the word world: real contexts and multivector classes over symbolic component arrays."""
from .core import *
from .words import *
from .report import Undecided, Violation, loc, unwrap

BACKENDS = {
	'numpy': ('numga.backend.numpy.context:NumpyContext', 'numga.backend.numpy.multivector:NumpyMultiVector'),
	'jax': ('numga.backend.jax.context:JaxContext', 'numga.backend.jax.multivector:JaxMultiVector'),
	'torch': ('numga.backend.torch.context:TorchContext', 'numga.backend.torch.multivector:TorchMultiVector'),
	'python': ('numga.backend.python.context:PythonContext', 'numga.backend.python.multivector:PythonMultiVector'),
}


class Setup:
	def __init__(self, backend, dispatch=True, attrs=None):
		self.backend = backend
		w = self.w = WordWorld()
		I = self.I = Interp(w)
		w.attach(I)
		ctxc, mvc = BACKENDS[backend]
		C = I.get(ctxc)
		self.mvcls = w.mvtype = I.get(mvc)
		w.intercepts['numga.multivector.multivector.AbstractMultiVector.__repr__'] = lambda I2, a, k: '<mv>'
		if dispatch:
			w.intercepts['numga.dynamic_dispatch.DynamicDispatch.__call__'] = self.dispatch
		self.ctx = I.call(C, [w.alg], {})
		self.ctx.attrs['otype'] = OTypeV(w)
		self.names = {}
		I.imprecise.clear()
		I.effects.clear()
		if I.trace:
			raise Undecided(f'context construction branches on {I.trace[0][0]}')

	def dispatch_names(self):
		"""id of dispatch object -> name under which it is an attribute of the multivector class"""
		out = {}
		for c in self.mvcls.mro:
			for k, v in c.attrs.items():
				if isinstance(v, Obj):
					out.setdefault(id(v), k)
		return out

	def dispatch(self, I, a, k):
		name = self.dispatch_names().get(id(a[0]))
		args = a[1:]
		ex = [x.attrs['values'].expr for x in args if isinstance(x, Obj) and 'values' in x.attrs]
		if name is None or len(ex) != len(args):
			return Top('dispatch')
		if name == 'inverse':
			e = inverse(ex[0], all(self.w.known_scalar(I, x.attrs['subspace'].tok) for x in args))
			tok = SCALAR if self.w.known_scalar(I, args[0].attrs['subspace'].tok) else ('dispatch', name, tokkey(e))
			return self.mv_of(e, tok)
		e = factor(('d', name, tuple(nkey(x) for x in ex), False))
		return self.mv_of(e, ('dispatch', name, tokkey(e)))

	def mv_of(self, e, tok):
		o = Obj(self.mvcls)
		o.attrs.update(context=self.ctx, subspace=SubV(self.w, tok), values=Vals(self.w, e, tok))
		return o

	def mv(self, name, sub=None):
		tok = sub if isinstance(sub, tuple) else ('in', sub or 'S' + name)
		return self.mv_of(atom(name, tok), tok)

	def array(self, name):
		"""batch array of plain numbers"""
		return Vals(self.w, atom(name, SCALAR), None)


def unmv(r):
	if isinstance(r, Top) or not isinstance(r, Obj) or 'values' not in r.attrs:
		raise Undecided(f'result {r}')
	v, s = r.attrs['values'], r.attrs['subspace']
	if not isinstance(v, Vals) or not isinstance(s, SubV):
		raise Undecided(f'result {v} in {s}')
	return v, s


def run_paths(mk, call, limit=64):
	"""explore partitions; mk() -> Setup ; call(setup) -> value"""
	keep = {}
	def make():
		s = mk()
		keep[id(s.I)] = s
		return s.I
	def run(I):
		return call(keep[id(I)])
	for p in explore(make, run, limit):
		p.setup = keep[id(p.I)]
		yield p


def showconds(path):
	return ''.join(f' [{"" if v else "not "}{showcond(c) if isinstance(c, tuple) and len(c) > 1 and c[0] in ("eq", "inside", "nsimple", "eqlen") else c}]' for c, v in path.conds)
