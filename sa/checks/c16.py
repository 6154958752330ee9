"""C16: which path is taken never depends on component values."""
import os
from ..core import *
from ..own import *
from ..report import Report, Violation, Undecided, loc, unwrap
from . import c13
from .c13 import Own, BACKENDS, LIMIT, at

R_PATH = 'control flow, shapes and types never depend on component values, which stay inside their array library'
R_LEAK = 'no array made during a call is stored where it outlives it'
R_TREE = 'a jax multivector is a pytree with its components as leaf and subspace and context as static data'


def judge(rep, name, mk, call, where, fresh_from=None):
	if fresh_from is not None and 'owns its storage' in name and 'call' not in name and 'at[' not in name:
		return
	def go():
		keep = {}
		n = und = raised = 0
		why = ''
		def make():
			s = mk()
			keep[id(s.I)] = s
			return s.I
		def body(I):
			s = keep[id(I)]
			f, a, k = call(s)
			s.before = {id(x) for _, o in s.inputs for x in reach(o)}
			if type(f) is type(make):
				return f(a, k)
			return I.call(f, a, k)
		for p in explore(make, body, LIMIT):
			rep.absorb(p.I)
			s = keep[id(p.I)]
			n += 1
			for e in p.I.effects:
				if e[0] == 'host':
					raise Violation(at(p.I, e[2]), f'{name}: {e[2].split("numga.", 1)[-1]} {e[1]}')
			for label, o in s.inputs:
				for x in reach(o):
					if x.lib == 'jax' and id(x) not in getattr(s, 'before', {id(x)}):
						raise Violation(where, f'{name} stores an array that may be traced in {label}')
			if p.kind == 'undecided':
				und += 1
				why = p.value
			elif p.kind == 'raise':
				raised += 1
				if p.value.kind in ('NameError', 'UnboundLocalError', 'RecursionError'):
					und += 1
					why = str(p.value)
		if und == n or und and why != 'partition limit':
			raise Undecided(f'{und} of {n} partitions: {why}')
		if raised == n and os.environ.get('SA_DEBUG'):
			print('raises in all partitions:', name, p.value)
		return f'{n} partitions'
	rep.run(name, R_PATH, go, where)


def main():
	OwnWorld.watch = True
	rep = Report('C16', 'Every operation of every backend, every dispatch rule and execution strategy is abstractly interpreted with the components of multivectors as unknown, tracked data. A branch, assertion, loop bound, index or conversion to a host value that depends on a component (on any array, under jax, where constants are staged as well), a function of another array library applied to it, a result whose shape depends on values, a cut of the gradient, and an array stored in a cache or on an object that outlives the call are violations.',
		['the array libraries themselves are traceable', 'conditions of dispatch rules are functions of subspaces (C14)', 'torch is claimed for automatic differentiation, jax for tracing, batching and differentiation'])
	rep.runner = judge
	for b in BACKENDS:
		c13.backend(rep, b)
	factory_attrs(rep)
	c13.rules(rep)
	c13.strategies(rep)
	pytree(rep)
	return rep.finish()


def factory_attrs(rep):
	"""basis blades by name, made under a trace or not"""
	for b in BACKENDS:
		mk = lambda: Own(b)
		base = mk()
		I = base.I
		mf = I.getattr(base.ctx, 'multivector').cls
		for m in ('basis', 'blade', '__getattr__'):
			if mf.lookup(m) is None:
				continue
			def call(s, m=m):
				f = s.I.getattr(s.I.getattr(s.ctx, 'multivector'), m)
				return f, ([] if m == 'basis' else [3] if m == 'blade' else ['xy']), {}
			rep.count('named constructors')
			judge(rep, f'{b} factory.{m} (named)', mk, call, c13.cls_where(I, mf, m))


def pytree(rep):
	base = Own('jax')
	I = base.I
	where = c13.cls_where(I, base.mvcls, 'construct')
	def go():
		reg = []
		s = Own.__new__(Own)
		w = OwnWorld()
		def register(I, a, k):
			reg.append(tuple(a))
			return None
		w.ext['jax.tree_util.register_pytree_node'] = register
		w.ext['inspect.getmro'] = lambda I, a, k: tuple(a[0].mro)
		w.builtins['vars'] = HostFn(lambda I, a, k: dict(a[0].attrs), 'vars')
		I = Interp(w)
		cls = I.get(BACKENDS['jax'][1])
		mine = [r for r in reg if r and r[0] is cls]
		if not mine:
			raise Undecided('the class is not registered through register_pytree_node')
		_, flat, unflat = (list(mine[-1]) + [None] * 3)[:3]
		sub, ctx, values = Stub('S', 'SubSpace'), Any('context'), w.user('values', 'jax')
		o = Obj(cls)
		o.attrs.update(context=ctx, subspace=sub, values=values)
		keep = dict(o.attrs)
		r = I.call(flat, [o], {})
		if isinstance(r, list):
			r = tuple(r)
		if not isinstance(r, tuple) or len(r) != 2:
			raise Undecided(f'flatten gives {r}')
		leaves, aux = r
		leaves = list(I.iterate(leaves))
		def flatten(v):
			return [y for x in v for y in flatten(x)] if isinstance(v, (list, tuple)) else flatten(list(v.values())) if isinstance(v, dict) else [v]
		ls = flatten(leaves)
		if any(x is sub or x is ctx for x in ls):
			raise Violation(where, 'the subspace or context of a multivector is a traced leaf of its pytree')
		if [x for x in ls if x is not None] != [values]:
			raise Violation(where, f'the leaves of a multivector are {ls}, not its components')
		if values in [x for x in flatten([aux]) if isinstance(x, Arr)]:
			raise Violation(where, 'the components of a multivector are static data of its pytree')
		st = flatten([aux])
		for n, v in (('subspace', sub), ('context', ctx)):
			if not any(x is v for x in st):
				raise Violation(where, f'the {n} of a multivector is not part of the static data of its pytree')
		new = w.user('new values', 'jax')
		def sub_in(v):
			return new if v is values else type(v)(sub_in(x) for x in v) if isinstance(v, (list, tuple)) else v
		for i in range(2):
			q = I.call(unflat, [aux, sub_in(leaves)], {})
			if not isinstance(q, Obj) or q.cls is not cls:
				raise Violation(where, f'unflattening gives {q}, not a multivector')
			for n, v in dict(keep, values=new).items():
				if q.attrs.get(n) is not v:
					raise Violation(where, f'{n} of a multivector is lost by flattening and unflattening')
			if set(q.attrs) != set(keep) or q is o or any(o.attrs[n] is not v for n, v in keep.items()):
				raise Violation(where, 'unflattening changes the attributes of a multivector')
		if I.imprecise:
			raise Undecided(str(I.imprecise[:1]))
		return 'flatten, unflatten twice'
	rep.run('jax multivector pytree round trip', R_TREE, go, where)
