"""C10: every execution strategy of every backend evaluates the same multilinear map."""
import os
from ..core import *
from ..tensor import *
from ..tensetup import *
from ..report import Report, Violation, Undecided, loc

STRATEGIES = {
	'numpy': ['NumpyEinsumOperator', 'NumpySparseOperator'],
	'jax': ['JaxDenseOperator', 'JaxEinsumOperator', 'JaxSparseOperator'],
	'torch': ['TorchDenseOperator', 'TorchEinsumOperator', 'TorchSparseOperator'],
	'python': ['PythonSparseOperator'],
}
RULE = 'applying an operator is the kernel-weighted sum of products of components'
NAMES = 'ABCD'
BATCH = {
	1: [((),), (('n',),), (('m', 'n'),), ((1,),), ((1, 'n'),)],
	2: [((), ()), (('n',), ('n',)), (('n',), ()), ((), ('n',)), (('n',), (1,)), ((1,), ('n',)), (('m', 'n'), ('n',)), (('n',), ('m', 'n')), (('m', 1), ('n',)), (('m', 1), (1, 'n')), (('m', 'n'), ('m', 'n'))],
	3: [((), (), ()), (('n',), ('n',), ('n',)), (('n',), (), ()), ((), ('n',), ()), ((), (), ('n',)), (('m', 1), (1, 'n'), ('n',)), ((), ('m', 1), ('n',))],
	4: [((), (), (), ()), ((), ('n',), (), ('m', 1))],
}
KERNEL_BATCH = [('n',), ('m', 'n'), (1, 'n')]


def sz(b):
	return [1 if x == 1 else ('b', x) for x in b]


def contraction(t, kbatch, batches, toks, order=None, head='K'):
	"""sum over inputs of kernel times components, over broadcast batch axes"""
	w = t.w
	n = len(toks) - 1
	full = []
	for b in [kbatch] + list(batches):
		full.append(sz(b))
	r = max(len(b) for b in full)
	shape = [1] * r
	for b in full:
		for k, s in enumerate(b):
			j = r - len(b) + k
			if s != 1:
				if shape[j] not in (1, s):
					raise Unsupported('bad batch')
				shape[j] = s
	axes = [(w.V.fresh(s), s) for s in shape]
	def bidx(b):
		return tuple(axes[r - len(b) + k][0] for k, s in enumerate(b) if s != 1)
	ins = [w.V.fresh(w.length(x)) for x in toks[:-1]]
	o = w.V.fresh(w.length(toks[-1]))
	fs = [(head, bidx(full[0]) + tuple(ins) + (o,))]
	for k, (b, x) in enumerate(zip(full[1:], toks[:-1])):
		fs.append((f'x{k}', bidx(b) + (ins[k],)))
	return Ten(w, axes + [(o, w.length(toks[-1]))], ((ONE, tuple(fs), tuple(ins)),), None)


def operator(t, backend, cls, axes, kbatch=(), head='K'):
	lib = {'numpy': 'numpy', 'jax': 'jax', 'torch': 'torch', 'python': 'numpy'}[backend] if kbatch else 'numpy'
	abstract = t.op(head, axes, sz(kbatch), lib)
	return t.I.call(t.I.get(f'numga.backend.{backend}.operator:{cls}'), [t.ctx, abstract], {})


def inputs(t, axes, batches):
	return [t.mv(f'x{k}', a, b) for k, (a, b) in enumerate(zip(axes, batches))]


def check_mv(p, r, want, tok, where, what):
	if not isinstance(r, Obj) or 'values' not in r.attrs:
		raise Undecided(f'{what}: result {r}')
	s = r.attrs.get('subspace')
	if not isinstance(s, Sub):
		raise Undecided(f'{what}: subspace {s}')
	if s.tok != tok:
		raise Violation(where, f'{what}{conds(p)} lies in {show_tok(s.tok)}, expected {show_tok(tok)}')
	v = r.attrs['values']
	if isinstance(v, list) and not isinstance(v, Ten):
		raise Undecided(f'{what}: values {v}')
	return same_tensor(p.t.w, v, want, where, f'value of {what}{conds(p)}')


def op_where(I, q, method):
	"""location of a method, wherever the class inherits it from"""
	m = I.get(q).lookup(method)
	f = getattr(m, 'fn', m)
	node, mod = getattr(f, 'node', None), getattr(f, 'module', None)
	if node is None or mod is None:
		return loc(I, q)
	return f'{os.path.relpath(mod.path, I.repo)}:{node.lineno} ({q.partition(":")[2]}.{method})'


def main():
	rep = Report('C10', 'The call of every execution strategy of every backend is interpreted over index-generic arrays: kernels and inputs are opaque arrays with symbolic axis lengths, loops over kernel entries are interpreted once for a generic entry, including the drop of zero entries and of unwritten rows. '
		'The result must have the normal form of the kernel-weighted sum of products, for every arity up to 4 and the listed batch patterns (equal, missing, size one, and different ranks).',
		['array library functions do what their documentation states (transfer functions in sa/tensor.py)', 'size-one batch axes broadcast as documented by the array library'])
	for backend, classes in STRATEGIES.items():
		mk = lambda backend=backend: T(backend)
		base = mk()
		for cls in classes:
			q = f'numga.backend.{backend}.operator:{cls}'
			base.I.get(q)
			where = loc(base.I, f'{q}.__call__')
			def ob(name, n, batches, kbatch=(), same=False, cls=cls, backend=backend, where=where, mk=mk):
				axes = (['A'] * n if same else list(NAMES[:n])) + ['Z']
				def call(t):
					return t.I.call(operator(t, backend, cls, axes, kbatch), inputs(t, axes[:-1], batches), {})
				def go():
					out = ''
					for p in explore_T(mk, call):
						rep.absorb(p.I)
						decide_path(p, where, name)
						toks = [('in', a) for a in axes]
						out = check_mv(p, p.value, contraction(p.t, kbatch, batches, toks), toks[-1], where, name)
					return out
				rep.run(name, RULE, go, where)
			for n in (1, 2, 3, 4):
				for b in BATCH[n] if backend != 'python' else [((),) * n]:
					ob(f'{cls} arity {n} batches {b}', n, b)
				ob(f'{cls} arity {n} equal subspaces', n, ((),) * n, (), True)
			if 'Einsum' in cls:
				for n in (1, 2, 3):
					for kb in KERNEL_BATCH:
						for b in [((),) * n, (('n',),) * n, (('m', 1),) + ((),) * (n - 1)]:
							ob(f'{cls} arity {n} kernel batch {kb} batches {b}', n, b, kb)
	return rep.finish()
