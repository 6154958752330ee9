"""C13: no operation writes to what it was given, and copies own their storage."""
import ast
import os
from ..core import *
from ..own import *
from ..report import Report, Violation, Undecided, loc, unwrap

R_PURE = 'operands, operators, subspaces, contexts and user arrays are not written to'
R_FRESH = 'copies and functional updates own their storage'
BACKENDS = {
	'numpy': ('numga.backend.numpy.context:NumpyContext', 'numga.backend.numpy.multivector:NumpyMultiVector', 'numga.backend.numpy.operator', 'numpy'),
	'jax': ('numga.backend.jax.context:JaxContext', 'numga.backend.jax.multivector:JaxMultiVector', 'numga.backend.jax.operator', 'jax'),
	'torch': ('numga.backend.torch.context:TorchContext', 'numga.backend.torch.multivector:TorchMultiVector', 'numga.backend.torch.operator', 'torch'),
	'python': ('numga.backend.python.context:PythonContext', 'numga.backend.python.multivector:PythonMultiVector', 'numga.backend.python.operator', 'list'),
}
OP = 'numga.operator.operator:Operator'
SUB = 'numga.subspace.subspace:SubSpace'
FAC = 'numga.subspace.factory:SubSpaceFactory'
ALG = 'numga.algebra.algebra:Algebra'
LIMIT = 48


class OpStub(Stub):
	"""concrete operator: applying it gives a multivector with storage of its own (established for every strategy below)"""
	def __init__(self, setup, key):
		Stub.__init__(self, key, 'AbstractConcreteOperator')
		self.setup = setup
	def a_call(self, I, args, kw):
		return self.setup.result(I, ('apply', self.k))
	def a_getattr(self, I, name):
		if name == 'partial':
			return HostFn(lambda I, a, k: OpStub(self.setup, ('partial', self.k)), name)
		if name in ('output', 'subspace'):
			return self.setup.sub((self.k, name))
		return Stub.a_getattr(self, I, name)


class Own:
	"""one fresh analysis, with a real context of a backend"""
	def __init__(self, backend=None, stub_ops=True, extra=()):
		w = self.w = OwnWorld()
		I = self.I = Interp(w)
		self.backend = backend
		self.inputs = []
		self.n = 0
		if backend:
			ctx, mvc, ops, self.lib = BACKENDS[backend]
			C = I.get(ctx)
			self.mvcls = I.get(mvc)
			for m in extra:
				I.load(m)
			self.alg = Stub('algebra', 'Algebra')
			self.ctx = I.call(C, [self.alg], {})
			if stub_ops:
				base = w.__class__
				def ga(I2, o, name, self=self):
					if isinstance(o, Obj) and o.cls.name == 'ConcreteOperatorFactory' and name not in o.attrs:
						return HostFn(lambda I, a, k: OpStub(self, ('op', name) + tuple(struct(x) for x in a)), name)
					return NotImplemented
				w.getattr = ga
				w.intercepts['numga.context.ConcreteOperatorFactory.__call__'] = lambda I, a, k: OpStub(self, ('wrap', struct(a[1])))
			w.intercepts['numga.dynamic_dispatch.DynamicDispatch.__call__'] = self.dispatch
			self.inputs.append(('the context', self.ctx))
		for q in (OP, SUB, FAC, ALG):
			I.get(q)
		I.effects.clear()
		I.imprecise.clear()
		I.trace.clear()
		I.decisions.clear()
		I.known.clear()
	# values
	def sub(self, key='S'):
		return Stub(('sub', key), 'SubSpace', 'FlyweightMixin')
	def mv(self, name):
		o = Obj(self.mvcls)
		o.attrs.update(context=self.ctx, subspace=self.sub(name), values=self.w.user(f'the components of {name}', self.lib))
		self.inputs.append((name, o))
		return o
	def result(self, I, key):
		o = Obj(self.mvcls)
		o.attrs.update(context=self.ctx, subspace=self.sub(key), values=self.w.result(self.lib))
		return o
	alias = {}
	def dispatch(self, I, a, k):
		name = next((n for c in self.mvcls.mro for n, v in c.attrs.items() if v is a[0]), None)
		if name in self.pairs:
			return (self.result(I, (name, 0)), self.result(I, (name, 1)))
		for i in sorted(self.alias.get(name, ())):
			if i + 1 < len(a) and isinstance(a[i + 1], Obj) and I.decide(('returns its argument', name, i)):
				return a[i + 1]
		return self.result(I, (name, len(I.trace)))
	pairs = frozenset()
	def arr(self, label, lib=None):
		return self.w.user(label, lib or self.lib)
	def operator(self, name='op', arity=2, lib='numpy'):
		o = Obj(self.I.get(OP))
		o.attrs.update(kernel=self.w.user(f'the kernel of {name}', lib, data=lib != 'numpy'), axes=tuple(self.sub((name, i)) for i in range(arity + 1)))
		self.inputs.append((name, o))
		return o
	def given(self, name, v):
		self.inputs.append((name, v))
		return v


def run(rep, name, mk, call, where, fresh_from=None, allow=()):
	"""call(setup) -> result; obligation over every partition"""
	if getattr(rep, 'runner', None) is not None:		# the same operations judged by another check
		return rep.runner(rep, name, mk, call, where, fresh_from)
	def go():
		keep = {}
		n = und = 0
		raised = []
		why = ''
		def make():
			s = mk()
			keep[id(s.I)] = s
			return s.I
		def body(I):
			s = keep[id(I)]
			s.prepared = call(s)
			s.snap = snapshot(s.inputs)
			f, a, k = s.prepared
			if type(f) is type(make):
				return f(a, k)
			return f if isinstance(f, Arr) else I.call(f, a, k)
		for p in explore(make, body, LIMIT):
			rep.absorb(p.I)
			s = keep[id(p.I)]
			n += 1
			for label, fn, how in writes(p.I):
				raise Violation(at(p.I, fn), f'{name} modifies {label} ({how} in {fn.split("numga.", 1)[-1]})')
			c = changed(getattr(s, 'snap', []), allow) or changed(s.w.lists)
			if c:
				raise Violation(where, f'{name}: {c}')
			if p.kind == 'undecided':
				und += 1
				why = p.value
				continue
			if p.kind == 'raise':
				if p.value.kind in ('NameError', 'UnboundLocalError', 'RecursionError'):
					und += 1
					why = str(p.value)
				raised.append(str(p.value))
				continue
			if fresh_from is not None:
				owned = set()
				for _, o in s.inputs:
					for v in (o.attrs.values() if isinstance(o, Obj) else [o]):
						if isinstance(v, Arr):
							owned |= v.bufs
				r = p.value
				got = fresh_from(r)
				if isinstance(got, Arr):
					b = shares(got, owned)
					if b is not None:
						raise Violation(where, f'the result of {name} shares storage with {b.label}')
				elif isinstance(got, list):
					if any(got is o or isinstance(o, Obj) and any(got is v for v in o.attrs.values()) for _, o in s.inputs):
						raise Violation(where, f'the result of {name} shares its list with its operand')
				else:
					und += 1
					why = f'result {got}'
		if und == n or und and why != 'partition limit':
			raise Undecided(f'{und} of {n} partitions: {why}')
		if len(raised) == n and os.environ.get('SA_DEBUG'):
			print('raises', len(raised), 'of', n, name, raised[0][:150])
		return f'{n} partitions'
	rep.run(name, R_FRESH if fresh_from is not None else R_PURE, go, where)


def at(I, qual):
	mod, _, rest = qual.rpartition('.')
	for k in range(qual.count('.'), 0, -1):
		parts = qual.split('.')
		m, q = '.'.join(parts[:k]), '.'.join(parts[k:])
		if m in I.modules:
			r = loc(I, f'{m}:{q}')
			return r
	return qual


def values_of(r):
	if isinstance(r, Obj) and 'values' in r.attrs:
		return r.attrs['values']
	if isinstance(r, Obj) and 'operator' in r.attrs:
		o = r.attrs['operator']
		return o.attrs.get('kernel') if isinstance(o, Obj) else o
	if isinstance(r, Obj) and 'kernel' in r.attrs:
		return r.attrs['kernel']
	return r


# ---- which operations, with which arguments -----------------------------------

UNARY = 'dual dual_inverse reverse involute conjugate study_conjugate scalar_negation pseudoscalar_negation squared symmetric_reverse_product symmetric_involute_product symmetric_conjugate_product symmetric_scalar_negation_product symmetric_pseudoscalar_negation_product inverse_factor degenerate nondegenerate inverse_hitzer inverse_la inverse_shirokov __neg__ __pos__ __invert__ __abs__ __len__ __repr__ flatten copy sqrt abs inertia_map project_map sandwich_map'.split()
BINARY = 'product anti_product wedge outer anti_wedge regressive cross inner anti_inner scalar_product bivector_product trivector_product join meet commutator commutator_anti anti_commutator_anti anti_commutator commutator_product commutator_anti_product anti_commutator_anti_product anti_commutator_product left_contract right_contract reverse_product involute_product conjugate_product scalar_negation_product pseudoscalar_negation_product anti_reverse_product sandwich reverse_sandwich full_sandwich transform reverse_transform project __mul__ __rmul__ __xor__ __and__ __or__ __add__ __radd__ __sub__ __rsub__ upcast _divide __truediv__ __rtruediv__ __rshift__ __lshift__'.split()
NUMBER = '__mul__ __rmul__ __add__ __radd__ __sub__ __rsub__ __truediv__ __rtruediv__ upcast __pow__'.split()
SPACE = 'select_subspace restrict_subspace sandwich_map project_map inertia_map'.split()


def method_calls():
	for m in UNARY:
		yield m, '', lambda s, f: (f, [], {})
	for m in BINARY:
		yield m, '(multivector)', lambda s, f: (f, [s.mv('y')], {})
	for m in ('__add__', '__sub__', '__radd__', '__rsub__', '__mul__', '_divide'):
		yield m, '(itself)', lambda s, f: (f, [s.I.getattr(f, '__self__')], {})
	for m in NUMBER:
		yield m, '(number)', lambda s, f: (f, [2], {})
	for m in NUMBER[:-1]:
		yield m, '(array)', lambda s, f: (f, [s.given('array', s.arr('the array operand'))] if s.lib != 'list' else [2.5], {})
	for m in SPACE:
		yield m, '(subspace)', lambda s, f: (f, [s.sub('T')], {})
	for g in (1, -1):
		yield 'combine', f'(sign {g})', lambda s, f, g=g: (f, [s.mv('y'), g], {})
	yield 'nan_to_num', '(number)', lambda s, f: (f, [0.0], {})
	yield 'select_grade', '', lambda s, f: (f, [1], {})
	yield 'restrict_grade', '', lambda s, f: (f, [1], {})
	yield 'copy', '(values)', lambda s, f: (f, [s.arr('the new values')], {})
	yield 'copy', '(subspace)', lambda s, f: (f, [], {'subspace': s.sub('T')})
	yield 'concatenate', '', lambda s, f: (f, [s.mv('y'), 0], {})
	yield 'take_along_axis', '', lambda s, f: (f, [s.arr('the index array'), 0], {})
	for m in ('sum', 'mean'):
		yield m, '', lambda s, f: (f, [0], {})
	yield 'reshape', '', lambda s, f: (f, [(2, 3)], {})
	yield 'rearrange', '', lambda s, f: (f, ['a b -> b a'], {})
	yield 'repeat', '', lambda s, f: (f, ['a -> n a'], {'n': 3})
	for k, t in ((0, 'int'), (slice(0, 2, None), 'slice'), ((0, ...), 'tuple')):
		yield '__getitem__', f'[{t}]', lambda s, f, k=k: (f, [k], {})
	yield '__getitem__', '[array]', lambda s, f: (f, [s.arr('the index array')], {})
	yield '__getitem__', '[mask]', lambda s, f: (f, [s.arr('the mask')], {})


def main():
	rep = Report('C13', 'Every operation of every backend, every dispatch rule, execution strategy, symbolic operator, subspace and algebra function is abstractly interpreted in an ownership domain: arrays carry the buffers they may share (views keep them, other library functions return new ones), inputs and cached results are protected, and every store, in-place method, out= argument, augmented assignment and attribute store is a write event. A write that can reach protected storage is a violation; so is a copy or functional update that can share storage with its source.',
		['library functions not listed as views or in-place return new storage', 'values of user code outside the package are not followed', 'dispatch conditions and branches on unknown values are taken both ways'])
	for b in BACKENDS:
		backend(rep, b)
	rules(rep)
	strategies(rep)
	symbolic(rep)
	return rep.finish()


def cls_where(I, cls, name):
	for c in cls.mro:
		if name in c.attrs:
			return loc(I, f'{c.module.name}:{c.name}.{name}')
	return name


def backend(rep, b):
	mk = lambda: Own(b)
	base = mk()
	I = base.I
	for m, variant, build in method_calls():
		if not any(m in c.attrs for c in base.mvcls.mro):
			continue
		rep.count(f'{b} methods')
		def call(s, m=m, build=build):
			x = s.mv('x')
			return build(s, s.I.getattr(x, m))
		run(rep, f'{b} {m}{variant}', mk, call, cls_where(I, base.mvcls, m))
	# namespaces
	for ns in ('select', 'restrict'):
		for what, f in (('[1]', lambda I, o: I.getitem(o, 1)), ('.xy', lambda I, o: I.getattr(o, 'xy')), ('[subspace]', lambda I, o: I.getitem(o, Stub('T', 'SubSpace', 'FlyweightMixin')))):
			def call(s, ns=ns, f=f):
				x = s.mv('x')
				return (lambda a, k: f(s.I, s.I.getattr(x, ns))), [], {}
			run(rep, f'{b} {ns}{what}', mk, call, cls_where(I, base.mvcls, ns))
	# copies own their storage
	w = cls_where(I, base.mvcls, 'copy')
	run(rep, f'{b} copy owns its storage', mk, lambda s: (s.I.getattr(s.mv('x'), 'copy'), [], {}), w, fresh_from=values_of)
	if b != 'python':
		for t, key in (('int', 0), ('slice', slice(0, 2, None)), ('array', 'arr')):
			for vt in ('array', 'multivector'):
				def call(s, key=key, vt=vt):
					x = s.mv('x')
					k = s.arr('the index array') if key == 'arr' else key
					v = s.mv('v') if vt == 'multivector' else s.arr('the new values')
					s.given('the new values', v)
					def f(a, kw):
						at_ = s.I.getattr(x, 'at')
						return s.I.call(s.I.getattr(s.I.getitem(at_, k), 'set'), [v], {})
					return f, [], {}
				run(rep, f'{b} at[{t}].set({vt}) owns its storage', mk, call, cls_where(I, base.mvcls, 'at'), fresh_from=values_of)
		def call(s):
			return s.I.getattr(s.ctx, 'set_array'), [s.given('arr', s.arr('the array to update')), 0, s.given('values', s.arr('the new values'))], {}
		cw = cls_where(I, base.ctx.cls, 'set_array')
		run(rep, f'{b} context.set_array owns its storage', mk, call, cw, fresh_from=lambda r: r)
	# array primitives of the context
	for c in base.ctx.cls.mro:
		for m, f in c.attrs.items():
			g = unwrap(f)
			if m.startswith('_') or m in ('set_array',) or not isinstance(g, PyFunc) or isinstance(f, Prop) or base.ctx.cls.lookup(m) is not f:
				continue
			n = len(g.node.args.args) - 1
			if any(isinstance(st, ast.Raise) for st in g.node.body) or c.name == 'AbstractContext' and b != 'numpy':
				continue
			rep.count(f'{b} array primitives')
			def call(s, m=m, n=n, g=g):
				names = [a.arg for a in g.node.args.args[1:]]
				req = n - len(g.node.args.defaults)
				args = []
				for i, a in enumerate(names[:req]):		# required
					args.append(0 if a == 'axis' else (2, 3) if a == 'shape' else s.given(a, s.arr(f'argument {a}', 'numpy' if b == 'python' else None)))
				return s.I.getattr(s.ctx, m), args, {}
			run(rep, f'{b} context.{m}', mk, call, cls_where(I, base.ctx.cls, m))
	# factory
	mf = I.getattr(base.ctx, 'multivector').cls
	for m, vt in (('multivector', 'array'), ('__call__', 'array'), ('k_vector', 'array'), ('scalar', 'array'), ('vector', 'array'), ('bivector', 'array'), ('trivector', 'array'), ('pseudoscalar', 'array'), ('antivector', 'array'), ('antibivector', 'array'), ('antitrivector', 'array'), ('even_grade', 'array'), ('rotor', 'array'), ('motor', 'array'), ('basis', ''), ('empty', ''), ('multivector', 'list'), ('__call__', 'list')):
		if mf.lookup(m) is None:
			continue
		def call(s, m=m, vt=vt):
			f = s.I.getattr(s.I.getattr(s.ctx, 'multivector'), m)
			v = s.given('the list of values', [1.0, 2.0]) if vt == 'list' else s.arr('the values given by the user', 'numpy' if b in ('python',) else None) if vt else None
			a = [] if v is None else [1, v] if m == 'k_vector' else [s.sub('T'), v] if m == '__call__' else [v, s.sub('T')] if m == 'multivector' else [v]
			return f, a, {}
		run(rep, f'{b} factory.{m}{"(" + vt + ")" if vt else ""}', mk, call, cls_where(I, mf, m))


EXT_MODULES = ['inverse', 'norms', 'roots', 'logexp', 'decompose', 'optimized']


def dispatch_rules(s):
	"""(dispatch name, index, function) of every registered rule"""
	seen = set()
	for c in s.mvcls.mro:
		for name, d in c.attrs.items():
			if isinstance(d, Obj) and d.cls.lookup('register') is not None and id(d) not in seen:
				seen.add(id(d))
				opts = d.attrs.get('options')
				if not isinstance(opts, list):
					raise Undecided(f'rules of {name}: {opts}')
				for i, o in enumerate(opts):
					yield name, i, o[1], o[0]


def rules(rep):
	"""rules may hand their argument on; find which, then check them all"""
	extra = ['numga.multivector.extension.optimized']
	pairs, alias = set(), {}
	def mk(b):
		def f():
			s = Own(b, extra=extra if b == 'numpy' else ())
			s.pairs, s.alias = pairs, alias
			return s
		return f
	base = mk('numpy')()
	listed = list(dispatch_rules(base))
	for rnd in range(3):
		before = (set(pairs), {k: set(v) for k, v in alias.items()})
		for name, i, fn, cond in listed:
			g = unwrap(fn)
			if not isinstance(g, PyFunc):
				continue
			n = len(g.node.args.args) - len(g.node.args.defaults)
			keep = {}
			def make():
				s = mk('numpy')()
				keep[id(s.I)] = s
				return s.I
			def body(I, name=name, i=i, n=n):
				s = keep[id(I)]
				f = [x for x in dispatch_rules(s) if x[0] == name][i][2]
				s.args = [s.mv(f'argument {j + 1}') for j in range(n)]
				return I.call(f, s.args, {})
			for p in explore(make, body, 12):
				if p.kind != 'value':
					continue
				if isinstance(p.value, (tuple, list)) and len(p.value) == 2:
					pairs.add(name)
				s = keep[id(p.I)]
				for r in (p.value if isinstance(p.value, (tuple, list)) else [p.value]):
					for j, x in enumerate(s.args):
						v = values_of(r)
						if r is x or isinstance(v, Arr) and isinstance(x.attrs['values'], Arr) and v.bufs & x.attrs['values'].bufs:
							alias.setdefault(name, set()).add(j)
		if before == (pairs, alias):
			break
	for b in BACKENDS:
		s0 = mk(b)()
		for name, i, fn, cond in list(dispatch_rules(s0)):
			g = unwrap(fn)
			if not isinstance(g, PyFunc):
				continue
			n = len(g.node.args.args) - len(g.node.args.defaults)
			where = f'{os.path.relpath(g.module.path, s0.I.repo)}:{g.node.lineno} ({g.name})'
			rep.count('dispatch rules')
			def call(s, name=name, i=i, n=n):
				f = [x for x in dispatch_rules(s) if x[0] == name][i][2]
				return f, [s.mv(f'argument {j + 1}') for j in range(n)], {}
			run(rep, f'{b} {name}[{i}] {g.name}', mk(b), call, where)
	rep.samples.append(f'rules that may return an argument: {sorted(alias)}')


def partial_types(mk, opmod, classes, lib):
	"""the strategies that hold numerical kernels: those that partial application, sums and inverses produce"""
	out = set()
	for cname, _ in classes:
		for meth in ('partial', 'sum', 'inverse'):
			def make():
				s = mk()
				s.I.setup = s
				return s.I
			def body(I):
				s = I.setup
				o = I.call(s.I.load(opmod).env.vars[cname], [s.ctx, s.operator('operator', 2 if meth == 'partial' else 1, lib)], {})
				return I.call(I.getattr(o, meth), [{0: s.mv('x')}] if meth == 'partial' else [0] if meth == 'sum' else [], {})
			for p in explore(make, body, 8):
				if p.kind == 'value' and isinstance(p.value, Obj):
					out.add(p.value.cls.name)
	return out


def strategies(rep):
	for b, (ctx, mvc, opmod, lib) in BACKENDS.items():
		mk = lambda: Own(b, stub_ops=False)
		base = mk()
		I = base.I
		m = I.load(opmod)
		top = I.get('numga.operator.abstract:AbstractConcreteOperator')
		classes = [(n, C) for n, C in sorted(m.env.vars.items()) if isinstance(C, PyClass) and top in C.mro and C.module is m]
		partials = partial_types(mk, opmod, classes, lib) if b not in ('numpy', 'python') else set()
		for cname, C in classes:
			def new(s, arity, cname=cname, kernel=None):
				C = s.I.load(opmod).env.vars[cname]
				op = s.operator('operator', arity, kernel or ('numpy' if b == 'python' else lib))
				o = s.I.call(C, [s.ctx, op], {})
				s.inputs.append(('the concrete operator', o))
				return o
			def mvs(s, k):
				return [s.mv(f'input {i + 1}') for i in range(k)]
			rep.count('strategy classes')
			if cname not in ('NumpyOperator', 'JaxOperator', 'TorchOperator'):
				for arity in (1, 2, 3):
					for kernel in ('numpy',) if b in ('numpy', 'python') or getattr(rep, 'runner', None) and cname not in partials else ('numpy', lib):
						def call(s, arity=arity, kernel=kernel):
							return s.I.getattr(new(s, arity, kernel=kernel), '__call__'), mvs(s, arity), {}
						w = cls_where(I, C, '__call__')
						if cname != 'PythonCodegenOperator':
							run(rep, f'{b} {cname} with {kernel} kernel call({arity}) result owns its storage', mk, call, w, fresh_from=values_of)
						else:
							run(rep, f'{b} {cname} call({arity})', mk, call, w)
			if b == 'python':
				continue
			for arity, keys in ((1, (0,)), (2, (0,)), (2, (1,)), (2, (0, 1)), (3, (0, 2))):
				def call(s, arity=arity, keys=keys):
					d = {k: s.mv(f'input {k}') for k in keys}
					s.given('the dictionary of inputs', d)
					return s.I.getattr(new(s, arity), 'partial'), [d], {}
				run(rep, f'{b} {cname}.partial({list(keys)} of {arity})', mk, call, cls_where(I, C, 'partial'))
			def at_set(s):
				o = new(s, 1)
				v = s.given('values', s.arr('the new values'))
				return (lambda a, k: s.I.call(s.I.getattr(s.I.getitem(s.I.getattr(o, 'at'), 0), 'set'), [v], {})), [], {}
			run(rep, f'{b} {cname}.at[].set owns its storage', mk, at_set, cls_where(I, C, 'at'), fresh_from=values_of)
			for meth, build in (('__getitem__', lambda s: [0]), ('sum', lambda s: [0]), ('concatenate', lambda s: [new(s, 1), 0]), ('inverse', lambda s: []), ('transpose', lambda s: [])):
				if not any(meth in c.attrs for c in C.mro):
					continue
				def call(s, meth=meth, build=build):
					return s.I.getattr(new(s, 1), meth), build(s), {}
				run(rep, f'{b} {cname}.{meth}', mk, call, cls_where(I, C, meth))
			for prop in ('precompute_sparse', 'broadcasting_shapes', 'intensity', 'sparsity'):
				def call(s, prop=prop):
					o = new(s, 2, kernel='numpy')
					return (lambda a, k: s.I.getattr(o, prop)), [], {}
				run(rep, f'{b} {cname}.{prop}', mk, call, cls_where(I, C, prop))


def symbolic(rep):
	mk = lambda: Own()
	base = mk()
	I = base.I
	O = I.get(OP)
	D = lambda s: {0: s.operator('q', 1), 1: s.operator('r', 2)}
	ops = [('copy', 2, lambda s: [s.arr('the new kernel', 'numpy')]), ('swapaxes', 2, lambda s: [0, 1]), ('add', 2, lambda s: [s.operator('other')]), ('add_broadcast', 2, lambda s: [s.operator('other')]),
		('mul', 2, lambda s: [3]), ('div', 2, lambda s: [2]), ('__add__', 2, lambda s: [s.operator('other')]), ('__sub__', 2, lambda s: [s.operator('other')]), ('__neg__', 2, lambda s: []), ('__pos__', 2, lambda s: []),
		('__mul__', 2, lambda s: [2]), ('__rmul__', 2, lambda s: [2]), ('symmetry', 2, lambda s: [(0, 1)]), ('symmetry', 3, lambda s: [[0, 2]]), ('fuse', 2, lambda s: [s.operator('other'), 0]), ('fuse', 1, lambda s: [s.operator('other', 3), 1]),
		('bind', 2, lambda s: [s.operator('q', 1), s.operator('r', 2)]), ('bind', 2, lambda s: [s.given('the dictionary of operators', D(s))]), ('__getitem__', 2, lambda s: [(s.sub('a'), s.sub('b'))]), ('deslice', 2, lambda s: [tuple(s.sub(i) for i in 'abc')]),
		('deslice', 1, lambda s: [s.given('the list of axes', [s.sub(i) for i in 'ab'])]), ('slice', 2, lambda s: [(s.sub('a'), s.sub('b'))]), ('select_subspace', 2, lambda s: [s.sub('a')]), ('select_grade', 2, lambda s: [1]), ('squeeze', 2, lambda s: []),
		('grade_selection', 2, lambda s: [HostFn(lambda I, a, k: s.w.fresh('numpy', 'mask'), 'formula')]), ('sum', 2, lambda s: [0]), ('unary_operator_str', 1, lambda s: []), ('binary_operator_str', 2, lambda s: []), ('__str__', 1, lambda s: []), ('tokenize', 2, lambda s: []), ('arity', 2, None), ('output', 2, None), ('inputs', 2, None), ('precompute_einsum_prod', 2, None)]
	def mkop():
		s = Own()
		# views of the same kernel may be handed on; nothing may write to it
		return s
	for m, arity, build in ops:
		if not any(m in c.attrs for c in O.mro):
			continue
		def call(s, m=m, arity=arity, build=build):
			o = s.operator('the operator', arity)
			if build is None:
				return (lambda a, k: s.I.getattr(o, m)), [], {}
			return s.I.getattr(o, m), build(s), {}
		rep.count('symbolic operator methods')
		run(rep, f'Operator.{m} of arity {arity}', mkop, call, cls_where(I, O, m))
	def build_(s):
		return s.I.getattr(s.I.get(OP), 'build'), [s.arr('the kernel given', 'numpy'), s.given('the list of operands', [s.sub('a'), s.operator('q', 1), s.sub('c')])], {}
	run(rep, 'Operator.build', mkop, build_, cls_where(I, O, 'build'))
	def init_(s):
		return (lambda a, k: s.I.call(s.I.get(OP), a, k)), [s.arr('the kernel given', 'numpy'), s.given('the list of axes', [s.sub('a'), s.sub('b')])], {}
	run(rep, 'Operator(kernel, axes)', mkop, init_, cls_where(I, O, '__init__'))
	# sparse tensors
	ST = 'numga.operator.sparse_tensor:SparseTensor'
	T = I.get(ST)
	def tensor(s, name='the tensor'):
		o = Obj(s.I.get(ST))
		o.attrs.update(axes=tuple(s.arr(f'axis {i} of {name}', 'numpy') for i in range(3)), data=s.arr(f'the data of {name}', 'numpy'), shape=(4, 4, 4))
		s.inputs.append((name, o))
		return o
	subs = lambda s: tuple(s.sub(i) for i in 'abc')
	for m, build in (('to_dense', lambda s: [subs(s)]), ('to_dense_', lambda s: []), ('drop_zero', lambda s: []), ('take', lambda s: [s.arr('the indices', 'numpy'), 0]), ('transpose', lambda s: [(0, 2, 1)]), ('__add__', lambda s: [tensor(s, 'the other tensor')]), ('__mul__', lambda s: [2]), ('product', lambda s: [tensor(s, 'the other tensor')]), ('contract', lambda s: [(0, 1)])):
		if not any(m in c.attrs for c in T.mro):
			continue
		def call(s, m=m, build=build):
			o = tensor(s)
			return s.I.getattr(o, m), build(s), {}
		run(rep, f'SparseTensor.{m}', mk, call, cls_where(I, T, m))
	# subspaces
	S = I.get(SUB)
	def space(s, name='the subspace'):
		o = Obj(s.I.get(SUB))
		o.attrs.update(algebra=Stub('algebra', 'Algebra'), blades=s.arr(f'the blades of {name}', 'numpy'))
		for ns, c in (('inside', 'InNamespace'), ('equals', 'IsNamespace'), ('select', 'SelectNamespace'), ('restrict', 'RestrictNamespace')):
			o.attrs[ns] = Any((name, ns))
		s.inputs.append((name, o))
		return o
	def sub_args(s, g):
		out = []
		names = [a.arg for a in g.node.args.args[1:]]
		for a in names[:len(names) - len(g.node.args.defaults)]:
			if a in ('other', 'subspace', 'v', 'o', 'b', 'full', 'sub'):
				out.append(space(s, f'argument {a}'))
			elif a in ('blades', 'indices', 'idx', 'elements'):
				out.append(s.given(a, s.arr(f'argument {a}', 'numpy')))
			elif a in ('n', 'k', 'i', 'grade'):
				out.append(1)
			else:
				out.append(Any(('argument', a)))
		return out
	def methods(C):
		for c in C.mro:
			for m, f in c.attrs.items():
				g = unwrap(f)
				if isinstance(g, PyFunc) and (not m.startswith('_') or m in ('__len__', '__contains__', '__getitem__', '__eq__', '__getattr__', '__index__', '__repr__', '__iter__')) and C.lookup(m) is f:
					yield m, f, g
	known_sub = set('grades grade is_blade bit_blades bit_str named_str pretty_str complement dual degenerate nondegenerate scalar_degenerate product wedge inner reject squared cubed symmetric_reverse symmetric_involute symmetric_conjugate union intersection difference is_subspace slice_subspace to_relative_indices is_reverse_simple is_study is_degenerate __contains__ __len__ __repr__'.split())
	for m, f, g in methods(S):
		def call(s, m=m, g=g, f=f):
			o = space(s)
			if isinstance(f, Prop):
				return (lambda a, k: s.I.getattr(o, m)), [], {}
			return s.I.getattr(o, m), sub_args(s, g), {}
		rep.count('subspace methods')
		run(rep, f'SubSpace.{m}', mk, call, cls_where(I, S, m))
	def new_space(s):
		return (lambda a, k: s.I.call(s.I.get(SUB), a, k)), [Stub('algebra', 'Algebra'), s.given('blades', s.arr('the array of blades given', 'numpy'))], {}
	run(rep, 'SubSpace(algebra, blades) owns its storage', mk, new_space, cls_where(I, S, '__init__'), fresh_from=lambda r: r.attrs.get('blades') if isinstance(r, Obj) else r)
	# subspace factory
	F = I.get(FAC)
	orders = order_names(F)
	for m in ('order_blades', 'from_blades', 'from_grades', 'from_bit_str', 'k_vector', 'blade', 'basis', 'blades_by_grade', 'even_grade', 'odd_grade', 'full', 'empty', 'degenerate', 'nondegenerate', 'nonscalar', 'reflection', 'bireflection', 'trireflection', 'quadreflection', 'self_reverse', 'multivector', 'study', 'scalar_pseudoscalar', 'pseudoscalar', 'vector', 'translator', '__getattr__'):
		if not any(m in c.attrs for c in F.mro):
			continue
		for order in (orders if m in ('order_blades', 'from_blades') else ['fancy']):
			for vt in (('array', 'list') if m in ('order_blades', 'from_blades', 'from_grades') else ('',)):
				def call(s, m=m, vt=vt, order=order):
					f = Obj(s.I.get(FAC))
					f.attrs.update(algebra=Stub('algebra', 'Algebra'), order=order, grades=s.arr('the grades of the factory', 'numpy'), flyweight_pool={})
					s.inputs.append(('the factory', f))
					if isinstance(s.I.get(FAC).lookup(m), Prop):
						return (lambda a, k: s.I.getattr(f, m)), [], {}
					a = [s.given('blades', s.arr('the array given by the caller', 'numpy') if vt == 'array' else [3, 1, 2])] if vt else ['1,01'] if m == 'from_bit_str' else [2] if m in ('k_vector', 'blade') else ['xy'] if m == '__getattr__' else []
					return s.I.getattr(f, m), a, {}
				rep.count('subspace factory methods')
				run(rep, f'SubSpaceFactory.{m}{"(" + vt + ")" if vt else ""}{" order " + order if order != "fancy" else ""}', mk, call, cls_where(I, F, m), allow=('flyweight_pool',))
	# algebra and bit tricks
	A = I.get(ALG)
	for m in ('negatives', 'positives', 'zeros', 'pseudo_scalar_squared', 'complement', 'bit_dot', 'grade', 'cayley', 'involute', 'reverse', 'product', '__len__'):
		if not any(m in c.attrs for c in A.mro):
			continue
		def call(s, m=m):
			f = A2 = s.I.get(ALG).lookup(m)
			o = Obj(s.I.get(ALG))
			d = Stub('description', 'AlgebraDescription')
			o.attrs.update(description=d, blade_nbytes=1, blade_dtype=Any('dtype'))
			s.inputs.append(('the algebra', o))
			for n in ('negatives', 'positives', 'zeros'):
				if n != m:
					o.attrs[n] = s.arr(f'{n} of the algebra', 'numpy')
			o.attrs['n_dimensions'] = 3
			if isinstance(f, Prop):
				return (lambda a, k: s.I.getattr(o, m)), [], {}
			n = len(unwrap(f).node.args.args) - 1
			return s.I.getattr(o, m), [s.given(f'argument {i + 1}', s.arr(f'argument {i + 1}', 'numpy')) for i in range(n)], {}
		rep.count('algebra functions')
		run(rep, f'Algebra.{m}', mk, call, cls_where(I, A, m))
	B = I.load('numga.algebra.bitops')
	for m, rest in (('parity_to_sign', []), ('bit_count', []), ('biterator', [3]), ('biterator', [3, 1]), ('bit_pack', None)):
		if m not in B.env.vars:
			continue
		def call(s, m=m, rest=rest):
			f = s.I.load('numga.algebra.bitops').env.vars[m]
			if rest is None:
				return f, [s.given('bits', [1, 0, 1])], {}
			return f, [s.given('elements', s.arr('the array of blades', 'numpy'))] + rest, {}
		run(rep, f'bitops.{m}{rest or ""}', mk, call, loc(I, f'numga.algebra.bitops:{m}'))
	# the order of the arguments given to the operator factory, and the kernels it caches
	factory(rep)


def order_names(F):
	"""the blade orders the factory knows by name"""
	out = ['fancy']
	for c in F.mro:
		for f in c.attrs.values():
			g = unwrap(f)
			if isinstance(g, PyFunc):
				for n in ast.walk(g.node):
					if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) and n.left.attr == 'order':
						for x in n.comparators:
							if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value not in out:
								out.append(x.value)
	return out


FQ = 'numga.operator.factory:OperatorFactory'


class OpAny(Stub):
	"""a symbolic operator whose kernel is shared with the cache that made it"""
	def __init__(self, key):
		Stub.__init__(self, key, 'Operator')
	def a_getattr(self, I, name):
		if name == 'kernel':
			return I.world.owned((self.k, 'kernel'), 'the kernel of a cached operator')
		if name in ('subspace', 'output'):
			return Stub((self.k, name), 'SubSpace', 'FlyweightMixin')
		if name == 'axes':
			return Any((self.k, 'axes'))
		return HostFn(lambda I, a, k: OpAny((self.k, name) + tuple(struct(x) for x in a)), name)
	def a_binop(self, I, op, other, refl):
		return OpAny((op, self.k, struct(other)))
	def a_unop(self, I, op):
		return OpAny((op, self.k))
	def a_getitem(self, I, key):
		return OpAny((self.k, 'item', struct(key)))


def factory(rep):
	s0 = Own()
	I = s0.I
	F = I.get(FQ)
	def mk():
		s = Own()
		return s
	for c in F.mro:
		for m, f in c.attrs.items():
			g = unwrap(f)
			if m.startswith('_') or not isinstance(g, PyFunc) or F.lookup(m) is not f:
				continue
			a = g.node.args
			names = [x.arg for x in a.posonlyargs + a.args][1:]
			nd = len(names) - len(a.defaults)
			req = [n for i, n in enumerate(names) if i < nd or isinstance(a.defaults[i - nd], ast.Constant) and a.defaults[i - nd].value is None]
			def call(s, m=m, req=req, va=a.vararg):
				o = Obj(s.I.get(FQ))
				o.attrs.update(algebra=Stub('algebra', 'Algebra'))
				s.inputs.append(('the operator factory', o))
				args = []
				for n in req:
					if n in ('k', 'n', 'grade', 'K'):
						args.append(1)
					elif n in ('inputs', 'ops', 'operators', 'subspaces'):
						args.append(s.given(n, [s.sub('a'), s.sub('b')]) if m != 'x' else None)
					elif n in ('kernel', 'sign', 'signs', 'cayley', 'formula'):
						args.append(s.given(n, s.arr(f'argument {n}', 'numpy')) if n != 'formula' else HostFn(lambda I, a, k: s.w.fresh('numpy'), 'formula'))
					else:
						args.append(s.sub(n))
				return s.I.getattr(o, m), args, {}
			rep.count('operator constructors')
			run(rep, f'OperatorFactory.{m}', mk, call, cls_where(I, F, m))
