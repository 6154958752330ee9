"""C15: caches return what a fresh computation would."""
import ast
import itertools
import os
from ..core import *
from ..report import Report, Violation, Undecided, loc, unwrap
from .. import memo
from ..sets import EmptyV
from .c03 import KTok, KeyWorld, key_obligation, identity_obligation
from .c14 import DWorld, SubTok, HISTORIES, history

CF = 'numga.context:ConcreteOperatorFactory'
R_HIST = 'a request is answered as if it were the first one'
R_KEY = 'a hand-written cache key determines everything the cached value depends on'
R_STATE = 'memoised functions depend on immutable data only'
R_ID = 'objects used as cache keys are equal only if interchangeable'


# ---- A. concrete operators --------------------------------------------------

class Sub1(SubTok):
	"""a subspace of one algebra: its blades identify it"""
	def a_getattr(self, I, name):
		if name == 'blades':
			return Fld(('blades', self.name))
		if name == 'subspace':
			return self
		return KTok(('attr', name))
	def a_str(self, I):
		return I.top('spelling of a subspace')


class OTok(AV):
	"""a concrete operator class; its names collide with those of another one"""
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return self.name
	def a_call(self, I, args, kw):
		a = list(args) + [kw[k] for k in ('context', 'operator') if k in kw]
		if len(a) != 2:
			raise PyRaise('TypeError', 'wrong number of arguments')
		return Conc(self, a[0], a[1])
	def a_getattr(self, I, name):
		if name in ('__name__', '__qualname__', '__module__', '__doc__'):
			return 'Operator'
		if name == '__class__':
			return KTok(('type',))
		return I.top(f'operator class .{name}')
	def a_str(self, I):
		return "<class 'Operator'>"
	def a_hash(self, I):
		return KTok(('hash', 'otype'))
	def a_cmp(self, I, op, other, refl):
		if op in ('==', 'is'):
			return self is other
		if op in ('!=', 'is not'):
			return self is not other
		return I.top('order')
	def a_type(self, I):
		return KTok(('type', 'OTok'))
	def a_bool(self, I):
		return True


class AbsOp(AV):
	def __init__(self, alg, name, args):
		self.alg, self.name, self.args = alg, name, args
	def __repr__(self):
		return f'{self.alg}.operator.{self.name}{self.args}'
	def data(self):
		return self.alg, self.name, self.args
	def a_getattr(self, I, name):
		return KTok(('opattr', name))
	def a_cmp(self, I, op, other, refl):
		if op in ('is', '=='):
			return self is other
		if op in ('is not', '!='):
			return self is not other
		return I.top('order')
	def a_str(self, I):
		return KTok(('opstr',))
	def a_bool(self, I):
		return True


class Conc(AV):
	def __init__(self, otype, ctx, op):
		self.otype, self.ctx, self.op = otype, ctx, op
	def __repr__(self):
		return f'{self.otype}({self.ctx}, {self.op})'
	def a_getattr(self, I, name):
		if name == 'context':
			return self.ctx
		if name == 'operator':
			return self.op
		if name == '__class__':
			return self.otype
		return KTok(('concattr', name))
	def a_bool(self, I):
		return True


class AlgTok(AV):
	"""an algebra; only identity distinguishes it"""
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return self.name
	def a_getattr(self, I, name):
		if name == 'operator':
			return AbsFactory(self)
		return KTok(('algattr', name))
	def a_str(self, I):
		return KTok(('algstr',))
	def a_cmp(self, I, op, other, refl):
		if op in ('is', '=='):
			return self is other
		if op in ('is not', '!='):
			return self is not other
		return I.top('order')
	def a_type(self, I):
		return KTok(('type', 'AlgTok'))
	def a_bool(self, I):
		return True


class AbsFactory(AV):
	def __init__(self, alg):
		self.alg = alg
	def a_key(self):
		return ('AbsFactory', self.alg.name)
	def a_getattr(self, I, name):
		return HostFn(lambda I2, a, k: AbsOp(self.alg, name, tuple(a) + tuple(sorted(k.items()))), name)


class Ctx(AV):
	def __init__(self, name, alg, otype):
		self.name, self.alg, self.otype = name, alg, otype
	def __repr__(self):
		return self.name
	def a_getattr(self, I, name):
		if name == 'otype':
			return self.otype
		if name == 'algebra':
			return self.alg
		if name in ('subspace',):
			return KTok(('ctx', name))
		return KTok(('ctxattr', name))
	def a_setattr(self, I, name, v):
		raise Unsupported('context attribute set')
	def a_str(self, I):
		return KTok(('ctxstr',))
	def a_cmp(self, I, op, other, refl):
		if op in ('is', '=='):
			return self is other
		if op in ('is not', '!='):
			return self is not other
		return I.top('order')
	def a_type(self, I):
		return KTok(('type', 'Ctx'))
	def a_bool(self, I):
		return True


class CWorld(DWorld):
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], (OTok, Ctx, AlgTok, AbsOp)):
			return a[0].a_str(I) if n == 'str' and hasattr(a[0], 'a_str') else KTok((n,))
		return DWorld.convert(self, I, n, a, k)


# requests: (context, operator name, subspaces, kind of concrete operator at that time)
CHIST = {
	'two operators on the same subspaces': [('n', 'product', 'AB', 0), ('n', 'wedge', 'AB', 0), ('n', 'product', 'AB', 0)],
	'argument order': [('n', 'product', 'AB', 0), ('n', 'product', 'BA', 0), ('n', 'product', 'AB', 0)],
	'equal and different arguments': [('n', 'product', 'AA', 0), ('n', 'product', 'AB', 0), ('n', 'product', 'BB', 0), ('n', 'product', 'AA', 0)],
	'arity': [('n', 'reverse', 'A', 0), ('n', 'reverse', 'AA', 0), ('n', 'reverse', '', 0), ('n', 'reverse', 'AAA', 0), ('n', 'reverse', 'A', 0)],
	'two subspaces': [('n', 'reverse', 'A', 0), ('n', 'reverse', 'B', 0), ('n', 'reverse', 'A', 0)],
	'first argument only differs': [('n', 'wedge', 'AC', 0), ('n', 'wedge', 'BC', 0)],
	'second argument only differs': [('n', 'wedge', 'CA', 0), ('n', 'wedge', 'CB', 0)],
	'third argument only differs': [('n', 'sandwich3', 'ABA', 0), ('n', 'sandwich3', 'ABB', 0)],
	'type of concrete operator changes': [('n', 'product', 'AB', 0), ('n', 'product', 'AB', 1), ('n', 'product', 'AB', 0)],
	'type of concrete operator changes, then another request': [('n', 'product', 'AB', 0), ('n', 'product', 'AB', 1), ('n', 'product', 'BA', 1), ('n', 'product', 'BA', 0)],
	'two contexts of one algebra': [('n', 'product', 'AB', 0), ('m', 'product', 'AB', 0), ('n', 'product', 'AB', 0)],
	'two contexts of two algebras': [('n', 'product', 'AB', 0), ('o', 'product', 'AB', 0), ('n', 'product', 'AB', 0)],
	'name that is also a substring': [('n', 'product', 'AB', 0), ('n', 'prod', 'AB', 0), ('n', 'uct', 'AB', 0)],
	'interleaved': [('n', 'product', 'AB', 0), ('m', 'wedge', 'BA', 1), ('n', 'wedge', 'BA', 0), ('m', 'product', 'AB', 1), ('n', 'product', 'AB', 1), ('m', 'wedge', 'BA', 0)],
}


def concrete_history(rep, title, steps, get_first=False):
	def make():
		I = Interp(CWorld())
		I.get(CF)
		I.imprecise.clear()
		return I
	def run(I):
		subs = {s: Sub1(s) for s in 'ABC'}
		ot = [OTok('first operator type'), OTok('second operator type')]
		algs = [AlgTok('algebra 1'), AlgTok('algebra 2')]
		ctx = {'n': Ctx('context 1', algs[0], ot[0]), 'm': Ctx('context 2', algs[0], ot[0]), 'o': Ctx('context 3', algs[1], ot[0])}
		facs = {k: I.call(I.get(CF), [c], {}) for k, c in ctx.items()}
		held = {}
		if get_first:
			for c, n, _, _ in steps:
				held.setdefault((c, n), I.getattr(facs[c], n))
		out = []
		for c, n, ss, k in steps:
			ctx[c].otype = ot[k]
			a = [subs[s] for s in ss]
			f = held[c, n] if get_first else I.getattr(facs[c], n)
			try:
				r = I.call(f, a, {})
			except PyRaise as e:
				r = e
			out.append((c, n, ss, k, r, ot[k], ctx[c], tuple(a)))
		return out
	def go():
		n = 0
		for p in explore(make, run, 64):
			rep.absorb(p.I)
			w = loc(p.I, CF + '.__getattr__')
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.imprecise or p.conds:
				raise Undecided(str((p.imprecise or p.conds)[0]))
			if p.kind == 'raise':
				raise Violation(w, f'constructing the factory raises {p.value}')
			for i, (c, nm, ss, k, r, ot, cx, args) in enumerate(p.value):
				n += 1
				h = f'history "{title}", request {i + 1}: {nm}({", ".join(ss)}) of {cx} with {ot}'
				if isinstance(r, PyRaise):
					raise Violation(w, f'{h} raises {r}')
				if not isinstance(r, Conc):
					raise Undecided(f'{h}: {r}')
				if not isinstance(r.op, AbsOp):
					raise Undecided(f'{h}: wraps {r.op}')
				if r.otype is not ot:
					raise Violation(w, f'{h} returns an operator of the {r.otype}')
				if r.ctx is not cx:
					raise Violation(w, f'{h} returns an operator of {r.ctx}')
				if r.op.data() != (cx.alg, nm, args):
					raise Violation(w, f'{h} returns {r.op}')
		return f'{n} requests'
	rep.run(f'concrete operators: {title}{", constructors taken beforehand" if get_first else ""}', R_HIST, go, CF)


def real_contexts(rep):
	"""contexts have factories of their own"""
	from ..mvsetup import Setup, BACKENDS
	for b in BACKENDS:
		def go():
			s = Setup(b)
			I = s.I
			other = I.call(I.get(BACKENDS[b][0]), [s.w.alg], {})
			I.imprecise.clear()
			for nm in ('operator', 'multivector'):
				fs = []
				for c in (s.ctx, other):
					f, g = I.getattr(c, nm), I.getattr(c, nm)
					if not isinstance(f, Obj):
						raise Undecided(f'{nm}: {f}')
					if 'context' not in f.attrs:
						raise Undecided('factory does not name its context')
					if f.attrs['context'] is not c:
						raise Violation(loc(I, 'numga.context:AbstractContext.__init__'), f'{b}: the {nm} factory of a context belongs to another context')
					fs.append(f)
				if fs[0] is fs[1]:
					raise Violation(loc(I, 'numga.context:AbstractContext.__init__'), f'{b}: two contexts share one {nm} factory')
				for c, f in zip((s.ctx, other), fs):
					for k, v in f.attrs.items():
						if isinstance(v, (dict, list)) and any(v is w for w in fs[1 - fs.index(f)].attrs.values()):
							raise Violation(loc(I, 'numga.context:AbstractContext.__init__'), f'{b}: the {nm} factories of two contexts share the container {k}')
			if I.imprecise:
				raise Undecided(I.imprecise[0])
			rep.absorb(I)
			return 'operator and multivector factories are per context'
		rep.run(f'factories of {b} contexts', R_HIST, go, 'numga.context:AbstractContext')


# ---- B. symbolic operators ---------------------------------------------------

def operator_histories(rep):
	from . import c07
	from ..words import WordWorld
	OF = c07.OF
	for name, (anames, slots, f, groups) in sorted(c07.SIG.items()):
		hist = list(itertools.product('PQ', repeat=len(anames)))
		hist = hist[1:] + hist[:2] if len(anames) > 1 else [('P',), ('Q',), ('P',)]
		if len(anames) > 2:
			hist = [('P', 'Q', 'P'), ('Q', 'P', 'P'), ('P', 'Q', 'Q'), ('P', 'P', 'Q'), ('P', 'Q', 'P')]
		def go(name=name, anames=anames, slots=slots, f=f, groups=groups, hist=hist):
			where = OF + '.' + name
			def make():
				w = WordWorld()
				I = Interp(w)
				w.attach(I)
				return I
			def run(I):
				w = I.world
				out = []
				for h in hist:
					out.append(I.call(I.getattr(w.of, name), [w.sub(x) for x in h], {}))
				return out
			fresh = {}
			def run1(h):
				def r(I):
					return I.call(I.getattr(I.world.of, name), [I.world.sub(x) for x in h], {})
				return r
			n = 0
			for p in explore(make, run, 256):
				rep.absorb(p.I)
				if p.kind == 'undecided':
					raise Undecided(p.value)
				if p.imprecise:
					raise Undecided(p.imprecise[0])
				if p.kind == 'raise':
					raise Undecided(f'raises {p.value}')
				for i, (h, got) in enumerate(zip(hist, p.value)):
					if h not in fresh:
						fresh[h] = list(explore(make, run1(h), 64))
					# the fresh answer on the partition consistent with this path
					known = {cond_key(c): v for c, v in p.conds}
					cand = [q for q in fresh[h] if all(known.get(cond_key(c), v) == v for c, v in q.conds)]
					sigs = set()
					for q in cand:
						if q.kind != 'value' or q.imprecise:
							raise Undecided('fresh request is not modelled')
						sigs.add(opkey(q.value))
					n += 1
					if opkey(got) not in sigs:
						raise Violation(loc(p.I, where), f'{name}({", ".join(h)}) after {hist[:i]} is {showop(got)}; asked first it is {showop(cand[0].value) if cand else "?"}')
			return f'{n} requests in histories'
		rep.run(f'operator {name}', R_HIST, go, OF + '.' + name)


def opkey(op):
	from ..words import nkey, subst, atom
	if not hasattr(op, 'slots'):
		raise Undecided(f'result {op}')
	order = {s[0]: n for n, s in enumerate(op.slots)}
	e = subst(op.expr, lambda n: atom(f'x{order[n[1]]}', n[2]) if n[0] == 's' else None)
	return nkey(e), tuple(s[1] for s in op.slots), frozenset(frozenset(order[i] for i in g) for g in op.groups)


def showop(op):
	from ..words import show
	return f'{show(op.expr)} over {[s[1] for s in op.slots]}'


# ---- C. execution strategies --------------------------------------------------

def strategy_histories(rep):
	from ..tensetup import T, explore_T, decide_path
	from . import c10, c11
	def contraction(t, batches, toks, xs, head):
		r = c10.contraction(t, (), batches, toks, head=head)
		return rename(t, r, {f'x{i}': x for i, x in enumerate(xs)})
	def rename(t, ten, m):
		body = tuple((c, tuple((m.get(h, h),) + tuple(rest) for h, *rest in fs), vs) for c, fs, vs in ten.body)
		return type(ten)(t.w, list(ten.axes), body, None)
	for backend, classes in c10.STRATEGIES.items():
		mk = lambda backend=backend: T(backend)
		base = mk()
		for cls in classes:
			q = f'numga.backend.{backend}.operator:{cls}'
			base.I.get(q)
			batchable = backend != 'python'
			# step: (operator, inputs) ; operator = (kernel name, axes)
			ops = {'K': 'AB', 'L': 'AB', 'M': 'BA', 'N': 'A', 'P': 'ABC'}
			scripts = {
				'same operator, other inputs': [('K', ('x', 'y'), ((), ())), ('K', ('u', 'v'), ((), ())), ('K', ('x', 'y'), ((), ()))],
				'other kernel on the same subspaces': [('K', ('x', 'y'), ((), ())), ('L', ('x', 'y'), ((), ())), ('K', ('x', 'y'), ((), ()))],
				'other subspaces': [('K', ('x', 'y'), ((), ())), ('M', ('y', 'x'), ((), ())), ('K', ('u', 'v'), ((), ()))],
				'other arity': [('N', ('x',), ((),)), ('K', ('x', 'y'), ((), ())), ('P', ('x', 'y', 'z'), ((), (), ())), ('N', ('u',), ((),))],
			}
			if batchable:
				scripts['other batch shapes'] = [('K', ('x', 'y'), ((), ())), ('K', ('u', 'v'), (('n',), ('n',))), ('K', ('x', 'y'), ((), ()))]
				scripts['other batch shapes, larger first'] = [('K', ('u', 'v'), (('m', 'n'), ('n',))), ('K', ('x', 'y'), ((), ())), ('K', ('w', 'z'), (('n',), ()))]
				scripts['other broadcasting'] = [('K', ('u', 'v'), (('n',), ())), ('K', ('x', 'y'), ((), ('n',)))]
			for title, script in scripts.items():
				def go(script=script, cls=cls, backend=backend, title=title, mk=mk, q=q):
					where = c10.op_where(base.I, q, '__call__')
					def call(t):
						made = {}
						out = []
						for k, xs, bs in script:
							if k not in made:
								made[k] = c10.operator(t, backend, cls, list(ops[k]) + ['Z'], (), k)
							ins = [t.mv(x, a, b) for x, a, b in zip(xs, ops[k], bs)]
							out.append(t.I.call(made[k], ins, {}))
						return out
					for p in explore_T(mk, call):
						rep.absorb(p.I)
						decide_path(p, where, title)
						for (k, xs, bs), r in zip(script, p.value):
							toks = [('in', a) for a in ops[k]] + [('in', 'Z')]
							c10.check_mv(p, r, contraction(p.t, bs, toks, xs, k), toks[-1], where, f'{cls}: {k}({", ".join(xs)}) in history {[s[0] + str(s[1]) for s in script]}')
					return f'{len(script)} applications'
				rep.run(f'{cls}: {title}', R_HIST, go, q)
			if backend == 'python':
				continue
			for orders in ([(0,), (1,)], [(1,), (0,)], [(0, 1), (1, 0)], [(1, 0), (0,)], [(0,), (0, 1), (1,)], [(0, 2), (1,), (2, 0), (1, 2)]):
				n = 3 if any(2 in o for o in orders) else 2
				def go(orders=orders, n=n, cls=cls, backend=backend, q=q, mk=mk):
					where = c10.op_where(base.I, q, 'partial')
					axes = list('ABC'[:n]) + ['Z']
					toks = [('in', a) for a in axes]
					def call(t):
						o = c10.operator(t, backend, cls, axes)
						x = c10.inputs(t, axes[:-1], [()] * n)
						return [t.I.call(t.I.getattr(o, 'partial'), [{i: x[i] for i in od}], {}) for od in orders]
					for p in explore_T(mk, call):
						rep.absorb(p.I)
						decide_path(p, where, str(orders))
						for od, r in zip(orders, p.value):
							k, tk = c11.partial_kernel(p.t, [()] * n, toks, od)
							c11.check_op(p, r, tk, k, where, f'{cls}: partial {list(od)} in history {orders}')
					return f'{len(orders)} partial applications'
				rep.run(f'{cls}: partial in history {orders}', R_HIST, go, q)
			def go(cls=cls, backend=backend, q=q, mk=mk):
				where = c10.op_where(base.I, q, 'partial')
				script = [('K', 'AB', (0,)), ('P', 'ABC', (0,)), ('M', 'BA', (0,)), ('P', 'ABC', (1,)), ('K', 'AB', (1,)), ('L', 'AB', (0,)), ('K', 'AB', (0, 1)), ('P', 'ABC', (0, 1))]
				def call(t):
					made, out = {}, []
					for k, ax, od in script:
						if k not in made:
							made[k] = c10.operator(t, backend, cls, list(ax) + ['Z'], (), k)
						x = c10.inputs(t, list(ax), [()] * len(ax))
						out.append(t.I.call(t.I.getattr(made[k], 'partial'), [{i: x[i] for i in od}], {}))
					return out
				for p in explore_T(mk, call):
					rep.absorb(p.I)
					decide_path(p, where, 'two operators')
					for (k, ax, od), r in zip(script, p.value):
						ker, tk = c11.partial_kernel(p.t, [()] * len(ax), [('in', a) for a in ax] + [('in', 'Z')], od, (), k)
						c11.check_op(p, r, tk, ker, where, f'{cls}: partial {list(od)} of {k} in a history over operators of different arity')
				return f'{len(script)} partial applications'
			rep.run(f'{cls}: partial of several operators', R_HIST, go, q)
			# replacing the symbolic operator of a used concrete operator
			def go(cls=cls, backend=backend, q=q, mk=mk):
				where = c10.op_where(base.I, q, 'copy')
				toks = [('in', 'A'), ('in', 'B'), ('in', 'Z')]
				def call(t):
					o = c10.operator(t, backend, cls, list('ABZ'))
					x, y = t.mv('x', 'A'), t.mv('y', 'B')
					a = t.I.call(o, [x, y], {})
					for nm in ('precompute_sparse', 'broadcasting_shapes'):
						try:
							t.I.getattr(o, nm)
						except PyRaise:
							pass
					o2 = t.I.call(t.I.getattr(o, 'copy'), [t.op('L', list('BAZ'))], {})
					return a, t.I.call(o2, [y, x], {}), t.I.call(o, [x, y], {})
				for p in explore_T(mk, call):
					rep.absorb(p.I)
					decide_path(p, where, 'copy')
					for r, k, tk, xs in zip(p.value, 'KLK', (toks, [toks[1], toks[0], toks[2]], toks), (('x', 'y'), ('y', 'x'), ('x', 'y'))):
						c10.check_mv(p, r, contraction(p.t, [(), ()], tk, xs, k), tk[-1], where, f'{cls}: {k} around copy()')
				return 'copy() of a used operator'
			rep.run(f'{cls}: copy of a used operator', R_HIST, go, q)


# ---- D. subspaces --------------------------------------------------------------

def subspace_histories(rep):
	from . import c04
	class Two(c04.Set4):
		"""two algebras of equal dimension in one process"""
		def __init__(self, n, sigs):
			c04.Set4.__init__(self, n, sigs[0])
			I = self.I
			D = I.get('numga.algebra.description:AlgebraDescription')
			A = I.get('numga.algebra.algebra:Algebra')
			d = I.call(D, [tuple(c04.NAMES[:n]), tuple(sigs[1])], {})
			second = I.call(A, [d], {})
			self.algs = [self.alg, second]
			self.tables = [self.table, {}]
			self.w.intercepts['numga.subspace.factory.SubSpaceFactory.from_blades'] = self.dispatch
			self.facs = [self.fac, I.getattr(second, 'subspace')]
			nums = {}
			self.w.builtins['id'] = HostFn(lambda I, a, k: nums.setdefault(id(a[0]), (len(nums) + 1, a[0]))[0], 'id')
			self.ops = [self.alg.attrs['operator'], c04.OpFac(self)]
			second.attrs['operator'] = self.ops[1]
			self.zs = [self.z, [c04.ONE if s == 0 else c04.ZERO for s in sigs[1]]]
		def use(self, i):
			self.alg, self.table, self.fac, self.z = self.algs[i], self.tables[i], self.facs[i], self.zs[i]
		def dispatch(self, I, a, k):
			i = [j for j, f in enumerate(self.facs) if f is a[0]]
			if not i:
				return I.top('factory')
			keep = self.alg, self.table, self.fac, self.z
			self.use(i[0])
			try:
				return self.from_blades(a[1] if len(a) > 1 else k.get('blades'))
			finally:
				self.alg, self.table, self.fac, self.z = keep
	def which(s, o):
		if not isinstance(o, Obj) or not hasattr(o, 'setpoly'):
			raise Undecided(f'result {o}')
		return [j for j, t in enumerate(s.tables) if any(v is o for v in t.values())][0], s.w.canon(o.setpoly)
	n = 3
	sigs = [(1, 1, 1), (1, 1, 0)]
	cls = Interp(World()).get(c04.SFQ)
	calls = []
	for nm, v in sorted(cls.attrs.items()):
		f = unwrap(v)
		if not nm.startswith('_') and isinstance(f, PyFunc) and len(f.node.args.args) == 1 and not isinstance(v, Prop):
			calls.append((nm, ()))
	calls += [('k_vector', (k,)) for k in (0, 1, 2, 3)] + [('k_reflection', (k,)) for k in (0, 1, 2)]
	calls = list(dict.fromkeys(calls))
	def ask(s, i, c):
		s.use(i)
		f = s.I.getattr(s.facs[i], c[0])
		return s.I.call(f, list(c[1]), {})
	cls2 = Interp(World()).get(c04.SSQ)
	sets = [0b111, 0b10010110, 0b1101001, 0b1, 0b11111111, 0b10]
	pairs = list(itertools.permutations(sets, 2))
	def elem(s, i, bits):
		s.use(i)
		return s.pool(s.const(lambda x: bits >> x & 1))
	def do(s, i, c):
		"""outcome of a request, as comparable data"""
		s.I.imprecise.clear()
		if c[0] == 'fac':
			r = ask(s, i, c[1:])
		else:
			A, B = elem(s, i, c[2]), elem(s, i, c[3])
			s.use(i)
			r = s.I.getattr(A, c[1])
			if c[4] is not None:
				r = s.I.call(r, [B][:c[4]], {})
		if s.I.imprecise or s.I.trace:
			raise Undecided(str((s.I.imprecise or s.I.trace)[0]))
		if isinstance(r, Obj) and hasattr(r, 'setpoly'):
			w = which(s, r)
			if w[0] != i:
				raise Violation(loc(s.I, (c04.SFQ if c[0] == 'fac' else c04.SSQ) + '.' + c[1]), f'{c[1]} of one algebra returns a subspace of another one')
			return w
		if isinstance(r, EmptyV):
			r = r.const()
		if isinstance(r, c04.OpaqueSpace):
			return r.name, tuple(which(s, x) for x in r.args)
		if r is None or isinstance(r, (bool, int)):
			return r
		raise Undecided(f'result {r}')
	reqs = {}
	for c in calls:
		reqs[c04.SFQ + '.' + c[0] + (str(c[1]) if c[1] else '')] = [('fac',) + c]
	for nm, v in sorted(cls2.attrs.items()):
		f = unwrap(v)
		if nm.startswith('_') or not isinstance(f, PyFunc) or isinstance(v, (StaticM, ClassM)):
			continue
		if isinstance(v, Prop):
			reqs[c04.SSQ + '.' + nm] = [('sub', nm, a, a, None) for a in sets]
			continue
		k = len(f.node.args.args) - 1
		if k == 0:
			reqs[c04.SSQ + '.' + nm] = [('sub', nm, a, a, 0) for a in sets]
		elif k == 1:
			reqs[c04.SSQ + '.' + nm] = [('sub', nm, a, b, 1) for a, b in pairs]
	fresh, why = {}, {}
	for q, rs in reqs.items():
		for c in rs:
			for i in (0, 1):
				if q in why:
					break
				s = Two(n, sigs)
				try:
					fresh[i, c] = do(s, i, c)
				except Violation as e:
					fresh[i, c] = e
				except (PyRaise, Unsupported, Undecided, Budget) as e:
					why[q] = str(e)
				except Exception as e:
					why[q] = f'{type(e).__name__} {e}'
	live = {q: rs for q, rs in reqs.items() if q not in why}
	flat = [(q, i, c) for q, rs in live.items() for c in rs for i in (0, 1)]
	bad, lost, m = {}, {}, {}
	for title, seq in (('both algebras in turn', flat), ('one algebra after the other', sorted(flat, key=lambda x: -x[1])), ('backwards', flat[::-1])):
		s = Two(n, sigs)
		for q, i, c in seq + seq[:9]:
			if q in lost:
				continue
			try:
				got = do(s, i, c)
			except (PyRaise, Unsupported, Undecided, Budget) as e:
				lost[q] = str(e)
				continue
			except Violation as e:
				bad.setdefault(q, (e.construct, e.detail))
				continue
			m[q] = m.get(q, 0) + 1
			if got != fresh[i, c]:
				a = [format(x, 'b') for x in c[2:4]] if c[0] == 'sub' else c[2]
				bad.setdefault(q, (loc(s.I, q.split('(')[0]), f'{c[1]} with {a} differs from the answer to a first request when asked in a history of requests to two algebras, {title}'))
		rep.absorb(s.I)
	total = 0
	for q in reqs:
		if q in why:
			continue        # not modelled even as a first request: left to C04 and to the lints
		def go(q=q):
			if q in bad:
				raise Violation(*bad[q])
			if q in lost:
				raise Undecided(lost[q])
			return f'{m[q]} requests in histories'
		rep.run('history of ' + q.partition(':')[2], R_HIST, go, q)
	rep.count('subspace requests modelled', len(live))
	rep.count('subspace requests not modelled', len(why))
	if os.environ.get('SA_DEBUG'):
		for q, e in why.items():
			print('not modelled', q, e[:150])


# ---- E. memo decorator, key objects ------------------------------------------------

def decorator(rep):
	def go(kind):
		I = Interp(CWorld())
		c = I.get('numga.util:cache')
		if not isinstance(c, (PyFunc, PyClass)):
			return f'numga.util.cache is {c}'
		log = []
		toks = [SubTok(x) for x in 'ABC']
		A, B, C = toks
		reqs = [([A, B], {}), ([B, A], {}), ([A], {}), ([A, A], {}), ([A, B], {}), ([A, B, C], {}), ([A], {'k': B}), ([A], {'k': C}), ([A], {'j': B}), ([A], {'k': B, 'j': C}), ([A], {'k': C, 'j': B})]
		reqs = [r for r in reqs if bool(r[1]) == kind]
		def run(I):
			f = HostFn(lambda I, a, k: ('f', tuple(a), tuple(sorted(k.items()))), 'f')
			g = HostFn(lambda I, a, k: ('g', tuple(a), tuple(sorted(k.items()))), 'g')
			m, n = I.call(c, [f], {}), I.call(c, [g], {})
			return [(('f', tuple(a), tuple(sorted(k.items()))), I.call(m, a, k)) for a, k in reqs] + [(('g', tuple(a), tuple(sorted(k.items()))), I.call(n, a, k)) for a, k in reqs]
		r = run(I)
		rep.absorb(I)
		if I.imprecise or I.trace:
			raise Undecided(str((I.imprecise or I.trace)[0]))
		for want, got in r:
			if got != want:
				raise Violation(loc(I, 'numga.util:cache'), f'memoised {want[0]}{want[1]}{dict(want[2])} returns the answer to {got}')
		return f'{len(r)} calls of memoised functions'
	rep.run('memo decorator', R_HIST, lambda: go(False), 'numga.util:cache')
	rep.run('memo decorator, keyword arguments', R_HIST, lambda: go(True), 'numga.util:cache')


KEYCLASSES = {
	'numga.operator.operator:Operator': ('kernel', 'axes'),
	'numga.operator.factory:OperatorFactory': ('algebra',),
	'numga.subspace.factory:SubSpaceFactory': ('algebra', 'order', 'flyweight_pool', 'grades'),
	'numga.algebra.algebra:Algebra': ('description',),
	'numga.algebra.description:AlgebraDescription': ('basis_names', 'signature'),
	'numga.operator.abstract:AbstractConcreteOperator': ('context', 'operator'),
	'numga.multivector.factory:MultiVectorFactory': ('context',),
}


class Fld(KTok):
	"""attribute value; equal to its copies, its parts collide"""
	def a_getattr(self, I, name):
		return KTok(('part', name))
	def a_iter(self, I):
		return [KTok(('part', 0)), KTok(('part', 1))]
	def a_getitem(self, I, k):
		return KTok(('part',))


def keys(rep):
	for q, attrs in KEYCLASSES.items():
		def go(q=q, attrs=attrs):
			def make():
				w = CWorld()
				return Interp(w)
			def run(I):
				c = I.get(q)
				def mk(**kw):
					o = Obj(c)
					for a in attrs:
						o.attrs[a] = Fld((a, kw.get(a, 0)))
					return o
				I.imprecise.clear()
				x = mk()
				out = []
				for a in attrs:
					y = mk(**{a: 1})
					out.append((a, I.truth(I.compare('==', x, y)), I.truth(I.compare('==', y, x))))
				return out
			c = Interp(World()).get(q)
			eq = c.lookup('__eq__')
			if not isinstance(unwrap(eq), PyFunc):
				return 'identity'
			for p in explore(make, run, 32):
				rep.absorb(p.I)
				if p.kind != 'value' or p.imprecise or p.conds:
					raise Undecided(f'{p.value} {p.imprecise[:1]} {p.conds[:1]}')
				for a, r, s in p.value:
					if r or s:
						raise Violation(loc(p.I, q + '.__eq__'), f'objects that differ in {a} compare equal and share cache entries')
			return 'equality distinguishes every attribute'
		rep.run(f'equality of {q.partition(":")[2]}', R_ID, go, q)


# ---- F. package-wide lints ------------------------------------------------------------

def lints(rep):
	repo = Interp(World()).repo
	trees = list(memo.package(repo))
	mutable = memo.mutable_attrs(trees)
	mutable.setdefault('values', 'component arrays are writeable')
	mutable.setdefault('otype', 'numga/context.py (the operator type of a context may change)')
	classes = {}
	for path, rel, tree in trees:
		rep.files.add(path) if hasattr(rep.files, 'add') else None
		for n in ast.walk(tree):
			if isinstance(n, ast.ClassDef):
				classes.setdefault(n.name, []).append((rel, n))
	bad_key, bad_state, bad_shot, bad_copy = [], [], [], []
	count = dict(memo=0, stores=0, copies=0)
	for path, rel, tree in trees:
		gmut = global_mutation(tree)
		memo_containers = set()
		fns = list(memo.functions(tree))
		for q, fn, cls, outer in fns:
			sl = memo.Slicer(fn, outer, tree, mutable)
			for kind, text, k, v, line in memo.memo_sites(fn, sl, cls, tree):
				if not dict_like(text, cls, tree, classes):
					continue
				if any(isinstance(x, ast.expr) and ast.unparse(x) == text for x in ast.walk(v)):
					continue        # accumulation, not memoisation
				memo_containers.add(text.split('.')[-1])
				count['stores'] += 1
				deps, cov = sl.deps(v, (), sl.parts(k)), sl.covered(k)
				where = f'{rel}:{line} ({q})'
				paths = key_paths(sl, k)
				for d in sorted(deps):
					if d[0] == 'thunk' or ('thunk', d[1]) in deps or d[1] in ('self', 'cls') and kind == 'self' and d[0] == 'param':
						continue
					if d[0] == 'mut':
						if cov.get(d) is None and cov.get(('param', 'self')) != 'inj':
							bad_key.append((where, f'{text}[...] stores a value that depends on {d[1]}, which can change and is not part of the key {ast.unparse(k)}'))
						continue
					c = cov.get(('param', d[1]))
					mine = paths.get(d[1], set())
					if c is None:
						if d[1] == 'self' and d[2] and cls is not None and memo.uses_self(cls, classes, d[2].split('.')[0]) is False:
							continue
						bad_key.append((where, f'{text}[...] stores a value that depends on {d[1]}, which is not part of the key {ast.unparse(k)}'))
					elif c == 'lossy' and d[1] != 'self' and d[2] == '':
						bad_key.append((where, f'{text}[...] stores a value that depends on {d[1]}, of which the key {ast.unparse(k)} keeps too little'))
					elif kind == 'shared' and mine and all(x.split('.')[0] == 'blades' for x in mine) and d[2].split('.')[0] != 'blades' and 'algebra' not in ast.unparse(k) and not any('algebra' in ast.unparse(y) for x in ast.walk(k) if isinstance(x, ast.Name) for y in sl.locals.get(x.id, [])):
						bad_key.append((where, f'{text}[...] is shared by all algebras, but its key {ast.unparse(k)} holds no more than the blades of {d[1]}'))
		for q, fn, cls, outer in fns:
			if not memo.memoised(fn):
				continue
			count['memo'] += 1
			for n, why in state_reads(fn, cls, classes, mutable, gmut, memo_containers):
				bad_state.append((f'{rel}:{fn.lineno} ({q})', f'memoised, but reads {n}, which can change ({why})'))
			s = one_shot(fn)
			if s:
				bad_shot.append((f'{rel}:{fn.lineno} ({q})', f'memoised, but returns {s}, which is exhausted by its first user'))
		for q, fn, cls, outer in fns:
			for line, attr, props in stale_copy(fn, cls, classes, tree):
				count['copies'] += 1
				if props:
					bad_copy.append((f'{rel}:{line} ({q})', f'copies the cached properties of an object and then replaces {attr}, on which {props[0]} depends'))
	for k, v in count.items():
		rep.count(k, v)
	def one(title, bad, ok):
		def go():
			if bad:
				raise Violation(*bad[0]) if len(bad) == 1 else Violation(bad[0][0], '; '.join(f'{b[1]}' if i == 0 else f'{b[0]}: {b[1]}' for i, b in enumerate(bad[:4])))
			return ok
		return go
	rep.run('keys of hand-written caches', R_KEY, one('', bad_key, f'{count["stores"]} cache stores'), 'numga')
	rep.run('memoised functions read immutable data', R_STATE, one('', bad_state, f'{count["memo"]} memoised functions'), 'numga')
	rep.run('memoised results can be used twice', R_STATE, one('', bad_shot, f'{count["memo"]} memoised functions'), 'numga')
	rep.run('copies drop cached properties', R_STATE, one('', bad_copy, f'{count["copies"]} shallow copies'), 'numga')


def key_paths(sl, k, depth=0):
	"""parameter -> attribute paths through which it enters the key"""
	out = {}
	def rec(n):
		if isinstance(n, ast.Attribute):
			base, path = n, []
			while isinstance(base, ast.Attribute):
				path.append(base.attr)
				base = base.value
			if isinstance(base, ast.Name) and base.id in sl.params:
				out.setdefault(base.id, set()).add('.'.join(path[::-1]))
				return
		if isinstance(n, ast.Name):
			if n.id in sl.locals and depth < 4:
				for v in sl.locals[n.id]:
					for p, xs in key_paths(sl, v, depth + 1).items():
						out.setdefault(p, set()).update(xs)
			if n.id in sl.params:
				out.setdefault(n.id, set()).add('')
			return
		for c in ast.iter_child_nodes(n):
			rec(c)
	rec(k)
	return out


def dict_like(text, cls, tree, classes):
	"""the container is initialised as a dictionary"""
	name = text.split('.')[-1]
	def is_dict(v):
		if isinstance(v, (ast.Dict, ast.DictComp)):
			return True
		if isinstance(v, ast.Call):
			n = ast.unparse(v.func).split('.')[-1]
			return n in ('dict', 'defaultdict', 'OrderedDict', 'WeakKeyDictionary', 'WeakValueDictionary')
		return False
	scope = [tree]
	if cls is not None:
		seen, todo = set(), [cls]
		while todo:
			c = todo.pop()
			if c.name in seen:
				continue
			seen.add(c.name)
			scope.append(c)
			for b in c.bases:
				for _, k in classes.get(ast.unparse(b).split('.')[-1], []):
					todo.append(k)
	for s in scope:
		for n in ast.walk(s):
			if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and is_dict(n.value):
				for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
					if isinstance(t, ast.Name) and t.id == name or isinstance(t, ast.Attribute) and t.attr == name:
						return True
			if isinstance(n, ast.FunctionDef):
				for x, d in zip((n.args.posonlyargs + n.args.args)[::-1], n.args.defaults[::-1]):
					if x.arg == name and is_dict(d):
						return True
	return False


MUTATORS = {'append', 'insert', 'extend', 'update', 'clear', 'pop', 'popitem', 'remove', 'add', 'setdefault', 'sort', 'reverse', 'discard'}


def global_mutation(tree):
	"""module level names that functions of the module rebind or mutate"""
	top = set()
	for n in tree.body:
		if isinstance(n, (ast.Assign, ast.AnnAssign)):
			for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
				if isinstance(t, ast.Name):
					top.add(t.id)
	out = {}
	for q, fn, cls, outer in memo.functions(tree):
		loc_ = set(memo.params(fn)) | set(memo.locals_of(fn))
		decl = {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names}
		for x in decl:
			out[x] = f'rebound by {q}'
		for n in memo.own_nodes(fn):
			if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
				x = n.func.value.id
				if x in top and x not in loc_:
					out[x] = f'mutated by {q}'
			if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in top and n.value.id not in loc_:
				out[n.value.id] = f'mutated by {q}'
	return out


def inplace_attrs(cls, classes):
	"""self attributes that methods other than constructors mutate in place"""
	out = {}
	for m in cls.body:
		if isinstance(m, ast.FunctionDef) and m.name not in ('__init__', '__new__'):
			for n in ast.walk(m):
				t = None
				if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
					t = n.func.value
				if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
					t = n.value
				if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
					out[t.attr] = f'mutated by {cls.name}.{m.name}'
	return out


def state_reads(fn, cls, classes, mutable, gmut, memo_containers):
	local = set(memo.params(fn)) | set(memo.locals_of(fn))
	ip = inplace_attrs(cls, classes) if cls is not None else {}
	called = set()
	shapes = set()
	stores = set()
	body = list(memo.own_nodes(fn))
	for n in body:
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
			called.add(id(n.func))
		if isinstance(n, ast.Attribute) and n.attr in memo.IMMUTABLE_OF:
			shapes.add(id(n.value))
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args:
			shapes.add(id(n.args[0]))
	for n in body:
		if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in called and id(n) not in shapes:
			if n.attr in mutable:
				yield ast.unparse(n), mutable[n.attr]
			elif n.attr in ip and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr not in memo_containers:
				yield ast.unparse(n), ip[n.attr]
		if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in gmut and n.id not in local and n.id not in memo_containers:
			yield n.id, gmut[n.id]


def one_shot(fn):
	nested = {id(x) for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for x in ast.walk(n)}
	loc_ = memo.locals_of(fn)
	def shot(e, depth=0):
		if isinstance(e, ast.GeneratorExp):
			return 'a generator'
		if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in memo.ONESHOT and e.func.id not in loc_:
			return f'{e.func.id}(...)'
		if isinstance(e, ast.Call) and ast.unparse(e.func).startswith('itertools.'):
			return 'an itertools iterator'
		if isinstance(e, ast.Name) and len(loc_.get(e.id, [])) == 1 and depth < 3:
			return shot(loc_[e.id][0], depth + 1) if not bound_by_for(fn, e.id) else None
		if isinstance(e, ast.IfExp):
			return shot(e.body) or shot(e.orelse)
		return None
	for n in ast.walk(fn):
		if id(n) in nested:
			continue
		if isinstance(n, (ast.Yield, ast.YieldFrom)):
			return 'a generator'
		if isinstance(n, ast.Return) and n.value is not None:
			s = shot(n.value)
			if s:
				return s
	return None


def bound_by_for(fn, name):
	return any(isinstance(x, ast.Name) and x.id == name for n in ast.walk(fn) if isinstance(n, (ast.For, ast.comprehension)) for x in ast.walk(n.target))


def stale_copy(fn, cls, classes, tree):
	"""objects copied with their __dict__ whose attributes are replaced afterwards"""
	if cls is None:
		return
	copied = {}
	for n in memo.own_nodes(fn):
		if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
			f = ast.unparse(n.value.func)
			if f in ('copy.copy', 'copy', '_copy', '_copy.copy') and n.value.args and ast.unparse(n.value.args[0]) == 'self':
				copied[n.targets[0].id] = n.lineno
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and n.args and ast.unparse(n.args[0]) in ('self.__dict__', 'vars(self)'):
			t = n.func.value
			if isinstance(t, ast.Attribute) and t.attr == '__dict__' and isinstance(t.value, ast.Name):
				copied[t.value.id] = n.lineno
			if isinstance(t, ast.Call) and ast.unparse(t.func) == 'vars' and isinstance(t.args[0], ast.Name):
				copied[t.args[0].id] = n.lineno
	if not copied:
		return
	family = family_of(cls, classes)
	deps = cached_deps(family)
	for n in memo.own_nodes(fn):
		ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
		for t in ts:
			if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in copied:
				yield n.lineno, t.attr, sorted(p for p, ds in deps.items() if t.attr in ds)


def family_of(cls, classes):
	"""the class, its bases and its subclasses inside the package"""
	out, todo = {}, [cls.name]
	while todo:
		c = todo.pop()
		if c in out:
			continue
		out[c] = [k for _, k in classes.get(c, [])]
		for k in out[c]:
			for b in k.bases:
				todo.append(ast.unparse(b).split('.')[-1])
	subs = True
	while subs:
		subs = False
		for nm, ks in classes.items():
			if nm not in out and any(ast.unparse(b).split('.')[-1] == cls.name or ast.unparse(b).split('.')[-1] in out and cls.name in lineage(nm, classes) for k in [x[1] for x in ks] for b in k.bases):
				out[nm] = [k for _, k in ks]
				subs = True
	return [k for ks in out.values() for k in ks]


def lineage(nm, classes, depth=0):
	out = {nm}
	if depth < 6:
		for _, k in classes.get(nm, []):
			for b in k.bases:
				out |= lineage(ast.unparse(b).split('.')[-1], classes, depth + 1)
	return out


def cached_deps(family):
	reads, cached = {}, set()
	for c in family:
		for m in c.body:
			if isinstance(m, ast.FunctionDef):
				reads.setdefault(m.name, set()).update(n.attr for n in ast.walk(m) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self')
				if any('cached_property' in memo.deco_name(d) for d in m.decorator_list):
					cached.add(m.name)
	out = {}
	for c in cached:
		seen, todo = set(), [c]
		while todo:
			x = todo.pop()
			for y in reads.get(x, ()):
				if y not in seen:
					seen.add(y)
					todo.append(y)
		out[c] = seen
	return out


def main():
	rep = Report('C15', 'Histories of requests are abstractly interpreted on fresh caches, each request compared with the answer it gets when asked first: concrete operators (arguments, operator types and contexts distinguishable by identity only, everything derived from them colliding), '
		'every constructor of the operator factory, every execution strategy and partial application, named subspaces and subspace operations of two algebras, dispatch, and the subspace pool. '
		'A package-wide dataflow analysis covers the rest: what a hand-written cache stores may depend only on what its key determines, memoised functions read no mutable state, return no one-shot iterators, and copies do not carry stale cached properties.',
		['functools.cache, lru_cache and cached_property behave as documented', 'identity semantics of subspaces (C03)'])
	I0 = Interp(CWorld())
	I0.get(CF + '.__getattr__')
	for t, s in CHIST.items():
		concrete_history(rep, t, s)
	for t in ('type of concrete operator changes', 'argument order', 'two contexts of one algebra'):
		concrete_history(rep, t, CHIST[t], True)
	real_contexts(rep)
	operator_histories(rep)
	strategy_histories(rep)
	subspace_histories(rep)
	for t, s in HISTORIES.items():
		history(rep, 'dispatch: ' + t, s)
	key_obligation(rep)
	identity_obligation(rep)
	decorator(rep)
	keys(rep)
	lints(rep)
	return rep.finish()
