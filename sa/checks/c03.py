"""C03: one canonically ordered, immutable subspace object per blade set."""
import ast
import itertools
import os
from ..core import *
from ..bits import *
from ..order import *
from ..report import Report, Violation, Undecided, loc, unwrap
from ..algebra_setup import make_algebra

F = 'numga.subspace.factory:SubSpaceFactory'
S = 'numga.subspace.subspace:SubSpace'
R_ORD = 'order is a total function of the set'
R_KEY = 'one object per blade set'
R_IMM = 'blades cannot change'
SIGN = {'+': 1, '-': -1, '0': 0}


# ---- 1. canonical order ---------------------------------------------------

def sigs(n):
	if n <= 2:
		return list(itertools.product('+-0', repeat=n))
	return [tuple('+' * n), ('0',) + tuple('+' * (n - 1)), tuple('+' * (n - 2)) + ('-', '0')]


def order_world(n, sig, order):
	w = OrderWorld(n)
	I = Interp(w)
	D = I.get('numga.algebra.description:AlgebraDescription')
	A = I.get('numga.algebra.algebra:Algebra')
	alg = I.call(A, [I.call(D, [tuple('e%d' % i for i in range(n)), tuple(SIGN[s] for s in sig)], {})], {})
	f = I.call(I.get(F), [alg] + ([] if order is None else [order]), {})
	I.imprecise.clear()
	return w, I, alg, f


def show(b, n):
	return format(b, f'0{n}b')


def order_obligation(rep, n, sig, order, kind, dt):
	def make():
		w, I, alg, f = order_world(n, sig, order)
		I.setup = (w, alg, f)
		return I
	def run(I):
		w, alg, f = I.setup
		arr = OrdArr(w, dtype=dt, caller=True, kind=kind)
		r = I.call(I.getattr(f, 'order_blades'), [arr], {})
		return r, dtname(I.getattr(alg, 'blade_dtype'))
	def go():
		for p in explore(make, run, 32):
			rep.absorb(p.I)
			where = loc(p.I, F + '.order_blades')
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.kind == 'raise':
				if p.imprecise or p.conds:
					raise Undecided(f'raises {p.value}')
				raise Violation(where, f'ordering blades raises {p.value}')
			r, want = p.value
			if not isinstance(r, OrdArr):
				raise Undecided(f'result not modelled: {r!r}')
			if p.conds:
				raise Undecided(f'order depends on {p.conds[0][0]}')
			chain = r.order.chain()
			N = 1 << n
			if not chain:
				raise Violation(where, f'order={order!r}: the blades keep the order they were given in, so the component order depends on the request')
			seen = {}
			for b in range(N):
				k = tuple(c[b] for c in chain)
				if k in seen:
					raise Violation(where, f'order={order!r}, {n} generators, signature {"".join(sig)}: blades {show(seen[k], n)} and {show(b, n)} compare equal under the sort key, so their order depends on the order of the request')
				seen[k] = b
			if order in (None, 'grade', 'fancy'):
				srt = [seen[k] for k in sorted(seen)]
				for x, y in zip(srt, srt[1:]):
					if bin(x).count('1') > bin(y).count('1'):
						raise Violation(where, f'order={order!r}, {n} generators, signature {"".join(sig)}: blade {show(x, n)} is placed before {show(y, n)} of lower grade')
			if r.kind != 'array':
				raise Violation(where, 'result is not an array')
			if r.dtype != want:
				raise Violation(where, f'blades stored as {r.dtype} for a {dt} request, blade_dtype is {want}: equal sets get different storage')
		return f'sort key injective on all {1 << n} blades'
	rep.run(f'order[{order}] n={n} sig={"".join(sig)} {kind}/{dt}', R_ORD, go, F.partition(':')[2] + '.order_blades')


# ---- 2. one object per set -------------------------------------------------

class SetArr(AV):
	"""a blade array known only by (set, order of elements)"""
	def __init__(self, set_, perm):
		self.set, self.perm = set_, perm
	def __repr__(self):
		return f'array({self.set}{self.perm})'
	def a_key(self):
		return ('id', id(self))
	def tok(self, inj):
		return KTok((self.set, self.perm)) if inj == 'seq' else KTok((self.set,)) if inj == 'set' else KTok(('any',))
	def a_getattr(self, I, name):
		if name in ('tobytes', 'tolist', 'data', 'view'):
			return HostFn(lambda I, a, k: self.tok('seq'), name) if name != 'data' else self.tok('seq')
		if name in ('copy', 'ravel', 'flatten'):
			return HostFn(lambda I, a, k: SetArr(self.set, self.perm), name)
		if name == 'astype':
			return HostFn(lambda I, a, k: SetArr(self.set, self.perm), name)
		if name == 'dtype':
			return DTypeV('uint8')
		if name in ('size', 'nbytes', 'itemsize'):
			return KTok(('len',))
		if name in ('shape', 'ndim', 'strides'):
			return self.tok('none')
		if name in ('sum', 'max', 'min', 'mean', 'prod', 'any', 'all', '__len__', '__repr__', '__str__', '__hash__'):
			return HostFn(lambda I, a, k: self.tok('none'), name)
		if name == 'flags':
			return Tok('flags', self)
		return I.top(name)
	def a_len(self, I):
		return KTok(('len',))
	def a_getitem(self, I, k):
		if isinstance(k, slice) and k == slice(None):
			return self
		return self.tok('none')
	def a_iter(self, I):
		raise Unsupported('iteration over blades')
	def a_generic(self, I):
		return SElem(self), SBind(self)
	def a_str(self, I):
		return self.tok('none')
	def a_cmp(self, I, op, other, refl):
		return I.top('array comparison')
	def a_bool(self, I):
		raise PyRaise('ValueError', 'truth value of an array is ambiguous')
	def a_hash(self, I):
		raise PyRaise('TypeError', 'unhashable')


class SElem(AV):
	def __init__(self, arr):
		self.arr = arr
	def a_to_int(self, I, *a):
		return self
	def a_getattr(self, I, name):
		if name == 'item':
			return HostFn(lambda I, a, k: self, name)
		return I.top(name)


class SBind:
	label = None
	def __init__(self, arr):
		self.arr = arr
	def seq(self, I, v, guards):
		if isinstance(v, SElem) and not guards:
			return self.arr.tok('seq')
		return I.top('sequence')


class KTok(AV):
	"""a hashable key value, equal exactly when its data is equal"""
	def __init__(self, data):
		self.data = data
	def __repr__(self):
		return f'key{self.data}'
	def a_key(self):
		return ('KTok', self.data)
	def a_hash(self, I):
		return KTok(('hash',))      # hashes may collide
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, KTok):
			e = self.data == other.data
			if op == '==':
				return e
			if op == '!=':
				return not e
		return I.top('key comparison')
	def a_str(self, I):
		return self
	def a_getattr(self, I, name):
		if name in ('tobytes', 'hex', 'copy', 'tolist'):
			return HostFn(lambda I, a, k: self, name)
		return I.top(name)
	def a_getitem(self, I, k):
		return KTok(('any',))
	def a_len(self, I):
		return KTok(('any',))
	def a_bool(self, I):
		if self.data == ('len',):
			return True     # the blade sets requested are not empty, and of one size
		return I.decide(('truth', self.data))
	def a_binop(self, I, op, other, refl):
		if op == '+' and isinstance(other, (tuple, list, str, bytes)):
			return KTok(self.data + (repr(other), refl))
		return I.top('key arithmetic')
	def a_to_int(self, I, *a):
		return self
	def a_generic(self, I):
		return self, KBind(self)


class KBind:
	label = None
	def __init__(self, t):
		self.t = t
	def seq(self, I, v, guards):
		return self.t if v is self.t and not guards else I.top('sequence')


class KeyWorld(BitsWorld):
	def __init__(self, n):
		BitsWorld.__init__(self, n)
		self.intercepts['numga.subspace.subspace.SubSpace'] = self.construct
		self.intercepts['numga.subspace.factory.SubSpaceFactory.order_blades'] = self.order
		self.made = []
		E = self.ext
		for nm in ('array', 'asarray', 'ascontiguousarray', 'copy', 'atleast_1d'):
			old = E.get('numpy.' + nm)
			E['numpy.' + nm] = (lambda old: lambda I, a, k: (a[0] if not nm == 'array' else SetArr(a[0].set, a[0].perm)) if isinstance(a[0], SetArr) else old(I, a, k) if old else I.top('np'))(old)
		for nm in ('sort', 'unique'):
			E['numpy.' + nm] = lambda I, a, k: SetArr(a[0].set, 'sorted') if isinstance(a[0], SetArr) else I.top('sort')
		for nm in ('sum', 'size', 'max', 'min', 'bitwise_or.reduce', 'bitwise_xor.reduce', 'add.reduce', 'count_nonzero'):
			E['numpy.' + nm] = lambda I, a, k: a[0].tok('none') if isinstance(a[0], SetArr) else I.top('reduction')
		for nm in ('array2string', 'array_str', 'array_repr'):
			E['numpy.' + nm] = lambda I, a, k: a[0].tok('none') if isinstance(a[0], SetArr) else I.top('str')
		for nm in ('sum', 'max', 'min'):
			self.builtins[nm] = HostFn(lambda I, a, k: a[0].tok('none') if isinstance(a[0], SetArr) else I.top('builtin'), nm)
		self.builtins['sorted'] = HostFn(lambda I, a, k: KTok((a[0].set, 'sorted')) if isinstance(a[0], SetArr) and not k else I.top('sorted'), 'sorted')
		self.builtins['hash'] = HostFn(lambda I, a, k: KTok(('hash',)) if isinstance(a[0], (KTok, SetArr)) else I.top('hash'), 'hash')
		self.builtins['id'] = HostFn(lambda I, a, k: KTok(('id', id(a[0]))), 'id')
	def order(self, I, args, kw):
		a = args[1] if len(args) > 1 else next(iter(kw.values()))
		if isinstance(a, SetArr):
			return SetArr(a.set, 'canon')
		return I.top('ordering of something else')
	def construct(self, I, args, kw):
		o = Obj(I.get(S))
		o.attrs['algebra'] = kw.get('algebra', args[0] if args else None)
		o.attrs['blades'] = kw.get('blades', args[1] if len(args) > 1 else None)
		self.made.append(o)
		return o
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], SetArr):
			if n in ('set', 'frozenset'):
				return a[0].tok('set')
			if n in ('list', 'tuple', 'bytes'):
				return a[0].tok('seq')
			return a[0].tok('none')
		if a and isinstance(a[0], KTok):
			if n in ('list', 'tuple', 'bytes', 'str'):
				return a[0]
			if n in ('set', 'frozenset'):
				return KTok((a[0].data[0],)) if len(a[0].data) == 2 else a[0]
			return KTok(('any',))
		return BitsWorld.convert(self, I, n, a, k)


REQS = [('A', 'p1', 0), ('A', 'p2', 0), ('B', 'p1', 0), ('A', 'p1', 0), ('A', 'p1', 1), ('B', 'p2', 1), ('B', 'p2', 0)]


def key_obligation(rep):
	def make():
		w = KeyWorld(3)
		I = Interp(w)
		D = I.get('numga.algebra.description:AlgebraDescription')
		A = I.get('numga.algebra.algebra:Algebra')
		algs = [I.call(A, [I.call(D, [('x', 'y', 'z'), s], {})], {}) for s in ((1, 1, 1), (1, 1, 0))]
		I.setup = w, algs
		return I
	def run(I):
		w, algs = I.setup
		fs = [I.getattr(a, 'subspace') for a in algs]
		again = [I.getattr(a, 'subspace') for a in algs]
		I.imprecise.clear()
		out = []
		for s, p, k in REQS:
			out.append(I.call(I.getattr(fs[k], 'from_blades'), [SetArr(s, p)], {}))
		return algs, fs, again, out
	def paths():
		for p in explore(make, run, 64):
			rep.absorb(p.I)
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.kind == 'raise':
				if p.imprecise or p.conds:
					raise Undecided(f'raises {p.value} after {p.imprecise[:1]}')
				raise Violation(loc(p.I, F + '.from_blades'), f'requesting a subspace raises {p.value}')
			yield p
	def same():
		for p in paths():
			algs, fs, again, out = p.value
			w = loc(p.I, F + '.from_blades')
			if any(not isinstance(o, Obj) for o in out):
				raise Undecided(f'result not modelled: {out}')
			for (i, x), (j, y) in itertools.combinations(enumerate(out), 2):
				a, b = REQS[i], REQS[j]
				if (a[0], a[2]) == (b[0], b[2]):
					if x is not y:
						bad(p, w, f'the same blade set requested {"again" if a[1] == b[1] else "in another order"} gives a different object')
				elif x is y:
					bad(p, w, 'two different blade sets give the same object' if a[0] != b[0] else 'subspaces of two algebras share one object')
		return f'{len(REQS)} requests, colliding in every non-injective attribute'
	def args():
		for p in paths():
			algs, fs, again, out = p.value
			w = loc(p.I, F + '.from_blades')
			for r, o in zip(REQS, out):
				if not isinstance(o, Obj):
					raise Undecided('result')
				b = o.attrs.get('blades')
				if o.attrs.get('algebra') is not algs[r[2]]:
					bad(p, w, 'subspace carries another algebra')
				if not isinstance(b, SetArr):
					raise Undecided(f'blades {b!r}')
				if b.set != r[0]:
					bad(p, w, 'subspace holds another blade set than requested')
				if b.perm != 'canon':
					bad(p, w, 'subspace is built from the blades in the order of the request instead of canonical order')
		return 'constructor receives the owning algebra and canonically ordered blades'
	def factory():
		for p in paths():
			algs, fs, again, out = p.value
			w = loc(p.I, 'numga.algebra.algebra:Algebra.subspace')
			for a, b in zip(fs, again):
				if not isinstance(a, Obj) or not isinstance(b, Obj):
					raise Undecided('factory')
				if a is not b:
					bad(p, w, 'every access to algebra.subspace makes a new factory with an empty pool')
			if fs[0] is fs[1]:
				bad(p, w, 'two algebras share one subspace factory')
			for a, f in zip(algs, fs):
				if f.attrs.get('algebra') is not a:
					bad(p, w, 'factory belongs to another algebra')
		return 'one factory per algebra object'
	def bad(p, w, msg):
		if p.imprecise or p.conds:
			raise Undecided(f'{msg}, but only on an imprecise path ({(p.imprecise or p.conds)[0]})')
		raise Violation(w, msg)
	rep.run('identity of repeated requests', R_KEY, same, F.partition(':')[2] + '.from_blades')
	rep.run('constructor arguments', R_KEY, args, F.partition(':')[2] + '.from_blades')
	rep.run('factory identity', R_KEY, factory, 'Algebra.subspace')


def identity_obligation(rep):
	def make():
		w = KeyWorld(2)
		w.intercepts.pop('numga.subspace.subspace.SubSpace')
		w.builtins.pop('id')
		w.builtins.pop('hash')
		return Interp(w)
	def go():
		I = make()
		c = I.get(S)
		def run(I):
			c = I.get(S)
			a, b = Obj(c), Obj(c)
			alg = Obj(I.get('numga.algebra.algebra:Algebra'))
			blades = SetArr('A', 'canon')
			for o in (a, b):
				o.attrs.update(algebra=alg, blades=blades)
			I.imprecise.clear()
			out = {}
			for nm, x, y, op in (('a == a', a, a, '=='), ('a == b', a, b, '=='), ('a != a', a, a, '!='), ('a != b', a, b, '!='), ('a == None', a, None, '==')):
				out[nm] = I.truth(I.compare(op, x, y))
			h = c.lookup('__hash__')
			d = {}
			I.dict_set(d, a, 1)
			I.dict_set(d, b, 2)
			out['dict'] = (len(d), I.getitem(d, a) if I.dict_has(d, a) else None, I.getitem(d, b) if I.dict_has(d, b) else None)
			return out
		want = {'a == a': True, 'a == b': False, 'a != a': False, 'a != b': True, 'a == None': False, 'dict': (2, 1, 2)}
		for p in explore(make, run, 32):
			rep.absorb(p.I)
			w = loc(p.I, 'numga.flyweight:FlyweightMixin')
			if p.kind == 'undecided' or p.imprecise or p.conds:
				raise Undecided(f'{p.value} {p.imprecise[:1]} {p.conds[:1]}')
			if p.kind == 'raise':
				raise Violation(w, f'comparing or hashing subspaces raises {p.value}')
			for k, v in want.items():
				if p.value[k] != v:
					raise Violation(w, f'{k} is {p.value[k]} for distinct subspace objects a, b (identity semantics expected: {v})')
		return 'equality and hashing of subspaces is object identity'
	rep.run('equality is identity', R_KEY, go, 'FlyweightMixin')


# ---- 3. immutability -------------------------------------------------------

class Buf:
	def __init__(self, who):
		self.who = who


class BufArr(AV):
	"""array object: a buffer plus the writeable flag of this view"""
	def __init__(self, buf, writeable=True, dtype='uint8'):
		self.buf, self.writeable, self.dtype = buf, writeable, dtype
	def __repr__(self):
		return f'array of {self.buf.who}'
	def a_key(self):
		return ('id', id(self))
	def fresh(self, I):
		w = I.world
		r = BufArr(Buf('a fresh copy'))
		w.arrays.append(r)
		return r
	def view(self, I):
		r = BufArr(self.buf, self.writeable)
		I.world.arrays.append(r)
		return r
	def a_getattr(self, I, name):
		if name == 'flags':
			return Flags(self)
		if name == 'setflags':
			def f(I, a, k):
				w = k.get('write', a[0] if a else None)
				if w is not None:
					if not isinstance(w, (bool, int)):
						raise Unsupported('setflags')
					self.writeable = bool(w)
			return HostFn(f, name)
		if name in ('copy', 'flatten', 'argsort', 'astype', 'take', 'repeat', 'cumsum'):
			def f(I, a, k):
				if k.get('copy') is False:
					return self
				return self.fresh(I)
			return HostFn(f, name)
		if name in ('view', 'reshape', 'ravel', 'transpose', 'squeeze'):
			return HostFn(lambda I, a, k: self.view(I), name)
		if name == 'T':
			return self.view(I)
		if name == 'sort':
			return HostFn(lambda I, a, k: None, name)
		if name == 'base':
			return I.top('base')
		if name == 'dtype':
			return DTypeV('uint8')
		return Free(name)
	def a_setattr(self, I, name, v):
		raise Unsupported(f'.{name} =')
	def a_getitem(self, I, k):
		if isinstance(k, (slice, SliceV)) or k is ... or k is None:
			return self.view(I)
		if isinstance(k, tuple) and all(isinstance(x, (slice, SliceV)) or x is None or x is ... for x in k):
			return self.view(I)
		if isinstance(k, (BufArr, Free)):
			return self.fresh(I)
		return Free('element')
	def a_setitem(self, I, k, v):
		I.world.writes.append(self)
	def a_binop(self, I, op, other, refl):
		return self.fresh(I)
	def a_unop(self, I, op):
		return self.fresh(I)
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not'):
			return NotImplemented
		return self.fresh(I)
	def a_len(self, I):
		return Free('len')
	def a_isinstance(self, I, cls):
		return True if isinstance(cls, Ext) and cls.path == 'numpy.ndarray' else None
	def a_generic(self, I):
		return Free('element'), FBind()
	def a_bool(self, I):
		return I.decide(('truth of array',))


class FBind:
	label = None
	def seq(self, I, v, guards):
		return Free('list')


class Flags(AV):
	def __init__(self, arr):
		self.arr = arr
	def a_getattr(self, I, name):
		return self.arr.writeable if name == 'writeable' else Free(name)
	def a_setattr(self, I, name, v):
		if name == 'writeable':
			if not isinstance(v, (bool, int)):
				raise Unsupported('flags')
			self.arr.writeable = bool(v)
	def a_setitem(self, I, k, v):
		if k in ('WRITEABLE', 'W'):
			self.arr.writeable = bool(v)
		else:
			raise Unsupported('flags')


class Free(AV):
	"""value that owns no array storage; all branches on it are explored"""
	def __init__(self, what):
		self.what = what
	def __repr__(self):
		return f'Free({self.what})'
	def a_key(self):
		return ('Free', self.what)
	def a_getattr(self, I, name):
		return Free(name)
	def a_call(self, I, args, kw):
		return Free('call')
	def a_binop(self, I, op, other, refl):
		return Free('op')
	def a_unop(self, I, op):
		return Free('op')
	def a_cmp(self, I, op, other, refl):
		return Free('cmp')
	def a_getitem(self, I, k):
		return Free('item')
	def a_len(self, I):
		return Free('len')
	def a_contains(self, I, x):
		return Free('in')
	def a_str(self, I):
		return Free('str')
	def a_to_int(self, I, *a):
		return Free('int')
	def a_generic(self, I):
		return Free('element'), FBind()
	def a_bool(self, I):
		return I.decide(('branch', len(I.trace)))


FRESH = '''lexsort argsort sort unique where bitwise_and bitwise_or bitwise_xor bitwise_not invert concatenate copy
add subtract multiply left_shift right_shift take isin setdiff1d intersect1d union1d abs negative'''.split()
ALIAS = 'asarray asanyarray ascontiguousarray atleast_1d ravel squeeze reshape require'.split()


class BufWorld(BitsWorld):
	def __init__(self, n):
		BitsWorld.__init__(self, n)
		self.arrays, self.writes = [], []
		E = self.ext
		for nm in FRESH + ALIAS + ['array', 'frombuffer', 'broadcast_to']:
			E['numpy.' + nm] = self.model(nm, E.get('numpy.' + nm))
		self.intercepts['numga.algebra.bitops.bit_count'] = lambda I, a, k: BufArr(Buf('grades')) if any(isinstance(x, (BufArr, Free)) for x in a) else NotImplemented
		self.ext['numpy_indexed.all_unique'] = lambda I, a, k: True
		self.builtins['sorted'] = HostFn(lambda I, a, k: Free('list'), 'sorted')
		self.builtins['hash'] = HostFn(lambda I, a, k: Free('hash'), 'hash')
	def model(self, nm, old):
		def f(I, a, k):
			args = [x for y in a for x in (y if isinstance(y, (tuple, list)) else [y])]
			src = next((x for x in args if isinstance(x, BufArr)), None)
			if src is None:
				if any(isinstance(x, Free) for x in args):
					r = BufArr(Buf('a fresh array'))
					self.arrays.append(r)
					return r
				return old(I, a, k) if old else I.top(nm)
			if nm == 'broadcast_to':
				return BufArr(src.buf, False)
			if nm in ALIAS or nm == 'array' and k.get('copy') is False or nm == 'frombuffer':
				if I.decide(('no copy needed', nm)):
					return src
				return src.fresh(I)
			return src.fresh(I)
		return f
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], (BufArr, Free)):
			return Free(n)
		return BitsWorld.convert(self, I, n, a, k)


def immut_obligation(rep, order):
	def make():
		w = BufWorld(3)
		I = Interp(w)
		D = I.get('numga.algebra.description:AlgebraDescription')
		A = I.get('numga.algebra.algebra:Algebra')
		alg = I.call(A, [I.call(D, [('x', 'y', 'z'), (1, -1, 0)], {})], {})
		f = I.call(I.get(F), [alg] + ([] if order is None else [order]), {})
		I.setup = w, f
		I.imprecise.clear()
		return I
	def run(I):
		w, f = I.setup
		mine = BufArr(Buf("the caller's array"))
		s = I.call(I.getattr(f, 'from_blades'), [mine], {})
		return w, mine, s
	def paths():
		for p in explore(make, run, 128):
			rep.absorb(p.I)
			if p.kind == 'undecided':
				raise Undecided(p.value)
			if p.kind == 'raise':
				if p.value.kind == 'AssertionError':
					continue
				raise Undecided(f'raises {p.value}')
			w, mine, s = p.value
			b = s.attrs.get('blades') if isinstance(s, Obj) else None
			if not isinstance(b, BufArr):
				raise Undecided(f'blades {b!r}')
			yield p, mine, b
	def alias():
		for p, mine, b in paths():
			if b.buf is mine.buf:
				if p.imprecise:
					raise Undecided(p.imprecise[0])
				raise Violation(loc(p.I, S + '.__init__'), f'order={order!r}: the stored blades are a view on the array the caller passed in and change with it')
		return 'stored blades own their storage on every path'
	def flag():
		for p, mine, b in paths():
			if b.writeable:
				if p.imprecise:
					raise Undecided(p.imprecise[0])
				raise Violation(loc(p.I, S + '.__init__'), f'order={order!r}: the stored blades are left writeable')
		return 'stored blades are read-only on every path'
	rep.run(f'storage[{order}]', R_IMM, alias, 'SubSpace.__init__')
	rep.run(f'write protection[{order}]', R_IMM, flag, 'SubSpace.__init__')


def mentions_blades(e, names):
	for x in ast.walk(e):
		if isinstance(x, ast.Attribute) and x.attr == 'blades':
			return True
		if isinstance(x, ast.Name) and x.id in names:
			return True
	return False


def falsy(e):
	return isinstance(e, ast.Constant) and not e.value


def lint(rep, I0, called):
	"""package wide: the blades attribute is only bound in constructors, write
	protection is never lifted, and SubSpace objects are only built inside the
	canonicalising factory"""
	root = os.path.join(I0.repo, 'numga')
	found = {'rebound': [], 'unprotected': [], 'built': []}
	nsites = 0
	for d, _, fs in os.walk(root):
		if any(x in os.path.relpath(d, root).split(os.sep) for x in ('test', 'tests', 'examples', '__pycache__')):
			continue
		for fn in sorted(fs):
			if not fn.endswith('.py'):
				continue
			path = os.path.join(d, fn)
			rel = os.path.relpath(path, I0.repo)
			mod = rel[:-3].replace(os.sep, '.')
			try:
				tree = parse_file(path)
			except SyntaxError as e:
				raise Undecided(f'{rel}: {e}')
			aliases = set()
			for x in ast.walk(tree):
				if isinstance(x, ast.ImportFrom) and x.module and x.module.startswith('numga.subspace'):
					for al in x.names:
						if al.name == 'SubSpace':
							aliases.add(al.asname or al.name)
			if mod == 'numga.subspace.subspace':
				aliases.add('SubSpace')
			def scan(node, qual, cls, fname):
				nonlocal nsites
				for ch in ast.iter_child_nodes(node):
					q, c, f = qual, cls, fname
					if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
						q = f'{qual}.{ch.name}'
						if isinstance(ch, ast.ClassDef):
							c = ch.name
						else:
							f = ch.name
					if isinstance(ch, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
						ts = ch.targets if isinstance(ch, ast.Assign) else [ch.target]
						for t in ts:
							for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
								if isinstance(y, ast.Attribute) and y.attr == 'blades':
									nsites += 1
									own = isinstance(y.value, ast.Name) and f in ('__init__', '__post_init__', '__new__') and isinstance(ch, (ast.Assign, ast.AnnAssign))
									if not own:
										found['rebound'].append((rel, ch.lineno, q, 'blades attribute rebound outside a constructor'))
								if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Attribute) and y.value.attr == 'blades':
									found['rebound'].append((rel, ch.lineno, q, 'blades written in place'))
								if isinstance(y, ast.Attribute) and y.attr == 'writeable' and mentions_blades(y.value, ()):
									nsites += 1
									if isinstance(ch, ast.Assign) and isinstance(ch.value, ast.Constant) and ch.value.value:
										found['unprotected'].append((rel, ch.lineno, q, 'write protection of the blades lifted'))
					if isinstance(ch, ast.Call):
						g = ch.func
						if isinstance(g, ast.Attribute) and g.attr == 'setflags' and mentions_blades(g.value, ()):
							v = next((k.value for k in ch.keywords if k.arg == 'write'), ch.args[0] if ch.args else None)
							if isinstance(v, ast.Constant) and v.value:
								found['unprotected'].append((rel, ch.lineno, q, 'write protection of the blades lifted'))
						if mod.startswith('numga.subspace.base'):
							pass
						elif isinstance(g, ast.Name) and g.id in aliases or cls == 'SubSpace' and mod == 'numga.subspace.subspace' and (
								isinstance(g, ast.Attribute) and g.attr == '__class__' and isinstance(g.value, ast.Name) and g.value.id == 'self'
								or isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == 'type'):
							nsites += 1
							enc = {q, '.'.join(q.split('.')[:-1])}
							if not any(e in called for e in enc):
								found['built'].append((rel, ch.lineno, q, 'a SubSpace is constructed outside the canonicalising factory'))
					scan(ch, q, c, f)
			scan(tree, mod, None, None)
	rep.count('lint sites', nsites)
	def report(kind, msg):
		def go():
			if found[kind]:
				rel, line, q, m = found[kind][0]
				raise Violation(f'{rel}:{line} ({q})', m)
			return msg
		return go
	rep.run('blades bound once', R_IMM, report('rebound', 'only constructors bind .blades'), 'numga')
	rep.run('protection kept', R_IMM, report('unprotected', 'write protection is never lifted'), 'numga')
	rep.run('single construction site', R_KEY, report('built', 'SubSpace is constructed only on behalf of from_blades'), 'numga')


def main():
	rep = Report('C03', 'Abstract interpretation of the subspace factory, trace-partitioned: (1) the sort keys order_blades uses are evaluated symbolically over '
		'the whole blade domain and shown injective and grade-first for an array of unknown contents and order; (2) from_blades is run on a history of requests whose arrays '
		'collide in every attribute that does not determine the set; (3) buffer-ownership domain for the stored blades; (4) package-wide syntax query for rebinding, unprotecting or bypassing.',
		['numpy sort/lexsort/argsort semantics', 'np.array copies'])
	I0 = Interp(KeyWorld(2))
	I0.get(F)
	I0.get(S)
	ns = (1, 2, 3, 4, 5, 9) if os.environ.get('VERIF_TIER') != 'thorough' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
	for order in (None, 'blade', 'grade', 'fancy'):
		for n in ns:
			for sig in sigs(n):
				for kind, dt in (('list', 'int64'), ('array', None), ('array', 'int64')):
					if (kind, dt) != ('array', None) and (n > 2 and n != 9 or sig != sigs(n)[0]):
						continue
					order_obligation(rep, n, sig, order, kind, dt or ('uint8' if n <= 8 else 'uint16'))
	key_obligation(rep)
	identity_obligation(rep)
	for order in (None, 'blade', 'grade', 'fancy'):
		immut_obligation(rep, order)
	lint(rep, I0, set(rep.functions))
	return rep.finish()
