"""Order domain: arrays of *unknown* blades in *unknown* order.

OrdArr stands for any array holding some set of blades of the algebra; what is
tracked is how its order came about (arbitrary input order, or sorted by a
tuple of keys, stable or not).  Elementwise functions of it are FnV: their
value at every one of the 2^n possible blades, under numpy's promotion and
wrap-around rules, so a sort key is compared on the whole domain at once.
"""
from .core import *
from .bits import *
from .bits import DT, dtname, promote


def npint(d):
	return d in DT and not d.startswith('float') and d != 'bool'


def wrapv(v, d):
	if npint(d):
		w, s = DT[d]
		v = int(v) & ((1 << w) - 1)
		return v - (1 << w) if s and v >> (w - 1) else v
	if d == 'bool':
		return bool(v)
	return float(v)


def scalar_dt(v, d):
	"""value based casting of a python / 0-d scalar against an array of dtype d"""
	if isinstance(v, bool):
		return d
	if isinstance(v, float):
		return d if d.startswith('float') else 'float64'
	if d.startswith('float'):
		return d
	if d == 'bool':
		return 'int64'
	w, s = DT[d]
	if s and -(1 << (w - 1)) <= v < (1 << (w - 1)) or not s and 0 <= v < (1 << w):
		return d
	for c in ('int8', 'int16', 'int32', 'int64') if v < 0 else ('uint8', 'uint16', 'uint32', 'uint64'):
		cw, cs = DT[c]
		if (-(1 << (cw - 1)) <= v < (1 << (cw - 1))) if cs else 0 <= v < (1 << cw):
			return promote(d, c)
	return 'int64'


class FnV(AV):
	def __init__(self, base, vals, dtype):
		self.base, self.vals, self.dtype = base, list(vals), dtype
	def __repr__(self):
		return f'FnV({self.dtype})'
	def a_key(self):
		return ('FnV', id(self.base), tuple(self.vals), self.dtype)
	def carr(self):
		return CArr((len(self.vals),), self.vals, self.dtype)
	def map(self, f, d):
		return FnV(self.base, [wrapv(f(v), d) for v in self.vals], d)
	def a_binop(self, I, op, other, refl):
		o = as_fn(self.base, other)
		if o is None:
			return I.top('elementwise with unknown')
		if isinstance(o, FnV):
			if o.base is not self.base:
				return I.top('differently ordered arrays combined')
			d = promote(self.dtype, o.dtype)
			ys = o.vals
		else:
			d = scalar_dt(o, self.dtype)
			ys = [o] * len(self.vals)
		if d is None:
			return I.top('dtype')
		if op == '/':
			d = 'float64'
		if d == 'bool' and op not in '&|^':
			d = 'int8'
		out = []
		for x, y in zip(self.vals, ys):
			a, b = (y, x) if refl else (x, y)
			try:
				out.append(wrapv(host_binop(op, a, b), d))
			except (ZeroDivisionError, ValueError, OverflowError):
				return I.top('elementwise')
		return FnV(self.base, out, d)
	def a_unop(self, I, op):
		if op == '-':
			return self.map(lambda v: -v, self.dtype)
		if op == '+':
			return self
		if op == '~':
			return self.map((lambda v: not v) if self.dtype == 'bool' else (lambda v: ~v), self.dtype)
		if op == 'abs':
			return self.map(abs, self.dtype)
		return I.top('unop')
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not'):
			return NotImplemented
		o = as_fn(self.base, other)
		if o is None:
			return I.top('comparison with unknown')
		ys = o.vals if isinstance(o, FnV) else [o] * len(self.vals)
		if isinstance(o, FnV) and o.base is not self.base:
			return I.top('differently ordered arrays compared')
		return FnV(self.base, [host_cmp(op, x, y) for x, y in zip(self.vals, ys)], 'bool')
	def a_bool(self, I):
		s = {bool(v) for v in self.vals}
		if len(s) == 1:
			return s.pop()
		return I.decide(('truth of', self))
	def a_to_int(self, I, *a):
		return self.map(int, 'int64')
	def a_getattr(self, I, name):
		if name == 'dtype':
			return DTypeV(self.dtype)
		if name == 'astype':
			return HostFn(lambda I, a, k: self.map(lambda v: v, dtname(a[0])) if dtname(a[0]) in DT or dtname(a[0]) == 'bool' else I.top('astype'), name)
		if name in ('copy', 'ravel', 'flatten', 'tolist', 'item'):
			return HostFn(lambda I, a, k: self, name)
		if name == 'argsort':
			return HostFn(lambda I, a, k: argsort(I, [self] + a, k), name)
		if name in ('size', 'shape', 'ndim'):
			return I.getattr(self.base, name)
		return I.top(f'elementwise .{name}')
	def a_getitem(self, I, key):
		if isinstance(key, ArgSort) and key.base is self.base:
			return FnSorted(self, key)
		return I.top('index of elementwise value')
	def a_index_host(self, I, seq):
		try:
			return FnV(self.base, [seq[int(v)] for v in self.vals], 'int64')
		except Exception:
			return I.top('lookup')


class FnSorted(AV):
	def __init__(self, f, idx):
		self.f, self.idx = f, idx


class Ordering:
	"""('in',) or sorted by keys on top of a previous ordering"""
	def __init__(self, keys=None, stable=True, prev=None):
		self.keys, self.stable, self.prev = keys, stable, prev
	def chain(self):
		"""all effective keys, primary first; None as last entry if unstable"""
		if self.keys is None:
			return []
		out = [list(k.vals) for k in self.keys]
		if self.stable and self.prev is not None:
			out += self.prev.chain()
		return out


class OrdArr(AV):
	def __init__(self, world, order=None, dtype='uint8', caller=False, kind='array'):
		self.world, self.order, self.dtype, self.caller, self.kind = world, order or Ordering(), dtype, caller, kind
		self.dups = False
	def __repr__(self):
		return f'OrdArr'
	def ident(self):
		return FnV(self.ver(), [wrapv(b, self.dtype) for b in range(1 << self.world.n)], self.dtype)
	def ver(self):
		return self.order
	def new(self, **kw):
		d = dict(order=self.order, dtype=self.dtype, kind=self.kind)
		d.update(kw)
		return OrdArr(self.world, **d)
	def a_generic(self, I):
		f = self.ident()
		return f, Spread(self)
	def a_binop(self, I, op, other, refl):
		return self.ident().a_binop(I, op, unord(other), refl)
	def a_unop(self, I, op):
		return self.ident().a_unop(I, op)
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not'):
			return NotImplemented
		return self.ident().a_cmp(I, op, unord(other), refl)
	def a_bool(self, I):
		return I.decide(('truth of array',))
	def a_len(self, I):
		return I.top('number of blades')
	def a_getattr(self, I, name):
		if name == 'dtype':
			return DTypeV(self.dtype)
		if name == 'sort':
			def f(I, a, k):
				key, rev = k.get('key'), k.get('reverse', False)
				ks = keyfn(I, self, key) if key is not None else [self.ident()]
				if ks is None or rev not in (True, False):
					raise Unsupported('sort key')
				self.order = Ordering([negate(x) for x in ks] if rev else ks, kind_stable(a, k) or self.kind == 'list', self.order)
			return HostFn(f, name)
		if name == 'argsort':
			return HostFn(lambda I, a, k: argsort(I, [self] + a, k), name)
		if name == 'astype':
			def f(I, a, k):
				d = dtname(a[0])
				return self.new(dtype=d) if d in DT else I.top('astype')
			return HostFn(f, name)
		if name in ('copy', 'ravel', 'flatten', 'view', 'tolist'):
			def f(I, a, k):
				if a or k:
					return I.top(name)
				return self.new(kind='list' if name == 'tolist' else self.kind)
			return HostFn(f, name)
		if name == 'ndim':
			return 1
		if name == 'size':
			return I.top('number of blades')
		return I.top(f'.{name} of blade array')
	def a_getitem(self, I, key):
		if isinstance(key, ArgSort):
			if key.base is not self.order:
				return I.top('index from another order')
			ks = key.keys
			o = Ordering(ks, key.stable, self.order)
			return self.new(order=o)
		if isinstance(key, slice) and key == slice(None, None, None):
			return self.new()
		if isinstance(key, slice) and key == slice(None, None, -1):
			k = self.order.keys
			if k is None:
				return self.new()
			chain = self.order
			return self.new(order=reverse(chain))
		return I.top('index of blade array')


def reverse(o):
	if o is None or o.keys is None:
		return Ordering()
	return Ordering([negate(k) for k in o.keys], o.stable, reverse(o.prev))


class Spread:
	"""comprehension over an OrdArr"""
	def __init__(self, arr):
		self.arr, self.label = arr, None
	def seq(self, I, v, guards):
		if guards:
			return I.top('filtered blades')
		if isinstance(v, FnV):
			if v.vals == self.arr.ident().vals:
				return self.arr.new(kind='list')
			return v
		return I.top('sequence')


class ArgSort(AV):
	def __init__(self, base, keys, stable):
		self.base, self.keys, self.stable = base, keys, stable
	def a_getitem(self, I, key):
		if isinstance(key, slice) and key == slice(None, None, -1):
			return ArgSort(self.base, [negate(k) for k in self.keys], False)
		return I.top('argsort index')
	def a_getattr(self, I, name):
		if name in ('astype', 'copy', 'tolist'):
			return HostFn(lambda I, a, k: self, name)
		return I.top('argsort attribute')


def negate(k):
	return FnV(k.base, [-int(v) for v in k.vals], 'int64')


def unord(v):
	return v.ident() if isinstance(v, OrdArr) else v


def as_fn(base, v):
	v = unord(v)
	if isinstance(v, FnV):
		return v
	if isinstance(v, (int, float, bool)):
		return v
	if isinstance(v, CArr) and len(v.flat) == 1:
		# 0-d array scalars keep their kind, value based against the array
		return v.flat[0]
	return None


def kind_stable(a, k):
	kd = k.get('kind', a[1] if len(a) > 1 else None)
	return kd in ('stable', 'mergesort') or k.get('stable') is True


def keyfn(I, arr, key):
	r = I.call(key, [arr.ident()], {})
	return keytuple(arr, r)


def keytuple(arr, r):
	if isinstance(r, OrdArr):
		r = r.ident()
	if isinstance(r, FnV):
		return [r]
	if isinstance(r, CArr) and len(r.flat) == 1:
		r = r.flat[0]
	if isinstance(r, (int, float, bool)):
		return [FnV(arr.order, [r] * (1 << arr.world.n), 'int64')]
	if isinstance(r, (tuple, list)):
		out = []
		for x in r:
			k = keytuple(arr, x)
			if k is None:
				return None
			out += k
		return out
	return None


def argsort(I, a, k):
	v = unord(a[0])
	if not isinstance(v, FnV):
		return I.top('argsort')
	return ArgSort(v.base, [v], kind_stable(a, k))


def lexsort(I, a, k):
	keys = a[0]
	if not isinstance(keys, (tuple, list)) or not keys:
		return I.top('lexsort')
	ks = [unord(x) for x in keys]
	if not all(isinstance(x, FnV) for x in ks) or len({id(x.base) for x in ks}) != 1:
		return I.top('lexsort')
	return ArgSort(ks[0].base, list(reversed(ks)), True)


ELEMENTWISE = '''where bitwise_and bitwise_or bitwise_xor bitwise_not invert add subtract multiply negative abs absolute mod remainder
floor_divide left_shift right_shift not_equal equal less less_equal greater greater_equal logical_not logical_and logical_or logical_xor
minimum maximum'''.split()

LIFTED = ['numga.algebra.bitops.bit_count', 'numga.algebra.bitops.parity_to_sign']


class OrderWorld(BitsWorld):
	def __init__(self, n):
		BitsWorld.__init__(self, n)
		self.busy = set()
		for q in LIFTED:
			self.intercepts[q] = self.lift(q)
		E = self.ext
		old = dict(E)
		ops = dict(bitwise_and='&', bitwise_or='|', bitwise_xor='^', add='+', subtract='-', multiply='*', mod='%', remainder='%',
			floor_divide='//', left_shift='<<', right_shift='>>')
		def wrap(name, f):
			o = old.get('numpy.' + name)
			def g(I, a, k):
				if any(isinstance(x, (OrdArr, FnV)) for x in a):
					r = f(I, a, k)
					d = dtname(k['dtype']) if k.get('dtype') is not None else None
					if d and isinstance(r, FnV):
						r = r.map(lambda v: v, d)
					return r
				return o(I, a, k) if o else I.top(name)
			E['numpy.' + name] = g
		for nm, op in ops.items():
			wrap(nm, (lambda op: lambda I, a, k: I.binop(op, unord(a[0]), unord(a[1])))(op))
		for nm, op in (('equal', '=='), ('not_equal', '!='), ('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>=')):
			wrap(nm, (lambda op: lambda I, a, k: I.compare(op, unord(a[0]), unord(a[1])))(op))
		for nm, op in (('negative', '-'), ('invert', '~'), ('bitwise_not', '~')):
			wrap(nm, (lambda op: lambda I, a, k: unord(a[0]).a_unop(I, op))(op))
		for nm in ('abs', 'absolute'):
			wrap(nm, lambda I, a, k: unord(a[0]).a_unop(I, 'abs'))
		wrap('logical_not', lambda I, a, k: unord(a[0]).map(lambda v: not v, 'bool'))
		wrap('where', self.where)
		wrap('minimum', lambda I, a, k: self.where(I, [I.compare('<=', unord(a[0]), unord(a[1])), a[0], a[1]], {}))
		wrap('maximum', lambda I, a, k: self.where(I, [I.compare('>=', unord(a[0]), unord(a[1])), a[0], a[1]], {}))
		wrap('argsort', argsort)
		wrap('unique', lambda I, a, k: I.top('unique') if k or len(a) > 1 or not isinstance(a[0], OrdArr) else a[0].new(order=Ordering([a[0].ident()], True), kind='array'))
		wrap('sort', self.np_sort)
		wrap('size', lambda I, a, k: I.top('number of blades'))
		E['numpy.lexsort'] = lexsort
		for nm in ('array', 'asarray', 'ascontiguousarray', 'atleast_1d', 'copy', 'asanyarray'):
			wrap(nm, self.array)
		wrap('fromiter', self.array)
		for d in DT:
			wrap(d, (lambda d: lambda I, a, k: self.array(I, a, dict(dtype=d)))(d))
		self.builtins['sorted'] = HostFn(self.sorted, 'sorted')
		for nm in ('list', 'tuple'):
			self.builtins[nm] = self.builtins.get(nm)
		self.builtins = {k: v for k, v in self.builtins.items() if v is not None}
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], OrdArr):
			if n in ('list', 'tuple'):
				return a[0].new(kind='list')
			if n in ('set', 'frozenset'):
				return a[0].new(order=Ordering(), kind='list')
		if a and isinstance(a[0], FnV) and n in ('int', 'float', 'bool'):
			return a[0].map(lambda v: v, 'int64')
		return BitsWorld.convert(self, I, n, a, k)
	def array(self, I, a, k):
		v = a[0]
		d = dtname(k.get('dtype', a[1] if len(a) > 1 else None)) if (k.get('dtype') is not None or len(a) > 1) else None
		if d is not None and d not in DT and d != 'bool':
			return I.top('dtype')
		if isinstance(v, OrdArr):
			return v.new(dtype=d or ('int64' if v.kind == 'list' else v.dtype), kind='array')
		return v.map(lambda x: x, d) if d else v
	def where(self, I, a, k):
		if len(a) != 3:
			return I.top('where')
		base = next(unord(x).base for x in a if isinstance(x, (OrdArr, FnV)))
		c, x, y = (as_fn(base, v) for v in a)
		if c is None or x is None or y is None:
			return I.top('where of unknown')
		N = 1 << self.n
		dt = [v.dtype for v in (x, y) if isinstance(v, FnV)]
		if not dt:
			d = 'float64' if any(isinstance(v, float) for v in (x, y)) else 'int64'
		elif len(dt) == 2:
			d = promote(*dt)
		else:
			d = scalar_dt(next(v for v in (x, y) if not isinstance(v, FnV)), dt[0])
		g = lambda v, i: v.vals[i] if isinstance(v, FnV) else v
		return FnV(base, [wrapv(g(x, i) if g(c, i) else g(y, i), d) for i in range(N)], d)
	def np_sort(self, I, a, k):
		if not isinstance(a[0], OrdArr):
			return I.top('sort')
		return a[0].new(order=Ordering([a[0].ident()], kind_stable(a, k), a[0].order), kind='array')
	def sorted(self, I, a, k):
		v = a[0]
		if isinstance(v, FnV):
			return I.top('sorted values')
		if not isinstance(v, OrdArr):
			return I.sort_values(list(I.iterate(v)), k.get('key'), k.get('reverse', False))
		key, rev = k.get('key'), k.get('reverse', False)
		ks = keyfn(I, v, key) if key is not None else [v.ident()]
		if ks is None or rev not in (True, False):
			return I.top('sorted')
		return v.new(order=Ordering([negate(x) for x in ks] if rev else ks, True, v.order), kind='list')
	def lift(self, q):
		def h(I, args, kw):
			vs = list(args) + list(kw.values())
			fs = [unord(x) for x in vs if isinstance(x, (OrdArr, FnV))]
			if not fs or q in self.busy:
				return NotImplemented
			base = fs[0].base
			if any(f.base is not base for f in fs):
				return I.top('differently ordered arrays')
			conv = lambda x: unord(x).carr() if isinstance(x, (OrdArr, FnV)) else x
			self.busy.add(q)
			try:
				m, _, f = q.rpartition('.')
				r = I.call(I.get(f'{m}:{f}'), [conv(x) for x in args], {k: conv(v) for k, v in kw.items()})
			finally:
				self.busy.discard(q)
			if isinstance(r, CArr) and r.shape == (1 << self.n,):
				return FnV(base, r.flat, r.dtype)
			return I.top(q)
		return h
