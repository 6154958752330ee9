"""Abstract domain of blade sets.

A set of blades is its indicator function, a boolean polynomial over the bits
x_i of a generic blade, the metric indicators, and opaque membership atoms of
arbitrary subspaces S, T.  Two abstract sets are equal iff they denote the same
set of blades for every S, T and every metric of that dimension.  An array of
blades is one generic blade plus the indicator of the blades that occur.
"""
from .core import *
from .bits import *
from .report import Violation, Undecided
from . import bits as _bits


class Outside(Exception):
	"""a blade with bits beyond the algebra's generators"""


class SetV(AV):
	"""python set / ordered collection of blades (indicator over kind 'x')"""
	def __init__(self, w, poly, dtype=None, listed=False, dup=False):
		self.w, self.poly, self.dtype, self.listed, self.dup = w, w.canon(poly), dtype, listed, dup
	def __repr__(self):
		return f'Set({self.w.vars.show(self.poly)})'
	def a_key(self):
		return ('SetV', self.poly)
	def other(self, I, v):
		p = self.w.set_of(I, v)
		return None if p is None else p[0]
	def op(self, I, name, args):
		p = self.poly
		for a in args:
			q = self.other(I, a)
			if q is None:
				return I.top('set operand')
			if name in ('intersection', '&'):
				p = conj(p, q)
			elif name in ('union', '|'):
				p = p ^ q ^ conj(p, q)
			elif name in ('difference', '-'):
				p = p ^ conj(p, q)
			else:
				p = p ^ q
		return SetV(self.w, p, self.dtype)
	def rel(self, I, name, a):
		q = self.other(I, a)
		if q is None:
			return I.top('set operand')
		p = self.poly
		if name in ('issubset', '<='):
			return EmptyV(self.w, p ^ conj(p, q))
		if name in ('issuperset', '>='):
			return EmptyV(self.w, q ^ conj(p, q))
		if name in ('<', '>'):
			return I.truth(self.rel(I, name + '=', a)) and I.truth(EmptyV(self.w, p ^ q, True))
		if name == 'isdisjoint':
			return EmptyV(self.w, conj(p, q))
		if name == '==':
			return EmptyV(self.w, p ^ q)
		if name == '!=':
			return EmptyV(self.w, p ^ q, True)
		return I.top(f'set {name}')
	def a_getattr(self, I, name):
		if name in ('intersection', 'union', 'difference', 'symmetric_difference'):
			return HostFn(lambda I, a, k: self.op(I, name, a), name)
		if name in ('issubset', 'issuperset', 'isdisjoint'):
			return HostFn(lambda I, a, k: self.rel(I, name, a[0]), name)
		if name == 'copy':
			return HostFn(lambda I, a, k: self, name)
		return I.top(f'set attribute {name}')
	def a_binop(self, I, op, other, refl):
		if op in ('&', '|', '-', '^'):
			if refl and op == '-':
				q = self.other(I, other)
				return I.top('set operand') if q is None else SetV(self.w, q ^ conj(q, self.poly), self.dtype)
			return self.op(I, op if op != '^' else 'symmetric', [other])
		if op == '+' and self.listed:
			q = self.other(I, other)
			if q is None:
				return I.top('list operand')
			return SetV(self.w, self.poly ^ q ^ conj(self.poly, q), self.dtype, True, self.dup or conj(self.poly, q) != ZERO)
		return NotImplemented
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!=', '<=', '>=', '<', '>') and not self.listed:
			return self.rel(I, op, other)
		return NotImplemented
	def a_len(self, I):
		return CountV(self.w, self.poly)
	def a_bool(self, I):
		return I.truth(EmptyV(self.w, self.poly, True))
	def a_contains(self, I, x):
		return self.w.member(I, self.poly, x)
	def a_same(self, I, listed):
		return SetV(self.w, self.poly, self.dtype, listed, self.dup and listed)
	def a_to_list(self, I):
		return self.a_same(I, True)
	def a_to_tuple(self, I):
		return self.a_same(I, True)
	def a_to_set(self, I):
		return self.a_same(I, False)
	a_to_frozenset = a_to_set
	def a_sorted(self, I, k):
		return self.a_same(I, True)
	def a_generic(self, I):
		return self.w.array(I, self.poly, self.dtype).a_generic(I)
	def a_iter(self, I):
		return self.w.array(I, self.poly, self.dtype).a_iter(I)
	def a_isinstance(self, I, cls):
		return isinstance(cls, HostType) and cls.name == ('list' if self.listed else 'set')


class CountV(AV):
	"""number of blades of a set"""
	def __init__(self, w, poly):
		self.w, self.poly = w, w.canon(poly)
	def a_key(self):
		return ('count', self.poly)
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, CountV) and other.poly == self.poly and op in ('==', '!=', '<=', '>=', '<', '>'):
			return op in ('==', '<=', '>=')
		if isinstance(other, int) and not isinstance(other, bool):
			c = self.w.const_elements(self.poly)
			if c is not None:
				return host_cmp(op, len(c), other)
			if (op, other) in (('==', 0), ('<', 1), ('<=', 0)):
				return EmptyV(self.w, self.poly)
			if (op, other) in (('!=', 0), ('>', 0), ('>=', 1)):
				return EmptyV(self.w, self.poly, True)
			return CountIs(self.w, self.poly, op, other)
		return NotImplemented
	def a_bool(self, I):
		return I.truth(EmptyV(self.w, self.poly, True))
	def a_to_int(self, I, *a):
		c = self.w.const_elements(self.poly)
		return self if c is None else len(c)
	def a_range(self, I, a):
		c = self.w.const_elements(self.poly)
		return None if c is None or len(a) != 1 else range(len(c))


class CountIs(AV):
	is_boolean = True
	def __init__(self, w, poly, op, n):
		self.w, self.poly, self.op, self.n = w, poly, op, n
	def a_key(self):
		return ('countis', self.poly, self.op, self.n)
	def a_bool(self, I):
		return I.decide(('countis', self.poly, self.op, self.n))


class EmptyV(AV):
	"""[the set is empty] (neg: its negation)"""
	is_boolean = True
	def __init__(self, w, poly, neg=False):
		self.w, self.poly, self.neg = w, w.canon(poly), neg
	def __repr__(self):
		return f'{"non" if self.neg else ""}empty({self.w.vars.show(self.poly)})'
	def a_key(self):
		return ('empty', self.poly, self.neg)
	def a_not(self, I):
		return EmptyV(self.w, self.poly, not self.neg)
	def const(self):
		if self.poly == ZERO:
			return not self.neg
		if self.w.free_of_unknowns(self.poly):
			return self.neg
		return None
	def a_bool(self, I):
		c = self.const()
		if c is not None:
			return c
		return I.decide(('empty', self.poly)) != self.neg
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!=', 'is', 'is not') and isinstance(other, bool):
			return self if (op in ('==', 'is')) == other else self.a_not(I)
		return NotImplemented
	def a_binop(self, I, op, other, refl):
		if isinstance(other, bool) and op in '&|':
			return (self if other else False) if op == '&' else (True if other else self)
		if isinstance(other, EmptyV) and op == '&' and not self.neg and not other.neg:
			p, q = self.poly, other.poly
			return EmptyV(self.w, p ^ q ^ conj(p, q))
		if isinstance(other, EmptyV) and op == '|' and self.neg and other.neg:
			p, q = self.poly, other.poly
			return EmptyV(self.w, p ^ q ^ conj(p, q), True)
		return NotImplemented


class IdxV(AV):
	"""positions, within the array labelled label, of the blades selected by a mask"""
	def __init__(self, w, label, mask):
		self.w, self.label, self.mask = w, label, mask
	def a_getitem(self, I, k):
		if k == 0 and isinstance(k, int):
			return self
		return I.top('index array')
	def a_iter(self, I):
		return [self]
	def a_to_list(self, I):
		return self


class FiltBinder(Binder):
	def __init__(self, w, label):
		Binder.__init__(self, label)
		self.w = w
	def seq(self, I, v, guards):
		m = ONE
		for g in guards:
			if g is True:
				continue
			if g is False:
				m = ZERO
				continue
			p = self.w.mask_poly(I, g)
			if p is None:
				return SeqOf(None, why='filtered')
			m = conj(m, p)
		lab = self.label if m == ONE else self.w.sub_label(self.label, m)
		if not isinstance(v, AV):
			if isinstance(v, (int, bool)):
				return SetSeq(self.w, IntV({}, int(v), 'int64', ()), lab)
			return SeqOf(v, lab)
		return SetSeq(self.w, v, lab)


class SetSeq(SeqOf):
	"""list built by a comprehension over the blades of an array"""
	def __init__(self, w, elem, label):
		SeqOf.__init__(self, elem, label)
		self.w = w
	def a_generic(self, I):
		return self.elem, FiltBinder(self.w, self.label)
	def a_len(self, I):
		return CountV(self.w, self.w.base_poly(self.label))
	def all_(self, I, neg):
		p = self.w.mask_poly(I, self.elem)
		if p is None:
			return I.top('all of unmodelled condition')
		f = self.w.filts[self.label]
		bad = conj(f, p if neg else p ^ ONE)
		return EmptyV(self.w, self.w.to_x(bad, self.w.root[self.label]), neg)
	def a_all(self, I):
		return self.all_(I, False)
	def a_any(self, I):
		return self.all_(I, True)
	def a_iter(self, I):
		c = self.w.const_label(self.label)
		if c is None or not isinstance(self.elem, Sized):
			raise Unsupported('iteration over abstract sequence')
		return [self.w.value_at(self.elem, self.label, x) for x in c]
	def a_bool(self, I):
		return I.truth(EmptyV(self.w, self.w.base_poly(self.label), True))
	def a_to_set(self, I):
		p = self.w.set_of(I, self)
		return SetV(self.w, p[0]) if p is not None else I.top('set')
	a_to_frozenset = a_to_set
	def a_getitem(self, I, k):
		c = self.w.const_label(self.label)
		if c is not None and isinstance(k, int) and isinstance(self.elem, Sized) and self.label in self.w.ordered:
			try:
				return self.w.value_at(self.elem, self.label, c[k])
			except IndexError:
				raise PyRaise('IndexError', 'list index out of range')
		return I.top('item of abstract sequence')


class ObjArr(AV):
	"""one dimensional object array"""
	def __init__(self, items):
		self.items = list(items)
	def a_len(self, I):
		return len(self.items)
	def a_iter(self, I):
		return list(self.items)
	def a_getattr(self, I, name):
		if name == 'shape':
			return (len(self.items),)
		if name == 'size':
			return len(self.items)
		if name in ('copy', 'tolist'):
			return HostFn(lambda I, a, k: ObjArr(self.items) if name == 'copy' else list(self.items), name)
		return I.top('object array attribute')
	def a_getitem(self, I, k):
		n = len(self.items)
		if isinstance(k, AV) and hasattr(k, 'a_to_int') and not isinstance(k, CArr):
			return I.top('object array index')
		if k is ...:
			return ObjArr(self.items)
		if isinstance(k, slice):
			return ObjArr(self.items[k])
		if isinstance(k, int) and not isinstance(k, bool):
			if not -n <= k < n:
				raise PyRaise('IndexError', 'index out of bounds')
			return self.items[k]
		if isinstance(k, CArr) and k.dtype == 'bool':
			if len(k.flat) != n:
				raise PyRaise('IndexError', 'boolean index did not match')
			return ObjArr([x for x, m in zip(self.items, k.flat) if m])
		ks = k.flat if isinstance(k, CArr) else [x.flat[0] if isinstance(x, CArr) and x.shape == () else x for x in k] if isinstance(k, list) else None
		if isinstance(k, CArr) and k.shape == ():
			return self.a_getitem(I, int(k.flat[0]))
		if ks is not None and all(isinstance(x, int) for x in ks):
			if ks and all(isinstance(x, bool) for x in ks):
				return ObjArr([x for x, m in zip(self.items, ks) if m])
			if any(not -n <= x < n for x in ks):
				raise PyRaise('IndexError', 'index out of bounds')
			return ObjArr([self.items[x] for x in ks])
		return I.top('object array index')


class FlagsV(AV):
	def a_setattr(self, I, name, v):
		pass
	def a_getattr(self, I, name):
		return I.top('flags')


class SetsWorld(BitsWorld):
	def __init__(self, n):
		BitsWorld.__init__(self, n)
		self.filts = {}     # axis label -> indicator over the label's own variables
		self.root = {}      # axis label -> variable kind
		self.ordered = set()
		self.fresh = 0
		set_models(self)
	# --- polynomials
	def canon(self, p):
		ex = self.vars.excl()
		if not ex:
			return p
		return frozenset(m for m in p if not any(m & e == e for e in ex))
	def inatom(self, S, kind, mask=0):
		return self.vars.atom(('in', S, kind, mask), 0)
	def to_x(self, p, kind):
		"""rename a label's variables to the canonical generic blade"""
		return self.rename(p, kind, 'x', 0)
	def rename(self, p, a, b, mask):
		"""substitute blade variable of kind a by (blade of kind b) xor mask"""
		V = self.vars
		if a == b and not mask:
			return p
		masks = sum(1 << V.var(a, i) for i in range(self.n) if mask >> i & 1)
		if masks:
			p = subst_not(p, masks)
		cache = {}
		out = set()
		for m in p:
			r, j = 0, 0
			while m >> j:
				if m >> j & 1:
					if j not in cache:
						k, i = V.names[j]
						if k == a:
							nk = b
						elif isinstance(k, tuple) and k[0] == 'in' and k[2] == a:
							nk = ('in', k[1], b, k[3] ^ mask)
						else:
							nk = k
						cache[j] = 1 << V.var(nk, i)
					r |= cache[j]
				j += 1
			out ^= {r}
		return frozenset(out)
	def kinds_in(self, p):
		out = set()
		seen = 0
		for m in p:
			seen |= m
		j = 0
		while seen >> j:
			if seen >> j & 1:
				out.add(self.vars.names[j][0])
			j += 1
		return out
	def free_of_unknowns(self, p):
		return all(k == 'x' for k in self.kinds_in(p))
	def minterm(self, kind, x):
		p = ONE
		for i in range(self.n):
			a = self.vars.atom(kind, i)
			p = conj(p, a if x >> i & 1 else a ^ ONE)
		return p
	def from_ints(self, xs, kind='x'):
		"""indicator of a constant set (Moebius transform of its truth table)"""
		t = [0] * (1 << self.n)
		for x in xs:
			t[x] ^= 1
		for i in range(self.n):
			for x in range(1 << self.n):
				if x >> i & 1:
					t[x] ^= t[x ^ (1 << i)]
		bit = [1 << self.vars.var(kind, i) for i in range(self.n)]
		return frozenset(sum(bit[i] for i in range(self.n) if x >> i & 1) for x in range(1 << self.n) if t[x])
	def at(self, p, kind, x):
		"""evaluate over one constant blade; other variables stay symbolic"""
		on = sum(1 << self.vars.var(kind, i) for i in range(self.n) if x >> i & 1)
		alln = sum(1 << self.vars.var(kind, i) for i in range(self.n))
		out = set()
		for m in p:
			if m & alln & ~on:
				continue
			out ^= {m & ~alln}
		return frozenset(out)
	def const_elements(self, p, kind='x'):
		"""blades of a constant set in canonical (graded) order, or None"""
		if any(k != kind for k in self.kinds_in(p)):
			return None
		if self.n > 7:
			return None
		out = [x for x in range(1 << self.n) if self.at(p, kind, x) == ONE]
		return sorted(out, key=lambda x: (bin(x).count('1'), x))
	# --- labels
	def base_poly(self, label):
		return self.to_x(self.filts[label], self.root[label])
	def const_label(self, label):
		return self.const_elements(self.filts[label], self.root[label]) if label in self.filts else None
	def sub_label(self, label, mask):
		self.fresh += 1
		l = f'{label}.{self.fresh}'
		self.root[l] = self.root[label]
		self.filts[l] = self.canon(conj(self.filts[label], mask))
		if label in self.ordered:
			self.ordered.add(l)
		return l
	def array(self, I, poly, dtype=None, ordered=False, label=None):
		x = self.singleton(poly)
		if x is not None:
			return BV([ONE if x >> i & 1 else ZERO for i in range(self.n)], dtype or self.blade_dtype, (1,))
		self.fresh += 1
		l = label or f'y{self.fresh}'
		self.root[l] = l
		self.filts[l] = self.rename(poly, 'x', l, 0)
		if ordered:
			self.ordered.add(l)
		return BV([self.vars.atom(l, i) for i in range(self.n)], dtype or self.blade_dtype, (l,))
	blade_dtype = 'uint8'
	def value_at(self, v, label, x):
		"""element of an array at a constant blade"""
		k = self.root[label]
		if isinstance(v, BV):
			bits = [self.at(b, k, x) for b in v.bits]
			if all(b in (ONE, ZERO) for b in bits):
				return CArr((), [sum(1 << i for i, b in enumerate(bits) if b == ONE)], v.dtype)
			return BV(bits, v.dtype, ())
		if isinstance(v, Tab) and v.var == k:
			g = bin(x).count('1')
			y = v.vals[g]
			return CArr((), [y], v.dtype)
		if isinstance(v, IntV):
			y = v.const
			left = {}
			for b, c in v.terms.items():
				b = self.at(b, k, x)
				if b == ONE:
					y += c
				elif b != ZERO:
					left[b] = left.get(b, 0) + c
			if left or v.mod is not None:
				return IntV(left, y, v.dtype, (), v.mod)
			return CArr((), [y], v.dtype)
		if isinstance(v, BoolV):
			S = [self.at(b, k, x) for b in v.S]
			r = BoolV(frozenset(S), v.neg, ())
			return r if r.const() is None else r.const()
		raise Unsupported('element of abstract array')
	# --- conversions
	def mask_poly(self, I, m):
		if isinstance(m, bool):
			return ONE if m else ZERO
		if isinstance(m, BoolV):
			m = m.as_int()
		if isinstance(m, Tab) and m.dtype == 'bool':
			return sym_anf(self, m.var, [1 if v else 0 for v in m.vals])
		if isinstance(m, Tab):
			return sym_anf(self, m.var, [1 if v else 0 for v in m.vals]) if set(m.vals) <= {0, 1} else None
		if isinstance(m, IntV) and m.is_bit():
			return m.as_bit()
		if isinstance(m, BV) and m.is_bit():
			return m.bit(0)
		return None
	def is_mask(self, m):
		return isinstance(m, BoolV) or (isinstance(m, (Tab, IntV)) and m.dtype == 'bool')
	def linear_bits(self, v):
		"""IntV sum c_i b_i + const as a bit vector (2**k - 1 - blade)"""
		bits, const = {}, v.const
		for b, c in v.terms.items():
			i = abs(c).bit_length() - 1
			if abs(c) != 1 << i or i in bits:
				return None
			bits[i] = b if c > 0 else b ^ ONE
			if c < 0:
				const -= 1 << i
		if const < 0:
			return None
		for i in range(const.bit_length()):
			if const >> i & 1:
				if i in bits:
					return None
				bits[i] = ONE
		return BV([bits.get(i, ZERO) for i in range(max(bits, default=-1) + 1)], v.dtype, v.axes)
	def set_of(self, I, v):
		"""(indicator over x, may contain duplicates) or None"""
		if isinstance(v, SetV):
			return v.poly, v.dup
		if isinstance(v, bool) or v is None:
			return None
		if isinstance(v, int):
			if not 0 <= v < 1 << self.n:
				raise Outside(f'blade {v} in an algebra of {self.n} generators')
			return self.minterm('x', v), False
		if isinstance(v, CArr):
			v = [int(x) for x in v.flat] if v.dtype != 'float64' or not v.flat else None
			if v is None:
				return None
		if isinstance(v, SeqOf):
			if v.why:
				return None
			if v.label is None:
				return self.set_of(I, v.elem)
			if isinstance(v.elem, Sized) and not v.elem.axes:
				return self.set_of(I, v.elem.clone(axes=(v.label,)))
			return None
		if isinstance(v, (list, tuple, set, frozenset, GenList, ObjArr)):
			vals = [unkey(x) for x in (v.items if isinstance(v, ObjArr) else list(v))]
			if all(isinstance(x, int) and not isinstance(x, bool) for x in vals):
				if any(not 0 <= x < 1 << self.n for x in vals):
					raise Outside(f'blades {vals} in an algebra of {self.n} generators')
				return self.from_ints(set(vals)), len(set(vals)) != len(vals)
			p, dup = ZERO, False
			for x in vals:
				q = self.set_of(I, x)
				if q is None:
					return None
				o = self.canon(conj(p, q[0]))
				dup = dup or q[1] or o != ZERO
				p = p ^ q[0] ^ o
			return p, dup
		if isinstance(v, IntV):
			v = self.linear_bits(v)
		if isinstance(v, BV):
			hi = [i for i in range(self.n, len(v.bits)) if self.canon(v.bit(i)) != ZERO]
			real = [a for a in v.axes if a != 1]
			if len(real) > 1:
				return None
			if real and real[0] in self.filts and hi:
				f = self.filts[real[0]]
				if any(self.canon(conj(f, v.bit(i))) != ZERO for i in hi):
					raise Outside(f'blades with bit {hi[0]} set in an algebra of {self.n} generators')
			elif hi:
				raise Outside(f'a blade with bit {hi[0]} set in an algebra of {self.n} generators')
			if not real:
				p = ONE
				for i in range(self.n):
					p = conj(p, self.vars.atom('x', i) ^ v.bit(i) ^ ONE)
				return self.canon(p), False
			L = real[0]
			if L not in self.filts:
				return None
			k = self.root[L]
			mask = 0
			for i in range(self.n):
				d = v.bit(i) ^ self.vars.atom(k, i)
				if d == ONE:
					mask |= 1 << i
				elif d != ZERO:
					break
			else:
				return self.canon(self.rename(self.filts[L], k, 'x', mask)), False
			c = self.const_label(L)
			if c is None:
				return None
			return self.set_of(I, [self.value_at(v, L, x) for x in c])
		return None
	def member(self, I, poly, x):
		"""[x in set] for an abstract or constant blade x"""
		if isinstance(x, CArr) and len(x.flat) == 1:
			x = int(x.flat[0])
		if isinstance(x, int):
			x = as_bv(x)
		if isinstance(x, IntV):
			x = self.linear_bits(x)
		if not isinstance(x, BV):
			return I.top('membership of unmodelled value')
		hi = [x.bit(i) for i in range(self.n, len(x.bits)) if x.bit(i) != ZERO]
		kinds = set().union(*(self.kinds_in(b) for b in x.bits)) if x.bits else set()
		kinds = {k for k in kinds if k not in ('m', 'z')}
		p = None
		if len(kinds) == 1:
			k = next(iter(kinds))
			mask = 0
			for i in range(self.n):
				d = x.bit(i) ^ self.vars.atom(k, i)
				if d == ONE:
					mask |= 1 << i
				elif d != ZERO:
					break
			else:
				# x = k ^ mask : substitute x := k ^ mask
				p = self.rename(poly, 'x', k, mask)
		if p is None:
			if any(isinstance(q, tuple) for q in self.kinds_in(poly)):
				return I.top('membership of a computed blade in an arbitrary subspace')
			p = ZERO
			sub = {self.vars.var('x', i): x.bit(i) for i in range(self.n)}
			for m in poly:
				t, j, rest = ONE, 0, 0
				while m >> j:
					if m >> j & 1:
						if j in sub:
							t = conj(t, sub[j])
						else:
							rest |= 1 << j
					j += 1
				p = p ^ conj(t, frozenset((rest,)))
		for h in hi:
			p = conj(p, h ^ ONE)
		p = self.canon(p)
		r = BoolV(frozenset((p ^ ONE,)), False, x.axes)
		return r if r.const() is None or x.axes else r.const()
	# --- hooks
	def bcast_check(self, axes):
		real = [a for a in axes if a != 1 and a in self.root]
		if len(real) > 1 and len({self.root[a] for a in real}) < len(real):
			raise Unsupported('outer combination of an array with itself')
	def bcast_mismatch(self, a, b):
		sizes = [self.const_label(x) for x in (a, b)]
		if None in sizes or len(sizes[0]) == len(sizes[1]) or 1 in (len(sizes[0]), len(sizes[1])):
			raise Unsupported('elementwise combination of two arrays of blades')
	def singleton(self, p):
		"""the blade of a constant one-element set, or None"""
		if not p or not self.free_of_unknowns(p):
			return None
		m = min(p, key=lambda m: (bin(m).count('1'), m))
		x = sum(1 << i for i in range(self.n) if m >> self.vars.var('x', i) & 1)
		if len(p) != 1 << self.n - bin(x).count('1') or p != self.minterm('x', x):
			return None
		return x
	def enumerate(self, v):
		c = self.const_label(v.axes[0])
		if c is None or len(v.axes) != 1:
			return None
		if v.axes[0] not in self.ordered:
			return None
		return [self.value_at(v, v.axes[0], x) for x in c]
	def generic_binder(self, label):
		return FiltBinder(self, label) if label in self.filts else None
	def length(self, v):
		if v.axes and v.axes[0] in self.filts:
			c = self.const_label(v.axes[0])
			return len(c) if c is not None else CountV(self, self.base_poly(v.axes[0]))
		return None
	def getitem(self, I, o, k):
		if isinstance(o, SeqOf) and isinstance(o, SetSeq) is False:
			return NotImplemented
		if isinstance(o, BV) and o.axes == (1,) and (self.is_mask(k) or isinstance(k, bool)):
			m = self.mask_poly(I, k)
			if m is None or getattr(k, 'axes', (1,)) != (1,):
				return I.top('mask outside the domain')
			p = self.set_of(I, o)
			return self.array(I, conj(p[0], m), o.dtype, True)
		if not isinstance(o, Sized) or len(o.axes) != 1 or o.axes[0] not in self.filts:
			return NotImplemented
		L = o.axes[0]
		if isinstance(k, tuple) and len(k) == 1:
			k = k[0]
		if isinstance(k, IdxV) and k.label == L:
			return o.clone(axes=(self.sub_label(L, k.mask),))
		if self.is_mask(k) and (k.axes == (L,)):
			p = self.mask_poly(I, k)
			if p is None:
				return I.top('mask outside the domain')
			return o.clone(axes=(self.sub_label(L, p),))
		if self.is_mask(k):
			return I.top('mask of another array')
		if isinstance(k, CArr) and k.dtype == 'bool' or isinstance(k, list) and k and all(isinstance(x, bool) for x in k):
			c = self.const_label(L)
			fl = k.flat if isinstance(k, CArr) else k
			if c is None or L not in self.ordered:
				return I.top('constant mask of abstract array')
			if len(fl) != len(c):
				raise PyRaise('IndexError', 'boolean index did not match')
			p = self.from_ints([x for x, m in zip(c, fl) if m], self.root[L])
			return o.clone(axes=(self.sub_label(L, p),))
		if isinstance(k, slice) and k == slice(None) or k is ...:
			return o
		c = self.const_label(L)
		if c is not None and L in self.ordered:
			ks = None
			if isinstance(k, CArr):
				ks = [int(x) for x in k.flat] if k.shape else int(k.flat[0])
			elif isinstance(k, (int, slice)) and not isinstance(k, bool):
				ks = k
			elif isinstance(k, (list, tuple)) and all(isinstance(x, int) for x in k):
				ks = list(k)
			if isinstance(ks, int):
				if not -len(c) <= ks < len(c):
					raise PyRaise('IndexError', 'index out of bounds')
				return self.value_at(o, L, c[ks])
			if isinstance(ks, (list, slice)):
				try:
					xs = c[ks] if isinstance(ks, slice) else [c[i] for i in ks]
				except (IndexError, TypeError):
					raise PyRaise('IndexError', 'index out of bounds')
				vals = [self.value_at(o, L, x) for x in xs]
				if all(isinstance(v, CArr) for v in vals):
					return CArr((len(vals),), [v.flat[0] for v in vals], o.dtype)
				return I.top('constant subset')
		if isinstance(k, (int, slice)) and not isinstance(k, bool):
			return I.top('element of an arbitrary subspace')
		return NotImplemented
	def convert(self, I, n, a, k):
		if not a:
			return NotImplemented
		v = a[0]
		if n in ('set', 'frozenset', 'list', 'tuple') and isinstance(v, (BV, SetSeq)) and getattr(v, 'axes', (1,)):
			p = self.set_of(I, v)
			if p is not None:
				if n in ('list', 'tuple') and isinstance(v, BV):
					e = self.enumerate(v)
					if e is not None:
						return e if n == 'list' else tuple(e)
					return SetSeq(self, v.clone(axes=()), v.axes[0]) if v.axes[0] in self.filts else SetV(self, p[0], v.dtype, True)
				return SetV(self, p[0], getattr(v, 'dtype', None), n in ('list', 'tuple'), p[1] and n in ('list', 'tuple'))
			return I.top('collection of unmodelled blades')
		if n in ('set', 'frozenset') and isinstance(v, (list, tuple, CArr)):
			vals = v.flat if isinstance(v, CArr) else v
			if vals and any(isinstance(x, (BV, CArr)) for x in vals):
				p = self.set_of(I, v)
				if p is not None:
					return SetV(self, p[0])
		return NotImplemented
	def make_set(self, I, r):
		r = list(r)
		if r and any(isinstance(x, (BV, CArr)) for x in r):
			p = self.set_of(I, r)
			if p is not None:
				return SetV(self, p[0])
		return NotImplemented
	def contains(self, I, c, x):
		if isinstance(c, (BV, SetSeq)) and isinstance(x, (BV, int, CArr, IntV)) and getattr(c, 'axes', (1,)):
			p = self.set_of(I, c)
			if p is not None:
				return self.member(I, p[0], x)
		if isinstance(c, (set, frozenset, list, tuple)) and isinstance(x, BV) and x.bits:
			p = self.set_of(I, c)
			if p is not None:
				return self.member(I, p[0], x)
		return NotImplemented


def set_models(w):
	E = w.ext
	def reg(*names):
		def d(f):
			for n in names:
				E[n] = f
			return f
		return d
	def sv(I, v):
		p = w.set_of(I, v)
		return None if p is None else p[0]
	def asel(I, v):
		return v if isinstance(v, Sized) else None
	def wrap(f):
		def g(I, a, k):
			ps = [w.set_of(I, x) for x in a[:2]]
			if any(p is None for p in ps):
				return I.top('set operation on unmodelled arrays')
			return w.array(I, f(*[p[0] for p in ps]), dtype=getattr(a[0], 'dtype', None) if isinstance(a[0], BV) and a[0].dtype in DT else None)
		return g
	union = lambda p, q: p ^ q ^ conj(p, q)
	inter = conj
	diff = lambda p, q: p ^ conj(p, q)
	E['numpy.union1d'] = E['numpy_indexed.union'] = wrap(union)
	E['numpy.intersect1d'] = E['numpy_indexed.intersection'] = wrap(inter)
	E['numpy.setdiff1d'] = E['numpy_indexed.difference'] = wrap(diff)
	E['numpy.setxor1d'] = E['numpy_indexed.exclusive'] = wrap(lambda p, q: p ^ q)
	base_isin = E['numpy.isin']
	def isin(I, a, k):
		v, c = a[0], a[1]
		if isinstance(v, BV) and v.axes:
			p = sv(I, c)
			if p is not None:
				r = w.member(I, p, v)
				if k.get('invert') is True and isinstance(r, BoolV):
					r = r.a_not(I)
				return r
		if isinstance(v, (int, BV)) and not isinstance(v, bool):
			p = sv(I, c)
			if p is not None:
				return w.member(I, p, v)
		r = base_isin(I, a, k)
		if k.get('invert') is True:
			return I.unop('~', r)
		return r
	E['numpy.isin'] = E['numpy.in1d'] = isin
	E['numpy_indexed.contains'] = lambda I, a, k: isin(I, [a[1], a[0]], {})
	E['numpy_indexed.in_'] = lambda I, a, k: isin(I, [a[0], a[1]], {})
	@reg('numpy_indexed.all_unique')
	def _(I, a, k):
		p = w.set_of(I, a[0])
		return I.top('all_unique') if p is None else not p[1]
	@reg('numpy_indexed.unique', 'numpy.unique')
	def _(I, a, k):
		if k or len(a) != 1:
			return I.top('unique')
		v = a[0]
		if isinstance(v, CArr):
			xs = sorted(set(v.flat))
			return CArr((len(xs),), xs, v.dtype)
		p = sv(I, v)
		return I.top('unique') if p is None else w.array(I, p)
	@reg('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.r_')
	def _(I, a, k):
		parts = a[0] if len(a) == 1 or k.get('axis') is not None or isinstance(a[0], (list, tuple, ObjArr)) else a
		if isinstance(parts, AV) and not isinstance(parts, (ObjArr,)):
			return I.top('concatenate')
		vals = list(I.iterate(parts))
		if not vals:
			raise PyRaise('ValueError', 'need at least one array to concatenate')
		if all(isinstance(v, CArr) for v in vals):
			fl = [x for v in vals for x in v.flat]
			return CArr((len(fl),), fl, vals[0].dtype)
		if not all(isinstance(v, (BV, CArr, SetV, list)) for v in vals):
			return I.top('concatenate')
		p = w.set_of(I, vals)
		if p is None:
			return I.top('concatenate')
		if p[1]:
			return SetV(w, p[0], listed=True, dup=True)
		return w.array(I, p[0])
	base_arr = E['numpy.array']
	def array(I, a, k):
		v = a[0]
		d = dtname(k.get('dtype', a[1] if len(a) > 1 else None))
		obj = k.get('dtype', a[1] if len(a) > 1 else None)
		if isinstance(v, SetV):
			return v if v.dup else w.array(I, v.poly, d)
		if isinstance(v, SetSeq):
			return v.array(I)
		if isinstance(v, ObjArr):
			return v
		if isinstance(v, (list, tuple, GenList)):
			vals = list(v)
			if any(isinstance(x, Sized) and [a for a in x.axes if a != 1] for x in vals) or isinstance(obj, HostType) and obj.name == 'object' or obj is _object(I):
				return ObjArr(vals)
			if vals and any(isinstance(x, (BV, CArr, IntV)) for x in vals) and all(isinstance(x, (BV, CArr, IntV, int)) for x in vals):
				ints = [const_int(x) for x in vals]
				if all(x is not None for x in ints):
					dt = d or next(x.dtype for x in vals if isinstance(x, (BV, CArr, IntV)))
					return CArr((len(ints),), ints, dt if dt in DT else 'int64')
				if len(vals) == 1:
					return vals[0].clone(axes=(1,))
		return base_arr(I, a, k)
	E['numpy.array'] = E['numpy.asarray'] = E['numpy.ascontiguousarray'] = E['numpy.atleast_1d'] = array
	def _object(I):
		return I.builtin_env.get('object')
	def const_int(x):
		if isinstance(x, bool):
			return None
		if isinstance(x, int):
			return x
		if isinstance(x, CArr) and len(x.flat) == 1:
			return int(x.flat[0])
		if isinstance(x, IntV) and not x.terms and x.mod is None and not [a for a in x.axes if a != 1]:
			return x.const
		if isinstance(x, BV) and not [a for a in x.axes if a != 1] and all(b in (ONE, ZERO) for b in x.bits):
			return sum(1 << i for i, b in enumerate(x.bits) if b == ONE)
		return None
	@reg('numpy.fromiter')
	def _(I, a, k):
		return array(I, a, k)
	@reg('numpy_indexed.group_by')
	def _(I, a, k):
		keys = a[0]
		vals = a[1] if len(a) > 1 else k.get('values')
		if vals is None:
			return HostFn(lambda I, b, kk: group(I, keys, b[0]), 'group_by')
		return group(I, keys, vals)
	def group(I, keys, vals):
		if isinstance(keys, IntV):
			keys = keys.to_tab(I)
		if isinstance(keys, CArr) and isinstance(vals, CArr) and len(keys.flat) == len(vals.flat):
			ks = sorted(set(keys.flat))
			out = [[x for q, x in zip(keys.flat, vals.flat) if q == g] for g in ks]
			return (CArr((len(ks),), ks, keys.dtype), [CArr((len(o),), o, vals.dtype) for o in out])
		if not isinstance(keys, Tab) or not isinstance(vals, Sized) or keys.axes != vals.axes or len(vals.axes) != 1 or vals.axes[0] not in w.filts:
			return I.top(f'group_by {keys} {vals}')
		L = vals.axes[0]
		c = w.const_label(L)
		if w.filts[L] == ONE:
			ks = sorted(set(keys.vals))
		elif c is None:
			return I.top('group_by of arbitrary subspace')
		else:
			ks = sorted({keys.vals[bin(x).count('1')] for x in c})
		out = []
		for g in ks:
			m = sym_anf(w, keys.var, [1 if v == g else 0 for v in keys.vals])
			out.append(vals.clone(axes=(w.sub_label(L, m),)))
		return (CArr((len(ks),), ks, keys.dtype), out)
	@reg('numpy_indexed.indices')
	def _(I, a, k):
		return IndicesV(a[0], a[1])
	@reg('numpy.searchsorted')
	def _(I, a, k):
		return SearchV(a[0], a[1]) if len(a) == 2 and not k else I.top('searchsorted')
	@reg('numpy.array_equal')
	def _(I, a, k):
		x, y = a[0], a[1]
		if isinstance(x, CArr) and isinstance(y, CArr):
			return x.shape == y.shape and list(x.flat) == list(y.flat)
		return I.top('array_equal')
	@reg('numpy.flatnonzero')
	def _(I, a, k):
		m = a[0]
		if isinstance(m, (Sized,)) and len(m.axes) == 1:
			p = w.mask_poly(I, m if w.is_mask(m) else I.compare('!=', m, 0))
			if p is not None:
				return IdxV(w, m.axes[0], p)
		return I.top('flatnonzero')
	E['numpy.nonzero'] = lambda I, a, k: (lambda r: (r,) if isinstance(r, IdxV) else r)(E['numpy.flatnonzero'](I, a, k))
	base_where = E['numpy.where']
	E['numpy.where'] = lambda I, a, k: E['numpy.nonzero'](I, a, k) if len(a) == 1 else base_where(I, a, k)
	@reg('numpy.compress', 'numpy.extract')
	def _(I, a, k):
		return w.getitem(I, a[1], a[0]) if isinstance(a[1], Sized) and w.is_mask(a[0]) else I.top('compress')
	@reg('numpy.sort')
	def _(I, a, k):
		v = a[0]
		if isinstance(v, CArr):
			return CArr(v.shape, sorted(v.flat), v.dtype) if len(v.shape) == 1 else I.top('sort')
		p = sv(I, v)
		return I.top('sort') if p is None else w.array(I, p)
	for nm, neg in (('all', False), ('any', True)):
		def mk(nm, neg):
			base = E['numpy.' + nm]
			def f(I, a, k):
				m = a[0]
				if isinstance(m, (SetSeq,)):
					return m.all_(I, neg)
				if isinstance(m, Sized) and len(m.axes) == 1 and m.axes[0] in w.filts and (k.get('axis', None) in (None, 0, -1)) and len(a) == 1:
					p = w.mask_poly(I, m if w.is_mask(m) else I.compare('!=', m, 0))
					if p is None:
						return I.top('all of unmodelled mask')
					L = m.axes[0]
					return EmptyV(w, w.to_x(conj(w.filts[L], p if neg else p ^ ONE), w.root[L]), neg)
				return base(I, a, k)
			E['numpy.' + nm] = f
		mk(nm, neg)
	base_ar = E['numpy.arange']
	def arange(I, a, k):
		v = a[0]
		d = dtname(k.get('dtype'))
		if len(a) == 1 and isinstance(v, int) and w.n >= 2 and v == 1 << w.n:
			return w.array(I, ONE, d or 'int64', ordered=True, label=None)
		return base_ar(I, a, k)
	E['numpy.arange'] = arange


class SearchV(AV):
	"""insertion points found by bisection of a"""
	def __init__(self, a, b):
		self.a, self.b = a, b


class IndicesV(AV):
	"""positions within a of each entry of b"""
	def __init__(self, a, b):
		self.a, self.b = a, b
