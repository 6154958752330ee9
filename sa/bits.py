"""Abstract domain of basis blades.

An array of basis blades is abstracted by one *generic* blade: bit i is a
boolean polynomial (algebraic normal form over GF(2)) in the indicator variables
of the operands and of the metric.  Integer arrays derived from blades are
linear forms over such bits, or tables over the grade of one operand.  Two
abstract values are equal iff the functions they denote are equal for every
blade and every metric of that dimension.
"""
from .core import *

ONE = frozenset((0,))
ZERO = frozenset()
MAXANF = 60000


class Vars:
	"""variable numbering: a_i, b_i, ... and metric m_i (negative) z_i (null)"""
	def __init__(self, n):
		self.n = n
		self.idx = {}
		self.names = []
	def var(self, kind, i):
		k = (kind, i)
		if k not in self.idx:
			self.idx[k] = len(self.names)
			self.names.append(k)
		return self.idx[k]
	def atom(self, kind, i):
		return frozenset((1 << self.var(kind, i),))
	def excl(self):
		"""monomials m_i z_i vanish: a generator is not both negative and null"""
		return [(1 << self.idx[('m', i)]) | (1 << self.idx[('z', i)]) for i in range(self.n) if ('m', i) in self.idx and ('z', i) in self.idx]
	def show(self, p):
		def mono(m):
			if m == 0:
				return '1'
			return ''.join(f'{k}{i}' for j, (k, i) in enumerate(self.names) if m >> j & 1)
		s = sorted(mono(m) for m in p)
		return '+'.join(s[:6]) + ('+...' if len(s) > 6 else '') if s else '0'


def xor(p, q):
	return p ^ q


def conj(p, q):
	if len(p) * len(q) > MAXANF * 4:
		raise Unsupported('boolean polynomial too large')
	if p == ONE:
		return q
	if q == ONE:
		return p
	out = set()
	for a in p:
		for b in q:
			m = a | b
			if m in out:
				out.remove(m)
			else:
				out.add(m)
	return frozenset(out)


def subst_not(p, masks):
	"""substitute x -> 1+x for every variable whose bit is in masks"""
	out = set()
	for m in p:
		terms = [m & ~masks]
		for j in range(m.bit_length()):
			if (m & masks) >> j & 1:
				terms = [t for t in terms] + [t | (1 << j) for t in terms]
		for t in terms:
			out ^= {t}
		if len(out) > MAXANF:
			raise Unsupported('polynomial too large')
	return frozenset(out)


DT = {'uint8': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False),
	'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True), 'bool': (8, False),
	'float64': (64, True), 'float32': (32, True), 'intp': (64, True), 'bool_': (8, False), 'ubyte': (8, False), 'ushort': (16, False), 'uintc': (32, False), 'int_': (64, True), 'uint': (64, False)}


def dtname(d):
	if d is None:
		return None
	if isinstance(d, Ext):
		n = d.path.split('.')[-1]
	elif isinstance(d, DTypeV):
		n = d.name
	elif isinstance(d, HostType):
		n = {'int': 'int64', 'float': 'float64', 'bool': 'bool'}.get(d.name)
	elif isinstance(d, str):
		n = d
	else:
		n = None
	n = {'bool_': 'bool', 'intp': 'int64', 'ubyte': 'uint8', 'ushort': 'uint16', 'uintc': 'uint32', 'int_': 'int64', 'uint': 'uint64', 'u1': 'uint8', 'i1': 'int8'}.get(n, n)
	if n not in DT:
		return None
	return n


def promote(a, b):
	if a == b:
		return a
	if a is None or b is None:
		return None
	if a == 'py':
		return b
	if b == 'py':
		return a
	if 'float64' in (a, b) or 'float32' in (a, b):
		return 'float64'
	if a == 'bool':
		return b
	if b == 'bool':
		return a
	(wa, sa), (wb, sb) = DT[a], DT[b]
	if sa == sb:
		return a if wa >= wb else b
	u, s = (wb, wa) if sa else (wa, wb)
	if s > u:
		return f'int{s}'
	return f'int{min(u * 2, 64)}' if u < 64 else 'float64'


class DTypeV(AV):
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return f'dtype({self.name})'
	def a_getattr(self, I, name):
		if name == 'itemsize' and self.name in DT:
			return DT[self.name][0] // 8
		if name == 'type':
			return self
		return I.top(f'dtype.{name}')
	def a_call(self, I, args, kw):
		return astype(I, args[0], self.name)
	def a_cmp(self, I, op, other, refl):
		n = dtname(other)
		if n is None or op not in ('==', '!='):
			return NotImplemented
		return (n == self.name) == (op == '==')
	def a_key(self):
		return ('dtype', self.name)


class DimTok(AV):
	def __init__(self, label):
		self.label = label
	def __repr__(self):
		return f'|{self.label}|'
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, DimTok) and op in ('==', '!='):
			if other.label == self.label:
				return op == '=='
		if isinstance(other, int) and not isinstance(other, bool):
			# symbolic axes are non-empty (the empty set is its own partition), possibly of size one
			if other <= 0 and op in ('==', '<', '<=') and not (op == '<=' and other == 0 and False):
				return False
			if other <= 0 and op in ('!=', '>', '>=') or other == 1 and op == '>=':
				return True
			if other == 1 and op == '<':
				return False
		return NotImplemented
	def a_bool(self, I):
		return True
	def a_key(self):
		return ('dim', self.label)


class Tok(AV):
	def __init__(self, kind, v):
		self.kind, self.v = kind, v
	def __repr__(self):
		return f'{self.kind}({self.v})'
	def a_setattr(self, I, name, v):
		if self.kind != 'flags':
			raise Unsupported(f'setattr {name} on {self}')


def array_isinstance(cls, certain):
	if isinstance(cls, PyClass):
		return False
	if isinstance(cls, Ext) and cls.path == 'numpy.ndarray' and certain:
		return True
	if isinstance(cls, HostType) and certain:
		return False
	return None


class Sized(AV):
	"""array-like: has an axes label tuple (1 for broadcast axes)"""
	axes = ()
	def clone(self, **kw):
		raise NotImplementedError
	def a_isinstance(self, I, cls):
		return array_isinstance(cls, len(self.axes) > 0)
	def shape_attr(self):
		return tuple(1 if a == 1 else DimTok(a) for a in self.axes)
	def a_getattr(self, I, name):
		if name == 'shape':
			return self.shape_attr()
		if name == 'ndim':
			return len(self.axes)
		if name == 'dtype':
			return DTypeV(self.dtype)
		if name == 'T':
			return self.clone(axes=tuple(reversed(self.axes)))
		if name in ('size',):
			return DimTok(self.axes)
		if name == 'data':
			return Tok('buffer', self)
		if name == 'strides':
			return (Tok('strides', self),)
		if name == 'astype':
			return HostFn(lambda I, a, k: digits(I, self, a[0]) if a and dtname(a[0]) is None else astype(I, self, dtname(a[0] if a else k.get('dtype'))), 'astype')
		if name in ('copy', 'item', '__copy__'):
			return HostFn(lambda I, a, k: self, 'copy')
		if name == 'setflags':
			return HostFn(lambda I, a, k: None, name)
		if name in ('flatten', 'ravel', 'squeeze') and len(self.axes) <= 1:
			return HostFn(lambda I, a, k: self, name)
		if name in ('reshape',):
			return HostFn(lambda I, a, k: reshape(I, self, a, k), name)
		if name == 'flags':
			return Tok('flags', self)
		if name == 'tolist':
			return HostFn(lambda I, a, k: SeqOf(self) if len(self.axes) else self, 'tolist')
		if name == 'view':
			return HostFn(lambda I, a, k: view(I, self, a, k), 'view')
		if name in ('sum', 'any', 'all', 'max', 'min', 'take', 'nonzero', 'mean'):
			return HostFn(lambda I, a, k: I.call_ext('numpy.' + name, [self] + a, k), name)
		return I.top(f'array attribute {name}')
	def a_getitem(self, I, key):
		ks = key if isinstance(key, tuple) else (key,)
		if all(k is None or k is ... or (isinstance(k, slice) and k == slice(None)) for k in ks):
			n_used = sum(1 for k in ks if isinstance(k, slice))
			out = []
			ax = list(self.axes)
			rest = len(ax) - n_used
			if rest < 0:
				raise PyRaise('IndexError', 'too many indices')
			seen_ell = False
			for k in ks:
				if k is None:
					out.append(1)
				elif k is ...:
					seen_ell = True
					for _ in range(rest):
						out.append(ax.pop(0))
				else:
					out.append(ax.pop(0))
			out.extend(ax)
			return self.clone(axes=tuple(out))
		return self.index(I, ks)
	def index(self, I, ks):
		n = len([k for k in ks if k is not None and k is not ...])
		if all(k is None or k is ... or (isinstance(k, slice) and k == slice(None)) or (isinstance(k, int) and not isinstance(k, bool)) for k in ks) and n <= len(self.axes):
			ax, out = list(self.axes), []
			for k in ks:
				if k is None:
					out.append(1)
				elif k is ...:
					for _ in range(len(self.axes) - n):
						out.append(ax.pop(0))
				elif isinstance(k, slice):
					out.append(ax.pop(0))
				else:
					x = ax.pop(0)
					if x != 1:
						return I.top('element of a symbolic axis')
					if k not in (0, -1):
						raise PyRaise('IndexError', 'out of bounds')
			return self.clone(axes=tuple(out + ax))
		return I.top('array indexing')
	def a_len(self, I):
		if not self.axes:
			raise PyRaise('TypeError', 'len() of unsized object')
		h = I.world.length(self)
		if h is not None:
			return h
		return DimTok(self.axes[0]) if self.axes[0] != 1 else 1
	def a_generic(self, I):
		if not self.axes or self.axes[0] == 1 or I.world.enumerate(self) is not None:
			return None
		return self.clone(axes=self.axes[1:]), I.world.generic_binder(self.axes[0]) or Binder(self.axes[0])
	def a_iter(self, I):
		if self.axes and self.axes[0] == 1:
			return [self.clone(axes=self.axes[1:])]
		e = I.world.enumerate(self) if self.axes else None
		if e is not None:
			return e
		raise Unsupported('iteration over abstract array')


class Binder:
	"""generic iteration over one labelled axis"""
	def __init__(self, label):
		self.label = label
	def seq(self, I, v, guards):
		if any(g is not True for g in guards):
			return SeqOf(None, why='filtered')
		return SeqOf(v, self.label)


class SeqOf(AV):
	"""list with one entry per element of an axis"""
	def __init__(self, elem, label=None, why=None):
		self.elem, self.label, self.why = elem, label, why
	def a_generic(self, I):
		if self.why:
			return None
		if self.label is None:
			return self.elem.a_generic(I)
		return self.elem, Binder(self.label)
	def array(self, I):
		if self.why:
			return I.top('filtered sequence')
		if self.label is None:
			return self.elem
		if isinstance(self.elem, Sized):
			return self.elem.clone(axes=(self.label,) + self.elem.axes)
		if isinstance(self.elem, (int, bool)):
			return IntV({}, int(self.elem), 'int64', (self.label,))
		return I.top('sequence')
	def a_len(self, I):
		return DimTok(self.label if self.label is not None else self.elem.axes[0])
	def a_to_list(self, I):
		return self
	a_to_tuple = a_to_list


def bcast(I, *axs):
	n = max(len(a) for a in axs)
	out = []
	for i in range(n):
		cur = 1
		for a in axs:
			j = i - (n - len(a))
			if j < 0 or a[j] == 1:
				continue
			if cur == 1:
				cur = a[j]
			elif cur != a[j]:
				I.world.bcast_mismatch(cur, a[j])
				raise PyRaise('ValueError', f'operands could not be broadcast together: {axs}')
		out.append(cur)
	I.world.bcast_check(out)
	return tuple(out)


class BV(Sized):
	"""bit-blade array; bits: list of ANF; width: storage bits (None: python int)"""
	def __init__(self, bits, dtype, axes=()):
		w = DT[dtype][0] if dtype in DT else None
		bits = list(bits)
		if w is not None:
			bits = bits[:w]
		while bits and bits[-1] == ZERO:
			bits.pop()
		self.bits, self.dtype, self.axes = tuple(bits), dtype, tuple(axes)
	def __repr__(self):
		return f'BV[{self.dtype}]{self.axes}'
	def clone(self, **kw):
		return BV(kw.get('bits', self.bits), kw.get('dtype', self.dtype), kw.get('axes', self.axes))
	def a_key(self):
		return ('BV', self.bits, self.axes)
	def bit(self, i):
		return self.bits[i] if i < len(self.bits) else ZERO
	def to_int(self):
		return mk_int([(b, 1 << i) for i, b in enumerate(self.bits)], 0, self.dtype, self.axes)
	def a_binop(self, I, op, other, refl):
		if op in ('&', '|', '^'):
			o = as_bv(other)
			if o is None:
				return NotImplemented
			n = max(len(self.bits), len(o.bits))
			f = {'&': conj, '^': xor, '|': lambda p, q: p ^ q ^ conj(p, q)}[op]
			dt = bvdt(self, o)
			return BV([f(self.bit(i), o.bit(i)) for i in range(n)], dt, bcast(I, self.axes, o.axes))
		if op in ('<<', '>>') and not refl and isinstance(other, int):
			return self.shift(other if op == '<<' else -other)
		if op in ('%',) and not refl and isinstance(other, int) and other > 0 and other & (other - 1) == 0:
			return BV(self.bits[:other.bit_length() - 1], self.dtype, self.axes)
		if op == '//' and not refl and isinstance(other, int) and other > 0 and other & (other - 1) == 0:
			return self.shift(-(other.bit_length() - 1))
		if op in ('+', '-', '*', '%', '//', '**'):
			if op == '*' and not refl and isinstance(other, int) and other > 0 and other & (other - 1) == 0 and self.dtype not in DT:
				return self.shift(other.bit_length() - 1)
			# disjoint addition is or
			o = as_bv(other)
			if op == '+' and o is not None and all(self.bit(i) == ZERO or o.bit(i) == ZERO for i in range(max(len(self.bits), len(o.bits)))) and (len(self.bits) > 1 or len(o.bits) > 1):
				return self.a_binop(I, '|', other, refl)
			return I.binop(op, other, self.to_int()) if refl else I.binop(op, self.to_int(), other)
		return NotImplemented
	def shift(self, k):
		if k >= 0:
			return BV([ZERO] * k + list(self.bits), self.dtype, self.axes)
		return BV(self.bits[-k:], self.dtype, self.axes)
	def a_unop(self, I, op):
		if op == '~' and self.dtype in DT and not DT[self.dtype][1]:
			w = DT[self.dtype][0]
			return BV([self.bit(i) ^ ONE for i in range(w)], self.dtype, self.axes)
		if op == '+':
			return self
		return self.to_int().a_unop(I, op)
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!=') and isinstance(other, int):
			if other == 0:
				z = BoolV(frozenset(b for b in self.bits if b != ZERO), False, self.axes)
				return z if op == '==' else z.a_not(I)
			diff = BV([self.bit(i) ^ (ONE if other >> i & 1 else ZERO) for i in range(max(len(self.bits), other.bit_length()))], self.dtype, self.axes)
			return diff.a_cmp(I, op, 0, False)
		if op in ('==', '!=') and isinstance(other, BV):
			d = self.a_binop(I, '^', other, False)
			return d.a_cmp(I, op, 0, False)
		if op in ('>', '>=') and other in (0, 1) and isinstance(other, int) and (op, other) in (('>', 0), ('>=', 1)):
			return self.a_cmp(I, '!=', 0, False)
		if op in ('<', '<=') and isinstance(other, int) and (op, other) in (('<', 1), ('<=', 0)):
			return self.a_cmp(I, '==', 0, False)
		return self.to_int().a_cmp(I, op, other, refl)
	def a_bool(self, I):
		return I.truth(self.a_cmp(I, '!=', 0, False))
	def a_to_int(self, I, *a):
		return self
	def a_str(self, I):
		if len(self.bits) <= 1:
			return BitStr([self.bit(0)])
		return I.top('str of blade')
	def a_index_host(self, I, seq):
		return table_lookup(I, list(seq), self)
	def a_select(self, I, x, y):
		return bit_select(self, x, y)
	def is_bit(self):
		return len(self.bits) <= 1


def bvdt(a, b):
	if a.dtype not in DT:
		return b.dtype
	if b.dtype not in DT:
		return a.dtype
	# value based casting of 0-d operands (numpy < 2)
	if not a.axes and b.axes and a.dtype.startswith('u') == b.dtype.startswith('u'):
		return b.dtype
	if not b.axes and a.axes and a.dtype.startswith('u') == b.dtype.startswith('u'):
		return a.dtype
	return promote(a.dtype, b.dtype)


def as_bv(v):
	if isinstance(v, BV):
		return v
	if isinstance(v, bool):
		v = int(v)
	if isinstance(v, int) and v >= 0:
		return BV([ONE if v >> i & 1 else ZERO for i in range(v.bit_length())], 'py', ())
	if isinstance(v, CArr) and v.shape == ():
		return BV(as_bv(int(v.flat[0])).bits, v.dtype, ())
	if isinstance(v, IntV) and v.is_bit():
		return BV([v.as_bit()], v.dtype, v.axes)
	return None


def bit_select(v, x, y):
	"""v is one bit: select x where set else y"""
	b = v.as_bit() if isinstance(v, IntV) else v.bit(0)
	if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
		return mk_int([(b, int(x) - int(y))], int(y), 'py', v.axes)
	return NotImplemented


def mk_int(terms, const, dtype, axes, mod=None):
	d = {}
	for b, c in terms:
		if b == ZERO or c == 0:
			continue
		if b == ONE:
			const += c
			continue
		d[b] = d.get(b, 0) + c
		if d[b] == 0:
			del d[b]
	return IntV(d, const, dtype, axes, mod)


class IntV(Sized):
	"""const + sum coef*[bit]; exact, or known modulo 2**mod after wrap-around"""
	def __init__(self, terms, const, dtype, axes, mod=None):
		self.terms, self.const, self.dtype, self.axes = dict(terms), const, dtype, tuple(axes)
		self.mod = mod
		if dtype in DT and dtype not in ('float64', 'float32'):
			lo, hi = self.bounds()
			w, s = DT[dtype]
			mn, mx = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
			if lo < mn or hi > mx or mod is not None:
				self.mod = min(w, mod) if mod is not None else w
	def __repr__(self):
		return f'IntV[{self.dtype}]({self.const}+{len(self.terms)} terms{" mod 2^%d" % self.mod if self.mod else ""}){self.axes}'
	def clone(self, **kw):
		return IntV(self.terms, self.const, kw.get('dtype', self.dtype), kw.get('axes', self.axes), self.mod)
	def a_key(self):
		return ('IntV', frozenset(self.terms.items()), self.const, self.axes, self.mod)
	def bounds(self):
		return (self.const + sum(c for c in self.terms.values() if c < 0), self.const + sum(c for c in self.terms.values() if c > 0))
	def is_bit(self):
		return self.mod is None and self.const == 0 and (not self.terms or (len(self.terms) == 1 and list(self.terms.values()) == [1])) or (self.mod is None and not self.terms and self.const in (0, 1)) or (self.mod is None and self.const == 1 and list(self.terms.values()) == [-1])
	def as_bit(self):
		if not self.terms:
			return ONE if self.const else ZERO
		b = next(iter(self.terms))
		return b if self.const == 0 else b ^ ONE
	def is_sign(self):
		return self.mod is None and ((self.const == 1 and (not self.terms or (len(self.terms) == 1 and list(self.terms.values()) == [-2]))) or (self.const == -1 and (not self.terms or list(self.terms.values()) == [2])))
	def sign_parity(self):
		p = next(iter(self.terms)) if self.terms else ZERO
		return p if self.const == 1 else p ^ ONE
	def parity(self):
		p = ONE if self.const % 2 else ZERO
		for b, c in self.terms.items():
			if c % 2:
				p = p ^ b
		return p
	def grade_var(self, I):
		"""(var, coefficient) if the linear form is c*grade(var)+const"""
		n = I.world.n
		V = I.world.vars
		if not self.terms or self.mod is not None:
			return None
		cs = set(self.terms.values())
		if len(cs) != 1 or len(self.terms) != n:
			return None
		kind = None
		for b in self.terms:
			if len(b) != 1:
				return None
			m = next(iter(b))
			if m & (m - 1) or m == 0:
				return None
			k, i = V.names[m.bit_length() - 1]
			if kind is None:
				kind = k
			if k != kind or k in ('m', 'z'):
				return None
		return kind, cs.pop()
	def to_tab(self, I):
		if not self.terms and self.mod is None:
			return None
		g = self.grade_var(I)
		if g is None:
			return None
		return Tab(g[0], tuple(self.const + g[1] * k for k in range(I.world.n + 1)), self.dtype, self.axes)
	def a_binop(self, I, op, other, refl):
		if isinstance(other, BV):
			other = other.to_int()
		if isinstance(other, CArr) and other.shape == ():
			other = IntV({}, int(other.flat[0]), other.dtype, ())
		if isinstance(other, float) and other == int(other):
			other = int(other)
		if isinstance(other, BoolV) and op in ('*',):
			return other.a_binop(I, op, self, not refl)
		if isinstance(other, BoolV):
			t = other.as_int()
			if t is None:
				return NotImplemented
			other = t
		if isinstance(other, bool):
			other = int(other)
		if isinstance(other, int):
			dt = self.dtype
			if dt in DT and not DT[dt][1] and other < 0 and op in ('+', '-', '*', '//'):
				dt = {'uint8': 'int16', 'uint16': 'int32', 'uint32': 'int64', 'bool': 'int64'}.get(dt, 'int64')
			elif dt in DT and op in ('+', '-', '*') and abs(other) >= 1 << (DT[dt][0] - (1 if DT[dt][1] else 0)):
				dt = 'int64'
			elif dt == 'bool':
				dt = 'int64'
			if op == '+':
				return IntV(self.terms, self.const + other, dt, self.axes, self.mod)
			if op == '-':
				if refl:
					return IntV({b: -c for b, c in self.terms.items()}, other - self.const, dt, self.axes, self.mod)
				return IntV(self.terms, self.const - other, dt, self.axes, self.mod)
			if op == '*':
				return mk_int([(b, c * other) for b, c in self.terms.items()], self.const * other, dt, self.axes, self.mod)
			if op == '<<' and not refl and 0 <= other < 64 and self.dtype in ('py', 'int64', 'uint64') and self.mod is None:
				return mk_int([(b, c << other) for b, c in self.terms.items()], self.const << other, self.dtype, self.axes)
			if op == '%' and not refl and other == 2:
				return mk_int([(self.parity(), 1)], 0, self.dtype, self.axes)
			if op == '&' and other == 1:
				return mk_int([(self.parity(), 1)], 0, self.dtype, self.axes)
			if op == '**' and refl and other in (-1, 1):
				if other == 1:
					return IntV({}, 1, self.dtype, self.axes)
				return mk_int([(self.parity(), -2)], 1, 'int64', self.axes)
			if op == '**' and not refl and other == 0:
				return IntV({}, 1, self.dtype, self.axes)
			if op in ('//', '>>') and not refl and other >= 0:
				k = other if op == '>>' else (other.bit_length() - 1 if other > 0 and other & (other - 1) == 0 else None)
				if k == 0:
					return self
				t = self.to_tab(I)
				if t is not None:
					return t.a_binop(I, op, other, refl)
				if k is not None and self.mod is None:
					d = self.digits()
					if d is not None:
						return mk_int([(b, 1 << i) for i, b in enumerate(d[k:])], 0, self.dtype, self.axes)
			t = self.to_tab(I)
			if t is not None:
				return t.a_binop(I, op, other, refl)
			if op == '&' and self.mod is None:
				d = self.digits()
				if d is not None:
					return BV(d, self.dtype, self.axes).a_binop(I, op, other, refl)
			if op in ('%', '//', '>>', '&', '|', '^') and not refl:
				r = self.lift_small(lambda v: host_binop(op, v, other), self.dtype)
				if r is not None:
					return r
			return NotImplemented
		if isinstance(other, IntV):
			ax = bcast(I, self.axes, other.axes)
			dt = promote(self.dtype, other.dtype)
			if dt == 'bool' and op in ('+', '*'):
				dt = 'int64'
			mods = [m for m in (self.mod, other.mod) if m is not None]
			mod = min(mods) if mods else None
			if op in ('+', '-'):
				a, b = (other, self) if refl else (self, other)
				s = 1 if op == '+' else -1
				return mk_int(list(a.terms.items()) + [(k, s * c) for k, c in b.terms.items()], a.const + s * b.const, dt, ax, mod)
			if op == '*':
				if not self.terms:
					return IntV({}, 0, dt, ax) if self.const == 0 else mk_int([(k, c * self.const) for k, c in other.terms.items()], other.const * self.const, dt, ax, other.mod)
				if not other.terms:
					return mk_int([(k, c * other.const) for k, c in self.terms.items()], other.const * self.const, dt, ax, self.mod)
				if self.is_sign() and other.is_sign():
					return mk_int([(self.sign_parity() ^ other.sign_parity(), -2)], 1, dt, ax)
				if self.is_bit() and other.is_bit():
					return mk_int([(conj(self.as_bit(), other.as_bit()), 1)], 0, dt, ax)
				if len(self.terms) * len(other.terms) <= 2000 and mod is None:
					t = [(conj(p, q), c * d) for p, c in self.terms.items() for q, d in other.terms.items()]
					t += [(p, c * other.const) for p, c in self.terms.items()] + [(q, d * self.const) for q, d in other.terms.items()]
					return mk_int(t, self.const * other.const, dt, ax)
			if op in ('^', '&', '|') and self.is_bit() and other.is_bit():
				return BV([self.as_bit()], self.dtype, self.axes).a_binop(I, op, BV([other.as_bit()], other.dtype, other.axes), refl).to_int()
			if op in ('%', '//', '**') and not (other.terms if not refl else self.terms):
				return self.a_binop(I, op, other.const, refl) if not other.terms else NotImplemented
			t, u = self.to_tab(I), other.to_tab(I)
			if t is not None and u is not None and t.var == u.var:
				return t.a_binop(I, op, u, refl)
			return NotImplemented
		if isinstance(other, Tab):
			t = self.to_tab(I)
			if t is not None and t.var == other.var:
				return t.a_binop(I, op, other, refl)
			if op == '*' and self.is_sign() and other.is_sign():
				return Sgn.of(self).mul(I, Sgn.of(other))
			if not self.terms:
				return I.binop(op, self.const, other) if not refl else I.binop(op, other, self.const)
			return NotImplemented
		if isinstance(other, Sgn) and op == '*' and self.is_sign():
			return Sgn.of(self).mul(I, other)
		return NotImplemented
	def small(self):
		"""[(value, indicator polynomial)] of a linear form with few bits, or None"""
		if self.mod is not None or len(self.terms) > 6 or any(len(b) > 40 for b in self.terms):
			return None
		out = {self.const: ONE}
		for b, c in self.terms.items():
			nxt = {}
			for v, p in out.items():
				for w, q in ((v + c, conj(p, b)), (v, conj(p, b ^ ONE))):
					nxt[w] = nxt.get(w, ZERO) ^ q
			out = nxt
			if sum(len(p) for p in out.values()) > 20000:
				return None
		return [(v, p) for v, p in out.items() if p != ZERO]
	def lift_small(self, f, dtype):
		"""f applied to the value, as an IntV / BoolV; None when out of reach"""
		t = self.small()
		if t is None:
			return None
		by = {}
		for v, p in t:
			try:
				r = f(v)
			except Exception:
				return None
			by[r] = by.get(r, ZERO) ^ p
		by = {r: p for r, p in by.items() if p != ZERO}
		if all(isinstance(r, bool) for r in by):
			return BoolV(frozenset((by.get(True, ZERO),)), True, self.axes)
		if not all(isinstance(r, int) for r in by):
			return None
		if set(by) <= {1, -1}:
			return mk_int([(by.get(-1, ZERO), -2)], 1, dtype, self.axes)
		base = min(by, key=abs)
		return mk_int([(p, r - base) for r, p in by.items()], base, dtype if len(by) <= 2 else 'int64', self.axes)
	def digits(self):
		"""binary digits (ANF) of a nonnegative linear form"""
		if self.mod is not None or self.const < 0 or any(c < 0 for c in self.terms.values()):
			return None
		bits = []
		for b, c in self.terms.items():
			if c > 64:
				return None
			bits += [b] * c
		bits += [ONE] * self.const
		# elementary symmetric polynomials e_{2^k} mod 2
		total = len(bits)
		if total == 0:
			return []
		K = total.bit_length()
		need = 1 << (K - 1)
		if total > 12:
			need = min(need, 2)
			return None if total > 40 else self._digits_ripple(bits)
		e = [ONE] + [ZERO] * need
		for b in bits:
			for k in range(need, 0, -1):
				e[k] = e[k] ^ conj(e[k - 1], b)
		return [e[1 << k] for k in range(K)]
	def _digits_ripple(self, bits):
		return None
	def a_unop(self, I, op):
		if op == '-':
			return self.a_binop(I, '*', -1, False) if not (self.dtype in DT and not DT[self.dtype][1]) else IntV({b: -c for b, c in self.terms.items()}, -self.const, self.dtype, self.axes, DT[self.dtype][0])
		if op == '+':
			return self
		if op == 'abs':
			if self.bounds()[0] >= 0 and self.mod is None:
				return self
			t = self.to_tab(I)
			if t is not None:
				return t.a_unop(I, op)
		return I.top(f'{op} int')
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, CArr) and other.shape == ():
			other = int(other.flat[0])
		if isinstance(other, IntV) and not other.terms and other.mod is None:
			other = other.const
		if isinstance(other, bool):
			other = int(other)
		if isinstance(other, int):
			t = self.to_tab(I)
			if t is not None:
				return t.a_cmp(I, op, other, refl)
			if self.mod is not None:
				# compared after wrap-around: the value is not the intended integer
				return Wrapped(self, f'{op} {other}')
			lo, hi = self.bounds()
			if lo == hi:
				return host_cmp(op, lo, other)
			nonneg = self.const == 0 and all(c > 0 for c in self.terms.values())
			if nonneg:
				z = BoolV(frozenset(self.terms), False, self.axes)
				if (op, other) in (('==', 0), ('<', 1), ('<=', 0)):
					return z
				if (op, other) in (('!=', 0), ('>', 0), ('>=', 1)):
					return z.a_not(I)
			if self.is_bit():
				b = self.as_bit()
				if op in ('==', '!='):
					if other in (0, 1):
						v = BoolV(frozenset((b,)), False, self.axes)
						return v if (op == '==') == (other == 0) else v.a_not(I)
					return op == '!='
			if op in ('==', '!=') and len(self.terms) == 1:
				(b, c), = self.terms.items()
				if other - self.const == c:
					v = BoolV(frozenset((b,)), False, self.axes).a_not(I)
				elif other == self.const:
					v = BoolV(frozenset((b,)), False, self.axes)
				else:
					return op == '!='
				return v if op == '==' else v.a_not(I)
			if op == '<' and hi < other or op == '<=' and hi <= other or op == '>' and lo > other or op == '>=' and lo >= other:
				return True
			if op == '<' and lo >= other or op == '<=' and lo > other or op == '>' and hi <= other or op == '>=' and hi < other:
				return False
			r = self.lift_small(lambda v: bool(host_cmp(op, v, other)), 'bool')
			return r if r is not None else NotImplemented
		if isinstance(other, (IntV, Tab)):
			t = self.to_tab(I)
			u = other if isinstance(other, Tab) else other.to_tab(I)
			if t is not None and u is not None:
				return t.a_cmp(I, op, u, refl)
		return NotImplemented
	def a_in_host(self, I, c):
		t = self.to_tab(I)
		if t is not None:
			return t.a_in_host(I, c)
		return I.top('membership')
	def a_bool(self, I):
		r = self.a_cmp(I, '!=', 0, False)
		if r is NotImplemented:
			return I.decide(('truth', self))
		return I.truth(r)
	def a_to_int(self, I, *a):
		return self
	def a_to_bool(self, I):
		return self
	def a_str(self, I):
		if self.is_bit():
			return BitStr([self.as_bit()])
		return I.top('str of int')
	def a_select(self, I, x, y):
		if self.is_bit():
			return bit_select(self, x, y)
		return NotImplemented
	def a_hash(self, I):
		return I.top('hash')
	def a_index_host(self, I, seq):
		seq = list(seq)
		if self.is_bit() and len(seq) == 2:
			return bit_select(self, seq[1], seq[0])
		t = self.to_tab(I)
		if t is not None:
			return t.a_index_host(I, seq)
		return I.top('index')
	def a_index_dict(self, I, d):
		if self.is_bit() and set(d) >= {0, 1}:
			return bit_select(self, d[1], d[0])
		return I.top('dict index')
	def a_contains(self, I, x):
		return I.top('contains')


class Wrapped(AV):
	"""truth value computed from a wrapped-around counter: definitely unintended"""
	is_boolean = True
	def __init__(self, v, what):
		self.v, self.what = v, what
	def __repr__(self):
		return f'wrapped({self.v}) {self.what}'
	def a_binop(self, I, op, other, refl):
		return self
	def a_not(self, I):
		return self
	def a_bool(self, I):
		return I.decide(('wrapped', self.what))


class BoolV(Sized):
	"""[all bits of S are zero] (neg: its negation)"""
	is_boolean = True
	dtype = 'bool'
	def __init__(self, S, neg, axes):
		S = frozenset(b for b in S if b != ZERO)
		self.S, self.neg, self.axes = S, neg, tuple(axes)
	def __repr__(self):
		return f'{"not " if self.neg else ""}all-zero({len(self.S)} bits)'
	def clone(self, **kw):
		return BoolV(self.S, self.neg, kw.get('axes', self.axes))
	def a_key(self):
		return ('BoolV', self.S, self.neg)
	def a_not(self, I):
		return BoolV(self.S, not self.neg, self.axes)
	def const(self):
		if not self.S:
			return not self.neg
		if ONE in self.S:
			return self.neg
		return None
	def as_int(self):
		if self.const() is not None:
			return IntV({}, int(self.const()), 'bool', self.axes)
		if len(self.S) == 1:
			b = next(iter(self.S))
			return mk_int([(b if self.neg else b ^ ONE, 1)], 0, 'bool', self.axes)
		if len(self.S) <= 7:
			p = ONE
			for b in self.S:
				p = conj(p, b ^ ONE)
				if len(p) > 5000:
					return None
			return mk_int([(p ^ ONE if self.neg else p, 1)], 0, 'bool', self.axes)
		return None
	def a_unop(self, I, op):
		if op == '~':
			return self.a_not(I)
		return I.top('unop bool')
	def a_binop(self, I, op, other, refl):
		if op == '-' and refl and isinstance(other, int) and other == 1:
			return self.a_not(I)
		if op == '*' and isinstance(other, int) and other == 1:
			return self
		if op == '^' and other is True:
			return self.a_not(I)
		if op in ('*', '&'):
			if isinstance(other, BoolV):
				ax = bcast(I, self.axes, other.axes)
				if not self.neg and not other.neg:
					return BoolV(self.S | other.S, False, ax)
				x, y = self.as_int(), other.as_int()
				if x is not None and y is not None:
					return x.a_binop(I, '*', y, False)
				return NotImplemented
			if op == '*':
				s = Sgn.of(other)
				if s is not None:
					ax = bcast(I, self.axes, s.axes)
					if not self.neg:
						return Sgn(s.par, s.Z | self.S, s.tabs, ax)
					i = self.as_int()
					if i is not None:
						return Sgn(s.par, s.Z | {i.as_bit() ^ ONE}, s.tabs, ax)
				i = self.as_int()
				if i is not None and isinstance(other, (IntV,)):
					return i.a_binop(I, op, other, refl)
		if op == '|' and isinstance(other, BoolV):
			if self.neg and other.neg:
				return BoolV(self.S | other.S, True, bcast(I, self.axes, other.axes))
		i = self.as_int()
		if i is not None and not isinstance(other, BoolV):
			return i.a_binop(I, op, other, refl)
		return NotImplemented
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, (bool, int)) and op in ('==', '!=') and other in (0, 1):
			return self if (op == '==') == bool(other) else self.a_not(I)
		if (op, other) == ('>', 0):
			return self
		return NotImplemented
	def a_bool(self, I):
		c = self.const()
		if c is not None:
			return c
		r = I.decide(('allzero', frozenset(self.S)))
		return r != self.neg
	def a_select(self, I, x, y):
		i = self.as_int()
		if i is not None:
			return bit_select(i, x, y)
		return NotImplemented
	def a_to_int(self, I, *a):
		i = self.as_int()
		return i if i is not None else I.top('int of bool')
	def a_to_bool(self, I):
		return self
	def index(self, I, ks):
		return I.top('bool index')


class Sgn(Sized):
	"""(-1)**par * prod tab_v(grade v), zero unless all bits of Z are zero"""
	def __init__(self, par, Z, tabs, axes, dtype='int8'):
		self.par, self.Z, self.axes, self.dtype = par, frozenset(z for z in Z if z != ZERO), tuple(axes), dtype
		self.tabs = {k: v for k, v in tabs.items() if set(v) != {1}}
	def __repr__(self):
		return f'Sgn({len(self.par)} monomials, Z={len(self.Z)}, tabs={self.tabs})'
	def clone(self, **kw):
		return Sgn(self.par, self.Z, self.tabs, kw.get('axes', self.axes), kw.get('dtype', self.dtype))
	def a_key(self):
		return ('Sgn', self.par, self.Z, tuple(sorted(self.tabs.items())))
	@staticmethod
	def of(v):
		if isinstance(v, Sgn):
			return v
		if isinstance(v, IntV) and v.is_sign():
			return Sgn(v.sign_parity(), (), {}, v.axes, v.dtype)
		if isinstance(v, Tab) and v.is_sign():
			return Sgn(ZERO, (), {v.var: v.vals}, v.axes, v.dtype)
		if isinstance(v, CArr) and len(v.flat) == 1 and v.flat[0] in (1, -1):
			return Sgn(ZERO if v.flat[0] == 1 else ONE, (), {}, ())
		if v == 1 and isinstance(v, int):
			return Sgn(ZERO, (), {}, ())
		if v == -1 and isinstance(v, int):
			return Sgn(ONE, (), {}, ())
		return None
	def mul(self, I, o):
		tabs = dict(self.tabs)
		for k, v in o.tabs.items():
			tabs[k] = tuple(x * y for x, y in zip(tabs[k], v)) if k in tabs else v
		return Sgn(self.par ^ o.par, self.Z | o.Z, tabs, bcast(I, self.axes, o.axes))
	def a_binop(self, I, op, other, refl):
		if op == '*':
			o = Sgn.of(other)
			if o is not None:
				return self.mul(I, o)
			if isinstance(other, BoolV):
				return other.a_binop(I, op, self, not refl)
			if isinstance(other, IntV) and other.is_bit():
				return Sgn(self.par, self.Z | {other.as_bit() ^ ONE}, self.tabs, bcast(I, self.axes, other.axes))
		if op in ('//', '/') and not refl:
			o = Sgn.of(other)
			if o is not None and not o.Z:
				return self.mul(I, o)
		return NotImplemented
	def a_unop(self, I, op):
		if op == '-':
			return Sgn(self.par ^ ONE, self.Z, self.tabs, self.axes)
		if op == '+':
			return self
		return I.top(f'{op} sign')
	def canon(self, world, tabs=None):
		"""parity reduced modulo the vanishing set, tables folded into parity"""
		par = self.par
		left = {}
		for var, vals in self.tabs.items():
			f = [0 if v == 1 else 1 for v in vals]
			if any(v not in (1, -1) for v in vals):
				left[var] = vals
				continue
			p = sym_anf(world, var, f)
			if p is None:
				left[var] = vals
			else:
				par = par ^ p
		Z = {m for z in self.Z if len(z) == 1 for m in z}
		ex = world.vars.excl()
		def dead(m):
			return any(m & z == z for z in Z) or any(m & e == e for e in ex)
		par = frozenset(m for m in par if not dead(m))
		return par, self.Z, tuple(sorted(left.items()))


def sym_anf(world, var, f):
	"""ANF of the symmetric boolean function f(grade(var))"""
	n = world.n
	V = world.vars
	from math import comb
	import itertools
	# mobius: f(g) = xor_k c_k C(g,k)
	c = []
	for g in range(n + 1):
		s = f[g]
		for k in range(g):
			if c[k] and comb(g, k) & 1:
				s ^= 1
		c.append(s)
	if sum(comb(n, k) for k in range(n + 1) if c[k]) > MAXANF:
		return None
	out = set()
	bits = [1 << V.var(var, i) for i in range(n)]
	for k in range(n + 1):
		if c[k]:
			for comb_ in itertools.combinations(bits, k):
				out.add(sum(comb_))
	return frozenset(out)


class Tab(Sized):
	"""function of the grade of one generic blade"""
	def __init__(self, var, vals, dtype, axes):
		self.var, self.dtype, self.axes = var, dtype, tuple(axes)
		if dtype in DT and dtype not in ('float64', 'float32', 'bool'):
			w, s = DT[dtype]
			def wrap(v):
				v &= (1 << w) - 1
				return v - (1 << w) if s and v >> (w - 1) else v
			vals = tuple(wrap(int(v)) for v in vals)
		elif dtype == 'bool':
			vals = tuple(bool(v) for v in vals)
		self.vals = tuple(vals)
	def __repr__(self):
		return f'Tab[{self.var}:{self.dtype}]{self.vals if len(self.vals) < 12 else "..."}'
	@property
	def is_boolean(self):
		return self.dtype == 'bool'
	def clone(self, **kw):
		return Tab(self.var, self.vals, kw.get('dtype', self.dtype), kw.get('axes', self.axes))
	def a_key(self):
		return ('Tab', self.var, self.vals)
	def is_sign(self):
		return all(v in (1, -1) for v in self.vals)
	def lift(self, f, dtype, axes=None):
		try:
			return Tab(self.var, tuple(f(v) for v in self.vals), dtype, self.axes if axes is None else axes)
		except ZeroDivisionError:
			return Top('division by zero')
	def a_binop(self, I, op, other, refl):
		if isinstance(other, IntV):
			t = other.to_tab(I)
			if t is None:
				if not other.terms and other.mod is None:
					other = Tab(self.var, (other.const,) * len(self.vals), other.dtype, other.axes)
				elif op == '*' and self.is_sign() and other.is_sign():
					return Sgn.of(self).mul(I, Sgn.of(other))
				else:
					return NotImplemented
			else:
				other = t
		if isinstance(other, CArr) and other.shape == ():
			other = int(other.flat[0])
		if isinstance(other, (int, bool)):
			dt = self.dtype
			if dt == 'bool':
				dt = 'int64' if op not in '&|^' else ('bool' if isinstance(other, bool) else 'int64')
			elif dt in DT and not DT[dt][1] and other < 0:
				dt = {'uint8': 'int16', 'uint16': 'int32', 'uint32': 'int64'}.get(dt, 'int64')
			elif dt in DT and abs(int(other)) >= 1 << (DT[dt][0] - (1 if DT[dt][1] else 0)):
				dt = 'int64'
			if op == '/':
				dt = 'float64'
			return self.lift(lambda v: host_binop(op, other, v) if refl else host_binop(op, v, other), dt)
		if isinstance(other, float):
			return self.lift(lambda v: host_binop(op, other, v) if refl else host_binop(op, v, other), 'float64')
		if isinstance(other, Tab):
			if other.var != self.var:
				if op == '*' and self.is_sign() and other.is_sign():
					return Sgn.of(self).mul(I, Sgn.of(other))
				return MTab.of(self).a_binop(I, op, MTab.of(other), refl)
			a, b = (other, self) if refl else (self, other)
			dt = promote(self.dtype, other.dtype)
			if dt == 'bool' and op in '+*-':
				dt = 'bool' if op != '-' else 'int64'
				if op == '+':
					return Tab(self.var, tuple(bool(x or y) for x, y in zip(a.vals, b.vals)), 'bool', bcast(I, a.axes, b.axes))
			if op == '/':
				dt = 'float64'
			return Tab(self.var, tuple(host_binop(op, x, y) for x, y in zip(a.vals, b.vals)), dt, bcast(I, a.axes, b.axes))
		if isinstance(other, Sgn) and op == '*' and self.is_sign():
			return Sgn.of(self).mul(I, other)
		return NotImplemented
	def a_unop(self, I, op):
		if op == '-':
			return self.lift(lambda v: -v, self.dtype)
		if op == '+':
			return self
		if op == '~':
			return self.lift(lambda v: not v if self.dtype == 'bool' else ~v, self.dtype)
		if op == 'abs':
			return self.lift(abs, self.dtype)
		return I.top('unop')
	def a_not(self, I):
		return self.lift(lambda v: not v, 'bool')
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, IntV):
			t = other.to_tab(I)
			if t is None and not other.terms and other.mod is None:
				other = other.const
			else:
				other = t
		if isinstance(other, CArr) and other.shape == ():
			other = int(other.flat[0])
		if isinstance(other, (int, float, bool)):
			return self.lift(lambda v: host_cmp(op, v, other), 'bool')
		if isinstance(other, Tab) and other.var == self.var:
			return Tab(self.var, tuple(host_cmp(op, x, y) for x, y in zip(self.vals, other.vals)), 'bool', bcast(I, self.axes, other.axes))
		if isinstance(other, Tab):
			return MTab.of(self).a_cmp(I, op, MTab.of(other), refl)
		return NotImplemented
	def a_in_host(self, I, c):
		vals = [unkey(x) for x in c]
		if any(isinstance(x, AV) for x in vals):
			return I.top('membership in abstract')
		return self.lift(lambda v: v in vals, 'bool')
	def a_bool(self, I):
		s = set(bool(v) for v in self.vals)
		if len(s) == 1:
			return s.pop()
		return I.decide(('tab', self.a_key()))
	def a_select(self, I, x, y):
		return self.lift(lambda v: x if v else y, 'int64') if isinstance(x, (int, bool)) and isinstance(y, (int, bool)) else NotImplemented
	def a_to_int(self, I, *a):
		return self if self.dtype != 'bool' else self.clone(dtype='int64')
	def a_to_bool(self, I):
		return self.lift(bool, 'bool')
	def a_index_host(self, I, seq):
		seq = list(seq)
		try:
			vals = [seq[v] for v in self.vals]
		except IndexError:
			raise PyRaise('IndexError', 'index out of range')
		if all(isinstance(v, int) for v in vals):
			return Tab(self.var, tuple(vals), 'int64', self.axes)
		return I.top('index')
	def a_index_dict(self, I, d):
		if all(v in d for v in self.vals) and all(isinstance(d[v], int) for v in self.vals):
			return Tab(self.var, tuple(d[v] for v in self.vals), 'int64', self.axes)
		return I.top('dict index')


class MTab(Sized):
	"""function of the grades of several generic blades"""
	def __init__(self, vars, f, dtype, axes):
		self.vars, self.dtype, self.axes = tuple(vars), dtype, tuple(axes)
		if dtype in DT and dtype not in ('float64', 'float32', 'bool'):
			w, s = DT[dtype]
			def wrap(v):
				v = int(v) & ((1 << w) - 1)
				return v - (1 << w) if s and v >> (w - 1) else v
			f = {k: wrap(v) for k, v in f.items()}
		self.f = f
	@property
	def is_boolean(self):
		return self.dtype == 'bool'
	def __repr__(self):
		return f'MTab{self.vars}'
	def clone(self, **kw):
		return MTab(self.vars, self.f, kw.get('dtype', self.dtype), kw.get('axes', self.axes))
	def a_key(self):
		return ('MTab', self.vars, frozenset(self.f.items()))
	@staticmethod
	def of(t):
		if isinstance(t, MTab):
			return t
		return MTab((t.var,), {(g,): v for g, v in enumerate(t.vals)}, t.dtype, t.axes)
	def merge(self, I, other, fn, dtype):
		vs = tuple(sorted(set(self.vars) | set(other.vars)))
		n = I.world.n
		if (n + 1) ** len(vs) > 400000:
			raise Unsupported('grade table too large')
		import itertools
		ia = [vs.index(v) for v in self.vars]
		ib = [vs.index(v) for v in other.vars]
		f = {}
		for g in itertools.product(range(n + 1), repeat=len(vs)):
			f[g] = fn(self.f[tuple(g[i] for i in ia)], other.f[tuple(g[i] for i in ib)])
		return MTab(vs, f, dtype, bcast(I, self.axes, other.axes))
	def lift(self, fn, dtype):
		return MTab(self.vars, {k: fn(v) for k, v in self.f.items()}, dtype, self.axes)
	def coerce(self, I, other):
		if isinstance(other, Tab):
			return MTab.of(other)
		if isinstance(other, MTab):
			return other
		if isinstance(other, IntV):
			t = other.to_tab(I)
			if t is not None:
				return MTab.of(t)
			if not other.terms and other.mod is None:
				return other.const
		if isinstance(other, CArr) and other.shape == ():
			return int(other.flat[0])
		if isinstance(other, (int, float, bool)):
			return other
		return None
	def a_binop(self, I, op, other, refl):
		o = self.coerce(I, other)
		if o is None:
			return NotImplemented
		if isinstance(o, MTab):
			dt = promote(self.dtype, o.dtype)
			a, b = (o, self) if refl else (self, o)
			if dt == 'bool':
				if op == '+':
					return a.merge(I, b, lambda x, y: bool(x or y), 'bool')
				if op == '*':
					return a.merge(I, b, lambda x, y: bool(x and y), 'bool')
			return a.merge(I, b, lambda x, y: host_binop(op, x, y), dt)
		dt = self.dtype
		if dt == 'bool':
			dt = 'int64' if op not in '&|^' else 'bool'
		elif dt in DT and not DT[dt][1] and o < 0:
			dt = 'int64'
		return self.lift(lambda v: host_binop(op, o, v) if refl else host_binop(op, v, o), dt)
	def a_cmp(self, I, op, other, refl):
		o = self.coerce(I, other)
		if o is None:
			return NotImplemented
		if isinstance(o, MTab):
			return self.merge(I, o, lambda x, y: host_cmp(op, x, y), 'bool')
		return self.lift(lambda v: host_cmp(op, v, o), 'bool')
	def a_unop(self, I, op):
		if op == '-':
			return self.lift(lambda v: -v, self.dtype)
		if op == '~':
			return self.lift(lambda v: not v if self.dtype == 'bool' else ~v, self.dtype)
		if op == 'abs':
			return self.lift(abs, self.dtype)
		if op == '+':
			return self
		return I.top('unop')
	def a_not(self, I):
		return self.lift(lambda v: not v, 'bool')
	def a_bool(self, I):
		s = set(bool(v) for v in self.f.values())
		if len(s) == 1:
			return s.pop()
		return I.decide(('mtab', self.a_key()))
	def a_in_host(self, I, c):
		vals = [unkey(x) for x in c]
		return self.lift(lambda v: v in vals, 'bool')


class BitStr(AV):
	"""string of abstract bit characters, most significant first"""
	def __init__(self, bits):
		self.bits = list(bits)
	def a_len(self, I):
		return len(self.bits)
	def a_getitem(self, I, k):
		if isinstance(k, slice):
			return BitStr(self.bits[k])
		if isinstance(k, int):
			try:
				return BitStr([self.bits[k]])
			except IndexError:
				raise PyRaise('IndexError', 'string index')
		return I.top('bitstr')
	def a_iter(self, I):
		return [BitStr([b]) for b in self.bits]
	def a_binop(self, I, op, other, refl):
		if op == '+':
			o = bitstr_of(other)
			if o is None:
				return NotImplemented
			return BitStr(o + self.bits) if refl else BitStr(self.bits + o)
		return NotImplemented
	def a_str(self, I):
		return self
	def a_cmp(self, I, op, other, refl):
		if len(self.bits) == 1 and other in ('0', '1') and op in ('==', '!='):
			v = BoolV(frozenset(self.bits), False, ())
			return v if (other == '0') == (op == '==') else v.a_not(I)
		return NotImplemented
	def a_to_int(self, I, base=10):
		if base == 2 or len(self.bits) == 1:
			return BV(list(reversed(self.bits)), 'py', ())
		return I.top('int')


def bitstr_of(s):
	if isinstance(s, BitStr):
		return list(s.bits)
	if isinstance(s, str) and set(s) <= {'0', '1'}:
		return [ONE if c == '1' else ZERO for c in s]
	return None


class SignAtom(AV):
	"""unknown signature entry of generator i: one of +1, -1, 0"""
	def __init__(self, world, i):
		self.w, self.i = world, i
	def __repr__(self):
		return f's{self.i}'
	def m(self):
		return self.w.vars.atom('m', self.i)
	def z(self):
		return self.w.vars.atom('z', self.i)
	def ind(self, v):
		if v == 0:
			return self.z()
		if v == -1:
			return self.m()
		if v == 1:
			return ONE ^ self.m() ^ self.z()
		return ZERO
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, SignAtom) and other.i == self.i and op in ('==', '!='):
			return op == '=='
		if not isinstance(other, (int, float)):
			return NotImplemented
		b = ZERO
		for v in (-1, 0, 1):
			if host_cmp(op, v, other):
				b = b ^ self.ind(v)
		return BoolV(frozenset((b,)), False, ()).a_not(I) if b not in (ZERO, ONE) else b == ONE
	def a_key(self):
		return ('sign', self.i)
	def a_in_host(self, I, c):
		b = ZERO
		for v in (-1, 0, 1):
			if v in [unkey(x) for x in c]:
				b = b ^ self.ind(v)
		return BoolV(frozenset((b,)), False, ()).a_not(I) if b not in (ZERO, ONE) else b == ONE
	def a_index_dict(self, I, d):
		if all(v in d and isinstance(d[v], (int, bool)) for v in (-1, 0, 1)):
			return mk_int([(self.ind(v), int(d[v])) for v in (-1, 0, 1)], 0, 'py', ())
		return SignMap(self, {v: d.get(v) for v in (-1, 0, 1)})
	def a_binop(self, I, op, other, refl):
		i = mk_int([(self.ind(1), 1), (self.m(), -1)], 0, 'py', ())
		if op == '*' and isinstance(other, SignAtom):
			if other.i == self.i:
				return mk_int([(self.ind(1), 1), (self.m(), 1)], 0, 'py', ())
			return NotImplemented
		return i.a_binop(I, op, other, refl)
	def a_unop(self, I, op):
		return mk_int([(self.ind(1), 1), (self.m(), -1)], 0, 'py', ()).a_unop(I, op)
	def a_bool(self, I):
		return I.truth(self.a_cmp(I, '!=', 0, False))
	def a_str(self, I):
		return I.top('str of sign')


class SignMap(AV):
	def __init__(self, atom, d):
		self.atom, self.d = atom, d
	def a_key(self):
		return ('signmap', self.atom.i, tuple(sorted((k, str(v)) for k, v in self.d.items())))


class CArr(Sized):
	"""constant array"""
	def __init__(self, shape, flat, dtype):
		self.shape, self.flat, self.dtype = tuple(shape), list(flat), dtype
		self.axes = ()
	def __repr__(self):
		return f'CArr{self.shape}'
	def clone(self, **kw):
		return CArr(self.shape, self.flat, kw.get('dtype', self.dtype))
	def a_key(self):
		return ('CArr', self.shape, tuple(self.flat))
	def a_getattr(self, I, name):
		if name == 'shape':
			return self.shape
		if name == 'ndim':
			return len(self.shape)
		if name == 'size':
			return len(self.flat)
		if name in ('astype',):
			return HostFn(lambda I, a, k: astype(I, self, dtname(a[0])), name)
		if name == 'tolist':
			return HostFn(lambda I, a, k: self.nested(), name)
		if name == 'dtype':
			return DTypeV(self.dtype)
		if name == 'strides':
			return tuple(Tok('strides', self) for _ in self.shape)
		if name in ('copy', 'flatten', 'ravel'):
			return HostFn(lambda I, a, k: CArr(self.shape if name == 'copy' else (len(self.flat),), self.flat, self.dtype), name)
		if name in ('sum', 'any', 'all', 'max', 'min'):
			return HostFn(lambda I, a, k: I.call_ext('numpy.' + name, [self] + a, k), name)
		return Sized.a_getattr(self, I, name)
	def nested(self):
		def rec(shape, flat):
			if not shape:
				return flat[0]
			step = len(flat) // shape[0] if shape[0] else 0
			return [rec(shape[1:], flat[i * step:(i + 1) * step]) for i in range(shape[0])]
		return rec(self.shape, self.flat)
	def a_len(self, I):
		if not self.shape:
			raise PyRaise('TypeError', 'len() of unsized object')
		return self.shape[0]
	def a_generic(self, I):
		return None
	def a_iter(self, I):
		return [self.sub(i) for i in range(self.shape[0])]
	def sub(self, i):
		step = len(self.flat) // self.shape[0]
		s = self.flat[i * step:(i + 1) * step]
		if len(self.shape) == 1:
			return s[0]
		return CArr(self.shape[1:], s, self.dtype)
	def a_getitem(self, I, key):
		if isinstance(key, (BV,)):
			if len(self.shape) == 1:
				return table_lookup(I, self.flat, key, self.dtype)
			return I.top('table')
		if isinstance(key, (Tab, IntV)) and len(self.shape) == 1:
			t = key if isinstance(key, Tab) else key.to_tab(I)
			if t is not None:
				try:
					return Tab(t.var, tuple(self.flat[v] for v in t.vals), self.dtype, t.axes)
				except IndexError:
					raise PyRaise('IndexError', 'table')
			return I.top('table index')
		if isinstance(key, CArr) and len(self.shape) == 1 and key.dtype != 'bool' and len(key.shape) != 1:
			if any(not 0 <= int(x) < self.shape[0] for x in key.flat):
				return I.top('constant array index')
			return CArr(key.shape, [self.flat[int(x)] for x in key.flat], self.dtype)
		if key == (slice(None), None) and len(self.shape) == 1:
			return CArr((self.shape[0], 1), self.flat, self.dtype)
		if key == (None, slice(None)) and len(self.shape) == 1:
			return CArr((1, self.shape[0]), self.flat, self.dtype)
		if isinstance(key, int):
			if not -self.shape[0] <= key < self.shape[0]:
				raise PyRaise('IndexError', 'index out of bounds')
			return self.sub(key % self.shape[0])
		if isinstance(key, slice):
			idx = range(self.shape[0])[key]
			step = len(self.flat) // self.shape[0] if self.shape[0] else 0
			return CArr((len(idx),) + self.shape[1:], [x for i in idx for x in self.flat[i * step:(i + 1) * step]], self.dtype)
		if isinstance(key, CArr) and len(self.shape) == 1 and key.dtype == 'bool':
			return CArr((sum(map(bool, key.flat)),), [x for x, m in zip(self.flat, key.flat) if m], self.dtype)
		if isinstance(key, (CArr, list)) and len(self.shape) == 1:
			ks = key.flat if isinstance(key, CArr) else key
			if all(isinstance(k, int) for k in ks):
				if any(not -self.shape[0] <= k < self.shape[0] for k in ks):
					raise PyRaise('IndexError', 'index out of bounds')
				return CArr((len(ks),), [self.flat[k] for k in ks], self.dtype)
		if key is ... :
			return self
		return I.top('constant array index')
	def a_binop(self, I, op, other, refl):
		if isinstance(other, (int, float, bool)):
			try:
				return wrap_c(CArr(self.shape, [host_binop(op, other, v) if refl else host_binop(op, v, other) for v in self.flat], 'int64' if self.dtype == 'bool' else self.dtype))
			except ZeroDivisionError:
				return I.top('zero division')
		if isinstance(other, CArr) and other.shape == self.shape:
			a, b = (other, self) if refl else (self, other)
			return CArr(self.shape, [host_binop(op, x, y) for x, y in zip(a.flat, b.flat)], promote(a.dtype, b.dtype))
		if self.shape == ():
			return I.binop(op, other, self.flat[0]) if refl else I.binop(op, self.flat[0], other)
		return NotImplemented
	def a_unop(self, I, op):
		if op == '-':
			return CArr(self.shape, [-v for v in self.flat], self.dtype)
		if op == '~' and self.dtype == 'bool':
			return CArr(self.shape, [not v for v in self.flat], self.dtype)
		if op == 'abs':
			return CArr(self.shape, [abs(v) for v in self.flat], self.dtype)
		return I.top('unop')
	def a_cmp(self, I, op, other, refl):
		if isinstance(other, (int, float, bool)):
			return CArr(self.shape, [host_cmp(op, v, other) for v in self.flat], 'bool')
		if isinstance(other, CArr) and other.shape == self.shape:
			return CArr(self.shape, [host_cmp(op, x, y) for x, y in zip(self.flat, other.flat)], 'bool')
		return NotImplemented
	def a_bool(self, I):
		if len(self.flat) == 1:
			return bool(self.flat[0])
		raise PyRaise('ValueError', 'truth value of an array is ambiguous')
	def a_to_list(self, I):
		return self.nested() if len(self.shape) == 1 else [self.sub(i) for i in range(self.shape[0])]
	def a_to_int(self, I, *a):
		return int(self.flat[0]) if len(self.flat) == 1 else I.top('int')
	def a_contains(self, I, x):
		if isinstance(x, (int, float)):
			return x in self.flat
		return I.top('contains')


def wrap_c(c):
	if c.dtype in DT and c.dtype not in ('float64', 'float32', 'bool'):
		w, s = DT[c.dtype]
		out = []
		for v in c.flat:
			v = int(v) & ((1 << w) - 1)
			out.append(v - (1 << w) if s and v >> (w - 1) else v)
		c.flat = out
	return c


def table_lookup(I, table, bv, dtype='uint8'):
	"""constant table indexed by abstract bits: integer Moebius transform"""
	k = len(bv.bits)
	if k > 10 or any(not isinstance(t, (int, bool)) for t in table):
		return I.top('table lookup')
	if (1 << k) > len(table):
		# some index is out of range
		raise PyRaise('IndexError', 'blade indexes a table that is too small')
	f = [int(t) for t in table[:1 << k]]
	for i in range(k):
		for s in range(1 << k):
			if s >> i & 1:
				f[s] -= f[s ^ (1 << i)]
	terms = []
	for s in range(1, 1 << k):
		if f[s]:
			b = ONE
			for i in range(k):
				if s >> i & 1:
					b = conj(b, bv.bits[i])
			terms.append((b, f[s]))
	return mk_int(terms, f[0], dtype, bv.axes)


def digits(I, v, t):
	"""decimal text of each element"""
	f = getattr(I.world, 'text_of', None)
	r = f(I, v, t) if f else None
	return I.top('astype unknown dtype') if r is None else r


def astype(I, v, name):
	if isinstance(v, bool):
		v = int(v)
	if name is None:
		return I.top('astype unknown dtype')
	if isinstance(v, int):
		if name in ('float64', 'float32'):
			return float(v)
		b = IntV({}, v, name, ())
		if b.mod:
			return wrap_c(CArr((), [v], name))
		return CArr((), [v], name)
	if isinstance(v, BV):
		return BV(v.bits, name, v.axes)
	if isinstance(v, IntV):
		if v.mod is not None and name in DT:
			w, s = DT[name]
			lo, hi = v.bounds()
			mn, mx = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
			if w <= v.mod and mn <= lo and hi <= mx:
				return IntV(v.terms, v.const, name, v.axes, None)
			if w > v.mod:
				# widening after wrap-around of the source type
				sw, ss = DT[v.dtype] if v.dtype in DT else (None, None)
				if sw == v.mod and w >= sw:
					return IntV(v.terms, v.const, name, v.axes, v.mod)
		return IntV(v.terms, v.const, name, v.axes, v.mod)
	if isinstance(v, Tab):
		return Tab(v.var, tuple(bool(x) for x in v.vals) if name == 'bool' else v.vals, name, v.axes)
	if isinstance(v, MTab):
		return MTab(v.vars, {k: bool(x) for k, x in v.f.items()} if name == 'bool' else v.f, name, v.axes)
	if isinstance(v, Sgn):
		if name in DT and not DT[name][1]:
			return I.top('unsigned sign')
		return v.clone(dtype=name)
	if isinstance(v, BoolV):
		if name == 'bool':
			return v
		i = v.as_int()
		return IntV(i.terms, i.const, name, i.axes) if i is not None else v
	if isinstance(v, CArr):
		return wrap_c(CArr(v.shape, [bool(x) if name == 'bool' else x for x in v.flat], name))
	return I.top('astype')


def view(I, v, a, k):
	n = dtname(a[0] if a else k.get('dtype'))
	if isinstance(v, (IntV, Tab)) and n and v.dtype in DT and DT[n][0] == DT[v.dtype][0]:
		return astype(I, v, n)
	return I.top('view')


def reshape(I, v, a, k):
	shape = a[0] if len(a) == 1 else tuple(a)
	shape = list(shape) if isinstance(shape, (tuple, list)) else [shape]
	if isinstance(v, CArr):
		if all(isinstance(s, int) for s in shape):
			if -1 in shape:
				p = 1
				for s in shape:
					if s != -1:
						p *= s
				shape[shape.index(-1)] = len(v.flat) // p
			return CArr(shape, v.flat, v.dtype)
		return I.top('reshape')
	real = [x for x in v.axes if x != 1]
	want = [s for s in shape if not (isinstance(s, int) and s == 1)]
	if len(real) == len(want) and all((isinstance(s, DimTok) and s.label == r) or s == -1 for s, r in zip(want, real)):
		it = iter(real)
		return v.clone(axes=tuple(1 if isinstance(s, int) and s == 1 else next(it) for s in shape))
	return I.top('reshape')


def as_array(I, v, dtype=None):
	if isinstance(v, Top):
		return v
	if isinstance(v, SeqOf):
		v = v.array(I)
	if isinstance(v, bool):
		v = CArr((), [v], 'bool')
	elif isinstance(v, int):
		v = CArr((), [v], 'int64')
	elif isinstance(v, (list, tuple, GenList, range)):
		vals = list(v)
		if vals and all(isinstance(x, bool) for x in vals):
			v = CArr((len(vals),), vals, 'bool')
		elif all(isinstance(x, int) for x in vals):
			v = CArr((len(vals),), vals, 'int64' if vals else 'float64')
		elif all(isinstance(x, CArr) and x.shape == () for x in vals):
			v = CArr((len(vals),), [x.flat[0] for x in vals], vals[0].dtype)
		elif len(vals) == 1 and isinstance(vals[0], (BV, IntV, Tab, Sgn)) and not vals[0].axes:
			v = vals[0].clone(axes=(1,))
		else:
			return I.top('array of mixed values')
	elif isinstance(v, BV) and v.dtype not in DT:
		v = BV(v.bits, 'int64', v.axes)
	elif isinstance(v, IntV) and v.dtype not in DT:
		v = v.clone(dtype='int64')
	elif not isinstance(v, Sized):
		return I.top('array')
	if dtype is not None:
		n = dtname(dtype)
		return astype(I, v, n)
	return v


class SignedMap(AV):
	"""dense matrix of a signed blade map: a -> image(a) with sign (rows: inputs)"""
	def __init__(self, var, image, sign, dtype='int8'):
		self.var, self.image, self.sign, self.dtype = var, image, sign, dtype
	def __repr__(self):
		return f'SignedMap({self.var})'
	def a_isinstance(self, I, cls):
		return array_isinstance(cls, True)
	def a_getattr(self, I, name):
		if name == 'dtype':
			return DTypeV(self.dtype)
		if name == 'ndim':
			return 2
		if name == 'astype':
			return HostFn(lambda I, a, k: SignedMap(self.var, self.image, self.sign, dtname(a[0])), 'astype')
		if name == 'T':
			return self.inverse(I)
		if name == 'copy':
			return HostFn(lambda I, a, k: self, 'copy')
		if name == 'transpose':
			return HostFn(lambda I, a, k: self.inverse(I), 'transpose')
		return I.top(f'matrix attribute {name}')
	def compose(self, I, other):
		"""first self then other; other's generic blade replaced by self.image"""
		V = I.world.vars
		n = I.world.n
		masks = 0
		for i in range(n):
			b = self.image.bit(i)
			want = V.atom(self.var, i)
			if b == want:
				continue
			if b == want ^ ONE:
				masks |= 1 << V.var(other.var, i)
			else:
				return I.top('composition of non affine blade maps')
		oi, os = other.image, other.sign
		bits = [rename(V, subst_not(b, masks), other.var, self.var) for b in oi.bits] + []
		image = BV(bits, oi.dtype, self.image.axes)
		s1, s2 = Sgn.of(self.sign), Sgn.of(os)
		if s1 is None or s2 is None:
			return I.top('composition of signs')
		full = all(masks >> V.var(other.var, i) & 1 for i in range(n))
		tabs = {}
		for k, v in s2.tabs.items():
			if k != other.var:
				return I.top('foreign sign')
			if full:
				v = tuple(reversed(v))
			elif masks:
				p = sym_anf(I.world, k, [0 if x == 1 else 1 for x in v])
				if p is None:
					return I.top('sign table')
				s2 = Sgn(s2.par ^ p, s2.Z, {}, s2.axes)
				continue
			tabs[self.var] = v
		par = rename(V, subst_not(s2.par, masks), other.var, self.var)
		s2 = Sgn(par, s2.Z, tabs, ())
		return SignedMap(self.var, image, Sgn(s1.par, s1.Z, s1.tabs, ()).mul(I, s2), self.dtype)
	def inverse(self, I):
		"""image is an involution a -> a xor mask"""
		V = I.world.vars
		ident = SignedMap(self.var, self.image, Sgn(ZERO, (), {}, ()))
		c = SignedMap(self.var, self.image, Sgn(ZERO, (), {}, ())).compose(I, self)
		if isinstance(c, Top):
			return c
		return SignedMap(self.var, self.image, c.sign, self.dtype)
	def a_binop(self, I, op, other, refl):
		if op == '@' and isinstance(other, SignedMap):
			return other.compose(I, self) if refl else self.compose(I, other)
		if op == '*' and isinstance(other, int) and other in (1, -1):
			return SignedMap(self.var, self.image, Sgn.of(self.sign).mul(I, Sgn.of(other)), self.dtype)
		return NotImplemented
	def a_unop(self, I, op):
		if op == '-':
			return self.a_binop(I, '*', -1, False)
		if op == '+':
			return self
		return I.top('unop')


def rename(V, p, a, b):
	if a == b:
		return p
	out = set()
	for m in p:
		r = 0
		j = 0
		while m >> j:
			if m >> j & 1:
				k, i = V.names[j]
				r |= 1 << V.var(b if k == a else k, i)
			j += 1
		out ^= {r}
	return frozenset(out)


class BitsWorld(World):
	def __init__(self, n):
		World.__init__(self)
		self.n = n
		self.vars = Vars(n)
		np_models(self)
	def generic_blade(self, kind, dtype, axes):
		return BV([self.vars.atom(kind, i) for i in range(self.n)], dtype, axes)
	def concat_str(self, I, parts):
		bits = [bitstr_of(p) for p in parts]
		if all(b is not None for b in bits):
			return BitStr([x for b in bits for x in b])
		return Top('string')
	def join_str(self, I, sep, parts):
		if sep == '':
			return self.concat_str(I, parts)
		return Top('join')
	def convert(self, I, n, a, k):
		return NotImplemented
	def length(self, v):
		return None
	def enumerate(self, v):
		return None
	def generic_binder(self, label):
		return None
	def bcast_check(self, axes):
		pass
	def bcast_mismatch(self, a, b):
		pass


def np_models(w):
	E = w.ext
	C = w.consts
	C['numpy.pi'] = 3.141592653589793
	C['numpy.newaxis'] = None
	def reg(*names):
		def d(f):
			for n in names:
				E['numpy.' + n] = f
			return f
		return d
	def binary(op):
		def f(I, a, k):
			r = I.binop(op, arr(I, a[0]), arr(I, a[1]))
			d = k.get('dtype')
			if d is not None and isinstance(r, Sized):
				r = astype(I, r, dtname(d))
			return r
		return f
	def arr(I, v):
		return v if isinstance(v, (AV, int, float)) else as_array(I, v)
	for names, op in ((('bitwise_xor',), '^'), (('bitwise_and',), '&'), (('bitwise_or',), '|'), (('left_shift', 'bitwise_left_shift'), '<<'),
			(('right_shift', 'bitwise_right_shift'), '>>'), (('add',), '+'), (('subtract',), '-'), (('multiply',), '*'), (('mod', 'remainder'), '%'),
			(('floor_divide',), '//'), (('power',), '**'), (('matmul',), '@')):
		reg(*names)(binary(op))
	def outer(op):
		def f(I, a, k):
			x, y = as_array(I, a[0]), as_array(I, a[1])
			if isinstance(x, Sized) and isinstance(y, Sized) and not isinstance(x, CArr) and not isinstance(y, CArr):
				x = x.clone(axes=x.axes + (1,) * len(y.axes))
				return I.binop(op, x, y)
			return I.top('outer')
		return f
	for nm, op in (('bitwise_xor', '^'), ('bitwise_and', '&'), ('bitwise_or', '|'), ('add', '+'), ('multiply', '*'), ('subtract', '-')):
		E[f'numpy.{nm}.outer'] = outer(op)
	for nm, op in (('equal', '=='), ('not_equal', '!='), ('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>=')):
		E[f'numpy.{nm}'] = (lambda op: lambda I, a, k: I.compare(op, arr(I, a[0]), arr(I, a[1])))(op)
	@reg('negative')
	def _(I, a, k):
		return I.unop('-', a[0])
	@reg('invert', 'bitwise_not')
	def _(I, a, k):
		return I.unop('~', arr(I, a[0]))
	@reg('logical_not')
	def _(I, a, k):
		v = arr(I, a[0])
		return I.compare('==', v, 0) if not isinstance(v, BoolV) else v.a_not(I)
	@reg('logical_and')
	def _(I, a, k):
		return I.binop('&', arr(I, a[0]), arr(I, a[1]))
	@reg('logical_or')
	def _(I, a, k):
		return I.binop('|', arr(I, a[0]), arr(I, a[1]))
	@reg('logical_xor')
	def _(I, a, k):
		return I.binop('^', arr(I, a[0]), arr(I, a[1]))
	def lifted(v, fn, dt, I):
		"""fn of one abstract integer"""
		if isinstance(v, BV):
			v = v.to_int()
		if isinstance(v, (Tab, MTab)):
			return v.lift(fn, dt)
		if isinstance(v, IntV):
			t = v.to_tab(I)
			if t is not None:
				return t.lift(fn, dt)
			if v.mod is None:
				return v.lift_small(fn, dt)
		return None
	def extremum(fn, sign):
		def f(I, a, k):
			if len(a) != 2 or k:
				return I.top('extremum')
			x, y = (arr(I, v) for v in a)
			def cst(v):
				if isinstance(v, CArr) and v.shape == ():
					v = v.flat[0]
				if isinstance(v, IntV) and not v.terms and v.mod is None:
					v = v.const
				return v
			x, y = cst(x), cst(y)
			if isinstance(x, (int, float)) and isinstance(y, (int, float)):
				return fn(x, y)
			if isinstance(x, (int, float)):
				x, y = y, x
			if isinstance(y, int):
				if isinstance(x, IntV) and x.mod is None:
					lo, hi = x.bounds()
					if fn(lo, y) == lo and fn(hi, y) == hi:
						return x
					if fn(lo, y) == y and fn(hi, y) == y:
						return IntV({}, y, x.dtype, x.axes)
				r = lifted(x, lambda v: fn(v, y), x.dtype if isinstance(x, Sized) else 'int64', I)
				return r if r is not None else I.top('extremum')
			x, y = (v.to_tab(I) or v if isinstance(v, IntV) else v for v in (x, y))
			if isinstance(x, (Tab, MTab)) and isinstance(y, (Tab, MTab)):
				if isinstance(x, Tab) and isinstance(y, Tab) and x.var == y.var:
					return Tab(x.var, tuple(map(fn, x.vals, y.vals)), promote(x.dtype, y.dtype), bcast(I, x.axes, y.axes))
				return MTab.of(x).merge(I, MTab.of(y), fn, promote(x.dtype, y.dtype))
			return I.top('extremum')
		return f
	E['numpy.minimum'] = E['numpy.fmin'] = extremum(min, -1)
	E['numpy.maximum'] = E['numpy.fmax'] = extremum(max, 1)
	@reg('clip')
	def _(I, a, k):
		lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min'))
		hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))
		r = a[0]
		if lo is not None:
			r = I.call_ext('numpy.maximum', [r, lo], {})
		if hi is not None:
			r = I.call_ext('numpy.minimum', [r, hi], {})
		return r
	@reg('abs', 'absolute')
	def _(I, a, k):
		v = arr(I, a[0])
		return v.a_unop(I, 'abs') if isinstance(v, AV) else abs(v)
	@reg('sign')
	def _(I, a, k):
		v = a[0]
		if isinstance(v, Tab):
			return v.lift(lambda x: (x > 0) - (x < 0), v.dtype)
		return I.top('sign')
	@reg('asarray', 'array', 'ascontiguousarray', 'atleast_1d')
	def _(I, a, k):
		return as_array(I, a[0], a[1] if len(a) > 1 else k.get('dtype'))
	@reg('copy')
	def _(I, a, k):
		return a[0]
	for d in DT:
		E['numpy.' + d] = (lambda d: lambda I, a, k: astype(I, as_array(I, a[0]), dtname(d)) if a else CArr((), [0], d))(d)
	E['numpy.dtype'] = lambda I, a, k: DTypeV(dtname(a[0])) if dtname(a[0]) else I.top('dtype')
	@reg('arange')
	def _(I, a, k):
		if all(isinstance(x, int) for x in a):
			r = list(range(*a))
			return wrap_c(CArr((len(r),), r, dtname(k.get('dtype')) or 'int64'))
		return I.top('arange')
	@reg('unpackbits')
	def _(I, a, k):
		v = a[0]
		ax = k.get('axis', a[1] if len(a) > 1 else None)
		if isinstance(v, CArr) and v.dtype == 'uint8' and (ax == len(v.shape) - 1 or ax == -1 or (ax is None and len(v.shape) == 1)):
			little = k.get('bitorder') == 'little'
			flat = []
			for x in v.flat:
				b = [x >> i & 1 for i in range(8)]
				flat += b if little else b[::-1]
			return CArr(v.shape[:-1] + (v.shape[-1] * 8,), flat, 'uint8')
		return I.top('unpackbits')
	@reg('sum', 'any', 'all', 'max', 'min', 'count_nonzero', 'prod')
	def red(I, a, k):
		return I.top('reduction')
	def creduce(name, fn, dt):
		def f(I, a, k):
			v = a[0]
			if isinstance(v, (list, tuple, GenList)):
				v = as_array(I, v)
			ax = k.get('axis', a[1] if len(a) > 1 else None)
			if isinstance(v, CArr):
				if ax is None:
					return fn(v.flat)
				if isinstance(ax, int):
					ax = ax % len(v.shape)
					pre = 1
					for s in v.shape[:ax]:
						pre *= s
					n = v.shape[ax]
					post = len(v.flat) // (pre * n) if pre * n else 0
					out = [fn([v.flat[(i * n + j) * post + l] for j in range(n)]) for i in range(pre) for l in range(post)]
					return CArr(v.shape[:ax] + v.shape[ax + 1:], out, dt(v.dtype))
			if isinstance(v, BoolV) and not v.axes:
				return v
			return I.top(f'np.{name}')
		return f
	E['numpy.sum'] = creduce('sum', sum, lambda d: 'uint64' if d.startswith('u') else 'int64')
	E['numpy.any'] = creduce('any', lambda x: any(map(bool, x)), lambda d: 'bool')
	E['numpy.all'] = creduce('all', lambda x: all(map(bool, x)), lambda d: 'bool')
	E['numpy.max'] = creduce('max', max, lambda d: d)
	E['numpy.min'] = creduce('min', min, lambda d: d)
	E['numpy.amax'] = E['numpy.max']
	@reg('where')
	def _(I, a, k):
		if len(a) != 3:
			return I.top('where')
		c, x, y = a
		c = arr(I, c)
		if isinstance(c, BV) and c.is_bit():
			c = c.to_int()
		if isinstance(c, (IntV, BV)) and not (isinstance(c, IntV) and c.is_bit()):
			c = I.compare('!=', c, 0)
		def cval(v):
			if isinstance(v, CArr) and v.shape == ():
				return v.flat[0]
			if isinstance(v, IntV) and not v.terms and v.mod is None:
				return v.const
			return v
		x, y = cval(x), cval(y)
		if isinstance(c, Tab):
			def at(v, i):
				return v.vals[i] if isinstance(v, Tab) else v
			xs = [x, y]
			xs = [v.to_tab(I) if isinstance(v, IntV) and v.to_tab(I) is not None else v for v in xs]
			if all(isinstance(v, (int, bool)) or (isinstance(v, Tab) and v.var == c.var) for v in xs):
				return Tab(c.var, tuple(at(xs[0], i) if c.vals[i] else at(xs[1], i) for i in range(len(c.vals))), 'int64', c.axes)
			return I.top('where')
		if isinstance(c, MTab):
			xs = [MTab.of(v) if isinstance(v, Tab) else v for v in (x, y)]
			if all(isinstance(v, (int, bool)) for v in xs):
				return c.lift(lambda t: xs[0] if t else xs[1], 'int64' if not all(isinstance(v, bool) for v in xs) else 'bool')
			return I.top('where')
		if isinstance(x, int) and isinstance(y, int):
			if isinstance(c, IntV) and c.is_bit():
				return bit_select(c, x, y).clone(dtype='int64')
			if isinstance(c, BoolV):
				i = c.as_int()
				if i is not None:
					return bit_select(i, x, y).clone(dtype='int64')
				if (x, y) in ((1, 0), (True, False)):
					return c
				if (x, y) in ((0, 1), (False, True)):
					return c.a_not(I)
			if isinstance(c, bool):
				return x if c else y
		if isinstance(c, BoolV):
			if isinstance(y, int) and y == 0:
				return I.binop('*', x, c)
			if isinstance(x, int) and x == 0:
				return I.binop('*', y, c.a_not(I))
		if isinstance(c, IntV) and c.is_bit():
			s = Sgn.of(x), Sgn.of(y)
			# where(p, -s, s)
			if s[0] is not None and s[1] is not None and s[0].Z == s[1].Z and s[0].tabs == s[1].tabs:
				d = s[0].par ^ s[1].par
				return Sgn(s[1].par ^ conj(d, c.as_bit()), s[0].Z, s[0].tabs, bcast(I, c.axes, s[0].axes, s[1].axes))
		return I.top('where')
	@reg('ndarray')
	def _(I, a, k):
		buf = k.get('buffer')
		shape = k.get('shape', a[0] if a else None)
		strides = k.get('strides')
		if isinstance(buf, Tok) and buf.kind == 'buffer' and isinstance(buf.v, BV) and dtname(k.get('dtype')) == 'uint8' and isinstance(shape, tuple) and isinstance(strides, tuple):
			v = buf.v
			if v.dtype in DT and shape[0] is not None and isinstance(shape[0], int) and strides[:1] == (1,) and len(strides) == 2 and isinstance(strides[1], Tok):
				item = DT[v.dtype][0] // 8
				if shape[0] > item:
					return I.top('byte view beyond the item')
				return [BV([v.bit(8 * j + i) for i in range(8)], 'uint8', v.axes) for j in range(shape[0])]
		if isinstance(buf, Tok) and buf.kind == 'buffer' and isinstance(buf.v, CArr) and dtname(k.get('dtype')) == 'uint8' and isinstance(shape, tuple) and isinstance(strides, tuple):
			v = buf.v
			if v.dtype in DT and shape and isinstance(shape[0], int) and strides[:1] == (1,) and tuple(shape[1:]) == tuple(v.shape) and all(isinstance(x, Tok) for x in strides[1:]):
				item = DT[v.dtype][0] // 8
				if shape[0] > item:
					return I.top('byte view beyond the item')
				return [CArr(v.shape, [(int(x) >> 8 * j) & 255 for x in v.flat], 'uint8') for j in range(shape[0])]
		return I.top('ndarray view')
	@reg('zeros_like')
	def _(I, a, k):
		v = a[0]
		if isinstance(v, Sized) and not isinstance(v, CArr):
			return IntV({}, 0, dtname(k.get('dtype')) or v.dtype, v.axes)
		return I.top('zeros_like')
	@reg('ones_like')
	def _(I, a, k):
		v = a[0]
		if isinstance(v, Sized) and not isinstance(v, CArr):
			return IntV({}, 1, dtname(k.get('dtype')) or v.dtype, v.axes)
		return I.top('ones_like')
	@reg('zeros', 'ones', 'full', 'empty')
	def _(I, a, k):
		return I.top('allocation')
	@reg('isin', 'in1d')
	def _(I, a, k):
		v = a[0]
		t = v if isinstance(v, Tab) else v.to_tab(I) if isinstance(v, IntV) else None
		c = a[1]
		if isinstance(c, CArr):
			c = c.flat
		if t is not None and isinstance(c, (list, tuple)):
			return t.a_in_host(I, c)
		return I.top('isin')
	@reg('expand_dims')
	def _(I, a, k):
		v = a[0]
		ax = k.get('axis', a[1] if len(a) > 1 else None)
		if isinstance(v, Sized) and isinstance(ax, int) and not isinstance(v, CArr):
			n = len(v.axes) + 1
			l = list(v.axes)
			l.insert(ax % n, 1)
			return v.clone(axes=tuple(l))
		return I.top('expand_dims')
	@reg('diag')
	def _(I, a, k):
		v = as_array(I, a[0])
		if isinstance(v, CArr) and v.shape == () :
			return I.top('diag')
		s = Sgn.of(v)
		if s is not None and len(v.axes) == 1:
			var = v.axes[0]
			return SignedMap(var, w.generic_blade(var, 'uint8' if w.n <= 8 else 'uint32', ()), s.clone(axes=()), v.dtype)
		return I.top('diag')
	@reg('identity', 'eye')
	def _(I, a, k):
		if isinstance(a[0], DimTok):
			var = a[0].label
			return SignedMap(var, w.generic_blade(var, 'uint8' if w.n <= 8 else 'uint32', ()), Sgn(ZERO, (), {}, ()), dtname(k.get('dtype', a[1] if len(a) > 1 else None)) or 'float64')
		return I.top('identity')
	def inv(I, a, k):
		v = a[0]
		if isinstance(v, SignedMap):
			r = v.inverse(I)
			if isinstance(r, SignedMap):
				r.dtype = 'float64'
			return r
		return I.top('inv')
	E['numpy.linalg.inv'] = inv
	@reg('transpose')
	def _(I, a, k):
		if isinstance(a[0], SignedMap):
			return a[0].inverse(I)
		return I.top('transpose')
	@reg('swapaxes')
	def _(I, a, k):
		if isinstance(a[0], SignedMap) and set(x % 2 for x in a[1:3]) == {0, 1}:
			return a[0].inverse(I)
		return I.top('swapaxes')
	@reg('rint', 'round', 'around')
	def _(I, a, k):
		return a[0]
	@reg('tensordot')
	def _(I, a, k):
		ax = k.get('axes', a[2] if len(a) > 2 else 2)
		x, y = a[0], a[1]
		if isinstance(x, SignedMap) and isinstance(y, SignedMap):
			if isinstance(ax, int) and ax == 1:
				ax = (-1, 0)
			if isinstance(ax, (tuple, list)) and len(ax) == 2:
				p, q = [z[0] if isinstance(z, (tuple, list)) else z for z in ax]
				if isinstance(p, int) and isinstance(q, int):
					p, q = p % 2, q % 2
					# contract x's axis p with y's axis q; result (other of x, other of y)
					x2 = x if p == 1 else x.inverse(I)
					y2 = y if q == 0 else y.inverse(I)
					if isinstance(x2, Top) or isinstance(y2, Top):
						return I.top('tensordot')
					return x2.compose(I, y2)
		return I.top('tensordot')
	@reg('moveaxis')
	def _(I, a, k):
		if isinstance(a[0], SignedMap):
			src = list(I.iterate(a[1])) if not isinstance(a[1], int) else [a[1]]
			dst = list(I.iterate(a[2])) if not isinstance(a[2], int) else [a[2]]
			if src == dst:
				return a[0]
		return I.top('moveaxis')
	@reg('unique')
	def _(I, a, k):
		return I.top('unique')
	@reg('identity_')
	def _(I, a, k):
		return I.top('')
