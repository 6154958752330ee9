"""Layout of a Cayley table as a dense kernel: coordinate arrays over a generic table entry.

Every array is described by what it holds at a generic entry (i, j, ..) of the table and
by how the entries are laid out (grid, flattened in some order, filtered by a mask).
"""
import itertools
from .core import *
from .report import Undecided, Violation, loc

ST = 'numga.operator.sparse_tensor:SparseTensor'
OP = 'numga.operator.operator:Operator'
RULE = 'entry (i, j, k) of the kernel is the sign of the table at (i, j) where blade k is the one in the table, and 0 elsewhere'


class Len(AV):
	def __init__(self, tok):
		self.tok = tok
	def __repr__(self):
		return f'len({self.tok})'
	def a_key(self):
		return ('len', self.tok)
	def a_cmp(self, I, op, o, refl):
		if isinstance(o, Len) and op in ('==', '!='):
			if o.tok == self.tok:
				return op == '=='
			return I.decide(('len', frozenset((o.tok, self.tok)))) == (op == '==')
		return Top('length')
	def a_isinstance(self, I, cls):
		return isinstance(cls, HostType) and cls.name == 'int'
	def a_to_int(self, I):
		return self


class Space(AV):
	def __init__(self, tok):
		self.tok = tok
	def __repr__(self):
		return self.tok
	def a_key(self):
		return ('space', self.tok)
	def a_bool(self, I):
		return True
	def a_len(self, I):
		return Len(self.tok)
	def a_isinstance(self, I, cls):
		return isinstance(cls, PyClass) and cls.name == 'SubSpace'
	def a_getattr(self, I, name):
		if name == 'blades':
			return Bl(self.tok)
		if name == 'subspace':
			return self
		if name == 'to_relative_indices':
			return HostFn(lambda I2, a, k: rel(self.tok, (list(a) + list(k.values()))[0]), name)
		return Top(f'subspace.{name}')


class Bl(AV):
	"""blades of a subspace"""
	def __init__(self, tok):
		self.tok = tok
	def __repr__(self):
		return f'{self.tok}.blades'
	def a_len(self, I):
		return Len(self.tok)
	def a_getattr(self, I, name):
		if name == 'shape':
			return (Len(self.tok),)
		if name in ('size',):
			return Len(self.tok)
		if name == 'dtype':
			return Ext('numpy.blade_dtype')
		if name in ('copy', 'astype'):
			return HostFn(lambda I2, a, k: self, name)
		if name == 'take':
			return HostFn(lambda I2, a, k: self.a_getitem(I2, a[0]) if len(a) == 1 and not k else Top('take'), name)
		return Top(f'blades.{name}')
	def a_getitem(self, I, k):
		if isinstance(k, Ent) and k.kind[0] == 'i':
			if k.dims[k.kind[1]] != self.tok:
				raise PyRaise('IndexError', f'positions along {k.dims[k.kind[1]]} used on the blades of {self.tok}')
			return Ent(k.dims, ('blade', self.tok, k.kind), k.lay)
		return Top('blades indexed')


def rel(tok, e):
	if not isinstance(e, Ent):
		return Top('positions')
	if e.kind[0] == 'blade' and e.kind[1] == tok:
		return Ent(e.dims, e.kind[2], e.lay)
	if e.kind[0] == 'i' or e.kind[0] in ('sign', 'nz'):
		return Ent(e.dims, ('positions within', tok, e.kind), e.lay)
	return Ent(e.dims, ('rel', tok, e.kind), e.lay)


def show(k):
	if not isinstance(k, tuple):
		return str(k)
	if k[0] == 'i':
		return 'ijkl'[k[1]]
	if k[0] == 'blade':
		return f'{k[1]}.blades[{show(k[2])}]'
	if k[0] == 'rel':
		return f'position of {show(k[2])} in {k[1]}'
	return ' '.join(show(x) for x in k)


class Ent(AV):
	"""array over the entries of a table"""
	def __init__(self, dims, kind, lay=('grid',)):
		self.dims, self.kind, self.lay = tuple(dims), kind, lay
	def __repr__(self):
		return f'{show(self.kind)} {self.lay}'
	def with_(self, lay):
		return Ent(self.dims, self.kind, lay)
	def flat(self, order='C'):
		if self.lay == ('grid',) and order in ('C', 'F', 'A', 'K'):
			return self.with_(('flat', 'F' if order == 'F' and len(self.dims) > 1 else 'C'))
		if self.lay == ('gridT',) and order in ('C', 'F'):
			return self.with_(('flat', 'C' if order == 'F' else 'F'))
		if self.lay[0] == 'flat':
			return self
		return Top('flatten')
	def a_len(self, I):
		return Len(self.dims[0]) if self.lay == ('grid',) else Top('number of entries')
	def a_bool(self, I):
		return I.decide(('truth', repr(self)))
	def a_getattr(self, I, name):
		if name in ('flatten', 'ravel'):
			return HostFn(lambda I2, a, k: self.flat(*a, **k), name)
		if name == 'reshape':
			return HostFn(lambda I2, a, k: self.flat(**k) if a in ([-1], [(-1,)], [[-1]]) else Top('reshape'), name)
		if name == 'T':
			return self if len(self.dims) == 1 or self.lay[0] == 'flat' else self.with_(('gridT',) if self.lay == ('grid',) else ('grid',))
		if name == 'transpose':
			return HostFn(lambda I2, a, k: self.a_getattr(I2, 'T') if not a and not k else Top('transpose'), name)
		if name == 'shape':
			return tuple(Len(d) for d in self.dims) if self.lay == ('grid',) else Top('shape')
		if name == 'ndim':
			return len(self.dims) if self.lay[0] != 'flat' else 1
		if name == 'dtype':
			return Ext('numpy.int8') if self.kind == ('sign',) else Ext('numpy.blade_dtype')
		if name in ('copy',):
			return HostFn(lambda I2, a, k: self, name)
		if name == 'astype':
			return HostFn(lambda I2, a, k: self if a and a[0] not in ('bool', 'uint8') and 'uint' not in repr(a[0]) else Top('astype'), name)
		if name in ('nonzero',):
			return HostFn(lambda I2, a, k: (Nz(self),), name)
		return Top(f'array.{name}')
	def a_iter(self, I):
		raise Unsupported('iteration over table entries')
	def a_cmp(self, I, op, o, refl):
		if self.kind == ('sign',) and op in ('!=', '==') and isinstance(o, (int, float)) and o == 0:
			return Ent(self.dims, ('nz',) if op == '!=' else ('zero',), self.lay)
		return Top('comparison of table entries')
	def a_unop(self, I, op):
		if op == '~' and self.kind in (('nz',), ('zero',)):
			return Ent(self.dims, ('zero',) if self.kind == ('nz',) else ('nz',), self.lay)
		if op == '-' and self.kind == ('sign',):
			return Ent(self.dims, ('minus', ('sign',)), self.lay)
		return Top(op)
	def a_binop(self, I, op, o, refl):
		if op == '*' and isinstance(o, Ent) and o.kind == ('nz',) and self.kind == ('sign',) and o.lay == self.lay:
			return self
		return Top(f'{self} {op}')
	def a_getitem(self, I, k):
		if isinstance(k, tuple) and len(k) == 1:
			k = k[0]
		if isinstance(k, Nz):
			k = k.e
		if isinstance(k, Ent) and k.kind in (('nz',), ('zero',), ('sign',)) and k.lay == self.lay and k.dims == self.dims:
			if k.kind == ('sign',):
				return Top('indexed by signs')
			if self.lay[-1] == k.kind[0]:
				return self
			if self.lay == ('gridT',):
				return self.with_(('flat', 'F', k.kind[0]))
			return self.with_(('flat', 'C') + (self.lay[2:] if self.lay[0] == 'flat' else ()) + (k.kind[0],) if self.lay == ('grid',) or self.lay[1] == 'C' else self.lay + (k.kind[0],))
		if isinstance(k, Ent) and k.kind in (('nz',), ('zero',)):
			raise PyRaise('IndexError', f'a mask laid out as {k.lay} filters an array laid out as {self.lay}')
		return Top('table entries indexed')


class Nz(AV):
	def __init__(self, e):
		self.e = e
	def a_getitem(self, I, k):
		return self if k == 0 else Top('nonzero')


class Dense(AV):
	def __init__(self, shape, dtype, fill=0):
		self.shape, self.dtype, self.fill, self.stores = shape, dtype, fill, []
	def __repr__(self):
		return f'dense {self.shape}'
	def a_getattr(self, I, name):
		if name == 'shape':
			return tuple(self.shape)
		if name == 'ndim':
			return len(self.shape)
		if name == 'astype':
			def f(I2, a, k):
				d = Dense(self.shape, dt(a[0]), self.fill)
				d.stores = self.stores
				return d
			return HostFn(f, name)
		if name == 'copy':
			return HostFn(lambda I2, a, k: self, name)
		return Top(f'dense.{name}')
	def a_setitem(self, I, k, v):
		self.stores.append((k, v))


def dt(x):
	return x if isinstance(x, str) else repr(x) if x is not None else 'float64'


def world():
	w = World()
	def indices(I, a, k):
		s = a[0] if a else k.get('dimensions')
		s = list(I.iterate(s))
		if k.get('sparse') or not all(isinstance(x, Len) for x in s):
			return Top('indices')
		return [Ent([x.tok for x in s], ('i', n)) for n in range(len(s))]
	w.ext['numpy.indices'] = indices
	def meshgrid(I, a, k):
		t = [x.size if isinstance(x, Ar) else None for x in a]
		if None in t or k.get('sparse'):
			return Top('meshgrid')
		if k.get('indexing', 'xy') != 'ij' and len(a) > 1:
			return Top('meshgrid xy')
		return [Ent(t, ('i', n)) for n in range(len(a))]
	w.ext['numpy.meshgrid'] = meshgrid
	w.ext['numpy.arange'] = lambda I, a, k: Ar(a[0].tok) if len(a) == 1 and isinstance(a[0], Len) else Top('arange')
	def zeros(I, a, k):
		s = a[0] if a else k.get('shape')
		return Dense(list(I.iterate(s)), dt(k.get('dtype', a[1] if len(a) > 1 else None)))
	w.ext['numpy.zeros'] = zeros
	w.ext['numpy.ravel'] = lambda I, a, k: a[0].flat(*a[1:], **k) if isinstance(a[0], Ent) else Top('ravel')
	w.ext['numpy.nonzero'] = lambda I, a, k: (Nz(a[0] if a[0].kind != ('sign',) else Ent(a[0].dims, ('nz',), a[0].lay)),) if isinstance(a[0], Ent) and a[0].lay[0] == 'flat' else Top('nonzero')
	w.ext['numpy.flatnonzero'] = lambda I, a, k: Nz(a[0].flat() if a[0].kind != ('sign',) else Ent(a[0].dims, ('nz',), a[0].flat().lay)) if isinstance(a[0], Ent) else Top('nonzero')
	w.ext['numpy.not_equal'] = lambda I, a, k: I.compare('!=', a[0], a[1])
	w.ext['numpy.asarray'] = w.ext['numpy.array'] = lambda I, a, k: a[0] if isinstance(a[0], (Ent, Dense)) and len(a) == 1 and not k else Top('array')
	w.ext['numpy_indexed.indices'] = lambda I, a, k: rel(a[0].tok, a[1]) if isinstance(a[0], Bl) and len(a) == 2 and not k else Top('indices')
	def addat(I, a, k):
		if isinstance(a[0], Dense) and len(a) == 3:
			a[0].a_setitem(I, a[1], a[2])
			return None
		return Top('add.at')
	w.ext['numpy.add.at'] = addat
	return w


class Ar(AV):
	def __init__(self, size):
		self.size = size


def layout(rep):
	base = Interp(world())
	IN, OUT = 'LRM', 'O'
	for n in (1, 2, 3):
		for via in ('to_dense', 'drop_zero', 'Operator', 'Operator of drop_zero'):
			for seq in (tuple, list):
				name = f'Cayley table of {n} inputs laid out through {via}, subspaces in a {seq.__name__}'
				where = loc(base, f'{ST}.to_dense')
				def go(n=n, via=via, seq=seq, name=name, where=where):
					w = world()
					I = Interp(w)
					I.get(OP)
					dims = IN[:n]
					I.imprecise.clear()
					try:
						S = I.call(I.get(ST + '.from_cayley'), [seq(Space(d) for d in dims), Ent(dims, ('cayley',)), Ent(dims, ('sign',))], {})
						if 'drop_zero' in via:
							S = I.call(I.getattr(S, 'drop_zero'), [], {})
						axes = seq(Space(d) for d in dims + OUT)
						if via.startswith('Operator'):
							r = I.call(I.get(OP), [S, axes], {})
							d = I.getattr(r, 'kernel')
							ax = I.getattr(r, 'axes')
							if isinstance(ax, tuple) and [getattr(x, 'tok', None) for x in ax] != list(dims + OUT):
								raise Violation(loc(I, OP + '.__init__'), f'the operator lists {ax}')
						else:
							d = I.call(I.getattr(S, 'to_dense'), [axes], {})
					except PyRaise as e:
						if I.imprecise or I.trace:
							raise Undecided(f'{e} {I.imprecise[:2]}')
						raise Violation(where, f'raises {e}')
					rep.absorb(I)
					if I.imprecise or I.trace:
						raise Undecided(f'{I.imprecise[:2]} {I.trace[:1]}')
					if not isinstance(d, Dense) or not all(isinstance(x, Len) for x in d.shape):
						raise Undecided(f'result {d}')
					if [x.tok for x in d.shape] != list(dims + OUT):
						raise Violation(where, f'the kernel has shape {d.shape}')
					if 'uint' in d.dtype or 'bool' in d.dtype:
						raise Violation(where, f'entries of type {d.dtype} cannot hold a negative sign')
					if len(d.stores) != 1:
						raise Undecided(f'{len(d.stores)} stores')
					k, v = d.stores[0]
					k = k if isinstance(k, tuple) else (k,)
					if not all(isinstance(x, Ent) for x in k) or not isinstance(v, Ent):
						raise Undecided(f'stores {v} at {k}')
					want = [('i', i) for i in range(n)] + [('rel', OUT, ('cayley',))]
					got = [x.kind for x in k]
					if got != want:
						raise Violation(where, f'entries are stored at ({", ".join(map(show, got))}), expected ({", ".join(map(show, want))})')
					if v.kind != ('sign',):
						raise Violation(where, f'the value stored is {show(v.kind)}')
					lays = {x.lay for x in k} | {v.lay}
					if len(lays) != 1:
						raise Violation(where, f'coordinates and values are laid out differently: {sorted(lays)}')
					lay = lays.pop()
					if 'zero' in lay:
						raise Violation(where, 'the entries with a non-zero sign are left out')
					return f'stored at ({", ".join(map(show, got))}) {lay}'
				rep.run(name, RULE, go, where)
