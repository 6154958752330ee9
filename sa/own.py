"""Ownership domain: which storage an array may share, and who writes to it.

Arrays carry the set of buffers they may share; everything that is not an array
is an unknown with a structural name.  Functions of the array libraries return
new storage, or a view of what they were given, or write to an argument.
"""
from .core import *
from .core import HostType, GenList

VIEW_FN = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'broadcast_arrays', 'reshape', 'ravel',
	'transpose', 'moveaxis', 'movedim', 'swapaxes', 'swapdims', 'rollaxis', 'squeeze', 'unsqueeze', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90', 'diagonal', 'diag', 'real', 'imag',
	'as_strided', 'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'chunk', 'unbind', 'unstack', 'as_tensor', 'from_numpy', 'frombuffer', 'permute', 'narrow', 'permute_dims', 'matrix_transpose', 't',
	'view_as_real', 'view_as_complex', 'sliding_window_view', 'require', 'ndarray', 'memoryview', 'select', 'expand', 'flatten', 'detach', 'rearrange', 'asmatrix', 'reveal', 'as_array', 'nested'}
NUMPY_FRESH = {'flatten', 'select', 'diag'}      # of the numpy library: always new storage
WRITE_FN = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0, 'shuffle': 0}
VIEW_ATTR = {'T', 'mT', 'H', 'mH', 'real', 'imag', 'flat', 'data', 'base'}
SCALAR_ATTR = {'shape', 'ndim', 'size', 'dtype', 'strides', 'nbytes', 'itemsize', 'device', 'requires_grad', 'is_cuda', 'weak_type', 'layout'}
VIEW_METH = {'reshape', 'view', 'ravel', 'transpose', 'swapaxes', 'swapdims', 'moveaxis', 'movedim', 'squeeze', 'unsqueeze', 'diagonal', 'permute', 'expand', 'expand_as', 'narrow', 'chunk', 'split', 'unbind', 'select', 'detach',
	'contiguous', 'to', 'cpu', 'numpy', 'type', 'float', 'double', 'view_as', 'reshape_as', 'broadcast_to', 't', 'flatten', 'unflatten', 'byte', 'long', 'int', 'half', 'asarray', '__array__', 'adjoint', 'unfold', 'cuda'}
WRITE_METH = {'fill', 'sort', 'resize', 'put', 'partition', 'itemset', 'byteswap', 'setfield', 'setflags', '__setitem__', '__iadd__', '__isub__', '__imul__', '__itruediv__', '__ior__', '__iand__', '__ixor__'}
LIST_WRITE = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__'}
LIBS = {'numpy': 'numpy', 'jax': 'jax', 'torch': 'torch', 'einops': None, 'numpy_indexed': 'numpy', 'scipy': 'numpy', 'opt_einsum': None}


class Buf:
	def __init__(self, label, protected=False):
		self.label, self.protected = label, protected
	def __repr__(self):
		return self.label


def struct(x):
	"""structural name of a value, for consistent decisions"""
	if isinstance(x, AV) and hasattr(x, 'a_key'):
		return x.a_key()
	if isinstance(x, (tuple, list)):
		return (type(x).__name__,) + tuple(struct(y) for y in x)
	if isinstance(x, GenList):
		return ('gen', id(x))
	try:
		hash(x)
		return x
	except TypeError:
		return ('obj', id(x))


def clip(key):
	return key if depth(key) < 12 else ('deep', hash(key))


def depth(k):
	return 1 + max([depth(x) for x in k if isinstance(x, tuple)] or [0]) if isinstance(k, tuple) else 0


class Any(AV):
	"""an unknown that is not an array"""
	def __init__(self, key):
		self.k = clip(key)
	def __repr__(self):
		return f'?{self.k}'[:60]
	def a_key(self):
		return ('?', self.k)
	def a_hash(self, I):
		return Any(('hash', self.k))
	def a_getattr(self, I, name):
		if name in ('blades', 'kernel'):
			return I.world.owned((self.k, name), f'{name} of a {"subspace" if name == "blades" else "operator"}')
		return Any((self.k, name))
	def a_setattr(self, I, name, v):
		I.effects.append(('write', f'attribute {name} of {self}', I.stack[-1] if I.stack else '?', 'attribute store'))
	def a_call(self, I, args, kw):
		return Any(('call', self.k) + tuple(struct(x) for x in args) + tuple((n, struct(v)) for n, v in sorted(kw.items())))
	def a_binop(self, I, op, other, refl):
		if isinstance(other, Obj) or isinstance(other, Arr):
			return NotImplemented
		return Any(('op', op, struct(other), self.k) if refl else ('op', op, self.k, struct(other)))
	def a_unop(self, I, op):
		return Any((op, self.k))
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not') and (other is None or isinstance(other, bool)):
			return op == 'is not'
		if isinstance(other, Any) and other.k == self.k and op in ('==', 'is', '!=', 'is not'):
			return op in ('==', 'is')
		neg = op in ('!=', 'is not')
		a, b = ('?', self.k), struct(other)
		if op in ('==', '!=', 'is', 'is not'):
			k = ('eq',) + tuple(sorted((a, b), key=repr))
			return Not(k) if neg else Any(k)
		return Any(('cmp', op, a, b))
	def a_getitem(self, I, key):
		return Any(('item', self.k, struct(key)))
	def a_setitem(self, I, key, v):
		pass
	def a_iter(self, I):
		return [Any(('elem', self.k, 0)), Any(('elem', self.k, 1))]
	def a_star(self, I):
		return [Any(('elem', self.k, 0)), Any(('elem', self.k, 1))]
	def a_unpack(self, I, want):
		return [Any(('elem', self.k, i)) for i in range(want)]
	def a_len(self, I):
		return Any(('len', self.k))
	def a_bool(self, I):
		if len(I.trace) > 14:
			raise Unsupported('too many branches')
		return I.decide(('truth', self.k))
	def a_contains(self, I, x):
		return Any(('in', struct(x), self.k))
	def a_isinstance(self, I, cls):
		if isinstance(cls, PyClass):
			if cls.name in self.classes(I):
				return True
			if cls.name in ('AbstractMultiVector', 'SparseTensor', 'Operator') or 'MultiVector' in cls.name:
				return False
		return Any(('isinstance', self.k, repr(cls)))
	def classes(self, I):
		return ()
	def a_str(self, I):
		return Any(('str', self.k))
	def a_index_host(self, I, o):
		if isinstance(o, (tuple, list)) and o:
			return o[0]
		return Any(('pick', self.k))
	def a_index_dict(self, I, o):
		k = I.key(self)
		if k in o:
			return o[k]
		if o:
			return next(iter(o.values()))
		raise PyRaise('KeyError', str(self))
	def a_range(self, I, a):
		return [Any(('range', self.k, 0)), Any(('range', self.k, 1))]
	def a_type(self, I):
		return Any(('type', self.k))


class Not(Any):
	def __init__(self, k):
		Any.__init__(self, ('not', k))
		self.inner = k
	def a_bool(self, I):
		return not I.decide(('truth', self.inner))


class Stub(Any):
	"""an unknown known to be of some classes of the package"""
	def __init__(self, key, *names):
		Any.__init__(self, key)
		self.names = names
	def classes(self, I):
		return self.names
	def a_isinstance(self, I, cls):
		if isinstance(cls, PyClass):
			return cls.name in self.names
		if isinstance(cls, HostType):
			return False
		return Any.a_isinstance(self, I, cls)


class Component(Any):
	"""a number taken out of an array of components"""
	data = True
	def __init__(self, key):
		Any.__init__(self, key)
	def a_key(self):
		return ('component', self.k)
	def concrete(self, I, how):
		if I.world.watch:
			I.effects.append(('host', how, I.stack[-1] if I.stack else '?'))
	def a_bool(self, I):
		self.concrete(I, 'branches on a component')
		return Any.a_bool(self, I)
	def a_binop(self, I, op, other, refl):
		r = Any.a_binop(self, I, op, other, refl)
		return Component(r.k) if isinstance(r, Any) else r
	def a_unop(self, I, op):
		return Component((op, self.k))
	def a_cmp(self, I, op, other, refl):
		r = Any.a_cmp(self, I, op, other, refl)
		return r if isinstance(r, bool) else Component((op, self.k, struct(other)))
	def a_not(self, I):
		return not self.a_bool(I)
	def a_iter(self, I):
		return [Component(('elem', self.k, 0)), Component(('elem', self.k, 1))]
	a_star = a_iter
	def a_getitem(self, I, key):
		return Component(('item', self.k, struct(key)))
	def a_index_host(self, I, o):
		self.concrete(I, 'indexes with a component')
		return Any.a_index_host(self, I, o)
	def a_index_dict(self, I, o):
		self.concrete(I, 'looks up a component')
		return Any.a_index_dict(self, I, o)
	def a_range(self, I, a):
		self.concrete(I, 'loops over a range bounded by a component')
		return Any.a_range(self, I, a)


def depends(x):
	if isinstance(x, (Arr, Component)):
		return x.data
	if isinstance(x, (list, tuple)):
		return any(depends(y) for y in x)
	return False


SHAPED = {'flatnonzero', 'nonzero', 'argwhere', 'unique', 'extract', 'compress', 'setdiff1d', 'union1d', 'intersect1d', 'trim_zeros', 'masked_select', 'unique_values', 'bincount', 'repeat'}
STATIC = {'issubdtype', 'can_cast', 'ndim', 'iinfo', 'finfo', 'result_type', 'promote_types', 'dtype', 'isscalar', 'shape', 'size', 'einsum_path', 'errstate', 'broadcast_shapes', 'is_tensor', 'iscomplexobj', 'isrealobj', 'parse_shape', 'numel', 'normalize_axis_tuple', 'binary_repr', 'base_repr', 'printoptions'}
MASKS = {'isnan', 'isfinite', 'isinf', 'logical_not', 'logical_and', 'logical_or', 'logical_xor', 'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal', 'isclose', 'signbit', 'eq', 'ne', 'lt', 'gt', 'le', 'ge'}
HOST_METH = {'item', 'tolist', 'tobytes', '__bool__', '__float__', '__int__', 'numpy', '__array__', '__index__', 'to_py'}
CUT = {'detach', 'detach_', 'stop_gradient', 'no_grad', 'inference_mode'}


class Flags(AV):
	def __init__(self, arr):
		self.arr = arr
	def a_setattr(self, I, name, v):
		self.arr.write(I, f'flags.{name} is set')
	def a_setitem(self, I, key, v):
		self.arr.write(I, f'flags[{key!r}] is set')
	def a_getattr(self, I, name):
		return Any(('flag', name))
	def a_getitem(self, I, key):
		return Any(('flag', str(key)))


class AtRef(AV):
	"""jax x.at / x.at[idx]: functional updates"""
	def __init__(self, arr):
		self.arr = arr
	def a_getitem(self, I, key):
		return self
	def a_getattr(self, I, name):
		return HostFn(lambda I, a, k: I.world.fresh('jax', f'at.{name}', self.arr, *a), name)


class Arr(AV):
	def __init__(self, bufs, lib, data=False, mask=False):
		self.bufs, self.lib = frozenset(bufs), lib
		self.data = data		# depends on components of a multivector
		self.mask = mask		# a comparison: selects a number of elements that depends on its values
		self.reads = 0
		self.element = False	# possibly a single number
	def concrete(self, I, how):
		"""the program needs to know the values"""
		if I.world.watch and (self.data or self.lib == 'jax'):
			I.effects.append(('host', how, I.stack[-1] if I.stack else '?'))
	def unknown(self, key):
		return Component(key) if self.data else Any(key)
	def __repr__(self):
		return f'{self.lib} array'
	def a_key(self):
		return ('arr', id(self))
	def a_hash(self, I):
		raise PyRaise('TypeError', 'unhashable type: array')
	def view(self):
		return Arr(self.bufs, self.lib, self.data, self.mask)
	def write(self, I, how):
		for b in self.bufs:
			if b.protected:
				I.effects.append(('write', b.label, I.stack[-1] if I.stack else '?', how))
	# attributes
	def a_getattr(self, I, name):
		if self.lib == 'list':
			if name in LIST_WRITE:
				def f(I, a, k):
					self.write(I, f'.{name}()')
					return Any(('list', name, id(self)))
				return HostFn(f, name)
			if name in ('index', 'count'):
				return HostFn(lambda I, a, k: Any((name, id(self))), name)
			if name == 'copy':
				return HostFn(lambda I, a, k: I.world.fresh('list', 'copy', self), name)
			raise PyRaise('AttributeError', f"'list' object has no attribute '{name}'")
		if name in VIEW_ATTR:
			if name == 'data' and self.lib == 'torch':
				self.concrete(I, '.data cuts the gradient')
			return self.view()
		if name in SCALAR_ATTR:
			return Any((name, id(self)))
		if name == 'flags':
			return Flags(self)
		if name == 'at' and self.lib == 'jax':
			return AtRef(self)
		if name == 'copy' and self.lib == 'torch':
			raise PyRaise('AttributeError', "'Tensor' object has no attribute 'copy'")
		def m(I, a, k):
			if name in HOST_METH or name in CUT:
				if self.lib == 'numpy' and self.data and name in HOST_METH:
					return Component((name, id(self)))
				self.concrete(I, f'.{name}()')
			if self.lib == 'jax' and name in SHAPED and name != 'repeat' and 'size' not in k:
				self.concrete(I, f'.{name}() has a shape that depends on values')
			if isinstance(k.get('out'), Arr):
				k['out'].write(I, f'{name}(out=...)')
				return k['out']
			if self.lib != 'jax' and (name in WRITE_METH and not (name == 'sort' and self.lib == 'torch') and not (name == 'put' and self.lib == 'torch') or self.lib == 'torch' and name.endswith('_') and not name.startswith('__')):
				self.write(I, f'.{name}()')
				return self if self.lib == 'torch' else None
			if name in ('item', '__len__', 'tobytes', 'tolist', 'dim', 'stride', 'numel', 'data_ptr', '__bool__', '__float__', '__int__'):
				return Any((name, id(self)))
			if name == 'astype':
				c = k.get('copy', True)
				return self.view() if c is False or c is None or isinstance(c, AV) else I.world.fresh(self.lib, 'astype', self)
			if name == 'flatten' and self.lib == 'numpy':
				return I.world.fresh(self.lib, name, self)
			if name in VIEW_METH:
				return self.view()
			return I.world.fresh(self.lib, name, self, list(a), list(k.values()))
		return HostFn(m, name)
	def a_setattr(self, I, name, v):
		self.write(I, f'.{name} is set')
	# items
	def a_getitem(self, I, key):
		if self.lib == 'list':
			if isinstance(key, slice) or type(key).__name__ == 'SliceV':
				return I.world.fresh('list', 'slice', self)
			return self.unknown(('item', id(self), struct(key)))
		ks = key if isinstance(key, tuple) else (key,)
		for x in ks:
			if isinstance(x, Arr) and x.mask and (self.lib == 'jax' or x.data):
				x.concrete(I, 'selects elements by a mask')
		if any(isinstance(x, (Arr, list)) for x in ks):
			return I.world.fresh(self.lib, 'gather', self)
		r = self.view()
		if self.lib == 'numpy' and isinstance(key, tuple) and not any(x is None or x is Ellipsis or isinstance(x, slice) or type(x).__name__ == 'SliceV' for x in ks):
			r.element = True	# one index per axis yields an immutable number
		return r
	def a_setitem(self, I, key, v):
		if self.lib == 'jax':
			raise PyRaise('TypeError', 'JAX arrays are immutable')
		self.write(I, 'item assignment')
	def a_inplace(self, I, op, v):
		if self.lib == 'jax':
			return I.binop(op, self, v)
		if self.element:
			return I.binop(op, self, v)
		self.write(I, f'augmented assignment {op}=')
		return self
	def a_iter(self, I):
		if self.lib == 'list':
			return [self.unknown(('elem', id(self), 0)), self.unknown(('elem', id(self), 1))]
		return [self.view(), self.view()]
	def a_star(self, I):
		return self.a_iter(I)
	def a_unpack(self, I, want):
		return [self.unknown(('elem', id(self), i)) for i in range(want)] if self.lib == 'list' else [self.view() for _ in range(want)]
	def a_len(self, I):
		return Any(('len', id(self)))
	def a_bool(self, I):
		if len(I.trace) > 14:
			raise Unsupported('too many branches')
		self.reads += 1
		self.concrete(I, 'branches on an array')
		return I.decide(('truth of array', id(self)))
	def a_contains(self, I, x):
		self.concrete(I, 'tests membership in an array')
		if isinstance(x, (Arr, Component)):
			x.concrete(I, 'tests membership of a component')
		return Any(('in', struct(x), id(self)))
	# arithmetic
	def a_binop(self, I, op, other, refl):
		if isinstance(other, Obj):
			return NotImplemented
		lib = 'jax' if isinstance(other, Arr) and other.lib == 'jax' else self.lib
		return I.world.fresh(lib, f'{op}', self, other, mask=self.mask and op in '&|^')
	def a_unop(self, I, op):
		return I.world.fresh(self.lib, op, self, mask=self.mask and op == '~')
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not'):
			return (self is other) == (op == 'is')
		return I.world.fresh(self.lib, op, self, other, mask=True)
	def a_not(self, I):
		return not self.a_bool(I)
	def a_isinstance(self, I, cls):
		if isinstance(cls, PyClass):
			return False
		if isinstance(cls, HostType):
			return cls.name == 'list' and self.lib == 'list'
		if isinstance(cls, Ext):
			root, leaf = cls.path.split('.')[0], cls.path.split('.')[-1]
			if leaf in ('ndarray', 'Tensor', 'Array', 'array', 'DeviceArray'):
				return LIBS.get(root) == self.lib
			if leaf in ('generic', 'Number', 'integer', 'floating'):
				return False
		return Any(('isinstance', id(self), repr(cls)))
	def a_str(self, I):
		return Any(('str', id(self)))
	def a_index_host(self, I, o):
		self.concrete(I, 'indexes with an array element')
		return o[0] if o else Any(('pick', id(self)))
	def a_to_list(self, I):
		return list(self.a_iter(I))
	def a_to_tuple(self, I):
		return tuple(self.a_iter(I))
	def a_range(self, I, a):
		self.concrete(I, 'loops over a range bounded by an array element')
		return [Any(('range', id(self), 0)), Any(('range', id(self), 1))]
	def a_type(self, I):
		return Any(('type', self.lib))


class OwnWorld(World):
	def __init__(self):
		World.__init__(self)
		self.n = 0
		self.own = {}
		self.keep = []
		self.lists = []
		self.ext['functools.partial'] = lambda I, a, k: Partial(a[0], a[1:], k)
		self.ext['types.MethodType'] = lambda I, a, k: Bound(a[0], a[1])
		self.builtins['id'] = HostFn(lambda I, a, k: Any(('id', struct(a[0]))), 'id')
		self.builtins['hash'] = HostFn(lambda I, a, k: Any(('hash', struct(a[0]))), 'hash')
		self.builtins['sum'] = HostFn(self.b_sum, 'sum')
		for n in ('round', 'bin', 'divmod', 'ord', 'chr', 'format'):
			self.builtins[n] = HostFn(lambda I, a, k, n=n: Any((n,) + tuple(struct(x) for x in a)), n)
		for n in ('min', 'max'):
			self.builtins[n] = HostFn(lambda I, a, k, n=n: self.b_extremum(I, n, a), n)
	def b_extremum(self, I, n, a):
		for x in (I.iterate(a[0]) if len(a) == 1 else a):
			if isinstance(x, (Arr, Component)):
				x.concrete(I, f'builtin {n}() compares components')
		return (Component if depends(list(a)) else Any)((n,) + tuple(struct(x) for x in a))
	def b_sum(self, I, a, k):
		r = a[1] if len(a) > 1 else k.get('start', 0)
		for x in I.iterate(a[0]):
			r = I.binop('+', r, x)
		return r
	# storage
	watch = False
	def fresh(self, lib, why='', *src, mask=False):
		self.n += 1
		a = Arr([Buf(f'{why}#{self.n}')], lib, any(depends(x) for x in src), mask)
		self.keep.append(a)		# identities stay distinct
		return a
	def owned(self, key, label, lib='numpy'):
		if key not in self.own:
			self.own[key] = Arr([Buf(label, True)], lib)
		return self.own[key]
	def result(self, lib):
		a = Arr([Buf(f'a result')], lib, True)
		self.keep.append(a)
		return a
	def user(self, label, lib, data=True):
		a = Arr([Buf(label, True)], lib, data)
		self.keep.append(a)
		return a
	def on_cached(self, I, name, v):
		"""what a cache hands out is shared with every later caller"""
		if isinstance(v, (list, dict)):
			self.lists.append((f'cached result of {name}', v, v.copy()))
		if self.watch:
			for x in reach(v):
				if x.lib == 'jax':
					I.effects.append(('host', f'caches {name}, an array that may be traced', I.stack[-1] if I.stack else name))
		for x in (v if isinstance(v, (tuple, list)) else [v]):
			if isinstance(x, Arr):
				for b in x.bufs:
					if not b.protected:
						b.protected, b.label = True, f'the cached result of {name}'
	# hooks of the interpreter
	def on_assert(self, I, v, s, module):
		if isinstance(v, (Arr, Component)):
			v.concrete(I, 'asserts a condition on components')
		return isinstance(v, (Any, Arr))      # assumed to hold
	def concat_str(self, I, parts):
		return Any(('text',) + tuple(struct(p) for p in parts))
	def join_str(self, I, sep, parts):
		return Any(('text', struct(sep)) + tuple(struct(p) for p in parts))
	str_tokens = True
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], (Any, Arr)):
			x = a[0]
			if n in ('int', 'float', 'complex', 'bytes', 'bool'):
				if isinstance(x, Component):
					return Component((n, x.k))
				if isinstance(x, Arr) and x.lib == 'numpy' and x.data:
					return Component((n, id(x)))
				if isinstance(x, (Arr, Component)):
					x.concrete(I, f'{n}() of an array element')
			if n in ('int', 'float', 'complex', 'str', 'bytes', 'bool'):
				if isinstance(x, Arr):
					return Any((n, id(x)))
				return Any((n, struct(x)))
			if n in ('set', 'frozenset', 'dict'):
				return Any((n, struct(x)))
			if n == 'list' and isinstance(x, Arr):
				return x.a_to_list(I)
		if a and n == 'range' and any(isinstance(x, (Top, AV)) for x in a):
			return [Any(('range', struct(a[0]), 0)), Any(('range', struct(a[0]), 1))]
		if a and isinstance(a[0], Top):
			return a[0]
		return NotImplemented
	def getitem(self, I, o, k):
		if isinstance(k, Any) and isinstance(o, dict):
			return k.a_index_dict(I, o)
		if isinstance(k, Arr) and isinstance(o, dict):
			return next(iter(o.values())) if o else Any(('lookup', id(k)))
		return NotImplemented
	def setitem(self, I, o, k, v):
		if isinstance(o, list) and isinstance(k, AV):
			for i in range(len(o)):
				o[i] = v
			return None
		return NotImplemented
	def host_attr(self, I, o, name):
		if isinstance(o, str) and name in ('join', 'format', 'translate', 'replace', 'count', 'split'):
			def f(I, a, k):
				vals = list(I.iterate(a[0])) if name == 'join' else list(a)
				if all(isinstance(v, str) for v in vals) and not k and name == 'join':
					return o.join(vals)
				if any(isinstance(v, AV) for v in vals) or k:
					return Any((name, o) + tuple(struct(v) for v in vals))
				return getattr(o, name)(*vals)
			return HostFn(f, name)
		return NotImplemented
	def ext_call(self, I, path, a, k):
		f = self.ext.get(path)
		if f is not None:
			return f(I, a, k)
		parts = path.split('.')
		root, leaf = parts[0], parts[-1]
		if root == 'copy' and leaf in ('copy', 'deepcopy') and a:
			if isinstance(a[0], Arr):
				return self.fresh(a[0].lib, 'copy', a[0])
			if isinstance(a[0], Obj):
				o = Obj(a[0].cls)
				for n, v in a[0].attrs.items():
					o.attrs[n] = (self.fresh(v.lib, 'deepcopy', v) if isinstance(v, Arr) else list(v) if isinstance(v, list) else v) if leaf == 'deepcopy' else v
				return o
			if isinstance(a[0], (list, dict)):
				return a[0].copy()
			return a[0]
		if leaf in CUT and a and isinstance(a[0], Arr):
			a[0].concrete(I, f'{path}() cuts the gradient')
			return a[0].view()
		if leaf in CUT and not a and self.watch:
			I.effects.append(('host', f'{path}() cuts the gradient', I.stack[-1] if I.stack else '?'))
		if root in ('math', 'cmath') and leaf != 'prod' and any(isinstance(x, (Arr, Component)) for x in a):
			for x in a:
				if isinstance(x, Arr):
					x.concrete(I, f'{path}() of an array')
			return (Component if depends(list(a)) else Any)((path,) + tuple(struct(x) for x in a))
		if root not in LIBS:
			return NotImplemented
		arrs = [x for x in a if isinstance(x, Arr)]
		for x in list(a) + list(k.values()):
			if isinstance(x, (list, tuple)):
				arrs += [y for y in x if isinstance(y, Arr)]
		lib = LIBS[root] or (arrs[0].lib if arrs else 'numpy')
		src = [list(a), list(k.values())]
		if leaf in STATIC:
			return Any((path,) + tuple(struct(x) for x in a))
		if self.watch:
			for x in arrs:
				if lib == 'numpy' and x.lib in ('jax', 'torch') or lib == 'jax' and x.lib == 'torch' or lib == 'torch' and x.lib == 'jax':
					x.concrete(I, f'{path}() of a {x.lib} array')
			if leaf in SHAPED and leaf != 'repeat' and 'size' not in k or leaf == 'where' and len(a) == 1 and 'size' not in k:
				if lib == 'jax' or depends(src):
					I.effects.append(('host', f'{path}() has a shape that depends on values', I.stack[-1] if I.stack else '?'))
			if leaf == 'tensor' and lib == 'torch' and depends(src):
				arrs[0].concrete(I, f'{path}() cuts the gradient')
		out = k.get('out')
		for o in (out if isinstance(out, tuple) else [out]):
			if isinstance(o, Arr):
				if o.lib == 'jax':
					raise PyRaise('NotImplementedError', 'out')
				o.write(I, f'{path}(out=...)')
				return o
		if lib != 'jax':
			if leaf in WRITE_FN and a and isinstance(a[WRITE_FN[leaf]], Arr):
				a[WRITE_FN[leaf]].write(I, f'{path}()')
				return None
			if leaf == 'at' and len(parts) > 2 and a and isinstance(a[0], Arr):
				a[0].write(I, f'{path}()')
				return None
			if leaf == 'nan_to_num' and k.get('copy', True) is not True and a and isinstance(a[0], Arr):
				if k['copy'] is False:
					a[0].write(I, f'{path}(copy=False)')
					return a[0]
			if leaf == 'remap' and k.get('inplace') is True and a and isinstance(a[0], Arr):
				a[0].write(I, f'{path}(inplace=True)')
				return None
			if root == 'torch' and leaf.endswith('_') and not leaf.startswith('__') and a and isinstance(a[0], Arr):
				a[0].write(I, f'{path}()')
				return a[0]
		first = a[0] if a and isinstance(a[0], Arr) else k.get('buffer') if isinstance(k.get('buffer'), Arr) else k.get('a') if isinstance(k.get('a'), Arr) else None
		if first is None and arrs and leaf in ('broadcast_arrays', 'atleast_1d', 'atleast_2d'):
			first = arrs[0]
		if root == 'numpy' and leaf == 'array' and first is not None:
			c = k.get('copy', True)
			return first.view() if c is not True and first.lib == 'numpy' else self.fresh('numpy', 'array', src)
		if first is not None and leaf in VIEW_FN and not (lib == 'numpy' and leaf in NUMPY_FRESH) and lib != 'jax':
			if first.lib == lib or leaf in ('from_numpy', 'as_tensor', 'asarray') and lib == 'torch' and first.lib == 'numpy':
				return Arr(first.bufs, lib, first.data, first.mask)
		return self.fresh(lib, leaf, src, mask=leaf in MASKS)


def writes(I):
	"""distinct writes to protected storage, in order"""
	out = []
	for e in I.effects:
		if e[0] == 'write' and e[1:] not in out:
			out.append(e[1:])
	return out


def shares(r, bufs, seen=None):
	"""does anything reachable from r share one of the buffers"""
	seen = set() if seen is None else seen
	if id(r) in seen:
		return None
	seen.add(id(r))
	if isinstance(r, Arr):
		for b in r.bufs:
			if b in bufs:
				return b
	elif isinstance(r, (list, tuple)):
		for x in r:
			s = shares(x, bufs, seen)
			if s is not None:
				return s
	return None


def reach(v, seen=None):
	"""arrays reachable from a value"""
	seen = set() if seen is None else seen
	if id(v) in seen:
		return
	seen.add(id(v))
	if isinstance(v, Arr):
		yield v
	elif isinstance(v, (list, tuple)):
		for x in v:
			yield from reach(x, seen)
	elif isinstance(v, dict):
		for x in v.values():
			yield from reach(x, seen)
	elif isinstance(v, Obj):
		for x in v.attrs.values():
			yield from reach(x, seen)


def snapshot(objs):
	out = []
	for name, o in objs:
		if isinstance(o, Obj):
			out.append((name, o, {k: (v, list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else None) for k, v in o.attrs.items()}))
		elif isinstance(o, (list, dict)):
			out.append((name, o, o.copy()))
	return out


def changed(snap, skip=()):
	"""text of the first attribute or element that is no longer what it was"""
	for name, o, s in snap:
		if isinstance(o, Obj):
			for k, (v, c) in s.items():
				if k in skip:
					continue
				if k not in o.attrs:
					return f'attribute {k} of {name} is deleted'
				w = o.attrs[k]
				if w is not v and not (isinstance(v, Any) and isinstance(w, Any) and v.k == w.k) and not (isinstance(v, HOST) and isinstance(w, HOST) and type(v) is type(w) and v == w):
					return f'attribute {k} of {name} is rebound'
				if c is not None and (len(c) != len(w) or any(x is not y for x, y in zip(list(c.values()) if isinstance(c, dict) else c, list(w.values()) if isinstance(w, dict) else w))):
					return f'the {type(w).__name__} {name}.{k} is modified'
		else:
			if len(o) != len(s) or any(x is not y for x, y in zip(list(o.values()) + list(o) if isinstance(o, dict) else o, list(s.values()) + list(s) if isinstance(s, dict) else s)):
				return f'the {type(o).__name__} {name} is modified'
	return None
