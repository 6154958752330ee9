"""Term domain for array primitives: an array value is the canonical expression
that computes it from opaque inputs.  Library functions of numpy, jax and torch
are mapped onto one vocabulary, so the same key means the same function."""
import cmath
import math

from .core import *

LIBS = ('numpy', 'jax.numpy', 'torch', 'math', 'torch.special', 'jax.lax', 'jax.scipy.special')

# canonical elementwise functions: library spelling -> (canonical, arity)
ELEM = {}
for _c, _n, _names in (
	('sqrt', 1, 'sqrt'), ('exp', 1, 'exp'), ('log', 1, 'log'), ('cos', 1, 'cos'), ('sin', 1, 'sin'), ('tan', 1, 'tan'),
	('abs', 1, 'abs absolute fabs'), ('isnan', 1, 'isnan'), ('arctan', 1, 'arctan atan'), ('arccos', 1, 'arccos acos'), ('arcsin', 1, 'arcsin asin'),
	('arcsinh', 1, 'arcsinh asinh'), ('arccosh', 1, 'arccosh acosh'), ('arctanh', 1, 'arctanh atanh'), ('cosh', 1, 'cosh'), ('sinh', 1, 'sinh'), ('tanh', 1, 'tanh'),
	('exp2', 1, 'exp2'), ('expm1', 1, 'expm1'), ('log2', 1, 'log2'), ('log10', 1, 'log10'), ('log1p', 1, 'log1p'), ('square', 1, 'square'),
	('cbrt', 1, 'cbrt'), ('sign', 1, 'sign'), ('neg', 1, 'negative neg'), ('reciprocal', 1, 'reciprocal'), ('rsqrt', 1, 'rsqrt'), ('floor', 1, 'floor'), ('ceil', 1, 'ceil'),
	('isinf', 1, 'isinf'), ('isfinite', 1, 'isfinite'), ('logical_not', 1, 'logical_not'), ('real', 1, 'real'), ('imag', 1, 'imag'), ('conj', 1, 'conj conjugate'), ('angle', 1, 'angle'),
	('arctan2', 2, 'arctan2 atan2'), ('pow', 2, 'power pow float_power'), ('maximum', 2, 'maximum fmax'), ('minimum', 2, 'minimum fmin'), ('hypot', 2, 'hypot'),
	('logical_xor', 2, 'logical_xor'), ('logical_or', 2, 'logical_or'), ('logical_and', 2, 'logical_and'),
	('+', 2, 'add'), ('-', 2, 'subtract sub'), ('*', 2, 'multiply mul'), ('/', 2, 'divide true_divide div'), ('%', 2, 'mod remainder'), ('fmod', 2, 'fmod'),
	('<', 2, 'less lt'), ('<=', 2, 'less_equal le'), ('>', 2, 'greater gt'), ('>=', 2, 'greater_equal ge'), ('==', 2, 'equal eq'), ('!=', 2, 'not_equal ne'),
	('^', 2, 'bitwise_xor'), ('|', 2, 'bitwise_or'), ('&', 2, 'bitwise_and'),
):
	for _s in _names.split():
		ELEM[_s] = (_c, _n)
NOT_IN = {'numpy': {'pow', 'acos', 'asin', 'atan', 'atan2', 'asinh', 'acosh', 'atanh', 'rsqrt', 'neg', 'sub', 'mul', 'div', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'},
	'jax.numpy': {'pow', 'acos', 'asin', 'atan', 'atan2', 'asinh', 'acosh', 'atanh', 'rsqrt', 'neg', 'sub', 'mul', 'div', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'},
	'torch': {'power', 'fabs'}, 'math': {'abs', 'power', 'square', 'arctan', 'arctan2'}}
REDUCE = {'min': 'min', 'amin': 'min', 'max': 'max', 'amax': 'max', 'argmin': 'argmin', 'argmax': 'argmax', 'all': 'all', 'any': 'any', 'sum': 'sum', 'mean': 'mean', 'prod': 'prod',
	'nanmin': 'nanmin', 'nanmax': 'nanmax', 'nansum': 'nansum', 'median': 'median', 'count_nonzero': 'count_nonzero', 'alltrue': 'all', 'sometrue': 'any'}
COMM = {'+', '*', 'logical_xor', 'logical_or', 'logical_and', '^', '|', '&', 'maximum', 'minimum', '==', '!=', 'hypot'}
VIEW_METHODS = {'real', 'imag'}


def K(x):
	if isinstance(x, Term):
		return x.k
	if isinstance(x, Obj):
		return ('obj', id(x))
	if isinstance(x, (list, tuple)):
		return ('seq',) + tuple(K(y) for y in x)
	if isinstance(x, AV):
		if isinstance(x, Ext):
			return ('ext', x.path)
		return ('?', repr(x))
	return x


def mk(op, *args):
	ks = [K(a) for a in args]
	if op == 'pow' and ks[1] == 0.5:
		return Term(('sqrt', ks[0]))
	if op == 'square':
		return Term(('pow', ks[0], 2))
	if op in COMM:
		ks = sorted(ks, key=repr)
	return Term((op,) + tuple(ks))


def unknown(k):
	if isinstance(k, tuple):
		return any(unknown(x) for x in k)
	return k == '?' or k is None and False


class Term(AV):
	def __init__(self, k):
		self.k = k
	def __repr__(self):
		return show(self.k)
	def a_key(self):
		return ('term', self.k)
	def a_binop(self, I, op, other, refl):
		if op == '**':
			op = 'pow'
		if isinstance(other, Top):
			return NotImplemented
		if isinstance(other, Obj):
			return NotImplemented
		if op == '@':
			return NotImplemented
		return mk(op, *((other, self) if refl else (self, other)))
	def a_inplace(self, I, op, v):
		r = self.a_binop(I, op, v, False)
		self.k = r.k
		return self
	def a_unop(self, I, op):
		return {'-': lambda: mk('neg', self), '+': lambda: self, '~': lambda: mk('logical_not', self), 'abs': lambda: mk('abs', self)}[op]()
	def a_cmp(self, I, op, other, refl):
		if op in ('is', 'is not'):
			if other is None:
				return op == 'is not'
			return NotImplemented
		return mk(op, *((other, self) if False else (self, other)))
	def a_isinstance(self, I, cls):
		if isinstance(cls, Ext):
			return cls.path in ('numpy.ndarray', 'torch.Tensor', 'jax.Array') or None
		return False
	def a_getitem(self, I, key):
		return Term(('item', self.k, K(key)))
	def a_setitem(self, I, key, v):
		self.k = ('set', self.k, K(key), K(v))
	def a_getattr(self, I, name):
		if name in VIEW_METHODS:
			return mk(name, self)
		if name in ('T', 'shape', 'dtype', 'size', 'ndim', 'data', 'device'):
			return Term((name, self.k))
		if name == 'at':
			return At(self)
		if name in ('copy', 'clone', 'detach', 'contiguous', '__copy__'):
			return HostFn(lambda I2, a, k: Term(self.k), name)
		base = name[:-1] if name.endswith('_') and not name.endswith('__') else name
		for lib in ('numpy', 'jax.numpy', 'torch'):
			f = lib_call(I, f'{lib}.{base}', dry=True)
			if f:
				def m(I2, a, k):
					r = lib_call(I2, f'{self.lib(I2)}.{base}', [self] + list(a), k)
					if base != name and isinstance(r, Term):
						self.k = r.k
						return self
					return r
				return HostFn(m, name)
		return Top(f'array.{name}')
	def lib(self, I):
		return getattr(I.world, 'lib', 'numpy')
	def a_bool(self, I):
		I.imprecise.append(f'branch on array value {self}')
		return I.decide(('truth', self))


class At(AV):
	def __init__(self, t):
		self.t = t
	def a_getitem(self, I, key):
		return AtI(self.t, key)


class AtI(AV):
	def __init__(self, t, key):
		self.t, self.key = t, key
	def a_getattr(self, I, name):
		return HostFn(lambda I2, a, k: Term((name if name != 'set' else 'set', self.t.k, K(self.key), K(a[0] if a else None))), name)


def sig(name, params, args, kw, alias):
	"""bind call arguments to parameter names"""
	out = dict(zip(params, args))
	if len(args) > len(params):
		raise PyRaise('TypeError', f'{name}: too many arguments')
	for k, v in kw.items():
		k = alias.get(k, k)
		if k in out:
			raise PyRaise('TypeError', f'{name}: duplicate {k}')
		out[k] = v
	return out


def lib_call(I, path, args=(), kw=None, dry=False):
	lib, _, name = path.rpartition('.')
	if lib not in LIBS:
		return NotImplemented
	kw = kw or {}
	if name in ELEM and name not in NOT_IN.get(lib, ()):
		if dry:
			return True
		c, n = ELEM[name]
		extra = {k: v for k, v in kw.items() if k in ('dtype', 'out', 'where', 'casting')}
		kw = {k: v for k, v in kw.items() if k not in extra}
		args = list(args)
		order = {'x': 0, 'input': 0, 'a': 0, 'x1': 0, 'self': 0, 'x2': 1, 'other': 1, 'exponent': 1, 'y': 1}
		for k, v in kw.items():
			if k not in order:
				raise PyRaise('TypeError', f'{path}: unexpected keyword {k}')
			while len(args) <= order[k]:
				args.append(None)
			args[order[k]] = v
		if extra.get('where') is not None:
			return Top('masked ufunc')
		if len(args) != n and not (len(args) == n + 1 and lib == 'numpy'):
			raise PyRaise('TypeError', f'{path} takes {n} arguments')
		r = mk(c, *args[:n])
		out = extra.get('out')
		if out is not None or len(args) > n:
			o = out if out is not None else args[n]
			if isinstance(o, Term):
				o.k = r.k
				return o
			return Top('out=')
		return r
	if lib == 'math':
		return NotImplemented
	if name in ELEM:
		if dry:
			return False
		raise PyRaise('AttributeError', f"module '{lib}' has no attribute '{name}'")
	if name in REDUCE:
		if dry:
			return True
		c = REDUCE[name]
		al = {'dim': 'axis', 'keepdim': 'keepdims', 'a': 'x', 'input': 'x', 'axes': 'axis'}
		b = sig(path, ['x', 'axis', 'out', 'keepdims'] if lib != 'torch' else ['x', 'axis', 'keepdims'], args, kw, al)
		if b.get('out') is not None or set(b) - {'x', 'axis', 'keepdims', 'out', 'dtype', 'initial'}:
			return Top(f'{path} with {sorted(b)}')
		if b.get('axis') is None and lib == 'torch' and name == 'amin':
			b['axis'] = None
		if lib == 'torch' and name in ('min', 'max', 'median') and b.get('axis') is not None:
			c = c + 'pair'
			t = mk(c, b['x'], b.get('axis'), bool(b.get('keepdims') or False))
			return Pair(t)
		if 'initial' in b and b['initial'] is not None:
			return Top('initial')
		return mk(c, b['x'], b.get('axis'), bool(b.get('keepdims') or False))
	if name == 'where':
		if dry:
			return False
		b = sig(path, ['condition', 'x', 'y'], args, kw, {'input': 'x', 'other': 'y'})
		if len(b) != 3:
			return Top('where with one argument')
		return mk('where', b['condition'], b['x'], b['y'])
	if name == 'nan_to_num':
		if dry:
			return True
		ps = {'numpy': ['x', 'copy', 'nan', 'posinf', 'neginf'], 'jax.numpy': ['x', 'copy', 'nan', 'posinf', 'neginf'], 'torch': ['x', 'nan', 'posinf', 'neginf']}[lib]
		b = sig(path, ps, args, kw, {'input': 'x'})
		if lib == 'numpy' and b.get('copy') is False and isinstance(b['x'], Term):
			I.effects.append(('write', b['x'].k))
		inf = (K(b.get('posinf')), K(b.get('neginf')))
		n = b.get('nan', 0.0)
		return mk('nan_to_num', b['x'], 0.0 if n is None and lib == 'torch' else n, *(() if inf == (None, None) else inf))
	if name in ('asarray', 'array', 'ascontiguousarray', 'asfortranarray', 'as_tensor', 'tensor', 'asanyarray'):
		if dry:
			return False
		b = sig(path, ['x', 'dtype'], args, kw, {'a': 'x', 'object': 'x', 'obj': 'x', 'data': 'x'})
		if b.get('dtype') is None:
			return Term(K(b['x'])) if isinstance(b['x'], Term) else Term(('asarray', K(b['x']), None))
		return mk('asarray', b['x'], b.get('dtype'))
	if name in ('zeros', 'empty', 'ones', 'full'):
		if dry:
			return False
		b = sig(path, ['shape', 'dtype'] if name != 'full' else ['shape', 'fill', 'dtype'], args, kw, {'size': 'shape', 'fill_value': 'fill'})
		if lib == 'torch' and len(args) > 1 and name != 'full':
			return Top('torch allocation with several positional sizes')
		fill = {'zeros': 0, 'ones': 1, 'empty': 'uninitialised'}.get(name, K(b.get('fill')))
		if fill == 0.0:
			fill = 0
		return Term(('alloc', fill, K(b['shape']), K(b.get('dtype'))))
	if name in ('copy', 'clone'):
		if dry:
			return True
		return Term(K(args[0]))
	if name in ('astype', 'to', 'type'):
		if dry:
			return True
		d = args[1] if len(args) > 1 else kw.get('dtype')
		if isinstance(args[0], Term) and len(args) < 3 and d is not None and not isinstance(d, Term) and set(kw) <= {'dtype', 'copy'}:
			return mk('asarray', args[0], d)
		return Top(f'array.{name}')
	if name in ('reshape', 'ravel'):
		return NotImplemented if not dry else False
	return NotImplemented if not dry else False


class Pair(AV):
	"""(values, indices) result of torch.min(x, dim)"""
	def __init__(self, t):
		self.t = t
		self.k = t.k
	def __repr__(self):
		return show(self.k)
	def a_getattr(self, I, name):
		if name == 'values':
			return Term((self.k[0][:3],) + self.k[1:])
		if name == 'indices':
			return Term(('arg' + self.k[0][:3],) + self.k[1:])
		return Top(name)
	def a_getitem(self, I, key):
		if key == 0:
			return self.a_getattr(I, 'values')
		if key == 1:
			return self.a_getattr(I, 'indices')
		return Top('pair')
	def a_unpack(self, I, want):
		return [self.a_getitem(I, 0), self.a_getitem(I, 1)]
	def a_iter(self, I):
		return self.a_unpack(I, 2)


class TermWorld(World):
	def __init__(self, lib):
		World.__init__(self)
		self.lib = lib
	def ext_call(self, I, path, args, kw):
		p = path.replace('jnp.', 'jax.numpy.')
		f = self.ext.get(p)
		if f is not None:
			return f(I, args, kw)
		if any(isinstance(x, (Term, Pair)) for x in list(args) + list(kw.values())) or p.rpartition('.')[2] in ('zeros', 'empty', 'ones', 'full', 'asarray', 'array'):
			return lib_call(I, p, args, kw)
		return NotImplemented
	def convert(self, I, n, a, k):
		if a and isinstance(a[0], Term) and n in ('float', 'int', 'bool'):
			return Top(f'{n} of array')
		return NotImplemented


def show(k):
	if isinstance(k, tuple) and k and isinstance(k[0], str):
		if k[0] == 'var':
			return k[1]
		return f'{k[0]}({", ".join(show(x) for x in k[1:])})'
	return str(k)


# ---- evaluation of canonical terms at sample points (to refute, never to prove)

def ev(k, env):
	if not isinstance(k, tuple):
		return k
	op = k[0]
	if op == 'var':
		return env[k[1]]
	if op == 'asarray':
		return ev(k[1], env)
	a = [ev(x, env) for x in k[1:]]
	return EV[op](*a)


def _real(f, g):
	def h(x):
		if isinstance(x, complex):
			return f(x)
		try:
			return g(x)
		except (ValueError, OverflowError):
			return math.nan
	return h


def _div(a, b):
	try:
		return a / b
	except ZeroDivisionError:
		return math.nan


def _pow(a, b):
	try:
		r = a ** b
		return math.nan if isinstance(r, complex) and not isinstance(a, complex) else r
	except (ZeroDivisionError, OverflowError):
		return math.nan


EV = {
	'sqrt': _real(cmath.sqrt, math.sqrt), 'exp': _real(cmath.exp, math.exp), 'log': _real(cmath.log, math.log), 'cos': _real(cmath.cos, math.cos), 'sin': _real(cmath.sin, math.sin),
	'tan': _real(cmath.tan, math.tan), 'abs': abs, 'isnan': lambda x: x != x, 'arctan': _real(cmath.atan, math.atan), 'arccos': _real(cmath.acos, math.acos), 'arcsin': _real(cmath.asin, math.asin),
	'arcsinh': _real(cmath.asinh, math.asinh), 'arccosh': _real(cmath.acosh, math.acosh), 'arctanh': _real(cmath.atanh, math.atanh), 'cosh': _real(cmath.cosh, math.cosh), 'sinh': _real(cmath.sinh, math.sinh), 'tanh': _real(cmath.tanh, math.tanh),
	'exp2': lambda x: 2 ** x, 'expm1': lambda x: math.expm1(x), 'log2': _real(None, math.log2), 'log10': _real(None, math.log10), 'log1p': _real(None, math.log1p), 'neg': lambda x: -x,
	'reciprocal': lambda x: _div(1, x), 'rsqrt': lambda x: _pow(x, -0.5), 'sign': lambda x: (x > 0) - (x < 0), 'arctan2': math.atan2, 'pow': _pow,
	'maximum': max, 'minimum': min, 'hypot': math.hypot, 'logical_not': lambda x: not x, 'logical_xor': lambda x, y: bool(x) != bool(y), 'logical_or': lambda x, y: bool(x) or bool(y), 'logical_and': lambda x, y: bool(x) and bool(y),
	'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': _div, '%': lambda a, b: a % b,
	'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
	'^': lambda a, b: a ^ b, '|': lambda a, b: a | b, '&': lambda a, b: a & b,
	'where': lambda c, a, b: a if c else b, 'nan_to_num': lambda x, n, *inf: n if x != x else x,
	'real': lambda x: x.real, 'imag': lambda x: x.imag, 'isinf': lambda x: x in (math.inf, -math.inf), 'isfinite': lambda x: x == x and x not in (math.inf, -math.inf),
	'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'conj': lambda x: x.conjugate(),
}


def close(a, b):
	if isinstance(a, bool) or isinstance(b, bool):
		return bool(a) == bool(b)
	if a != a or b != b:
		return a != a and b != b
	return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def refute(got, want, envs):
	"""sample point at which the two terms differ, or None"""
	for e in envs:
		try:
			a, b = ev(got, e), ev(want, e)
			if not close(a, b):
				return e, a, b
		except Exception:
			continue
	return None
