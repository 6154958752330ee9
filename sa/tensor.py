"""Tensor world: arrays as index-generic multilinear expressions.

An array value is a list of named axes and a body: a finite sum of terms
    coefficient * product of factors T(name)[index variables], summed over bound index variables.
Axis lengths are symbols (the dimension of a symbolic subspace, a symbolic batch size, or the literal 1), so one abstract array
stands for the arrays of every algebra, subspace and batch size.  Axis manipulations act on the axis list; einsum, tensordot, sum and
broadcast products act on bodies.  Loops over `range(axis length)` are analysed once for a generic index.

Factors:  (head, indices).  Heads used here
    'name'                      opaque input array
    ('match', A, B)             [blade i of A == blade j of B]
    ('nz', template)            [the template expression is nonzero for some value of its existential indices]
    ('fdiv', n, template)       floor division by n of the template expression
    ('grade', A)                grade of blade i of A
    other tuples                opaque functions of arrays
"""
import itertools
from fractions import Fraction

from .core import *


# --------------------------------------------------------------------------
# bodies

ONE = Fraction(1)


class Vars:
	def __init__(self):
		self.n = 0
		self.size = {}
	def fresh(self, size):
		self.n += 1
		self.size[self.n] = size
		return self.n


def ix_vars(ix):
	if isinstance(ix, int):
		yield ix
	elif isinstance(ix, V):
		yield ix.v
	elif isinstance(ix, tuple) and ix and ix[0] in ('sl', 'at'):
		for x in ix[1:] if ix[0] == 'at' else ix[2:]:
			yield from ix_vars(x)


class V:
	"""variable inside a composite index expression"""
	__slots__ = ('v',)
	def __init__(self, v):
		self.v = v
	def __eq__(self, o):
		return isinstance(o, V) and o.v == self.v
	def __hash__(self):
		return hash(('V', self.v))
	def __repr__(self):
		return f'v{self.v}'


def ix_sub(ix, m):
	if isinstance(ix, int):
		return m.get(ix, ix)
	if isinstance(ix, V):
		y = m.get(ix.v, ix.v)
		return V(y) if isinstance(y, int) else ('at', y)
	if isinstance(ix, tuple) and ix and ix[0] == 'sl':
		return ix[:2] + tuple(ix_sub(x, m) for x in ix[2:])
	if isinstance(ix, tuple) and ix and ix[0] == 'at':
		return ('at', ix_sub(ix[1], m))
	return ix


def t_vars(t):
	out = set()
	for h, idx in t[1]:
		for ix in idx:
			out.update(ix_vars(ix))
	return out


def t_sub(t, m):
	return (t[0], tuple((h, tuple(ix_sub(ix, m) for ix in idx)) for h, idx in t[1]), t[2])


def refresh(W, t):
	"""rename bound variables apart"""
	if not t[2]:
		return t
	m = {v: W.V.fresh(W.V.size[v]) for v in t[2]}
	c, f, b = t_sub(t, m)
	return (c, f, tuple(m[v] for v in b))


def b_sub(W, body, m):
	return tuple(t_sub(refresh(W, t), m) for t in body)


def b_mul(W, a, b):
	out = []
	for s in a:
		for t in b:
			s2, t2 = refresh(W, s), refresh(W, t)
			out.append((s2[0] * t2[0], s2[1] + t2[1], s2[2] + t2[2]))
	return tuple(out)


def b_scale(body, c):
	return tuple((t[0] * c, t[1], t[2]) for t in body)


def b_bind(body, vs):
	return tuple((t[0], t[1], t[2] + tuple(vs)) for t in body)


def const_body(c):
	return ((Fraction(c), (), ()),) if c else ()


# --------------------------------------------------------------------------
# normal form


def simp_term(W, t):
	"""term -> list of terms"""
	c, fs, bound = t
	fs = list(fs)
	bound = list(bound)
	changed = True
	while changed:
		changed = False
		# exact floor divisions
		for k, (h, idx) in enumerate(fs):
			if isinstance(h, tuple) and h[0] == 'fdiv' and h in W.facts:
				rest = (c * Fraction(1, h[1]), tuple(fs[:k] + fs[k + 1:]), tuple(bound))
				out = []
				for u in instantiate(W, h[2], idx):
					out.extend(simp_term(W, (rest[0] * u[0], rest[1] + u[1], rest[2] + u[2])))
				return out
		# deltas
		for k, (h, idx) in enumerate(fs):
			if isinstance(h, tuple) and h[0] == 'match':
				if h[1] == h[2]:
					i, j = idx
					if i == j:
						del fs[k]
						changed = True
						break
					if isinstance(i, int) and i in bound:
						m = {i: j}
						bound.remove(i)
					elif isinstance(j, int) and j in bound:
						m = {j: i}
						bound.remove(j)
					else:
						continue
					del fs[k]
					fs = [(h2, tuple(ix_sub(x, m) for x in idx2)) for h2, idx2 in fs]
					changed = True
					break
				if repr(h[1]) > repr(h[2]):
					fs[k] = (('match', h[2], h[1]), (idx[1], idx[0]))
					changed = True
					break
		if changed:
			continue
		# composition of matches through a bound index
		for j in list(bound):
			occ = [k for k, (h, idx) in enumerate(fs) for x in idx if j in list(ix_vars(x))]
			if len(occ) != 2 or occ[0] == occ[1]:
				continue
			f1, f2 = fs[occ[0]], fs[occ[1]]
			if not all(isinstance(h, tuple) and h[0] == 'match' for h, _ in (f1, f2)):
				continue
			def other(f):
				h, idx = f
				return (h[1], idx[0], h[2]) if idx[1] == j else (h[2], idx[1], h[1])
			(A, i, M), (B, k2, M2) = other(f1), other(f2)
			if M != M2:
				continue
			extra = None
			if W.inside(A, M) or W.inside(B, M):
				extra = []
			elif M[0] == 'sq' and (M[1] == A or M[1] == B):
				extra = [(M[2], (i if M[1] == A else k2,))]
			if extra is None:
				continue
			fs = [f for n, f in enumerate(fs) if n not in occ] + [(('match', A, B), (i, k2))] + extra
			bound.remove(j)
			changed = True
			break
		if changed:
			continue
		# idempotent masks, and masks implied by the other factors
		for k, (h, idx) in enumerate(fs):
			if isinstance(h, tuple) and h[0] == 'nz':
				rest = fs[:k] + fs[k + 1:]
				if (h, idx) in rest or implied(h[1], idx, rest):
					fs = rest
					changed = True
					break
				if not h[1]:
					return []
	return [(c, tuple(fs), tuple(bound))]


def implied(tmpl, idx, factors):
	"""is the (single term) template nonzero whenever the product of the factors is"""
	if len(tmpl) != 1 or tmpl[0][2]:
		return False
	tf = list(tmpl[0][1])
	def rec(k, m):
		if k == len(tf):
			return True
		h, tidx = tf[k]
		for h2, idx2 in factors:
			if h2 != h or len(idx2) != len(tidx):
				continue
			m2 = dict(m)
			for a, b in zip(tidx, idx2):
				if isinstance(a, tuple) and a[0] == 'p':
					if idx[a[1]] != b:
						break
				elif isinstance(a, tuple) and a[0] == 'a':
					if m2.setdefault(a[1], b) != b:
						break
				elif a != b:
					break
			else:
				if rec(k + 1, m2):
					return True
		return False
	return rec(0, {})


def instantiate(W, tmpl, idx, anys=None):
	"""template -> body with its parameters replaced by idx"""
	out = []
	for c, fs, b in tmpl:
		bm = {k: W.V.fresh(s) for k, s in b}
		def f(ix):
			if isinstance(ix, tuple) and ix:
				if ix[0] == 'p':
					return idx[ix[1]]
				if ix[0] == 'a':
					return anys[ix[1]]
				if ix[0] == 'b':
					return bm[ix[1]]
				if ix[0] == 'sl':
					return ix[:2] + tuple(g(x) for x in ix[2:])
				if ix[0] == 'at':
					return g(ix)
			return ix
		def g(x):
			if isinstance(x, V):
				return x
			if isinstance(x, tuple) and x and x[0] == 'at':
				y = f(x[1])
				return V(y) if isinstance(y, int) else ('at', y)
			y = f(x)
			return V(y) if isinstance(y, int) else ('at', y)
		out.append((c, tuple((h, tuple(f(x) for x in i)) for h, i in fs), tuple(bm.values())))
	return tuple(out)


def canon_term(W, t, names):
	"""canonical (key, coefficient); names maps free variables to labels"""
	c, fs, bound = t
	dead = 0
	occ = {v: [] for v in bound}
	for h, idx in fs:
		for p, ix in enumerate(idx):
			for v in ix_vars(ix):
				if v in occ:
					occ[v].append((repr(h), p))
	groups = {}
	for v in bound:
		groups.setdefault((repr(W.V.size[v]), tuple(sorted(occ[v]))), []).append(v)
	keys = sorted(groups)
	if sum(len(g) for g in groups.values()) > 9 or any(len(g) > 5 for g in groups.values()):
		raise Unsupported('too many summation indices')
	best = None
	for perm in itertools.product(*[itertools.permutations(groups[k]) for k in keys]):
		m = {}
		sizes = []
		for g in perm:
			for v in g:
				sizes.append((len(sizes), W.V.size[v]))
				m[v] = ('b', len(sizes) - 1)
		def f(ix):
			if isinstance(ix, int):
				return m[ix] if ix in m else names.get(ix, ('free', ix))
			if isinstance(ix, V):
				return f(ix.v)
			if isinstance(ix, tuple) and ix and ix[0] == 'sl':
				return ix[:2] + tuple(f(x) for x in ix[2:])
			if isinstance(ix, tuple) and ix and ix[0] == 'at':
				return ('at', f(ix[1]))
			return ix
		k = (tuple(sorted(((h, tuple(f(x) for x in idx)) for h, idx in fs), key=repr)), tuple(sizes))
		r = repr(k)
		if best is None or r < best[0]:
			best = (r, k)
	return best[1], c


def canon(W, body, names):
	"""{key: coefficient}"""
	out = {}
	for t in body:
		for u in simp_term(W, t):
			k, c = canon_term(W, u, names)
			out[k] = out.get(k, 0) + c
			if not out[k]:
				del out[k]
	return out


def poly_masks(W, d):
	"""drop a mask common to all terms when it only says that the remaining polynomial is nonzero"""
	while d:
		common = None
		for (fs, b) in d:
			m = {f for f in fs if isinstance(f[0], tuple) and f[0][0] == 'nz'}
			common = m if common is None else common & m
		for f in sorted(common, key=repr):
			rest = {}
			for (fs, b), c in d.items():
				l = list(fs)
				l.remove(f)
				rest[(tuple(l), b)] = c
			if covers(f, rest):
				d = rest
				break
		else:
			return d
	return d


def relabel(fs, b):
	"""canonical names of the bound labels ('b', k) with sizes b = ((k, size), ...)"""
	fs = list(fs)
	if not b:
		return (tuple(sorted(fs, key=repr)), ())
	if len(b) > 5:
		raise Unsupported('too many summation indices')
	best = None
	sz = dict(b)
	for perm in itertools.permutations([k for k, _ in b]):
		m = {('b', k): ('b', n) for n, k in enumerate(perm)}
		x = (tuple(sorted(((h, tuple(m.get(i, i) for i in idx)) for h, idx in fs), key=repr)), tuple((n, sz[k]) for n, k in enumerate(perm)))
		r = repr((x[1], x[0]))
		if best is None or r < best[0]:
			best = (r, x)
	return best[1]


def covers(f, rest):
	(_, tmpl), idx = f
	anys = sorted({x[1] for t in tmpl for _, i in t[1] for x in i if isinstance(x, tuple) and x[0] == 'a'})
	free = sorted({x for (fs, b) in rest for _, i in fs for x in i if isinstance(x, tuple) and x[0] == 'o'})
	for pick in itertools.product(free, repeat=len(anys)):
		m = dict(zip(anys, pick))
		def g(x):
			if isinstance(x, tuple) and x[0] == 'p':
				return idx[x[1]]
			if isinstance(x, tuple) and x[0] == 'a':
				return m[x[1]]
			return x
		inst = {}
		for c, fs, b in tmpl:
			k = relabel(((h, tuple(g(x) for x in i)) for h, i in fs), b)
			inst[k] = inst.get(k, 0) + c
		rest = {relabel(fs, b): c for (fs, b), c in rest.items()}
		if set(inst) == set(rest):
			r = {rest[k] / inst[k] for k in inst}
			if len(r) == 1:
				return True
	return False


def template(W, body, params, anys):
	"""canonical template of a body; returns (template, order of the parameters)"""
	if len(params) > 5 or len(anys) > 5:
		raise Unsupported('large template')
	best = None
	for pp in itertools.permutations(params):
		base = {v: ('p', k) for k, v in enumerate(pp)}
		for aa in itertools.permutations(anys):
			names = dict(base)
			names.update({v: ('a', k) for k, v in enumerate(aa)})
			d = canon(W, body, names)
			items = sorted(d.items(), key=lambda kv: repr(kv[0]))
			r = repr(items)
			if best is None or r < best[0]:
				best = (r, items, pp)
	_, items, pp = best
	return tuple((c, k[0], k[1]) for k, c in items), list(pp)


def flatten_masks(W, body, anys):
	"""a single product is nonzero iff all its factors are, so masks of single products are replaced by these"""
	while len(body) == 1:
		c, fs, b = body[0]
		for k, (h, idx) in enumerate(fs):
			if isinstance(h, tuple) and h[0] == 'nz' and len(h[1]) == 1 and not h[1][0][2]:
				inner = {}
				for _, i in h[1][0][1]:
					for x in i:
						if isinstance(x, tuple) and x[0] == 'a':
							inner.setdefault(x[1], W.V.fresh(('any',)))
				u = instantiate(W, h[1], idx, inner)[0]
				# a bound index of the outer product would be quantified inside the mask
				if set(b) & {v for x in idx for v in ix_vars(x)}:
					return body, anys
				body = ((c, fs[:k] + u[1] + fs[k + 1:], b),)
				anys += list(inner.values())
				break
		else:
			return body, anys
	return body, anys


def nz_factor(W, body, anys):
	"""[body != 0 for some value of anys]"""
	free = []
	for t in body:
		for v in sorted(t_vars(t) - set(t[2]) - set(anys)):
			if v not in free:
				free.append(v)
	body, anys = flatten_masks(W, body, list(anys))
	anys = [a for a in anys if any(a in t_vars(t) for t in body)]
	tm, pp = template(W, body, free, anys)
	if tm:
		lead = tm[0][0]
		tm = tuple((c / lead, f, b) for c, f, b in tm)
	return (('nz', tm), tuple(pp))


def show_ix(x):
	if isinstance(x, tuple) and x:
		return f'{x[0]}{x[1]}' if len(x) == 2 and isinstance(x[1], int) else '.'.join(str(y) for y in x)
	return str(x)


def show_head(h):
	if isinstance(h, tuple):
		if h[0] == 'match':
			return f'[{show_tok(h[1])}={show_tok(h[2])}]'
		if h[0] == 'nz':
			return 'nz{' + show_terms({(f, b): c for c, f, b in h[1]}) + '}'
		if h[0] == 'fdiv':
			return f'floordiv{h[1]}' + '{' + show_terms({(f, b): c for c, f, b in h[2]}) + '}'
		return str(h[0]) + '(' + ','.join(show_tok(x) if isinstance(x, tuple) else str(x) for x in h[1:]) + ')'
	return str(h)


def show_terms(d):
	if not d:
		return '0'
	out = []
	for (fs, b), c in sorted(d.items(), key=repr):
		s = '*'.join(f'{show_head(h)}({",".join(show_ix(x) for x in idx)})' for h, idx in fs) or '1'
		if b:
			s = f'sum[{",".join("b%d" % k for k, _ in b)}] ' + s
		out.append(s if c == 1 else f'{c}*{s}')
	return ' + '.join(out)


def show_tok(t):
	if isinstance(t, tuple) and t:
		if t[0] == 'in':
			return t[1]
		if t[0] == 'u':
			return '|'.join(sorted(show_tok(x) for x in t[1]))
		if t[0] == 'sq':
			return f'nonzero outputs of {show_tok(t[1])}'
		return ' '.join(show_tok(x) if isinstance(x, tuple) else str(x) for x in t)
	return str(t)


def show_size(s):
	return '1' if s == 1 else show_tok(s[1] if isinstance(s, tuple) and s[0] == 'len' else s)


# --------------------------------------------------------------------------
# values


class Dim(AV):
	"""symbolic length"""
	def __init__(self, W, tok):
		self.W, self.tok = W, tok
	def __repr__(self):
		return f'len({show_size(self.tok)})'
	def a_key(self):
		return ('dim', self.tok)
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!='):
			if isinstance(other, Dim) and other.tok == self.tok:
				return op == '=='
			if isinstance(other, (int, Dim)):
				k = ('dimeq', frozenset({self.tok, other.tok if isinstance(other, Dim) else other}))
				return I.decide(k) == (op == '==')
		if op in ('<', '<=', '>', '>=') and isinstance(other, (int, Dim)):
			if isinstance(other, Dim) and other.tok == self.tok:
				return op in ('<=', '>=')
			if isinstance(other, int) and other <= 0 and op in ('>=',):
				return True
			if isinstance(other, int) and other <= 0 and op in ('<',):
				return False
			o = other.tok if isinstance(other, Dim) else other
			if op in ('<', '>='):
				return I.decide(('dimlt', self.tok, o)) == (op == '<')
			return I.decide(('dimlt', o, self.tok)) == (op == '>')
		return NotImplemented
	def a_binop(self, I, op, other, refl):
		if isinstance(other, (list, tuple)) and op == '*' and len(other) == 1:
			r = self.W.fill([self], other[0])
			r.aslist = isinstance(other, list)
			return r
		if isinstance(other, int) and op == '*':
			return self if other == 1 else 0 if other == 0 else Dim(self.W, ('mul', self.tok, other))
		if isinstance(other, int) and op in '+-':
			if other == 0 and not (refl and op == '-'):
				return self
			return Dim(self.W, (('rsub' if refl and op == '-' else op), self.tok, other))
		if isinstance(other, Dim) and op in ('+', '*'):
			return Dim(self.W, (op,) + tuple(sorted((self.tok, other.tok), key=repr)))
		return Top('length arithmetic')
	def a_unop(self, I, op):
		if op == 'not':
			return not self.a_bool(I)
		return Top('length arithmetic')
	def a_bool(self, I):
		return not I.decide(('dimeq', frozenset({self.tok, 0})))
	def a_range(self, I, a):
		if len(a) == 1:
			return RangeV(self.W, self.tok)
		if len(a) == 2 and a[0] == 0:
			return RangeV(self.W, self.tok)
		return None
	def a_isinstance(self, I, cls):
		return isinstance(cls, HostType) and cls.name == 'int'
	def a_to_int(self, I):
		return self
	def a_str(self, I):
		return Top('length')


class IdxV(AV):
	"""one generic position along an axis (ix an index expression)"""
	def __init__(self, W, ix, size):
		self.W, self.ix, self.size = W, ix, size
	def __repr__(self):
		return f'index {self.ix}'
	def a_key(self):
		return ('idx', self.ix)
	def a_isinstance(self, I, cls):
		return isinstance(cls, HostType) and cls.name == 'int'
	def a_to_int(self, I):
		return self
	def a_binop(self, I, op, other, refl):
		if op in '+-' and other == 0 and not refl:
			return self
		return Top('index arithmetic')


class Binder:
	"""generic iteration: vars range over their axes, subject to guards (boolean tensors of rank 0)"""
	def __init__(self, W, vars, guards=(), ordered=True):
		self.W, self.vars, self.guards = W, list(vars), list(guards)
	def seq(self, I, v, guards):
		if any(g is False for g in guards):
			return []
		gs = []
		for g in guards:
			gs.append(self.W.as_guard(I, g))
		return Family(self.W, self.vars, self.guards + gs, v)
	# loop carried accumulators
	def placeholder(self, I, old):
		if isinstance(old, bool) or not isinstance(old, (int, float, Ten)):
			return None
		W = self.W
		if isinstance(old, Ten):
			vs = [(W.V.fresh(s) if s != 1 else v, s) for v, s in old.axes]
			h = ('acc', id(old), len(I.generic_stack))
			return Ten(W, vs, ((ONE, ((h, tuple(v for v, s in vs if s != 1)),), ()),), old.lib), h
		h = ('acc', 'num', W.V.fresh(1))
		return Ten(W, [], ((ONE, ((h, ()),), ()),), None), h
	def accumulate(self, I, old, ph, h, new):
		W = self.W
		if new is ph:
			return old
		if not isinstance(new, Ten):
			raise Unsupported('loop carried value')
		lin, rest = [], []
		for t in new.body:
			k = sum(f[0] == h for f in t[1])
			if k == 0:
				rest.append(t)
			elif k == 1 and t[0] == 1 and len(t[1]) == 1 and not t[2]:
				lin.append(t)
			else:
				raise Unsupported('loop carried value is not a sum')
		if len(lin) != 1:
			raise Unsupported('loop carried value is not a sum')
		acc = W.close(Ten(W, new.axes, tuple(rest), new.lib), self.vars, self.guards)
		return W.add(I, old, acc)


class RangeV(AV):
	def __init__(self, W, size):
		self.W, self.size = W, size
	def __repr__(self):
		return f'range({show_size(self.size)})'
	def a_generic(self, I):
		v = self.W.V.fresh(self.size)
		return IdxV(self.W, v, self.size), Binder(self.W, [v])
	def a_len(self, I):
		return Dim(self.W, self.size)
	def a_enumerate(self, I, start):
		if start != 0:
			return None
		v = self.W.V.fresh(self.size)
		x = IdxV(self.W, v, self.size)
		return Family(self.W, [v], [], (x, x))
	def a_itertools(self, I, name, a, k):
		if name != 'product' or k:
			return None
		vs, elem = [], []
		for x in a:
			if isinstance(x, RangeV):
				v = self.W.V.fresh(x.size)
				vs.append(v)
				elem.append(IdxV(self.W, v, x.size))
			elif isinstance(x, range) and len(x) == 1:
				elem.append(x[0])
			else:
				return None
		return Family(self.W, vs, [], tuple(elem))
	def a_to_tuple(self, I):
		return self
	def a_to_list(self, I):
		return self
	def a_star(self, I):
		raise Unsupported('unpacking a symbolic range')


class Family(AV):
	"""ordered family of values indexed by generic positions: (value(v) for v in axes if guards)"""
	def __init__(self, W, vars, guards, value):
		self.W, self.vars, self.guards, self.value = W, list(vars), list(guards), value
	def __repr__(self):
		return f'family of {self.value} over {self.vars}'
	def a_generic(self, I):
		m = {v: self.W.V.fresh(self.W.V.size[v]) for v in self.vars}
		val = self.W.deep_sub(self.value, m)
		return val, Binder(self.W, m.values(), [self.W.deep_sub(g, m) for g in self.guards])
	def array(self):
		"""array when this is one number per position of one axis"""
		if len(self.vars) == 1 and not self.guards and isinstance(self.value, Ten) and not self.value.axes:
			v = self.vars[0]
			return Ten(self.W, [(v, self.W.V.size[v])], self.value.body, self.value.lib)
		if len(self.vars) == 1 and not self.guards and isinstance(self.value, (int, float)) and not isinstance(self.value, bool):
			v = self.vars[0]
			return Ten(self.W, [(v, self.W.V.size[v])], const_body(self.value), None)
		return None
	def a_to_tuple(self, I):
		return self
	def a_to_list(self, I):
		x = self.array()
		return self if x is None else x
	def a_len(self, I):
		if not self.guards and len(self.vars) == 1:
			return Dim(self.W, self.W.V.size[self.vars[0]])
		return LenFam(self.W, self)
	def a_bool(self, I):
		raise Unsupported('truth of a symbolic family')
	def a_guard(self, I):
		return LenFam(self.W, self).a_guard(I)
	def a_enumerate(self, I, start):
		if not isinstance(start, int) or len(self.vars) != 1:
			return None
		v = self.vars[0]
		ix = v
		if self.guards:
			# counts members only
			ix = ('sl', ('rank', tuple(repr(sorted(canon(self.W, g.body, {v: ('p', 0)}).items(), key=repr)) for g in self.guards)), V(v))
		if start:
			ix = ('sl', ('shift', start), V(v)) if ix == v else ('sl', ('shift', start) + ix[1], V(v))
		return Family(self.W, self.vars, self.guards, (IdxV(self.W, ix, self.W.V.size[v]), self.value))
	def a_sum(self, I, start):
		if not isinstance(self.value, (Ten, int, float)):
			return Top('sum of family')
		v = self.value if isinstance(self.value, Ten) else self.W.num(self.value)
		return self.W.add(I, start, self.W.close(v, self.vars, self.guards))
	def a_reduce(self, I, f):
		raise Unsupported('reduce over a symbolic family')
	def a_getitem(self, I, k):
		x = self.array()
		if x is not None:
			return x.a_getitem(I, k)
		if isinstance(k, IdxV) and len(self.vars) == 1 and not self.guards:
			return self.W.deep_sub(self.value, {self.vars[0]: k.ix})
		raise Unsupported('indexing a symbolic family')
	def a_zip(self, I, a):
		xs = [x.array() if isinstance(x, Family) else x for x in a]
		if all(isinstance(x, Ten) and len(x.axes) == 1 for x in xs) and len({x.axes[0][1] for x in xs}) == 1:
			v = self.W.V.fresh(xs[0].axes[0][1])
			return Family(self.W, [v], [], tuple(Ten(self.W, [], b_sub(self.W, x.body, {x.axes[0][0]: v}), x.lib) for x in xs))
		return None


class LenFam(AV):
	"""number of members of a guarded family"""
	def __init__(self, W, fam):
		self.W, self.fam = W, fam
	def a_guard(self, I):
		W = self.W
		body = (((ONE, (), ()),))
		for g in self.fam.guards:
			body = b_mul(W, body, g.body)
		f = nz_factor(W, body, self.fam.vars)
		return Ten(W, [], ((ONE, (f,), ()),), None, boolean=True)
	def a_cmp(self, I, op, other, refl):
		if (op, other) in (('>', 0), ('!=', 0), ('>=', 1)):
			return self.a_guard(I)
		return Top('family length')
	def a_bool(self, I):
		raise Unsupported('number of members of a symbolic family')
	def a_binop(self, I, op, other, refl):
		x = self.W.lift(self)
		return self.W.arith(I, op, other, x) if refl else self.W.arith(I, op, x, other)


def spaceof(I, x):
	if isinstance(x, Sub):
		return x
	if isinstance(x, Obj):
		I.getattr(x, 'blades')		# the set operations read the blades of their argument
	raise Unsupported(f'set operation on {x}')


class Sub(AV):
	"""symbolic subspace"""
	def __init__(self, W, tok):
		self.W, self.tok = W, tok
	def __repr__(self):
		return show_tok(self.tok)
	def a_key(self):
		return ('sub', self.tok)
	def a_len(self, I):
		return self.W.dim(self.W.length(self.tok))
	def a_bool(self, I):
		return not I.decide(('dimeq', frozenset({('len', self.tok), 0})))
	def a_isinstance(self, I, cls):
		return isinstance(cls, PyClass) and cls.name in ('SubSpace', 'AbstractSubSpace', 'FlyweightMixin')
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!=', 'is', 'is not'):
			if isinstance(other, Sub):
				r = other.tok == self.tok or I.decide(('subeq', frozenset({self.tok, other.tok})))
				return r == (op in ('==', 'is'))
			if other is None or isinstance(other, Obj):
				return op in ('!=', 'is not')
		return NotImplemented
	def a_getattr(self, I, name):
		W = self.W
		if name == 'algebra':
			return W.alg
		if name == 'blades':
			return Blades(W, self.tok)
		if name == 'subspace':
			return self
		if name == 'grades':
			return HostFn(lambda I2, a, k: W.atom(('grade', self.tok), [('len', self.tok)]), 'grades')
		if name == 'union':
			return HostFn(lambda I2, a, k: Sub(W, W.union(self.tok, spaceof(I2, a[0]).tok)), 'union')
		if name == 'intersection':
			return HostFn(lambda I2, a, k: Sub(W, ('n', frozenset({self.tok, a[0].tok})) if spaceof(I2, a[0]).tok != self.tok else self.tok), 'intersection')
		if name == 'to_relative_indices':
			return HostFn(lambda I2, a, k: W.rel(self.tok, (list(a) + list(k.values()))[0], None), name)
		if name == 'slice_subspace':
			return HostFn(lambda I2, a, k: W.slice_sub(self.tok, (list(a) + list(k.values()))[0]), name)
		if name == 'equals' or name == 'inside':
			return Query(W, self.tok, name)
		if name in ('named_str', 'pretty_str'):
			return Top(name)
		return Top(f'subspace attribute {name}')
	def a_binop(self, I, op, other, refl):
		if isinstance(other, Sub) and op in '|+':
			return Sub(self.W, self.W.union(self.tok, other.tok))
		return Top(f'subspace {op}')


class Query(AV):
	def __init__(self, W, tok, kind):
		self.W, self.tok, self.kind = W, tok, kind
	def a_getattr(self, I, name):
		return HostFn(lambda I2, a, k: I2.decide((self.kind, self.tok, name, tuple(cond_key(x) for x in a))), name)


class Blades(AV):
	"""blade array of a subspace"""
	def __init__(self, W, tok):
		self.W, self.tok = W, tok
	def __repr__(self):
		return f'blades of {show_tok(self.tok)}'
	def a_key(self):
		return ('blades', self.tok)
	def a_len(self, I):
		return Dim(self.W, ('len', self.tok))
	def a_getattr(self, I, name):
		if name == 'shape':
			return (Dim(self.W, ('len', self.tok)),)
		if name == 'size':
			return Dim(self.W, ('len', self.tok))
		if name in ('astype', 'copy'):
			return HostFn(lambda I2, a, k: self, name)
		return Top(f'blades.{name}')
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!=') and isinstance(other, int):
			t = self.W.atom(('blade is', self.tok, other), [self.W.length(self.tok)], boolean=True)
			return t if op == '==' else t.a_unop(I, '~')
		if op in ('==', '!=') and isinstance(other, FirstBlade) and other.tok == self.tok:
			t = self.W.atom(('blade is', self.tok, 'first'), [self.W.length(self.tok)], boolean=True)
			return t if op == '==' else t.a_unop(I, '~')
		return Top('blade comparison')
	def a_generic(self, I):
		v = self.W.V.fresh(self.W.length(self.tok))
		return BladeEl(self.W, self.tok, v), Binder(self.W, [v])
	def a_getitem(self, I, k):
		if isinstance(k, NzIdx):
			s = self.W.slice_sub(self.tok, k)
			return Blades(self.W, s.tok)
		if k == 0 and type(k) is int or isinstance(k, slice) and k.start in (None, 0) and k.stop == 1 and k.step in (None, 1):
			return FirstBlade(self.W, self.tok)
		return Top('blades indexed')


class FirstBlade(AV):
	"""the smallest blade of a subspace: the scalar only when the subspace holds it"""
	def __init__(self, W, tok):
		self.W, self.tok = W, tok
	def a_key(self):
		return ('first blade', self.tok)
	def a_getattr(self, I, name):
		return Top(f'first blade.{name}')


class BladeEl(AV):
	"""generic element of a blade array"""
	def __init__(self, W, tok, v):
		self.W, self.tok, self.v = W, tok, v
	def a_key(self):
		return ('blade el', self.tok, self.v)
	def a_cmp(self, I, op, other, refl):
		if op in ('==', '!=') and isinstance(other, int):
			t = Ten(self.W, [], ((ONE, ((('blade is', self.tok, other), (self.v,)),), ()),), None, True)
			return t if op == '==' else t.a_unop(I, '~')
		return Top('blade comparison')


class IdxArr(AV):
	"""positions of the blades of `want` within those of `have`"""
	def __init__(self, W, have, want, missing):
		self.W, self.have, self.want, self.missing = W, have, want, missing
	def __repr__(self):
		return f'positions of {show_tok(self.want)} in {show_tok(self.have)}'
	def a_len(self, I):
		return Dim(self.W, ('len', self.want))
	def a_getattr(self, I, name):
		if name in ('astype', 'copy', 'tolist'):
			return HostFn(lambda I2, a, k: self, name)
		return Top(name)


class NzIdx(AV):
	"""positions at which a one dimensional mask is set"""
	def __init__(self, W, ten):
		self.W, self.ten = W, ten
	def __repr__(self):
		return f'nonzero positions of {self.ten}'
	def a_len(self, I):
		return Top('number of nonzero positions')
	def a_unpack(self, I, want):
		if want != 1:
			raise Unsupported('unpacking positions')
		return [PosV(self.W, self.ten)]
	def a_getitem(self, I, k):
		return PosV(self.W, self.ten) if k == 0 or k == -1 else Top('nonzero positions indexed')
	def a_getattr(self, I, name):
		return Top(name)


class PosV(AV):
	"""the one position at which a one dimensional mask is set"""
	def __init__(self, W, ten):
		self.W, self.ten = W, ten
	def __repr__(self):
		return f'the nonzero position of {self.ten}'
	def a_getattr(self, I, name):
		return HostFn(lambda I2, a, k: self, name) if name in ('item', 'astype') else Top(name)
	def a_to_int(self, I):
		return self


class AlgV(AV):
	def __init__(self, W):
		self.W = W
	def __repr__(self):
		return 'algebra'
	def a_key(self):
		return ('algebra',)
	def a_isinstance(self, I, cls):
		return isinstance(cls, PyClass) and cls.name == 'Algebra'
	def a_getattr(self, I, name):
		if name == 'n_blades':
			return Dim(self.W, ('len', FULL))
		if name == 'blade_dtype':
			return Ext('numpy.blade_dtype')
		if name == 'subspace':
			return SubFac(self.W)
		if name == 'operator':
			return OpFacV(self.W)
		return Top(f'algebra.{name}')


class OpFacV(AV):
	def __init__(self, W):
		self.W = W
	def a_getattr(self, I, name):
		f = getattr(self.W, 'opfac', {}).get(name)
		if f is not None:
			return HostFn(lambda I2, a, k: f(*a, **k), name)
		return Top(f'operator factory {name}')


FULL = ('full',)


SCALAR_TOK = ('name', 'k_vector', 0)


class SubFac(AV):
	def __init__(self, W):
		self.W = W
	def a_getattr(self, I, name):
		W = self.W
		def f(I2, a, k):
			args = [x if isinstance(x, (int, str)) else cond_key(x) for x in list(a) + list(k.values())]
			if name == 'full' and not args:
				return Sub(W, FULL)
			if name == 'basis':
				return Top('basis')
			if (name, args) in (('scalar', []), ('k_vector', [0])):
				return Sub(W, SCALAR_TOK)
			return Sub(W, ('name', name) + tuple(args))
		return HostFn(f, name)
	def a_call(self, I, a, k):
		return Top('subspace factory call')


class EqV(AV):
	"""elementwise equality of two arrays"""
	is_boolean = True
	def __init__(self, W, diff, axes):
		self.W, self.diff, self.axes = W, diff, axes
	def a_bool(self, I):
		if self.axes:
			raise Unsupported('truth of an array')
		return self.all(I)
	def all(self, I):
		W = self.W
		names = {v: ('o', k) for k, (v, s) in enumerate(self.axes)}
		d = canon(W, self.diff, names)
		if not d:
			return True
		r = I.decide(('allzero', repr(sorted(d.items(), key=repr))))
		if r:
			for (fs, b), c in d.items():
				if len(fs) == 1 and not b and isinstance(fs[0][0], tuple) and fs[0][0][0] == 'fdiv':
					h, idx = fs[0]
					want = {(fs, b): Fraction(h[1])}
					inst = {}
					for c2, f2, b2 in h[2]:
						def g(x):
							return idx[x[1]] if isinstance(x, tuple) and x[0] == 'p' else x
						k = (tuple(sorted(((hh, tuple(g(x) for x in i)) for hh, i in f2), key=repr)), b2)
						inst[k] = inst.get(k, 0) - c2
					want.update(inst)
					s = c / h[1]
					if {k: v * s for k, v in want.items()} == d:
						W.facts.add(h)
		return r
	def mask(self):
		return Ten(self.W, self.axes, const_body(1) + b_scale(self.W.as_bool(Ten(self.W, self.axes, self.diff, None)).body, -1), None, True)
	def a_unop(self, I, op):
		if op == '~':
			return self.W.as_bool(Ten(self.W, self.axes, self.diff, None))
		return Top(f'{op} comparison')
	def a_getattr(self, I, name):
		if name in ('astype', 'copy', 'shape', 'ndim'):
			return self.mask().a_getattr(I, name)
		if name == 'all':
			return HostFn(lambda I2, a, k: self.all(I2), 'all')
		if name == 'any':
			return HostFn(lambda I2, a, k: FUNCS['any'](self.W, I2, [self] + list(a), k), 'any')
		return Top(f'comparison.{name}')


class IndexAt(AV):
	"""jax `.at`"""
	def __init__(self, W, base, key=None):
		self.W, self.base, self.key = W, base, key
	def a_getitem(self, I, k):
		return IndexAt(self.W, self.base, (k,))
	def a_getattr(self, I, name):
		if name == 'set':
			def f(I2, a, k):
				r = self.base.clone()
				r.a_setitem(I2, self.key[0], a[0])
				return r
			return HostFn(f, 'set')
		if name == 'add':
			def f(I2, a, k):
				r = self.base.clone()
				cur = r.a_getitem(I2, self.key[0])
				x = self.W.add(I2, cur, a[0])
				x.acc = r
				r.a_setitem(I2, self.key[0], x)
				return r
			return HostFn(f, 'add')
		if name in ('max', 'min', 'multiply', 'mul'):
			def f(I2, a, k):
				r = self.base.clone()
				cur = r.a_getitem(I2, self.key[0])
				x = self.W.arith(I2, '*', cur, a[0]) if name in ('multiply', 'mul') else elementwise(self.W, I2, {'max': 'maximum', 'min': 'minimum'}[name], cur, a[0])
				r.a_setitem(I2, self.key[0], x)
				return r
			return HostFn(f, name)
		return Top(f'at[].{name}')


class Ten(AV):
	def __init__(self, W, axes, body, lib, boolean=False):
		self.W, self.axes, self.body, self.lib, self.boolean = W, list(axes), tuple(body), lib, boolean
		self.acc = None
		self.view = None
	@property
	def is_boolean(self):
		return self.boolean
	def __repr__(self):
		try:
			return f'array[{",".join(show_size(s) for _, s in self.axes)}] {show_terms(self.canon())}'[:400]
		except Exception as e:
			return f'array {e}'
	def clone(self):
		return Ten(self.W, self.axes, self.body, self.lib, self.boolean)
	def canon(self):
		names = {v: ('o', k) for k, (v, s) in enumerate(self.axes)}
		return poly_masks(self.W, canon(self.W, self.body, names))
	def a_key(self):
		return ('ten', id(self))
	# ---- attributes
	def a_getattr(self, I, name):
		W = self.W
		if name == 'shape':
			return tuple(W.dim(s) for _, s in self.axes)
		if name == 'size' and self.lib == 'torch':
			return HostFn(lambda I2, a, k: tuple(W.dim(s) for _, s in self.axes), 'size')
		if name == 'ndim':
			return len(self.axes)
		if name == 'dtype':
			return DType(W, self.body)
		if name == 'T':
			return Ten(W, self.axes[::-1], self.body, self.lib, self.boolean)
		if name == 'at':
			return IndexAt(W, self)
		if name in ('flags', 'device', 'strides', 'size', 'nbytes'):
			return Top(f'array.{name}')
		if name in METHODS:
			f = METHODS[name]
			return HostFn(lambda I2, a, k: f(W, I2, [self] + list(a), dict(k)), name)
		if name in ('fill',):
			def fill(I2, a, k):
				self.body = const_body(a[0])
			return HostFn(fill, name)
		return Top(f'array.{name}')
	def a_len(self, I):
		if not self.axes:
			raise PyRaise('TypeError', 'len() of unsized object')
		return self.W.dim(self.axes[0][1])
	def a_bool(self, I):
		if self.axes:
			raise Unsupported('truth of an array')
		raise Unsupported('branch on an array element')
	def a_guard(self, I):
		if self.axes:
			raise Unsupported('truth of an array')
		return self.W.as_bool(self)
	def a_isinstance(self, I, cls):
		if isinstance(cls, PyClass):
			return False
		if isinstance(cls, HostType):
			return False if cls.name in ('int', 'str', 'tuple', 'dict', 'list', 'float', 'bool', 'slice') else None
		if isinstance(cls, Ext):
			if cls.path in ('numpy.ndarray',):
				return self.lib in ('numpy', None)
		return None
	def a_generic(self, I):
		if len(self.axes) == 1 and self.axes[0][1] != 1:
			v, s = self.axes[0]
			n = self.W.V.fresh(s)
			return Ten(self.W, [], b_sub(self.W, self.body, {v: n}), self.lib, self.boolean), Binder(self.W, [n])
		return None
	def a_zip(self, I, a):
		return Family.a_zip(Family(self.W, [], [], None), I, a)
	def a_enumerate(self, I, start):
		if start == 0 and len(self.axes) == 1 and self.axes[0][1] != 1:
			v, s = self.axes[0]
			n = self.W.V.fresh(s)
			return Family(self.W, [n], [], (IdxV(self.W, n, s), Ten(self.W, [], b_sub(self.W, self.body, {v: n}), self.lib)))
		return None
	def a_to_list(self, I):
		if len(self.axes) == 1:
			return self.clone()
		raise Unsupported('list of an array')
	def a_to_tuple(self, I):
		return self.a_to_list(I)
	def a_to_float(self, I):
		if not self.axes:
			return self
		return Top('float of array')
	def a_sum(self, I, start):
		if len(self.axes) == 1:
			v, s = self.axes[0]
			return self.W.add(I, start, Ten(self.W, [], b_bind(self.body, [v] if s != 1 else []), self.lib))
		raise Unsupported('sum over the first axis of an array')
	# ---- arithmetic
	aslist = False
	def a_binop(self, I, op, other, refl):
		if self.aslist and op == '+' and refl and isinstance(other, list) and len(self.axes) == 1 and self.axes[0][1] != 1 and self.axes[0][1][:1] == ('-',) and self.axes[0][1][2] == len(other):
			s = self.axes[0][1][1]
			t = Ten(self.W, [(self.W.V.fresh(s), s)], b_sub(self.W, self.body, {}), None)
			for k, x in enumerate(other):
				self.W.store(I, t, k, x)
			return t
		return self.W.arith(I, op, other, self) if refl else self.W.arith(I, op, self, other)
	def a_inplace(self, I, op, v):
		r = self.W.arith(I, op, self, v)
		if isinstance(r, Ten):
			if self.view is not None and op == '+':
				r.acc = self.view
			elif self.lib in ('numpy', 'torch') and self.axes and self.view is None and len(r.axes) == len(self.axes):
				self.axes, self.body = r.axes, r.body     # in place
				return self
		return r
	def a_unop(self, I, op):
		if op == '-':
			return Ten(self.W, self.axes, b_scale(self.body, -1), self.lib)
		if op == '+':
			return self
		if op == 'abs':
			return elementwise(self.W, I, 'abs', self)
		if op == '~' and self.boolean:
			return Ten(self.W, self.axes, const_body(1) + b_scale(self.body, -1), self.lib, True)
		return Top(f'{op} array')
	def a_cmp(self, I, op, other, refl):
		W = self.W
		if op in ('is', 'is not'):
			return (other is self) == (op == 'is')
		o = W.lift(other)
		if o is None:
			return Top('array comparison')
		if op == '!=' and not isinstance(other, Ten) and other == 0:
			return W.as_bool(self)
		if op in ('==',):
			ax, (a, b) = W.broadcast(I, [self, o])
			return EqV(W, a + b_scale(b, -1), ax)
		if op == '>' and not isinstance(other, AV) and 0 <= other <= 1e-4:
			t = self.body
			if len(t) == 1 and len(t[0][1]) == 1 and t[0][0] == 1 and isinstance(t[0][1][0][0], tuple) and t[0][1][0][0][:2] == ('fn', 'abs'):
				h, idx = t[0][1][0]
				return W.as_bool(Ten(W, self.axes, instantiate(W, h[2], idx), self.lib))
		ax, (a, b) = W.broadcast(I, [self, o])
		if op in ('>', '>='):		# one form per comparison, whichever side it is written from
			op, a, b = SWAP[op], b, a
		return opaque_fn(W, ('cmp', op), ax, [a, b], self.lib, True)
	# ---- indexing
	def a_getitem(self, I, key):
		return self.W.index(I, self, key)
	def a_setitem(self, I, key, v):
		self.W.store(I, self, key, v)


class DType(AV):
	def __init__(self, W, body):
		self.W, self.body = W, body
	def a_key(self):
		return ('dtype',)
	def a_cmp(self, I, op, other, refl):
		return I.decide(('dtype', op, cond_key(other)))
	def a_getattr(self, I, name):
		return Top(f'dtype.{name}')


def opaque_fn(W, name, axes, bodies, lib, boolean=False):
	"""elementwise opaque function of arrays"""
	free = []
	for b in bodies:
		for t in b:
			for v in sorted(t_vars(t) - set(t[2])):
				if v not in free:
					free.append(v)
	# a joint template keeps the operands aligned
	order = None
	best = None
	for pp in itertools.permutations(free) if len(free) <= 4 else [tuple(free)]:
		names = {v: ('p', k) for k, v in enumerate(pp)}
		items = tuple(tuple((c, k[0], k[1]) for k, c in sorted(canon(W, b, names).items(), key=lambda kv: repr(kv[0]))) for b in bodies)
		r = repr(items)
		if best is None or r < best[0]:
			best = (r, items, pp)
	return Ten(W, axes, ((ONE, ((('fn',) + (name if isinstance(name, tuple) else (name,)) + best[1], tuple(best[2])),), ()),), lib, boolean)


def elementwise(W, I, name, *args):
	ts = [W.lift(a) for a in args]
	if any(t is None for t in ts):
		return Top(name)
	ax, bs = W.broadcast(I, ts)
	return opaque_fn(W, name, ax, bs, ts[0].lib)


class TensorWorld(World):
	LIBS = {'numpy': 'numpy', 'jax.numpy': 'jax', 'torch': 'torch'}

	def __init__(self):
		World.__init__(self)
		self.V = Vars()
		self.facts = set()
		self.same_length = {}
		self.conds = []
		self.alg = AlgV(self)
		self.consts['numpy.newaxis'] = None
		self.consts['jax.numpy.newaxis'] = None
		self.ext['numpy_indexed.indices'] = lambda I, a, k: self.npi_indices(I, a, k)

	# ---- construction
	def dim(self, s):
		return 1 if s == 1 else Dim(self, s)
	def size(self, d):
		if isinstance(d, Dim):
			return d.tok
		if isinstance(d, int) and not isinstance(d, bool):
			return d if d == 1 else ('const', d)
		if isinstance(d, IdxV):
			return ('at', repr(d.ix))
		raise Unsupported(f'length {d}')
	def length(self, tok):
		"""size of an axis over a subspace; subspaces may be assumed equally long"""
		if tok == SCALAR_TOK:
			return 1
		return ('len', self.same_length.get(tok, tok))
	def sub(self, name):
		return Sub(self, ('in', name))
	def atom(self, head, sizes, lib='numpy', boolean=False):
		ax = [(self.V.fresh(s), s) for s in sizes]
		return Ten(self, ax, ((ONE, ((head, tuple(v for v, s in ax if s != 1)),), ()),), lib, boolean)
	def num(self, c):
		return Ten(self, [], const_body(Fraction(c)), None)
	def fill(self, dims, c, lib=None):
		if isinstance(c, Ten):
			ax = [(self.V.fresh(self.size(d)), self.size(d)) for d in dims]
			return Ten(self, ax, c.body, lib)
		ax = [(self.V.fresh(self.size(d)), self.size(d)) for d in dims]
		return Ten(self, ax, const_body(Fraction(c)), lib)
	def lift(self, x):
		if isinstance(x, Ten):
			return x
		if isinstance(x, Family):
			return x.array()
		if isinstance(x, EqV):
			return x.mask()
		if isinstance(x, LenFam):
			return self.close(self.num(1), x.fam.vars, x.fam.guards)
		if isinstance(x, bool):
			return self.num(int(x))
		if isinstance(x, (int, float)):
			return self.num(x)
		return None
	# ---- subspaces
	def union(self, a, b):
		if a == b:
			return a
		parts = set()
		for t in (a, b):
			parts |= set(t[1]) if t[0] == 'u' else {t}
		if FULL in parts:
			return FULL
		return ('u', frozenset(parts))
	def inside(self, a, b):
		if a == b or b == FULL:
			return True
		if b[0] == 'u':
			pa = set(a[1]) if a[0] == 'u' else {a}
			return all(any(self.inside(x, y) for y in b[1]) for x in pa)
		if a[0] == 'u':
			return all(self.inside(x, b) for x in a[1])
		if a[0] in ('sq',):
			return self.inside(a[1], b)
		if a[0] == 'n':
			return any(self.inside(x, b) for x in a[1])
		return False
	def rel(self, have, blades, missing):
		if isinstance(blades, Blades):
			return IdxArr(self, have, blades.tok, missing)
		raise Unsupported('positions of computed blades')
	def slice_sub(self, tok, idx):
		if isinstance(idx, NzIdx):
			t = idx.ten
			if len(t.axes) != 1 or len(t.body) != 1 or len(t.body[0][1]) != 1 or t.body[0][1][0][0][0] not in ('nz', 'allnz'):
				raise Unsupported('slice by a computed mask')
			if t.axes[0][1] != ('len', tok):
				raise PyRaise('IndexError', f'positions along {show_size(t.axes[0][1])} used to slice {show_tok(tok)}')
			h, ix = t.body[0][1][0]
			if ix not in ((t.axes[0][0],), ()):
				raise Unsupported('slice by a computed mask')
			return Sub(self, ('sq', tok, h) if ix else ('sqall', tok, h))
		if isinstance(idx, IdxArr) and idx.have == tok and idx.missing is None:
			return Sub(self, idx.want)
		raise Unsupported('subspace slice')
	def npi_indices(self, I, a, k):
		have, want = a[0], a[1]
		missing = k.get('missing', a[2] if len(a) > 2 else 'raise')
		if not isinstance(have, Blades) or not isinstance(want, Blades):
			return Top('indices of computed blades')
		return IdxArr(self, have.tok, want.tok, None if missing == 'raise' else missing)
	# ---- guards
	def as_bool(self, t):
		if t.boolean:
			return t
		f = nz_factor(self, t.body, [])
		return Ten(self, t.axes, ((ONE, (f,), ()),), t.lib, True)
	def as_guard(self, I, g):
		if isinstance(g, Ten):
			return g.a_guard(I)
		if isinstance(g, (LenFam, Family)):
			return g.a_guard(I)
		if isinstance(g, EqV):
			return opaque_fn(self, ('cmp', '=='), g.axes, [g.diff, ()], 'numpy', True)
		raise Unsupported('guard of a symbolic comprehension')
	def close(self, t, vars, guards):
		"""sum of t over the generic positions vars subject to guards"""
		body = t.body
		for g in guards:
			body = b_mul(self, body, g.body)
		body = tuple(refresh(self, u) for u in body)
		return Ten(self, t.axes, b_bind(body, [v for v in vars]), t.lib)
	def deep_sub(self, x, m):
		if isinstance(x, Ten):
			return Ten(self, x.axes, b_sub(self, x.body, m), x.lib, x.boolean)
		if isinstance(x, IdxV):
			return IdxV(self, ix_sub(x.ix, m), x.size)
		if isinstance(x, tuple):
			return tuple(self.deep_sub(y, m) for y in x)
		if isinstance(x, list):
			return [self.deep_sub(y, m) for y in x]
		if isinstance(x, Family):
			mm = {v: self.V.fresh(self.V.size[v]) for v in x.vars}
			m2 = {**m, **mm}
			return Family(self, mm.values(), [self.deep_sub(g, m2) for g in x.guards], self.deep_sub(x.value, m2))
		return x
	# ---- broadcasting
	def same(self, a, b):
		return a == b
	def broadcast(self, I, ts):
		n = max(len(t.axes) for t in ts)
		out = []
		for k in range(n):
			size = 1
			for t in ts:
				j = k - (n - len(t.axes))
				if j >= 0 and t.axes[j][1] != 1:
					s = t.axes[j][1]
					if size == 1:
						size = s
					elif size != s:
						raise PyRaise('ValueError', f'operands could not be broadcast together: lengths {show_size(size)} and {show_size(s)}')
			out.append((self.V.fresh(size), size))
		bodies = []
		for t in ts:
			m = {}
			for j, (v, s) in enumerate(t.axes):
				if s != 1:
					m[v] = out[j + n - len(t.axes)][0]
			bodies.append(b_sub(self, t.body, m))
		return out, bodies
	def lib_of(self, *ts):
		libs = [t.lib for t in ts if isinstance(t, Ten) and t.lib and t.axes]
		if 'torch' in libs:
			return 'torch'
		if 'jax' in libs:
			return 'jax'
		if libs:
			return libs[0]
		libs = [t.lib for t in ts if isinstance(t, Ten) and t.lib]
		return libs[0] if libs else None
	def add(self, I, a, b):
		return self.arith(I, '+', a, b)
	def arith(self, I, op, a, b):
		x, y = self.lift(a), self.lift(b)
		if op == '/' and isinstance(b, Dim) and x is not None:
			y = x
		if x is None or y is None:
			if isinstance(a, Obj) or isinstance(b, Obj):
				return NotImplemented
			return Top(f'array {op} {b if y is None else a}')
		lib = self.lib_of(x, y)
		if op in '+-':
			ax, (p, q) = self.broadcast(I, [x, y])
			return Ten(self, ax, p + b_scale(q, 1 if op == '+' else -1), lib)
		if op == '*':
			ax, (p, q) = self.broadcast(I, [x, y])
			return Ten(self, ax, b_mul(self, p, q), lib, x.boolean and y.boolean)
		if op == '&' and x.boolean and y.boolean:
			ax, (p, q) = self.broadcast(I, [x, y])
			return Ten(self, ax, b_mul(self, p, q), lib, True)
		if op == '/' and isinstance(b, Dim):
			return Ten(self, x.axes, tuple((c, f + ((('1/len', b.tok), ()),), bd) for c, f, bd in x.body), lib)
		if op == '/' and not isinstance(b, AV) and b:
			return Ten(self, x.axes, b_scale(x.body, Fraction(1) / Fraction(b)), lib)
		if op == '//' and isinstance(b, int) and b > 0:
			if b == 1:
				return x
			free = [v for v, s in x.axes if s != 1]
			if set().union(*[t_vars(t) - set(t[2]) for t in x.body] or [set()]) - set(free):
				return Top('floor division in a loop')
			used = set().union(*[t_vars(t) for t in x.body] or [set()])
			tm, pp = template(self, x.body, [v for v in free if v in used], [])
			return Ten(self, x.axes, ((ONE, ((('fdiv', b, tm), tuple(pp)),), ()),), lib)
		ax, bs = self.broadcast(I, [x, y])
		return opaque_fn(self, op, ax, bs, lib)
	# ---- indexing
	def expand_key(self, t, key):
		key = list(key) if isinstance(key, (tuple, list)) and not isinstance(key, list) else [key]
		n = sum(1 for k in key if k is not None and k is not ...)
		if any(k is ... for k in key):
			p = [i for i, k in enumerate(key) if k is ...]
			if len(p) > 1:
				raise PyRaise('IndexError', 'two ellipses')
			key[p[0]:p[0] + 1] = [slice(None)] * (len(t.axes) - n)
		else:
			key = key + [slice(None)] * (len(t.axes) - n)
		if sum(1 for k in key if k is not None) > len(t.axes):
			raise PyRaise('IndexError', 'too many indices for array')
		return key
	def position(self, k, size):
		if isinstance(k, bool):
			raise Unsupported('boolean index')
		if isinstance(k, int):
			return ('c', k)
		if isinstance(k, IdxV):
			if isinstance(k.ix, int) and k.size is not None and size is not None and k.size != size:
				raise PyRaise('IndexError', f'position along {show_size(k.size)} used on an axis of length {show_size(size)}')
			return k.ix
		return None
	def norm_key(self, t, key):
		"""index arrays in a key: constants become integers, lists of integers become literal arrays"""
		def one(k):
			if isinstance(k, EqV):
				raise Unsupported('boolean mask')
			if isinstance(k, list) and k and all(isinstance(x, int) and not isinstance(x, bool) for x in k):
				v = self.V.fresh(('const', len(k)))
				return Ten(self, [(v, ('const', len(k)))], ((ONE, ((('lit', tuple(k)), (v,)),), ()),), None)
			if isinstance(k, (list, Family)):
				raise Unsupported(f'index {k}')
			if isinstance(k, Ten) and not k.axes and not k.boolean and all(not f and not b for _, f, b in k.body):
				c = sum(c for c, _, _ in k.body)
				if c.denominator == 1:
					return int(c)
			if isinstance(k, Ten) and k.boolean:
				raise Unsupported('boolean mask')
			if isinstance(k, Ten) and not (len(k.body) == 1 and len(k.body[0][1]) == 1 and not k.body[0][2]):
				raise Unsupported('computed index array')
			return k
		return tuple(one(k) for k in key) if isinstance(key, tuple) else (one(key),)
	def index(self, I, t, key):
		key = self.norm_key(t, key)
		fancy = [k for k in key if isinstance(k, Ten)]
		if fancy and (len(fancy) > 1 or any(isinstance(k, (int, IdxV, IdxArr, NzIdx, Blades)) for k in key)):
			raise Unsupported('joint fancy indexing')
		key = self.expand_key(t, key)
		axes, m = [], {}
		j = 0
		takes, picks = [], []
		for k in key:
			if k is None:
				axes.append((self.V.fresh(1), 1))
				continue
			v, s = t.axes[j]
			j += 1
			if isinstance(k, slice) and k == slice(None):
				axes.append((v, s))
			elif isinstance(k, (slice, SliceV)):
				st, sp, step = (k.start, k.stop, k.step) if isinstance(k, slice) else (k.lo, k.up, k.st)
				tok = tuple(repr(x) for x in (st, sp, step))
				if s == 1:
					raise Unsupported('slice of a broadcast axis')
				ns = ('slice', s) + tok
				n = self.V.fresh(ns)
				m[v] = ('sl', tok, V(n))
				axes.append((n, ns))
			elif isinstance(k, (IdxArr, NzIdx, Blades)):
				takes.append((len(axes), k))
				axes.append((v, s))
			elif isinstance(k, PosV):
				(mv, ms), = k.ten.axes
				if ms != s:
					raise PyRaise('IndexError', f'position along {show_size(ms)} used on an axis of length {show_size(s)}')
				picks.append((v, b_sub(self, k.ten.body, {mv: v})))
			elif isinstance(k, Ten):
				if s == 1:
					raise Unsupported('fancy index of a broadcast axis')
				h, idx = k.body[0][1][0]
				ax = [(self.V.fresh(r), r) for _, r in k.axes]
				mm = {a: b for (a, _), (b, _) in zip(k.axes, ax)}
				m[v] = ('sl', ('fancy', h)) + tuple(V(mm[u]) if u in mm else ('at', u) for u in idx)
				axes += ax
			else:
				p = self.position(k, s)
				if p is None:
					return Top(f'array indexed by {k}')
				if s != 1:
					m[v] = p
		for v, mask in picks:
			t = Ten(self, [x for x in t.axes if x[0] != v], b_bind(b_mul(self, t.body, mask), [v]), t.lib, t.boolean)
		r = Ten(self, axes, b_sub(self, t.body, m) if m else t.body, t.lib, t.boolean)
		if len(takes) > 1:
			raise Unsupported('joint fancy indexing')
		for ax, k in takes:
			r = self.take(I, r, k, ax)
		if not takes:
			r.view = t
		return r
	def take(self, I, t, idx, axis):
		n = len(t.axes)
		if not isinstance(axis, int):
			raise Unsupported('take without axis')
		if not -n <= axis < n:
			raise PyRaise('AxisError', 'axis out of bounds')
		axis %= n
		v, s = t.axes[axis]
		if isinstance(idx, IdxV) or isinstance(idx, int):
			p = self.position(idx, s)
			return Ten(self, t.axes[:axis] + t.axes[axis + 1:], b_sub(self, t.body, {v: p}), t.lib, t.boolean)
		if isinstance(idx, Blades):
			have, want, missing = FULL, idx.tok, None
		elif isinstance(idx, IdxArr):
			have, want, missing = idx.have, idx.want, idx.missing
		elif isinstance(idx, NzIdx):
			sub = self.slice_sub(s[1] if isinstance(s, tuple) and s[0] == 'len' else None, idx)
			have, want, missing = s[1], sub.tok, None
		else:
			return Top(f'take of {idx}')
		base = s
		padded = isinstance(s, tuple) and s[0] == 'pad'
		if padded:
			base = s[1]
		if base != ('len', have):
			raise PyRaise('IndexError', f'positions within {show_tok(have)} used on an axis of length {show_size(base)}')
		if missing is not None:
			if not padded or not (isinstance(missing, Dim) and missing.tok == base):
				# absent blades read the entry at `missing`
				head = ('match or', repr(missing))
				nv = self.V.fresh(('len', want))
				nb = self.V.fresh(base)
				return Ten(self, t.axes[:axis] + [(nv, ('len', want))] + t.axes[axis + 1:], b_bind(b_mul(self, b_sub(self, t.body, {v: nb}), ((ONE, ((head + (have, want), (nb, nv)),), ()),)), [nb]), t.lib)
		elif padded:
			raise Unsupported('take from a padded axis')
		nv = self.V.fresh(('len', want))
		nb = self.V.fresh(base)
		body = b_mul(self, b_sub(self, t.body, {v: nb}), ((ONE, ((('match', have, want), (nb, nv)),), ()),))
		if missing is None and not self.inside(want, have):
			# absent blades raise instead
			self.partial_take.append((have, want))
		return Ten(self, t.axes[:axis] + [(nv, ('len', want))] + t.axes[axis + 1:], b_bind(body, [nb]), t.lib, t.boolean)
	partial_take = []
	def store(self, I, t, key, v):
		x = self.lift(v)
		if x is None:
			if isinstance(v, Top):
				t.body = ((ONE, ((('unknown', v.why, self.V.fresh(1)), ()),), ()),)
				I.imprecise.append(f'store of unknown {v.why}')
				return
			raise Unsupported(f'store of {v}')
		key = self.norm_key(t, key)
		if sum(isinstance(k, Ten) for k in key) > 1 or any(isinstance(k, Ten) for k in key) and any(isinstance(k, int) for k in key):
			raise Unsupported('joint fancy indexing')
		key = self.expand_key(t, key)
		if any(k is None for k in key):
			raise Unsupported('store with newaxis')
		loop = {}
		for b in I.generic_stack:
			if isinstance(b, Binder):
				for u in b.vars:
					loop[u] = b
			else:
				raise Unsupported('store inside a foreign loop')
		cond = ()
		used = []
		injective = set()
		sub = {}
		rest = []
		for k, (va, s) in zip(key, t.axes):
			if isinstance(k, slice) and k == slice(None):
				rest.append((va, s))
				continue
			if isinstance(k, (slice, SliceV)) and s != 1:
				tok = tuple(repr(x) for x in ((k.start, k.stop, k.step) if isinstance(k, slice) else (k.lo, k.up, k.st)))
				rest.append((('sl', ('unslice', tok), V(va)), ('slice', s) + tok))
				cond += ((('in slice', tok), (va,)),)
				continue
			if isinstance(k, Ten) and s != 1:
				h, idx = k.body[0][1][0]
				for q, (u, r) in enumerate(k.axes):
					rest.append((('sl', ('unfancy', h, idx.index(u) if u in idx else None), V(va)), r))
				cond += ((('in fancy', h), (va,)),)
				continue
			p = self.position(k, s)
			if p is None:
				raise Unsupported(f'store at {k}')
			if s == 1:
				continue
			if isinstance(p, int) and p in loop:
				used.append(p)
				sub[p] = va
			else:
				if isinstance(p, tuple) and p[0] == 'sl' and p[1][0] in ('rank', 'shift') and isinstance(p[-1], V):
					injective.add(p[-1].v)
				cond += ((('match', ('axis', s), ('axis', s)), (va, p)),)
		# value broadcast to the selected block
		if len(x.axes) > len(rest):
			raise PyRaise('ValueError', 'could not broadcast stored value')
		m = {}
		for (vx, sx), (va, sa) in zip(x.axes[::-1], rest[::-1]):
			if sx != 1:
				if sx != sa:
					raise PyRaise('ValueError', f'could not broadcast stored value of length {show_size(sx)} into {show_size(sa)}')
				m[vx] = va
		new = b_sub(self, x.body, m)
		extra = [u for u in loop if u not in used]
		guards = ()
		for b in {id(b): b for b in loop.values()}.values():
			for g in b.guards:
				guards = guards + (g.body,)
		gb = const_body(1)
		for g in guards:
			gb = b_mul(self, gb, g)
		if cond:
			gb = b_mul(self, gb, ((ONE, cond, ()),))
		if extra:
			if x.acc is not t and not (isinstance(v, Ten) and v.acc is t) and not set(extra) <= injective:
				raise Unsupported('store overwritten by later iterations')
			old = b_sub(self, t.body, {va: p for p, va in ()})
			inv = {va: p for p, va in sub.items()}
			cur = b_sub(self, t.body, inv)
			d = b_mul(self, new + b_scale(cur, -1), gb)
			d = tuple(refresh(self, u) for u in d)
			t.body = t.body + b_sub(self, b_bind(d, extra), sub)
			return
		inv = {va: p for p, va in sub.items()}
		cur = b_sub(self, t.body, inv)
		d = b_mul(self, new + b_scale(cur, -1), gb)
		t.body = t.body + b_sub(self, d, sub)
		names = {va: va for va, s in t.axes}

	# ---- library
	def ext_call(self, I, path, args, kw):
		f = self.ext.get(path)
		if f is not None:
			return f(I, args, kw)
		if path in ('einops.rearrange', 'einops.repeat'):
			return einops(path[7:], self, I, list(args), kw)
		for p, lib in self.LIBS.items():
			if path.startswith(p + '.'):
				name = path[len(p) + 1:]
				f = FUNCS.get(name)
				if f is None:
					return NotImplemented
				if lib == 'torch':
					for x in list(args) + list(kw.values()):
						if isinstance(x, Ten) and x.lib != 'torch' and name not in ('asarray', 'tensor', 'as_tensor', 'from_numpy') and (x.axes or x.lib):
							raise PyRaise('TypeError', f'torch.{name} of a {x.lib} array')
					if 'dim' in kw:
						kw = dict(kw)
						kw['axis'] = kw.pop('dim')
					if 'keepdim' in kw:
						kw = dict(kw)
						kw['keepdims'] = kw.pop('keepdim')
				r = f(self, I, list(args), dict(kw))
				if isinstance(r, Ten) and r.axes and lib != 'numpy':
					if r in args or any(r is x for x in args):
						if lib == 'jax' or r.lib == lib:
							if r.lib != lib:
								r = r.clone()
								r.lib = lib
						else:
							r = r.clone()
							r.lib = lib
					else:
						r.lib = lib
				return r
		return NotImplemented

	def convert(self, I, n, a, k):
		if n == 'list' and a and isinstance(a[0], Ten):
			return a[0].a_to_list(I)
		if n == 'list' and a and isinstance(a[0], Family):
			return a[0].a_to_list(I)
		return NotImplemented


# --------------------------------------------------------------------------
# library functions


FUNCS = {}
METHODS = {}


def lib(*names, method=True):
	def w(f):
		for n in names:
			FUNCS[n] = f
			if method:
				METHODS.setdefault(n.split('.')[-1], f)
		return f
	return w


def get(args, kw, k, *names, default=None):
	for n in names:
		if n in kw:
			return kw[n]
	return args[k] if k is not None and len(args) > k else default


def need(W, x, what):
	t = W.lift(x)
	if t is None:
		if isinstance(x, (list, tuple)) and not x:
			pass
		raise Unsupported(f'{what} of {x}')
	return t


def ax_list(I, ax, n):
	if ax is None:
		return list(range(n))
	if isinstance(ax, int):
		ax = [ax]
	out = []
	for a in I.iterate(ax):
		if not isinstance(a, int):
			raise Unsupported('symbolic axis')
		if not -n <= a < n:
			raise PyRaise('AxisError', f'axis {a} is out of bounds for array of dimension {n}')
		out.append(a % n)
	if len(set(out)) != len(out):
		raise PyRaise('ValueError', 'repeated axis')
	return out


def moveaxis(W, I, a, k):
	t = need(W, a[0], 'moveaxis')
	n = len(t.axes)
	src = ax_list(I, get(a, k, 1, 'source'), n)
	dst = ax_list(I, get(a, k, 2, 'destination'), n)
	if len(src) != len(dst):
		raise PyRaise('ValueError', 'moveaxis lengths differ')
	order = [i for i in range(n) if i not in src]
	for d, s in sorted(zip(dst, src)):
		order.insert(d, s)
	return Ten(W, [t.axes[i] for i in order], t.body, t.lib, t.boolean)


lib('moveaxis', 'movedim')(moveaxis)


@lib('swapaxes')
def _(W, I, a, k):
	t = need(W, a[0], 'swapaxes')
	n = len(t.axes)
	i, = ax_list(I, get(a, k, 1, 'axis1'), n)
	j, = ax_list(I, get(a, k, 2, 'axis2'), n)
	ax = list(t.axes)
	ax[i], ax[j] = ax[j], ax[i]
	return Ten(W, ax, t.body, t.lib, t.boolean)


@lib('transpose', 'permute')
def _(W, I, a, k):
	t = need(W, a[0], 'transpose')
	ax = get(a, k, 1, 'axes', 'dims')
	if t.lib == 'torch' and len(a) == 3 and all(isinstance(x, int) for x in a[1:]):
		return FUNCS['swapaxes'](W, I, a, {})
	if len(a) > 2:
		ax = a[1:]
	if ax is None:
		return Ten(W, t.axes[::-1], t.body, t.lib, t.boolean)
	p = ax_list(I, ax, len(t.axes))
	if len(p) != len(t.axes):
		raise PyRaise('ValueError', "axes don't match array")
	return Ten(W, [t.axes[i] for i in p], t.body, t.lib, t.boolean)


@lib('sum')
def _(W, I, a, k):
	if isinstance(a[0], (list, tuple)) or isinstance(a[0], Family):
		return I.call(I.builtin_env['sum'], [a[0]], {})
	t = need(W, a[0], 'sum')
	ax = ax_list(I, get(a, k, 1, 'axis', 'dim'), len(t.axes))
	keep = get(a, k, None, 'keepdims', 'keepdim', default=False)
	body = tuple(refresh(W, u) for u in t.body)
	bound = [t.axes[i][0] for i in ax if t.axes[i][1] != 1]
	m = {v: W.V.fresh(W.V.size[v]) for v in bound}
	body = b_bind(b_sub(W, body, m), list(m.values()))
	axes = []
	for i, x in enumerate(t.axes):
		if i not in ax:
			axes.append(x)
		elif keep:
			axes.append((W.V.fresh(1), 1))
	return Ten(W, axes, body, t.lib)


@lib('mean')
def _(W, I, a, k):
	t = need(W, a[0], 'mean')
	ax = ax_list(I, get(a, k, 1, 'axis', 'dim'), len(t.axes))
	s = FUNCS['sum'](W, I, a, k)
	fs = tuple((('1/len', t.axes[i][1]), ()) for i in ax if t.axes[i][1] != 1)
	return Ten(W, s.axes, tuple((c, f + fs, b) for c, f, b in s.body), t.lib)


@lib('any')
def _(W, I, a, k):
	if isinstance(a[0], EqV):
		d = canon(W, a[0].diff, {v: ('o', k) for k, (v, s) in enumerate(a[0].axes)})
		return True if not d else I.decide(('anyzero', repr(sorted(d.items(), key=repr))))
	t = need(W, a[0], 'any')
	ax = ax_list(I, get(a, k, 1, 'axis', 'dim'), len(t.axes))
	keep = get(a, k, None, 'keepdims', 'keepdim', default=False)
	vs = [t.axes[i][0] for i in ax if t.axes[i][1] != 1]
	body = t.body
	if t.boolean and len(body) == 1 and len(body[0][1]) == 1 and not body[0][2] and body[0][1][0][0][0] == 'nz':
		(h, idx) = body[0][1][0]
		anys = {}
		for c, fs, b in h[1]:
			for _, i in fs:
				for x in i:
					if isinstance(x, tuple) and x[0] == 'a':
						anys.setdefault(x[1], None)
		ab = {j: W.V.fresh(('any',)) for j in anys}
		inst = instantiate(W, h[1], idx, ab)
		f = nz_factor(W, inst, list(ab.values()) + vs)
	elif t.boolean and len(body) > 1:
		raise Unsupported('any of a combined mask')
	else:
		f = nz_factor(W, body, vs)
	axes = []
	for i, x in enumerate(t.axes):
		if i not in ax:
			axes.append(x)
		elif keep:
			axes.append((W.V.fresh(1), 1))
	return Ten(W, axes, ((ONE, (f,), ()),), t.lib, True)


@lib('all')
def _(W, I, a, k):
	if isinstance(a[0], EqV):
		if len(a) > 1 or k:
			return Top('all along axis')
		return a[0].all(I)
	if isinstance(a[0], bool):
		return a[0]
	t = need(W, a[0], 'all')
	ax = ax_list(I, get(a, k, 1, 'axis', 'dim'), len(t.axes))
	if len(ax) == len(t.axes) or get(a, k, None, 'keepdims', 'keepdim', default=False):
		return Top('all')
	vs = [t.axes[i][0] for i in ax if t.axes[i][1] != 1]
	body = t.body
	if t.boolean:
		if len(body) != 1 or len(body[0][1]) != 1 or body[0][2] or body[0][1][0][0][0] != 'nz':
			return Top('all')
		h, idx = body[0][1][0]
		if any(isinstance(x, tuple) and x[0] == 'a' for _, fs, _ in h[1] for _, i in fs for x in i):
			return Top('all')
		body = instantiate(W, h[1], idx)
	(h, tm), idx = nz_factor(W, body, vs)
	return Ten(W, [x for i, x in enumerate(t.axes) if i not in ax], ((ONE, ((('allnz', tm), idx),), ()),), t.lib, True)


@lib('allclose', 'array_equal', method=False)
def _(W, I, a, k):
	x, y = need(W, a[0], 'compare'), need(W, a[1], 'compare')
	ax, (p, q) = W.broadcast(I, [x, y])
	return EqV(W, p + b_scale(q, -1), ax).all(I)


@lib('take', 'index_select')
def _(W, I, a, k):
	t = need(W, a[0], 'take')
	return W.take(I, t, get(a, k, 1, 'indices', 'index'), get(a, k, 2, 'axis', 'dim'))


@lib('tensordot', method=False)
def _(W, I, a, k):
	x, y = need(W, a[0], 'tensordot'), need(W, a[1], 'tensordot')
	ax = get(a, k, 2, 'axes', 'dims', default=2)
	if isinstance(ax, int):
		p, q = list(range(len(x.axes) - ax, len(x.axes))), list(range(ax))
	else:
		p, q = list(I.iterate(ax))
		p, q = ax_list(I, p, len(x.axes)), ax_list(I, q, len(y.axes))
	if len(p) != len(q):
		raise PyRaise('ValueError', 'shape-mismatch for sum')
	bound, mx, my = [], {}, {}
	for i, j in zip(p, q):
		sx, sy = x.axes[i][1], y.axes[j][1]
		if sx != sy:
			raise PyRaise('ValueError', f'shape-mismatch for sum: {show_size(sx)} and {show_size(sy)}')
		if sx == 1:
			continue
		v = W.V.fresh(sx)
		bound.append(v)
		mx[x.axes[i][0]] = v
		my[y.axes[j][0]] = v
	ax_, ay = [], []
	for i, (v, s) in enumerate(x.axes):
		if i not in p:
			n = W.V.fresh(s)
			mx[v] = n
			ax_.append((n, s))
	for i, (v, s) in enumerate(y.axes):
		if i not in q:
			n = W.V.fresh(s)
			my[v] = n
			ay.append((n, s))
	body = b_bind(b_mul(W, b_sub(W, x.body, mx), b_sub(W, y.body, my)), bound)
	return Ten(W, ax_ + ay, body, W.lib_of(x, y))


@lib('multiply', 'mul', method=False)
def _(W, I, a, k):
	return W.arith(I, '*', a[0], a[1])


@lib('add', method=False)
def _(W, I, a, k):
	return W.arith(I, '+', a[0], a[1])


@lib('subtract', 'sub', method=False)
def _(W, I, a, k):
	return W.arith(I, '-', a[0], a[1])


@lib('negative', 'neg', method=False)
def _(W, I, a, k):
	return W.arith(I, '*', a[0], -1)


@lib('floor_divide', method=False)
def _(W, I, a, k):
	return W.arith(I, '//', a[0], a[1])


@lib('divide', 'true_divide', method=False)
def _(W, I, a, k):
	return W.arith(I, '/', a[0], a[1])


@lib('dot', 'matmul', 'outer', 'inner', 'kron')
def _(W, I, a, k):
	return Top('matrix product')


@lib('prod', 'cumsum', 'max', 'min', 'amax', 'amin', 'argmin', 'argmax', 'sort', 'argsort')
def _(W, I, a, k):
	return Top('reduction')


@lib('einsum', method=False)
def einsum(W, I, a, k):
	expr = a[0]
	if not isinstance(expr, str):
		raise Unsupported('einsum expression is not a constant')
	ops = list(a[1:])
	if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
		ops = list(ops[0])
	expr = expr.replace(' ', '')
	if '->' not in expr:
		ins = expr.split(',')
		letters = [c for s in ins for c in s.replace('...', '')]
		out = ('...' if '...' in expr else '') + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
	else:
		l, out = expr.split('->')
		ins = l.split(',')
	if len(ins) != len(ops):
		raise PyRaise('ValueError', f'einsum: {len(ins)} terms for {len(ops)} operands')
	ts = [need(W, x, 'einsum') for x in ops]
	sizes, letter = {}, {}
	batch = []
	parsed = []
	for s, t in zip(ins, ts):
		if '...' in s:
			pre, post = s.split('...')
			nb = len(t.axes) - len(pre) - len(post)
			if nb < 0:
				raise PyRaise('ValueError', f'einsum: operand has fewer axes than its subscripts {s!r}')
			labels = list(pre) + [('batch', nb - 1 - i) for i in range(nb)] + list(post)
		else:
			if len(s) != len(t.axes):
				raise PyRaise('ValueError', f'einsum: {len(t.axes)} axes for subscripts {s!r}')
			labels = list(s)
		parsed.append(labels)
		for l, (v, sz) in zip(labels, t.axes):
			if sizes.get(l, 1) == 1:
				sizes[l] = sz
			elif sz != 1 and sizes[l] != sz:
				raise PyRaise('ValueError', f'einsum: index {l} has lengths {show_size(sizes[l])} and {show_size(sz)}')
	nb = max([l[1] + 1 for l in sizes if isinstance(l, tuple)] or [0])
	if '...' in out:
		pre, post = out.split('...')
		olab = list(pre) + [('batch', nb - 1 - i) for i in range(nb)] + list(post)
	else:
		olab = list(out)
		if nb:
			raise PyRaise('ValueError', 'einsum: broadcast dimensions missing from the output')
	for l in olab:
		if l not in sizes:
			raise PyRaise('ValueError', f'einsum: output subscript {l} does not appear in an input')
	if len(set(olab)) != len(olab):
		raise PyRaise('ValueError', 'einsum: repeated output subscript')
	var = {l: W.V.fresh(s) for l, s in sizes.items()}
	body = const_body(1)
	for t, labels in zip(ts, parsed):
		m = {}
		extra = ()
		for l, (v, s) in zip(labels, t.axes):
			if s != 1:
				m[v] = var[l]
		body = b_mul(W, body, b_sub(W, t.body, m))
	body = b_bind(body, [var[l] for l in sizes if l not in olab and sizes[l] != 1])
	r = Ten(W, [(var[l], sizes[l]) for l in olab], body, W.lib_of(*ts))
	o = k.get('out')
	if isinstance(o, Ten):
		if len(o.axes) != len(r.axes) or any(x[1] != y[1] for x, y in zip(o.axes, r.axes)):
			raise PyRaise('ValueError', f'einsum: output operand of shape ({", ".join(show_size(s) for _, s in o.axes)}) for a result of shape ({", ".join(show_size(s) for _, s in r.axes)})')
		m = {v: w for (v, s), (w, _) in zip(r.axes, o.axes) if s != 1}
		o.body = b_sub(W, r.body, m)
		return o
	return r


def dims_of(I, shape):
	if isinstance(shape, (int, Dim, IdxV)):
		return [shape]
	return list(I.iterate(shape))


@lib('zeros', method=False)
def _(W, I, a, k):
	return W.fill(dims_of(I, get(a, k, 0, 'shape', 'size') if len(a) < 2 or not isinstance(a[1], (int, Dim)) else a), 0, 'numpy')


@lib('ones', method=False)
def _(W, I, a, k):
	return W.fill(dims_of(I, get(a, k, 0, 'shape', 'size')), 1, 'numpy')


@lib('full', method=False)
def _(W, I, a, k):
	c = get(a, k, 1, 'fill_value')
	if not isinstance(c, (int, float)):
		raise Unsupported('full of a symbolic value')
	return W.fill(dims_of(I, get(a, k, 0, 'shape', 'size')), c, 'numpy')


@lib('empty', method=False)
def _(W, I, a, k):
	t = W.fill(dims_of(I, get(a, k, 0, 'shape', 'size')), 0, 'numpy')
	h = ('uninitialised', W.V.fresh(1))
	t.body = ((ONE, ((h, tuple(v for v, s in t.axes if s != 1)),), ()),)
	return t


@lib('zeros_like', method=False)
def _(W, I, a, k):
	t = need(W, a[0], 'zeros_like')
	return Ten(W, [(W.V.fresh(s), s) for _, s in t.axes], (), t.lib)


@lib('ones_like', method=False)
def _(W, I, a, k):
	t = need(W, a[0], 'ones_like')
	return Ten(W, [(W.V.fresh(s), s) for _, s in t.axes], const_body(1), t.lib)


@lib('empty_like', method=False)
def _(W, I, a, k):
	t = need(W, a[0], 'empty_like')
	ax = [(W.V.fresh(s), s) for _, s in t.axes]
	return Ten(W, ax, ((ONE, ((('uninitialised', W.V.fresh(1)), tuple(v for v, s in ax if s != 1)),), ()),), t.lib)


@lib('identity', 'eye', method=False)
def _(W, I, a, k):
	d = a[0]
	if not isinstance(d, Dim):
		raise Unsupported('identity of constant size')
	if len(a) > 1 and isinstance(a[1], (Dim, int)) and not (isinstance(a[1], Dim) and a[1].tok == d.tok):
		raise Unsupported('rectangular identity')
	s = d.tok
	i, j = W.V.fresh(s), W.V.fresh(s)
	tok = s[1] if s[0] == 'len' else ('axis', s)
	return Ten(W, [(i, s), (j, s)], ((ONE, ((('match', tok, tok), (i, j)),), ()),), 'numpy')


@lib('pad', method=False)
def _(W, I, a, k):
	t = need(W, a[0], 'pad')
	spec = get(a, k, 1, 'pad_width')
	mode = get(a, k, 2, 'mode', default='constant')
	cv = k.get('constant_values', 0)
	cs = set()
	def flat(x):
		if isinstance(x, (list, tuple)):
			for y in x:
				flat(y)
		else:
			cs.add(x)
	flat(cv)
	if mode != 'constant' or cs != {0}:
		raise PyRaise('Modelled', 'padding with something other than zero') if False else Unsupported('padding with something other than zero')
	if isinstance(spec, int):
		pairs = [(spec, spec)] * len(t.axes)
	else:
		pairs = [x for x in I.iterate(spec)]
		if len(pairs) == 2 and all(isinstance(p, int) for p in pairs):
			pairs = [tuple(pairs)] * len(t.axes)
		pairs = [tuple(I.iterate(p)) for p in pairs]
		if len(pairs) == 1:
			pairs = pairs * len(t.axes)
	axes = []
	for (v, s), (lo, hi) in zip(t.axes, pairs):
		if (lo, hi) == (0, 0):
			axes.append((v, s))
		elif (lo, hi) == (0, 1) and s != 1:
			axes.append((v, ('pad', s)))
		else:
			raise Unsupported('padding')
	return Ten(W, axes, t.body, t.lib)


@lib('reshape', 'view')
def reshape(W, I, a, k):
	t = need(W, a[0], 'reshape')
	shape = get(a, k, 1, 'shape', 'newshape')
	if len(a) > 2 and all(isinstance(x, (int, Dim)) for x in a[1:]):
		shape = a[1:]
	dims = dims_of(I, shape)
	want = [d if isinstance(d, int) else W.size(d) for d in dims]
	have = [x for x in t.axes if x[1] != 1]
	if -1 not in want and all(not isinstance(s, tuple) or s[0] != 'opaque' for s in want):
		ws = [s for s in want if s != 1]
		if ws == [s for _, s in have]:
			it = iter(have)
			return Ten(W, [(W.V.fresh(1), 1) if s == 1 else next(it) for s in want], t.body, t.lib, t.boolean)
		if sorted(map(repr, ws)) == sorted(repr(s) for _, s in have):
			pass      # same lengths in another order: entries are reinterpreted
	if -1 in want:
		ws = [s for s in want if s not in (1, -1)]
		hs = [s for _, s in have]
		p = want.index(-1)
		nb = len([s for s in want[:p] if s != 1])
		na = len([s for s in want[p + 1:] if s != 1])
		if hs[:nb] == [s for s in want[:p] if s != 1] and (na == 0 or hs[len(hs) - na:] == [s for s in want[p + 1:] if s != 1]):
			mid = have[nb:len(have) - na]
			if len(mid) == 1:
				it = iter(have)
				return Ten(W, [(W.V.fresh(1), 1) if s == 1 else next(it) for s in want], t.body, t.lib, t.boolean)
			if len(mid) == 0:
				it = iter(have)
				return Ten(W, [(W.V.fresh(1), 1) if s in (1, -1) else next(it) for s in want], t.body, t.lib, t.boolean)
			# flattened group of axes
			size = ('flat',) + tuple(s for _, s in mid)
			n = W.V.fresh(size)
			m = {v: ('sl', ('unflat', size, q), V(n)) for q, (v, s) in enumerate(mid)}
			it = iter(have[:nb] + [(n, size)] + have[len(have) - na:])
			return Ten(W, [(W.V.fresh(1), 1) if s == 1 else next(it) for s in want], b_sub(W, t.body, m), t.lib, t.boolean)
	# the leading block is regrouped into an opaque shape, the trailing axes are kept
	na = 0
	while na < len(have) and na < len(want) and want[len(want) - 1 - na] == have[len(have) - 1 - na][1]:
		na += 1
	lead = have[:len(have) - na]
	new = want[:len(want) - na]
	if any(s == -1 for s in new):
		rest = ('rest', tuple(s for _, s in lead), tuple(new))
		new = [rest if s == -1 else s for s in new]
		want = new
	size = ('regroup', tuple(s for _, s in lead), tuple(new))
	ax = [(W.V.fresh(s), s) for s in new]
	flat = tuple(v for v, s in ax if s != 1)
	if not flat and lead:
		raise PyRaise('ValueError', 'cannot reshape')
	return Ten(W, ax + have[len(have) - na:], b_sub(W, t.body, {v: ('sl', size + (q,)) + tuple(V(x) for x in flat) for q, (v, s) in enumerate(lead)}), t.lib)


@lib('flatten', 'ravel')
def _(W, I, a, k):
	return reshape(W, I, [a[0], (-1,)], {})


@lib('expand_dims', 'unsqueeze')
def _(W, I, a, k):
	t = need(W, a[0], 'expand_dims')
	ax = get(a, k, 1, 'axis', 'dim')
	n = len(t.axes) + (1 if isinstance(ax, int) else len(ax))
	pos = sorted(ax_list(I, ax, n))
	axes = list(t.axes)
	for p in pos:
		axes.insert(p, (W.V.fresh(1), 1))
	return Ten(W, axes, t.body, t.lib, t.boolean)


@lib('squeeze')
def _(W, I, a, k):
	t = need(W, a[0], 'squeeze')
	ax = get(a, k, 1, 'axis', 'dim')
	if ax is None:
		raise Unsupported('squeeze of all axes')
	pos = ax_list(I, ax, len(t.axes))
	if any(t.axes[p][1] != 1 for p in pos):
		raise Unsupported('squeeze of a symbolic axis')
	return Ten(W, [x for i, x in enumerate(t.axes) if i not in pos], t.body, t.lib, t.boolean)


@lib('broadcast_to', 'expand')
def _(W, I, a, k):
	t = need(W, a[0], 'broadcast_to')
	z = W.fill(dims_of(I, get(a, k, 1, 'shape', 'size')), 0)
	ax, (p, q) = W.broadcast(I, [t, z])
	if len(ax) != len(z.axes):
		raise PyRaise('ValueError', 'broadcast_to')
	return Ten(W, ax, p, t.lib, t.boolean)


@lib('broadcast_shapes', method=False)
def _(W, I, a, k):
	zs = [W.fill(dims_of(I, s), 0) for s in a]
	if not zs:
		return ()
	ax, _ = W.broadcast(I, zs)
	return tuple(W.dim(s) for _, s in ax)


@lib('flatnonzero')
def _(W, I, a, k):
	t = W.as_bool(need(W, a[0], 'flatnonzero'))
	return NzIdx(W, t)


@lib('nonzero')
def _(W, I, a, k):
	t = W.as_bool(need(W, a[0], 'nonzero'))
	if len(t.axes) != 1:
		raise Unsupported('nonzero of a matrix')
	return (NzIdx(W, t),)


@lib('where', method=False)
def _(W, I, a, k):
	if len(a) == 1:
		return FUNCS['nonzero'](W, I, a, k)
	c, x, y = [need(W, v, 'where') for v in a]
	if not c.boolean:
		return Top('where')
	ax, (p, q, r) = W.broadcast(I, [c, x, y])
	return Ten(W, ax, b_mul(W, p, q) + r + b_scale(b_mul(W, p, r), -1), W.lib_of(x, y))


@lib('asarray', 'array', 'ascontiguousarray', 'asfortranarray', 'tensor', 'as_tensor', 'from_numpy', method=False)
def _(W, I, a, k):
	x = a[0]
	if isinstance(x, Blades):
		return x
	t = W.lift(x)
	if t is None:
		if isinstance(x, (slice, SliceV)) or x is None or x is ...:
			raise PyRaise('RuntimeError', 'not convertible to an array')
		if isinstance(x, (IdxV, IdxArr, NzIdx)):
			return x
		if isinstance(x, tuple) and any(not isinstance(y, int) for y in x):
			raise PyRaise('RuntimeError', 'not convertible to an array')
		if isinstance(x, tuple) and len(x) > 1:
			return W.norm_key(None, list(x))[0]
		if isinstance(x, list) and len(x) == 1 and W.lift(x[0]) is not None:
			y = W.lift(x[0])
			return Ten(W, [(W.V.fresh(1), 1)] + y.axes, y.body, 'numpy')
		if isinstance(x, list) and len(x) > 1 and all(isinstance(y, int) and not isinstance(y, bool) for y in x):
			return W.norm_key(None, x)[0]
		raise Unsupported(f'array of {x}')
	if t.lib is None or t is not x:
		t = Ten(W, t.axes, t.body, 'numpy', t.boolean)
	return t


@lib('astype', 'type')
def _(W, I, a, k):
	x = need(W, a[0], 'astype')
	d = get(a, k, 1, 'dtype', default=None)
	if isinstance(d, DType) and any(t[0].denominator != 1 for t in x.body) and not I.decide(('dtype', 'is', '<numpy.floating>')):
		return elementwise(W, I, 'trunc', x)		# an integer type drops the fraction
	return x.clone()


@lib('copy', 'clone', 'contiguous', 'to', 'float', 'numpy', 'detach', 'cpu', 'view_as', 'item')
def _(W, I, a, k):
	return need(W, a[0], 'copy').clone()


@lib('issubdtype', method=False)
def _(W, I, a, k):
	if isinstance(a[0], DType):
		return I.decide(('dtype', 'is', str(a[1])))
	return Top('issubdtype')


for _n in ('abs', 'sqrt', 'exp', 'log', 'cos', 'sin', 'conj', 'real', 'sign', 'isnan'):
	def _el(name):
		return lambda W, I, a, k: elementwise(W, I, name, a[0])
	FUNCS[_n] = _el(_n)
	METHODS.setdefault(_n, FUNCS[_n])
FUNCS['absolute'] = FUNCS['abs']


@lib('nan_to_num', method=False)
def _(W, I, a, k):
	x = get(a, k, 1, 'nan', default=0)
	return elementwise(W, I, ('nan_to_num',), a[0], x)


@lib('concatenate', 'cat', 'concat', method=False)
def _(W, I, a, k):
	xs = [need(W, x, 'concatenate') for x in I.iterate(a[0])]
	ax = get(a, k, 1, 'axis', 'dim', default=0)
	n = len(xs[0].axes)
	ax, = ax_list(I, ax, n)
	if any(len(x.axes) != n for x in xs):
		raise PyRaise('ValueError', 'concatenate of different ranks')
	for j in range(n):
		if j != ax and len({x.axes[j][1] for x in xs}) > 1:
			raise PyRaise('ValueError', 'concatenate: other axes differ')
	size = ('cat',) + tuple(x.axes[ax][1] for x in xs)
	axes = [(W.V.fresh(xs[0].axes[j][1]), xs[0].axes[j][1]) if j != ax else (W.V.fresh(size), size) for j in range(n)]
	body = ()
	for q, x in enumerate(xs):
		m = {}
		for j in range(n):
			v, s = x.axes[j]
			if j == ax:
				m[v] = ('sl', ('part', size, q), V(axes[ax][0]))
			elif s != 1:
				m[v] = axes[j][0]
		f = (('in part', size, q), (axes[ax][0],))
		body += b_mul(W, b_sub(W, x.body, m), ((ONE, (f,), ()),))
	return Ten(W, axes, body, W.lib_of(*xs))


@lib('stack', method=False)
def _(W, I, a, k):
	raise Unsupported('stack')


@lib('take_along_axis', 'take_along_dim', method=False)
def _(W, I, a, k):
	t, x = need(W, a[0], 'take_along_axis'), need(W, get(a, k, 1, 'indices'), 'take_along_axis')
	ax = get(a, k, 2, 'axis', 'dim')
	ax, = ax_list(I, ax, len(t.axes))
	if len(t.axes) != len(x.axes):
		raise PyRaise('ValueError', '`indices` and `arr` must have the same number of dimensions')
	if not (len(x.body) == 1 and len(x.body[0][1]) == 1 and not x.body[0][2]):
		raise Unsupported('computed index array')
	h, idx = x.body[0][1][0]
	axes = []
	m = {}
	vs = {}
	for j, ((v, s), (u, r)) in enumerate(zip(t.axes, x.axes)):
		if j == ax:
			n = W.V.fresh(r)
			axes.append((n, r))
			vs[u] = n
		else:
			size = r if s == 1 else s
			if s != 1 and r != 1 and s != r:
				raise PyRaise('ValueError', 'take_along_axis: shapes')
			n = W.V.fresh(size)
			axes.append((n, size))
			if s != 1:
				m[v] = n
			vs[u] = n
	# position along the axis is the value of the index array at the same batch position
	sel = ('along', h)
	m[t.axes[ax][0]] = ('sl', sel) + tuple(V(vs[u]) if u in vs else ('at', u) for u in idx)
	return Ten(W, axes, b_sub(W, t.body, m), t.lib)


@lib('linalg.solve', method=False)
def _(W, I, a, k):
	if len(a) != 2 or k:
		return Top('solve')
	m, b = need(W, a[0], 'solve'), need(W, a[1], 'solve')
	if len(b.axes) != len(m.axes) - 1 or len(m.axes) < 2:
		return Top('solve for a matrix')
	if m.axes[-1][1] != m.axes[-2][1]:
		raise PyRaise('LinAlgError', f'matrix of shape ({show_size(m.axes[-2][1])}, {show_size(m.axes[-1][1])}) is not square')
	if b.axes[-1][1] != m.axes[-2][1]:
		raise PyRaise('ValueError', f'right hand side of length {show_size(b.axes[-1][1])} for a matrix of {show_size(m.axes[-2][1])} rows')
	W.solved = getattr(W, 'solved', []) + [(m, b)]
	return W.atom(('solution', len(W.solved)), [x for _, x in b.axes], m.lib)


def einops_axes(side):
	if '(' in side:
		raise Unsupported('einops pattern')
	out = side.split()
	if any(not (x.isidentifier() or x in ('...', '1')) for x in out):
		raise Unsupported('einops pattern')
	return out


def einops(name, W, I, a, k):
	k = dict(k)
	t = need(W, a[0] if a else k.pop('tensor'), name)
	pat = a[1] if len(a) > 1 else k.pop('pattern', None)
	if not isinstance(pat, str) or pat.count('->') != 1:
		raise Unsupported('einops pattern')
	l, r = (einops_axes(x) for x in pat.split('->'))
	n = len(t.axes)
	if '...' in l:
		i = l.index('...')
		rest = [f'...{j}' for j in range(n - len(l) + 1)]
		l[i:i + 1] = rest
		if '...' not in r:
			raise PyRaise('EinopsError', 'ellipsis on one side only')
		i = r.index('...')
		r[i:i + 1] = rest
	if len(l) != n or '1' in l:
		raise PyRaise('EinopsError', f'pattern {pat} for an array of {n} axes')
	if len(set(l)) != n or set(l) - set(r):
		raise PyRaise('EinopsError', f'pattern {pat}')
	at = dict(zip(l, t.axes))
	axes = []
	for x in r:
		if x == '1':
			axes.append((W.V.fresh(1), 1))
		elif x in at:
			axes.append(at[x])
		elif name == 'repeat' and x in k:
			s = W.size(k[x])
			axes.append((W.V.fresh(s), s))
		else:
			raise PyRaise('EinopsError', f'unknown axis {x}')
	return Ten(W, axes, t.body, t.lib, t.boolean)


@lib('linalg.inv', 'linalg.pinv', method=False)
def _(W, I, a, k):
	t = need(W, a[0], 'inv')
	if len(a) != 1:
		return Top('linalg')
	if not (len(t.body) == 1 and len(t.body[0][1]) == 1 and not t.body[0][2] and t.body[0][0] == 1) or len(t.axes) < 2:
		raise Unsupported('inverse of a computed matrix')
	h, idx = t.body[0][1][0]
	r, c = t.axes[-2][0], t.axes[-1][0]
	if idx[-2:] == (r, c):
		h2, i2 = ('inv', h), idx[:-2] + (c, r)
	elif idx[-2:] == (c, r):
		h2, i2 = ('inv', h), idx[:-2] + (r, c)
	else:
		raise Unsupported('inverse of a permuted matrix')
	# inv(M)[c, r]: rows of the inverse are columns of the matrix
	nr, nc = W.V.fresh(t.axes[-1][1]), W.V.fresh(t.axes[-2][1])
	m = {c: nr, r: nc}
	return Ten(W, t.axes[:-2] + [(nr, t.axes[-1][1]), (nc, t.axes[-2][1])], ((ONE, ((h2, tuple(ix_sub(x, m) for x in i2)),), ()),), t.lib)


@lib('count_nonzero', method=False)
def _(W, I, a, k):
	return Top('count_nonzero')


@lib('arange', method=False)
def _(W, I, a, k):
	if len(a) == 1 and isinstance(a[0], Dim):
		s = W.size(a[0])
		v = W.V.fresh(s)
		return Ten(W, [(v, s)], ((ONE, ((('pos', s), (v,)),), ()),), None)
	return Top('arange')


@lib('indices', method=False)
def _(W, I, a, k):
	return Top('indices')


@lib('isscalar', 'result_type', 'iscomplexobj', 'shares_memory', method=False)
def _(W, I, a, k):
	return Top('array query')
