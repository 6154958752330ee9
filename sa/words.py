"""Word domain: multilinear expressions in normal form.

A value is a linear combination (exact rationals) of noncommutative words in the
geometric product.  Reversion and grade involution are flags on the factors
(anti-automorphism / automorphism, pushed through products and grade selected
products), other elementary operators are opaque linear functions, scalars
commute and inverses cancel.  Two expressions with the same normal form are the
same multilinear map in every algebra."""
import operator
from fractions import Fraction

from .core import *
from .terms import ELEM, NOT_IN

SCALAR = ('name', 'scalar', ())
DISTR = {'wedge', 'inner', 'lcn', 'rcn'}           # involute distributes, reverse distributes with swap
SWAP2 = {'wedge': 'wedge', 'inner': 'inner', 'lcn': 'rcn', 'rcn': 'lcn'}
DIAG = {'sneg', 'pneg', 'gsel', 'sel', 'ipar', 'fsgn'}       # grade-diagonal, commute with reverse/involute
UNDO = {('rhi', 'rh'), ('rh', 'rhi'), ('lhi', 'lh'), ('lh', 'lhi')}


def is_scalar_node(n):
	k = n[0]
	if k == 'f':
		return n[1] == 'sp' or n[1] in ('sel', 'gsel') and n[3] == (SCALAR,)
	if k in ('inv', 'pow', 'fn', 'd', 'psign'):
		return n[-1] is True
	if k in ('a', 's'):
		return n[2] == SCALAR
	if k == 't':
		return n[1] == SCALAR
	return False


def nkey(e):
	return frozenset(e.t.items())


class Expr:
	__slots__ = ('t',)
	def __init__(self, t=None):
		self.t = {k: v for k, v in (t or {}).items() if v != 0}
	def __eq__(self, o):
		return isinstance(o, Expr) and self.t == o.t
	def __hash__(self):
		return hash(nkey(self))
	def __repr__(self):
		return show(self)
	def __add__(self, o):
		d = dict(self.t)
		for k, v in o.t.items():
			d[k] = d.get(k, 0) + v
		return Expr(d)
	def scale(self, c):
		return Expr({k: v * c for k, v in self.t.items()})
	def __neg__(self):
		return self.scale(-1)
	def __sub__(self, o):
		return self + (-o)
	def __mul__(self, o):
		d = {}
		for a, x in self.t.items():
			for b, y in o.t.items():
				for w, c in normw(a + b).items():
					d[w] = d.get(w, 0) + x * y * c
		return Expr(d)
	def flag(self, r, i):
		d = {}
		for w, x in self.t.items():
			fs = [flagf(f, r, i) for f in (reversed(w) if r else w)]
			e = Expr({(): x})
			for f in fs:
				e = e * f
			for k, v in e.t.items():
				d[k] = d.get(k, 0) + v
		return Expr(d)
	def rev(self):
		return self.flag(True, False)
	def inv_(self):
		return self.flag(False, True)
	def conj(self):
		return self.flag(True, True)
	def is_one(self):
		return self.t == {(): 1}


def const(c):
	return Expr({(): Fraction(c)})


def factor(n, r=False, i=False):
	if is_scalar_node(n):
		r = i = False
	return Expr({((n, r, i),): Fraction(1)})


def atom(name, tok=None):
	return factor(('a', name, tok if tok is not None else ('in', name)))


def flagf(f, r, i):
	n, fr, fi = f
	r2, i2 = fr ^ r, fi ^ i
	if is_scalar_node(n):
		return factor(n)
	if n[0] == 'f' and n[1] in DISTR and (r or i):
		a, b = (unkeyE(k).flag(r, i) for k in n[2])
		e = func(SWAP2[n[1]] if r else n[1], [b, a] if r else [a, b], n[3])
		return e
	if n[0] == 'f' and n[1] in DIAG and (r or i):
		return func(n[1], [unkeyE(n[2][0]).flag(r, i)], n[3])
	if n[0] == 'inv' and (r or i):
		return inverse(unkeyE(n[1]).flag(r, i))
	return factor(n, r2, i2)


def unkeyE(k):
	return Expr(dict(k))


def func(name, args, extra=()):
	"""multilinear opaque function of expressions"""
	d = {(): Fraction(1)}
	out = {}
	def rec(i, ws, c):
		if i == len(args):
			e = func1(name, ws, extra).scale(c)
			for k, v in e.t.items():
				out[k] = out.get(k, 0) + v
			return
		for w, x in args[i].t.items():
			rec(i + 1, ws + [w], c * x)
	rec(0, [], Fraction(1))
	return Expr(out)


def split_scalars(w):
	s = tuple(f for f in w if is_scalar_node(f[0]))
	r = tuple(f for f in w if not is_scalar_node(f[0]))
	return s, r


def func1(name, ws, extra):
	sc = ()
	rest = []
	for w in ws:
		s, r = split_scalars(w)
		sc += s
		rest.append(r)
	pre = Expr({normtuple(sc): Fraction(1)}) if sc else const(1)
	if name == 'sp':
		rest = sorted(rest, key=repr)
	if len(rest) == 1:
		r = rest[0]
		if len(r) == 1 and r[0][0][0] == 'f' and not r[0][1] and not r[0][2]:
			inner = r[0][0]
			if (name, inner[1]) in UNDO:
				return pre * unkeyE(inner[2][0])
			if name == inner[1] and name in ('sneg', 'pneg'):
				return pre * unkeyE(inner[2][0])
			if name in ('sneg', 'pneg') and inner[1] in ('sneg', 'pneg') and name < inner[1]:
				return pre * func(inner[1], [func(name, [unkeyE(inner[2][0])])])
			if name == inner[1] == 'sel':
				ext = tuple(sorted(set(extra) | set(inner[3]), key=repr))
				return pre * factor(('f', 'sel', inner[2], ext))
			if name == inner[1] == 'gsel' and extra == inner[3]:
				return pre * factor(inner)
			if name == inner[1] == 'ipar' and extra == inner[3]:
				return pre * unkeyE(inner[2][0])
		if name in ('sneg', 'ipar') and r == ():
			return pre
		if name == 'ipar':
			e = distribute_ipar(r, extra)
			if e is not None:
				return pre * e
	return pre * factor(('f', name, tuple(frozenset({(r, Fraction(1))}) for r in rest), extra))


def distribute_ipar(w, extra):
	"""(-1)**(grade parity * par T) is an automorphism: push it onto the factors"""
	m, = extra
	pars = [x for x in m if x != ('self',)]
	if ('self',) not in m or len(pars) != 1 or pars[0][0] != 'par':
		return None
	T = pars[0][1]
	if len(w) == 1:
		n, r, i = w[0]
		if n[0] in ('a', 's') and n[2] == T or n[0] == 't' and n[1] == T:
			return Expr({(w[0],): Fraction(1)}) * factor(('psign', T, True))
		if n[0] == 'f' and n[1] in ('gsel', 'sel') and not r and not i:
			return func(n[1], [func('ipar', [unkeyE(n[2][0])], extra)], n[3])
		if n[0] == 'f' and n[1] == 'ipar' and n[3] == extra and not r and not i:
			return unkeyE(n[2][0])
		return None
	e = const(1)
	for f in w:
		e = e * func('ipar', [Expr({(f,): Fraction(1)})], extra)
	return e


def normtuple(w):
	s, r = split_scalars(w)
	ps = [f for f in s if f[0][0] == 'psign']
	if ps:          # signs square to one
		s = [f for f in s if f[0][0] != 'psign'] + [f for f in set(ps) if ps.count(f) % 2]
	return tuple(sorted(s, key=repr)) + r


def find_sub(hay, needle):
	n = len(needle)
	for i in range(len(hay) - n + 1):
		if hay[i:i + n] == needle:
			return i
	return -1


def normw(w):
	"""{word: coefficient} after moving scalars to the front and cancelling inverses"""
	w = normtuple(w)
	c = Fraction(1)
	again = True
	while again:
		again = False
		for p, f in enumerate(w):
			n = f[0]
			if n[0] != 'inv' or f[1] or f[2]:
				continue
			t = dict(n[1])
			if len(t) != 1:
				continue
			(k, x), = t.items()
			ks, kr = split_scalars(k)
			rest = w[:p] + w[p + 1:]
			rs, rr = split_scalars(rest)
			ok = True
			left = list(rs)
			for g in ks:
				if g in left:
					left.remove(g)
				else:
					ok = False
			if not ok:
				continue
			if n[-1] is True:
				i = find_sub(rr, kr)
				if i < 0:
					continue
				new = tuple(left) + rr[:i] + rr[i + len(kr):]
			else:
				q = p - len([g for g in w[:p] if is_scalar_node(g[0])])
				if kr and rr[q:q + len(kr)] == kr:
					new = tuple(left) + rr[:q] + rr[q + len(kr):]
				elif kr and q >= len(kr) and rr[q - len(kr):q] == kr:
					new = tuple(left) + rr[:q - len(kr)] + rr[q:]
				else:
					continue
			c = c / x
			w = normtuple(new)
			again = True
			break
	return {w: c}


def lead(e):
	return min(e.t, key=repr)


def scalar_expr(e):
	return all(all(is_scalar_node(f[0]) for f in w) for w in e.t)


def inverse(e, scalar=False):
	if not e.t:
		return factor(('inv', frozenset(), scalar))
	scalar = scalar or scalar_expr(e)
	if len(e.t) == 1:
		(w, x), = e.t.items()
		if w == ():
			return const(1 / x)
		if len(w) == 1 and not w[0][1] and not w[0][2]:
			n = w[0][0]
			if n[0] == 'inv':
				return unkeyE(n[1]).scale(1 / x)
			if n[0] == 'pow':
				return power(unkeyE(n[1]), -n[2], n[3]).scale(1 / x)
		return factor(('inv', nkey(e.scale(1 / x)), scalar)).scale(1 / x)
	x = e.t[lead(e)]
	return factor(('inv', nkey(e.scale(1 / x)), scalar)).scale(1 / x)


def power(e, p, scalar=False):
	p = Fraction(p).limit_denominator(1 << 20)
	scalar = scalar or scalar_expr(e)
	if p == 1:
		return e
	if p == -1:
		return inverse(e, scalar)
	if p == 0:
		return const(1)
	if p.denominator == 1 and 1 < p <= 8 and scalar:
		r = e
		for _ in range(int(p) - 1):
			r = r * e
		return r
	return factor(('pow', nkey(e), p, scalar))


def subst(e, f):
	"""replace leaf nodes n (kinds s/a/t) by expression f(n) or keep (None)"""
	out = Expr()
	for w, c in e.t.items():
		p = const(c)
		for n, r, i in w:
			p = p * substn(n, f).flag(r, i)
		out = out + p
	return out


def substn(n, f):
	k = n[0]
	if k in ('s', 'a', 't'):
		x = f(n)
		return factor(n) if x is None else x
	if k == 'f':
		return func(n[1], [subst(unkeyE(a), f) for a in n[2]], n[3])
	if k == 'inv':
		return inverse(subst(unkeyE(n[1]), f), n[2])
	if k == 'pow':
		return power(subst(unkeyE(n[1]), f), n[2], n[3])
	if k == 'fn':
		return factor(('fn', n[1], tuple(nkey(subst(unkeyE(a), f)) for a in n[2]), n[3], n[4]))
	if k == 'psign':
		return factor(n)
	if k == 'd':
		return factor(('d', n[1], tuple(nkey(subst(unkeyE(a), f)) for a in n[2]), n[3]))
	return factor(n)


def leaves(e, kinds=('s', 'a', 't')):
	out = []
	def rec(e):
		for w in e.t:
			for n, r, i in w:
				if n[0] in kinds:
					out.append(n)
				elif n[0] in ('f', 'fn', 'd'):
					for a in n[2]:
						rec(unkeyE(a))
				elif n[0] in ('inv', 'pow'):
					rec(unkeyE(n[1]))
	rec(e)
	return out


def show(e):
	def sn(n):
		if n[0] == 'a':
			return str(n[1])
		if n[0] == 's':
			return f'${n[1]}'
		if n[0] == 't':
			return f'<{showtok(n[1])}>'
		if n[0] == 'f':
			ex = ('[' + ','.join(showtok(x) for x in n[3]) + ']') if n[3] else ''
			return f'{n[1]}{ex}(' + ', '.join(show(unkeyE(a)) for a in n[2]) + ')'
		if n[0] == 'inv':
			return f'inv({show(unkeyE(n[1]))})'
		if n[0] == 'pow':
			return f'({show(unkeyE(n[1]))})**{n[2]}'
		if n[0] == 'fn':
			return f'{n[1]}(' + ', '.join([show(unkeyE(a)) for a in n[2]] + [str(x) for x in n[3]]) + ')'
		if n[0] == 'd':
			return f'{n[1]}(' + ', '.join(show(unkeyE(a)) for a in n[2]) + ')'
		return str(n)
	def sf(f):
		return ('~' if f[1] else '') + ('^' if f[2] else '') + sn(f[0])
	out = []
	for w in sorted(e.t, key=repr):
		c = e.t[w]
		s = ' '.join(sf(f) for f in w)
		out.append((f'{c} ' if c != 1 or not w else '') + s)
	return ' + '.join(out) or '0'


def showtok(t):
	if isinstance(t, tuple) and t:
		if t[0] == 'in':
			return str(t[1])
		if t[0] == 'name':
			return t[1] + (str(t[2]) if t[2] else '')
		if t[0] == 'out':
			return f'space({show(unkeyE(t[1]))})'
		if t[0] in ('u', 'n'):
			return {'u': '|', 'n': '&'}[t[0]].join(sorted(showtok(x) for x in t[1]))
		if t[0] == 'dispatch':
			return f'space({show(unkeyE(t[2]))})'
		return t[0] + '(' + ', '.join(showtok(x) for x in t[1:]) + ')'
	return str(t)


def tokexpr(tok):
	return unkeyE(tok[1]) if tok[0] == 'out' else factor(('t', tok))


def tokkey(e):
	"""expression with every leaf replaced by the subspace it lives in"""
	return nkey(subst(e, lambda n: tokexpr(n[2]) if n[0] in ('s', 'a') else None))


def strip_diag(e):
	"""grade-diagonal operators and nonzero factors do not change the subspace"""
	while len(e.t) == 1:
		(w, c), = e.t.items()
		sc, r = split_scalars(w)
		if len(r) != 1 or sc:
			break
		n = r[0][0]
		if n[0] == 'f' and n[1] in ('sneg', 'pneg', 'ipar'):
			e = unkeyE(n[2][0])
			continue
		return factor(n)
	return e


def leaf_tok(e):
	"""subspace token of the space an expression lives in"""
	if len(e.t) == 1:
		(w, c), = e.t.items()
		if len(w) == 1 and not w[0][1] and not w[0][2] and w[0][0][0] == 't':
			return w[0][0][1]
	return None


# --------------------------------------------------------------------------
# abstract values

class SymB(AV):
	"""symbolic truth value"""
	is_boolean = True
	def __init__(self, key, neg=False):
		self.key, self.neg = key, neg
	def __repr__(self):
		return ('not ' if self.neg else '') + showcond(self.key)
	def a_key(self):
		return ('SymB', self.key, self.neg)
	def a_bool(self, I):
		return I.decide(self.key) ^ self.neg
	def a_not(self, I):
		return SymB(self.key, not self.neg)
	def a_binop(self, I, op, o, refl):
		if op in '&|' and isinstance(o, (SymB, bool)):
			a = self.a_bool(I)
			b = o if isinstance(o, bool) else o.a_bool(I)
			return a and b if op == '&' else a or b
		return NotImplemented
	def a_cmp(self, I, op, o, refl):
		if isinstance(o, bool) and op in ('==', 'is'):
			return self if o else SymB(self.key, not self.neg)
		return NotImplemented


def showcond(k):
	if k[0] == 'eq':
		return ' == '.join(sorted(showtok(x) for x in k[1]))
	if k[0] == 'eqlen':
		return ' as long as '.join(sorted(showtok(x) for x in k[1]))
	if k[0] == 'inside':
		return f'{showtok(k[1])} in {showtok(k[2])}'
	if k[0] == 'nsimple':
		return f'{showtok(k[1])} is {k[2]}-simple'
	return str(k)


GRADES = tuple(range(10))
GRADE_OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod, '&': operator.and_,
	'|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift, '**': operator.pow}
GRADE_CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


class GSet(AV):
	"""set / array of the grades of a subspace; parity polynomial mod 2"""
	def __init__(self, tok, poly=None, number=False, table=None):
		self.tok, self.number = tok, number
		self.table = GRADES if poly is None else table     # the value at every grade, when a function of the grade alone
		self.poly = poly if poly is not None else frozenset({frozenset({('g', tok)})})
		self.plain = poly is None
	def elementwise(self, f):
		"""function of the grade alone"""
		if self.table is None or self.number:
			return None
		try:
			t = tuple(int(f(x)) for x in self.table)
		except (ValueError, TypeError, ZeroDivisionError, OverflowError):
			return None
		m = tuple(x % 2 for x in t)
		one = frozenset()
		for flip in (0, 1):
			c = frozenset({one}) if flip else frozenset()
			if m == (flip,) * len(m):
				return GSet(self.tok, c, False, t)
			if m == tuple((x + flip) % 2 for x in GRADES):
				return GSet(self.tok, c ^ {frozenset({('g', self.tok)})}, False, t)
		return GSet(self.tok, frozenset({frozenset({('fn', self.tok, m)})}), False, t)
	def __repr__(self):
		return f'grades({showtok(self.tok)})'
	def a_key(self):
		return ('GSet', self.tok, self.poly, self.number)
	def _poly(self, o):
		if isinstance(o, GSet):
			return o.poly
		if isinstance(o, int) and not isinstance(o, bool):
			return frozenset({frozenset()}) if o % 2 else frozenset()
		return None
	def _mk(self, p, o):
		arr = [x for x in (self, o) if isinstance(x, GSet) and not x.number]
		toks = {x.tok for x in arr}
		if len(toks) > 1:
			return Top('mixed grade arrays')
		r = GSet(arr[0].tok if arr else self.tok, p, not arr)
		return r
	def a_binop(self, I, op, o, refl):
		if type(o) is int and op in GRADE_OPS and not (op == '**' and (refl or o < 0)):
			r = self.elementwise(lambda x: GRADE_OPS[op](o, x) if refl else GRADE_OPS[op](x, o))
			if r is not None:
				return r
		p = self._poly(o)
		if op == '%' and not refl and o == 2:
			r = GSet(self.tok, self.poly, self.number)
			r.plain = False
			return r
		if p is None:
			return NotImplemented
		if op in '+-':
			return self._mk(self.poly ^ p, o)
		if op == '*' or op == '&' and o == 1:
			return self._mk(pmul(self.poly, p), o)
		if op == '**' and refl and o == -1:
			return SignArr(self.tok, self.poly, self.number)
		return NotImplemented
	def a_getattr(self, I, name):
		if name == 'astype':
			return HostFn(lambda I2, a, k: self, 'astype')
		return Top(f'grades.{name}')
	def a_bool(self, I):
		if self.number and len(self.poly) == 1:
			m, = self.poly
			if len(m) == 1:
				(kind, tok), = m
				if kind == 'par':
					return I.decide(('parity', tok))
		return I.decide(('truth', self))
	def a_getitem(self, I, key):
		if key == 0:
			return GSet(self.tok, self.poly, True) if True else None
		if isinstance(key, tuple) and all(x is None or x is ... or x == slice(None) for x in key):
			return self
		return Top('grades[...]')
	def a_cmp(self, I, op, o, refl):
		if type(o) is int and op in GRADE_CMP:
			r = self.elementwise(lambda x: GRADE_CMP[op](o, x) if refl else GRADE_CMP[op](x, o))
			if r is not None:
				return r
		return NotImplemented


def pmul(p, q):
	out = frozenset()
	for a in p:
		for b in q:
			out ^= {a | b}
	return out


class SignArr(AV):
	"""(-1)**poly along one kernel axis"""
	def __init__(self, tok, poly, number=False, pos=None, nd=1):
		self.tok, self.poly, self.number, self.pos, self.nd = tok, poly, number, pos, nd
	def a_getitem(self, I, key):
		key = key if isinstance(key, tuple) else (key,)
		if self.nd != 1:
			return Top('sign index')
		if any(x is ... for x in key):
			i = [n for n, x in enumerate(key) if x is ...][0]
			rest = [x for x in key if x is not None and x is not ...]
			if not rest:
				key = key[:i] + (slice(None),) + key[i + 1:]
			else:
				key = key[:i] + key[i + 1:]
		if all(x is None or x == slice(None) for x in key) and sum(x is not None for x in key) <= 1:
			p = [n for n, x in enumerate(key) if x is not None]
			if not p:
				key = key + (slice(None),)
				p = [len(key) - 1]
			return SignArr(self.tok, self.poly, self.number, p[0] - len(key), len(key))
		return Top('sign index')
	def a_getattr(self, I, name):
		if name == 'reshape':
			def rs(I2, a, k):
				s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
				p = [n for n, x in enumerate(s) if x != 1]
				if len(p) != 1:
					return Top('reshape')
				return SignArr(self.tok, self.poly, self.number, p[0] - len(s), len(s))
			return HostFn(rs, name)
		if name == 'astype':
			return HostFn(lambda I2, a, k: self, 'astype')
		return Top(f'sign.{name}')
	def a_unop(self, I, op):
		if op == '-':
			return SignArr(self.tok, self.poly ^ {frozenset()}, self.number, self.pos, self.nd)
		return self if op == '+' else Top(op)


class GTok(AV):
	"""grade array of one kernel axis inside a grade selection formula"""
	def __init__(self, axis):
		self.axis = axis
	def a_key(self):
		return ('GTok', self.axis)
	def a_getitem(self, I, key):
		if isinstance(key, tuple) and all(x is None or x is ... or x == slice(None) for x in key):
			return self
		return Top('grade token index')
	def a_cmp(self, I, op, o, refl):
		if isinstance(o, GSet) and o.plain and op == '==':
			return GPred(self.axis, o.tok, False)
		return NotImplemented
	def a_getattr(self, I, name):
		return Top(f'grade.{name}')


class GPred(AV):
	"""elementwise 'grade of axis is one of the grades of a subspace'"""
	def __init__(self, axis, tok, reduced):
		self.axis, self.tok, self.reduced = axis, tok, reduced
	def a_getattr(self, I, name):
		if name == 'any':
			return HostFn(lambda I2, a, k: GPred(self.axis, self.tok, True), name)
		return Top(name)


class SubV(AV):
	def __init__(self, w, tok):
		self.w, self.tok = w, tok
	def __repr__(self):
		return f'Sub[{showtok(self.tok)}]'
	def a_key(self):
		return ('SubV', self.tok)
	def a_isinstance(self, I, cls):
		return cls is self.w.SubSpace
	def a_bool(self, I):
		return True
	def a_type(self, I):
		return self.w.SubSpace
	def a_len(self, I):
		return LenV(self.tok)
	def a_cmp(self, I, op, o, refl):
		if isinstance(o, SubV):
			if op in ('==', 'is'):
				return self.w.sub_eq(I, self.tok, o.tok)
			if op in ('!=', 'is not'):
				return I.not_(self.w.sub_eq(I, self.tok, o.tok))
		if isinstance(o, OpV) or o is None:
			return op in ('!=', 'is not')
		return NotImplemented
	def a_contains(self, I, x):
		return self.w.sub_in(I, x, self) if isinstance(x, SubV) else Top('in')
	def a_getattr(self, I, name):
		w = self.w
		H = lambda f: HostFn(lambda I2, a, k: f(*a, **k), name)
		if name == 'subspace':
			return self
		if name == 'algebra':
			return w.alg
		if name in ('grades', 'grade'):
			return H(lambda: GSet(self.tok) if name == 'grades' else GSet(self.tok, frozenset({frozenset({('par', self.tok)})}), True))
		if name == 'blades':
			return BladesV(self.tok)
		if name in ('intersection', 'restrict_subspace'):
			return H(lambda o: w.inter(self, o))
		if name == 'union':
			return H(lambda o: w.union(self, o))
		if name == 'difference':
			return H(lambda o: SubV(w, ('d', self.tok, o.tok)))
		if name == 'complement' or w.SubSpace.lookup(name) is not None and w.SubSpace.lookup(name) is w.SubSpace.lookup('complement'):
			return H(lambda: SubV(w, self.tok[1] if self.tok[0] == 'c' else ('c', self.tok)))
		if name in ('degenerate', 'nondegenerate'):
			return H(lambda: SubV(w, (name, self.tok)))
		if name in ('inside', 'equals', 'select', 'restrict'):
			c = I.get('numga.subspace.namespaces:' + {'inside': 'InNamespace', 'equals': 'IsNamespace', 'select': 'SelectNamespace', 'restrict': 'RestrictNamespace'}[name])
			return I.call(c, [self], {})
		if name == 'is_n_simple' and w.opaque_simple:
			return H(lambda n: SymB(('nsimple', self.tok, n)) if n != 0 else w.sub_in(I, self, SubV(w, SCALAR)))
		if name in ('is_degenerate', 'is_degenerate_scalar', 'is_blade', 'is_subalgebra'):
			return SymB((name, self.tok))
		if name == 'named_str' or name.startswith('pretty'):
			return Top(name)
		c = w.SubSpace.lookup(name)
		if c is not None:
			if isinstance(c, Prop):
				return I.call(c.fget, [self], {})
			return I.bind(c, self, w.SubSpace)
		ga = w.SubSpace.lookup('__getattr__')
		if ga is not None:
			return I.call(ga, [self, name], {})
		raise PyRaise('AttributeError', f"'SubSpace' object has no attribute '{name}'")


class BladesV(AV):
	def __init__(self, tok):
		self.tok = tok
	def a_cmp(self, I, op, o, refl):
		if op == '==' and o == 0:
			return Vals(I.world, I.world.unit(self.tok), self.tok)
		return NotImplemented


class LenV(AV):
	def __init__(self, tok):
		self.tok = tok
	def a_key(self):
		return ('LenV', self.tok)
	def a_cmp(self, I, op, o, refl):
		if isinstance(o, LenV) and op == '==':
			if self.tok == o.tok or {self.tok, o.tok} == {SCALAR, 'raw'}:
				return True
			if isinstance(self.tok, tuple) and isinstance(o.tok, tuple):
				w = I.world
				k = frozenset({self.tok, o.tok})
				if I.known.get(cond_key(('eq', k))) is True or (w.known_scalar(I, self.tok) and w.known_scalar(I, o.tok)):
					return True
				return SymB(('eqlen', k))
		if isinstance(o, LenV) and op == '!=':
			return I.not_(self.a_cmp(I, '==', o, refl))
		return Top('length')


class OpV(AV):
	def __init__(self, w, slots, expr, groups=(), via=None):
		self.w, self.slots, self.expr, self.groups = w, tuple(slots), expr, frozenset(groups)
		k = nkey(strip_diag(unkeyE(tokkey(expr))))
		t = leaf_tok(unkeyE(k))
		self.tok = via if via is not None else t if t is not None else ('out', k, self.sym())
	def __repr__(self):
		return f'Op[{", ".join(showtok(s[1]) for s in self.slots)} -> {show(self.expr)}]'
	def a_bool(self, I):
		return True
	def sym(self):
		order = {s[0]: n for n, s in enumerate(self.slots)}
		return frozenset(frozenset(order[i] for i in g) for g in self.groups if all(i in order for i in g))
	def a_isinstance(self, I, cls):
		return cls is self.w.Operator
	def axes(self):
		return tuple(SubV(self.w, s[1]) for s in self.slots) + (SubV(self.w, self.tok),)
	def with_(self, slots=None, expr=None, groups=None):
		return OpV(self.w, self.slots if slots is None else slots, self.expr if expr is None else expr, self.groups if groups is None else groups)
	def addto(self, I, o, sgn=1):
		if not isinstance(o, OpV):
			return Top('operator + ?')
		if [s[1] for s in self.slots] != [s[1] for s in o.slots]:
			I.effects.append(('add-axes', self, o))
			raise PyRaise('Exception', f'axes do not match: {self} and {o}')
		m = {s[0]: factor(('s', t[0], t[1])) for s, t in zip(o.slots, self.slots)}
		e = subst(o.expr, lambda n: m.get(n[1]) if n[0] == 's' else None)
		return self.with_(expr=self.expr + e.scale(sgn))
	def a_binop(self, I, op, o, refl):
		if op in '+-' and isinstance(o, OpV):
			return self.addto(I, o, 1 if op == '+' else -1) if not refl else o.addto(I, self, 1 if op == '+' else -1)
		if op == '*' and isinstance(o, (int, float, Fraction)):
			return self.with_(expr=self.expr.scale(Fraction(o)))
		return NotImplemented
	def a_unop(self, I, op):
		return self.with_(expr=-self.expr) if op == '-' else self if op == '+' else Top(op)
	def a_cmp(self, I, op, o, refl):
		if op in ('is', '==') and o is None:
			return False
		if op in ('is not', '!=') and o is None:
			return True
		return NotImplemented
	def bindop(self, d):
		slots, e, groups = [], self.expr, set(self.groups)
		m = {}
		for n, s in enumerate(self.slots):
			if n in d:
				o = self.w.fresh(d[n])
				m[s[0]] = o.expr
				slots += list(o.slots)
				groups |= o.groups
			else:
				slots.append(s)
		e = subst(e, lambda n: m.get(n[1]) if n[0] == 's' else None)
		return OpV(self.w, slots, e, groups)
	def a_getattr(self, I, name):
		w = self.w
		H = lambda f: HostFn(lambda I2, a, k: f(*a, **k), name)
		if name in ('subspace', 'output'):
			return SubV(w, self.tok)
		if name == 'axes':
			return self.axes()
		if name == 'inputs':
			return self.axes()[:-1]
		if name == 'arity':
			return len(self.slots)
		if name == 'algebra':
			return w.alg
		if name == 'kernel':
			return KernelV(self)
		if name == 'squeeze':
			return H(lambda: self)
		if name == 'copy':
			return H(lambda kernel: OpV(w, kernel.op.slots, kernel.op.expr, kernel.op.groups) if isinstance(kernel, KernelV) else Top('copy'))
		if name == 'add' or name == 'add_broadcast':
			return H(lambda o: self.addto(I, o) if name == 'add' or isinstance(o, OpV) and [s[1] for s in o.slots] == [s[1] for s in self.slots] else Top(name))
		if name == 'mul':
			return H(lambda s: self.with_(expr=self.expr.scale(Fraction(s))))
		if name == 'div':
			return H(lambda s: self.with_(expr=self.expr.scale(1 / Fraction(s))))
		if name == 'swapaxes':
			def sw(a, b):
				n = len(self.slots)
				if not all(isinstance(x, int) and -n - 1 < x < n for x in (a, b)):
					return Top('swapaxes with the output')
				a, b = a % (n + 1), b % (n + 1)
				s = list(self.slots)
				s[a], s[b] = s[b], s[a]
				return self.with_(slots=s)
			return H(sw)
		if name == 'symmetry':
			def sy(axes, *a):
				axes = list(I.iterate(axes))
				n = len(self.slots)
				if any(not isinstance(x, int) or x >= n for x in axes):
					I.effects.append(('sym-range', self, axes))
					return Top('symmetry over the output')
				toks = {self.slots[x][1] for x in axes}
				if len(toks) > 1:
					raise PyRaise('Exception', f'symmetry over different subspaces {axes}')
				return self.with_(groups=set(self.groups) | {frozenset(self.slots[x][0] for x in axes)})
			return H(sy)
		if name == 'bind':
			def bi(*a):
				d = a[0] if a and isinstance(a[0], dict) else dict(enumerate(a))
				d = {unkey(k): v for k, v in d.items()}
				if not all(isinstance(v, OpV) for v in d.values()):
					return Top('bind')
				if any(not isinstance(k, int) or k >= len(self.slots) for k in d):
					raise PyRaise('IndexError', 'bind')
				for k, v in d.items():
					if v.tok != self.slots[k][1] and v.tok[:2] != self.slots[k][1][:2]:
						I.effects.append(('bind-space', self, k, v))
						raise PyRaise('AssertionError', f'slot {k} of {self} bound to {v}')
				return self.bindop(d)
			return H(bi)
		if name == '_build':
			def bu(subs):
				subs = list(subs)
				return self.bindop({n: s for n, s in enumerate(subs) if isinstance(s, OpV)})
			return H(bu)
		if name == 'fuse':
			return H(lambda o, axis: o.bindop({axis: self}))
		if name == 'select_subspace':
			return H(lambda o: w.elem(I, 'sel', [self], (o.tok,)))
		if name == 'select_grade':
			return H(lambda k: w.elem(I, 'sel', [self], (named('k_vector', (k,)),)))
		if name == 'grade_selection':
			def gs(formula):
				n = len(self.slots)
				p = I.call(formula, [GTok(i) for i in range(n + 1)], {})
				if p is True:
					return self
				if not isinstance(p, GPred) or not p.reduced:
					return Top('grade selection formula')
				if p.axis == n:
					return self.with_(expr=func('gsel', [self.expr], (p.tok,)))
				s = self.slots[p.axis]
				if p.tok == s[1]:
					return self
				return self.with_(expr=subst(self.expr, lambda x: func('gsel', [factor(x)], (p.tok,)) if x[0] == 's' and x[1] == s[0] else None))
			return H(gs)
		c = w.Operator.lookup(name)
		if c is None and not any(name in k.attrs for k in w.Operator.mro):
			raise PyRaise('AttributeError', f"'Operator' object has no attribute '{name}'")
		return Top(f'operator.{name}')


class KernelV(AV):
	def __init__(self, op):
		self.op = op
	def a_binop(self, I, op, o, refl):
		if op == '*':
			if isinstance(o, (int, float)):
				return KernelV(self.op.with_(expr=self.op.expr.scale(Fraction(o))))
			if isinstance(o, SignArr):
				n = len(self.op.slots)
				if o.number:
					return Top('number sign')
				pos = (o.pos if o.pos is not None else -1) + n + 1
				if o.nd > n + 1 or pos < 0:
					I.effects.append(('sign-axis', self.op, pos))
					return Top('sign axis')
				toks = [s[1] for s in self.op.slots] + [self.op.tok]
				if toks[pos] != o.tok:
					I.effects.append(('sign-axis', self.op, pos, o.tok))
				ex = canon_sign(o.poly, o.tok)
				wrap = lambda e: sign_apply(e, ex)
				if pos == n:
					return KernelV(self.op.with_(expr=wrap(self.op.expr)))
				s = self.op.slots[pos]
				return KernelV(self.op.with_(expr=subst(self.op.expr, lambda x: wrap(factor(x)) if x[0] == 's' and x[1] == s[0] else None)))
		return NotImplemented


def canon_sign(poly, tok):
	"""sign as set of monomials over ('self',) (grade parity of the signed axis) and ('par', T)"""
	out = set()
	for m in poly:
		out ^= {frozenset(('self',) if a == ('g', tok) else (('selffn', a[2]) if a[1] == tok else a) if a[0] == 'fn' else a if a[0] == 'pfn' else ('par', a[1]) for a in m)}
	return frozenset(out)


def sign_apply(e, ex):
	for m in ex:
		if m == frozenset():
			e = -e
		elif m == frozenset({('self',)}):
			e = e.inv_()
		elif not any(a[0] in ('selffn', 'fn', 'pfn') for a in m):
			e = func('ipar', [e], (m,))
		else:
			e = grade_sign(e, m)
	return e


def grade_sign(e, m):
	"""a sign that is not the grade parity: reversion, conjugation, or opaque when it also depends on a versor"""
	rest = [a for a in m if a[0] != 'selffn']
	t, = [a[1] for a in m if a[0] == 'selffn'] or [None]
	if t is None or any(a[0] != 'par' for a in rest) or len(rest) > 1:
		raise Unsupported('sign by a function of the grade')
	if not rest:
		if t == tuple(g * (g - 1) // 2 % 2 for g in GRADES):
			return e.rev()
		if t == tuple(g * (g + 1) // 2 % 2 for g in GRADES):
			return e.conj()
		raise Unsupported('sign by a function of the grade')
	return func('fsgn', [e], (m,))


class Vals(AV):
	"""component array; tok = subspace its last axis enumerates ('raw' : length one, None : plain scalar array)"""
	def __init__(self, w, expr, tok, raw=None):
		self.w, self.expr, self.tok = w, expr, tok
	def __repr__(self):
		return f'Vals({show(self.expr)} @ {showtok(self.tok) if isinstance(self.tok, tuple) else self.tok})'
	def a_isinstance(self, I, cls):
		if isinstance(cls, Ext):
			return cls.path in ('numpy.ndarray', 'torch.Tensor', 'jax.Array') or None
		return False
	def is_scalar(self, I):
		return self.tok in (None, 'raw') or self.w.known_scalar(I, self.tok)
	def a_bool(self, I):
		I.effects.append(('branch-on-values', self))
		return I.decide(('truth', nkey(self.expr)))
	def mk(self, e, tok=0):
		return Vals(self.w, e, self.tok if tok == 0 else tok)
	def a_binop(self, I, op, o, refl):
		w = self.w
		if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
			c = Fraction(o).limit_denominator(1 << 40)
			if op == '*' or op == '/' and not refl:
				if op == '/' and c == 0:
					return self.mk(self.expr * inverse(const(0) if False else Expr()))
				return self.mk(self.expr.scale(c if op == '*' else 1 / c))
			if op in '+-' and self.is_scalar(I):
				r = self.expr + const(c if op == '+' else -c)
				return self.mk(-r if refl and op == '-' else r)
			if op == '/' and refl and self.is_scalar(I):
				return self.mk(inverse(self.expr, True).scale(c))
			if op == '**' and not refl and self.is_scalar(I):
				return self.mk(power(self.expr, c, True))
			if op in '+-':
				I.effects.append(('elementwise-constant', self, op, o))
			return self.mk(factor(('fn', 'ew' + op + ('r' if refl else ''), (nkey(self.expr),), (c,), False)))
		if isinstance(o, Vals):
			a, b = (o, self) if refl else (self, o)
			if op in '+-':
				tok = w.layout(I, a, b, op)
				return Vals(w, a.expr + (b.expr if op == '+' else -b.expr), tok)
			if op in '*/':
				if b.is_scalar(I):
					tok = a.tok
					return Vals(w, a.expr * b.expr if op == '*' else a.expr * inverse(b.expr, True), tok)
				if op == '*' and a.is_scalar(I):
					return Vals(w, a.expr * b.expr, b.tok)
				tok = w.layout(I, a, b, op)
				return Vals(w, factor(('fn', 'ew' + op, (nkey(a.expr), nkey(b.expr)), (), False)), tok)
		if isinstance(o, Obj):
			return NotImplemented
		return NotImplemented
	def a_unop(self, I, op):
		if op == '-':
			return self.mk(-self.expr)
		if op == '+':
			return self
		if op == 'abs':
			return self.fn(I, 'abs', [])
		return Top(op)
	def fn(self, I, name, extra):
		s = self.is_scalar(I)
		if name == 'sqrt':
			return self.a_binop(I, '**', Fraction(1, 2), False)
		if name == 'neg':
			return self.mk(-self.expr)
		if name == 'reciprocal' and s:
			return self.mk(inverse(self.expr, True))
		if name == 'rsqrt':
			return self.a_binop(I, '**', Fraction(-1, 2), False)
		if name == 'pow' and len(extra) == 1 and isinstance(extra[0], (int, float)):
			return self.a_binop(I, '**', extra[0], False)
		return self.mk(factor(('fn', name, (nkey(self.expr),), tuple(extra), s)))
	def a_getitem(self, I, key):
		k = key if isinstance(key, tuple) else (key,)
		if all(x is ... or x is None or x == slice(None) for x in k):
			if k and k[-1] is None and self.tok is None:
				return self.mk(self.expr, 'raw')
			if None not in k:
				return self
		return Top('values[...]')
	def a_getattr(self, I, name):
		if name in ('copy', 'clone', 'detach'):
			return HostFn(lambda I2, a, k: self, name)
		if name == 'astype':
			return HostFn(lambda I2, a, k: self, name)
		if name == 'shape':
			return ShapeV(self.tok)
		if name == 'size':
			return HostFn(lambda I2, a, k: ShapeV(self.tok), name)
		if name in ELEM:
			return HostFn(lambda I2, a, k: libfn(I2, ELEM[name][0], [self] + a, k), name)
		return Top(f'values.{name}')
	# python lists of components
	def a_len(self, I):
		return LenV(self.tok)
	def a_generic(self, I):
		return self, ListBinder(self.w, self.tok)
	def a_zip(self, I, a):
		if all(isinstance(x, Vals) for x in a):
			tok = a[0].tok
			for x in a[1:]:
				tok = self.w.layout(I, a[0], x, 'zip')
			return ZipV(self.w, a, tok)
		return None
	def a_to_float(self, I, *a):
		return self
	def a_to_list(self, I):
		return self
	def a_to_tuple(self, I):
		return self


class ZipV(AV):
	def __init__(self, w, vals, tok):
		self.w, self.vals, self.tok = w, vals, tok
	def a_generic(self, I):
		return tuple(self.vals), ListBinder(self.w, self.tok)


class ListBinder:
	def __init__(self, w, tok):
		self.w, self.tok = w, tok
	def seq(self, I, v, guards):
		if guards:
			return Top('filtered components')
		if isinstance(v, Vals):
			return Vals(self.w, v.expr, self.tok)
		return Top('list of ' + repr(v))


class ShapeV(AV):
	def __init__(self, tok):
		self.tok = tok
	def a_getitem(self, I, key):
		if key == -1:
			return LenV(self.tok)
		return Top('shape')


def libfn(I, name, a, k):
	extra = list(a[1:]) + [v for _, v in sorted(k.items())]
	extra = [x for x in extra]
	if any(isinstance(x, AV) for x in extra):
		if name in ('+', '-', '*', '/', 'pow') and len(a) == 2:
			return I.binop('**' if name == 'pow' else name, a[0], a[1])
		return Top(f'{name} of values')
	if name in ('+', '-', '*', '/'):
		return I.binop(name, a[0], a[1])
	if not isinstance(a[0], Vals):
		return Top(name)
	return a[0].fn(I, name, extra)


class ConcOp(AV):
	def __init__(self, w, ctx, op):
		self.w, self.ctx, self.op = w, ctx, op
	def __repr__(self):
		return f'Conc{self.op}'
	def check(self, I, n, a):
		if not isinstance(a, Obj) or 'subspace' not in a.attrs or not isinstance(a.attrs['subspace'], SubV):
			raise Unsupported(f'operator applied to {a}')
		s = self.op.slots[n]
		t = a.attrs['subspace'].tok
		if t != s[1] and self.w.sub_eq(I, t, s[1]) is not True and not I.known.get(cond_key(('eq', frozenset({t, s[1]})))):
			I.effects.append(('operand-space', f'slot {n} was built for {showtok(s[1])} but receives {showtok(t)}'))
		v = a.attrs['values']
		if isinstance(v, list) and len(v) == 1 and isinstance(v[0], (int, float)) and t == SCALAR:
			return const(Fraction(v[0]).limit_denominator(1 << 40))
		if not isinstance(v, Vals):
			raise Unsupported('operand values')
		return v.expr
	def a_call(self, I, args, kw):
		if len(args) != len(self.op.slots):
			I.effects.append(('arity', f'operator of arity {len(self.op.slots)} called with {len(args)} operands'))
			raise PyRaise('TypeError', 'operator arity')
		if any(isinstance(a, SubV) for a in args):
			return self.part(I, {n: a for n, a in enumerate(args) if not isinstance(a, SubV)})
		return self.finish(I, {n: a for n, a in enumerate(args)})
	def finish(self, I, d):
		ex = {n: self.check(I, n, a) for n, a in d.items()}
		pos = {s[0]: n for n, s in enumerate(self.op.slots)}
		for g in self.op.groups:
			xs = [ex[pos[i]] for i in g if i in pos and pos[i] in ex]
			if any(x != xs[0] for x in xs[1:]):
				I.effects.append(('symmetry', f'slots {sorted(pos[i] for i in g if i in pos)} of {self.op} are declared equal but receive different operands'))
		m = {s[0]: ex[n] for n, s in enumerate(self.op.slots)}
		e = subst(self.op.expr, lambda n: m.get(n[1]) if n[0] == 's' else None)
		o = Obj(self.w.mvtype)
		o.attrs.update(context=self.ctx, subspace=SubV(self.w, self.op.tok), values=Vals(self.w, e, self.op.tok))
		return o
	def part(self, I, d):
		ex = {n: self.check(I, n, a) for n, a in d.items()}
		m = {s[0]: ex[n] for n, s in enumerate(self.op.slots) if n in ex}
		pos = {s[0]: n for n, s in enumerate(self.op.slots)}
		for g in self.op.groups:
			xs = [ex[pos[i]] for i in g if pos.get(i) in ex]
			if any(x != xs[0] for x in xs[1:]) or 0 < len(xs) < len(g):
				I.effects.append(('symmetry', f'partial application binds only some of the slots of {self.op} that are declared equal, or different operands'))
		e = subst(self.op.expr, lambda n: m.get(n[1]) if n[0] == 's' else None)
		r = ConcOp(self.w, self.ctx, OpV(self.w, [s for n, s in enumerate(self.op.slots) if n not in ex], e, [], via=self.op.tok))
		return r
	def a_getattr(self, I, name):
		if name == 'partial':
			return HostFn(lambda I2, a, k: self.part(I2, {unkey(n): v for n, v in (a[0] if a else k['inputs']).items()}), name)
		if name in ('output', 'subspace'):
			return SubV(self.w, self.op.tok)
		if name in ('inputs', 'arity', 'axes', 'algebra'):
			return self.op.a_getattr(I, name)
		if name == 'operator':
			return self.op
		return Top(f'concrete operator.{name}')


class OTypeV(AV):
	def __init__(self, w):
		self.w = w
	def a_call(self, I, args, kw):
		op = args[1] if len(args) > 1 else kw.get('operator')
		if not isinstance(op, OpV):
			raise Unsupported(f'concrete operator of {op}')
		return ConcOp(self.w, args[0] if args else kw.get('context'), op)
	def a_str(self, I):
		return '<otype>'
	def a_getattr(self, I, name):
		return 'otype' if name in ('__name__', '__qualname__') else Top(name)
	def a_key(self):
		return ('otype',)


class FactV(AV):
	"""algebra.subspace"""
	def __init__(self, w):
		self.w = w
	def a_getattr(self, I, name):
		w = self.w
		if name == 'from_grades':
			def fg(I2, a, k):
				g = a[0] if a else k['grades']
				g = list(g) if isinstance(g, (list, tuple)) else g
				if g == [0]:
					return SubV(w, SCALAR)
				if isinstance(g, list) and len(g) == 1:
					return SubV(w, named('k_vector', (g[0],)))
				return SubV(w, ('name', 'grades', (repr(g),)))
			return HostFn(fg, name)
		c = w.Factory.lookup(name)
		if c is None:
			if '__getattr__' in w.Factory.attrs:
				return SubV(w, ('name', 'blades', (name,)))
			raise PyRaise('AttributeError', name)
		if name in ('from_blades', 'factory_construct', 'order_blades', 'grades', 'blades_by_grade', 'basis'):
			return Top(name)
		return HostFn(lambda I2, a, k: SubV(w, named(name, tuple(a) + tuple(k.values()))), name)


ALIAS = {'antiscalar': 'pseudoscalar', 'full': 'multivector', 'motor': 'even_grade', 'self_involute': 'even_grade'}


def named(name, args):
	if name == 'k_vector' and len(args) == 1:
		n = {0: 'scalar', 1: 'vector', 2: 'bivector', 3: 'trivector', 4: 'quadvector', -1: 'pseudoscalar', -2: 'antivector', -3: 'antibivector', -4: 'antitrivector', -5: 'antiquadvector'}.get(args[0])
		if n:
			return ('name', n, ())
	return ('name', ALIAS.get(name, name), tuple(args))


ELEMENTARY = {   # public name -> (word function, number of operands)
	'geometric_product': ('gp', 2), 'wedge_product': ('wedge', 2), 'inner_product': ('inner', 2), 'scalar_product': ('sp', 2),
	'left_contraction_product': ('lcn', 2), 'right_contraction_product': ('rcn', 2),
	'reverse': ('rev', 1), 'involute': ('inv', 1), 'scalar_negation': ('sneg', 1), 'study_conjugate': ('sneg', 1), 'pseudoscalar_negation': ('pneg', 1),
	'right_complement': ('rc', 1), 'left_complement': ('lc', 1), 'right_complement_dual': ('rcd', 1), 'left_complement_dual': ('lcd', 1),
	'right_hodge': ('rh', 1), 'left_hodge': ('lh', 1), 'right_hodge_inverse': ('rhi', 1), 'left_hodge_inverse': ('lhi', 1), 'identity': ('id', 1),
}


class WordWorld(World):
	def __init__(self):
		World.__init__(self)
		self.nslot = 0
		self.opaque_simple = True
		self.generic = False        # subspaces of different origin are taken to differ
		self.facts = {}

	def attach(self, I):
		self.I = I
		self.SubSpace = I.get('numga.subspace.subspace:SubSpace')
		self.Factory = I.get('numga.subspace.factory:SubSpaceFactory')
		self.Operator = I.get('numga.operator.operator:Operator')
		self.OpFact = I.get('numga.operator.factory:OperatorFactory')
		self.AlgC = I.get('numga.algebra.algebra:Algebra')
		self.alg = Obj(self.AlgC)
		self.of = Obj(self.OpFact)
		self.of.attrs['algebra'] = self.alg
		self.fact = FactV(self)
		self.alg.attrs.update(subspace=self.fact, operator=self.of)
		from .report import unwrap
		seen = {}
		for name, (word, n) in ELEMENTARY.items():
			f = self.OpFact.lookup(name)
			if f is None:
				raise AnchorMissing(f'OperatorFactory.{name}')
			f = unwrap(f)
			if isinstance(f, PyFunc):
				if seen.get(f.qual, word) != word:
					raise Unsupported(f'{f.qual} provides two elementary operators')
				seen[f.qual] = word
				self.intercepts[f.qual] = (lambda word, n: lambda I2, a, k: self.elem(I2, word, (list(a[1:]) + list(k.values()))[:n], arity=n))(word, n)
		f = unwrap(self.OpFact.lookup('select'))
		self.intercepts[f.qual] = lambda I2, a, k: self.select(I2, *(list(a[1:]) + list(k.values())))
		self.intercepts['numga.util.match'] = self.match
		self.intercepts['numga.algebra.bitops.parity_to_sign'] = lambda I2, a, k: SignArr(a[0].tok, a[0].poly, a[0].number) if isinstance(a[0], GSet) else NotImplemented
		self.intercepts['numga.operator.operator.Operator'] = self.make_op
		self.builtins['isinstance'] = HostFn(lambda I2, a, k: I2.isinstance_(a[0], a[1]), 'isinstance')
		for lib in ('numpy', 'jax.numpy', 'torch'):
			for n in ELEM:
				if n not in NOT_IN.get(lib, ()):
					self.ext[f'{lib}.{n}'] = (lambda c: lambda I2, a, k: libfn(I2, c, a, k))(ELEM[n][0])
			for n in ('asarray', 'array', 'as_tensor', 'tensor', 'ascontiguousarray', 'asfortranarray'):
				self.ext[f'{lib}.{n}'] = self.asarray
			self.ext[f'{lib}.nan_to_num'] = lambda I2, a, k: libfn(I2, 'nan_to_num', a, k) if isinstance(a[0], Vals) else Top('nan_to_num')
			self.ext[f'{lib}.clone'] = lambda I2, a, k: a[0]
			self.ext[f'{lib}.copy'] = lambda I2, a, k: a[0]
		self.ext['numpy.unique'] = lambda I2, a, k: a[0] if isinstance(a[0], GSet) else Top('unique')
		self.ext['numpy.any'] = lambda I2, a, k: GPred(a[0].axis, a[0].tok, True) if isinstance(a[0], GPred) else Top('any')
		self.ext['numpy.isin'] = lambda I2, a, k: GPred(a[0].axis, a[1].tok, True) if isinstance(a[0], GTok) and isinstance(a[1], GSet) and a[1].plain else Top('isin')
		self.ext['numpy.in1d'] = self.ext['numpy.isin']
		I.imprecise.clear()

	def asarray(self, I, a, k):
		v = a[0]
		if isinstance(v, Vals):
			return v
		if isinstance(v, (int, float)) and not isinstance(v, bool):
			return Vals(self, const(Fraction(v).limit_denominator(1 << 40)), None)
		if isinstance(v, list) and len(v) == 1:
			r = self.asarray(I, v, {})
			return r.mk(r.expr, 'raw') if isinstance(r, Vals) else r
		return Top('asarray')

	def unit(self, tok):
		if tok == ('name', 'empty', ()):
			return Expr()
		if tok[0] == 'name' and tok[1] in ('scalar', 'multivector', 'even_grade', 'rotor', 'translator', 'self_reverse', 'scalar_pseudoscalar', 'bireflection', 'quadreflection', 'mod4'):
			return const(1)
		return factor(('fn', 'unit', (), (tok,), False))

	# subspaces
	def sub(self, name):
		return SubV(self, ('in', name))
	def sub_eq(self, I, a, b):
		if a == b:
			return True
		k = ('eq', frozenset({a, b}))
		if k in self.facts:
			return self.facts[k]
		if a[0] == 'name' and b[0] == 'name' and {a[1], b[1]} <= {'scalar', 'empty'}:
			return False
		if I.known.get(cond_key(('eqlen', k[1]))) is False or self.generic:
			return False
		return SymB(k)
	def sub_in(self, I, a, b):
		if a.tok == b.tok or b.tok == ('name', 'multivector', ()) or a.tok == ('name', 'empty', ()):
			return True
		k = ('inside', a.tok, b.tok)
		if k in self.facts:
			return self.facts[k]
		if k[2] == SCALAR and I.known.get(cond_key(('eq', frozenset({a.tok, SCALAR})))):
			return True
		return SymB(k)
	def known_scalar(self, I, tok):
		if tok == SCALAR:
			return True
		for k in (('eq', frozenset({tok, SCALAR})), ('inside', tok, SCALAR)):
			if self.facts.get(k) is True or I.known.get(cond_key(k)) is True:
				return True
		return False
	def inter(self, a, b):
		s = set()
		for t in (a.tok, b.tok):
			s |= t[1] if t[0] == 'n' else {t}
		s.discard(('name', 'multivector', ()))
		return SubV(self, next(iter(s)) if len(s) == 1 else ('n', frozenset(s)))
	def union(self, a, b):
		s = set()
		for t in (a.tok, b.tok):
			s |= t[1] if t[0] == 'u' else {t}
		s.discard(('name', 'empty', ()))
		return SubV(self, next(iter(s)) if len(s) == 1 else ('u', frozenset(s)) if s else ('name', 'empty', ()))
	def contains_tok(self, big, small):
		"""definitely small subset of big"""
		if big == small or big == ('name', 'multivector', ()):
			return True
		if big[0] == 'u':
			return small in big[1] or small[0] == 'u' and small[1] <= big[1]
		if small[0] == 'n':
			return big in small[1]
		if small[0] in ('d', 'degenerate', 'nondegenerate'):
			return self.contains_tok(big, small[1])
		return False
	def layout(self, I, a, b, op):
		if a.tok == b.tok:
			return a.tok
		for x, y in ((a, b), (b, a)):
			if x.tok in (None, 'raw') and (y.tok in (None, 'raw', SCALAR) or isinstance(y.tok, tuple) and self.known_scalar(I, y.tok)):
				return y.tok
		if isinstance(a.tok, tuple) and isinstance(b.tok, tuple):
			k = ('eq', frozenset({a.tok, b.tok}))
			if self.facts.get(k) is True or I.known.get(cond_key(k)) is True:
				return a.tok
			if self.known_scalar(I, a.tok) and self.known_scalar(I, b.tok):
				return a.tok
		I.effects.append(('layout', f'components of {a} and {b} are combined ({op}) although their subspaces differ'))
		return a.tok

	# operators
	def slot(self, sub):
		self.nslot += 1
		return (self.nslot, sub.tok)
	def fresh(self, x):
		"""the same operator with its own slot identities"""
		new = {}
		for s in x.slots:
			self.nslot += 1
			new[s[0]] = (self.nslot, s[1])
		e = subst(x.expr, lambda n: factor(('s',) + new[n[1]]) if n[0] == 's' and n[1] in new else None)
		return OpV(self, [new[s[0]] for s in x.slots], e, [frozenset(new[i][0] for i in g if i in new) for g in x.groups], via=x.tok)
	def operand(self, I, x):
		if isinstance(x, OpV):
			x = self.fresh(x)
			return list(x.slots), x.expr, x.groups
		if isinstance(x, SubV):
			s = self.slot(x)
			return [s], factor(('s', s[0], s[1])), frozenset()
		raise Unsupported(f'operand {x}')
	def elem(self, I, word, args, extra=(), arity=None):
		if arity is not None and len(args) != arity:
			raise PyRaise('TypeError', f'{word} takes {arity} operands')
		slots, es, groups = [], [], set()
		for x in args:
			s, e, g = self.operand(I, x)
			slots += s
			es.append(e)
			groups |= g
		if word == 'gp':
			e = es[0] * es[1]
		elif word == 'rev':
			e = es[0].rev()
		elif word == 'inv':
			e = es[0].inv_()
		elif word == 'id':
			e = es[0]
		elif word == 'sel':
			return self.select(I, args[0], SubV(self, extra[0]))
		else:
			e = func(word, es, extra)
		return OpV(self, slots, e, groups)
	def select(self, I, i, o):
		if not isinstance(o, SubV):
			raise Unsupported('select')
		s, e, g = self.operand(I, i)
		src = i.tok
		if self.contains_tok(o.tok, src):
			return OpV(self, s, e, g, via=o.tok)
		toks = o.tok[1] if o.tok[0] == 'n' else {o.tok}
		toks = frozenset(t for t in toks if not self.contains_tok(t, src))
		return OpV(self, s, func('sel', [e], tuple(sorted(toks, key=repr))), g, via=o.tok)
	def match(self, I, a, k):
		x = a[0]
		if isinstance(x, GSet):
			poly = frozenset(frozenset(('par', t[1]) if t[0] == 'g' else ('pfn',) + t[1:] if t[0] == 'fn' else t for t in m) for m in x.poly)
			return GSet(x.tok, poly, True)
		if isinstance(x, (list, tuple)) and x and all(isinstance(v, (SubV, tuple)) for v in x):
			ok = all(I.host_eq(v, x[0]) is True if isinstance(v, tuple) else v.tok == x[0].tok for v in x)
			if ok:
				return x[0]
			raise PyRaise('Exception', 'Not all elements are equal')
		return NotImplemented
	def make_op(self, I, a, k):
		kernel = a[0] if a else k['kernel']
		axes = a[1] if len(a) > 1 else k['axes']
		if isinstance(kernel, KernelV):
			o = kernel.op
			axes = list(I.iterate(axes))
			if len(axes) == len(o.slots) + 1 and all(isinstance(x, SubV) for x in axes):
				got = [x.tok for x in axes[:-1]]
				if got != [s[1] for s in o.slots]:
					I.effects.append(('axes', f'kernel axes {o} are relabelled {axes}'))
				return OpV(self, o.slots, o.expr, o.groups)
		return Top('operator from kernel')


def arg_expr(op, names):
	"""expression of an operator with every slot replaced by an atom named after its subspace"""
	return subst(op.expr, lambda n: atom(n[2][1], n[2]) if n[0] == 's' and n[2][0] == 'in' else None)
