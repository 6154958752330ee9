"""C19: inverse, norm, root, exponential and decomposition rules, by algebra over word expressions."""
import os
from ..core import *
from ..words import *
from ..words import is_scalar_node, split_scalars
from ..mvsetup import *
from ..report import Report, Violation, Undecided, loc, unwrap
from .c07 import sneg, pneg, sp, BIV, refine
from .c09 import scalar_view
from .c17 import union_tok

S, T = ('in', 'S'), ('in', 'T')
X, Y = atom('x', S), atom('y', T)
RULE = 'registered rule is the operation it is registered for'


class DimV(AV):
	"""number of dimensions of an arbitrary algebra"""
	def __repr__(self):
		return 'n_dimensions'
	def a_key(self):
		return ('DimV',)
	def a_cmp(self, I, op, o, refl):
		if not isinstance(o, int) or isinstance(o, bool):
			return NotImplemented
		lt = lambda k, neg: self.ask(I, k, neg)
		return {'<': lambda: lt(o, False), '<=': lambda: lt(o + 1, False), '>': lambda: lt(o + 1, True), '>=': lambda: lt(o, True)}.get(op, lambda: Top('n_dimensions'))()
	def ask(self, I, k, neg):
		return SymB(('dimlt', k), neg)


def opts(s, name):
	d = s.mvcls.lookup(name)
	o = s.I.getattr(d, 'options') if isinstance(d, Obj) else None
	if not isinstance(o, list):
		raise AnchorMissing(f'registered rules of {name}')
	return o


def make(current=None, dims=None):
	"""setup in which calls of other registered rules stay opaque"""
	def mk():
		s = Setup('numpy')
		w, I = s.w, s.I
		names = s.dispatch_names()
		for oid, name in names.items():
			d = s.mvcls.lookup(name)
			fs = I.getattr(d, 'options') if any(k.name == 'DynamicDispatch' for k in d.cls.mro) else None
			for n, o in enumerate(fs if isinstance(fs, list) else []):
				f = unwrap(o[1])
				if isinstance(f, PyFunc) and (name, n) != current and name not in ('motor_split', 'decompose_polar', 'decompose_invariant') and f.qual == f'{f.module.name}.{f.name}':
					w.intercepts[f.qual] = (lambda name, d: lambda I, a, k: s.dispatch(I, [d] + list(a), k) if not k and all(isinstance(x, Obj) and 'values' in x.attrs for x in a) else NotImplemented)(name, d)
		if current is not None:
			w.intercepts.pop(unwrap(opts(s, current[0])[current[1]][1]).qual, None)
		w.intercepts['numga.algebra.algebra.Algebra.n_dimensions'] = lambda I, a, k: DimV() if dims is None else dims
		return s
	return mk


# --------------------------------------------------------------------------
# canonical forms

def scalar_toks(p):
	out = set()
	for c, v in p.conds:
		if v and c[0] == 'eq' and SCALAR in c[1]:
			out |= {t for t in c[1] if t != SCALAR}
		if v and c[0] == 'inside' and c[2] == SCALAR:
			out.add(c[1])
	return out


def tok_of(e):
	return nkey(strip_diag(unkeyE(tokkey(e))))


class Canon:
	def __init__(self, p):
		self.p = p
		self.sc = scalar_toks(p)
		self.sckeys = {t[1] for t in self.sc if t[0] == 'out'} | {nkey(tokexpr(t)) for t in self.sc}
		for k in list(self.sckeys):          # a scalar multiple of w is a scalar, so w is
			e = unkeyE(k)
			if len(e.t) == 1:
				(w, _), = e.t.items()
				rest = tuple(f for f in w if not self.snode(f[0]))
				if rest and rest != w:
					self.sckeys.add(nkey(strip_diag(Expr({rest: Fraction(1)}))))
		self.bivector = any(v and c[0] == 'inside' and c[1] == S and c[2] == BIV for c, v in p.conds)
		self.trivector = any(v and c[0] == 'inside' and c[1] == S and c[2] == ('name', 'trivector', ()) for c, v in p.conds)
		self.dim = min([c[1] for c, v in p.conds if c[0] == 'dimlt' and v] or [99]) - 1

	def scal(self, e):
		"""is e a scalar on this partition"""
		if all(all(self.snode(f[0]) for f in w) for w in e.t):
			return True
		return tok_of(e) in self.sckeys

	def snode(self, n):
		if is_scalar_node(n):
			return True
		if n[0] == 'f' and n[1] == 'sel':
			return SCALAR in n[3]
		if n[0] == 'd':
			return n[1] in ('study_norm', 'study_norm_squared')
		if n[0] in ('a', 's'):
			return n[2] in self.sc
		if n[0] == 't' and n[1][0] == 'dispatch':
			return self.scal(unkeyE(n[1][2]))
		if n[0] in ('inv', 'pow'):
			return self.scal(unkeyE(n[1]))
		return False

	def __call__(self, e):
		out = Expr()
		for w, c in e.t.items():
			p = const(c)
			for n, r, i in w:
				p = p * self.node(n).flag(r, i)
			out = out + p
		return out

	def node(self, n):
		k = n[0]
		if k in ('a', 's') and n[2] in self.sc:
			return factor((k, n[1], SCALAR))
		if k == 'inv':
			return self.inverse(self(unkeyE(n[1])))
		if k == 'pow':
			return self.power(self(unkeyE(n[1])), n[2])
		if k == 'fn':
			a = [self(unkeyE(x)) for x in n[2]]
			if n[1] == 'nan_to_num':
				return a[0]
			if n[1] == 'ew**' and len(a) == 1 and self.scal(a[0]):
				return self.power(a[0], n[3][0])
			return factor(('fn', n[1], tuple(nkey(x) for x in a), n[3], self.scal(a[0])))
		if k == 'd':
			a = [self(unkeyE(x)) for x in n[2]]
			x = a[0]
			if n[1] == 'square_root':
				return self.power(x, Fraction(1, 2))
			if n[1] == 'inverse_square_root':
				return self.power(x, Fraction(-1, 2))
			if n[1] == 'norm_squared':
				return x * x.rev()
			if n[1] == 'normalized':
				return self.power(x * x.rev(), Fraction(-1, 2)) * x
			return factor(('d', n[1], tuple(nkey(z) for z in a), self.snode(n)))
		if k == 'f':
			a = [self(unkeyE(x)) for x in n[2]]
			if n[1] == 'sel' and len(a) == 1:
				return self.sel(a[0], n[3])
			e = func(n[1], a, n[3])
			if len(e.t) == 1:
				(w, x), = e.t.items()
				if len(w) == 1 and w[0][0][0] == 'f' and not is_scalar_node(w[0][0]) and self.scal(e):
					m = w[0][0]
					return factor(('d', m[1], m[2], True)).scale(x)
			return e
		return factor(n)

	def inverse(self, e):
		# inv(y**k) cancels powers of the same letter
		if len(e.t) == 1:
			(w, c), = e.t.items()
			if len(w) > 1 and len(set(w)) == 1:
				r = const(1 / c)
				for _ in w:
					r = r * inverse(Expr({(w[0],): Fraction(1)}))
				return r
		return inverse(e, self.scal(e))

	def power(self, e, q):
		return power(e, q, self.scal(e))

	def sel(self, e, ext):
		out = Expr()
		for w, c in e.t.items():
			t = Expr({w: c})
			out = out + (t if self.vacuous(w, ext) else func('sel', [t], ext))
		return out

	def vacuous(self, w, ext):
		"""selection of a grade from words in x and inv(x) whose reversal sign and parity are known"""
		g = 2 if self.bivector else 3 if self.trivector else None
		if g is None or ext != (BIV if g == 2 else ('name', 'trivector', ()),):
			return False
		n = 0
		for f, r, i in w:
			if f == ('a', 'x', S):
				n += 1
			elif f[0] == 'inv' and dict(f[1]) == {((('a', 'x', S), False, False),): 1}:
				n += 1
			else:
				return False
		# an odd number of factors reverses and has the parity like x itself: grades g, g + 4, ...
		return n == 1 and len(w) == 1 and (w[0][0][0] == 'a' or self.dim < g + 4)


def known_reverse(e, c):
	"""bivectors and trivectors are negated by reversal"""
	if not (c.bivector or c.trivector):
		return e
	g = 2 if c.bivector else 3
	out = Expr()
	for w, x in e.t.items():
		p = const(x)
		for n, r, i in w:
			if n == ('a', 'x', S):
				s = (-1 if r else 1) * (-1 if i and g % 2 else 1)
				p = p * X.scale(s)
			else:
				if n[0] == 'inv':
					q = inverse(known_reverse(unkeyE(n[1]), c), n[2])
				elif n[0] == 'pow':
					q = power(known_reverse(unkeyE(n[1]), c), n[2], n[3])
				elif n[0] == 'd':
					q = factor(('d', n[1], tuple(nkey(known_reverse(unkeyE(a), c)) for a in n[2]), n[3]))
				elif n[0] == 'f':
					q = func(n[1], [known_reverse(unkeyE(a), c) for a in n[2]], n[3])
				else:
					q = factor(n)
				p = p * q.flag(r, i)
		out = out + p
	return out


def canon(e, c):
	for _ in range(4):
		n = c(known_reverse(e, c))
		if n == e:
			break
		e = n
	return e


def plain(e):
	"""only letters, inverses, powers, selections and involutions: nothing opaque"""
	for w in e.t:
		for n, r, i in w:
			if n[0] in ('a',):
				continue
			if n[0] in ('inv', 'pow'):
				if not plain(unkeyE(n[1])):
					return False
			elif n[0] == 'f':
				if not all(plain(unkeyE(a)) for a in n[2]):
					return False
			elif n[0] == 'd':
				if not all(plain(unkeyE(a)) for a in n[2]):
					return False
			elif n[0] == 'fn' and n[1] in ('exp', 'log', 'abs', 'ew**', 'ew*', 'cos', 'sin', 'sqrt'):
				if not all(plain(unkeyE(a)) for a in n[2]):
					return False
			else:
				return False
	return True


def inverses(e):
	out = []
	def rec(e):
		for w in e.t:
			for n, r, i in w:
				if n[0] in ('inv', 'pow'):
					out.append(unkeyE(n[1]))
					rec(unkeyE(n[1]))
				elif n[0] in ('f', 'fn', 'd'):
					for a in n[2]:
						rec(unkeyE(a))
	rec(e)
	return out


# --------------------------------------------------------------------------
# commutative algebra of generalised Study numbers: Laurent polynomials in s0, ns, N and radicals

class Study:
	def __init__(self, c, degenerate):
		self.c = c
		self.deg = degenerate
		self.rad = []           # (variable, square as polynomial)
	def of(self, e):
		out = {}
		for w, c in e.t.items():
			p = {(): c}
			for n, r, i in w:
				p = self.mul(p, self.node(n, r, i))
			out = self.add(out, p)
		return out
	def node(self, n, r, i):
		if n[0] == 'f' and n[1] == 'sel' and not r and not i and unkeyE(n[2][0]) == X:
			if SCALAR in n[3]:
				return {(('s', 1),): Fraction(1)}
			if ('name', 'nonscalar', ()) in n[3]:
				return {(('v', 1),): Fraction(1)}
		if n == ('a', 'x', S) and not r and not i:
			return {(('s', 1),): Fraction(1), (('v', 1),): Fraction(1)}
		if n[0] == 'f' and n[1] == 'sneg' and unkeyE(n[2][0]) == X:
			return {(('s', 1),): Fraction(1), (('v', 1),): Fraction(-1)}
		if n[0] == 'd' and n[1] == 'study_norm' and unkeyE(n[2][0]) == X:
			return self.radical({(('s', 2),): Fraction(1), (('v', 2),): Fraction(-1)}, 1)
		if n[0] == 'd' and n[1] == 'study_norm_squared' and unkeyE(n[2][0]) == X:
			return {(('s', 2),): Fraction(1), (('v', 2),): Fraction(-1)}
		if n[0] == 'pow' and n[2].denominator == 2:
			return self.radical(self.of(unkeyE(n[1])), n[2].numerator)
		if n[0] == 'pow' and n[2].denominator == 1 and n[2] > 0:
			q = self.of(unkeyE(n[1]))
			out = {(): Fraction(1)}
			for _ in range(int(n[2])):
				out = self.mul(out, q)
			return out
		if n[0] == 'inv':
			q = self.of(unkeyE(n[1]))
			if len(q) != 1:
				raise Undecided('division by a sum')
			(m, c), = q.items()
			return {tuple((v, -k) for v, k in m): 1 / c}
		raise Undecided(f'{show(factor(n))} in a root formula')
	def radical(self, sq, k):
		for v, s in self.rad:
			if s == sq:
				return {((v, k),): Fraction(1)}
		v = f'q{len(self.rad)}'
		self.rad.append((v, sq))
		return {((v, k),): Fraction(1)}
	def add(self, a, b):
		out = dict(a)
		for m, c in b.items():
			out[m] = out.get(m, 0) + c
		return {m: c for m, c in out.items() if c}
	def mul(self, a, b):
		out = {}
		for m, c in a.items():
			for n, d in b.items():
				e = {}
				for v, k in m + n:
					e[v] = e.get(v, 0) + k
				key = tuple(sorted((v, k) for v, k in e.items() if k))
				out[key] = out.get(key, 0) + c * d
		return {m: c for m, c in out.items() if c}
	def zero(self, p):
		# clear negative exponents, then reduce radicals from the last introduced to the first
		for v in {v for m in p for v, k in m if k < 0}:
			low = min(dict(m).get(v, 0) for m in p)
			p = self.mul(p, {((v, -low),): Fraction(1)})
		for v, sq in reversed(self.rad):
			while any(dict(m).get(v, 0) > 1 for m in p):
				out = {}
				for m, c in p.items():
					d = dict(m)
					k = d.pop(v, 0)
					q = {tuple(sorted(d.items())): c}
					for _ in range(k // 2):
						q = self.mul(q, sq)
					if k % 2:
						q = self.mul(q, {((v, 1),): Fraction(1)})
					out = self.add(out, q)
				p = out
			for u in {u for m in p for u, k in m if k < 0}:
				low = min(dict(m).get(u, 0) for m in p)
				p = self.mul(p, {((u, -low),): Fraction(1)})
		if self.deg:
			p = {m: c for m, c in p.items() if dict(m).get('v', 0) < 2}
		return not p


# --------------------------------------------------------------------------

def true(p, *key):
	return any(v and c == key for c, v in p.conds)


def inside(p, tok, name):
	return any(v and (c == ('inside', tok, ('name', name, ())) or c == ('eq', frozenset({tok, ('name', name, ())}))) for c, v in p.conds)


def is_study(p, tok_e):
	"""x times its scalar negation is known to be a scalar"""
	return any(v and c[0] in ('inside', 'eq') and (c[2] == SCALAR if c[0] == 'inside' else SCALAR in c[1]) and any(t[0] == 'out' and t[1] == tok_of(tok_e * sneg(tok_e)) for t in (c[1:2] if c[0] == 'inside' else c[1])) for c, v in p.conds)


def square_empty(p, e):
	for c, v in p.conds:
		if v and c[0] in ('eq', 'inside'):
			ts = set(c[1]) if c[0] == 'eq' else {c[1], c[2]}
			if ('name', 'empty', ()) in ts and any(t[0] == 'out' and t[1] == tok_of(e) for t in ts):
				return True
	return False


def msqrt(e):
	return factor(('d', 'motor_square_root', (nkey(e),), False))
def dnode(name, *a):
	return factor(('d', name, tuple(nkey(x) for x in a), False))
SELFREV = ('name', 'self_reverse', ())
sel = lambda e, t: func('sel', [e], (t,))
LLN = lambda m: sel(m * inverse(sel(m, SELFREV)), BIV)
HALF = Fraction(1, 2)


def expected(name, p):
	"""acceptable results (as expressions) of a rule of this name on partition p; None: no formula"""
	x2 = X * X.rev()
	if name == 'motor_inverse':
		return [X.rev()]
	if name == 'inverse_square_root':
		return [power(X, -HALF)]
	if name == 'motor_square_root':
		return [dnode('normalized', X + const(1))]
	if name == 'motor_geometric_mean':
		return [dnode('normalized', X + Y)]
	if name == 'motor_log_linear':
		return [sel(X, BIV)]
	if name == 'exp_linear':
		return [X + const(1)]
	if name == 'motor_log_linear_normalized':
		return [LLN(X)]
	if name == 'exp_linear_normalized':
		return [dnode('normalized', X + const(1))]
	if name == 'exp_quadratic':
		r = const(1) + X.scale(HALF)
		return [r * r * inverse(r * r.rev()), inverse(r * r.rev()) * r * r, r * inverse(r * r.rev()) * r]
	if name == 'motor_log_quadratic':
		return [dnode('motor_log_linear_normalized', msqrt(X)).scale(2), LLN(msqrt(X)).scale(2)]
	if name == 'study_norm_squared':
		return [sp(X, sneg(X)), X * sneg(X), sneg(X) * X, sel(X * sneg(X), SCALAR)]
	if name == 'study_norm':
		return [power(e, HALF) for e in (dnode('study_norm_squared', X), sp(X, sneg(X)), X * sneg(X))]
	if name == 'norm_squared':
		return [x2]
	if name == 'norm':
		return [power(x2, HALF)] + ([factor(('fn', 'abs', (nkey(X),), (), False))] if inside(p, S, 'scalar') else [])
	if name == 'normalized':
		return [power(x2, -HALF) * X]
	return None


def values(v):
	return [unmv(z)[0].expr for z in (v if isinstance(v, tuple) else (v,))]


def judge_rule(rep, name, n, p, where, what):
	what += showconds(p)
	if p.kind == 'undecided':
		raise Undecided(p.value)
	if p.imprecise:
		raise Undecided(p.imprecise[0])
	if p.kind == 'raise':
		empty = any(v and c[0] == 'eq' and ('name', 'empty', ()) in c[1] for c, v in p.conds)
		if p.value.kind in ('AttributeError', 'NameError', 'TypeError') or not empty and p.value.kind in ('NotImplementedError', 'ZeroDivisionError'):
			raise Violation(where, f'{what} raises {p.value}')
		return 'refused'
	bad = [e for e in p.I.effects if e[0] in ('operand-space', 'arity', 'symmetry', 'layout', 'axes', 'sign-axis', 'bind-space', 'elementwise-constant')]
	if bad:
		raise Violation(where, f'{what}: {bad[0][1]}')
	got = values(p.value)
	c = Canon(p)
	x = canon(X, c)
	g = [canon(refine(e, p.I), c) for e in got]
	if inside(p, S, 'empty'):
		if name == 'exp' and g != [const(1)]:
			raise Violation(where, f'{what} gives {show(g[0])}, exp(0) is 1')
		return 'null element'
	def compare(forms):
		fs = [[canon(refine(e, p.I), c) for e in (f if isinstance(f, (list, tuple)) else [f])] for f in forms]
		if g in fs:
			return '; '.join(show(e) for e in g)
		if scs:
			if [scalar_view(e, scs) for e in g] in [[scalar_view(e, scs) for e in f] for f in fs]:
				return '; '.join(show(e) for e in g)
		if all(plain(e) for e in g):
			raise Violation(where, f'{what} computes {"; ".join(show(e) for e in g)}, expected {"; ".join(show(e) for e in fs[0])}')
		raise Undecided(f'{what} computes {"; ".join(show(e) for e in g)}')
	scs = {t for t in c.sc}
	if name == 'inverse':
		r = g[0]
		prods = [canon(x * r, c), canon(r * x, c)]
		if not any(q.is_one() for q in prods):
			if plain(r):
				raise Violation(where, f'{what} computes {show(r)}; times x that is {show(prods[0])}, not 1')
			raise Undecided(show(r))
		simple = [c_[1] for c_, v in p.conds if v and c_[0] == 'nsimple']
		simple += [c_[1] for c_, v in p.conds if v and c_[0] == 'inside' and c_[2] == SCALAR]
		keys = {t[1] if t[0] == 'out' else nkey(tokexpr(t)) for t in simple}
		den = inverses(got[0])
		if simple and den and not any(tok_of(d) in keys for d in den):
			raise Violation(where, f'{what}: the condition establishes that {", ".join(showtok(t) for t in simple)} is simpler, but the rule inverts {show(den[0])}')
		return show(r)
	if name == 'square_root':
		r = g[0]
		if canon(r * r, c) == x:
			return show(r)
		if inside(p, S, 'scalar'):
			r = canon(scalar_view(r, {S}), c)
			if r == power(atom('x', SCALAR), HALF) or r == canon(power(X, HALF), c):
				return show(r)
			if plain(r):
				raise Violation(where, f'{what} computes {show(r)}, which does not square to x')
			raise Undecided(show(r))
		deg = any(v and k[0] == 'is_degenerate' and k[1] == ('n', frozenset({('name', 'nonscalar', ()), S})) for k, v in p.conds)
		st = Study(c, deg)
		q = st.of(r)
		res = st.add(st.mul(q, q), {(('s', 1),): Fraction(-1), (('v', 1),): Fraction(-1)})
		if not is_study(p, X):
			raise Violation(where, f'{what}: a root formula for Study numbers is selected for elements that are not')
		if not st.zero(res):
			raise Violation(where, f'{what} computes {show(r)}, whose square is not x')
		return show(r)
	if name == 'exp':
		r = g[0]
		if inside(p, S, 'scalar'):
			if r == canon(factor(('fn', 'exp', (nkey(X),), (), False)), c) or r == factor(('fn', 'exp', (nkey(x),), (), True)):
				return show(r)
			if square_empty(p, X * X) and r == x + const(1):
				return show(r)
		if r in (dnode('exp_bisect', X), dnode('exp_bisect', x)):
			return show(r)
		poly = all(all(f[0] == ('a', 'x', f[0][2]) and not f[1] and not f[2] for f in w) for w in r.t)
		if poly:
			# only terms below the vanishing power are determined
			if Expr({w: k for w, k in r.t.items() if len(w) < 2}) != x + const(1):
				raise Violation(where, f'{what} computes {show(r)}, which is not the exponential')
			if not square_empty(p, X * X):
				raise Violation(where, f'{what} computes {show(r)}, but nothing guarantees that the square of x vanishes')
			return show(r)
		raise Undecided(show(r))
	if name == 'log':
		return compare([factor(('fn', 'log', (nkey(x),), (), True)), factor(('fn', 'log', (nkey(X),), (), False))])
	if name == 'motor_log':
		r = g[0]
		if r == dnode('motor_log_bisect', X):
			return show(r)
		if r == sel(X, BIV):
			ds = any(v and k == ('is_degenerate_scalar', S) for k, v in p.conds)
			if not ds:
				raise Violation(where, f'{what}: the bivector part is returned although the bivector may have a nonzero square')
			return show(r)
		return compare([dnode('motor_log_bisect', X)])
	if name == 'decompose_polar':
		return compare([(sel(X * power(X * X.rev(), -HALF), BIV), power(X * X.rev(), HALF)), (sel(power(X * X.rev(), -HALF) * X, BIV), power(X * X.rev(), HALF))])
	if name == 'decompose_invariant':
		tot = Expr()
		for e in g:
			tot = tot + e
		b = [canon(sel(X, BIV), c), x]
		if tot not in b:
			if all(plain(e) for e in g):
				raise Violation(where, f'{what}: the parts {"; ".join(show(e) for e in g)} do not sum to the bivector')
			raise Undecided('; '.join(show(e) for e in g))
		if Expr() in g:
			sq = any(v and k[0] in ('inside', 'eq') and any(t[0] == 'out' and t[1] == tok_of(X * X) for t in (k[1:2] if k[0] == 'inside' else k[1])) and (k[2] == SCALAR if k[0] == 'inside' else SCALAR in k[1]) for k, v in p.conds)
			if not sq:
				raise Violation(where, f'{what}: the bivector is returned undivided although its square need not be a scalar')
			return 'simple'
		b2 = X * X
		forms = []
		for num in (lambda e: sneg(b2) * e, lambda e: e * sneg(b2)):
			h = num(X) * inverse(dnode('study_norm', b2).scale(2))
			u, v = sel(X.scale(HALF) + h, BIV), sel(X.scale(HALF) - h, BIV)
			h2 = inverse(dnode('study_norm', b2).scale(2)) * num(X)
			forms += [(u, v), (v, u)]
		def loose(e):
			return canon(e, c)
		outs = []
		for f in forms:
			outs.append([loose(e) for e in f])
		if g in outs or mixed(g, outs):
			return '; '.join(show(e) for e in g)
		if all(plain(e) for e in g):
			raise Violation(where, f'{what} computes {"; ".join(show(e) for e in g)}, expected {"; ".join(show(e) for e in outs[0])}')
		raise Undecided('; '.join(show(e) for e in g))
	if name == 'motor_translator':
		if inside(p, S, 'rotor'):
			return compare([const(1)])
		return compare([const(1) + eucl(X)])
	if name == 'motor_rotor':
		return compare([X] if inside(p, S, 'rotor') else [sel(X, ('nondegenerate', S))])
	if name == 'motor_split':
		sw = func('gsel', [X * Y * X.rev()], (T,))
		t = msqrt(sw * inverse(Y))
		t2 = msqrt(inverse(Y) * sw)
		forms = [(t, t.rev() * X), (t2, t2.rev() * X)]
		tr = [const(1) + eucl(X), dnode('motor_translator', X)]
		ro = [sel(X, ('nondegenerate', S)), dnode('motor_rotor', X)]
		if any(v and k[0] == 'is_degenerate' and k[1] in (('dualsub', T), ('c', T)) for k, v in p.conds):
			forms += [(a, b) for a in tr for b in ro]
		if any(v and k[0] == 'is_blade' for k, v in p.conds):
			strip = lambda e: Expr({k2: c1 * c2 for w, c1 in e.t.items() for k2, c2 in (unkeyE(w[0][0][2][0]).t.items() if len(w) == 1 and w[0][0][:2] == ('f', 'sel') and not w[0][1] and not w[0][2] else [(w, 1)])})
			g = [strip(e) for e in g]         # the blade-wise selection is not verified
		return compare(forms)
	f = expected(name, p)
	if f is None:
		raise Undecided('no definition to compare with')
	return compare(f)


def mixed(g, outs):
	"""the two parts may be spelled with different orders of commuting factors"""
	firsts = [o[0] for o in outs]
	for o in outs:
		for q in outs:
			if g == [o[0], q[1]] and o[0] + q[1] in (outs[0][0] + outs[0][1],):
				return True
	# same multiset per word
	def bag(e):
		def nb(n):
			if n[0] == 'f':
				return (n[1], tuple(bag(unkeyE(a)) for a in n[2]), n[3])
			return n
		out = {}
		for w, c in e.t.items():
			fs = []
			for n, r, i in w:
				if n[0] == 'f' and n[1] == 'sel' and len(n[2]) == 1 and n[3] == (BIV,):
					(k, c1), = dict(n[2][0]).items()
					fs += [(f[0], f[1], f[2]) for f in k]
				else:
					fs.append((n, r, i))
			key = tuple(sorted(map(repr, fs)))
			out[key] = out.get(key, 0) + c
		return frozenset(out.items())
	bg = [bag(e) for e in g]
	return any(bg == [bag(e) for e in o] for o in outs)


def eucl(x):
	rh = lambda e: func('rh', [e])
	return sel(rh(x * rh(x)), BIV)


ARITY = {'motor_geometric_mean': 2, 'motor_split': 2}
REQUIRED = ('motor_inverse', 'inverse', 'square_root', 'inverse_square_root', 'motor_square_root', 'motor_geometric_mean', 'exp', 'log', 'motor_log', 'motor_log_linear', 'exp_linear',
	'motor_log_linear_normalized', 'exp_linear_normalized', 'exp_quadratic', 'motor_log_quadratic', 'motor_log_bisect', 'exp_bisect', 'study_norm_squared', 'study_norm', 'norm_squared', 'norm', 'normalized',
	'decompose_polar', 'decompose_invariant', 'motor_translator', 'motor_rotor', 'motor_split')


def rules(rep, rule):
	base = make()()
	I0 = base.I
	names = set(base.dispatch_names().values())
	for name in REQUIRED:
		if name not in names:
			rep.lost.append(f'mv.{name}')
			continue
		n = ARITY.get(name, 1)
		for k, (cond, f) in enumerate(opts(base, name)):
			fn = unwrap(f)
			where = f'{os.path.relpath(fn.module.path, I0.repo)}:{fn.node.lineno} ({fn.name})' if isinstance(fn, PyFunc) else name
			if 'bisect' in name:
				bisect(rep, name, k, where)
				continue
			def call(s):
				c, g = opts(s, name)[k]
				t = s.I.call(c, [s.w.sub('S'), s.w.sub('T')][:n], {})
				if not s.I.truth(t):
					return 'not selected'
				return s.I.call(g, [s.mv('x', 'S'), s.mv('y', 'T')][:n], {})
			def go():
				out = ''
				hit = 0
				for p in run_paths(make((name, k)), call):
					rep.absorb(p.I)
					if p.kind == 'value' and isinstance(p.value, str):
						continue
					hit += 1
					out = judge_rule(rep, name, k, p, where, f'{name} rule {k} ({fn.name})')
				if not hit:
					raise Undecided('never selected')
				return out
			rep.run(f'{name}[{k}] {fn.name}', rule, go, where)


def main():
	rep = Report('C19', 'Every implementation registered for a subspace-dispatched method is abstractly interpreted together with the condition that selects it, on a multivector with symbolic components in a symbolic subspace. The result, a word expression over x, its involutions, inverses and roots, must be what the method name defines under the facts the condition establishes: x * inverse == 1, root * root == x in the algebra of Study numbers, parts that recombine to x, and so on.',
		['scalar roots are taken in the domain where they exist', 'x * x.reverse() of an even bivector polynomial stays in grades 0 and 4 modulo 4 (used to drop a grade selection)', 'convergence of bisection and Newton schemes is not claimed (N01)'])
	rules(rep, RULE)
	shirokov(rep)
	hitzer(rep)
	simple(rep)
	normal_equations(rep)
	return rep.finish()


def normal_equations(rep):
	"""inverse_la solves (P'P) r = P'e0, where P is the product of x with the space of inverses and e0 the unit scalar"""
	from ..tensetup import T, explore_T, decide_path, same_tensor, BACKENDS
	from ..tensor import Ten, ONE, Sub
	RL = 'the components solve the normal equations of x * r = 1'
	for backend in ('numpy', 'jax'):
		q = BACKENDS[backend][1]
		def mk(backend=backend):
			t = T(backend)
			def product(a, b):
				if isinstance(a, Sub) and isinstance(b, Sub) and (a.tok, b.tok) == (('in', 'A'), ('in', 'B')):
					return t.op('P', ['A', 'B', 'Z'])
				if isinstance(a, Sub) and isinstance(b, Sub) and (a.tok, b.tok) == (('in', 'A'), ('in', 'A')):
					return t.op('PA', ['A', 'A', 'ZA'])
				return Top('another product')
			def inverse_factor(a):
				return t.op('F', ['A', 'A', 'B']) if isinstance(a, Sub) and a.tok == ('in', 'A') else Top('inverse factor of another space')
			t.w.opfac = dict(inverse_factor=inverse_factor, product=product, geometric_product=product, gp=product)
			return t
		base = mk()
		try:
			where = loc(base.I, q + '.inverse_la')
		except Exception:
			where = q
		for batch in ((), ('n',), ('m', 'n')):
			def call(t, batch=batch):
				t.w.solved = []
				return t.I.call(t.I.getattr(t.mv('x', 'A', batch), 'inverse_la'), [], {})
			def go(batch=batch, mk=mk, call=call, where=where, backend=backend):
				out = ''
				for p in explore_T(mk, call):
					rep.absorb(p.I)
					decide_path(p, where, f'{backend} inverse_la')
					t, w, r = p.t, p.t.w, p.value
					if len(w.solved) != 1 or not isinstance(r, Obj):
						raise Undecided(f'{len(w.solved)} linear systems, result {r}')
					m, b = w.solved[0]
					lib = backend
					axes = [(w.V.fresh(('b', x)), ('b', x)) for x in batch]
					bt = tuple(v for v, _ in axes)
					L = w.length
					A, B, Z = ('in', 'A'), ('in', 'B'), ('in', 'Z')
					sub = r.attrs.get('subspace')
					if not isinstance(sub, Sub):
						raise Undecided(f'{sub}')
					if sub.tok != B:
						raise Violation(where, f'{backend} inverse_la: the solution is read as components of {sub}')
					j, k, o, a1, a2 = (w.V.fresh(L(x)) for x in (B, B, Z, A, A))
					wantm = Ten(w, axes + [(j, L(B)), (k, L(B))], ((ONE, (('P', (a1, j, o)), ('P', (a2, k, o)), ('x', bt + (a1,)), ('x', bt + (a2,))), (a1, a2, o)),), lib)
					same_tensor(w, m, wantm, where, f'{backend} inverse_la: matrix of the system')
					j, o, a1 = (w.V.fresh(L(x)) for x in (B, Z, A))
					wantb = Ten(w, axes + [(j, L(B))], ((ONE, (('P', (a1, j, o)), ('x', bt + (a1,)), (('blade is', Z, 0), (o,))), (a1, o)),), lib)
					same_tensor(w, b, wantb, where, f'{backend} inverse_la: right hand side of the system')
					out = same_tensor(w, r.attrs['values'], w.atom(('solution', 1), [s for _, s in b.axes], lib), where, f'{backend} inverse_la: result')
				return out
			rep.run(f'{backend} inverse_la batch {batch}', RL, go, where)


def bisect(rep, name, k, where):
	"""doubling: m(b / 2**n) squared n times / n roots then times 2**n"""
	for n in (1, 2, 3):
		def call(s):
			c, g = opts(s, name)[k]
			s.I.truth(s.I.call(c, [s.w.sub('S')], {}))
			q = 'exp_quadratic' if name == 'exp_bisect' else 'motor_log_quadratic'
			return s.I.call(g, [s.mv('x', 'S'), n], {})
		def go():
			for p in run_paths(make((name, k)), call):
				rep.absorb(p.I)
				if p.kind == 'undecided':
					raise Undecided(p.value)
				if p.kind == 'raise':
					raise Violation(where, f'{name}(x, n={n}) raises {p.value}')
				if p.imprecise:
					raise Undecided(p.imprecise[0])
				got = values(p.value)[0]
				if name == 'exp_bisect':
					want = const(1)
					for _ in range(2 ** n):
						want = want * dnode('exp_quadratic', X.scale(Fraction(1, 2 ** n)))
					wants = [want]
				else:
					m = X
					for _ in range(n):
						m = msqrt(m)
					wants = [dnode('motor_log_quadratic', m).scale(2 ** n), dnode('motor_log_linear_normalized', msqrt(m)).scale(2 ** (n + 1)), LLN(msqrt(m)).scale(2 ** (n + 1))]
				if got not in wants:
					if plain(got):
						raise Violation(where, f'{name}(x, n={n}) computes {show(got)[:200]}, expected {show(wants[0])[:200]}')
					raise Undecided(show(got))
			return show(wants[0])[:100]
		rep.run(f'{name} n={n}', 'halving and doubling steps match', go, where)


def shirokov(rep):
	q = 'numga.multivector.multivector:AbstractMultiVector.inverse_shirokov'
	base = make()()
	where = loc(base.I, q)
	for d in (1, 2, 3, 4, 5, 6):
		def mk():
			s = make(dims=d)()
			s.w.generic = d > 2
			return s
		def go():
			n = 2 ** ((d + 1) // 2)
			s0 = lambda e: sel(e, SCALAR)
			u = X
			prev = None
			for k in range(1, n):
				prev = u - s0(u).scale(Fraction(n, k))
				u = X * prev
			want = prev * inverse(s0(u), True)
			for p in run_paths(mk, lambda s: s.I.call(s.I.getattr(s.mv('x', 'S'), 'inverse_shirokov'), [], {})):
				rep.absorb(p.I)
				if p.kind == 'undecided' or p.imprecise:
					raise Undecided(p.value if p.kind == 'undecided' else p.imprecise[0])
				if p.kind == 'raise':
					raise Violation(where, f'inverse_shirokov in {d} dimensions raises {p.value}{showconds(p)}')
				c = Canon(p)
				got = canon(values(p.value)[0], c)
				w = canon(want, c)
				if got != w and scalar_view(got, c.sc) != scalar_view(w, c.sc):
					if not plain(got):
						raise Undecided(show(got)[:200])
					raise Violation(where, f'inverse_shirokov in {d} dimensions{showconds(p)[:200]} computes {show(got)[:150]}, expected {show(w)[:150]}')
			return f'{n - 1} steps'
		rep.run(f'inverse_shirokov, {d} dimensions', 'recurrence of Theorem 4 of arXiv:2005.04015', go, q)


def hitzer(rep):
	from .c09 import check_path, UN
	q = 'numga.multivector.multivector:AbstractMultiVector.inverse_hitzer'
	mk = make()
	where = loc(mk().I, q)
	f = UN['inverse_factor'](X)
	def go():
		out = ''
		for p in run_paths(mk, lambda s: s.I.call(s.I.getattr(s.mv('x', 'S'), 'inverse_hitzer'), [], {})):
			rep.absorb(p.I)
			out = check_path(p, f * inverse(sp(X, f), True), where, 'inverse_hitzer')
		return out
	rep.run('inverse_hitzer', 'an inverse rule divides a factor of x by the scalar product of x with that factor', go, where)


def simple(rep):
	"""is_n_simple(1) is established only by a self-product that is a scalar"""
	q = 'numga.subspace.subspace:SubSpace.is_n_simple'
	base = make()()
	where = loc(base.I, q)
	prods = {tok_of(e): n for n, e in dict(squared=X * X, reverse=X * X.rev(), involute=X * X.inv_(), conjugate=X * X.conj(), scalar_negation=X * sneg(X), pseudoscalar_negation=X * pneg(X)).items()}
	kinds = dict(is_squared_n_simple='squared', is_reverse_n_simple='reverse', is_involute_n_simple='involute', is_conjugate_n_simple='conjugate', is_scalar_negation_n_simple='scalar_negation', is_pseudoscalar_negation_n_simple='pseudoscalar_negation', is_n_simple=None)
	for name, kind in kinds.items():
		for n in (1, 2):
			if name == 'is_n_simple' and n == 2:
				continue
			def go():
				hits = 0
				for p in run_paths(make(), lambda s: s.I.truth(s.I.call(s.I.bind(s.w.SubSpace.lookup(name), s.w.sub('S'), s.w.SubSpace), [n], {})), 200):
					rep.absorb(p.I)
					if p.kind == 'undecided' or p.imprecise:
						raise Undecided(p.value if p.kind == 'undecided' else p.imprecise[0])
					if p.kind == 'raise':
						raise Violation(where, f'{name}({n}) raises {p.value}')
					if p.value is not True:
						continue
					hits += 1
					ok = []
					for k, v in p.conds:
						if not v:
							continue
						if n == 1 and k[0] == 'inside' and k[2] == SCALAR or n == 2 and k[0] == 'nsimple' and k[2] == 1:
							t = k[1]
							nm = prods.get(t[1] if t[0] == 'out' else nkey(tokexpr(t)))
							if nm is not None and kind in (None, nm):
								ok.append(nm)
					if not ok:
						raise Violation(loc(base.I, f'numga.subspace.subspace:SubSpace.{name}'), f'{name}({n}) is true{showconds(p)}, which does not say that the {kind or "self"} product is {"a scalar" if n == 1 else "1-simple"}')
				if not hits:
					raise Violation(where, f'{name}({n}) is never true')
				return f'{hits} true partitions'
			rep.run(f'{name}({n})', 'simplicity is established by the self-product it names', go, q)
