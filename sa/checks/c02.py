"""C02: description bookkeeping, over symbolic generator names, signs and counts.

Generator names are strings of opaque characters (private-use code points no
program text can mention), sign characters are unknown elements of {+,-,0}
(U+F000+i), so one abstract run covers every naming and every signature.
"""
import itertools
from ..core import *
from ..bits import *
from ..report import Report, Violation, Undecided, loc
from ..algebra_setup import *

D = 'numga.algebra.description:AlgebraDescription'
A = 'numga.algebra.algebra:Algebra'
RULE = 'generator order, name and sign preserved'


def nm(i, j=0):
	# never in lexicographic order, nor in its reverse
	return chr(0xE000 + 16 * ((i * 150 + 200) % 251) + j)


def names_of(lens, base=0):
	return tuple(''.join(nm(i + base, j) for j in range(l)) for i, l in enumerate(lens))


def sc(i):
	return chr(0xF000 + i)


def is_sc(x):
	return isinstance(x, str) and len(x) == 1 and 0xF000 <= ord(x) < 0xF100


class Count(AV):
	"""unknown non-negative count"""
	def __init__(self, name):
		self.name = name
	def __repr__(self):
		return self.name
	def a_key(self):
		return ('count', self.name)
	def a_binop(self, I, op, other, refl):
		if op == '*' and isinstance(other, str):
			return Runs([(other, self.name)])
		return NotImplemented


class Runs(AV):
	"""string of runs of symbolic length"""
	def __init__(self, runs):
		self.runs = list(runs)
	def __repr__(self):
		return '+'.join(f'{c!r}*{k}' for c, k in self.runs)
	def a_binop(self, I, op, other, refl):
		if op == '+':
			o = other.runs if isinstance(other, Runs) else [(other, '1')] if isinstance(other, str) and other else [] if other == '' else None
			if o is None:
				return NotImplemented
			return Runs(o + self.runs if refl else self.runs + o)
		return NotImplemented


class StrWorld(BitsWorld):
	"""bit world + symbolic sign characters"""
	def __init__(self, n):
		BitsWorld.__init__(self, n)
		self.text_of = text_of
		oldbin = self.binop
		self.binop = lambda I, op, a, b: EmptyStrings() if op == '*' and (a == [''] and isinstance(b, DimTok) or isinstance(a, DimTok) and b == ['']) else oldbin(I, op, a, b)
		old = self.ext.get('numpy.array')
		self.ext['numpy.array'] = lambda I, a, k: Chars([]) if len(a) == 1 and isinstance(a[0], EmptyStrings) else old(I, a, k) if callable(old) else I.top('array')
		self.ext['numpy.char.multiply'] = charmul
		self.ext['numpy.strings.multiply'] = charmul
		self.ext['numpy.char.add'] = charadd
		self.ext['numpy.strings.add'] = charadd
		self.ext['numpy.where'] = self.np_where(self.ext.get('numpy.where'))
	def np_where(self, old):
		def f(I, a, k):
			if len(a) == 3 and isinstance(a[1], str) and a[2] == '' and isinstance(a[0], (BoolV, BV)):
				return charmul(I, [a[1], a[0]], {})
			return old(I, a, k) if old else I.top('where')
		return f
	def atom_of(self, x):
		return SignAtom(self, ord(x) - 0xF000)
	def getitem(self, I, o, k):
		if isinstance(o, dict):
			if is_sc(k):
				kk = {unkey(x): v for x, v in o.items()}
				if {'+', '-', '0'} <= set(kk):
					vals = {c: kk[c] for c in '+-0'}
					if vals == {'+': 1, '-': -1, '0': 0}:
						return self.atom_of(k)
					return Remap(self.atom_of(k), vals)
				raise PyRaise('KeyError', 'sign')
			if isinstance(k, SignAtom):
				kk = {unkey(x): v for x, v in o.items()}
				if all(v in kk for v in (-1, 0, 1)):
					d = {v: kk[v] for v in (-1, 0, 1)}
					if d == {-1: '-', 0: '0', 1: '+'}:
						return sc(k.i)
					if all(isinstance(x, str) for x in d.values()):
						return Remap(k, d)
		return NotImplemented
	def contains(self, I, c, x):
		if is_sc(x):
			if isinstance(c, str):
				have = [ch in c for ch in '+-0']
				if x in c or all(have):
					return True
				return Top('sign char membership') if any(have) else False
			items = [unkey(y) for y in c] if isinstance(c, (dict, set, frozenset)) else list(c) if isinstance(c, (list, tuple)) else None
			if items is None:
				return NotImplemented
			if x in items:
				return True
			have = [ch in items for ch in '+-0']
			if all(have):
				return True
			if not any(have):
				return False
			return Top('sign char membership')
		return NotImplemented
	def compare(self, I, op, a, b):
		if op in ('==', '!=') and (is_sc(a) or is_sc(b)):
			if is_sc(b) and not is_sc(a):
				a, b = b, a
			if is_sc(b):
				if a == b:
					return op == '=='
				return Top('equality of two unknown signs')
			v = {'+': 1, '-': -1, '0': 0}.get(b)
			if v is None:
				return op != '=='
			return self.atom_of(a).a_cmp(I, op, v, False)
		return NotImplemented


class Remap(AV):
	"""a sign looked up in a table that is not the expected one"""
	def __init__(self, atom, d):
		self.atom, self.d = atom, d
	def __repr__(self):
		return f'sign {self.atom.i} translated by {self.d}'


class Chars(AV):
	"""array of strings: concatenation of segments, each present when a bit is set"""
	def __init__(self, segs):
		self.segs = list(segs)
	def __repr__(self):
		return f'Chars({len(self.segs)} segments)'
	def a_join(self, I, sep):
		return Joined(sep, self)


def bit_of(v):
	if isinstance(v, BoolV):
		# value 1 where all bits zero (neg False)
		p = frozenset()
		if v.neg:
			return ('any', v.S)
		return ('none', v.S)
	if isinstance(v, IntV) and v.is_bit():
		return ('bit', v.as_bit())
	if isinstance(v, BV) and all(b == ZERO for b in v.bits[1:]):
		return ('bit', v.bits[0])
	return None


class EmptyStrings(AV):
	"""list of empty strings, one per blade"""


def text_of(I, v, t):
	b = bit_of(v)
	return Chars([('digit', b)]) if b is not None and 'str' in str(t) else None


def charmul(I, a, k):
	b = bit_of(a[1])
	if isinstance(a[0], str) and b is not None:
		return Chars([(a[0], b)])
	return I.top('char.multiply')


def charadd(I, a, k):
	def seg(x):
		if isinstance(x, Chars):
			return x.segs
		if isinstance(x, str):
			return [(x, ('bit', ONE))] if x else []
		return None
	x, y = seg(a[0]), seg(a[1])
	if x is None or y is None:
		return I.top('char.add')
	return Chars(x + y)


def mk(n):
	w = StrWorld(n)
	return Interp(w), w


def expect_desc(I, d, names, idx, where):
	check_clean(I, where)
	gn = I.getattr(d, 'basis_names')
	gs = I.getattr(d, 'signature')
	gn, gs = list(I.iterate(gn)), list(I.iterate(gs))
	if gn != list(names):
		raise Violation(where, f'generator names come out as {show(gn)} instead of {show(names)}')
	for j, (x, i) in enumerate(zip(gs, idx)):
		if isinstance(x, SignAtom):
			if x.i != i:
				raise Violation(where, f'generator {j} receives the sign written for generator {x.i}')
		elif isinstance(x, (Remap, int)):
			raise Violation(where, f'generator {j}: sign becomes {x}')
		else:
			raise Undecided(f'sign {x}')
	if len(gs) != len(idx):
		raise Violation(where, f'{len(gs)} signs for {len(idx)} generators')


def show(ns):
	return [''.join(f'n{(ord(c) - 0xE000) // 16}' if 0xE000 <= ord(c) < 0xF000 else f's{ord(c) - 0xF000}' if is_sc(c) else c for c in x) if isinstance(x, str) else str(x) for x in ns]


LENS = [(1,), (2,), (1, 1), (2, 1), (1, 3), (1, 1, 1), (2, 1, 2), (3, 2, 1, 1), (1,) * 5, (1, 2, 1, 2, 1, 2), (1,) * 8, (2,) * 12]


def readings(s, names):
	if not s:
		return 1
	return sum(readings(s[len(n):], names) for n in names if s.startswith(n))


def main():
	rep = Report('C02', 'Abstract interpretation of the description and bit-mask code with opaque generator names, unknown signs and symbolic counts; '
		'results are compared position by position with what was written.',
		['str/int/tuple semantics of sa/core.py', 'parsing is checked per name-length pattern (all names and all signs of each pattern at once)'])

	for lens in LENS:
		n = len(lens)
		names = names_of(lens)
		tag = f'lengths {lens}'

		def from_str():
			I, w = mk(n)
			s = ''.join(x + sc(i) for i, x in enumerate(names))
			d = I.call(I.get(D + '.from_str'), [s], {})
			rep.absorb(I)
			expect_desc(I, d, names, range(n), loc(I, 'numga.algebra.description:parse_description'))
			ds = I.getattr(d, 'description_str')
			if isinstance(ds, str):
				if ds != s:
					raise Violation(loc(I, D + '.description_str'), f'describes itself as {show([ds])} instead of {show([s])}')
			elif isinstance(ds, AV) or True:
				check_clean(I, 'description_str')
				raise Undecided(f'description_str {ds}')
			ss = I.getattr(d, 'signature_str')
			if ss != ''.join(sc(i) for i in range(n)):
				raise Violation(loc(I, D + '.signature_str'), f'signature string {show([ss])}')
			return 'names and signs preserved, round trip exact'
		rep.run(f'from_str {tag}', RULE, from_str, D + '.from_str')

		def tokens():
			I, w = mk(n)
			d = I.call(I.get(D), [names, tuple(SignAtom(w, i) for i in range(n))], {})
			for k in range(0, min(3, n) + 1):
				for c in itertools.islice(itertools.permutations(range(n), k), 40):
					r = I.call(I.getattr(d, 'parse_tokens'), [''.join(names[i] for i in c)], {})
					check_clean(I, 'parse_tokens')
					r = list(I.iterate(r))
					if r != list(c):
						raise Violation(loc(I, D + '.parse_tokens'), f'blade name {show([names[i] for i in c])} parsed as {r} instead of {list(c)}')
			bad = None
			try:
				I.call(I.getattr(d, 'parse_tokens'), [names[0] + nm(200)], {})
				bad = True
			except PyRaise:
				pass
			if bad:
				raise Violation(loc(I, D + '.parse_tokens'), 'an unknown trailing name is accepted')
			rep.absorb(I)
			return 'token order and index'
		rep.run(f'parse_tokens {tag}', 'blade names refer to the generators written', tokens, D + '.parse_tokens')

	def prefixes():
		# e1, .., e10, ..: one name continues another, but a written blade has only one reading
		for names in (('pa', 'pb', 'pab', 'pcd'), ('pab', 'pa'), ('q', 'qrs', 'r', 't')):
			names = tuple(''.join(nm(ord(c)) for c in x) for x in names)
			I, w = mk(len(names))
			d = I.call(I.get(D), [names, tuple(SignAtom(w, i) for i in range(len(names)))], {})
			for k in range(0, 4):
				for c in itertools.product(range(len(names)), repeat=k):
					s = ''.join(names[i] for i in c)
					if readings(s, names) != 1:
						continue
					try:
						r = list(I.iterate(I.call(I.getattr(d, 'parse_tokens'), [s], {})))
					except Budget as e:
						check_clean(I, 'parse_tokens')
						if 'while' not in str(e):
							raise
						raise Violation(loc(I, D + '.parse_tokens'), f'the blade written as generators {list(c)} is read without end')
					except PyRaise as e:
						check_clean(I, 'parse_tokens')
						raise Violation(loc(I, D + '.parse_tokens'), f'the blade written as generators {list(c)} is not recognised ({e}) when the name of one generator continues that of another, like e1 and e10')
					check_clean(I, 'parse_tokens')
					if r != list(c):
						raise Violation(loc(I, D + '.parse_tokens'), f'the blade written as generators {list(c)} is parsed as {r} when the name of one generator continues that of another, like e1 and e10')
			rep.absorb(I)
		return 'unique readings are found'
	rep.run('parse_tokens with names that continue others', 'blade names refer to the generators written', prefixes, D + '.parse_tokens')

	for n in (1, 2, 3, 5, 8, 9, 16, 17, 26, 27, 31, 32):
		def from_sig():
			I, w = mk(n)
			s = ''.join(sc(i) for i in range(n))
			d = I.call(I.get(D + '.from_signature'), [s], {})
			rep.absorb(I)
			check_clean(I, 'from_signature')
			gn = list(I.iterate(I.getattr(d, 'basis_names')))
			if len(set(gn)) != n:
				raise Violation(loc(I, D + '.from_signature'), f'{n} signs give {len(set(gn))} distinct names')
			expect_desc(I, d, gn, range(n), loc(I, D + '.from_signature'))
			return 'i-th sign on i-th generator'
		rep.run(f'from_signature n={n}', RULE, from_sig, D + '.from_signature')

	def pqr_runs(target, call):
		def f():
			I, w = mk(1)
			got = []
			w.intercepts['numga.algebra.description.AlgebraDescription.from_signature'] = lambda I, a, k: got.append(a[0] if a else k.get('sig')) or I.call(I.get(D), [('a',), (1,)], {})
			call(I)
			rep.absorb(I)
			check_clean(I, target)
			if len(got) != 1 or not isinstance(got[0], Runs):
				raise Undecided(f'{got}')
			want = [('+', 'p'), ('-', 'q'), ('0', 'r')]
			if got[0].runs != want:
				raise Violation(loc(I, D + '.from_pqr'), f'(p, q, r) becomes {got[0]}')
			return str(got[0])
		return f
	cnt = [Count('p'), Count('q'), Count('r')]
	rep.run('from_pqr', RULE, pqr_runs('from_pqr', lambda I: I.call(I.get(D + '.from_pqr'), cnt, {})), D + '.from_pqr')
	rep.run('Algebra.from_pqr', RULE, pqr_runs('Algebra.from_pqr', lambda I: I.call(I.get(A + '.from_pqr'), cnt, {})), A + '.from_pqr')
	rep.run('Algebra(tuple)', RULE, pqr_runs('Algebra', lambda I: I.call(I.get(A), [tuple(cnt)], {})), A)

	for lens in LENS[:8]:
		n = len(lens)
		names = names_of(lens)

		def alg_str():
			I, w = mk(n)
			s = ''.join(x + sc(i) for i, x in enumerate(names))
			for f in (A, A + '.from_str'):
				a = I.call(I.get(f), [s], {})
				expect_desc(I, I.getattr(a, 'description'), names, range(n), loc(I, A))
			rep.absorb(I)
			return 'string construction'
		rep.run(f'Algebra(str) {lens}', RULE, alg_str, A)

		def mul():
			I, w = mk(n + 2)
			other = names_of((1, 2), base=n)
			mkd = lambda ns, idx: I.call(I.get(D), [tuple(ns), tuple(SignAtom(w, i) for i in idx)], {})
			d1, d2 = mkd(names, range(n)), mkd(other, (n, n + 1))
			r = I.call(I.getattr(d1, '__mul__'), [d2], {})
			expect_desc(I, r, list(names) + list(other), range(n + 2), loc(I, D + '.__mul__'))
			a1, a2 = I.call(I.get(A), [d1], {}), I.call(I.get(A), [d2], {})
			r = I.call(I.getattr(a1, '__mul__'), [a2], {})
			expect_desc(I, I.getattr(r, 'description'), list(names) + list(other), range(n + 2), loc(I, A + '.__mul__'))
			rep.absorb(I)
			return 'concatenation in order'
		rep.run(f'product algebra {lens}', RULE, mul, D + '.__mul__')

		def clash():
			# one shared generator, at every pair of positions, next to distinct ones
			for i in range(n):
				for j in range(2):
					I, w = mk(n + 2)
					other = list(names_of((1, 2), base=n))
					other[j] = names[i]
					mkd = lambda ns, idx: I.call(I.get(D), [tuple(ns), tuple(SignAtom(w, q) for q in idx)], {})
					d1, d2 = mkd(names, range(n)), mkd(other, (n, n + 1))
					try:
						r = I.call(I.getattr(d1, '__mul__'), [d2], {})
					except PyRaise:
						continue
					if I.imprecise:
						raise Undecided(f'{I.imprecise[:2]}')
					raise Violation(loc(I, D + '.__mul__'), f'algebras of {n} and 2 generators that share one name (positions {i} and {j}) are multiplied without an error; the product {r} names two different generators the same')
			return 'shared names are rejected'
		rep.run(f'product of overlapping algebras {lens}', 'generators of a product algebra stay distinct', clash, D + '.__mul__')

	for n in (1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 24, 25, 32):
		def masks():
			I, w, alg = _mk_alg(n)
			m, z = atoms(w, 'm'), atoms(w, 'z')
			spec = dict(negatives=m, zeros=z, positives=[ONE ^ m[i] ^ z[i] for i in range(n)])
			for name, bits in spec.items():
				v = I.getattr(alg, name)
				check_clean(I, name)
				if isinstance(v, IntV):
					want = mk_int([(b, 1 << i) for i, b in enumerate(bits)], 0, 'py', ())
					m2 = (1 << v.mod) if v.mod is not None else None
					red = lambda t: {b: c % m2 if m2 else c for b, c in t.items() if (c % m2 if m2 else c)}
					if m2 and v.mod < n:
						raise Undecided(f'{name} = {v}')
					if red(v.terms) != red(want.terms) or (v.const % m2 if m2 else v.const):
						raise Violation(loc(I, f'{A}.{name}'), f'n={n}: the {name} mask does not give bit i the weight 2**i: {sorted(v.terms.values())[:40]}')
					continue
				if not isinstance(v, BV):
					raise Undecided(f'{name} = {v}')
				for i in range(max(n, len(v.bits))):
					g = v.bits[i] if i < len(v.bits) else ZERO
					h = bits[i] if i < n else ZERO
					if g != h:
						raise Violation(loc(I, f'{A}.{name}'), f'n={n}: bit {i} of the {name} mask is {w.vars.show(g)} instead of {w.vars.show(h)}')
			d = I.getattr(alg, 'description')
			p, q, r = I.iterate(I.getattr(d, 'pqr'))
			for what, v, bits in (('p', p, spec['positives']), ('q', q, m), ('r', r, z)):
				if isinstance(v, BV):
					from ..bits import as_bv
				want = mk_int([(b, 1) for b in bits], 0, 'py', ())
				if not isinstance(v, IntV):
					raise Undecided(f'pqr {v}')
				if v.const != want.const or v.terms != want.terms:
					raise Violation(loc(I, D + '.pqr'), f'n={n}: the count {what} does not count its generators')
			if I.getattr(d, 'n_dimensions') != n or I.getattr(d, 'n_blades') != 2 ** n or I.getattr(d, 'n_grades') != n + 1:
				raise Violation(loc(I, D + '.n_dimensions'), f'n={n}: wrong counts')
			for nmx, val in (('n_dimensions', n), ('n_blades', 2 ** n), ('n_grades', n + 1)):
				if I.getattr(alg, nmx) != val:
					raise Violation(loc(I, f'{A}.{nmx}'), f'n={n}: {nmx} is {I.getattr(alg, nmx)}')
			every = list(I.iterate(I.getattr(d, 'all')))
			check_clean(I, 'all')
			if len(every) != n or any(int_of(x) is not None and int_of(x) != 1 for x in every):
				raise Violation(loc(I, D + '.all'), f'n={n}: the mask of all generators is {every}')
			if any(int_of(x) is None for x in every):
				raise Undecided(f'all = {every}')
			ln = I.call(I.getattr(alg, '__len__'), [], {})
			if ln != 2 ** n:
				raise Violation(loc(I, A + '.__len__'), f'n={n}: the length of the algebra is {ln}')
			rep.absorb(I)
			return 'bit i <-> generator i'
		rep.run(f'masks n={n}', 'bit i of every mask belongs to generator i', masks, A + '.negatives')

		def named():
			I, w, alg = _mk_alg(n)
			dt = dtname(I.getattr(alg, 'blade_dtype'))
			S = Obj(I.get('numga.subspace.subspace:SubSpace'))
			S.attrs['algebra'] = alg
			S.attrs['blades'] = w.generic_blade('a', dt, ('V',))
			r = I.getattr(S, 'named_str')
			rep.absorb(I)
			if not isinstance(r, Joined) or not isinstance(r.parts, Chars):
				check_clean(I, 'named_str')
				raise Undecided(f'named_str = {r}')
			_drop_len_trace(I)
			check_clean(I, 'named_str')
			a = atoms(w, 'a')
			nm_ = list(I.iterate(I.getattr(I.getattr(alg, 'description'), 'basis_names')))
			segs = [s for s in r.parts.segs]
			want = [(nm_[i], ('bit', a[i])) for i in range(n)]
			one = [s for s in segs if s[0] == '1']
			rest = [s for s in segs if s[0] != '1']
			if rest != want:
				raise Violation(loc(I, 'numga.subspace.subspace:SubSpace.named_str'), f'n={n}: blade names are not the generators present, in order')
			if len(one) != 1 or one[0][1] != ('none', frozenset(a)):
				raise Violation(loc(I, 'numga.subspace.subspace:SubSpace.named_str'), f'n={n}: the scalar is not the (only) blade named 1')
			if r.sep != ',':
				raise Violation(loc(I, 'numga.subspace.subspace:SubSpace.named_str'), f'separator {r.sep!r}')
			return 'generators present, in order'
		def bits():
			I, w, alg = _mk_alg(n)
			dt = dtname(I.getattr(alg, 'blade_dtype'))
			S = Obj(I.get('numga.subspace.subspace:SubSpace'))
			S.attrs['algebra'] = alg
			S.attrs['blades'] = w.generic_blade('a', dt, ('V',))
			r = I.getattr(S, 'bit_str')
			rep.absorb(I)
			where = loc(I, 'numga.subspace.subspace:SubSpace.bit_str')
			if not isinstance(r, Joined) or not isinstance(r.parts, Chars):
				check_clean(I, 'bit_str')
				raise Undecided(f'bit_str = {r}')
			_drop_len_trace(I)
			check_clean(I, 'bit_str')
			if r.parts.segs != [('digit', ('bit', x)) for x in atoms(w, 'a')] or r.sep != ',':
				raise Violation(where, f'n={n}: character i of the bit string of a blade is not bit i')
			return 'character i is bit i'
		rep.run(f'bit_str n={n}', 'bit strings written are the ones from_bit_str reads', bits, 'numga.subspace.subspace:SubSpace.bit_str')
		rep.run(f'named_str n={n}', 'blade names written refer to the generators present', named, 'numga.subspace.subspace:SubSpace.named_str')

	def sub_attr(lens):
		names = names_of(lens)
		I, w = mk(4)
		alg = I.call(I.get(A), [I.call(I.get(D), [names, tuple(SignAtom(w, i) for i in range(4))], {})], {})
		F = Obj(I.get('numga.subspace.factory:SubSpaceFactory'))
		F.attrs.update(algebra=alg, flyweight_pool={})
		S = I.get('numga.subspace.subspace:SubSpace')
		def sub(i):
			o = Obj(S)
			o.attrs.update(algebra=alg, blades=BV([ONE if j == i else ZERO for j in range(4)], 'uint8', (1,)))
			return o
		basis = [sub(i) for i in range(4)]
		w.intercepts['numga.subspace.factory.SubSpaceFactory.basis'] = lambda I, a, k: basis
		got = []
		w.intercepts['numga.subspace.factory.SubSpaceFactory.from_blades'] = lambda I, a, k: got.append(a[1] if len(a) > 1 else k.get('blades')) or basis[0]
		old = w.ext.get('numpy.array')
		w.ext['numpy.array'] = lambda I, a, k: a[0] if isinstance(a[0], list) else old(I, a, k)
		tests = [(0,), (2,), (1, 3), (0, 1, 2, 3)]
		string = '_'.join(''.join(names[i] for i in t) for t in tests)
		try:
			I.call(I.get('numga.subspace.factory:SubSpaceFactory.__getattr__'), [F, string], {})
		except PyRaise as e:
			check_clean(I, '__getattr__')
			raise Violation(loc(I, 'numga.subspace.factory:SubSpaceFactory.__getattr__'), f'a subspace named by blades of generators with names of {lens} characters raises {e}')
		rep.absorb(I)
		check_clean(I, '__getattr__')
		vals = list(I.iterate(got[0]))
		if len(vals) != len(tests):
			raise Violation(loc(I, 'numga.subspace.factory:SubSpaceFactory.__getattr__'), f'{len(tests)} blades requested, {len(vals)} built')
		for t, v in zip(tests, vals):
			want = sum(1 << i for i in t)
			x = int_of(v)
			if x is None:
				raise Undecided(f'{v}')
			if x != want:
				raise Violation(loc(I, 'numga.subspace.factory:SubSpaceFactory.__getattr__'), f'generators {t} give blade {x:04b} instead of {want:04b}')
		return 'sum of the named generators per blade'
	rep.run('subspace by name', 'blade names refer to the generators written', lambda: sub_attr((1, 1, 1, 1)), 'numga.subspace.factory:SubSpaceFactory.__getattr__')
	rep.run('subspace by name, longer names', 'blade names refer to the generators written', lambda: sub_attr((2, 1, 3, 2)), 'numga.subspace.factory:SubSpaceFactory.__getattr__')

	def mv_attr():
		for lens in ((1, 1, 1, 1), (2, 1, 3, 1)):
			names = names_of(lens)
			I, w = mk(4)
			alg = I.call(I.get(A), [I.call(I.get(D), [names, tuple(SignAtom(w, i) for i in range(4))], {})], {})
			F = Obj(I.get('numga.multivector.factory:MultiVectorFactory'))
			ctx = Ctx(alg)
			F.attrs['context'] = ctx
			w.intercepts['numga.multivector.factory.MultiVectorFactory.basis'] = lambda I, a, k: [Wedge((i,)) for i in range(4)]
			for t in [(0,), (3,), (1, 0), (0, 2, 3), (3, 1, 2, 0)]:
				r = I.call(I.get('numga.multivector.factory:MultiVectorFactory.__getattr__'), [F, ''.join(names[i] for i in t)], {})
				check_clean(I, '__getattr__')
				if not isinstance(r, Wedge):
					raise Undecided(f'{r}')
				if r.w != t:
					raise Violation(loc(I, 'numga.multivector.factory:MultiVectorFactory.__getattr__'), f'blade named by generators {t} is built as wedge of {r.w}')
			rep.absorb(I)
		return 'wedge of the named generators left to right'
	rep.run('multivector by name', 'blade names refer to the generators written', mv_attr, 'numga.multivector.factory:MultiVectorFactory.__getattr__')

	def pqr_str():
		for sig in ((1, 1, 1, 0), (1, -1, -1), (0, 0, 1, -1, 1, 1), (1,), (0,), (-1,), (-1, -1, 0, 1, -1)):
			I, w = mk(len(sig))
			d = I.call(I.get(D), [tuple('g%d' % i for i in range(len(sig))), sig], {})
			r = I.getattr(d, 'pqr_str')
			check_clean(I, 'pqr_str')
			want = ''.join(str(sig.count(s)) for s in (1, -1, 0))
			if not isinstance(r, str):
				raise Undecided(f'pqr_str = {r}')
			if r != want:
				raise Violation(loc(I, D + '.pqr_str'), f'signs {sig} give the counts {r!r} instead of {want!r}')
			rep.absorb(I)
		return 'counts of +, -, 0 in that order'
	rep.run('pqr_str', RULE, pqr_str, D + '.pqr_str')

	def biter():
		I, w = mk(9)
		e = w.generic_blade('a', 'uint16', ('V',))
		r = list(I.iterate(I.call(I.get('numga.algebra.bitops:biterator'), [e, 9], {})))
		check_clean(I, 'biterator')
		a = atoms(w, 'a')
		if len(r) != 9:
			raise Violation(loc(I, 'numga.algebra.bitops:biterator'), f'{len(r)} bits for 9 generators')
		for i, v in enumerate(r):
			b = bit_of(v)
			if b is None:
				raise Undecided(f'{v}')
			if b != ('bit', a[i]):
				raise Violation(loc(I, 'numga.algebra.bitops:biterator'), f'bit {i} is not the membership of generator {i}')
		r = list(I.iterate(I.call(I.get('numga.algebra.bitops:biterator'), [e, 7, 2], {})))
		if [bit_of(v) for v in r] != [('bit', a[i]) for i in range(2, 7)]:
			raise Violation(loc(I, 'numga.algebra.bitops:biterator'), 'skip/stop select the wrong bits')
		rep.absorb(I)
		return 'bit i of the blade'
	rep.run('biterator', 'bit i of every mask belongs to generator i', biter, 'numga.algebra.bitops:biterator')

	return rep.finish()


class Joined(AV):
	def __init__(self, sep, parts):
		self.sep, self.parts = sep, parts


class Ctx(AV):
	def __init__(self, alg):
		self.alg = alg
	def a_getattr(self, I, name):
		return self.alg if name == 'algebra' else I.top(name)


class Wedge(AV):
	"""ordered wedge of basis 1-blades"""
	def __init__(self, w):
		self.w = w
	def a_binop(self, I, op, other, refl):
		if op == '^' and isinstance(other, Wedge):
			return Wedge(other.w + self.w if refl else self.w + other.w)
		return NotImplemented
	def a_getattr(self, I, name):
		if name in ('wedge', 'outer', '__xor__'):
			return HostFn(lambda I, a, k: Wedge(self.w + a[0].w), name)
		return I.top(name)


def int_of(v):
	if isinstance(v, int):
		return v
	if isinstance(v, BV) and all(b in (ZERO, ONE) for b in v.bits):
		return sum(1 << i for i, b in enumerate(v.bits) if b == ONE)
	if isinstance(v, IntV) and not v.terms:
		return v.const
	return None


def _drop_len_trace(I):
	"""'the subspace is not empty' is the partition under study"""
	I.trace = [t for t in I.trace if not _is_len_cond(t)]


def _is_len_cond(t):
	return 'DimTok' in repr(t[0]) or 'len' in repr(t[0]).lower() or 'Dim' in repr(t[0])


def _mk_alg(n):
	w = StrWorld(n)
	I = Interp(w)
	names = tuple('g%d' % i for i in range(n))
	d = I.call(I.get(D), [names, tuple(SignAtom(w, i) for i in range(n))], {})
	return I, w, I.call(I.get(A), [d], {})
