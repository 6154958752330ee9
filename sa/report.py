"""Obligation ledger, evidence file and verdict of one check."""
import json
import os
import sys
import time
import traceback

from .core import AnchorMissing, Budget, PyRaise, Unsupported, Interp, PyFunc, Cached, Prop, StaticM, ClassM, Bound, REPO, CALLED, FILES, LAST

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
	"""definite mismatch; construct names the offending place in /repo"""
	def __init__(self, construct, detail):
		Exception.__init__(self, detail)
		self.construct, self.detail = construct, detail


class Undecided(Exception):
	pass


def unwrap(f):
	while True:
		if isinstance(f, (Cached, StaticM, ClassM, Bound)):
			f = f.fn
		elif isinstance(f, Prop):
			f = f.fget
		else:
			return f


def loc(I, dotted):
	"""file:line (name) of an analysed definition"""
	try:
		f = unwrap(I.get(dotted))
		node = getattr(f, 'node', None)
		mod = getattr(f, 'module', None)
		if node is not None and mod is not None:
			return f'{os.path.relpath(mod.path, I.repo)}:{node.lineno} ({dotted.partition(":")[2]})'
	except Exception:
		pass
	return dotted


class Report:
	def __init__(self, pid, explanation, trusted=()):
		self.pid = pid
		self.explanation = explanation
		self.trusted = list(trusted)
		self.t0 = time.time()
		self.obs = []
		self.files = set()
		self.functions = set()
		self.sites = {}
		self.lost = []
		self.samples = []

	def absorb(self, I):
		self.files |= I.files
		self.functions |= I.called

	def count(self, what, k=1):
		self.sites[what] = self.sites.get(what, 0) + k

	def add(self, name, status, rule, construct='', detail=''):
		self.obs.append(dict(name=name, status=status, rule=rule, construct=construct, detail=str(detail)[:1500]))

	def run(self, name, rule, fn, anchor=''):
		"""fn() returns a detail string when the obligation is discharged;
		raises Violation / Undecided otherwise"""
		try:
			d = fn()
			self.add(name, 'proved', rule, anchor, d or '')
			return True
		except Violation as v:
			self.add(name, 'violated', rule, v.construct or anchor, v.detail)
		except AnchorMissing as e:
			self.lost.append(str(e))
			self.add(name, 'undecided', rule, anchor, f'anchor missing: {e}')
		except (Undecided, Unsupported, Budget) as e:
			self.add(name, 'undecided', rule, anchor, f'{type(e).__name__}: {e}')
		except PyRaise as e:
			self.add(name, 'undecided', rule, anchor, f'analysed code raises {e}')
		except RecursionError:
			self.add(name, 'undecided', rule, anchor, 'recursion')
		except Exception as e:   # a gap of the analyser is never an alarm
			tb = traceback.extract_tb(e.__traceback__)[-1]
			self.add(name, 'undecided', rule, anchor, f'analyser gap {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}')
			if os.environ.get('SA_DEBUG'):
				traceback.print_exc()
		return False

	def finish(self):
		self.files |= FILES
		self.functions |= CALLED
		known = load_known(self.pid)
		viol, kf = [], []
		for o in self.obs:
			if o['status'] == 'violated':
				k = f"{o['rule']}|{strip_line(o['construct'])}"
				o['key'] = k
				(kf if k in known else viol).append(o)
		n = len(self.obs)
		proved = sum(o['status'] == 'proved' for o in self.obs)
		und = [o for o in self.obs if o['status'] == 'undecided']
		tier = os.environ.get('VERIF_TIER', 'quick')
		ev = dict(
			property=self.pid, tier=tier if tier in ('quick', 'thorough') else 'quick',
			seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
			coverage=dict(
				explanation=self.explanation,
				obligations=n, discharged=proved, undecided=len(und),
				known_findings=[o['key'] for o in kf],
				undecided_obligations=[dict(name=o['name'], why=o['detail'][:200]) for o in und][:60],
				rules=sorted({o['rule'] for o in self.obs}),
				files_analysed=sorted(self.files), functions_analysed=len(self.functions),
				function_names=sorted(self.functions)[:4000],
				sites=self.sites,
				samples=[f"{o['name']}: {o['status']} {o['detail'][:160]}" for o in self.obs[:4] + self.obs[-4:]] + self.samples[:6],
			),
			assumptions=self.trusted, wall_s=round(time.time() - self.t0, 3), violations=len(viol),
		)
		os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
		with open(os.path.join(ROOT, 'evidence', f'{self.pid}.json'), 'w') as f:
			json.dump(ev, f, indent=1)
		print(f'{self.pid}: {n} obligations, {proved} discharged, {len(und)} undecided, {len(viol)} violated, {len(kf)} known findings, {ev["wall_s"]}s')
		for o in und:
			print(f'  undecided: {o["name"]}: {o["detail"][:300]}')
		for o in kf:
			print(f'KNOWN-FINDING: property={self.pid} {known[o["key"]]} [{o["construct"]}]')
		if viol:
			rp = os.path.join(ROOT, 'evidence', f'{self.pid}.violations.json')
			with open(rp, 'w') as f:
				json.dump(viol, f, indent=1)
			for o in viol:
				print(f'  violated: {o["name"]} [{o["rule"]}] at {o["construct"]}: {o["detail"]}')
			print(f'VIOLATION property={self.pid} replay={rp}')
			return 1
		if self.lost:
			print(f'ANALYSIS-LOST property={self.pid}: {self.lost}')
			return 2
		if n == 0 or proved == 0:
			print(f'ANALYSIS-LOST property={self.pid}: nothing could be discharged')
			return 2
		return 0


def strip_line(c):
	import re
	return re.sub(r':\d+', '', c)


def load_known(pid):
	"""known_findings.txt: 'finding: property=C07 key=<rule|construct> :: text'"""
	out = {}
	p = os.path.join(ROOT, 'known_findings.txt')
	if os.path.exists(p):
		for line in open(p, encoding='utf-8'):
			line = line.strip()
			if line.startswith('finding: property=' + pid + ' key='):
				rest = line.split(' key=', 1)[1]
				k, _, text = rest.partition(' :: ')
				out[k.strip()] = text.strip()
	return out
