"""regenerates MANIFEST.json from the list of implemented checks (developer tool)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
'C01': ('abstract interpretation (Boolean-polynomial bit-vectors)', 'Decides the product law for all blade pairs and signatures of each dimension 1..32 from the current source; trusts the numpy transfer functions in sa/bits.py. Code outside the modelled subset is reported undecided, never as an alarm.'),
'C02': ('abstract interpretation (opaque names, unknown signs, symbolic counts)', 'All names/signs per name-length pattern, all signatures per dimension; trusts the str/tuple semantics of sa/core.py.'),
}
EXTRA = os.path.join(R, 'tools', 'tech.json')
if os.path.exists(EXTRA):
    TECH.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
NA = {
'N01': 'Convergence and rounding of iterative floating point schemes (bisection, Newton, Shirokov, linear solves) depend on condition numbers of runtime values; no sound static error bound is in reach for arbitrary multivectors and dimensions.',
'N02': 'Long-run behaviour of numerical integrators and constraint solvers is a property of trajectories (step counts, floating point drift), not of the source structure.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks = []
for p in props:
    if p in TECH and os.path.exists(os.path.join(R, 'sa', 'checks', p.lower() + '.py')):
        t, n = TECH[p]
        c = f'VERIF_TIER=thorough /usr/bin/python3 check.py {p}'
        checks.append(dict(property=p, quick_cmd=f'/usr/bin/python3 check.py {p}', thorough_cmd=c, technique='static analysis: ' + t, level='other', level_note=n))
done = {c['property'] for c in checks}
na = [dict(property=p, reason=NA.get(p, 'check under construction; not claimed yet')) for p in props if p not in done]
m = dict(version=1, setup_cmd='/usr/bin/python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"', checks=checks, not_applicable=na,
    notes='All checks are purely static: they parse /repo on every run, never import or execute it, need only the standard library of python3, and write nothing outside /verif/evidence.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
