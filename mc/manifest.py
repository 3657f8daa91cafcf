#!/usr/bin/env python3
# writes MANIFEST.json from the list of properties
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
tech = {
 'C01': 'exhaustive exploration of character, byte and token sequences on the real code',
 'C02': 'exhaustive token sequences and breadth-first search of parser configurations of a reference model, every edge driven through the real parser',
 'C06': 'exhaustive token sequences, configuration search and program shapes against a reference model on the real parser',
 'C07': 'exhaustive token sequences and configuration search against a reference model on the real parser',
 'C13': 'exhaustive viable prefixes and configuration search; position given by the reference model, compared on the real parser',
 'C18': 'stateless exploration of all schedules up to a preemption bound, of all operation orders and histories, plus free runs under the race detector',
 'C26': 'exhaustive token sequences, configuration search and program shapes; rules, words and places from the reference model, compared on the real parser',
 'C28': 'exhaustive program spaces times every edit of the tree on the real code',
 'C20': 'exhaustive sweep of size parameters against the reference model',
 'C21': 'exhaustive enumeration of code points, byte strings and lengths under the address sanitizer',
}
note = {
 'C18': 'Every schedule within the preemption bound at the scanner\'s scheduling points; finer races only as the race detector sees them in free runs. Assumes the listed texts represent the code paths.',
 'C21': 'Every code point and every byte string up to length 3, characters up to length 3; longer texts by length sweeps only.',
}
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'model checking: ' + tech.get(i, 'exhaustive enumeration of bounded program spaces on the real code against a reference model'),
        'level': 'model_checking',
        'level_note': note.get(i, 'Complete within the alphabets and bounds listed per space in the evidence file; nothing is claimed beyond them. Trusts the hand-written reference model (mc/ref) and the mapping of trees (mc/impl), both compared with the code on every case.'),
    })
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif (mc/build.sh)', 'source_commits': hook},
     'checks': checks, 'not_applicable': [],
     'notes': 'Every check builds its explorer from /repo\'s working tree (mc/build.sh), explores, and rewrites evidence/<id>.json; a violation is recorded under out/ and runs again with ./check.sh -replay FILE.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
