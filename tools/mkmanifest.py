#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness implements."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in os.listdir(root + '/harness/src/props'):
    m = re.match(r'c(\d\d)\.rs$', f)
    if m: have.add('C' + m.group(1))
tech = {
 'C01': 'random op sequences against a 128-bit reference model',
 'C02': 'random token sequences against a stack depth model',
 'C03': 'generated tokens against a literal grammar model; print/read round trip',
 'C04': 'generated tokens against an exact decimal oracle',
 'C05': 'random output programs against a formatting model',
 'C06': 'random addresses and lengths against a byte-range oracle, guard pages around the data space',
 'C07': 'random structured programs against an AST interpreter',
 'C08': 'stateful model-based histories of definitions and markers',
 'C09': 'stateful coroutine programs against a round-robin scheduler model',
 'C10': 'stateful model-based file histories against an inode model and the real file system',
 'C11': 'metamorphic interactive sessions: failing lines inserted into a session, prediction of the report',
 'C12': 'grammar and mutation based text fuzzing in forked workers with guard pages',
 'C13': 'metamorphic layout changes; parsing model over Unicode text',
 'C14': 'differential execution of one program in many ways',
 'C15': 'stateful byte array model of data space',
 'C16': 'random float op sequences against IEEE 754 reference arithmetic',
 'C17': 'metamorphic: the same program split into nested files or typed',
 'C18': 'random control word sequences against a push-down automaton',
 'C19': 'stateful inspection sequences against a model',
 'C20': 'random compiled programs under an allocation counter',
 'C21': 'random key sequences against a line editor model and the sessions of the library, in process and in a pseudo terminal',
 'C22': 'random histories of host calls, differential against the same work as Forth text, against vector and byte models and against machines run alone',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': './run.sh ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'property-based testing: ' + tech[i],
            'level': 'exploration',
            'level_note': 'Fixed number of generated cases per run (a pure function of the code and VERIF_SEED) decided by an explicit oracle; no violation found is evidence, not proof. Trusts the reference model in harness/src and the host machine harness/src/vm.rs.',
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything the checks need is public.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
