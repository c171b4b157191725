#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
T = {
'C01': ('differential property-based testing: compiled generated parsers against a reference recogniser', 'generated programs of up to 300 nodes and inputs of up to 60 characters'),
'C02': ('property-based testing: rustc as the oracle on emitted modules with colliding names and nasty literals', 'generated programs of up to 250 nodes'),
'C03': ('round-trip property-based testing of compiled generated parsers', 'generated programs and inputs as for C01'),
'C04': ('differential property-based testing: parse trees against the reference derivation', 'generated programs and inputs as for C01; ambiguity-free by C05'),
'C05': ('property-based testing: reference checker and derivation counting on accepted programs', 'least fixed points and short words'),
'C06': ('differential property-based testing against a reference checker, with metamorphic variants', 'generated programs meeting the discipline'),
'C07': ('differential property-based testing: types of all nodes against reference sets and enumerated words', 'words enumerated up to a length bound'),
'C08': ('differential property-based testing against a closure-based reference expansion', 'programs whose expansion ends within a bound'),
'C09': ('differential and metamorphic property-based testing: reference scoping and renaming', 'generated programs'),
'C10': ('differential property-based testing against a reference kind and arity analysis', 'generated programs and misuses'),
'C11': ('round-trip property-based testing of the program parser and printer', 'generated and damaged programs'),
'C12': ('differential property-based testing of the two front ends', 'texts over the shared syntax'),
'C13': ('differential property-based testing: macro expansion against emitted code, both compiled and run', 'generated programs and inputs'),
'C14': ('fuzzing with token, character and grammar-based generators, crashes and hangs attributed to cases', 'nesting within the stack; 60 s of CPU time as the bound for a hang'),
'C15': ('metamorphic property-based testing: repetition, other processes, other layouts', 'generated programs'),
'C16': ('model-based testing of operation histories on streams', 'histories of up to a few dozen operations'),
'C17': ('differential property-based testing: parse errors against prefix viability in the reference language', 'generated programs and inputs as for C01'),
'C18': ('model-based testing of operation histories on streams', 'histories of up to a few dozen operations'),
'C19': ('differential property-based testing of three evaluators against a reference evaluator', 'expressions of up to some hundred tokens'),
'C20': ('differential property-based testing of three parsers against a reference reader, and a printing round trip', 'texts of up to some hundred tokens'),
'C21': ('differential property-based testing: items of the emitted code against a model of naming', 'generated programs'),
'C22': ('property-based testing: error positions against violations located by the reference model', 'generated rejected programs'),
'C23': ('property-based testing of compiled character-class parsers', 'generated classes'),
'C24': ('property-based testing of the built command-line tools as processes', 'generated standard input'),
'C25': ('property-based testing with instrumented character sources', 'generated programs and inputs as for C01'),
'C26': ('property-based testing of compiled generated parsers: equality, hashing and cloning of all pairs of results', 'generated programs and up to 24 words of their language each'),
}
checks = []
for i in sorted(T):
    t, n = T[i]
    checks.append({
        'property': i,
        'quick_cmd': f'./check {i}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': t,
        'level': 'exploration',
        'level_note': f'No counterexample among the generated cases ({n}); trusts the reference model, which shares no code with the repository, and rustc.',
    })
m = {
    'version': 1,
    'setup_cmd': './check --setup',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: everything is observed through public interfaces, emitted code and processes.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
