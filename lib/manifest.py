"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'C01': ('property-based testing: generated expressions against an independent Pratt parser; metamorphic full parenthesisation and spacing',
         'Generated search only. Trusts the reference table and parser in lib/ref.py (written from the README).'),
 'C02': ('property-based testing: differential evaluation against a reference evaluator',
         'Generated search over operators and boundary values. Trusts libm of the host and lib/ref.py.'),
 'C03': ('property-based testing: mutated expressions against a reference grammar',
         'Generated search over near misses. Trusts the reference grammar in lib/ref.py.'),
 'C04': ('stateful and coverage-guided fuzzing of sessions under AddressSanitizer/UBSan with CPU and memory limits',
         'Generated search; a hang is a session that exceeds its CPU limit. Excludes tables with huge row counts and (known finding) extreme nesting.'),
 'C05': ('property-based testing: print/parse round trip over generated trees and operator sets',
         'Generated search over consistent operator sets (see DESIGN.md for the domain).'),
 'C06': ('property-based testing: metamorphic comparison of simplified and original expression at random points',
         'Generated search; numeric comparison with tolerance in positive domain, independent evaluator.'),
 'C08': ('property-based testing: derivatives compared with automatic differentiation of a reference model at random points',
         'Generated search; numeric comparison with conditioning-dependent tolerance.'),
 'C09': ('stateful model-based testing of sessions against a reference model of the history',
         'Generated histories. Trusts lib/model.py.'),
 'C10': ('stateful model-based testing of definitions, redefinitions and removals against a substitution model',
         'Generated histories. Trusts lib/model.py.'),
 'C11': ('metamorphic stateful testing: sessions with and without failing lines',
         'Generated histories; compares the program with itself.'),
 'C12': ('property-based testing: generated tables and folds against a reference model',
         'Generated search; trusts lib/model.py.'),
 'C13': ('property-based testing: generated tables against an independent layout model',
         'Generated search over cells, spans, alignments, borders; trusts the layout model.'),
 'C14': ('property-based testing: differential runs of the release binary through stdin, load and -c; exit status model',
         'Generated command sequences and switches against the real executable.'),
 'C15': ('stateful model-based testing of the trie against a dictionary', 'Generated operation sequences.'),
 'C16': ('stateful model-based testing of the linked list against a sequence', 'Generated operation sequences.'),
 'C17': ('stateful model-based testing of vector and string builder against sequence and string', 'Generated operation sequences.'),
 'C18': ('property-based testing: all matchings compared with brute-force enumeration of assignments', 'Generated patterns and trees; trusts the enumeration in checks/c18.py.'),
 'C19': ('stateful model-based testing of operator sets with differential tokenizing/parsing', 'Generated histories of operator sets; trusts lib/ref.py.'),
 'C20': ('property-based testing: tree operations against their definition on generated trees', 'Generated trees.'),
 'C21': ('property-based testing: ruleset files and rewriting against a reference reader and rewriter', 'Generated files, rules and trees.'),
 'C22': ('stateful fuzzing of sessions with heap balance as oracle', 'Generated histories; balance measured by the sanitizer allocator.'),
 'C23': ('property-based testing: error positions against the reference parser', 'Generated malformed inputs; trusts lib/ref.py.'),
 'C24': ('stateful model-based testing of the help output', 'Generated histories; trusts the documented operator table.'),
}
checks = []
for i in sorted(NOTES):
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=NOTES[i][0], level='exploration', level_note=NOTES[i][1]))
m = dict(version=1, setup_cmd='python3 lib/build.py', hooks=dict(guard='CCALC_VERIF', enable='not needed: the harnesses use the public headers; no hook is compiled into /repo', source_commits=[]),
         checks=checks, not_applicable=[dict(property=i, reason='check under construction') for i in sorted(NOTES) if i not in {c['property'] for c in checks}],
         notes='See DESIGN.md. Every check is generated-input search (property-based testing / fuzzing) against an explicit oracle.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
