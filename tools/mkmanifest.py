#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the list of claimed properties below."""
import json, sys
T = {
 'C01': 'round-trip monitor: canonical content and == before and after formatting and parsing',
 'C02': 'differential monitor: parsed circuit against the model the text was rendered from',
 'C03': 'differential monitor: independent FIRRTL reader over formatted text',
 'C04': 'metamorphic monitor: circuits parsed from several layouts of one token sequence',
 'C05': 'panic/abort/non-termination monitor over hostile and mutated texts, round trip of what is accepted',
 'C06': 'differential monitor: independent reader\'s verdict on mutated texts against the parser\'s',
 'C07': 'reference scope model observing lookups made through texts and the context API',
 'C08': 'trace oracle over histories of the module consumer and module table',
 'C09': 'monitor of cited lines in error messages against the independent reader\'s faulty line',
 'C10': 'typing oracle observing Typed::type of random and systematically enumerated expressions',
 'C11': 'typing oracle at the limits of the representable range, with overflow checks as sanitizer',
 'C12': 'declaration type oracle', 
 'C13': 'flow oracle', 
 'C14': 'reference relations on an independent model of types',
 'C15': 'reference combination on an independent model of types',
 'C16': 'item counting monitor over traversals',
 'C17': 'definition-order monitor over formatted circuits',
 'C18': 'repetition and interleaving monitor: recorded results compared between repetitions, histories and threads',
 'C19': 'I/O fault injection: every failure point, fragmentation and interruption pattern of readers',
 'C20': 'heap monitor: counting allocator over repeated operation sequences',
 'C21': 'work monitor: allocation counts over growing input families',
 'C22': 'Miri, AddressSanitizer with leak detection and ThreadSanitizer under a mixed multi-threaded workload',
 'C23': 'payload monitor: strings and names before and after formatting and parsing at every place',
 'C24': 'payload monitor: numbers before and after formatting and parsing at every place',
 'C25': 'reference records observing builders and accessors',
 'C26': 'equality monitor over single-aspect mutants and independent copies',
 'C27': 'fault injection: every failure point of writers, monitor of what was written and reported',
}
LEVEL = {'C19': 'fault_enumeration', 'C27': 'fault_enumeration'}
NOTE = 'Exploration by execution: holds on every case run (counts in the evidence); trusts the harness\' own model, generators and oracle, which are independent of the crate\'s code.'
claimed = sys.argv[1:] or sorted(T)
m = {
 'version': 1,
 'setup_cmd': 'bash /verif/setup.sh',
 'checks': [{
   'property': i,
   'quick_cmd': f'bash /verif/check.sh {i} --quick',
   'thorough_cmd': f'bash /verif/check.sh {i} --thorough',
   'evidence_file': f'evidence/{i}.json',
   'technique': T[i],
   'level': LEVEL.get(i, 'exploration'),
   'level_note': NOTE,
 } for i in claimed],
 'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in sorted(T) if i not in claimed],
 'notes': 'No hooks in /repo: the public API suffices. See DESIGN.md.',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
