#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import mkprops
import checks

TRACE = 'TLA+ specification; TLC validates traces of the real library'
BOTH = 'TLA+ specification model checked by TLC, its behaviours replayed in the real library, traces validated by TLC'
HOW = {
    'C01': (BOTH, 'MCWorlds: every hierarchy and method within its bounds is replayed; MCCompiler: slots, groups, '
                  'strides and dispatch tables implement the declarative semantics. Larger worlds at random.'),
    'C02': (BOTH, 'Same worlds as C01; each failing call is observed with its report, also in child processes when it '
                  'aborts; programs with real methods for the static types of the arguments.'),
    'C03': (TRACE, 'Groups of registries with the same contents, registered in different ways, must be explained by '
                   'the same state of the specification and agree with each other.'),
    'C04': (BOTH, 'Every chain of next of every replayed world.'),
    'C05': (BOTH, 'The specification gives the set of allowed picks; the first observed one must be confirmed by all '
                  'other calls, and by other runs of the same program.'),
    'C06': (BOTH, 'The report is computed from the specification for every replayed world.'),
    'C07': (TRACE, 'Random histories of registrations, removals (also by unloading shared libraries), initialize and '
                   'finalize in the real library.'),
    'C08': (TRACE, 'Generated programs in several styles, parameter kinds and policies, all compared with the same '
                   'specification.'),
    'C09': (BOTH, 'MCPerfectHash: the search, over small words, exhaustively; the real policy with many shapes of id sets.'),
    'C10': (TRACE, 'Histories and virtual pointer operations with deliberate misuse.'),
    'C11': (TRACE, 'Registrations with missing classes, bases and return types, and a vptr policy that fails on demand.'),
    'C12': (BOTH, 'MCVirtualPtr: every transition of five small models is replayed (a part of them in the quick '
                  'tier); longer random histories.'),
    'C13': (TRACE, 'Virtual pointers kept across initialize, with overriders and classes in libraries that come and go.'),
    'C14': (BOTH, 'MCInplaceVptr: every hierarchy of 5 classes and every life of an object; generated programs that '
                  'call methods from constructors and destructors.'),
    'C15': (TRACE, 'Interleaved histories of up to five registries that share classes and type ids.'),
    'C16': (BOTH, 'MCArgPassing: ownership and identity are conserved; generated programs pass instrumented '
                  'arguments of all kinds through methods.'),
    'C17': (TRACE, 'The bytes written to each stream are part of the trace, for every form of options.'),
    'C18': (BOTH, 'MCErrorHandling: its state graph is covered by replayed walks (a part of them in the quick tier).'),
    'C19': (BOTH, 'MCStaticList: the concrete lists represent the abstract sequences; every transition is replayed.'),
    'C20': (BOTH, 'MCThreads: calls as sequences of reads, every interleaving of two threads. Generated programs call '
                  'every combination from several threads, under ThreadSanitizer (a write by a call to shared storage '
                  'is not a step of the specification), and their traces are validated.'),
    'C21': (BOTH, 'MCPolicies: lists of policies represent functions from categories to policies under with and '
                  'without. Generated programs compose registries in many steps, and use them with policies that '
                  'record what they are asked.'),
    'C22': (BOTH, 'MCNames: lookup of methods in every small arrangement of namespaces. The specification tells which '
                  'overriders generated programs may contain; what compiles and what is called is validated.'),
}
COMMON = ('  Exhaustive only within the bounds of the models; beyond them scenarios are drawn from VERIF_SEED. '
          'Trusts TLC, the C++ compiler, and the harness to report what it observes.')

checks_, na = [], []
for x in mkprops.P:
    i = x['id']
    if i in checks.CHECKS:
        checks_.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': HOW[i][0],
            'level': 'model_checking',
            'level_note': HOW[i][1] + COMMON,
        })
    else:
        na.append({'property': i, 'reason': 'no check'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks_, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public API. See DESIGN.md.'}
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(d, 'MANIFEST.json'), 'w'), indent=1)
