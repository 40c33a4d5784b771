"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = 'stateless explicit-state exploration of the real code: depth-first enumeration of all choice sequences (values, histories, closure outcomes), each execution checked against a reference model'
PROG = 'exhaustive enumeration of a bounded space of definitions; the real macros and compiler run on each; '
CH = {
 'C01': (RUN, 'Every execution within the bounds (containers up to 3 elements plus long arrays/vectors, all construction histories of the stated depth) of the real implementations. Trusts the reference model of each container and the standard library.'),
 'C02': (RUN, 'Every execution within the bounds, all assignments of new keys (order reversing, merging). Trusts the reference model of keyed containers and the standard library.'),
 'C03': (RUN, 'Every pattern of closure success and failure within the bounds. Trusts the harness.'),
 'C04': (RUN + ' and a drop ledger', 'Every closure outcome (value, error, panic) at every call, also destructors that panic for arrays, over provided and derived types within the bounds. Leaks by panics inside the standard library itself are accounted for as the library documents.'),
 'C05': (RUN + ' (twin executions of both traits)', 'Every execution within the bounds of the provided and derived implementations.'),
 'C06': (RUN + ' (both sides of the laws as twin executions)', 'Every execution within the bounds for identity and all pairs of key-injective functions of a small set.'),
 'C07': (RUN + ' (both orders as twin executions)', 'Every execution within the bounds, all pairs of parameters.'),
 'C08': ('stateless exploration of all closure outcomes for all lengths and layouts of the bounds, each execution interpreted by Miri', 'Memory safety of every explored execution as judged by Miri with tree borrows; long arrays with a bounded number of deviating calls.'),
 'C09': (PROG + 'all executions of the derived code explored and compared with position keys', 'Every definition of the enumerated space (types to nesting depth 3, field lists to length 3, all parameter orders), every value of bounded size.'),
 'C10': (PROG + 'all failure patterns of the derived code explored', 'As C09, every pattern of failing calls.'),
 'C11': (PROG + 'implementation tables decided by the compiler for all markers and compared with a reference model', 'Every parameter list up to length 4 (thorough 5) with lifetimes, const kinds, defaults; every marker number within range and two beyond.'),
 'C12': (PROG + 'implementation tables decided by the compiler for all instances of a universe of types and compared with a reference model', 'Every bound form of the alphabet at every placement, pairs of bounds, all instances of a universe of 24 types.'),
 'C13': (PROG + 'acceptance and the place of rejection compared with the expected ones', 'Every supported and unsupported type form at every nesting position and item kind of the bounds, both traits.'),
 'C14': (PROG + 'every subset of injected faults; set of blamed places compared with the injected ones', 'Every subset of the fault sites of the templates, each macro.'),
 'C15': (PROG + 'every name of an alphabet in every role; results executed and explored', 'Names of the alphabet in every role and pairs/subsets of parameter names within the bounds.'),
 'C16': (PROG + 'every arrangement of options compared with a reference model; every malformed token sequence up to a length', 'Every arrangement up to 4 parameters; every token sequence up to a length for acceptance against a grammar model.'),
 'C17': (PROG + 'acceptance and diagnostics compared with the expected ones', 'Every shape, parameter list, trait and position of the destructor within the bounds.'),
 'C18': ('exploration of all iteration orders of hash-based collections (controlled hash seeds of the compiler process), of all orders of a set of definitions and derives; expansions compared', 'Every iteration order of any standard hash collection with up to 3 (thorough 4) names; larger collections with the same seeds.'),
 'C19': (PROG + 'every feature subset built, table of types and markers decided by the compiler, all small values run', 'All 8 feature subsets, all documented types, markers 0..4.'),
 'C20': (PROG + 'in every edition, all executions explored', 'The space of C09 and further definitions in all four editions, and definitions crossing crates of different editions.'),
 'C21': (PROG + 'differential check of all compiler lints without and with the derives', 'Every definition of the space and of a list of unusual definitions, all lints of the compiler and of clippy, all editions.'),
 'C22': (RUN + '; marker tables decided by the compiler', 'Twin executions for all provided and derived types within the bounds; every marker number, foreign markers and wrong selections.'),
}
out = dict(version=1, setup_cmd='python3 mc/setup.py', checks=[], not_applicable=[],
           notes='All checks run the code of /repo itself (no hooks were needed). Verdicts are relative to the bounds in DESIGN.md. Known findings: known_findings.json.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    t, n = CH[p['id']]
    out['checks'].append(dict(property=p['id'], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough", technique='model checking: ' + t, level='model_checking', level_note=n))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
