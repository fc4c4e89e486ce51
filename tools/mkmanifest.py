import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': ('proof', 'gated value-graph equality of the compiled adapters over an opaque chunker with their definition, plus induction'),
    'C02': ('proof', 'path-condition feasibility of every panic site in the value graphs of constructors, one-byte steps and short pieces extracted from optimised IR with overflow checks on, under inferred inductive invariants'),
    'C03': ('proof', 'gated value-graph equality of a call on a piece with the composition of the extracted one-byte steps'),
    'C04': ('proof', 'gated value-graph equality of a search over several new bytes with the composition of the extracted one-byte searches; inductive closed form of the kept byte count'),
    'C05': ('proof', 'one-byte-step machines of both interfaces extracted from optimised IR, related by an inferred bisimulation over ghost stream variables'),
    'C06': ('proof', 'reset obligations on one-byte-step machines extracted from optimised IR: post-state of a split compared with the initial state by value-graph normal forms, differences confirmed by distinguishing continuations of the extracted transition graph'),
    'C07': ('proof', 'noninterference on extracted one-byte-step machines: cancellation of the leaving byte in value-graph normal forms'),
    'C08': ('proof', 'entailment of size-bound obligations over extracted transition graphs with inferred inductive invariants'),
    'C09': ('proof', 'entailment of range and progress obligations over extracted transition graphs with inferred inductive invariants'),
    'C10': ('proof', 'one-byte-step machines extracted from optimised IR matched against the published recurrences, tables by content'),
    'C11': ('proof', 'gated value-graph equality of objects built by every constructor and conversion with the primary constructor under the documented parameters'),
    'C12': ('proof', 'entailment of buffer-growth and kept-length obligations over extracted transition graphs with inferred inductive invariants'),
    'C13': ('proof', 'effect analysis over the MIR of the whole library and the optimised IR of every instance'),
    'C14': ('proof', 'type-level witnesses with compile-fail controls (auto traits Send/Sync/NoCell/NoRaw, shared-reference signatures)'),
    'C15': ('proof', 'gated value-graph equality of every clone result with its argument, and of every comparison with the conjunction of field comparisons'),
    'C16': ('proof', 'gated value-graph equality of the compiled range helper with interval membership'),
    'C17': ('proof', 'compilation and MIR comparison of every item under every feature selection'),
    'C18': ('proof', 'forbid(unsafe_code) build under every feature selection and token-level lint of the sources'),
    'C19': ('proof', 'loop ranking over the optimised IR (cursor advances under a test in every turn, no unbounded loop or copy inside a data loop) and trip counts of the extracted one-byte transition functions'),
}
NOTE = {}
NA = {
    'C20': 'statistical statement about random inputs (expected chunk sizes, probability of resynchronising): no static argument bounds it',
    'C21': 'running time on hardware: not a property of the source that static analysis can decide',
}
extra = json.load(open(os.path.join(V, 'tools', 'tech.json'))) if os.path.exists(os.path.join(V, 'tools', 'tech.json')) else {}
for k, v in extra.items():
    TECH[k] = tuple(v)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in TECH:
        checks.append({'property': i, 'level': TECH[i][0], 'technique': TECH[i][1],
                       'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'level_note': NOTE.get(i, 'Every obligation is discharged statically from the current source, for all inputs and '
                                              'configurations in the stated domain; an obligation the analysis cannot resolve is counted as '
                                              'undecided in the evidence and raises no alarm. Trusts rustc/LLVM lowering and the analyser in /verif/sa.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa || true', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
