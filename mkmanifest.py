#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and the table below"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': 'symbolic execution of the LLVM IR and inline assembly of every operation; SMT (z3) decides the value post-conditions',
 'C02': 'symbolic execution with arbitrary interference before every machine access; SMT decides a linearisation condition',
 'C03': 'symbolic execution; SMT decides address containment, alignment and the frame condition of every access',
 'C04': 'symbolic execution with symbolic ordering arguments in debug and release IR; SMT decides panic <=> invalid',
 'C05': 'symbolic per-path event graphs of the real asm; SMT decides litmus composition against the target memory model',
 'C06': 'symbolic per-path event graphs of the real asm; SMT decides litmus composition against the target memory model',
 'C07': 'symbolic execution of each asm block with a symbolic register allocation; SMT decides the clobber contract',
 'C08': 'symbolic execution with symbolic initialisation masks; SMT decides absence of uninit-dependent behaviour',
 'C09': 'symbolic execution of the conversion functions; SMT/simplifier decides identity of bytes and pointers',
 'C10': 'symbolic execution of fetch_update with an uninterpreted closure under interference; SMT decides the post-conditions',
 'C11': 'symbolic execution without interference / after interference stops; SMT decides absence of retries',
 'C12': 'SMT over the cfg formulas parsed from the source plus compiler probes',
 'C13': 'symbolic execution records every reachable instruction; SMT decides reachability against enabled features',
}
NA = json.load(open(os.path.join(H, 'na.json')))
NOTE = 'All inputs, addresses, orderings and (where stated) interference within the bounds printed in the evidence; assumes rustc front end, the instruction semantics in vf/isa_*.py (validated natively on x86), z3.'
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())"',
         checks=[dict(property=i, quick_cmd='python3-vt run.py %s --tier quick' % i, thorough_cmd='python3-vt run.py %s --tier thorough' % i, technique=T[i], level='model_checking', level_note=NOTE) for i in ids if i not in NA],
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA], notes='see DESIGN.md')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
