#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the LLVM IR of the library instantiated by client drivers'
T = {
 'C04': AI + '; fixpoint over all interleavings of thread pairs',
 'C09': 'happens-before race analysis by abstract interpretation of the LLVM IR, fixpoint over all interleavings of pairs and triples of operations',
 'C07': 'lock-state (typestate) analysis by abstract interpretation of the LLVM IR: no user code while a mutex is held, no self-deadlock, released on every exit',
 'C22': 'type-level accept/reject witnesses against the current headers',
 'C06': AI + '; typestate of tracked objects; fixpoint over interleavings',
 'C10': AI + '; fixpoint over all histories of two and three pointers',
 'C11': AI + '; fixpoint over all histories of handles',
 'C17': AI + '; object-lifetime typestate, every throwing point',
 'C23': AI + '; ownership (allocation/lifetime) typestate and reachability at exit',
 'C24': 'linkage analysis of all definitions in the headers, accept/reject programs under every language standard and two compilers, and ' + AI + ' under other configurations (standard, NDEBUG)',
 'C13': AI + '; every allocation and user call also takes its exceptional edge',
}
NOTE = ('Every scenario is a client program with unconstrained inputs, list lengths or call histories; all its paths through the current source are analysed without running it. '
        'Where the summary domain converges the verdict covers lists of every length or histories of every length (evidence lists the scope of each scenario); the rest is decided for lists up to a stated size. '
        'Trusts: clang front end and SROA, the engine and its models of allocation, mutexes, atomics, threads, exceptions and std::vector, and that the drivers represent the uses of the template API.')
N = {'C24': 'Definitions: every definition of the headers (clang debug information), c++11 and c++17. Programs: the listed ones. Behaviour: every scenario of the other properties is analysed again as C++11 and C++20 with NDEBUG and as C++14 (threads: C++11 only, at most one preemption); a violation counts only if the default configuration has none. Trusts clang, gcc and the engine.',
     'C22': 'Each witness is a program that must be accepted or rejected by the type checker against the current headers; covers the listed instantiations only. Trusts clang.',
     'C09': NOTE + ' Sequential consistency for values, happens-before (release/acquire, fences, mutexes) for races; two or three threads with one or two operations each.'}
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=T.get(i, AI), level='other', level_note=N.get(i, NOTE)))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo. All checks read /repo (VERIF_REPO overrides) and compile the drivers against it in a scratch directory they remove.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
