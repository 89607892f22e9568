#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has obligations; the rest go to not_applicable."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check  # noqa: E402

VG = ('abstract interpretation of the source into gated value graphs (loops summarised to closed forms, sums, selections, scans or uninterpreted recurrences) and '
      'value numbering against the graph of the documented formula')
TECH = {
    'C01': 'flow-sensitive interprocedural alias and effect analysis over argument regions (writes into, and returns of, argument memory)',
    'C02': 'effect analysis over the call graph: global, default-argument, attribute, file, clock and random-state effects',
    'C25': 'loop and recursion progress analysis (variant inference over the syntax tree and value graph of every loop)',
    'C30': 'name, arity, keyword and default binding of every documented call against the source signatures',
    'C31': 'path-sensitive return-form and definite-assignment analysis',
}
NOTE = {}
NA = {
    'C90': 'quantifies over real measurement records and the statistical quality of the detectors; no static argument over the source bounds it',
    'C91': 'needs bounds on accumulated rounding error for unbounded input sizes and magnitudes; the value graphs are over the reals and library kernels are opaque',
    'C92': 'depends on numerical properties of the DCT and the bandwidths chosen at run time; the transform is a library call without a static model of its values',
    'C93': 'depends on the spectrum of the data: which eigenvectors carry signal is a property of run-time values',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i not in NA and check.obligations(i):
            checks.append({
                'property': i,
                'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'static analysis: ' + TECH.get(i, VG),
                'level': 'other',
                'level_note': NOTE.get(i, 'Decided from the source on every run, for all inputs of the stated form; assumes real arithmetic for floating point and the model of the library '
                                       'functions used. Obligations whose code leaves the analysed subset are reported as undecided in the evidence and raise no alarm.'),
            })
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no static rule has been built for it yet')})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'Every check reads /repo from source and never imports or runs it. Known defects and their repairs are listed in KNOWN_FINDINGS.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', [x['property'] for x in na])


main()
