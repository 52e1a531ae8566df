"""Write MANIFEST.json from the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from gmcheck import checks  # noqa: E402

NA = {
    'C54': 'A computational hardness assumption about ECDSA, ECIES and the '
           'hash functions; no static argument over this source can bound an '
           'adversary. What the source must do for it to apply is claimed '
           'separately (C07, C08, C09, C12, C14).',
    'C55': 'The encoding is made by the third-party cbor package (its C or '
           'Python variant) and depends on dictionary order and float '
           'representation at run time; its source is not in the repository, '
           'so static analysis of this code cannot decide it.',
    'C56': 'A statistical statement about a random draw over all ratios; it '
           'quantifies over a distribution, which dataflow over the source '
           'cannot bound. The exact bit counts are claimed in C44.',
    'C57': 'A bound on running time and memory, which depends on the '
           'third-party decoder and on run-time sizes; no sound static bound '
           'is in reach here.',
}
TECH = {
    'C01': 'abstract interpretation of module initialisation; registry table '
           'comparison',
}
DEFAULT_TECH = ('abstract interpretation of the current source (trace '
                'partitioning, symbolic value provenance, interval/type '
                'domains), rule over all abstract paths')


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, 'properties.jsonl'))]
    out = {'version': 1,
           'setup_cmd': 'python3 -c "import gmcheck.checks"',
           'checks': [], 'not_applicable': []}
    for p in props:
        i = p['id']
        if i in checks.CHECKS:
            fn, level = checks.CHECKS[i]
            out['checks'].append({
                'property': i,
                'quick_cmd': 'python3 -m gmcheck %s' % i,
                'thorough_cmd': 'python3 -m gmcheck %s --thorough' % i,
                'technique': TECH.get(i, DEFAULT_TECH),
                'level': level,
                'level_note': 'Static analysis: decides the rule for every '
                'path of the abstract semantics of the current source, with '
                'third-party libraries modelled as stated in DESIGN.md; not '
                'a machine-checked proof.',
            })
        else:
            out['not_applicable'].append({
                'property': i,
                'reason': NA.get(i, 'No check is built for it yet.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(out['checks']), 'claimed', len(out['not_applicable']), 'not')


main()
