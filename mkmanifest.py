"""Writes MANIFEST.json from engine/props.py and the list of properties."""
import json
import sys
sys.path.insert(0, 'engine')
from props import PROPS

TECH = {
    'claims': 'abstract interpretation of MIR over symbolic coordinates and uninterpreted user types',
    'tree': 'abstract interpretation of MIR over an abstract domain of trees (fixpoints, tabulated recursion)',
    'params': 'abstract interpretation of MIR over symbolic tree parameters (linear integer facts)',
    'api': 'queries over the type-checked crate: signatures, effective visibility, auto traits by the trait solver, derived MIR',
}
NOTE = {
    'claims': 'Holds for every input over a totally ordered exact scalar, because the analysed code is loop-bounded by the dimension and every path is decided by orderings of its inputs. '
              'Assumes exact arithmetic (no rounding, no overflow, no NaN) and the models of the few std functions used (DESIGN.md).',
    'tree': 'Sound over-approximation of every history, tree shape, object type and parameter set by fixpoint iteration; assumes deterministic user code, no panics inside it, exact arithmetic, '
            'and the models of the std functions used (DESIGN.md).',
    'params': 'Every path through every constructor up to the point where validity is established; a constructor that is not known to the analysis is reported.',
    'api': 'Decided for the crate as compiled with all features; trusts rustc\'s type checker and trait solver.',
}
NA = {
    'C40': 'Running time: the number of visited nodes depends on the geometry of the data; no static bound on it exists in the code.',
    'C41': 'Rounding: quantifies over floating point values; the comparisons that decide pruning are correct only in exact arithmetic, and no sound static argument in reach bounds the error.',
    'C42': 'Round trips depend on the behaviour of arbitrary external data formats; the structural part (no field skipped) is stated as C18.',
    'C43': 'Quality of heuristics: which child or axis is best depends on the values of areas and overlaps; breaking it changes no answer of the tree, only its speed.',
}
PENDING = 'The check for this property is still being built; nothing is claimed for it.'

props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        kind = PROPS[i][0]
        k = kind if kind in TECH else 'tree'
        cmd = './check.sh %s' % i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % i, technique=TECH[k], level='other',
                           level_note='Decides: %s. %s' % (PROPS[i][2], NOTE[k])))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Static analysis only: a rustc driver dumps the MIR of /repo instantiated with opaque user types, an abstract interpreter decides the properties on it.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
