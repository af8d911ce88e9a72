"""Rebuilds MANIFEST.json from the list of implemented checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

VALUE = 'gated value-graph data flow over the source, normal forms compared with '
TECH = {
    'C01': 'gated value-graph data flow over the source with interval bounds, compared with the clipped formula of each method',
    'C02': 'gated value-graph data flow over the source with interval bounds on the result terms',
    'C03': 'loop summaries as value graphs per cascade level, exact linear sums over the boxes of a day',
    'C04': 'gated value-graph data flow over the source with exact symbolic daily means',
    'C05': VALUE + 'the curve definitions',
    'C06': 'gated value-graph data flow with missing-value tracking: which days a missing day can influence',
    'C07': 'alias and effect analysis on the abstract heap: in-place changes of caller data and reachability between objects',
    'C08': 'value-graph data flow of a write and a read through a symbolic JSON tree, compared with the statistics that were written',
    'C09': 'value-graph data flow of a write and a read through a symbolic file, compared with the frame that was written',
    'C10': 'value-graph data flow from symbolic input files through the readers, compared with the documented units, names and time stamps',
    'C11': 'name and scope analysis of every line, member and signature lookup in the installed library sources, receiver classes by data flow',
    'C12': 'call graph, name resolution and effect rules over the source',
    'C13': 'analysis of every documented method name and of unknown ones through the dispatching functions',
    'C14': VALUE + 'the state a station must have after each sequence of assignments',
    'C15': VALUE + 'the parameters and columns each station method must use',
    'C16': 'value-graph data flow of the counting loops over symbolic boxes, exact comparison of counts, probabilities and weighted averages',
    'C17': 'loop summaries as value graphs per cascade level with symbolic statistics, compared with the branching the model defines',
    'C18': VALUE + 'the published formulas',
    'C19': VALUE + 'the published formulas',
    'C20': VALUE + 'table entries addressed by the month and hour of each record',
    'C21': 'call-site analysis of file access: how files are opened and closed and where their names come from',
    'C22': 'symbolic time axes tracked through the source, compared with the time steps of the input days',
    'C23': 'gated value-graph data flow of assignments: conditions under which data are accepted, completion of the calendar',
    'C24': 'residual functions and applied functions extracted from the source as terms and compared',
    'C25': 'loop summaries of the record loops and symbolic time axes, compared with their definition',
}
NA = {
    'C26': 'optimality of numerical optimisers on arbitrary data is not visible in the source text',
    'C27': 'a statistical statement about random output, not decidable from the source text',
}


def main():
    ids = [json.loads(line)['id'] for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif i in TECH and os.path.exists(os.path.join(ROOT, 'sa', 'checks', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': 'python3 -m sa.main %s' % i,
                'thorough_cmd': 'python3 -m sa.main %s' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH[i],
                'level': 'other',
                'level_note': 'Static analysis: decided from the source for all inputs. Constructs without a model are '
                              'listed as undecided in the evidence; library behaviour is taken from the models in sa/.',
            })
        else:
            na.append({'property': i, 'reason': 'no static analysis built for it yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
