"""Writes /verif/MANIFEST.json: a check per property with a module in ionmc/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'every abstract value of the bounded generators is dumped and loaded by the real code and compared with itself; trusts the mapping between abstract values and Python objects',
    'C02': 'as C01 for text, every option combination; trusts the mapping between abstract values and Python objects',
    'C03': 'every composition of plain values to the bound, against the documented table written down independently',
    'C04': 'every byte string of the bounded families is read by the real code and judged by an independent decoder; cases the specification leaves open are not judged',
    'C05': 'every document of the bounded token and character families is read by the real code and judged by an independent parser; cases the specification leaves open are not judged',
    'C06': 'every partition of each bounded document is a schedule run on the real readers; the whole-input run is the reference',
    'C07': 'every cut point of each bounded document on the real readers; completeness judged by the reference parser and decoder',
    'C08': 'every set of skip points and chunkings of each bounded document; events predicted by the event-tree model',
    'C09': 'every history of symbol contexts to the depth bound against a symbol-context model written from the specification',
    'C10': 'every output of the bounded generators is decoded by an independent strict decoder',
    'C11': 'every output of the bounded generators is parsed by an independent parser',
    'C12': 'every event sequence to the depth bound, explored with replay on the real writers against a protocol model',
    'C13': 'every operation history to the depth bound against a table model written from the specification',
    'C14': 'every ordered pair of the value alphabet under every option, against canonical forms; equivalence laws follow from agreement with canonical forms',
    'C15': 'every combination of the argument alphabet, against integer calendar arithmetic',
    'C16': 'every operation history to the depth bound against a list-of-pairs model',
    'C17': 'every conversion chain to the bound applied to every value of the alphabet',
    'C18': 'every interleaving of the steps of small groups of instances, each compared with its solo run',
    'C19': 'every sequence of segments and read sizes to the bound, against the concatenation model',
    'C20': 'every number of the structured families, against exact integer and rational arithmetic',
    'C21': 'every code point and byte in every position, against the identity and the escape table of the specification',
    'C22': 'every operation history to the depth bound against byte-string models',
    'C24': 'every history of requests to each bounded document on the real readers, against a protocol automaton',
    'C23': 'every value of the bounded generators, against the documented table written down independently',
}
TECH = {
    'C04': 'exhaustive bounded enumeration of byte strings, implementation vs. independent reference decoder',
    'C05': 'exhaustive bounded enumeration of documents, implementation vs. independent reference parser',
    'C06': 'stateless exploration of all input partitions (schedules) on the real readers',
    'C07': 'exhaustive cut-point (crash-point) enumeration on the real readers',
    'C08': 'stateless exploration of all skip-point histories and chunkings on the real readers',
    'C09': 'explicit-state exploration of symbol-context histories, model traces replayed on the implementation',
    'C12': 'explicit-state exploration of the writer protocol, every model trace replayed on the implementation',
    'C13': 'explicit-state exploration of table operation histories, replayed on the implementation',
    'C16': 'explicit-state exploration of multimap operation histories, replayed on the implementation',
    'C18': 'stateless exploration of all interleavings of instances under a controlled scheduler',
    'C19': 'exhaustive exploration of segment histories and read-size schedules',
    'C24': 'stateless exploration of all request histories on the real readers against a protocol automaton',
    'C22': 'explicit-state exploration of buffer operation histories, replayed on the implementation',
}
DEFAULT = 'exhaustive bounded enumeration of executions of the real code against a reference model'


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(l)['id'] for l in f]
    checks, na = [], []
    for pid in ids:
        if os.path.exists(os.path.join(HERE, 'ionmc', 'checks', pid.lower() + '.py')):
            checks.append({
                'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH.get(pid, DEFAULT),
                'level': 'model_checking', 'level_note': NOTES[pid] + '. Exhaustive within the bounds in DESIGN.md; nothing is sampled.'})
        else:
            na.append({'property': pid, 'reason': 'no check yet'})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo are needed: the readers and writers are coroutines and are driven directly. '
                  'Each check imports the code from /repo and compiles nothing; ./check PID --replay FILE re-runs one violation.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
