#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = 'path-sensitive abstract interpretation of rustc MIR'
TECH = {
    'C01': ABS + ': every panic edge of the decoders is shown unreachable (intervals, remaining-bytes facts)',
    'C02': ABS + ': automaton over reads and failures; every failed or missing item must lead to an error',
    'C03': ABS + ': tables of type codes and layouts extracted from writer and reader, compared with SPOP\'s',
    'C04': ABS + ': header fields written and read compared per frame kind (flag bits, type codes, id order)',
    'C05': ABS + ': key/type/field tables of hello and disconnect items extracted from both directions and compared',
    'C06': ABS + ': counts and element layouts of message and action lists in both directions',
    'C07': ABS + ': decision analysis of the header rules on every accepting path of the reader',
    'C08': ABS + ': taint from lengths on the wire to allocations and reads, bounded by decisions on the path',
    'C09': ABS + ': every path to a transport write carries a decision that the size is within the maximum',
    'C10': 'typestate automaton over transport operations in MIR (prefix, body, flush, in one piece)',
    'C11': ABS + ': status codes compared with SPOP\'s table; error values followed from decoder to caller',
    'C12': 'typestate automaton over the connection\'s state graph (error, disconnect written, end)',
    'C13': 'typestate automaton over the connection\'s state graph (handshake before processing)',
    'C14': ABS + ': provenance of the negotiated version, size and capabilities',
    'C15': 'typestate automaton: the maximum in force at every read and write after the handshake',
    'C16': 'typestate automaton over the connection\'s state graph with provenance of ids',
    'C17': 'typestate automaton over the connection\'s state graph (fragment flag, capability)',
    'C18': ABS + ': symbolic contents of the reassembly table per path',
    'C19': 'typestate automaton: every wait on a service is under a timeout with the configured limit',
    'C20': 'typestate automaton over the connection\'s state graph (no event after the end)',
    'C21': 'typestate automaton over agent and task graphs, provenance of state shared by connections',
    'C22': 'typestate automaton over agent and connection graphs (tokens, trackers, suspensions)',
    'C23': 'typestate automaton over the accept loop (suspensions, endings, spawns)',
    'C24': 'typestate exploration of all call sequences on the acker up to a bound, over MIR',
    'C25': 'effect analysis of every poll_next: Pending implies a registered waker',
    'C26': 'typestate automaton over the dispatcher with provenance of channels and keys',
    'C27': 'typestate automaton over the header decoder (string pairs, terminator, errors)',
    'C28': 'type query over coroutine witnesses, blocking-call reachability, lock dataflow on MIR',
    'C29': 'typestate automaton: kinds of every frame that reaches a write',
    'C30': ABS + ': flow of builder settings to the runtime and from there to their uses',
    'C31': 'typestate automaton: poll_ready before call',
    'C32': 'lint over the syntax tree for unsafe code',
    'C33': ABS + ': size formulas compared with the bytes written, path by path',
    'C34': ABS + ': decision tables of the handlers extracted and compared with the status table',
    'C35': 'dataflow over varint MIR with byte-exact symbolic terms: path conditions and terms normalised and compared with SPOP\'s definition',
    'C36': ABS + ': composition of the rules of C03, C04, C05, C06, C35 and C37 in both directions',
    'C37': ABS + ': text tables of both directions compared with SPOP\'s names; automaton over the items of a list',
    'C38': ABS + ': result terms of every public constructor, accessor and conversion compared with their arguments',
}
NOTE = ('Covers every path of the functions analysed, up to the abstractions of the interpreter (loops are joined, values it does not '
        'model are unknown and never a reason for an alarm; such places are listed in the evidence as not_understood). Trusts rustc\'s MIR, '
        'the models of std, tokio, bytes, http, dashmap and tower functions in lib/models.py, and the anchors named in DESIGN.md. ')
EXTRA = {
    'C24': 'Call sequences are explored up to 4 (thorough: 6) calls. ',
    'C22': 'Assumes a connection is not stuck writing to a peer that never reads. ',
    'C28': 'Sound for guards kept across suspensions (the compiler\'s own coroutine layout); blocking calls are those of a list of known operations. ',
    'C32': 'Complete: the whole syntax tree after macro expansion is examined. ',
}
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3 lib/dumps.py',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                 'technique': TECH[i], 'level': 'other', 'level_note': NOTE + EXTRA.get(i, '')} for i in ids if i in TECH],
     'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
     'notes': 'See DESIGN.md. Known findings and repaired defects: known_findings.txt.'}
assert {c['property'] for c in m['checks']} | set(NA) == set(ids)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
