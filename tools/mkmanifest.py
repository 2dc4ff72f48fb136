"""Regenerate MANIFEST.json from the table below: python3 tools/mkmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('Runtime monitoring: assurance is for the executions observed (counted in the evidence file), not a proof. Trusts CPython, '
        'the oracle/reference in /verif and the recorded boundary. ')
T = {
    'C01': ('runtime monitor: resolve/WSGI observations compared with a reference rule-by-rule matcher',
            'Random rule sets in all spellings plus sampled sets over a small universe against every short path.'),
    'C02': ('runtime monitor: WSGI status/Allow compared with an abstract method table',
            'All small method tables against all verbs plus random edit histories of the tables.'),
    'C03': ('runtime monitor: PEP 3333 validator, close counters and hook trace over generated handler programs with injected faults',
            'Generated handler outcomes (nesting, failures at every stage) checked against an outcome model.'),
    'C04': ('runtime monitor: recording wsgi.input and byte comparison under adversarial read fragmentation',
            'All fragmentations of short bodies over small buffers plus random large ones.'),
    'C05': ('runtime monitor: independent chunked reference decoder, every truncation point and mutations injected',
            'Random legal encodings, every truncation, mutations, all fragmentations of short ones.'),
    'C06': ('runtime monitor: differential observation of every one- and two-cut division of multipart bodies and all prefixes',
            'Exhaustive 1- and 2-cut divisions of a family of small bodies, byte-wise and random divisions of larger ones.'),
    'C07': ('runtime monitor: encode/submit/observe round trip through WSGI with an independent encoder',
            'Random field lists with hostile names, texts and contents.'),
    'C08': ('runtime monitor under a controlled scheduler (line-level baton via settrace), responses compared with solo runs',
            'All single-preemption schedules over request-kind pairs, sampled deeper ones; finer than line level only sampled.'),
    'C09': ('runtime monitor: response of request k in a history compared with a pristine process; weakref/allocation census',
            'Random histories over a catalogue of request kinds; liveness after N and 3N requests.'),
    'C10': ('runtime monitor: attribute reads of nested and scheduler-interleaved applications compared with expected values',
            'Generated nesting/construct/copy arrangements of up to three apps.'),
    'C11': ('runtime monitor: model of survivors plus differential comparison with a freshly built router after edit histories',
            'All histories up to length 3 over two universes, long random ones over generated universes.'),
    'C12': ('runtime monitor: status/traceback/CPU-time observation of mutated bodies, delivered fields checked against a reference scanner',
            'Structured mutation and random bytes for every content type and framing; hang = CPU-time watchdog.'),
    'C13': ('runtime monitor: recording wsgi.input, status, file descriptor and allocation observation around the limits',
            'Sizes around every threshold, both framings.'),
    'C14': ('runtime monitor: emitted header list compared with the accepted setter calls',
            'Every setter x every value class, random sequences; emission for 200/204/304.'),
    'C15': ('runtime monitor: cookie round trip plus audit-hook and canary monitoring of the unpickler under byte-level forgeries',
            'Every single-byte alteration and truncation of sampled signed cookies; random values/secrets.'),
    'C16': ('runtime monitor: audit-hook trace of every open() during static_file over a decoy tree',
            'Generated hostile names over a scratch tree with decoys outside the root.'),
    'C17': ('runtime monitor: delivered bytes and headers compared with an RFC 7233 reference',
            'All short range headers over small files plus grammar-based random ones and >1 MiB files.'),
    'C18': ('runtime monitor: encode/parse round trip against an independent encoder, arbitrary strings for totality',
            'All short strings over a hostile alphabet, random pair lists through WSGI.'),
    'C19': ('runtime monitor: Route.url output resolved again by router and reference matcher',
            'All matches of small rules over short paths, random rules and values.'),
    'C20': ('runtime monitor: tokenising scanner over framework-generated error pages for hostile request text',
            'Hostile text in every request-controlled slot, all error kinds, HTML and JSON.'),
}
PENDING = 'check not built yet'


def main():
    checks, na = [], []
    for pid in sorted(T):
        if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            tech, note = T[pid]
            checks.append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='VERIF_TIER=thorough ./check %s' % pid,
                               evidence_file='evidence/%s.json' % pid, technique=tech, level='exploration', level_note=BASE + note))
        else:
            na.append(dict(property=pid, reason=PENDING))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the monitors sit at public boundaries (WSGI, router, request/response objects, audit events). '
                   'Known findings and repairs: KNOWN_FINDINGS.txt. Design: DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
