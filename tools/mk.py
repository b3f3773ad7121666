#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

TECH = ('contract-based deductive verification: pre/postcondition contracts on the functions of /repo, '
        'verification conditions generated by path-complete symbolic execution of the current source, discharged by z3 and cvc5')
NOTE = ('Proof over exact arithmetic (floats as reals, rounding not modelled) for every input within the stated preconditions; '
        'trusted: the VC generator in engine/, the models of Python built-ins, z3/cvc5; see DESIGN.md. ')


def where(s):
    f, sym = s.split(':', 1)
    return f, sym


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            files = []
            for m in p['mechanism']:
                f = m[1].split(':')[0]
                if f not in files:
                    files.append(f)
            o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p.get('state', [])],
                             'observe_at': p['observe'], 'hook_needed': None}}
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            fh.write(json.dumps(o) + '\n')
    na = {x['property'] for x in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p['id'] in na:
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'], 'thorough_cmd': 'bin/check %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': p.get('level', 'proof'),
                       'level_note': NOTE + p.get('note', '')})
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
         'notes': 'Contracts in specs/, engine in engine/, findings in known_findings.json, design in DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


MISSED = {
    'C17-feed': 'missed at first; contract `tool_parameters` now compares every parameter of the tools',
    'C11-dotmode': 'missed at first; contract `dots` now follows arcs too',
    'C14-down': 'missed at first (every contract started from an arbitrary state); contract `start` now states the initial one',
    'C15-zero': 'missed at first; the contracts of pairs of statements and of slots now include zero values',
    'C16-zerotool': 'missed at first; path lengths and reports now include tool number 0',
    'C10-short': 'missed at first (commands were only compared with themselves read alone); contracts `codes` and `coordinates` now state what each command means',
}


def tail():
    with open(os.path.join(ROOT, 'known_findings.json')) as fh:
        known = json.load(fh)
    found = '\n'.join('* %s (%s): %s' % (f['id'], f['property'], f['what']) for f in known['findings'])
    rows = []
    d = os.path.join(ROOT, 'seeded')
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n, 'meta.json')) as fh:
            m = json.load(fh)
        rows.append('* `%s` (%s): %s. *Needs:* %s. *Caught by:* %s%s' % (n, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m['property'], '; ' + MISSED[n] if n in MISSED else ''))
    with open(os.path.join(HERE, 'design_tail.md')) as fh:
        return fh.read().replace('@@FINDINGS@@', found).replace('@@SEEDED@@', '\n'.join(rows))


def design():
    """DESIGN.md = tools/design_head.md with the per-property sections."""
    out = []
    for p in PROPS:
        out.append('### %s %s\n\n%s\n\n*Quantified over:* %s\n\n*How it is decided:* %s\n' % (
            p['id'], p['title'], p['statement'], p['quant'], p['design']))
    for n in NOT_APPLICABLE:
        out.append('### %s (not applicable)\n\n%s\n' % (n['property'], n['reason']))
    with open(os.path.join(HERE, 'design_head.md')) as fh:
        t = fh.read()
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fh:
        fh.write(t.replace('@@PROPS@@', '\n'.join(out)) + tail())


main()
design()
