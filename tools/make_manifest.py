"""Writes /verif/MANIFEST.json: one check for each property with a module in props/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PYTHON = '/opt/venv/bin/python'
NOTE = ('Seeded search: the property held on every simulated history, schedule and fault sequence drawn (counts, fault '
        'kinds and places in the evidence file); nothing is claimed beyond them.  Trusted: the simulator (sim/kernel.py), '
        'the oracle of the check, CPython, NumPy, SciPy.  ')
PURE = ('A pure function of its arguments: no scheduling, clock, I/O, fault, crash or history can change the outcome, so '
        'simulation with fault injection has nothing to decide here; %s')
NOT = {
    'N01': PURE % 'its effect on mapped values is judged by the reference model in C03, C07 and C08.',
    'N02': PURE % 'its effect on mapped values is judged by the reference model in C03, C07 and C08.',
    'N03': PURE % 'its effect (which casts are used) is judged by the reference model in C03 and C07.',
    'N04': PURE % 'the dates of the simulated casts go through it in C03.',
}


def main():
    pids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, rest = [], []
    for pid in pids:
        if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
            p = importlib.import_module('props.' + pid.lower())
            checks.append({'property': pid, 'quick_cmd': '%s check.py %s --tier quick' % (PYTHON, pid),
                           'thorough_cmd': '%s check.py %s --tier thorough' % (PYTHON, pid),
                           'evidence_file': 'evidence/%s.json' % pid,
                           'technique': 'deterministic simulation with fault injection (seeded search, '
                                        'reference-model and history oracles)',
                           'level': p.LEVEL,
                           'level_note': NOTE + 'Assumes: ' + '; '.join(p.ASSUMPTIONS) + '.'})
        else:
            rest.append({'property': pid, 'reason': NOT.get(pid, 'its check is not built yet')})
    doc = {'version': 1, 'setup_cmd': PYTHON + ' tools/selftest.py', 'checks': checks, 'not_applicable': rest,
           'notes': 'No hooks in /repo are needed: every seam (files, clocks, process numbers, random states, '
                    'interrupts at lines, scheduling of processes) is put around the unmodified code from outside.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
