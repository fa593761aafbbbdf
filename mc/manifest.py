"""Writes /verif/MANIFEST.json from the property modules (run by hand after changes)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402
boot.load()

TECH = {
    'C09': 'exhaustive exploration of all addition/evaluation histories of the real objects up to a depth, against a list model',
    'C10': 'exhaustive exploration of all call/mutation histories of the real objects up to a depth, every result compared with a fresh-state model',
    'C12': 'stateless model checking of the real code: all thread interleavings at statement and sub-expression points up to a preemption bound',
    'C13': 'exhaustive enumeration of contribution combinations and histories over all unequal sizes',
    'C21': 'exhaustive fault enumeration over input files: every truncation, deletion and corruption in every isomer',
    'C22': 'exhaustive enumeration of plot configurations and plot/user-figure histories, figures observed at saving time',
    'C25': 'explicit-state exploration of repository histories up to a depth, real git replays, against a commit-graph model',
    'C26': 'exhaustive fault injection: every byte limit, every unwritable target, and a strike at every line and file of a run',
    'C27': 'exhaustive enumeration of process environments within a number of deviations, real interpreters started in each',
    'C28': 'stateless model checking of real processes: all interleavings of two runs at their visible points up to a bound, all kill and interrupt points',
    'C29': 'explicit-state model checking of packaging: all histories x ways of obtaining the sources x chains of packaging steps up to a bound, on real repositories and real builds, against a model of the commit graph',
    'C30': 'exhaustive enumeration of tables, storages and saving histories up to a depth, the files read back and compared with a model of the directory',
    'C31': 'exhaustive exploration of all histories of additions, copies and evaluations of the real objects up to a depth, against a list model',
}
NOTE = {
    'C12': 'Every schedule within the preemption bound at the instrumented points; races inside NumPy, ASE, pymatgen or matplotlib are trusted.',
    'C25': 'Every history within the bound, decided on the real module and real git; trusts git itself.',
    'C26': 'Every byte position of the tables and every listed obstacle; image positions are a fixed grid.',
    'C27': 'Every environment within the bound; values of an axis that are not in its menu are not explored.',
    'C28': 'Every schedule within the bound; lines of a run between which it does nothing visible to other processes are taken as equivalent (all of them in the thorough tier).',
    'C29': 'Every history, way and chain within the bound is carried out with git and setuptools; the places and kinds of artefact rotate where the bound says so.',
    'C22': 'Every configuration and history within the bounds; trusts matplotlib to render the figure it is given.',
}
DEFAULT = 'exhaustive bounded enumeration of the real code\'s behaviours, each compared with an independent reference model'
DEFNOTE = ('Complete within the stated bounds (menus of values per axis, sizes, deviations); every reference trace is '
           'replayed on the implementation. Values between the menu points are covered only by the laws\' smoothness.')


def main():
    checks = []
    ids = [json.loads(x)['id'] for x in open(os.path.join(boot.VERIF, 'properties.jsonl'))]
    skipped = []
    for pid in ids:
        try:
            mod = importlib.import_module('props.' + pid.lower())
        except ModuleNotFoundError:
            skipped.append(pid)
            continue
        checks.append({
            'property': pid, 'quick_cmd': f'./check {pid} --tier quick',
            'thorough_cmd': f'./check {pid} --tier thorough', 'evidence_file': f'evidence/{pid}.json',
            'technique': TECH.get(pid, DEFAULT), 'level': getattr(mod, 'LEVEL', 'model_checking'),
            'level_note': NOTE.get(pid, DEFNOTE) + ' Bounds (quick): ' + mod.BOUNDS['quick'] +
            ('. Assumes: ' + '; '.join(mod.ASSUMPTIONS) if getattr(mod, 'ASSUMPTIONS', None) else '')})
    doc = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': 'no check yet'} for p in skipped],
           'notes': 'No hooks in /repo. Interleaving points for C12 are added to the syntax tree at import time. '
                    'Known findings: KNOWN_FINDINGS.txt. Design: DESIGN.md.'}
    with open(os.path.join(boot.VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump(doc, fh, indent=1)
        fh.write('\n')


main()
