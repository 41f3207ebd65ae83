"""Writes MANIFEST.json: one check per module in checks/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

TECH = {
    'C01': 'runtime monitoring: round-trip oracle over generated values',
    'C02': 'runtime monitoring: reference-model comparison of saved and loaded trees',
    'C03': 'runtime monitoring: history checker (file snapshots vs model at each save)',
    'C04': 'runtime monitoring: lockstep reference-model monitor on four backends',
    'C05': 'runtime monitoring: independent constraint oracle on validate()',
    'C06': 'runtime monitoring: invalid-node oracle on recursive validation',
    'C07': 'runtime monitoring: size-agreement oracle over edit histories',
    'C08': 'runtime monitoring: save/load gate oracle with file digests',
    'C09': 'runtime monitoring: schema-requirement oracle on load',
    'C10': 'runtime monitoring: serialisation round-trip oracle',
    'C11': 'runtime monitoring: independent canonical-JSON SHA-256 oracle',
    'C12': 'runtime monitoring: copy oracle over ordered backend pairs',
    'C13': 'runtime monitoring: non-interference monitor on copies',
    'C14': 'runtime monitoring: empty/complete oracle over histories',
    'C15': 'runtime monitoring: exported/printed tree oracle',
    'C16': 'runtime monitoring: reset-guard oracle with state comparison',
    'C17': 'runtime monitoring: file-system effect monitor (listing and digests)',
    'C18': 'runtime monitoring: trace checker against a PseudoStorage state machine',
    'C19': 'runtime monitoring: SIGKILL injection with journal checker',
    'C20': 'runtime monitoring: clock-controlled trace oracle',
    'C21': 'runtime monitoring: independent file-format readers as oracle',
    'C22': 'runtime monitoring: golden-corpus replay with recorded observations',
    'C23': 'runtime monitoring: fault injection (rejected values) with state comparison',
    'C24': 'runtime monitoring: non-interference monitor over interleavings and threads',
    'C25': 'runtime monitoring: open-descriptor monitor (/proc/self/fd) over histories',
    'C26': 'runtime monitoring: write-fault injection at any byte with state comparison',
    'C27': 'runtime monitoring: truncation and corruption injection with load oracle',
    'C28': 'runtime monitoring: observation-purity monitor (state, schema and file bytes)',
    'C29': 'runtime monitoring: fault injection into container operations with a state-continuity monitor',
}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    checks, missing = [], []
    for p in props:
        pid = p['id']
        if not os.path.exists(os.path.join(ROOT, 'checks',
                                           pid.lower() + '.py')):
            missing.append({'property': pid,
                            'reason': 'check not built yet'})
            continue
        module = importlib.import_module('checks.' + pid.lower())
        level = getattr(module, 'LEVEL', 'exploration')
        note = getattr(module, 'NOTE', None) or (
            'Held on the executions of the run, generated as described in '
            'coverage.rule of the evidence. Trusts the reference model and '
            'oracles in /verif/lib, numpy, h5py and scipy as installed.')
        if getattr(module, 'ASSUMPTIONS', None):
            note += ' Assumes: ' + '; '.join(module.ASSUMPTIONS) + '.'
        checks.append({
            'property': pid,
            'quick_cmd': './check %s --tier quick' % pid,
            'thorough_cmd': './check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[pid], 'level': level, 'level_note': note})
    manifest = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
                'not_applicable': missing,
                'notes': 'All checks are pure Python and run the code in '
                '/repo/dsch directly; nothing has to be built. No hooks in '
                '/repo are needed. See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(checks), 'checks,', len(missing), 'not applicable')


main()
