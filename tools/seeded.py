#!/usr/bin/env python3-vt
"""Runs the checks against the planted changes of /verif/seeded: tools/seeded.py [id ...] [--all-props]"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.path.basename(d) for d in glob.glob(HERE + '/seeded/*'))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed-')
    w = os.path.join(tmp, 'r')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
    try:
        subprocess.check_call(['git', '-C', w, 'apply', d + '/patch.diff'])
        r = subprocess.run(['python3-vt', HERE + '/check.py', prop, '--repo', w, '--evidence', tmp, '-v'], capture_output=True, text=True)
        lines = r.stdout.strip().splitlines()
        v = [l for l in lines if l.startswith('VIOLATION')]
        print('%-26s %s rc=%d %s | %s' % (i, prop, r.returncode, 'CAUGHT' + (' (no input)' if v[0].endswith('found') else '') if v else 'MISSED',
                                          ' '.join(lines[-2:])[:230] if v else '\n'.join(lines[-6:])[:1500]), flush=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
        shutil.rmtree(tmp, ignore_errors=True)
