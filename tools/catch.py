#!/usr/bin/env python3
"""Runs checks against planted bugs: catch.py [--all-checks] [--seed N] [BUG ...]

Applies each patch in /repo, runs the check of its property (or all checks), restores /repo.
"""
import json, os, subprocess, sys
args = sys.argv[1:]
every = '--all-checks' in args
args = [a for a in args if a != '--all-checks']
seed = '1'
if '--seed' in args:
    i = args.index('--seed')
    seed = args[i + 1]
    del args[i:i + 2]
root = '/verif/seeded'
ids = [p['id'] for p in map(json.loads, open('/verif/properties.jsonl'))]
for bug in args or sorted(os.listdir(root)):
    meta = json.load(open(f'{root}/{bug}/meta.json'))
    subprocess.check_call(['git', '-C', '/repo', 'apply', f'{root}/{bug}/patch.diff'])
    try:
        line = []
        for prop in ids if every else [meta['property']]:
            r = subprocess.run(['./run.sh', prop], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick'))
            caught = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
            if caught:
                line.append(prop)
            elif r.returncode:
                line.append(f'{prop}:exit{r.returncode}')
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(bug, meta['property'], 'caught by' if meta['property'] in line else 'MISSED; others:', ' '.join(line), flush=True)
