#!/usr/bin/env python3
"""Development tool, used by no check: runs checks against planted bugs, in scratch copies.
usage: catch.py [--all-checks] [--slot N] SEED_ID..."""
import glob, json, os, shutil, subprocess, sys
args = sys.argv[1:]
slot = '0'
if '--slot' in args:
    i = args.index('--slot'); slot = args[i + 1]; del args[i:i + 2]
allc = '--all-checks' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.path.basename(x) for x in glob.glob('/verif/seeded/*'))
R, V = '/tmp/catchrepo' + slot, '/tmp/catchverif' + slot


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


sh('mkdir -p %s %s; rsync -a --delete --exclude target /repo/ %s/; rsync -a --delete --exclude build --exclude seeded --exclude .git /verif/ %s/' % (R, V, R, V))
man = json.load(open('/verif/MANIFEST.json'))
for sid in ids:
    d = '/verif/seeded/' + sid
    meta = json.load(open(d + '/meta.json'))
    p = sh('cd %s && git checkout -q -- . && git apply %s/patch.diff' % (R, d))
    if p.returncode:
        print(sid, 'DOES NOT APPLY', p.stdout); continue
    for c in man['checks']:
        if not allc and c['property'] != meta['property']:
            continue
        e = dict(os.environ, VP_REPO=R, VERIF_SEED='1', VERIF_TIER='quick')
        p = sh(c['quick_cmd'], cwd=V, env=e)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        print(sid, c['property'], 'CAUGHT' if p.returncode == 1 and v else 'missed' if p.returncode == 0 else 'ERROR %d %s' % (p.returncode, p.stdout[-600:]), flush=True)
    if not any(c['property'] == meta['property'] for c in man['checks']):
        print(sid, meta['property'], 'no check yet', flush=True)
sh('cd %s && git checkout -q -- .' % R)
