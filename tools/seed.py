#!/usr/bin/env python3
"""Development tool, used by no check: confirms a planted bug in a scratch copy of /repo and
writes it to /verif/seeded/<id>/. usage: seed.py SPEC.py... (a spec defines SEEDS, a list of dicts
id, property, needs, breaks, edits [(file, old, new[, count])], and demo (Rust main) or demo_sh + files)."""
import json, os, re, runpy, shutil, subprocess, sys

COPY = '/tmp/seedrepo'
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bitfields = { path = "$repo/bitfields" }
T
cd "$d" || exit 1
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2026-02-27 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
unset RUSTFLAGS
cargo run --quiet --offline
'''
# Compile-time demos: every accept*.rs must compile, every reject*.rs must not.
DEMO_COMPILE = DEMO.replace('cp "$here/demo.rs" "$d/src/main.rs"\n', 'echo "fn main() {}" > "$d/src/main.rs"\n').replace('cargo run --quiet --offline\n', '''cargo build --quiet --offline || exit 1
for f in "$here"/accept*.rs "$here"/reject*.rs; do
    [ -f "$f" ] || continue
    cp "$f" "$d/src/main.rs"
    cargo build --quiet --offline > "$d/log" 2>&1; rc=$?
    case $(basename "$f") in
        accept*) [ $rc = 0 ] || { echo "$f does not compile"; cat "$d/log"; exit 1; };;
        reject*) [ $rc != 0 ] || { echo "$f compiles"; exit 1; };;
    esac
done
''')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.isdir(COPY):
        sh('cp -a /repo %s' % COPY)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % COPY)
    for n in ('build', 'test'):
        s = open('/opt/vp/%s.sh' % n).read().replace('/repo', COPY).replace('LOGS=/opt/vp/logs', 'LOGS=/tmp/seedlogs')
        open('/tmp/seed_%s.sh' % n, 'w').write(s)


def confirm(s, fast):
    prepare()
    d = '/tmp/seedwork/' + s['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for e in s['edits']:
        p = os.path.join(COPY, e[0])
        t = open(p).read()
        n = t.count(e[1])
        if n != (e[3] if len(e) > 3 else 1):
            return 'edit matches %d times in %s: %r' % (n, e[0], e[1][:80])
        open(p, 'w').write(t.replace(e[1], e[2]))
    diff = sh('cd %s && git diff' % COPY).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if 'demo' in s:
        open(d + '/demo.rs', 'w').write(s['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(DEMO)
    else:
        open(d + '/demo.sh', 'w').write(s.get('demo_sh', DEMO_COMPILE))
        for n, t in s['files'].items():
            open(os.path.join(d, n), 'w').write(t.strip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    p = sh('cd %s && bash %s/demo.sh' % (COPY, d))
    if p.returncode == 0:
        return 'demo passes with the patch'
    with_patch = p.stdout[-600:]
    # Only lines of the original repository may be changed.
    for f in {e[0] for e in s['edits']}:
        for h in re.findall(r'(?m)^@@ -(\d+)(?:,(\d+))? ', sh('cd %s && git diff -U0 %s' % (COPY, f)).stdout):
            a, n = int(h[0]), int(h[1] or 1)
            if n:
                b = sh('cd %s && git blame -s -L %d,+%d HEAD -- %s' % (COPY, a, n, f)).stdout
                if any(not l.startswith('^') for l in b.splitlines()):
                    return 'touches lines of a fix:\n' + b
    if not fast:
        p = sh('bash /tmp/seed_build.sh')
        if p.returncode:
            return 'does not build\n' + p.stdout[-2500:]
        p = sh('bash /tmp/seed_test.sh /tmp/seedout.json')
        res = json.load(open('/tmp/seedout.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        missing = stable - set(res['passed'])
        if missing:
            return '%d stable tests fail: %s' % (len(missing), sorted(missing)[:6])
    sh('cd %s && git checkout -q -- .' % COPY)
    p = sh('cd %s && bash %s/demo.sh' % (COPY, d))
    if p.returncode:
        return 'demo fails without the patch\n' + p.stdout[-1500:]
    shutil.rmtree(os.path.join(OUT, s['id']), ignore_errors=True)
    shutil.copytree(d, os.path.join(OUT, s['id']))
    return 'KEPT; demo said: ' + with_patch.strip()[-200:]


if __name__ == '__main__':
    for spec in sys.argv[1:]:
        if spec == '--fast':
            continue
        for s in runpy.run_path(spec)['SEEDS']:
            print('==', s['id'], flush=True)
            print(confirm(s, '--fast' in sys.argv), flush=True)
