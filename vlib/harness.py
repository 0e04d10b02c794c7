"""Builds harness crates against /repo's working tree and runs them."""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from . import schema as sc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
TOOLCHAIN = os.environ.get('VP_TOOLCHAIN', 'nightly-2026-02-27')
JOBS = 8

PROFILE = '''
[profile.dev]
opt-level = 0
debug = 0
incremental = false
overflow-checks = true
debug-assertions = true

[profile.dev.package.monitor]
opt-level = 2
overflow-checks = false

[profile.dev.build-override]
opt-level = 0

[profile.release]
opt-level = 2
debug = 0
incremental = false
overflow-checks = false
debug-assertions = false
'''


def env(extra=None):
    e = dict(os.environ)
    e.update({'RUSTUP_TOOLCHAIN': TOOLCHAIN, 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never'})
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(extra or {})
    return e


class Broken(Exception):
    """The check cannot give an answer (for example, /repo doesn't build)."""


def cargo_toml(name, deps='', bins=''):
    return '''[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
%s
%s
%s
''' % (name, deps, bins, PROFILE)


def fresh(name):
    d = os.path.join(BUILD, name)
    if os.path.isdir(d):
        keep = os.path.join(d, 'target')
        for x in os.listdir(d):
            p = os.path.join(d, x)
            if p == keep:
                continue
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    return d


def deps_line(features=None):
    return 'bitfields = { path = "%s/bitfields" }\nmonitor = { path = "%s/monitor" }' % (REPO, ROOT)


def cargo(d, args, timeout=800, extra_env=None):
    cmd = ['cargo'] + args
    p = subprocess.run(cmd, cwd=d, env=env(extra_env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def parse_errors(out):
    """Compiler errors from cargo's JSON: (package, file, line, message, rendered)."""
    errs = []
    for line in out.splitlines():
        if not line.startswith('{'):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message'].get('level') not in ('error', 'error: internal compiler error'):
            continue
        msg = m['message']
        spans = [s for s in msg['spans'] if s['is_primary']] or msg['spans']
        where = []
        for s in spans:
            # The outermost expansion is in our file.
            while s.get('expansion') and s['expansion'].get('span'):
                s = s['expansion']['span']
            where.append((s['file_name'], s['line_start']))
        errs.append((m.get('target', {}).get('name', ''), m.get('package_id', ''), where, msg['message'], msg.get('rendered') or ''))
    return errs


class Built:
    def __init__(self, dir, exes, dropped):
        self.dir = dir
        self.exes = exes
        self.dropped = dropped


def driver_main(b):
    return 'fn main() { monitor::driver::main(&[%s]); }\n' % ', '.join(
        'monitor::Entry { desc: %s::ENTRY.desc, make: %s::ENTRY.make }' % (s.mod, s.mod) for s in b)


def write_harness(d, schemas, nbins, main=driver_main):
    with open(os.path.join(d, 'src', 'types.rs'), 'w') as f:
        f.write(sc.TYPES_RS)
    for i, s in enumerate(schemas):
        s.mod = 's_' + re.sub(r'\W', '_', s.id)
        with open(os.path.join(d, 'src', s.mod + '.rs'), 'w') as f:
            f.write(s.rust())
    bins = [[] for _ in range(nbins)]
    groups = {}
    for s in schemas:
        groups.setdefault(s.group or ('=' + s.id), []).append(s)
    for g in sorted(groups.values(), key=lambda g: -sum(x.weight() for x in g)):
        min(bins, key=lambda b: sum(x.weight() for x in b)).extend(g)
    os.makedirs(os.path.join(d, 'src', 'bin'), exist_ok=True)
    toml = ''
    names = []
    for i, b in enumerate(bins):
        if not b:
            continue
        n = 'h%d' % i
        names.append(n)
        with open(os.path.join(d, 'src', n + '.rs'), 'w') as f:
            f.write('#![allow(warnings)]\n#[path = "types.rs"] mod types;\n')
            for s in b:
                f.write('#[path = "%s.rs"] mod %s;\n' % (s.mod, s.mod))
            f.write('#[global_allocator] static A: monitor::alloc::Counting = monitor::alloc::Counting;\n')
            f.write(main(b))
        toml += '\n[[bin]]\nname = "%s"\npath = "src/%s.rs"\n' % (n, n)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(cargo_toml('harness', deps_line(), toml))
    return names


def check_repo_builds(out, errs):
    """Raises if the code under test itself doesn't compile."""
    for t, pkg, where, msg, rendered in errs:
        if 'harness' not in pkg and 'harness' not in t and not t.startswith('h'):
            raise Broken('%s does not compile: %s' % (t, rendered[:2000]))


def build_harness(name, schemas, nbins=JOBS, release=False, main=driver_main, extra_env=None, target=None):
    """Returns (Built, [(schema, tag, message)]). Declarations that don't compile
    are reported and left out."""
    problems = []
    schemas = list(schemas)
    for attempt in range(4):
        d = fresh(name)
        bins = write_harness(d, schemas, nbins, main)
        rc, out, err = cargo(d, ['build', '--offline', '--message-format=json', '-j', str(JOBS), '--keep-going'] + (['--release'] if release else []) + (['--target', target] if target else []),
                            extra_env=extra_env)
        if rc == 0:
            exes = [os.path.join(d, 'target', target or '', 'release' if release else 'debug', b) for b in bins]
            return Built(d, exes, problems), problems
        errs = parse_errors(out)
        if not errs:
            raise Broken('cargo build failed:\n' + err[-3000:])
        bad = {}
        for t, pkg, where, msg, rendered in errs:
            found = False
            for fn, ln in where:
                m = re.search(r'src/(s_\w+)\.rs$', fn)
                if m:
                    s = next((x for x in schemas if x.mod == m.group(1)), None)
                    if s is None:
                        continue
                    found = True
                    lines = open(os.path.join(d, 'src', s.mod + '.rs')).read().split('\n')
                    tag = lines[ln - 1].rsplit('//@', 1)[-1].strip() if ln - 1 < len(lines) else 'decl'
                    bad.setdefault(s.id, []).append((tag, rendered))
                elif fn.endswith('src/types.rs'):
                    found = True
                    raise TypesFailed(rendered)
            if not found and msg.startswith('aborting due to'):
                continue
            if not found:
                if not where and 'could not compile' in msg:
                    continue
                if 'harness' in pkg:
                    # An error without a place of its own.
                    bad.setdefault(None, []).append(('decl', rendered))
                else:
                    raise Broken('%s does not compile:\n%s' % (t, rendered[:2000]))
        if None in bad and len(bad) > 1:
            del bad[None]
        if None in bad:
            raise Broken('cannot place compiler error:\n' + bad[None][0][1][:2000])
        if not bad:
            raise Broken('cargo build failed:\n' + err[-3000:])
        for s in schemas:
            for tag, rendered in bad.get(s.id, [])[:6]:
                problems.append((s, tag, rendered))
        schemas = [s for s in schemas if s.id not in bad]
        if not schemas:
            break
    return Built(None, [], problems), problems


class TypesFailed(Exception):
    pass


def run_bins(built, prop, seed, tag='', extra=None, timeout=700):
    """Runs the harness binaries in parallel; returns (violations, stats)."""
    viol = []
    stats = {}

    def one(exe):
        outp = os.path.join(built.dir, 'out_%s_%s.jsonl' % (os.path.basename(exe), tag))
        e = {'VP_PROP': prop, 'VP_SEED': str(seed), 'VP_OUT': outp}
        e.update(extra or {})
        if os.path.exists(outp):
            os.remove(outp)
        p = subprocess.run([exe], env=env(e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return exe, p.returncode, p.stdout.decode('utf8', 'replace'), outp
    with ThreadPoolExecutor(JOBS) as ex:
        for exe, rc, out, outp in ex.map(one, built.exes):
            if rc != 0 or not os.path.exists(outp):
                viol.append({'t': 'crash', 'tags': ['C16', prop], 'schema': os.path.basename(exe), 'key': 'crash',
                             'what': 'the monitored program ended with status %d: %s' % (rc, out[-1500:]), 'decl': '', 'history': []})
                continue
            for line in open(outp):
                m = json.loads(line)
                if m['t'] == 'violation':
                    viol.append(m)
                elif m['t'] == 'hang':
                    # Like a crash: what the check set out to observe cannot be observed.
                    m['tags'].append(prop)
                    viol.append(m)
                else:
                    merge(stats, m)
    return viol, stats


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
