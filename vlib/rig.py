"""Compiles small programs against the macros of /repo's working tree, in parallel."""
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import harness


class Rig:
    """The macros, built once; `compile` then runs the compiler directly on a source text."""

    def __init__(self, name='rig', features=None, crate='bitfields', toolchain=None, monitor=False, rustc=None, release=False):
        self.dir = harness.fresh(name)
        self.crate = crate
        self.env = {'RUSTUP_TOOLCHAIN': toolchain} if toolchain else {}
        self.rustc = rustc or 'rustc'
        if rustc:
            self.env['RUSTC'] = rustc
        if crate == 'bitfields':
            dep = 'bitfields = { path = "%s/bitfields"%s }' % (harness.REPO, '' if features is None else ', default-features = false, features = [%s]' % ', '.join('"%s"' % f for f in features))
        else:
            dep = 'bitfields-impl = { path = "%s/bitfields_impl", default-features = %s, features = [%s] }' % (
                harness.REPO, 'false' if features is not None else 'true', ', '.join('"%s"' % f for f in features or []))
        if monitor:
            dep += '\nmonitor = { path = "%s/monitor" }' % harness.ROOT
        with open(os.path.join(self.dir, 'src', 'lib.rs'), 'w') as f:
            f.write('#![no_std]\n')
        with open(os.path.join(self.dir, 'Cargo.toml'), 'w') as f:
            f.write(harness.cargo_toml('rig', dep))
        rc, out, err = harness.cargo(self.dir, ['build', '--offline'] + ['--release'] * release + ['--message-format=json', '-j', str(harness.JOBS)], extra_env=self.env)
        if rc:
            errs = harness.parse_errors(out)
            raise harness.Broken('the macros do not compile: ' + (errs[0][4] if errs else err)[-2000:])
        self.lib = self.so = self.mon = None
        for line in out.splitlines():
            m = json.loads(line) if line.startswith('{') else {}
            if m.get('reason') == 'compiler-artifact':
                n = m['target']['name']
                if n == 'bitfields':
                    self.lib = [x for x in m['filenames'] if x.endswith('.rlib')][0]
                if n == 'monitor':
                    self.mon = [x for x in m['filenames'] if x.endswith('.rlib')][0]
                if n == 'bitfields_impl':
                    self.so = [x for x in m['filenames'] if x.endswith('.so')][0]
        self.deps = os.path.join(self.dir, 'target', 'release' if release else 'debug', 'deps')
        self.work = os.path.join(self.dir, 'work')
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def args(self, lib=None):
        mon = ['--extern', 'monitor=' + self.mon] if self.mon else []
        return mon + self.args_(lib)

    def args_(self, lib):
        if lib:
            return ['--extern', 'bitfields=' + lib, '-L', 'dependency=' + self.deps]
        if self.crate == 'bitfields':
            return ['--extern', 'bitfields=' + self.lib, '-L', 'dependency=' + self.deps]
        return ['--extern', 'bitfields=' + self.so, '-L', 'dependency=' + self.deps]

    def compile(self, name, text, run=False, flags=(), timeout=300, lib=None, run_env=None):
        """Returns Outcome. With `run`, builds a program and runs it."""
        src = os.path.join(self.work, name + '.rs')
        with open(src, 'w') as f:
            f.write(text)
        out = os.path.join(self.work, name + ('' if run else '.rmeta'))
        cmd = [self.rustc] + ([] if '--edition' in flags else ['--edition', '2021']) + ['--error-format=json', '--crate-name', 'case', src, '-o', out] + self.args(lib) + list(flags)
        cmd += ['--crate-type', 'bin', '-C', 'opt-level=0', '-C', 'debuginfo=0'] if run else ['--crate-type', 'lib', '--emit=metadata']
        try:
            p = subprocess.run(cmd, env=harness.env(self.env), cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return Outcome(None, [], '', hang=True)
        errs, ice = [], ''
        err = p.stderr.decode('utf8', 'replace')
        for line in err.splitlines():
            if line.startswith('{'):
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get('level', '').startswith('error') and not m['message'].startswith('aborting due to'):
                    errs.append(m)
                if 'internal compiler error' in m.get('level', ''):
                    ice = m.get('rendered') or 'ICE'
        o = Outcome(p.returncode, errs, ice)
        if p.returncode not in (0, 1):
            o.ice = o.ice or 'rustc ended with status %d: %s' % (p.returncode, err[-800:])
        o.stderr = err
        if run and p.returncode == 0:
            o.runs = []
            for k, a in enumerate(run if isinstance(run, list) else [[]]):
                q = subprocess.run([out] + a, cwd=self.work, env=harness.env(run_env(k) if run_env else None), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                o.run_rc, o.out, o.err = q.returncode, q.stdout.decode('utf8', 'replace'), q.stderr.decode('utf8', 'replace')
                o.runs.append((q.returncode, o.out + o.err))
        for x in (out,):
            if os.path.exists(x):
                os.remove(x)
        return o

    def pair(self, name, lib, main, timeout=300):
        """Compiles a library and a program that uses it from outside, and runs that."""
        src = os.path.join(self.work, name + '_lib.rs')
        rl = os.path.join(self.work, 'libcase_lib_%s.rlib' % name)
        with open(src, 'w') as f:
            f.write(lib)
        p = subprocess.run([self.rustc, '--edition', '2021', '--error-format=json', '--crate-name', 'case_lib', src, '-o', rl, '--crate-type', 'rlib', '-C', 'debuginfo=0'] + self.args(),
                           env=harness.env(self.env), cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        o = Outcome(p.returncode, errors_of(p.stderr.decode('utf8', 'replace')), '')
        if not o.ok:
            return o, o
        try:
            return o, self.compile(name, main, run=True, flags=['--extern', 'case_lib=' + rl])
        finally:
            os.remove(rl)

    def map(self, f, items):
        with ThreadPoolExecutor(harness.JOBS) as ex:
            return list(ex.map(f, items))


def errors_of(err):
    out = []
    for line in err.splitlines():
        if line.startswith('{'):
            m = json.loads(line)
            if m.get('level', '').startswith('error') and not m['message'].startswith('aborting due to'):
                out.append(m)
    return out


class Outcome:
    def __init__(self, rc, errs, ice, hang=False):
        self.rc, self.errs, self.ice, self.hang = rc, errs, ice, hang
        self.run_rc = None
        self.out = self.err = ''

    @property
    def ok(self):
        return self.rc == 0

    def rendered(self, n=1500):
        return '\n'.join(e.get('rendered') or e['message'] for e in self.errs)[:n]

    def messages(self):
        return [e['message'] for e in self.errs]

    def lines(self):
        """Lines of the case's own file that errors point to."""
        out = set()
        for e in self.errs:
            for s in [s for s in e['spans'] if s['is_primary']] or e['spans']:
                while s.get('expansion') and s['expansion'].get('span'):
                    s = s['expansion']['span']
                out.add(s['line_start'])
        return out
