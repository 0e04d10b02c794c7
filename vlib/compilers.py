"""C30: the same declarations and workloads with the repository's pinned nightly compiler and
with the stable compilers that are installed."""
import copy
import os
import random
import re
import subprocess

from . import consts, decls, harness, hygiene, machines, schema as sc
from .rig import Rig

RULE = ('Declarations that are valid, and declarations with one rule broken, are compiled with the nightly compiler the repository pins and with stable ones: the verdicts and the messages of the macros '
        'must be the same, and valid declarations with strict lints must compile without a word. Call sequences are evaluated in constants by each, and by a stable compiler that reports itself as beta. Programs that call every generated function are built by each compiler and run with the same seed; the '
        'results and states of every call are compared with those of the pinned compiler. A case is a verdict or an event compared; distinct ones differ in declaration, operation, field or outcome.')


def installed():
    have = subprocess.run(['rustup', 'toolchain', 'list'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split('\n')
    names = [l.split('-x86_64')[0] for l in have if l.strip()]
    return [n for n in names if n == 'stable' or n[:1].isdigit()], [n for n in names if n.startswith('nightly') and n != harness.TOOLCHAIN]


def beta(t):
    """A stable compiler that calls itself a beta one; between the two the version is all that differs."""
    p = os.path.join(harness.BUILD, 'rustc-beta')
    with open(p, 'w') as f:
        f.write("""#!/bin/bash
if [ "$1" = --version ] || [ "$1" = -vV ] || [ "$1" = -V ] || [ "$1" = "-v" ]; then
    rustc "$@" | sed -E '1s/^rustc ([0-9.]+) /rustc \\1-beta.3 /; s/^release: ([0-9.]+)$/release: \\1-beta.3/'
else
    exec rustc "$@"
fi
""")
    os.chmod(p, 0o755)
    return p


def constants(r, tools):
    seen = set()
    for t in tools + ['beta']:
        rig = Rig('rig30b', toolchain=tools[0], rustc=beta(tools[0])) if t == 'beta' else Rig('rig30', toolchain=t)
        rng = random.Random('C30/c/%s/%s' % (r.seed, t))
        S = [s for s in sc.corners() if not s.heap and not s.ignored and s.nbits <= 256]
        S += [sc.rand_schema(rng, 'k%d' % n, rng.choice(sc.PICK), prot=.4, defaults=.5, endians=.4, heap=False) for n in range(40)]
        before = r.evaluations
        consts.sequences(r, rig, S, 'c' + t.replace('.', '_'), rng, 1, seen, t + '/')
        r.count('values_in_constants_with_' + t, r.evaluations - before)
        if r.violations:
            return
    r.distinct += len(seen)


def quoted(ms):
    return {q for m in ms for q in re.findall('`([^`]+)`', m)}


def verdicts(r, tools, batch):
    rng = random.Random('C30/%s/%s' % (r.seed, batch))
    cases = decls.special_accepts() if batch == 0 else []
    S = [s for s in sc.corners() if s.nbits <= 4096] if batch == 0 else []
    S += [sc.rand_schema(rng, 'v%d' % i, rng.choice(sc.PICK + ['[u8; 5]', '[u8; 20]']), ignored=.1) for i in range(60)]
    for s in S:
        s.name = 'S'
        cases.append(decls.Case('ok/' + s.id, s.decl() + '\n' + decls.layout_asserts(s), True, 'valid', s.pre))
    for i in range(10 if not r.thorough else 40):
        s = sc.rand_schema(rng, 'x%d' % i, rng.choice(sc.PICK + ['[u8; 5]']), customs=.1, defaults=.2, feature_off=.1, heap=False)
        cases += decls.break_rules(rng, s, 'x%d' % i)
    for i in range(8 if not r.thorough else 40):
        cases += decls.flag_cases(rng, 'f%d' % i)
    base = None
    for t in [harness.TOOLCHAIN] + tools:
        rig = Rig('rig30', toolchain=t)
        cs = copy.deepcopy(cases)
        for what, some, size in (('a', [c for c in cs if c.accept], 12), ('r', [c for c in cs if not c.accept], 40)):
            for p in decls.observe(rig, some, 'C30' + what, size)[:1]:
                r.violation('%s/types' % t, 'bitflags and nested bitfields used as field types do not compile with %s:\n%s' % (t, p[:1500]))
                return
        if base is None:
            base = cs
            continue
        for a, b in zip(base, cs):
            r.observe(1, 1)
            r.count('verdicts_with_' + t)
            if b.outcome is None:
                r.violation('%s/crash' % t, 'the compiler %s did not finish on:\n%s\n%s' % (t, b.body(), b.messages[0][:800]), {'declaration': b.body()})
            elif a.outcome is not None and a.outcome != b.outcome:
                r.violation('%s/verdict/%s' % (t, b.rule), 'with %s a declaration (%s) is %s that %s:\n%s\n%s' % (
                    t, b.rule, 'accepted' if b.outcome else 'rejected', 'the pinned compiler rejects' if b.outcome else 'the pinned compiler accepts', b.body(), '\n'.join((a.messages + b.messages)[:3])[:900]), {'declaration': b.body()})
            elif a.outcome is False and b.errors and a.errors:
                x, y = {m for _, m in a.errors}, {m for _, m in b.errors}
                r.count('messages_compared')
                # the compiler's own words differ with its version, the names in them do not
                if not x & y and b.rule not in SOFT and not quoted(x) & quoted(y):
                    r.violation('%s/message/%s' % (t, b.rule), 'with %s a rejected declaration (%s) draws other errors than with the pinned compiler:\n%s\n  %s\n  %s' % (t, b.rule, b.body(), sorted(y), sorted(x)), {'declaration': b.body()})
        if r.violations:
            return


SOFT = ()


def strict(r, tools):
    rng = random.Random('C30/strict/%s' % r.seed)
    S = [sc.rand_schema(rng, 'h%d' % i, rng.choice(sc.PICK), feature_off=0, ignored=.15, defaults=.5) for i in range(60)]
    S = [s for s in S if s.nbits <= 256 and s.arg('new')]
    for t in tools:
        g = Rig('rig30', toolchain=t)
        items = [(s, n, p, k * 100 + j) for k, s in enumerate(S) for j, (n, p) in enumerate(rng.sample(hygiene.PLACES, 2))]
        groups = [items[i::8] for i in range(8)]

        def one(k):
            text, ranges = hygiene.program(groups[k])
            return g.compile('s%d' % k, text, run=True, flags=['--edition', hygiene.EDITIONS[k % 3]])
        for k, o in enumerate(g.map(one, range(8))):
            if not o.ok or o.run_rc:
                r.violation('%s/strict' % t, 'with %s, strict lints and edition %s, declarations do not compile or work that do with the pinned compiler:\n%s' % (t, hygiene.EDITIONS[k % 3], (o.rendered() or o.err)[:1800]), {'program': hygiene.program(groups[k])[0]})
                return
            r.observe(len(groups[k]), len(groups[k]))
            r.count('strict_places_with_' + t, len(groups[k]))


def traces(r, tools, batch):
    rng = random.Random('C30/t/%s/%s' % (r.seed, batch))
    S = [s for s in sc.corners() if s.nbits <= 4096] if batch == 0 else []
    for i in range(70):
        b = rng.choice(['u8', 'u16', 'u32', 'u64', 'u128'] + ['[u8; %d]' % k for k in (1, 3, 4, 8, 9, 16, 21)])
        S.append(sc.rand_schema(rng, 't%d_%d' % (batch, i), b, ignored=.1, feature_off=.03, endians=.6, prot=.35, defaults=.5))
    for s in S:
        s.group = ''
    by_id = {s.id: s for s in S}
    envx = {'VP_BARE': '1', 'VP_TRACE': 'text', 'VP_ROUNDS': '8', 'VP_LEN': '80', 'VP_PROP': 'C30', 'VP_SEED': str(r.seed)}
    base = None
    for t in [harness.TOOLCHAIN] + tools:
        try:
            built, problems = harness.build_harness('compilers', S, extra_env={'RUSTUP_TOOLCHAIN': t})
        except harness.TypesFailed as e:
            r.violation('%s/types' % t, 'the custom field types (bitflags and nested bitfields) do not compile with %s:\n%s' % (t, str(e)[:1500]))
            return
        for s, tag, rendered in problems:
            r.violation('%s/compile/%s' % (t, s.id), 'a valid declaration, or a documented call on it, does not compile with %s:\n%s\n%s' % (t, s.decl(), rendered[:1200]), {'declaration': s.decl()})
        if r.violations or built.dir is None:
            return
        got = {}
        for exe in built.exes:
            outp = exe + '.trace.jsonl'
            p = subprocess.run([exe], env=harness.env(dict(envx, VP_OUT=outp)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode:
                r.violation('%s/run' % t, 'a program built with %s ends with status %s: %s' % (t, p.returncode, p.stdout.decode('utf8', 'replace')[-800:]))
                return
            a, st = machines.trace(outp)
            got.update(a)
            if base is None:
                r.distinct += st.get('distinct', 0)
                harness.merge(r.extra.setdefault('by_operation', {}), st.get('by_kind', {}))
                harness.merge(r.extra.setdefault('outcomes', {}), st.get('outcomes', {}))
        if base is None:
            base = got
            continue
        for i in sorted(got):
            r.observe(len(got[i]))
            r.count('events_with_' + t, len(got[i]))
            a, b = base.get(i, []), got[i]
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), None)
            if k is None and len(a) != len(b):
                k = min(len(a), len(b)) - 1
            if k is not None:
                r.violation('%s/%s' % (t, i), 'built with %s, %s gives %s and the state %s, but %s and %s with the pinned compiler\n  in: %s' % (
                    t, b[k][0], b[k][1], b[k][2], a[k][1], a[k][2], by_id[i].decl()[:600]), {'declaration': by_id[i].decl(), 'history': [e[0] for e in a[:k + 1]]})
        if r.violations:
            return
    r.samples += [{'declaration': by_id[i].decl()[:200], 'events': ['%s -> %s, state %s' % e[:3] for e in base[i][-3:]]} for i in sorted(base)[:6]]


def run(r):
    r.rule = RULE
    r.assumptions = ['of the compilers the crate supports (from 1.83 on) those that are installed here were run']
    stable, nightly = installed()
    tools = stable + (nightly if r.thorough else [])
    if not tools:
        raise harness.Broken('no stable compiler is installed')
    r.extra['compilers'] = [harness.TOOLCHAIN] + tools
    for batch in range(4 if r.thorough else 1):
        verdicts(r, tools, batch)
        if not r.violations:
            traces(r, tools, batch)
        if not r.violations and batch == 0:
            strict(r, tools)
        if not r.violations and batch == 0:
            constants(r, tools)
        if r.violations:
            return
