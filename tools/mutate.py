#!/usr/bin/env python3
"""Development tool, used by no check: systematic mutants of the macros' source. Mutants that
build, change an expansion and pass the existing tests are run against the checks, in scratch
copies under /tmp/m, until one check reports a violation.
usage: mutate.py list > FILE | mutate.py run SLOT FILE LOG | mutate.py fp (inside a slot)"""
import hashlib, json, os, random, re, subprocess, sys, time
REPO = '/repo'
SRC = 'bitfields_impl/src/'
ORDER = 'C13 C11 C14 C28 C21 C17 C19 C27 C22 C23 C15 C26 C25 C24 C01 C03 C04 C06 C20 C16'.split()
SUBS = [(r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
        (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' << ', ' >> '), (r' >> ', ' << '),
        (r' & ', ' | '), (r' \| (?!\w+\|)', ' & '), (r' &= ', ' |= '), (r' \|= ', ' &= '), (r' \+= ', ' -= '), (r'\bif !', 'if '), (r'(?<=[ (])!(?=[a-z#(])', ''), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
        (r'is_some\(', 'is_none('), (r'is_none\(', 'is_some('), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\bLsb\b', 'Msb'), (r'\bMsb\b', 'Lsb'), (r'\bBig\b', 'Little'), (r'\bLittle\b', 'Big'),
        (r'\bReadOnly\b', 'WriteOnly'), (r'\bWriteOnly\b', 'ReadOnly'), (r'\bReadWrite\b', 'ReadOnly'), (r'\bNone\b(?=[,;)\n])', 'ReadWrite'), (r'\.rev\(\)', ''), (r'\.swap_bytes\(\)', ''), (r'\.skip\((\d+)\)', ''),
        (r'_le_', '_be_'), (r'_be_', '_le_'), (r'\bto_le_bytes', 'to_be_bytes'), (r'\bfrom_le_bytes', 'from_be_bytes'), (r'\bmsb\b', 'lsb'), (r'\blsb\b', 'msb'),
        (r'(?<![\w.#"])(\d+)(?=(?:u8|u16|u32|u64|u128|usize|i32)?\b)(?![\w.]*")', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.#"])([1-9]\d*)(?=(?:u8|u16|u32|u64|u128|usize|i32)?\b)', lambda m: str(int(m.group(1)) - 1)),
        (r'from_endian', 'into_endian'), (r'into_endian', 'from_endian'), (r'write_endian', 'from_endian'), (r'has_(\w+)_setter', r'has_\1_getter'), (r'ProtectionType::\w+', 'ProtectionType::None'),
        (r'offset\(\)', 'bits()'), (r'\bbits\(\)', 'offset()'), (r'is_reserved', 'is_ignored'), (r'has_setter\(\)', 'has_getter()'), (r'has_getter\(\)', 'has_setter()'), (r'visibility', 'vis_')]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def mutants():
    out = []
    for f in sh('cd %s && git ls-files %s' % (REPO, SRC)).stdout.split():
        blame = sh('cd %s && git blame -s HEAD -- %s' % (REPO, f)).stdout.splitlines()
        lines = open(os.path.join(REPO, f)).read().splitlines()
        if f.endswith('lib.rs'):
            lines = lines
        depth_doc = False
        for i, l in enumerate(lines):
            if re.match(r'\s*(mod tests|#\[cfg\(test\)\])', l):
                break
            if not blame[i].startswith('^') or re.match(r'\s*(//|use |pub mod|mod |\*|/\*)', l):
                continue
            if re.search(r'#\[doc = "', l) or depth_doc:
                depth_doc = not re.search(r'"\]\s*$', l)
                continue
            st = l.strip()
            code = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + '\0' * (len(m.group(0)) - 2) + '"', l)
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    # Array types, arrows and generics are no operators.
                    new = l[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + l[m.end():]
                    if new != l:
                        out.append((f, i + 1, l, new))
            if (st.endswith(';') and '{' not in st and not st.startswith(('let', 'return', 'use', 'pub', 'const', 'type', '}'))) or re.fullmatch(r'#\(? ?#?\w+ ?\)?\*?', st) or re.fullmatch(r'\.\w+\(.*\)', st):
                out.append((f, i + 1, l, ''))
            if re.match(r'if .*\{$', st) and ' let ' not in st:
                ind = l[:len(l) - len(l.lstrip())]
                out.append((f, i + 1, l, ind + 'if true {'))
                out.append((f, i + 1, l, ind + 'if false {'))
    return out


def fp():
    sys.path.insert(0, os.getcwd())
    from vlib import behaviour, decls, flags, hygiene, schema as sc
    from vlib.rig import Rig
    rig = Rig('rig_fp')
    rng = random.Random('fp')
    S = sc.corners() + sc.base_corpus() + [sc.rand_schema(rng, 'r%d' % i, rng.choice(sc.BACKINGS), ignored=.15, feature_off=.3) for i in range(250)]
    batches = [('e%d' % k, S[k::10]) for k in range(10)]
    h = []

    def ex(b):
        res, err = hygiene.expansions(rig, b[0], b[1])
        return json.dumps(res, sort_keys=True) + err
    h += rig.map(ex, batches)
    cases = decls.special_accepts()
    for i in range(14):
        s = sc.rand_schema(rng, 'x%d' % i, rng.choice(sc.BACKINGS), customs=.1, defaults=.2, feature_off=.1, heap=False)
        cases += decls.break_rules(rng, s, 'x%d' % i)
    for i in range(12):
        cases += decls.flag_cases(rng, 'f%d' % i)

    def rj(k):
        text, _ = decls.crate(cases[k::12])
        o = rig.compile('rj%d' % k, text)
        return json.dumps([(e['message'], [(s['line_start'], s['column_start']) for s in e['spans']]) for e in o.errs])
    h += rig.map(rj, range(12))
    fl = [c for c in cases if c.accept]

    def fa(k):
        text, _ = decls.crate(fl[k::4])
        src = os.path.join(rig.work, 'fa%d.rs' % k)
        open(src, 'w').write(text)
        from vlib import harness
        p = subprocess.run(['rustc', '--edition', '2021', '-Zunpretty=expanded', '--crate-type', 'lib', src] + rig.args(), env=harness.env(dict(rig.env, RUSTC_BOOTSTRAP='1')), cwd=rig.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.stdout.decode() + p.stderr.decode()
    h += rig.map(fa, range(4))
    print('FP', hashlib.sha256('\n'.join(h).encode()).hexdigest())


def anyviol():
    """One run of the behaviour monitors in which a deviation of any property counts."""
    sys.path.insert(0, os.getcwd())
    from vlib import behaviour, harness, schema as sc
    S = behaviour.schemas_for('C08', 1) + [s for s in behaviour.schemas_for('C12', 1) if s.group and not s.group.startswith('twf') and s.group != 'masks']
    seen = set()
    S = [s for s in S if not (s.id in seen or seen.add(s.id))]
    try:
        built, problems = harness.build_harness('behaviour', S)
    except harness.TypesFailed as e:
        print('ANY types')
        return
    tags = set()
    for s, tag, rendered in problems:
        tags |= {'compile'}
    if built.dir is not None:
        viol, st = harness.run_bins(built, 'C02', 1, extra={'VP_ALL': '1', 'VP_FULL': '0', 'VP_ROUNDS': '10', 'VP_LEN': '60'})
        for v in viol:
            tags |= set(v['tags']) if v['t'] != 'crash' else {'crash'}
            if v['t'] == 'crash': print(v['what'])
    print('ANY', ' '.join(sorted(tags)))


def run(slot, todo, log):
    D = '/tmp/m/%s' % slot
    R, V, L = D + '/repo', D + '/verif', D + '/logs'
    if not os.path.isdir(R):
        sh('mkdir -p %s && cp -a /repo %s' % (D, R))
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % R)
    sh('mkdir -p %s; rsync -a --delete --exclude build --exclude seeded --exclude .git /verif/ %s/' % (V, V))
    for n in ('build', 'test'):
        s = open('/opt/vp/%s.sh' % n).read().replace('/repo', R).replace('LOGS=/opt/vp/logs', 'LOGS=' + L)
        open(D + '/%s.sh' % n, 'w').write(s)
        # The default configuration alone.
        open(D + '/%s1.sh' % n, 'w').write(re.sub(r'CONFIGS=\(.*\)', 'CONFIGS=("default|")', s).replace('("default", "all-features", "no-default-features")', '("default",)'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    e = dict(os.environ, VP_REPO=R, VERIF_SEED='1', VERIF_TIER='quick')

    def fingerprint():
        p = sh('timeout 300 python3 %s fp' % os.path.join(V, 'tools/mutate.py'), cwd=V, env=e)
        m = re.search(r'FP (\w+)', p.stdout)
        return m.group(1) if m else 'broken ' + p.stdout[-200:]

    def tests(k):
        if sh('timeout 600 bash %s/build%s.sh' % (D, k)).returncode:
            return 'tests do not build'
        sh('timeout 900 bash %s/test%s.sh %s/o.json' % (D, k, D))
        try:
            got = set(json.load(open(D + '/o.json'))['passed'])
        except Exception:
            return 'tests gave nothing'
        want = {t for t in stable if not k or t.startswith('default/')}
        bad = sorted(want - got)
        return '%d tests fail' % len(bad) if bad else ''
    done = set()
    if os.path.exists(log):
        done = {tuple(json.loads(l)['m']) for l in open(log)}
    base = fingerprint()
    assert not base.startswith('broken'), base
    for line in open(todo):
        m = json.loads(line)
        if tuple(m) in done:
            continue
        f, n, old, new = m
        p = os.path.join(R, f)
        text = open(p).read().splitlines(keepends=True)
        assert text[n - 1].rstrip('\n') == old, m
        text[n - 1] = new + '\n'
        open(p, 'w').write(''.join(text))
        t0 = time.time()
        res = {'m': m}
        if sh('cd %s && RUSTUP_TOOLCHAIN=nightly-2026-02-27 CARGO_NET_OFFLINE=true cargo check -q -p bitfields-impl' % R).returncode:
            res['r'] = 'does not build'
        else:
            g = fingerprint()
            if g == base:
                res['r'] = 'same expansions'
            else:
                q = sh('timeout 300 python3 tools/mutate.py any', cwd=V, env=e).stdout
                k = re.search(r'ANY (\w.*)', q)
                if k:
                    res['r'] = 'behaviour ' + k.group(1)
                else:
                    if 'ANY' not in q:
                        res.setdefault('errors', []).append(('any', q[-300:]))
                    left = list(ORDER)

                    def some(n):
                        for _ in range(n):
                            if not left or res['r'] != 'MISSED':
                                return
                            c = left.pop(0)
                            q = sh('timeout 900 python3 run.py check ' + c, cwd=V, env=e)
                            if q.returncode == 1 and 'VIOLATION' in q.stdout:
                                res['r'] = 'caught by ' + c
                            elif q.returncode:
                                res.setdefault('errors', []).append((c, q.stdout[-300:]))
                    res['r'] = 'MISSED'
                    some(5)
                    if res['r'] == 'MISSED':
                        t = tests('1')
                        if t:
                            res['r'] = t
                    some(99)
                    if res['r'] == 'MISSED':
                        res['r'] = tests('') or 'MISSED'
        sh('cd %s && git checkout -q -- .' % R)
        res['s'] = round(time.time() - t0)
        with open(log, 'a') as o:
            o.write(json.dumps(res) + '\n')


if sys.argv[1] == 'list':
    for m in mutants():
        print(json.dumps(m))
elif sys.argv[1] == 'fp':
    fp()
elif sys.argv[1] == 'any':
    anyviol()
else:
    run(*sys.argv[2:])
