"""C29: the same workloads on this machine and on one with the other byte order and word
size, interpreted by Miri; the recorded traces are compared."""
import json
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import flags as fl, harness, schema as sc

RULE = ('Random and directed operations (with hostile offsets, lengths, values and slices) on declarations of every kind, from the same seed, on this machine (64 bits, little-endian) and '
        'interpreted by Miri for others (32 bits and big-endian; in the thorough tier also 64 bits big-endian and 32 bits little-endian). Each result and the state after each operation are recorded '
        'and the traces compared event by event; bitflags are run against the table of their variants on the other machine. A case is one compared event; distinct ones differ in declaration, operation, '
        'field or outcome.')
TOOLCHAIN = 'nightly'
QUICK = ['powerpc-unknown-linux-gnu']
THOROUGH = QUICK + ['s390x-unknown-linux-gnu', 'i686-unknown-linux-gnu']


def env(extra=None):
    e = {'RUSTUP_TOOLCHAIN': TOOLCHAIN, 'XDG_CACHE_HOME': os.path.join(harness.BUILD, 'cache'), 'MIRIFLAGS': '-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check', 'CARGO_NET_OFFLINE': 'true'}
    e.update(extra or {})
    return e


def pick(r, batch):
    rng = random.Random('C29/%s/%s' % (r.seed, batch))
    out = []
    if batch == 0:
        want = {'wide_def', 'wide_def_arr', 'array_fields', 'array_fields_int', 'array_custom', 'custom_int', 'endian0', 'endian1', 'endian_arr1', 'endian_arr3', 'ign_arr', 'heap', 'full_i64', 'straddle_arr', 'masks_arr'}
        out += [s for s in sc.corners() if s.id[2:] in want]
    n = 60 if r.thorough else 26
    for i in range(n):
        b = rng.choice(['u8', 'u16', 'u32', 'u64', 'u64', 'u128'] + ['[u8; %d]' % k for k in (1, 3, 4, 8, 9, 16, 21)])
        out.append(sc.rand_schema(rng, 'm%d_%d' % (batch, i), b, ignored=.1, feature_off=.03, endians=.6, prot=.35, defaults=.5, nfields=rng.choice([2, 3, 4, 6])))
    for s in out:
        s.group = ''
    return out


def trace(path):
    out, st = {}, {}
    for line in open(path):
        m = json.loads(line)
        if m['t'] == 'trace':
            out.setdefault(m['id'], []).append((m['op'], m['out'], m['state'], tuple(m['h'])))
        elif m['t'] == 'digest':
            out[m['id']] = list(zip(m['h'][::2], m['h'][1::2]))
        elif m['t'] == 'stats':
            harness.merge(st, m)
    return out, st


def run(r):
    r.rule = RULE
    r.assumptions = ['Miri interprets the other machine faithfully', 'values outside the generated declarations and histories were not run']
    targets = THOROUGH if r.thorough else QUICK
    for batch in range(4 if r.thorough else 1):
        S = pick(r, batch)
        try:
            built, problems = harness.build_harness('machines', S, extra_env=env())
        except harness.TypesFailed as e:
            r.violation('types', 'the custom field types (bitflags and nested bitfields) no longer compile:\n' + str(e)[:1500])
            return
        for s, tag, rendered in problems:
            r.violation('compile/%s' % s.id, 'a valid declaration, or a documented call on it, no longer compiles:\n%s\n%s' % (s.decl(), rendered[:1200]), {'declaration': s.decl()})
        if r.violations or built.dir is None:
            return
        envx = {'VP_BARE': '1', 'VP_TRACE': 'hash', 'VP_ROUNDS': '6' if r.thorough else '2', 'VP_LEN': '60' if r.thorough else '40', 'VP_PROP': 'C29', 'VP_SEED': str(r.seed)}
        here = {}
        for exe in built.exes:
            outp = exe + '.here.jsonl'
            p = subprocess.run([exe], env=harness.env(dict(envx, VP_OUT=outp, VP_TRACE='text')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode:
                raise harness.Broken('the program does not run on this machine: ' + p.stdout.decode('utf8', 'replace')[-800:])
            a, st = trace(outp)
            here.update(a)
            r.distinct += st.get('distinct', 0)
            harness.merge(r.extra.setdefault('by_operation', {}), st.get('by_kind', {}))
            harness.merge(r.extra.setdefault('outcomes', {}), st.get('outcomes', {}))
        bins = [os.path.basename(x) for x in built.exes]
        by_id = {s.id: s for s in S}
        for t in targets:
            there = away(r, built.dir, t, bins, envx)
            compare(r, by_id, here, there, t)
            r.count('declarations_on_' + t, len(there))
            if r.violations:
                return
        bitflags(r, batch, targets)
        if r.violations:
            return
    if not r.evaluations:
        raise harness.Broken('nothing was run on another machine')


def setup(d, t):
    rc, out, err = harness.cargo(d, ['miri', 'setup', '--target', t], extra_env=env(), timeout=800)
    if rc:
        raise harness.Broken('no Miri for %s: %s' % (t, err[-600:]))


def programs(r, d, t, bins, envx, limit):
    """Runs the programs on the other machine; yields (program, report) and reports what fails there."""
    setup(d, t)
    warm = harness.cargo(d, ['miri', 'run', '-q', '--offline', '--target', t, '--bin', bins[0]], extra_env=env(dict(envx, VP_OUT='/dev/null', VP_NONE='1')), timeout=800)
    if warm[0] and 'Undefined Behavior' not in warm[2] and 'error' in warm[2]:
        r.violation('%s/compile' % t, 'a program that compiles for this machine does not compile or start for %s:\n%s' % (t, warm[2][-1500:]))
        return []

    def one(b):
        outp = os.path.join(d, 'out_%s_%s.jsonl' % (b, t))
        try:
            rc, out, err = harness.cargo(d, ['miri', 'run', '-q', '--offline', '--target', t, '--bin', b], extra_env=env(dict(envx, VP_OUT=outp)), timeout=limit)
        except subprocess.TimeoutExpired:
            return b, None, '', outp
        return b, rc, err, outp
    done = []
    with ThreadPoolExecutor(harness.JOBS) as ex:
        for b, rc, err, outp in ex.map(one, bins):
            if rc is None:
                r.count('programs_out_of_time')
            elif rc:
                r.violation('%s/%s' % (t, b), 'a program that runs on this machine fails on %s:\n%s' % (t, err[-1500:]), {'report': err[-6000:]})
            else:
                done.append((b, outp))
    return done


def away(r, d, t, bins, envx):
    there = {}
    for b, outp in programs(r, d, t, bins, envx, 2000 if r.thorough else 500):
        there.update(trace(outp)[0])
    return there


def compare(r, by_id, here, there, t):
    for i, b in sorted(there.items()):
        a = here.get(i, [])
        for k, (x, y) in enumerate(zip(a, b)):
            if x[3] != y:
                what = 'gives another result' if x[3][0] != y[0] else 'leaves another state'
                r.violation('%s/%s' % (t, i), 'on %s, %s %s than on this machine, where it gives %s and the state %s\n  in: %s' % (t, x[0], what, x[1], x[2], by_id[i].decl()[:600]),
                            {'declaration': by_id[i].decl(), 'history': [e[0] for e in a[:k + 1]]})
                break
        else:
            if len(a) != len(b):
                r.violation('%s/%s/length' % (t, i), 'the traces on %s and on this machine have %d and %d events\n  in: %s' % (t, len(b), len(a), by_id[i].decl()[:600]), {'declaration': by_id[i].decl()})
        r.observe(len(b))
    for i in sorted(there)[:6]:
        r.samples.append({'machine': t, 'declaration': by_id[i].decl()[:200], 'events': ['%s -> %s, state %s' % e[:3] for e in here[i][-4:]]})


def bitflags(r, batch, targets):
    flags = [f for f in fl.make('C29/%s/%s' % (r.seed, batch), 40 if r.thorough else 12) if f.id.startswith(('fx_', 'r')) or f.id in ('db_16', 'db_128')]
    d = harness.fresh('machines_flags')
    bins = harness.write_harness(d, flags, 4, fl.main_of)
    envx = {'VP_TINY': '1', 'VP_PROP': 'C29', 'VP_SEED': str(r.seed)}
    for t in targets:
        for b, outp in programs(r, d, t, bins, envx, 2000 if r.thorough else 500):
            for line in open(outp):
                m = json.loads(line)
                if m['t'] == 'violation':
                    r.violation('%s/%s%s' % (t, m['schema'], m['key']), 'on %s: %s\n  in: %s' % (t, m['what'], m['decl'][:600]), {'declaration': m['decl']})
                elif m['t'] == 'stats':
                    r.observe(m['relevant'], m['distinct'])
                    r.count('bitflag_conversions_on_' + t, m['relevant'])
