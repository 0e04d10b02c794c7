"""C16: the same workloads under overflow checks, in optimised builds, under
AddressSanitizer and in Miri, and without the standard library."""
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import behaviour, harness, rig, schema as sc

HOST = 'x86_64-unknown-linux-gnu'
MIRI_TOOLCHAIN = 'nightly'


def run(r):
    r.rule = behaviour.RULE + (
        ' C16 judges panics outside the documented ones, allocations and leaks in the overflow-checked build; results that differ between the '
        'checked and the optimised build; reports of AddressSanitizer and Miri; and declarations that need the standard library.')
    r.assumptions = ['generated code is safe Rust today: sanitizers watch for unsafe code that a change may introduce',
                     'values outside the generated declarations and histories were not run']
    for batch in range(6 if r.thorough else 1):
        S = behaviour.schemas_for('C16', r.seed, batch, full=r.thorough)
        both_builds(r, S)
        if r.violations:
            return
        no_std(r, S, batch)
        sanitized(r, S)
        miri(r, S, batch)
        if r.violations:
            return


def both_builds(r, S):
    envx = {'VP_FULL': '1' if r.thorough else '0', 'VP_ROUNDS': '40' if r.thorough else '10', 'VP_LEN': '80' if r.thorough else '60', 'VP_ALL': '1'}
    try:
        built, problems = harness.build_harness('behaviour', S)
    except harness.TypesFailed as e:
        r.violation('types', 'the custom field types (bitflags and nested bitfields) no longer compile:\n' + str(e)[:1500])
        return
    behaviour.report_problems(r, problems)
    if built.dir is None:
        return
    viol, st = harness.run_bins(built, 'C16', r.seed, extra=envx)
    for v in viol:
        if 'C16' in v['tags']:
            r.violation(v['schema'] + v['key'], v['what'] + '\n  in: ' + v['decl'][:600], {'declaration': v['decl'], 'history': v['history'], 'tags': v['tags']})
    r.observe(st.get('relevant', 0), st.get('distinct', 0))
    r.samples += st.get('samples', [])[:12]
    r.count('declarations', st.get('schemas', 0))
    r.count('monitored_events', st.get('events', 0))
    r.count('distinct_states', st.get('states', 0))
    r.count('heap_allocations_of_heap_bitfields', st.get('heap_allocs', 0))
    harness.merge(r.extra.setdefault('by_operation', {}), st.get('by_kind', {}))
    harness.merge(r.extra.setdefault('outcomes', {}), st.get('outcomes', {}))
    if r.violations:
        return
    seen = {v['key'] for v in viol}
    left_out = {s.id for s, _, _ in problems}
    built, problems = harness.build_harness('behaviour_release', [s for s in S if s.id not in left_out], release=True)
    for s, tag, rendered in problems:
        r.violation('release/%s' % s.id, 'compiles in a debug build but not in an optimised one:\n%s\n%s' % (s.decl(), rendered[:1200]), {'declaration': s.decl()})
    if built.dir is None:
        return
    viol, st = harness.run_bins(built, 'C16', r.seed, tag='rel', extra=envx)
    for v in viol:
        if v['key'] not in seen or 'C16' in v['tags']:
            r.violation('release/' + v['schema'] + v['key'], 'only in the optimised build: ' + v['what'] + '\n  in: ' + v['decl'][:600],
                        {'declaration': v['decl'], 'history': v['history'], 'tags': v['tags']})
    r.count('release_events', st.get('events', 0))


def sanitized(r, S):
    """AddressSanitizer, on declarations of every kind."""
    small = [s for s in S if s.nbits <= 4096]
    heap = [s for s in small if s.heap]
    rng = random.Random('asan/%s' % r.seed)
    pick = rng.sample(small, min(len(small), 300 if r.thorough else 70)) + heap[:20]
    pick += [s for s in S if s.nbits > 4096]
    ids = set()
    pick = [s for s in pick if not (s.id in ids or ids.add(s.id))]
    for s in pick:
        s.group, s.group_ = '', s.group
    try:
        built, problems = harness.build_harness('behaviour_asan', pick, extra_env={'RUSTFLAGS': '-Zsanitizer=address'}, target=HOST)
        if built.dir is None:
            return
        viol, st = harness.run_bins(built, 'C16', r.seed, tag='asan', extra={'VP_BARE': '1', 'VP_ROUNDS': '12' if r.thorough else '6', 'VP_LEN': '80'})
    finally:
        for s in pick:
            s.group = s.group_
    for v in viol:
        if v['t'] == 'crash':
            r.violation('asan', 'AddressSanitizer: ' + v['what'])
    r.count('asan_events', st.get('events', 0))
    r.count('asan_declarations', len(pick))


def miri(r, S, batch):
    """The undefined-behaviour interpreter, on small declarations of every kind."""
    small = [s for s in S if s.nbits <= 64]
    wide = [s for s in S if 64 < s.nbits <= 160 and s.arr]
    rng = random.Random('miri/%s/%s' % (r.seed, batch))
    n = 64 if r.thorough else 20
    pick = rng.sample([s for s in small if not s.heap], n) + rng.sample([s for s in small if s.heap], min(6, sum(s.heap for s in small))) + rng.sample(wide, min(2, len(wide)))
    d = harness.fresh('behaviour_miri')
    for s in pick:
        s.group, s.group_ = '', s.group
    bins = harness.write_harness(d, pick, harness.JOBS)
    for s in pick:
        s.group = s.group_
    envx = {'RUSTUP_TOOLCHAIN': MIRI_TOOLCHAIN, 'MIRIFLAGS': '-Zmiri-disable-isolation', 'VP_BARE': '1', 'VP_ROUNDS': '1', 'VP_LEN': '60' if r.thorough else '15',
            'VP_PROP': 'C16', 'VP_SEED': str(r.seed)}
    # Builds what the programs share before they run side by side.
    rc, out, err = harness.cargo(d, ['miri', 'setup'], extra_env=envx)
    if rc:
        r.extra['miri'] = 'not run: ' + err[-300:]
        return

    def one(b):
        outp = os.path.join(d, 'out_%s.jsonl' % b)
        try:
            rc, out, err = harness.cargo(d, ['miri', 'run', '-q', '--offline', '--bin', b], extra_env=dict(envx, VP_OUT=outp), timeout=1500 if r.thorough else 300)
        except subprocess.TimeoutExpired:
            return b, None, '', outp
        return b, rc, err, outp
    first = harness.cargo(d, ['miri', 'run', '-q', '--offline', '--bin', bins[0]], extra_env=dict(envx, VP_OUT='/dev/null', VP_ROUNDS='0', VP_NONE='1'), timeout=600)
    if first[0] and 'Undefined Behavior' not in first[2]:
        # Another toolchain than the one the declarations are known to compile with.
        r.extra['miri'] = 'not run: ' + first[2][-300:]
        return
    ev = dis = late = 0
    with ThreadPoolExecutor(harness.JOBS) as ex:
        for b, rc, err, outp in ex.map(one, bins):
            if rc is None:
                late += 1
                continue
            if rc:
                m = re.search(r'error: .*?(?=\n\s*\n|\Z)', err, re.S)
                r.violation('miri', 'Miri: ' + (m.group(0) if m else err[-1500:])[:1500], {'report': err[-6000:]})
                continue
            import json
            for line in open(outp):
                st = json.loads(line)
                ev += st.get('events', 0)
                dis += st.get('distinct', 0)
    r.count('miri_events', ev)
    r.count('miri_distinct', dis)
    r.count('miri_declarations', len(pick))
    if late:
        r.count('miri_programs_out_of_time', late)


def no_std(r, S, batch):
    """Declarations that aren't on the heap, in libraries without the standard library."""
    g = rig.Rig('rig_nostd')
    S = [s for s in S if not s.heap]
    chunks = [S[i::harness.JOBS] for i in range(harness.JOBS)]

    def text(chunk, head):
        o = [head, '#![allow(warnings)]', 'pub mod types {', sc.TYPES_RS.replace('//!', '//'), '}']
        where = {}
        for s in chunk:
            a = len('\n'.join(o).split('\n'))
            o.append('pub mod n_%s { use crate::types::{self, *}; use bitfields::bitfield;\n%s\n%s\n}' % (re.sub(r'\W', '_', s.id), s.pre, s.decl()))
            b = len('\n'.join(o).split('\n'))
            for i in range(a + 1, b + 1):
                where[i] = s
        return '\n'.join(o), where

    def one(i):
        t, where = text(chunks[i], '#![no_std]')
        o = g.compile('nostd%d' % i, t)
        if o.ok:
            return []
        with_std = g.compile('std%d' % i, text(chunks[i], '#![allow(unused)]')[0])
        old = with_std.lines()
        return [(where.get(l), o.rendered()) for l in o.lines() - old]
    for bad in g.map(one, range(len(chunks))):
        for s, msg in bad:
            r.violation('no_std/%s' % (s.id if s else 'types'), 'does not compile without the standard library:\n%s\n%s' % (s.decl() if s else 'bitflag', msg),
                        {'declaration': s.decl() if s else ''})
    r.count('no_std_declarations', len(S))
    r.observe(len(S))
