"""C15: the macros built under many sets of Cargo features; bitfields and bitflags under
each set are driven against the model with the options the features imply."""
import json
import os
import random
import shlex
import shutil
import subprocess

from . import flags as fl, harness, schema as sc, surface
from .rig import Rig

RULE = ('Sets of Cargo features (none, the default ones, all, every feature alone, each pair of opposites, random mixtures) as Cargo resolves them; the macros are built for each and '
        'expand declarations that leave a random part of their options to the features. The existing items and the behaviour of the results are compared with what the features, and '
        'over them the explicit arguments, say. A case is one probed item or monitored operation; distinct ones differ in option, feature state and argument, or in operation.')

# option: (argument, enabling feature, disabling feature)
BOOLS = {
    'new': ('generate_new', 'disable_new'), 'from_into_bits': ('generate_from_into_bits', 'disable_from_into_bits'), 'from_traits': ('generate_from_traits', 'disable_from_traits'),
    'default': ('generate_default', 'disable_default'), 'debug': ('generate_debug', 'disable_debug'), 'copy': ('derive_copy', 'disable_copy'), 'builder': ('generate_builder', 'disable_builder'),
    'bit_ops': ('generate_bit_ops', 'disable_bit_ops'), 'write_bit_ops': ('generate_write_bit_ops', 'disable_write_bit_ops'), 'clear_bit_ops': ('generate_clear_bit_ops', 'disable_clear_bit_ops'),
    'set_get_bit_ops': ('generate_set_get_bit_ops', 'disable_set_get_bit_ops'), 'invert_bit_ops': ('generate_invert_bit_ops', 'disable_invert_bit_ops'),
    'toggle_bit_ops': ('generate_toggle_bit_ops', 'disable_toggle_bit_ops'),
}
ENDS = {'from_endian': ('from_endian_big', 'from_endian_little'), 'into_endian': ('into_endian_big', 'into_endian_little'), 'write_endian': ('write_endian_big', 'write_endian_little')}
PAIRS = dict(BOOLS)
PAIRS.update(ENDS)
PAIRS.update({'order': ('order_lsb', 'order_msb'), 'array_heap': ('enable_array_heap', 'disable_array_heap')})
FLAGPAIRS = {'from_endian': ('bitflag_from_endian_big', 'bitflag_from_endian_little'), 'into_endian': ('bitflag_into_endian_big', 'bitflag_into_endian_little'), 'copy': ('bitflag_derive_copy', 'bitflag_disable_copy')}
ALL = [f for p in (PAIRS, FLAGPAIRS) for x in p.values() for f in x]
GROUPS = ['write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops', 'toggle_bit_ops']


def resolve(fs):
    """The defaults of the options of bitfields and bitflags under the features."""
    d = {}
    for k, (a, b) in BOOLS.items():
        d[k] = a in fs or b not in fs
    for k, (a, b) in ENDS.items():
        d[k] = 'little' if b in fs and a not in fs else 'big'
    d['order'] = 'msb' if 'order_msb' in fs and 'order_lsb' not in fs else 'lsb'
    d['array_heap'] = 'enable_array_heap' in fs and 'disable_array_heap' not in fs
    g = {}
    for k, (a, b) in FLAGPAIRS.items():
        g[k] = (a in fs or b not in fs) if k == 'copy' else 'little' if b in fs and a not in fs else 'big'
    return d, g


def effective(d, explicit):
    e = dict(d)
    e.update(explicit)
    if not e['bit_ops']:
        for k in GROUPS:
            e[k] = explicit.get(k) is True
    e['bit_ops'] = True       # the groups say it all
    return e


def feature_sets(rng, n):
    out = [('none', []), ('default', ['default']), ('all', list(ALL)), ('second', [p[1] for q in (PAIRS, FLAGPAIRS) for p in q.values()]), ('first', [p[0] for q in (PAIRS, FLAGPAIRS) for p in q.values()])]
    # Default features with the others on top.
    out.append(('default+second', ['default'] + out[3][1]))
    # Each option in each of its four states, in rotated rows.
    keys = [(q, k) for q in (PAIRS, FLAGPAIRS) for k in q]
    i = 0
    while len(out) < n:
        order = keys[:]
        rng.shuffle(order)
        fs = []
        style = rng.random()
        for j, (q, k) in enumerate(order):
            a, b = q[k]
            if style < .2:
                st = rng.choice([0, 0, 0, 0, 0, 2])
            elif style < .3:
                st = 2 if j == 0 else 0
            else:
                st = (i + j) % 4
                if k == 'bit_ops' and st == 2 and rng.random() < .6:
                    st = 0
            fs += [[], [a], [b], [a, b]][st]
        rng.shuffle(fs)
        out.append(('mix%d' % i, fs))
        i += 1
    return out


class Variants:
    """The macro library under other features: the compiler call that cargo makes, with
    the features that cargo would turn on."""

    def __init__(self, rig):
        self.rig = rig
        md = json.loads(subprocess.run(['cargo', 'metadata', '--no-deps', '--format-version', '1', '--offline', '--manifest-path', os.path.join(harness.REPO, 'bitfields_impl', 'Cargo.toml')],
                                       env=harness.env(), stdout=subprocess.PIPE, check=True).stdout)
        self.features = [p for p in md['packages'] if p['name'] in ('bitfields-impl', 'bitfields_impl')][0]['features']
        harness.cargo(rig.dir, ['clean', '-p', 'bitfields-impl', '--offline'])
        rc, out, err = harness.cargo(rig.dir, ['build', '--offline', '-vv', '-j', str(harness.JOBS)])
        if rc:
            raise harness.Broken('the macros do not compile: ' + err[-2000:])
        self.cmd = None
        for line in err.splitlines():
            if 'Running `' in line and '--crate-name bitfields_impl ' in line:
                self.cmd = shlex.split(line[line.index('`') + 1:line.rindex('`')])
        if not self.cmd:
            raise harness.Broken('cargo did not say how it builds the macros')

    def closure(self, fs):
        out, todo = set(), list(fs)
        while todo:
            f = todo.pop()
            if f in out or ':' in f or '/' in f:
                continue
            if f not in self.features:
                return None, f
            out.add(f)
            todo += self.features[f]
        return out, None

    def build(self, name, fs):
        d = os.path.join(self.rig.dir, 'variants', name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env, cmd = {}, list(self.cmd)
        while '=' in cmd[0] and not cmd[0].startswith('-'):
            k, v = cmd.pop(0).split('=', 1)
            env[k] = v
        out = []
        i = 0
        while i < len(cmd):
            if cmd[i] == '--cfg' and cmd[i + 1].startswith('feature='):
                i += 2
                continue
            if cmd[i] == '--out-dir':
                out += ['--out-dir', d]
                i += 2
                continue
            if cmd[i].startswith('--emit'):
                out.append('--emit=link')
                i += 1
                continue
            if cmd[i].startswith(('--error-format', '--json', '--diagnostic-width')):
                i += 1
                continue
            out.append(cmd[i])
            i += 1
        for f in sorted(fs):
            out += ['--cfg', 'feature="%s"' % f]
        e = harness.env(env)
        p = subprocess.run(out, env=e, cwd=os.path.join(harness.REPO, 'bitfields_impl') if not os.path.isdir(env.get('CARGO_MANIFEST_DIR', '')) else env['CARGO_MANIFEST_DIR'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = [x for x in os.listdir(d) if x.endswith('.so')]
        if p.returncode or not so:
            return None, p.stdout.decode('utf8', 'replace')
        return os.path.join(d, so[0]), None


def rand_explicit(rng, d):
    e = {}
    p = rng.choice([0, .15, .35, .7])
    for k in BOOLS:
        if rng.random() < p:
            e[k] = rng.random() < .55
    for k in ENDS:
        if rng.random() < p:
            e[k] = rng.choice(['big', 'little'])
    if rng.random() < p:
        e['order'] = rng.choice(['lsb', 'msb'])
    if rng.random() < p * .6:
        e['array_heap'] = rng.random() < .5
    return e


def schemas(rng, d, n, tag):
    out = []
    for i in range(n):
        while True:
            s = sc.rand_schema(rng, '%s_%d' % (tag, i), rng.choice(sc.PICK), order='lsb', prot=.4, defaults=.5, feature_off=0, endians=0, ignored=.15, heap=False, nfields=rng.choice([2, 3, 4, 6]))
            if any(f.ty.startswith(('Flag', 'In')) for f in s.fields):
                continue
            ex = {} if i == 0 else rand_explicit(rng, d)
            s.args, s.explicit = effective(d, ex), ex
            if s.args['copy'] or not s.heap:
                break
        out.append(s)
    return out


def flagset(rng, g, n, tag):
    out = []
    for i in range(n):
        w = rng.choice([8, 16, 32, 64, 128])
        m = (1 << w) - 1
        vals = list({int.from_bytes(bytes(range(0x21, 0x21 + w // 8)), 'big') & m, 1, m - 1, 0x80 << (w - 8), rng.randrange(m)})
        ex = {}
        if i:
            for k in g:
                if rng.random() < .4:
                    ex[k] = rng.choice([True, False]) if k == 'copy' else rng.choice(['big', 'little'])
        e = dict(g)
        e.update(ex)
        f = fl.Flag('%s_f%d' % (tag, i), 'u%d' % w, vals, base=rng.randrange(len(vals)), from_e=e['from_endian'], into_e=e['into_endian'], copy=e['copy'])
        f.explicit = ['%s = %s' % (k, {True: 'true', False: 'false'}.get(v, v)) for k, v in ex.items()]
        out.append(f)
    return out


def program(S, F):
    """One program that drives the bitfields, or, with an argument, the bitflags."""
    out = '#![allow(warnings)]\npub mod types {\n' + surface.types_rs(False) + '\n}\n'
    for s in S:
        s.mod = 's_' + s.id.replace('-', '_').replace('+', '_')
        out += 'mod %s {\n%s}\n' % (s.mod, s.rust())
    for f in F:
        f.mod = 'f_' + f.id.replace('-', '_').replace('+', '_')
        out += 'mod %s {\n%s}\n' % (f.mod, f.rust())
    out += '#[global_allocator] static A: monitor::alloc::Counting = monitor::alloc::Counting;\n'
    out += 'fn main() { if std::env::args().len() > 1 { use monitor::flags::Flag; monitor::flags::main(&[%s]); } else { monitor::driver::main(&[%s]); } }\n' % (
        ', '.join('Flag { ..%s::FLAG_C }' % f.mod for f in F), ', '.join('monitor::Entry { desc: %s::ENTRY.desc, make: %s::ENTRY.make }' % (s.mod, s.mod) for s in S))
    return out


def run(r):
    r.rule = RULE
    r.assumptions = ['the features are those of bitfields-impl; cargo turns on what its manifest says',
                     'a group switched on by a feature, not by an argument, is off under a master switch that is off']
    rig = Rig('rig15', crate='bitfields-impl', monitor=True)
    V = Variants(rig)
    sets = feature_sets(random.Random('C15/%s' % r.seed), 200 if r.thorough else 30)
    nS, nF = (8, 3) if r.thorough else (5, 3)

    def one(item):
        name, fs = item
        cfg, missing = V.closure(fs)
        if cfg is None:
            return name, fs, None, 'feature', missing
        tag = name.replace('+', '_')
        so, err = V.build(tag, cfg)
        if so is None:
            return name, fs, None, 'build', err
        rng = random.Random('C15/%s/%s' % (r.seed, name))
        d, g = resolve(cfg)
        S, F = schemas(rng, d, nS, tag), flagset(rng, g, nF, tag)
        t, tags = surface.program(S, macros=False)
        o = rig.compile('p_' + tag, t, run=True, lib=so)
        # The driver needs some way to make a bitfield.
        D = [s for s in S if any(s.arg(k) for k in ('new', 'from_into_bits', 'default', 'builder'))]
        t2 = program(D, F)
        outs = []
        o2 = rig.compile('d_' + tag, t2, run=[[], ['flags']], lib=so, run_env=lambda k: {'VP_PROP': 'C15', 'VP_SEED': str(r.seed), 'VP_ROUNDS': '3', 'VP_LEN': '40', 'VP_OUT': os.path.join(rig.work, 'out_%s_%d' % (tag, k))})
        for k in (0, 1):
            p = os.path.join(rig.work, 'out_%s_%d' % (tag, k))
            outs.append([json.loads(x) for x in open(p)] if os.path.exists(p) else None)
        shutil.rmtree(os.path.join(rig.dir, 'variants', tag), ignore_errors=True)
        return name, fs, (S, D, F, o, tags, o2, outs), None, None
    seen = set()
    for name, fs, res, bad, why in rig.map(one, sets):
        note = ' with the Cargo features [%s]' % ', '.join(fs)
        if bad == 'feature':
            r.violation('feature/' + why, 'the documented Cargo feature %s does not exist' % why)
            continue
        if bad == 'build':
            raise harness.Broken('the macros do not compile with the features %s: %s' % (fs, why[-1500:]))
        S, D, F, o, tags, o2, outs = res
        surface.judge(r, S, o, tags, note=note, seen=seen)
        if not o2.ok:
            r.violation('compile/' + name, 'bitfields or bitflags%s, or documented calls on them, do not compile:\n%s' % (note, o2.rendered()[:1500]), {'features': fs, 'declarations': [s.decl() for s in D + F]})
            continue
        for k, out in enumerate(outs):
            if out is None or o2.runs[k][0]:
                r.violation('crash/%s/%d' % (name, k), 'the monitored program%s ended with status %s: %s' % (note, o2.runs[k][0], o2.runs[k][1][-800:]))
                continue
            for m in out:
                if m['t'] == 'violation':
                    r.violation(m['schema'] + m['key'], m['what'] + note + '\n  in: ' + m['decl'][:600], {'declaration': m['decl'], 'history': m['history'], 'features': fs})
                else:
                    r.observe(m['relevant'], m['distinct'])
                    harness.merge(r.extra.setdefault('by_operation', {}), m['by_kind'])
        r.count('feature_sets')
        r.count('declarations', len(S) + len(F))
        if len(r.samples) < 12:
            r.samples.append({'features': fs, 'declarations': [s.decl()[:160] for s in S[:2]] + [F[-1].decl()[:120]]})
    r.distinct += len(seen)
    forwarded(r)


def forwarded(r):
    """Features enabled on the bitfields crate itself."""
    rig = Rig('rig15f', crate='bitfields', features=['disable_new', 'disable_debug', 'order_msb'])
    t = '''#![allow(warnings)]
%s
pub mod c0 { use bitfields::bitfield; use crate::fb::*; #[bitfield(u16)] pub struct S { a: u8, b: u8 }
pub trait Fb { fn new() {} } impl Fb for S {}
pub fn probe() -> [bool; 3] { [has(&S::new), PDebug::<S>::V, S::A_OFFSET == 0] } }
fn main() { println!("{:?}", c0::probe()); }
''' % surface.FB
    o = rig.compile('fwd', t, run=True)
    r.observe(3)
    if not o.ok:
        raise harness.Broken('the probe of forwarded features does not compile: ' + o.rendered())
    got = o.out.strip()
    r.extra['features_of_the_bitfields_crate'] = got
    if got == '[true, true, true]':
        r.violation('features-not-forwarded', 'features enabled on the bitfields crate (disable_new, disable_debug, order_msb) have no effect')
    elif got != '[false, false, false]':
        r.violation('features-partly-forwarded', 'features enabled on the bitfields crate (disable_new, disable_debug, order_msb) have an effect in part: new, Debug, lsb are %s' % got)
