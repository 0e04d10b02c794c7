"""C14: which functions, constants, types and traits exist, observed by programs that
name every documented one."""
import random

from . import harness, schema as sc
from .rig import Rig

RULE = ('Declarations with random options, accesses and storage; a program names every documented item for every field (also reserved, ignored and inaccessible ones) and '
        'observes whether the generated item or a fallback answers, and whether each trait is implemented. The answers are compared with the documented surface. '
        'A case is one probed item; distinct ones differ in the kind of item, the access of the field, the relevant options and storage.')

OPTS = ['new', 'from_into_bits', 'from_traits', 'default', 'debug', 'copy', 'builder', 'bit_ops', 'write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops', 'toggle_bit_ops', 'array_heap']
FB = '''
pub mod fb {
    pub struct SBuilder;
    pub struct Absent;
    pub fn has<T>(_: &T) -> bool { let n = core::any::type_name::<T>(); !n.contains(" as ") && !n.contains("Absent") }
    pub fn has_type<T>() -> bool { !core::any::type_name::<T>().contains("::fb::") }
    macro_rules! probe { ($($p:ident $n:ident: $($b:tt)*);*) => { $(
        pub struct $p<T>(core::marker::PhantomData<T>);
        impl<T: $($b)*> $p<T> { pub const V: bool = true; }
        pub trait $n { const V: bool = false; }
        impl<T> $n for $p<T> {}
    )* } }
PROBES
    pub struct PFrom<T, U>(core::marker::PhantomData<(T, U)>);
    impl<T: From<U>, U> PFrom<T, U> { pub const V: bool = true; }
    pub trait NFrom { const V: bool = false; }
    impl<T, U> NFrom for PFrom<T, U> {}
}
'''
TRAITS = ['Debug', 'Default', 'Copy', 'Clone', 'PartialEq', 'Eq', 'Hash', 'PartialOrd', 'Ord']
PATHS = {'Debug': 'core::fmt::Debug', 'Default': 'core::default::Default', 'Copy': 'core::marker::Copy', 'Clone': 'core::clone::Clone', 'PartialEq': 'core::cmp::PartialEq', 'Eq': 'core::cmp::Eq',
         'Hash': 'core::hash::Hash', 'PartialOrd': 'core::cmp::PartialOrd', 'Ord': 'core::cmp::Ord'}
FB = FB.replace('PROBES', '\n'.join('    probe! { P%s N%s: %s }' % (t, t, PATHS[t]) for t in TRAITS))


def types_rs(macros=True):
    t = sc.TYPES_RS.replace('//! Custom field types used by the harness.', '').replace('#![allow(dead_code)]', '')
    if not macros:
        a = t.index('#[bitflag(u8)]')
        z = t.index('pub fn n_id')
        t = t[:a] + t[z:]
        t = t.replace('use bitfields::{bitfield, bitflag};', '')
    return t


def items(s):
    """name -> (type, expected, kind) for the bitfield S and its builder."""
    out = {}

    def put(ty, name, exp, kind):
        k = (ty, name)
        out[k] = (bool(exp) or out.get(k, (False,))[0], kind if k not in out or exp else out[k][1])
    u, other = ('bytes', 'bits') if s.arr else ('bits', 'bytes')
    b = s.arg('builder')
    W, C, G, I = (s.ops(x) for x in ('write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops'))
    for f in s.fields + [sc.Field('ign%d' % n, 'u8', acc='ignored') for n, _ in enumerate(s.ignored)]:
        names = {f.plain, f.plain.lstrip('_') or 'x__'}
        get, st = f.has_getter, f.has_setter
        acc = 'reserved' if f.reserved else f.acc or 'rw'
        for p in names:
            mine = p == f.plain
            put('S', p, mine and get, 'getter/' + acc)
            put('S', 'set_' + p, mine and st, 'setter/' + acc)
            put('S', 'checked_set_' + p, mine and st, 'checked setter/' + acc)
            put('S', p.upper() + '_BITS', mine and (get or st), 'bits constant/' + acc)
            put('S', p.upper() + '_OFFSET', mine and (get or st), 'offset constant/' + acc)
            put('S', 'clear_' + p, mine and st and C, 'clear field/' + acc)
            put('S', 'clear_%s_to_default' % p, mine and st and C and f.default, 'clear to default/%s/%s' % (acc, bool(f.default)))
            put('S', 'invert_' + p, mine and st and I, 'invert field/' + acc)
            put('S', p + '_inverted', mine and get and I, 'inverted getter/' + acc)
            put('SBuilder', 'with_' + p, b and mine and (get or st), 'with/' + acc)
            put('SBuilder', 'checked_with_' + p, b and mine and (get or st), 'checked with/' + acc)
    for n in ('new', 'new_without_defaults'):
        put('S', n, s.arg('new'), 'new')
        put('SBuilder', n, b, 'builder new')
    put('SBuilder', 'build', b, 'build')
    for n in ('set_bit', 'checked_set_bit', 'get_bit', 'checked_get_bit'):
        put('S', n, G, 'bit')
    put('S', 'write_defaults', W, 'write')
    fi = s.arg('from_into_bits')
    for x in (u, other):
        m = x == u
        for c in ('', 'checked_'):
            for g in ('set', 'get'):
                put('S', '%s%s_%s_range' % (c, g, x), m and G, 'range/' + x)
        for d in ('', '_with_defaults'):
            for e in ('', 'le_', 'be_'):
                put('S', 'write_%s%s%s' % (e, x, d), m and W, 'write/' + x)
                put('S', 'from_%s%s%s' % (e, x, d), m and fi, 'from/' + x)
            put('S', 'clear_%s%s' % (x, d), m and C, 'clear/' + x)
        for e in ('', 'le_', 'be_'):
            put('S', 'into_%s%s' % (e, x), m and fi, 'into/' + x)
        put('S', 'invert_' + x, m and I, 'invert/' + x)
    for c in ('', 'checked_'):
        for e in ('', 'le_', 'be_'):
            for d in ('', '_with_defaults'):
                put('S', '%sfrom_%sslice%s' % (c, e, d), s.arr and fi, 'slice')
            put('S', '%sinto_%sslice' % (c, e), s.arr and fi, 'slice')
    return out


def traits(s):
    cp = s.arg('copy')
    ft = s.arg('from_traits')
    exp = {'Debug': s.arg('debug'), 'Default': s.arg('default'), 'Copy': cp and not s.heap, 'Clone': cp}
    out = [('S', t, bool(exp.get(t, False)), 'P%s::<S>::V' % t) for t in TRAITS]
    out.append(('S', 'From<backing>', ft, 'PFrom::<S, %s>::V' % s.backing))
    out.append(('backing', 'From<S>', ft, 'PFrom::<%s, S>::V' % s.backing))
    for w in (['bool', '[u8; 5]'] + ['u%d' % x for x in sc.UINTS]):
        if w != s.backing:
            out.append(('S', 'From<%s>' % w, False, 'PFrom::<S, %s>::V' % w))
            out.append((w, 'From<S>', False, 'PFrom::<%s, S>::V' % w))
    out.append(('builder', 'exists', s.arg('builder'), 'has_type::<SBuilder>()'))
    out.append(('builder', 'Default', s.arg('builder'), 'PDefault::<SBuilder>::V'))
    return out


def sigs(s):
    """(kind, line) that type-check documented signatures."""
    o = []

    def sg(kind, e, ty):
        o.append((kind, 'let _: %s = %s;' % (ty, e)))
    for f in s.fields:
        p = f.plain
        if f.has_getter:
            sg('getter', 'S::' + f.name, 'fn(&S) -> ' + f.ty)
        if f.has_setter:
            sg('setter', 'S::set_' + p, 'fn(&mut S, %s)' % f.ty)
            sg('checked setter', 'S::checked_set_' + p, 'fn(&mut S, %s) -> Result<(), _>' % f.ty)
        if f.has_getter or f.has_setter:
            sg('bits constant', 'S::%s_BITS' % p.upper(), 'u32')
            sg('offset constant', 'S::%s_OFFSET' % p.upper(), 'u32')
            if s.arg('builder'):
                sg('with', 'SBuilder::with_' + p, 'fn(SBuilder, %s) -> SBuilder' % f.ty)
                sg('checked with', 'SBuilder::checked_with_' + p, 'fn(SBuilder, %s) -> Result<SBuilder, _>' % f.ty)
        if f.has_setter and s.ops('clear_bit_ops'):
            sg('clear field', 'S::clear_' + p, 'fn(&mut S)')
        if f.has_setter and s.ops('invert_bit_ops'):
            sg('invert field', 'S::invert_' + p, 'fn(&mut S)')
        if f.has_getter and s.ops('invert_bit_ops'):
            sg('inverted getter', 'S::%s_inverted' % p, 'fn(&S) -> ' + f.ty)
    if s.arg('new'):
        sg('new', 'S::new', 'fn() -> S')
    if s.arg('builder'):
        sg('build', 'SBuilder::build', 'fn(SBuilder) -> S')
    B, u = s.backing, 'bytes' if s.arr else 'bits'
    if s.ops('set_get_bit_ops'):
        sg('bit', 'S::get_bit', 'fn(&S, u32) -> bool')
        sg('bit', 'S::checked_get_bit', 'fn(&S, u32) -> Result<bool, _>')
        sg('bit', 'S::set_bit', 'fn(&mut S, u32, bool)')
        sg('bit', 'S::checked_set_bit', 'fn(&mut S, u32, bool) -> Result<(), _>')
        sg('range', 'S::get_%s_range' % u, 'fn(&S, u32, u32) -> ' + B)
        sg('range', 'S::checked_get_%s_range' % u, 'fn(&S, u32, u32) -> Result<%s, _>' % B)
        sg('range', 'S::set_%s_range' % u, 'fn(&mut S, u32, u32, %s)' % B)
        sg('range', 'S::checked_set_%s_range' % u, 'fn(&mut S, u32, u32, %s) -> Result<(), _>' % B)
    if s.arg('from_into_bits'):
        for e in ('', 'le_', 'be_'):
            for d in ('', '_with_defaults'):
                sg('from', 'S::from_%s%s%s' % (e, u, d), 'fn(%s) -> S' % B)
    if s.ops('write_bit_ops'):
        for e in ('', 'le_', 'be_'):
            for d in ('', '_with_defaults'):
                sg('write', 'S::write_%s%s%s' % (e, u, d), 'fn(&mut S, %s)' % B)
        sg('write', 'S::write_defaults', 'fn(&mut S)')
    if s.ops('invert_bit_ops'):
        sg('invert', 'S::invert_' + u, 'fn(&mut S)')
    if s.ops('clear_bit_ops'):
        for d in ('', '_with_defaults'):
            sg('clear', 'S::clear_%s%s' % (u, d), 'fn(&mut S)')
    return o


def rand_opts(rng):
    a = {}
    style = rng.random()
    for k in OPTS:
        if style < .15:
            if rng.random() < .12:
                a[k] = rng.random() < .3
        elif style < .3:
            a[k] = rng.random() < .35
        elif rng.random() < .4:
            a[k] = rng.random() < .5
    return a


def schemas(rng, n, tag, macros=True):
    out = []
    for i in range(n):
        b = rng.choice(sc.PICK + ['[u8; 5]'])
        while True:
            s = sc.rand_schema(rng, '%s%d' % (tag, i), b, prot=.6, res=.2, defaults=.4, feature_off=0, endians=.2, ignored=.2, heap=False, nfields=rng.choice([1, 2, 3, 4, 6, 8]))
            if macros or not any(f.ty.startswith(('Flag', 'In')) for f in s.fields):
                break
        s.args.update(rand_opts(rng))
        if i < 2 * len(OPTS):     # one option at a time
            s.args = {OPTS[i // 2]: i % 2 == 1}
        k = rng.random()
        if k < .2:                # one access for all
            a = rng.choice(['ro', 'wo', 'na', 'rw'])
            for f in s.fields:
                if not f.reserved:
                    f.acc = a
        out.append(s)
    return out


def program(S, macros=True, decl=None, head=''):
    """A program that prints one line of bits per declaration, and its line tags."""
    out = ('#![allow(warnings)]\n' + head + 'pub mod types {\n' + types_rs(macros) + '\n}' + FB).split('\n')
    tags = {}

    def w(line, tag=None):
        for x in line.split('\n'):
            out.append(x)
            if tag is not None:
                tags[len(out)] = tag
    for k, s in enumerate(S):
        it, tr = items(s), traits(s)
        # `decl` can leave out arguments that only Cargo features supply.
        w('pub mod c%d { use bitfields::{bitfield, bitflag}; use crate::types::{self, *}; use crate::fb::*;' % k)
        w(s.pre + '\n' + (decl(s) if decl else s.decl()), (k, 'declaration'))
        names = sorted({n for _, n in it})
        w('pub trait Fb { ' + ' '.join(('const %s: Absent = Absent;' if n.endswith(('_BITS', '_OFFSET')) else 'fn %s() {}') % raw(n) for n in names) + ' }')
        w('impl Fb for S {} impl Fb for SBuilder {}')
        probes = ['has(&%s::%s)' % (t, raw(n)) for t, n in it] + [x[3] for x in tr]
        w('pub fn probe() -> Vec<bool> { vec![' + ', '.join(probes) + '] }', (k, 'probe'))
        w('}')
    w('fn main() { for (i, v) in [%s].into_iter().enumerate() { println!("{} {}", i, v.iter().map(|b| if *b { "1" } else { "0" }).collect::<String>()); } }' % ', '.join('c%d::probe()' % k for k in range(len(S))))
    return '\n'.join(out) + '\n', tags


KEYWORDS = {'type', 'fn', 'match', 'mod', 'ref', 'use', 'loop', 'move'}


def raw(n):
    return 'r#' + n if n in KEYWORDS else n


def sig_program(S, macros=True):
    out = ('#![allow(warnings)]\npub mod types {\n' + types_rs(macros) + '\n}').split('\n')
    tags = {}
    for k, s in enumerate(S):
        out += ('pub mod c%d { use bitfields::{bitfield, bitflag}; use crate::types::{self, *};\n%s\n%s\nfn sig() {' % (k, s.pre, s.decl())).split('\n')
        for kind, line in sigs(s):
            out.append(line)
            tags[len(out)] = (k, kind, line)
        out.append('} }')
    return '\n'.join(out) + '\n', tags


def judge(r, S, o, tags, decl=None, note='', seen=None):
    """Compares the answers of one program with the documented surface."""
    if not o.ok:
        hit = set()
        for e in o.errs:
            for ln in o_lines(e):
                if ln in tags:
                    hit.add(tags[ln])
        s = S[min(hit)[0]] if hit else None
        r.violation('compile/%s' % (s.id if s else 'probe'), 'the declaration, or naming its documented items, no longer compiles%s:\n%s\n%s' % (note, (decl or sc.Schema.decl)(s) if s else '', o.rendered()[:1200]),
                    {'declaration': s.decl() if s else None})
        return
    for line in o.out.splitlines():
        k, bits = line.split()
        s = S[int(k)]
        want = [(t, n, e, kind) for (t, n), (e, kind) in items(s).items()] + [(t, n, e, 'trait ' + n) for t, n, e, _ in traits(s)]
        assert len(want) == len(bits)
        for (t, n, e, kind), b in zip(want, bits):
            r.evaluations += 1
            key = (kind, t, bool(e), s.arr, s.heap, tuple(sorted((k2, v) for k2, v in s.args.items() if k2 in OPTS)) if 'trait' in kind else (s.arg('bit_ops'), s.args.get('write_bit_ops')))
            if seen is not None:
                seen.add(key)
            r.extra.setdefault('by_item', {}).setdefault(kind.split('/')[0] if '<' not in kind else 'trait From', [0, 0])[1 if e else 0] += 1
            if bool(e) != (b == '1'):
                d = (decl or sc.Schema.decl)(s)
                r.violation('%s/%s::%s' % (s.id, t, n), '%s::%s (%s) %s%s:\n%s' % (t, n, kind, 'is missing' if e else 'exists, and should not', note, d), {'declaration': d, 'item': t + '::' + n, 'expected': bool(e)})


def o_lines(e):
    from .decls import where
    return where(e)


FLAG_PROG = '''#[bitflag(u8%s)]
pub enum S { #[base] A = 1, B = 2 }
'''


def run14(r):
    r.rule = RULE
    r.assumptions = ['items that are documented nowhere are not probed']
    rig = Rig('rig14')
    seen = set()
    for batch in range(10 if r.thorough else 1):
        rng = random.Random('C14/%s/%s' % (r.seed, batch))
        S = schemas(rng, 400 if r.thorough else 176, 'o%d_' % batch)
        if batch == 0:
            S += sc.corners()
        groups = [S[i::24] for i in range(24)]

        def one(ig):
            i, g = ig
            t, tags = program(g)
            o = rig.compile('p%d_%d' % (batch, i), t, run=True)
            t2, tags2 = sig_program(g)
            o2 = rig.compile('s%d_%d' % (batch, i), t2)
            return g, o, tags, o2, tags2
        for g, o, tags, o2, tags2 in rig.map(one, list(enumerate(groups))):
            judge(r, g, o, tags, seen=seen)
            r.count('signatures_checked', len(tags2))
            if o2.ok or r.violations:
                continue
            for e in o2.errs:
                for ln in o_lines(e):
                    if ln in tags2:
                        k, kind, line = tags2[ln]
                        r.violation('sig/%s/%s' % (g[k].id, line), 'the documented signature does not hold (%s): %s\n%s\n%s' % (kind, line, g[k].decl(), (e.get('rendered') or '')[:500]), {'declaration': g[k].decl()})
        r.count('declarations', len(S))
        step = max(1, len(S) // 10)
        r.samples += [{'declaration': s.decl()[:400], 'items_probed': len(items(s)), 'items_expected': sum(1 for v in items(s).values() if v[0])} for s in S[::step]][:10]
        flags14(r, rig)
        if r.violations:
            break
    r.distinct = len(seen)


def flags14(r, rig):
    out = ('#![allow(warnings)]\n' + FB).split('\n')
    for k, a in enumerate(['', ', copy = true', ', copy = false', ', from_endian = little', ', into_endian = little, copy = false']):
        out.append('pub mod c%d { use bitfields::bitflag; use crate::fb::*; %s' % (k, FLAG_PROG % a))
        out.append('pub trait Fb { fn from_bits() {} fn into_bits() {} } impl Fb for S {}')
        out.append('pub fn probe() -> Vec<bool> { vec![has(&S::from_bits), has(&S::into_bits), %s] } }' % ', '.join('P%s::<S>::V' % t for t in TRAITS))
    out.append('fn main() { for v in [%s] { println!("{}", v.iter().map(|b| if *b { "1" } else { "0" }).collect::<String>()); } }' % ', '.join('c%d::probe()' % k for k in range(5)))
    o = rig.compile('flags', '\n'.join(out), run=True)
    if not o.ok:
        r.violation('flags', 'bitflags with the documented arguments no longer compile:\n' + o.rendered()[:1200])
        return
    for k, line in enumerate(o.out.split()):
        copy = k not in (2, 4)
        want = '11' + ''.join('1' if t in ('Copy', 'Clone') and copy else '0' for t in TRAITS)
        r.observe(len(want))
        if line != want:
            r.violation('flag%d' % k, 'a bitflag has other items than documented: from_bits, into_bits, %s are %s instead of %s (argument set %d)' % (', '.join(TRAITS), line, want, k))
