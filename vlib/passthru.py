"""C17: visibility observed from every kind of place, attributes observed through what
they do, and ignored fields of types that are not plain data."""
import json
import os
import random
import re
import subprocess

from . import behaviour, harness, schema as sc, surface
from .rig import Rig

RULE = behaviour.RULE + (
    ' Besides, for declarations with random visibilities on the struct and each field, programs name every generated item from its module, a child, a sibling, '
    'an outer module, elsewhere in the crate and another crate, and observe where the item answers and where a fallback does; attributes are observed through their effects; '
    'and ignored fields of owning, generic and drop-counting types are watched over call sequences against a twin without them.')

# (text, how far it reaches): 0 own module, 1 parent, 2 crate::a, 3 crate, 4 everyone.
VIS = [('', 0), ('pub(self)', 0), ('pub(super)', 1), ('pub(in super)', 1), ('pub(in crate::a::b)', 1), ('pub(in crate::a)', 2), ('pub(crate)', 3), ('pub', 4)]
LEVEL = dict(VIS)
PLACES = ['own module', 'child module', 'sibling module', 'outer module', 'elsewhere in the crate', 'another crate']
NEED = [0, 0, 1, 2, 3, 4]


def schemas(rng, n, tag):
    out = []
    for i in range(n):
        b = rng.choice(['u8', 'u16', 'u32', 'u64', 'u128', '[u8; 2]', '[u8; 5]'])
        while True:
            s = sc.rand_schema(rng, '%s%d' % (tag, i), b, prot=.4, res=.1, defaults=.4, feature_off=0, endians=.2, ignored=.5, customs=0, nfields=rng.choice([2, 3, 4, 5]))
            if not any(e[0] == 'Extra' for _, e in s.ignored):
                break
        s.vis = VIS[i % len(VIS)][0] if i < 2 * len(VIS) else rng.choice(VIS)[0]
        k = rng.random()
        for f in s.fields:
            f.vis = rng.choice(VIS)[0] if k < .7 else ''
        s.ignvis = [rng.choice(VIS)[0] for _ in s.ignored]
        s.macro = rng.random() < .25
        out.append(s)
    return out


def decl(s):
    """The declaration with its visibilities, perhaps through a macro."""
    ign = iter(s.ignvis)
    t = s.decl()
    t = t.replace('pub struct S', '%s struct S' % s.vis)
    t = re.sub(r'pub ign(\d+):', lambda m: '%s ign%s:' % (s.ignvis[int(m.group(1))], m.group(1)), t)
    if s.macro:
        t = t.replace('%s struct S' % s.vis, '$v struct S')
        used = []
        for f in s.fields:
            if f.name.startswith('_') or f.name.startswith('r#'):
                continue
            a = '%s %s:' % (f.vis, f.name)
            if f.vis and a in t:
                used.append(f.vis)
                t = t.replace(a, '$w%d %s:' % (len(used), f.name), 1)
        t = 'macro_rules! m { ($v:vis, %s) => { %s } }\nm!(%s, %s);' % (
            ' '.join('$w%d:vis,' % (k + 1) for k in range(len(used))), t, s.vis, ' '.join(v + ',' for v in used))
    return t


def items(s):
    """[(type, name, reach, kind)]"""
    sv = LEVEL[s.vis]
    fv = {}
    for f in s.fields:
        lv = LEVEL[f.vis] if f.vis else sv
        if f.acc in ('wo', 'na'):
            lv = 0
        fv[f.plain] = lv
    out = []
    for (ty, name), (exp, kind) in surface.items(s).items():
        if not exp:
            continue
        k = kind.split('/')[0]
        lv = sv
        if k in ('getter', 'setter', 'checked setter', 'bits constant', 'offset constant', 'with', 'checked with'):
            own = [p for p in fv if name in (p, 'set_' + p, 'checked_set_' + p, p.upper() + '_BITS', p.upper() + '_OFFSET', 'with_' + p, 'checked_with_' + p)]
            # The longest name is the field meant.
            lv = min(sv, fv[max(own, key=len)])
        out.append((ty, name, lv, kind))
    return out


def hidden(s):
    """Struct fields, and what answers where they can't be seen."""
    if s.ignored:
        f = [('ign%d' % i, min(LEVEL[v], LEVEL[s.vis])) for i, v in enumerate(s.ignvis)] + [('val', 0)]
        return f, 'pub struct Hid { %s }' % ', '.join('pub %s: Absent' % n for n, _ in f), 'Hid { %s }' % ', '.join('%s: Absent' % n for n, _ in f)
    return [('0', 0)], 'pub struct Hid(pub Absent);', 'Hid(Absent)'


FB = r"""
pub mod fb {
    pub struct S; pub struct SBuilder; #[derive(Copy, Clone)] pub struct Absent;
    pub fn has<T>(_: &T) -> bool { let n = core::any::type_name::<T>(); !n.contains(" as ") && !n.contains("Absent") }
    pub fn has_type<T>() -> bool { !core::any::type_name::<T>().contains("::fb::") }
}
"""


def probe(s, root, mod, its, need):
    """A function that names everything from where it stands."""
    names = sorted({n for _, n, _, _ in its})
    t = 'pub fn probe() -> Vec<bool> { use %s::fb::*; { use %s::*;' % (root, mod)
    t += ' trait Fb { ' + ' '.join(('const %s: Absent = Absent;' if n.endswith(('_BITS', '_OFFSET')) else 'fn %s() {}') % surface.raw(n) for n in names) + ' }'
    t += ' impl Fb for S {} impl Fb for SBuilder {} let mut v = vec![has_type::<S>(), has_type::<SBuilder>(), %s];' % ', '.join('has(&%s::%s)' % (a, surface.raw(n)) for a, n, _, _ in its)
    if need <= LEVEL[s.vis]:
        t += ' let s = %s::make(); %s' % (mod, ' '.join('v.push(has(&s.%s));' % f for f, _ in hidden(s)[0]))
    return t + ' v } }'


def expected(s, its, need):
    sv = LEVEL[s.vis]
    o = [('', 'S', sv, 'the struct'), ('', 'SBuilder', sv if s.arg('builder') else -1, 'the builder')] + its
    if need <= sv:
        o += [('S', n, lv, 'struct field') for n, lv in hidden(s)[0]]
    return [(('%s::%s' % (a, n)).lstrip(':'), lv >= need, kind) for a, n, lv, kind in o]


def programs(S):
    """(library, its line tags, program)"""
    lib = ('#![allow(warnings)]\n' + FB + 'pub mod types {\n' + surface.types_rs() + '\n}').split('\n')
    tags = {}
    main = ['#![allow(warnings)]']
    calls = []

    def w(x, tag):
        for line in x.split('\n'):
            lib.append(line)
            tags[len(lib)] = tag
    for k, s in enumerate(S):
        its = items(s)
        m = 'crate::w%d::a::b::m' % k
        _, hid, hidv = hidden(s)
        p = lambda i: probe(s, 'crate', m, its, NEED[i])
        w('pub mod w%d { pub mod a { pub mod b { pub mod m { use bitfields::bitfield; use crate::types::{self, *}; use crate::fb::Absent;' % k, (k, ''))
        if s.pre:
            w(s.pre, (k, ''))
        w(decl(s).replace('crate::a', 'crate::w%d::a' % k), (k, 'declaration'))
        w('%s static HID: Hid = %s; impl core::ops::Deref for S { type Target = Hid; fn deref(&self) -> &Hid { &HID } }' % (hid, hidv), (k, ''))
        w('pub fn make() -> S { %s }' % ('S::new()' if s.arg('new') else '<S as Default>::default()'), (k, ''))
        w('pub mod own { %s }' % p(1), (k, PLACES[1]))
        w(p(0), (k, PLACES[0]))
        w('} pub mod sib { %s }' % p(2), (k, PLACES[2]))
        w('} pub mod out { %s }' % p(3), (k, PLACES[3]))
        w('} %s' % p(4), (k, PLACES[4]))
        w('}', (k, ''))
        main.append('mod w%d { %s }' % (k, probe(s, 'case_lib', m.replace('crate::', 'case_lib::'), its, NEED[5])))
        calls += ['%s::a::b::m::probe()' % ('case_lib::w%d' % k), 'case_lib::w%d::a::b::m::own::probe()' % k, 'case_lib::w%d::a::b::sib::probe()' % k,
                  'case_lib::w%d::a::out::probe()' % k, 'case_lib::w%d::probe()' % k, 'w%d::probe()' % k]
    main.append('fn main() { for v in [%s] { println!("{}", v.iter().map(|b| if *b { "1" } else { "0" }).collect::<String>()); } }' % ', '.join(calls))
    return '\n'.join(lib) + '\n', tags, '\n'.join(main) + '\n'


def visibility(r, rig, batch, seen):
    rng = random.Random('C17v/%s/%s' % (r.seed, batch))
    S = schemas(rng, 160 if r.thorough else 96, 'v%d_' % batch)
    n = 16

    def one(i):
        g = S[i::n]
        lib, tags, main = programs(g)
        return g, tags, rig.pair('v%d_%d' % (batch, i), lib, main)
    for g, tags, (ol, o) in rig.map(one, range(n)):
        if not ol.ok or not o.ok:
            bad = ol if not ol.ok else o
            hit = sorted({tags[ln] for e in ol.errs for ln in surface.o_lines(e) if ln in tags}) if not ol.ok else []
            s = g[hit[0][0]] if hit else None
            r.violation('vis/compile/%s' % (s.id if s else 'other crate'), 'naming documented items where they are visible%s does not compile:\n%s\n%s' % (
                ' (%s)' % hit[0][1] if hit else ' (from another crate)', decl(s) if s else '', bad.rendered()[:1200]), {'declaration': decl(s) if s else ''})
            continue
        lines = o.out.split()
        assert len(lines) == 6 * len(g)
        for k, s in enumerate(g):
            its = items(s)
            for pl in range(6):
                exp = expected(s, its, NEED[pl])
                bits = lines[6 * k + pl]
                assert len(exp) == len(bits), (len(exp), len(bits))
                for (name, e, kind), b in zip(exp, bits):
                    r.evaluations += 1
                    seen.add((kind, pl, e, s.vis, s.arr))
                    r.count('visibility_probes')
                    if e != (b == '1'):
                        r.violation('vis/%s/%s/%d' % (s.id, name, pl), '%s (%s) is %s from the %s:\n%s' % (name, kind, 'not visible' if e else 'visible', PLACES[pl], decl(s)),
                                    {'declaration': decl(s), 'item': name, 'place': PLACES[pl]})
    r.count('declarations_with_visibilities', len(S))
    r.samples += [{'declaration': decl(s)[:400], 'items': len(items(s))} for s in S[::max(1, len(S) // 5)]][:5]


def flag_visibility(r, rig):
    lib = ['#![allow(warnings)]', FB.replace('pub struct S;', 'pub struct E;').replace('pub struct SBuilder;', ''), 'pub mod x {']
    main = ['#![allow(warnings)]']
    calls, exp = [], []
    for k, (v, lv) in enumerate(VIS):
        pr = 'pub fn probe() -> Vec<bool> { use %s::fb::*; { use %s::*; trait Fb { fn from_bits() {} fn into_bits() {} } impl Fb for E {} vec![has_type::<E>(), has(&E::from_bits), has(&E::into_bits)] } }'
        m = 'crate::w%d::a::b::m' % k
        p = pr % ('crate', m)
        lib.append('} pub mod w%d { pub mod a { pub mod b { pub mod m { use bitfields::bitflag; #[bitflag(u8)] %s enum E { #[base] A = 1, B = 2 } pub mod own { %s } %s } pub mod sib { %s } } pub mod out { %s } } %s' % (
            k, v.replace('crate::a', 'crate::w%d::a' % k), p, p, p, p, p))
        main.append('mod w%d { %s }' % (k, pr % ('case_lib', m.replace('crate::', 'case_lib::'))))
        c = 'case_lib::w%d::' % k
        calls += [c + 'a::b::m::probe()', c + 'a::b::m::own::probe()', c + 'a::b::sib::probe()', c + 'a::out::probe()', c + 'probe()', 'w%d::probe()' % k]
        exp += [(v, PLACES[i], lv >= NEED[i]) for i in range(6)]
    lib.append('}')
    main.append('fn main() { for v in [%s] { println!("{}", v.iter().map(|b| if *b { "1" } else { "0" }).collect::<String>()); } }' % ', '.join(calls))
    ol, o = rig.pair('flagvis', '\n'.join(lib), '\n'.join(main))
    if not ol.ok or not o.ok:
        r.violation('vis/flags', 'bitflags with visibilities no longer compile:\n' + (ol.rendered() or o.rendered())[:1200])
        return
    for (v, place, e), bits in zip(exp, o.out.split()):
        r.observe(3, 1)
        if bits != ('111' if e else '000'):
            r.violation('vis/flag/%s/%s' % (v, place), 'the bitflag `%s enum E`, its from_bits and into_bits are visible (%s) from the %s, expected %s' % (v, bits, place, e))


# ---- attributes ----------------------------------------------------------

HEAD = '#![allow(warnings)]\nuse bitfields::{bitfield, bitflag};\n'
DER = ['PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash']
# Declarations with attributes whose effect is an error, and what the error must speak about.
EFFECTS = [
    ('deprecated struct', '#![deny(deprecated)]', '#[bitfield(u8)] #[deprecated = "old"] pub struct S { pub a: u8 }', 'pub fn f(_: &m::S) {}', 'deprecated struct'),
    ('deprecated heap struct', '#![deny(deprecated)]', '#[bitfield([u8; 3], array_heap = true)] #[deprecated] pub struct S { pub a: u8, pub b: u16 }', 'pub fn f(_: &m::S) {}', 'deprecated struct'),
    ('deprecated struct with ignored field', '#![deny(deprecated)]', '#[bitfield(u8)] #[deprecated] pub struct S { pub a: u8, #[bits(ignore = true)] pub x: u8 }', 'pub fn f(_: &m::S) {}', 'deprecated struct'),
    ('must_use struct', '#![deny(unused_must_use)]', '#[bitfield(u8)] #[must_use] pub struct S { pub a: u8 }', 'pub fn g() -> m::S { todo!() } pub fn f() { g(); }', 'that must be used'),
    ('deprecated enum', '#![deny(deprecated)]', '#[bitflag(u8)] #[deprecated] pub enum E { #[base] A = 1, B = 2 }', 'pub fn f(_: &m::E) {}', 'deprecated enum'),
    ('must_use enum', '#![deny(unused_must_use)]', '#[bitflag(u8)] #[must_use] pub enum E { #[base] A = 1, B = 2 }', 'pub fn g() -> m::E { todo!() } pub fn f() { g(); }', 'unused'),
    ('deprecated variant', '#![deny(deprecated)]', '#[bitflag(u8)] pub enum E { #[base] A = 1, #[deprecated = "gone"] B = 2 }', 'pub fn f() -> m::E { m::E::B }', 'deprecated'),
    ('deprecated base variant', '#![deny(deprecated)]', '#[bitflag(u8)] pub enum E { #[deprecated] #[base] A = 1, B = 2 }', 'pub fn f() -> m::E { m::E::A }', 'deprecated'),
    ('deprecated variant after base', '#![deny(deprecated)]', '#[bitflag(u16)] pub enum E { #[base] #[deprecated] A = 1, B = 2 }', 'pub fn f() -> m::E { m::E::A }', 'deprecated'),
    ('missing docs on a variant', '#![deny(missing_docs)]\n//! doc', '#[bitflag(u8)]\n/// Enum.\npub enum E { /// A.\n #[base] A = 1, B = 2 }', '', 'missing documentation for a variant'),
    ('missing docs on an enum', '#![deny(missing_docs)]\n//! doc', '#[bitflag(u8)] pub enum E { /// A.\n #[base] A = 1,\n/// B.\n B = 2 }', '', 'missing documentation for an enum'),
    ('lint on the struct', '', '#[bitfield(u8)] #[deny(non_camel_case_types)] pub struct bad_name { pub a: u8 }', '', 'upper camel case'),
    ('lint on the enum', '', '#[bitflag(u8)] #[deny(non_camel_case_types)] pub enum bad_name { #[base] A = 1, B = 2 }', '', 'upper camel case'),
    ('lint on a variant', '', '#[bitflag(u8)] pub enum E { #[base] A = 1, #[deny(non_camel_case_types)] b_b = 2 }', '', 'upper camel case'),
    ('derive on the struct that its field cannot have', '', '#[bitfield(u8)] #[derive(Hash)] pub struct S { pub a: u8, #[bits(ignore = true)] pub x: super::NoHash }', '', 'Hash'),
]
# The same attributes put to use, or absent.
QUIET = [
    ('documented enum', '#![deny(missing_docs)]\n//! doc', '#[bitflag(u8)]\n/// Enum.\npub enum E { /// A.\n #[base] A = 1,\n/// B.\n B = 2,\n #[doc = "C."] C = 3 }', ''),
    ('documented struct', '#![deny(missing_docs)]\n//! doc', '#[bitfield(u8)]\n/// Struct.\npub struct S { /// A.\n pub a: u8 }', ''),
    ('allowed enum name', '#![deny(non_camel_case_types)]', '#[bitflag(u8)] #[allow(non_camel_case_types)] pub enum bad_name { #[base] A = 1 }', ''),
    ('allowed variant name', '#![deny(non_camel_case_types)]', '#[bitflag(u8)] pub enum E { #[base] A = 1, #[allow(non_camel_case_types)] b_b = 2 }', ''),
    ('not must_use', '#![deny(unused_must_use)]', '#[bitfield(u8)] pub struct S { pub a: u8 }', 'pub fn g() -> m::S { todo!() } pub fn f() { g(); }'),
]


def attributes(r, rig):
    def one(c):
        name, head, d, use = c[:4]
        src = '%s\nmod types { } #[derive(Copy, Clone, Default, Debug)] #[allow(missing_docs)] pub struct NoHash;\n#[allow(missing_docs%s)]\npub mod m { use bitfields::{bitfield, bitflag}; %s }\n%s' % (
            '\n'.join(x for x in head.split('\n') if not x.startswith('//')), '', d, use)
        if 'missing_docs' in head:
            src = '%s\nuse bitfields::{bitfield, bitflag};\n%s\n%s' % (head, d, use)
        if 'missing_docs' not in head:
            src = src.replace('#[allow(missing_docs)]\npub mod', 'pub mod')
        return rig.compile('at_' + re.sub(r'\W', '_', name), src)
    todo = EFFECTS + QUIET
    for c, o in zip(todo, rig.map(one, todo)):
        r.observe(1, 1)
        r.count('attribute_effects')
        text = '\n'.join(m.get('rendered') or '' for m in o.errs)
        if len(c) == 5 and (o.ok or c[4] not in text):
            r.violation('attr/' + c[0], 'the attribute did not reach the generated item (%s): expected an error about "%s", got: %s\n%s' % (c[0], c[4], o.rendered()[:500] or 'none', c[2]), {'declaration': c[2]})
        if len(c) == 4 and not o.ok:
            r.violation('attr/' + c[0], 'the attribute did not reach the generated item (%s):\n%s\n%s' % (c[0], c[2], o.rendered()[:800]), {'declaration': c[2]})


LINES = ['A part of the frame.', '', '', '```', '```', '```text', '* one', '* two', '    indented', '# Title', '`code` and *more*', 'höhe ≤ 3 "quoted" \\\\ {braces}', 'A part of the frame.', '| a | b |', '|---|---|']


def doc_block(rng):
    """Documentation written in some way."""
    ls = [rng.choice(LINES) for _ in range(rng.randrange(1, 9))]
    k = rng.randrange(5)
    if k == 0:
        return '#[doc = "%s"]\n' % '\\n'.join(x.replace('\\\\', '').replace('"', '\\"') for x in ls)
    if k == 1:
        return '/**\n%s\n*/\n' % '\n'.join(' ' + x for x in ls)
    if k == 2:
        return ''.join('#[doc = "%s"]\n' % x.replace('\\\\', '').replace('"', '\\"') for x in ls)
    return ''.join('///%s\n' % (' ' + x if x else '') for x in ls)


def documentation(r, rig, batch):
    """Rustdoc must see all of what is written about a bitfield, a bitflag and its variants,
    as it does of plain items with the same attributes."""
    rng = random.Random('docs %s %s' % (r.seed, batch))
    o = ['#![allow(warnings)]', 'use bitfields::{bitfield, bitflag};']
    n = 60
    for i in range(n):
        a, b = [''.join(doc_block(rng) for _ in range(rng.randrange(3))) + rng.choice(['', '', '#[allow(unused)]\n#[allow(unused)]\n', '#[must_use]\n']) for _ in range(2)]
        if a.count('must_use') and b.count('must_use'):
            b = b.replace('#[must_use]\n', '')
        a, b = a + rng.choice(['', doc_block(rng)]), b + rng.choice(['', doc_block(rng)])
        if i % 2:
            vs = [doc_block(rng) + rng.choice(['', doc_block(rng)]) for _ in range(3)]
            body = '{ %s%s A = 0, %s B = 1, %s C = 2 }'
            o.append('pub mod plain_%d { %s%s pub enum S %s }' % (i, a, b, body % ('', vs[0], vs[1], vs[2])))
            o.append('pub mod made_%d { use bitfields::bitflag; %s#[bitflag(u8)]\n%s pub enum S %s }' % (i, a, b, body % ('#[base]\n', vs[0], vs[1], vs[2])))
        else:
            ign = i % 4 == 0
            o.append('pub mod plain_%d { %s%s pub struct S { pub a: u8 } }' % (i, a, b))
            o.append('pub mod made_%d { use bitfields::bitfield; %s#[bitfield(u8)]\n%s pub struct S { pub a: u8%s } }' % (i, a, b, ', #[bits(ignore = true)] x: u8' if ign else ''))
    src = os.path.join(rig.work, 'documented.rs')
    with open(src, 'w') as f:
        f.write('\n'.join(o))
    out = os.path.join(rig.work, 'documented_doc')
    p = subprocess.run(['rustdoc', '--edition', '2021', '-Zunstable-options', '--output-format', 'json', '--cap-lints', 'allow', '--crate-name', 'docs', '-o', out, src] + rig.args(),
                       env=harness.env(dict(rig.env, RUSTC_BOOTSTRAP='1')), cwd=rig.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode:
        raise harness.Broken('cannot document the declarations: ' + p.stderr.decode('utf8', 'replace')[-2000:])
    with open(os.path.join(out, 'docs.json')) as f:
        ix = json.load(f)['index']
    os.remove(os.path.join(out, 'docs.json'))
    docs = {}
    for it in ix.values():
        if 'module' not in it['inner'] or '_' not in (it['name'] or ''):
            continue
        for i in it['inner']['module']['items']:
            st = ix[str(i)]
            if st['name'] != 'S' or not {'struct', 'enum'} & set(st['inner']):
                continue
            docs[it['name'], ''] = st['docs']
            for v in st['inner'].get('enum', {}).get('variants', []):
                docs[it['name'], ix[str(v)]['name']] = ix[str(v)]['docs']

    def lines(t):
        # how rustdoc strips indentation and stars depends on the fragments next to it
        return [x for x in (y.strip().lstrip('*').strip() for y in (t or '').split('\n')) if x]
    for (m, v), t in sorted(docs.items()):
        if not m.startswith('plain'):
            continue
        want, got = lines(t), lines(docs.get((m.replace('plain', 'made'), v)))
        r.observe(1, 1)
        r.count('documentations')
        if want and not any(got[k:k + len(want)] == want for k in range(len(got))):
            i = int(m[6:])
            r.violation('documentation/%s%s' % (m, v), 'the documentation of %s did not reach the generated item: expected\n%s\ngot\n%s\n%s' % (
                'the variant ' + v if v else 'the item', '\n'.join(want), '\n'.join(got), o[3 + 2 * i][:1500]), {'declaration': o[3 + 2 * i]})


def derives(r, rig, batch):
    """Derived comparisons and hashes speak about the bits and ignored fields."""
    rng = random.Random('C17d/%s/%s' % (r.seed, batch))
    out = [HEAD + 'use std::collections::hash_map::DefaultHasher; use std::hash::{Hash, Hasher};',
           'pub mod types {\n' + surface.types_rs() + '\n}', 'fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }']
    body = []
    n = 0
    for i in range(40):
        b = rng.choice(['u8', 'u16', 'u32', 'u64', 'u128', '[u8; 3]', '[u8; 17]'])
        while True:
            s = sc.rand_schema(rng, 'd%d' % i, b, customs=0, ignored=.5, feature_off=0)
            if not any(e[0] == 'Extra' for _, e in s.ignored):
                break
        k = rng.choice([1, 2, 4, 5])
        ds = [DER[0]] if k == 1 else DER[:k]
        if k == 1 and rng.random() < .5:
            ds.append('PartialOrd')
        if k == 2 and rng.random() < .5:
            ds.append('Hash')
        style = rng.randrange(3)
        s.attrs = ('#[derive(%s)]\n' % ', '.join(ds)) if style == 0 else ''.join('#[derive(%s)]\n' % d for d in ds) if style == 1 else '#[cfg_attr(all(), derive(%s))]\n/// Documented.\n' % ', '.join(ds)
        u = 'bytes' if s.arr else 'bits'
        out.append('mod d%d { use bitfields::bitfield; use crate::types::{self, *}; %s\n%s }' % (i, s.pre, s.decl()))
        lit = lambda v: str(list(v.to_bytes(s.nbits // 8, 'big'))) if s.arr else '%d%s' % (v, b)
        for _ in range(6):
            x = rng.getrandbits(s.nbits)
            y = rng.choice([x, x ^ 1, x ^ (1 << rng.randrange(s.nbits)), rng.getrandbits(s.nbits)])
            e = '{ let (a, b) = (d%d::S::from_be_%s(%s), d%d::S::from_be_%s(%s)); let e = %s;' % (i, u, lit(x), i, u, lit(y), str(x == y).lower())
            e += ' if (a == b) != e || (a != b) == e { println!("BAD %d eq {:x} {:x}", %su128, %su128); }' % (i, x & ((1 << 128) - 1), y & ((1 << 128) - 1))
            if 'Hash' in ds:
                e += ' if (h(&a) == h(&b)) != e { println!("BAD %d hash"); }' % i
            if 'PartialOrd' in ds and not s.arr:
                e += ' if a.partial_cmp(&b) != %d%s.partial_cmp(&%d%s) { println!("BAD %d ord"); }' % (x, b, y, b, i)
            body.append(e + ' }')
            n += 1
    for i in range(12):
        w = rng.choice(sc.UINTS)
        k = rng.choice([1, 2, 5])
        out.append('mod e%d { use bitfields::bitflag; #[bitflag(u%d)] #[derive(Debug, %s)] pub enum E { A = 9, #[base] B = 4, C = 200 } }' % (i, w, ', '.join(DER[:k])))
        body.append('{ use e%d::E; if E::A == E::B || E::A != E::from_bits(9) || format!("{:?}", E::C) != "C" { println!("BAD flag %d"); } %s }' % (
            i, i, 'if !(E::B < E::A && E::A < E::C) || h(&E::A) == h(&E::B) || h(&E::A) != h(&E::from_bits(9)) { println!("BAD flag %d"); }' % i if k == 5 else ''))
        n += 1
    o = rig.compile('derives%d' % batch, '\n'.join(out) + '\nfn main() { %s println!("DONE"); }' % '\n'.join(body), run=True)
    r.observe(n, n // 3)
    r.count('derived_trait_comparisons', n)
    if not o.ok:
        r.violation('derive/compile', 'declarations with derives no longer compile:\n' + o.rendered()[:1500])
    elif o.out.strip() != 'DONE':
        r.violation('derive', 'a derived trait does not speak about the value: %s\n%s' % (o.out[:400], o.err[:400]))


# ---- ignored fields that are more than plain data -------------------------------

OWNED = r"""
use std::cell::{Cell, RefCell}; use std::rc::Rc; use std::collections::{BTreeMap, HashMap}; use std::marker::PhantomData;
thread_local! { pub static LIVE: Cell<i64> = Cell::new(0); pub static MADE: Cell<u64> = Cell::new(0); }
/// Counts how many of it there are.
#[derive(PartialEq, Debug)] pub struct Noisy(pub u32);
impl Default for Noisy { fn default() -> Self { LIVE.with(|l| l.set(l.get() + 1)); MADE.with(|l| l.set(l.get() + 1)); Noisy(77) } }
impl Noisy { pub fn of(v: u32) -> Self { let mut n = Noisy::default(); n.0 = v; n } }
impl Drop for Noisy { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
#[derive(PartialEq, Debug, Default)] pub struct Gen<T, const N: usize>(pub Vec<T>, pub [u8; 2], pub PhantomData<[u8; N]>);
#[derive(PartialEq, Debug, Default, Clone, Copy)] pub enum En { A, #[default] B, C(u8) }
"""
# (type, another value)
OWN = [
    ('String', 'String::from("kept")'), ('Vec<u16>', 'vec![1, 2, 3]'), ('Noisy', 'Noisy::of(5)'), ('Option<Box<Noisy>>', 'Some(Box::new(Noisy::of(6)))'), ('Vec<Noisy>', 'vec![Noisy::of(1), Noisy::of(2)]'),
    ('Gen<u8, 4>', 'Gen(vec![9], [1, 2], PhantomData)'), ("Gen<(u8, &'static str), {2 + 2}>", 'Gen(vec![(1, "x")], [1, 2], PhantomData)'), ('En', 'En::C(3)'), ('Cell<u8>', 'Cell::new(3)'), ('RefCell<String>', 'RefCell::new("in".into())'), ('Rc<Noisy>', 'Rc::new(Noisy::of(8))'),
    ("&'static str", '"text"'), ('BTreeMap<u8, Vec<String>>', 'BTreeMap::from([(1, vec!["z".to_string()])])'), ('(u8, String)', '(1, "t".to_string())'), ('[Noisy; 2]', '[Noisy::of(3), Noisy::of(4)]'),
    ('()', '()'), ('f64', '2.5'), ('char', "'x'"), ('usize', '7'), ('isize', '-7'), ('bool', 'true'), ('[[u8; 3]; 2]', '[[1; 3]; 2]'), ('std::num::Wrapping<u8>', 'std::num::Wrapping(9)'), ('u128', '1 << 100'),
    ('Option<fn(u8) -> u8>', 'None'), ("PhantomData<fn(&'static mut u8) -> *const u8>", 'PhantomData'), ('crate::own::En', 'En::A'), ('<u8 as ToOwned>::Owned', '5'), ('<Vec<Noisy> as IntoIterator>::Item', 'Noisy::of(11)'),
]


def owned(r, rig, batch):
    rng = random.Random('C17o/%s/%s' % (r.seed, batch))
    n = 24
    size = 3

    def one(i):
        rg = random.Random('C17o/%s/%s/%d' % (r.seed, batch, i))
        out = ['#![allow(warnings)]', 'pub mod own { %s }' % OWNED, 'pub mod types {\n' + surface.types_rs() + '\n}', 'use own::*;']
        calls = []
        decls = []
        for j in range(size):
            name, body, d = owned_case(rg, 'o%d_%d' % (i, j))
            out.append(body)
            decls.append(d)
            calls.append('%s::go();' % name)
        out.append('fn main() { %s if LIVE.with(|l| l.get()) != 0 { println!("BAD leaked or doubly dropped values: {}", LIVE.with(|l| l.get())); } println!("DONE {}", own::MADE.with(|l| l.get())); }' % ' '.join(calls))
        return decls, rig.compile('own%d_%d' % (batch, i), '\n'.join(out), run=True)
    for decls, o in rig.map(one, range(n)):
        if not o.ok:
            r.violation('own/compile', 'a bitfield with ignored fields no longer compiles:\n%s\n%s' % (o.rendered()[:1500], '\n'.join(decls)[:1500]), {'declarations': decls})
            continue
        lines = o.out.strip().split('\n')
        steps = sum(int(x.split()[1]) for x in lines if x.startswith('STEPS'))
        r.observe(steps, size)
        r.count('owned_ignored_field_steps', steps)
        bad = [x for x in lines if x.startswith('BAD')]
        if bad or not lines[-1].startswith('DONE') or o.run_rc:
            r.violation('own/%s' % (bad[0] if bad else 'crash')[:40], 'ignored fields are not left alone: %s\n%s\n%s' % (bad[:3], o.err[:600], '\n'.join(decls)[:1500]), {'declarations': decls})
    r.samples += [{'declaration': owned_case(rng, 'x')[2][:400]}]


def owned_case(rng, name):
    """A bitfield with ignored fields, its twin without, and the same calls on both."""
    b = rng.choice(['u8', 'u16', 'u32', 'u64', 'u128', '[u8; 2]', '[u8; 9]'])
    s = sc.rand_schema(rng, name, b, prot=.3, customs=.1, defaults=.5, feature_off=0, endians=.3, ignored=0, copy=False)
    s.args['copy'] = False
    own = [rng.choice(OWN) for _ in range(rng.choice([1, 2, 3]))]
    pos = sorted(rng.randrange(len(s.fields) + 1) for _ in own)
    t = sc.clone_with(s, name, ignored=[(p, (ty, 0, '', '')) for p, (ty, _) in zip(pos, own)])
    t.name = 'T'
    u = 'bytes' if s.arr else 'bits'
    st = s.arr
    lit = lambda v: str(list(v.to_bytes(s.nbits // 8, 'big'))) if s.arr else '%d' % v
    rv = lambda: lit(rng.choice([0, (1 << s.nbits) - 1, rng.getrandbits(s.nbits), rng.getrandbits(s.nbits)]))
    o = ['mod %s { use bitfields::bitfield; use crate::own::*; use crate::types::{self, *}; use std::cell::*; use std::rc::Rc; use std::collections::*; use std::marker::PhantomData; %s' % (name, s.pre), s.decl(), t.decl()]
    o.append('fn same(s: &S, t: &T, at: &str, own: &(%s,)) {' % ', '.join(ty for ty, _ in own))
    o.append('let (x, y) = (%s, %s);' % (('s.into_be_bytes()', 't.into_be_bytes()') if s.arr else ('s.0', 't.val')))
    o.append('if x != y { println!("BAD %s state differs after {at}: {x:?} without, {y:?} with ignored fields"); }' % name)
    for k in range(len(own)):
        o.append('if t.ign%d != own.%d { println!("BAD %s ign%d changed by {at}"); }' % (k, k, name, k))
    o.append('}')
    dflt = '(%s,)' % ', '.join('<%s as Default>::default()' % ty for ty, _ in own)
    other = '(%s,)' % ', '.join(v for _, v in own)
    o.append('pub fn go() { let mut n = 0u32; let d = %s; let e = %s;' % (dflt, other))
    ctors = ['{0}::new()', '{0}::new_without_defaults()', '<{0} as Default>::default()', '{0}Builder::new().build()', '{0}Builder::new_without_defaults().build()', '<{0}Builder as Default>::default().build()']
    for en in ('', 'le_', 'be_'):
        for wd in ('', '_with_defaults'):
            ctors.append('{0}::from_%s%s%s(%s)' % (en, u, wd, rv()))
            if s.arr:
                ctors.append('{0}::from_%sslice%s(&%s)' % (en, wd, rng.choice(['[1u8, 2, 3][..]', '[1u8; 64][..]', '[0u8; 0][..]'])))
                ctors.append('{0}::checked_from_%sslice%s(&[7u8; 70]).ok().unwrap()' % (en, wd))
    ctors.append('<{0} as From<%s>>::from(%s)' % (b, rv()))
    for f in s.fields:
        if (f.has_getter or f.has_setter) and f.ty not in sc.CUSTOM and not sc.is_arr(f.ty) and f.ty != 'bool':
            ctors.append('{0}Builder::new().with_%s(1).build()' % f.plain)
            ctors.append('{0}Builder::new().checked_with_%s(0).ok().unwrap().build()' % f.plain)
    for c in ctors:
        o.append('{ let (s, t) = (%s, %s); same(&s, &t, "%s", &d); n += 1; }' % (c.format('S'), c.format('T'), c.format('S').replace('"', '').replace('{', '').replace('}', '')))
    muts = ['write_defaults()', 'invert_%s()' % u, 'clear_%s()' % u, 'clear_%s_with_defaults()' % u]
    for en in ('', 'le_', 'be_'):
        for wd in ('', '_with_defaults'):
            muts.append('write_%s%s%s(%s)' % (en, u, wd, rv()))
    for _ in range(6):
        off, ln = rng.randrange(s.nbits + 2), rng.randrange(s.nbits + 2)
        muts += ['set_bit(%d, %s)' % (off, rng.choice(['true', 'false'])), 'checked_set_bit(%d, true).is_ok()' % off, 'set_%s_range(%d, %d, %s)' % (u, off, ln, rv()), 'checked_set_%s_range(%d, %d, %s).is_ok()' % (u, off, ln, rv()),
                 'get_bit(%d)' % off, 'get_%s_range(%d, %d)' % (u, off, ln), 'checked_get_%s_range(%d, %d).is_ok()' % (u, off, ln)]
    for f in s.fields:
        if f.has_setter:
            muts += ['clear_%s()' % f.plain, 'invert_%s()' % f.plain]
            if f.default:
                muts.append('clear_%s_to_default()' % f.plain)
            if f.ty not in sc.CUSTOM and not sc.is_arr(f.ty) and f.ty != 'bool':
                muts += ['set_%s(%d)' % (f.plain, rng.choice([0, 1, 85])), 'checked_set_%s(%d).is_ok()' % (f.plain, rng.choice([0, 1, 85]))]
        if f.has_getter:
            muts += ['%s_inverted()' % f.plain, '%s()' % f.name]
    rng.shuffle(muts)
    o.append('let (mut s, mut t) = (S::new(), T::new()); same(&s, &t, "new", &d);')
    for k, (_, v) in enumerate(own):
        o.append('t.ign%d = %s;' % (k, v))
    for m in muts:
        o.append('s.%s; t.%s; same(&s, &t, "%s", &e); n += 1;' % (m, m, m))
    for en in ('le_', 'be_', ''):
        o.append('if s.into_%s%s() != t.into_%s%s() { println!("BAD %s into_%s differs"); }' % (en, u, en, u, name, en) if s.arr else '')
    # Conversions that take the bitfield drop its ignored fields.
    o.append('let x: %s = s.into(); let y: %s = t.into(); if x != y { println!("BAD %s into differs"); } println!("STEPS {n}"); } }' % (b, b, name))
    return name, '\n'.join(o), t.decl()


def run(r):
    behaviour.run(r)
    if r.violations:
        return
    r.rule = RULE
    rig = Rig('rig17')
    seen = set()
    flag_visibility(r, rig)
    attributes(r, rig)
    for batch in range(8 if r.thorough else 1):
        visibility(r, rig, batch, seen)
        documentation(r, rig, batch)
        derives(r, rig, batch)
        owned(r, rig, batch)
        if r.violations:
            break
    r.distinct += len(seen)
