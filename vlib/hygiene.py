"""C23: declarations in every kind of surroundings, under strict lints and all editions.
C24: the same declaration expands to the same code, whatever surrounds it."""
import os
import random
import re
import subprocess

from . import harness, schema as sc
from .rig import Rig

# Fields may be called a_ or x__y.
LINTS = "#![deny(warnings, missing_docs, unsafe_code, unused, nonstandard_style, rust_2018_idioms)]\n#![allow(non_snake_case)]\n//! Strict.\n"
RULE23 = ('Generated declarations are put into modules, function bodies, constants, closures, trait methods, cfg_attr, renamed imports, macro_rules expansions (as tokens and as typed '
          'fragments), beside common names such as a Result alias, in crates that deny warnings, missing documentation and unsafe code, under three editions; the compiler must say nothing '
          'and the program must find every default and round trip in place. A case is one declaration in one place; distinct ones differ in declaration or place or edition.')
RULE24 = ('Each declaration is expanded by separate compiler processes, in crates that hold it alone, with others of the same name, in different orders and repeatedly, '
          'as a dependency or primary package, in other directories, environments and build settings, and by macros that were built for release; the expanded code '
          'must be the same text each time. A case is one comparison of an expansion; distinct ones differ in declaration or arrangement.')
EDITIONS = ['2018', '2021', '2024']

ALIASES = '''
/// Alias.
pub type Result<T> = core::result::Result<T, Error>;
/// Error.
pub struct Error;
/// Same name as a method.
pub const fn from_bits() {}
/// Same name as a method.
pub const fn new() {}
/// Trait.
pub trait Builder { /// With.
 fn build(&self) {} }
impl<X> Builder for X {}
/// Constant.
pub const BITS: u8 = 1;
/// Module.
pub mod bits {}
/// Module.
pub mod fmt {}
'''


def documented(s):
    d = s.decl()
    i = d.index(']\n' + s.attrs + 'pub struct') + 2
    return d[:i] + '/// Documented.\n' + d[i:]


def checks(s, name='S'):
    """Statements that find the defaults and round trips."""
    o = ['#[allow(unused_mut)] let mut x = %s::new();' % name]
    for f in s.fields:
        if f.ty in sc.CUSTOM or sc.is_arr(f.ty) or f.reserved:
            continue
        raw = f.default[1] if f.default else 0

        def val(raw):
            if f.ty == 'bool':
                return 'true' if raw else 'false'
            if sc.signed(f.ty) and raw >> (f.bits - 1):
                raw -= 1 << f.bits
            return '%d' % raw
        if f.has_getter:
            o.append('assert!(x.%s() == %s);' % (f.name, val(raw)))
        if f.has_getter and f.has_setter:
            v = (1 << f.bits) - 1
            o.append('x.set_%s(%s); assert!(x.%s() == %s);' % (f.plain, val(v), f.name, val(v)))
            o.append('assert!(x.checked_set_%s(%s).is_ok()); assert!(x.%s() == %s);' % (f.plain, val(raw), f.name, val(raw)))
    o.append('let _ = x;')
    return ' '.join(o)


def inner(s):
    """The declaration inside a function: private to it."""
    return documented(s)


def p_module(s, i, c):
    return 'pub mod m%d { #![allow(missing_docs)] #[allow(unused_imports)] use crate::types::{self, *}; use bitfields::bitfield;\n%s\n%s\npub fn check() { %s } }' % (i, s.pre, documented(s), c), 'm%d::check();' % i


def p_documented(s, i, c):
    if s.ignored:   # documentation of ignored fields is not passed on
        return p_module(s, i, c)
    return '/// M.\npub mod m%d { #[allow(unused_imports)] use crate::types::{self, *}; use bitfields::bitfield;\n#[allow(warnings, unused, missing_docs, nonstandard_style)] mod pre { pub use super::*;\n%s\n}\n#[allow(unused_imports)] use pre::*;\n%s\n/// C.\npub fn check() { %s } }' % (
        i, re.sub(r'(?m)^(const|static|type|struct|enum|fn)\b', r'pub \1', s.pre), documented(s), c), 'm%d::check();' % i


USE = '#[allow(unused_imports)] use crate::types::{self, *}; #[allow(unused_imports)] use bitfields::bitfield;\n'


def p_fn(s, i, c):
    return 'fn f%d() { %s %s\n%s\n%s }' % (i, USE, s.pre, inner(s), c), 'f%d();' % i


def p_const_block(s, i, c):
    return 'const _: () = { %s\n%s\n%s\nimpl crate::Probe<%d> { fn check() { %s } } };' % (USE, s.pre, inner(s), i, c), 'Probe::<%d>::check();' % i


def p_closure(s, i, c):
    return '', 'let k = || { %s %s\n%s\n%s }; k();' % (USE, s.pre, inner(s), c)


def p_method(s, i, c):
    return 'struct T%d; impl crate::Run for T%d { fn run(&self) { %s %s\n%s\n%s } }' % (i, i, USE, s.pre, inner(s), c), 'T%d.run();' % i


def p_cfg_attr(s, i, c):
    d = documented(s)
    d = re.sub(r'^#\[(bitfield\(.*?\))\]\n', r'#[cfg_attr(not(nothing), \1)]\n', d, flags=re.S)
    return '#[allow(unexpected_cfgs)] fn f%d() { %s %s\n%s\n%s }' % (i, USE, s.pre, d, c), 'f%d();' % i


def p_renamed(s, i, c):
    return 'fn f%d() { use bitfields as bf; %s %s\n%s\n%s }' % (i, USE.replace('use bitfields::bitfield', 'use core as _c'), s.pre, inner(s).replace('#[bitfield(', '#[bf::bitfield(', 1), c), 'f%d();' % i


def p_path(s, i, c):
    return 'fn f%d() { %s %s\n%s\n%s }' % (i, USE.replace('use bitfields::bitfield', 'use core as _c'), s.pre, inner(s).replace('#[bitfield(', '#[::bitfields::bitfield(', 1), c), 'f%d();' % i


def p_tokens(s, i, c):
    return 'macro_rules! k%d { ($($t:tt)*) => { $($t)* } }\nfn f%d() { %s k%d! { %s\n%s }\n%s }' % (i, i, USE, i, s.pre, inner(s), c), 'f%d();' % i


def p_fragments(s, i, c):
    """Name, storage, visibilities, field names, types, widths and defaults as fragments."""
    args = ''.join(', %s = %s' % (k, {True: 'true', False: 'false'}.get(v, v)) for k, v in s.args.items())
    pat, body, inv = ['$b:ty, $n:ident, $v:vis'], [], ['%s, S, pub' % s.backing]
    ign = {}
    for n, (pos, e) in enumerate(s.ignored):
        ign.setdefault(pos, []).append((n, e))
    for j, f in enumerate(s.fields + [None]):
        for n, e in ign.get(j, []):
            pat.append('$it%d:ty' % n)
            inv.append(e[0])
            body.append('#[bits(ignore = true)] $v ign%d: $it%d' % (n, n))
        if f is None:
            break
        a = []
        p, v = ['$f%d:ident' % j, '$t%d:ty' % j], [f.name, f.ty]
        if f.attr:
            a.append('$w%d' % j)
            p.append('$w%d:literal' % j)
            v.append(str(f.bits))
        if f.acc:
            a.append('access = $a%d' % j)
            p.append('$a%d:ident' % j)
            v.append(f.acc)
        if f.default:
            a.append('default = $d%d' % j)
            p.append('$d%d:expr' % j)
            v.append(f.default[0])
        at = '#[bits(%s)] ' % ', '.join(a) if a else ''
        body.append('%s$v $f%d: $t%d' % (at, j, j))
        pat.append(' '.join(x + ',' for x in p).rstrip(','))
        inv.append(', '.join(v))
    return 'macro_rules! k%d { (%s) => { #[bitfield($b%s)]\n/// Documented.\n%s$v struct $n { %s } } }\nfn f%d() { %s %s\nk%d! { %s }\n%s }' % (
        i, ', '.join(pat), args, s.attrs, ', '.join(body), i, USE, s.pre, i, ', '.join(inv), c), 'f%d();' % i


def p_aliases(s, i, c):
    return '#[allow(missing_docs)] pub mod m%d { #[allow(unused_imports)] use crate::types::{self, *}; use bitfields::bitfield;\n%s\n%s\n%s\npub fn check() { %s } }' % (i, ALIASES, s.pre, documented(s), c), 'm%d::check();' % i


def p_private(s, i, c):
    d = documented(s).replace('pub struct S', 'struct S')
    return 'mod m%d { #[allow(unused_imports)] use crate::types::{self, *}; use bitfields::bitfield;\n%s\n%s\npub fn check() { %s } }' % (i, s.pre, d, c), 'm%d::check();' % i


PLACES = [('module', p_module), ('documented', p_documented), ('function', p_fn), ('constant', p_const_block), ('closure', p_closure), ('method', p_method), ('cfg_attr', p_cfg_attr),
          ('renamed', p_renamed), ('path', p_path), ('tokens', p_tokens), ('fragments', p_fragments), ('aliases', p_aliases), ('private', p_private)]

FLAGS = '''
/// Flags.
pub mod flags { use bitfields::bitflag;
/// F.
#[bitflag(u8)] #[derive(Debug, PartialEq)] pub enum Docs { /// A.
 #[base] A = 0, /// B.
 B = 3 }
pub(crate) fn local() -> u16 { #[bitflag(u16, from_endian = little)] #[allow(dead_code)] #[derive(Default)] enum L { X = 1, #[default] Y = 0x100 } L::from_bits(0xFFFF).into_bits() }
}
/// Aliases.
pub mod flag_aliases { use bitfields::bitflag;
/// R.
pub type Result<T> = core::result::Result<T, ()>;
macro_rules! mk { ($n:ident, $t:ty, $($v:ident = $x:expr),*; $b:ident = $y:expr) => { /// D.
 #[bitflag($t)] #[allow(missing_docs)] pub enum $n { $($v = $x,)* #[base] $b = $y } } }
mk!(Made, u8, A = 1, B = 2; C = 3);
}
'''


def program(items):
    """items: (schema, place name, place function, index)."""
    out = (LINTS + '/// T.\n#[allow(warnings, unused, missing_docs, nonstandard_style)] pub mod types {\n' + sc.TYPES_RS.replace('//! Custom field types used by the harness.', '').replace('#![allow(dead_code)]', '') + '\n}\n'
           + FLAGS + '/// P.\npub struct Probe<const N: usize>;\n/// R.\npub trait Run { /// R.\n fn run(&self); }').split('\n')
    ranges = []
    calls = []
    for s, _, place, i in items:
        t, call = place(s, i, checks(s))
        a = len(out) + 1
        if t:
            out += t.split('\n')
        calls.append(call)
        ranges.append([(a, len(out))])
    out.append('fn main() { assert!(flags::Docs::from_bits(9).into_bits() == 0 && flags::local() == 0x100 && flag_aliases::Made::from_bits(7).into_bits() == 3);')
    for k, c in enumerate(calls):
        a = len(out) + 1
        out += ('{ eprintln!("case %d"); %s }' % (k, c)).split('\n')
        ranges[k].append((a, len(out)))
    out.append('}')
    return '\n'.join(out), ranges


def wherein(o):
    out = {}
    for e in o.errs:
        for s in [s for s in e['spans'] if s['is_primary']] or e['spans']:
            while s.get('expansion') and s['expansion'].get('span') and s['expansion']['span']['file_name'].endswith('.rs'):
                s = s['expansion']['span']
            out.setdefault(s['line_start'], []).append(e.get('rendered') or e['message'])
    return out


def plain_default(s):
    """Macro fragments carry expressions as they are; the schema's are self-contained."""
    return True


def schemas(r, batch):
    rng = random.Random('C23/%s/%s' % (r.seed, batch))
    S = [s for s in sc.corners() + sc.base_corpus() if s.nbits <= 256 and s.arg('new')] if batch == 0 else []
    for i in range(90):
        S.append(sc.rand_schema(rng, 'h%d_%d' % (batch, i), rng.choice(sc.PICK), feature_off=0, ignored=.15, defaults=.5))
    return [s for s in S if s.nbits <= 256 and s.arg('new')], rng


def run23(r):
    r.rule = RULE23
    r.assumptions = ['the compiler reports what is wrong with generated code', 'names of the surroundings that collide with the prelude (Ok, Err, Default) or with local names of generated code are not judged']
    g = Rig('rig23')
    for batch in range(8 if r.thorough else 1):
        S, rng = schemas(r, batch)
        items = []
        for k, s in enumerate(S):
            places = PLACES if r.thorough else [PLACES[k % len(PLACES)]] + rng.sample(PLACES, 3)
            if not r.thorough and k % 3 == 0:
                places.append(('fragments', p_fragments))
            for n, p in dict(places).items():
                items.append((s, n, p, len(items)))
        groups = {}
        for it in items:
            groups.setdefault(('%s' % EDITIONS[it[3] % 3], it[3] % 8), []).append(it)

        def one(kv):
            (ed, n), its = kv
            bad = []
            for attempt in range(4):
                text, ranges = program(its)
                o = g.compile('h%s_%d_%d' % (ed, n, attempt), text, run=True, flags=['--edition', ed])
                if o.ok:
                    break
                hit = {}
                for ln, msgs in wherein(o).items():
                    k = next((k for k, rs in enumerate(ranges) if any(a <= ln <= b for a, b in rs)), None)
                    hit.setdefault(k, []).extend(msgs)
                if not hit:
                    return [(None, ed, o.rendered() or o.stderr[-1500:])], its, False
                for k, m in hit.items():
                    bad.append((its[k] if k is not None else None, ed, m[0]))
                if None in hit:
                    return bad, its, False
                its = [x for k, x in enumerate(its) if k not in hit]
                if not its:
                    return bad, [], False
            if o.ok and o.run_rc != 0:
                m = re.findall(r'case (\d+)', o.err)
                k = int(m[-1]) if m else None
                bad.append((its[k] if k is not None else None, ed, 'the program failed: ' + o.err[-600:]))
            return bad, its, o.ok
        for bad, its, ok in g.map(one, sorted(groups.items())):
            for it, ed, msg in bad:
                if it is None:
                    r.violation('hygiene/%s/flags' % ed, 'a bitflag or its surroundings (edition %s):\n%s' % (ed, msg[:1500]))
                else:
                    r.violation('hygiene/%s/%s' % (it[0].id, it[1]), 'in place "%s", edition %s:\n%s\n%s' % (it[1], ed, it[0].decl(), msg[:1500]), {'declaration': it[0].decl(), 'place': it[1], 'edition': ed})
            for s, n, p, i in its if ok else []:
                r.observe(1, 1)
                r.extra.setdefault('by_place', {}).setdefault(n, 0)
                r.extra['by_place'][n] += 1
                r.samples.append('%s: %s' % (n, s.decl()[:150].replace('\n', ' ')))
        exp, err = expansions(g, 'unsafe%d' % batch, [s for s in S if s.nbits <= 4096])
        if exp is None:
            raise harness.Broken('cannot expand the declarations: ' + err)
        for s in S:
            m = re.search(r'\bunsafe\s*(\{|fn\b|extern\b)|#!?\[allow\(unsafe_code\)', exp.get(s.id) or '')
            if m:
                r.violation('unsafe/%s' % s.id, 'generated code contains unsafe code:\n%s\n...%s...' % (s.decl(), exp[s.id][max(0, m.start() - 200):m.end() + 200]), {'declaration': s.decl()})
        r.count('expansions_without_unsafe_code', len(S))
        if r.violations:
            return


# ---- C24 ---------------------------------------------------------------

def expansions(g, name, items, head='', extra_env=None, flags=(), at=None):
    """{schema id: expanded text} of one compiler run."""
    o = ['#![allow(warnings)]', head, 'pub mod types {', sc.TYPES_RS.replace('//!', '//'), '}']
    for s in items:
        o.append('pub mod n_%s { use crate::types::{self, *}; use bitfields::{bitfield, bitflag};\n%s\n%s\npub mod end_of_case {} }' % (re.sub(r'\W', '_', s.id), s.pre, s.decl()))
    cwd = os.path.join(g.work, at) if at else g.work
    os.makedirs(cwd, exist_ok=True)
    src = os.path.join(cwd, name + '.rs')
    with open(src, 'w') as f:
        f.write('\n'.join(o))
    p = subprocess.run(['rustc', '--edition', '2021', '-Zunpretty=expanded', '--crate-type', 'lib', src if not at else os.path.basename(src)] + list(flags) + g.args(),
                       env=harness.env(dict(g.env, RUSTC_BOOTSTRAP='1', **(extra_env or {}))), cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    os.remove(src)
    if p.returncode:
        return None, p.stderr.decode('utf8', 'replace')[-1500:]
    t = p.stdout.decode('utf8', 'replace')
    res = {}
    for s in items:
        m = re.search(r'pub mod n_%s \{(.*?)pub mod end_of_case' % re.sub(r'\W', '_', s.id), t, re.S)
        res[s.id] = m.group(1) if m else None
    m = re.search(r'pub mod types \{(.*?)\n    pub mod n_|pub mod types \{(.*?)pub mod n_', t, re.S)
    res['types'] = (m.group(1) or m.group(2)) if m else None
    return res, ''


# What differs between two builds of the same crate, without a difference in the crate.
CARGO = {'CARGO': '/usr/bin/cargo', 'CARGO_PKG_NAME': 'other', 'CARGO_PKG_VERSION': '3.1.4', 'CARGO_PKG_VERSION_MAJOR': '3', 'CARGO_MANIFEST_DIR': '/nonexistent/other', 'CARGO_CRATE_NAME': 'other',
         'CARGO_PRIMARY_PACKAGE': '1', 'CARGO_PKG_RUST_VERSION': '1.83', 'OUT_DIR': '/nonexistent/out'}
SETTINGS = [
    ('as a primary package', dict(CARGO), ['--crate-name', 'other'], 'deep/er'),
    ('as a dependency', {k: v for k, v in CARGO.items() if k != 'CARGO_PRIMARY_PACKAGE'}, ['--cap-lints', 'allow', '-C', 'metadata=0123'], None),
    ('in an optimised build', {'PROFILE': 'release', 'OPT_LEVEL': '3', 'DEBUG': 'false', 'CARGO_PROFILE': 'release'}, ['-C', 'opt-level=3', '-C', 'debug-assertions=no', '-C', 'panic=abort'], None),
    ('in a debug build', {'PROFILE': 'debug', 'OPT_LEVEL': '0', 'DEBUG': 'true'}, ['-C', 'debuginfo=2', '-C', 'debug-assertions=yes', '-C', 'overflow-checks=no'], None),
    ('under test', {'CARGO_TARGET_TMPDIR': '/nonexistent', 'RUST_BACKTRACE': '1', 'RUST_LOG': 'trace'}, ['--cfg', 'test', '--cfg', 'feature="std"'], 'tests'),
    ('for documentation', {'DOCS_RS': '1', 'CI': 'true', 'RUSTDOCFLAGS': '--cfg docsrs'}, ['--cfg', 'docsrs', '--cfg', 'doc'], None),
    ('for another machine', {'CARGO_CFG_TARGET_ENDIAN': 'big', 'CARGO_CFG_TARGET_POINTER_WIDTH': '32', 'TARGET': 's390x-unknown-linux-gnu', 'HOST': 's390x-unknown-linux-gnu'}, [], None),
    ('by a user without a home', {'HOME': '/nonexistent', 'USER': 'nobody', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8', 'TERM': 'dumb', 'RUSTUP_HOME': os.environ.get('RUSTUP_HOME', '/root/.rustup'), 'CARGO_HOME': os.environ.get('CARGO_HOME', '/root/.cargo'), 'SOURCE_DATE_EPOCH': '1'}, [], None),
]


def run24(r):
    r.rule = RULE24
    r.assumptions = ['the text the compiler prints for expanded code tells different code apart']
    g = Rig('rig24')
    fast = Rig('rig24r', release=True)
    for batch in range(6 if r.thorough else 1):
        rng = random.Random('C24/%s/%s' % (r.seed, batch))
        S = (sc.corners() + sc.base_corpus()) if batch == 0 else []
        for i in range(40):
            S.append(sc.rand_schema(rng, 'd%d_%d' % (batch, i), rng.choice(sc.PICK), ignored=.2, defaults=.5))
        # Same names, different contents: what a cache would confuse.
        for i in range(6):
            b = rng.choice(['u32', '[u8; 4]'])
            S.append(sc.rand_schema(rng, 'e%d_%d' % (batch, i), b, order='lsb' if i % 2 else 'msb'))
        S = [s for s in S if s.nbits <= 4096]
        runs = []
        base = list(S)
        runs.append(('in order', base, {}))
        runs.append(('again', base, {}))
        runs.append(('reversed', base[::-1], {}))
        for k in range(6 if r.thorough else 3):
            x = base[:]
            rng.shuffle(x)
            runs.append(('shuffled', x, {'LANG': 'C', 'TZ': 'Asia/Tokyo', 'VP_NOISE': str(k)}))
        few = rng.sample(base, min(len(base), 30 if r.thorough else 12))
        for s in few:
            runs.append(('alone', [s], {}))
        for what, e, flags, at in SETTINGS:
            runs.append((what, base, e, flags, at))
        runs.append(('by macros built for release', base, {}, [], None, fast))
        res = g.map(lambda kr: expansions(kr[1][5] if len(kr[1]) > 5 else g, 'x%d' % kr[0], kr[1][1], '', *kr[1][2:5]), list(enumerate(runs)))
        first = res[0][0]
        if first is None:
            raise harness.Broken('cannot expand the declarations: ' + res[0][1])
        for (what, items), (got, err) in list(zip([x[:2] for x in runs], res))[1:]:
            if got is None:
                r.violation('expand/' + what, 'the same declarations, %s, no longer expand: %s' % (what, err))
                continue
            for s in items:
                r.observe(1, 1)
                r.extra.setdefault('by_arrangement', {}).setdefault(what, 0)
                r.extra['by_arrangement'][what] += 1
                if got[s.id] is None or first[s.id] is None:
                    raise harness.Broken('no expansion found for ' + s.id)
                if got[s.id] != first[s.id]:
                    a, b = first[s.id], got[s.id]
                    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                    r.violation('expand/' + s.id, 'expands to different code (%s):\n%s\n  first: ...%s...\n  then: ...%s...' % (what, s.decl(), a[max(0, k - 80):k + 160], b[max(0, k - 80):k + 160]),
                                {'declaration': s.decl(), 'arrangement': what})
        r.count('declarations', len(S))
        r.count('compiler_runs', len(runs))
        r.samples += [s.decl().replace('\n', ' ')[:160] for s in S[:6]]
        if r.violations:
            return
