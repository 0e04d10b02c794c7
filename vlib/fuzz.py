"""C22: mutated declarations expanded by the real macros; a detector for internal
errors, crashes, hangs and partly generated code."""
import os
import random
import re
import subprocess

from . import decls, harness, schema as sc
from .decls import Case
from .rig import Rig

RULE = ('Declarations of all kinds (valid, one rule broken, random argument and item token mutations, extreme numbers, odd literals and expressions) are '
        'expanded by the real macros inside the compiler. The message of an intentionally forced internal error calibrates the detector, and any '
        'other input that leads to it, to a panicking macro, an internal compiler error or a hang is a violation; inputs that the macro rejects are '
        'compiled again beside a second item of the same name, which conflicts if code was generated all the same. A case is one input; distinct '
        'ones differ in their text.')

TOK = re.compile(r'''r?b?"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|'[A-Za-z_]\w*|r\#[A-Za-z_]\w*|[A-Za-z_]\w*|0[xX][0-9a-fA-F_]+\w*|\d[\w]*(?:\.\d[\w]*)?|::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.|<<|>>|\S''')
OPEN, CLOSE = '([{', ')]}'

NUMS = ['0', '1', '2', '7', '8', '9', '15', '16', '31', '32', '33', '63', '64', '65', '127', '128', '129', '200', '255', '256', '1000', '65535', '65536', '2147483647', '2147483648', '4294967295', '4294967296',
        '18446744073709551615', '18446744073709551616', '170141183460469231731687303715884105727', '170141183460469231731687303715884105728', '340282366920938463463374607431768211455', '340282366920938463463374607431768211456',
        '9' * 80, '0x0', '0xFF', '0x' + 'f' * 32, '0x1' + '0' * 32, '0b1', '0b' + '1' * 128, '0b' + '1' * 129, '0o7', '0o' + '7' * 60, '1_000', '0x_f', '0b_1_', '1u8', '1i128', '1u32', '1usize', '0xFFu8', '0b1i8',
        '1.0', '1e3', '1e300', '1.5f32', '2f64', '0x1f32', '1e+3', '0xe', '0xusize'[:2] + '1usize']
LITS = ['"a"', '""', '"8"', "'a'", "b'a'", 'b"ab"', 'true', 'false', 'r"x"', '"{}"', '"{"', '"\\u{1F600}"', 'c"x"', 'True', 'TRUE', '()', '(1)', '((1))', '{1}', '{}', '[]', '[1, 2]', '[0; 2]', '[u8; 2]']
IDENTS = ['a', 'S', '_', '__', '_1', '_0x', '_0b1', '_e5', 'r#type', 'r#fn', 'self', 'Self', 'super', 'crate', 'x', 'f32', 'u8', 'i8', 'bool', 'usize', 'e1', 'E', 'lsb', 'msb', 'big', 'little', 'LSB', 'Big', 'ro', 'wo', 'rw', 'na',
          'RO', 'default', 'access', 'ignore', 'order', 'new', 'copy', 'debug', 'from_endian', 'into_endian', 'write_endian', 'builder', 'bit_ops', 'array_heap', 'from_into_bits', 'from_traits', 'write_bit_ops', 'ünï', 'été', 'true1',
          'bits', 'bitfield', 'b0', 'o7', 'x0x', 'async', 'fn', 'as', 'in', 'dyn', 'where', 'union', 'auto', 'None', 'u128', 'i128', 'Missing', 'types::Cu8::ONE', 'CU8_ONE', 'u8::MAX', 'i8::MIN', '<u8>::MAX', '<u8 as Default>::default()',
          'core::mem::size_of::<u8>()', 'if true {1} else {2}', 'match 1 { _ => 2 }', '|x| x', 'move || 1', 'loop {}', 'return', 'break', 'x = y', '1..2', '..', '&1', '*x', '!1', '-1', '--1', '- -1', '-(1)', '-true', '-"x"', '-x', '!true',
          'S { a: 1 }', 'vec![1]', 'concat!("1")', 'x?', 'x.await', 'x.y', 'x[0]', 'x as u8', '1 as u8', '1 + 1', '1 << 3', 'unsafe {1}', 'const {1}', 'async {}', 'yield', '#[a] 1', 'a::<u8>()', 'a < b', 'a > b', 'let x = 1']
PUNCT = [',', '=', '==', '=>', ':', '::', ';', '-', '+', '!', '#', '?', '&', '.', '..', '<', '>', '|', '$', '@', '*', '/', "'a", '->', ',,', '= =']
TYPES = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'bool', 'usize', 'isize', 'f32', 'f64', 'char', '()', '(u8)', '(u8,)', '[u8; 0]', '[u8; 1]', '[u8; 16]', '[u8; 17]', '[u8; 4294967295]', '[u8; 4294967296]',
         '[u8; 536870911]', '[u8; 536870912]', '[u8; -1]', '[u8; N]', '[u8; 1 + 1]', '[u8; 1usize]', '[u8; 0x2]', '[u8; "2"]', '[u8; 2u8]', '[u8; 1.0]', '[u16; 2]', '[i8; 2]', '[bool; 8]', '[[u8; 2]; 2]', '[usize; 2]', '[Cu8; 2]', '[u8]', '&u8', "&'static u8",
         '*const u8', 'fn()', 'fn(u8) -> u8', '!', '_', 'Self', 'Cu8', 'Cu128', 'types::Cu16', 'crate::types::Cu32', '::core::primitive::u8', 'core::primitive::i16', 'std::string::String', 'Vec<u8>', 'Option<u8>', 'impl Copy', 'dyn Copy', 'Box<dyn Fn()>',
         '<u8 as Copy>::T', 'r#u8', 'U8', 'u24', 'u256', 'Missing', 'Missing<u8>', 'm!()', 'm![u8]', 'S', 'Flag2', 'In8', 'str', 'u8<T>', 'T', 'Cu8<u8>', 'f32::X', 'usize::X', 'x::usize', 'x::f64']
NAMES = ['a', 'b', 'r#a', '_', '__', '_a', 'r#type', 'r#fn', 'r#self_', 'A', 'new', 'val', 'bits', 'this', 'self_', 'SBuilder', 'élan', 'x1', 'aB', 'a_', 'a__b', 'r#new', 'default', 'clone', 'from', 'into_bits', 'build', 'set_a', 'u8', 'i', 'f32', 'X' * 40]
ATTRS = ['#[rustfmt::skip]', '#[rustfmt::skip::macros(x)]', '#[clippy::cognitive_complexity = "1"]', '#[doc = "x"]', '/// x\n', '/** x */', '#[doc(hidden)]', '#[allow(clippy::all)]', '#[cfg(all())]', '#[cfg(any())]', '#[cfg_attr(all(), allow(unused))]', '#[cfg_attr(all(), bits(3))]',
         '#[bits::x(3)]', '#[x::bits(3)]', '#[x::base]', '#[base::x]', '#[a::b::c]', '#[::a]', '#[::a::bits(3)]', '#[deprecated]', '#[deprecated(note = "x")]', '#[unsafe(no_mangle)]', '#[r#bits(3)]', '#[r#base]', '#[r#default]', '#[must_use]', '#[default]', '#[base]',
         '#[derive(Clone)]', '#[repr(C)]', '#[allow(unused)]', '#[unknown]', '#[unknown = 1]', '#[unknown = {1}]', '#[bits {4}]', '#[bits [4]]', '#[non_exhaustive]', '#[inline]', '#[test]', '#[path = "x"]', '#[macro_use]', '#[crate]', '#[self]', '#[super::x]', '#[std::prelude::v1::derive(Clone)]', '#[bitfield(u8)]', '#[bitflag(u8)]', '#[]', '#[1]', '#["x"]']
VIS = ['', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(self) ', 'pub(in crate) ', 'pub(in crate::c0) ', 'pub(in super) ', 'pub(in self::x) ']


def lex(s):
    out = []
    for m in TOK.finditer(s):
        out.append(m.group(0))
    return out


def tree(toks):
    """Nested lists, groups as (open, [..], close)."""
    stack = [[]]
    ends = []
    for t in toks:
        if t in OPEN and len(t) == 1:
            stack.append([])
            ends.append(t)
        elif t in CLOSE and len(t) == 1:
            if not ends:
                continue
            g = stack.pop()
            o = ends.pop()
            stack[-1].append((o, g))
        else:
            stack[-1].append(t)
    while ends:
        g = stack.pop()
        stack[-1].append((ends.pop(), g))
    return stack[0]


def flat(t):
    out = []
    for x in t:
        if isinstance(x, tuple):
            out.append(x[0] + ' ' + flat(x[1]) + ' ' + CLOSE[OPEN.index(x[0])])
        else:
            out.append(x)
    return ' '.join(out)


def rand_tok(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(NUMS)
    if k < .42:
        return rng.choice(LITS)
    if k < .75:
        return rng.choice(IDENTS)
    if k < .92:
        return rng.choice(PUNCT)
    if k < .97:
        return (rng.choice(OPEN), [rand_tok(rng) for _ in range(rng.randrange(3))])
    return rng.choice(TYPES)


def mutate(rng, t, n):
    t = [((x[0], list(x[1])) if isinstance(x, tuple) else x) for x in t]
    for _ in range(n):
        lists = [t]
        i = 0
        while i < len(lists):
            lists += [x[1] for x in lists[i] if isinstance(x, tuple)]
            i += 1
        li = rng.choice(lists)
        k = rng.randrange(7)
        p = rng.randrange(len(li) + 1)
        q = min(p, len(li) - 1)
        if k == 0 or not li:
            li.insert(p, rand_tok(rng))
        elif k == 1:
            del li[q]
        elif k == 2:
            li.insert(p, li[q])
        elif k == 3 and len(li) > 1:
            r = rng.randrange(len(li))
            li[q], li[r] = li[r], li[q]
        elif k == 4:
            li[q] = (rng.choice(OPEN), [li[q]])
        elif k == 5 and isinstance(li[q], tuple):
            li[q:q + 1] = li[q][1]
        else:
            li[q] = rand_tok(rng)
    return t


def mut_text(rng, s, n=None):
    return flat(mutate(rng, tree(lex(s)), n or rng.choice([1, 1, 1, 2, 2, 3, 5])))


def expr(rng, depth=0):
    k = rng.random()
    if k < .45:
        return rng.choice(NUMS)
    if k < .6:
        return rng.choice(LITS)
    if k < .85 or depth > 3:
        return rng.choice(IDENTS)
    return rng.choice(['-%s', '(%s)', '{ %s }', '%s + 1', '!%s', '%s as u8', '- - %s', '[%s]', '%s.x', '%s()', '&%s', '%s?', 'f(%s)', '-(%s)', '%s << 2', '|x| %s']) % expr(rng, depth + 1)


def bits_attr(rng):
    k = rng.random()
    if k < .1:
        return rng.choice(['#[bits]', '#[bits()]', '#[bits = 4]', '#[bits[4]]', '#[bits{4}]', '#[bits(4,)]', '#[bits(,)]', '#[bits(,4)]', '#[bits(,,)]', '#[bits("4")]', '#[bits(4 default = 3)]', '#[crate::bits(4)]', '#![bits(4)]'])
    args = []
    if rng.random() < .8:
        args.append(rng.choice(NUMS) if rng.random() < .6 else str(rng.randrange(1, 9)))
    if rng.random() < .6:
        args.append('default = ' + expr(rng))
    if rng.random() < .3:
        args.append('access = ' + rng.choice(['ro', 'wo', 'rw', 'na', 'RO', expr(rng)]))
    if rng.random() < .15:
        args.append('ignore = ' + rng.choice(['true', 'false', expr(rng)]))
    s = ', '.join(args)
    if rng.random() < .35:
        s = mut_text(rng, s)
    return '#[bits(%s)]' % s


def rand_item(rng):
    """A bitfield made of fragments, most of them invalid."""
    args = [rng.choice(TYPES) if rng.random() < .4 else rng.choice(['u8', 'u16', 'u32', 'u128', '[u8; 2]', '[u8; 17]'])]
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
        k = rng.choice(decls.BOOL_KEYS + ['order', 'from_endian', 'into_endian', 'write_endian', 'bogus'])
        v = rng.choice(['true', 'false'] + (['lsb', 'msb', 'big', 'little'] if k not in decls.BOOL_KEYS else [])) if rng.random() < .7 else expr(rng)
        args.append('%s = %s' % (k, v))
    a = ', '.join(args)
    if rng.random() < .25:
        a = mut_text(rng, a)
    fs = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
        at = ' '.join(bits_attr(rng) for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2]))) if rng.random() < .85 else rng.choice(['#[doc = "x"]', '/** x */', '#[cfg(all())]', '#[allow(unused)] #[bits(3)]'])
        fs.append('%s %s%s: %s' % (at, rng.choice(VIS), rng.choice(NAMES), rng.choice(TYPES)))
    gen = rng.choice([''] * 8 + ['<T>', "<'a>", '<const N: usize>', '<>'])
    body = rng.choice([' { %s }' % ', '.join(fs)] * 9 + ['(%s);' % ', '.join(rng.choice(TYPES) for _ in fs), ';'])
    if rng.random() < .25 and fs:
        i = rng.randrange(len(fs))
        fs[i] = rng.choice(ATTRS) + ' ' + fs[i]
    if rng.random() < .1:
        a += ')]\n' + rng.choice(ATTRS) + rng.choice(['\n', rng.choice(ATTRS)]) + '#[allow(unused'
    return '#[bitfield(%s)]\n%s%sstruct S%s%s' % (a, rng.choice(['', '#[derive(Debug)] ', '#[repr(u8)] ', '#[bits(3)] ']), rng.choice(VIS), gen, body)


def odd_item(rng):
    """The bits add up, and the rest is odd."""
    total = rng.choice([8, 16, 24, 32, 64, 128, 136])
    parts = sc.partition(rng, total, rng.choice([1, 2, 3, 4]))
    fs = []
    for n in parts:
        ty = rng.choice(TYPES) if rng.random() < .25 else rng.choice(['u', 'i', 'u']) + str(rng.choice([w for w in sc.UINTS if w >= n] or [128]))
        if rng.random() < .15:
            ty = rng.choice(['Cu8', 'bool', '[u8; 17]', 'types::Cu128', 'In8', 'Missing'])
        args = [str(n)]
        if rng.random() < .5:
            args.append('default = ' + expr(rng))
        if rng.random() < .3:
            args.append('access = ' + rng.choice(['ro', 'wo', 'rw', 'na']))
        fs.append('#[bits(%s)] %s%s: %s' % (', '.join(args), rng.choice(VIS[:5]), rng.choice(NAMES), ty))
    if rng.random() < .3:
        i = rng.randrange(len(fs))
        fs[i] = rng.choice([rng.choice(ATTRS) + ' ' + fs[i], fs[i].replace('] ', '] ' + rng.choice(ATTRS) + ' ', 1)])
    if rng.random() < .2:
        fs.insert(rng.randrange(len(fs) + 1), '#[bits(ignore = true)] %s: %s' % (rng.choice(NAMES), rng.choice(TYPES)))
    back = 'u%d' % total if total in sc.UINTS and rng.random() < .6 else '[u8; %d]' % (total // 8)
    args = [back] + ['%s = %s' % (rng.choice(decls.BOOL_KEYS), rng.choice(['true', 'false'])) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    return '#[bitfield(%s%s)]\n%sstruct S { %s }' % (', '.join(args), rng.choice(['', '', ', order = msb', ', from_endian = little']), rng.choice(VIS[:5]), ', '.join(fs))


def rand_flag(rng):
    args = [rng.choice(TYPES) if rng.random() < .35 else rng.choice(['u8', 'u16', 'u32', 'u64', 'u128'])]
    for _ in range(rng.choice([0, 0, 1, 2])):
        args.append('%s = %s' % (rng.choice(['from_endian', 'into_endian', 'copy', 'bogus']), rng.choice(['true', 'false', 'big', 'little', expr(rng)])))
    a = ', '.join(args)
    if rng.random() < .3:
        a = mut_text(rng, a)
    vs = []
    for i in range(rng.choice([0, 1, 2, 3, 5])):
        vs.append((rng.choice(ATTRS) + ' ' if rng.random() < .2 else '') + '%s %s%s%s' % (rng.choice(['', '', '#[base]', '#[default]', '#[base] #[default]', '#[base(1)]', '#[base = 1]', '#[doc = "x"]']), rng.choice(['A', 'B', 'C', 'r#D', 'V%d' % i]),
                                 rng.choice([''] * 8 + ['(u8)', '{ x: u8 }', '()']), rng.choice(['', ' = ' + expr(rng), ' = ' + rng.choice(NUMS), ' = %d' % i])))
    if rng.random() < .2:
        a += ')]\n' + rng.choice(ATTRS) + '\n#[allow(unused'
    return '#[bitflag(%s)]\n%s%senum S%s { %s }' % (a, rng.choice(['', '#[derive(Default)] ']), rng.choice(VIS), rng.choice([''] * 8 + ['<T>', "<'a>"]), ', '.join(vs))


ITEMS = ['pub enum S { A, B }', 'pub struct S(u8);', 'pub struct S;', 'pub fn s() {}', 'pub mod s {}', 'pub const S: u8 = 0;', 'pub trait S {}', 'impl Q {}', 'pub type S = u8;', 'use core::mem;', 'pub static S: u8 = 0;', 'union S { a: u8 }',
         'extern "C" {}', 'macro_rules! s { () => {} }', 'pub struct S {}', 'pub enum S {}', 'struct S where u8: Copy { a: u8 }', 'struct S<T>(T);', 'enum S { A = 1, #[base] B }', 'enum S { #[base] A = 1 }', 'struct S { a: u8 }']


def make(rng, n, tag):
    out = []

    def add(kind, text, pre='', name='S'):
        c = Case('%s%d' % (tag, len(out)), text, None, kind, pre)
        c.name = name
        out.append(c)
    for i in range(n):
        k = i % 10
        if k < 1:
            add('fragments', rand_item(rng))
        elif k < 3:
            add('odd parts', odd_item(rng))
        elif k == 3:
            add('bitflag fragments', rand_flag(rng))
        elif k == 4:
            head = mut_text(rng, rng.choice(['u8', 'u16, order = msb', '[u8; 2], new = true', 'u32, from_endian = little', 'u8, copy = false']), rng.choice([0, 1, 2]) or None)
            add('other items', '#[%s(%s)]\n%s' % (rng.choice(['bitfield', 'bitflag']), head, rng.choice(ITEMS)))
        elif k == 5:
            ty = rng.choice(['u8', 'i8', 'u16', 'i32', 'u128', 'i128', 'bool', 'Cu8', '[u8; 2]'])
            add('defaults', '#[bitfield(u128)]\nstruct S { #[bits(%d, default = %s%s)] a: %s, #[bits(%d)] b: u128 }' % (
                (n0 := rng.choice([1, 2, 4, 7, 8])), expr(rng), rng.choice(['', ', access = ro']), ty, 128 - n0))
        else:
            s = sc.rand_schema(rng, 'z%d' % i, rng.choice(sc.PICK), customs=.15, defaults=.4)
            d = decls.of_schema(s)
            if k == 6:
                a = mut_text(rng, ', '.join([d.backing] + d.args))
                add('bitfield arguments', '#[bitfield(%s)]' % a + d.text().split('\n', 1)[1].join(['\n', '']), s.pre)
            elif k == 7:
                i2 = rng.randrange(len(d.fields))
                inner = d.fields[i2][0][7:-2] if d.fields[i2][0] else '8'
                d.fields[i2][0] = '#[bits(%s)]' % mut_text(rng, inner)
                add('bits arguments', d.text(), s.pre)
            elif k == 8:
                i2 = rng.randrange(len(d.fields))
                d.fields[i2][rng.choice([1, 2])] = rng.choice(TYPES)
                if ': ' not in d.fields[i2][1]:
                    d.fields[i2][1] = rng.choice(VIS) + rng.choice(NAMES)
                add('field types and names', d.text(), s.pre)
            else:
                cs = decls.break_rules(rng, s, 'w')
                c = rng.choice(cs)
                add('broken rule', c.text, c.pre)
    return out


def internal_needle(rig):
    """What the macro says when it fails internally."""
    o = rig.compile('calib', decls.HEAD + 'use bitfields::*;\n#[bitfield(u8, force_panic = true)] struct S { a: u8 }\n')
    m = o.messages()
    if o.ok or not m:
        return None, m
    n = m[0].split('http')[0].split(':')[0].strip()
    return (n if len(n) > 12 and 'Unknown argument' not in n else None), m


# The errors of the macros go through this core, which marks them.
MARKED = decls.HEAD + 'extern crate marked as core;\n'
MARKED_RS = """#![no_std]
pub use core::*;
pub mod real { pub use ::core::{compile_error, concat}; }
#[macro_export]
macro_rules! compile_error { ($m:literal $(,)?) => { $crate::real::compile_error!($crate::real::concat!("MARK ", $m)); } }
"""


def build_marked(rig):
    src = os.path.join(rig.work, 'marked.rs')
    with open(src, 'w') as f:
        f.write(MARKED_RS)
    out = os.path.join(rig.work, 'libmarked.rlib')
    subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'marked', src, '-o', out], env=harness.env(rig.env), check=True)
    return out


def run(r):
    r.rule = RULE
    r.assumptions = ['inputs nest at most a few levels deep; the recursion limits of the parser library are not tested']
    rig = Rig('rig22')
    needle, msg = internal_needle(rig)
    needles = ['panicked', 'major unexpected error'] + ([needle] if needle else [])
    r.extra['internal_error_message'] = needle or 'not calibrated: ' + str(msg)[:200]
    marked = build_marked(rig)
    total = 0
    for batch in range(12 if r.thorough else 1):
        rng = random.Random('C22/%s/%s' % (r.seed, batch))
        cases = make(rng, 9000 if r.thorough else 5200, 'z%d_' % batch)
        if batch == 0:
            cases += fixed()
        for c in cases:
            c.accept = None
        problems = decls.observe(rig, cases, 'z%d' % batch, 40)
        if problems:
            r.violation('types', 'ordinary bitflags and bitfields no longer compile:\n' + problems[0][:1500])
            return
        by = r.extra.setdefault('by_kind', {})
        for c in cases:
            k = by.setdefault(c.rule, {'accepted': 0, 'rejected': 0})
            if c.outcome is None:
                r.violation('crash/' + c.text[:200], 'the compiler did not finish on:\n%s\n%s' % (c.body(), c.messages[0][:800]), {'input': c.body()})
                continue
            k['accepted' if c.outcome else 'rejected'] += 1
            bad = [m for m in c.messages if any(x in m for x in needles) and 'force_panic' not in c.body()]
            if bad:
                r.violation('internal/' + bad[0][-60:], 'the macro reports an internal error instead of a diagnostic about:\n%s\n%s' % (c.body(), bad[0][:600]), {'input': c.body(), 'message': bad[0]})
        # Rejected items must not leave code behind: a second item of the same name
        # then conflicts.
        rej = [c for c in cases if c.outcome is False and len(re.findall(r'\b(?:struct|enum|union|trait|mod|fn|type|const|static) S\b', c.text)) == 1 and len(re.findall(r'#\[bitf', c.text)) == 1]
        rej = rej[:len(rej) if r.thorough else 1500]
        twins = [Case(c.id + 't', c.text + '\npub struct S;', None, c.rule, c.pre) for c in rej]
        decls.observe(rig, twins, 't%d' % batch, 40, ['--extern', 'marked=' + marked], MARKED)
        n = 0
        for c in twins:
            mac = [m for m in c.messages if m.startswith('MARK ')]
            n += bool(mac)
            if mac and any('defined multiple times' in m and '`S`' in m for m in c.messages):
                r.violation('partial/' + c.text[:120], 'the macro rejects the item and generates code for it all the same:\n%s\n%s' % (c.body(), '\n'.join(c.messages[:3])[:600]), {'input': c.body()})
        r.count('rejected_by_the_macro', n)
        r.count('rejected_inputs_checked_for_leftover_code', len(twins))
        total += len(cases)
        r.observe(len(cases) + len(twins), len({c.body() for c in cases}))
        step = max(1, len(cases) // 12)
        r.samples += [{'kind': c.rule, 'input': c.text[:300], 'outcome': 'accepted' if c.outcome else 'rejected', 'message': (c.messages or [''])[0][:160]} for c in cases[::step]][:12]
        if r.violations:
            return


def fixed():
    """Inputs at known edges of the parsers."""
    out = []
    deep = '(' * 40 + '1' + ')' * 40
    for i, a in enumerate(ATTRS):
        for j, t in enumerate(['#[bitfield(u8)] %s struct S { a: u8 }', '#[bitfield(u8)] struct S { %s a: u8 }', '#[bitfield(u8)] struct S { #[bits(8)] %s a: u8 }', '#[bitfield(u16)] struct S { a: u8, %s #[bits(8)] _b: u8 }',
                               '#[bitfield(u8)] struct S { a: u8, #[bits(ignore = true)] %s b: u8 }', '#[bitflag(u8)] %s enum S { #[base] A = 0 }', '#[bitflag(u8)] enum S { %s #[base] A = 0, B = 1 }', '#[bitflag(u8)] enum S { #[base] A = 0, %s B = 1 }']):
            out.append(Case('a%d_%d' % (i, j), t % a, None, 'attributes'))
    for i, t in enumerate([
            '#[bitfield(u32)] struct S { #[bits(200, default = 1)] a: u32 }', '#[bitfield(u128)] struct S { #[bits(129, default = 1)] a: u128 }', '#[bitfield(u128)] struct S { #[bits(4294967295, default = -1)] a: i128 }',
            '#[bitfield([u8; 4294967295])] struct S { a: [u8; 4294967295] }', '#[bitfield(u8)] struct S { a: [u8; 4294967295] }', '#[bitfield(u8)] struct S { a: [u8; 536870912] }', '#[bitfield(u8)] struct S { a: [u8; 400000000], b: [u8; 400000000] }',
            '#[bitfield(u8, order = msb)] struct S { a: [u8; 400000000], b: [u8; 400000000] }', '#[bitfield(u8)] struct S { a: [u8; 268435456], b: [u8; 268435456], c: u8 }', '#[bitfield([u8; 536870911])] struct S { a: u8 }',
            '#[bitfield(u8)] struct S { #[bits(default = _0b)] a: u8 }', '#[bitfield(u8)] struct S { #[bits(default = _0x)] a: u8 }', '#[bitfield(u8)] struct S { #[bits(default = _0o)] a: u8 }', '#[bitfield(u8)] struct S { #[bits(default = 0x%s)] a: u8 }' % ('f' * 40),
            '#[bitfield(u8)] struct S { #[bits(default = -0b%s)] a: i8 }' % ('1' * 130), '#[bitfield(u8)] struct S { #[bits(default = 0o%s)] a: u8 }' % ('7' * 50), '#[bitflag(u8)] enum S { #[base] A = 0x%s }' % ('f' * 40), '#[bitflag(bool)] enum S { #[base] A = 1 }',
            '#[bitflag([u8; 2])] enum S { #[base] A = 1 }', '#[bitfield(bool)] struct S { a: bool }', '#[bitfield(u8)] struct S { #[bits(default = %s)] a: u8 }' % deep, '#[bitfield(u8)] struct S {}', '#[bitflag(u8)] enum S {}', '#[bitfield] struct S { a: u8 }',
            '#[bitflag] enum S { #[base] A = 0 }', '#[bitfield = 8] struct S { a: u8 }', '#[bitfield(u8)] struct S { #[bits(8, default = -)] a: i8 }', '#[bitfield(u8)] struct S { #[bits(8, default = )] a: i8 }', '#[bitfield(u8)] struct S { #[bits(8 8)] a: i8 }',
            'macro_rules! m { ($e:expr) => { #[bitfield(u8)] struct S { #[bits(default = $e)] a: u8 } } } m!(1 + 1);', 'macro_rules! m { ($($t:tt)*) => { #[bitfield($($t)*)] struct S { a: u8 } } } m!(u8, new = );',
            'macro_rules! m { () => { #[bitfield(u8)] struct S { #[bits(default = $crate::types::CU8_ONE.0)] a: u8 } } } m!();', 'macro_rules! m { () => { #[bitflag(u8)] enum S { #[base] A = $crate::types::CU8_ONE.0 } } } m!();',
            '#[bitfield(u8)] #[bitfield(u8)] struct S { a: u8 }', '#[bitflag(u8)] #[bitflag(u8)] enum S { #[base] A = 0 }', '#[bitfield(u8)] #[bitflag(u8)] enum S { #[base] A = 0 }',
            '#[bitfield(u8)] struct S { #[bits(8, ignore = true)] a: u8, b: u8 }', '#[bitfield(u8)] struct S { #[bits(ignore = true, access = ro)] a: u8, b: u8 }', '#[bitfield(u8)] struct S { #[bits(ignore = true, default = 1)] a: u8, b: u8 }',
            '#[bitfield(u8)] struct S { #[bits(ignore = true)] _a: u8, b: u8 }', '#[bitfield(u8)] struct S { #[bits(ignore = true)] a: u8 }']):
        c = Case('k%d' % i, t, None, 'fixed')
        out.append(c)
    return out
