"""Random and hand-picked bitfield declarations, and the harness code that
drives the code generated for them."""
import itertools
import random
import zlib

UINTS = [8, 16, 32, 64, 128]

# Custom types of the harness: (integer width, allowed field bits, norm function,
# defaults as (expression, raw bits)).
CUSTOM = {
    'Cu8': (8, range(1, 9), 'n_id', [('Cu8::from_bits(1)', 1), ('Cu8::ONE', 1), ('CU8_ONE', 1)]),
    'Cu16': (16, range(1, 17), 'n_id', [('Cu16::from_bits(1)', 1), ('types::Cu16(1)', 1)]),
    'Cu32': (32, range(1, 33), 'n_id', [('Cu32::from_bits(1)', 1)]),
    'Cu64': (64, range(1, 65), 'n_id', [('Cu64::from_bits(1)', 1)]),
    'Cu128': (128, range(1, 129), 'n_id', [('Cu128::from_bits(1)', 1)]),
    'Xor8': (8, range(1, 9), 'n_id', [('Xor8::from_bits(1)', 1)]),
    'Sat4': (8, [4], 'n_sat4', [('Sat4::from_bits(9)', 9), ('Sat4::from_bits(3)', 3)]),
    'G16': (16, range(1, 17), 'n_id', [('G16::from_bits(1)', 1), ('types::Gcu::<u16>(1)', 1)]),
    'Ci8': (8, [8], 'n_id', [('Ci8(-2)', 0xFE), ('Ci8::from_bits(i8::MIN)', 0x80)]),
    'Ci16': (16, [16], 'n_id', [('Ci16(-2)', 0xFFFE), ('Ci16::from_bits(1)', 1)]),
    'Ci64': (64, [64], 'n_id', [('Ci64(-2)', (1 << 64) - 2)]),
    'Flag2': (8, [2], 'n_flag2', [('Flag2::C', 2), ('Flag2::D', 3)]),
    'Flag3': (8, [3], 'n_flag3', [('Flag3::C', 4), ('Flag3::B', 2), ('Flag3::from_bits(4)', 4)]),
    'Flag16': (16, [16], 'n_flag16', [('Flag16::B', 0xFF00)]),
    'In8': (8, [8], 'n_id', [('In8::from_bits(0xA7)', 0xA7), ('In8::new()', 0x0B)]),
    'In16': (16, [16], 'n_id', [('In16::new()', 0xC05A)]),
    'In32': (32, [32], 'n_id', [('In32::new()', 0x0000_8001)]),
}

# Custom types whose bits are of a signed integer type.
CSIGNED = ('Ci8', 'Ci16', 'Ci64')

# Ways to name a type in a field.
SPELL = {'G16': ['Gcu<u16>', '<u16 as types::Wrapped>::Type', 'types::Gcu<u16>', 'G16']}

TYPES_RS = r'''
//! Custom field types used by the harness.
#![allow(dead_code)]
use bitfields::{bitfield, bitflag};

macro_rules! newtype { ($($n:ident $t:ty),*) => { $(
    #[derive(Copy, Clone, PartialEq, Debug)]
    pub struct $n(pub $t);
    impl $n {
        pub const ONE: Self = Self(1);
        pub const fn from_bits(bits: $t) -> Self { Self(bits) }
        pub const fn into_bits(self) -> $t { self.0 }
    }
)* } }
newtype!(Cu8 u8, Cu16 u16, Cu32 u32, Cu64 u64, Cu128 u128);
newtype!(Ci8 i8, Ci16 i16, Ci64 i64);
pub const CU8_ONE: Cu8 = Cu8(1);

pub struct Bx { pub x: bool }

/// A generic type, also named through a trait.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Gcu<T>(pub T);
impl Gcu<u16> {
    pub const fn from_bits(bits: u16) -> Self { Self(bits) }
    pub const fn into_bits(self) -> u16 { self.0 }
}
impl Gcu<u8> {
    pub const fn from_bits(bits: u8) -> Self { Self(!bits) }
    pub const fn into_bits(self) -> u8 { !self.0 }
}
pub type G16 = Gcu<u16>;
pub trait Wrapped { type Type; }
impl Wrapped for u16 { type Type = G16; }
impl Wrapped for u8 { type Type = Gcu<u8>; }

/// Keeps something else in memory than the bits it stands for.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Xor8(u8);
impl Xor8 {
    pub const fn from_bits(bits: u8) -> Self { Self(bits ^ 0x5A) }
    pub const fn into_bits(self) -> u8 { self.0 ^ 0x5A }
}

/// Saturates at 9.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Sat4(u8);
impl Sat4 {
    pub const fn from_bits(bits: u8) -> Self { if bits > 9 { Self(9) } else { Self(bits) } }
    pub const fn into_bits(self) -> u8 { self.0 }
}

#[bitflag(u8)]
#[derive(Debug, PartialEq)]
pub enum Flag2 {
    #[base]
    A = 0,
    B = 1,
    C = 2,
    D = 3,
}

#[bitflag(u8)]
#[derive(Debug, PartialEq)]
pub enum Flag3 {
    #[base]
    A = 1,
    B = 2,
    C = 4,
}

#[bitflag(u16)]
#[derive(Debug, PartialEq)]
pub enum Flag16 {
    A = 0x1234,
    B = 0xFF00,
    #[base]
    C = 0xBEEF,
}

#[bitfield(u8)]
pub struct In8 {
    #[bits(3, default = 3)]
    pub a: u8,
    #[bits(5, default = 1)]
    pub b: i8,
}

#[bitfield(u16, order = msb)]
pub struct In16 {
    #[bits(4, default = 0xC)]
    pub a: u8,
    pub b: bool,
    #[bits(3)]
    pub c: i8,
    #[bits(default = 0x5A)]
    pub d: u8,
}

#[bitfield(u32, from_endian = little, into_endian = little)]
pub struct In32 {
    #[bits(1, default = true)]
    pub a: bool,
    #[bits(14)]
    pub b: u16,
    #[bits(17, default = 1)]
    pub c: u32,
}

pub fn n_id(x: u128) -> u128 { x }
pub fn n_sat4(x: u128) -> u128 { x.min(9) }
pub fn n_flag2(x: u128) -> u128 { if x < 4 { x } else { 0 } }
pub fn n_flag3(x: u128) -> u128 { if matches!(x, 1 | 2 | 4) { x } else { 1 } }
pub fn n_flag16(x: u128) -> u128 { if matches!(x, 0x1234 | 0xFF00 | 0xBEEF) { x } else { 0xBEEF } }

/// Ignored field types.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Extra { pub x: u32, pub y: u16 }
impl Default for Extra { fn default() -> Self { Extra { x: 0xDEAD, y: 7 } } }
'''
# In32 swaps bytes on both sides: as seen by the outer field its default is the
# swapped value of a=1, c=1 (0x00008001).
CUSTOM['In32'][3][0] = ('In32::new()', 0x01800000)

# (type, default as u64, read as u64, write from u64)
IGNORED = [
    ('u64', 0, '{p}', '{p} = v'),
    ('u8', 0, '{p} as u64', '{p} = v as u8'),
    ('Extra', 0xDEAD << 16 | 7, '({p}.x as u64) << 16 | {p}.y as u64', '{p} = Extra {{ x: (v >> 16) as u32, y: v as u16 }}'),
    ('[u8; 2]', 0, 'u16::from_le_bytes({p}) as u64', '{p} = (v as u16).to_le_bytes()'),
    ('(u8, bool)', 0, '({p}.0 as u64) << 1 | {p}.1 as u64', '{p} = ((v >> 1) as u8, v & 1 == 1)'),
    ('Option<u32>', 1 << 40, '{p}.map_or(1 << 40, |x| x as u64)', '{p} = if v >> 40 & 1 == 1 {{ None }} else {{ Some(v as u32) }}'),
]
IGN_NORM = {
    'u64': 'v', 'u8': 'v & 0xFF', 'Extra': 'v & 0xFFFF_FFFF_FFFF', '[u8; 2]': 'v & 0xFFFF',
    '(u8, bool)': 'v & 0x1FF', 'Option<u32>': 'if v >> 40 & 1 == 1 { 1 << 40 } else { v & 0xFFFF_FFFF }',
}


def tywidth(ty):
    if ty == 'bool':
        return 1
    if ty.startswith('['):
        return 8 * int(ty[5:-1])
    if ty in CUSTOM:
        return CUSTOM[ty][0]
    return int(ty[1:])


def is_arr(ty):
    return ty.startswith('[')


def signed(ty):
    return ty not in CUSTOM and not is_arr(ty) and ty[0] == 'i'


class Field:
    def __init__(self, name, ty, bits=None, attr=None, acc=None, default=None, vis='pub'):
        self.name = name
        self.ty = ty
        self.bits = tywidth(ty) if bits is None else bits
        # Whether the bits are spelled out.
        self.attr = (bits is not None) if attr is None else attr
        self.acc = acc
        self.default = default  # (expression, raw bits)
        self.vis = vis

    @property
    def reserved(self):
        return self.name.startswith('_')

    @property
    def plain(self):
        return self.name[2:] if self.name.startswith('r#') else self.name

    @property
    def has_setter(self):
        return not self.reserved and self.acc in (None, 'rw', 'wo')

    @property
    def has_getter(self):
        return not self.reserved and self.acc in (None, 'rw', 'ro')

    @property
    def has_attr(self):
        return self.attr or self.acc is not None or self.default is not None

    def copy(self):
        return Field(self.name, self.ty, self.bits, self.attr, self.acc, self.default, self.vis)

    def decl(self):
        args = []
        if self.attr:
            args.append(str(self.bits))
        if self.acc:
            args.append('access = ' + self.acc)
        if self.default:
            args.append('default = ' + self.default[0])
        a = '#[bits(%s)] ' % ', '.join(args) if args else ''
        ty = SPELL[self.ty][len(self.name) % len(SPELL[self.ty])] if self.ty in SPELL else self.ty
        if ty[1:].isdigit() and self.name in ('mode', 'hi', 'r#fn', 'offset'):
            ty = ('::core::primitive::', 'core::primitive::', '::core::primitive::')[self.bits % 3] + ty
        return '%s%s %s: %s' % (a, self.vis, self.name, ty)
    


class Schema:
    """One bitfield declaration."""

    def __init__(self, sid, backing, fields, args=None, ignored=None, group='', attrs='', pre=''):
        self.id = sid
        self.name = 'S'
        self.backing = backing
        self.fields = fields
        self.args = dict(args or {})
        self.explicit = None     # the arguments spelled out, if features supply the others
        self.ignored = ignored or []  # [(position, IGNORED entry)]
        self.group = group
        self.attrs = attrs
        self.pre = pre
        self.nbits = tywidth(backing)
        assert sum(f.bits for f in fields) == self.nbits, (sid, backing, [(f.ty, f.bits) for f in fields])

    @property
    def arr(self):
        return is_arr(self.backing)

    def arg(self, k, default=True):
        return self.args.get(k, default)

    @property
    def heap(self):
        return self.arr and self.arg('array_heap', False)

    def ops(self, group):
        on = self.arg('bit_ops')
        if group in self.args:
            return self.args[group]
        return on

    def offsets(self):
        out = []
        off = 0
        for f in self.fields:
            out.append(self.nbits - off - f.bits if self.args.get('order') == 'msb' else off)
            off += f.bits
        return out

    def decl(self):
        a = [self.backing]
        if zlib.crc32(self.id.encode()) % 12 == 0:
            a = [self.backing.replace('u', 'core::primitive::u')]
        for k, v in (self.args if self.explicit is None else self.explicit).items():
            a.append('%s = %s' % (k, {True: 'true', False: 'false'}.get(v, v)))
        lines = []
        ign = {}
        for n, (pos, e) in enumerate(self.ignored):
            ign.setdefault(pos, []).append((n, e))
        for i, f in enumerate(self.fields + [None]):
            for n, e in ign.get(i, []):
                lines.append('#[bits(ignore = true)] pub ign%d: %s' % (n, e[0]))
            if f:
                lines.append(f.decl())
        return '#[bitfield(%s)]\n%spub struct %s {\n    %s,\n}' % (', '.join(a), self.attrs, self.name, ',\n    '.join(lines))

    # ---- harness code -------------------------------------------------

    def has_flags(self):
        h = []
        if self.arg('new'):
            h.append('NEW')
        if self.arg('from_into_bits'):
            h.append('FROM_INTO')
        if self.arg('from_traits'):
            h.append('TRAITS')
            if not (self.heap and not self.arg('copy')):
                h.append('INTO_TRAIT')
        if self.arg('default'):
            h.append('DEFAULT')
        if self.arg('debug'):
            h.append('DEBUG')
        if self.arg('copy'):
            h.append('COPY')
        for g, n in (('write_bit_ops', 'WRITE'), ('clear_bit_ops', 'CLEAR'), ('set_get_bit_ops', 'SETGET'), ('invert_bit_ops', 'INVERT')):
            if self.ops(g):
                h.append(n)
        if self.arg('builder'):
            h.append('BUILDER')
        return h

    def rust(self):
        o = []

        def w(line, tag):
            for part in line.split('\n'):
                o.append('%s //@%s' % (part, tag))
        H = set(self.has_flags())
        u = 'bytes' if self.arr else 'bits'
        B = self.backing
        dec = 'V(&op.v).arr::<%d>()' % (self.nbits // 8) if self.arr else 'V(&op.v).%s()' % B
        w('#![allow(warnings)]', 'x')
        w('use crate::types::{self, *};', 'x')
        w('use monitor::*;', 'x')
        w('use bitfields::bitfield;', 'x')
        if self.pre:
            w(self.pre, 'x')
        w(self.decl(), 'decl')
        w('static DESC: Desc = Desc { id: "%s", name: "%s", decl: r##"%s"##, arr: %s, nbits: %d,' % (
            self.id, self.name, self.decl().replace('\n', ' '), str(self.arr).lower(), self.nbits), 'x')
        w('fields: &[', 'x')
        for f, off in zip(self.fields, self.offsets()):
            if f.ty in CUSTOM:
                ty = 'Ty::Custom(%d, %s)' % (CUSTOM[f.ty][0], CUSTOM[f.ty][2])
            elif f.ty == 'bool':
                ty = 'Ty::Bool'
            elif is_arr(f.ty):
                ty = 'Ty::Arr(%d)' % (tywidth(f.ty) // 8)
            else:
                ty = 'Ty::%s(%d)' % (f.ty[0].upper(), tywidth(f.ty))
            acc = 'Acc::' + (f.acc or 'rw').capitalize()
            if f.default:
                nb = (f.bits + 7) // 8
                d = 'Some(&%s)' % list(f.default[1].to_bytes(nb, 'little'))
            else:
                d = 'None'
            w('Fd { name: "%s", off: %d, bits: %d, ty: %s, acc: %s, reserved: %s, attr: %s, def: %s },' % (
                f.plain, off, f.bits, ty, acc, str(f.reserved).lower(), str(f.has_attr).lower(), d), 'x')
        le = lambda k: str(self.args.get(k) == 'little').lower()
        w('], from_le: %s, into_le: %s, write_le: %s, heap: %s, has: %s, ignored: &[%s], group: "%s" };' % (
            le('from_endian'), le('into_endian'), le('write_endian'), str(self.heap).lower(),
            ' | '.join('has::' + h for h in self.has_flags()) or '0',
            ', '.join('(%d, |v| %s)' % (e[1], IGN_NORM[e[0]]) for _, e in self.ignored), self.group), 'x')
        w('pub static ENTRY: Entry = Entry { desc: &DESC, make: || Box::new(Sub { s: None, %s}) };' % ('b: None ' if 'BUILDER' in H else ''), 'x')
        w('struct Sub { s: Option<S>, %s}' % ('b: Option<SBuilder> ' if 'BUILDER' in H else ''), 'x')
        w('impl Subject for Sub { fn exec(&mut self, op: &Op, ret: &mut Ret) { match op.k {', 'x')
        T = 'self.s.as_mut().unwrap()'
        R = 'self.s.as_ref().unwrap()'
        # By-value use of the bitfield.
        if 'COPY' in H and not self.heap:
            OWN = '*' + R
        elif 'COPY' in H:
            OWN = R + '.clone()'
        else:
            OWN = 'unsafe { core::ptr::read(%s) }' % R

        def make(e, tag):
            w('{ let x = callv!(ret, %s); self.s = Some(x); ret.put(()); }' % e, tag)
        if 'NEW' in H:
            w('K::New =>', 'New'); make('S::new()', 'New')
            w('K::NewWd =>', 'NewWd'); make('S::new_without_defaults()', 'NewWd')
        if 'DEFAULT' in H:
            w('K::Default =>', 'Default'); make('<S as Default>::default()', 'Default')
        if 'TRAITS' in H:
            w('K::FromTrait =>', 'FromTrait'); make('<S as From<%s>>::from(%s)' % (B, dec), 'FromTrait')
            if 'INTO_TRAIT' in H:
                w('K::IntoTrait => { let own = %s; call!(ret, <%s as From<S>>::from(own)); }' % (OWN, B), 'IntoTrait')
        es = ['', 'le_', 'be_']
        if 'FROM_INTO' in H:
            w('K::From => match (op.e, op.d) {', 'From')
            for e in range(3):
                for d in (0, 1):
                    w('(%d, %s) =>' % (e, 'true' if d else 'false'), 'From')
                    make('S::from_%s%s%s(%s)' % (es[e], u, '_with_defaults' if d else '', dec), 'From')
            w('_ => {} },', 'From')
            w('K::Into => match op.e {', 'Into')
            for e in range(3):
                if self.arr:
                    w('%d => call!(ret, %s.into_%s%s()),' % (e, R, es[e], u), 'Into')
                else:
                    w('%d => { let own = %s; call!(ret, own.into_%s%s()) }' % (e, OWN, es[e], u), 'Into')
            w('_ => {} },', 'Into')
            if self.arr:
                w('K::FromSlice => match (op.e, op.d) {', 'FromSlice')
                for e in range(3):
                    for d in (0, 1):
                        w('(%d, %s) =>' % (e, 'true' if d else 'false'), 'FromSlice')
                        make('S::from_%sslice%s(&op.v)' % (es[e], '_with_defaults' if d else ''), 'FromSlice')
                w('_ => {} },', 'FromSlice')
                w('K::CFromSlice => { let r = match (op.e, op.d) {', 'CFromSlice')
                for e in range(3):
                    for d in (0, 1):
                        w('(%d, %s) => callv!(ret, S::checked_from_%sslice%s(&op.v)),' % (e, 'true' if d else 'false', es[e], '_with_defaults' if d else ''), 'CFromSlice')
                w('_ => return }; match r { Ok(x) => { self.s = Some(x); ret.out = Out::Ok(Vec::new()); } Err(e) => { note(e); ret.out = Out::Err(Vec::new()) } } }', 'CFromSlice')
                w('K::IntoSlice => { let mut buf = vec![0xA5u8; op.len as usize]; match op.e {', 'IntoSlice')
                for e in range(3):
                    w('%d => callv!(ret, %s.into_%sslice(&mut buf)),' % (e, R, es[e]), 'IntoSlice')
                w('_ => return }; ret.out = Out::Val(buf); }', 'IntoSlice')
                w('K::CIntoSlice => { let mut buf = vec![0xA5u8; op.len as usize]; let ok = match op.e {', 'CIntoSlice')
                for e in range(3):
                    w('%d => callv!(ret, %s.checked_into_%sslice(&mut buf)).map_err(note).is_ok(),' % (e, R, es[e]), 'CIntoSlice')
                w('_ => return }; ret.out = if ok { Out::Ok(buf) } else { Out::Err(buf) }; }', 'CIntoSlice')

        def val(f):
            if f.ty in CUSTOM:
                return '%s::from_bits(V(&op.v).u%d()%s)' % (f.ty, CUSTOM[f.ty][0], ' as _' if f.ty in CSIGNED else '')
            if f.ty == 'bool':
                return 'V(&op.v).b()'
            if is_arr(f.ty):
                return 'V(&op.v).arr::<%d>()' % (tywidth(f.ty) // 8)
            return 'V(&op.v).%s()' % f.ty

        def post(f):
            return ('.into_bits() as u%d' % CUSTOM[f.ty][0] if f.ty in CSIGNED else '.into_bits()') if f.ty in CUSTOM else ''
        if 'BUILDER' in H:
            for k, fn in (('BNew', 'SBuilder::new()'), ('BNewWd', 'SBuilder::new_without_defaults()'), ('BDefault', '<SBuilder as Default>::default()')):
                w('K::%s => { let x = callv!(ret, %s); self.b = Some(x); ret.put(()); }' % (k, fn), k)
            w('K::BBuild => { if let Some(b) = self.b.take() { let x = callv!(ret, b.build()); self.s = Some(x); ret.put(()); } }', 'BBuild')
            w('K::BWith => { let Some(b) = self.b.take() else { return }; let x = match op.f {', 'BWith')
            for i, f in enumerate(self.fields):
                if f.has_getter or f.has_setter:
                    w('%d => { let v = %s; callv!(ret, b.with_%s(v)) }' % (i, val(f), f.plain), 'BWith')
            w('_ => return }; self.b = Some(x); ret.put(()); }', 'BWith')
            w('K::BCWith => { let Some(b) = self.b.take() else { return }; let x = match op.f {', 'BCWith')
            for i, f in enumerate(self.fields):
                if f.has_getter or f.has_setter:
                    w('%d => { let v = %s; callv!(ret, b.checked_with_%s(v)) }' % (i, val(f), f.plain), 'BCWith')
            w('_ => return }; match x { Ok(x) => { self.b = Some(x); ret.out = Out::Ok(Vec::new()); } Err(e) => { note(e); ret.out = Out::Err(Vec::new()) } } }', 'BCWith')

        def per_field(k, gen, cond):
            w('K::%s => match op.f {' % k, k)
            for i, f in enumerate(self.fields):
                if cond(f):
                    w('%d => %s,' % (i, gen(f)), k)
            w('_ => {} },', k)
        acc = lambda f: f.has_getter or f.has_setter
        per_field('ConstBits', lambda f: 'ret.put(S::%s_BITS)' % f.plain.upper(), acc)
        per_field('ConstOff', lambda f: 'ret.put(S::%s_OFFSET)' % f.plain.upper(), acc)
        per_field('Get', lambda f: 'call!(ret, %s.%s()%s)' % (R, f.name, post(f)), lambda f: f.has_getter)
        per_field('Set', lambda f: '{ let v = %s; call!(ret, %s.set_%s(v)) }' % (val(f), T, f.plain), lambda f: f.has_setter)
        per_field('CSet', lambda f: '{ let v = %s; call!(ret, %s.checked_set_%s(v)) }' % (val(f), T, f.plain), lambda f: f.has_setter)
        if 'CLEAR' in H:
            per_field('ClearF', lambda f: 'call!(ret, %s.clear_%s())' % (T, f.plain), lambda f: f.has_setter)
            per_field('ClearFDef', lambda f: 'call!(ret, %s.clear_%s_to_default())' % (T, f.plain), lambda f: f.has_setter and f.default)
            w('K::Clear => call!(ret, %s.clear_%s()),' % (T, u), 'Clear')
            w('K::ClearD => call!(ret, %s.clear_%s_with_defaults()),' % (T, u), 'ClearD')
        if 'INVERT' in H:
            per_field('InvertF', lambda f: 'call!(ret, %s.invert_%s())' % (T, f.plain), lambda f: f.has_setter)
            per_field('InvGet', lambda f: 'call!(ret, %s.%s_inverted()%s)' % (R, f.plain, post(f)), lambda f: f.has_getter)
            w('K::Invert => call!(ret, %s.invert_%s()),' % (T, u), 'Invert')
        if 'SETGET' in H:
            w('K::SetBit => call!(ret, %s.set_bit(op.off, op.bit)),' % T, 'SetBit')
            w('K::CSetBit => call!(ret, %s.checked_set_bit(op.off, op.bit)),' % T, 'CSetBit')
            w('K::GetBit => call!(ret, %s.get_bit(op.off)),' % R, 'GetBit')
            w('K::CGetBit => call!(ret, %s.checked_get_bit(op.off)),' % R, 'CGetBit')
            w('K::SetRange => call!(ret, %s.set_%s_range(op.off, op.len, %s)),' % (T, u, dec), 'SetRange')
            w('K::CSetRange => call!(ret, %s.checked_set_%s_range(op.off, op.len, %s)),' % (T, u, dec), 'CSetRange')
            w('K::GetRange => call!(ret, %s.get_%s_range(op.off, op.len)),' % (R, u), 'GetRange')
            w('K::CGetRange => call!(ret, %s.checked_get_%s_range(op.off, op.len)),' % (R, u), 'CGetRange')
        if 'WRITE' in H:
            w('K::Write => match (op.e, op.d) {', 'Write')
            for e in range(3):
                for d in (0, 1):
                    w('(%d, %s) => call!(ret, %s.write_%s%s%s(%s)),' % (e, 'true' if d else 'false', T, es[e], u, '_with_defaults' if d else '', dec), 'Write')
            w('_ => {} },', 'Write')
            w('K::WriteDefaults => call!(ret, %s.write_defaults()),' % T, 'WriteDefaults')
        if 'DEBUG' in H:
            w('K::Debug => match op.e {', 'Debug')
            for e, spec in ((0, '{:?}'), (1, '{:x?}'), (2, '{:X?}'), (3, '{:08?}'), (4, '{:+?}'), (5, '{:<5?}')):
                w('%s => call!(ret, format!("%s", %s)),' % (e or '0', spec, R), 'Debug')
            w('_ => {} },', 'Debug')
            w('K::DebugAlt => call!(ret, format!("{:#?}", %s)),' % R, 'DebugAlt')
        if self.ignored:
            w('K::IgnGet => match op.f {', 'IgnGet')
            for n, (_, e) in enumerate(self.ignored):
                w('%d => ret.put(%s),' % (n, e[2].format(p=R + '.ign%d' % n)), 'IgnGet')
            w('_ => {} },', 'IgnGet')
            w('K::IgnSet => { let v = V(&op.v).u64(); match op.f {', 'IgnSet')
            for n, (_, e) in enumerate(self.ignored):
                w('%d => { let v = %s; %s; }' % (n, IGN_NORM[e[0]], e[3].format(p=T + '.ign%d' % n)), 'IgnSet')
            w('_ => {} } ret.put(()); }', 'IgnSet')
        if 'COPY' in H:
            inv = 't.invert_%s();' % u if 'INVERT' in H else ''
            w('K::CopyIso => { let mut t = %s.clone(); %s let t = std::hint::black_box(t); drop(t); ret.put(()); }' % (R, inv), 'CopyIso')
        w('_ => {} } } }', 'x')
        return '\n'.join(o) + '\n'


# ---- generation ---------------------------------------------------------

def literal(rng, value, bits, ty, base=None, under=None, suffix=None):
    """A literal for `value` in one of Rust's notations."""
    neg = value < 0
    v = -value if neg else value
    # Base, digit separators and suffix independently of each other.
    base = rng.choice('dddhHbo') if base is None else base
    digits = {'d': '%d', 'h': '%x', 'H': '%X', 'o': '%o', 'b': '%s'}[base] % (bin(v)[2:] if base == 'b' else v)
    under = rng.random() < .25 if under is None else under
    if under:
        k = rng.choice([1, 2, 3, 4])
        digits = '_'.join(digits[i:i + k] for i in range(0, len(digits), k)) + rng.choice(['', '_'])
        if base != 'd' and rng.random() < .4:
            digits = '_' + digits
    suffix = rng.random() < .3 if suffix is None else suffix
    s = {'d': '', 'h': '0x', 'H': '0x', 'o': '0o', 'b': '0b'}[base] + digits
    if suffix:
        s += rng.choice(['', '_']) + ty
    return ('-' if neg else '') + s


def rand_value(rng, bits):
    k = rng.randrange(6)
    if k == 0:
        return (1 << bits) - 1
    if k == 1:
        return 1 << (bits - 1)
    if k == 2:
        return 1
    return rng.getrandbits(bits) or 1


def rand_default(rng, f, arr_backed, pre, idx):
    """(expression, raw) for the field, or None."""
    n = f.bits
    if f.ty in CUSTOM:
        opts = [o for o in CUSTOM[f.ty][3] if o[1] < 1 << n]
        if f.ty.startswith('Cu') or f.ty == 'Xor8':
            v = rand_value(rng, n)
            opts.append(('%s::from_bits(%s)' % (f.ty, hex(v)), v))
        if not opts:
            return None
        e, raw = rng.choice(opts)
        if rng.random() < .25:
            e = rng.choice(['*&%s', '{ %s }', '[%s][0]', 'if 2 > 1 { %s } else { %s }', '(%s, 1).0', 'match 3 { 3 => %s, _ => %s }']).replace('%s', e)
        return e, raw
    if f.ty == 'bool':
        return rng.choice([('true', 1), ('true', 1), ('false', 0), ('!false', 1), ('!{ true }', 0), ('1 > 0', 1), ('2 < 1 || false', 0), ('types::Bx { x: true }.x', 1), ('*&true', 1), ('if true { false } else { true }', 0)])
    raw = rand_value(rng, n)
    if is_arr(f.ty):
        nb = tywidth(f.ty) // 8
        if arr_backed:
            by = list(raw.to_bytes(nb, 'little'))
            if rng.random() < 0.5:
                e = '[' + ', '.join(str(b) if rng.random() < .5 else '0x%02X' % b for b in by) + ']'
                return (rng.choice(['%s', '%s', '%s', '*&%s', '{ %s }', 'if true { %s } else { [0; ' + str(nb) + '] }']) % e, raw)
            c = 'D%d' % idx
            pre.append('const %s: %s = %s;' % (c, f.ty, by))
            return (c, raw)
        if n > 128 or nb > 16:
            return None
        if raw & raw - 1 == 0 and rng.random() < .5:
            return ('1 << %d' % (raw.bit_length() - 1), raw)
        return (hex(raw), raw)
    w = tywidth(f.ty)
    value = raw
    if signed(f.ty):
        sv = raw - (1 << n) if raw >> (n - 1) else raw
        if raw >> (n - 1) and n < w and rng.random() < 0.4:
            value = raw
        else:
            value = sv
    if rng.random() < 0.2:
        c = 'D%d' % idx
        if rng.random() < 0.5:
            pre.append('const %s: %s = %d;' % (c, f.ty, value))
            return (c, raw)
        pre.append('const fn d%d() -> %s { %d }' % (idx, f.ty, value))
        return ('d%d()' % idx, raw)
    if value == -(1 << 127):
        return (str(value), raw)
    if rng.random() < 0.2:
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed(f.ty) else (0, (1 << w) - 1)
        if lo < value <= hi:
            return (const_expr(rng, value, f.ty, lo, hi), raw)
    return (literal(rng, value, n, f.ty), raw)


def const_expr(rng, v, ty, lo, hi):
    """A constant expression of the value, which is no literal."""
    k = rng.randrange(1, 8)
    t = '%d%s' % (v, ty)
    opts = ['{ %d }' % v, 'if true { %d } else { 0 }' % v, '[%s, 0][0]' % t, '(%s, 7).0' % t, 'match 1u8 { 1 => %d, 2 => { 5 } _ => 0 }' % v, '(%d)' % v, '*&(%s)' % t, '%d as %s' % (v, ty),
            'loop { break %s }' % t, '{ let x = 2; %d >> x - 2 }' % v]
    if v - k >= lo:
        opts += ['%d + %d' % (v - k, k), '%d + 0xA%s - 10 + %d' % (v - k, ty, k)] if v - k + 10 <= hi else []
        if v - k >= 0:
            opts += ['%d%s.wrapping_add(%d)' % (v - k, ty, k), '%d_%s.saturating_add(%d) | 0' % (v - k, ty, k), '0x%x%s.wrapping_add(%d)' % (v - k, ty, k)]
    if v + k <= hi and v + k > lo:
        opts.append('%d - %d' % (v + k, k))
    if v > 0 and v & v - 1 == 0:
        opts += ['1 << %d' % (v.bit_length() - 1), '(2 << %d) / 1' % (v.bit_length() - 2) if v > 1 else '1 << 0', '1 << { 3 } + %d - 3' % (v.bit_length() - 1)]
    if v > 0 and v & v + 1 == 0:
        opts += ['!0 >> %d' % ((hi - lo).bit_length() - v.bit_length())] * 3 if lo == 0 else ['!(-1 << %d)' % v.bit_length()]
    if v >= 0:
        opts += ['%d ^ %d' % (v ^ k, k), '!!%d' % v, '%d%s.pow(1)' % (v, ty), '%d%s.rotate_left(0) as %s' % (v, ty, ty)]
        if v << 1 <= hi:
            opts.append('%d >> 1' % (v << 1))
    return rng.choice(opts)


NAMES = ['a', 'b2', 'flag', 'field_c', 'dd', 'r#type', 'x_y_z', 'mode', 'r#fn', 'len', 'count', 'cmd', 'v', 'offset', 'value', 'other', 'zz', 'lo', 'hi', 'mid', 'a_', 'x__y', 'n1_2', 'höhe', 'data_length_of_the_whole_frame_in_bytes_v2', 'r#loop']


def pick_type(rng, bits, backing_bits, arr_backed, customs=0.2, arrays=0.12, signedp=0.35):
    if bits == 1 and rng.random() < 0.45:
        return 'bool'
    if rng.random() < customs:
        c = [k for k, v in CUSTOM.items() if bits in v[1]]
        if c:
            return rng.choice(c)
    if bits > 128 or rng.random() < arrays:
        nb = (bits + 7) // 8
        if rng.random() < 0.3:
            nb += rng.randrange(1, 3)
        return '[u8; %d]' % nb
    ws = [w for w in UINTS if w >= bits]
    w = ws[0] if rng.random() < 0.6 else rng.choice(ws)
    return ('i' if rng.random() < signedp else 'u') + str(w)


def partition(rng, total, n):
    """n positive parts of total."""
    n = min(n, total)
    style = rng.randrange(4)
    if style == 0:
        cuts = sorted(rng.sample(range(1, total), n - 1)) if n > 1 else []
        parts = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    else:
        parts = []
        left = total
        while left > 0:
            k = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128])
            if len(parts) >= n - 1 and left <= 128:
                k = left
            if k <= left:
                parts.append(k)
                left -= k
        rng.shuffle(parts)
    return parts


def stripes(rng, total):
    """Parts that put the same few protected bits into every byte."""
    k = rng.randrange(1, 4)
    lo = rng.randrange(0, 9 - k)
    out = []
    for _ in range(total // 8):
        out += [x for x in (lo, k, 8 - k - lo) if x]
    while len(out) > 34:
        i = rng.randrange(len(out) - 2)
        out[i:i + 3] = [sum(out[i:i + 3])]
    return out


def rand_schema(rng, sid, backing, order=None, prot=0.35, customs=0.2, arrays=0.12, defaults=0.35, nfields=None,
                feature_off=0.12, endians=0.4, ignored=0.0, heap=None, res=0.15, copy=None):
    arr_backed = is_arr(backing)
    total = tywidth(backing)
    n = nfields or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    striped = total <= 128 and nfields is None and rng.random() < 0.06
    while True:
        if striped:
            parts = stripes(rng, total)
            break
        parts = partition(rng, total, n)
        if len(parts) <= 24:
            break
        n = max(1, n - 1)
    names = NAMES[:]
    rng.shuffle(names)
    while len(names) < len(parts):
        names.append('f%d' % len(names))
    pre = []
    fields = []
    for i, bits in enumerate(parts):
        ty = pick_type(rng, bits, total, arr_backed, customs, arrays)
        w = tywidth(ty)
        name = names[i]
        attr = bits != w or ty in CUSTOM or rng.random() < 0.5
        acc = None
        vis = 'pub'
        if striped and bits < 4:
            acc = rng.choice(['ro', 'na', 'wo'])
        elif rng.random() < prot:
            acc = rng.choice(['ro', 'ro', 'wo', 'na', 'rw'])
        f = Field(name, ty, bits, attr, acc, None, vis)
        if rng.random() < res and len(parts) > 1:
            f.name = rng.choice(['_r%d' % i, '_r%d' % i, '__'])
            f.acc = None
        if rng.random() < defaults:
            f.default = rand_default(rng, f, arr_backed, pre, i)
        fields.append(f)
    if all(f.reserved or f.acc == 'na' for f in fields):
        fields[0].name = names[0]
        fields[0].acc = None
    args = {}
    order = order or rng.choice(['lsb', 'msb', None])
    if order:
        args['order'] = order
    for k in ('from_endian', 'into_endian', 'write_endian'):
        if rng.random() < endians:
            args[k] = rng.choice(['little', 'big', 'little'])
    for k in ('new', 'from_traits', 'default', 'debug', 'copy', 'builder', 'write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops'):
        if rng.random() < feature_off * 0.4:
            args[k] = False
    if rng.random() < feature_off * 0.3:
        args['from_into_bits'] = False
    if rng.random() < feature_off * 0.3:
        args['bit_ops'] = False
        for k in ('write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops'):
            args.pop(k, None)
            if rng.random() < 0.6:
                args[k] = True
    if copy is not None:
        args['copy'] = copy
    if not any(args.get(k, True) for k in ('new', 'from_into_bits', 'default', 'builder')):
        del args['new']
    if heap or (heap is None and arr_backed and rng.random() < 0.2):
        args['array_heap'] = True
    ign = []
    if rng.random() < ignored:
        for _ in range(rng.randrange(1, 4)):
            ign.append((rng.randrange(len(fields) + 1), rng.choice(IGNORED)))
        ign.sort(key=lambda x: x[0])
    return Schema(sid, backing, fields, args, ign, pre='\n'.join(pre))


BACKINGS = ['u8', 'u16', 'u32', 'u64', 'u128'] + ['[u8; %d]' % n for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 64)]
# To choose from: every other one an integer.
PICK = BACKINGS[:5] * 3 + BACKINGS[5:]


def F(*a, **k):
    return Field(*a, **k)


def corners():
    """Hand-picked declarations at the edges of the specification."""
    out = []

    def add(sid, backing, fields, **k):
        out.append(Schema('c_' + sid, backing, fields, **k))
    for w in UINTS:
        add('full_u%d' % w, 'u%d' % w, [F('a', 'u%d' % w)])
        add('full_i%d' % w, 'u%d' % w, [F('a', 'i%d' % w, default=('-1', (1 << w) - 1))], args={'order': 'msb'})
    add('bools', 'u8', [F('b%d' % i, 'bool', default=('true', 1) if i % 3 == 0 else None) for i in range(8)])
    add('wide_def', 'u128', [F('a', 'u64', 50, default=('0x3_0000_0000_0001', 0x3000000000001)), F('b', 'i64', 40, default=('-5000000000', (1 << 40) - 5000000000)), F('c', 'i64', 38, default=('5000000000', 5000000000))])
    add('wide_def_arr', '[u8; 16]', [F('a', 'u64', 50, default=('4294967296', 1 << 32)), F('b', 'i64', 40, default=('-5000000000', (1 << 40) - 5000000000)), F('c', 'i128', 38, default=('5000000000', 5000000000))], args={'order': 'msb'})
    add('i128min', 'u128', [F('a', 'i128', default=(str(-(1 << 127)), 1 << 127))])
    add('wide_in_small', 'u8', [F('a', 'u128', 3), F('b', 'i64', 4), F('c', 'u16', 1)])
    add('wide_msb', 'u16', [F('a', 'u64', 9, default=('0x1FF', 0x1FF)), F('b', 'i128', 5, default=('-16', 16)), F('c', '[u8; 4]', 2)], args={'order': 'msb'})
    add('prot_edges', 'u32', [F('lo', 'u8', 3, acc='ro', default=('5', 5)), F('a', 'u16', 9), F('_r', 'u8', 4, default=('9', 9)),
                              F('wo', 'i8', 6, acc='wo', default=('-3', 61)), F('_p', 'u8', 2), F('na', 'u8', 5, acc='na', default=('17', 17)),
                              F('hi', 'u8', 3, acc='ro')])
    add('prot_edges_arr', '[u8; 5]', [F('lo', 'u8', 3, acc='ro', default=('5', 5)), F('a', 'u16', 9), F('_r', 'u8', 4, default=('9', 9)),
                                      F('wo', 'i8', 6, acc='wo', default=('-3', 61)), F('_p', 'u8', 2), F('na', 'u16', 9, acc='na', default=('0x1F1', 0x1F1)),
                                      F('hi', 'u8', 7, acc='ro')], args={'order': 'msb'})
    add('res_implicit', 'u32', [F('a', 'u8'), F('_b', 'u8'), F('_c', 'u8', default=('0xC3', 0xC3)), F('d', 'u8', acc='wo')])
    add('array_fields', '[u8; 9]', [F('a', '[u8; 3]', default=('[1, 2, 0x83]', 0x830201)), F('b', 'u8', 3), F('c', '[u8; 2]', 13, default=('[0xFF, 0x1F]', 0x1FFF)),
                                    F('d', 'i64', 32)])
    add('array_fields_int', 'u64', [F('a', '[u8; 3]', default=('0x830201', 0x830201)), F('b', 'u8', 3), F('c', '[u8; 2]', 13, default=('0x1FFF', 0x1FFF)), F('d', '[u8; 4]', 24)],
        args={'order': 'msb'})
    add('array_int_long', 'u128', [F('a', '[u8; 12]', default=('0x8000_0001_0203_0405_0607_0809', 0x800000010203040506070809)), F('b', 'u16'), F('c', '[u8; 2]', acc='ro')])
    add('array_int_whole', 'u128', [F('a', '[u8; 16]', 125), F('b', 'i8', 3)], args={'order': 'msb'})
    add('array_wide_int', 'u8', [F('a', '[u8; 20]', 5), F('b', 'u8', 3)])
    add('array_long', '[u8; 40]', [F('a', '[u8; 20]'), F('b', 'i128', 100), F('c', '[u8; 5]', 33, acc='ro', default=('[1, 2, 3, 4, 1]', 0x0104030201)), F('d', 'u32', 27)])
    add('array_custom', '[u8; 12]', [F('a', 'Cu128', 70), F('b', 'Flag3', 3, default=('Flag3::C', 4)), F('c', 'In16', 16, default=('In16::new()', 0xC05A)), F('d', 'Sat4', 4, acc='ro', default=('Sat4::from_bits(9)', 9)), F('e', 'Cu8', 3)])
    add('custom_int', 'u64', [F('a', 'Cu16', 11), F('b', 'Flag3', 3), F('c', 'In16', 16, default=('In16::new()', 0xC05A)), F('d', 'Sat4', 4, acc='wo', default=('Sat4::from_bits(9)', 9)),
                              F('_e', 'Flag3', 3, default=('Flag3::B', 2)), F('f', 'Xor8', 8, default=('Xor8::from_bits(1)', 1)), F('g', 'Cu64', 19)], args={'order': 'msb'})
    add('custom_ro', 'u32', [F('a', 'Flag3', 3, acc='ro'), F('b', 'Flag2', 2, acc='ro', default=('Flag2::D', 3)), F('c', 'Sat4', 4), F('d', 'Flag3', 3, acc='na'),
                             F('_e', 'Flag3', 3), F('f', 'Flag3', 3, acc='wo'), F('g', 'Flag16', 14 + 2 - 2 + 2)] if False else
        [F('a', 'Flag3', 3, acc='ro'), F('b', 'Flag2', 2, acc='ro', default=('Flag2::D', 3)), F('c', 'Sat4', 4), F('_d', 'u8', 7, acc=None), F('g', 'Flag16', 16)])
    add('custom_wide', 'u8', [F('a', 'Cu32', 5), F('b', 'Cu128', 3, default=('Cu128::from_bits(1)', 1))])
    add('signed1', 'u8', [F('a', 'i8', 1), F('b', 'i16', 1, default=('-1', 1)), F('c', 'i128', 2, default=('-2', 2)), F('d', 'i8', 4, default=('9', 9))], args={'order': 'msb'})
    add('signed_custom', 'u128', [F('a', 'Ci8', 8, default=('Ci8(-2)', 0xFE)), F('b', 'Ci64', 64), F('c', 'Ci16', 16, acc='ro', default=('Ci16(-2)', 0xFFFE)), F('d', 'u64', 40)])
    add('signed_custom8', 'u8', [F('a', 'Ci8', 8)])
    add('signed_custom_arr', '[u8; 12]', [F('x', 'u8', 3), F('a', 'Ci8', 8, default=('Ci8(-2)', 0xFE)), F('b', 'Ci64', 64), F('c', 'Ci16', 16), F('d', 'u8', 5)])
    add('signed_arr', '[u8; 3]', [F('a', 'i8', 1), F('b', 'i16', 10, default=('-1', 1023)), F('c', 'i128', 2, default=('-2', 2)), F('d', 'i32', 11, default=('-1024', 1024))])
    for n, (fe, ie, we) in enumerate([('little', 'little', 'little'), ('little', 'big', 'big'), ('big', 'little', 'big'), ('big', 'big', 'little')]):
        a = {'from_endian': fe, 'into_endian': ie, 'write_endian': we}
        add('endian%d' % n, ['u16', 'u32', 'u64', 'u128'][n], [F('a', 'u8', 3, default=('2', 2)), F('b', 'u8', 5), F('c', 'u%d' % [8, 32, 64, 128][n], [8, 24, 56, 120][n])], args=a)
        add('endian_arr%d' % n, ['[u8; 2]', '[u8; 3]', '[u8; 5]', '[u8; 17]'][n],
            [F('a', 'u8', 3, default=('2', 2)), F('b', 'u8', 5)] + ([F('c', 'u128', [8, 16, 32, 128][n])]), args=a)
    add('ign', 'u16', [F('a', 'u8', default=('0x81', 0x81)), F('b', 'i8', 5), F('_c', 'u8', 3, default=('6', 6))],
        ignored=[(0, IGNORED[2]), (1, IGNORED[0]), (3, IGNORED[4])])
    add('ign_arr', '[u8; 3]', [F('a', 'u8', default=('0x81', 0x81)), F('b', 'i8', 5), F('_c', 'u16', 11, default=('6', 6))],
        ignored=[(1, IGNORED[5]), (2, IGNORED[3])])
    add('ign_heap', '[u8; 3]', [F('a', 'u8', default=('0x81', 0x81)), F('b', 'i8', 5), F('c', 'u16', 11, acc='ro', default=('6', 6))],
        args={'array_heap': True}, ignored=[(1, IGNORED[2])])
    add('ign_nonew', 'u32', [F('a', 'u32', 20, default=('0x81', 0x81)), F('b', 'i16', 12, acc='ro', default=('-7', (1 << 12) - 7))],
        args={'new': False, 'from_into_bits': False}, ignored=[(1, IGNORED[2])])
    add('heap', '[u8; 6]', [F('a', 'u8', 7, default=('0x55', 0x55)), F('b', 'i32', 29), F('_c', 'u16', 12, default=('0xABC', 0xABC))], args={'array_heap': True, 'order': 'msb'})
    add('heap_nocopy', '[u8; 2]', [F('a', 'u8', 7, default=('0x55', 0x55)), F('b', 'i16', 9)], args={'array_heap': True, 'copy': False})
    add('nonew', 'u32', [F('a', 'u8', default=('0x12', 0x12)), F('b', 'Flag3', 3), F('c', 'u16', 13, acc='ro', default=('0x1FFF', 0x1FFF)), F('_d', 'u8', default=('0x77', 0x77))],
        args={'new': False, 'from_into_bits': False})
    add('nonew_arr', '[u8; 4]', [F('a', 'u8', default=('0x12', 0x12)), F('b', 'Flag3', 3), F('c', 'u16', 13, acc='ro', default=('0x1FFF', 0x1FFF)), F('_d', 'u8', default=('0x77', 0x77))],
        args={'new': False, 'default': False})
    add('nocopy', 'u64', [F('a', 'u64', 63), F('b', 'bool')], args={'copy': False})
    add('all_ro', 'u16', [F('a', 'u8', acc='ro', default=('0xF0', 0xF0)), F('b', 'i8', acc='ro')])
    add('all_wo', '[u8; 2]', [F('a', 'u8', acc='wo', default=('0xF0', 0xF0)), F('b', 'i8', acc='wo')])
    add('straddle64', 'u128', [F('a', 'u64', 63), F('b', 'u8', 2), F('c', 'u64', 63)])
    add('straddle_arr', '[u8; 17]', [F('a', 'u64', 63), F('b', 'u8', 2), F('c', 'u64', 63), F('d', 'bool'), F('e', 'i8', 7)], args={'order': 'msb'})
    # Every kind of mask of protected bits a byte can have.
    masks = [0x80, 0x01, 0x7F, 0xFE, 0x10, 0x18, 0x00, 0xFF, 0xF0, 0x0F, 0x80, 0x40, 0x02, 0x81, 0x00, 0xEF]
    for sid, backing, args in [('masks_arr', '[u8; 16]', {}), ('masks_int', 'u128', {}), ('masks_heap', '[u8; 16]', {'array_heap': True, 'order': 'msb'})]:
        fs = []
        for i, m in enumerate(masks):
            for run, g in itertools.groupby([(m >> b) & 1 for b in range(8)]):
                b = len(list(g))
                fs.append(F(('p%d' if run else 'w%d') % len(fs), 'Cu16' if b == 8 and not run else 'u8', b, acc=['ro', 'na'][i % 2] if run else None))
        add(sid, backing, fs, args=args, group='masks' if not args else '')
    # More fields than a machine word has bits.
    kinds = [('bool', 1, None, ('true', 1)), ('u8', 1, 'ro', ('1', 1)), ('i8', 1, None, None), ('u16', 1, 'wo', None), ('bool', 1, 'ro', None), ('u8', 1, None, ('1', 1)), ('u8', 1, 'na', ('1', 1)), ('u8', 1, None, None)]
    for sid, backing, args, n in [('many_int', 'u128', {}, 72), ('many_arr', '[u8; 13]', {'order': 'msb'}, 72)]:
        fs = []
        for i in range(n):
            ty, w, acc, d = kinds[(i * 5 + i // 8) % 8]
            fs.append(F('_r%d' % i if i % 11 == 7 else 'n%d' % i, ty, w, acc=None if i % 11 == 7 else acc, default=d))
        left = tywidth(backing) - n
        fs.insert(40, F('mid', 'u64', left, default=('3', 3)))
        add(sid, backing, fs, args=args)
    add('byte1', '[u8; 1]', [F('a', 'u8', 5, default=('0x1F', 31)), F('b', 'bool', acc='ro', default=('true', 1)), F('__', 'u8', 2)])
    return out


def big_corners():
    """Arrays whose byte and bit indexes don't fit small integers."""
    out = []
    fs = [F('a', 'u16', 13, default=('0x1ABC', 0x1ABC)), F('b', '[u8; 255]'), F('c', 'i32', 30, default=('-5', (1 << 30) - 5)), F('_d', '[u8; 40]'),
          F('e', 'u64', 53, acc='ro', default=('0x1F_0000_0000_0001', 0x1F000000000001)), F('g', 'bool')]
    tot = sum(f.bits for f in fs)
    fs.append(F('z', 'u128', 100 + (-tot - 100) % 8))
    tot = sum(f.bits for f in fs)
    out.append(Schema('g_300', '[u8; %d]' % (tot // 8), fs))
    out.append(Schema('g_300m', '[u8; %d]' % (tot // 8), [f.copy() for f in fs], {'order': 'msb', 'array_heap': True}))
    for sid, big, acc, args in (('g_8k', 8192, 'na', {}), ('g_8km', 8200, None, {'order': 'msb'}), ('g_66k', 66000, 'ro', {'array_heap': True})):
        fs = [F('a', 'u16', 13, default=('0x1ABC', 0x1ABC)), F('b', '[u8; %d]' % big, acc=acc), F('c', 'i32', 30, default=('-5', (1 << 30) - 5)), F('d', 'u64', 53), F('_e', 'u16', 11, default=('0x555', 0x555)),
              F('g', 'bool', default=('true', 1)), F('h', 'Cu16', 15), F('i', 'i128', 100, acc='ro', default=('-7', (1 << 100) - 7)), F('j', '[u8; 3]', 19, acc='wo'), F('k', 'u8', 5, acc='na'), F('_m', 'u8', 3), F('n', 'i8', 7, acc='ro')]
        if args.get('order') == 'msb':
            fs.reverse()
        tot = sum(f.bits for f in fs)
        if tot % 8:
            fs.append(F('z', 'u8', 8 - tot % 8))
            tot += fs[-1].bits
        out.append(Schema(sid, '[u8; %d]' % (tot // 8), fs, args))
    return out


def clone_with(s, sid, backing=None, args=None, ignored=None, group=None, fields=None):
    a = dict(s.args)
    a.update(args or {})
    return Schema(sid, backing or s.backing, fields or [f.copy() for f in s.fields], {k: v for k, v in a.items() if v is not None},
                  ignored if ignored is not None else list(s.ignored), group if group is not None else s.group, s.attrs, s.pre)


def twin_groups(rng, n, tag):
    """The same fields on different storage."""
    out = []
    for i in range(n):
        w = rng.choice([8, 16, 32, 64, 128])
        base = rand_schema(rng, '%s%d_int' % (tag, i), 'u%d' % w, prot=0.4, feature_off=0, ignored=0, heap=False, arrays=0.0, endians=0)
        base.group = '%s%d' % (tag, i)
        arr = '[u8; %d]' % (w // 8)
        out.append(base)
        out.append(clone_with(base, '%s%d_arr' % (tag, i), backing=arr))
        if rng.random() < 0.6:
            out.append(clone_with(base, '%s%d_heap' % (tag, i), backing=arr, args={'array_heap': True}))
        if rng.random() < 0.6:
            out.append(clone_with(base, '%s%d_ign' % (tag, i), ignored=[(0, rng.choice(IGNORED))], backing=rng.choice([None, arr])))
        if rng.random() < 0.4:
            out.append(clone_with(base, '%s%d_nonew' % (tag, i), args={'copy': False}))
    return out


def rev_groups(rng, n, tag='rev'):
    """LSB order of fields reversed is MSB order."""
    out = []
    for i in range(n):
        b = rng.choice(PICK)
        base = rand_schema(rng, '%s%d_lsb' % (tag, i), b, order='lsb', feature_off=0, ignored=0, endians=0, heap=False)
        names = set()
        for k, f in enumerate(base.fields):
            if f.name in names:
                f.name = '_u%d' % k
            names.add(f.name)
        base.group = '%s%d' % (tag, i)
        out.append(base)
        m = clone_with(base, '%s%d_msb' % (tag, i), args={'order': 'msb'}, fields=[f.copy() for f in reversed(base.fields)])
        out.append(m)
    return out


def base_corpus():
    """Random declarations that do not depend on the run's seed."""
    out = []
    for bi, b in enumerate(BACKINGS):
        for o in ('lsb', 'msb'):
            rng = random.Random('base %s %s' % (b, o))
            s = rand_schema(rng, 'b%d%s' % (bi, o), b, order=o, nfields=rng.choice([3, 4, 5, 6, 8, 10]), ignored=0.1)
            out.append(s)
    return out


def _weight(self):
    return 10 + 3 * len(self.fields)


Schema.weight = _weight
