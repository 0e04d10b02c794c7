"""Declarations that must compile, declarations that must be rejected, and the
compiler runs that observe which happens (C13, the boundary of C21, C22)."""
import random
import re

from . import harness, schema as sc
from .rig import Rig

HEAD = '#![allow(warnings)]\n'
PRE = 'use bitfields::{bitfield, bitflag}; use crate::types::{self, *};'


class Case:
    def __init__(self, cid, text, accept, rule, pre=''):
        self.id, self.text, self.accept, self.rule, self.pre = cid, text, accept, rule, pre
        self.outcome = None   # True: compiled, False: rejected
        self.messages = []
        self.errors = []
        self.snip = None   # the mistaken argument of the attribute
        self.at = None      # where the mistake is: 'attr', or indices of fields

    def body(self):
        return self.pre + '\n' + self.text


def crate(cases, head=HEAD):
    """One crate with a module per case; returns the text and line ranges."""
    out = (head + 'pub mod types {\n' + sc.TYPES_RS.replace('//! Custom field types used by the harness.', '').replace('#![allow(dead_code)]', '') + '\n}').split('\n')
    rng = []
    for i, c in enumerate(cases):
        a = len(out) + 1
        out += ('pub mod c%d { %s\n%s\n}' % (i, PRE, c.body())).split('\n')
        rng.append((a, len(out)))
    return '\n'.join(out) + '\n', rng


def where(e):
    """Lines of the crate, of whatever file, that the error is about."""
    out = set()
    for s in [s for s in e['spans'] if s['is_primary']] or e['spans']:
        while s.get('expansion') and s['expansion'].get('span'):
            s = s['expansion']['span']
        if '/work/' in s['file_name'] and s['line_start'] > 1:
            out.add(s['line_start'])
    return out


def chain(e, first):
    """Every place an error is at: [(line from the case's first, column, text)], innermost first."""
    out = []
    for s in [s for s in e['spans'] if s['is_primary']] or e['spans']:
        while s:
            if '/work/' in s['file_name']:
                out.append((s['line_start'] - first, s['line_end'] - first, s['column_start'], s['column_end']))
            s = (s.get('expansion') or {}).get('span')
    return out


def observe(rig, cases, tag, size=40, flags=(), head=HEAD):
    """Sets the outcome of each case. Cases of a batch without an error of their
    own are compiled again on their own unless the whole batch compiled."""
    batches = [cases[i:i + size] for i in range(0, len(cases), size)]
    problems = []

    def one(ib):
        i, b = ib
        todo = list(b)
        for attempt in range(6):
            if not todo:
                return
            text, ranges = crate(todo, head)
            o = rig.compile('%s_%d_%d' % (tag, i, attempt), text, flags=flags)
            if o.hang or o.ice:
                if len(todo) == 1:
                    todo[0].outcome, todo[0].messages = None, ['hang' if o.hang else o.ice]
                    return
                for c in todo:
                    single(rig, c, '%s_%d_s%d' % (tag, i, todo.index(c)), flags, head)
                return
            if o.ok:
                for c in todo:
                    c.outcome = True
                return
            hit = {}
            for e in o.errs:
                for ln in where(e):
                    for k, (a, z) in enumerate(ranges):
                        if a <= ln <= z:
                            hit.setdefault(k, []).append(e['message'])
                            todo[k].errors.append((chain(e, a), e['message']))
                    if ln < ranges[0][0]:
                        problems.append(e.get('rendered') or e['message'])
            if problems:
                return
            if not hit:
                # An error without a place.
                for c in todo:
                    single(rig, c, '%s_%d_s%d' % (tag, i, b.index(c)), flags, head)
                return
            for k, m in hit.items():
                todo[k].outcome, todo[k].messages = False, m
            todo = [c for k, c in enumerate(todo) if k not in hit]
        for c in todo:
            single(rig, c, '%s_%d_s%d' % (tag, i, b.index(c)), flags, head)
    rig.map(one, list(enumerate(batches)))
    return problems


def single(rig, c, name, flags, head=HEAD):
    text, _ = crate([c], head)
    o = rig.compile(name, text, flags=flags)
    if o.hang or o.ice:
        c.outcome, c.messages = None, ['hang' if o.hang else o.ice]
    else:
        c.outcome, c.messages = o.ok, o.messages()


def layout_asserts(s):
    """Constant assertions that the accepted declaration is laid out as it says."""
    o = []
    for f, off in zip(s.fields, s.offsets()):
        if f.reserved or f.acc == 'na':
            continue
        n = f.plain.upper()
        o.append('const _: () = assert!(S::%s_BITS as u64 == %d && S::%s_OFFSET as u64 == %d);' % (n, f.bits, n, off))
    if not s.ignored and not s.heap:
        o.append('const _: () = assert!(core::mem::size_of::<S>() == %d);' % (s.nbits // 8))
    return '\n'.join(o)


# ---- declarations as data, to break one rule at a time ---------------------

class D:
    """A declaration in pieces."""

    def __init__(self, backing, args, fields, kw='struct', generics='', vis='pub', name='S', post='', attrs=''):
        self.backing, self.args, self.fields = backing, list(args), [list(f) for f in fields]
        self.kw, self.generics, self.vis, self.name, self.post, self.attrs = kw, generics, vis, name, post, attrs

    def copy(self):
        return D(self.backing, self.args, self.fields, self.kw, self.generics, self.vis, self.name, self.post, self.attrs)

    def text(self):
        a = ', '.join(x for x in [self.backing] + self.args if x is not None)
        fs = ''.join('    %s%s: %s,\n' % (at + ' ' if at else '', n, t) for at, n, t in self.fields)
        return '#[bitfield(%s)]\n%s%s %s %s%s {\n%s}%s' % (a, self.attrs, self.vis, self.kw, self.name, self.generics, fs, self.post)


def of_schema(s):
    fs = []
    for f in s.fields:
        args = []
        if f.attr:
            args.append(str(f.bits))
        if f.acc:
            args.append('access = ' + f.acc)
        if f.default:
            args.append('default = ' + f.default[0])
        fs.append(['#[bits(%s)]' % ', '.join(args) if args else '', 'pub ' + f.name, f.ty])
    return D(s.backing, ['%s = %s' % (k, {True: 'true', False: 'false'}.get(v, v)) for k, v in s.args.items()], fs)


def clone(s, fields=None, **k):
    t = sc.Schema.__new__(sc.Schema)
    t.__dict__.update(s.__dict__)
    t.fields = [f.copy() for f in (fields or s.fields)]
    t.args = dict(s.args)
    for a, b in k.items():
        setattr(t, a, b)
    return t


BAD_KEYS = ['size', 'ordering', 'endian', 'Debug', 'bits', 'access', 'ignore', 'new_', 'builders', 'from', 'into', 'write', 'heap', 'Order', 'bit_op', 'r#new']
BOOL_KEYS = ['new', 'from_into_bits', 'from_traits', 'default', 'debug', 'copy', 'bit_ops', 'write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops', 'builder', 'array_heap']
BAD_BOOLS = ['1', '0', '"true"', 'yes', 'on', 'True', 'FALSE', 'T', 'true as bool', '!true', '(true)', 'truee', 'big', '()']
BAD_ORDER = ['left', 'little', '"lsb"', 'lsbb', '1', 'true', 'first', 'ms', 'l']
BAD_ENDIAN = ['lsb', '"big"', 'le', 'be', 'native', 'bigg', 'true', '0', 'network', 'b']
BAD_ACCESS = ['r', 'w', 'wr', '"ro"', 'none', 'true', 'read', 'rwo', '1']


def break_rules(rng, s, tag):
    """Cases that each break exactly one rule of the valid declaration s."""
    out = []
    base = of_schema(s)

    def add(rule, text, at=None, snip=None):
        out.append(Case('%s/%s' % (tag, rule), text, False, rule, s.pre))
        out[-1].at, out[-1].snip = at, snip

    def widths(f):
        return sc.tywidth(f.ty)
    fs = s.fields
    ints = [i for i, f in enumerate(fs) if f.ty not in sc.CUSTOM and not sc.is_arr(f.ty) and f.ty != 'bool']
    # Totals.
    grow = [i for i, f in enumerate(fs) if f.bits < widths(f) and not f.default]
    if grow:
        i = rng.choice(grow)
        t = clone(s); f = t.fields[i]
        f.bits, f.attr = rng.choice([f.bits + 1, widths(f)]), True
        add('total-too-large', of_schema(t).text())
    shrink = [i for i, f in enumerate(fs) if f.bits > 1 and not f.default]
    if shrink:
        i = rng.choice(shrink)
        t = clone(s); f = t.fields[i]
        f.bits, f.attr = rng.choice([f.bits - 1, 1, max(1, f.bits // 2)]), True
        add('total-too-small', of_schema(t).text())
    d = base.copy()
    d.fields.insert(rng.randrange(len(d.fields) + 1), [rng.choice(['#[bits(1)]', '']), rng.choice(['pub extra_one', '_extra']), rng.choice(['bool', 'u8'])])
    add('total-extra-field', d.text())
    if len(fs) > 1:
        d = base.copy(); d.fields.pop(rng.randrange(len(fs)))
        add('total-missing-field', d.text())
    d = base.copy()
    d.backing = rng.choice([x for x in sc.BACKINGS if sc.tywidth(x) != s.nbits])
    d.args = [a for a in d.args if 'array_heap' not in a]
    if not (sc.is_arr(d.backing) != s.arr and any(sc.is_arr(f.ty) and f.default for f in fs)):
        add('total-other-backing', d.text())
    # A width beyond the type, in a bitfield of the right size.
    i = rng.randrange(len(fs))
    f = fs[i]
    cands = [x for x in ('bool', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', '[u8; 1]', '[u8; 2]', '[u8; 3]') if sc.tywidth(x) < f.bits]
    if cands:
        t = clone(s); g = t.fields[i]
        g.ty, g.attr = rng.choice(cands[-3:] + cands), True
        g.default = None
        add('width-beyond-type', of_schema(t).text(), [i])
        if rng.random() < .3:
            d = of_schema(t)
            d.fields[i][0] = d.fields[i][0].replace('bits(%d' % g.bits, 'bits(%d, default = %s' % (g.bits, 'true' if g.ty == 'bool' else '1' if not sc.is_arr(g.ty) else '[1]'))
            add('width-beyond-type', d.text(), [i])
    if f.bits > 128 or (s.nbits > 128 and rng.random() < .5):
        t = clone(s)
        if f.bits > 128:
            t.fields[i].ty, t.fields[i].attr, t.fields[i].default = 'Cu128', True, None
            add('custom-beyond-128', of_schema(t).text(), [i])
    # Bit counts that are not positive integers.
    d = base.copy()
    z = rng.choice(['0', '00', '0x0', '0b0'])
    at = rng.randrange(len(fs) + 1)
    d.fields.insert(at, ['#[bits(%s)]' % z, rng.choice(['pub zero_w', '_zero']), rng.choice(['u8', 'i32', 'bool', 'u128', 'Cu8', '[u8; 2]'])])
    add('bits-zero', d.text(), [at])
    d = base.copy()
    at = rng.randrange(len(fs) + 1)
    d.fields.insert(at, ['#[bits(%d)]' % rng.choice([129, 136, 256]), 'pub wide_one', rng.choice(['Cu128', 'Cu8', 'Flag2'])])
    add('custom-too-wide', d.text(), [at])
    i = rng.randrange(len(fs))
    f = fs[i]
    rest = ''.join(', ' + a for a in ((['access = ' + f.acc] if f.acc else []) + (['default = ' + f.default[0]] if f.default else [])))
    for rule, b in rng.sample([('bits-negative', '-%d' % f.bits), ('bits-suffixed', '%d%s' % (f.bits, rng.choice(['u8', 'u32', 'usize', '_u16', 'i64']))), ('bits-string', '"%d"' % f.bits),
                               ('bits-float', '%d.0' % f.bits), ('bits-const', 'N'), ('bits-expr', '%d + 0' % f.bits), ('bits-paren', '(%d)' % f.bits), ('bits-path', 'types::N'),
                               ('bits-twice', '%d, %d' % (f.bits, f.bits)), ('bits-huge', str(f.bits + (1 << 32))), ('bits-huge2', '340282366920938463463374607431768211456')], 4):
        d = base.copy(); d.fields[i][0] = '#[bits(%s%s)]' % (b, rest)
        if rule == 'bits-const':
            d.attrs += '#[allow(unused)]\n'
        add(rule, d.text(), [i])
    d = base.copy(); d.fields[i][0] = (d.fields[i][0] or '#[bits(%d)]' % f.bits) + ' #[bits(%d)]' % f.bits
    add('bits-attribute-twice', d.text(), [i])
    plain = [i for i, f in enumerate(fs) if not f.has_attr]
    if plain:
        for a in rng.sample(['#[bits]', '#[bits = 8]', '#[bits = "8"]'], 2):
            d = base.copy(); d.fields[plain[0]][0] = a
            add('bits-not-a-list', d.text(), [plain[0]])
    # Types.
    i = rng.randrange(len(fs))
    f = fs[i]
    for ty in rng.sample(['usize', 'isize', 'f32', 'f64', '&\'static u8', '(u8, u8)', '()', '[u16; 1]', '[i8; 2]', '[bool; 2]', '[u8; 0]', '[u8; 1 + 1]', '[u8; types::N]', '[[u8; 1]; 2]', '[u8]', 'fn()', '*const u8',
                          '!', 'impl Copy', 'dyn Copy', '[f32; 2]', '[Cu8; 2]', 'str', 'char', 'String', 'Missing', 'std::num::NonZeroU8', 'Option<u8>', '[u8; 4294967296]', '[u8; 536870912]'], 4):
        t = clone(s); g = t.fields[i]
        g.default = None
        g.attr = rng.random() < .7 or g.attr and g.bits != 8
        d = of_schema(t); d.fields[i][2] = ty
        add('field-type ' + ty, d.text(), [i])
    for ty in rng.sample(['i8', 'i16', 'i32', 'i64', 'i128', 'usize', 'isize', 'f32', 'f64', 'bool', 'char', 'String', 'Cu8', '[u16; 2]', '[i8; 4]', '[u8; 0]', '[u8; N]', '[u8; 536870912]', '[u8; 4294967296]', '[u8]', '(u8,)', '&u8', '8', '"u8"', 'U8', 'u24', 'u8 u8', '', '!'], 4):
        d = base.copy(); d.backing = ty
        add('backing-type ' + ty, d.text(), 'attr', ty or None)
    d = base.copy(); d.backing = None
    add('backing-missing', d.text(), 'attr')
    t = clone(s)
    i = rng.randrange(len(fs))
    g = t.fields[i]; g.ty, g.attr, g.default = rng.choice(['Cu8', 'types::Cu16', 'Flag2', 'In8']), False, None
    add('custom-without-bits', of_schema(t).text(), [i])
    # Defaults that do not fit.
    for _ in range(3):
        i = rng.choice(range(len(fs)))
        f = fs[i]
        if f.ty in sc.CUSTOM or sc.is_arr(f.ty):
            continue
        lit = misfit(rng, f)
        if lit:
            t = clone(s); t.fields[i].default = (lit, 0)
            add('default-misfit', of_schema(t).text(), [i])
    if ints:
        i = rng.choice(ints)
        t = clone(s); t.fields[i].default = (rng.choice(['1.0', '0.0', '1f32', '1e0', '2.', '1e1f64', '"1"', 'MISSING', 'missing()', 'types::Missing::X', '1u7', '0b2', '0x', '0o8', '1_i', '', '()', 'None', '[1]', '&1', 'Cu8::ONE', '\'static']), 0)
        add('default-not-a-value', of_schema(t).text(), [i])
    # Arguments.
    d = base.copy()
    snip = '%s = %s' % (rng.choice(BAD_KEYS), rng.choice(['true', 'false', 'lsb', '1']))
    d.args.insert(rng.randrange(len(d.args) + 1), snip)
    add('unknown-argument', d.text(), 'attr', snip)
    for _ in range(2):
        k = rng.choice(BOOL_KEYS)
        d = base.copy(); d.args = [a for a in d.args if not a.startswith(k + ' ')]
        snip = '%s = %s' % (k, rng.choice(BAD_BOOLS))
        d.args.insert(rng.randrange(len(d.args) + 1), snip)
        add('malformed ' + k, d.text(), 'attr', snip)
    for k, vs in (('order', BAD_ORDER), (rng.choice(['from_endian', 'into_endian', 'write_endian']), BAD_ENDIAN)):
        d = base.copy(); d.args = [a for a in d.args if not a.startswith(k + ' ')]
        snip = '%s = %s' % (k, rng.choice(vs))
        d.args.insert(rng.randrange(len(d.args) + 1), snip)
        add('malformed ' + k, d.text(), 'attr', snip)
    k = rng.choice(BOOL_KEYS + ['order'])
    d = base.copy(); d.args = [a for a in d.args if not a.startswith(k + ' ')]
    v = 'lsb' if k == 'order' else 'true'
    d.args.append(rng.choice(['%s' % k, '%s =' % k, '%s %s' % (k, v), '%s(%s)' % (k, v), '%s: %s' % (k, v), '= %s' % v, '%s == %s' % (k, v), '%s = %s = %s' % (k, v, v),
                              '%s = %s order = lsb' % (k, v), '%s = %s; debug = true' % (k, v), '"%s" = %s' % (k, v), '%s := %s' % (k, v), '%s => %s' % (k, v), ', , %s = %s' % (k, v)]))
    add('malformed-argument', d.text(), 'attr', d.args[-1])
    i = rng.randrange(len(fs))
    f = fs[i]
    if not f.reserved:
        t = clone(s); t.fields[i].acc = rng.choice(BAD_ACCESS)
        add('malformed access', of_schema(t).text(), [i])
    b = '%d%s' % (f.bits, rest)
    d = base.copy(); d.fields[i][0] = '#[bits(%s, %s)]' % (b, rng.choice(['unknown = 1', 'new = true', 'order = lsb', 'ignored = true', 'Default = 1', 'bits = 3', 'ro', 'default', 'ignore', 'ignore = 1', 'ignore = yes',
                                                                       'ignore = "true"', 'access', 'access =', 'default 1', 'default: 1', 'default(1)', '=', '= 1', '[]', '{}', '3', 'skip = false']))
    add('bits-malformed-argument', d.text(), [i])
    # Reserved fields have no access.
    i = rng.randrange(len(fs))
    t = clone(s); t.fields[i].name, t.fields[i].acc = '_res%d' % i, rng.choice(['ro', 'wo', 'rw', 'na'])
    add('reserved-access', of_schema(t).text(), [i])
    # Items.
    d = base.copy(); d.generics = rng.choice(['<T>', '<\'a>', '<const N: usize>', '<T: Copy = u8>'])
    add('generic', d.text())
    if len(fs) > 1:
        named = [i for i, f in enumerate(fs) if not f.reserved]
        if len(named) > 1:
            a, b2 = rng.sample(named, 2)
            t = clone(s); t.fields[a].name = t.fields[b2].name
            add('duplicate-name', of_schema(t).text(), [a, b2])
    d = base.copy(); d.kw = 'union'
    add('union', d.text())
    head = '#[bitfield(%s)]\n' % ', '.join([base.backing] + base.args)
    for k, item in rng.sample([('enum', 'pub enum S { A, B }'), ('tuple', 'pub struct S(%s);' % base.backing), ('unit', 'pub struct S;'), ('fn', 'pub fn s() {}'), ('mod', 'pub mod s {}'), ('const', 'pub const S: u8 = 0;'),
                               ('trait', 'pub trait S {}'), ('impl', 'pub struct Q; ' + head + 'impl Q {}'), ('type', 'pub type S = %s;' % base.backing), ('use', 'use core::mem;'), ('empty', 'pub struct S {}')], 3):
        add('item ' + k, (head if k != 'impl' else '') + item)
    return out


def misfit(rng, f):
    """A literal that the field cannot hold."""
    n = f.bits
    w = sc.tywidth(f.ty)
    if f.ty == 'bool':
        return rng.choice(['2', '0b10', '0xFF', '-1', '255'])
    if sc.signed(f.ty):
        if rng.random() < .6:
            if n == 128:
                return None     # a known finding
            v = -(1 << (n - 1)) - rng.choice([1, 1, 1, 2, 1 << (n - 1), rng.getrandbits(n) + 1])
        else:
            v = (1 << n) + rng.choice([0, 0, 0, 1, rng.getrandbits(n)])
    elif rng.random() < .2:
        v = -rng.choice([1, 1, 2, 1 << (n - 1)])
    else:
        v = (1 << n) + rng.choice([0, 0, 0, 1, rng.getrandbits(n)])
    if abs(v) >= 1 << 128:
        return str(v)
    return sc.literal(rng, v, n, f.ty)


def fit(rng, f):
    """A literal at the edge of what the field can hold, and its raw bits."""
    n = f.bits
    if f.ty == 'bool':
        return rng.choice([('true', 1), ('false', 0)])
    lo = -(1 << (n - 1)) if sc.signed(f.ty) else 0
    # On signed fields a positive literal up to the unsigned maximum is a bit pattern.
    hi = (1 << n) - 1
    if n == sc.tywidth(f.ty) and sc.signed(f.ty):
        hi = (1 << (n - 1)) - 1
    v = rng.choice([lo, lo, hi, hi, min(lo + 1, hi), hi - 1 if hi > lo else hi, 0, 1 if hi >= 1 else 0, rng.randrange(lo, hi + 1)])
    return sc.literal(rng, v, n, f.ty), v & ((1 << n) - 1)


# ---- bitflags ---------------------------------------------------------------

def flag_cases(rng, tag):
    out = []
    w = rng.choice([8, 16, 32, 64, 128])
    ty, m = 'u%d' % w, (1 << w) - 1
    k = rng.randrange(1, 6)
    vals = rng.sample(sorted({0, 1, 2, 3, 4, 8, 0x10, 0x80 & m, m, m - 1, m >> 1}), k)
    base = rng.randrange(k)
    args = []
    for a in ('from_endian', 'into_endian'):
        if rng.random() < .4:
            args.append('%s = %s' % (a, rng.choice(['big', 'little'])))
    if rng.random() < .4:
        args.append('copy = ' + rng.choice(['true', 'false']))

    def text(ty=ty, args=args, vals=vals, attrs={base: '#[base] '}, kw='enum', gen='', body=None):
        if body is None:
            body = ''.join('    %sV%d%s,\n' % (attrs.get(i, ''), i, ' = %s' % v if v is not None else '') for i, v in enumerate(vals))
        return '#[bitflag(%s)]\n%spub %s E%s {\n%s}' % (', '.join([x for x in [ty] + args if x is not None]), '#[derive(Default)]\n' if any('default' in a for a in attrs.values()) else '', kw, gen, body)

    def bad(rule, t, at=None, snip=None):
        out.append(Case('%s/flag %s' % (tag, rule), t, False, 'flag ' + rule))
        out[-1].at, out[-1].snip = at, snip

    def good(rule, t):
        post = '\nconst _: () = { let _: fn(%s) -> E = E::from_bits; let _: fn(E) -> %s = E::into_bits; };' % (ty, ty)
        out.append(Case('%s/flag %s' % (tag, rule), t + post, True, 'flag ' + rule))
    good('base', text())
    good('default', text(attrs={base: '#[default] '}))
    good('base and default', text(attrs={base: '#[base] #[default] '} if k == 1 else {base: '#[base] ', (base + 1) % k: '#[default] '}))
    bad('no base', text(attrs={}))
    if k > 1:
        bad('two bases', text(attrs={base: '#[base] ', (base + 1) % k: '#[base] '}))
        i = rng.randrange(k)
        v2 = list(vals); v2[i] = None
        bad('missing value', text(vals=v2), [i])
        v2 = list(vals); v2[i] = vals[(i + 1) % k]
        bad('same value twice', text(vals=v2))
    i = rng.randrange(k)
    v2 = list(vals); v2[i] = rng.choice([m + 1, m + 1, m + 2, (m + 1) << 1, 1 << 128, hex(m + 1), '0b1' + '0' * w])
    bad('value too large', text(vals=v2), [i])
    i = rng.randrange(k)
    v2 = list(vals); v2[i] = rng.choice(['-1', '1.5', '"x"', 'MISSING', 'true', '1e1', '()', '1u7'] + (['1u%d' % (16 if w != 16 else 32), '1i8']))
    bad('value not an integer of the type', text(vals=v2), [i])
    for t in rng.sample(['i8', 'i64', 'usize', 'isize', 'f32', 'bool', 'char', '[u8; 2]', 'Cu8', 'String', '', '8', '(u8,)', '&u8'], 3):
        bad('type ' + t, text(ty=t), 'attr', t or None)
    bad('type missing', text(ty=None), 'attr')
    x = rng.choice(['order = lsb', 'write_endian = big', 'new = true', 'default = true', 'debug = true', 'Copy = true', 'endian = big'])
    bad('unknown argument', text(args=args + [x]), 'attr', x)
    x = rng.choice(['from_endian = %s' % rng.choice(BAD_ENDIAN), 'into_endian = %s' % rng.choice(BAD_ENDIAN), 'copy = %s' % rng.choice(BAD_BOOLS), 'copy', 'copy =', 'copy true', 'from_endian'])
    bad('malformed argument', text(args=[x]), 'attr', x)
    bad('generic', text(gen=rng.choice(['<T>', '<\'a>', '<const N: usize>'])))
    bad('variant with fields', text(body='    #[base] V0%s = 1,\n' % rng.choice(['(u8)', '{ x: u8 }'])), [0])
    bad('struct', '#[bitflag(%s)]\npub struct E { a: %s }' % (ty, ty))
    bad('empty', text(vals=[], attrs={}))
    return out


# ---- valid declarations of special shapes -----------------------------------

def special_accepts():
    """(text, note): documented shapes that random declarations do not contain."""
    out = []

    def ok(rule, text, pre=''):
        out.append(Case('special/' + rule, text, True, 'valid ' + rule, pre))
    ok('documented and attributed', '/// A doc.\n#[bitfield(u8)]\n#[derive(PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[must_use]\npub struct S { /// field\n #[bits(4)] #[doc = "x"] #[allow(unused)] a: u8, /** b */ #[bits(4)] b: u8 }')
    AT = ['#[rustfmt::skip]', '#[allow(clippy::all)]', '#[cfg_attr(all(), allow(unused))]', '#[cfg_attr(any(), nonsense(1))]', '#[doc(hidden)]', '#[doc = "x"]', '#[allow(unused, dead_code)]']
    for i, a in enumerate(AT):
        ok('attribute ' + a, '%s\n#[bitfield(u8)]\n%s\nstruct S { #[bits(4)] a: u8, #[bits(4, default = 3)] b: u8 }\nconst _: () = assert!(S::new().b() == 3);' % ((a, '') if i % 2 else ('', a)))
        ok('attribute ' + a, '#[bitfield(u16)]\nstruct S { %s #[bits(4)] a: u8, #[bits(4, default = 3)] %s b: u8, %s c: u8 }\nconst _: () = assert!(S::new().b() == 3);' % (a, a, a))
        ok('attribute ' + a, '%s\n#[bitflag(u8)]\n%s\nenum E { #[base] A = 0, B = 1 }' % ((a, '') if i % 2 else ('', a)))
        ok('attribute ' + a, '#[bitflag(u8)]\nenum E { %s #[base] A = 0, %s B = 1, %s C = 2 }\nconst _: () = assert!(E::from_bits(7) as u8 == 0 && E::from_bits(1) as u8 == 1);' % (a, a, a))
    ok('trailing commas', '#[bitfield(u8, new = true,)]\nstruct S { #[bits(4,)] a: u8, #[bits(4, default = 3,)] b: u8 }')
    ok('result alias', 'type Result<T> = core::result::Result<T, u8>;\n#[bitfield(u16)]\nstruct S { a: u8, #[bits(3)] b: i8, #[bits(5)] c: u8 }\n#[bitfield([u8; 2])]\nstruct T { a: u8, #[bits(3)] b: i8, #[bits(5)] c: u8 }')
    ok('all private', '#[bitfield(u8)]\nstruct S { a: u8 }')
    ok('unused reserved names', '#[bitfield(u16)]\nstruct S { #[bits(4)] _reserved: u8, #[bits(4)] _reserved: u8, a: u8 }')
    ok('double underscore', '#[bitfield(u16)]\nstruct S { #[bits(8)] __: u8, a: u8 }')
    ok('order spelled', '#[bitfield(u8, order = lsb)]\nstruct S { a: u8 }\n#[bitfield(u8, order = msb)]\nstruct T { a: u8 }')
    ok('underscored constant', '#[bitfield(u8)]\nstruct S { #[bits(default = _500)] a: u8 }\n#[bitfield(u8)]\nstruct T { #[bits(default = _0x)] a: u8 }\n#[bitfield(u8)]\nstruct U { #[bits(default = _5)] a: u8 }', 'const _500: u8 = 3; const _0x: u8 = 4; const _5: u8 = 6;')
    ok('constants with odd names', '#[bitfield(u32)]\nstruct S { #[bits(default = e1)] a: u8, #[bits(default = f32)] b: u8, #[bits(default = m::f64)] c: u8, #[bits(default = x0b1)] d: u8 }', 'const e1: u8 = 1; const f32: u8 = 2; mod m { pub const f64: u8 = 3; } const x0b1: u8 = 4;')
    ok('constant expressions', '#[bitfield(u32)]\nstruct S { #[bits(default = 1 + 2)] a: u8, #[bits(default = (7))] b: u8, #[bits(default = K[1])] c: u8, #[bits(default = if K[0] > 0 { 1 } else { 2 })] d: u8 }', 'const K: [u8; 2] = [1, 2];')
    ok('bool constant named TRUE', '#[bitfield(u8)]\nstruct S { #[bits(default = TRUE)] a: bool, #[bits(7)] b: u8 }\nconst _: () = assert!(!S::new().a());', 'const TRUE: bool = false;')
    ok('char and byte defaults', '#[bitfield(u8)]\nstruct S { #[bits(default = b\'a\')] a: u8 }\nconst _: () = assert!(S::new().a() == 97);')
    ok('long array', '#[bitfield([u8; 4096])]\nstruct S { a: [u8; 4096] }')
    ok('many fields', '#[bitfield(u128)]\nstruct S { %s }' % ', '.join('f%d: bool' % i for i in range(128)))
    ok('many fields msb', '#[bitfield([u8; 16], order = msb)]\nstruct S { %s }' % ', '.join('#[bits(2)] f%d: u8' % i for i in range(64)))
    ok('in a function', 'fn f() -> u8 {\n#[bitfield(u8)]\nstruct S { a: u8 }\nS::new().a()\n}')
    ok('in a trait-heavy module', '#[bitfield(u32, from_endian = big, into_endian = big)]\npub(crate) struct S { pub(crate) a: u8, pub(super) b: u8, pub(self) c: u8, pub(in crate) d: u8 }')
    ok('visibilities', 'pub mod m { use bitfields::bitfield;\n#[bitfield(u8)]\npub(super) struct S { pub(super) a: u8 }\n#[bitfield(u8)]\npub(in super::super) struct T { pub(in super::super) a: u8 } }')
    ok('ignored of many kinds', '#[bitfield(u8)]\nstruct S { a: u8, #[bits(ignore = true)] b: Vec<String>, #[bits(ignore = true)] pub c: Option<Box<u8>>, #[bits(ignore = true)] d: usize, #[bits(ignore = true)] e: f64, #[bits(ignore = true)] f: ([u16; 3], String) }'.replace('u8)]\n', 'u8, copy = false)]\n', 1))
    ok('not ignored spelled', '#[bitfield(u8)]\nstruct S { #[bits(8, ignore = false)] a: u8 }\nconst _: () = assert!(S::A_BITS == 8);')
    ok('macro by example', 'macro_rules! mk { ($n:ident, $t:ty, $f:ident) => { #[bitfield(u8)] pub struct $n { pub $f: $t } } }\nmk!(S, u8, a); mk!(T, i8, b);')
    ok('macro by example with every fragment', '''macro_rules! mk { ($n:ident, $t:ty, $f:ident, $b:ty, $l:literal, $e:expr, $v:vis) => { #[bitfield($b)] $v struct $n { #[bits($l, default = $e)] pub $f: $t, #[bits(4)] c: u8 } } }
mk!(S, u8, a, u8, 4, 3, pub); mk!(T, i8, b, u8, 4, -3, pub(crate)); mk!(U, [u8; 2], b, [u8; 2], 12, [3, 4], pub); mk!(V, Cu16, b, [u8; 2], 12, Cu16(3), pub);
macro_rules! mf { ($n:ident, $t:ty, $f:ident, $l:literal, $e:expr) => { #[bitflag($t)] enum $n { #[base] $f = $l, X = $e } } }
mf!(E, u8, A, 4, 3); mf!(F, u16, A, 4, 3);
macro_rules! mt { ($o:ident, $v:tt, $acc:ident) => { #[bitfield(u8, order = $o, new = $v)] struct W { #[bits(8, access = $acc)] a: u8 } } }
mt!(msb, false, ro);''')
    ok('capitals', '#[bitfield(u16, order = MSB, from_endian = Little, into_endian = BIG, write_endian = little)]\nstruct S { #[bits(4, access = RO)] a: u8, #[bits(4, access = Wo)] b: u8, #[bits(8, access = rW)] c: u8 }\nconst _: () = assert!(S::A_OFFSET == 12);')
    ok('dollar crate', '''macro_rules! mk { ($n:ident, $m:ident) => { #[bitfield(u16)] pub struct $n { #[bits(default = $crate::types::CU8_ONE.0)] a: u8, #[bits(8)] b: $crate::types::Cu8 }\n#[bitflag(u8)] pub enum $m { #[base] A = $crate::types::CU8_ONE.0 } } }
mk!(S, E); const _: () = assert!(S::new().a() == 1);''')
    ok('compound defaults of protected fields', ''.join('''#[bitfield(%s)] struct S%d { #[bits(default = 1 < 2%s)] a: bool, #[bits(7, default = 1 | 2%s)] b: u16, #[bits(default = -3 + 1%s)] c: i8, #[bits(12, default = !0%s)] d: i16, #[bits(4, default = { 3 }%s)] e: u8, #[bits(8, default = if true { 1 } else { 2 }%s)] f: u8, #[bits(8, default = match 1 { _ => 1 }%s)] g: u8, #[bits(16, default = 1 << 3 | 2%s)] h: u16 }
const T%d: S%d = S%d::new(); const _: () = assert!(T%d.a() && T%d.b() == 3 && T%d.c() == -2 && T%d.d() == -1 && T%d.e() == 3 && T%d.f() == 1 && T%d.g() == 1 && T%d.h() == 10);\n''' % ((b, i) + (acc,) * 8 + (i,) * 11)
       for i, (b, acc) in enumerate([('u64', ', access = ro'), ('[u8; 8]', ', access = ro'), ('u64', ''), ('[u8; 8]', '')])))
    ok('variants of constant expressions', '''const fn f(x: u16) -> u16 { x + 1 }
#[bitflag(u16)]
#[derive(PartialEq)]
enum E { #[base] A = 1 << 9, B = 1 << 3, C = 1 | 2, D = f(6), G = { 12 }, H = (13), I = u16::MAX - 1, J = E::C as u16 | 16, K = if f(1) > 1 { 33 } else { 34 }, L = CU8_ONE.0 as u16 + 60 }
const fn is(x: u16, e: E) -> bool { E::from_bits(x) as u16 == e as u16 && E::from_bits(x).into_bits() == x }
const _: () = assert!(is(8, E::B) && is(3, E::C) && is(7, E::D) && is(12, E::G) && is(13, E::H) && is(65534, E::I) && is(19, E::J) && is(33, E::K) && is(61, E::L));
const _: () = assert!(E::from_bits(1) as u16 == 512 && E::from_bits(2) as u16 == 512 && E::from_bits(34) as u16 == 512);
macro_rules! m { ($n:ident, $a:expr, $b:expr) => { #[bitflag(u8)] enum $n { #[base] X = 0, A = $a, B = ($b) << 1, C = $a | $b } } }
m!(F, 1, 2 | 4); const _: () = assert!(F::from_bits(1) as u8 == 1 && F::from_bits(12) as u8 == 12 && F::from_bits(7) as u8 == 7 && F::from_bits(2) as u8 == 0);''', 'use crate::types::CU8_ONE;')
    ok('fully qualified', '#[bitfields::bitfield(u8)]\nstruct S { a: u8 }\n#[bitfields::bitflag(u8)]\nenum E { #[base] A = 0 }')
    ok('nested in itself', '#[bitfield(u8)]\npub struct I { a: u8 }\n#[bitfield(u16)]\npub struct S { #[bits(8)] i: I, #[bits(8)] j: I }')
    ok('names of keywords', '#[bitfield(u32)]\npub struct S { pub r#type: u8, pub r#match: u8, pub r#struct: u8, pub r#async: u8 }')
    ok('names like locals', '#[bitfield(u64)]\npub struct S { this: u8, start: u8, value: u8, mask: u8, offset: u8, length: u8, i: u8, val: u8 }\n#[bitfield([u8; 8])]\npub struct T { this: u8, start: u8, value: u8, mask: u8, offset: u8, length: u8, i: u8, val: u8 }')
    ok('ignored names like locals', '#[bitfield(u8)]\npub struct S { a: u8, #[bits(ignore = true)] this: u8, #[bits(ignore = true)] bits: u8, #[bits(ignore = true)] value: u8 }')
    ok('one bit', '#[bitfield(u8)]\nstruct S { #[bits(1)] a: i128, #[bits(1)] b: u128, #[bits(6)] c: i16 }')
    ok('hex bits', '#[bitfield(u16)]\nstruct S { #[bits(0x8)] a: u8, #[bits(0b100)] b: u8, #[bits(0o4)] c: u8 }\nconst _: () = assert!(S::A_BITS == 8 && S::B_BITS == 4 && S::C_OFFSET == 12);')
    ok('array lengths in every notation', '#[bitfield([u8; 0x1_0])]\nstruct S { a: [u8; 2usize], b: [u8; 0b11], c: [u8; 0o3], d: [u8; 1_], #[bits(56)] e: [u8; 0x7usize] }\nconst _: () = assert!(S::B_OFFSET == 16 && S::E_OFFSET == 72 && S::new().into_le_bytes().len() == 16);')
    ok('underscore bits', '#[bitfield(u16)]\nstruct S { #[bits(1_2)] a: u16, #[bits(4_)] b: u8 }\nconst _: () = assert!(S::A_BITS == 12 && S::B_OFFSET == 12);')
    return out


def far_totals(rng):
    """Totals that differ from the storage by a lot, and by powers of two of bits."""
    out = []
    off = ', '.join(k + ' = false' for k in BOOL_KEYS if k not in ('array_heap', 'copy'))
    for k in range(3, 22):
        d = (1 << k) // 8
        for n in ((1, 3) if k in (7, 8, 9, 15, 16, 17) else (1,)):
            own = '#[bits(3)] a: u8, #[bits(5)] b: u8' if n == 1 else 'a: u16, b: u8'
            extra = rng.choice(['_x: [u8; %d]' % d, 'x: [u8; %d]' % d, '#[bits(access = ro)] x: [u8; %d]' % d] + (['_x: [u8; %d], y: [u8; %d]' % (d // 2, d - d // 2)] if d > 1 else []))
            fs = rng.choice(['%s, %s' % (own, extra), '%s, %s' % (extra, own)])
            o = rng.choice(['', ', order = msb'])
            for args in (', ' + off + ', order = lsb', o):
                out.append(Case('far/+%d/%d/%s' % (k, n, args[-9:]), '#[bitfield([u8; %d]%s)]\nstruct S { %s }' % (n, args, fs), False, 'total-far-too-large'))
                out.append(Case('far/-%d/%d/%s' % (k, n, args[-9:]), '#[bitfield([u8; %d]%s)]\nstruct S { %s }' % (n + d, args, own), False, 'total-far-too-small'))
    for b in sc.UINTS:
        for k in (128, 256, 384, 512, 1024, 65536):
            xs = ', '.join('_x%d: u128' % i for i in range(k // 128)) if k <= 1024 else '_x: [u8; %d]' % (k // 8)
            out.append(Case('far/u%d/%d' % (b, k), '#[bitfield(u%d, %s)]\nstruct S { a: u%d, %s }' % (b, off, b, xs), False, 'total-far-too-large'))
    return out


# ---- C13 --------------------------------------------------------------------

RULE13 = ('Valid declarations (all shapes the other checks run, special shapes and random ones) are compiled by the real macro together with '
          'constant assertions of their layout, and each documented rule is broken once at a time on random declarations, which must be rejected. '
          'A case is one declaration; distinct ones differ in their text, and the outcomes are counted by rule.')


def is_internal(msgs, needle):
    return any(needle in m or 'panicked' in m for m in msgs)


def run13(r):
    r.rule = RULE13
    r.assumptions = ['declarations whose validity the documentation leaves open are not judged']
    rig = Rig('rig13')
    for batch in range(8 if r.thorough else 1):
        rng = random.Random('C13/%s/%s' % (r.seed, batch))
        cases = []
        S = []
        if batch == 0:
            S += sc.corners() + sc.base_corpus()
            cases += special_accepts()
        cases += far_totals(rng)
        S += [sc.rand_schema(rng, 'r%d' % i, rng.choice(sc.PICK + ['[u8; 5]', '[u8; 12]', '[u8; 20]']), ignored=.1) for i in range(250 if not r.thorough else 400)]
        for i, s in enumerate(S):
            s.name = 'S'
            cases.append(Case('ok/' + s.id, s.decl() + '\n' + layout_asserts(s), True, 'valid', s.pre))
        for i in range(60 if not r.thorough else 200):
            b = rng.choice(sc.PICK + ['[u8; 5]', '[u8; 20]'])
            s = sc.rand_schema(rng, 'x%d' % i, b, customs=.1, defaults=.2, feature_off=.1, heap=False)
            cases += break_rules(rng, s, 'x%d' % i)
        for i in range(40 if not r.thorough else 200):
            cases += flag_cases(rng, 'f%d' % i)
        judge(r, rig, cases)
        if r.violations:
            return
    r.count('batches', batch + 1)


def judge(r, rig, cases, flags=()):
    acc = [c for c in cases if c.accept]
    rej = [c for c in cases if not c.accept]
    for what, cs, size in (('a', acc, 12), ('r', rej, 40)):
        for p in observe(rig, cs, r.prop + what, size, flags)[:1]:
            r.violation('types', 'bitflags and nested bitfields used as field types no longer compile:\n' + p[:1500])
            return
    by = r.extra.setdefault('by_rule', {})
    for c in cases:
        key = c.rule.split(' ')[0] if c.rule.startswith(('field-type', 'backing-type', 'item')) else c.rule
        by[key] = by.get(key, 0) + 1
        if c.outcome is None:
            r.violation('crash/' + c.rule, 'the compiler did not finish on:\n%s\n%s' % (c.body(), c.messages[0][:800]), {'declaration': c.body()})
        elif c.accept and not c.outcome:
            r.violation('rejected/%s/%s' % (c.rule, c.id), 'a valid declaration (%s) is rejected or laid out differently:\n%s\n%s' % (c.rule, c.body(), '\n'.join(c.messages[:3])[:800]), {'declaration': c.body(), 'messages': c.messages})
        elif not c.accept and c.outcome:
            r.violation('accepted/' + c.rule, 'an invalid declaration (%s) is accepted:\n%s' % (c.rule, c.body()), {'declaration': c.body()})
    r.observe(len(cases), len({c.body() for c in cases}))
    r.count('accepted', sum(1 for c in cases if c.outcome))
    r.count('rejected', sum(1 for c in cases if c.outcome is False))
    step = max(1, len(cases) // 12)
    r.samples += [{'rule': c.rule, 'declaration': c.text[:300], 'outcome': 'accepted' if c.outcome else 'rejected', 'message': (c.messages or [''])[0][:160]} for c in cases[::step]][:12]


# ---- C21: the boundary of what fits -----------------------------------------

def boundary(rng, pairs, tag):
    out = []
    for ty, n in pairs:
        f = sc.Field('a', ty, n)
        w = sc.tywidth(ty)
        sg = sc.signed(ty)
        mask = (1 << n) - 1

        def mk(lit, acc=None):
            fs = ['#[bits(%d%s, default = %s)] pub a: %s' % (n, ', access = ' + acc if acc else '', lit, ty)]
            total = rng.choice([x for x in (8, 16, 32, 64, 128, 24, 40, 136) if x >= n])
            if total > n:
                k = rng.randrange(1, total - n + 1)
                fs.insert(rng.randrange(2), '#[bits(%d)] _p: [u8; %d]' % (k, 17))
                if total - n - k:
                    fs.insert(rng.randrange(3), '#[bits(%d)] _q: [u8; %d]' % (total - n - k, 17))
            back = 'u%d' % total if total in (8, 16, 32, 64, 128) and rng.random() < .6 else '[u8; %d]' % (total // 8)
            if back[0] == 'u':
                fs = [x.replace('[u8; 17]', 'u128') for x in fs]
            return '#[bitfield(%s%s)]\npub struct S {\n    %s,\n}' % (back, rng.choice(['', ', order = msb']), ',\n    '.join(fs))
        lo = -(1 << (n - 1)) if sg else 0
        hi = (1 << n) - 1
        good = {lo, (1 << (n - 1)) - 1 if sg else hi, lo + 1 if n > 1 else lo, rng.randrange(lo, (1 << (n - 1)) if sg else hi + 1)}
        if sg and n < w:
            good.add(hi)
        for v in sorted(good):
            raw = v & mask
            val = raw - (1 << n) if sg and raw >> (n - 1) else raw
            lit = str(v) if v == -(1 << 127) else sc.literal(rng, v, n, ty)
            exp = 'i128::MIN' if val == -(1 << 127) else '%d' % val
            out.append(Case('%s/%s/%d/%s' % (tag, ty, n, lit), mk(lit, rng.choice([None, None, 'ro', 'rw'])) +
                            '\nconst _: () = assert!(S::new().a() == %s); const _: () = assert!(SBuilder::new().build().a() == %s);' % (exp, exp), True, 'boundary-fits'))
        bad = {hi + 1, lo - 1}
        if sg and n == 128:
            bad.discard(lo - 1)     # a known finding
        forms = [(b, u, x) for b in 'dhob' for u in (False, True) for x in (False, True)]
        lits = [str(v) if abs(v) >= 1 << 128 else sc.literal(rng, v, n, ty, *q) for v in sorted(bad) for q in ([f for f in forms if n < w or not f[2]] if n in (4, 20, 65) else rng.sample(forms, 2))]
        for lit in sorted(set(lits)):
            out.append(Case('%s/%s/%d/%s' % (tag, ty, n, lit), mk(lit, rng.choice([None, 'ro', 'wo', 'na'])), False, 'boundary-misfit'))
    return out


def run21(r):
    rig = Rig('rig21')
    rng = random.Random('C21b/%s' % r.seed)
    pairs = [(s + str(w), n) for w in sc.UINTS for s in 'ui' for n in range(1, w + 1)]
    if not r.thorough:
        keep = [(t, n) for t, n in pairs if n in (1, 4, 7, 8, 9, 15, 20, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128) and n > sc.tywidth(t) // 2 or n in (1, 4)]
        pairs = keep + rng.sample(pairs, 60)
    judge(r, rig, boundary(rng, pairs, 'b') + [c for c in special_accepts() if 'constant' in c.id or 'default' in c.id])
    r.count('type_width_pairs_at_the_boundary', len(set(pairs)))
