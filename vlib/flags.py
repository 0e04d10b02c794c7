"""C11: generated bitflags against the table of their variants."""
import random

from . import harness

RULE = ('Enums of each unsigned type are generated with random and corner variant sets, notations, base and default placement, byte orders and '
        'copy settings; the real macro expands them and from_bits is run on every input for 8 and 16 bits and on variants, their byte-swaps, '
        'neighbours, single-bit flips, shifts and random values for wider types, into_bits on every variant, at run time and in constants. A '
        'case is a conversion; distinct ones differ in enum, known input or resulting variant.')


class Flag:
    group = None

    def __init__(self, id, ty, values, base=None, default=None, from_e=None, into_e=None, copy=None, notation=None, vis='pub', derives=True):
        self.id, self.ty, self.width = id, ty, int(ty[1:])
        self.values, self.base, self.default = values, base, default
        self.from_e, self.into_e, self.copy, self.vis = from_e, into_e, copy, vis
        self.notation = notation or (lambda i, v: str(v))
        self.derives = derives
        self.explicit = None
        self.weight_ = len(values)

    def weight(self):
        return 5 + len(self.values)

    def args(self):
        a = [('', '', '', '', 'core::primitive::', '::core::primitive::')[len(self.id + self.vis) % 6] + self.ty]
        if self.explicit is not None:
            return ', '.join(a + self.explicit)
        if self.from_e:
            a.append('from_endian = ' + self.from_e)
        if self.into_e:
            a.append('into_endian = ' + self.into_e)
        if self.copy is not None:
            a.append('copy = ' + ('true' if self.copy else 'false'))
        return ', '.join(a)

    def decl(self):
        o = ['#[bitflag(%s)]' % self.args()]
        d = []
        if self.derives:
            d += ['Debug', 'PartialEq', 'Eq']
        if self.default is not None:
            d.append('Default')
        if d:
            o.append('#[derive(%s)]' % ', '.join(d))
        o.append('/// Documented.\n%s enum E {' % self.vis)
        for i, v in enumerate(self.values):
            if i == self.base and (i % 2 == 0 or i != self.default):
                o.append('    #[base]')
            if i == self.default:
                o.append('    #[default]')
            if i == self.base and not (i % 2 == 0 or i != self.default):
                o.append('    #[base]')
            if i % 3 == 1:
                o.append('    /// A documented variant.')
            o.append('    V%d = %s,' % (i, self.notation(i, v)))
        o.append('}')
        return '\n'.join(o)

    def rust(self):
        n = len(self.values)
        fb = self.base if self.base is not None else self.default
        wh = [(self.values[i], i) for i in sorted({0, n - 1, n // 2})]
        m = (1 << self.width) - 1
        probes = sorted({v for v, _ in wh} | {0, m, (self.values[0] ^ 1), int.from_bytes(self.values[-1].to_bytes(self.width // 8, 'big'), 'little')})
        f = lambda x: 'true' if x else 'false'
        o = ['#![allow(warnings)]', 'use bitfields::bitflag;', 'use monitor::flags::Flag;']
        o += ['pub const K%d: %s = %d;' % (i, self.ty, v) for i, v in enumerate(self.values) if 'K%d' % i == self.notation(i, v)]
        o.append('pub const fn same(x: %s) -> %s { x }' % (self.ty, self.ty))
        o += [l + ' //@decl' for l in self.decl().split('\n')]
        o.append('const fn ix(e: E) -> usize { match e { %s } }' % ' '.join('E::V%d => %d,' % (i, i) for i in range(n)))
        o.append('const fn mk(i: usize) -> E { match i { %s _ => panic!() } }' % ' '.join('%d => E::V%d,' % (i, i) for i in range(n)))
        o.append('struct P<T>(core::marker::PhantomData<T>);')
        o.append('trait No { const COPY: bool = false; const CLONE: bool = false; } impl<T> No for P<T> {}')
        o.append('impl<T: Copy> P<T> { const COPY: bool = true; } impl<T: Clone> P<T> { const CLONE: bool = true; }')
        for j, b in enumerate(probes):
            o.append('const F%d: usize = ix(E::from_bits(%d)); //@Const' % (j, b))
        for j, (v, i) in enumerate(wh):
            o.append('const I%d: %s = E::into_bits(E::V%d); //@Const' % (j, self.ty, i))
        o.append('pub const FLAG_C: Flag = Flag { id: "%s", decl: r##"%s"##, width: %d, values: &[%s], fallback: %d, from_little: %s, into_little: %s, copy: %s,' % (
            self.id, self.decl(), self.width, ', '.join(map(str, self.values)), fb, f(self.from_e == 'little'), f(self.into_e == 'little'), f(self.copy is not False)))
        o.append('    from: |b| ix(E::from_bits(b as %s)), //@From' % self.ty)
        o.append('    into: |i| mk(i).into_bits() as u128, //@Into')
        o.append('    disc: |i| mk(i) as %s as u128, size: core::mem::size_of::<E>(), is_copy: P::<E>::COPY, is_clone: P::<E>::CLONE,' % self.ty)
        o.append('    default: %s,' % ('Some((|| ix(E::default()), %d))' % self.default if self.default is not None else 'None'))
        o.append('    const_from: &[%s],' % ', '.join('(%d, F%d)' % (b, j) for j, b in enumerate(probes)))
        o.append('    const_into: &[%s] };' % ', '.join('(%d, I%d as u128)' % (i, j) for j, (v, i) in enumerate(wh)))
        return '\n'.join(o)


def notate(rng, ty):
    kinds = {}

    def f(i, v):
        k = kinds.setdefault(i, (rng.randrange(8 if rng.random() < .6 else 24), rng.random()))
        k, x = k
        y = int(x * (v + 1))
        if k == 0:
            return hex(v)
        if k == 1:
            return '0b' + format(v, 'b')
        if k == 2:
            return '0o' + format(v, 'o')
        if k == 3:
            return '%d%s' % (v, ty)
        if k == 4:
            return 'K%d' % i
        if k == 5:
            h = format(v, 'X')
            return '0x' + '_'.join(h[max(0, j - 4):j] for j in range(len(h), 0, -4)[::-1])
        if k == 6:
            return '0x%x_%s' % (v, ty)
        # Constant expressions.
        if k == 8:
            return '%d | %d' % (v & y, v & ~y)
        if k == 9:
            return ('1 << %d' % (v.bit_length() - 1) if v and not v & v - 1 else '%d ^ %d' % (y, v ^ y))
        if k == 10:
            return '%d + %d' % (y, v - y)
        if k == 11:
            return ['(%d)', '{ %d }'][x < .5] % v
        if k == 12:
            return 'same(%d)' % v
        if k == 13:
            return '%s::MAX - %d' % (ty, (1 << int(ty[1:])) - 1 - v)
        if k == 14:
            return '!%d' % ((1 << int(ty[1:])) - 1 - v)
        if k == 15:
            return 'if same(1) > 0 { %d } else { %d }' % (v, y)
        if k == 16:
            return '{ let y = %d; y | same(%d) }' % (v & y, v)
        if k == 17:
            return '%du128 as %s' % (v, ty)
        if k == 18:
            return '%d%s.wrapping_add(%d)' % (y, ty, v - y)
        if k == 19:
            return '0b%s_%s.wrapping_sub(%d)' % (format(v, 'b'), ty, 0)
        if k == 20:
            return '%d%s.reverse_bits().reverse_bits()' % (v, ty)
        if k == 21:
            return "b'%c'" % v if ty == 'u8' and chr(v).isalnum() and v < 128 else "'%c' as %s" % (v, ty) if v < 128 and chr(v).isalnum() else '*&%d' % v
        if k == 22:
            return '[%d, %d][same(1) as usize]' % (y, v)
        if k == 23:
            return 'match same(%d) { 300.. => %d, n => n }' % (v, y) if v < 300 and ty != 'u8' else '(%d, ()).0' % v
        return str(v)
    return f


def make(seed, n):
    rng = random.Random('C11/%s' % seed)
    out = []
    for w in (8, 16, 32, 64, 128):
        ty, m = 'u%d' % w, (1 << w) - 1
        asym = int.from_bytes(bytes(range(0x21, 0x21 + w // 8)), 'big') & m
        for fe in (None, 'little', 'big'):
            for ie in (None, 'little', 'big'):
                out.append(Flag('fx_%d_%s_%s' % (w, fe, ie), ty, [asym, 0, 1, m, m - 1, 0x80 << (w - 8), asym ^ 2], base=rng.randrange(7), default=rng.choice([None, 3, 0]), from_e=fe, into_e=ie))
        out.append(Flag('one_%d' % w, ty, [asym], base=0))
        out.append(Flag('oned_%d' % w, ty, [asym], default=0, copy=False))
        out.append(Flag('onebd_%d' % w, ty, [7], default=0, base=0, into_e='little'))
        out.append(Flag('bd_%d' % w, ty, [1, 2, 4, 8], base=0, default=1))
        out.append(Flag('db_%d' % w, ty, [1, 2, 4, 8], base=3, default=0, from_e='little', into_e='little'))
        out.append(Flag('donly_%d' % w, ty, [0, 1, 2, 3], default=2))
        out.append(Flag('last_%d' % w, ty, [5, 6, m], base=2, copy=True))
    out.append(Flag('all_8', 'u8', list(range(256)), base=17))
    out.append(Flag('many_16', 'u16', rng.sample(range(65536), 300), default=99, from_e='little'))
    for i in range(n):
        w = rng.choice([8, 8, 16, 16, 32, 64, 128])
        ty, m = 'u%d' % w, (1 << w) - 1
        k = rng.choice([1, 2, 3, 4, 5, 8, 16, 24])
        pool = set()
        while len(pool) < k:
            c = rng.randrange(5)
            v = (rng.randrange(m + 1) if c == 0 else 1 << rng.randrange(w) if c == 1 else rng.randrange(16) if c == 2 else
                 m - rng.randrange(16) if c == 3 else (rng.randrange(256) * int('01' * (w // 8), 16)) & m)
            pool.add(v)
        vals = sorted(pool)
        rng.shuffle(vals)
        base = rng.choice([None, rng.randrange(k)])
        default = rng.choice([None, rng.randrange(k)]) if base is not None else rng.randrange(k)
        out.append(Flag('r%d' % i, ty, vals, base, default, rng.choice([None, 'little', 'big']), rng.choice([None, 'little', 'big']),
                        rng.choice([None, None, True, False]), notate(rng, ty), rng.choice(['pub', 'pub(crate)', '', 'pub(super)']), rng.random() < .8))
    return out


def main_of(b):
    return 'fn main() { use monitor::flags::Flag; monitor::flags::main(&[%s]); }\n' % ', '.join(
        'Flag { ..%s::FLAG_C }' % s.mod for s in b)


def run(r):
    r.rule = RULE
    r.assumptions = ['values of enums wider than 16 bits are sampled around their variants', 'enums outside the generated ones were not run']
    for batch in range(8 if r.thorough else 1):
        flags = make('%s/%s' % (r.seed, batch), 600 if r.thorough else 160)
        if batch:
            flags = [f for f in flags if f.id.startswith('r')]
        one(r, flags)
        if r.violations:
            break


def one(r, flags):
    built, problems = harness.build_harness('flags', flags, main=main_of)
    for s, tag, rendered in problems:
        r.violation('compile/%s/%s' % (s.id, tag), 'a valid bitflag, or a documented use of it, no longer compiles:\n%s\n%s' % (s.decl(), rendered[:1200]), {'declaration': s.decl(), 'error': rendered})
    if built.dir is None:
        return
    viol, st = harness.run_bins(built, r.prop, r.seed)
    for v in viol:
        r.violation(v['schema'] + v['key'], v['what'] + '\n  in: ' + v['decl'][:600], {'declaration': v['decl']})
    r.observe(st.get('relevant', 0), st.get('distinct', 0))
    r.samples += st.get('samples', [])[:12]
    r.count('bitflags', st.get('schemas', 0))
    harness.merge(r.extra.setdefault('by_operation', {}), st.get('by_kind', {}))
