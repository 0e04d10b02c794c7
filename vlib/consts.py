"""C19: random call sequences evaluated by the compiler and run by the program."""
import random

from . import schema as sc, surface
from .rig import Rig

RULE = ('For generated declarations (not on the heap, no ignored fields), a sequence with every generated function and random sequences of them are written as constant functions over '
        'argument tables, evaluated in constants by the compiler and executed at run time with the same arguments; every returned value and the whole state after each call are compared. '
        'A case is a compared value; distinct ones differ in declaration and function.')

PRE = '''
pub mod h {
    pub const fn fold(b: &[u8]) -> u128 { let mut h: u128 = 0x9E3779B97F4A7C15; let mut i = 0; while i < b.len() { h = (h ^ b[i] as u128).wrapping_mul(0x100000001B3000000000000000000123); h = h ^ h >> 57; i += 1; } h }
    pub const fn arr<const N: usize>(x: u128) -> [u8; N] { let mut a = [0u8; N]; let mut y = x; let mut i = 0; while i < N { a[i] = (y >> 96) as u8; y = y.wrapping_mul(0x5851F42D4C957F2D14057B7EF767814F).wrapping_add(0x1405); i += 1; } a }
}
'''


def conv(f, x):
    if f.ty in sc.CUSTOM:
        return '%s::from_bits(%s as %s%d)' % (f.ty, x, 'i' if f.ty in sc.CSIGNED else 'u', sc.CUSTOM[f.ty][0])
    if f.ty == 'bool':
        return '%s & 1 == 1' % x
    if sc.is_arr(f.ty):
        return 'arr::<%d>(%s)' % (sc.tywidth(f.ty) // 8, x)
    return '%s as %s' % (x, f.ty)


def unconv(f, e):
    if f.ty in sc.CUSTOM:
        return '%s.into_bits() as u128' % e
    if sc.is_arr(f.ty):
        return 'fold(&%s)' % e
    return '%s as u128' % e


def calls(s):
    """(name, statement); `A` stands for the next argument, `P(e)` notes a value."""
    o = []

    def c(name, st):
        o.append((name, st))
    u = 'bytes' if s.arr else 'bits'
    B = s.backing
    arg = 'arr::<%d>(A)' % (s.nbits // 8) if s.arr else 'A as %s' % B
    back = (lambda e: 'fold(&%s)' % e) if s.arr else (lambda e: '%s as u128' % e)
    es = ['', 'le_', 'be_']
    if s.arg('new'):
        c('new', 's = S::new();')
        c('new_without_defaults', 's = S::new_without_defaults();')
    if s.arg('from_into_bits'):
        for e in es:
            for d in ('', '_with_defaults'):
                c('from_%s%s%s' % (e, u, d), 's = S::from_%s%s%s(%s);' % (e, u, d, arg))
                if s.arr:
                    n = s.nbits // 8
                    for ln in sorted({0, 1, n - 1, n, n + 2}):
                        c('from_%sslice%s' % (e, d), 's = S::from_%sslice%s(&arr::<%d>(A));' % (e, d, ln))
                        c('checked_from_%sslice%s' % (e, d), 'match S::checked_from_%sslice%s(&arr::<%d>(A)) { Ok(x) => { s = x; P(1) } Err(_) => P(0) };' % (e, d, ln))
            c('into_%s%s' % (e, u), 'P(%s);' % back('dup(&s).into_%s%s()' % (e, u)))
            if s.arr:
                for ln in sorted({0, 1, n - 1, n, n + 2}):
                    c('into_%sslice' % e, '{ let mut b = [0xA5u8; %d]; s.into_%sslice(&mut b); P(fold(&b)) };' % (ln, e))
                    c('checked_into_%sslice' % e, '{ let mut b = [0xA5u8; %d]; P(s.checked_into_%sslice(&mut b).is_ok() as u128); P(fold(&b)) };' % (ln, e))
    for f in s.fields:
        p = f.plain
        if f.has_getter:
            c(p, 'P(%s);' % unconv(f, 's.%s()' % f.name))
        if f.has_setter:
            c('set_' + p, 's.set_%s(%s);' % (p, conv(f, 'A')))
            c('checked_set_' + p, 'P(s.checked_set_%s(%s).is_ok() as u128);' % (p, conv(f, 'A')))
        if f.has_getter or f.has_setter:
            c(p.upper() + '_BITS', 'P(S::%s_BITS as u128 | (S::%s_OFFSET as u128) << 32);' % (p.upper(), p.upper()))
        if f.has_setter and s.ops('clear_bit_ops'):
            c('clear_' + p, 's.clear_%s();' % p)
            if f.default:
                c('clear_%s_to_default' % p, 's.clear_%s_to_default();' % p)
        if f.has_setter and s.ops('invert_bit_ops'):
            c('invert_' + p, 's.invert_%s();' % p)
        if f.has_getter and s.ops('invert_bit_ops'):
            c(p + '_inverted', 'P(%s);' % unconv(f, 's.%s_inverted()' % p))
    if s.ops('set_get_bit_ops'):
        off = '(A %% %d) as u32' % (s.nbits + 2)
        c('get_bit', 'P(s.get_bit(%s) as u128);' % off)
        c('checked_get_bit', 'P(match s.checked_get_bit(%s) { Ok(x) => x as u128, Err(_) => 2 });' % off)
        c('set_bit', 's.set_bit(%s, A & 1 == 1);' % off)
        c('checked_set_bit', 'P(s.checked_set_bit(%s, A & 1 == 1).is_ok() as u128);' % off)
        for ln in (off, '(A % 7) as u32', '(A % 33) as u32', 'A as u32'):
            c('get_range', 'P(%s);' % back('s.get_%s_range(%s, %s)' % (u, off, ln)))
            c('checked_get_range', 'P(match s.checked_get_%s_range(%s, %s) { Ok(x) => %s, Err(_) => 77 });' % (u, off, ln, back('x')))
            c('set_range', 's.set_%s_range(%s, %s, %s);' % (u, off, ln, arg))
            c('checked_set_range', 'P(s.checked_set_%s_range(%s, %s, %s).is_ok() as u128);' % (u, off, ln, arg))
    if s.ops('write_bit_ops'):
        for e in es:
            for d in ('', '_with_defaults'):
                c('write_%s%s%s' % (e, u, d), 's.write_%s%s%s(%s);' % (e, u, d, arg))
        c('write_defaults', 's.write_defaults();')
    if s.ops('clear_bit_ops'):
        c('clear_' + u, 's.clear_%s();' % u)
        c('clear_%s_with_defaults' % u, 's.clear_%s_with_defaults();' % u)
    if s.ops('invert_bit_ops'):
        c('invert_' + u, 's.invert_%s();' % u)
    if s.arg('builder'):
        for new in ('new', 'new_without_defaults'):
            st = '{ let b = SBuilder::%s();' % new
            for f in s.fields:
                if f.has_getter or f.has_setter:
                    st += ' let b = if A & 1 == 1 { b.with_%s(%s) } else { b };' % (f.plain, conv(f, 'A'))
            c('builder', st + ' s = b.build(); };')
            for f in s.fields:
                if f.has_getter or f.has_setter:
                    c('checked_with_' + f.plain, '{ let b = SBuilder::%s(); s = match b.checked_with_%s(%s) { Ok(b) => { P(1); b.build() } Err(_) => { P(0); SBuilder::new().build() } } };' % (new, f.plain, conv(f, 'A')))
    return o


def start(s):
    return ('S::new()' if s.arg('new') else 'SBuilder::new().build()' if s.arg('builder') else
            'S::from_%s(%s)' % ('bytes' if s.arr else 'bits', '[0; %d]' % (s.nbits // 8) if s.arr else '0'))


def render(s, seq, k):
    """A constant function for a sequence, and its argument and value counts."""
    lines, na, nv = [], 0, 0
    for name, st in seq:
        while 'A' in st:
            i = find_a(st)
            if i < 0:
                break
            st = st[:i] + 'a[%d]' % na + st[i + 1:]
            na += 1
        parts = st.split('P(')
        nv += len(parts) - 1
        st = 'p!('.join(parts)
        lines.append(st)
        if s.arg('from_into_bits'):
            lines.append('p!(%s);' % (('fold(&dup(&s).into_%s())' % 'bytes') if s.arr else 'dup(&s).into_bits() as u128'))
            nv += 1
    return ('pub const fn q%d(a: &[u128; %d]) -> [u128; %d] { let mut o = [0u128; %d]; let mut n = 0; macro_rules! p { ($e:expr) => {{ o[n] = $e; n += 1; }} } let mut s = %s;\n%s\no }' % (
        k, na, nv, nv, start(s), '\n'.join(lines)), na, nv)


def find_a(st):
    for i, ch in enumerate(st):
        if ch == 'A' and (i == 0 or not (st[i - 1].isalnum() or st[i - 1] in "_:#.")) and (i + 1 == len(st) or not (st[i + 1].isalnum() or st[i + 1] == '_')):
            return i
    return -1


def rand_arg(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.randrange(8)
    if k == 1:
        return (1 << rng.randrange(129)) - 1
    if k == 2:
        return 1 << rng.randrange(128)
    if k == 3:
        return (1 << 128) - 1 - rng.randrange(300)
    return rng.getrandbits(rng.choice([8, 16, 40, 64, 128]))


def program(rng, S, nseq, length):
    out = ['#![allow(warnings)]', 'pub mod types {\n' + surface.types_rs() + '\n}', PRE]
    out = '\n'.join(out).split('\n')
    tags = {}
    names = []
    for k, s in enumerate(S):
        cs = calls(s)
        out += ('pub mod c%d { use bitfields::{bitfield, bitflag}; use crate::types::{self, *}; use crate::h::*;\n%s\n%s' % (k, s.pre, s.decl())).split('\n')
        tags[len(out)] = k
        # The state is read from a copy, whether or not the type is Copy.
        out.append('const fn dup(s: &S) -> S { %s }' % ('*s' if s.arg('copy') else 'unsafe { core::ptr::read(s) }'))
        seqs = [cs]
        for _ in range(nseq):
            seqs.append([rng.choice(cs) for _ in range(length)])
        s.seqs = []
        for j, q in enumerate(seqs):
            text, na, nv = render(s, q, j)
            a0 = len(out)
            out += text.split('\n')
            out.append('pub const A%d: [u128; %d] = [%s];' % (j, na, ', '.join(str(rand_arg(rng)) for _ in range(na))))
            out.append('pub const C%d: [u128; %d] = q%d(&A%d);' % (j, nv, j, j))
            for ln in range(a0 + 1, len(out) + 1):
                tags[ln] = k
            s.seqs.append((q, nv))
            names.append((k, j))
        out.append('}')
    out.append('fn main() { use std::hint::black_box;')
    for k, j in names:
        out.append('{ let r = black_box(c%d::q%d)(black_box(&c%d::A%d)); let c = black_box(&c%d::C%d); for i in 0..r.len() { if r[i] != c[i] { println!("DIFF %d %d {} {:#x} {:#x}", i, c[i], r[i]); break } } println!("RAN %d %d {}", r.len()); }' % (k, j, k, j, k, j, k, j, k, j))
    out.append('}')
    return '\n'.join(out) + '\n', tags


def sequences(r, rig, S, tag, rng, nseq, seen, with_=''):
    """Runs call sequences in constants and at run time; returns the declarations used."""
    S = [s for s in S if s.arg('new') or s.arg('builder') or s.arg('from_into_bits')]
    rng.shuffle(S)
    groups = [S[i::16] for i in range(16)]
    work = [(i, g, program(random.Random('C19/%s/%s/%s' % (r.seed, tag, i)), g, nseq, 60)) for i, g in enumerate(groups)]

    def one(x):
        i, g, (t, tags) = x
        return g, tags, rig.compile('q%s_%d' % (tag, i), t, run=True)
    for g, tags, o in rig.map(one, work):
        if not o.ok:
            from .decls import where
            hit = sorted({tags[ln] for e in o.errs for ln in where(e) if ln in tags})
            s = g[hit[0]] if hit else None
            r.violation(with_ + 'const/' + (s.id if s else 'probe'), '%sa generated function cannot be evaluated in a constant, or not at all:\n%s\n%s' % (with_ and 'with the compiler %s ' % with_[:-1], s.decl() if s else '', o.rendered()[:1200]),
                        {'declaration': s.decl() if s else None})
            continue
        if o.run_rc != 0:
            r.violation(with_ + 'run', 'what is evaluated in constants fails at run time: ' + o.err[-800:], {'declarations': [s.decl() for s in g]})
        for line in o.out.splitlines():
            w = line.split()
            s = g[int(w[1])]
            if w[0] == 'RAN':
                r.evaluations += int(w[3])
                r.count('sequences')
                q = s.seqs[int(w[2])][0]
                for name, _ in q:
                    seen.add((s.id, name))
                    fn = name if name not in {f.plain for f in s.fields} else '<field>'
                    if not any(f.plain in name or f.plain.upper() in name for f in s.fields):
                        r.extra.setdefault('by_function', {})[fn] = r.extra.setdefault('by_function', {}).get(fn, 0) + 1
            else:
                q = s.seqs[int(w[2])][0]
                r.violation('%sdiff/%s/%s' % (with_, s.id, w[2]), 'value %s of a call sequence is %s in a constant but %s at run time:\n%s\n%s' % (w[3], w[4], w[5], s.decl(), '; '.join(st for _, st in q)[:800]), {'declaration': s.decl(), 'sequence': [st for _, st in q]})
    return S


def run(r):
    r.rule = RULE
    r.assumptions = ['the compile-time evaluator is that of the installed compiler']
    rig = Rig('rig19')
    seen = set()
    for batch in range(10 if r.thorough else 1):
        rng = random.Random('C19/%s/%s' % (r.seed, batch))
        S = []
        if batch == 0:
            S += [s for s in sc.corners() if not s.heap and not s.ignored]
        n = 240 if r.thorough else 72
        while n:
            s = sc.rand_schema(rng, 'k%d' % n, rng.choice(sc.PICK) if n % 8 else '[u8; %d]' % rng.choice([40, 65, 100, 129, 200, 257]), prot=.4, defaults=.5, feature_off=.1 if n % 3 == 0 else 0, endians=.4, heap=False)
            S.append(s)
            n -= 1
        S = sequences(r, rig, S, batch, rng, 6 if r.thorough else 3, seen)
        r.count('declarations', len(S))
        r.samples += [{'declaration': s.decl()[:300], 'sequence': [st for _, st in s.seqs[-1][0]][:12]} for s in S[::max(1, len(S) // 6)] if hasattr(s, 'seqs')][:6]
        if r.violations:
            break
    r.distinct = len(seen)
