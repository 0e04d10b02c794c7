"""C26: what a bitfield or bitflag is in memory, against a handwritten twin."""
import random
import re

from . import schema as sc, surface
from .passthru import OWN, OWNED
from .rig import Rig

RULE = ('Each generated declaration stands beside a handwritten twin (the backing integer or array, its Box, a repr(C) struct with the ignored fields in order, or a plain repr enum). A program with a '
        'recording allocator compares size, alignment, niches, field offsets, auto traits, drop glue and FFI lints of both, reads the storage through memory after random conversions, writes it, and '
        'weighs the live allocations. A case is one comparison; distinct ones differ in declaration and compared aspect.')

PRELUDE = r'''
#![allow(warnings)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub static BYTES: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); BYTES.fetch_add(l.size() as isize, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); BYTES.fetch_sub(l.size() as isize, SeqCst); unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static ALLOC: A = A;
pub fn weigh<T>(f: impl FnOnce() -> T) -> (T, isize, isize) { let (a, b) = (LIVE.load(SeqCst), BYTES.load(SeqCst)); let t = f(); (t, LIVE.load(SeqCst) - a, BYTES.load(SeqCst) - b) }
#[macro_export] macro_rules! has { ($t:ty: $($b:tt)*) => {{
    struct P<T: ?Sized>(core::marker::PhantomData<T>); trait No { const V: bool = false; } impl<T: ?Sized> No for P<T> {} impl<T: ?Sized + $($b)*> P<T> { const V: bool = true; } <P<$t>>::V }} }
#[macro_export] macro_rules! same { ($n:expr, $at:expr, $a:expr, $b:expr) => {{ println!("CASE"); let (a, b) = ($a, $b); if a != b { println!("BAD {} {}: {:?}, the twin has {:?}", $n, $at, a, b); } }} }
#[macro_export] macro_rules! shape { ($n:expr, $s:ty, $h:ty) => {{
    same!($n, "size", size_of::<$s>(), size_of::<$h>());
    same!($n, "alignment", align_of::<$s>(), align_of::<$h>());
    same!($n, "size of Option", size_of::<Option<$s>>(), size_of::<Option<$h>>());
    same!($n, "drop glue", core::mem::needs_drop::<$s>(), core::mem::needs_drop::<$h>());
    same!($n, "Send", has!($s: Send), has!($h: Send));
    same!($n, "Sync", has!($s: Sync), has!($h: Sync));
    same!($n, "Unpin", has!($s: Unpin), has!($h: Unpin));
    same!($n, "UnwindSafe", has!($s: std::panic::UnwindSafe), has!($h: std::panic::UnwindSafe));
    same!($n, "RefUnwindSafe", has!($s: std::panic::RefUnwindSafe), has!($h: std::panic::RefUnwindSafe));
    same!($n, "Copy", has!($s: Copy), has!($h: Copy));
    same!($n, "Clone", has!($s: Clone), has!($h: Clone));
}} }
'''


def twin(s, own, copy):
    """(declaration of H, whether S is a tuple)."""
    b = 'Box<%s>' % s.backing if s.heap else s.backing
    if not copy:
        der = ''
    elif s.heap:
        der = '#[derive(Clone)] '
    else:
        der = '#[derive(Clone, Copy)] '
    if not own:
        return der + '#[repr(transparent)] pub struct H(%s);' % b
    return der + '#[repr(C)] pub struct H { val: %s, %s }' % (b, ', '.join('ign%d: %s' % (k, ty) for k, ty in enumerate(own)))


PLAIN = ['u8', 'u16', 'u64', 'u128', 'bool', '[u8; 3]', '[u16; 5]', '()', 'char', "&'static str", 'f64', 'usize', 'Option<u32>', 'PhantomData<u8>']


def case(rng, i):
    b = rng.choice(sc.PICK)
    heap = sc.is_arr(b) and rng.random() < .45
    s = sc.rand_schema(rng, 'l%d' % i, b, customs=.15, feature_off=0, ignored=0, heap=heap, endians=.4)
    for k in ('new', 'from_into_bits', 'copy', 'bit_ops', 'default', 'builder'):
        s.args.pop(k, None)
    if heap:
        s.args['array_heap'] = True
    copy = rng.random() < .6
    own = []
    if rng.random() < .45:
        own = [rng.choice(PLAIN if copy else PLAIN + [t for t, _ in OWN]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    if not copy:
        s.args['copy'] = False
    pos = sorted(rng.randrange(len(s.fields) + 1) for _ in own)
    t = sc.clone_with(s, 'l%d' % i, ignored=[(p, (ty, 0, '', '')) for p, ty in zip(pos, own)])
    n = 'l%d' % i
    o = ['mod %s { use bitfields::bitfield; use crate::*; use crate::own::*; use crate::types::{self, *}; use std::cell::*; use std::rc::Rc; use std::collections::*; use std::marker::PhantomData; use core::mem::*;' % n,
         s.pre, t.decl(), twin(t, own, copy), 'pub fn go() {', 'shape!("%s", S, H);' % n]
    for k in range(len(own)):
        o.append('same!("%s", "offset of ignored field %d", offset_of!(S, ign%d), offset_of!(H, ign%d));' % (n, k, k, k))
    u = 'bytes' if s.arr else 'bits'
    mask = '[u8; %d]' % (s.nbits // 8) if s.arr else b
    lit = lambda v: str(list(v.to_bytes(s.nbits // 8, 'little'))) if s.arr else '%d' % v
    e = 'le' if s.arr else 'be'
    o.append('unsafe fn look(s: &S) -> %s { let p = s as *const S; unsafe { %s } }' % (mask, '**(p as *const *const %s)' % mask if heap else '*(p as *const %s)' % mask))
    o.append('unsafe fn poke(s: &mut S, v: %s) { let p = s as *mut S; unsafe { %s = v } }' % (mask, '**(p as *mut *mut %s)' % mask if heap else '*(p as *mut %s)' % mask))
    custom = any(f.ty in sc.CUSTOM for f in s.fields)
    conv = (lambda x: x) if s.arr or copy else (lambda x: 'unsafe { core::ptr::read(&%s) }' % x)
    for v in [0, (1 << s.nbits) - 1] + [rng.getrandbits(s.nbits) for _ in range(4)]:
        o.append('{ let mut s = S::from_%s_%s(%s);' % (e, u, lit(v)))
        if not custom:
            o.append('same!("%s", "storage", unsafe { look(&s) }, %s);' % (n, lit(v)))
        w = rng.getrandbits(s.nbits)
        o.append('unsafe { poke(&mut s, %s) }; ' % lit(w))
        # Read back the raw storage through the bitfield's own fields.
        for f, off in zip(s.fields, s.offsets()):
            if f.has_getter and f.ty not in sc.CUSTOM and not sc.is_arr(f.ty):
                raw = w >> off & ((1 << f.bits) - 1)
                if f.ty == 'bool':
                    x = 'true' if raw else 'false'
                elif sc.signed(f.ty) and raw >> (f.bits - 1):
                    x = str(raw - (1 << f.bits))
                else:
                    x = str(raw)
                o.append('same!("%s", "%s read from written storage", s.%s(), %s);' % (n, f.plain, f.name, x))
        o.append('}')
    drops = any(re.search(r'Noisy|String|Vec|Box|Rc|BTree|Owned|Item', ty) for ty in own)
    if not drops:
        want = '(1, %d)' % (s.nbits // 8) if heap else '(0, 0)'
        calls = ['S::new()', 'S::from_%s_%s(%s)' % (e, u, lit(5)), 'SBuilder::new().build()', '<S as Default>::default()']
        if copy:
            calls.append('S::new().clone()')
        for c in calls:
            o.append('{ let (x, n, b) = weigh(|| %s); same!("%s", "live allocations and bytes of %s", (n, b), %s); let (_, n, b) = weigh(move || drop(x)); let w: (isize, isize) = %s; same!("%s", "allocations given back by %s", (-n, -b), w); }' % (
                c, n, c.split('(')[0], want, want, n, c.split('(')[0]))
    o.append('} }')
    return '\n'.join(o), t.decl(), t, own


def flag_case(rng, i):
    w = rng.choice(sc.UINTS)
    k = rng.choice([1, 2, 3, 5, 9])
    vals = set()
    while len(vals) < k:
        vals.add(rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w), rng.getrandbits(min(w, 8))]))
        k = min(k, 1 << w)
    vals = list(vals)
    rng.shuffle(vals)
    base = rng.randrange(len(vals))
    copy = rng.random() < .7
    end = rng.choice(['', ', from_endian = little, into_endian = little', ', from_endian = big', ', into_endian = little'])
    n = 'e%d' % i
    body = ', '.join('%sV%d = %s' % ('#[base] ' if j == base else '', j, hex(v) if rng.random() < .5 else v) for j, v in enumerate(vals))
    d = '#[bitflag(u%d%s%s)] pub enum S { %s }' % (w, end, '' if copy else ', copy = false', body)
    o = ['mod %s { use bitfields::bitflag; use crate::*; use core::mem::*; %s' % (n, d),
         '%s#[repr(u%d)] pub enum H { %s }' % ('#[derive(Clone, Copy)] ' if copy else '', w, ', '.join('V%d = %d' % (j, v) for j, v in enumerate(vals))),
         'pub fn go() { shape!("%s", S, H);' % n]
    for j, v in enumerate(vals):
        o.append('same!("%s", "value of V%d", S::V%d as u%d, %du%d);' % (n, j, j, w, v, w))
        o.append('{ let x = S::V%d; same!("%s", "memory of V%d", unsafe { *(&x as *const S as *const u%d) }, %du%d); }' % (j, n, j, w, v, w))
    o.append('} }')
    return '\n'.join(o), d


def ffi(rng, rig, r, batch):
    """The same FFI lints for a bitfield and its twin."""
    todo = []
    for i in range(16 if not r.thorough else 48):
        rg = random.Random('C26f/%s/%s/%d' % (r.seed, batch, i))
        body, d, t, own = case(rg, i)
        copy = 'copy' not in t.args
        items = '%s\n%s' % (t.pre, '%s')
        ext = '#[deny(improper_ctypes_definitions)] pub extern "C" fn f(x: %s, y: &mut %s, z: *const %s) -> Option<%s> { None }'
        ext = '#[deny(improper_ctypes_definitions)] pub extern "C" fn f(x: %s, y: &mut %s) {}\n#[deny(improper_ctypes_definitions)] pub extern "C" fn g() -> %s { todo!() }'
        head = '#![allow(warnings)]\npub mod own { %s }\npub mod types {\n%s\n}\nuse own::*; use types::*; use std::cell::*; use std::rc::Rc; use std::collections::*; use std::marker::PhantomData; use bitfields::bitfield;\n%s\n' % (OWNED, surface.types_rs(), t.pre)
        todo.append((i, d, head + t.decl() + '\n' + ext.replace('%s', 'S'), head + twin(t, own, copy) + '\n' + ext.replace('%s', 'H')))

    def one(c):
        i, d, a, b = c
        f = ['-Adead_code']
        return rig.compile('ffi%d_%d' % (batch, i), a), rig.compile('ffih%d_%d' % (batch, i), b)
    for (i, d, a, b), (x, y) in zip(todo, rig.map(one, todo)):
        r.observe(2, 1)
        r.count('ffi_lint_comparisons')
        r.count('ffi_safe' if y.ok else 'not_ffi_safe')
        lint = lambda o: sorted(set(m['message'].replace('`H`', '`S`') for m in o.errs))
        if not x.ok and any('improper_ctypes' not in ((m.get('code') or {}).get('code') or '') for m in x.errs):
            r.violation('compile', 'a valid declaration no longer compiles:\n%s\n%s' % (d, x.rendered()[:1200]), {'declaration': d})
        elif x.ok != y.ok:
            r.violation('ffi', 'the FFI lints of a bitfield (%s) and of its handwritten twin (%s) differ:\n%s' % (lint(x) or 'none', lint(y) or 'none', d), {'declaration': d})


def run(r):
    r.rule = RULE
    r.assumptions = ['the twins state the documented representation (repr(transparent), repr(C) with the storage first, repr of the bitflag)']
    rig = Rig('layout')
    for batch in range(6 if r.thorough else 1):
        n, size = (32, 7)

        def one(i):
            rng = random.Random('C26/%s/%s/%d' % (r.seed, batch, i))
            mods, decls = [], []
            for j in range(size):
                m, d = case(rng, j)[:2]
                mods.append(m)
                decls.append(d)
            for j in range(4):
                m, d = flag_case(rng, j)
                mods.append(m)
                decls.append(d)
            calls = ' '.join('l%d::go();' % j for j in range(size)) + ' '.join('e%d::go();' % j for j in range(4))
            src = PRELUDE + 'pub mod own { %s }\npub mod types {\n%s\n}\n' % (OWNED, surface.types_rs()) + '\n'.join(mods) + '\nfn main() { %s println!("DONE"); }' % calls
            return decls, rig.compile('lay%d_%d' % (batch, i), src, run=True)
        for i, (decls, o) in enumerate(rig.map(one, range(n))):
            if not o.ok:
                r.violation('compile', 'valid declarations no longer compile beside their twins:\n%s\n%s' % (o.rendered()[:1500], '\n'.join(decls)[:1500]), {'declarations': decls})
                continue
            lines = o.out.strip().split('\n')
            k = lines.count('CASE')
            r.observe(k, k)
            r.count('comparisons', k)
            r.count('declarations', len(decls))
            bad = [x for x in lines if x.startswith('BAD')]
            for x in bad[:3]:
                name = x.split()[1]
                d = decls[int(name[1:]) + (size if name[0] == 'e' else 0)]
                r.violation('%d/%s' % (i, x[:50]), 'a declaration differs from its handwritten twin in %s\n%s' % (x[4:], d), {'declaration': d})
            if o.run_rc or lines[-1] != 'DONE':
                r.violation('%d/crash' % i, 'the program comparing declarations with their twins ended early: %s\n%s' % (o.err[:600], '\n'.join(decls)[:1500]), {'declarations': decls})
            if i < 5:
                r.samples.append({'declaration': decls[i][:400], 'comparisons': k})
        ffi(None, rig, r, batch)
        if r.violations:
            break
