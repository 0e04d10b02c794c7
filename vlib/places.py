"""C27: where the errors about a rejected declaration are, and what happens to its neighbours."""
import random
import re

from . import decls, schema as sc, surface
from .rig import Rig

RULE = ('Each documented rule is broken once at a time in random declarations, at a place the generator knows (a field, a variant, an argument of the attribute). The real compiler reports its errors as '
        'JSON; every primary span, followed through expansions, must lie inside the declaration and one must meet the line, and for arguments the columns, of the mistake. Valid declarations stand before and '
        'after, with functions that use them, in modules and function bodies, and must draw no error. A case is one rejected declaration in one arrangement; distinct ones differ in text or arrangement.')
# What rustc itself reports about generated code; only the declaration is judged.
SOFT = ('default-not-a-value', 'flag value not an integer of the type', 'field-type char', 'field-type String', 'field-type str', 'field-type std::num::NonZeroU8',
        'field-type Missing', 'field-type Option<u8>')


def header(lines):
    return next((i for i, l in enumerate(lines) if l.startswith('pub ')), 0)


def judge(r, c, errors, first, at_all=True):
    """errors: (chain, message) relative to a line `first` before the text's."""
    lines = c.text.split('\n')
    h = header(lines)
    met = []
    for ch, m in errors:
        rel = [(a - first, z - first, x, y) for a, z, x, y in ch]
        if not rel:
            continue
        if any(a < 0 or z >= len(lines) for a, z, _, _ in rel):
            r.violation('outside/' + c.rule, 'an error about a rejected declaration (%s) is elsewhere: line %s of\n%s\n  %s' % (c.rule, rel, c.text, m), {'declaration': c.text, 'message': m})
            return
        met += rel
    if c.at is None or not met:
        return
    want = [0] if c.at == 'attr' else [h + 1 + i for i in c.at]
    hits = [x for x in met if x[0] in want and x[0] == x[1]]
    if not hits:
        # rustc's own limit on literals is not the macro's to report
        if c.rule not in SOFT and not any(m.startswith('integer literal is too large') for _, m in errors):
            r.violation('place/' + c.rule, 'the errors about a mistake (%s) on line %s are at lines %s of\n%s\n  %s' % (
                c.rule, want, sorted({x[0] for x in met}), c.text, '\n  '.join(m for _, m in errors)[:500]), {'declaration': c.text, 'messages': [m for _, m in errors]})
        return
    r.count('met_the_line')
    if c.snip:
        m = re.search(r'(?<=, )' + re.escape(c.snip) + r'(?=\s*[,)])', lines[0])
        a = m.start() if m else lines[0].index('(' + c.snip) + 1 if '(' + c.snip in lines[0] else lines[0].index(c.snip)
        alone = lines[0].rstrip().endswith('(%s)]' % c.snip)
        # it meets the argument and no other one
        if not any(x < a + len(c.snip) + 1 and y > a and (alone or x >= a - 2 and y <= a + len(c.snip) + 2) for _, _, x, y in [(p, q, x - 1, y - 1) for p, q, x, y in hits]):
            r.violation('column/' + c.rule, 'the errors about the argument `%s` are at columns %s (%s) of\n%s' % (
                c.snip, [x[2:] for x in hits], [lines[0][x - 1:y - 1] for _, _, x, y in hits], c.text), {'declaration': c.text})
        else:
            r.count('met_the_argument')


GOOD = ['#[bitfield(u16, order = msb)]\npub struct {n} {{ #[bits(4, default = 3)] pub a: u8, pub b: u8, #[bits(4)] _r: u8 }}\nfn f_{n}() -> u8 {{ let mut x = {n}::new(); x.set_b(4); x.a() }}',
        '#[bitfield([u8; 3])]\npub struct {n} {{ #[bits(20)] pub a: i32, #[bits(4, access = ro)] pub b: u8 }}\nfn f_{n}() -> i32 {{ {n}Builder::new().with_a(-4).build().a() }}',
        '#[bitflag(u8)]\npub enum {n} {{ #[base] A = 1, B = 2 }}\nconst K_{n}: u8 = {n}::B.into_bits();\nfn f_{n}() -> {n} {{ {n}::from_bits(K_{n}) }}']


def arranged(c, rng, where):
    """(text, first line of the declaration, its lines)."""
    g = [x.format(n='N%d' % i) for i, x in enumerate(rng.sample(GOOD, 2))]
    head = '#![allow(warnings)]\npub mod types {\n%s\n}\n' % surface.types_rs()
    inner = 'use bitfields::{bitfield, bitflag}; use crate::types::{self, *};\n%s\n' % c.pre
    if where == 'crate':
        pre = head + inner.replace('types::{self, *}', 'types::*') + g[0] + '\n'
        post = '\n' + g[1] + '\n'
    elif where == 'module':
        pre = head + 'pub mod m {\n' + inner + g[0] + '\n'
        post = '\n' + g[1] + '\n}\n'
    else:
        pre = head + 'fn body() {\n' + inner + g[0] + '\n'
        post = '\n' + g[1] + '\n}\n'
    return pre + c.text + post, pre.count('\n') + 1


def run(r):
    r.rule = RULE
    r.assumptions = ['mistakes that only rustc notices in generated code are judged by the declaration, not the line']
    rig = Rig('rig27')
    for batch in range(6 if r.thorough else 1):
        rng = random.Random('C27/%s/%s' % (r.seed, batch))
        cases = []
        for i in range(60 if not r.thorough else 150):
            s = sc.rand_schema(rng, 'x%d' % i, rng.choice(sc.PICK + ['[u8; 5]', '[u8; 20]']), customs=.1, defaults=.2, feature_off=.1, heap=False)
            cases += decls.break_rules(rng, s, 'x%d' % i)
        for i in range(30 if not r.thorough else 100):
            cases += [c for c in decls.flag_cases(rng, 'f%d' % i) if not c.accept]
        decls.observe(rig, cases, 'p')
        seen = set()
        for c in cases:
            r.observe(1, c.body() not in seen)
            seen.add(c.body())
            if c.outcome is not False:
                continue        # judged by C13
            r.count('rejected_declarations')
            if not c.errors:
                r.count('errors_without_a_place')
            judge(r, c, c.errors, (decls.PRE + '\n' + c.pre + '\n').count('\n'))
        # Neighbours.
        some = [c for c in cases if c.outcome is False and c.errors]
        rng.shuffle(some)
        some = some[:250 if not r.thorough else 600]
        todo = [(c,) + arranged(c, rng, w) + (w,) for k, c in enumerate(some) for w in [['crate', 'module', 'function'][k % 3]]]
        for k, ((c, text, first, w), o) in enumerate(zip(todo, rig.map(lambda x: rig.compile('n%d_%d' % (batch, todo.index(x)), x[1]), todo))):
            r.observe(1, 1)
            r.count('with_neighbours_in_a_' + w)
            if o.ok:
                r.violation('hidden/' + c.rule, 'a declaration rejected on its own is accepted in a %s between others:\n%s' % (w, c.text), {'declaration': c.text})
                continue
            n = len(c.text.split('\n'))
            for e in o.errs:
                ch = decls.chain(e, first)
                if ch and any(a < 0 or z >= n for a, z, _, _ in ch):
                    r.violation('neighbour/' + c.rule, 'a rejected declaration (%s) in a %s causes errors outside of it:\n%s\n%s' % (c.rule, w, c.text, (e.get('rendered') or e['message'])[:800]), {'program': text})
            judge(r, c, [(decls.chain(e, first), e['message']) for e in o.errs], 0)
        r.samples += [{'rule': c.rule, 'declaration': c.text[:250], 'message': c.messages[0][:150], 'lines': sorted({x[0] for ch, _ in c.errors for x in ch})} for c in cases[::max(1, len(cases) // 12)] if c.errors][:12]
        if r.violations:
            break
