"""C28: what the documentation generated for accessors and constants says about bits."""
import json
import os
import re
import subprocess

from . import harness, schema as sc
from .rig import Rig

RULE = ('rustdoc documents generated declarations (the macros running inside of it) and its JSON output is compared with the layout: every accessor of a field must name exactly the bits of the field, in bits, '
        'low to high or, with most-significant-first order, high to low; signed getters the sign bit; checked functions the error; constants their field; functions on the whole their byte order and defaults. '
        'A case is one documented item of one declaration; distinct ones differ in declaration.')
RANGE = re.compile(r'\b(bit|byte)(s?)\s+`?(\d+)(?:\s*\.\.=\s*(\d+))?`?')


def expected(s):
    """{(item, in builder): (what, field, offset)}"""
    want = {}
    for f, off in zip(s.fields, s.offsets()):
        if f.reserved:
            continue
        n = f.plain
        want[n, False] = ('get', f, off)
        want[n + '_inverted', False] = ('inverted', f, off)
        for p in ('set_', 'clear_', 'invert_'):
            want[p + n, False] = (p, f, off)
        want['checked_set_' + n, False] = ('checked', f, off)
        want['clear_%s_to_default' % n, False] = ('to_default', f, off)
        want['with_' + n, True] = ('with', f, off)
        want['checked_with_' + n, True] = ('checked', f, off)
        want[n.upper() + '_BITS', False] = ('width', f, off)
        want[n.upper() + '_OFFSET', False] = ('offset', f, off)
    return want


def about_field(s, what, f, off, doc):
    """What is wrong with the documentation, or None."""
    if what in ('width', 'offset'):
        if '`%s`' % f.plain not in doc and '`%s`' % f.name not in doc:
            return 'does not name the field %s' % f.name
        if re.search(r'\bbytes?\b', re.sub(r'`[^`]*`', '', doc)) and not re.search(r'\bbits?\b', re.sub(r'`[^`]*`', '', doc)):
            return 'is in the wrong unit'
        bare = re.sub(r'`[^`]*`', '', doc.lower())
        o = 'offset' in bare or 'position' in bare
        if o != (what == 'offset'):
            return 'tells the width and the offset apart wrongly'
        return None
    end = off + f.bits - 1
    m = RANGE.search(re.sub(r'sign[- ]bit.*', '', doc))
    if not m:
        return 'names no bits'
    if m.group(1) == 'byte':
        return 'is in the wrong unit'
    a, b = int(m.group(3)), int(m.group(4) or m.group(3))
    if (a, b) != ((end, off) if s.arg('order', 'lsb') == 'msb' else (off, end)):
        return 'names the bits %d..=%d of a field at %d..=%d' % (a, b, off, end)
    if what == 'get':
        g = re.search(r'sign[- ]bit\s+`?(\d+)', doc)
        if g and int(g.group(1)) != end:
            return 'calls bit %s the sign bit of a field at %d..=%d' % (g.group(1), off, end)
        if ('sign' in doc) != sc.signed(f.ty):
            return 'says of the sign what is not so'
    if (what == 'checked') != ('error' in doc.lower()) and not (what == 'checked' and f.ty == 'bool'):
        return 'says of errors what is not so'
    return None


def about_whole(name, doc):
    d = doc.lower()
    if not re.match(r'(checked_)?(from|into|write)_|clear_b|invert_b|new', name):
        return None
    if ('_le_' in name) != ('little' in d) or ('_be_' in name) != ('big' in d and 'too big' not in d or 'big-endian' in d):
        return 'says of the byte order what is not so'
    if ('default' in name) != ('default' in d):
        return 'says of defaults what is not so'
    return None


def document(g, name, S):
    """[(schema id, in builder, item name, documentation)] as rustdoc sees it."""
    o = ['#![allow(warnings)]', 'pub mod types {', sc.TYPES_RS.replace('//!', '//'), '}']
    ids = {}
    for k, s in enumerate(S):
        ids['case_%d' % k] = s
        o.append('pub mod case_%d { use crate::types::{self, *}; use bitfields::bitfield;\n%s\n%s\n}' % (k, s.pre, s.decl()))
    src = os.path.join(g.work, name + '.rs')
    with open(src, 'w') as f:
        f.write('\n'.join(o))
    out = os.path.join(g.work, name + '_doc')
    p = subprocess.run(['rustdoc', '--edition', '2021', '-Zunstable-options', '--output-format', 'json', '--document-private-items', '--cap-lints', 'allow', '--crate-name', 'docs', '-o', out, src] + g.args(),
                       env=harness.env(dict(g.env, RUSTC_BOOTSTRAP='1')), cwd=g.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode:
        raise harness.Broken('cannot document the declarations: ' + p.stderr.decode('utf8', 'replace')[-2000:])
    with open(os.path.join(out, 'docs.json')) as f:
        ix = json.load(f)['index']
    os.remove(os.path.join(out, 'docs.json'))
    res = []
    for it in ix.values():
        if it['name'] not in ids or 'module' not in it['inner']:
            continue
        for i in it['inner']['module']['items']:
            st = ix[str(i)]
            if 'struct' not in st['inner'] or st['name'] not in ('S', 'SBuilder'):
                continue
            res.append((ids[it['name']], st['name'] == 'SBuilder', None, st['docs']))
            for im in st['inner']['struct']['impls']:
                impl = ix[str(im)]['inner']['impl']
                if impl.get('trait'):
                    continue
                for x in impl['items']:
                    x = ix[str(x)]
                    # What is withheld is documented, too; a helper that no user can call need not be.
                    if x['visibility'] == 'default' and not x['docs'] and (x['name'], st['name'] == 'SBuilder') not in expected(ids[it['name']]):
                        continue
                    res.append((ids[it['name']], st['name'] == 'SBuilder', x['name'], x['docs']))
    return res


def run(r):
    r.rule = RULE
    r.assumptions = ['wording is judged by the numbers, units, names and key words in it']
    g = Rig('rig28')
    import random
    for batch in range(8 if r.thorough else 2):
        rng = random.Random('C28/%s/%s' % (r.seed, batch))
        S = (sc.corners() + sc.base_corpus()) if batch == 0 else []
        for i in range(120):
            S.append(sc.rand_schema(rng, 'o%d_%d' % (batch, i), rng.choice(sc.PICK + ['[u8; 5]', '[u8; 40]']), feature_off=.05, ignored=.1))
        parts = [S[k::harness.JOBS] for k in range(harness.JOBS)]
        for got in g.map(lambda kp: document(g, 'd%d_%d' % (batch, kp[0]), kp[1]), list(enumerate(parts))):
            cache = {}
            for s, builder, name, doc in got:
                if id(s) not in cache:
                    cache[id(s)] = expected(s)
                r.observe(1, 1)
                if name is None:
                    r.count('types')
                    bad = None if doc or not builder else 'is missing'
                elif not doc:
                    bad = 'is missing'
                elif (name, builder) in cache[id(s)]:
                    what, f, off = cache[id(s)][name, builder]
                    r.extra.setdefault('by_kind', {}).setdefault(what, 0)
                    r.extra['by_kind'][what] += 1
                    bad = about_field(s, what, f, off, doc)
                else:
                    r.count('functions_on_the_whole')
                    bad = about_whole(name, doc)
                if bad:
                    r.violation('docs/%s/%s' % (s.id, name), 'the documentation of %s%s %s: "%s"\n%s' % ('the builder\'s ' if builder else '', name, bad, doc, s.decl()), {'declaration': s.decl(), 'item': name, 'documentation': doc})
            r.samples += ['%s: %s' % (n, d) for _, _, n, d in got[5:1000:97]]
        r.count('declarations', len(S))
        if r.violations:
            return
