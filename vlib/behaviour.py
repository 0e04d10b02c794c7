"""Checks that drive generated bitfields and compare every result and state with
the reference model."""
import random

from . import harness, schema as sc

# Properties of the operations, for errors in the calls themselves.
KTAGS = {
    'New': ['C04'], 'NewWd': ['C04'], 'Default': ['C04'], 'BNew': ['C04'], 'BNewWd': ['C04'], 'BDefault': ['C04'], 'BBuild': ['C04'],
    'BWith': ['C04'], 'BCWith': ['C03', 'C04'], 'From': ['C05', 'C06'], 'FromTrait': ['C05', 'C06'], 'Into': ['C05', 'C06'],
    'IntoTrait': ['C05', 'C06'], 'FromSlice': ['C06'], 'CFromSlice': ['C06'], 'IntoSlice': ['C06'], 'CIntoSlice': ['C06'],
    'Get': ['C02'], 'Set': ['C02'], 'CSet': ['C03'], 'InvGet': ['C10'], 'InvertF': ['C10'], 'Invert': ['C10'],
    'SetBit': ['C08'], 'CSetBit': ['C08'], 'GetBit': ['C08'], 'CGetBit': ['C08'], 'SetRange': ['C08'], 'CSetRange': ['C08'],
    'GetRange': ['C08'], 'CGetRange': ['C08'], 'Debug': ['C18'], 'DebugAlt': ['C18'], 'ConstBits': ['C01'], 'ConstOff': ['C01'],
    'IgnGet': ['C17'], 'IgnSet': ['C17'], 'CopyIso': ['C14'], 'ClearF': ['C09'], 'ClearFDef': ['C09'], 'Write': ['C09'],
    'WriteDefaults': ['C09'], 'Clear': ['C09'], 'ClearD': ['C09'], 'x': ['C04'],
}

RULE = ('Bitfield declarations are generated (corner cases, a fixed corpus and random ones from the seed, biased towards the property); '
        'the real macro expands them and the monitor runs directed sweeps and random histories on the result, comparing each return value and '
        'the whole state read back after each operation with a bit-level reference model. A case is an operation the property speaks about; '
        'distinct ones differ in declaration, operation, field, argument class (fit, width, offset, length, endianness) or outcome.')

# property: (random declarations, options, twins, reversed twins, backings)
INTS = ['u8', 'u16', 'u32', 'u64', 'u128']
ARRS = ['[u8; %d]' % n for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 33, 64)]
PLAN = {
    'C01': dict(n=90, opt=dict(customs=.1), rev=25),
    'C02': dict(n=130, opt=dict(customs=.1, feature_off=.05)),
    'C03': dict(n=130, opt=dict(customs=.15, feature_off=.05, prot=.2, arrays=.15)),
    'C04': dict(n=130, opt=dict(defaults=.7, prot=.45, feature_off=.3)),
    'C05': dict(n=130, opt=dict(endians=.8, defaults=.5), backings=INTS),
    'C06': dict(n=130, opt=dict(endians=.8, defaults=.5), backings=ARRS),
    'C07': dict(n=130, opt=dict(prot=.8, res=.3, feature_off=.02)),
    'C08': dict(n=130, opt=dict(prot=.5, res=.2, feature_off=.02)),
    'C09': dict(n=130, opt=dict(defaults=.6, prot=.5, res=.2, endians=.6, feature_off=.02)),
    'C10': dict(n=130, opt=dict(prot=.5, res=.2, feature_off=.02)),
    'C12': dict(n=10, opt={}, twins=60),
    'C16': dict(n=130, opt=dict(arrays=.2)),
    'C17': dict(n=130, opt=dict(ignored=1.0, feature_off=.2, defaults=.5)),
    'C18': dict(n=130, opt=dict(feature_off=.0, arrays=.2, prot=.5, res=.2)),
    'C20': dict(n=130, opt=dict(customs=.85, defaults=.5, feature_off=.1)),
    'C25': dict(n=130, opt=dict(prot=.5, res=.2, customs=.2, arrays=.2, feature_off=.02)),
    'C21': dict(n=130, opt=dict(defaults=.95, customs=.15, arrays=.15)),
}


def width_sweep(rng, full, tag):
    """Fields of every width and integer type, packed in order of a shuffle."""
    out = []
    pairs = []
    for w in sc.UINTS:
        lo = w // 2 if w > 8 else 0
        for k in range(1, w + 1):
            for s in 'ui':
                if full or k > lo or rng.random() < 0.08:
                    pairs.append((s + str(w), k))
    rng.shuffle(pairs)
    # Integer-backed, two or three fields per u128/u64.
    if not full:
        pairs = pairs[:160]
    for i, (ty, k) in enumerate(pairs):
        b = next(x for x in (rng.choice([8, 16, 32, 64, 128]), 64, 128) if x >= k)
        if full or i % 2 == 0:
            fs = [sc.Field('a', ty, k)]
            left = b - k
            if left:
                pre = rng.randrange(0, left + 1)
                if pre:
                    fs.insert(0, sc.Field('_p', 'u128', pre))
                if left - pre:
                    fs.append(sc.Field('z', 'u128', left - pre))
            out.append(sc.Schema('%sw_%s_%d' % (tag, ty, k), 'u%d' % b, fs, {'order': 'msb'} if rng.random() < .4 else {}))
    # Array-backed: many fields each.
    i = 0
    n = 0
    while i < len(pairs):
        chunk = pairs[i:i + 14]
        i += 14
        fs = [sc.Field('f%d' % j, ty, k) for j, (ty, k) in enumerate(chunk)]
        tot = sum(f.bits for f in fs)
        pad = -tot % 8
        if pad:
            fs.insert(rng.randrange(len(fs) + 1), sc.Field('_p', 'u8', pad))
        out.append(sc.Schema('%swa_%d' % (tag, n), '[u8; %d]' % ((tot + pad) // 8), fs, {'order': 'msb'} if rng.random() < .4 else {}))
        n += 1
    return out


def schemas_for(prop, seed, batch=0, full=False):
    plan = PLAN[prop]
    rng = random.Random('%s/%s/%s' % (prop, seed, batch))
    out = []
    if batch == 0:
        out += sc.corners() + sc.base_corpus() + sc.big_corners()
        if prop in ('C01', 'C02', 'C03', 'C10', 'C16'):
            out += width_sweep(rng, full, 'q')
        frng = random.Random('fixed twins')
        out += sc.twin_groups(frng, 6 if prop != 'C12' else 12, 'twf')
        if prop == 'C01':
            out += sc.rev_groups(random.Random('fixed rev'), 8, 'revf')
    n = plan['n'] * (3 if full else 1)
    for i in range(n):
        o = dict(ignored=.1)
        o.update(plan['opt'])
        b = rng.choice(plan.get('backings', sc.PICK))
        out.append(sc.rand_schema(rng, 'r%d_%d' % (batch, i), b, **o))
    out += sc.twin_groups(rng, plan.get('twins', 2), 'tw%d_' % batch)
    if plan.get('rev'):
        out += sc.rev_groups(rng, plan['rev'], 'rev%d_' % batch)
    seen = set()
    for s in out:
        assert s.id not in seen, s.id
        seen.add(s.id)
    return out


def run(r, name='behaviour', release=False, batches=None):
    prop = r.prop
    r.rule = RULE
    r.assumptions = ['the reference model states the documented behaviour', 'values outside the generated declarations and histories were not run']
    batches = batches or (12 if r.thorough else 1)
    for batch in range(batches):
        S = schemas_for(prop, r.seed, batch, full=r.thorough)
        one(r, name, S, release, {'VP_FULL': '1' if r.thorough else '0', 'VP_ROUNDS': '40' if r.thorough else '10', 'VP_LEN': '80' if r.thorough else '60'})
        if r.violations:
            break


def report_problems(r, problems):
    for s, tag, rendered in problems:
        tags = [r.prop] if tag == 'decl' else KTAGS.get(tag, []) + ['C14']
        if tag in ('decl', 'x') or r.prop in tags:
            r.violation('compile/%s/%s' % (s.id, tag), 'a valid declaration, or a documented call on it, no longer compiles:\n%s\n%s' % (s.decl(), rendered[:1200]),
                        {'declaration': s.decl(), 'error': rendered})


def one(r, name, S, release, envx, types=True):
    prop = r.prop
    try:
        built, problems = harness.build_harness(name, S, release=release)
    except harness.TypesFailed as e:
        r.violation('types', 'the custom field types (bitflags and nested bitfields) no longer compile:\n' + str(e)[:1500])
        return
    report_problems(r, problems)
    if built.dir is None:
        return
    viol, st = harness.run_bins(built, prop, r.seed, extra=envx)
    for v in viol:
        if prop in v['tags']:
            r.violation(v['schema'] + v['key'], v['what'] + '\n  in: ' + v['decl'][:600], {'declaration': v['decl'], 'history': v['history'], 'tags': v['tags']})
    r.observe(st.get('relevant', 0), st.get('distinct', 0))
    r.samples += st.get('samples', [])[:12]
    r.count('declarations', st.get('schemas', 0))
    r.count('monitored_events', st.get('events', 0))
    r.count('distinct_states', st.get('states', 0))
    harness.merge(r.extra.setdefault('by_operation', {}), st.get('by_kind', {}))
    harness.merge(r.extra.setdefault('outcomes', {}), st.get('outcomes', {}))
    if st.get('heap_allocs'):
        r.count('heap_allocations_of_heap_bitfields', st['heap_allocs'])
    if st.get('other'):
        harness.merge(r.extra.setdefault('seen_in_passing', {}), st['other'])
