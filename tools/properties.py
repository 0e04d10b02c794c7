#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

G = 'bitfields_impl/src/generating/bitfield/features/'
P = 'bitfields_impl/src/parsing/'
HELPER = G + 'common/generator_helper.rs'

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': x, 'where': files[min(i, len(files) - 1)]} for i, x in enumerate(mechanism)],
                               'observe_at': observe or ['the generated functions, constants and trait implementations, called by the harness']},
                      technique=technique, note=note))


prop('C01', 'Every field occupies exactly its declared, consecutive bits',
     'In a bitfield with least-significant-first order each field starts where the previous one ends, counting up from bit 0; with most-significant-first order the first field ends at the top bit and each next one lies directly below. Field widths are the declared bits (or the full width of the type), fields never overlap and together cover every bit. The published width and offset constants state exactly those positions.',
     ['inputs', 'configurations'], 'every backing type, field order, sequence of field types and widths',
     'Tests pin a few layouts; an offset slip that shows only for some width, position, order or storage needs every shape.',
     [P + 'bitfields/bitfield_parser.rs', G + 'field_constants_feature.rs', HELPER], ['offset calculation', 'width inference', 'field constants'],
     'runtime monitor: one-hot and complement states against a layout model; lsb/msb mirror twins in lockstep',
     'Every bit of every generated declaration is probed on real executions; declarations are sampled, not enumerated.')
prop('C02', 'Field writes round-trip, truncate to width, and touch nothing else',
     'After writing any value to a field, reading the field returns the value reduced to the field\'s width: zero-extended for unsigned, sign-extended for signed, exact for booleans, byte arrays and user types. No other field, readable or not, changes by even a bit. Reading never changes anything.',
     ['inputs', 'histories'], 'every field type, width, position, storage, value and prior state',
     'The value, width, offset, storage and neighbouring state multiply far beyond sampled tests.',
     [G + 'field_getters_feature.rs', G + 'field_setters_feature.rs', HELPER], ['masking', 'sign extension', 'read-modify-write'],
     'runtime monitor: reference-model oracle on every read, write and full state',
     'Boundary, one-hot and random values on all fields of some 300 declarations per run, full state compared after each.')
prop('C03', 'Checked writes succeed exactly for values that fit',
     'A checked field write, on a bitfield or its builder, succeeds exactly when the value is representable in the field\'s width (two\'s complement range for signed fields, unsigned range otherwise), and then has the same effect as the unchecked write. Otherwise it returns an error and leaves the bitfield as it was. It never rejects a fitting value or silently truncates.',
     ['inputs', 'histories'], 'every field type, width, storage and value, including values whose excess bits lie outside the storage type',
     'The boundary depends on width, signedness, type and storage at once; each test shows one point.',
     [HELPER, G + 'field_setters_feature.rs', G + 'builder_feature.rs'], ['bit size checks before and after casts'],
     'runtime monitor: reference-model oracle, all one-hot and boundary values per field',
     'Every single-bit, prefix and complement value of each field type is tried on each generated declaration.')
prop('C04', 'Construction yields exactly the declared defaults and zeroes elsewhere',
     'A newly constructed bitfield (plain, default trait or builder) holds every declared default and zero in every other field; construction without defaults holds zero everywhere except reserved defaults. Conversions with defaults hold the source bits except for fields with defaults. A builder changes just the fields it is given, in any order, and can also set read-only fields.',
     ['inputs', 'configurations'], 'every declaration, mix of defaults, access, options and builder call sequence',
     'Each combination of option, access, type and default takes another code path.',
     [G + 'new_functions_feature.rs', G + 'default_trait_feature.rs', G + 'builder_feature.rs', HELPER], ['default and zero initialisation', 'builder'],
     'runtime monitor: reference-model oracle on constructors and builder histories',
     'All constructors and random builder chains on each generated declaration, including ones with constructors switched off.')
prop('C05', 'Integer conversions are lossless and honour byte order',
     'Converting any integer into a bitfield and back with the same byte order returns the same integer (up to what user types normalise), for all bits including reserved and protected ones. Big-endian conversions keep the integer as is, little-endian ones swap its bytes, and the plain conversions and the From traits use the configured order for each direction independently.',
     ['inputs', 'configurations'], 'every integer value, layout and combination of configured byte orders',
     'Byte-order mistakes hide behind palindromic or small values and untested configurations.',
     [G + 'from_into_bits_feature.rs', G + 'from_traits_feature.rs', 'bitfields_impl/src/generating/common/endian_conversion.rs'], ['from/into conversions', 'byte swaps'],
     'runtime monitor: reference-model oracle on conversions',
     'Asymmetric, one-hot and random integers in both directions under all byte-order configurations.')
prop('C06', 'Array and slice conversions are lossless, ordered and bounds-safe',
     'Converting bytes into an array-backed bitfield and back in the same byte order returns the same bytes; little-endian is least significant byte first, big-endian the reverse. A slice that is too short is zero-filled and one that is too long is cut, while the checked forms fail exactly when the slice is too short. Writing into a slice fills exactly the bytes that fit and touches no byte beyond the bitfield\'s own length.',
     ['inputs', 'configurations'], 'every array length, slice length, byte order and content',
     'Length, order and content combine; off-by-one errors only show for particular lengths.',
     [G + 'from_into_bits_feature.rs', G + 'from_traits_feature.rs'], ['slice copies', 'byte reversal'],
     'runtime monitor: reference-model oracle with guard-filled buffers',
     'Slice lengths around each boundary, guard bytes in output buffers, all byte orders.')
prop('C07', 'Protected and reserved bits survive every operation history',
     'No sequence of setters, bit, range, write, clear or invert operations changes a bit of a read-only, inaccessible or reserved field, other than clearing and defaulting operations, which put the declared default or zero there. Bit and range reads never disclose bits of write-only or inaccessible fields. Checked bit operations on such bits fail.',
     ['histories', 'inputs'], 'every access mix, layout, and sequence of operations',
     'A leak may need a particular neighbour, range or sequence of operations.',
     [G + 'set_get_bit_ops_feature.rs', G + 'write_bit_ops_feature.rs', G + 'invert_bit_ops_feature.rs', G + 'clear_bit_ops_feature.rs', HELPER], ['access guards and masks'],
     'runtime monitor: state of protected bits tracked over random histories',
     'The protected part of the state is compared after each operation of long random histories.')
prop('C08', 'Bit and range operations act on exactly the requested bits',
     'Single-bit and range reads and writes affect or return exactly the addressed bits, shifted to bit 0 for ranges, with excess value bits ignored. Any offset or length that is out of bounds, however large, makes the unchecked form do nothing (or return zero) and the checked form fail without effect. An empty in-bounds range succeeds and does nothing.',
     ['inputs', 'histories'], 'every offset and length of 32 bits, value, layout and state',
     'There are 2^64 offset and length pairs; overflow and edge conditions are a handful of them.',
     [G + 'set_get_bit_ops_feature.rs'], ['bounds checks', 'range masks', 'access guards'],
     'runtime monitor: reference-model oracle under hostile offsets and lengths',
     'All offsets, all or edge (offset, length) pairs, and wrap-around arguments on each declaration.')
prop('C09', 'Write and clear operations set exactly the fields they may',
     'Writing a whole value replaces exactly the writable fields, in the configured or named byte order, and the forms with defaults then put every default back. Clearing the bitfield gives the state of a new bitfield, with or without its defaults. Clearing a field zeroes (or defaults) that field alone.',
     ['inputs', 'histories'], 'every layout, access mix, value, byte order and prior state',
     'Interplay of access, defaults, order and storage.',
     [G + 'write_bit_ops_feature.rs', G + 'clear_bit_ops_feature.rs', HELPER], ['whole-value writes', 'clears'],
     'runtime monitor: reference-model oracle on writes and clears',
     'Patterned states and values, each byte order, with and without defaults; array writes are checked in the byte order the repository\'s own tests pin (known finding).')
prop('C10', 'Inversion flips exactly the right bits and undoes itself',
     'Inverting a field flips exactly that field\'s bits; the inverted reading returns the complement, within the field\'s width and sign-extended for signed fields, and changes nothing. Inverting the bitfield flips every writable bit and no other. Inverting twice restores the state, up to what user types normalise.',
     ['inputs', 'histories'], 'every field type, width, layout, access mix and state',
     'Complement masks go wrong only for particular widths, signs or storage.',
     [G + 'invert_bit_ops_feature.rs'], ['complement masks'],
     'runtime monitor: reference-model oracle on inversions',
     'Every raw value of narrow fields, patterns on wide ones, on each declaration.')
prop('C11', 'Bitflags map between bits and variants exactly, totally and in order',
     'A bitflag converts the bits of each variant to that variant, any other bits to the base (or else default) variant, and each variant back to its declared bits, with the configured byte orders applied. The conversion is total and a variant\'s bits always come back as the same variant when both byte orders agree.',
     ['inputs', 'configurations'], 'every enum of every size and every bit pattern',
     'Only particular values and variant sets expose a wrong arm or byte order.',
     ['bitfields_impl/src/generating/bitflag/bitflag_generator.rs', P + 'bitflags/bitflag_parser.rs', P + 'bitflags/bitflag_arguments.rs'], ['match arms', 'byte order'],
     'runtime monitor: exhaustive u8/u16 and boundary inputs on generated enums against a table oracle',
     'All inputs for 8 and 16 bits; variants, neighbours and random values for wider types.')
prop('C12', 'Behaviour does not depend on how the bits are stored',
     'The same fields declared on an integer, on a byte array of the same size, on the heap, or next to ignored fields behave identically: the same calls return the same values and leave the same bits. Only signatures, byte order conventions and memory layout differ.',
     ['histories', 'configurations'], 'every field list and sequence of operations, across storage kinds',
     'Tests look at each storage kind on its own.',
     [HELPER, G + 'set_get_bit_ops_feature.rs', G + 'from_into_bits_feature.rs'], ['parallel code paths per storage kind'],
     'runtime monitor: lockstep differential traces of storage twins',
     'Model-free comparison of twin traces, each operation and the full state.')
prop('C13', 'Valid declarations compile and invalid ones are rejected',
     'Declarations that follow the documented rules compile. Declarations that break one are rejected at compile time: bits that do not add up, widths that do not fit the type or are zero, unsupported types, defaults out of range, unknown or malformed arguments, access on reserved fields, missing base variants. No declaration is accepted and then laid out differently from what it says.',
     ['inputs'], 'every declaration',
     'Each test declares one case; the boundary is a surface over types, widths and totals.',
     [P + 'bitfields/bitfield_parser.rs', P + 'bitfields/bitfield_attribute/bitfield_arguments.rs', P + 'bitfields/bits_attribute/bits_arguments.rs', P + 'common/attribute_argument_parser.rs', P + 'bitflags/bitflag_parser.rs'],
     ['validation of bits, types, defaults and arguments'],
     'runtime monitor: macro run on generated valid and invalid declarations, accept/reject oracle',
     'Pairs of declarations just inside and just outside each rule; messages are not judged.')
prop('C14', 'Options and access decide exactly which functions exist',
     'Each option turns its functions or traits on or off and nothing else, the master bit operation switch yields to explicit groups, and field access decides which accessors, constants, builder and clear or invert functions exist. Functions exist with the documented names for every field that has them and for none that does not.',
     ['configurations'], 'every combination of options, access and storage',
     'Combinations of some fifteen options are never enumerated by tests.',
     [P + 'bitfields/bitfield_attribute/bitfield_arguments.rs', G + 'builder_feature.rs', G + 'field_getters_feature.rs', G + 'set_get_bit_ops_feature.rs', 'bitfields_impl/src/generating/bitfield/feature.rs'], ['feature gating'],
     'runtime monitor: compiled probes observe which items and traits exist',
     'Probes for each documented item on generated option sets, compared with the expected surface.')
prop('C15', 'Cargo features change only the defaults of options',
     'With no Cargo feature all options have their documented defaults; each feature changes the default of its option, an enabling feature wins over a disabling one, and an explicit argument always wins over features. Behaviour under any feature set equals that of spelling those defaults out as arguments, except that a bit operation group enabled only by a feature stays off under a master switch that is off.',
     ['configurations'], 'every set of Cargo features and arguments',
     'The test suite runs with none, all and default features only.',
     [P + 'bitfields/bitfield_attribute/bitfield_arguments.rs', P + 'bitflags/bitflag_arguments.rs', P + 'common/conversion_endian.rs'], ['feature resolution'],
     'runtime monitor: probes built under many feature sets',
     'Single features, conflicting pairs and random sets, observed through the generated interface.')
prop('C16', 'Generated code never panics, misuses memory or allocates',
     'No generated function panics, overflows, shifts out of range or indexes out of bounds for any argument, in checked or optimised builds, and both builds behave alike. Code for bitfields that are not on the heap never allocates and works without the standard library; heap bitfields free what they take. No undefined behaviour is reachable from safe code.',
     ['inputs', 'histories', 'configurations'], 'every declaration, argument and history',
     'Overflow needs particular extremes, and tests run in one build mode.',
     [HELPER, G + 'set_get_bit_ops_feature.rs', G + 'from_into_bits_feature.rs', 'bitfields/src/lib.rs'], ['arithmetic in generated code', 'no_std paths'],
     'sanitizers: overflow-checked, release, AddressSanitizer and Miri runs with an allocation-counting allocator; no_std build',
     'The same workloads in each build mode; Miri and AddressSanitizer on a subset.')
prop('C17', 'Ignored fields, visibility and attributes pass through untouched',
     'Ignored fields are ordinary struct fields: they start at their type\'s default and no bitfield operation touches them or is affected by them. Generated items have the visibility of the field or bitfield they belong to, never more: a field without a visibility of its own takes the bitfield\'s, and accessors that its access mode withholds stay private. Attributes on the struct, enum or variant reach the generated item.',
     ['configurations', 'histories'], 'every ignored type, visibility and attribute',
     'Tests live in the crate, where private items are visible, and use a few ignored types.',
     [G + 'bitfield_struct_feature.rs', P + 'common/visibility.rs', P + 'bitfields/bitfield.rs', 'bitfields_impl/src/generating/bitflag/bitflag_generator.rs'], ['visibility resolution', 'ignored fields', 'attribute forwarding'],
     'runtime monitor: ignored state tracked over histories; probes from other modules observe visibility',
     'Ignored values are compared after each operation; visibility is probed from inside, beside and outside the module.')
prop('C18', 'Debug output shows every field\'s current value',
     'Formatting a bitfield with Debug prints its name and every field in declaration order with the current numeric value, signed fields with their sign, in plain and alternate form and with the formatter\'s options (such as hexadecimal or width) applied to the values. Formatting never changes the bitfield or fails.',
     ['inputs'], 'every declaration and state',
     'Tests compare a few strings.',
     [G + 'debug_trait_feature.rs'], ['Debug implementation'],
     'runtime monitor: text oracle from the reference model',
     'Patterned and random states of each declaration.')
prop('C19', 'Compile-time and run-time evaluation agree',
     'Every generated function of a bitfield that is not on the heap and has no ignored fields can be called in constants, and evaluating any sequence of them at compile time gives the same result as running it.',
     ['inputs', 'histories'], 'every declaration and call sequence',
     'Few tests evaluate constants.',
     [HELPER, 'bitfields_impl/src/generating/bitflag/bitflag_generator.rs'], ['const function modifiers'],
     'runtime monitor: generated const programs against run-time execution and the model',
     'Random call sequences compiled as constants and executed at run time.')
prop('C20', 'User types, bitflags and nested bitfields compose faithfully',
     'A field of a user type is stored as what the type converts to and read back through the type\'s own conversion, in every storage, order and access. Nested bitfields and bitflags keep their own defaults, byte order and normalisation inside the outer one. The outer bitfield never stores bits that the type did not produce, other than through raw bit operations.',
     ['inputs', 'configurations'], 'every user type, width, position and value',
     'Tests nest a few types with identity conversions.',
     [HELPER, G + 'field_getters_feature.rs', G + 'invert_bit_ops_feature.rs'], ['from_bits/into_bits calls'],
     'runtime monitor: reference-model oracle with lossy, bijective, nested and enum types',
     'Types that normalise, permute or nest, on integer and array storage.')
prop('C21', 'Default values mean exactly what is written',
     'A default written as a literal in any notation, base, suffix or sign, or as a constant, constant function, array or other constant expression, is stored as exactly that value in the field\'s two\'s complement width, in every place defaults are used. Literals outside the field\'s range (above its unsigned maximum, below its signed minimum, or negative on an unsigned field) are rejected and never wrap; up to its unsigned maximum, a positive literal on a signed field is a bit pattern.',
     ['inputs'], 'every notation, type, width and value',
     'Notation, sign, width and storage multiply.',
     [P + 'common/const_expr.rs', P + 'bitfields/bitfield_parser.rs', HELPER], ['literal parsing', 'default conversion'],
     'runtime monitor: generated literals observed through constructors, and an accept/reject oracle at the range boundary',
     'Random literals in every notation, at and around each width boundary.')
prop('C22', 'The macros answer every input with code or a proper diagnostic',
     'Whatever tokens the attributes and items contain, the macros finish with generated code or a compile error about the input. They never crash, hang or report an internal error, and a rejected item yields no partly generated code.',
     ['inputs'], 'every attribute and item token sequence',
     'Tests contain about a hundred fixed erroneous inputs.',
     [P + 'common/const_expr.rs', P + 'common/attribute_argument_parser.rs', P + 'bitfields/bitfield_parser.rs', P + 'bitflags/bitflag_parser.rs', 'bitfields_impl/src/lib.rs'], ['parsing', 'panic containment'],
     'runtime monitor: mutated declarations expanded by the real macro, internal-error and crash detector',
     'Thousands of mutated token streams per run.')

prop('C23', 'Declarations work in any surroundings',
     'A valid declaration compiles without errors or warnings and works the same wherever Rust allows the item: in modules, function bodies, constants, closures and trait methods, under cfg_attr, through renamed or absolute paths, produced by macro_rules from tokens or typed fragments, beside common aliases such as a Result type, in every edition from 2018, and in crates that deny warnings and missing documentation. Generated code contains no unsafe code.',
     ['configurations'], 'every declaration and place',
     'Tests declare everything at the top of lenient test modules.',
     [G + 'builder_feature.rs', P + 'common/spanned_data_type.rs', P + 'common/attribute_argument_parser.rs', 'bitfields_impl/src/generating'], ['paths, documentation and lint attributes in generated code', 'fragments of macro_rules'],
     'runtime monitor: generated declarations in many places, lints and editions, compiled and executed',
     'Every kind of place for a rotating part of the declarations; names that collide with the prelude are outside.')
prop('C24', 'Expansion depends on the declaration alone',
     'The same declaration always expands to the same code, in every compiler run, and whatever other declarations, even of the same name, stand before, after or beside it.',
     ['histories', 'configurations'], 'every sequence of declarations in a crate and every compiler run',
     'No test expands a declaration twice.',
     ['bitfields_impl/src/lib.rs', 'bitfields_impl/src/generating/bitfield/bitfield_generator.rs', P + 'common/attribute_argument_parser.rs'], ['ordering of generated features and fields', 'state of the macro between invocations'],
     'runtime monitor: expansions recorded from separate compiler processes and orders, compared',
     'Reordered, repeated and isolated expansions of each declaration.')

prop('C25', 'Errors of checked operations name the actual cause',
     'Every checked operation that fails returns a static text that names what was wrong with that call: the value, the offset, the length, the slice, or the reading or writing of protected bits. A bad offset is named before a bad length, and either before a protection. The same text never stands for two different causes.',
     ['inputs', 'histories'], 'every checked operation, declaration, state and failing argument',
     'Tests mostly look at is_err(), and each at one argument.',
     [G + 'set_get_bit_ops_feature.rs', G + 'from_into_bits_feature.rs', HELPER], ['range and protection checks and their order', 'slice length checks', 'bit size checks'],
     'runtime monitor: the text of every error compared with the cause the reference model finds',
     'Hostile offsets, lengths, values and slices on every generated declaration; wording beyond the named cause is free.')
prop('C26', 'A bitfield is its storage in memory and nothing more',
     'A bitfield has the size, alignment, niches, drop behaviour, thread-safety traits and FFI-safety of its backing integer or array, or of one heap box holding exactly the array when asked for; its memory is the documented bits. With ignored fields it is the C structure of the storage followed by those fields in order. A bitflag is the plain enum of its integer type with the written values.',
     ['configurations', 'inputs'], 'every declaration, ignored field type and value',
     'No test measures a type, and layout depends on the ignored types and options.',
     [G + 'bitfield_struct_feature.rs', 'bitfields_impl/src/generating/bitflag/bitflag_generator.rs'], ['repr attributes', 'struct fields', 'bitflag repr'],
     'runtime monitor: size, offset, trait, allocator and raw memory probes against handwritten twins',
     'Hundreds of declarations with random ignored field types per run, live heap bytes recorded by a counting allocator.',
     ['size_of, align_of, offset_of, trait probes, raw reads and the global allocator in generated programs'])

prop('C27', 'A rejected declaration is reported at the mistake',
     'When a declaration is rejected, every error the macro reports has a place inside that declaration, and where the mistake is on one line (a field, its type, its attribute, a struct argument, a variant) the place meets that line and not some other field; for one of several struct arguments it meets that argument and no other. Valid declarations before and after a rejected one are neither blamed nor lost.',
     ['inputs'], 'every malformed declaration and every position of the mistake in it',
     'The compile-fail tests are few and each has one mistake in one place; an error that points at the wrong field or at nothing still passes them.',
     [P + 'bitfields/bitfield_parser.rs', P + 'bitfields/bits_attribute/bits_attribute_parser.rs', P + 'common/attribute_argument_parser.rs', P + 'bitflags/bitflag_parser.rs', 'bitfields_impl/src/lib.rs'],
     ['field checks', 'attribute checks', 'argument checks', 'bitflag checks', 'error reporting'],
     'runtime monitor: error spans recorded from running the macros over malformed declarations among valid neighbours',
     'Every rule of C13 with random shape, position and neighbours; spans as the compiler reports them.',
     ['the JSON diagnostics of the compiler running the macros'])

prop('C28', 'Generated documentation states the true bit positions',
     'The documentation generated for a bitfield says what is so: every accessor of a field, on the bitfield or its builder, names exactly the bits of that field, in bits, in the direction of the bit order; a signed getter names the true sign bit; a checked function says that it returns an error; a field constant names its field; byte-order and defaults variants say so. Nothing generated is undocumented.',
     ['inputs', 'configurations'], 'every declaration',
     'No test reads the generated documentation, and the positions in it vary with every declaration.',
     [G + 'field_getters_feature.rs', G + 'clear_bit_ops_feature.rs', G + 'invert_bit_ops_feature.rs', G + 'field_constants_feature.rs', HELPER], ['getter text', 'clear text', 'invert text', 'constant text', 'setter text'],
     'runtime monitor: documentation recorded by running rustdoc over generated declarations, against the layout model',
     'Hundreds of declarations and some 25,000 documented items per run; wording is judged by numbers, units and key words.',
     ['the documentation of generated items, as rustdoc reports it'])


prop('C29', 'Behaviour does not depend on the machine',
     'The same declaration behaves identically on every machine: for any history of calls, results, panics and errors, and states are the same whatever the byte order and the word size of the machine the program runs on. In particular the byte orders of conversions are the declared or named ones, never that of the machine, and no value is truncated to a machine word.',
     ['inputs', 'configurations'], 'every declaration, history and target machine',
     "The repository's tests run on one machine, where byte order and word size are fixed.",
     ['bitfields_impl/src/generating/common/endian_conversion.rs', G + 'from_into_bits_feature.rs', G + 'write_bit_ops_feature.rs', G + 'from_traits_feature.rs', HELPER], ['generate_bits_variable_endian_conversion_tokens', 'from_le_bits', 'write_le_bits', 'From traits', 'array field extraction'],
     'differential runtime monitor: the same recorded workload on this machine and interpreted by Miri for a 32-bit big-endian one (thorough: further machines), traces compared event by event',
     'Machines are interpreted, not real; some tens of thousands of events per run.',
     ['results and states of every call, on each machine'])


prop('C30', 'Works the same with every compiler',
     'The crate does the same with stable, beta and nightly compilers: the same declarations are accepted and rejected, with the same errors; generated functions are constant functions with all of them; warnings, results and states of every call are the same. Nothing that only a nightly compiler offers is needed or changes the outcome.',
     ['configurations', 'inputs'], 'every declaration and supported compiler',
     'The repository pins one nightly compiler, with which all its tests run; users build with stable ones.',
     [HELPER, 'bitfields_impl/src/parsing/common/spanned_token.rs', 'bitfields_impl/src/parsing/common/compiler_error.rs', 'bitfields_impl/src/lib.rs'], ['supports_const_mut_refs', 'locate_at_call_site', 'create_user_parsing_compiler_error'],
     'differential runtime monitor: verdicts, errors, recorded call traces and constant evaluation with the pinned nightly and each installed stable compiler, and one posing as beta, compared',
     'Stable compilers 1.98.1 and 1.99.1 are installed; older ones are not.',
     ['verdicts and JSON errors of each compiler', 'results and states of every call with each compiler'])


def main():
    from vlib import checks
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k not in ('technique', 'note')}
            f.write(json.dumps(q) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
    for p in PROPS:
        if p['id'] in checks.CHECKS:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py check ' + p['id'], 'thorough_cmd': 'python3 run.py check %s thorough' % p['id'],
                                'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'not built yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
