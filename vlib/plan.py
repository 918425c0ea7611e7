"""What decides each property: contracts (Verus obligations), Kani harnesses, native harnesses."""

# Harnesses (selected by substring) that Kani proves for each property.
KANI = {
    'C01': ['layout::proofs::c01', 'align_pow2'],
    'C02': ['layout::proofs::c02', 'align_pow2'],
    'C03': ['layout::proofs::c03'],
    'C04': ['::c04'],
    'C05': ['::c05'],
    'C06': ['::c06'],
    'C07': ['proofs::c07'],
    'C08': ['proofs::c08', 'align_pow2'],
    'C09': [],
    'C10': ['align_pow2'],
    'C11': [],
    'C12': ['proofs::c12'],
    'C13': ['proofs::c13'],
    'C14': ['proofs::c14'],
}
# Harnesses whose input space Kani covers only up to a bound: never counted as proved.
BOUNDED = ('writer::',)

# Alignments are powers of two, as the traits demand; a function that Verus cannot relate to the arithmetic of its contract
# (bit tricks) is still right when Kani proves it for those.
# Obligations about Bool and the built-in forms (a finite list of types) are also Kani's, on the compiled crate: when its proofs of the same
# property all go through, an obligation that Verus cannot discharge is its own limit.
KANI_TOO = {'forms', 'bool', 'std140/primitives', 'std430/primitives'}
KANI_INSTEAD = {('internal', 'align_offset'): 'layout::proofs::align_pow2'}

# The property that an obligation of a function belongs to when the failed clause carries no tag of its own.
OWN = [
    ('std140/writer', r'write_std|::new|::len|::write$', ['C08']),
    ('std430/writer', r'write_std|::new|::len|::write$', ['C08']),
    ('std140/writer', r'write_iter|write_slice', ['C09']),
    ('std430/writer', r'write_iter|write_slice', ['C09']),
    ('std140/traits', r'for \[T\]::write_std', ['C09']),
    ('std430/traits', r'for \[T\]::write_std', ['C09']),
    ('std140/traits', r'std140_size', ['C10']),
    ('std430/traits', r'std430_size', ['C10']),
    ('std140/traits', r'for T::write_std', ['C08']),
    ('std430/traits', r'for T::write_std', ['C08']),
    ('std140/traits', r'for T::(as|from)_std', ['C05']),
    ('std430/traits', r'for T::(as|from)_std', ['C05']),
    ('std140/sizer', r'.', ['C10']),
    ('std430/sizer', r'.', ['C10']),
    ('internal', r'align_offset', ['C01', 'C02', 'C08']),
    ('internal', r'max_arr', ['C01', 'C02']),
    ('internal', r'max$', ['C12']),
    ('derive', r'std140 (padding|ALIGNMENT|members|form|_)', ['C01']),
    ('derive', r'std430 (padding|ALIGNMENT|members|form|_)', ['C02']),
    ('derive', r'std\d+ (as|view)$', ['C04']),
    ('derive', r'std\d+ (from|there and back)$', ['C05']),
    ('derive', r' glsl ', ['C13']),
    ('glsl', r'.', ['C13']),
    ('std140/dynamic_uniform', r'.', ['C12']),
    ('forms', r' layout$', ['C03']),
    ('forms', r'^names', ['C13']),
    ('forms', r'::from_std\d+$', ['C05']),
    ('forms', r' bytes$', ['C04', 'C06']),
    ('forms', r'.', ['C04', 'C05', 'C06']),
    ('bool', r'.', ['C07']),
    ('std140/primitives', r'for bool', ['C07']),
    ('std430/primitives', r'for bool', ['C07']),
    ('std140/primitives', r'.', ['C03']),
    ('std430/primitives', r'.', ['C03']),
]
# Which of the generated items each property needs.
PARTS = {
    'C01': ('std140',),
    'C02': ('std430',),
    'C03': ('forms',),
    'C04': ('std140', 'std430', 'forms'),
    'C05': ('std140', 'std430', 'forms'),
    'C06': ('std140', 'std430', 'forms'),
    'C07': ('forms',),
    'C13': ('glsl', 'forms'),
}
# Properties with obligations among the contracts.
CONTRACTS = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14'}

# Properties of what the derives generate.
DERIVES = {'C01', 'C02', 'C04', 'C05', 'C06', 'C13'}

SEARCH_SECONDS = {'quick': 15, 'thorough': 240}
# On the release build, which differs from the other in debug assertions and overflow checks.
RELEASE_SECONDS = {'quick': 6, 'thorough': 60}
# When a proof does not go through and nothing has failed yet.
DEEP_SECONDS = {'quick': 75, 'thorough': 240}

EXTRACTION = ('tools/extract (main.rs): deletes doc comments, #[deprecated], #[cfg(feature = "std")] (taken as on), test items, macros, '
              '`mod`/`pub use` items, renames `bytemuck` to `crate::bytemuck`, inserts contracts; turns a constant with a contract into a function '
              'of the same expression; no statement or expression is changed')
LIFTING = ('tools/extract (bin/lift.rs), on rustc\'s own expansion of the derives: placeholder field types become type parameters, `::crevice::` becomes '
           '`crate::`, trait functions become inherent ones with `Self::Output` written out, constants and padding lengths become bodies of functions, '
           'padding arrays become an opaque type whose length is under contract; attributes (repr(C) is checked), visibility and Debug/Clone impls are dropped')
VERUS_TRUST = ['Verus 0.2026.09.13 and its Z3', 'vstd (iterators, Vec, slices, str, String, size_of, align_of)', EXTRACTION,
               'assume_specification/external traits in contracts/model.rs: std::io::Write::write_all and write, std::io::sink, bytemuck::bytes_of (axiom_pod_len), bytemuck::Zeroable::zeroed']
DERIVE_TRUST = [LIFTING, 'rustc -Zunpretty=expanded prints what it compiles',
                'the repr(C) algorithm of the Rust reference (derived.rs: c_off, c_size, c_align), and that a repr(C) struct without gaps is its members\' bytes in order (axiom_bytes)',
                'the members of an all-zero struct are all-zero (axiom_zero, axiom_pad_zero)',
                'evaluating a constant gives what the function with its expression gives']
FORMS_TRUST = ['tools/extract (bin/forms.rs), on rustc\'s own expansion of the crate: its header lists what it takes and how it rewrites it',
               'contracts/forms.rs: sizes of the primitive types, repr(C), the bytes of the all-zero value; mint\'s and cgmath\'s types as stand-ins with their public components; '
               'the conversions of glam and nalgebra to mint\'s types and back are inverse to each other (all of this is measured on the real crates by the Kani proofs)']
DYNAMIC_TRUST = ['repr(transparent) keeps size and bytes (axiom_transparent; the attribute is checked for)']
KANI_TRUST = ['Kani 0.68.0 and CBMC', 'rustc (MIR of the real crate, with the macros expanded by the real proc-macro crate)',
              'harness specification /verif/harness/src/{spec,types,structs}.rs']


def TRUSTED(p):
    return ((VERUS_TRUST if p in CONTRACTS else []) + (DERIVE_TRUST if p in DERIVES else []) + (FORMS_TRUST if 'forms' in PARTS.get(p, ()) else []) + (DYNAMIC_TRUST if p in ('C07', 'C12') else [])
            + (KANI_TRUST if KANI[p] else []))


def ASSUMED(p):
    a = []
    if p in ('C08', 'C09', 'C10', 'C11', 'C14'):
        a += ['a sink obeys the documented contract of std::io::Write::write_all: success means the whole buffer was taken, failure that a prefix was',
              'iterators given to write_iter obey vstd\'s iterator laws (a fixed sequence, then None for ever)',
              'user implementations of AsStd140/AsStd430/WriteStd140/WriteStd430 meet the trait contracts (the crate\'s own are verified)',
              'positions stay within usize (precondition of every write)', 'termination of loops over user iterators is not claimed']
    if p in ('C04', 'C08', 'C09'):
        a += ['bytemuck::bytes_of returns the bytes of its argument (checked on the real crate for the supported types by the Kani proofs of C04)']
    if p in ('C01', 'C02', 'C04', 'C06'):
        a += ['a field\'s form meets what the unsafe layout traits ask: its alignment is a power of two that Rust\'s own alignment of it divides (shown for '
              'the built-in forms by C03, for derived forms by the obligation `nests`); the struct fits the address space']
    if p in DERIVES:
        a += ['the generated code is under contract for structs of ' + ', '.join(map(str, __import__('vlib.derives', fromlist=['COUNTS']).COUNTS))
              + ' fields, for all field types; other field counts only through native tests of generated shapes (up to 126 fields)',
              'the generated code does not depend on the names of types or fields beyond what the native shapes vary (aliases, paths, generics of fields, raw identifiers, attributes, visibility)']
    return a


EXPLAIN = {
    'C01': 'Verus proves, on what the derive generates, for all field types: every padding function, the alignment, and that repr(C) then puts each field at its std140 offset and gives the std140 size; '
           'also align_offset, max and max_arr for all inputs. Kani proves size, alignment and offsets of concrete struct families against an independent evaluator of the GLSL rules, and align_offset at all powers of two.',
    'C02': 'As C01, for std430 (least alignment 1).',
    'C03': 'Verus proves, from the members of every built-in form and the repr(C) rules, its size, alignment and component or column offsets in both layouts. Kani proves the same of the compiled crate (the space is finite and fully enumerated).',
    'C04': 'Verus proves, for all field types, that the bytes of a derived form are the fields\' bytes at their offsets and zero elsewhere, without gaps, and that the byte view is all of them; for every built-in type, that its form is its components\' bytes and zero elsewhere. '
           'Kani proves, over all bit patterns of all components, that the byte view of every supported type and of the struct families equals the specified bytes, every byte read.',
    'C05': 'Verus proves that a derived struct comes back field by field when its field types do, for all field types, and that every built-in type comes back. Kani proves decode(encode(v)) == v bit for bit over all bit patterns of all components, '
           'for every supported type and the struct families.',
    'C06': 'Verus proves that every field of a derived struct is converted by its own type and lands at its offset, for all field types, and that every component of every built-in type lands at its GLSL offset. Kani proves that every component lands at its GLSL position, '
           'for every type of every math library, over all bit patterns.',
    'C07': 'Verus proves the conversions of Bool and the forms of bool and of bool vectors for all values and all words. Kani proves the same of the compiled crate, and of bool vectors and structs, over all values and all 32-bit words.',
    'C08': 'Verus proves the contracts of Writer::new/write/write_std*/len for all types, alignments, sinks and histories.',
    'C09': 'Verus proves the contracts of slice and iterator writes by loop invariant, for all element types and lengths.',
    'C10': 'Verus proves Sizer, std*_size and std*_size_static against the same specification as the writer, and the lemma that the two agree, for all types and positions.',
    'C11': 'Verus proves the failure postconditions (error passed on, prefix received, length not ahead) of every writing function for all sinks.',
    'C12': 'Verus proves the wrapper\'s alignment, conversions and bytes for every inner type, and max. Kani proves that wrapping changes only the alignment, for every supported type, over all bit patterns.',
    'C13': 'Verus proves glsl_definition for every list of fields, the NAME and FIELDS that the derive generates, and the name of every built-in type. Kani proves the names of every built-in type and the definitions of the struct families.',
    'C14': 'Verus proves that slice elements are one size-rounded-to-alignment apart for every element type and position (lemma_stride over the C09 contracts); Kani proves that this equals the GLSL stride '
           'for every supported element type except the listed findings, which are measured on the real code.',
}
BOUNDED_TEXT = {
    'C08': 'Kani writer harnesses: at most a few writes per history, small offsets (labelled bounded; the unbounded statement is the Verus contract). Native random search over longer histories.',
    **{p: 'native: generated struct shapes (vlib/shapes.py), random values' for p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C13')},
}


def TECHNIQUE(p):
    parts = []
    if p in CONTRACTS:
        parts.append('Verus contracts on functions extracted from /repo')
    if KANI[p]:
        parts.append('Kani pre/postcondition proofs on the real crate')
    return 'contract-based deductive verification: ' + ' + '.join(parts)
