"""writes properties.jsonl (kept as a script so that the texts stay reviewable)"""
import json
MODS = ['enum_vec/src/vec_u32/mod.rs', 'enum_vec/src/vec_u8/mod.rs', 'enum_vec/src/vec_u16/mod.rs', 'enum_vec/src/vec_u64/mod.rs', 'enum_vec/src/vec_u128/mod.rs', 'enum_vec/src/smallvec_u32/mod.rs']
ALLV = 'every element type that fits the storage block (from 1 bit per element to the whole block), every storage flavour, every length, every position and whatever earlier operations left in the unused part of the storage'
WHY = 'The unit tests run a few fixed lengths and element types, mostly on 32-bit blocks; the quantifier is over all widths, alignments and histories, where the block-boundary and left-over-bit cases live.'
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], observe_at=observe or [], hook_needed=None)))


ST = [dict(name='storage', meaning='blocks holding the packed elements, may be longer than needed and hold garbage past the end', where='struct EnumVec'),
      dict(name='num_elements', meaning='length', where='struct EnumVec')]

p('C01', 'Element access behaves like a plain vector',
  'After any sequence of creating a vector (empty or with a capacity), push, pop, set, swap, swap_remove, truncate and clear, a packed vector holds exactly the elements a plain vector would hold after the same calls, and len, is_empty and get report them. Every value returned by pop, swap_remove and get is the one the plain vector returns, and no other element changes. None of these calls panics when its positions are in range.',
  ['inputs', 'histories'], ALLV, WHY, MODS,
  [('get / set / push / pop / swap / swap_remove / truncate / clear', 'impl EnumVec'), ('packing of element i into block i/n at bit (i%n)*b', 'block_index, get_raw_unchecked, set_raw_unchecked')], ST, ['get', 'len', 'pop', 'swap_remove'])
p('C02', 'insert and remove shift exactly the right elements',
  'For a position up to the length, insert puts the new element there, moves every later element up by one and leaves every earlier one alone. For a position below the length, remove returns the element there, moves every later element down by one and leaves every earlier one alone. Neither panics for such positions.',
  ['inputs', 'histories'], ALLV, WHY + ' Both shift whole blocks at once.', MODS,
  [('insert: element-wise up to the block boundary, then block-wise shift', 'EnumVec::insert'), ('remove: element-wise, then block-wise from the back', 'EnumVec::remove')], ST, ['insert', 'remove', 'get'])
p('C03', 'Bulk operations build the same contents as a plain vector',
  'append moves all elements of the other vector to the end in order and leaves the other vector empty; split_off moves the elements from a position on into a new vector; extend, resize, retain, building from a repeated element, a slice, an iterator or a Vec, the vector literal macro and conversion back into a Vec all produce exactly the elements, in order, that the same operation on a plain vector produces. The macro evaluates each expression it is given once, the elements of a list in order. This holds whatever size hint the source iterator gives, as long as it is truthful. None of them panics when its positions are in range.',
  ['inputs', 'histories'], ALLV, WHY + ' Fast paths copy whole blocks when lengths happen to be aligned.', MODS + ['enum_vec/src/lib.rs'],
  [('append, block-aligned fast path', 'EnumVec::append'), ('extend_with_value, block fill', 'EnumVec::extend_with_value'), ('split_off, retain, Extend, FromIterator, From, Into', 'impl EnumVec'), ('enum_vec! macro', 'lib.rs')], ST, ['to_vec', 'get', 'len'])
p('C04', 'any and all answer for exactly the elements present',
  'any(x) is true exactly when some element of the vector equals x, and all(x) is true exactly when every element equals x (so it is true for the empty vector). The answer does not depend on anything stored beyond the length.',
  ['inputs', 'histories'], ALLV + ', and every value searched for', WHY + ' Both test a whole block with one subtraction trick.', MODS,
  [('block-wise search', 'EnumVec::any'), ('block-wise comparison', 'EnumVec::all')], ST, ['any', 'all'])
p('C05', 'Iteration yields every element once, in order, from both ends',
  'Iterating a vector by reference or by value yields its elements in order, each exactly once, whatever mix of next, nth and next_back is used, and the remaining counts reported by size_hint, len and count are exact. to_vec returns all elements in order. for_each calls the function on each element in order, once, and stores back what the function leaves.',
  ['inputs', 'histories'], ALLV + '; every interleaving of calls on the iterator', WHY + ' Interleavings of front and back calls are not tested.', MODS,
  [('iterators over an index range', 'EnumVecIter, EnumVecIntoIter'), ('for_each, to_vec', 'impl EnumVec')], ST, ['iter', 'into_iter', 'to_vec', 'for_each'])
p('C06', 'Equality, hashing and cloning depend only on the elements',
  'Two vectors compare equal exactly when they have the same length and equal elements in order. Equal vectors feed a hasher the same data, so they hash the same, and a clone has the same elements as the original. None of this depends on capacity or on what is stored beyond the length.',
  ['inputs', 'histories'], ALLV, WHY + ' Left-over bits differ between histories with the same result.', MODS,
  [('element-wise comparison and hashing', 'PartialEq, Hash'), ('derived Clone', 'struct EnumVec')], ST, ['==', 'Hash', 'clone'])
p('C07', 'Safe calls never touch storage outside its blocks or decode garbage',
  'No sequence of safe calls, with any arguments including positions out of range, reads or writes storage outside its initialized blocks. No such sequence asks the element type to decode a number that does not stand for one of its values. This holds also after a closure or iterator passed in has panicked, and for iterators whose size hint is wrong. A call that cannot be carried out panics instead, and a type with fewer than two values, or with more than a block can tell apart, is refused by the compiler.',
  ['inputs', 'histories'], ALLV + '; all arguments, also those out of range', 'Unchecked accesses that are out of bounds usually go unnoticed in a test; the tests run none of the operations at the boundaries under a checker.', MODS,
  [('unchecked block access', 'get_raw_unchecked, set_raw_unchecked and their callers'), ('storage long enough for the length', 'grow_if_needed, reserve, fix_storage'), ('decoding', 'get')], ST, ['process abort', 'from_discr'])
p('C08', 'Elements stay packed and capacity requests are honoured',
  'Each element takes the least number of bits that can tell its variants apart, and a storage block holds as many whole elements as fit. Building or growing a vector never leaves more than one storage block beyond what its length, the requested room, or its earlier storage needs, shrink_to_fit leaves exactly the blocks its length needs, and capacity is the number of allocated blocks times the elements per block. with_capacity(n) gives a capacity of at least n, and reserve(n) one of at least the length plus n, or panics when that overflows.',
  ['inputs', 'histories'], ALLV + '; all capacities requested', WHY + ' Nothing tests how many blocks are used, nor the widths above 8 bits.', MODS,
  [('bits per element, elements per block', 'BITS_PER_ELEM, ELEMS_PER_BLOCK'), ('reserve, shrink_to_fit, with_capacity, capacity', 'impl EnumVec')], ST, ['storage', 'capacity'])
p('C09', 'Out-of-range positions panic instead of returning',
  'set, swap, swap_remove and remove with a position at or past the length, and insert and split_off with a position past the length, panic and never return, in debug and in release builds. get with such a position returns None.',
  ['inputs', 'histories'], ALLV + '; every position out of range, up to the largest integer', 'Only a few operations have a should_panic test, each with one position just past the end.', MODS,
  [('bounds checks', 'get_raw, set_raw, assert in insert and split_off, unwrap in remove and swap')], ST, ['panic'])
p('C10', 'Built-in encodings are one-to-one onto 0..NUM_VARIANTS',
  'For unit, bool, Option, Result, tuples and arrays of encodable types, the number of variants is exactly the number of distinct values, to_discr maps the values one-to-one onto the integers from 0 to that number (exclusive), and from_discr is its inverse. Tuples and arrays encode every component, none of them mixed up. It holds for every nesting and every component type that itself satisfies it, types without values included; a type with more values than a usize can count does not compile.',
  ['inputs', 'configurations'], 'all component types obeying the trait contract whose number of variants fits a usize, all values, all tuple and array sizes implemented', 'The tests enumerate a handful of small types; sizes of tuples and arrays above a few components are never exercised.',
  ['enum_like/src/lib.rs'], [('impls of EnumLike', 'enum_like/src/lib.rs, macros tuple_impls and array_impls')], None, ['to_discr', 'from_discr', 'NUM_VARIANTS'])
p('C11', 'Enumerating values yields every value exactly once, in code order',
  'The iterator over the values of a type yields the values with codes 0, 1, 2, ... up to the number of variants, each once, and then nothing. After any mix of next and nth, size_hint, count and last report exactly what is left. nth(n) skips n values and returns the following one or, for any n at least the number left, nothing, and none of these calls panics.',
  ['inputs', 'histories'], 'every type obeying the trait contract, every interleaving of iterator calls, every n', 'The tests only collect whole ranges of small types; mixed calls and large skips are not tested.',
  ['enum_like/src/lib.rs'], [('Values iterator', 'struct Values'), ('values()', 'trait EnumValues')], None, ['values'])
p('C12', 'Packing a value into 8 or 16 bits gives it back unchanged',
  'For every encodable type with at most 2^8 (respectively 2^16) variants, packing any value and unpacking it returns the same value, and two packed values are equal exactly when their originals are. Types with more variants are rejected instead of being truncated.',
  ['inputs', 'configurations'], 'every type obeying the trait contract, every value', 'The tests pack a few values of small types, none at the 2^8 or 2^16 limit.',
  ['enum_like/src/lib.rs'], [('PackedU8, PackedU16', 'enum_like/src/lib.rs')], None, ['new', 'get'])
p('C13', 'Derived encodings are one-to-one onto 0..NUM_VARIANTS',
  'For a struct or enum with the derived encoding, the number of variants is exactly the number of distinct values, to_discr maps the values one-to-one onto the integers from 0 to that number (exclusive), and from_discr is its inverse. This holds for unit, tuple-like and named-field variants in any mix and order, explicit discriminants, and generic parameters, whatever encodable types the fields have; a type with more values than a usize can count does not compile.',
  ['programs', 'inputs'], 'type definitions (a family of shapes), all field types obeying the trait contract, all values', 'The examples derive a few types and check a few of their values; offsets and strides for mixed and multi-field variants are hardly covered.',
  ['enum_like_derive/src/lib.rs'], [('generated to_discr / from_discr / NUM_VARIANTS', 'derive macro'), ('mixed radix of fields, offsets of variants', 'from_discr_body, to_discr_body, num_variants_product, MatchArm')], None, ['derive(EnumLike)'])
p('C14', 'An enum set behaves like a mathematical set of its values',
  'insert and remove add and delete exactly the given value and report whether it was newly added, or was present; contains, len, is_empty, clear, the subset, superset and disjointness tests, the in-place union, intersection, difference and symmetric difference, and extending or collecting from an iterator agree with finite sets. A clone has the same members; two sets are equal exactly when they have the same members, and then hash the same; sets are ordered totally, as their members in code order compare one by one, so two compare as equal exactly when they are equal. Iterating a set, or the union, intersection, difference or symmetric difference of two sets, yields each member exactly once and nothing else, and the size hints given on the way are true bounds.',
  ['inputs', 'histories'], 'every type obeying the trait contract, all sets, all histories', 'The only test inserts and removes one value.',
  ['enum_set/src/lib.rs'], [('delegation to bit-set through to_discr / from_discr', 'enum_set/src/lib.rs')], [dict(name='inner', meaning='set of codes', where='struct EnumSet')], ['contains', 'iter', 'len'])
p('C15', 'Debug output lists exactly the elements',
  'Formatting a packed vector for debugging prints exactly the elements it holds, each as its own debug form, in order, and nothing else but the list punctuation; formatting an enum set prints each of its members once and nothing else but the set punctuation. This holds for the plain and the pretty form, and whatever is stored beyond the length.',
  ['inputs', 'histories'], ALLV + '; every set', 'No test looks at the output.', MODS + ['enum_set/src/lib.rs'], [('fmt::Debug', 'impl Debug'), ('iterators', 'EnumVecIter, WrapIter')], ST, ['{:?}', '{:#?}'])
open('properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
