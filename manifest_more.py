EL = ('The impls of enum_like are taken from /repo after macro expansion on each run and proved by Verus function by function, for all component types and values; '
      'assumes the EnumLike contract of the component types and 64-bit usize. %s')
CL2 = {'C10': 'built-in encodings', 'C11': 'enumerating values', 'C12': 'packed values', 'C13': 'derived encodings', 'C14': 'enum sets', 'C15': 'debug output'}
NOTE = {
    'C10': dict(note=EL % 'All tuple and array arities are covered. A failed obligation alone is no alarm here (another one-to-one numbering would do): the replay over every arity on the real code then decides.'),
    'C11': dict(note=EL % 'When the code is restructured beyond the contracts, a bounded replay decides instead.'),
    'C12': dict(note=EL % 'Rejection of larger types is a constant underflow, proved to happen exactly above the limit; that rustc rejects it is replayed in the thorough tier.'),
    'C13': dict(level='translation_validation', technique='contract-based deductive verification (Verus) of the code the derive generates, per type definition',
        note='On each run a family of type definitions (all field kinds and counts, variant mixes, where clauses, bounds, nestings) is expanded by the derive of /repo and the generated impls are proved by Verus for all component types, empty ones included; the contract is the mixed-radix numbering of today, so a failed obligation alone is no alarm: the replay over values of every shape decides. Shapes outside the family are not covered; an enum without variants and one of 300 variants are only replayed.'),
    'C14': dict(note='Every method and impl of enum_set except Debug (C15) is extracted from /repo on each run and proved by Verus for all element types, sets and histories; assumes the EnumLike contract, contracts of bit_set::BitSet (its ordering included) and its iterators, that from_bit_set is given codes of values only, and lawful finite iterators. When the code is restructured beyond the contracts, a bounded replay against BTreeSet decides instead.'),
    'C15': dict(note='The Debug impls of the six vector modules and of EnumSet, and the iterators they use, are extracted from /repo on each run and proved by Verus to hand exactly the elements, in order, to the list or set builder of core::fmt; what those builders print is an assumed contract (a list of the entries given), as is the Debug impl of the element. Assumes the EnumLike contract and contracts of Vec, SmallVec and BitSet. When the code is restructured beyond the contracts, a bounded replay comparing the text with that of Vec decides instead.'),
}
