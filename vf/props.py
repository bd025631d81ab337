"""Which functions decide which property."""
EV = {
 'C01': dict(mode='A', roots=['new', 'Default::default', 'with_capacity', 'get', 'set', 'push', 'pop', 'swap', 'swap_remove', 'truncate', 'clear', 'len', 'is_empty']),
 'C02': dict(mode='A', roots=['insert', 'remove']),
 'C03': dict(mode='A', roots=['append', 'split_off', 'Extend::extend', 'resize', 'from_elem', 'from_slice', 'retain', 'FromIterator::from_iter', 'From::from', 'Into::into', 'vp_macro']),
 'C04': dict(mode='A', roots=['any', 'all']),
 'C05': dict(mode='A', roots=['iter', 'IntoIterator::into_iter', '&IntoIterator::into_iter', 'to_vec', 'for_each']),
 'C06': dict(mode='A', roots=['PartialEq::eq', 'Hash::hash', 'Clone::clone']),
 'C07': dict(mode='B', roots=None),
 'C08': dict(mode='A', roots=['BITS_PER_ELEM', 'ELEMS_PER_BLOCK', 'ELEMENT_MASK', 'new', 'with_capacity', 'capacity', 'reserve', 'shrink_to_fit', 'push', 'insert', 'remove', 'append', 'split_off', 'Extend::extend', 'resize', 'from_elem', 'from_slice', 'FromIterator::from_iter']),
 'C09': dict(mode='B', roots=['get', 'set', 'swap', 'swap_remove', 'insert', 'remove', 'split_off']),
 'C15': dict(mode='A', roots=['Debug::fmt']),
}
