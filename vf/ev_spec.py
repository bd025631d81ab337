"""Contracts for the six EnumVec modules.

A clause is a string (always in force) or a pair (property, string): the
clause is only part of the contract when that property is being decided.
"""

ENTRY = 'proof { T::laws(); lemma_ty::<T>(); }'

SPEC_IMPL = r'''
pub open spec fn tb<T: EnumLike>() -> int { bits_for(T::NUM_VARIANTS as nat) as int }
pub open spec fn tepb<T: EnumLike>() -> int { @W@int / tb::<T>() }

pub proof fn lemma_ty<T: EnumLike>()
    requires 2 <= T::NUM_VARIANTS, T::NUM_VARIANTS as int <= @POW2W@,
    ensures 1 <= tb::<T>() <= @W@, tb::<T>() <= 64,
        T::NUM_VARIANTS as int <= mk(tb::<T>()) as int + 1,
        mk(tb::<T>()) as int <= usize::MAX as int,
        1 <= tepb::<T>() <= @W@, tepb::<T>() * tb::<T>() <= @W@, @W@int < tepb::<T>() * tb::<T>() + tb::<T>(),
        p2((tb::<T>() - 1) as nat) < T::NUM_VARIANTS as int <= p2(tb::<T>() as nat),
{
    let n = T::NUM_VARIANTS as nat;
    let k = lemma_bits_range(n);
    assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute_only);
    assert(p2(@W@) == @POW2W@) by (compute_only);
    if k > 64 { if k - 1 > 64 { lemma_p2_mono(64, (k - 1) as nat); } assert(false); }
    if k > @W@ { if k - 1 > @W@ { lemma_p2_mono(@W@, (k - 1) as nat); } assert(false); }
    lemma_mk(k as int);
    lemma_par(k as int);
    if k < 64 { lemma_p2_mono(k, 64); }
}

impl<T: EnumLike> EnumVec<T> {
    pub open spec fn sto(&self) -> Seq<Blk> { self.storage@ }
    pub open spec fn cap(&self) -> int { capn(self.storage@, tb::<T>()) }
    #[verifier::inline]
    pub open spec fn raw(&self, i: int) -> Blk { raw_at(self.storage@, i, tb::<T>()) }
    pub open spec fn shape(&self) -> bool {
        self.num_elements <= self.cap() && self.storage@.len() <= max_blocks()
    }
    // element i is the encoding of a value of T
    pub open spec fn valid(&self, i: int) -> bool { ok_raw::<T>(self.raw(i)) }
    pub open spec fn wf(&self) -> bool {
        self.shape() && forall|i: int| 0 <= i < self.num_elements ==> #[trigger] self.valid(i)
    }
    pub open spec fn at(&self, i: int) -> T { T::of_discr(self.raw(i) as usize) }
    pub open spec fn view(&self) -> Seq<T> { Seq::new(self.num_elements as nat, |i: int| self.at(i)) }
    pub open spec fn capacity_spec(&self) -> int { let n = vcap(self.storage) * tepb::<T>(); if n <= usize::MAX { n } else { usize::MAX as int } }
    // there is room for `n` more elements within the address space
    pub open spec fn room(&self, n: int) -> bool { blocks(self.num_elements + n, tb::<T>()) + 1 <= max_blocks() }
    // same elements, seen through the raw encoding
    pub open spec fn raw_same(&self, o: &Self, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] self.raw(k) == o.raw(k) }

    pub proof fn lemma_view_raw(&self, i: int)
        requires self.wf(), 0 <= i < self.num_elements,
        ensures self.view()[i] == self.at(i), self.raw(i) as int == self.view()[i].discr_of() as int, self.valid(i),
            self.raw(i) as int == (self.raw(i) as usize) as int,
    {
        T::laws(); lemma_ty::<T>();
        lemma_raw_le(self.storage@, i, tb::<T>());
        assert(self.valid(i));
    }
    // equal raw elements: equal values, same well-formedness
    pub proof fn lemma_same(&self, o: &Self)
        requires o.wf(), self.shape(), self.num_elements <= o.num_elements,
            forall|k: int| 0 <= k < self.num_elements ==> #[trigger] self.raw(k) == o.raw(k),
        ensures self.wf(), self.view() == o.view().take(self.num_elements as int),
    {
        assert forall|i: int| 0 <= i < self.num_elements implies #[trigger] self.valid(i) by { assert(self.raw(i) == o.raw(i)); assert(o.valid(i)); }
        assert forall|i: int| 0 <= i < self.num_elements implies #[trigger] self.at(i) == o.at(i) by { assert(self.raw(i) == o.raw(i)); }
        assert(self.view() =~= o.view().take(self.num_elements as int));
    }
}
pub open spec fn ok_raw<T: EnumLike>(r: Blk) -> bool {
    r as int <= usize::MAX as int && (r as usize) < T::NUM_VARIANTS && T::of_discr(r as usize).discr_of() == r as usize
}
pub proof fn lemma_ok_discr<T: EnumLike>(x: T)
    ensures ok_raw::<T>(x.discr_of() as Blk), x.discr_of() as Blk <= mk(tb::<T>()), T::of_discr((x.discr_of() as Blk) as usize) == x,
        (x.discr_of() as Blk) as int == x.discr_of() as int,
{
    T::laws(); lemma_ty::<T>();
}
'''

RAWUPD = 'forall|k: int| 0 <= k < old(self).cap() ==> #[trigger] final(self).raw(k) == (if k == i { %s } else { old(self).raw(k) })'
SAME_SHAPE = 'final(self).num_elements == old(self).num_elements, final(self).storage@.len() == old(self).storage@.len()'

FNS = {}


def F(name, **kw):
    FNS[name] = kw


F('BITS_PER_ELEM', const=True, ens=['r as int == tb::<T>()'], entry='@BITS_ENTRY@')
F('ERROR_TOO_MANY_VARIANTS', const=True, ens=['r == 0'], entry='@ERR_ENTRY@')
F('ERROR_ZERO_SIZED', const=True, ens=['r == 0'])
F('ELEMS_PER_BLOCK', const=True, ens=['r as int == tepb::<T>()'])
F('ELEMENT_MASK', const=True, ens=['r == mk(tb::<T>())'])

F('new', ens=['r.wf()', 'r@ == Seq::<T>::empty()', 'r.num_elements == 0', ('C08', 'r.storage@.len() == 0')])
F('default', ens=['r.wf()', 'r@ == Seq::<T>::empty()', 'r.num_elements == 0', ('C08', 'r.storage@.len() == 0')],
  entry=('proof { assert forall|s: EnumVec<T>| s.num_elements == 0 && s.storage@.len() == 0 implies #[trigger] s.view() == Seq::<T>::empty() by { assert(s.view() =~= Seq::<T>::empty()); } }'))
F('with_capacity', req=['blocks(n as int, tb::<T>()) <= max_blocks()', 'n as int + tepb::<T>() <= usize::MAX as int'],
  ens=['r.wf()', 'r@ == Seq::<T>::empty()', 'r.storage@.len() == 0', ('C08', 'r.capacity_spec() >= n')],
  entry=('proof { lemma_blocks(n as int, tb::<T>()); assert forall|s: EnumVec<T>| s.num_elements == 0 && s.storage@.len() == 0 implies #[trigger] s.view() == Seq::<T>::empty() by { assert(s.view() =~= Seq::<T>::empty()); } '
               'assert forall|s: EnumVec<T>| vcap(s.storage) >= blocks(n as int, tb::<T>()) implies #[trigger] s.capacity_spec() >= n by { lemma_cap_mono(blocks(n as int, tb::<T>()), vcap(s.storage) as int, tb::<T>()); } }'))
F('capacity', req=['self.shape()'], ens=[('C08', 'r as int == self.capacity_spec()')])
F('get', req=['self.wf()'], ens=['r == (if i < self.num_elements { Some(self@[i as int]) } else { None })'],
  entry='proof { if i < self.num_elements { self.lemma_view_raw(i as int); } }',
  closures=[dict(params=['usize'], ret='T', req=['$p0 < T::NUM_VARIANTS'], ens=['vr == T::of_discr($p0)'])],
  alts=[dict(entry='proof { if i < self.num_elements { self.lemma_view_raw(i as int); lemma_index(i as int, self.storage@.len() as int, tb::<T>()); lemma_raw_le(self.storage@, i as int, tb::<T>()); reveal(raw_at); reveal(el); } }')])
F('set', req=['old(self).shape()'], reqA=['i < old(self).num_elements'],
  ens=['i < old(self).num_elements', 'final(self).shape()', SAME_SHAPE, RAWUPD % 'x.discr_of() as Blk',
       'old(self).wf() ==> final(self).wf() && final(self)@ == old(self)@.update(i as int, x)'],
  entry='proof { lemma_ok_discr::<T>(x); }',
  end='''proof { if old(self).wf() {
      assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.valid(k) by { assert(old(self).valid(k)); }
      assert(self@ =~= old(self)@.update(i as int, x)); } }''',
  alts=[dict(entry='proof { lemma_ok_discr::<T>(x); if i < self.cap() { lemma_index(i as int, self.storage@.len() as int, tb::<T>()); lemma_put_raw(self.storage@, i as int, x.discr_of() as Blk, tb::<T>()); } }', end='''proof { if i < old(self).cap() { let q = i as int / tepb::<T>(); let o = (i as int % tepb::<T>()) * tb::<T>(); assert(self.storage@ =~= old(self).storage@.update(q, put(old(self).storage@[q], o, tb::<T>(), x.discr_of() as Blk))); } if old(self).wf() {
      assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.valid(k) by { assert(old(self).valid(k)); }
      assert(self@ =~= old(self)@.update(i as int, x)); } }''')])
F('reserve', req=['old(self).shape()', 'old(self).room(additional as int)', 'old(self).num_elements + additional <= usize::MAX'],
  ens=['final(self).shape()', 'final(self).num_elements == old(self).num_elements', 'final(self).cap() >= old(self).num_elements + additional',
       'final(self).raw_same(old(self), old(self).num_elements as int)',
       'old(self).wf() ==> final(self).wf() && final(self)@ == old(self)@',
       ('C08', 'final(self).storage@.len() <= blocks(old(self).num_elements + additional, tb::<T>()) + 1'),
       ('C08', 'final(self).storage@.len() * tepb::<T>() >= old(self).num_elements + additional'),
       ('C07', 'old(self).num_elements + additional + @W@ < usize::MAX as int')],
  entry='proof { lemma_blocks(self.num_elements + additional, tb::<T>()); lemma_div_up(self.num_elements + additional, tepb::<T>()); }',
  end='''proof { lemma_reserve(*old(self), *self, additional as int); lemma_cap_facts(*self); }''')
F('shrink_to_fit', req=['old(self).wf()'], ens=['final(self).wf()', 'final(self)@ == old(self)@',
   ('C08', 'final(self).storage@.len() == blocks(old(self).num_elements as int, tb::<T>())')],
  end='proof { self.lemma_same(&*old(self)); assert(old(self)@.take(old(self).num_elements as int) =~= old(self)@); }')
F('truncate', ens=['final(self).storage@ == old(self).storage@', 'final(self).num_elements == vp_min_i(len as int, old(self).num_elements as int)',
      'old(self).wf() ==> final(self).wf() && final(self)@ == (if len < old(self).num_elements { old(self)@.take(len as int) } else { old(self)@ })'],
  end='proof { if old(self).wf() { self.lemma_same(&*old(self)); assert(old(self)@.take(old(self).num_elements as int) =~= old(self)@); } }')
F('swap_remove', req=['old(self).wf()'], reqA=['index < old(self).num_elements'], wsub=True,
  ens=['index < old(self).num_elements', 'final(self).wf()', 'r == old(self)@[index as int]', 'final(self)@ == old(self)@.update(index as int, old(self)@.last()).drop_last()'],
  entry='''proof { if index < self.num_elements { let q = self@; let a = index as int; let z = q.len() - 1;
     assert(q.update(a, q[z]).update(z, q[a]).drop_last() =~= q.update(a, q.last()).drop_last()); assert(q.update(a, q[z]).update(z, q[a]).last() == q[a]);
     assert(q.update(z, q[a]).update(a, q[z]) =~= q.update(a, q[z]).update(z, q[a])); } }''')
F('insert', req=['old(self).wf()', 'old(self).room(1)', 'old(self).num_elements < usize::MAX'], reqA=['index <= old(self).num_elements'],
  ens=['index <= old(self).num_elements', 'final(self).wf()', 'final(self)@ == old(self)@.insert(index as int, element)',
       ('C08', 'final(self).storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(old(self).num_elements + 1, tb::<T>()))')],
  closures=[dict(params=['&mut StorageBlock', 'StorageBlock'], ret='StorageBlock',
                 req=['$p1 <= mk(tb::<T>())'],
                 ens=['*final($p0) == shl_blk(*old($p0), tb::<T>(), $p1)', 'vr == el(*old($p0), (tepb::<T>() - 1) * tb::<T>(), tb::<T>())'],
                 top='proof { T::laws(); lemma_ty::<T>(); lemma_off(tepb::<T>() - 1, tb::<T>()); reveal(el); }')],
  hints=[
   dict(at='let mut i = index;', text='''let ghost s0 = *self; let ghost b = tb::<T>(); let ghost e = tepb::<T>(); let ghost n0 = old(self).num_elements as int; let ghost d = prev as Blk;
     proof { lemma_ok_discr::<T>(element); lemma_fundamental_div_mod(index as int, e); lemma_cap_facts(s0); assert(prev == element.discr_of()); }'''),
   dict(at='let (ib, _) = Self::block_index(i);', where='before', text='let ghost s1 = *self; let ghost i0 = i as int; let ghost p0 = prev as Blk; proof { lemma_cap_facts(s1); }'),
   dict(at='let (last_ib, _) = Self::block_index(self.len() - 1);', text='''proof { lemma_index(i as int, s1.storage@.len() as int, b); lemma_index(s1.num_elements - 1, s1.storage@.len() as int, b); lemma_div_is_ordered(i as int, s1.num_elements - 1, e); lemma_mod_step(i as int, index as int, e); }'''),
   dict(at='if i < self.len() {', where='before', text='let ghost s1e = *self; let ghost ie = i as int;'),
  ],
  loops=[
    dict(kind='while', inv=[
      'b == tb::<T>()', 'e == tepb::<T>()', '1 <= b <= @W@', '1 <= e', 'e * b <= @W@',
      'slow_insert == index as int % e', 'slow_insert > 0', 'index <= $k', '$k <= slow_limit', 'slow_limit as int == vp_min_i(index - slow_insert + e, self_len as int)',
      'self.num_elements == s0.num_elements', 'self.num_elements == self_len', 'self.shape()', 'self.storage@.len() == s0.storage@.len()', 's0.shape()',
      'mk(b) as int <= usize::MAX as int', 's0.num_elements == n0 + 1', 'prev as int <= mk(b) as int',
      'prev as Blk == (if $k == index { d } else { s0.raw($k - 1) })',
      'forall|k: int| 0 <= k < s0.cap() ==> #[trigger] self.raw(k) == (if k < index || k >= $k { s0.raw(k) } else if k == index { d } else { s0.raw(k - 1) })'],
      dec='slow_limit - $k'),
    dict(kind='range', inv=[
      'b == tb::<T>()', 'e == tepb::<T>()', '1 <= b <= @W@', '1 <= e',
      's1.shape()', 'ib as int == i0 / e', 'i0 % e == 0', '0 <= i0 < s1.num_elements', 'last_ib as int == (s1.num_elements - 1) / e', 'last_ib < s1.storage@.len()', 'ib <= last_ib',
      'self.num_elements == s1.num_elements', 'self.storage@.len() == s1.storage@.len()',
      'prev <= mk(b)', 'p0 <= mk(b)', 'prev == (if $k == ib { p0 } else { s1.raw($k * e - 1) })',
      'forall|q: int| 0 <= q < s1.storage@.len() && (q < ib || q >= $k) ==> #[trigger] self.storage@[q] == s1.storage@[q]',
      'forall|q: int| ib <= q < $k ==> #[trigger] self.storage@[q] == shl_blk(s1.storage@[q], b, (if q == ib { p0 } else { s1.raw(q * e - 1) }))'],
      top='proof { lemma_last_elem(s1.storage@, $x as int, b); lemma_el_le(s1.storage@[$x as int], (e - 1) * b, b); lemma_off(e - 1, b); reveal(el); }',
      post='proof { lemma_shl_all(s1.storage@, self.storage@, ib as int, last_ib as int, p0, b); lemma_blk_bounds(i0, s1.num_elements as int, e); }'),
  ],
  end='''proof {
      assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.raw(k) == (if k < index { old(self).raw(k) } else if k == index { element.discr_of() as Blk } else { old(self).raw(k - 1) }) by {
          assert(k < s0.cap());
          if k > 0 { assert(s1e.raw(k - 1) == s1e.raw(k - 1)); assert(s0.raw(k - 1) == s0.raw(k - 1)); }
          assert(s1e.raw(k) == (if k < index || k >= ie { s0.raw(k) } else if k == index { d } else { s0.raw(k - 1) }));
      }
      lemma_insert(*old(self), s0, s1e, *self, index as int, ie, element); }''')
F('any', req=['self.wf()'], ens=['r == self@.contains(x)'],
  entry='let ghost xv = x; let ghost b = tb::<T>(); let ghost e = tepb::<T>(); proof { lemma_any_none(*self, x); lemma_ok_discr::<T>(x); lemma_last_blk(*self); }',
  hints=[
    dict(at='let x_mask =', where='before', text='proof { lemma_masks(x as Blk, b); assert(one_mask == one_of(b)); }'),
    dict(at='let haszero =', where='before', text='proof { assert(high_mask == high_of(b)); assert(x_mask == xmask::<T>(xv)); lemma_cap_facts(*self); lemma_mul_div(self.num_elements as int, e); }'),
    dict(at='let last_block_mask = !0 << (last_elem_shift);', text='proof { lemma_any_last(*self, xv, last_block as int, last_elem_shift as int); }'),
    dict(at='@tail', text='proof { lemma_any_done(*self, xv, last_block as int); }'),
  ],
  closures=[dict(params=['StorageBlock'], ret='bool', ens=['vr == some_zero($p0, tb::<T>())'],
     top='proof { T::laws(); lemma_ty::<T>(); lemma_haszero($p0, tb::<T>()); lemma_wsub($p0, one_of(tb::<T>())); }')],
  loops=[dict(kind='range', inv=['last_block <= self.storage@.len()', 'forall|k: int| 0 <= k < $k * e ==> #[trigger] self.raw(k) != xv.discr_of() as Blk'],
     top='proof { lemma_any_block(*self, xv, $x as int); }')])
F('all', req=['self.wf()'], ens=['r == (forall|i: int| 0 <= i < self@.len() ==> self@[i] == x)'],
  entry='let ghost xv = x; let ghost b = tb::<T>(); let ghost e = tepb::<T>(); proof { lemma_ok_discr::<T>(x); lemma_last_blk(*self); }',
  hints=[
    dict(at='let x_mask =', where='before', text='proof { lemma_masks(x as Blk, b); assert(one_mask == one_of(b)); assert(valid_mask == !0@BLK@ >> ((@W@int % b) as Blk)); }'),
    dict(at='let last_block_mask = !(!0 << (last_elem_shift));', text='proof { lemma_all_last(*self, xv, last_block as int, last_elem_shift as int); }'),
    dict(at='@tail', text='proof { lemma_all_done(*self, xv, last_block as int); }'),
  ],
  loops=[dict(kind='range', inv=['last_block <= self.storage@.len()', 'forall|k: int| 0 <= k < $k * e ==> #[trigger] self.raw(k) == xv.discr_of() as Blk'],
     pre='proof { assert(x_mask == xmask::<T>(xv)); lemma_cap_facts(*self); lemma_mul_div(self.num_elements as int, e); }',
     top='proof { lemma_all_block(*self, xv, $x as int); }')])
F('retain', req=['old(self).wf()', 'forall|x: T| #[trigger] call_requires(f, (&x,))'],
  ens=['final(self).wf()', 'exists|k: Seq<bool>| #[trigger] answers(f, old(self)@, k) && final(self)@ == kept(old(self)@, k)', 'final(self).storage@.len() == old(self).storage@.len()'],
  entry='let ghost f0 = f; let ghost mut ks: Seq<bool> = Seq::empty(); proof { assert(kept(old(self)@.take(0), ks) =~= Seq::<T>::empty()); }',
  hints=[dict(at='let x = self.get(i_get).unwrap();', text='let ghost s1 = *self;'),
         dict(at='self.set_len(i_set);', text='''proof { assert(old(self)@.take(old(self).num_elements as int) =~= old(self)@); assert(answers(f0, old(self)@, ks));
            self.lemma_same(&sl); }'''),
         dict(at='self.set_len(i_set);', where='before', text='let ghost sl = *self;')],
  loops=[dict(kind='while', inv=['i_set <= $k', '$k <= old(self).num_elements', 'self.wf()', 'self.num_elements == old(self).num_elements', 'self.storage@.len() == old(self).storage@.len()', 'ks.len() == $k', 'f == f0',
       'forall|x: T| #[trigger] call_requires(f, (&x,))',
       'forall|j: int| $k <= j < old(self).num_elements ==> #[trigger] self@[j] == old(self)@[j]',
       'forall|j: int| 0 <= j < $k ==> #[trigger] one_ans(f0, old(self)@[j], ks[j])',
       'i_set == kept(old(self)@.take($k as int), ks).len()',
       'self@.take(i_set as int) == kept(old(self)@.take($k as int), ks)'], top='proof { assert(self@[$x as int] == old(self)@[$x as int]); }', dec='old(self).num_elements - $k', end='''proof {
            let kk: bool = i_set != kept(old(self)@.take($k - 1), ks).len(); let k0 = ks; ks = ks.push(kk);
            assert(old(self)@.take($k as int).drop_last() =~= old(self)@.take($k - 1)); assert(ks.drop_last() =~= k0); assert(one_ans(f0, x, kk));
            assert(kept(old(self)@.take($k as int), ks) == (if kk { kept(old(self)@.take($k - 1), k0).push(x) } else { kept(old(self)@.take($k - 1), k0) }));
            assert(self@.take(i_set as int) =~= kept(old(self)@.take($k as int), ks)); }''')])
F('push', req=['old(self).wf()', 'old(self).room(1)', 'old(self).num_elements < usize::MAX'],
  ens=['final(self).wf()', 'final(self)@ == old(self)@.push(x)', 'final(self).raw_same(old(self), old(self).num_elements as int)',
       'final(self).num_elements == old(self).num_elements + 1', 'final(self).raw(old(self).num_elements as int) == x.discr_of() as Blk',
       ('C08', 'final(self).storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(old(self).num_elements + 1, tb::<T>()))')],
  entry='proof { lemma_ok_discr::<T>(x); }',
  end='''proof {
     assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.valid(k) by { if k < old(self).num_elements { assert(old(self).valid(k)); } }
     assert(self@ =~= old(self)@.push(x)); }''')
F('pop', req=['old(self).wf()'], ens=['final(self).wf()', 'old(self).num_elements == 0 ==> r is None && final(self)@ == old(self)@',
       'old(self).num_elements > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last()', 'final(self).storage@ == old(self).storage@'],
  entry='''proof { let o = *self; if o.num_elements > 0 { o.lemma_view_raw(o.num_elements - 1); }
     assert forall|s: EnumVec<T>| s.storage@ == o.storage@ && s.num_elements == o.num_elements - 1 implies #[trigger] s.wf() && s@ == o@.drop_last() by { s.lemma_same(&o); assert(s@ =~= o@.drop_last()); } }''')
F('clear', ens=['final(self).num_elements == 0', 'final(self)@ == Seq::<T>::empty()', 'final(self).storage@ == old(self).storage@', 'old(self).storage@.len() <= max_blocks() ==> final(self).wf()'],
  end='proof { assert(self@ =~= Seq::<T>::empty()); lemma_cap_mono(0, self.storage@.len() as int, tb::<T>()); }')
F('len', ens=['r == self.num_elements'])
F('set_len', ens=['final(self).num_elements == len', 'final(self).storage == old(self).storage'])
F('is_empty', ens=['r == (self.num_elements == 0)'])
F('get_raw', req=['self.shape()'], ens=['r == (if i < self.num_elements { Some(self.raw(i as int) as usize) } else { None })',
   'r is Some ==> r->0 as int == self.raw(i as int) as int && r->0 as int <= mk(tb::<T>()) as int'],
  # the body of get_raw_unchecked written here
  alts=[dict(entry='proof { if i < self.cap() { lemma_index(i as int, self.storage@.len() as int, tb::<T>()); lemma_raw_le(self.storage@, i as int, tb::<T>()); reveal(raw_at); reveal(el); } }')])
F('get_raw_unchecked', req=['self.shape()', 'i < self.cap()'], ens=['r as int == self.raw(i as int) as int', 'r as int <= mk(tb::<T>()) as int'],
  entry='proof { lemma_index(i as int, self.storage@.len() as int, tb::<T>()); lemma_raw_le(self.storage@, i as int, tb::<T>()); reveal(raw_at); reveal(el); }')
F('set_raw', req=['old(self).shape()', 'discr as int <= mk(tb::<T>()) as int'], reqA=['i < old(self).num_elements'],
  ens=['i < old(self).num_elements', 'final(self).shape()', SAME_SHAPE, RAWUPD % 'discr as Blk'],
  alts=[dict(entry='proof { if i < self.cap() { lemma_index(i as int, self.storage@.len() as int, tb::<T>()); lemma_put_raw(self.storage@, i as int, discr as Blk, tb::<T>()); } }', end='proof { if i < old(self).cap() { let q = i as int / tepb::<T>(); let o = (i as int % tepb::<T>()) * tb::<T>(); assert(self.storage@ =~= old(self).storage@.update(q, put(old(self).storage@[q], o, tb::<T>(), discr as Blk))); } }')])
F('set_raw_unchecked', req=['old(self).shape()', 'i < old(self).cap()', 'discr as int <= mk(tb::<T>()) as int'],
  ens=['final(self).shape()', SAME_SHAPE, RAWUPD % 'discr as Blk'],
  entry='proof { lemma_index(i as int, self.storage@.len() as int, tb::<T>()); lemma_put_raw(self.storage@, i as int, discr as Blk, tb::<T>()); }',
  end='''proof { let q = i as int / tepb::<T>(); let o = (i as int % tepb::<T>()) * tb::<T>();
     assert(self.storage@ =~= old(self).storage@.update(q, put(old(self).storage@[q], o, tb::<T>(), discr as Blk))); }''')
F('swap', req=['old(self).wf()'], reqA=['ia < old(self).num_elements', 'ib < old(self).num_elements'],
  ens=['ia < old(self).num_elements', 'ib < old(self).num_elements', 'final(self).wf()', 'final(self)@ == old(self)@.update(ia as int, old(self)@[ib as int]).update(ib as int, old(self)@[ia as int])',
       'final(self).num_elements == old(self).num_elements', 'final(self).storage@.len() == old(self).storage@.len()'],
  end='''proof {
     old(self).lemma_view_raw(ia as int); old(self).lemma_view_raw(ib as int);
     assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.valid(k) by { assert(old(self).valid(k)); }
     assert(self@ =~= old(self)@.update(ia as int, old(self)@[ib as int]).update(ib as int, old(self)@[ia as int])); }''')
F('grow_if_needed', req=['old(self).wf()', 'old(self).room(1)'],
  ens=['final(self).wf()', 'final(self).num_elements == old(self).num_elements', 'final(self).num_elements < final(self).cap()',
       'final(self).raw_same(old(self), old(self).num_elements as int)', 'final(self)@ == old(self)@',
       ('C08', 'final(self).storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(old(self).num_elements + 1, tb::<T>()))')],
  entry='proof { lemma_blocks(self.num_elements as int, tb::<T>()); lemma_blocks(self.num_elements + 1, tb::<T>()); lemma_blocks_mono(self.num_elements as int, self.num_elements + 1, tb::<T>()); lemma_cap_facts(*self); }',
  end='proof { lemma_grow(*old(self), *self); }')
F('fix_storage', req=['old(self).shape()'], ens=['final(self).shape()', 'final(self).num_elements == old(self).num_elements',
      'final(self).storage@.len() == blocks(old(self).num_elements as int, tb::<T>())',
      'final(self).storage@ == old(self).storage@.take(final(self).storage@.len() as int)',
      'final(self).raw_same(old(self), old(self).num_elements as int)',
      'old(self).wf() ==> final(self).wf() && final(self)@ == old(self)@'],
  entry='proof { lemma_blocks(self.num_elements as int, tb::<T>()); lemma_cap_facts(*self); }',
  end='''proof { lemma_fix(*old(self), *self); }''')
F('block_index', ens=['r.0 as int == i as int / tepb::<T>()', 'r.1 as int == (i as int % tepb::<T>()) * tb::<T>()', 'r.1 as int + tb::<T>() <= @W@'],
  entry='proof { lemma_fundamental_div_mod(i as int, tepb::<T>()); lemma_mod_bound(i as int, tepb::<T>()); lemma_off(i as int % tepb::<T>(), tb::<T>()); assert(tepb::<T>() * (i as int / tepb::<T>()) == (i as int / tepb::<T>()) * tepb::<T>()) by (nonlinear_arith); assert(tb::<T>() * (i as int % tepb::<T>()) == (i as int % tepb::<T>()) * tb::<T>()) by (nonlinear_arith); }')
F('blocks_for_elements', ens=['n as int + tepb::<T>() <= usize::MAX as int ==> r as int == blocks(n as int, tb::<T>())'])


F('remove', req=['old(self).wf()'], reqA=['index < old(self).num_elements'],
  ens=['index < old(self).num_elements', 'final(self).wf()', 'r == old(self)@[index as int]', 'final(self)@ == old(self)@.remove(index as int)', ('C08', 'final(self).storage@.len() == old(self).storage@.len()')],
  closures=[dict(params=['&mut StorageBlock', 'StorageBlock'], ret='StorageBlock',
                 req=['$p1 <= mk(tb::<T>())'],
                 ens=['*final($p0) == shr_blk(*old($p0), tb::<T>(), (tepb::<T>() - 1) * tb::<T>(), $p1)', 'vr == el(*old($p0), 0, tb::<T>())'],
                 top='proof { T::laws(); lemma_ty::<T>(); lemma_off(tepb::<T>() - 1, tb::<T>()); reveal(el); let bl = *$p0; assert(bl >> 0@BLK@ == bl) by (bit_vector); }')],
  hints=[
   dict(at='let mut i = index;', text="""let ghost s0 = *self; let ghost b = tb::<T>(); let ghost e = tepb::<T>(); let ghost n0 = old(self).num_elements as int;
     proof { lemma_div_up(index as int, e); lemma_cap_facts(s0); lemma_blk_up(index as int, e); }"""),
   dict(at='self.num_elements -= 1;', where='before', text='let ghost se = *self; let ghost ie = i as int; proof { lemma_raw_le(se.storage@, n0 - 1, b); }'),
   dict(at='let (ib, _) = Self::block_index(i);', where='before', text='let ghost s1 = *self; let ghost p0 = prev as Blk; proof { lemma_cap_facts(s1); }'),
   dict(at='let (last_ib, _) = Self::block_index(self.len() - 1);', text="""proof { lemma_index(i as int, s1.storage@.len() as int, b); lemma_index(s1.num_elements - 1, s1.storage@.len() as int, b); lemma_div_is_ordered(i as int, s1.num_elements - 1, e); }"""),
   dict(at='@tail', text="""proof {
      assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.raw(k) == (if k < index { old(self).raw(k) } else { old(self).raw(k + 1) }) by {
          assert(k + 1 < s0.cap());
          assert(se.raw(k + 1) == s0.raw(k + 1) || k + 1 < ie);
          assert(se.raw(k) == (if k < index || k >= ie { s0.raw(k) } else { s0.raw(k + 1) }));
      }
      lemma_remove(*old(self), *self, index as int); }"""),
  ],
  loops=[
    dict(kind='while', inv=[
      'index <= $k', '$k <= slow_limit', 
      'self.num_elements == s0.num_elements', 'self.shape()', 'self.storage@.len() == s0.storage@.len()',
      'forall|k: int| 0 <= k < s0.cap() ==> #[trigger] self.raw(k) == (if k < index || k >= $k { s0.raw(k) } else { s0.raw(k + 1) })'],
      dec='slow_limit - $k'),
    dict(kind='rev', inv=[
      'self.num_elements == s1.num_elements', 'self.storage@.len() == s1.storage@.len()', 'self.shape()',
      'prev <= mk(b)', 'prev == (if $k == last_ib + 1 { p0 } else { el(s1.storage@[$k as int], 0, b) })',
      'forall|q: int| 0 <= q < s1.storage@.len() && (q < $k || q > last_ib) ==> #[trigger] self.storage@[q] == s1.storage@[q]',
      'forall|q: int| $k <= q <= last_ib ==> #[trigger] self.storage@[q] == shr_blk(s1.storage@[q], b, (e - 1) * b, (if q == last_ib { p0 } else { el(s1.storage@[q + 1], 0, b) }))'],
      top='proof { lemma_el_le(s1.storage@[$x as int], 0, b); lemma_off(e - 1, b); reveal(el); let bl = s1.storage@[$x as int]; assert(bl >> 0@BLK@ == bl) by (bit_vector); }',
      post='proof { lemma_shr_all(s1.storage@, self.storage@, ib as int, last_ib as int, p0, b); lemma_blk_bounds(i as int, s1.num_elements as int, e); }'),
  ])
F('append', req=['old(self).wf()', 'old(other).wf()', 'old(self).room(old(other).num_elements as int)', 'old(self).num_elements + old(other).num_elements < usize::MAX'],
  ens=['final(self).wf()', 'final(other).wf()', 'final(self)@ == old(self)@ + old(other)@', 'final(other)@ == Seq::<T>::empty()',
       ('C08', 'final(self).storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(old(self).num_elements + old(other).num_elements, tb::<T>()) + 1)')],
  entry='let ghost b = tb::<T>(); let ghost e = tepb::<T>(); proof { lemma_cap_facts(*self); lemma_cap_facts(*other); lemma_blocks_sum(self.num_elements as int, other.num_elements as int, b); lemma_mod_bound(self.num_elements as int, e); }',
  hints=[dict(at='other.fix_storage();', text='let ghost s1 = *self; let ghost o1 = *other;'),
         dict(at='self.num_elements += other_len;', text="""proof {
             lemma_append_raw(s1.storage@, o1.storage@, b); lemma_blocks(self_len as int, b); lemma_cap_add(s1.storage@, o1.storage@, b);
             assert(s1.storage@.len() * e == self_len);
             assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.raw(k) == (if k < self_len { old(self).raw(k) } else { old(other).raw(k - self_len) }) by {
                 if k < self_len { assert(s1.raw(k) == old(self).raw(k)); } else { assert(raw_at(s1.storage@ + o1.storage@, s1.storage@.len() * e + (k - self_len), b) == raw_at(o1.storage@, k - self_len, b)); assert(o1.raw(k - self_len) == old(other).raw(k - self_len)); }
             }
             lemma_cap_add(s1.storage@, o1.storage@, b);
         }"""),
         dict(at='self.reserve(other_len);', text='let ghost s1 = *self;'),
         ],
  loops=[dict(kind='range', inv=['self.num_elements == self_len + other_len', 'self.shape()', 'self.storage@.len() == s1.storage@.len()',
       'forall|k: int| 0 <= k < self_len ==> #[trigger] self.raw(k) == s1.raw(k)',
       'forall|k: int| self_len <= k < self_len + $n ==> #[trigger] self.raw(k) == other.raw(k - self_len)'],
       top='proof { lemma_cap_facts(*other); }',
       post="""proof { assert forall|k: int| 0 <= k < self.num_elements implies #[trigger] self.raw(k) == (if k < self_len { old(self).raw(k) } else { old(other).raw(k - self_len) }) by { if k < self_len { assert(s1.raw(k) == old(self).raw(k)); } } }""")],
  end='proof { lemma_concat(*old(self), *old(other), *self); }')
F('split_off', req=['old(self).wf()', 'old(self).room(0)'], reqA=['at <= old(self).num_elements'],
  ens=['at <= old(self).num_elements', 'final(self).wf()', 'r.wf()', 'r@ == old(self)@.skip(at as int)', 'final(self)@ == old(self)@.take(at as int)', 'final(self).storage@ == old(self).storage@',
       ('C08', 'r.storage@.len() <= blocks(old(self).num_elements - at, tb::<T>()) + 1')],
  entry='let ghost b = tb::<T>(); let ghost e = tepb::<T>(); proof { lemma_cap_facts(*self); if at <= self.num_elements { lemma_blocks(self.num_elements - at, b); lemma_blocks_mono(self.num_elements - at, self.num_elements as int, b); } }',
  loops=[dict(kind='range', inv=['other.num_elements == other_len', 'other.shape()', 'self.storage@ == old(self).storage@', 'self.num_elements == old(self).num_elements',
       'other.storage@.len() == blocks(other_len as int, b)',
       'forall|k: int| 0 <= k < $n ==> #[trigger] other.raw(k) == old(self).raw(at + k)'])],
  ret="""proof { let other = vp_r;
      self.lemma_same(&*old(self));
      assert forall|k: int| 0 <= k < other.num_elements implies #[trigger] other.valid(k) by { assert(other.raw(k) == old(self).raw(at + k)); assert(old(self).valid(at + k)); }
      assert forall|k: int| 0 <= k < other.num_elements implies #[trigger] other.at(k) == old(self).at(at + k) by { assert(other.raw(k) == old(self).raw(at + k)); }
      assert(other@ =~= old(self)@.skip(at as int)); }""",
  alts=[dict(ret='proof { self.lemma_same(&*old(self)); assert(old(self)@.subrange(at as int, old(self).num_elements as int) =~= old(self)@.skip(at as int)); }',
     loops=[dict(kind='range', inv=['self.storage@ == old(self).storage@', 'self.num_elements == old(self).num_elements', 'other.wf()', 'other@ == old(self)@.subrange(at as int, at + $n)',
         ('C08', 'other.storage@.len() <= blocks(old(self).num_elements - at, tb::<T>()) + 1')],
         pre='proof { assert(other@ =~= old(self)@.subrange(at as int, at as int)); }',
         top='proof { lemma_blocks_mono(other.num_elements + 1, old(self).num_elements - at, b); old(self).lemma_view_raw(at + other.num_elements); assert(old(self)@.subrange(at as int, at + other.num_elements + 1) =~= old(self)@.subrange(at as int, at + other.num_elements).push(old(self)@[at + other.num_elements])); }')])])
F('resize', req=['old(self).wf()', 'new_len > old(self).num_elements ==> blocks(new_len as int, tb::<T>()) + 1 <= max_blocks() && new_len < usize::MAX'],
  ens=['final(self).wf()', 'final(self)@ == (if new_len <= old(self).num_elements { old(self)@.take(new_len as int) } else { old(self)@ + Seq::new((new_len - old(self).num_elements) as nat, |i: int| value) })',
       ('C08', 'final(self).storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(new_len as int, tb::<T>()) + 1)')],
  end='proof { assert(old(self)@.take(old(self).num_elements as int) =~= old(self)@); }')
F('extend_with_value', req=['old(self).wf()', 'old(self).room(count as int)', 'old(self).num_elements + count < usize::MAX'],
  ens=['final(self).wf()', 'final(self)@ == old(self)@ + Seq::new(count as nat, |i: int| value)',
       ('C08', 'final(self).storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(old(self).num_elements + count, tb::<T>()) + 1)')],
  entry="""let ghost b = tb::<T>(); let ghost e = tepb::<T>(); let ghost n0 = self.num_elements as int;
    let ghost ff = e - n0 % e; let ghost c = (count - ff) / e; let ghost last = (count - ff) % e; let ghost mut m: int = 1;
    proof { lemma_cap_facts(*self); lemma_mod_bound(n0, e); lemma_blocks(n0 + count, b); lemma_ok_discr::<T>(value); lemma_four(e);
      if ff <= count { lemma_fill_len(n0, ff, count as int, b); lemma_mul_div(count - ff, e); lemma_fundamental_div_mod(count - ff, e);
        assert(e * c == c * e) by (nonlinear_arith); assert(last == (count - ff) - c * e && 0 <= last < e); } }""",
  hints=[
    dict(at='self.fix_storage();', where='before', text='let ghost s1 = *self; proof { assert(s1@.len() == s1.num_elements); assert(old(self)@.len() == n0); assert(s1.num_elements == n0 + ff); assert(s1.num_elements as int % e == 0); assert(n0 + count == s1.num_elements + c * e + last); lemma_cap_facts(s1); lemma_blocks(s1.num_elements as int, b); lemma_blocks_fill(s1.num_elements as int, c, last, b); lemma_blocks_mono(s1.num_elements as int, n0 + count, b); }'),
    dict(at='self.storage.reserve', where='before', text='let ghost s2 = *self; proof { assert(s2.storage@.len() * e == s1.num_elements); }'),
    dict(at='self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);', where='before', text='proof { let q = s2.storage@.len() as int; assert((q + count_blocks) * e == q * e + count_blocks * e) by (nonlinear_arith); lemma_cap_mono(self.storage@.len() as int, max_blocks(), b); lemma_cap_mono(max_blocks(), max_blocks(), b); }'),
    dict(at='self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);', text="""let ghost s3 = *self; proof { lemma_fill_blocks(s1, s2, s3, count_blocks as int, block_value, value); }"""),
  ],
  loops=[dict(kind='while', inv=['1 <= m', '$k as int == m * b', 'm <= $k', '$k < 2 * @W@', '$k < @W@ ==> block_value >> ($k as Blk) == 0', 'block_value_ok(block_value, value.discr_of() as Blk, m, b)'],
       pre='proof { m = 1; lemma_fill_init(value.discr_of() as Blk, b); assert(1 * b == b) by (nonlinear_arith); }',
       dec='2 * @W@ - $k', top='proof { lemma_fill_step(block_value, value.discr_of() as Blk, m, b); assert((2 * m) * b == 2 * (m * b)) by (nonlinear_arith); }', end='proof { m = 2 * m; }',
       post='proof { lemma_fill_done(block_value, value.discr_of() as Blk, m, b); }')],
  end="""proof { assert(self@ =~= old(self)@ + Seq::new(count as nat, |i: int| value)); }""")
F('iter', req=['self.wf()'], ens=['r.inv()', 'r.seq() == self@'])
F('for_each', req=['old(self).wf()', 'forall|x: &mut T| #[trigger] call_requires(f, (x,))'],
  ens=['final(self).wf()', 'final(self)@.len() == old(self)@.len()', 'forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] changed(f, old(self)@[i], final(self)@[i])'],
  entry='let ghost f0 = f;',
  loops=[dict(kind='range', inv=['self.wf()', 'self.num_elements == old(self).num_elements', 'f == f0', 'forall|x: &mut T| #[trigger] call_requires(f, (x,))',
      'forall|i: int| 0 <= i < $k ==> #[trigger] changed(f0, old(self)@[i], self@[i])',
      'forall|i: int| $k <= i < old(self).num_elements ==> #[trigger] self@[i] == old(self)@[i]'])])
F('to_vec', req=['self.wf()'], ens=['r@ == self@'],
  hints=[dict(at='@tail', text='proof { assert(Seq::<T>::empty() + self@ =~= self@); }')])
ROOM = 'proof { lemma_room::<T>(); }'
F('from_elem', entry=ROOM, req=['blocks(n as int, tb::<T>()) + 1 <= max_blocks()', 'n < usize::MAX'],
  ens=['r.wf()', 'r@ == Seq::new(n as nat, |i: int| x)', ('C08', 'r.storage@.len() <= blocks(n as int, tb::<T>()) + 1')],
  hints=[dict(at='@tail', text='proof { assert(Seq::<T>::empty() + Seq::new(n as nat, |i: int| x) =~= Seq::new(n as nat, |i: int| x)); lemma_blocks(n as int, tb::<T>()); }')])
F('from_slice', entry=ROOM, req=['blocks(x@.len() as int, tb::<T>()) + 1 <= max_blocks()', 'x@.len() < usize::MAX'],
  ens=['r.wf()', 'r@ == x@', ('C08', 'r.storage@.len() <= blocks(x@.len() as int, tb::<T>()) + 1')],
  hints=[dict(at='@tail', text='proof { assert(Seq::<T>::empty() + x@ =~= x@); lemma_blocks(x@.len() as int, tb::<T>()); }')])
F('from_iter', req=['iter.into_inv()', 'blocks(iter.into_seq().len() as int, tb::<T>()) + 1 <= max_blocks()', 'iter.into_seq().len() < usize::MAX'],
  ens=['r.wf()', 'r@ == iter.into_seq()', ('C08', 'r.storage@.len() <= blocks(iter.into_seq().len() as int, tb::<T>()) + 1')],
  entry='let ghost sq = iter.into_seq(); ' + ROOM,
  hints=[dict(at='@tail', text='proof { assert(Seq::<T>::empty() + sq =~= sq); lemma_blocks(sq.len() as int, tb::<T>()); }')])
for _c in range(5):
    F('vp_macro_%d' % _c, req=['blocks(%d, tb::<T>()) + 1 <= max_blocks()' % _c, 'old(vp_e).seen() == Set::<int>::empty()'],
      ens=['r.wf()', 'r@ == seq![%s]' % ', '.join('vp_%d' % q for q in range(_c)) if _c else 'r@ == Seq::<T>::empty()'] + ['final(vp_e).seen().contains(%d)' % q for q in range(_c)], entry=ROOM)
F('vp_macro_elem', req=['blocks(vp_n as int, tb::<T>()) + 1 <= max_blocks()', 'vp_n < usize::MAX', 'old(vp_e).seen() == Set::<int>::empty()'],
  ens=['r.wf()', 'r@ == Seq::new(vp_n as nat, |i: int| vp_x)', 'final(vp_e).seen().contains(0)', 'final(vp_e).seen().contains(1)'], entry=ROOM + ' proof { assert(Seq::<T>::empty() + Seq::new(vp_n as nat, |i: int| vp_x) =~= Seq::new(vp_n as nat, |i: int| vp_x)); }')
F('fmt', req=['self.wf()'], ens=['shown(*old(f), *final(f), r, self@)'])
F('from', req=['blocks(v@.len() as int, tb::<T>()) + 1 <= max_blocks()', 'v@.len() < usize::MAX'], ens=['r.wf()', 'r@ == v@'])
F('into', req=['self.wf()'], ens=['r@ == self@'])
F('storage', ens=['r@ == self.storage@'])
F('storage_mut', ens=['*r == old(self).storage', 'final(self).storage == *final(r)', 'final(self).num_elements == old(self).num_elements'])
F('extend', ens=[],
  entry='let ghost sq = iter.into_seq(); let ghost n0 = self.num_elements as int; proof { lemma_cap_facts(*self); }',
  hints=[dict(at='self.reserve(iter_len);', where='before', text='proof { if iter_len <= sq.len() { lemma_blocks_mono(n0 + iter_len, n0 + sq.len(), tb::<T>()); } }'),
         dict(at='self.reserve(iter_len);', text='let ghost s1 = *self;'),
         ],
  loops=[dict(kind='range', inv=['self.shape()', 'self.num_elements == n0 + iter_len', 'self.storage@.len() == s1.storage@.len()', 'iter.inv()', 'iter.seq() == sq.skip($n as int)', '$n <= sq.len()',
      'forall|k: int| 0 <= k < n0 ==> #[trigger] self.raw(k) == s1.raw(k)',
      'forall|k: int| n0 <= k < n0 + $n ==> #[trigger] self.raw(k) == sq[k - n0].discr_of() as Blk'],
      pre='proof { assert(sq.skip(0) =~= sq); }',
      end='proof { assert(sq.skip($n as int) =~= sq.skip($n - 1).skip(1)); }',
      post='proof { lemma_extended(*old(self), *self, sq, iter_len as int); }'),
     dict(kind='iter', xb=False, inv=['self.wf()', '$it.inv()', 'self@ + $it.seq() =~= old(self)@ + sq', 'self.num_elements + $it.seq().len() == n0 + sq.len()', 'self.room($it.seq().len() as int)',
         ('C08', 'self.storage@.len() <= blocks(n0 + sq.len(), tb::<T>()) + 1')],
      pre='proof { assert(old(self)@ + sq.take(iter_len as int) + sq.skip(iter_len as int) =~= old(self)@ + sq); }',
      top='let ghost q0 = $it.seq(); let ghost v0 = self@;',
      some='proof { assert(q0 =~= seq![q0[0]] + q0.skip(1)); assert(v0.push(q0[0]) + q0.skip(1) =~= v0 + q0); lemma_blocks_mono(self.num_elements + 1, n0 + sq.len(), tb::<T>()); }',
      dec='$it.seq().len()')],
  end='proof { assert(self@ =~= old(self)@ + sq); }',
  alts=[dict(hints=[dict(at='self.reserve(iter_len);', where='before', text='proof { if iter_len <= sq.len() { lemma_blocks_mono(n0 + iter_len, n0 + sq.len(), tb::<T>()); } }')],
    loops=[dict(kind='iter', xb=False, inv=['self.wf()', '$it.inv()', 'self@ + $it.seq() =~= old(self)@ + sq', 'self.num_elements + $it.seq().len() == n0 + sq.len()', 'self.room($it.seq().len() as int)',
         ('C08', 'self.storage@.len() <= vp_max_i(old(self).storage@.len() as int, blocks(n0 + sq.len(), tb::<T>()) + 1)')],
      top='let ghost q0 = $it.seq(); let ghost v0 = self@;',
      some='proof { assert(q0 =~= seq![q0[0]] + q0.skip(1)); assert(v0.push(q0[0]) + q0.skip(1) =~= v0 + q0); lemma_blocks_mono(self.num_elements + 1, n0 + sq.len(), tb::<T>()); }',
      dec='$it.seq().len()')])])
F('eq', req=['self.wf()', 'other.wf()'], ens=['r == (self@ == other@)'], entry='proof { assert(self@ == other@ ==> self@.len() == other@.len()); }',
  loops=[dict(kind='range', inv=['forall|k: int| 0 <= k < $k ==> self@[k] == other@[k]'],
     top='proof { self.lemma_view_raw($x as int); other.lemma_view_raw($x as int); T::laws(); lemma_cap_facts(*self); lemma_cap_facts(*other); assert(self@ == other@ ==> self.raw($x as int) == other.raw($x as int)); }',
     post='proof { assert(self@ =~= other@); }')])
F('hash', req=['self.wf()'], ens=['final(state).fed() == old(state).fed() + hash_words::<T>(self@)'],
  loops=[dict(kind='range', inv=['state.fed() == old(state).fed() + hash_words::<T>(self@.take($k as int))'],
     pre='proof { assert(old(state).fed() + hash_words::<T>(self@.take(0)) =~= old(state).fed()); }',
     top='let ghost f0 = state.fed(); proof { self.lemma_view_raw($x as int); lemma_cap_facts(*self); }',
     end='proof { assert(hash_words::<T>(self@.take($k as int)) =~= hash_words::<T>(self@.take($k - 1)).push(self@[$k - 1].discr_of())); assert(state.fed() =~= old(state).fed() + hash_words::<T>(self@.take($k as int))); }',
     post='proof { assert(self@.take(self.num_elements as int) =~= self@); }')])
F('clone', req=['self.wf()'], ens=['r.wf()', 'r@ == self@'], entry='proof { assert forall|s: EnumVec<T>| s.storage@ == self.storage@ && s.num_elements == self.num_elements implies #[trigger] s.wf() && s@ == self@ by { s.lemma_same(self); assert(self@.take(self.num_elements as int) =~= self@); } }')

# iterators: state (v, range); `inv` and `seq` are given in ITER
F('into_iter', ens=[], entry='')
F('next', ens=[], entry='@ITER_ENTRY@', end='', closures=[dict(params=['usize'], ret='T', req=['self.v.wf()', '$p0 < self.v.num_elements'], ens=['vr == self.v@[$p0 as int]'])])
F('next_back', ens=[], entry='@ITER_ENTRY@', closures=[dict(params=['usize'], ret='T', req=['self.v.wf()', '$p0 < self.v.num_elements'], ens=['vr == self.v@[$p0 as int]'])])
F('nth', ens=[], entry='@ITER_ENTRY@', closures=[dict(params=['usize'], ret='T', req=['self.v.wf()', '$p0 < self.v.num_elements'], ens=['vr == self.v@[$p0 as int]'])])
F('size_hint', ens=['r.0 == self.seq().len()', 'r.1 == Some(r.0)'])
F('count', ens=[])

LEMMAS = r'''
pub open spec fn vp_max_i(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn vp_min_i(a: int, b: int) -> int { if a <= b { a } else { b } }

pub proof fn lemma_cap_facts<T: EnumLike>(s: EnumVec<T>)
    requires s.shape(), 1 <= tb::<T>() <= @W@,
    ensures 0 <= s.cap() <= s.storage@.len() * @W@, s.cap() + @W@ + @W@ < usize::MAX as int, s.num_elements + @W@ + @W@ < usize::MAX as int,
        s.num_elements as int <= s.storage@.len() * tepb::<T>(),
        blocks(s.num_elements as int, tb::<T>()) <= s.storage@.len(),
{
    lemma_cap_mono(s.storage@.len() as int, max_blocks(), tb::<T>());
    lemma_cap_mono(0, s.storage@.len() as int, tb::<T>());
    lemma_cap_mono(max_blocks(), max_blocks(), tb::<T>());
    lemma_blocks(s.num_elements as int, tb::<T>());
}
pub proof fn lemma_reserve<T: EnumLike>(o: EnumVec<T>, s: EnumVec<T>, additional: int)
    requires o.shape(), 1 <= tb::<T>() <= @W@, 0 <= additional,
        s.num_elements == o.num_elements, s.storage@.len() <= max_blocks(), s.num_elements + additional <= s.storage@.len() * tepb::<T>(),
        forall|i: int| 0 <= i < s.storage@.len() && i < o.storage@.len() ==> #[trigger] s.storage@[i] == o.storage@[i],
    ensures s.shape(), s.raw_same(&o, s.num_elements as int), o.wf() ==> s.wf() && s@ == o@,
{
    lemma_cap_facts(o);
    let m = vp_min_i(o.storage@.len() as int, s.storage@.len() as int);
    lemma_blocks(s.num_elements as int, tb::<T>());
    lemma_raw_prefix(s.storage@, o.storage@, m, tb::<T>());
    lemma_cap_mono(0, m, tb::<T>());
    if o.wf() { s.lemma_same(&o); assert(o@.take(o.num_elements as int) =~= o@); }
}
pub proof fn lemma_grow<T: EnumLike>(o: EnumVec<T>, s: EnumVec<T>)
    requires o.wf(), s.storage@.len() <= max_blocks(), 1 <= tb::<T>() <= @W@, s.num_elements == o.num_elements,
        s.storage@ == o.storage@ && (o.num_elements as int % tepb::<T>() != 0 || blocks(o.num_elements as int, tb::<T>()) != o.storage@.len())
        || s.storage@.len() == o.storage@.len() + 1 && s.storage@.drop_last() =~= o.storage@ && blocks(o.num_elements as int, tb::<T>()) == o.storage@.len(),
    ensures s.wf(), s.num_elements < s.cap(), s.raw_same(&o, o.num_elements as int), s@ == o@,
{
    let b = tb::<T>(); let e = tepb::<T>(); let n = o.num_elements as int;
    lemma_par(b);
    lemma_cap_facts(o);
    lemma_blocks(n, b);
    lemma_blocks(n + 1, b);
    lemma_blocks_mono(n, n + 1, b);
    assert forall|q: int| 0 <= q < o.storage@.len() implies #[trigger] s.storage@[q] == o.storage@[q] by { if s.storage@ != o.storage@ { assert(s.storage@[q] == s.storage@.drop_last()[q]); } }
    lemma_raw_prefix(s.storage@, o.storage@, o.storage@.len() as int, b);
    if s.storage@ == o.storage@ {
        if n == o.cap() { lemma_mod_multiples_basic(o.storage@.len() as int, e); lemma_div_multiples_vanish(o.storage@.len() as int, e); assert(e * o.storage@.len() == o.storage@.len() * e) by (nonlinear_arith); assert(false); }
    } else {
        assert((o.storage@.len() + 1) * e == o.storage@.len() * e + e) by (nonlinear_arith);
    }
    s.lemma_same(&o);
    assert(o@.take(n) =~= o@);
}
pub proof fn lemma_fix<T: EnumLike>(o: EnumVec<T>, s: EnumVec<T>)
    requires o.shape(), 1 <= tb::<T>() <= @W@, s.num_elements == o.num_elements, s.storage@.len() == blocks(o.num_elements as int, tb::<T>()),
        s.storage@ == o.storage@.take(s.storage@.len() as int), s.storage@.len() <= o.storage@.len(),
    ensures s.shape(), s.raw_same(&o, o.num_elements as int), o.wf() ==> s.wf() && s@ == o@,
{
    lemma_blocks(o.num_elements as int, tb::<T>());
    lemma_raw_prefix(s.storage@, o.storage@, s.storage@.len() as int, tb::<T>());
    if o.wf() { s.lemma_same(&o); assert(o@.take(o.num_elements as int) =~= o@); }
}
// the last element of block q is element (q+1)*epb - 1
pub proof fn lemma_last_elem(s: Seq<Blk>, q: int, b: int)
    requires 1 <= b <= @W@, 0 <= q < s.len(),
    ensures raw_at(s, (q + 1) * (@W@int / b) - 1, b) == el(s[q], (@W@int / b - 1) * b, b),
{
    lemma_par(b);
    let e = @W@int / b;
    lemma_raw_pos(s, q, e - 1, b);
    assert((q + 1) * e - 1 == q * e + (e - 1)) by (nonlinear_arith);
}
pub proof fn lemma_shl_all(s: Seq<Blk>, t: Seq<Blk>, ib: int, last: int, p0: Blk, b: int)
    requires 1 <= b <= @W@, 0 <= ib <= last < s.len(), t.len() == s.len(), p0 <= mk(b),
        forall|q: int| 0 <= q < s.len() && (q < ib || q >= last + 1) ==> #[trigger] t[q] == s[q],
        forall|q: int| ib <= q < last + 1 ==> #[trigger] t[q] == shl_blk(s[q], b, (if q == ib { p0 } else { raw_at(s, q * (@W@int / b) - 1, b) })),
    ensures
        forall|k: int| 0 <= k < ib * (@W@int / b) ==> #[trigger] raw_at(t, k, b) == raw_at(s, k, b),
        forall|k: int| ib * (@W@int / b) <= k < (last + 1) * (@W@int / b) ==> #[trigger] raw_at(t, k, b) == (if k == ib * (@W@int / b) { p0 } else { raw_at(s, k - 1, b) }),
{
    let e = @W@int / b;
    lemma_par(b);
    lemma_raw_prefix(t, s, ib, b);
    assert forall|k: int| ib * e <= k < (last + 1) * e implies #[trigger] raw_at(t, k, b) == (if k == ib * e { p0 } else { raw_at(s, k - 1, b) }) by {
        assert(0 <= ib * e) by (nonlinear_arith) requires 0 <= ib, 1 <= e;
        lemma_index(k, last + 1, b);
        let q = k / e; let j = k % e;
        assert(q >= ib) by (nonlinear_arith) requires ib * e <= k, k == q * e + j, 0 <= j < e;
        let z = if q == ib { p0 } else { raw_at(s, q * e - 1, b) };
        lemma_raw_le(s, q * e - 1, b);
        lemma_shl(s[q], b, z);
        lemma_raw_pos(t, q, j, b);
        assert(t[q] == shl_blk(s[q], b, z));
        if j == 0 {
            assert(0 * b == 0) by (nonlinear_arith);
            assert(k == q * e);
            if q != ib { assert(ib * e < q * e) by (nonlinear_arith) requires ib < q, 1 <= e; }
        } else {
            lemma_raw_pos(s, q, j - 1, b);
            assert(ib * e <= q * e) by (nonlinear_arith) requires ib <= q, 1 <= e;
            assert(el(shl_blk(s[q], b, z), j * b, b) == el(s[q], (j - 1) * b, b));
        }
    }
}
pub proof fn lemma_div_up(n: int, e: int)
    requires 0 <= n, 1 <= e,
    ensures n <= (n / e + 1) * e, 0 <= n / e <= n,
{
    assert(n <= (n / e + 1) * e && 0 <= n / e <= n) by (nonlinear_arith) requires 0 <= n, 1 <= e;
}
pub proof fn lemma_blk_bounds(i0: int, n: int, e: int)
    requires 0 <= i0 < n, 1 <= e, i0 % e == 0,
    ensures (i0 / e) * e == i0, ((n - 1) / e + 1) * e >= n,
{
    assert((i0 / e) * e == i0) by (nonlinear_arith) requires 0 <= i0, 1 <= e, i0 % e == 0;
    assert(((n - 1) / e + 1) * e >= n) by (nonlinear_arith) requires 0 < n, 1 <= e;
}
pub proof fn lemma_mod_step(i: int, index: int, e: int)
    requires 1 <= e, 0 <= index <= i, i == index && index % e == 0 || i == index - index % e + e,
    ensures i % e == 0,
{
    if i != index {
        lemma_fundamental_div_mod(index, e);
        let d = index / e;
        assert(i == (d + 1) * e) by (nonlinear_arith) requires i == index - index % e + e, index == e * d + index % e;
        lemma_mod_multiples_basic(d + 1, e);
    }
}
// from the element-wise facts about insert() to the sequence fact
pub proof fn lemma_insert<T: EnumLike>(o: EnumVec<T>, s0: EnumVec<T>, s1: EnumVec<T>, s: EnumVec<T>, index: int, i: int, x: T)
    requires o.wf(), 0 <= index <= o.num_elements, s.shape(), s.num_elements == o.num_elements + 1,
        forall|k: int| 0 <= k < s.num_elements ==> #[trigger] s.raw(k) == (if k < index { o.raw(k) } else if k == index { x.discr_of() as Blk } else { o.raw(k - 1) }),
    ensures s.wf(), s@ == o@.insert(index, x),
{
    lemma_ok_discr::<T>(x);
    assert forall|k: int| 0 <= k < s.num_elements implies #[trigger] s.valid(k) by {
        if k < index { assert(o.valid(k)); } else if k > index { assert(o.valid(k - 1)); }
    }
    assert(s@ =~= o@.insert(index, x));
}

pub open spec fn hash_words<T: EnumLike>(s: Seq<T>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].discr_of()) }
pub proof fn lemma_blk_up(i: int, e: int)
    requires 0 <= i, 1 <= e,
    ensures i < (1 + i / e) * e <= i + e, ((1 + i / e) * e) % e == 0,
{
    assert(i < (1 + i / e) * e <= i + e) by (nonlinear_arith) requires 0 <= i, 1 <= e;
    lemma_mod_multiples_basic(1 + i / e, e);
}
pub proof fn lemma_shr_all(s: Seq<Blk>, t: Seq<Blk>, ib: int, last: int, p0: Blk, b: int)
    requires 1 <= b <= @W@, 0 <= ib <= last < s.len(), t.len() == s.len(), p0 <= mk(b),
        forall|q: int| 0 <= q < s.len() && (q < ib || q > last) ==> #[trigger] t[q] == s[q],
        forall|q: int| ib <= q <= last ==> #[trigger] t[q] == shr_blk(s[q], b, (@W@int / b - 1) * b, (if q == last { p0 } else { el(s[q + 1], 0, b) })),
    ensures
        forall|k: int| 0 <= k < ib * (@W@int / b) ==> #[trigger] raw_at(t, k, b) == raw_at(s, k, b),
        forall|k: int| ib * (@W@int / b) <= k < (last + 1) * (@W@int / b) ==> #[trigger] raw_at(t, k, b) == (if k + 1 == (last + 1) * (@W@int / b) { p0 } else { raw_at(s, k + 1, b) }),
{
    let e = @W@int / b;
    lemma_par(b);
    lemma_raw_prefix(t, s, ib, b);
    assert forall|k: int| ib * e <= k < (last + 1) * e implies #[trigger] raw_at(t, k, b) == (if k + 1 == (last + 1) * e { p0 } else { raw_at(s, k + 1, b) }) by {
        assert(0 <= ib * e) by (nonlinear_arith) requires 0 <= ib, 1 <= e;
        lemma_index(k, last + 1, b);
        let q = k / e; let j = k % e;
        assert(q >= ib) by (nonlinear_arith) requires ib * e <= k, k == q * e + j, 0 <= j < e;
        let z = if q == last { p0 } else { el(s[q + 1], 0, b) };
        if q != last { lemma_el_le(s[q + 1], 0, b); }
        lemma_shr(s[q], b, (e - 1) * b, z);
        lemma_raw_pos(t, q, j, b);
        assert(t[q] == shr_blk(s[q], b, (e - 1) * b, z));
        assert((q + 1) * e == q * e + e) by (nonlinear_arith);
        if j == e - 1 {
            assert(k + 1 == (q + 1) * e);
            if q != last {
                assert((q + 1) * e < (last + 1) * e) by (nonlinear_arith) requires q < last, 1 <= e;
                lemma_raw_pos(s, q + 1, 0, b);
                assert(0 * b == 0) by (nonlinear_arith);
            }
        } else {
            lemma_raw_pos(s, q, j + 1, b);
            assert((q + 1) * e <= (last + 1) * e) by (nonlinear_arith) requires q <= last, 1 <= e;
            assert(el(shr_blk(s[q], b, (e - 1) * b, z), j * b, b) == el(s[q], (j + 1) * b, b));
        }
    }
}
pub proof fn lemma_remove<T: EnumLike>(o: EnumVec<T>, s: EnumVec<T>, index: int)
    requires o.wf(), 0 <= index < o.num_elements, s.shape(), s.num_elements == o.num_elements - 1,
        forall|k: int| 0 <= k < s.num_elements ==> #[trigger] s.raw(k) == (if k < index { o.raw(k) } else { o.raw(k + 1) }),
    ensures s.wf(), s@ == o@.remove(index),
{
    assert forall|k: int| 0 <= k < s.num_elements implies #[trigger] s.valid(k) by {
        if k < index { assert(o.valid(k)); } else { assert(o.valid(k + 1)); }
    }
    assert(s@ =~= o@.remove(index));
}
pub proof fn lemma_concat<T: EnumLike>(o: EnumVec<T>, p: EnumVec<T>, s: EnumVec<T>)
    requires o.wf(), p.wf(), s.shape(), s.num_elements == o.num_elements + p.num_elements,
        forall|k: int| 0 <= k < s.num_elements ==> #[trigger] s.raw(k) == (if k < o.num_elements { o.raw(k) } else { p.raw(k - o.num_elements) }),
    ensures s.wf(), s@ == o@ + p@,
{
    assert forall|k: int| 0 <= k < s.num_elements implies #[trigger] s.valid(k) by {
        if k < o.num_elements { assert(o.valid(k)); } else { assert(p.valid(k - o.num_elements)); }
    }
    assert(s@ =~= o@ + p@);
}
pub proof fn lemma_append_raw(s: Seq<Blk>, t: Seq<Blk>, b: int)
    requires 1 <= b <= @W@,
    ensures forall|k: int| 0 <= k < capn(s, b) ==> #[trigger] raw_at(s + t, k, b) == raw_at(s, k, b),
        forall|k: int| 0 <= k < capn(t, b) ==> #[trigger] raw_at(s + t, s.len() * (@W@int / b) + k, b) == raw_at(t, k, b),
{
    let e = @W@int / b;
    lemma_par(b);
    lemma_raw_prefix(s + t, s, s.len() as int, b);
    assert forall|k: int| 0 <= k < capn(t, b) implies #[trigger] raw_at(s + t, s.len() * e + k, b) == raw_at(t, k, b) by {
        lemma_index(k, t.len() as int, b);
        let q = k / e; let j = k % e;
        assert(s.len() * e + k == (s.len() + q) * e + j) by (nonlinear_arith) requires k == q * e + j;
        lemma_raw_pos(s + t, s.len() + q, j, b);
        lemma_raw_pos(t, q, j, b);
    }
}
pub proof fn lemma_cap_add(s: Seq<Blk>, t: Seq<Blk>, b: int)
    ensures capn(s + t, b) == capn(s, b) + capn(t, b),
{
    assert((s.len() + t.len()) * (@W@int / b) == s.len() * (@W@int / b) + t.len() * (@W@int / b)) by (nonlinear_arith);
}
// what fits in memory is far from the end of the numbers
pub proof fn lemma_room<T: EnumLike>()
    requires 1 <= tb::<T>() <= @W@,
    ensures forall|n: int| 0 <= n && #[trigger] blocks(n, tb::<T>()) <= max_blocks() ==> n + 2 * tepb::<T>() + 2 <= usize::MAX as int,
{
    lemma_par(tb::<T>());
    assert forall|n: int| 0 <= n && #[trigger] blocks(n, tb::<T>()) <= max_blocks() implies n + 2 * tepb::<T>() + 2 <= usize::MAX as int by {
        lemma_blocks(n, tb::<T>());
        lemma_cap_mono(blocks(n, tb::<T>()), max_blocks(), tb::<T>());
        lemma_cap_mono(max_blocks(), max_blocks(), tb::<T>());
        assert(max_blocks() * @W@ + 2 * @W@ + 2 <= usize::MAX) by (compute);
    }
}

pub proof fn lemma_blocks_sum(n: int, m: int, b: int)
    requires 1 <= b <= @W@, 0 <= n, 0 <= m,
    ensures blocks(n, b) + blocks(m, b) <= blocks(n + m, b) + 1,
        blocks(n, b) <= blocks(n + m, b),
        n % (@W@int / b) == 0 ==> blocks(n, b) + blocks(m, b) <= blocks(n + m, b),
{
    lemma_par(b);
    let e = @W@int / b;
    lemma_blocks(n, b); lemma_blocks(m, b); lemma_blocks(n + m, b);
    lemma_blocks_mono(n, n + m, b);
    let x = blocks(n, b); let y = blocks(m, b); let z = blocks(n + m, b);
    assert(x + y <= z + 1) by (nonlinear_arith) requires x * e < n + e, y * e < m + e, n + m <= z * e, 1 <= e;
    if n % e == 0 { assert(x + y <= z) by (nonlinear_arith) requires x * e == n, y * e < m + e, n + m <= z * e, 1 <= e; }
}
pub proof fn lemma_extended<T: EnumLike>(o: EnumVec<T>, s: EnumVec<T>, sq: Seq<T>, l: int)
    requires o.wf(), s.shape(), 0 <= l <= sq.len(), s.num_elements == o.num_elements + l,
        forall|k: int| 0 <= k < o.num_elements ==> #[trigger] s.raw(k) == o.raw(k),
        forall|k: int| o.num_elements <= k < o.num_elements + l ==> #[trigger] s.raw(k) == sq[k - o.num_elements].discr_of() as Blk,
    ensures s.wf(), s@ == o@ + sq.take(l),
{
    assert forall|k: int| 0 <= k < s.num_elements implies #[trigger] s.valid(k) by {
        if k < o.num_elements { assert(o.valid(k)); } else { lemma_ok_discr::<T>(sq[k - o.num_elements]); }
    }
    assert forall|k: int| 0 <= k < s.num_elements implies #[trigger] s.at(k) == (o@ + sq.take(l))[k] by {
        if k < o.num_elements { assert(s.raw(k) == o.raw(k)); } else { lemma_ok_discr::<T>(sq[k - o.num_elements]); }
    }
    assert(s@ =~= o@ + sq.take(l));
}
// ---- filling a block by doubling
pub open spec fn block_value_ok(x: Blk, d: Blk, m: int, b: int) -> bool {
    forall|j: int| 0 <= j < m && j < @W@int / b ==> #[trigger] el(x, j * b, b) == d
}
pub proof fn lemma_fill_init(d: Blk, b: int)
    requires 1 <= b <= @W@, d <= mk(b),
    ensures block_value_ok(d, d, 1, b), b < @W@ ==> d >> (b as Blk) == 0,
{
    let bb = b as Blk;
    assert(0 * b == 0) by (nonlinear_arith);
    reveal(el);
    assert((d >> 0@BLK@) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == d) by (bit_vector) requires 1 <= bb <= @W@, d <= !0@BLK@ >> sub(@W@@BLK@, bb);
    if b < @W@ { assert(d >> bb == 0) by (bit_vector) requires 1 <= bb < @W@, d <= !0@BLK@ >> sub(@W@@BLK@, bb); }
    assert forall|j: int| 0 <= j < 1 && j < @W@int / b implies #[trigger] el(d, j * b, b) == d by { assert(j == 0); }
}
pub proof fn lemma_fill_step(x: Blk, d: Blk, m: int, b: int)
    requires 1 <= b <= @W@, 1 <= m, m * b < @W@, x >> ((m * b) as Blk) == 0, block_value_ok(x, d, m, b),
    ensures block_value_ok(x | (x << ((m * b) as Blk)), d, 2 * m, b),
        2 * (m * b) < @W@ ==> (x | (x << ((m * b) as Blk))) >> ((2 * (m * b)) as Blk) == 0,
{
    let i = (m * b) as Blk; let bb = b as Blk;
    assert(m * b >= 0) by (nonlinear_arith) requires m >= 1, b >= 1;
    let y = x | (x << i);
    assert forall|j: int| 0 <= j < 2 * m && j < @W@int / b implies #[trigger] el(y, j * b, b) == d by {
        lemma_off(j, b);
        let o = (j * b) as Blk;
        reveal(el);
        if j < m {
            lemma_order(j, m, b);
            assert(el(x, j * b, b) == d);
            assert((y >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (x >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
                requires y == x | (x << i), 1 <= bb <= @W@, o <= @W@, add(o, bb) <= @W@, i < @W@, add(o, bb) <= i;
        } else {
            lemma_off(j - m, b);
            assert(j * b - m * b == (j - m) * b) by (nonlinear_arith);
            assert(el(x, (j - m) * b, b) == d);
            assert(sub(o, i) == ((j - m) * b) as Blk);
            assert((y >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (x >> sub(o, i)) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
                requires y == x | (x << i), 1 <= bb <= @W@, o <= @W@, add(o, bb) <= @W@, i < @W@, o >= i, x >> i == 0;
        }
    }
    if 2 * (m * b) < @W@ {
        assert((x | (x << i)) >> add(i, i) == 0) by (bit_vector) requires i < @W@, add(i, i) < @W@, x >> i == 0;
        assert(add(i, i) == (2 * (m * b)) as Blk);
    }
}
pub proof fn lemma_fill_done(x: Blk, d: Blk, m: int, b: int)
    requires 1 <= b <= @W@, 1 <= m, m * b >= @W@, block_value_ok(x, d, m, b),
    ensures forall|j: int| 0 <= j < @W@int / b ==> #[trigger] el(x, j * b, b) == d,
{
    assert forall|j: int| 0 <= j < @W@int / b implies #[trigger] el(x, j * b, b) == d by {
        lemma_off(j, b);
        assert(j < m) by (nonlinear_arith) requires j * b + b <= m * b, 1 <= b;
    }
}
pub proof fn lemma_four(e: int) requires 1 <= e <= @W@, ensures 4 * e >= e { }
pub proof fn lemma_mul_div(n: int, e: int)
    requires 0 <= n, 1 <= e,
    ensures 0 <= (n / e) * e <= n, n < (n / e) * e + e, 0 <= n / e <= n,
{
    assert(0 <= (n / e) * e <= n && n < (n / e) * e + e && 0 <= n / e <= n) by (nonlinear_arith) requires 0 <= n, 1 <= e;
}
pub proof fn lemma_fill_len(n: int, first: int, count: int, b: int)
    requires 1 <= b <= @W@, 0 <= n, first == @W@int / b - n % (@W@int / b), first <= count,
    ensures (n + first) % (@W@int / b) == 0, blocks(n + first, b) <= blocks(n + count, b),
{
    lemma_par(b);
    let e = @W@int / b;
    lemma_fundamental_div_mod(n, e);
    let d = n / e;
    assert(n + first == (d + 1) * e) by (nonlinear_arith) requires n == e * d + n % e, first == e - n % e;
    lemma_mod_multiples_basic(d + 1, e);
    lemma_mod_bound(n, e);
    lemma_blocks_mono(n + first, n + count, b);
}
pub proof fn lemma_blocks_fill(n: int, c: int, last: int, b: int)
    requires 1 <= b <= @W@, 0 <= n, n % (@W@int / b) == 0, 0 <= c, 0 <= last < @W@int / b,
    ensures blocks(n, b) + c + (if last > 0 { 1int } else { 0 }) == blocks(n + c * (@W@int / b) + last, b),
        blocks(n + c * (@W@int / b), b) == blocks(n, b) + c, (n + c * (@W@int / b)) % (@W@int / b) == 0,
        blocks(n, b) * (@W@int / b) == n, (blocks(n, b) + c) * (@W@int / b) == n + c * (@W@int / b),
{
    lemma_par(b);
    let e = @W@int / b;
    lemma_blocks(n, b);
    let q = blocks(n, b);
    assert((q + c) * e == n + c * e) by (nonlinear_arith) requires q * e == n;
    assert(c * e >= 0) by (nonlinear_arith) requires c >= 0, e >= 1;
    lemma_mod_multiples_basic(q + c, e);
    lemma_blocks(n + c * e, b);
    assert(blocks(n + c * e, b) == q + c) by (nonlinear_arith) requires blocks(n + c * e, b) * e == (q + c) * e, e >= 1;
    lemma_blocks(n + c * e + last, b);
    if last > 0 {
        let z = blocks(n + c * e + last, b);
        assert(z == q + c + 1) by (nonlinear_arith) requires z * e >= (q + c) * e + last, z * e < (q + c) * e + last + e, 0 < last < e;
    }
}
pub proof fn lemma_fill_blocks<T: EnumLike>(s1: EnumVec<T>, s2: EnumVec<T>, s3: EnumVec<T>, c: int, bv: Blk, v: T)
    requires s1.wf(), 1 <= tb::<T>() <= @W@, 0 <= c, s2.storage@.len() * tepb::<T>() == s1.num_elements,
        s2.storage@.len() + c <= max_blocks(),
        s2.num_elements == s1.num_elements, s2.raw_same(&s1, s1.num_elements as int),
        s3.num_elements == s1.num_elements + c * tepb::<T>(), s3.storage@.len() == s2.storage@.len() + c,
        forall|i: int| 0 <= i < s3.storage@.len() ==> #[trigger] s3.storage@[i] == (if i < s2.storage@.len() { s2.storage@[i] } else { bv }),
        forall|j: int| 0 <= j < tepb::<T>() ==> #[trigger] el(bv, j * tb::<T>(), tb::<T>()) == v.discr_of() as Blk,
    ensures s3.wf(), s3@ == s1@ + Seq::new((c * tepb::<T>()) as nat, |i: int| v),
{
    let b = tb::<T>(); let e = tepb::<T>(); let q0 = s2.storage@.len() as int;
    lemma_par(b);
    lemma_raw_prefix(s3.storage@, s2.storage@, q0, b);
    assert((q0 + c) * e == q0 * e + c * e) by (nonlinear_arith);
    assert(c * e >= 0) by (nonlinear_arith) requires c >= 0, e >= 1;
    let sq = Seq::new((c * e) as nat, |i: int| v);
    assert forall|k: int| s1.num_elements <= k < s3.num_elements implies #[trigger] s3.raw(k) == sq[k - s1.num_elements].discr_of() as Blk by {
        lemma_index(k, q0 + c, b);
        let q = k / e;
        assert(q >= q0) by (nonlinear_arith) requires k == q * e + k % e, 0 <= k % e < e, k >= q0 * e;
        lemma_raw_pos(s3.storage@, q, k % e, b);
        assert(s3.storage@[q] == bv);
    }
    assert forall|k: int| 0 <= k < s1.num_elements implies #[trigger] s3.raw(k) == s1.raw(k) by { assert(s2.raw(k) == s1.raw(k)); }
    lemma_extended(s1, s3, sq, c * e);
    assert(sq.take(c * e) =~= sq);
}

// ---- caller's functions: what one call may answer
pub open spec fn one_ans<T, F: FnMut(&T) -> bool>(f: F, x: T, b: bool) -> bool { call_ensures(f, (&x,), b) }
pub open spec fn answers<T, F: FnMut(&T) -> bool>(f: F, s: Seq<T>, k: Seq<bool>) -> bool { k.len() == s.len() && forall|i: int| 0 <= i < k.len() ==> #[trigger] one_ans(f, s[i], k[i]) }
pub open spec fn kept<T>(s: Seq<T>, k: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let r = kept(s.drop_last(), k.drop_last()); if k.last() { r.push(s.last()) } else { r } }
}
#[verifier::prophetic] pub open spec fn changed<T, F: FnMut(&mut T)>(f: F, x: T, y: T) -> bool { exists|m: &mut T| *m == x && *final(m) == y && #[trigger] call_ensures(f, (m,), ()) }
// ---- any / all
pub proof fn lemma_last_blk<T: EnumLike>(s: EnumVec<T>)
    requires s.wf(),
    ensures s.num_elements as int / tepb::<T>() <= s.storage@.len(),
        (s.num_elements as int % tepb::<T>()) * tb::<T>() != 0 ==> s.num_elements as int / tepb::<T>() < s.storage@.len(),
        (s.num_elements as int % tepb::<T>()) * tb::<T>() != 0 <==> s.num_elements as int % tepb::<T>() != 0,
{
    T::laws(); lemma_ty::<T>();
    let n = s.num_elements as int; let e = tepb::<T>();
    lemma_last_pos(n, tb::<T>());
    let q = n / e; let l = s.storage@.len() as int;
    assert(q <= l) by (nonlinear_arith) requires q * e <= n, n <= l * e, e >= 1;
    if n % e != 0 { assert(q < l) by (nonlinear_arith) requires q * e < n, n <= l * e, e >= 1; }
}
pub open spec fn xmask<T: EnumLike>(x: T) -> Blk { ((x.discr_of() as Blk) as int * one_of(tb::<T>()) as int) as Blk }
pub proof fn lemma_any_none<T: EnumLike>(s: EnumVec<T>, x: T)
    requires s.wf(),
    ensures s@.contains(x) == (exists|k: int| 0 <= k < s.num_elements && #[trigger] s.raw(k) == x.discr_of() as Blk),
{
    lemma_ok_discr::<T>(x);
    if s@.contains(x) {
        let k = choose|k: int| 0 <= k < s@.len() && s@[k] == x;
        s.lemma_view_raw(k);
        assert(s.raw(k) == x.discr_of() as Blk);
    }
    if exists|k: int| 0 <= k < s.num_elements && #[trigger] s.raw(k) == x.discr_of() as Blk {
        let k = choose|k: int| 0 <= k < s.num_elements && #[trigger] s.raw(k) == x.discr_of() as Blk;
        assert(s.at(k) == x);
        assert(s@[k] == x);
    }
}
pub proof fn lemma_xor_el(v: Blk, w: Blk, o: int, b: int)
    ensures (el(v ^ w, o, b) == 0) == (el(v, o, b) == el(w, o, b)),
{
    reveal(el);
    let oo = o as Blk; let m = mk(b);
    assert((((v ^ w) >> oo) & m == 0) == ((v >> oo) & m == (w >> oo) & m)) by (bit_vector);
}
// one complete block
pub proof fn lemma_any_block<T: EnumLike>(s: EnumVec<T>, x: T, i: int)
    requires s.wf(), 0 <= i < s.num_elements as int / tepb::<T>(), i < s.storage@.len(),
    ensures some_zero(s.storage@[i] ^ xmask::<T>(x), tb::<T>()) ==> s@.contains(x),
        !some_zero(s.storage@[i] ^ xmask::<T>(x), tb::<T>()) ==> forall|k: int| i * tepb::<T>() <= k < (i + 1) * tepb::<T>() ==> #[trigger] s.raw(k) != x.discr_of() as Blk,
{
    T::laws(); lemma_ty::<T>(); lemma_ok_discr::<T>(x);
    let b = tb::<T>(); let e = tepb::<T>(); let d = x.discr_of() as Blk; let w = s.storage@[i] ^ xmask::<T>(x);
    lemma_masks(d, b);
    lemma_par(b);
    lemma_mul_div(s.num_elements as int, e);
    assert((i + 1) * e <= (s.num_elements as int / e) * e) by (nonlinear_arith) requires i + 1 <= s.num_elements as int / e, e >= 1;
    assert((i + 1) * e == i * e + e) by (nonlinear_arith);
    assert(i * e >= 0) by (nonlinear_arith) requires i >= 0, e >= 1;
    lemma_any_none(s, x);
    if some_zero(w, b) {
        let j = choose|j: int| 0 <= j < @W@int / b && #[trigger] el(w, j * b, b) == 0;
        lemma_xor_el(s.storage@[i], xmask::<T>(x), j * b, b);
        lemma_raw_pos(s.storage@, i, j, b);
        assert(el(xmask::<T>(x), j * b, b) == d);
        assert(s.raw(i * e + j) == d);
    } else {
        assert forall|k: int| i * e <= k < (i + 1) * e implies #[trigger] s.raw(k) != d by {
            let j = k - i * e;
            lemma_raw_pos(s.storage@, i, j, b);
            lemma_xor_el(s.storage@[i], xmask::<T>(x), j * b, b);
            assert(el(xmask::<T>(x), j * b, b) == d);
            assert(el(w, j * b, b) != 0);
        }
    }
}
pub proof fn lemma_last_pos(n: int, b: int)
    requires 1 <= b <= @W@, 0 <= n,
    ensures 0 <= n % (@W@int / b) < @W@int / b, n == (n / (@W@int / b)) * (@W@int / b) + n % (@W@int / b),
        (n % (@W@int / b)) * b != 0 <==> n % (@W@int / b) != 0, n / (@W@int / b) >= 0,
{
    lemma_par(b);
    let e = @W@int / b; let r = n % e;
    lemma_fundamental_div_mod(n, e); lemma_mod_bound(n, e);
    assert(e * (n / e) == (n / e) * e) by (nonlinear_arith);
    assert((r * b != 0) <==> (r != 0)) by (nonlinear_arith) requires b >= 1;
    assert(n / e >= 0) by (nonlinear_arith) requires n >= 0, e >= 1;
}
pub proof fn lemma_any_last<T: EnumLike>(s: EnumVec<T>, x: T, last: int, shift: int)
    requires s.wf(), last == s.num_elements as int / tepb::<T>(), shift == (s.num_elements as int % tepb::<T>()) * tb::<T>(), last < s.storage@.len(), shift != 0,
    ensures some_zero((s.storage@[last] ^ xmask::<T>(x)) | (!0@BLK@ << (shift as Blk)), tb::<T>()) ==> s@.contains(x),
        !some_zero((s.storage@[last] ^ xmask::<T>(x)) | (!0@BLK@ << (shift as Blk)), tb::<T>()) ==> forall|k: int| last * tepb::<T>() <= k < s.num_elements ==> #[trigger] s.raw(k) != x.discr_of() as Blk,
{
    T::laws(); lemma_ty::<T>(); lemma_ok_discr::<T>(x);
    let b = tb::<T>(); let e = tepb::<T>(); let d = x.discr_of() as Blk; let w = s.storage@[last] ^ xmask::<T>(x); let r = s.num_elements as int % e;
    let y = w | (!0@BLK@ << (shift as Blk));
    lemma_masks(d, b); lemma_par(b); lemma_last_pos(s.num_elements as int, b);
    lemma_off(r, b);
    lemma_any_none(s, x);
    let ss = shift as Blk; let bb = b as Blk;
    assert forall|j: int| 0 <= j < e implies #[trigger] el(y, j * b, b) == (if j < r { el(w, j * b, b) } else { mk(b) }) by {
        lemma_off(j, b);
        let o = (j * b) as Blk;
        reveal(el);
        if j < r {
            lemma_order(j, r, b);
            assert(((w | (!0@BLK@ << ss)) >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (w >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
                requires 1 <= bb <= @W@, o < @W@, ss < @W@, add(o, bb) <= ss, bb <= ss;
        } else {
            if r < j { lemma_order(r, j, b); }
            assert(((w | (!0@BLK@ << ss)) >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == !0@BLK@ >> sub(@W@@BLK@, bb)) by (bit_vector)
                requires 1 <= bb <= @W@, o < @W@, ss < @W@, add(o, bb) <= @W@, ss <= o;
        }
    }
    lemma_mk(b); lemma_p2_mono(0, b as nat); assert(p2(0) == 1) by (compute_only);
    if some_zero(y, b) {
        let j = choose|j: int| 0 <= j < @W@int / b && #[trigger] el(y, j * b, b) == 0;
        assert(j < r);
        lemma_xor_el(s.storage@[last], xmask::<T>(x), j * b, b);
        lemma_raw_pos(s.storage@, last, j, b);
        assert(el(xmask::<T>(x), j * b, b) == d);
        assert(s.raw(last * e + j) == d);
    } else {
        assert forall|k: int| last * e <= k < s.num_elements implies #[trigger] s.raw(k) != d by {
            let j = k - last * e;
            lemma_raw_pos(s.storage@, last, j, b);
            lemma_xor_el(s.storage@[last], xmask::<T>(x), j * b, b);
            assert(el(xmask::<T>(x), j * b, b) == d);
            assert(el(y, j * b, b) != 0);
        }
    }
}
pub proof fn lemma_any_done<T: EnumLike>(s: EnumVec<T>, x: T, last: int)
    requires s.wf(), last == s.num_elements as int / tepb::<T>(),
        forall|k: int| 0 <= k < last * tepb::<T>() ==> #[trigger] s.raw(k) != x.discr_of() as Blk,
        s.num_elements as int % tepb::<T>() != 0 ==> forall|k: int| last * tepb::<T>() <= k < s.num_elements ==> #[trigger] s.raw(k) != x.discr_of() as Blk,
    ensures !s@.contains(x),
{
    T::laws(); lemma_ty::<T>();
    lemma_last_pos(s.num_elements as int, tb::<T>());
    lemma_any_none(s, x);
}
pub proof fn lemma_raw_eq<T: EnumLike>(s: EnumVec<T>, x: T, k: int)
    requires s.wf(), 0 <= k < s.num_elements,
    ensures (s@[k] == x) == (s.raw(k) == x.discr_of() as Blk),
{
    lemma_ok_discr::<T>(x);
    s.lemma_view_raw(k);
}
pub proof fn lemma_all_block<T: EnumLike>(s: EnumVec<T>, x: T, i: int)
    requires s.wf(), 0 <= i < s.num_elements as int / tepb::<T>(), i < s.storage@.len(),
    ensures (s.storage@[i] & (!0@BLK@ >> ((@W@int % tb::<T>()) as Blk)) == xmask::<T>(x)) == (forall|k: int| i * tepb::<T>() <= k < (i + 1) * tepb::<T>() ==> #[trigger] s.raw(k) == x.discr_of() as Blk),
        (exists|k: int| i * tepb::<T>() <= k < (i + 1) * tepb::<T>() && #[trigger] s.raw(k) != x.discr_of() as Blk) ==> exists|k: int| 0 <= k < s@.len() && s@[k] != x,
{
    T::laws(); lemma_ty::<T>(); lemma_ok_discr::<T>(x);
    let b = tb::<T>(); let e = tepb::<T>(); let d = x.discr_of() as Blk; let z = xmask::<T>(x);
    let sh = (@W@int % b) as Blk; let bb = b as Blk;
    let v = s.storage@[i]; let y = v & (!0@BLK@ >> sh);
    lemma_masks(d, b); lemma_par(b);
    lemma_mul_div(s.num_elements as int, e);
    assert((i + 1) * e <= (s.num_elements as int / e) * e) by (nonlinear_arith) requires i + 1 <= s.num_elements as int / e, e >= 1;
    assert((i + 1) * e == i * e + e) by (nonlinear_arith);
    assert(i * e >= 0) by (nonlinear_arith) requires i >= 0, e >= 1;
    lemma_fundamental_div_mod(@W@, b); lemma_mod_bound(@W@, b);
    assert(b * e == e * b) by (nonlinear_arith);
    assert(sh as int == @W@ - e * b);
    assert forall|j: int| 0 <= j < e implies #[trigger] el(y, j * b, b) == el(v, j * b, b) by {
        lemma_off(j, b);
        if j + 1 < e { lemma_order(j, e - 1, b); }
        assert(j * b + b <= e * b) by (nonlinear_arith) requires j + 1 <= e, b >= 1;
        let o = (j * b) as Blk;
        reveal(el);
        assert(((v & (!0@BLK@ >> sh)) >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (v >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
            requires 1 <= bb <= @W@, o < @W@, sh < bb, add(o, bb) <= sub(@W@@BLK@, sh), add(o, bb) <= @W@;
    }
    if y == z {
        assert forall|k: int| i * e <= k < (i + 1) * e implies #[trigger] s.raw(k) == d by {
            let j = k - i * e;
            lemma_raw_pos(s.storage@, i, j, b);
            assert(el(y, j * b, b) == el(z, j * b, b));
        }
    }
    if forall|k: int| i * e <= k < (i + 1) * e ==> #[trigger] s.raw(k) == d {
        assert forall|j: int| 0 <= j < e implies #[trigger] el(y, j * b, b) == el(z, j * b, b) by {
            lemma_raw_pos(s.storage@, i, j, b);
            assert(s.raw(i * e + j) == d);
        }
        if e * b < @W@ {
            let t = (e * b) as Blk;
            assert((v & (!0@BLK@ >> sh)) >> t == 0) by (bit_vector) requires t == sub(@W@@BLK@, sh), 1 <= sh < @W@;
        }
        lemma_word_eq(y, z, b, e);
    }
    if exists|k: int| i * e <= k < (i + 1) * e && #[trigger] s.raw(k) != d {
        let k = choose|k: int| i * e <= k < (i + 1) * e && #[trigger] s.raw(k) != d;
        lemma_raw_eq(s, x, k);
        assert(s@[k] != x);
    }
}
pub proof fn lemma_all_last<T: EnumLike>(s: EnumVec<T>, x: T, last: int, shift: int)
    requires s.wf(), last == s.num_elements as int / tepb::<T>(), shift == (s.num_elements as int % tepb::<T>()) * tb::<T>(), last < s.storage@.len(), shift != 0,
    ensures (s.storage@[last] & !(!0@BLK@ << (shift as Blk)) == xmask::<T>(x) & !(!0@BLK@ << (shift as Blk))) == (forall|k: int| last * tepb::<T>() <= k < s.num_elements ==> #[trigger] s.raw(k) == x.discr_of() as Blk),
        (exists|k: int| last * tepb::<T>() <= k < s.num_elements && #[trigger] s.raw(k) != x.discr_of() as Blk) ==> exists|k: int| 0 <= k < s@.len() && s@[k] != x,
{
    T::laws(); lemma_ty::<T>(); lemma_ok_discr::<T>(x);
    let b = tb::<T>(); let e = tepb::<T>(); let d = x.discr_of() as Blk; let z = xmask::<T>(x); let r = s.num_elements as int % e;
    let ss = shift as Blk; let bb = b as Blk; let lm = !(!0@BLK@ << ss);
    let v = s.storage@[last];
    lemma_masks(d, b); lemma_par(b); lemma_last_pos(s.num_elements as int, b);
    lemma_off(r, b);
    assert(last * e >= 0) by (nonlinear_arith) requires last >= 0, e >= 1;
    assert forall|q: Blk, j: int| 0 <= j < r implies #[trigger] el(q & lm, j * b, b) == el(q, j * b, b) by {
        lemma_off(j, b);
        lemma_order(j, r, b);
        let o = (j * b) as Blk;
        reveal(el);
        assert(((q & !(!0@BLK@ << ss)) >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (q >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
            requires 1 <= bb <= @W@, o < @W@, ss < @W@, add(o, bb) <= ss, bb <= ss;
    }
    if v & lm == z & lm {
        assert forall|k: int| last * e <= k < s.num_elements implies #[trigger] s.raw(k) == d by {
            let j = k - last * e;
            lemma_raw_pos(s.storage@, last, j, b);
            assert(el(v & lm, j * b, b) == el(v, j * b, b));
            assert(el(z & lm, j * b, b) == el(z, j * b, b));
        }
    }
    if forall|k: int| last * e <= k < s.num_elements ==> #[trigger] s.raw(k) == d {
        assert forall|j: int| 0 <= j < r implies #[trigger] el(v & lm, j * b, b) == el(z & lm, j * b, b) by {
            lemma_raw_pos(s.storage@, last, j, b);
            assert(s.raw(last * e + j) == d);
            assert(el(v & lm, j * b, b) == el(v, j * b, b));
            assert(el(z & lm, j * b, b) == el(z, j * b, b));
        }
        assert((v & !(!0@BLK@ << ss)) >> ss == (z & !(!0@BLK@ << ss)) >> ss) by (bit_vector) requires ss < @W@;
        lemma_word_eq(v & lm, z & lm, b, r);
    }
    if exists|k: int| last * e <= k < s.num_elements && #[trigger] s.raw(k) != d {
        let k = choose|k: int| last * e <= k < s.num_elements && #[trigger] s.raw(k) != d;
        lemma_raw_eq(s, x, k);
        assert(s@[k] != x);
    }
}
pub proof fn lemma_all_done<T: EnumLike>(s: EnumVec<T>, x: T, last: int)
    requires s.wf(), last == s.num_elements as int / tepb::<T>(),
        forall|k: int| 0 <= k < last * tepb::<T>() ==> #[trigger] s.raw(k) == x.discr_of() as Blk,
        s.num_elements as int % tepb::<T>() != 0 ==> forall|k: int| last * tepb::<T>() <= k < s.num_elements ==> #[trigger] s.raw(k) == x.discr_of() as Blk,
    ensures forall|i: int| 0 <= i < s@.len() ==> s@[i] == x,
{
    T::laws(); lemma_ty::<T>();
    lemma_last_pos(s.num_elements as int, tb::<T>());
    assert forall|i: int| 0 <= i < s@.len() implies s@[i] == x by { lemma_raw_eq(s, x, i); assert(s.raw(i) == x.discr_of() as Blk); }
}
'''

FNS['insert']['unwind'] = ['slot_code::<T>(prev as Blk)']
FNS['split_off']['unwind'] = ['other.oks()']
FNS['set_raw']['unwind_req'] = FNS['set_raw_unchecked']['unwind_req'] = ['slot_code::<T>(discr as Blk)']
FNS['storage_mut']['unwind'] = None        # unsafe: what is written is the caller's business

# C07: every slot of the storage, not only those below the length, holds the code of a
# value.  This is what makes a vector safe to use after a callback of the caller has
# panicked in the middle of an operation that changes the length early.
UNWIND = r'''
#[verifier::opaque]
pub open spec fn okb<T: EnumLike>(x: Blk) -> bool { forall|j: int| 0 <= j < tepb::<T>() ==> ok_raw::<T>(#[trigger] el(x, j * tb::<T>(), tb::<T>())) }
pub open spec fn slot_code<T: EnumLike>(x: Blk) -> bool { ok_raw::<T>(x) }
pub open spec fn oks_of<T: EnumLike>(s: Seq<Blk>) -> bool { forall|q: int| 0 <= q < s.len() ==> okb::<T>(#[trigger] s[q]) }
impl<T: EnumLike> EnumVec<T> {
    pub open spec fn oks(&self) -> bool { oks_of::<T>(self.storage@) }
}
pub proof fn lemma_okb_zero<T: EnumLike>()
    ensures okb::<T>(0),
{
    T::laws(); T::onto(); lemma_ty::<T>(); reveal(okb);
    assert(T::of_discr(0).discr_of() == 0);
    let b = tb::<T>();
    assert forall|j: int| 0 <= j < tepb::<T>() implies ok_raw::<T>(#[trigger] el(0, j * b, b)) by {
        lemma_off(j, b);
        reveal(el);
        let o = (j * b) as Blk; let m = mk(b);
        assert((0@BLK@ >> o) & m == 0) by (bit_vector);
    }
}
pub proof fn lemma_okb_put<T: EnumLike>(x: Blk, i: int, v: Blk)
    requires 0 <= i, okb::<T>(x), ok_raw::<T>(v),
    ensures okb::<T>(put(x, (i % tepb::<T>()) * tb::<T>(), tb::<T>(), v)),
{
    T::laws(); lemma_ty::<T>(); reveal(okb);
    let b = tb::<T>(); let e = tepb::<T>(); let r = i % e;
    lemma_mod_bound(i, e);
    lemma_off(r, b);
    lemma_ok_mk::<T>(v);
    lemma_put_same(x, r * b, b, v);
    assert forall|j: int| 0 <= j < e implies ok_raw::<T>(#[trigger] el(put(x, r * b, b, v), j * b, b)) by {
        lemma_off(j, b);
        if j != r { if j < r { lemma_order(j, r, b); } else { lemma_order(r, j, b); } lemma_put_other(x, r * b, b, v, j * b); assert(ok_raw::<T>(el(x, j * b, b))); }
    }
}
pub proof fn lemma_ok_mk<T: EnumLike>(v: Blk)
    requires ok_raw::<T>(v),
    ensures v <= mk(tb::<T>()),
{
    lemma_ok_discr::<T>(T::of_discr(v as usize));
}
pub proof fn lemma_okb_shl<T: EnumLike>(x: Blk, v: Blk)
    requires okb::<T>(x), ok_raw::<T>(v),
    ensures okb::<T>(shl_blk(x, tb::<T>(), v)),
{
    T::laws(); lemma_ty::<T>(); reveal(okb);
    let b = tb::<T>(); let e = tepb::<T>();
    lemma_ok_mk::<T>(v);
    lemma_shl(x, b, v);
    assert forall|j: int| 0 <= j < e implies ok_raw::<T>(#[trigger] el(shl_blk(x, b, v), j * b, b)) by {
        if j > 0 { assert(ok_raw::<T>(el(x, (j - 1) * b, b))); } else { assert(j * b == 0) by (nonlinear_arith) requires j == 0; }
    }
}
pub proof fn lemma_okb_shr<T: EnumLike>(x: Blk, v: Blk)
    requires okb::<T>(x), ok_raw::<T>(v),
    ensures okb::<T>(shr_blk(x, tb::<T>(), (tepb::<T>() - 1) * tb::<T>(), v)),
{
    T::laws(); lemma_ty::<T>(); reveal(okb);
    let b = tb::<T>(); let e = tepb::<T>();
    lemma_ok_mk::<T>(v);
    lemma_shr(x, b, (e - 1) * b, v);
    assert forall|j: int| 0 <= j < e implies ok_raw::<T>(#[trigger] el(shr_blk(x, b, (e - 1) * b, v), j * b, b)) by {
        if j < e - 1 { assert(ok_raw::<T>(el(x, (j + 1) * b, b))); }
    }
}
pub proof fn lemma_okb_fill<T: EnumLike>(x: Blk, v: Blk, m: int)
    requires block_value_ok(x, v, m, tb::<T>()), m * tb::<T>() >= @W@, ok_raw::<T>(v),
    ensures okb::<T>(x),
{
    T::laws(); lemma_ty::<T>(); reveal(okb);
    let b = tb::<T>(); let e = tepb::<T>();
    assert(m >= e) by (nonlinear_arith) requires m * b >= @W@, e * b <= @W@, b >= 1;
    assert forall|j: int| 0 <= j < tepb::<T>() implies ok_raw::<T>(#[trigger] el(x, j * tb::<T>(), tb::<T>())) by { assert(el(x, j * tb::<T>(), tb::<T>()) == v); }
}
pub proof fn lemma_okb_el<T: EnumLike>(x: Blk, j: int)
    requires okb::<T>(x), 0 <= j < tepb::<T>(),
    ensures ok_raw::<T>(el(x, j * tb::<T>(), tb::<T>())),
{ reveal(okb); }
pub proof fn lemma_unwind<T: EnumLike>()
    ensures okb::<T>(0),
        forall|x: T| ok_raw::<T>(#[trigger] x.discr_of() as Blk),
        forall|x: Blk, i: int, v: Blk| 0 <= i && okb::<T>(x) && ok_raw::<T>(v) ==> okb::<T>(#[trigger] put(x, (i % tepb::<T>()) * tb::<T>(), tb::<T>(), v)),
        forall|x: Blk, v: Blk| okb::<T>(x) && ok_raw::<T>(v) ==> okb::<T>(#[trigger] shl_blk(x, tb::<T>(), v)),
        forall|x: Blk, v: Blk| okb::<T>(x) && ok_raw::<T>(v) ==> okb::<T>(#[trigger] shr_blk(x, tb::<T>(), (tepb::<T>() - 1) * tb::<T>(), v)),
        forall|x: Blk, v: Blk, m: int| #[trigger] block_value_ok(x, v, m, tb::<T>()) && m * tb::<T>() >= @W@ && ok_raw::<T>(v) ==> okb::<T>(x),
        forall|x: Blk| okb::<T>(x) ==> ok_raw::<T>(#[trigger] el(x, 0, tb::<T>())),
        forall|x: Blk| okb::<T>(x) ==> ok_raw::<T>(#[trigger] el(x, (tepb::<T>() - 1) * tb::<T>(), tb::<T>())),
        forall|s: Seq<Blk>, i: int| oks_of::<T>(s) && 0 <= i < capn(s, tb::<T>()) ==> ok_raw::<T>(#[trigger] raw_at(s, i, tb::<T>())),
{
    T::laws(); lemma_ty::<T>();
    let b = tb::<T>(); let e = tepb::<T>();
    lemma_okb_zero::<T>();
    assert forall|x: T| ok_raw::<T>(#[trigger] x.discr_of() as Blk) by { lemma_ok_discr::<T>(x); }
    assert forall|x: Blk, i: int, v: Blk| 0 <= i && okb::<T>(x) && ok_raw::<T>(v) implies okb::<T>(#[trigger] put(x, (i % tepb::<T>()) * tb::<T>(), tb::<T>(), v)) by { lemma_okb_put::<T>(x, i, v); }
    assert forall|x: Blk, v: Blk| okb::<T>(x) && ok_raw::<T>(v) implies okb::<T>(#[trigger] shl_blk(x, tb::<T>(), v)) by { lemma_okb_shl::<T>(x, v); }
    assert forall|x: Blk, v: Blk| okb::<T>(x) && ok_raw::<T>(v) implies okb::<T>(#[trigger] shr_blk(x, tb::<T>(), (tepb::<T>() - 1) * tb::<T>(), v)) by { lemma_okb_shr::<T>(x, v); }
    assert forall|x: Blk, v: Blk, m: int| #[trigger] block_value_ok(x, v, m, tb::<T>()) && m * tb::<T>() >= @W@ && ok_raw::<T>(v) implies okb::<T>(x) by { lemma_okb_fill::<T>(x, v, m); }
    assert forall|x: Blk| okb::<T>(x) implies ok_raw::<T>(#[trigger] el(x, 0, tb::<T>())) by { assert(0 * b == 0); lemma_okb_el::<T>(x, 0); }
    assert forall|x: Blk| okb::<T>(x) implies ok_raw::<T>(#[trigger] el(x, (tepb::<T>() - 1) * tb::<T>(), tb::<T>())) by { lemma_okb_el::<T>(x, e - 1); }
    assert forall|s: Seq<Blk>, i: int| oks_of::<T>(s) && 0 <= i < capn(s, tb::<T>()) implies ok_raw::<T>(#[trigger] raw_at(s, i, tb::<T>())) by {
        reveal(raw_at);
        lemma_index(i, s.len() as int, b);
        assert(okb::<T>(s[i / e]));
        lemma_okb_el::<T>(s[i / e], i % e);
    }
}
'''
HASHER_FNS = []
ITER_MODEL = {
 'EnumVecIter': dict(gen="<'a, T: EnumLike>", ty="EnumVecIter<'a, T>"),
 'EnumVecIntoIter': dict(gen='<T: EnumLike>', ty='EnumVecIntoIter<T>'),
}
ITER_SPECS = '''
    open spec fn inv(&self) -> bool { self.v.wf() && (self.range.start < self.range.end ==> self.range.end <= self.v.num_elements) }
    open spec fn seq(&self) -> Seq<T> { Seq::new(rseq(self.range).len(), |i: int| self.v@[self.range.start + i]) }
'''
ITER_ENTRY = {
 'next': '',
 'next_back': '',
 'nth': '',
}
INTO_SPECS = '''
    open spec fn into_inv(self) -> bool { self.wf() }
    open spec fn into_seq(self) -> Seq<T> { self@ }
'''
EXT_SPECS = '''
    open spec fn ext_pre(&self, s: Seq<T>) -> bool { self.wf() && self.room(s.len() as int) && self.num_elements + s.len() < usize::MAX as int }
    open spec fn ext_post(&self, s: Seq<T>, f: &Self) -> bool { f.wf() && f@ == self@ + s %s }
'''
EXT_C08 = ' && f.storage@.len() <= vp_max_i(self.storage@.len() as int, blocks(self.num_elements + s.len(), tb::<T>()) + 1)'
