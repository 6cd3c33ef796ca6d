// Generated by tools/gen_typed.py: round trips of integers, maps, sets and tuples.
impl Codec for u8 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for u16 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for u32 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for u64 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for i8 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for i16 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for i32 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for i64 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl<K: Codec + Ord, T: Codec> Codec for BTreeMap<K, T> {
    open spec fn rt(&self) -> bool { rt_pairs(vx_items::<(K, T), BTreeMap<K, T>>(*self)) }
    proof fn back(&self) {
        broadcast use {axiom_keys_btreemap, axiom_items_cap_btreemap, axiom_cap_max};
        let s = vx_items::<(K, T), BTreeMap<K, T>>(*self);
        lemma_map_back(s);
        lemma_norm_unfold(self.e());
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { let s = pairm(vx_items::<(K, T), BTreeMap<K, T>>(*self)); assert(s =~= Seq::empty()); assert(map_of(s) == Map::<K::M, T::M>::empty()); }
}
/// Iteration yields every key once; keys are equal exactly when they stand for the same thing.
pub broadcast axiom fn axiom_keys_btreemap<K: Ty, T: Ty>(m: BTreeMap<K, T>) ensures diff_keys(#[trigger] vx_items::<(K, T), BTreeMap<K, T>>(m));
pub broadcast axiom fn axiom_items_cap_btreemap<K: Ty, T: Ty>(m: BTreeMap<K, T>) ensures (#[trigger] vx_items::<(K, T), BTreeMap<K, T>>(m)).len() <= vx_cap();
impl<K: Codec + Eq + std::hash::Hash, T: Codec> Codec for HashMap<K, T> {
    open spec fn rt(&self) -> bool { rt_pairs(vx_items::<(K, T), HashMap<K, T>>(*self)) }
    proof fn back(&self) {
        broadcast use {axiom_keys_hashmap, axiom_items_cap_hashmap, axiom_cap_max};
        let s = vx_items::<(K, T), HashMap<K, T>>(*self);
        lemma_map_back(s);
        lemma_norm_unfold(self.e());
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { let s = pairm(vx_items::<(K, T), HashMap<K, T>>(*self)); assert(s =~= Seq::empty()); assert(map_of(s) == Map::<K::M, T::M>::empty()); }
}
/// Iteration yields every key once; keys are equal exactly when they stand for the same thing.
pub broadcast axiom fn axiom_keys_hashmap<K: Ty, T: Ty>(m: HashMap<K, T>) ensures diff_keys(#[trigger] vx_items::<(K, T), HashMap<K, T>>(m));
pub broadcast axiom fn axiom_items_cap_hashmap<K: Ty, T: Ty>(m: HashMap<K, T>) ensures (#[trigger] vx_items::<(K, T), HashMap<K, T>>(m)).len() <= vx_cap();
impl<T: Codec + Ord> Codec for BTreeSet<T> {
    open spec fn rt(&self) -> bool { forall|i: int| 0 <= i < vx_items::<T, BTreeSet<T>>(*self).len() ==> (#[trigger] vx_items::<T, BTreeSet<T>>(*self)[i]).rt() }
    proof fn back(&self) {
        broadcast use {axiom_items_cap_btreeset, axiom_cap_max};
        let s = vx_items::<T, BTreeSet<T>>(*self);
        lemma_seq_back(s);
        lemma_norm_unfold(self.e());
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { let s = seqm(vx_items::<T, BTreeSet<T>>(*self)); assert(s =~= Seq::empty()); assert(s.to_set() =~= Set::<T::M>::empty()); }
}
pub broadcast axiom fn axiom_items_cap_btreeset<T: Ty>(m: BTreeSet<T>) ensures (#[trigger] vx_items::<T, BTreeSet<T>>(m)).len() <= vx_cap();
impl<T: Codec + Eq + std::hash::Hash> Codec for HashSet<T> {
    open spec fn rt(&self) -> bool { forall|i: int| 0 <= i < vx_items::<T, HashSet<T>>(*self).len() ==> (#[trigger] vx_items::<T, HashSet<T>>(*self)[i]).rt() }
    proof fn back(&self) {
        broadcast use {axiom_items_cap_hashset, axiom_cap_max};
        let s = vx_items::<T, HashSet<T>>(*self);
        lemma_seq_back(s);
        lemma_norm_unfold(self.e());
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { let s = seqm(vx_items::<T, HashSet<T>>(*self)); assert(s =~= Seq::empty()); assert(s.to_set() =~= Set::<T::M>::empty()); }
}
pub broadcast axiom fn axiom_items_cap_hashset<T: Ty>(m: HashSet<T>) ensures (#[trigger] vx_items::<T, HashSet<T>>(m)).len() <= vx_cap();
impl<A0: Codec> Codec for (A0,) {
    open spec fn rt(&self) -> bool { self.0.rt() }
    proof fn back(&self) {
        self.0.back();
        let e = seq![self.0.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()));
        lemma_wf_all_arr(e, 1);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); }
}
impl<A0: Codec, A1: Codec> Codec for (A0, A1,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back();
        let e = seq![self.0.e(), self.1.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()));
        lemma_wf_all_arr(e, 2);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec> Codec for (A0, A1, A2,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()));
        lemma_wf_all_arr(e, 3);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec> Codec for (A0, A1, A2, A3,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()));
        lemma_wf_all_arr(e, 4);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec, A4: Codec> Codec for (A0, A1, A2, A3, A4,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() && self.4.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back(); self.4.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e(), self.4.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()) && norms(e)[4] == norm(self.4.e()));
        lemma_wf_all_arr(e, 5);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() || self.4.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); self.4.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec, A4: Codec, A5: Codec> Codec for (A0, A1, A2, A3, A4, A5,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() && self.4.rt() && self.5.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back(); self.4.back(); self.5.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e(), self.4.e(), self.5.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()) && norms(e)[4] == norm(self.4.e()) && norms(e)[5] == norm(self.5.e()));
        lemma_wf_all_arr(e, 6);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() || self.4.lost() || self.5.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); self.4.empty_law(); self.5.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec, A4: Codec, A5: Codec, A6: Codec> Codec for (A0, A1, A2, A3, A4, A5, A6,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() && self.4.rt() && self.5.rt() && self.6.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back(); self.4.back(); self.5.back(); self.6.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e(), self.4.e(), self.5.e(), self.6.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()) && norms(e)[4] == norm(self.4.e()) && norms(e)[5] == norm(self.5.e()) && norms(e)[6] == norm(self.6.e()));
        lemma_wf_all_arr(e, 7);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() || self.4.lost() || self.5.lost() || self.6.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); self.4.empty_law(); self.5.empty_law(); self.6.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec, A4: Codec, A5: Codec, A6: Codec, A7: Codec> Codec for (A0, A1, A2, A3, A4, A5, A6, A7,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() && self.4.rt() && self.5.rt() && self.6.rt() && self.7.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back(); self.4.back(); self.5.back(); self.6.back(); self.7.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e(), self.4.e(), self.5.e(), self.6.e(), self.7.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()) && norms(e)[4] == norm(self.4.e()) && norms(e)[5] == norm(self.5.e()) && norms(e)[6] == norm(self.6.e()) && norms(e)[7] == norm(self.7.e()));
        lemma_wf_all_arr(e, 8);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() || self.4.lost() || self.5.lost() || self.6.lost() || self.7.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); self.4.empty_law(); self.5.empty_law(); self.6.empty_law(); self.7.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec, A4: Codec, A5: Codec, A6: Codec, A7: Codec, A8: Codec> Codec for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() && self.4.rt() && self.5.rt() && self.6.rt() && self.7.rt() && self.8.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back(); self.4.back(); self.5.back(); self.6.back(); self.7.back(); self.8.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e(), self.4.e(), self.5.e(), self.6.e(), self.7.e(), self.8.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()) && norms(e)[4] == norm(self.4.e()) && norms(e)[5] == norm(self.5.e()) && norms(e)[6] == norm(self.6.e()) && norms(e)[7] == norm(self.7.e()) && norms(e)[8] == norm(self.8.e()));
        lemma_wf_all_arr(e, 9);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() || self.4.lost() || self.5.lost() || self.6.lost() || self.7.lost() || self.8.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); self.4.empty_law(); self.5.empty_law(); self.6.empty_law(); self.7.empty_law(); self.8.empty_law(); }
}
impl<A0: Codec, A1: Codec, A2: Codec, A3: Codec, A4: Codec, A5: Codec, A6: Codec, A7: Codec, A8: Codec, A9: Codec> Codec for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) {
    open spec fn rt(&self) -> bool { self.0.rt() && self.1.rt() && self.2.rt() && self.3.rt() && self.4.rt() && self.5.rt() && self.6.rt() && self.7.rt() && self.8.rt() && self.9.rt() }
    proof fn back(&self) {
        self.0.back(); self.1.back(); self.2.back(); self.3.back(); self.4.back(); self.5.back(); self.6.back(); self.7.back(); self.8.back(); self.9.back();
        let e = seq![self.0.e(), self.1.e(), self.2.e(), self.3.e(), self.4.e(), self.5.e(), self.6.e(), self.7.e(), self.8.e(), self.9.e()];
        assert(self.e() == V::A(e));
        lemma_norm_unfold(self.e());
        assert(norms(e)[0] == norm(self.0.e()) && norms(e)[1] == norm(self.1.e()) && norms(e)[2] == norm(self.2.e()) && norms(e)[3] == norm(self.3.e()) && norms(e)[4] == norm(self.4.e()) && norms(e)[5] == norm(self.5.e()) && norms(e)[6] == norm(self.6.e()) && norms(e)[7] == norm(self.7.e()) && norms(e)[8] == norm(self.8.e()) && norms(e)[9] == norm(self.9.e()));
        lemma_wf_all_arr(e, 10);
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.0.lost() || self.1.lost() || self.2.lost() || self.3.lost() || self.4.lost() || self.5.lost() || self.6.lost() || self.7.lost() || self.8.lost() || self.9.lost() }
    proof fn empty_law(&self) { self.0.empty_law(); self.1.empty_law(); self.2.empty_law(); self.3.empty_law(); self.4.empty_law(); self.5.empty_law(); self.6.empty_law(); self.7.empty_law(); self.8.empty_law(); self.9.empty_law(); }
}
