@use edit.rs list.rs mergeord.rs states.rs automaton.rs step.rs
@heap Position State StateIterator
@broadcast lst_is
@raw
pub open spec fn alg_of(f: FnPosTrans) -> Alg { if f is position_transition__STANDARD_4 { Alg::Std } else if f is position_transition__TRANSPOSITION_4 { Alg::Trans } else { Alg::Ms } }
pub open spec fn consistent(t: StateTransition_o, alg: Alg) -> bool {
    &&& !(t.transition is Empty) && !(t.compare is Empty) && !(t.merge is Empty) && !(t.unsubsume.subsumes is Empty)
    &&& alg_of(t.transition) == alg && sp_of(t.compare) == !(alg is Std) && !(t.merge is merge__STANDARD_2) == !(alg is Std)
}
pub open spec fn trans_pre(h0: Heap, t: StateTransition_o, s: Addr, cv: Seq<bool>) -> bool {
    let alg = alg_of(t.transition); let V0 = st_vals(h0, s);
    &&& exists|a: Alg| consistent(t, a)
    &&& st_ok(h0, s) &&& st_lst(h0, s).len() > 0
    &&& forall|j: int| 0 <= j < V0.len() ==> pos_ok(alg, t.max_distance as int, V0[0].i, cv.len() as int, #[trigger] V0[j])
    &&& alg is Std ==> forall|j: int| 0 <= j < V0.len() ==> !(#[trigger] V0[j]).s
    &&& V0[0].i + cv.len() < 0x8000_0000_0000_0000
}
/// the state reached is newly made, sorted, and holds exactly what follows from state s
pub open spec fn trans_post(h0: Heap, h1: Heap, t: StateTransition_o, s: Addr, cv: Seq<bool>, r: Addr) -> bool {
    let alg = alg_of(t.transition); let V0 = st_vals(h0, s); let n = t.max_distance as int; let k = V0.len() as int; let off = V0[0].i;
    &&& r == 0 ==> h1 =~= h0 && step_ok(alg, n, V0, k, cv, off, seq![])
    &&& r != 0 ==> {
        &&& !h0.State.contains_key(r)
        &&& h1 =~= (Heap { Position: h1.Position, State: h0.State.insert(r, h1.State[r]), ..h0 })
        &&& st_ok(h1, r) && st_lst(h1, r).len() > 0 && owns(h0.Position, h1.Position, st_lst(h1, r))
        &&& sorted(!(alg is Std), st_vals(h1, r))
        &&& step_ok(alg, n, V0, k, cv, off, st_vals(h1, r))
    }
}
@endraw

@fn index_of_3(characteristic_vector, k, i) -> r
@requires
    i + k <= characteristic_vector@.len(), characteristic_vector@.len() < 0x8000_0000_0000_0000
@ensures
    *final(hp) == *old(hp),
    r == u64::MAX ==> forall|x: int| 0 <= x < k ==> !#[trigger] characteristic_vector@[i + x],
    r != u64::MAX ==> r < k && characteristic_vector@[i + r] && forall|x: int| 0 <= x < r ==> !#[trigger] characteristic_vector@[i + x]
@loop 0
    invariant
        *hp == *old(hp), j <= k,
        forall|x: int| 0 <= x < j ==> !#[trigger] characteristic_vector@[i + x],
    decreases k - j
@at loop 0 begin
    let ghost cvj = characteristic_vector@[i + j];
@end

@fn TEMPLATE_ptrans(n, position, characteristic_vector, offset) -> r
@requires
    old(hp).Position.contains_key(position), pos_ok(ALG, n as int, offset as int, characteristic_vector@.len() as int, pv(old(hp).Position[position])),
    offset + characteristic_vector@.len() < 0x8000_0000_0000_0000
@ensures
    only_pos(*old(hp), *final(hp)), fresh(old(hp).Position, final(hp).Position, r@),
    out_ok(ALG, n as int, pv(old(hp).Position[position]), characteristic_vector@, offset as int, vals(final(hp).Position, r@))
@at entry
    let ghost src = pv(hp.Position[position]); let ghost m0 = hp.Position; let ghost cv = characteristic_vector@; let ghost off = offset as int; let ghost hh = src.i - off;
    proof { assert(hit(cv, off, src.i) == (hh < cv.len() && cv[hh])); assert(hit(cv, off, src.i + 1) == (hh + 1 < cv.len() && cv[hh + 1])); }
@at after call index_of_3
    proof { assert(cv[hh + 0] == cv[hh]); let kk = imin(n - src.e + 1, cv.len() - hh);
      assert forall|x: int| src.i <= x && #[trigger] hit(cv, off, x) && src.e + (x - src.i) <= n implies $r != u64::MAX && x - src.i >= $r by { let y = x - src.i; assert(y < kk); assert(cv[hh + y]); } if $r != u64::MAX { assert(hit(cv, off, src.i + $r)); } }
@at return
    proof { let V = vals(hp.Position, __r@); to_set_4(V); fresh_4(m0, hp.Position, __r@); }
@end
@same position_transition__STANDARD_4 = TEMPLATE_ptrans with ALG:=Alg::Std
@end
@same position_transition__TRANSPOSITION_4 = TEMPLATE_ptrans with ALG:=Alg::Trans
@end
@same position_transition__MERGE_AND_SPLIT_4 = TEMPLATE_ptrans with ALG:=Alg::Ms
@end
@fn FnPosTrans__call(f, n, position, characteristic_vector, offset) -> r
@requires
    !(f is Empty), old(hp).Position.contains_key(position), pos_ok(alg_of(f), n as int, offset as int, characteristic_vector@.len() as int, pv(old(hp).Position[position])),
    offset + characteristic_vector@.len() < 0x8000_0000_0000_0000
@ensures
    only_pos(*old(hp), *final(hp)), fresh(old(hp).Position, final(hp).Position, r@),
    out_ok(alg_of(f), n as int, pv(old(hp).Position[position]), characteristic_vector@, offset as int, vals(final(hp).Position, r@))
@end

@fn FnMerge__call(f, state, positions)
@requires
    !(f is Empty), st_ok(*old(hp), state), desc(!(f is merge__STANDARD_2), st_vals(*old(hp), state)), loose(old(hp).Position, positions@), disj(st_lst(*old(hp), state), positions@)
@ensures
    only_state(*old(hp), *final(hp), state), st_ok(*final(hp), state),
    merged(!(f is merge__STANDARD_2), old(hp).Position, st_lst(*old(hp), state), positions@, final(hp).Position, st_lst(*final(hp), state))
@end

@fn StateTransition__call_2(this_, curr_state, characteristic_vector) -> r
@hide step_ok, out_ok, merged, local_sound, required, pos_ok, hit, desc, sorted, cov
@requires
    trans_pre(*old(hp), this_, curr_state, characteristic_vector@)
@ensures
    trans_post(*old(hp), *final(hp), this_, curr_state, characteristic_vector@, r)
@at entry
    let ghost alg = alg_of(this_.transition); let ghost sp = !(alg is Std); let ghost m0 = hp.Position; let ghost L0 = st_lst(*hp, curr_state); let ghost V0 = st_vals(*hp, curr_state); let ghost cv = characteristic_vector@;
    let ghost off = V0[0].i; let ghost nn = this_.max_distance as int; let ghost mut k: int = 0; let ghost mut h1 = *hp; let ghost mut L: Seq<Addr> = seq![]; let ghost mut ms = m0; let ghost mut mt = m0; let ghost mut PP: Seq<Addr> = seq![]; let ghost mut L1: Seq<Addr> = seq![];
    proof { assert(V0[0] == pv(m0[L0[0]])); assert(L0.contains(L0[0])); let a2 = choose|a2: Alg| consistent(this_, a2); assert(consistent(this_, alg)); }
@at loop 0 before
    proof { h1 = *hp; assert(hp.State[curr_state] == old(hp).State[curr_state]); assert(is_list(hp.Position, hp.State[next_state]._head, L)); assert(vals(hp.Position, L) =~= seq![]); step_none(alg, nn, V0, cv, off, sp); assert(m0[L0[0]]._next == at(L0, 1)); }
@loop 0
    invariant
        *hp =~= (Heap { Position: hp.Position, State: hp.State, StateIterator: hp.StateIterator, ..h1 }), hp.StateIterator =~= h1.StateIterator.insert(__begin1, hp.StateIterator[__begin1]), h1.StateIterator.contains_key(__begin1),
        hp.State =~= old(hp).State.insert(next_state, hp.State[next_state]), hp.State.contains_key(next_state),
        0 <= k <= L0.len(), hp.StateIterator[__begin1]._curr == at(L0, k), hp.StateIterator[__begin1]._next == at(L0, k + 1),
        is_list(hp.Position, hp.State[next_state]._head, L), owns(m0, hp.Position, L), desc(sp, vals(hp.Position, L)), step_ok(alg, nn, V0, k, cv, off, vals(hp.Position, L)),
    decreases L0.len() - k
@at loop 0 begin
    proof { assert(k < L0.len()); assert(m0[L0[k]]._next == at(L0, k + 1)); assert(m0.contains_key(L0[k])); assert(V0[k] == pv(m0[L0[k]])); if k + 1 < L0.len() { assert(m0[L0[k + 1]]._next == at(L0, k + 2)); assert(m0.contains_key(L0[k + 1])); } ms = hp.Position; L1 = L; }
@at after call FnPosTrans__call
    proof { mt = hp.Position; PP = $r@; assert forall|i: int| 0 <= i < L.len() implies mt.contains_key(#[trigger] L[i]) && mt[L[i]] == ms[L[i]] by { assert(L.contains(L[i])); assert(mt.dom().contains(L[i])); } seg_frame(ms, mt, hp.State[next_state]._head, L, 0);
        assert(is_list(mt, hp.State[next_state]._head, L)); assert(disj(L, PP)) by { assert forall|i: int, j: int| #![trigger L[i], PP[j]] 0 <= i < L.len() && 0 <= j < PP.len() implies L[i] != PP[j] by { assert(L.contains(L[i])); assert(!ms.contains_key(PP[j])); } } }
@at after call FnMerge__call
    proof { L = st_lst(*hp, next_state); tr_step(alg, nn, m0, V0, k, cv, off, ms, L1, mt, PP, hp.Position, L); if k + 1 < L0.len() { assert(hp.Position[L0[k + 1]] == m0[L0[k + 1]]); assert(hp.Position.contains_key(L0[k + 1])); } }
@at loop 0 end
    proof { k = k + 1; }
@at before call UnsubsumeFn__call_2
    proof { desc_errs(sp, vals(hp.Position, L)); assert(hp.StateIterator =~= old(hp).StateIterator); ms = hp.Position; L1 = L; }
@at after call State__sort_1
    proof { step_perm(alg, nn, m0, V0, k, cv, off, ms, L1, hp.Position, st_lst(*hp, next_state)); if st_lst(*hp, next_state).len() == 0 { assert(L1.contains(L1[0])); assert(L1.to_set().contains(L1[0])); } }
@at return
    proof { assert(h1.State =~= old(hp).State.insert(next_state, h1.State[next_state])); if __r == 0 { assert(L1 =~= seq![]); assert(vals(ms, L1) =~= seq![]); assert(hp.Position =~= m0); assert(hp.State =~= old(hp).State); } }
@end

@fn FnTransition__call(f, s, characteristic_vector) -> r
@requires
    f is StateTransition, trans_pre(*old(hp), f->StateTransition_0, s, characteristic_vector@)
@ensures
    trans_post(*old(hp), *final(hp), f->StateTransition_0, s, characteristic_vector@, r)
@end
