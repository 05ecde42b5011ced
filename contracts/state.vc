@use list.rs mergeord.rs states.rs
@heap Position State StateIterator
@broadcast lst_is, one_has_list, relinked_keeps, relinked_wider

@fn Position__dtor_0(this_)
@requires
    has_list(old(hp).Position, this_), this_ != 0
@ensures
    only_pos(*old(hp), *final(hp)),
    final(hp).Position =~= old(hp).Position.remove_keys(lst(old(hp).Position, this_).drop_first().to_set()),
    old(hp).Position[this_]._next == 0 ==> *final(hp) == *old(hp)
@decreases lst(old(hp).Position, this_).len()
@at entry
    let ghost m0 = hp.Position; let ghost L0 = lst(m0, this_);
    proof { list_tail(m0, this_, L0); if L0.len() > 1 { list_tail(m0, m0[this_]._next, L0.drop_first()); assert(L0.drop_first().to_set() =~= L0.drop_first().drop_first().to_set().insert(L0[1])) by { assert forall|a: Addr| L0.drop_first().contains(a) == (a == L0[1] || L0.drop_first().drop_first().contains(a)) by { if L0.drop_first().contains(a) { let k = L0.drop_first().index_of(a); if k > 0 { assert(L0.drop_first().drop_first()[k - 1] == a); } } else { if L0.drop_first().drop_first().contains(a) { let k = L0.drop_first().drop_first().index_of(a); assert(L0.drop_first()[k + 1] == a); } assert(L0.drop_first()[0] == L0[1]); } } } } else { assert(L0.drop_first().to_set() =~= Set::empty()); } }
@end

@fn State__dtor_0(this_)
@requires
    st_ok(*old(hp), this_)
@ensures
    only_pos(*old(hp), *final(hp)),
    final(hp).Position =~= old(hp).Position.remove_keys(st_lst(*old(hp), this_).to_set())
@at entry
    let ghost m0 = hp.Position; let ghost L0 = st_lst(*hp, this_);
    proof { if L0.len() > 0 { list_tail(m0, L0[0], L0); assert(L0.to_set() =~= L0.drop_first().to_set().insert(L0[0])) by { assert forall|a: Addr| L0.contains(a) == (a == L0[0] || L0.drop_first().contains(a)) by { if L0.contains(a) { let k = L0.index_of(a); if k > 0 { assert(L0.drop_first()[k - 1] == a); } } else if L0.drop_first().contains(a) { let k = L0.drop_first().index_of(a); assert(L0[k + 1] == a); } } } } else { assert(L0.to_set() =~= Set::empty()); } }
@end

@fn State__find_middle_1(lower) -> r
@requires
    has_list(old(hp).Position, lower), lower != 0
@ensures
    *final(hp) == *old(hp), lst(old(hp).Position, lower).len() > 0,
    r == lst(old(hp).Position, lower)[(lst(old(hp).Position, lower).len() - 1) / 2]
@at entry
    let ghost L0 = lst(hp.Position, lower); let ghost mut k: int = 0;
@loop 0
    invariant
        *hp == *old(hp), is_list(hp.Position, lower, L0), 0 <= k, 2 * k < L0.len(), slow == L0[k], fast == L0[2 * k],
    decreases L0.len() - 2 * k
@at loop 0 begin
    proof { assert(L0[k + 1] != 0); assert(hp.Position[L0[k]]._next == L0[k + 1]); assert(hp.Position[L0[2 * k]]._next == L0[2 * k + 1]); assert(hp.Position[L0[2 * k + 1]]._next == (if 2 * k + 2 < L0.len() { L0[2 * k + 2] } else { 0 })); k = k + 1; }
@at loop 0 after
    proof { assert(hp.Position[L0[2 * k]]._next == (if 2 * k + 1 < L0.len() { L0[2 * k + 1] } else { 0 })); if 2 * k + 2 < L0.len() { assert(hp.Position[L0[2 * k + 1]]._next == L0[2 * k + 2]); } }
@end

@fn TEMPLATE_compare(lhs, rhs) -> r
@requires
    old(hp).Position.contains_key(lhs), old(hp).Position.contains_key(rhs)
@ensures
    *final(hp) == *old(hp), cmp_sign(SPFLAG, pv(old(hp).Position[lhs]), pv(old(hp).Position[rhs]), r as int)
@end
@same compare__STANDARD_2 = TEMPLATE_compare with SPFLAG:=false
@end
@same compare__TRANSPOSITION_2 = TEMPLATE_compare with SPFLAG:=true
@end
@same compare__MERGE_AND_SPLIT_2 = TEMPLATE_compare with SPFLAG:=true
@end
@fn FnCompare__call(f, lhs, rhs) -> r
@requires
    !(f is Empty), old(hp).Position.contains_key(lhs), old(hp).Position.contains_key(rhs)
@ensures
    *final(hp) == *old(hp), cmp_sign(sp_of(f), pv(old(hp).Position[lhs]), pv(old(hp).Position[rhs]), r as int)
@end

@fn State__merge_3(compare, lower, upper) -> r
@requires
    !(compare is Empty),
    has_list(old(hp).Position, lower), has_list(old(hp).Position, upper), disj(lst(old(hp).Position, lower), lst(old(hp).Position, upper)),
    sorted(sp_of(compare), vals(old(hp).Position, lst(old(hp).Position, lower))), sorted(sp_of(compare), vals(old(hp).Position, lst(old(hp).Position, upper))),
@ensures
    only_pos(*old(hp), *final(hp)),
    has_list(final(hp).Position, r),
    lst(final(hp).Position, r).to_set() =~= lst(old(hp).Position, lower).to_set() + lst(old(hp).Position, upper).to_set(),
    sorted(sp_of(compare), vals(final(hp).Position, lst(final(hp).Position, r))),
    relinked(old(hp).Position, final(hp).Position, lst(old(hp).Position, lower).to_set() + lst(old(hp).Position, upper).to_set())
@at entry
    let ghost m0 = hp.Position; let ghost A0 = lst(m0, lower); let ghost B0 = lst(m0, upper);
    let ghost mut A = A0; let ghost mut B = B0; let ghost mut C: Seq<Addr> = seq![];
    let ghost sp = sp_of(compare);
@at loop 0 before
    proof {
        C = seq![temp]; assert(C[0] == temp); list_one(hp.Position, temp, 0); seg_frame(m0, hp.Position, lower, A0, 0); seg_frame(m0, hp.Position, upper, B0, 0);
        assert(C.drop_first() =~= seq![]);
        assert(!A0.contains(temp)) by { if A0.contains(temp) { assert(m0.contains_key(A0[A0.index_of(temp)])); } }
        assert(!B0.contains(temp)) by { if B0.contains(temp) { assert(m0.contains_key(B0[B0.index_of(temp)])); } }
        assert(vals(hp.Position, C.drop_first()) =~= seq![]);
    }
@loop 0
    invariant
        only_pos(*old(hp), *hp), next == temp, temp != 0, !m0.contains_key(temp), hp.Position.dom() =~= m0.dom().insert(temp),
        forall|a: Addr| m0.contains_key(a) ==> pv(#[trigger] hp.Position[a]) == pv(m0[a]),
        forall|a: Addr| m0.contains_key(a) && !A0.contains(a) && !B0.contains(a) ==> #[trigger] hp.Position[a] == m0[a],
        C.len() > 0, C[0] == temp, curr == C.last(), seg(hp.Position, temp, C, hp.Position[C.last()]._next),
        hp.Position[C.last()]._next == lower || hp.Position[C.last()]._next == upper || hp.Position[C.last()]._next == 0,
        is_list(hp.Position, lower, A), is_list(hp.Position, upper, B), disj(C, A), disj(C, B), disj(A, B),
        A0.to_set() + B0.to_set() =~= C.drop_first().to_set() + A.to_set() + B.to_set(),
        sorted(sp, vals(hp.Position, C.drop_first())), sorted(sp, vals(hp.Position, A)), sorted(sp, vals(hp.Position, B)),
        below(sp, vals(hp.Position, C.drop_first()), vals(hp.Position, A)), below(sp, vals(hp.Position, C.drop_first()), vals(hp.Position, B)),
    decreases A.len() + B.len()
@at loop 0 begin
    let ghost m1 = hp.Position; let ghost mut rlo = 0u64; let ghost mut rup = 0u64; let ghost lo = lower; let ghost up = upper; let ghost A1 = A; let ghost B1 = B; let ghost C1 = C;
    proof { list_tail(m1, lower, A); list_tail(m1, upper, B); assert(C[C.len() - 1] == C.last()); }
@at loop 0 end
    proof {
        merge_loop(m1, hp.Position, temp, C1, lo, A1, up, B1, curr, lower, upper, sp, A0.to_set() + B0.to_set());
        if curr == lo { A = A1.drop_first(); } else { B = B1.drop_first(); }
        C = C1.push(curr);
    }
@at loop 0 after
    let ghost m2 = hp.Position; let ghost rest = if upper != 0 { B } else { A }; let ghost x = if upper != 0 { upper } else { lower };
    proof { assert(A0.to_set() + B0.to_set() =~= C.drop_first().to_set() + rest.to_set()); assert(C[C.len() - 1] == C.last()); if C.len() > 1 { assert(hp.Position[C[0]]._next == C[1]); } }
@at return
    proof { assert(seq![temp].drop_first().to_set() =~= Set::empty()); assert(hp.Position.dom() =~= m0.dom()); merge_end(m2, hp.Position, temp, C, x, rest, sp); if C.len() > 1 { assert(C.drop_first()[C.len() - 2] == C.last()); assert(C.drop_first().to_set().contains(C.last())); } }
@end

@fn State__merge_sort_2(this_, compare, lower) -> r
@requires
    !(compare is Empty), has_list(old(hp).Position, lower)
@ensures
    only_pos(*old(hp), *final(hp)),
    has_list(final(hp).Position, r),
    lst(final(hp).Position, r).to_set() =~= lst(old(hp).Position, lower).to_set(),
    sorted(sp_of(compare), vals(final(hp).Position, lst(final(hp).Position, r))),
    relinked(old(hp).Position, final(hp).Position, lst(old(hp).Position, lower).to_set())
@decreases lst(old(hp).Position, lower).len()
@at entry
    let ghost m0 = hp.Position; let ghost L = lst(m0, lower);
    let ghost k: int = (L.len() - 1) / 2 + 1; let ghost A = L.take(k); let ghost B = L.skip(k); let ghost mc = cut(m0, L[k - 1]); let ghost mut m1 = m0; let ghost mut first = true;
    let ghost mut rlo = 0u64; let ghost mut rup = 0u64; let ghost lo = lower; let ghost up = m0[L[k - 1]]._next;
    proof { if lower != 0 { list_tail(m0, lower, L); split_lists(m0, lower, L, k); disj_sets(A, B, A, B); } }
@at before call State__merge_sort_2
    proof { if first { assert(hp.Position =~= mc); first = false; } assert(has_list(hp.Position, $3)); assert(lst(hp.Position, $3) == (if $3 == lo { A } else { B })); m1 = hp.Position; }
@at after call State__merge_sort_2
    proof { assert(relinked(m1, hp.Position, if $3 == lo { A.to_set() } else { B.to_set() })); relinked_trans(mc, m1, hp.Position, L.to_set()); if $3 == lo { rlo = $r; disj_sets(A, B, lst(hp.Position, $r), B); } else { rup = $r; disj_sets(A, B, A, lst(hp.Position, $r)); } }
@at before call State__merge_3
    proof { assert(has_list(hp.Position, $2)); assert(has_list(hp.Position, $3)); disj_sets(A, B, lst(hp.Position, $2), lst(hp.Position, $3)); m1 = hp.Position; }
@at after call State__merge_3
    proof { relinked_trans(m0, m1, hp.Position, L.to_set()); }
@end

@fn State__sort_1(this_, compare)
@requires
    !(compare is Empty), st_ok(*old(hp), this_)
@ensures
    only_state(*old(hp), *final(hp), this_), st_ok(*final(hp), this_),
    st_lst(*final(hp), this_).to_set() =~= st_lst(*old(hp), this_).to_set(),
    sorted(sp_of(compare), st_vals(*final(hp), this_)),
    relinked(old(hp).Position, final(hp).Position, st_lst(*old(hp), this_).to_set())
@end

@fn State__head_1(this_, head)
@requires
    st_ok(*old(hp), this_), old(hp).Position.contains_key(head), head != 0, !st_lst(*old(hp), this_).contains(head)
@ensures
    only_state(*old(hp), *final(hp), this_), is_list(final(hp).Position, final(hp).State[this_]._head, seq![head] + st_lst(*old(hp), this_)),
    relinked(old(hp).Position, final(hp).Position, set![head])
@at return
    proof { list_push_front(old(hp).Position, hp.Position, old(hp).State[this_]._head, st_lst(*old(hp), this_), head); }
@end

@fn State__add_1(this_, next)
@requires
    st_ok(*old(hp), this_), old(hp).Position.contains_key(next), old(hp).Position[next]._next == 0, next != 0, !st_lst(*old(hp), this_).contains(next)
@ensures
    only_state(*old(hp), *final(hp), this_), is_list(final(hp).Position, final(hp).State[this_]._head, st_lst(*old(hp), this_).push(next)),
    relinked(old(hp).Position, final(hp).Position, st_lst(*old(hp), this_).to_set())
@at entry
    let ghost L = st_lst(*hp, this_); let ghost mut k: int = 0; let ghost m0 = hp.Position;
@loop 0
    invariant
        *hp == *old(hp), is_list(hp.Position, hp.State[this_]._head, L), 0 <= k < L.len(), curr == L[k],
    decreases L.len() - k
@at loop 0 begin
    proof { assert(hp.Position[L[k]]._next == (if k + 1 < L.len() { L[k + 1] } else { 0 })); k = k + 1; }
@at return
    proof {
        if L.len() == 0 { list_one(hp.Position, next, 0); assert(L.push(next) =~= seq![next]); }
        else { assert(k == L.len() - 1) by { if k + 1 < L.len() { assert(m0[L[k]]._next == L[k + 1]); } } assert(m0[L[k]]._next == 0); list_insert(m0, hp.Position, old(hp).State[this_]._head, L, k, next); assert(L.insert(k + 1, next) =~= L.push(next)); assert(L.to_set().contains(L[k])); }
    }
@end

@fn State__insert_after_2(this_, curr, next)
@requires
    st_ok(*old(hp), this_), old(hp).Position.contains_key(next), next != 0, !st_lst(*old(hp), this_).contains(next),
    curr == 0 ==> old(hp).Position[next]._next == 0,
    curr != 0 ==> st_lst(*old(hp), this_).contains(curr)
@ensures
    only_state(*old(hp), *final(hp), this_),
    curr == 0 ==> is_list(final(hp).Position, final(hp).State[this_]._head, st_lst(*old(hp), this_).push(next)),
    curr != 0 ==> is_list(final(hp).Position, final(hp).State[this_]._head, st_lst(*old(hp), this_).insert(st_lst(*old(hp), this_).index_of(curr) + 1, next)),
    relinked(old(hp).Position, final(hp).Position, st_lst(*old(hp), this_).to_set().insert(next))
@at return
    proof { if curr != 0 { let L = st_lst(*old(hp), this_); let k = L.index_of(curr); assert(L[k] == curr); list_insert(old(hp).Position, hp.Position, old(hp).State[this_]._head, L, k, next); assert(L.to_set().contains(curr)); } }
@end

@fn State__remove_2(this_, prev, curr)
@requires
    st_ok(*old(hp), this_), st_lst(*old(hp), this_).contains(curr),
    prev == 0 ==> curr == st_lst(*old(hp), this_)[0],
    prev != 0 ==> st_lst(*old(hp), this_).contains(prev) && old(hp).Position[prev]._next == curr
@ensures
    only_state(*old(hp), *final(hp), this_),
    is_list(final(hp).Position, final(hp).State[this_]._head, st_lst(*old(hp), this_).remove(st_lst(*old(hp), this_).index_of(curr))),
    final(hp).Position.dom() =~= old(hp).Position.dom().remove(curr),
    forall|a: Addr| final(hp).Position.contains_key(a) ==> pv(#[trigger] final(hp).Position[a]) == pv(old(hp).Position[a]),
    forall|a: Addr| final(hp).Position.contains_key(a) && a != prev ==> #[trigger] final(hp).Position[a] == old(hp).Position[a]
@at entry
    let ghost m0 = hp.Position; let ghost L = st_lst(*hp, this_); let ghost k = L.index_of(curr);
    proof { assert(L[k] == curr); if prev != 0 { let j = L.index_of(prev); assert(L[j] == prev); assert(m0[L[j]]._next == (if j + 1 < L.len() { L[j + 1] } else { 0 })); assert(k == j + 1); } else { assert(k == 0); } assert(m0[L[k]]._next == (if k + 1 < L.len() { L[k + 1] } else { 0 })); }
@at return
    proof { list_remove(m0, hp.Position, old(hp).State[this_]._head, L, k); }
@end

@fn TEMPLATE_ctor(positions) -> r
@requires
    loose(old(hp).Position, positions@)
@ensures
    r != 0, !old(hp).State.contains_key(r), *final(hp) =~= (Heap { Position: final(hp).Position, State: old(hp).State.insert(r, final(hp).State[r]), ..*old(hp) }),
    is_list(final(hp).Position, final(hp).State[r]._head, positions@), relinked(old(hp).Position, final(hp).Position, positions@.to_set())
@loop 0
    invariant
        __rng0 == positions, 0 <= __idx0 <= positions@.len(), THIS != 0, !old(hp).State.contains_key(THIS), hp.State.contains_key(THIS),
        *hp =~= (Heap { Position: hp.Position, State: old(hp).State.insert(THIS, hp.State[THIS]), ..*old(hp) }),
        is_list(hp.Position, hp.State[THIS]._head, positions@.take(__idx0 as int)), relinked(old(hp).Position, hp.Position, positions@.to_set()),
        forall|i: int| __idx0 <= i < positions@.len() ==> hp.Position.contains_key(#[trigger] positions@[i]) && hp.Position[positions@[i]]._next == 0,
        curr == (if __idx0 > 0 { positions@[__idx0 - 1] } else { 0 }),
    decreases positions@.len() - __idx0
@at loop 0 begin
    proof { let P = positions@; let Q = P.take(__idx0 as int); assert(!Q.contains(P[__idx0 as int])) by { if Q.contains(P[__idx0 as int]) { assert(Q[Q.index_of(P[__idx0 as int])] == P[Q.index_of(P[__idx0 as int])]); } }
        if __idx0 > 0 { assert(Q[__idx0 - 1] == curr); assert(Q.contains(curr)); let j = Q.index_of(curr); assert(Q[j] == P[j]); assert(j == __idx0 - 1); }
        assert(Q.insert(__idx0 as int, P[__idx0 as int]) =~= P.take(__idx0 + 1)); assert(Q.push(P[__idx0 as int]) =~= P.take(__idx0 + 1));
        assert(Q.to_set().insert(P[__idx0 as int]).subset_of(P.to_set())) by { assert forall|a: Addr| Q.contains(a) implies P.contains(a) by { assert(P[Q.index_of(a)] == a); } } }
@at loop 0 end
    proof { let P = positions@; assert forall|i: int| __idx0 <= i < P.len() implies hp.Position.contains_key(#[trigger] P[i]) && hp.Position[P[i]]._next == 0 by { let Q = P.take(__idx0 as int); assert(!Q.contains(P[i])) by { if Q.contains(P[i]) { assert(Q[Q.index_of(P[i])] == P[Q.index_of(P[i])]); } } } }
@at return
    proof { assert(positions@.take(positions@.len() as int) =~= positions@); }
@end
@same State__ctor_1__vec_pPosition = TEMPLATE_ctor with THIS:=this_
@end
@same State__ctor_1__ilist_pPosition = TEMPLATE_ctor with THIS:=this_
@end

@fn TEMPLATE_merge(state, positions)
@requires
    st_ok(*old(hp), state), desc(SPFLAG, st_vals(*old(hp), state)), loose(old(hp).Position, positions@), disj(st_lst(*old(hp), state), positions@)
@ensures
    only_state(*old(hp), *final(hp), state), st_ok(*final(hp), state),
    merged(SPFLAG, old(hp).Position, st_lst(*old(hp), state), positions@, final(hp).Position, st_lst(*final(hp), state))
@at entry
    let ghost m0 = hp.Position; let ghost L0 = st_lst(*hp, state); let ghost P = positions@; let ghost mut L = L0; let ghost sp = SPFLAG; let ghost mut k: int = 0; let ghost mut h1 = *hp;
    proof { merged_start(sp, m0, L0, P); assert(P.take(0).len() == 0); assert forall|j: int| 0 <= j < P.len() implies !L0.contains(#[trigger] P[j]) by { if L0.contains(P[j]) { assert(L0[L0.index_of(P[j])] != P[j]); } } }
@loop 0
    invariant
        __rng0 == positions, __idx0 <= P.len(), only_state(*old(hp), *hp, state), hp.State.contains_key(state), is_list(hp.Position, hp.State[state]._head, L),
        merged(sp, m0, L0, P.take(__idx0 as int), hp.Position, L),
        forall|j: int| __idx0 <= j < P.len() ==> #[trigger] hp.Position.contains_key(P[j]) && hp.Position[P[j]] == m0[P[j]],
    decreases P.len() - __idx0
@at loop 0 begin
    let ghost m1 = hp.Position; let ghost hd1 = hp.State[state]._head; let ghost L1 = L; let ghost n = __idx0 as int; let ghost hb = *hp;
    proof { k = 0; assert(hp.Position.contains_key(P[n])); assert(!P.take(n).contains(P[n])) by { if P.take(n).contains(P[n]) { let j = P.take(n).index_of(P[n]); assert(P.take(n)[j] == P[j]); } } assert(!L1.contains(P[n])); if L1.len() > 0 { assert(m1[L1[0]]._next == at(L1, 1)); } }
@loopattr 1 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@at loop 1 before
    proof { h1 = *hp; }
@loop 1
    invariant
        *hp =~= (Heap { StateIterator: hp.StateIterator, ..h1 }), hp.StateIterator =~= h1.StateIterator.insert(iter, hp.StateIterator[iter]), h1.StateIterator.contains_key(iter),
        0 <= k <= L1.len(), hp.StateIterator[iter]._curr == at(L1, k), hp.StateIterator[iter]._next == at(L1, k + 1), p == at(L1, k - 1),
        forall|j: int| 0 <= j < k ==> ml(sp, pv(m1[P[n]]), #[trigger] vals(m1, L1)[j]),
    ensures k < L1.len() ==> !ml(sp, pv(m1[P[n]]), vals(m1, L1)[k])
    decreases L1.len() - k
@at loop 1 begin
    proof { assert(k < L1.len()); assert(m1[L1[k]]._next == at(L1, k + 1)); if k + 1 < L1.len() { assert(m1[L1[k + 1]]._next == at(L1, k + 2)); } }
@at loop 1 end
    proof { k = k + 1; }
@at loop 1 after
    proof { if 0 < k { let q = L1[k - 1]; assert(L1.contains(q)); assert(L1.index_of(q) == k - 1); } assert(seq![P[n]] + L1 =~= L1.insert(0, P[n])); assert(m1.dom() =~= hp.Position.dom()); }
@at loop 0 end
    proof {
        assert(hp.StateIterator =~= hb.StateIterator);
        L = if k < L1.len() && key(sp, pv(m1[P[n]])) == key(sp, vals(m1, L1)[k]) { L1 } else { L1.insert(k, P[n]) };
        if L == L1 { seg_frame(m1, hp.Position, hd1, L1, 0); }
        merged_step(sp, m0, L0, P, n, m1, L1, hd1, k, hp.Position, hp.State[state]._head, L);
        assert forall|j: int| __idx0 <= j < P.len() implies #[trigger] hp.Position.contains_key(P[j]) && hp.Position[P[j]] == m0[P[j]] by { assert(m1.contains_key(P[j])); assert(P[j] != P[n]); assert(!L1.contains(P[j])) by { if L1.contains(P[j]) { assert(P.take(n).contains(P[j])); let i = P.take(n).index_of(P[j]); assert(P[i] == P.take(n)[i]); } } }
    }
@at return
    proof { assert(P.take(P.len() as int) =~= P); }
@end
@same merge__STANDARD_2 = TEMPLATE_merge with SPFLAG:=false
@end
@same merge__TRANSPOSITION_2 = TEMPLATE_merge with SPFLAG:=true
@end
@same merge__MERGE_AND_SPLIT_2 = TEMPLATE_merge with SPFLAG:=true
@end

@fn TEMPLATE_distance(state, query_length) -> r
@requires
    st_ok(*old(hp), state), in_query(st_vals(*old(hp), state), query_length as int)
@ensures
    *final(hp) == *old(hp), is_min_dist(SPFLAG, st_vals(*old(hp), state), query_length as int, r)
@at entry
    let ghost L = st_lst(*hp, state); let ghost m = hp.Position; let ghost V = vals(m, L); let ghost mut k: int = 0; let ghost mut h1 = *hp;
@at loop 0 before
    proof { h1 = *hp; k = 0; if L.len() > 0 { assert(m[L[0]]._next == at(L, 1)); } assert(V.take(0) =~= seq![]); }
@loop 0
    invariant
        *hp =~= (Heap { StateIterator: hp.StateIterator, ..h1 }), hp.StateIterator =~= h1.StateIterator.insert(__begin1, hp.StateIterator[__begin1]), h1.StateIterator.contains_key(__begin1),
        0 <= k <= L.len(), hp.StateIterator[__begin1]._curr == at(L, k), hp.StateIterator[__begin1]._next == at(L, k + 1),
        is_min_dist(SPFLAG, V.take(k), query_length as int, min_distance),
    decreases L.len() - k
@at loop 0 begin
    let ghost d0 = min_distance;
    proof { assert(k < L.len()); assert(m[L[k]]._next == at(L, k + 1)); if k + 1 < L.len() { assert(m[L[k + 1]]._next == at(L, k + 2)); } assert(V[k] == pv(m[L[k]])); }
@at loop 0 end
    proof {
        let W = V.take(k); let X = V.take(k + 1);
        assert forall|i: int| 0 <= i < X.len() && counts(SPFLAG, #[trigger] X[i]) implies min_distance <= rest(query_length as int, X[i]) by { if i < k { assert(X[i] == W[i]); } }
        if min_distance != u64::MAX { if min_distance == d0 { let i = choose|i: int| 0 <= i < W.len() && counts(SPFLAG, #[trigger] W[i]) && d0 == rest(query_length as int, W[i]); assert(X[i] == W[i]); } else { assert(X[k] == V[k]); } }
        k = k + 1;
    }
@at return
    proof { assert(V.take(L.len() as int) =~= V); assert(hp.StateIterator =~= old(hp).StateIterator); }
@end
@same distance__STANDARD_2 = TEMPLATE_distance with SPFLAG:=false
@end
@same distance__TRANSPOSITION_2 = TEMPLATE_distance with SPFLAG:=true
@end
@same distance__MERGE_AND_SPLIT_2 = TEMPLATE_distance with SPFLAG:=true
@end

@fn FnDistance__call(f, state, query_length) -> r
@requires
    !(f is Empty), st_ok(*old(hp), state), in_query(st_vals(*old(hp), state), query_length as int)
@ensures
    *final(hp) == *old(hp), is_min_dist(!(f is distance__STANDARD_2), st_vals(*old(hp), state), query_length as int, r)
@end

@fn TEMPLATE_subsumes(lhs, rhs, n) -> r
@requires
    old(hp).Position.contains_key(lhs), old(hp).Position.contains_key(rhs)
@ensures
    *final(hp) == *old(hp)
@end
@same subsumes__STANDARD_3 = TEMPLATE_subsumes
@end
@same subsumes__TRANSPOSITION_3 = TEMPLATE_subsumes
@end
@same subsumes__MERGE_AND_SPLIT_3 = TEMPLATE_subsumes
@end
@fn FnSubsumes__call(f, lhs, rhs, n) -> r
@requires
    !(f is Empty), old(hp).Position.contains_key(lhs), old(hp).Position.contains_key(rhs)
@ensures
    *final(hp) == *old(hp)
@end

// In a merged state errors do not increase along the list, so nothing is ever subsumed by an earlier position: the state is left as it is.
@fn UnsubsumeFn__call_2(this_, state, query_length)
@requires
    !(this_.subsumes is Empty), st_ok(*old(hp), state), errs_down(st_vals(*old(hp), state))
@ensures
    *final(hp) == *old(hp)
@at entry
    let ghost L = st_lst(*hp, state); let ghost m = hp.Position; let ghost V = vals(m, L); let ghost mut k: int = 0; let ghost mut l: int = 0; let ghost mut h1 = *hp; let ghost mut h2 = *hp; let ghost mut h3 = *hp;
@at loop 0 before
    proof { h1 = *hp; if L.len() > 0 { assert(m[L[0]]._next == at(L, 1)); } }
@loop 0
    invariant
        *hp =~= (Heap { StateIterator: hp.StateIterator, ..h1 }), hp.StateIterator =~= h1.StateIterator.insert(outer_iter, hp.StateIterator[outer_iter]), h1.StateIterator.contains_key(outer_iter),
        0 <= k <= L.len(), hp.StateIterator[outer_iter]._curr == at(L, k), hp.StateIterator[outer_iter]._next == at(L, k + 1),
    decreases L.len() - k
@at loop 0 begin
    proof { assert(k < L.len()); assert(m[L[k]]._next == at(L, k + 1)); if k + 1 < L.len() { assert(m[L[k + 1]]._next == at(L, k + 2)); } l = k + 1; }
@at loop 1 before
    proof { h2 = *hp; }
@loopattr 1 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@loop 1
    invariant
        *hp =~= (Heap { StateIterator: hp.StateIterator, ..h2 }), hp.StateIterator =~= h2.StateIterator.insert(inner_iter, hp.StateIterator[inner_iter]), h2.StateIterator.contains_key(inner_iter),
        k < l <= L.len(), hp.StateIterator[inner_iter]._curr == at(L, l), hp.StateIterator[inner_iter]._next == at(L, l + 1),
    ensures
        hp.StateIterator[inner_iter]._curr == 0, hp.StateIterator[inner_iter]._next == 0
    decreases L.len() - l
@at loop 1 begin
    proof { assert(l < L.len()); assert(m[L[l]]._next == at(L, l + 1)); if l + 1 < L.len() { assert(m[L[l + 1]]._next == at(L, l + 2)); } assert(V[k] == pv(m[L[k]]) && V[l] == pv(m[L[l]])); }
@at loop 1 end
    proof { l = l + 1; }
@at loop 2 before
    proof { h3 = *hp; }
@loop 2
    invariant
        *hp == h3, hp.StateIterator.contains_key(inner_iter), hp.StateIterator[inner_iter]._curr == 0, hp.StateIterator[inner_iter]._next == 0,
    decreases 0nat
@at loop 2 begin
    proof { assert(false); }
@at loop 0 end
    proof { k = k + 1; }
@at return
    proof { assert(hp.StateIterator =~= old(hp).StateIterator); }
@end
