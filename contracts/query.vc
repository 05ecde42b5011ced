@use state.vc trans.vc edit.rs list.rs mergeord.rs states.rs automaton.rs step.rs dict.rs inter.rs query.rs measure0.rs measure.rs own.rs advance.rs answers.rs rev.rs
@heap Position State StateIterator DawgNode Intersection LazyQuery__string LazyQuery__pair
@broadcast lst_is, path_is

@raw
pub open spec fn qv_pair(o: LazyQuery__pair_o) -> QV { QV { pend: o._pending@, edges: o._edges@, cur: o._intersection, inters: o._intersections@, done: o._is_complete, q: o._term@, n: o._max_distance, tr: o.transition, md: o.min_distance, a: o._a, k: o._k, i: o._i } }
pub open spec fn qv_string(o: LazyQuery__string_o) -> QV { QV { pend: o._pending@, edges: o._edges@, cur: o._intersection, inters: o._intersections@, done: o._is_complete, q: o._term@, n: o._max_distance, tr: o.transition, md: o.min_distance, a: o._a, k: o._k, i: o._i } }
/// the candidate presented is the term w, with distance d in the format that has distances
pub open spec fn shows_pair(o: LazyQuery__pair_o, w: Seq<i8>, d: int) -> bool { o._candidate.0@ == w && o._candidate.1 == d }
pub open spec fn shows_string(o: LazyQuery__string_o, w: Seq<i8>, d: int) -> bool { o._candidate@ == w }
@endraw

@fn shl_2__stream_Intersection(out, intersection)
@requires
    has_path(old(hp).Intersection, intersection)
@ensures
    *final(hp) == *old(hp), final(out)@ == old(out)@ + path_of(old(hp).Intersection, intersection)
@decreases path_of(old(hp).Intersection, intersection).len()
@at entry
    let ghost m = hp.Intersection; let ghost p = path_of(m, intersection);
    proof { if p.len() > 0 { assert(is_path(m, m[intersection]._parent, p.drop_last())); assert(p =~= p.drop_last().push(p.last())); } }
@end


@fn TEMPLATE_cv(this_, x, term, k, i) -> r
@requires
    i + k <= term@.len(), k < 0x7fff_ffff, i < 0x7fff_ffff
@ensures
    *final(hp) == *old(hp), r@.len() == k, forall|j: int| 0 <= j < k ==> (#[trigger] r@[j]) == (x == term@[i + j])
@loop 0
    invariant
        *hp == *old(hp), 0 <= j <= k, characteristic_vector@.len() == k, forall|m: int| 0 <= m < j ==> (#[trigger] characteristic_vector@[m]) == (x == term@[i + m]),
    decreases k - j
@at loop 0 begin
    let ghost t = term@[i + j];
@end
@same LazyQuery__pair__characteristic_vector_4 = TEMPLATE_cv
@end
@same LazyQuery__string__characteristic_vector_4 = TEMPLATE_cv
@end

@fn TEMPLATE_advance(this_)
@hide own, same_others, step_ok, complete, sound, antichain, E, in_todo, mu, node_ok, sorted, owns, consistent, walk, sound1, is_list, inv, live, trans_pre, trans_post, toks, is_path, in_query, st_means, is_min_dist
@requires
    old(hp).LQF.contains_key(this_), adv_pre(*old(hp), QVF(old(hp).LQF[this_]))
@ensures
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, LQF: old(hp).LQF.insert(this_, final(hp).LQF[this_]), ..*old(hp) }),
    adv_post(*old(hp), QVF(old(hp).LQF[this_]), *final(hp), QVF(final(hp).LQF[this_])),
    QVF(final(hp).LQF[this_]).done ==> finished(*old(hp), QVF(old(hp).LQF[this_])),
    !QVF(final(hp).LQF[this_]).done ==> exists|w: Seq<i8>| found(*old(hp), QVF(old(hp).LQF[this_]), *final(hp), QVF(final(hp).LQF[this_]), w) && #[trigger] SHOWS(final(hp).LQF[this_], w, E(q_alg(QVF(old(hp).LQF[this_])), w, QVF(old(hp).LQF[this_]).q))
@at entry
    let ghost h0 = *hp; let ghost Q0 = QVF(hp.LQF[this_]); let ghost T = q_top(h0, Q0); let ghost mut hb = h0; let ghost mut Qb = Q0; let ghost mut br: bool = false; let ghost mut o1 = hp.LQF[this_];
    let ghost mut gr: Addr = 0; let ghost mut gcv: Seq<bool> = seq![]; let ghost mut hc = h0; let ghost mut hc1 = h0; let ghost mut hd = h0; let ghost mut gd: bool = false; let ghost mut e0: Seq<i8> = seq![]; let ghost mut M: Map<i8, Addr> = Map::empty();
@at loop 0 before
    proof { adv_start(h0, *hp, Q0, QVF(hp.LQF[this_]), T); }
@loop 0
    invariant
        *hp =~= (Heap { Position: hp.Position, State: hp.State, Intersection: hp.Intersection, LQF: h0.LQF.insert(this_, hp.LQF[this_]), ..h0 }),
        adv_mid(h0, Q0, *hp, QVF(hp.LQF[this_]), T), QVF(hp.LQF[this_]).done, hp.LQF[this_]._edges@.len() + hp.LQF[this_]._pending@.len() > 0,
    ensures
        *hp =~= (Heap { Position: hp.Position, State: hp.State, Intersection: hp.Intersection, LQF: h0.LQF.insert(this_, hp.LQF[this_]), ..h0 }),
        adv_post(h0, Q0, *hp, QVF(hp.LQF[this_])), QVF(hp.LQF[this_]).done ==> finished(h0, Q0),
        !QVF(hp.LQF[this_]).done ==> found(h0, Q0, *hp, QVF(hp.LQF[this_]), e0) && SHOWS(hp.LQF[this_], e0, E(q_alg(Q0), e0, Q0.q)),
    decreases mu(*hp, QVF(hp.LQF[this_]), T)
@loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@at loop 0 begin
    proof { hb = *hp; Qb = QVF(hp.LQF[this_]); br = Qb.edges.len() == 0; gd = false; mid_facts(h0, Q0, hb, Qb, T); if !br { e0 = estr(hb, Qb, 0); } else { M = hb.DawgNode[hb.Intersection[Qb.pend[0]]._node]._edges@; } }
@at loop 1 before
    proof { o1 = hp.LQF[this_]; axiom_map_order(M); }
@loop 1
    invariant
        __rng1@ == M, *hp =~= (Heap { LQF: hb.LQF.insert(this_, hp.LQF[this_]), ..hb }), hp.LQF[this_]._edges@.len() == __idx1, __idx1 <= map_order(M).len(),
        hp.LQF[this_] =~= (LQOBJ { _edges: hp.LQF[this_]._edges, ..o1 }), forall|j: int| 0 <= j < __idx1 ==> (#[trigger] hp.LQF[this_]._edges@[j]) == (map_order(M)[j], M[map_order(M)[j]]),
    decreases map_order(M).len() - __idx1
@at before call FnTransition__call
    proof { hc = *hp; gcv = $3@; pre_eq(hb, hc, Qb, T, gcv); }
@at after call FnTransition__call
    proof { hc1 = *hp; gr = $r; trans_frame(hc, hc1, Qb.tr->StateTransition_0, x_st(hb, Qb.cur), gcv, gr); }
@at before call FnDistance__call
    proof { hd = *hp; gd = true; adv_step(hb, hc, hc1, hd, Qb, QVF(hp.LQF[this_]), T, gcv, gr, hp.LQF[this_]._pending@.last()); reveal(st_means); path_is(hd.Intersection, hp.LQF[this_]._pending@.last(), e0); }
@at after call FnDistance__call
    proof { means_dist(*hp, gr, q_alg(Qb), Qb.n as int, Qb.q, e0, $r); }
@at break
    proof { adv_found(h0, Q0, hb, Qb, hd, QVF(hd.LQF[this_]), *hp, QVF(hp.LQF[this_]), T, e0); }
@at loop 0 test
    proof {
        let Q1 = QVF(hp.LQF[this_]);
        if br { adv_expand(hb, *hp, Qb, Q1, T); adv_next(h0, Q0, hb, Qb, *hp, Q1, T, seq![], true); }
        else { adv_step(hb, hc, hc1, *hp, Qb, Q1, T, gcv, gr, if gr == 0 { 0 } else { Q1.pend.last() }); adv_next(h0, Q0, hb, Qb, *hp, Q1, T, e0, false); }
        mu_nonneg(*hp, Q1, T);
    }
@at return
    proof { adv_idle(h0, *hp, Q0, QVF(hp.LQF[this_]), T);
        if !QVF(hp.LQF[this_]).done { let w = e0; assert(SHOWS(hp.LQF[this_], w, E(q_alg(Q0), w, Q0.q))); assert(found(h0, Q0, *hp, QVF(hp.LQF[this_]), w)); } }
@end
@same LazyQuery__pair__advance_0 = TEMPLATE_advance with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;LQOBJ:=LazyQuery__pair_o
@end
@same LazyQuery__string__advance_0 = TEMPLATE_advance with LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string;;LQOBJ:=LazyQuery__string_o
@end

@fn TEMPLATE_dtor(this_)
@requires
    old(hp).LQF.contains_key(this_), own(*old(hp), QVF(old(hp).LQF[this_]).inters)
@ensures
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, ..*old(hp) }),
    same_others(*old(hp), QVF(old(hp).LQF[this_]).inters, *final(hp), seq![]),
    sub(final(hp).Intersection, old(hp).Intersection), sub(final(hp).State, old(hp).State), sub(final(hp).Position, old(hp).Position)
@hide own, same_others, is_list
@at entry
    let ghost h0 = *hp; let ghost N = QVF(hp.LQF[this_]).inters; let ghost mut hb = h0; let ghost mut k: int = 0;
    proof { reveal(same_others); assert(N.skip(0) =~= N); }
@loop 0
    invariant
        __rng0@ == N, 0 <= __idx0 <= N.len(), *hp =~= (Heap { Position: hp.Position, State: hp.State, Intersection: hp.Intersection, ..h0 }),
        own(*hp, N.skip(__idx0 as int)), same_others(h0, N, *hp, N.skip(__idx0 as int)), sub(hp.Intersection, h0.Intersection), sub(hp.State, h0.State), sub(hp.Position, h0.Position),
    decreases N.len() - __idx0
@at loop 0 begin
    proof { hb = *hp; k = __idx0 as int; reveal(own); assert(N.skip(k)[0] == N[k]); }
@at loop 0 end
    proof { assert(N.skip(k).drop_first() =~= N.skip(k + 1)); own_pop(hb, *hp, N.skip(k)); others_trans(h0, N, hb, N.skip(k), *hp, N.skip(k + 1)); }
@at return
    proof { assert(N.skip(N.len() as int) =~= seq![]); }
@end
@same LazyQuery__pair__dtor_0 = TEMPLATE_dtor with LQF:=LazyQuery__pair;;QVF:=qv_pair
@end
@same LazyQuery__string__dtor_0 = TEMPLATE_dtor with LQF:=LazyQuery__string;;QVF:=qv_string
@end

@fn TEMPLATE_start(term, max_distance, intersection, transition, min_distance) -> r
@hide own, same_others, complete, sound, antichain, E, in_todo, mu, node_ok, walk, is_list, inv, live, toks, is_path, acc, rooted, has_list
@requires
    init_ok(*old(hp), intersection), q_cfg(term@, max_distance, transition, min_distance)
@ensures
    !old(hp).LQF.contains_key(r), r != 0,
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, LQF: old(hp).LQF.insert(r, final(hp).LQF[r]), ..*old(hp) }),
    same_cfg(QVF(final(hp).LQF[r]), q_start(term@, max_distance, 0, transition, min_distance, two_n(max_distance), 0, 0)),
    begun(*old(hp), intersection, *final(hp), QVF(final(hp).LQF[r])),
    !QVF(final(hp).LQF[r]).done ==> exists|w: Seq<i8>| begun_with(*old(hp), intersection, *final(hp), QVF(final(hp).LQF[r]), w) && #[trigger] SHOWS(final(hp).LQF[r], w, E(q_alg(QVF(final(hp).LQF[r])), w, term@))
@at entry
    let ghost h0 = *hp; let ghost x = intersection; let ghost mut hc = h0; let ghost mut sp = true;
    proof { start(h0, q_start(term@, max_distance, x, transition, min_distance, two_n(max_distance), 0, 0), x); }
@at before call ADVF
    proof { hc = *hp; sp = false; start_eq(h0, hc, x); start(hc, QVF(hc.LQF[$1]), x); }
@at return
    proof {
        let Q1 = QVF(hp.LQF[this_]);
        if sp { start_special(h0, *hp, x, Q1); } else { start_adv(h0, hc, *hp, x, QVF(hc.LQF[this_]), Q1); }
        if !Q1.done {
            if sp { let w: Seq<i8> = seq![]; assert(SHOWS(hp.LQF[this_], w, E(q_alg(Q1), w, term@))); }
            else { let w = choose|w: Seq<i8>| found(hc, QVF(hc.LQF[this_]), *hp, Q1, w) && #[trigger] SHOWS(hp.LQF[this_], w, E(q_alg(QVF(hc.LQF[this_])), w, QVF(hc.LQF[this_]).q)); start_with(h0, hc, *hp, x, QVF(hc.LQF[this_]), Q1, w); assert(SHOWS(hp.LQF[this_], w, E(q_alg(Q1), w, term@))); }
        }
    }
@end
@same LazyQuery__pair__ctor_5 = TEMPLATE_start with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ADVF:=LazyQuery__pair__advance_0
@end
@same LazyQuery__string__ctor_5 = TEMPLATE_start with LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string;;ADVF:=LazyQuery__string__advance_0
@end

@fn TEMPLATE_inc(this_)
@requires
    old(hp).LQF.contains_key(this_), adv_pre(*old(hp), QVF(old(hp).LQF[this_]))
@ensures
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, LQF: old(hp).LQF.insert(this_, final(hp).LQF[this_]), ..*old(hp) }),
    adv_post(*old(hp), QVF(old(hp).LQF[this_]), *final(hp), QVF(final(hp).LQF[this_])),
    QVF(final(hp).LQF[this_]).done ==> finished(*old(hp), QVF(old(hp).LQF[this_])),
    !QVF(final(hp).LQF[this_]).done ==> exists|w: Seq<i8>| found(*old(hp), QVF(old(hp).LQF[this_]), *final(hp), QVF(final(hp).LQF[this_]), w) && #[trigger] SHOWS(final(hp).LQF[this_], w, E(q_alg(QVF(old(hp).LQF[this_])), w, QVF(old(hp).LQF[this_]).q))
@end
@fn TEMPLATE_eq(this_, other) -> r
@requires
    old(hp).LQF.contains_key(this_), old(hp).LQF.contains_key(other), is_end(QVF(old(hp).LQF[other])), other != this_
@ensures
    *final(hp) == *old(hp), r == QVF(old(hp).LQF[this_]).done
@end
@fn TEMPLATE_begin(this_) -> r
@requires
    init_ok(*old(hp), this_._intersection), q_cfg(this_._term@, this_._max_distance, this_.transition, this_.min_distance)
@ensures
    !old(hp).LQF.contains_key(r), r != 0,
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, LQF: old(hp).LQF.insert(r, final(hp).LQF[r]), ..*old(hp) }),
    same_cfg(QVF(final(hp).LQF[r]), q_start(this_._term@, this_._max_distance, 0, this_.transition, this_.min_distance, two_n(this_._max_distance), 0, 0)),
    begun(*old(hp), this_._intersection, *final(hp), QVF(final(hp).LQF[r])),
    !QVF(final(hp).LQF[r]).done ==> exists|w: Seq<i8>| begun_with(*old(hp), this_._intersection, *final(hp), QVF(final(hp).LQF[r]), w) && #[trigger] SHOWS(final(hp).LQF[r], w, E(q_alg(QVF(final(hp).LQF[r])), w, this_._term@))
@end
@fn TEMPLATE_last(this_) -> r
@ensures
    !old(hp).LQF.contains_key(r), r != 0, *final(hp) =~= (Heap { LQF: old(hp).LQF.insert(r, final(hp).LQF[r]), ..*old(hp) }), is_end(QVF(final(hp).LQF[r]))
@end
@fn LazyQuery__pair__deref_0(this_) -> r
@requires
    old(hp).LazyQuery__pair.contains_key(this_)
@ensures
    *final(hp) == *old(hp), forall|w: Seq<i8>, d: int| #[trigger] shows_pair(old(hp).LazyQuery__pair[this_], w, d) ==> r.0@ == w && r.1 == d
@end
@fn LazyQuery__string__deref_0(this_) -> r
@requires
    old(hp).LazyQuery__string.contains_key(this_)
@ensures
    *final(hp) == *old(hp), forall|w: Seq<i8>, d: int| #[trigger] shows_string(old(hp).LazyQuery__string[this_], w, d) ==> r@ == w
@end
@same LazyQuery__pair__inc_0 = TEMPLATE_inc with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair
@end
@same LazyQuery__pair__eq_1 = TEMPLATE_eq with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair
@end
@same LazyIterator__pair__begin_0 = TEMPLATE_begin with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair
@end
@same LazyIterator__pair__end_0 = TEMPLATE_last with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair
@end
@same LazyQuery__string__inc_0 = TEMPLATE_inc with LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string
@end
@same LazyQuery__string__eq_1 = TEMPLATE_eq with LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string
@end
@same LazyIterator__string__begin_0 = TEMPLATE_begin with LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string
@end
@same LazyIterator__string__end_0 = TEMPLATE_last with LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string
@end
