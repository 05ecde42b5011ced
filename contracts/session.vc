@use answers.vc iter.vc pair.rs
@heap Transducer__STANDARD_string Transducer__STANDARD_pair Transducer__TRANSPOSITION_string Transducer__TRANSPOSITION_pair Transducer__MERGE_AND_SPLIT_string Transducer__MERGE_AND_SPLIT_pair
@broadcast lst_is, path_is

@raw
pub proof fn mid_ext(h0: Heap, x: Addr, h: Heap, g: Heap, Q: QV, A: Seq<(Seq<i8>, int)>, cw: Seq<i8>, exact: bool)
    requires mid_in(h0, x, h, Q, A, cw, exact), ext(h, g)
    ensures mid_in(h0, x, g, Q, A, cw, exact)
{
    pre_ext(h, g, Q); ext_trans(h0, h, g);
    if !Q.done { assert forall|d: int| #![trigger A.push((cw, d))] (exact ==> d == E(q_alg(Q), cw, Q.q)) implies answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, A.push((cw, d)), exact) && to_come(h0, x, g, Q, A.push((cw, d))) by { assert(to_come(h0, x, h, Q, A.push((cw, d)))); } }
}
pub open spec fn same_answers(A: Seq<(Seq<i8>, int)>, B: Seq<(Seq<i8>, int)>) -> bool {
    &&& forall|w: Seq<i8>| #[trigger] has_word(A, w) == has_word(B, w)
    &&& forall|i: int, j: int| #![trigger A[i], B[j]] 0 <= i < A.len() && 0 <= j < B.len() && A[i].0 == B[j].0 ==> A[i].1 == B[j].1
}
pub proof fn answers_same(m: DM, rt: Addr, alg: Alg, q: Seq<i8>, n: int, A: Seq<(Seq<i8>, int)>, B: Seq<(Seq<i8>, int)>)
    requires answers_sound(m, rt, alg, q, n, A, true), answers_sound(m, rt, alg, q, n, B, true), answers_complete(m, rt, alg, q, n, A), answers_complete(m, rt, alg, q, n, B)
    ensures same_answers(A, B)
{
    assert forall|w: Seq<i8>| #[trigger] has_word(A, w) == has_word(B, w) by {
        if has_word(A, w) { let i = choose|i: int| 0 <= i < A.len() && (#[trigger] A[i]).0 == w; assert(in_range(m, rt, alg, q, n, w)); }
        if has_word(B, w) { let i = choose|i: int| 0 <= i < B.len() && (#[trigger] B[i]).0 == w; assert(in_range(m, rt, alg, q, n, w)); }
    }
}
@endraw

@client CLIENT_step
/// one turn of a query: an answer is taken, or there is none left
pub fn CLIENT_step(hp: &mut Heap, a: Addr, e: Addr, h0: Ghost<Heap>, x: Ghost<Addr>, A: Ghost<Seq<(Seq<i8>, int)>>, cw: Ghost<Seq<i8>>) -> (r: (bool, Ghost<Seq<(Seq<i8>, int)>>, Ghost<Seq<i8>>))
    requires
        a != e, old(hp).LQF.contains_key(a), old(hp).LQF.contains_key(e), is_end(QVF(old(hp).LQF[e])), mid_in(h0@, x@, *old(hp), QVF(old(hp).LQF[a]), A@, cw@, EXACT),
        !QVF(old(hp).LQF[a]).done ==> SHOWS(old(hp).LQF[a], cw@, E(q_alg(QVF(old(hp).LQF[a])), cw@, QVF(old(hp).LQF[a]).q)),
    ensures
        *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, LQF: old(hp).LQF.insert(a, final(hp).LQF[a]), ..*old(hp) }),
        mid_in(h0@, x@, *final(hp), QVF(final(hp).LQF[a]), r.1@, r.2@, EXACT), !QVF(final(hp).LQF[a]).done ==> SHOWS(final(hp).LQF[a], r.2@, E(q_alg(QVF(final(hp).LQF[a])), r.2@, QVF(final(hp).LQF[a]).q)),
        same_cfg(QVF(old(hp).LQF[a]), QVF(final(hp).LQF[a])), ext(*old(hp), *final(hp)), own(*final(hp), QVF(final(hp).LQF[a]).inters), same_others(*old(hp), QVF(old(hp).LQF[a]).inters, *final(hp), QVF(final(hp).LQF[a]).inters),
        r.0 == QVF(old(hp).LQF[a]).done,         r.0 ==> QVF(final(hp).LQF[a]).done && r.1@ == A@, !r.0 ==> r.1@.len() == A@.len() + 1,
{
    hide(own); hide(same_others); hide(complete); hide(sound); hide(antichain); hide(E); hide(D); hide(in_todo); hide(mu); hide(node_ok); hide(walk); hide(is_list); hide(inv); hide(live); hide(toks); hide(is_path); hide(acc); hide(rooted); hide(has_list); hide(to_come); hide(answers_sound); hide(answers_complete); hide(found); hide(finished); hide(q_top); hide(matches); hide(ext);
    proof { own_none(*hp); pre_carry(*hp, *hp, QVF(hp.LQF[a])); }
    if EQF(hp, a, e) { return (true, A, cw); }
    let r = DEREF(hp, a);
    let ghost hb = *hp; let ghost Qb = QVF(hb.LQF[a]); let ghost vb = VALUE; let ghost mut cw1 = cw@;
    INCF(hp, a);
    proof {
        let Q1 = QVF(hp.LQF[a]);
        if !Q1.done { cw1 = choose|w: Seq<i8>| found(hb, Qb, *hp, Q1, w) && #[trigger] SHOWS(hp.LQF[a], w, E(q_alg(Qb), w, Qb.q)); }
        mid_next_in(h0@, x@, hb, Qb, *hp, Q1, A@, cw@, vb.1, cw1, EXACT);
    }
    (false, Ghost(A@.push(vb)), Ghost(cw1))
}
@endclient
@clients step_pair = CLIENT_step with LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;EXACT:=true;;VALUE:=(r.0@, r.1 as int);;EQF:=LazyQuery__pair__eq_1;;DEREF:=LazyQuery__pair__deref_0;;INCF:=LazyQuery__pair__inc_0

@client CLIENT_two
/// two queries on one transducer (or one query iterated twice at the same time), their turns taken as the schedule says, given up when it ends
pub fn CLIENT_two(hp: &mut Heap, root: Addr, t1: Str, n1: u64, t2: Str, n2: u64, again: bool, schedule: CVec<bool>) -> (r: (Ghost<Seq<(Seq<i8>, int)>>, bool, Ghost<Seq<(Seq<i8>, int)>>, bool))
    requires
        rooted(old(hp).DawgNode, root), t1@.len() < 0x7fff_ffff, t2@.len() < 0x7fff_ffff, again ==> t1@ == t2@ && n1 == n2,
    ensures
        answers_sound(old(hp).DawgNode, root, ALG, t1@, n1 as int, r.0@, EXACT), r.1 ==> answers_complete(old(hp).DawgNode, root, ALG, t1@, n1 as int, r.0@),
        answers_sound(old(hp).DawgNode, root, ALG, t2@, n2 as int, r.2@, EXACT), r.3 ==> answers_complete(old(hp).DawgNode, root, ALG, t2@, n2 as int, r.2@),
        t1@ == t2@ && n1 == n2 && r.1 && r.3 ==> same_answers(r.0@, r.2@),
        *final(hp) =~= *old(hp),
{
    hide(own); hide(same_others); hide(complete); hide(sound); hide(antichain); hide(E); hide(D); hide(in_todo); hide(mu); hide(node_ok); hide(walk); hide(is_list); hide(inv); hide(live); hide(toks); hide(is_path); hide(acc); hide(rooted); hide(has_list); hide(to_come); hide(answers_sound); hide(answers_complete); hide(begun_with); hide(q_top); hide(matches); hide(apart); hide(rest_same); hide(same_answers);
    let ghost hz = *hp;
    let t = TRNEW(hp, root);
    let ghost h0 = *hp; let ghost x = h0.TRF[t]._intersection;
    let i1 = TRCALL(hp, t, t1, n1);
    let i2 = if again { i1 } else { TRCALL(hp, t, t2, n2) };
    proof { none_apart(h0); }
    let a = BEGINF(hp, i1);
    let ghost h1 = *hp; let ghost mut cw: Seq<i8> = seq![]; let ghost mut A: Seq<(Seq<i8>, int)> = seq![]; let ghost Q1 = QVF(h1.LQF[a]);
    proof {
        if !Q1.done { cw = choose|w: Seq<i8>| begun_with(h0, x, h1, Q1, w) && #[trigger] SHOWS(h1.LQF[a], w, E(q_alg(Q1), w, t1@)); }
        mid_begin(h0, x, h1, h1, Q1, cw, EXACT); step_apart(h0, h0, h1, seq![], Q1.inters, seq![]); apart_sym(h1, Q1.inters, seq![]); rest_sym(h0, h1, Q1.inters, seq![]);
        start_eq2(h0, h1, x);
    }
    let b = BEGINF(hp, i2);
    let ghost h2 = *hp; let ghost mut cv: Seq<i8> = seq![]; let ghost mut B: Seq<(Seq<i8>, int)> = seq![]; let ghost Q2 = QVF(h2.LQF[b]);
    proof {
        if !Q2.done { cv = choose|w: Seq<i8>| begun_with(h1, x, h2, Q2, w) && #[trigger] SHOWS(h2.LQF[b], w, E(q_alg(Q2), w, t2@)); }
        step_apart(h0, h1, h2, seq![], Q2.inters, Q1.inters); apart_sym(h2, Q2.inters, Q1.inters); rest_sym(h0, h2, Q2.inters, Q1.inters);
    }
    let e = ENDF(hp, i1);
    proof {
        ext_eq(h2, *hp); mid_begin(h1, x, h2, *hp, Q2, cv, EXACT); ext_trans(h1, h2, *hp); mid_ext(h0, x, h1, *hp, Q1, A, cw, EXACT); apart_eq(h0, h2, *hp, Q1.inters, Q2.inters);
    }
    let mut k: u64 = 0; let mut d1 = false; let mut d2 = false;
    while k < vec_size(schedule)
        invariant
            a != e, b != e, a != b, hp.LQF.contains_key(a), hp.LQF.contains_key(b), hp.LQF.contains_key(e), is_end(QVF(hp.LQF[e])), !h0.LQF.contains_key(a), !h0.LQF.contains_key(b), !h0.LQF.contains_key(e), k <= schedule@.len(),
            *hp =~= (Heap { Position: hp.Position, State: hp.State, Intersection: hp.Intersection, LQF: h0.LQF.insert(a, hp.LQF[a]).insert(b, hp.LQF[b]).insert(e, hp.LQF[e]), ..h0 }),
            mid_in(h0, x, *hp, QVF(hp.LQF[a]), A, cw, EXACT), QVF(hp.LQF[a]).q == t1@, QVF(hp.LQF[a]).n == n1, q_alg(QVF(hp.LQF[a])) == ALG, !QVF(hp.LQF[a]).done ==> SHOWS(hp.LQF[a], cw, E(ALG, cw, t1@)),
            mid_in(h1, x, *hp, QVF(hp.LQF[b]), B, cv, EXACT), QVF(hp.LQF[b]).q == t2@, QVF(hp.LQF[b]).n == n2, q_alg(QVF(hp.LQF[b])) == ALG, !QVF(hp.LQF[b]).done ==> SHOWS(hp.LQF[b], cv, E(ALG, cv, t2@)),
            apart(*hp, QVF(hp.LQF[a]).inters, QVF(hp.LQF[b]).inters), rest_same(h0, *hp, QVF(hp.LQF[a]).inters, QVF(hp.LQF[b]).inters), ext(h0, *hp), d1 ==> QVF(hp.LQF[a]).done, d2 ==> QVF(hp.LQF[b]).done,
        decreases schedule@.len() - k
    {
        let ghost hb = *hp; let ghost Na = QVF(hb.LQF[a]).inters; let ghost Nb = QVF(hb.LQF[b]).inters;
        if vec_at(schedule, k) {
            let (d, A1, c1) = STEP(hp, a, e, Ghost(h0), Ghost(x), Ghost(A), Ghost(cw));
            proof { A = A1@; cw = c1@; step_apart(h0, hb, *hp, Na, QVF(hp.LQF[a]).inters, Nb); mid_ext(h1, x, hb, *hp, QVF(hb.LQF[b]), B, cv, EXACT); ext_trans(h0, hb, *hp); }
            if d { d1 = true; }
        } else {
            let (d, B1, c1) = STEP(hp, b, e, Ghost(h1), Ghost(x), Ghost(B), Ghost(cv));
            proof { B = B1@; cv = c1@; apart_sym(hb, Na, Nb); rest_sym(h0, hb, Na, Nb); step_apart(h0, hb, *hp, Nb, QVF(hp.LQF[b]).inters, Na); apart_sym(*hp, QVF(hp.LQF[b]).inters, Na); rest_sym(h0, *hp, QVF(hp.LQF[b]).inters, Na); mid_ext(h0, x, hb, *hp, QVF(hb.LQF[a]), A, cw, EXACT); ext_trans(h0, hb, *hp); }
            if d { d2 = true; }
        }
        k = k + 1;
    }
    let ghost h3 = *hp; let ghost N1 = QVF(hp.LQF[a]).inters; let ghost N2 = QVF(hp.LQF[b]).inters;
    proof { pre_carry(h3, h3, QVF(h3.LQF[a])); own_of(h3, N1, N2); }
    DTORF(hp, a);
    let ghost hg = *hp;
    hp.FREEF(a);
    let ghost h4 = *hp;
    proof { own_none(hg); own_eq(hg, h4, seq![]); others_trans(h3, N1, hg, seq![], h4, seq![]); gone_apart(h0, h3, h4, N1, N2); own_eq(h4, h4, N2); }
    DTORF(hp, b);
    proof { agrees(h0, h3, h4); both_gone(h0, h4, *hp, N2); }
    hp.FREEF(b);
    let ghost h5 = *hp;
    proof { own_none(h5); assert(QVF(hp.LQF[e]).inters =~= seq![]); }
    DTORF(hp, e);
    proof { as_before(h5, h5, seq![], *hp); }
    hp.FREEF(e);
    proof { assert(disp_eq(h0, *hp)); start_eq(h0, *hp, x); }
    let ghost h6 = *hp;
    TRDEL(hp, t);
    hp.TRFREE(t);
    proof { made_unmade(hz, h0, h6, *hp, x); if t1@ == t2@ && n1 == n2 && d1 && d2 { answers_same(hz.DawgNode, root, ALG, t1@, n1 as int, A, B); } }
    (Ghost(A), d1, Ghost(B), d2)
}
@endclient
@clients interleaved_STANDARD = CLIENT_two with TRF:=Transducer__STANDARD_pair;;LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ALG:=Alg::Std;;EXACT:=true;;TRNEW:=Transducer__STANDARD_pair__ctor_1;;TRCALL:=Transducer__STANDARD_pair__call_2;;TRDEL:=Transducer__STANDARD_pair__dtor_0;;TRFREE:=Transducer__STANDARD_pair_free;;BEGINF:=LazyIterator__pair__begin_0;;ENDF:=LazyIterator__pair__end_0;;STEP:=step_pair;;DTORF:=LazyQuery__pair__dtor_0;;FREEF:=LazyQuery__pair_free
@clients interleaved_TRANSPOSITION = CLIENT_two with TRF:=Transducer__TRANSPOSITION_pair;;LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ALG:=Alg::Trans;;EXACT:=true;;TRNEW:=Transducer__TRANSPOSITION_pair__ctor_1;;TRCALL:=Transducer__TRANSPOSITION_pair__call_2;;TRDEL:=Transducer__TRANSPOSITION_pair__dtor_0;;TRFREE:=Transducer__TRANSPOSITION_pair_free;;BEGINF:=LazyIterator__pair__begin_0;;ENDF:=LazyIterator__pair__end_0;;STEP:=step_pair;;DTORF:=LazyQuery__pair__dtor_0;;FREEF:=LazyQuery__pair_free
@clients interleaved_MERGE_AND_SPLIT = CLIENT_two with TRF:=Transducer__MERGE_AND_SPLIT_pair;;LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ALG:=Alg::Ms;;EXACT:=true;;TRNEW:=Transducer__MERGE_AND_SPLIT_pair__ctor_1;;TRCALL:=Transducer__MERGE_AND_SPLIT_pair__call_2;;TRDEL:=Transducer__MERGE_AND_SPLIT_pair__dtor_0;;TRFREE:=Transducer__MERGE_AND_SPLIT_pair_free;;BEGINF:=LazyIterator__pair__begin_0;;ENDF:=LazyIterator__pair__end_0;;STEP:=step_pair;;DTORF:=LazyQuery__pair__dtor_0;;FREEF:=LazyQuery__pair_free
@raw
pub proof fn own_of(h: Heap, N: Seq<Addr>, M: Seq<Addr>) requires apart(h, N, M) ensures own(h, N), own(h, M) { }
pub proof fn ext_eq(h: Heap, g: Heap) requires disp_eq(h, g) ensures ext(h, g) { }
pub proof fn start_eq2(h: Heap, g: Heap, x: Addr) requires init_ok(h, x), ext(h, g) ensures init_ok(g, x), g.Intersection[x] == h.Intersection[x] { means_free(h, g, x_st(h, x)); }
pub proof fn means_free(h: Heap, g: Heap, s: Addr)
    requires st_ok(h, s), ext(h, g)
    ensures st_ok(g, s), st_vals(g, s) == st_vals(h, s)
{ lst_keeps(h, g, s); let L = st_lst(h, s); assert forall|i: int| 0 <= i < L.len() implies g.Position[#[trigger] L[i]] == h.Position[L[i]] by { assert(h.Position.contains_key(L[i])); } assert(vals(g.Position, L) =~= vals(h.Position, L)); }
pub proof fn apart_eq(h0: Heap, h: Heap, g: Heap, N: Seq<Addr>, M: Seq<Addr>)
    requires apart(h, N, M), rest_same(h0, h, N, M), disp_eq(h, g)
    ensures apart(g, N, M), rest_same(h0, g, N, M)
{ own_eq(h, g, N); step_apart(h0, h, g, N, N, M); }

pub proof fn agrees(h0: Heap, h: Heap, g: Heap)
    requires ext(h0, h), sub(g.Intersection, h.Intersection), sub(g.State, h.State), sub(g.Position, h.Position)
    ensures forall|y: Addr| #[trigger] h0.Intersection.contains_key(y) && g.Intersection.contains_key(y) ==> g.Intersection[y] == h0.Intersection[y],
        forall|y: Addr| #[trigger] h0.State.contains_key(y) && g.State.contains_key(y) ==> g.State[y] == h0.State[y], forall|y: Addr| #[trigger] h0.Position.contains_key(y) && g.Position.contains_key(y) ==> g.Position[y] == h0.Position[y]
{ assert forall|y: Addr| #[trigger] h0.Intersection.contains_key(y) && g.Intersection.contains_key(y) implies g.Intersection[y] == h0.Intersection[y] by { assert(h.Intersection.contains_key(y)); } assert forall|y: Addr| #[trigger] h0.State.contains_key(y) && g.State.contains_key(y) implies g.State[y] == h0.State[y] by { assert(h.State.contains_key(y)); } assert forall|y: Addr| #[trigger] h0.Position.contains_key(y) && g.Position.contains_key(y) implies g.Position[y] == h0.Position[y] by { assert(h.Position.contains_key(y)); } }
@endraw
