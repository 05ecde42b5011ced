@use transducer.vc

@raw
/// A: the answers so far, in the order given
pub open spec fn answers_sound(m: DM, rt: Addr, alg: Alg, q: Seq<i8>, n: int, A: Seq<(Seq<i8>, int)>, exact: bool) -> bool {
    &&& forall|i: int| 0 <= i < A.len() ==> in_range(m, rt, alg, q, n, (#[trigger] A[i]).0) && (exact ==> A[i].1 == D(alg, A[i].0, q))
    &&& forall|i: int, j: int| #![trigger A[i], A[j]] 0 <= i < j < A.len() ==> A[i].0 != A[j].0
}
pub open spec fn has_word(A: Seq<(Seq<i8>, int)>, w: Seq<i8>) -> bool { exists|i: int| 0 <= i < A.len() && (#[trigger] A[i]).0 == w }
pub open spec fn answers_complete(m: DM, rt: Addr, alg: Alg, q: Seq<i8>, n: int, A: Seq<(Seq<i8>, int)>) -> bool { forall|w: Seq<i8>| #[trigger] in_range(m, rt, alg, q, n, w) ==> has_word(A, w) }
/// what is yet to come, given the answers so far
pub open spec fn to_come(h0: Heap, x: Addr, h: Heap, Q: QV, A: Seq<(Seq<i8>, int)>) -> bool { forall|w: Seq<i8>| #[trigger] matches(h0, Q, x, w) ==> in_todo(h, Q, w) == !has_word(A, w) }
pub proof fn range_is(h: Heap, Q: QV, x: Addr, w: Seq<i8>)
    ensures matches(h, Q, x, w) == in_range(h.DawgNode, h.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, w), E(q_alg(Q), w, Q.q) == D(q_alg(Q), w, Q.q)
{ D_is_E(q_alg(Q), w, Q.q); }
pub proof fn one_more(h0: Heap, x: Addr, h: Heap, Q: QV, h1: Heap, Q1: QV, A: Seq<(Seq<i8>, int)>, w: Seq<i8>, d: int, exact: bool)
    requires answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, A, exact), to_come(h0, x, h, Q, A), ext(h0, h), h0.Intersection.contains_key(x), x == q_top(h, Q), found(h, Q, h1, Q1, w), same_cfg(Q, Q1), exact ==> d == E(q_alg(Q), w, Q.q)
    ensures answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, A.push((w, d)), exact), to_come(h0, x, h1, Q1, A.push((w, d)))
{
    let B = A.push((w, d)); range_is(h0, Q, x, w);
    assert(matches(h0, Q, x, w)); assert(in_todo(h, Q, w)); assert(!has_word(A, w));
    assert forall|i: int| 0 <= i < B.len() implies in_range(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, (#[trigger] B[i]).0) && (exact ==> B[i].1 == D(q_alg(Q), B[i].0, Q.q)) by { if i < A.len() { assert(B[i] == A[i]); } }
    assert forall|i: int, j: int| #![trigger B[i], B[j]] 0 <= i < j < B.len() implies B[i].0 != B[j].0 by { assert(B[i] == A[i]); if j < A.len() { assert(B[j] == A[j]); } else { if A[i].0 == w { assert(has_word(A, w)); } } }
    assert forall|y: Seq<i8>| #[trigger] matches(h0, Q1, x, y) implies in_todo(h1, Q1, y) == !has_word(B, y) by {
        assert(matches(h, Q, x, y)); assert(matches(h0, Q, x, y));
        if has_word(A, y) { let i = choose|i: int| 0 <= i < A.len() && (#[trigger] A[i]).0 == y; assert(B[i].0 == y); }
        if y == w { assert(B[A.len() as int].0 == y); }
        if has_word(B, y) && y != w { let i = choose|i: int| 0 <= i < B.len() && (#[trigger] B[i]).0 == y; assert(A[i].0 == y); }
    }
}
pub proof fn first_one(h0: Heap, x: Addr, h1: Heap, Q1: QV, w: Seq<i8>, d: int, exact: bool)
    requires begun_with(h0, x, h1, Q1, w), exact ==> d == E(q_alg(Q1), w, Q1.q)
    ensures answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q1), Q1.q, Q1.n as int, seq![(w, d)], exact), to_come(h0, x, h1, Q1, seq![(w, d)])
{
    let B = seq![(w, d)]; range_is(h0, Q1, x, w);
    assert forall|y: Seq<i8>| #[trigger] matches(h0, Q1, x, y) implies in_todo(h1, Q1, y) == !has_word(B, y) by { if y == w { assert(B[0].0 == y); } }
}
pub proof fn all_there(h0: Heap, x: Addr, h: Heap, Q: QV, A: Seq<(Seq<i8>, int)>)
    requires to_come(h0, x, h, Q, A), forall|w: Seq<i8>| #[trigger] matches(h0, Q, x, w) ==> !in_todo(h, Q, w)
    ensures answers_complete(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, A)
{ assert forall|w: Seq<i8>| #[trigger] in_range(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, w) implies has_word(A, w) by { range_is(h0, Q, x, w); assert(matches(h0, Q, x, w)); } }
/// everything a query made is gone, nothing else is
pub proof fn as_before(h0: Heap, h1: Heap, N: Seq<Addr>, h2: Heap)
    requires ext(h0, h1), same_others(h0, seq![], h1, N), same_others(h1, N, h2, seq![]), sub(h2.Intersection, h1.Intersection), sub(h2.State, h1.State), sub(h2.Position, h1.Position)
    ensures h2.Intersection =~= h0.Intersection, h2.State =~= h0.State, h2.Position =~= h0.Position
{
    others_trans(h0, seq![], h1, N, h2, seq![]);
    assert forall|y: Addr| h2.Intersection.contains_key(y) == h0.Intersection.contains_key(y) by { assert(out_i(h0, seq![], y) == h0.Intersection.contains_key(y)); assert(out_i(h2, seq![], y) == h2.Intersection.contains_key(y)); }
    assert forall|y: Addr| h2.State.contains_key(y) == h0.State.contains_key(y) by { assert(out_s(h0, seq![], y) == h0.State.contains_key(y)); assert(out_s(h2, seq![], y) == h2.State.contains_key(y)); }
    assert forall|y: Addr| h2.Position.contains_key(y) == h0.Position.contains_key(y) by { assert(out_p(h0, seq![], y) == h0.Position.contains_key(y)); assert(out_p(h2, seq![], y) == h2.Position.contains_key(y)); }
    assert forall|y: Addr| h0.Intersection.contains_key(y) implies h2.Intersection[y] == h0.Intersection[y] by { assert(h1.Intersection.contains_key(y)); assert(h2.Intersection.contains_key(y)); }
    assert forall|y: Addr| h0.State.contains_key(y) implies h2.State[y] == h0.State[y] by { assert(h1.State.contains_key(y)); assert(h2.State.contains_key(y)); }
    assert forall|y: Addr| h0.Position.contains_key(y) implies h2.Position[y] == h0.Position[y] by { assert(h1.Position.contains_key(y)); assert(h2.Position.contains_key(y)); }
}
pub proof fn pre_carry(h: Heap, g: Heap, Q: QV)
    requires adv_pre(h, Q), disp_eq(h, g)
    ensures adv_pre(g, Q), q_top(g, Q) == q_top(h, Q), same_others(h, Q.inters, g, Q.inters), ext(h, g), mu(g, Q, q_top(h, Q)) == mu(h, Q, q_top(h, Q)), forall|w: Seq<i8>| #[trigger] in_todo(g, Q, w) == in_todo(h, Q, w)
{ let T = q_top(h, Q); carry(h, g, Q, Q, T); if Q.cur != 0 { live_ext(h, g, Q, Q, T, Q.cur); } else { assert(live(h, Q, T, Q.pend[0])); live_ext(h, g, Q, Q, T, Q.pend[0]); } }
/// the state of affairs between two steps: A has been handed out, unless the query is done cw is the next to be
pub open spec fn mid_ok(h0: Heap, x: Addr, h: Heap, Q: QV, A: Seq<(Seq<i8>, int)>, cw: Seq<i8>, exact: bool) -> bool { mid_in(h0, x, h, Q, A, cw, exact) && same_others(h0, seq![], h, Q.inters) }
/// the part of it that does not depend on what others are about
pub open spec fn mid_in(h0: Heap, x: Addr, h: Heap, Q: QV, A: Seq<(Seq<i8>, int)>, cw: Seq<i8>, exact: bool) -> bool {
    let m = h0.DawgNode; let rt = h0.Intersection[x]._node; let alg = q_alg(Q); let n = Q.n as int;
    &&& adv_pre(h, Q) && q_top(h, Q) == x && ext(h0, h) && mu(h, Q, x) >= 0 && h0.Intersection.contains_key(x)
    &&& answers_sound(m, rt, alg, Q.q, n, A, exact)
    &&& Q.done ==> answers_complete(m, rt, alg, Q.q, n, A)
    &&& !Q.done ==> forall|d: int| #![trigger A.push((cw, d))] (exact ==> d == E(alg, cw, Q.q)) ==> answers_sound(m, rt, alg, Q.q, n, A.push((cw, d)), exact) && to_come(h0, x, h, Q, A.push((cw, d)))
}
pub proof fn mid_begin(h0: Heap, x: Addr, h1: Heap, g: Heap, Q: QV, cw: Seq<i8>, exact: bool)
    requires begun(h0, x, h1, Q), !Q.done ==> begun_with(h0, x, h1, Q, cw), disp_eq(h1, g), h0.Intersection.contains_key(x)
    ensures mid_ok(h0, x, g, Q, seq![], cw, exact)
{
    let A: Seq<(Seq<i8>, int)> = seq![];
    pre_carry(h1, g, Q); others_trans(h0, seq![], h1, Q.inters, g, Q.inters); ext_trans(h0, h1, g);
    if Q.done { assert forall|w: Seq<i8>| #[trigger] in_range(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, w) implies has_word(A, w) by { range_is(h0, Q, x, w); assert(matches(h0, Q, x, w)); } }
    else { assert forall|d: int| #![trigger A.push((cw, d))] (exact ==> d == E(q_alg(Q), cw, Q.q)) implies answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, A.push((cw, d)), exact) && to_come(h0, x, g, Q, A.push((cw, d))) by { assert(A.push((cw, d)) =~= seq![(cw, d)]); first_one(h0, x, h1, Q, cw, d, exact); assert forall|w: Seq<i8>| #[trigger] matches(h0, Q, x, w) implies in_todo(g, Q, w) == !has_word(A.push((cw, d)), w) by { assert(in_todo(h1, Q, w) == !has_word(A.push((cw, d)), w)); } } }
}
pub proof fn mid_next_in(h0: Heap, x: Addr, h: Heap, Q: QV, h1: Heap, Q1: QV, A: Seq<(Seq<i8>, int)>, cw: Seq<i8>, d: int, w: Seq<i8>, exact: bool)
    requires mid_in(h0, x, h, Q, A, cw, exact), !Q.done, exact ==> d == E(q_alg(Q), cw, Q.q), adv_post(h, Q, h1, Q1), Q1.done ==> finished(h, Q), !Q1.done ==> found(h, Q, h1, Q1, w)
    ensures mid_in(h0, x, h1, Q1, A.push((cw, d)), w, exact)
{
    let B = A.push((cw, d));
    ext_trans(h0, h, h1);
    assert(answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q), Q.q, Q.n as int, B, exact) && to_come(h0, x, h, Q, B));
    if Q1.done { assert forall|y: Seq<i8>| #[trigger] matches(h0, Q, x, y) implies !in_todo(h, Q, y) by { assert(matches(h, Q, x, y)); } all_there(h0, x, h, Q, B); }
    else { assert forall|f: int| #![trigger B.push((w, f))] (exact ==> f == E(q_alg(Q1), w, Q1.q)) implies answers_sound(h0.DawgNode, h0.Intersection[x]._node, q_alg(Q1), Q1.q, Q1.n as int, B.push((w, f)), exact) && to_come(h0, x, h1, Q1, B.push((w, f))) by { one_more(h0, x, h, Q, h1, Q1, B, w, f, exact); } }
}
pub proof fn mid_next(h0: Heap, x: Addr, h: Heap, Q: QV, h1: Heap, Q1: QV, A: Seq<(Seq<i8>, int)>, cw: Seq<i8>, d: int, w: Seq<i8>, exact: bool)
    requires mid_ok(h0, x, h, Q, A, cw, exact), !Q.done, exact ==> d == E(q_alg(Q), cw, Q.q), adv_post(h, Q, h1, Q1), Q1.done ==> finished(h, Q), !Q1.done ==> found(h, Q, h1, Q1, w)
    ensures mid_ok(h0, x, h1, Q1, A.push((cw, d)), w, exact)
{ others_trans(h0, seq![], h, Q.inters, h1, Q1.inters); mid_next_in(h0, x, h, Q, h1, Q1, A, cw, d, w, exact); }
pub proof fn own_none(h: Heap)
    ensures own(h, seq![]), same_others(h, seq![], h, seq![]), ext(h, h)
{ }
pub proof fn made_unmade(hz: Heap, h0: Heap, h1: Heap, h2: Heap, x: Addr)
    requires made(hz, h0, x), disp_eq(h0, h1), unmade(h1, h2, x), st_ok(h0, x_st(h0, x))
    ensures h2.Intersection =~= hz.Intersection, h2.State =~= hz.State, h2.Position =~= hz.Position
{
    let L = st_lst(h0, x_st(h0, x));
    assert forall|y: Addr| #[trigger] L.to_set().contains(y) == L.contains(y) by { }
    assert forall|y: Addr| h2.Position.contains_key(y) == hz.Position.contains_key(y) by { }
}
@endraw


@client CLIENT
/// what a user does: make a transducer for a dictionary, ask it for all terms within a distance (giving up after some of the answers), and let go of everything
pub fn CLIENT(hp: &mut Heap, root: Addr, term: Str, max_distance: u64, give_up: u64) -> (r: (Ghost<Seq<(Seq<i8>, int)>>, bool))
    requires
        rooted(old(hp).DawgNode, root), term@.len() < 0x7fff_ffff,
    ensures
        answers_sound(old(hp).DawgNode, root, ALG, term@, max_distance as int, r.0@, EXACT),
        r.1 ==> answers_complete(old(hp).DawgNode, root, ALG, term@, max_distance as int, r.0@),
        !r.1 ==> r.0@.len() >= give_up,
        *final(hp) =~= *old(hp),
{
    hide(own); hide(same_others); hide(complete); hide(sound); hide(antichain); hide(E); hide(D); hide(in_todo); hide(mu); hide(node_ok); hide(walk); hide(is_list); hide(inv); hide(live); hide(toks); hide(is_path); hide(acc); hide(rooted); hide(has_list); hide(to_come); hide(answers_sound); hide(answers_complete); hide(begun_with); hide(found); hide(finished); hide(q_top); hide(matches); hide(ext);
    let ghost hz = *hp;
    let t = TRNEW(hp, root);
    let ghost h0 = *hp; let ghost x = h0.TRF[t]._intersection;
    let it = TRCALL(hp, t, term, max_distance);
    let a = BEGINF(hp, it);
    let ghost h1 = *hp; let ghost mut cw: Seq<i8> = seq![];
    let e = ENDF(hp, it);
    let ghost mut A: Seq<(Seq<i8>, int)> = seq![]; let mut n: u64 = 0; let mut all = false;
    proof {
        let Q1 = QVF(h1.LQF[a]);
        if !Q1.done { cw = choose|w: Seq<i8>| begun_with(h0, x, h1, Q1, w) && #[trigger] SHOWS(h1.LQF[a], w, E(q_alg(Q1), w, term@)); }
        mid_begin(h0, x, h1, *hp, Q1, cw, EXACT);
    }
    #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    loop
        invariant
            a != e, hp.LQF.contains_key(a), hp.LQF.contains_key(e), is_end(QVF(hp.LQF[e])), QVF(hp.LQF[e]) == QVF(hp.LQF[e]),
            *hp =~= (Heap { Position: hp.Position, State: hp.State, Intersection: hp.Intersection, LQF: h0.LQF.insert(a, hp.LQF[a]).insert(e, hp.LQF[e]), ..h0 }),
            mid_ok(h0, x, *hp, QVF(hp.LQF[a]), A, cw, EXACT), QVF(hp.LQF[a]).q == term@, QVF(hp.LQF[a]).n == max_distance, q_alg(QVF(hp.LQF[a])) == ALG,
            !QVF(hp.LQF[a]).done ==> SHOWS(hp.LQF[a], cw, E(ALG, cw, term@)), A.len() == n, !all,
        ensures
            *hp =~= (Heap { Position: hp.Position, State: hp.State, Intersection: hp.Intersection, LQF: h0.LQF.insert(a, hp.LQF[a]).insert(e, hp.LQF[e]), ..h0 }),
            mid_ok(h0, x, *hp, QVF(hp.LQF[a]), A, cw, EXACT), all ==> QVF(hp.LQF[a]).done, !all ==> A.len() >= give_up,
        decreases if QVF(hp.LQF[a]).done { 0int } else { 1 + mu(*hp, QVF(hp.LQF[a]), x) }
    {
        if EQF(hp, a, e) { all = true; break; }
        if n >= give_up { break; }
        let r = DEREF(hp, a);
        let ghost hb = *hp; let ghost Qb = QVF(hb.LQF[a]); let ghost wb = cw; let ghost vb = VALUE;
        proof { assert(SHOWS(hb.LQF[a], cw, E(ALG, cw, term@))); assert(vb.0 == cw); assert(EXACT ==> vb.1 == E(ALG, cw, term@)); }
        INCF(hp, a);
        proof {
            let Q1 = QVF(hp.LQF[a]);
            if !Q1.done { cw = choose|w: Seq<i8>| found(hb, Qb, *hp, Q1, w) && #[trigger] SHOWS(hp.LQF[a], w, E(q_alg(Qb), w, Qb.q)); }
            mid_next(h0, x, hb, Qb, *hp, Q1, A, wb, vb.1, cw, EXACT);
            A = A.push(vb);
        }
        n = n + 1;
    }
    let ghost h3 = *hp; let ghost N3 = QVF(hp.LQF[a]).inters;
    DTORF(hp, a);
    proof { as_before(h0, h3, N3, *hp); }
    hp.FREEF(a);
    let ghost h4 = *hp;
    proof { own_none(h4); assert(QVF(hp.LQF[e]).inters =~= seq![]); }
    DTORF(hp, e);
    proof { as_before(h4, h4, seq![], *hp); }
    hp.FREEF(e);
    proof { assert(disp_eq(h0, *hp)); start_eq(h0, *hp, x); }
    let ghost h5 = *hp;
    TRDEL(hp, t);
    hp.TRFREE(t);
    proof { made_unmade(hz, h0, h5, *hp, x); }
    (Ghost(A), all)
}
@endclient
@clients answers_STANDARD_string = CLIENT with TRF:=Transducer__STANDARD_string;;LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string;;ALG:=Alg::Std;;EXACT:=false;;VALUE:=(r@, 0int);;TRNEW:=Transducer__STANDARD_string__ctor_1;;TRCALL:=Transducer__STANDARD_string__call_2;;TRDEL:=Transducer__STANDARD_string__dtor_0;;TRFREE:=Transducer__STANDARD_string_free;;BEGINF:=LazyIterator__string__begin_0;;ENDF:=LazyIterator__string__end_0;;EQF:=LazyQuery__string__eq_1;;DEREF:=LazyQuery__string__deref_0;;INCF:=LazyQuery__string__inc_0;;DTORF:=LazyQuery__string__dtor_0;;FREEF:=LazyQuery__string_free
@clients answers_STANDARD_pair = CLIENT with TRF:=Transducer__STANDARD_pair;;LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ALG:=Alg::Std;;EXACT:=true;;VALUE:=(r.0@, r.1 as int);;TRNEW:=Transducer__STANDARD_pair__ctor_1;;TRCALL:=Transducer__STANDARD_pair__call_2;;TRDEL:=Transducer__STANDARD_pair__dtor_0;;TRFREE:=Transducer__STANDARD_pair_free;;BEGINF:=LazyIterator__pair__begin_0;;ENDF:=LazyIterator__pair__end_0;;EQF:=LazyQuery__pair__eq_1;;DEREF:=LazyQuery__pair__deref_0;;INCF:=LazyQuery__pair__inc_0;;DTORF:=LazyQuery__pair__dtor_0;;FREEF:=LazyQuery__pair_free
@clients answers_TRANSPOSITION_string = CLIENT with TRF:=Transducer__TRANSPOSITION_string;;LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string;;ALG:=Alg::Trans;;EXACT:=false;;VALUE:=(r@, 0int);;TRNEW:=Transducer__TRANSPOSITION_string__ctor_1;;TRCALL:=Transducer__TRANSPOSITION_string__call_2;;TRDEL:=Transducer__TRANSPOSITION_string__dtor_0;;TRFREE:=Transducer__TRANSPOSITION_string_free;;BEGINF:=LazyIterator__string__begin_0;;ENDF:=LazyIterator__string__end_0;;EQF:=LazyQuery__string__eq_1;;DEREF:=LazyQuery__string__deref_0;;INCF:=LazyQuery__string__inc_0;;DTORF:=LazyQuery__string__dtor_0;;FREEF:=LazyQuery__string_free
@clients answers_TRANSPOSITION_pair = CLIENT with TRF:=Transducer__TRANSPOSITION_pair;;LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ALG:=Alg::Trans;;EXACT:=true;;VALUE:=(r.0@, r.1 as int);;TRNEW:=Transducer__TRANSPOSITION_pair__ctor_1;;TRCALL:=Transducer__TRANSPOSITION_pair__call_2;;TRDEL:=Transducer__TRANSPOSITION_pair__dtor_0;;TRFREE:=Transducer__TRANSPOSITION_pair_free;;BEGINF:=LazyIterator__pair__begin_0;;ENDF:=LazyIterator__pair__end_0;;EQF:=LazyQuery__pair__eq_1;;DEREF:=LazyQuery__pair__deref_0;;INCF:=LazyQuery__pair__inc_0;;DTORF:=LazyQuery__pair__dtor_0;;FREEF:=LazyQuery__pair_free
@clients answers_MERGE_AND_SPLIT_string = CLIENT with TRF:=Transducer__MERGE_AND_SPLIT_string;;LQF:=LazyQuery__string;;QVF:=qv_string;;SHOWS:=shows_string;;ALG:=Alg::Ms;;EXACT:=false;;VALUE:=(r@, 0int);;TRNEW:=Transducer__MERGE_AND_SPLIT_string__ctor_1;;TRCALL:=Transducer__MERGE_AND_SPLIT_string__call_2;;TRDEL:=Transducer__MERGE_AND_SPLIT_string__dtor_0;;TRFREE:=Transducer__MERGE_AND_SPLIT_string_free;;BEGINF:=LazyIterator__string__begin_0;;ENDF:=LazyIterator__string__end_0;;EQF:=LazyQuery__string__eq_1;;DEREF:=LazyQuery__string__deref_0;;INCF:=LazyQuery__string__inc_0;;DTORF:=LazyQuery__string__dtor_0;;FREEF:=LazyQuery__string_free
@clients answers_MERGE_AND_SPLIT_pair = CLIENT with TRF:=Transducer__MERGE_AND_SPLIT_pair;;LQF:=LazyQuery__pair;;QVF:=qv_pair;;SHOWS:=shows_pair;;ALG:=Alg::Ms;;EXACT:=true;;VALUE:=(r.0@, r.1 as int);;TRNEW:=Transducer__MERGE_AND_SPLIT_pair__ctor_1;;TRCALL:=Transducer__MERGE_AND_SPLIT_pair__call_2;;TRDEL:=Transducer__MERGE_AND_SPLIT_pair__dtor_0;;TRFREE:=Transducer__MERGE_AND_SPLIT_pair_free;;BEGINF:=LazyIterator__pair__begin_0;;ENDF:=LazyIterator__pair__end_0;;EQF:=LazyQuery__pair__eq_1;;DEREF:=LazyQuery__pair__deref_0;;INCF:=LazyQuery__pair__inc_0;;DTORF:=LazyQuery__pair__dtor_0;;FREEF:=LazyQuery__pair_free
