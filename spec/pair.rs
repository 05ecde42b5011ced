// ---------------------------------------------------------------------------------------------
// Two queries at the same time.
// ---------------------------------------------------------------------------------------------
/// what one query made stays as it is while the heap grows
pub proof fn own_ext(h: Heap, g: Heap, N: Seq<Addr>)
    requires own(h, N), ext(h, g)
    ensures own(g, N), forall|j: int| 0 <= j < N.len() ==> g.Intersection.contains_key(#[trigger] N[j]) && x_st(g, N[j]) == x_st(h, N[j]) && st_lst(g, x_st(g, N[j])) == st_lst(h, x_st(h, N[j])),
        forall|y: Addr| #[trigger] owns_s(g, N, y) == owns_s(h, N, y), forall|y: Addr| #[trigger] owns_p(g, N, y) == owns_p(h, N, y)
{
    assert forall|j: int| 0 <= j < N.len() implies g.Intersection.contains_key(#[trigger] N[j]) && x_st(g, N[j]) == x_st(h, N[j]) && st_ok(g, x_st(g, N[j])) && st_lst(g, x_st(g, N[j])) == st_lst(h, x_st(h, N[j])) by { assert(h.Intersection.contains_key(N[j])); lst_keeps(h, g, x_st(h, N[j])); }
    owns_same(h, g, N);
}
pub proof fn lst_keeps(h: Heap, g: Heap, s: Addr)
    requires st_ok(h, s), g.State.contains_key(s), g.State[s] == h.State[s], forall|i: int| 0 <= i < st_lst(h, s).len() ==> g.Position.contains_key(#[trigger] st_lst(h, s)[i]) && g.Position[st_lst(h, s)[i]] == h.Position[st_lst(h, s)[i]] || !h.Position.contains_key(st_lst(h, s)[i])
    ensures st_ok(g, s), st_lst(g, s) == st_lst(h, s)
{
    let L = st_lst(h, s); let hd = h.State[s]._head;
    assert forall|i: int| 0 <= i < L.len() implies g.Position.contains_key(#[trigger] L[i]) && g.Position[L[i]] == h.Position[L[i]] by { assert(h.Position.contains_key(L[i])); }
    seg_frame(h.Position, g.Position, hd, L, 0); assert(is_list(g.Position, hd, L)); lst_is(g.Position, hd, L);
}
pub proof fn owns_same(h: Heap, g: Heap, N: Seq<Addr>)
    requires forall|j: int| 0 <= j < N.len() ==> x_st(g, #[trigger] N[j]) == x_st(h, N[j]) && st_lst(g, x_st(g, N[j])) == st_lst(h, x_st(h, N[j]))
    ensures forall|y: Addr| #[trigger] owns_s(g, N, y) == owns_s(h, N, y), forall|y: Addr| #[trigger] owns_p(g, N, y) == owns_p(h, N, y)
{
    assert forall|y: Addr| #[trigger] owns_s(g, N, y) == owns_s(h, N, y) by {
        if owns_s(g, N, y) { let j = choose|j: int| 0 <= j < N.len() && x_st(g, #[trigger] N[j]) == y; assert(x_st(h, N[j]) == y); }
        if owns_s(h, N, y) { let j = choose|j: int| 0 <= j < N.len() && x_st(h, #[trigger] N[j]) == y; assert(x_st(g, N[j]) == y); }
    }
    assert forall|y: Addr| #[trigger] owns_p(g, N, y) == owns_p(h, N, y) by {
        if owns_p(g, N, y) { let j = choose|j: int| 0 <= j < N.len() && st_lst(g, x_st(g, #[trigger] N[j])).contains(y); assert(st_lst(h, x_st(h, N[j])).contains(y)); }
        if owns_p(h, N, y) { let j = choose|j: int| 0 <= j < N.len() && st_lst(h, x_st(h, #[trigger] N[j])).contains(y); assert(st_lst(g, x_st(g, N[j])).contains(y)); }
    }
}
/// nothing is made by both
pub open spec fn apart(h: Heap, N: Seq<Addr>, M: Seq<Addr>) -> bool {
    &&& own(h, N) && own(h, M)
    &&& forall|j: int| 0 <= j < M.len() ==> out_i(h, N, #[trigger] M[j]) && out_s(h, N, x_st(h, M[j]))
    &&& forall|y: Addr| #[trigger] owns_p(h, M, y) ==> out_p(h, N, y)
}
/// everything but what the two made is as in h0
pub open spec fn rest_same(h0: Heap, h: Heap, N: Seq<Addr>, M: Seq<Addr>) -> bool {
    &&& forall|x: Addr| #![trigger out_i(h, N, x)] (out_i(h, N, x) && !M.contains(x)) == h0.Intersection.contains_key(x)
    &&& forall|x: Addr| #![trigger out_s(h, N, x)] (out_s(h, N, x) && !owns_s(h, M, x)) == h0.State.contains_key(x)
    &&& forall|x: Addr| #![trigger out_p(h, N, x)] (out_p(h, N, x) && !owns_p(h, M, x)) == h0.Position.contains_key(x)
}
pub proof fn apart_sym(h: Heap, N: Seq<Addr>, M: Seq<Addr>)
    requires apart(h, N, M)
    ensures apart(h, M, N)
{
    assert forall|j: int| 0 <= j < N.len() implies out_i(h, M, #[trigger] N[j]) && out_s(h, M, x_st(h, N[j])) by {
        assert(h.Intersection.contains_key(N[j])); assert(st_ok(h, x_st(h, N[j])));
        if M.contains(N[j]) { let i = M.index_of(N[j]); assert(out_i(h, N, M[i])); assert(N.contains(N[j])); }
        if owns_s(h, M, x_st(h, N[j])) { let i = choose|i: int| 0 <= i < M.len() && x_st(h, #[trigger] M[i]) == x_st(h, N[j]); assert(out_s(h, N, x_st(h, M[i]))); assert(owns_s(h, N, x_st(h, N[j]))); }
    }
    assert forall|y: Addr| #[trigger] owns_p(h, N, y) implies out_p(h, M, y) by {
        let j = choose|j: int| 0 <= j < N.len() && st_lst(h, x_st(h, #[trigger] N[j])).contains(y); let L = st_lst(h, x_st(h, N[j])); let i = L.index_of(y); assert(st_ok(h, x_st(h, N[j]))); assert(h.Position.contains_key(L[i]));
        if owns_p(h, M, y) { assert(out_p(h, N, y)); }
    }
}
pub proof fn rest_sym(h0: Heap, h: Heap, N: Seq<Addr>, M: Seq<Addr>)
    requires rest_same(h0, h, N, M), apart(h, N, M)
    ensures rest_same(h0, h, M, N)
{
    assert forall|x: Addr| #![trigger out_i(h, M, x)] (out_i(h, M, x) && !N.contains(x)) == h0.Intersection.contains_key(x) by { assert(out_i(h, N, x) == (h.Intersection.contains_key(x) && !N.contains(x))); }
    assert forall|x: Addr| #![trigger out_s(h, M, x)] (out_s(h, M, x) && !owns_s(h, N, x)) == h0.State.contains_key(x) by { assert(out_s(h, N, x) == (h.State.contains_key(x) && !owns_s(h, N, x))); }
    assert forall|x: Addr| #![trigger out_p(h, M, x)] (out_p(h, M, x) && !owns_p(h, N, x)) == h0.Position.contains_key(x) by { assert(out_p(h, N, x) == (h.Position.contains_key(x) && !owns_p(h, N, x))); }
}
/// the one with N goes a step; the one with M is not touched
pub proof fn step_apart(h0: Heap, h: Heap, g: Heap, N: Seq<Addr>, N1: Seq<Addr>, M: Seq<Addr>)
    requires apart(h, N, M), rest_same(h0, h, N, M), ext(h, g), own(g, N1), same_others(h, N, g, N1)
    ensures apart(g, N1, M), rest_same(h0, g, N1, M)
{
    own_ext(h, g, M);
    assert forall|j: int| 0 <= j < M.len() implies out_i(g, N1, #[trigger] M[j]) && out_s(g, N1, x_st(g, M[j])) by { assert(out_i(h, N, M[j])); assert(out_s(h, N, x_st(h, M[j]))); assert(out_i(g, N1, M[j]) == out_i(h, N, M[j])); assert(out_s(g, N1, x_st(h, M[j])) == out_s(h, N, x_st(h, M[j]))); }
    assert forall|y: Addr| #[trigger] owns_p(g, M, y) implies out_p(g, N1, y) by { assert(owns_p(h, M, y)); assert(out_p(g, N1, y) == out_p(h, N, y)); }
    assert forall|x: Addr| #![trigger out_i(g, N1, x)] (out_i(g, N1, x) && !M.contains(x)) == h0.Intersection.contains_key(x) by { assert(out_i(g, N1, x) == out_i(h, N, x)); }
    assert forall|x: Addr| #![trigger out_s(g, N1, x)] (out_s(g, N1, x) && !owns_s(g, M, x)) == h0.State.contains_key(x) by { assert(out_s(g, N1, x) == out_s(h, N, x)); assert(owns_s(g, M, x) == owns_s(h, M, x)); }
    assert forall|x: Addr| #![trigger out_p(g, N1, x)] (out_p(g, N1, x) && !owns_p(g, M, x)) == h0.Position.contains_key(x) by { assert(out_p(g, N1, x) == out_p(h, N, x)); assert(owns_p(g, M, x) == owns_p(h, M, x)); }
}
/// before either: nothing is made
pub proof fn none_apart(h: Heap)
    ensures apart(h, seq![], seq![]), rest_same(h, h, seq![], seq![])
{ }
/// the one with N is gone; the one with M is not touched
pub proof fn gone_apart(h0: Heap, h: Heap, g: Heap, N: Seq<Addr>, M: Seq<Addr>)
    requires apart(h, N, M), rest_same(h0, h, N, M), same_others(h, N, g, seq![]), sub(g.Intersection, h.Intersection), sub(g.State, h.State), sub(g.Position, h.Position)
    ensures own(g, M), rest_same(h0, g, seq![], M)
{
    let e: Seq<Addr> = seq![];
    assert forall|x: Addr| #[trigger] out_i(g, e, x) == g.Intersection.contains_key(x) by { }
    assert forall|x: Addr| #[trigger] out_s(g, e, x) == g.State.contains_key(x) by { }
    assert forall|x: Addr| #[trigger] out_p(g, e, x) == g.Position.contains_key(x) by { }
    assert forall|j: int| 0 <= j < M.len() implies g.Intersection.contains_key(#[trigger] M[j]) && x_st(g, M[j]) == x_st(h, M[j]) && st_ok(g, x_st(g, M[j])) && st_lst(g, x_st(g, M[j])) == st_lst(h, x_st(h, M[j])) by {
        assert(out_i(h, N, M[j])); assert(out_i(g, e, M[j]) == out_i(h, N, M[j])); let s = x_st(h, M[j]); assert(out_s(h, N, s)); assert(out_s(g, e, s) == out_s(h, N, s)); let L = st_lst(h, s);
        assert(h.Intersection.contains_key(M[j])); assert(st_ok(h, s));
        assert forall|i: int| 0 <= i < L.len() implies g.Position.contains_key(#[trigger] L[i]) && g.Position[L[i]] == h.Position[L[i]] by { assert(L.contains(L[i])); assert(st_lst(h, x_st(h, M[j])).contains(L[i])); assert(owns_p(h, M, L[i])); assert(out_p(h, N, L[i])); assert(out_p(g, e, L[i]) == out_p(h, N, L[i])); }
        lst_keeps(h, g, s);
    }
    owns_same(h, g, M);
    assert forall|x: Addr| #![trigger out_i(g, e, x)] (out_i(g, e, x) && !M.contains(x)) == h0.Intersection.contains_key(x) by { assert(out_i(g, e, x) == out_i(h, N, x)); }
    assert forall|x: Addr| #![trigger out_s(g, e, x)] (out_s(g, e, x) && !owns_s(g, M, x)) == h0.State.contains_key(x) by { assert(out_s(g, e, x) == out_s(h, N, x)); assert(owns_s(g, M, x) == owns_s(h, M, x)); }
    assert forall|x: Addr| #![trigger out_p(g, e, x)] (out_p(g, e, x) && !owns_p(g, M, x)) == h0.Position.contains_key(x) by { assert(out_p(g, e, x) == out_p(h, N, x)); assert(owns_p(g, M, x) == owns_p(h, M, x)); }
}
/// both are gone
pub proof fn both_gone(h0: Heap, h: Heap, g: Heap, M: Seq<Addr>)
    requires rest_same(h0, h, seq![], M), same_others(h, M, g, seq![]), sub(g.Intersection, h.Intersection), sub(g.State, h.State), sub(g.Position, h.Position),
        forall|y: Addr| #[trigger] h0.Intersection.contains_key(y) && h.Intersection.contains_key(y) ==> h.Intersection[y] == h0.Intersection[y],
        forall|y: Addr| #[trigger] h0.State.contains_key(y) && h.State.contains_key(y) ==> h.State[y] == h0.State[y], forall|y: Addr| #[trigger] h0.Position.contains_key(y) && h.Position.contains_key(y) ==> h.Position[y] == h0.Position[y]
    ensures g.Intersection =~= h0.Intersection, g.State =~= h0.State, g.Position =~= h0.Position
{
    let e: Seq<Addr> = seq![];
    assert forall|y: Addr| g.Intersection.contains_key(y) == h0.Intersection.contains_key(y) by { assert(out_i(g, e, y) == g.Intersection.contains_key(y)); assert(out_i(h, e, y) == h.Intersection.contains_key(y)); assert(out_i(h, M, y) == (h.Intersection.contains_key(y) && !M.contains(y))); }
    assert forall|y: Addr| g.State.contains_key(y) == h0.State.contains_key(y) by { assert(out_s(g, e, y) == g.State.contains_key(y)); assert(out_s(h, e, y) == h.State.contains_key(y)); assert(out_s(h, M, y) == (h.State.contains_key(y) && !owns_s(h, M, y))); }
    assert forall|y: Addr| g.Position.contains_key(y) == h0.Position.contains_key(y) by { assert(out_p(g, e, y) == g.Position.contains_key(y)); assert(out_p(h, e, y) == h.Position.contains_key(y)); assert(out_p(h, M, y) == (h.Position.contains_key(y) && !owns_p(h, M, y))); }
    assert forall|y: Addr| h0.Intersection.contains_key(y) implies g.Intersection[y] == h0.Intersection[y] by { assert(g.Intersection.contains_key(y)); assert(h.Intersection.contains_key(y)); }
    assert forall|y: Addr| h0.State.contains_key(y) implies g.State[y] == h0.State[y] by { assert(g.State.contains_key(y)); assert(h.State.contains_key(y)); }
    assert forall|y: Addr| h0.Position.contains_key(y) implies g.Position[y] == h0.Position[y] by { assert(g.Position.contains_key(y)); assert(h.Position.contains_key(y)); }
}
/// while the heap grows a query stands where it stood
pub proof fn pre_ext(h: Heap, g: Heap, Q: QV)
    requires adv_pre(h, Q), ext(h, g)
    ensures adv_pre(g, Q), q_top(g, Q) == q_top(h, Q), mu(g, Q, q_top(h, Q)) == mu(h, Q, q_top(h, Q)), forall|w: Seq<i8>| #[trigger] in_todo(g, Q, w) == in_todo(h, Q, w)
{ let T = q_top(h, Q); inv_ext(h, g, Q, T); mu_ext(h, g, Q, T); own_ext(h, g, Q.inters); let y = if Q.cur != 0 { Q.cur } else { Q.pend[0] }; assert(live(h, Q, T, y)); live_ext(h, g, Q, Q, T, y); path_ext(h.Intersection, g.Intersection, y, pth(h, y)); }
