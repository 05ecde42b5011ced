// ---- one step of a query
pub open spec fn disp_eq(h: Heap, g: Heap) -> bool { h.DawgNode == g.DawgNode && h.Intersection == g.Intersection && h.State == g.State && h.Position == g.Position }
pub open spec fn q_top(h: Heap, Q: QV) -> Addr { if Q.cur != 0 { top_of(h.Intersection, Q.cur, pth(h, Q.cur)) } else { top_of(h.Intersection, Q.pend[0], pth(h, Q.pend[0])) } }
pub proof fn own_eq(h: Heap, g: Heap, N: Seq<Addr>)
    requires own(h, N), disp_eq(h, g)
    ensures own(g, N), same_others(h, N, g, N)
{
    assert forall|j: int| 0 <= j < N.len() implies #[trigger] g.Intersection.contains_key(N[j]) && x_st(g, N[j]) == x_st(h, N[j]) && st_ok(g, x_st(g, N[j])) && st_lst(g, x_st(g, N[j])) == st_lst(h, x_st(h, N[j])) by { assert(h.Intersection.contains_key(N[j])); }
    assert forall|y: Addr| #[trigger] out_s(g, N, y) == out_s(h, N, y) by {
        if owns_s(h, N, y) { let j = choose|j: int| 0 <= j < N.len() && x_st(h, #[trigger] N[j]) == y; assert(x_st(g, N[j]) == y); }
        if owns_s(g, N, y) { let j = choose|j: int| 0 <= j < N.len() && x_st(g, #[trigger] N[j]) == y; assert(x_st(h, N[j]) == y); }
    }
    assert forall|y: Addr| #[trigger] out_p(g, N, y) == out_p(h, N, y) by {
        if owns_p(h, N, y) { let j = choose|j: int| 0 <= j < N.len() && st_lst(h, x_st(h, #[trigger] N[j])).contains(y); assert(st_lst(g, x_st(g, N[j])).contains(y)); }
        if owns_p(g, N, y) { let j = choose|j: int| 0 <= j < N.len() && st_lst(g, x_st(g, #[trigger] N[j])).contains(y); assert(st_lst(h, x_st(h, N[j])).contains(y)); }
    }
}
/// fields that do not matter here
pub proof fn carry(h: Heap, g: Heap, Q: QV, R: QV, T: Addr)
    requires disp_eq(h, g), inv(h, Q, T), R == (QV { done: R.done, ..Q }), own(h, Q.inters)
    ensures inv(g, R, T), mu(g, R, T) == mu(h, Q, T), own(g, R.inters), same_others(h, Q.inters, g, R.inters), toks(g, R) == toks(h, Q), ext(h, g),
        forall|w: Seq<i8>| #[trigger] in_todo(g, R, w) == in_todo(h, Q, w), forall|w: Seq<i8>| #[trigger] matches(g, R, T, w) == matches(h, Q, T, w)
{
    inv_ext(h, g, Q, T); mu_ext(h, g, Q, T); own_eq(h, g, Q.inters);
    assert(toks(g, R) =~= toks(g, Q));
    assert forall|j: int| 0 <= j < R.pend.len() implies live(g, R, T, #[trigger] R.pend[j]) by { assert(live(g, Q, T, Q.pend[j])); }
    assert forall|w: Seq<i8>| #[trigger] in_todo(g, R, w) == in_todo(g, Q, w) by {
        if exists|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(g, Q, j), w) { let j = choose|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(g, Q, j), w); assert(prefix(estr(g, R, j), w)); }
        if exists|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(g, R, j), w) { let j = choose|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(g, R, j), w); assert(prefix(estr(g, Q, j), w)); }
    }
    assert(ewts(g, R, T) =~= ewts(g, Q, T)); assert(pwts(g, R, T) =~= pwts(g, Q, T));
}
/// taking up the next intersection
pub proof fn adv_expand(h: Heap, g: Heap, Q: QV, R: QV, T: Addr)
    requires disp_eq(h, g), inv(h, Q, T), own(h, Q.inters), Q.edges.len() == 0, Q.pend.len() > 0, same_cfg(Q, R), R.pend == Q.pend.drop_first(), R.cur == Q.pend[0], R.inters == Q.inters,
        ({ let M = h.DawgNode[h.Intersection[R.cur]._node]._edges@; let keys = map_order(M); let V = st_vals(h, h.Intersection[R.cur]._state);
           &&& R.edges.len() == keys.len() &&& (forall|j: int| 0 <= j < keys.len() ==> (#[trigger] R.edges[j]) == (keys[j], M[keys[j]]))
           &&& R.i == V[0].i &&& R.k == window(Q.n as int, Q.q, R.i as int) })
    ensures inv(g, R, T), q_top(g, R) == T, mu(g, R, T) < mu(h, Q, T), own(g, R.inters), same_others(h, Q.inters, g, R.inters), ext(h, g), R.cur != 0,
        forall|w: Seq<i8>| walkable(h, T, w) ==> #[trigger] in_todo(g, R, w) == in_todo(h, Q, w)
{
    let M = h.DawgNode[h.Intersection[R.cur]._node]._edges@; axiom_map_order(M);
    assert(live(h, Q, T, Q.pend[0]));
    expand(h, Q, R, T, map_order(M)); mu_expand(h, Q, R, T); carry(h, g, R, R, T); live_ext(h, g, R, R, T, R.cur);
}
/// facts about the first edge
pub proof fn first_edge(h: Heap, Q: QV, T: Addr)
    requires inv(h, Q, T), Q.edges.len() > 0
    ensures live(h, Q, T, Q.cur), edges_ok(h, Q), walk(h.DawgNode, h.Intersection[T]._node, estr(h, Q, 0)) == Q.edges[0].1, Q.edges[0].1 != 0, h.DawgNode.contains_key(Q.edges[0].1), h.DawgNode.contains_key(h.Intersection[Q.cur]._node),
        estr(h, Q, 0).len() < 0x4000_0000_0000_0000, 0 <= Q.i <= Q.q.len(), h.Intersection.contains_key(Q.cur), st_ok(h, x_st(h, Q.cur)),
        in_todo(h, Q, estr(h, Q, 0))
{
    let D = h.DawgNode; let rt = h.Intersection[T]._node; let p = pth(h, Q.cur);
    walk_push(D, rt, p, Q.edges[0].0); walk_bound(D, rt, rk(h, T), p);
    means_window(h, Q, x_st(h, Q.cur), p);
    let M = D[h.Intersection[Q.cur]._node]._edges@; assert(M.contains_key(Q.edges[0].0)); assert(M[Q.edges[0].0] == Q.edges[0].1);
    let e0 = estr(h, Q, 0); assert(e0.take(e0.len() as int) =~= e0); assert(prefix(estr(h, Q, 0), e0));
    assert(D[h.Intersection[Q.cur]._node]._edges@.contains_key(Q.edges[0].0));
    assert(walk(D, rt, e0) == Q.edges[0].1);
    assert(node_ok(D, Q.edges[0].1, (rk(h, T) - p.len() - 1) as nat));
    walk_bound(D, rt, rk(h, T), e0);
}
/// what a transition leaves alone
pub proof fn trans_frame(h0: Heap, h1: Heap, t: StateTransition_o, s: Addr, cv: Seq<bool>, r: Addr)
    requires trans_post(h0, h1, t, s, cv, r)
    ensures r == 0 ==> h1 == h0, h1 == (Heap { Position: h1.Position, State: h1.State, ..h0 }), r != 0 ==> h1.State.contains_key(r)
{ }
pub proof fn adv_step(hb: Heap, hc: Heap, hc1: Heap, h1: Heap, Q: QV, R: QV, T: Addr, cv: Seq<bool>, r: Addr, x: Addr)
    requires inv(hb, Q, T), own(hb, Q.inters), Q.edges.len() > 0, disp_eq(hb, hc), trans_post(hc, hc1, Q.tr->StateTransition_0, x_st(hb, Q.cur), cv, r),
        is_cv(Q.n as int, Q.q, Q.edges[0].0, Q.i as int, cv),
        same_cfg(Q, R), R.edges == Q.edges.drop_first(), R.cur == Q.cur, R.i == Q.i, R.k == Q.k,
        r == 0 ==> disp_eq(hc1, h1) && R.pend == Q.pend && R.inters == Q.inters,
        r != 0 ==> { &&& h1.DawgNode == hc1.DawgNode && h1.State == hc1.State && h1.Position == hc1.Position && !hc1.Intersection.contains_key(x) && x != 0
            &&& h1.Intersection == hc1.Intersection.insert(x, Intersection_o { _label: Q.edges[0].0, _node: Q.edges[0].1, _state: r, _parent: Q.cur })
            &&& R.pend == Q.pend.push(x) && R.inters == Q.inters.push(x) },
    ensures inv(h1, R, T), q_top(h1, R) == T, ext(hb, h1), own(h1, R.inters), same_others(hb, Q.inters, h1, R.inters), mu(h1, R, T) < mu(hb, Q, T),
        forall|w: Seq<i8>| #[trigger] matches(hb, Q, T, w) ==> in_todo(h1, R, w) == (in_todo(hb, Q, w) && w != estr(hb, Q, 0)),
        !in_todo(h1, R, estr(hb, Q, 0)), matches(hb, Q, T, estr(hb, Q, 0)) ==> r != 0,
        r != 0 ==> is_path(h1.Intersection, x, estr(hb, Q, 0)) && pth(h1, x) == estr(hb, Q, 0) && st_means(h1, r, q_alg(Q), Q.n as int, Q.q, estr(hb, Q, 0)) && in_query(st_vals(h1, r), Q.q.len() as int),
{
    hide(own); hide(same_others); hide(step_ok); hide(complete); hide(sound); hide(antichain); hide(E); hide(in_todo); hide(mu); hide(node_ok); hide(sorted); hide(owns); hide(consistent); hide(walk); hide(sound1); hide(is_list);
    first_edge(hb, Q, T);
    let p = pth(hb, Q.cur); let e = Q.edges[0]; let e0 = estr(hb, Q, 0); let s = x_st(hb, Q.cur); let V = st_vals(hb, s); let alg = q_alg(Q); let n = Q.n as int;
    let P = QV { pend: Q.pend, edges: R.edges, inters: Q.inters, ..R };
    assert(popped(Q, P));
    pop_edge(hb, Q, P, T); mu_pop(hb, Q, P, T);
    assert(st_vals(hc, s) == V);
    assert(alg == alg_of(Q.tr->StateTransition_0.transition)); assert(cfg_ok(Q));
    let W = if r == 0 { seq![] } else { st_vals(hc1, r) };
    assert(step_ok(alg, n, V, V.len() as int, cv, V[0].i, W));
    assert(st_means(hb, s, alg, n, Q.q, p));
    means_step(alg, n, Q.q, p, e.0, cv, V, W);
    if r == 0 {
        assert(disp_eq(hb, h1));
        carry(hb, h1, P, R, T); live_ext(hb, h1, P, R, T, R.cur);
        assert(W.to_set() =~= Set::empty());
        assert forall|w: Seq<i8>| prefix(e0, w) implies !#[trigger] matches(hb, Q, T, w) by { none_left(alg, n, Q.q, e0, w); }
        assert(e0.take(e0.len() as int) =~= e0);
        assert forall|w: Seq<i8>| #[trigger] matches(hb, Q, T, w) implies in_todo(h1, R, w) == (in_todo(hb, Q, w) && w != e0) by { }
    } else {
        assert(sub(hb.Position, h1.Position)) by { reveal(owns); }
        assert(ext(hb, h1));
        assert(live(hb, Q, T, Q.cur)); path_ext(hb.Intersection, h1.Intersection, Q.cur, p);
        assert(e0.drop_last() =~= p); assert(e0.last() == e.0);
        assert(is_path(h1.Intersection, x, e0)); path_is(h1.Intersection, x, e0);
        assert(top_of(h1.Intersection, x, e0) == T);
        assert(st_vals(h1, r) == W); assert(st_ok(h1, r));
        assert(st_means(h1, r, alg, n, Q.q, e0));
        inv_ext(hb, h1, P, T); mu_ext(hb, h1, P, T);
        assert(h1.Intersection[T] == hb.Intersection[T]);
        assert(live(h1, P, T, x));
        antichain_pop(hb, Q, P);
        assert(R == (QV { done: R.done, pend: Q.pend.push(x), inters: R.inters, ..P }));
        push_pend(h1, P, R, T, x, e0); mu_push(h1, P, R, T, x);
        own_push(hb, h1, Q.inters, x);
        means_inq(h1, r, alg, n, Q.q, e0);
        live_ext(hb, h1, P, R, T, R.cur);
        assert(left(h1, T, e0) == left(hb, T, e0));
        assert forall|w: Seq<i8>| #[trigger] matches(hb, Q, T, w) implies in_todo(h1, R, w) == (in_todo(hb, Q, w) && w != e0) by { assert(in_todo(h1, P, w) == in_todo(hb, P, w)); }
        assert(in_todo(h1, P, e0) == in_todo(hb, P, e0));
    }
}
pub proof fn antichain_pop(h: Heap, Q: QV, P: QV)
    requires antichain(toks(h, Q)), popped(Q, P)
    ensures forall|k: int| 0 <= k < toks(h, P).len() ==> !prefix(estr(h, Q, 0), #[trigger] toks(h, P)[k]) && !prefix(toks(h, P)[k], estr(h, Q, 0))
{
    let A = toks(h, Q); let B = toks(h, P);
    assert forall|j: int| 0 <= j < P.edges.len() implies P.edges[j] == Q.edges[j + 1] && #[trigger] estr(h, P, j) == estr(h, Q, j + 1) by { }
    assert(B =~= A.drop_first()); assert(A[0] == estr(h, Q, 0));
    assert forall|k: int| 0 <= k < B.len() implies !prefix(estr(h, Q, 0), #[trigger] B[k]) && !prefix(B[k], estr(h, Q, 0)) by { assert(B[k] == A[k + 1]); }
}
pub open spec fn adv_pre(h: Heap, Q: QV) -> bool { inv(h, Q, q_top(h, Q)) && own(h, Q.inters) && (Q.cur == 0 && Q.pend.len() == 0 ==> false) }
/// what every call of advance keeps
pub open spec fn adv_post(h0: Heap, Q0: QV, h1: Heap, Q1: QV) -> bool {
    let T = q_top(h0, Q0);
    &&& adv_pre(h1, Q1) && q_top(h1, Q1) == T && same_cfg(Q0, Q1) && ext(h0, h1) && same_others(h0, Q0.inters, h1, Q1.inters)
    &&& Q1.done ==> Q1.pend.len() == 0 && Q1.edges.len() == 0
    &&& !Q1.done ==> mu(h1, Q1, T) < mu(h0, Q0, T)
    &&& mu(h1, Q1, T) >= 0
}
/// no term in range was left
pub open spec fn finished(h0: Heap, Q0: QV) -> bool { forall|w: Seq<i8>| #[trigger] matches(h0, Q0, q_top(h0, Q0), w) ==> !in_todo(h0, Q0, w) }
/// w is a term in range that was left, and is no longer; nothing else was dropped
pub open spec fn found(h0: Heap, Q0: QV, h1: Heap, Q1: QV, w: Seq<i8>) -> bool {
    let T = q_top(h0, Q0);
    &&& matches(h0, Q0, T, w) && in_todo(h0, Q0, w) && !in_todo(h1, Q1, w)
    &&& forall|x: Seq<i8>| #[trigger] matches(h0, Q0, T, x) ==> in_todo(h1, Q1, x) == (in_todo(h0, Q0, x) && x != w)
}
pub open spec fn adv_mid(h0: Heap, Q0: QV, h: Heap, Q: QV, T: Addr) -> bool {
    &&& inv(h, Q, T) && own(h, Q.inters) && same_cfg(Q0, Q) && ext(h0, h) && same_others(h0, Q0.inters, h, Q.inters) && h0.Intersection.contains_key(T)
    &&& Q.cur == 0 ==> Q.edges.len() == 0
    &&& mu(h, Q, T) <= mu(h0, Q0, T)
    &&& forall|w: Seq<i8>| #[trigger] matches(h0, Q0, T, w) ==> in_todo(h, Q, w) == in_todo(h0, Q0, w)
}
pub proof fn adv_start(h0: Heap, h: Heap, Q0: QV, Q: QV, T: Addr)
    requires adv_pre(h0, Q0), T == q_top(h0, Q0), disp_eq(h0, h), Q == (QV { done: Q.done, ..Q0 })
    ensures adv_mid(h0, Q0, h, Q, T)
{ carry(h0, h, Q0, Q, T); }
pub proof fn mid_facts(h0: Heap, Q0: QV, h: Heap, Q: QV, T: Addr)
    requires adv_mid(h0, Q0, h, Q, T), Q.edges.len() + Q.pend.len() > 0
    ensures ({ let x = if Q.edges.len() == 0 { Q.pend[0] } else { Q.cur }; let s = x_st(h, x); let N = h.Intersection[x]._node; let V = st_vals(h, s);
        &&& h.Intersection.contains_key(x) && x != 0 && h.DawgNode.contains_key(N) && h.State.contains_key(s) && h.State[s]._head != 0 && h.Position.contains_key(h.State[s]._head)
        &&& h.Position[h.State[s]._head]._term_index == V[0].i && 0 <= V[0].i <= Q.q.len() && Q.q.len() < 0x7fff_ffff
        &&& Q.tr is StateTransition && !(Q.md is Empty) && !(Q.md is distance__STANDARD_2) == !(q_alg(Q) is Std) && Q.a == (if Q.n < 0x7fff_ffff_ffff_ffff { 2 * Q.n + 1 } else { 0xffff_ffff_ffff_ffff })
        &&& Q.edges.len() > 0 ==> Q.edges[0].1 != 0 && h.DawgNode.contains_key(Q.edges[0].1) && Q.i == V[0].i && Q.k == window(Q.n as int, Q.q, Q.i as int) && estr(h, Q, 0).len() < 0x4000_0000_0000_0000
              && walk(h.DawgNode, h.Intersection[T]._node, estr(h, Q, 0)) == Q.edges[0].1 && h.Intersection[T] == h0.Intersection[T] && h.DawgNode == h0.DawgNode })
{
    let x = if Q.edges.len() == 0 { Q.pend[0] } else { Q.cur }; let s = x_st(h, x);
    if Q.edges.len() > 0 { first_edge(h, Q, T); } else { assert(live(h, Q, T, Q.pend[0])); }
    means_window(h, Q, s, pth(h, x)); let L = st_lst(h, s); assert(h.Position.contains_key(L[0])); assert(st_vals(h, s)[0] == pv(h.Position[L[0]]));
    walk_bound(h.DawgNode, h.Intersection[T]._node, rk(h, T), pth(h, x));
}
pub proof fn pre_eq(h: Heap, g: Heap, Q: QV, T: Addr, cv: Seq<bool>)
    requires inv(h, Q, T), disp_eq(h, g), Q.edges.len() > 0, cv.len() == window(Q.n as int, Q.q, Q.i as int)
    ensures trans_pre(g, Q.tr->StateTransition_0, x_st(h, Q.cur), cv)
{ first_edge(h, Q, T); let s = x_st(h, Q.cur); means_ext(h, g, s, q_alg(Q), Q.n as int, Q.q, pth(h, Q.cur)); means_pre(g, Q, s, pth(h, Q.cur), cv); }
pub proof fn matches_same(h0: Heap, Q0: QV, h: Heap, Q: QV, T: Addr)
    requires ext(h0, h), same_cfg(Q0, Q), h0.Intersection.contains_key(T)
    ensures forall|w: Seq<i8>| #[trigger] matches(h, Q, T, w) == matches(h0, Q0, T, w)
{ }
pub proof fn others_trans(h0: Heap, N0: Seq<Addr>, h1: Heap, N1: Seq<Addr>, h2: Heap, N2: Seq<Addr>)
    requires same_others(h0, N0, h1, N1), same_others(h1, N1, h2, N2)
    ensures same_others(h0, N0, h2, N2)
{ }
pub proof fn ext_trans(h0: Heap, h1: Heap, h2: Heap)
    requires ext(h0, h1), ext(h1, h2)
    ensures ext(h0, h2)
{ }
/// the loop goes on (or ends): the string looked at, if any, is not a term in range
pub proof fn adv_next(h0: Heap, Q0: QV, hb: Heap, Qb: QV, h: Heap, Q: QV, T: Addr, e0: Seq<i8>, br: bool)
    requires adv_mid(h0, Q0, hb, Qb, T), T == q_top(h0, Q0), same_cfg(Qb, Q), inv(h, Q, T), q_top(h, Q) == T, Q.cur != 0, own(h, Q.inters), ext(hb, h), same_others(hb, Qb.inters, h, Q.inters), mu(h, Q, T) < mu(hb, Qb, T),
        br ==> forall|w: Seq<i8>| walkable(hb, T, w) ==> #[trigger] in_todo(h, Q, w) == in_todo(hb, Qb, w),
        !br ==> !matches(hb, Qb, T, e0) && forall|w: Seq<i8>| #[trigger] matches(hb, Qb, T, w) ==> in_todo(h, Q, w) == (in_todo(hb, Qb, w) && w != e0)
    ensures adv_mid(h0, Q0, h, Q, T), Q.pend.len() == 0 && Q.edges.len() == 0 && Q.done ==> adv_post(h0, Q0, h, Q) && finished(h0, Q0)
{
    mu_nonneg(h, Q, T); matches_same(h0, Q0, hb, Qb, T); others_trans(h0, Q0.inters, hb, Qb.inters, h, Q.inters); ext_trans(h0, hb, h);
    assert forall|w: Seq<i8>| #[trigger] matches(h0, Q0, T, w) implies in_todo(h, Q, w) == in_todo(h0, Q0, w) by { assert(matches(hb, Qb, T, w)); if br { assert(walkable(hb, T, w)); } }
    if Q.pend.len() == 0 && Q.edges.len() == 0 { assert forall|w: Seq<i8>| #[trigger] matches(h0, Q0, T, w) implies !in_todo(h0, Q0, w) by { assert(!in_todo(h, Q, w)); } }
}
pub proof fn adv_found(h0: Heap, Q0: QV, hb: Heap, Qb: QV, hd: Heap, Qd: QV, h: Heap, Q: QV, T: Addr, e0: Seq<i8>)
    requires adv_mid(h0, Q0, hb, Qb, T), T == q_top(h0, Q0), Qb.edges.len() > 0, e0 == estr(hb, Qb, 0), same_cfg(Qb, Qd), inv(hd, Qd, T), q_top(hd, Qd) == T, Qd.cur != 0, own(hd, Qd.inters), ext(hb, hd), same_others(hb, Qb.inters, hd, Qd.inters), mu(hd, Qd, T) < mu(hb, Qb, T),
        matches(hb, Qb, T, e0), !in_todo(hd, Qd, e0), forall|w: Seq<i8>| #[trigger] matches(hb, Qb, T, w) ==> in_todo(hd, Qd, w) == (in_todo(hb, Qb, w) && w != e0),
        disp_eq(hd, h), Q == (QV { done: Q.done, ..Qd }), !Q.done
    ensures adv_post(h0, Q0, h, Q), found(h0, Q0, h, Q, e0)
{
    first_edge(hb, Qb, T); 
    matches_same(h0, Q0, hb, Qb, T); carry(hd, h, Qd, Q, T); mu_nonneg(h, Q, T); live_ext(hd, h, Qd, Q, T, Q.cur);
    others_trans(h0, Q0.inters, hb, Qb.inters, hd, Qd.inters); others_trans(h0, Q0.inters, hd, Qd.inters, h, Q.inters); ext_trans(h0, hb, hd); ext_trans(h0, hd, h);
    assert(matches(h0, Q0, T, e0));
    assert forall|x: Seq<i8>| #[trigger] matches(h0, Q0, T, x) implies in_todo(h, Q, x) == (in_todo(h0, Q0, x) && x != e0) by { assert(matches(hb, Qb, T, x)); }
}
/// nothing left to begin with
pub proof fn adv_idle(h0: Heap, h: Heap, Q0: QV, Q: QV, T: Addr)
    requires adv_pre(h0, Q0), T == q_top(h0, Q0)
    ensures disp_eq(h0, h) && Q == (QV { done: Q.done, ..Q0 }) && Q0.pend.len() == 0 && Q0.edges.len() == 0 && Q.done ==> adv_post(h0, Q0, h, Q) && finished(h0, Q0)
{
    if disp_eq(h0, h) && Q == (QV { done: Q.done, ..Q0 }) && Q0.pend.len() == 0 && Q0.edges.len() == 0 && Q.done {
        carry(h0, h, Q0, Q, T); mu_nonneg(h, Q, T); live_ext(h0, h, Q0, Q, T, Q.cur);
        assert forall|w: Seq<i8>| #[trigger] matches(h0, Q0, T, w) implies !in_todo(h0, Q0, w) by { }
    }
}
