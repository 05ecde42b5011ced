// ---- a query from its start to its end
/// the terms in range, in terms of the distance D
pub open spec fn in_range(m: DM, rt: Addr, alg: Alg, q: Seq<i8>, n: int, w: Seq<i8>) -> bool { acc(m, rt, w) && D(alg, w, q) <= n }
/// x is the intersection queries start from
pub open spec fn init_ok(h: Heap, x: Addr) -> bool {
    &&& h.Intersection.contains_key(x) && x != 0 && h.Intersection[x]._parent == 0 && rooted(h.DawgNode, h.Intersection[x]._node)
    &&& x_st(h, x) != 0 && st_ok(h, x_st(h, x)) && st_vals(h, x_st(h, x)) == seq![PV { i: 0, e: 0, s: false }]
}
pub open spec fn q_start(q: Seq<i8>, n: u64, x: Addr, tr: FnTransition, md: FnDistance, a: u64, k: u64, i: u64) -> QV { QV { pend: seq![x], edges: seq![], cur: 0, inters: seq![], done: false, q: q, n: n, tr: tr, md: md, a: a, k: k, i: i } }
pub open spec fn two_n(n: u64) -> u64 { if n < 0x7fff_ffff_ffff_ffff { (2 * n + 1) as u64 } else { 0xffff_ffff_ffff_ffff } }
pub open spec fn q_cfg(q: Seq<i8>, n: u64, tr: FnTransition, md: FnDistance) -> bool { cfg_ok(q_start(q, n, 0, tr, md, two_n(n), 0, 0)) }
pub proof fn init_means(h: Heap, s: Addr, alg: Alg, n: int, q: Seq<i8>)
    requires st_ok(h, s), st_vals(h, s) == seq![PV { i: 0, e: 0, s: false }], n >= 0
    ensures st_means(h, s, alg, n, q, seq![])
{
    let V = st_vals(h, s); let S = V.to_set(); let o = PV { i: 0, e: 0, s: false }; let p: Seq<i8> = seq![];
    assert(V[0] == o); assert(S.contains(o));
    assert forall|v: PV| #[trigger] S.contains(v) implies v == o by { let i = V.index_of(v); assert(V[i] == v); }
    assert forall|i: int| 0 <= i <= q.len() implies #[trigger] Eq(alg, p, q, i) == i by { assert(q.take(i).len() == i); }
    assert(Eq(alg, p, q, 0) == 0);
    assert forall|v: PV| #[trigger] S.contains(v) implies sound1(alg, n, q, p, v) by { assert(v == o); }
    assert forall|i: int| 0 <= i <= q.len() && #[trigger] Eq(alg, p, q, i) <= n implies cov(S, i, Eq(alg, p, q, i)) by { assert(Eq(alg, p, q, i) == i); assert(S.contains(o) && !o.s && iabs(i - o.i) <= i - o.e); }
    assert(complete(alg, n, q, p, S));
}
/// a fresh query satisfies the invariant; every term but the empty one is still to be looked at
pub proof fn start(h: Heap, Q: QV, x: Addr)
    requires init_ok(h, x), cfg_ok(Q), Q.pend == seq![x], Q.edges.len() == 0, Q.cur == 0, Q.inters.len() == 0
    ensures adv_pre(h, Q), q_top(h, Q) == x, mu(h, Q, x) >= 0,
        forall|w: Seq<i8>| matches(h, Q, x, w) ==> (#[trigger] in_todo(h, Q, w) == (w.len() > 0)),
        !in_todo(h, Q, seq![]), E(q_alg(Q), seq![], Q.q) == Q.q.len(), acc(h.DawgNode, h.Intersection[x]._node, seq![]) == h.DawgNode[h.Intersection[x]._node]._is_final,
        h.DawgNode.contains_key(h.Intersection[x]._node), h.Intersection[x]._node != 0,
{
    let e: Seq<i8> = seq![];
    assert(is_path(h.Intersection, x, e)); path_is(h.Intersection, x, e);
    init_means(h, x_st(h, x), q_alg(Q), Q.n as int, Q.q);
    assert(Q.pend[0] == x); assert(top_of(h.Intersection, x, e) == x);
    walk_bound(h.DawgNode, h.Intersection[x]._node, rk(h, x), e);
    assert(live(h, Q, x, x)); assert(toks(h, Q).len() == 1);
    assert(own(h, Q.inters));
    assert(inv(h, Q, x));
    mu_nonneg(h, Q, x);
    assert forall|w: Seq<i8>| #[trigger] in_todo(h, Q, w) == (w.len() > 0) by {
        assert(w.take(0) =~= e);
        if w.len() > 0 { assert(prefix(pth(h, Q.pend[0]), w) && pth(h, Q.pend[0]) != w); }
        if in_todo(h, Q, w) { let j = choose|j: int| 0 <= j < Q.pend.len() && prefix(pth(h, #[trigger] Q.pend[j]), w) && pth(h, Q.pend[j]) != w; assert(j == 0); if w.len() == 0 { assert(w =~= e); } }
    }
}
/// the first answer is there (or there is none)
pub open spec fn begun(h0: Heap, x: Addr, h1: Heap, Q1: QV) -> bool {
    &&& adv_pre(h1, Q1) && q_top(h1, Q1) == x && ext(h0, h1) && same_others(h0, seq![], h1, Q1.inters) && mu(h1, Q1, x) >= 0
    &&& Q1.done ==> forall|w: Seq<i8>| !#[trigger] matches(h0, Q1, x, w)
}
pub open spec fn begun_with(h0: Heap, x: Addr, h1: Heap, Q1: QV, w: Seq<i8>) -> bool {
    &&& matches(h0, Q1, x, w) && forall|y: Seq<i8>| #[trigger] matches(h0, Q1, x, y) ==> in_todo(h1, Q1, y) == (y != w)
}
pub proof fn start_eq(h0: Heap, h: Heap, x: Addr)
    requires init_ok(h0, x), disp_eq(h0, h)
    ensures init_ok(h, x)
{ }
/// the empty term is the first answer
pub proof fn start_special(h0: Heap, h: Heap, x: Addr, Q: QV)
    requires init_ok(h0, x), disp_eq(h0, h), cfg_ok(Q), Q.pend == seq![x], Q.edges.len() == 0, Q.cur == 0, Q.inters.len() == 0, !Q.done, h0.DawgNode[h0.Intersection[x]._node]._is_final, Q.q.len() <= Q.n
    ensures begun(h0, x, h, Q), begun_with(h0, x, h, Q, seq![])
{
    start(h0, Q, x); start(h, Q, x); own_eq(h0, h, Q.inters); assert(Q.inters =~= seq![]);
    assert(ext(h0, h));
    let w: Seq<i8> = seq![];
    assert forall|y: Seq<i8>| #[trigger] matches(h0, Q, x, y) implies in_todo(h, Q, y) == (y != w) by { assert(matches(h, Q, x, y)); assert(in_todo(h, Q, y) == (y.len() > 0)); if y.len() == 0 { assert(y =~= w); } }
}
pub proof fn start_adv(h0: Heap, hc: Heap, h: Heap, x: Addr, Qc: QV, Q: QV)
    requires init_ok(h0, x), disp_eq(h0, hc), cfg_ok(Qc), Qc.pend == seq![x], Qc.edges.len() == 0, Qc.cur == 0, Qc.inters.len() == 0, adv_post(hc, Qc, h, Q), Q.done ==> finished(hc, Qc),
        !(h0.DawgNode[h0.Intersection[x]._node]._is_final && Qc.q.len() <= Qc.n)
    ensures begun(h0, x, h, Q)
{
    start(h0, Qc, x); start(hc, Qc, x); own_eq(h0, hc, Qc.inters); assert(Qc.inters =~= seq![]); others_trans(h0, seq![], hc, seq![], h, Q.inters); ext_trans(h0, hc, h);
    assert forall|w: Seq<i8>| Q.done implies !#[trigger] matches(h0, Q, x, w) by {
        if matches(h0, Q, x, w) { assert(matches(hc, Qc, x, w)); assert(!in_todo(hc, Qc, w)); assert(w.len() == 0); assert(w =~= seq![]); }
    }
}
pub proof fn start_with(h0: Heap, hc: Heap, h: Heap, x: Addr, Qc: QV, Q: QV, w: Seq<i8>)
    requires init_ok(h0, x), disp_eq(h0, hc), cfg_ok(Qc), Qc.pend == seq![x], Qc.edges.len() == 0, Qc.cur == 0, Qc.inters.len() == 0, same_cfg(Qc, Q), found(hc, Qc, h, Q, w),
        !(h0.DawgNode[h0.Intersection[x]._node]._is_final && Qc.q.len() <= Qc.n)
    ensures begun_with(h0, x, h, Q, w)
{
    start(hc, Qc, x);
    assert(matches(h0, Q, x, w));
    assert forall|y: Seq<i8>| #[trigger] matches(h0, Q, x, y) implies in_todo(h, Q, y) == (y != w) by { assert(matches(hc, Qc, x, y)); assert(in_todo(hc, Qc, y) == (y.len() > 0)); if y.len() == 0 { assert(y =~= seq![]); } }
}
/// the object iterations are compared with
pub open spec fn is_end(Q: QV) -> bool { Q.inters.len() == 0 && Q.pend.len() == 0 && Q.edges.len() == 0 && Q.cur == 0 && !Q.done }
/// what making the first intersection adds: itself, its state, the positions of that
pub open spec fn made(h0: Heap, h1: Heap, x: Addr) -> bool {
    let s = x_st(h1, x);
    &&& !h0.Intersection.contains_key(x) && h1.Intersection == h0.Intersection.insert(x, h1.Intersection[x])
    &&& !h0.State.contains_key(s) && s != 0 && h1.State == h0.State.insert(s, h1.State[s])
    &&& sub(h0.Position, h1.Position) && owns(h0.Position, h1.Position, st_lst(h1, s))
}
pub open spec fn unmade(h0: Heap, h1: Heap, x: Addr) -> bool {
    let s = x_st(h0, x);
    &&& h1.Intersection =~= h0.Intersection.remove(x) && h1.State =~= h0.State.remove(s) && h1.Position =~= h0.Position.remove_keys(st_lst(h0, s).to_set())
}
