pub open spec fn rk(h: Heap, T: Addr) -> nat { choose|k: nat| node_ok(h.DawgNode, h.Intersection[T]._node, k) && k < 0x4000_0000_0000_0000 }
pub open spec fn left(h: Heap, T: Addr, p: Seq<i8>) -> nat { (rk(h, T) - p.len()) as nat }
pub open spec fn ewts(h: Heap, Q: QV, T: Addr) -> Seq<int> { Seq::new(Q.edges.len(), |j: int| 2int * wt(h.DawgNode, Q.edges[j].1, left(h, T, estr(h, Q, j)))) }
pub open spec fn pwts(h: Heap, Q: QV, T: Addr) -> Seq<int> { Seq::new(Q.pend.len(), |j: int| 2int * wt(h.DawgNode, h.Intersection[Q.pend[j]]._node, left(h, T, pth(h, Q.pend[j]))) - 1) }
pub open spec fn mu(h: Heap, Q: QV, T: Addr) -> int { tot(ewts(h, Q, T)) + tot(pwts(h, Q, T)) }
pub proof fn wt_pos(m: DM, x: Addr, k: nat) ensures wt(m, x, k) >= 1 { }
pub proof fn mu_nonneg(h: Heap, Q: QV, T: Addr)
    ensures mu(h, Q, T) >= 0
{
    assert forall|j: int| 0 <= j < Q.pend.len() implies #[trigger] pwts(h, Q, T)[j] >= 0 by { wt_pos(h.DawgNode, h.Intersection[Q.pend[j]]._node, left(h, T, pth(h, Q.pend[j]))); }
    tot_nonneg(ewts(h, Q, T)); tot_nonneg(pwts(h, Q, T));
}
pub proof fn mu_ext(h: Heap, h2: Heap, Q: QV, T: Addr)
    requires inv(h, Q, T), ext(h, h2)
    ensures mu(h2, Q, T) == mu(h, Q, T)
{
    assert forall|j: int| 0 <= j < Q.pend.len() implies pth(h2, #[trigger] Q.pend[j]) == pth(h, Q.pend[j]) && h2.Intersection[Q.pend[j]] == h.Intersection[Q.pend[j]] by { live_ext(h, h2, Q, Q, T, Q.pend[j]); }
    if Q.cur != 0 { live_ext(h, h2, Q, Q, T, Q.cur); }
    assert(ewts(h2, Q, T) =~= ewts(h, Q, T)); assert(pwts(h2, Q, T) =~= pwts(h, Q, T));
}
/// taking up an intersection: its node's walks give way to those of the children
pub proof fn mu_expand(h: Heap, Q: QV, R: QV, T: Addr)
    requires inv(h, Q, T), Q.edges.len() == 0, Q.pend.len() > 0, R.pend == Q.pend.drop_first(), R.cur == Q.pend[0],
        ({ let M = h.DawgNode[h.Intersection[R.cur]._node]._edges@; let keys = map_order(M); R.edges.len() == keys.len() && (forall|j: int| 0 <= j < keys.len() ==> (#[trigger] R.edges[j]) == (keys[j], M[keys[j]])) })
    ensures mu(h, R, T) < mu(h, Q, T)
{
    let x = R.cur; let p = pth(h, x); let k = left(h, T, p); let D = h.DawgNode; let M = D[h.Intersection[x]._node]._edges@; let keys = map_order(M);
    assert(live(h, Q, T, x));
    assert(ewts(h, Q, T) =~= seq![]); tot_front(pwts(h, Q, T)); assert(pwts(h, Q, T).drop_first() =~= pwts(h, R, T));
    walk_bound(D, h.Intersection[T]._node, rk(h, T), p);
    if keys.len() > 0 { axiom_map_order(M); assert(M.contains_key(keys[0])); assert(k > 0);
        wsum_tot(D, M, keys, (k - 1) as nat);
        assert forall|j: int| 0 <= j < keys.len() implies #[trigger] ewts(h, R, T)[j] == 2 * wt(D, M[keys[j]], (k - 1) as nat) by { assert(R.edges[j] == (keys[j], M[keys[j]])); assert(left(h, T, estr(h, R, j)) == k - 1); }
        assert(ewts(h, R, T) =~= Seq::new(keys.len(), |j: int| 2int * wt(D, M[keys[j]], (k - 1) as nat)));
    } else { assert(ewts(h, R, T) =~= seq![]); }
}
pub proof fn mu_pop(h: Heap, Q: QV, R: QV, T: Addr)
    requires popped(Q, R)
    ensures mu(h, R, T) == mu(h, Q, T) - 2 * wt(h.DawgNode, Q.edges[0].1, left(h, T, estr(h, Q, 0))), mu(h, R, T) < mu(h, Q, T)
{
    wt_pos(h.DawgNode, Q.edges[0].1, left(h, T, estr(h, Q, 0)));
    tot_front(ewts(h, Q, T)); assert(ewts(h, Q, T).drop_first() =~= ewts(h, R, T)); assert(pwts(h, Q, T) =~= pwts(h, R, T));
}
pub proof fn mu_push(h: Heap, Q: QV, R: QV, T: Addr, x: Addr)
    requires R.pend == Q.pend.push(x), R.cur == Q.cur, R.edges == Q.edges
    ensures mu(h, R, T) == mu(h, Q, T) + 2 * wt(h.DawgNode, h.Intersection[x]._node, left(h, T, pth(h, x))) - 1
{ assert(ewts(h, Q, T) =~= ewts(h, R, T)); assert(pwts(h, R, T).drop_last() =~= pwts(h, Q, T)); }
