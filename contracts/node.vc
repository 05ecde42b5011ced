@use dict.rs dawg.rs
@heap DawgNode

@fn DawgNode__eq_1(this_, other) -> r
@requires
    exists|k: nat| node_ok(old(hp).DawgNode, this_, k), exists|k: nat| node_ok(old(hp).DawgNode, other, k)
@ensures
    *final(hp) == *old(hp), r == same(old(hp).DawgNode, old(hp).DawgNode[this_], old(hp).DawgNode[other])
@decreases hgt(hp.DawgNode, this_)
@at entry
    let ghost m = hp.DawgNode; let ghost a = m[this_]; let ghost b = m[other];
    let ghost ka = choose|k: nat| node_ok(m, this_, k); let ghost kb = choose|k: nat| node_ok(m, other, k);
    proof { same_step(m, a, b); axiom_map_order(a._edges@); assert(node_ok(m, this_, ka)); assert(node_ok(m, other, kb)); }
@loop 0
invariant
    *hp == *old(hp), m == hp.DawgNode, a == m[this_], b == m[other], node_ok(m, this_, ka), node_ok(m, other, kb), a._is_final == b._is_final, a._edges@.dom().len() == b._edges@.dom().len(), __rng0@ == a._edges@, 0 <= __idx0 <= map_order(a._edges@).len(),
    forall|i: int| 0 <= i < __idx0 ==> b._edges@.contains_key(#[trigger] map_order(a._edges@)[i]) && same_at(m, a, b, map_order(a._edges@)[i]),
decreases map_order(a._edges@).len() - __idx0
@at loop 0 begin
    proof { let c = map_order(a._edges@)[__idx0 as int]; assert(a._edges@.contains_key(c)); hgt_edge(m, this_, c, ka); same_step(m, a, b); axiom_map_order(a._edges@); assert(a._edges@[c] == a._edges@[c]); assert(b._edges@.contains_key(c) ==> node_ok(m, b._edges@[c], (kb - 1) as nat)); }
@at loop 0 after
    proof {
        axiom_map_order(a._edges@);
        assert forall|c: i8| #[trigger] a._edges@.contains_key(c) implies b._edges@.contains_key(c) && same_at(m, a, b, c) by { let i = map_order(a._edges@).index_of(c); assert(map_order(a._edges@)[i] == c); }
        sub_eq(a._edges@.dom(), b._edges@.dom());
        same_step(m, a, b);
    }
@end

@fn hash__DawgNode__call_1(node) -> r
@requires
    exists|k: nat| node_ok(old(hp).DawgNode, node, k)
@ensures
    *final(hp) == *old(hp), forall|k: nat| node_ok(old(hp).DawgNode, node, k) ==> r == #[trigger] nh(old(hp).DawgNode, old(hp).DawgNode[node], k)
@decreases hgt(hp.DawgNode, node)
@at entry
    let ghost m = hp.DawgNode; let ghost M = m[node]._edges@; let ghost K = map_order(M); let ghost ka = choose|k: nat| node_ok(m, node, k);
    proof { axiom_map_order(M); assert(node_ok(m, node, ka)); assert(K.take(0) =~= seq![]); }
@loop 0
invariant
    *hp == *old(hp), m == hp.DawgNode, M == m[node]._edges@, K == map_order(M), node_ok(m, node, ka), __rng0@ == M, 0 <= __idx0 <= K.len(), key@.len() == 1,
    forall|k: nat| #[trigger] node_ok(m, node, k) ==> hash_code == nfold(m, M, K.take(__idx0 as int), k),
decreases K.len() - __idx0
@at loop 0 begin
    let ghost c = K[__idx0 as int]; let ghost h0 = hash_code;
    proof { assert(key@.update(0, uch(c) as u64) =~= seq![uch(c) as u64]); assert(M.contains_key(c)); hgt_edge(m, node, c, ka); axiom_map_order(M); assert(K.take(__idx0 + 1).drop_last() =~= K.take(__idx0 as int)); assert(K.take(__idx0 + 1).last() == c); }
@at loop 0 end
    proof {
        assert forall|k: nat| #[trigger] node_ok(m, node, k) implies hash_code == nfold(m, M, K.take(__idx0 as int), k) by {
            assert(M.contains_key(c)); assert(node_ok(m, M[c], (k - 1) as nat)); assert(key@ =~= seq![nh(m, m[M[c]], (k - 1) as nat)]);
        }
    }
@at loop 0 after
    proof { assert(K.take(K.len() as int) =~= K); }
@at return
    proof { assert(key@ =~= seq![b2(m[node]._is_final)]); }
@end
@raw
pub proof fn sub_eq(a: Set<i8>, b: Set<i8>)
    requires forall|c: i8| #[trigger] a.contains(c) ==> b.contains(c), a.len() == b.len()
    ensures a =~= b
    decreases a.len()
{
    if a.len() == 0 { assert forall|c: i8| a.contains(c) == b.contains(c) by { if b.contains(c) { assert(b.remove(c).len() < b.len()); } } }
    else { let c = a.choose(); assert(a.contains(c)); sub_eq(a.remove(c), b.remove(c)); assert forall|d: i8| a.contains(d) == b.contains(d) by { assert(a.remove(c).contains(d) == b.remove(c).contains(d)); } }
}
@endraw
