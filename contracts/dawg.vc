@use node.vc measure0.rs reach.rs
@heap DawgNode Dawg TransStack: NodeMap: NodeSet:

@fn Dawg__contains_1(this_, term) -> r
@requires
    old(hp).Dawg.contains_key(this_), shallow(old(hp).DawgNode, old(hp).Dawg[this_]._root)
@ensures
    *final(hp) == *old(hp), r == lang(old(hp).DawgNode, old(hp).DawgNode[old(hp).Dawg[this_]._root], term@)
@at entry
    let ghost m = hp.DawgNode; let ghost R = hp.Dawg[this_]._root; let ghost k = choose|k: nat| #[trigger] node_ok(m, R, k) && k < 0x7fff_fffe;
    proof { assert(term@.subrange(0, term@.len() as int) =~= term@); }
@loop 0
invariant
    *hp == *old(hp), m == hp.DawgNode, R == hp.Dawg[this_]._root, 0 <= i <= term@.len(), node_ok(m, R, k), k < 0x7fff_fffe, i <= k + 1,
    node != 0 ==> i <= k && node_ok(m, node, (k - i) as nat),
    lang(m, m[R], term@) == (node != 0 && lang(m, m[node], term@.subrange(i as int, term@.len() as int))),
decreases term@.len() - i
@at loop 0 begin
    proof { let t = term@.subrange(i as int, term@.len() as int); assert(t[0] == term@[i as int]); assert(t.drop_first() =~= term@.subrange(i + 1, term@.len() as int)); assert(m[node]._edges@.contains_key(t[0]) ==> node_ok(m, m[node]._edges@[t[0]], (k - i - 1) as nat)); }
@end

@fn Dawg__all_nodes_0(this_) -> r
@requires
    old(hp).Dawg.contains_key(this_), exists|k: nat| node_ok(old(hp).DawgNode, old(hp).Dawg[this_]._root, k)
@ensures
    *final(hp) == *old(hp), forall|y: Addr| #[trigger] r@.contains(y) == reaches(old(hp).DawgNode, old(hp).Dawg[this_]._root, y)
@at entry
    let ghost m = hp.DawgNode; let ghost R = hp.Dawg[this_]._root; let ghost k = choose|k: nat| node_ok(m, R, k); let ghost mut lv: Seq<nat> = seq![k];
    proof { assert(walk(m, R, Seq::<i8>::empty()) == R); assert(seq![R][0] == R); }
@at loop 0 before
    proof { assert(pending@ =~= seq![R]); assert(pending@.contains(R)) by { assert(pending@[0] == R); } assert(reach_inv(m, R, nodes@, pending@, lv)); }
@loop 0
invariant
    *hp == *old(hp), m == hp.DawgNode, R == hp.Dawg[this_]._root, reach_inv(m, R, nodes@, pending@, lv),
decreases tot(wts(m, pending@, lv))
@at loop 0 begin
    let ghost q0 = pending@; let ghost l0 = lv; let ghost S0 = nodes@; let ghost x = q0[0]; let ghost M = m[x]._edges@; let ghost keys = map_order(M); let ghost kx = l0[0]; let ghost q1 = q0.drop_first(); let ghost t0 = tot(wts(m, q0, l0));
    proof { reach_pop(m, R, S0, q0, l0); axiom_map_order(M); lv = l0.drop_first(); assert(keys.take(0) =~= seq![]); }
@loop 1
invariant
    *hp == *old(hp), m == hp.DawgNode, R == hp.Dawg[this_]._root, __rng1@ == M, 0 <= __idx1 <= keys.len(), keys == map_order(M), M == m[x]._edges@, x == q0[0], node_ok(m, x, kx), q1 == q0.drop_first(), reach_inv(m, R, S0, q0, l0), q0.len() > 0, reaches(m, R, x),
    nodes@ == S0.insert(x), lvl_ok(m, pending@, lv), pending@.len() == q1.len() + __idx1, pending@.take(q1.len() as int) =~= q1, keys.len() > 0 ==> kx > 0,
    forall|j: int| 0 <= j < pending@.len() ==> reaches(m, R, #[trigger] pending@[j]),
    forall|j: int| 0 <= j < __idx1 ==> pending@[q1.len() + j] == M[#[trigger] keys[j]],
    tot(wts(m, pending@, lv)) == tot(wts(m, q1, l0.drop_first())) + wsum(m, M, keys.take(__idx1 as int), (kx - 1) as nat),
decreases keys.len() - __idx1
@at loop 1 begin
    let ghost qa = pending@; let ghost la = lv; let ghost cc = keys[__idx1 as int];
    proof {
        assert(M.contains_key(cc)); assert(node_ok(m, M[cc], (kx - 1) as nat)); reach_edge(m, R, x, cc); lv = lv.push((kx - 1) as nat);
        let qb = qa.push(M[cc]); assert(wts(m, qb, lv).drop_last() =~= wts(m, qa, la)); assert(wts(m, qb, lv).last() == wt(m, M[cc], (kx - 1) as nat));
        assert(keys.take(__idx1 + 1).drop_last() =~= keys.take(__idx1 as int)); assert(keys.take(__idx1 + 1).last() == cc);
        assert(qb.take(q1.len() as int) =~= qa.take(q1.len() as int));
    }
@at loop 1 after
    proof {
        assert(keys.take(keys.len() as int) =~= keys);
        reach_pop(m, R, S0, q0, l0); assert(tot(wts(m, pending@, lv)) == tot(wts(m, q1, l0.drop_first())) + wsum(m, M, keys, (kx - 1) as nat)); assert(tot(wts(m, pending@, lv)) < t0);
        wts_nonneg(m, pending@, lv);
        assert forall|y: Addr| #[trigger] q0.contains(y) implies y == x || pending@.contains(y) by { let j = q0.index_of(y); if j > 0 { assert(pending@.take(q1.len() as int)[j - 1] == y); assert(pending@[j - 1] == y); } }
        assert forall|y: Addr, c: i8| #![trigger nodes@.contains(y), m[y]._edges@[c]] nodes@.contains(y) && m[y]._edges@.contains_key(c) implies nodes@.contains(m[y]._edges@[c]) || pending@.contains(m[y]._edges@[c]) by {
            if y == x { let j = keys.index_of(c); assert(keys[j] == c); assert(pending@[q1.len() + j] == M[c]); }
        }
        if keys.len() == 0 { assert(pending@ =~= q1); }
    }
@at return
    proof {
        assert(!pending@.contains(R)) by { assert(pending@.len() == 0); }
        assert forall|y: Addr, c: i8| #![trigger __r@.contains(y), m[y]._edges@[c]] __r@.contains(y) && m[y]._edges@.contains_key(c) implies __r@.contains(m[y]._edges@[c]) by { if pending@.contains(m[y]._edges@[c]) { assert(pending@.len() > 0); } }
        assert forall|y: Addr| #[trigger] __r@.contains(y) == reaches(m, R, y) by { if reaches(m, R, y) { let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == y; reach_all(m, R, __r@, s); } }
    }
@end

@fn Dawg__eq_1(this_, other) -> r
@requires
    old(hp).Dawg.contains_key(this_), old(hp).Dawg.contains_key(other), shallow(old(hp).DawgNode, old(hp).Dawg[this_]._root), shallow(old(hp).DawgNode, old(hp).Dawg[other]._root)
@ensures
    *final(hp) == *old(hp),
    r == (old(hp).Dawg[this_]._size == old(hp).Dawg[other]._size && same(old(hp).DawgNode, old(hp).DawgNode[old(hp).Dawg[this_]._root], old(hp).DawgNode[old(hp).Dawg[other]._root]))
@end

@fn hash__Dawg__call_1(dawg) -> r
@requires
    old(hp).Dawg.contains_key(dawg), shallow(old(hp).DawgNode, old(hp).Dawg[dawg]._root)
@ensures
    *final(hp) == *old(hp), r == dawg_hash(old(hp).DawgNode, old(hp).Dawg[dawg])
@at entry
    let ghost m = hp.DawgNode; let ghost R = hp.Dawg[dawg]._root; let ghost kr = choose|k: nat| #[trigger] node_ok(m, R, k) && k < 0x7fff_fffe;
    proof { assert(node_ok(m, R, kr)); assert(obj_ok(m, m[R], kr)); NH_is(m, m[R], kr); }
@at return
    proof { assert(key@ =~= seq![NH(m, m[R])]); }
@end
@raw
pub open spec fn dawg_hash(m: DM, d: Dawg_o) -> u64 { murmur_words(seq![NH(m, m[d._root])], 1, murmur_words(seq![d._size], 1, 0xDEADBEEF)) }
/// the nodes x..: deleted
pub open spec fn without(m: DM, n: DM, P: spec_fn(Addr) -> bool) -> bool { forall|y: Addr| #![trigger n.contains_key(y)] #![trigger m.contains_key(y)] n.contains_key(y) == (m.contains_key(y) && !P(y)) && (n.contains_key(y) ==> n[y] == m[y]) }
// ---- the model of std::unordered_map with keys of a class that has an operator== and a std::hash:
// what the operator== and the hash are is what their contracts say (DawgNode__eq_1: same, hash__DawgNode__call_1: nh)
pub struct DawgNode_map_s { pub ent: Map<DawgNode_o, Addr>, pub hash: Map<DawgNode_o, u64> }
pub type DawgNode_map = Ghost<DawgNode_map_s>;
#[verifier::external_body]
pub fn DawgNode_map_new() -> (r: DawgNode_map) ensures r@.ent == Map::<DawgNode_o, Addr>::empty(), r@.hash == Map::<DawgNode_o, u64>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn DawgNode_map_end(m: DawgNode_map) -> (r: FIter<DawgNode_o, Addr>) ensures r@ == Option::<(DawgNode_o, Addr)>::None { unimplemented!() }
/// the table can be searched: every key can be compared and hashed, hashes as it did when it was inserted, equal keys hash alike
pub open spec fn table_ok(m: DM, t: DawgNode_map_s) -> bool {
    &&& t.hash.dom() == t.ent.dom()
    &&& forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> obj_rooted(m, o) && t.hash[o] == NH(m, o)
    &&& forall|o: DawgNode_o, p: DawgNode_o| #![trigger t.ent.contains_key(o), t.ent.contains_key(p)] t.ent.contains_key(o) && t.ent.contains_key(p) && same(m, o, p) ==> o == p
}
pub open spec fn key_ok(m: DM, t: DawgNode_map_s, k: DawgNode_o) -> bool { obj_rooted(m, k) && forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && same(m, o, k) ==> NH(m, o) == NH(m, k) }
#[verifier::external_body]
pub fn DawgNode_map_find(hp: &mut Heap, t: DawgNode_map, k: DawgNode_o) -> (r: FIter<DawgNode_o, Addr>)
    requires table_ok(old(hp).DawgNode, t@), key_ok(old(hp).DawgNode, t@, k)
    ensures *final(hp) == *old(hp), match r@ { Some(e) => t@.ent.contains_key(e.0) && t@.ent[e.0] == e.1 && same(old(hp).DawgNode, e.0, k), None => forall|o: DawgNode_o| #[trigger] t@.ent.contains_key(o) ==> !same(old(hp).DawgNode, o, k) } { unimplemented!() }
#[verifier::external_body]
pub fn DawgNode_map_put(hp: &mut Heap, t: &mut DawgNode_map, k: DawgNode_o, v: Addr)
    requires table_ok(old(hp).DawgNode, old(t)@), key_ok(old(hp).DawgNode, old(t)@, k)
    ensures *final(hp) == *old(hp),
        (forall|o: DawgNode_o| #[trigger] old(t)@.ent.contains_key(o) ==> !same(old(hp).DawgNode, o, k)) ==> final(t)@.ent == old(t)@.ent.insert(k, v) && final(t)@.hash == old(t)@.hash.insert(k, NH(old(hp).DawgNode, k)),
        forall|o: DawgNode_o| #[trigger] old(t)@.ent.contains_key(o) && same(old(hp).DawgNode, o, k) ==> final(t)@.ent == old(t)@.ent.insert(o, v) && final(t)@.hash == old(t)@.hash { unimplemented!() }
@endraw
