@use build.vc
@heap DawgNode Dawg TransStack: NodeMap: NodeSet:

@fn Dawg__dtor_0(this_)
@requires
    old(hp).Dawg.contains_key(this_), exists|k: nat| node_ok(old(hp).DawgNode, old(hp).Dawg[this_]._root, k)
@ensures
    *final(hp) =~= (Heap { DawgNode: final(hp).DawgNode, ..*old(hp) }), without(old(hp).DawgNode, final(hp).DawgNode, under(*old(hp), this_))
@at entry
    let ghost m = hp.DawgNode; let ghost R = hp.Dawg[this_]._root;
    proof { below_alloc(m, R); }
@at loop 0 before
    let ghost ord = set_order(__rng0@);
    proof { axiom_set_order(__rng0@); assert(ord.take(0) =~= seq![]); }
@loop 0
invariant
    *hp =~= (Heap { DawgNode: hp.DawgNode, ..*old(hp) }), m == old(hp).DawgNode, 0 <= __idx0 <= ord.len(), ord == set_order(__rng0@), ord.no_duplicates(), forall|y: Addr| #[trigger] __rng0@.contains(y) == reaches(m, R, y),
    forall|y: Addr| reaches(m, R, y) ==> #[trigger] m.contains_key(y),
    without(m, hp.DawgNode, |y: Addr| ord.take(__idx0 as int).contains(y)),
decreases ord.len() - __idx0
@at loop 0 begin
    proof { let y = ord[__idx0 as int]; assert(__rng0@.contains(y)); take_push(ord, __idx0 as int); assert(m.contains_key(y)); }
@at loop 0 after
    proof { assert(ord.take(ord.len() as int) =~= ord); let Q = |y: Addr| ord.take(__idx0 as int).contains(y); let P = under(*old(hp), this_); assert forall|y: Addr| #[trigger] P(y) == Q(y) by { assert(__rng0@.contains(y) == ord.contains(y)); } without_ext(m, hp.DawgNode, Q, P); }
@end

@fn SortedDawg__clean_up_0(this_)
@requires
    cells_ok(*old(hp), this_)
@ensures
    cleaned(*old(hp), *final(hp), this_)
@at entry
    let ghost m = hp.DawgNode; let ghost R = hp.Dawg[this_]._root; let ghost d0 = hp.Dawg[this_]; let ghost F = bF(*hp, this_); let ghost h0 = *hp;
    let ghost kk = choose|k: nat| node_ok(m, R, k);
    proof { if d0.floating_nodes != 0 { below_alloc(m, R); } }
@at before call Dawg__all_nodes_0
    proof { assert(hp.DawgNode == m); assert(hp.Dawg[this_]._root == R); assert(node_ok(hp.DawgNode, hp.Dawg[this_]._root, kk)); }
@at loop 0 before
    let ghost ord = set_order(__rng0@); let ghost h1 = *hp;
    proof { axiom_set_order(__rng0@); assert(ord.take(0) =~= seq![]); assert(h1.NodeSet =~= h0.NodeSet); }
@loop 0
invariant
    *hp =~= (Heap { NodeSet: hp.NodeSet, ..h1 }), hp.NodeSet =~= h0.NodeSet.insert(d0.floating_nodes, hp.NodeSet[d0.floating_nodes]), 0 <= __idx0 <= ord.len(), ord == set_order(__rng0@), forall|y: Addr| #[trigger] __rng0@.contains(y) == reaches(m, R, y),
    forall|y: Addr| #[trigger] hp.NodeSet[d0.floating_nodes]@.contains(y) == (F.contains(y) && !ord.take(__idx0 as int).contains(y)),
decreases ord.len() - __idx0
@at loop 0 begin
    proof { take_push(ord, __idx0 as int); }
@at loop 0 after
    proof { assert(ord.take(ord.len() as int) =~= ord); assert forall|y: Addr| #[trigger] hp.NodeSet[d0.floating_nodes]@.contains(y) == (F.contains(y) && !reaches(m, R, y)) by { assert(__rng0@.contains(y) == reaches(m, R, y)); } }
@at loop 1 before
    let ghost ord1 = set_order(__rng1@); let ghost h2 = *hp;
    proof { axiom_set_order(__rng1@); assert(ord1.take(0) =~= seq![]); }
@loop 1
invariant
    *hp =~= (Heap { DawgNode: hp.DawgNode, ..h2 }), 0 <= __idx1 <= ord1.len(), ord1 == set_order(__rng1@), ord1.no_duplicates(), __rng1@ == h2.NodeSet[d0.floating_nodes]@,
    without(m, hp.DawgNode, |y: Addr| ord1.take(__idx1 as int).contains(y)),
decreases ord1.len() - __idx1
@at loop 1 begin
    proof { let y = ord1[__idx1 as int]; assert(__rng1@.contains(y)); take_push(ord1, __idx1 as int); assert(m.contains_key(y)); }
@at loop 1 after
    proof { assert(ord1.take(ord1.len() as int) =~= ord1); let Q = |y: Addr| ord1.take(__idx1 as int).contains(y); let P = stray(h0, this_); assert forall|y: Addr| #[trigger] P(y) == Q(y) by { assert(__rng1@.contains(y) == ord1.contains(y)); } without_ext(m, hp.DawgNode, Q, P); }
@end

@fn SortedDawg__dtor_0(this_)
@requires
    cells_ok(*old(hp), this_), exists|k: nat| node_ok(old(hp).DawgNode, old(hp).Dawg[this_]._root, k)
@ensures
    gone(*old(hp), *final(hp), this_)
@at entry
    let ghost h0 = *hp; let ghost mut h1 = *hp;
@at after call SortedDawg__clean_up_0
    proof { h1 = *hp; cleaned_root(h0, h1, this_); }
@at return
    proof { let P = |y: Addr| stray(h0, this_)(y) || under(h0, this_)(y); assert forall|y: Addr| #[trigger] P(y) == (stray(h0, this_)(y) || under(h1, this_)(y)) by { } without_two(h0.DawgNode, h1.DawgNode, hp.DawgNode, stray(h0, this_), under(h1, this_), P); }
@end
@raw
pub proof fn take_push<T>(q: Seq<T>, i: int)
    requires 0 <= i < q.len()
    ensures q.take(i + 1) == q.take(i).push(q[i]), forall|y: T| #[trigger] q.take(i + 1).contains(y) == (q.take(i).contains(y) || y == q[i]), q.no_duplicates() ==> !q.take(i).contains(q[i])
{
    assert(q.take(i + 1) =~= q.take(i).push(q[i]));
    assert forall|y: T| #[trigger] q.take(i + 1).contains(y) == (q.take(i).contains(y) || y == q[i]) by {
        if q.take(i + 1).contains(y) { let j = choose|j: int| 0 <= j < i + 1 && #[trigger] q.take(i + 1)[j] == y; if j < i { assert(q.take(i)[j] == y); } }
        if q.take(i).contains(y) { let j = choose|j: int| 0 <= j < i && #[trigger] q.take(i)[j] == y; assert(q.take(i + 1)[j] == y); }
        assert(q.take(i + 1)[i] == q[i]);
    }
    if q.no_duplicates() && q.take(i).contains(q[i]) { let j = choose|j: int| 0 <= j < i && #[trigger] q.take(i)[j] == q[i]; assert(q[j] == q[i]); }
}
/// the nodes of the dictionary
pub open spec fn under(h: Heap, d: Addr) -> spec_fn(Addr) -> bool { |y: Addr| reaches(h.DawgNode, h.Dawg[d]._root, y) }
pub proof fn below_alloc(m: DM, R: Addr)
    requires exists|k: nat| node_ok(m, R, k)
    ensures forall|y: Addr| reaches(m, R, y) ==> #[trigger] m.contains_key(y)
{ let k = choose|k: nat| node_ok(m, R, k); assert forall|y: Addr| reaches(m, R, y) implies #[trigger] m.contains_key(y) by { let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == y; reach_ok(m, R, k, s); } }
/// what a dictionary keeps while it is built, if anything
pub open spec fn cells_ok(h: Heap, d: Addr) -> bool {
    let o = h.Dawg[d];
    &&& h.Dawg.contains_key(d) && (o.unchecked_transitions != 0 ==> h.TransStack.contains_key(o.unchecked_transitions)) && (o.minimized_nodes != 0 ==> h.NodeMap.contains_key(o.minimized_nodes)) && (o.floating_nodes != 0 ==> h.NodeSet.contains_key(o.floating_nodes))
    &&& o.floating_nodes != 0 ==> (exists|k: nat| node_ok(h.DawgNode, o._root, k)) && !bF(h, d).contains(0) && forall|y: Addr| #[trigger] bF(h, d).contains(y) ==> h.DawgNode.contains_key(y)
}
pub open spec fn no_cells(h0: Heap, h1: Heap, d: Addr) -> bool {
    let o = h0.Dawg[d];
    &&& h1.Dawg =~= h0.Dawg.insert(d, Dawg_o { unchecked_transitions: 0, minimized_nodes: 0, floating_nodes: 0, ..o })
    &&& h1 == (Heap { DawgNode: h1.DawgNode, Dawg: h1.Dawg, TransStack: h1.TransStack, NodeMap: h1.NodeMap, NodeSet: h1.NodeSet, ..h0 })
    &&& h1.TransStack =~= (if o.unchecked_transitions != 0 { h0.TransStack.remove(o.unchecked_transitions) } else { h0.TransStack })
    &&& h1.NodeMap =~= (if o.minimized_nodes != 0 { h0.NodeMap.remove(o.minimized_nodes) } else { h0.NodeMap })
    &&& h1.NodeSet =~= (if o.floating_nodes != 0 { h0.NodeSet.remove(o.floating_nodes) } else { h0.NodeSet })
}
pub open spec fn stray(h: Heap, d: Addr) -> spec_fn(Addr) -> bool { |y: Addr| h.Dawg[d].floating_nodes != 0 && bF(h, d).contains(y) && !reaches(h.DawgNode, h.Dawg[d]._root, y) }
pub open spec fn cleaned(h0: Heap, h1: Heap, d: Addr) -> bool { no_cells(h0, h1, d) && without(h0.DawgNode, h1.DawgNode, stray(h0, d)) }
/// the object itself is left to be deallocated; its nodes and what it kept while it was built are gone
pub open spec fn gone(h0: Heap, h1: Heap, d: Addr) -> bool { no_cells(h0, h1, d) && without(h0.DawgNode, h1.DawgNode, |y: Addr| stray(h0, d)(y) || under(h0, d)(y)) }
pub proof fn reach_closed(m: DM, R: Addr)
    requires exists|k: nat| node_ok(m, R, k)
    ensures closed(m, |y: Addr| reaches(m, R, y)), reaches(m, R, R)
{
    let k = choose|k: nat| node_ok(m, R, k); assert(walk(m, R, Seq::<i8>::empty()) == R);
    assert forall|x: Addr| #[trigger] reaches(m, R, x) implies x != 0 && m.contains_key(x) && forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) ==> reaches(m, R, m[x]._edges@[c]) by {
        let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == x; reach_ok(m, R, k, s);
        assert forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) implies reaches(m, R, m[x]._edges@[c]) by { let j = (k - s.len()) as nat; assert(node_ok(m, x, j)); assert(node_ok(m, m[x]._edges@[c], (j - 1) as nat)); assert(m[x]._edges@[c] != 0); reach_edge(m, R, x, c); }
    }
}
pub proof fn reach_frame(m: DM, n: DM, R: Addr)
    requires exists|k: nat| node_ok(m, R, k), agree(m, n, |y: Addr| reaches(m, R, y))
    ensures forall|y: Addr| reaches(n, R, y) == reaches(m, R, y), forall|k: nat| node_ok(m, R, k) ==> node_ok(n, R, k)
{
    let P: P1 = |y: Addr| reaches(m, R, y); reach_closed(m, R); assert(P(R));
    assert forall|y: Addr| reaches(n, R, y) == reaches(m, R, y) by {
        if reaches(n, R, y) { let s = choose|s: Seq<i8>| #[trigger] walk(n, R, s) == y; fr_walk(m, n, P, R, s); assert(walk(m, R, s) == y); }
        if reaches(m, R, y) { let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == y; fr_walk(m, n, P, R, s); assert(walk(n, R, s) == y); }
    }
    assert forall|k: nat| node_ok(m, R, k) implies node_ok(n, R, k) by { fr_ok(m, n, P, R, k); }
}
pub proof fn cleaned_root(h0: Heap, h1: Heap, d: Addr)
    requires cleaned(h0, h1, d), exists|k: nat| node_ok(h0.DawgNode, h0.Dawg[d]._root, k)
    ensures agree(h0.DawgNode, h1.DawgNode, under(h0, d)), h1.Dawg[d]._root == h0.Dawg[d]._root, exists|k: nat| node_ok(h1.DawgNode, h1.Dawg[d]._root, k), forall|y: Addr| reaches(h1.DawgNode, h1.Dawg[d]._root, y) == reaches(h0.DawgNode, h0.Dawg[d]._root, y)
{
    let m = h0.DawgNode; let n = h1.DawgNode; let R = h0.Dawg[d]._root; below_alloc(m, R);
    assert(h1.Dawg[d]._root == R);
    assert forall|y: Addr| #[trigger] under(h0, d)(y) implies n.contains_key(y) && n[y] == m[y] by { assert(m.contains_key(y)); assert(!stray(h0, d)(y)); }
    assert(agree(m, n, |y: Addr| reaches(m, R, y)));
    reach_frame(m, n, R);
}
pub proof fn without_ext(m: DM, n: DM, Q: spec_fn(Addr) -> bool, P: spec_fn(Addr) -> bool)
    requires without(m, n, Q), forall|y: Addr| #[trigger] P(y) == Q(y)
    ensures without(m, n, P)
{ assert forall|y: Addr| #![trigger n.contains_key(y)] #![trigger m.contains_key(y)] n.contains_key(y) == (m.contains_key(y) && !P(y)) && (n.contains_key(y) ==> n[y] == m[y]) by { assert(P(y) == Q(y)); } }
pub proof fn without_two(m: DM, n: DM, l: DM, P: spec_fn(Addr) -> bool, Q: spec_fn(Addr) -> bool, PQ: spec_fn(Addr) -> bool)
    requires without(m, n, P), without(n, l, Q), forall|y: Addr| #[trigger] PQ(y) == (P(y) || Q(y))
    ensures without(m, l, PQ)
{ assert forall|y: Addr| #![trigger l.contains_key(y)] #![trigger m.contains_key(y)] l.contains_key(y) == (m.contains_key(y) && !PQ(y)) && (l.contains_key(y) ==> l[y] == m[y]) by { assert(PQ(y) == (P(y) || Q(y))); assert(n.contains_key(y) == (m.contains_key(y) && !P(y))); } }
@endraw
