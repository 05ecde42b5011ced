@use clean.vc built.rs
@heap DawgNode Dawg TransStack: NodeMap: NodeSet:

@fn SortedDawg__ctor_0() -> r
@ensures
    blank(*old(hp), *final(hp), r),
@end
@fn SortedDawg__init_0(this_)
@requires
    old(hp).Dawg.contains_key(this_)
@ensures
    opened(*old(hp), *final(hp), this_),
@end
@raw
/// a dictionary with a root and nothing else
pub open spec fn blank(h0: Heap, h: Heap, r: Addr) -> bool {
    let o = h.Dawg[r]; let R = o._root;
    &&& r != 0 && !h0.Dawg.contains_key(r) && R != 0 && !h0.DawgNode.contains_key(R) && h =~= (Heap { DawgNode: h0.DawgNode.insert(R, h.DawgNode[R]), Dawg: h0.Dawg.insert(r, o), ..h0 })
    &&& h.DawgNode[R]._edges@ == Map::<i8, Addr>::empty() && !h.DawgNode[R]._is_final && o._size == 0 && o.unchecked_transitions == 0 && o.minimized_nodes == 0 && o.floating_nodes == 0 && o._prev_term@ =~= Seq::<i8>::empty()
}
/// it is ready for terms
pub open spec fn opened(h0: Heap, h: Heap, d: Addr) -> bool {
    let o = h.Dawg[d];
    &&& o == (Dawg_o { unchecked_transitions: o.unchecked_transitions, minimized_nodes: o.minimized_nodes, floating_nodes: o.floating_nodes, ..h0.Dawg[d] }) && o.unchecked_transitions != 0 && o.minimized_nodes != 0 && o.floating_nodes != 0
    &&& !h0.TransStack.contains_key(o.unchecked_transitions) && !h0.NodeMap.contains_key(o.minimized_nodes) && !h0.NodeSet.contains_key(o.floating_nodes)
    &&& h =~= (Heap { Dawg: h0.Dawg.insert(d, o), TransStack: h0.TransStack.insert(o.unchecked_transitions, h.TransStack[o.unchecked_transitions]), NodeMap: h0.NodeMap.insert(o.minimized_nodes, h.NodeMap[o.minimized_nodes]), NodeSet: h0.NodeSet.insert(o.floating_nodes, h.NodeSet[o.floating_nodes]), ..h0 })
    &&& h.TransStack[o.unchecked_transitions]@ =~= Seq::empty() && h.NodeMap[o.minimized_nodes]@.ent == Map::<DawgNode_o, Addr>::empty() && h.NodeMap[o.minimized_nodes]@.hash == Map::<DawgNode_o, u64>::empty() && h.NodeSet[o.floating_nodes]@ =~= Set::empty()
}
pub proof fn part_none(h0: Heap, h1: Heap, h: Heap, d: Addr)
    requires blank(h0, h1, d), opened(h1, h, d)
    ensures part(h0, h, d, seq![])
{
    let R = bR(h, d); init_built(h.DawgNode, R, bt(h, d)); assert(bU(h, d) =~= Seq::empty()); assert(bF(h, d) =~= Set::empty()); assert(h.Dawg[d]._prev_term@ =~= Seq::empty()); assert(top_alive(h.DawgNode, R, bU(h, d))) by { reveal(top_alive); }
    assert(h.Dawg =~= h0.Dawg.insert(d, h.Dawg[d]));
    assert forall|s: Seq<i8>| #[trigger] bterm(h, d, s) == listed(seq![], s) by { }
}
@endraw
@fn sorted_dawg__veciter_2(iter, end) -> r
@hide dict_ok, clang, b_ok, top_alive, lang, node_ok
@requires
    iter.seq@ == end.seq@, 0 <= iter.pos@ <= end.pos@ <= iter.seq@.len(), end.pos@ - iter.pos@ < u64::MAX, forall|i: int| 0 <= i < iter.seq@.len() ==> (#[trigger] iter.seq@[i])@.len() <= KM()
@ensures
    (r == 0) == !ascending(iter.seq@.subrange(iter.pos@, end.pos@)),
    r == 0 ==> *final(hp) =~= *old(hp),
    r != 0 ==> built(*old(hp), *final(hp), r, iter.seq@.subrange(iter.pos@, end.pos@)),
@at entry
    let ghost ts = iter.seq@.subrange(iter.pos@, end.pos@); let ghost h0 = *hp; let ghost p0 = iter.pos@; let ghost s0 = iter.seq@; let ghost mut h3 = *hp; let ghost mut hk = *hp; let ghost mut j = 0int;
@at before call SortedDawg__init_0
    proof { hk = *hp; }
@at loop 0 before
    proof { part_none(h0, hk, *hp, dawg); assert(ts.take(0) =~= seq![]); }
@loop 0
invariant
    iter.seq@ == s0, end.seq@ == s0, p0 <= iter.pos@ <= end.pos@ <= s0.len(), dawg != 0, part(h0, *hp, dawg, ts.take(iter.pos@ - p0)), asc_to(ts, iter.pos@ - p0)
decreases end.pos@ - iter.pos@
@at loop 0 begin
    let ghost h1 = *hp;
    proof { j = iter.pos@ - p0; assert(ts[j] == s0[iter.pos@]); root_below(hp.DawgNode, bR(*hp, dawg), bU(*hp, dawg), bt(*hp, dawg), bF(*hp, dawg), hp.Dawg[dawg]._prev_term@); b_basic(hp.DawgNode, bR(*hp, dawg), bU(*hp, dawg), bt(*hp, dawg), bF(*hp, dawg), hp.Dawg[dawg]._prev_term@); }
@at before call SortedDawg__dtor_0
    proof { lex_empty(term@); part_below(h0, *hp, dawg, ts.take(j)); }
@at loop 0 end
    proof { assert(ts.take(j + 1) =~= ts.take(j).push(ts[j])); part_next(h0, h1, *hp, dawg, ts.take(j), ts[j]); assert(asc_to(ts, j + 1)) by { if j > 0 { assert(ts.take(j)[j - 1] == ts[j - 1]); } } }
@at loop 0 after
    let ghost h2 = *hp;
    proof { assert(ts.take(iter.pos@ - p0) =~= ts); }
@at after call SortedDawg__finish_0
    proof { h3 = *hp; part_done(h0, h2, h3, dawg, ts); }
@at return
    proof { if __r != 0 { clean_done(h0, h3, *hp, dawg, ts); } else { assert(ts.take(j)[j - 1] == ts[j - 1]); } }
@end
@same sorted_dawg__listiter_2 = sorted_dawg__veciter_2
@same sorted_dawg__treeiter_2 = sorted_dawg__veciter_2
@fn SortedDawg__finish_0(this_)
@requires
    building(*old(hp), this_), top_alive(old(hp).DawgNode, bR(*old(hp), this_), bU(*old(hp), this_)),
@ensures
    *final(hp) =~= (Heap { DawgNode: final(hp).DawgNode, TransStack: old(hp).TransStack.insert(old(hp).Dawg[this_].unchecked_transitions, final(hp).TransStack[old(hp).Dawg[this_].unchecked_transitions]), NodeMap: old(hp).NodeMap.insert(old(hp).Dawg[this_].minimized_nodes, final(hp).NodeMap[old(hp).Dawg[this_].minimized_nodes]), ..*old(hp) }),
    building(*final(hp), this_), bU(*final(hp), this_).len() == 0,
    only_mine(*old(hp), *final(hp), this_), final(hp).DawgNode.dom() =~= old(hp).DawgNode.dom(), same_terms(*old(hp), *final(hp), this_)
@end
@raw
/// r is a new dictionary of exactly these terms; everything else is as it was
pub open spec fn built(h0: Heap, h1: Heap, r: Addr, ts: Seq<Str>) -> bool {
    let o = h1.Dawg[r]; let R = o._root; let m = h1.DawgNode;
    &&& !h0.Dawg.contains_key(r) && h1.Dawg =~= h0.Dawg.insert(r, o) && h1 =~= (Heap { DawgNode: m, Dawg: h1.Dawg, ..h0 })
    &&& o.unchecked_transitions == 0 && o.minimized_nodes == 0 && o.floating_nodes == 0 && o._size == ts.len()
    &&& dict_ok(m, R) && forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == listed(ts, s)
    &&& forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) ==> m.contains_key(y) && m[y] == h0.DawgNode[y] && !reaches(m, R, y)
    &&& forall|y: Addr| #[trigger] m.contains_key(y) ==> h0.DawgNode.contains_key(y) || reaches(m, R, y)
}
pub open spec fn asc_to(ts: Seq<Str>, j: int) -> bool { forall|i: int| 0 < i < j ==> !lex_lt((#[trigger] ts[i])@, ts[i - 1]@) }
/// some of the terms are in
pub open spec fn part(h0: Heap, h: Heap, d: Addr, ts: Seq<Str>) -> bool {
    let o = h.Dawg[d]; let R = o._root; let m = h.DawgNode;
    &&& building(h, d) && top_alive(m, R, bU(h, d)) && bU(h, d).len() == o._prev_term@.len() && o._prev_term@ == (if ts.len() == 0 { Seq::empty() } else { ts.last()@ }) && o._size == ts.len()
    &&& !h0.Dawg.contains_key(d) && !h0.TransStack.contains_key(o.unchecked_transitions) && !h0.NodeMap.contains_key(o.minimized_nodes) && !h0.NodeSet.contains_key(o.floating_nodes)
    &&& h =~= (Heap { DawgNode: m, Dawg: h0.Dawg.insert(d, o), TransStack: h0.TransStack.insert(o.unchecked_transitions, h.TransStack[o.unchecked_transitions]), NodeMap: h0.NodeMap.insert(o.minimized_nodes, h.NodeMap[o.minimized_nodes]), NodeSet: h0.NodeSet.insert(o.floating_nodes, h.NodeSet[o.floating_nodes]), ..h0 })
    &&& forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) ==> m.contains_key(y) && m[y] == h0.DawgNode[y] && y != R && !bF(h, d).contains(y)
    &&& forall|y: Addr| #[trigger] m.contains_key(y) ==> h0.DawgNode.contains_key(y) || y == R || bF(h, d).contains(y)
    &&& forall|s: Seq<i8>| #[trigger] bterm(h, d, s) == listed(ts, s)
}
pub proof fn lex_empty(s: Seq<i8>) ensures !lex_lt(s, Seq::empty()) { if s.len() == 0 { assert(s =~= Seq::empty()); } lex_pre(s, Seq::empty(), 0); }
/// what is reached from the root are nodes of this dictionary
pub proof fn part_below(h0: Heap, h: Heap, d: Addr, ts: Seq<Str>)
    requires part(h0, h, d, ts)
    ensures cells_ok(h, d), exists|k: nat| node_ok(h.DawgNode, bR(h, d), k), forall|y: Addr| #[trigger] reaches(h.DawgNode, bR(h, d), y) ==> y == bR(h, d) || bF(h, d).contains(y), reaches(h.DawgNode, bR(h, d), bR(h, d)), bR(h, d) != 0
{
    let m = h.DawgNode; let R = bR(h, d); root_below(m, R, bU(h, d), bt(h, d), bF(h, d), h.Dawg[d]._prev_term@); b_basic(m, R, bU(h, d), bt(h, d), bF(h, d), h.Dawg[d]._prev_term@);
    assert(node_ok(m, R, KM()));
}
pub proof fn listed_push(ts: Seq<Str>, t: Str, s: Seq<i8>)
    ensures listed(ts.push(t), s) == (listed(ts, s) || s == t@)
{
    let q = ts.push(t);
    if listed(q, s) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i])@ == s; if i < ts.len() { assert(ts[i]@ == s); } }
    if listed(ts, s) { let i = choose|i: int| 0 <= i < ts.len() && (#[trigger] ts[i])@ == s; assert(q[i]@ == s); }
    if s == t@ { assert(q[ts.len() as int]@ == s); }
}
pub proof fn part_next(h0: Heap, h1: Heap, h: Heap, d: Addr, ts: Seq<Str>, t: Str)
    requires part(h0, h1, d, ts), h1.Dawg[d]._size < u64::MAX,
        only_cells(h1, h, d), h.Dawg == h1.Dawg.insert(d, Dawg_o { _prev_term: t, _size: (h1.Dawg[d]._size + 1) as u64, ..h1.Dawg[d] }),
        building(h, d), top_alive(h.DawgNode, bR(h, d), bU(h, d)), bU(h, d).len() == t@.len(), only_mine(h1, h, d), added_nodes(h1, h, d),
        forall|s: Seq<i8>| #[trigger] bterm(h, d, s) == (bterm(h1, d, s) || s == t@)
    ensures part(h0, h, d, ts.push(t))
{
    hide(b_ok); hide(top_alive); hide(clang);
    assert forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) implies h.DawgNode.contains_key(y) && h.DawgNode[y] == h0.DawgNode[y] && y != bR(h, d) && !bF(h, d).contains(y) by { assert(h1.DawgNode.contains_key(y)); assert(!mine(h1, d, y)); assert(h.DawgNode[y] == h1.DawgNode[y]); }
    assert forall|y: Addr| #[trigger] h.DawgNode.contains_key(y) implies h0.DawgNode.contains_key(y) || y == bR(h, d) || bF(h, d).contains(y) by { if h1.DawgNode.contains_key(y) { } }
    assert forall|s: Seq<i8>| #[trigger] bterm(h, d, s) == listed(ts.push(t), s) by { listed_push(ts, t, s); assert(bterm(h1, d, s) == listed(ts, s)); }
    assert(h.Dawg =~= h0.Dawg.insert(d, h.Dawg[d]));
}
/// the open path is closed
pub open spec fn whole(h0: Heap, h: Heap, d: Addr, ts: Seq<Str>) -> bool {
    let o = h.Dawg[d]; let R = o._root; let m = h.DawgNode;
    &&& cells_ok(h, d) && o.unchecked_transitions != 0 && o.minimized_nodes != 0 && o.floating_nodes != 0 && o._size == ts.len() && dict_ok(m, R)
    &&& !h0.Dawg.contains_key(d) && !h0.TransStack.contains_key(o.unchecked_transitions) && !h0.NodeMap.contains_key(o.minimized_nodes) && !h0.NodeSet.contains_key(o.floating_nodes)
    &&& h =~= (Heap { DawgNode: m, Dawg: h0.Dawg.insert(d, o), TransStack: h0.TransStack.insert(o.unchecked_transitions, h.TransStack[o.unchecked_transitions]), NodeMap: h0.NodeMap.insert(o.minimized_nodes, h.NodeMap[o.minimized_nodes]), NodeSet: h0.NodeSet.insert(o.floating_nodes, h.NodeSet[o.floating_nodes]), ..h0 })
    &&& forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) ==> m.contains_key(y) && m[y] == h0.DawgNode[y] && !bF(h, d).contains(y) && !reaches(m, R, y)
    &&& forall|y: Addr| #[trigger] m.contains_key(y) ==> h0.DawgNode.contains_key(y) || reaches(m, R, y) || bF(h, d).contains(y)
    &&& forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == listed(ts, s)
}
pub proof fn part_done(h0: Heap, h1: Heap, h: Heap, d: Addr, ts: Seq<Str>)
    requires part(h0, h1, d, ts),
        h =~= (Heap { DawgNode: h.DawgNode, TransStack: h1.TransStack.insert(h1.Dawg[d].unchecked_transitions, h.TransStack[h1.Dawg[d].unchecked_transitions]), NodeMap: h1.NodeMap.insert(h1.Dawg[d].minimized_nodes, h.NodeMap[h1.Dawg[d].minimized_nodes]), ..h1 }),
        building(h, d), bU(h, d).len() == 0, only_mine(h1, h, d), h.DawgNode.dom() =~= h1.DawgNode.dom(), same_terms(h1, h, d)
    ensures whole(h0, h, d, ts)
{
    hide(b_ok); hide(top_alive); hide(clang); hide(dict_ok); hide(lang); hide(node_ok);
    let m = h.DawgNode; let R = bR(h, d); let U = bU(h, d); let t = bt(h, d); let F = bF(h, d); let w = h.Dawg[d]._prev_term@;
    assert(U =~= Seq::empty());
    root_below(m, R, U, t, F, w); finished_ok(m, R, U, t, F, w); b_basic(m, R, U, t, F, w); assert(node_ok(m, R, KM()));
    assert forall|y: Addr| #[trigger] inV(t, y) implies F.contains(y) by { reveal(b_ok); }
    assert(F == bF(h1, d));
    assert forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) implies m.contains_key(y) && m[y] == h0.DawgNode[y] && !F.contains(y) && !reaches(m, R, y) by { assert(h1.DawgNode.contains_key(y)); assert(!mine(h1, d, y)); assert(m[y] == h1.DawgNode[y]); assert(h1.DawgNode.dom().contains(y)); }
    assert forall|y: Addr| #[trigger] m.contains_key(y) implies h0.DawgNode.contains_key(y) || reaches(m, R, y) || F.contains(y) by { assert(h.DawgNode.dom().contains(y)); assert(h1.DawgNode.contains_key(y)); }
    assert forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == listed(ts, s) by { assert(lang(m, m[R], s) == clang(m, R, U, 0, s)); assert(bterm(h, d, s) == bterm(h1, d, s)); assert(bterm(h1, d, s) == listed(ts, s)); }
}
pub proof fn clean_done(h0: Heap, h1: Heap, h: Heap, d: Addr, ts: Seq<Str>)
    requires whole(h0, h1, d, ts), cleaned(h1, h, d)
    ensures built(h0, h, d, ts)
{
    hide(dict_ok); hide(lang); hide(node_ok);
    let m = h1.DawgNode; let n = h.DawgNode; let R = bR(h1, d);
    cleaned_root(h1, h, d);
    assert(agree(m, n, |y: Addr| reaches(m, R, y)));
    dict_frame(m, n, R);
    assert(h.Dawg =~= h0.Dawg.insert(d, h.Dawg[d]));
    assert forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) implies n.contains_key(y) && n[y] == h0.DawgNode[y] && !reaches(n, R, y) by { assert(m.contains_key(y)); assert(!stray(h1, d)(y)); }
    assert forall|y: Addr| #[trigger] n.contains_key(y) implies h0.DawgNode.contains_key(y) || reaches(n, R, y) by { assert(m.contains_key(y)); assert(!stray(h1, d)(y)); }
    assert forall|s: Seq<i8>| #[trigger] lang(n, n[R], s) == listed(ts, s) by { assert(lang(m, m[R], s) == listed(ts, s)); }
}
@endraw
