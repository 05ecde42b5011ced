@use dawg.vc build.rs
@heap DawgNode Dawg TransStack: NodeMap: NodeSet:

@fn SortedDawg__minimize_1(this_, lower_bound)
@hide b_ok, node_ok, lang, clang, same, table_ok, key_ok, alive, top_alive
@requires
    building(*old(hp), this_), top_alive(old(hp).DawgNode, bR(*old(hp), this_), bU(*old(hp), this_))
@ensures
    *final(hp) =~= (Heap { DawgNode: final(hp).DawgNode, TransStack: old(hp).TransStack.insert(old(hp).Dawg[this_].unchecked_transitions, final(hp).TransStack[old(hp).Dawg[this_].unchecked_transitions]), NodeMap: old(hp).NodeMap.insert(old(hp).Dawg[this_].minimized_nodes, final(hp).NodeMap[old(hp).Dawg[this_].minimized_nodes]), ..*old(hp) }),
    building(*final(hp), this_), top_alive(final(hp).DawgNode, bR(*final(hp), this_), bU(*final(hp), this_)),
    bU(*final(hp), this_) == (if lower_bound < bU(*old(hp), this_).len() { bU(*old(hp), this_).take(lower_bound as int) } else { bU(*old(hp), this_) }),
    only_mine(*old(hp), *final(hp), this_), final(hp).DawgNode.dom() =~= old(hp).DawgNode.dom(), same_terms(*old(hp), *final(hp), this_)
@at entry
    let ghost h0 = *hp; let ghost U0 = bU(*hp, this_); let ghost ts = hp.Dawg[this_].unchecked_transitions; let ghost mn = hp.Dawg[this_].minimized_nodes; let ghost R = bR(*hp, this_); let ghost F = bF(*hp, this_); let ghost w = hp.Dawg[this_]._prev_term@;
    proof { assert(U0.take(U0.len() as int) =~= U0); }
@loop 0
invariant
    *hp =~= (Heap { DawgNode: hp.DawgNode, TransStack: h0.TransStack.insert(ts, hp.TransStack[ts]), NodeMap: h0.NodeMap.insert(mn, hp.NodeMap[mn]), ..h0 }),
    building(*hp, this_), top_alive(hp.DawgNode, R, bU(*hp, this_)), bU(*hp, this_) == U0.take(bU(*hp, this_).len() as int), j == bU(*hp, this_).len(), j <= U0.len(), lower_bound < U0.len() ==> j >= lower_bound, lower_bound >= U0.len() ==> j == U0.len(),
    only_mine(h0, *hp, this_), hp.DawgNode.dom() =~= h0.DawgNode.dom(), same_terms(h0, *hp, this_),
decreases j
@at loop 0 begin
    let ghost m = hp.DawgNode; let ghost U = bU(*hp, this_); let ghost t = bt(*hp, this_); let ghost h1 = *hp; let ghost x = nd(R, U, U.len() - 1); let ghost n = nd(R, U, U.len() as int); let ghost l = U.last()._label;
    proof {
        top_facts(m, R, U, t, F, w);
        assert forall|o: DawgNode_o| only_at(m, #[trigger] m.insert(x, o), x) by { assert(m.insert(x, o)[x] == o); }
    }
@at loop 0 end
    proof {
        let m1 = hp.DawgNode; let t1 = bt(*hp, this_); let e = m1[x]._edges@[l];
        assert(bU(*hp, this_) =~= U.drop_last());
        assert(m1 =~= m.insert(x, m1[x])); same_refl(m, m[n]);
        if existing != 0 { assert(t1 == t); assert(exists|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == e && same(m, o, m[n])); }
        else { assert(e == n); assert(t1.hash == t.hash.insert(m[n], NH(m1, m[n]))); }
        assert(closes(m, m1, R, U, t, t1, e));
        close_top(m, m1, R, U, t, t1, F, w, e);
        assert(U.drop_last() =~= U0.take(U.len() - 1));
        assert forall|s: Seq<i8>| #[trigger] bterm(*hp, this_, s) == bterm(h0, this_, s) by { assert(bterm(h1, this_, s) == bterm(h0, this_, s)); assert(clang(m1, R, U.drop_last(), 0, s) == clang(m, R, U, 0, s)); }
    }
@end

@fn SortedDawg__add_1(this_, term)
@hide b_ok, node_ok, lang, clang, strict, lex_lt, top_alive
@requires
    building(*old(hp), this_), top_alive(old(hp).DawgNode, bR(*old(hp), this_), bU(*old(hp), this_)), bU(*old(hp), this_).len() == old(hp).Dawg[this_]._prev_term@.len(), term@.len() <= KM(), old(hp).Dawg[this_]._size < u64::MAX
@ensures
    r == !lex_lt(term@, old(hp).Dawg[this_]._prev_term@),
    !r ==> *final(hp) == *old(hp),
    only_cells(*old(hp), *final(hp), this_),
    r ==> final(hp).Dawg == old(hp).Dawg.insert(this_, Dawg_o { _prev_term: term, _size: (old(hp).Dawg[this_]._size + 1) as u64, ..old(hp).Dawg[this_] }),
    r ==> building(*final(hp), this_), r ==> top_alive(final(hp).DawgNode, bR(*final(hp), this_), bU(*final(hp), this_)), r ==> bU(*final(hp), this_).len() == term@.len(),
    only_mine(*old(hp), *final(hp), this_), added_nodes(*old(hp), *final(hp), this_),
    r ==> forall|s: Seq<i8>| #[trigger] bterm(*final(hp), this_, s) == (bterm(*old(hp), this_, s) || s == term@),
@at entry
    let ghost h0 = *hp; let ghost mut h3 = *hp; let ghost U0 = bU(*hp, this_); let ghost w = hp.Dawg[this_]._prev_term@; let ghost v = term@; let ghost R = bR(*hp, this_);
    proof { b_basic(hp.DawgNode, R, U0, bt(*hp, this_), bF(*hp, this_), w); if v.len() == 0 { lex_pre(v, w, 0int); if w.len() == 0 { assert(U0 =~= Seq::empty()); assert(v =~= w); lex_pre(w, v, 0int); rew(hp.DawgNode, R, U0, bt(*hp, this_), bF(*hp, this_), w, v); } } }
@at loop 0 before
    proof { assert(w.len() < u64::MAX && v.len() < u64::MAX); }
@loop 0
invariant
    *hp == h0, upper_bound <= v.len(), upper_bound <= w.len(), upper_bound == v.len() || upper_bound == w.len(), i <= upper_bound, pre_same(w, v, i as int),
decreases upper_bound - i
@at after call SortedDawg__minimize_1
    let ghost h1 = *hp; let ghost i0 = i as int;
    proof {
        let U = bU(*hp, this_); let t = bt(*hp, this_); let F = bF(*hp, this_);
        assert(U.len() == i); rew(hp.DawgNode, R, U, t, F, w, v); b_basic(hp.DawgNode, R, U, t, F, v);
    }
@loop 1
invariant
    bcells(*hp, this_), b_ok(hp.DawgNode, R, bU(*hp, this_), bt(*hp, this_), bF(*hp, this_), v), strict(hp.DawgNode, R, bU(*hp, this_), v),
    hp.Dawg == h0.Dawg, only_cells(h0, *hp, this_), only_mine(h0, *hp, this_), added_nodes(h0, *hp, this_), bU(*hp, this_).len() == i, i <= k, k == v.len(), source == nd(R, bU(*hp, this_), i as int), same_terms(h0, *hp, this_)
decreases k - i
@at loop 1 begin
    let ghost h2 = *hp; let ghost m = hp.DawgNode; let ghost U = bU(*hp, this_); let ghost t = bt(*hp, this_); let ghost F = bF(*hp, this_);
    proof { b_basic(m, R, U, t, F, v); }
@at loop 1 end
    proof {
        let W = bU(*hp, this_); let tr = W.last(); assert(W =~= U.push(tr)); assert(bF(*hp, this_) =~= F.insert(tr._target));
        assert(grows(m, hp.DawgNode, R, U, v, tr)) by { assert(hp.DawgNode =~= m.insert(tr._target, hp.DawgNode[tr._target])); }
        grow(m, hp.DawgNode, R, U, t, F, v, tr);
        assert forall|s: Seq<i8>| #[trigger] bterm(*hp, this_, s) == bterm(h0, this_, s) by { assert(bterm(h2, this_, s) == bterm(h0, this_, s)); assert(clang(hp.DawgNode, R, W, 0, s) == clang(m, R, U, 0, s)); }
    }
@at loop 1 after
    proof { h3 = *hp; let m = hp.DawgNode; let U = bU(*hp, this_); b_basic(m, R, U, bt(*hp, this_), bF(*hp, this_), v); }
@at return
    proof {
        if __r {
            let U = bU(*hp, this_); let m1 = hp.DawgNode; let x = nd(R, U, U.len() as int); let g = h3; let m = g.DawgNode;
            assert(marks(m, m1, x)) by { assert(m1 =~= m.insert(x, m1[x])); }
            mark(m, m1, R, U, bt(*hp, this_), bF(*hp, this_), v);
            assert forall|s: Seq<i8>| #[trigger] bterm(*hp, this_, s) == (bterm(h0, this_, s) || s == v) by { assert(bterm(g, this_, s) == bterm(h0, this_, s)); assert(clang(m1, R, U, 0, s) == (clang(m, R, U, 0, s) || s == v)); }
        }
    }
@end
@raw
pub open spec fn bR(h: Heap, d: Addr) -> Addr { h.Dawg[d]._root }
pub open spec fn bU(h: Heap, d: Addr) -> Seq<Transition_o> { h.TransStack[h.Dawg[d].unchecked_transitions]@ }
pub open spec fn bt(h: Heap, d: Addr) -> DawgNode_map_s { h.NodeMap[h.Dawg[d].minimized_nodes]@ }
pub open spec fn bF(h: Heap, d: Addr) -> Set<Addr> { h.NodeSet[h.Dawg[d].floating_nodes]@ }
pub open spec fn bcells(h: Heap, d: Addr) -> bool { let o = h.Dawg[d]; h.Dawg.contains_key(d) && o.unchecked_transitions != 0 && h.TransStack.contains_key(o.unchecked_transitions) && o.minimized_nodes != 0 && h.NodeMap.contains_key(o.minimized_nodes) && o.floating_nodes != 0 && h.NodeSet.contains_key(o.floating_nodes) }
pub open spec fn building(h: Heap, d: Addr) -> bool { bcells(h, d) && b_ok(h.DawgNode, bR(h, d), bU(h, d), bt(h, d), bF(h, d), h.Dawg[d]._prev_term@) }
pub open spec fn mine(h: Heap, d: Addr, y: Addr) -> bool { y == bR(h, d) || bF(h, d).contains(y) }
pub open spec fn only_mine(h0: Heap, h1: Heap, d: Addr) -> bool { forall|y: Addr| #![trigger h1.DawgNode[y]] #![trigger mine(h0, d, y)] h0.DawgNode.contains_key(y) && !mine(h0, d, y) ==> h1.DawgNode[y] == h0.DawgNode[y] }
/// the terms the dictionary holds so far
pub open spec fn bterm(h: Heap, d: Addr, s: Seq<i8>) -> bool { clang(h.DawgNode, bR(h, d), bU(h, d), 0, s) }
pub open spec fn same_terms(h0: Heap, h1: Heap, d: Addr) -> bool { forall|s: Seq<i8>| #[trigger] bterm(h1, d, s) == bterm(h0, d, s) }
pub open spec fn only_cells(h0: Heap, h1: Heap, d: Addr) -> bool {
    let o = h0.Dawg[d];
    h1 =~= (Heap { DawgNode: h1.DawgNode, Dawg: h1.Dawg, TransStack: h0.TransStack.insert(o.unchecked_transitions, h1.TransStack[o.unchecked_transitions]), NodeMap: h0.NodeMap.insert(o.minimized_nodes, h1.NodeMap[o.minimized_nodes]), NodeSet: h0.NodeSet.insert(o.floating_nodes, h1.NodeSet[o.floating_nodes]), ..h0 })
}
/// nodes are only added, all of them to the floating nodes
pub open spec fn added_nodes(h0: Heap, h1: Heap, d: Addr) -> bool {
    &&& forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) ==> h1.DawgNode.contains_key(y)
    &&& forall|y: Addr| #[trigger] h1.DawgNode.contains_key(y) ==> h0.DawgNode.contains_key(y) || bF(h1, d).contains(y)
    &&& forall|y: Addr| #[trigger] bF(h1, d).contains(y) ==> bF(h0, d).contains(y) || !h0.DawgNode.contains_key(y)
    &&& forall|y: Addr| #[trigger] bF(h0, d).contains(y) ==> bF(h1, d).contains(y)
}
@endraw
