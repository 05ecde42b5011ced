@use theorems.vc iter.rs
@heap DawgNode Prefix DawgIterator Dawg TransStack: NodeMap: NodeSet:
@broadcast pp_is

@fn shl_2__stream_Prefix(out, prefix)
@requires
    has_pp(old(hp).Prefix, prefix)
@ensures
    *final(hp) == *old(hp), final(out)@ == old(out)@ + pp_of(old(hp).Prefix, prefix)
@decreases pp_of(old(hp).Prefix, prefix).len()
@at entry
    let ghost m = hp.Prefix; let ghost p = pp_of(m, prefix);
    proof { if p.len() > 0 { assert(is_pp(m, m[prefix]._parent, p.drop_last())); assert(p =~= p.drop_last().push(p.last())); } }
@end

@fn DawgIterator__advance_0(this_)
@hide is_pp, walk, node_ok, it_ok, it_grew, dom_is, left_w, acc
@requires
    it_heap(*old(hp), this_)
@ensures
    it_next(*old(hp), *final(hp), this_), final(hp).DawgIterator[this_]._term_index == old(hp).DawgIterator[this_]._term_index
@at entry
    let ghost h0 = *hp; let ghost m = h0.DawgNode; let ghost R = it_root(h0, this_); let ghost K = choose|k: nat| node_ok(m, R, k) && k < 0x4000_0000_0000_0000; let ghost mut hb = h0; let ghost mut C: Seq<Addr> = seq![]; let ghost mut x: Addr = 0; let ghost mut ks: Seq<i8> = seq![]; let ghost mut hm = h0; let ghost mut hl = h0; let ghost mut fin = false;
    proof { it_same(h0, this_); }
@loop 0
    invariant_except_break
        it_heap(*hp, this_), it_grew(h0, *hp, this_), it_root(*hp, this_) == R, hp.DawgIterator[this_]._pending@.len() > 0, no_word(m, R, it_strs(*hp, this_), it_k(h0.DawgIterator[this_]), it_k(hp.DawgIterator[this_])),
        hp.DawgIterator[this_]._term_index == h0.DawgIterator[this_]._term_index, m == hp.DawgNode, node_ok(m, R, K), K < 0x4000_0000_0000_0000,
    decreases left_w(m, hp.Prefix, hp.DawgIterator[this_]._pending@, K)
@loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@at loop 0 begin
    proof { hb = *hp; C = seq![]; x = hb.DawgIterator[this_]._pending@[0]; it_facts(hb, this_); ks = map_order(m[hb.Prefix[x]._node]._edges@); axiom_map_order(m[hb.Prefix[x]._node]._edges@); }
@loop 1
    invariant
        *hp =~= (Heap { Prefix: hp.Prefix, DawgIterator: hb.DawgIterator.insert(this_, hp.DawgIterator[this_]), ..hb }), __rng1@ == m[hb.Prefix[x]._node]._edges@, __idx1 == C.len(), ks == map_order(__rng1@), __idx1 <= ks.len(),
        hp.DawgIterator[this_] =~= (DawgIterator_o { _prefixes: hp.DawgIterator[this_]._prefixes, _pending: hp.DawgIterator[this_]._pending, ..hb.DawgIterator[this_] }),
        hp.DawgIterator[this_]._prefixes@ == hb.DawgIterator[this_]._prefixes@ + C, hp.DawgIterator[this_]._pending@ == hb.DawgIterator[this_]._pending@.drop_first() + C, more(hb.Prefix, hp.Prefix), kids(m, hp.Prefix, x, C),
        forall|t: int| #![trigger C[t]] 0 <= t < C.len() ==> !hb.Prefix.contains_key(C[t]), forall|y: Addr| #[trigger] hp.Prefix.contains_key(y) ==> hb.Prefix.contains_key(y) || C.contains(y),
    decreases ks.len() - __idx1
@at loop 1 begin
    proof { hm = *hp; }
@at loop 1 end
    proof {
        let c = hp.DawgIterator[this_]._prefixes@.last(); let C0 = C; C = C0.push(c);
        assert(hp.DawgIterator[this_]._prefixes@ =~= hb.DawgIterator[this_]._prefixes@ + C); assert(hp.DawgIterator[this_]._pending@ =~= hb.DawgIterator[this_]._pending@.drop_first() + C);
        assert forall|y: Addr| #[trigger] hp.Prefix.contains_key(y) implies hb.Prefix.contains_key(y) || C.contains(y) by { if y == c { assert(C[C0.len() as int] == y); } else { assert(hm.Prefix.contains_key(y)); if !hb.Prefix.contains_key(y) { let t = C0.index_of(y); assert(C[t] == y); } } }
        assert forall|t: int| 0 <= t < C0.len() implies C[t] == #[trigger] C0[t] && C0[t] != c && hm.Prefix.contains_key(C0[t]) by { }
        assert(!hm.Prefix.contains_key(c));
    }
@at loop 0 test
    proof { it_expand(h0, hb, *hp, this_, C, K); it_tested(h0, hb, *hp, this_); }
@at loop 0 after
    proof { hl = *hp; it_facts(hl, this_); fin = acc(m, R, it_strs(hl, this_)[it_k(hl.DawgIterator[this_]) - 1]); assert(hl.DawgIterator[this_]._prefixes@[it_k(hl.DawgIterator[this_]) - 1] == prefix); assert(fin == m[node]._is_final) by { reveal(acc); } }
@at return
    proof {
        it_done(h0, hl, *hp, this_);
        if h0.DawgIterator[this_]._pending@.len() == 0 { assert(*hp =~= h0); } else {
            let k1 = it_k(hp.DawgIterator[this_]); let S = it_strs(*hp, this_);
            assert(k1 == it_k(hl.DawgIterator[this_])); assert(no_word(m, R, S, it_k(h0.DawgIterator[this_]), k1 - 1));
            assert(fin == acc(m, R, S[k1 - 1]));
            assert(fin ==> hp.DawgIterator[this_]._next_value@ == S[k1 - 1]);
            assert(!fin ==> hp.DawgIterator[this_]._pending@.len() == 0);
        }
    }
@end

@fn DawgIterator__ctor_1__pDawgNode(root) -> r
@hide is_pp, walk, node_ok, it_ok, it_grew, dom_is, acc, it_next
@requires
    rooted(old(hp).DawgNode, root)
@ensures
    it_begun(*old(hp), *final(hp), r, root), r != 0
@at entry
    let ghost h0 = *hp; let ghost mut hb = h0;
@at before call DawgIterator__advance_0
    proof { hb = *hp; it_start(hb, $1, hb.DawgIterator[$1]._prefixes@[0]); }
@at return
    proof { it_begins(h0, hb, *hp, this_, hb.DawgIterator[this_]._prefixes@[0]); }
@end
@fn DawgIterator__ctor_1__u64(term_index) -> r
@ensures
    r != 0, !old(hp).DawgIterator.contains_key(r), *final(hp) =~= (Heap { DawgIterator: old(hp).DawgIterator.insert(r, final(hp).DawgIterator[r]), ..*old(hp) }), final(hp).DawgIterator[r]._term_index == term_index, final(hp).DawgIterator[r]._prefixes@.len() == 0
@end
@fn DawgIterator__inc_0(this_) -> r
@hide is_pp, walk, node_ok, it_ok, dom_is, acc
@requires
    it_heap(*old(hp), this_), old(hp).DawgIterator[this_]._term_index < u64::MAX
@ensures
    it_next(*old(hp), *final(hp), this_), final(hp).DawgIterator[this_]._term_index == old(hp).DawgIterator[this_]._term_index + 1, r == this_
@at entry
    let ghost h0 = *hp; let ghost mut hm = h0;
@at after call DawgIterator__advance_0
    proof { hm = *hp; }
@at return
    proof { it_same(h0, this_); it_done(h0, hm, *hp, this_); }
@end
@fn DawgIterator__deref_0(this_) -> r
@requires
    old(hp).DawgIterator.contains_key(this_)
@ensures
    *final(hp) == *old(hp), r@ == old(hp).DawgIterator[this_]._next_value@
@end
@fn DawgIterator__eq_1(this_, other) -> r
@requires
    old(hp).DawgIterator.contains_key(this_), old(hp).DawgIterator.contains_key(other)
@ensures
    *final(hp) == *old(hp), r == (old(hp).DawgIterator[this_]._term_index == old(hp).DawgIterator[other]._term_index)
@end
@fn Dawg__root_0(this_) -> r
@requires
    old(hp).Dawg.contains_key(this_)
@ensures
    *final(hp) == *old(hp), r == old(hp).Dawg[this_]._root
@end
@fn Dawg__size_0(this_) -> r
@requires
    old(hp).Dawg.contains_key(this_)
@ensures
    *final(hp) == *old(hp), r == old(hp).Dawg[this_]._size
@end
@fn Dawg__begin_0(this_) -> r
@requires
    old(hp).Dawg.contains_key(this_), rooted(old(hp).DawgNode, old(hp).Dawg[this_]._root)
@ensures
    it_begun(*old(hp), *final(hp), r, old(hp).Dawg[this_]._root), r != 0
@end
@fn Dawg__end_0(this_) -> r
@requires
    old(hp).Dawg.contains_key(this_)
@ensures
    r != 0, !old(hp).DawgIterator.contains_key(r), *final(hp) =~= (Heap { DawgIterator: old(hp).DawgIterator.insert(r, final(hp).DawgIterator[r]), ..*old(hp) }), final(hp).DawgIterator[r]._term_index == old(hp).Dawg[this_]._size, final(hp).DawgIterator[r]._prefixes@.len() == 0
@end
@fn DawgIterator__dtor_0(this_)
@requires
    old(hp).DawgIterator.contains_key(this_), old(hp).DawgIterator[this_]._prefixes@.no_duplicates(), forall|i: int| 0 <= i < old(hp).DawgIterator[this_]._prefixes@.len() ==> old(hp).Prefix.contains_key(#[trigger] old(hp).DawgIterator[this_]._prefixes@[i]) && old(hp).DawgIterator[this_]._prefixes@[i] != 0
@ensures
    *final(hp) =~= (Heap { Prefix: final(hp).Prefix, ..*old(hp) }), pfx_without(old(hp).Prefix, final(hp).Prefix, old(hp).DawgIterator[this_]._prefixes@)
@at entry
    let ghost h0 = *hp; let ghost P = h0.DawgIterator[this_]._prefixes@; let ghost mut hb = h0; let ghost mut gk = 0int;
    proof { assert(P.take(0) =~= seq![]); }
@loop 0
    invariant
        __rng0@ == P, 0 <= __idx0 <= P.len(), *hp =~= (Heap { Prefix: hp.Prefix, ..h0 }), pfx_without(h0.Prefix, hp.Prefix, P.take(__idx0 as int)),
    decreases P.len() - __idx0
@at loop 0 begin
    proof { hb = *hp; gk = __idx0 as int; let k = gk; assert(h0.Prefix.contains_key(P[k])); assert(!P.take(k).contains(P[k])) by { if P.take(k).contains(P[k]) { let j = P.take(k).index_of(P[k]); assert(P[j] == P[k]); } } assert(P.take(k + 1) =~= P.take(k).push(P[k])); pfx_push(P.take(k), P[k]); }
@at loop 0 end
    proof { let k = gk; pfx_push(P.take(k), P[k]); assert(P.take(k + 1) =~= P.take(k).push(P[k])); assert forall|y: Addr| #[trigger] hp.Prefix.contains_key(y) == (h0.Prefix.contains_key(y) && !P.take(k + 1).contains(y)) && (hp.Prefix.contains_key(y) ==> hp.Prefix[y] == h0.Prefix[y]) by { assert(hb.Prefix.contains_key(y) == (h0.Prefix.contains_key(y) && !P.take(k).contains(y))); assert(P.take(k).push(P[k]).contains(y) == (P.take(k).contains(y) || y == P[k])); } }
@at loop 0 after
    proof { assert(P.take(P.len() as int) =~= P); }
@end

@client CLIENT_walk
/// walk through the words of a dictionary and give up after some of them
pub fn CLIENT_walk(hp: &mut Heap, d: Addr, give_up: u64, terms: Ghost<Seq<Str>>) -> (r: (Ghost<Seq<Seq<i8>>>, bool))
    requires
        old(hp).Dawg.contains_key(d), dict_ok(old(hp).DawgNode, old(hp).Dawg[d]._root), strictly(terms@), terms@.len() < u64::MAX, old(hp).Dawg[d]._size == terms@.len(),
        forall|s: Seq<i8>| #[trigger] lang(old(hp).DawgNode, old(hp).DawgNode[old(hp).Dawg[d]._root], s) == listed(terms@, s),
    ensures
        r.0@.no_duplicates(), all_listed(terms@, r.0@), r.0@.len() <= give_up, r.0@.len() <= terms@.len(),
        r.1 ==> r.0@.len() == terms@.len() && forall|s: Seq<i8>| listed(terms@, s) ==> #[trigger] r.0@.contains(s),
        !r.1 ==> r.0@.len() == give_up,
        *final(hp) =~= *old(hp),
{
    hide(dict_ok); hide(lang); hide(node_ok); hide(it_ok); hide(acc); hide(is_pp); hide(lex_lt);
    let ghost ts = terms@;
    let ghost m = hp.DawgNode; let ghost R = hp.Dawg[d]._root; let ghost hd = *hp;
    proof { root_rooted(m, R); }
    let it = Dawg__begin_0(hp, d);
    proof { walk_begun(hd, *hp, it, R); }
    let ghost hb0 = *hp;
    let e = Dawg__end_0(hp, d);
    let ghost mut out: Seq<Seq<i8>> = seq![];
    let mut i: u64 = 0;
    proof { walk_beside(hb0, *hp, it, out); }
    let mut done: bool = false;
    let mut go: bool = true;
    while go
        invariant
            mid_walk(*hp, it, out), m == hp.DawgNode, it_root(*hp, it) == R, dict_ok(m, R), strictly(ts), forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == listed(ts, s),
            *hp =~= (Heap { Prefix: hp.Prefix, DawgIterator: hd.DawgIterator.insert(it, hp.DawgIterator[it]).insert(e, hp.DawgIterator[e]), ..hd }), !hd.DawgIterator.contains_key(it), !hd.DawgIterator.contains_key(e),
            hp.DawgIterator[it]._term_index == out.len(), hp.DawgIterator.contains_key(e), it != e, hp.DawgIterator[e]._term_index == ts.len(), ts.len() < u64::MAX, out.len() == i, i <= give_up, go || done || i == give_up,
            owns_pfx(hd, *hp, it), done ==> !go && out.len() == ts.len(), hp.DawgIterator[e]._prefixes@.len() == 0,
        decreases give_up - i, (if go { 1int } else { 0 })
    {
        proof { walk_count(*hp, it, ts, out); }
        if i == give_up { go = false; } else if DawgIterator__eq_1(hp, it, e) { done = true; go = false; } else {
            let s = DawgIterator__deref_0(hp, it);
            let ghost hb = *hp;
            let x = DawgIterator__inc_0(hp, it);
            proof { walk_stepped(hb, *hp, it, out, s@); owns_grew(hd, hb, *hp, it); out = out.push(s@); }
            i = i + 1;
        }
    }
    proof { walk_count(*hp, it, ts, out); it_facts(*hp, it); it_k_in(*hp, it); }
    let ghost hz = *hp;
    DawgIterator__dtor_0(hp, it);
    proof { owns_gone(hd, hz, hp.Prefix, it); }
    hp.DawgIterator_free(it);
    let ghost hy = *hp;
    DawgIterator__dtor_0(hp, e);
    proof { assert(hp.Prefix =~= hy.Prefix); }
    hp.DawgIterator_free(e);
    (Ghost(out), done)
}
@endclient
@clients walk_words = CLIENT_walk with X:=X

@client CLIENT_enumerate
/// build a dictionary, walk through its words and give up after some of them
pub fn CLIENT_enumerate(hp: &mut Heap, iter: SIter<Str>, end: SIter<Str>, give_up: u64) -> (r: (u64, Ghost<Seq<Seq<i8>>>, bool))
    requires
        iter.seq@ == end.seq@, 0 <= iter.pos@ <= end.pos@ <= iter.seq@.len(), end.pos@ - iter.pos@ < u64::MAX, forall|i: int| 0 <= i < iter.seq@.len() ==> (#[trigger] iter.seq@[i])@.len() <= KM(),
        strictly(iter.seq@.subrange(iter.pos@, end.pos@)),
    ensures
        r.0 == end.pos@ - iter.pos@, r.1@.no_duplicates(), all_listed(iter.seq@.subrange(iter.pos@, end.pos@), r.1@), r.1@.len() <= give_up,
        r.2 ==> r.1@.len() == r.0 && forall|s: Seq<i8>| listed(iter.seq@.subrange(iter.pos@, end.pos@), s) ==> #[trigger] r.1@.contains(s),
        !r.2 ==> r.1@.len() == give_up,
        final(hp).Prefix =~= old(hp).Prefix, final(hp).DawgIterator =~= old(hp).DawgIterator,
{
    hide(dict_ok); hide(lang); hide(lex_lt);
    let ghost ts = iter.seq@.subrange(iter.pos@, end.pos@);
    proof { strictly_asc(ts); }
    let d = sorted_dawg__veciter_2(hp, iter, end);
    let n = Dawg__size_0(hp, d);
    let (out, done) = walk_words(hp, d, give_up, Ghost(ts));
    (n, out, done)
}
@endclient
@clients enumerate = CLIENT_enumerate with X:=X
