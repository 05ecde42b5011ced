@use history.vc
@heap DawgNode Dawg

@client CLIENT_lifetime
/// the life of dictionaries: they are built (or refused), used, compared and destroyed; then the memory is as it was
pub fn CLIENT_lifetime(hp: &mut Heap, i1: SIter<Str>, e1: SIter<Str>, i2: SIter<Str>, e2: SIter<Str>, algorithm: u64, term: Str, distance: u64, give_up: u64, acts: CVec<u64>, words: CVec<Str>, numbers: CVec<u64>, schedule: CVec<bool>)
    requires
        i1.seq@ == e1.seq@, 0 <= i1.pos@ <= e1.pos@ <= i1.seq@.len(), e1.pos@ - i1.pos@ < u64::MAX, forall|i: int| 0 <= i < i1.seq@.len() ==> (#[trigger] i1.seq@[i])@.len() <= KM(),
        i2.seq@ == e2.seq@, 0 <= i2.pos@ <= e2.pos@ <= i2.seq@.len(), e2.pos@ - i2.pos@ < u64::MAX, forall|i: int| 0 <= i < i2.seq@.len() ==> (#[trigger] i2.seq@[i])@.len() <= KM(),
        strictly(i1.seq@.subrange(i1.pos@, e1.pos@)),
        term@.len() < 0x7fff_ffff, words@.len() == acts@.len(), numbers@.len() == acts@.len(), forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@.len() < 0x7fff_ffff,
    ensures
        *final(hp) =~= *old(hp),
{
    hide(dict_ok); hide(lang); hide(lex_lt); hide(listed);
    let ghost h0 = *hp;
    let ghost ts = i1.seq@.subrange(i1.pos@, e1.pos@);
    proof { strictly_asc(ts); }
    let d = BUILD(hp, i1, e1);
    let ghost h1 = *hp; let ghost R = h1.Dawg[d]._root;
    if algorithm == 0 { use_STANDARD(hp, d, term, distance, give_up, acts, words, numbers, schedule, Ghost(ts)); }
    else if algorithm == 1 { use_TRANSPOSITION(hp, d, term, distance, give_up, acts, words, numbers, schedule, Ghost(ts)); }
    else { use_MERGE_AND_SPLIT(hp, d, term, distance, give_up, acts, words, numbers, schedule, Ghost(ts)); }
    let b = BUILD(hp, i2, e2);
    if b != 0 {
        let ghost h2 = *hp; let ghost m = h2.DawgNode; let ghost S = h2.Dawg[b]._root;
        proof { dict_alloc(h1.DawgNode, R); dict_frame(h1.DawgNode, m, R); root_facts(m, R); root_facts(m, S); root_node_ok(m, S); assert(h2.Dawg[d] == h1.Dawg[d]); }
        let z = Dawg__eq_1(hp, d, b);
        let x = hash__Dawg__call_1(hp, d);
        let y = hash__Dawg__call_1(hp, b);
        SortedDawg__dtor_0(hp, b);
        let ghost h3 = *hp;
        hp.Dawg_free(b);
        proof { built_gone(h1, h2, h3, b); assert(hp.Dawg =~= h1.Dawg); }
    }
    let ghost h4 = *hp;
    proof { assert(h4 =~= h1); root_node_ok(h4.DawgNode, R); }
    SortedDawg__dtor_0(hp, d);
    let ghost h5 = *hp;
    hp.Dawg_free(d);
    proof { built_gone(h0, h4, h5, d); }
}
@endclient
@clients lifetime_vector = CLIENT_lifetime with BUILD:=sorted_dawg__veciter_2
@clients lifetime_list = CLIENT_lifetime with BUILD:=sorted_dawg__listiter_2
@clients lifetime_set = CLIENT_lifetime with BUILD:=sorted_dawg__treeiter_2

@client CLIENT_abandon
/// a dictionary that is given terms, in any order, and destroyed before it is complete; perhaps it is completed first
pub fn CLIENT_abandon(hp: &mut Heap, terms: CVec<Str>, finish: bool, clean: bool)
    requires
        forall|i: int| 0 <= i < terms@.len() ==> (#[trigger] terms@[i])@.len() <= KM(), terms@.len() < u64::MAX, clean ==> finish,
    ensures
        *final(hp) =~= *old(hp),
{
    hide(dict_ok); hide(lang); hide(lex_lt); hide(listed); hide(b_ok); hide(top_alive); hide(clang); hide(node_ok);
    let ghost h0 = *hp;
    let d = SortedDawg__ctor_0(hp);
    let ghost hk = *hp;
    SortedDawg__init_0(hp, d);
    let ghost mut ts: Seq<Str> = seq![];
    proof { part_none(h0, hk, *hp, d); }
    let mut k: u64 = 0;
    while k < vec_size(terms)
        invariant part(h0, *hp, d, ts), d != 0, ts.len() <= k, k <= terms@.len(), terms@.len() < u64::MAX, forall|i: int| 0 <= i < terms@.len() ==> (#[trigger] terms@[i])@.len() <= KM(), asc_to(ts, ts.len() as int),
        decreases terms@.len() - k
    {
        let ghost h1 = *hp;
        let t = vec_at(terms, k);
        proof { assert(terms@[k as int]@.len() <= KM()); root_below(h1.DawgNode, bR(h1, d), bU(h1, d), bt(h1, d), bF(h1, d), h1.Dawg[d]._prev_term@); b_basic(h1.DawgNode, bR(h1, d), bU(h1, d), bt(h1, d), bF(h1, d), h1.Dawg[d]._prev_term@); }
        let r = SortedDawg__add_1(hp, d, t);
        proof { if r { part_next(h0, h1, *hp, d, ts, t); assert(asc_to(ts.push(t), ts.len() as int + 1)) by { if ts.len() == 0 { lex_empty(t@); } } ts = ts.push(t); } }
        k = k + 1;
    }
    let ghost h2 = *hp;
    if finish {
        SortedDawg__finish_0(hp, d);
        let ghost h3 = *hp;
        proof { part_done(h0, h2, h3, d, ts); root_node_ok(h3.DawgNode, bR(h3, d)); }
        if clean { SortedDawg__clean_up_0(hp, d); proof { clean_done(h0, h3, *hp, d, ts); root_node_ok(hp.DawgNode, hp.Dawg[d]._root); } }
    } else { proof { part_below(h0, h2, d, ts); } }
    let ghost h4 = *hp;
    SortedDawg__dtor_0(hp, d);
    let ghost h5 = *hp;
    hp.Dawg_free(d);
    proof { if clean { built_gone(h0, h4, h5, d); } else { open_gone(h0, h4, h5, d); } }
}
@endclient
@clients abandon = CLIENT_abandon with X:=X
@raw
pub proof fn open_gone(h0: Heap, h: Heap, g: Heap, d: Addr)
    requires
        h.Dawg[d].unchecked_transitions != 0, h.Dawg[d].minimized_nodes != 0, h.Dawg[d].floating_nodes != 0, gone(h, g, d), !h0.Dawg.contains_key(d),
        !h0.TransStack.contains_key(h.Dawg[d].unchecked_transitions) && !h0.NodeMap.contains_key(h.Dawg[d].minimized_nodes) && !h0.NodeSet.contains_key(h.Dawg[d].floating_nodes),
        h =~= (Heap { DawgNode: h.DawgNode, Dawg: h0.Dawg.insert(d, h.Dawg[d]), TransStack: h0.TransStack.insert(h.Dawg[d].unchecked_transitions, h.TransStack[h.Dawg[d].unchecked_transitions]), NodeMap: h0.NodeMap.insert(h.Dawg[d].minimized_nodes, h.NodeMap[h.Dawg[d].minimized_nodes]), NodeSet: h0.NodeSet.insert(h.Dawg[d].floating_nodes, h.NodeSet[h.Dawg[d].floating_nodes]), ..h0 }),
        forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) ==> h.DawgNode.contains_key(y) && h.DawgNode[y] == h0.DawgNode[y] && !bF(h, d).contains(y) && !reaches(h.DawgNode, h.Dawg[d]._root, y),
        forall|y: Addr| #[trigger] h.DawgNode.contains_key(y) ==> h0.DawgNode.contains_key(y) || reaches(h.DawgNode, h.Dawg[d]._root, y) || bF(h, d).contains(y)
    ensures
        g.DawgNode =~= h0.DawgNode, g.Dawg.remove(d) =~= h0.Dawg, g.TransStack =~= h0.TransStack, g.NodeMap =~= h0.NodeMap, g.NodeSet =~= h0.NodeSet
{
    let P = |y: Addr| stray(h, d)(y) || under(h, d)(y);
    assert forall|y: Addr| g.DawgNode.contains_key(y) == h0.DawgNode.contains_key(y) && (g.DawgNode.contains_key(y) ==> g.DawgNode[y] == h0.DawgNode[y]) by {
        assert(g.DawgNode.contains_key(y) == (h.DawgNode.contains_key(y) && !P(y)));
        if h0.DawgNode.contains_key(y) { assert(h.DawgNode.contains_key(y)); }
    }
}
@endraw
@raw
pub proof fn root_node_ok(m: DM, R: Addr)
    requires dict_ok(m, R)
    ensures exists|k: nat| node_ok(m, R, k)
{ assert(node_ok(m, R, KM())); }
pub proof fn built_gone(h0: Heap, h: Heap, g: Heap, d: Addr)
    requires
        !h0.Dawg.contains_key(d), h.Dawg.contains_key(d), h.Dawg[d].unchecked_transitions == 0, h.Dawg[d].minimized_nodes == 0, h.Dawg[d].floating_nodes == 0, gone(h, g, d),
        forall|y: Addr| #[trigger] h0.DawgNode.contains_key(y) ==> h.DawgNode.contains_key(y) && h.DawgNode[y] == h0.DawgNode[y] && !reaches(h.DawgNode, h.Dawg[d]._root, y),
        forall|y: Addr| #[trigger] h.DawgNode.contains_key(y) ==> h0.DawgNode.contains_key(y) || reaches(h.DawgNode, h.Dawg[d]._root, y)
    ensures
        g.DawgNode =~= h0.DawgNode, g =~= (Heap { DawgNode: g.DawgNode, Dawg: g.Dawg, ..h }), g.Dawg.remove(d) =~= h.Dawg.remove(d)
{
    let P = |y: Addr| stray(h, d)(y) || under(h, d)(y);
    assert forall|y: Addr| g.DawgNode.contains_key(y) == h0.DawgNode.contains_key(y) && (g.DawgNode.contains_key(y) ==> g.DawgNode[y] == h0.DawgNode[y]) by {
        assert(g.DawgNode.contains_key(y) == (h.DawgNode.contains_key(y) && !P(y)));
        if h0.DawgNode.contains_key(y) { assert(h.DawgNode.contains_key(y)); }
    }
}
@endraw
