@use sorted.vc terms.rs
@heap DawgNode Dawg TransStack: NodeMap: NodeSet:

@client CLIENT_member
/// build a dictionary, then ask for any string
pub fn CLIENT_member(hp: &mut Heap, iter: SIter<Str>, end: SIter<Str>, probe: Str) -> (r: (Addr, bool))
    requires
        iter.seq@ == end.seq@, 0 <= iter.pos@ <= end.pos@ <= iter.seq@.len(), end.pos@ - iter.pos@ < u64::MAX, forall|i: int| 0 <= i < iter.seq@.len() ==> (#[trigger] iter.seq@[i])@.len() <= KM(),
    ensures
        (r.0 == 0) == !ascending(iter.seq@.subrange(iter.pos@, end.pos@)),
        r.0 == 0 ==> *final(hp) =~= *old(hp),
        r.0 != 0 ==> r.1 == listed(iter.seq@.subrange(iter.pos@, end.pos@), probe@),
{
    hide(dict_ok); hide(lang);
    let d = BUILD(hp, iter, end);
    if d == 0 { return (0, false); }
    proof { root_facts(hp.DawgNode, hp.Dawg[d]._root); }
    let b = Dawg__contains_1(hp, d, probe);
    (d, b)
}
@endclient
@clients member_vector = CLIENT_member with BUILD:=sorted_dawg__veciter_2
@clients member_list = CLIENT_member with BUILD:=sorted_dawg__listiter_2
@clients member_set = CLIENT_member with BUILD:=sorted_dawg__treeiter_2

@client CLIENT_minimal
/// build a dictionary: it is minimal and every node serves a term
pub fn CLIENT_minimal(hp: &mut Heap, iter: SIter<Str>, end: SIter<Str>) -> (r: Addr)
    requires
        iter.seq@ == end.seq@, 0 <= iter.pos@ <= end.pos@ <= iter.seq@.len(), end.pos@ - iter.pos@ < u64::MAX, forall|i: int| 0 <= i < iter.seq@.len() ==> (#[trigger] iter.seq@[i])@.len() <= KM(),
        ascending(iter.seq@.subrange(iter.pos@, end.pos@)),
    ensures
        r != 0, minimal(final(hp).DawgNode, final(hp).Dawg[r]._root), no_waste(final(hp).DawgNode, final(hp).Dawg[r]._root, iter.seq@.subrange(iter.pos@, end.pos@)),
{
    let d = BUILD(hp, iter, end);
    proof { built_no_waste(hp.DawgNode, hp.Dawg[d]._root, iter.seq@.subrange(iter.pos@, end.pos@)); }
    d
}
@endclient
@clients minimal_vector = CLIENT_minimal with BUILD:=sorted_dawg__veciter_2
@clients minimal_list = CLIENT_minimal with BUILD:=sorted_dawg__listiter_2
@clients minimal_set = CLIENT_minimal with BUILD:=sorted_dawg__treeiter_2

@client CLIENT_compare
/// build two dictionaries, compare them and take their hash codes
pub fn CLIENT_compare(hp: &mut Heap, i1: SIter<Str>, e1: SIter<Str>, i2: SIter<Str>, e2: SIter<Str>) -> (r: (bool, u64, u64))
    requires
        i1.seq@ == e1.seq@, 0 <= i1.pos@ <= e1.pos@ <= i1.seq@.len(), e1.pos@ - i1.pos@ < u64::MAX, forall|i: int| 0 <= i < i1.seq@.len() ==> (#[trigger] i1.seq@[i])@.len() <= KM(),
        i2.seq@ == e2.seq@, 0 <= i2.pos@ <= e2.pos@ <= i2.seq@.len(), e2.pos@ - i2.pos@ < u64::MAX, forall|i: int| 0 <= i < i2.seq@.len() ==> (#[trigger] i2.seq@[i])@.len() <= KM(),
        strictly(i1.seq@.subrange(i1.pos@, e1.pos@)), strictly(i2.seq@.subrange(i2.pos@, e2.pos@)),
    ensures
        r.0 == same_terms_as(i1.seq@.subrange(i1.pos@, e1.pos@), i2.seq@.subrange(i2.pos@, e2.pos@)), r.0 ==> r.1 == r.2,
{
    hide(dict_ok); hide(lang); hide(same); hide(lex_lt);
    let ghost ts1 = i1.seq@.subrange(i1.pos@, e1.pos@); let ghost ts2 = i2.seq@.subrange(i2.pos@, e2.pos@);
    proof { strictly_asc(ts1); strictly_asc(ts2); }
    let d1 = sorted_dawg__veciter_2(hp, i1, e1);
    let ghost h1 = *hp; let ghost R1 = hp.Dawg[d1]._root;
    let d2 = sorted_dawg__veciter_2(hp, i2, e2);
    let ghost m = hp.DawgNode; let ghost R2 = hp.Dawg[d2]._root;
    proof {
        root_facts(h1.DawgNode, R1); dict_alloc(h1.DawgNode, R1);
        dict_frame(h1.DawgNode, m, R1); root_facts(m, R1); root_facts(m, R2); assert(hp.Dawg[d1] == h1.Dawg[d1]);
        assert forall|s: Seq<i8>| #[trigger] lang(m, m[R1], s) == listed(ts1, s) by { assert(lang(h1.DawgNode, h1.DawgNode[R1], s) == listed(ts1, s)); }
        equal_dicts(m, hp.Dawg[d1], hp.Dawg[d2], ts1, ts2);
    }
    let b = Dawg__eq_1(hp, d1, d2);
    let x = hash__Dawg__call_1(hp, d1);
    let y = hash__Dawg__call_1(hp, d2);
    (b, x, y)
}
@endclient
@clients compare_dictionaries = CLIENT_compare with X:=X

@client CLIENT_nodes
/// compare two nodes of built dictionaries and take their hash codes
pub fn CLIENT_nodes(hp: &mut Heap, R: Addr, S: Addr, a: Addr, b: Addr) -> (r: (bool, u64, u64))
    requires
        dict_ok(old(hp).DawgNode, R), dict_ok(old(hp).DawgNode, S), reaches(old(hp).DawgNode, R, a), reaches(old(hp).DawgNode, S, b),
    ensures
        *final(hp) == *old(hp), r.0 == same_lang(old(hp).DawgNode, old(hp).DawgNode[a], old(hp).DawgNode[b]), r.0 ==> r.1 == r.2,
{
    hide(dict_ok); hide(lang); hide(same);
    let ghost m = hp.DawgNode;
    proof { reach_node_facts(m, R, a); reach_node_facts(m, S, b); same_iff_lang(m, m[a], m[b]); assert(obj_rooted(m, m[a]) && obj_rooted(m, m[b])) by { shallow_obj(m, a); shallow_obj(m, b); } if same(m, m[a], m[b]) { same_NH(m, m[a], m[b]); } }
    let e = DawgNode__eq_1(hp, a, b);
    let x = hash__DawgNode__call_1(hp, a);
    let y = hash__DawgNode__call_1(hp, b);
    (e, x, y)
}
@endclient
@clients compare_nodes = CLIENT_nodes with X:=X
@raw
pub proof fn shallow_obj(m: DM, a: Addr)
    requires shallow(m, a)
    ensures obj_rooted(m, m[a])
{ let k = choose|k: nat| #[trigger] node_ok(m, a, k) && k < 0x7fff_fffe; assert(obj_ok(m, m[a], k)); }
@endraw
