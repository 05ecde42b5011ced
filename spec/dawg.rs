// ---------------------------------------------------------------------------------------------
// Nodes as trees: depth, shape, language, hash.
// ---------------------------------------------------------------------------------------------
pub open spec fn obj_ok(m: DM, o: DawgNode_o, k: nat) -> bool { forall|c: i8| #[trigger] o._edges@.contains_key(c) ==> k > 0 && node_ok(m, o._edges@[c], (k - 1) as nat) }
pub open spec fn obj_rooted(m: DM, o: DawgNode_o) -> bool { exists|k: nat| #[trigger] obj_ok(m, o, k) }
pub open spec fn hgt(m: DM, x: Addr) -> nat { choose|k: nat| #[trigger] node_ok(m, x, k) && (k == 0 || !node_ok(m, x, (k - 1) as nat)) }
pub proof fn node_ok_mono(m: DM, x: Addr, k: nat, l: nat)
    requires node_ok(m, x, k), k <= l
    ensures node_ok(m, x, l)
    decreases k
{ assert forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) implies l > 0 && node_ok(m, m[x]._edges@[c], (l - 1) as nat) by { node_ok_mono(m, m[x]._edges@[c], (k - 1) as nat, (l - 1) as nat); } }
pub proof fn hgt_is(m: DM, x: Addr, k: nat)
    requires node_ok(m, x, k)
    ensures node_ok(m, x, hgt(m, x)), hgt(m, x) <= k, hgt(m, x) == 0 || !node_ok(m, x, (hgt(m, x) - 1) as nat)
    decreases k
{
    if k > 0 && node_ok(m, x, (k - 1) as nat) { hgt_is(m, x, (k - 1) as nat); }
    else { assert(node_ok(m, x, k) && (k == 0 || !node_ok(m, x, (k - 1) as nat))); if hgt(m, x) > k { node_ok_mono(m, x, k, (hgt(m, x) - 1) as nat); } }
}
pub proof fn hgt_edge(m: DM, x: Addr, c: i8, k: nat)
    requires node_ok(m, x, k), m[x]._edges@.contains_key(c)
    ensures hgt(m, m[x]._edges@[c]) < hgt(m, x), node_ok(m, m[x]._edges@[c], hgt(m, m[x]._edges@[c])), k > 0, node_ok(m, m[x]._edges@[c], (k - 1) as nat)
{ hgt_is(m, x, k); hgt_is(m, m[x]._edges@[c], (hgt(m, x) - 1) as nat); }
// ---- the same tree
pub open spec fn same_k(m: DM, a: DawgNode_o, b: DawgNode_o, k: nat) -> bool
    decreases k
{
    &&& a._is_final == b._is_final &&& a._edges@.dom() =~= b._edges@.dom()
    &&& k > 0 ==> forall|c: i8| #[trigger] a._edges@.contains_key(c) ==> same_k(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat)
}
pub open spec fn same(m: DM, a: DawgNode_o, b: DawgNode_o) -> bool { forall|k: nat| #[trigger] same_k(m, a, b, k) }
pub open spec fn same_at(m: DM, a: DawgNode_o, b: DawgNode_o, c: i8) -> bool { same(m, m[a._edges@[c]], m[b._edges@[c]]) }
pub proof fn same_step(m: DM, a: DawgNode_o, b: DawgNode_o)
    ensures same(m, a, b) == (a._is_final == b._is_final && a._edges@.dom() =~= b._edges@.dom() && forall|c: i8| #![trigger a._edges@[c]] a._edges@.contains_key(c) ==> same_at(m, a, b, c))
{
    if same(m, a, b) {
        assert(same_k(m, a, b, 0));
        assert forall|c: i8| #![trigger a._edges@[c]] a._edges@.contains_key(c) implies same_at(m, a, b, c) by {
            assert forall|k: nat| #[trigger] same_k(m, m[a._edges@[c]], m[b._edges@[c]], k) by { assert(same_k(m, a, b, k + 1)); assert(((k + 1) - 1) as nat == k); }
        }
    }
    if a._is_final == b._is_final && a._edges@.dom() =~= b._edges@.dom() && (forall|c: i8| #![trigger a._edges@[c]] a._edges@.contains_key(c) ==> same_at(m, a, b, c)) {
        assert forall|k: nat| #[trigger] same_k(m, a, b, k) by { assert forall|c: i8| k > 0 && #[trigger] a._edges@.contains_key(c) implies same_k(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat) by { assert(a._edges@[c] == a._edges@[c]); assert(same_at(m, a, b, c)); } }
    }
}
pub proof fn same_k_refl(m: DM, a: DawgNode_o, k: nat) ensures same_k(m, a, a, k) decreases k
{ if k > 0 { assert forall|c: i8| #[trigger] a._edges@.contains_key(c) implies same_k(m, m[a._edges@[c]], m[a._edges@[c]], (k - 1) as nat) by { same_k_refl(m, m[a._edges@[c]], (k - 1) as nat); } } }
pub proof fn same_refl(m: DM, a: DawgNode_o) ensures same(m, a, a)
{ assert forall|k: nat| #[trigger] same_k(m, a, a, k) by { same_k_refl(m, a, k); } }
pub proof fn same_k_sym(m: DM, a: DawgNode_o, b: DawgNode_o, k: nat) requires same_k(m, a, b, k) ensures same_k(m, b, a, k) decreases k
{ if k > 0 { assert forall|c: i8| #[trigger] b._edges@.contains_key(c) implies same_k(m, m[b._edges@[c]], m[a._edges@[c]], (k - 1) as nat) by { assert(a._edges@.contains_key(c)); same_k_sym(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat); } } }
pub proof fn same_sym(m: DM, a: DawgNode_o, b: DawgNode_o) requires same(m, a, b) ensures same(m, b, a)
{ assert forall|k: nat| #[trigger] same_k(m, b, a, k) by { assert(same_k(m, a, b, k)); same_k_sym(m, a, b, k); } }
pub proof fn same_k_trans(m: DM, a: DawgNode_o, b: DawgNode_o, c: DawgNode_o, k: nat) requires same_k(m, a, b, k), same_k(m, b, c, k) ensures same_k(m, a, c, k) decreases k
{ if k > 0 { assert forall|e: i8| #[trigger] a._edges@.contains_key(e) implies same_k(m, m[a._edges@[e]], m[c._edges@[e]], (k - 1) as nat) by { assert(b._edges@.contains_key(e)); same_k_trans(m, m[a._edges@[e]], m[b._edges@[e]], m[c._edges@[e]], (k - 1) as nat); } } }
pub proof fn same_trans(m: DM, a: DawgNode_o, b: DawgNode_o, c: DawgNode_o) requires same(m, a, b), same(m, b, c) ensures same(m, a, c)
{ assert forall|k: nat| #[trigger] same_k(m, a, c, k) by { assert(same_k(m, a, b, k)); assert(same_k(m, b, c, k)); same_k_trans(m, a, b, c, k); } }
// ---- the strings that lead from a node to a word end
pub open spec fn lang(m: DM, o: DawgNode_o, s: Seq<i8>) -> bool
    decreases s.len()
{ if s.len() == 0 { o._is_final } else { o._edges@.contains_key(s[0]) && lang(m, m[o._edges@[s[0]]], s.drop_first()) } }
pub open spec fn same_lang(m: DM, a: DawgNode_o, b: DawgNode_o) -> bool { forall|s: Seq<i8>| #[trigger] lang(m, a, s) == lang(m, b, s) }
pub proof fn same_is_lang(m: DM, a: DawgNode_o, b: DawgNode_o, s: Seq<i8>)
    requires same(m, a, b)
    ensures lang(m, a, s) == lang(m, b, s)
    decreases s.len()
{ same_step(m, a, b); if s.len() > 0 && a._edges@.contains_key(s[0]) { assert(a._edges@[s[0]] == a._edges@[s[0]]); assert(same_at(m, a, b, s[0])); same_is_lang(m, m[a._edges@[s[0]]], m[b._edges@[s[0]]], s.drop_first()); } }
/// some string leads to a word end from here and from every node below
pub open spec fn live_k(m: DM, o: DawgNode_o, k: nat) -> bool
    decreases k
{ (exists|s: Seq<i8>| lang(m, o, s)) && (k > 0 ==> forall|c: i8| #[trigger] o._edges@.contains_key(c) ==> live_k(m, m[o._edges@[c]], (k - 1) as nat)) }
/// the same, but nothing is asked of the node itself
pub open spec fn trim(m: DM, o: DawgNode_o) -> bool { forall|c: i8, k: nat| #![trigger live_k(m, m[o._edges@[c]], k)] o._edges@.contains_key(c) ==> live_k(m, m[o._edges@[c]], k) }
pub proof fn trim_below(m: DM, o: DawgNode_o, c: i8)
    requires trim(m, o), o._edges@.contains_key(c)
    ensures trim(m, m[o._edges@[c]]), exists|s: Seq<i8>| lang(m, m[o._edges@[c]], s)
{
    let p = m[o._edges@[c]]; assert(live_k(m, p, 0));
    assert forall|d: i8, k: nat| #![trigger live_k(m, m[p._edges@[d]], k)] p._edges@.contains_key(d) implies live_k(m, m[p._edges@[d]], k) by { assert(live_k(m, p, k + 1)); assert(((k + 1) - 1) as nat == k); }
}
pub proof fn lang_edge(m: DM, o: DawgNode_o, c: i8, s: Seq<i8>)
    requires o._edges@.contains_key(c)
    ensures lang(m, o, seq![c] + s) == lang(m, m[o._edges@[c]], s)
{ assert((seq![c] + s).drop_first() =~= s); }
pub proof fn lang_is_same_k(m: DM, a: DawgNode_o, b: DawgNode_o, k: nat)
    requires same_lang(m, a, b), trim(m, a), trim(m, b)
    ensures same_k(m, a, b, k)
    decreases k
{
    assert(lang(m, a, Seq::<i8>::empty()) == lang(m, b, Seq::<i8>::empty()));
    assert forall|c: i8| a._edges@.dom().contains(c) == b._edges@.dom().contains(c) by {
        if a._edges@.contains_key(c) { trim_below(m, a, c); let s = choose|s: Seq<i8>| lang(m, m[a._edges@[c]], s); lang_edge(m, a, c, s); assert(lang(m, a, seq![c] + s) == lang(m, b, seq![c] + s)); }
        if b._edges@.contains_key(c) { trim_below(m, b, c); let s = choose|s: Seq<i8>| lang(m, m[b._edges@[c]], s); lang_edge(m, b, c, s); assert(lang(m, a, seq![c] + s) == lang(m, b, seq![c] + s)); }
    }
    assert(a._edges@.dom() =~= b._edges@.dom());
    if k > 0 {
        assert forall|c: i8| #[trigger] a._edges@.contains_key(c) implies same_k(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat) by {
            assert(b._edges@.dom().contains(c));
            trim_below(m, a, c); trim_below(m, b, c);
            assert forall|s: Seq<i8>| #[trigger] lang(m, m[a._edges@[c]], s) == lang(m, m[b._edges@[c]], s) by { lang_edge(m, a, c, s); lang_edge(m, b, c, s); assert(lang(m, a, seq![c] + s) == lang(m, b, seq![c] + s)); }
            lang_is_same_k(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat);
        }
    }
}
/// nodes from which every node below leads to a word end are the same tree exactly when the same strings lead from them to word ends
pub proof fn same_iff_lang(m: DM, a: DawgNode_o, b: DawgNode_o)
    requires trim(m, a), trim(m, b)
    ensures same(m, a, b) == same_lang(m, a, b)
{
    if same(m, a, b) { assert forall|s: Seq<i8>| #[trigger] lang(m, a, s) == lang(m, b, s) by { same_is_lang(m, a, b, s); } }
    if same_lang(m, a, b) { assert forall|k: nat| #[trigger] same_k(m, a, b, k) by { lang_is_same_k(m, a, b, k); } }
}
// ---- walks and languages
pub proof fn walk_first(m: DM, x: Addr, s: Seq<i8>)
    requires s.len() > 0, x != 0
    ensures walk(m, x, s) == (if m[x]._edges@.contains_key(s[0]) && m[x]._edges@[s[0]] != 0 { walk(m, m[x]._edges@[s[0]], s.drop_first()) } else { 0 })
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= seq![]); assert(s.drop_first() =~= seq![]); assert(walk(m, x, s.drop_last()) == x); }
    else { walk_first(m, x, s.drop_last()); assert(s.drop_last()[0] == s[0]); assert(s.drop_last().drop_first() =~= s.drop_first().drop_last()); assert(s.drop_first().last() == s.last()); }
}
pub proof fn acc_is_lang(m: DM, x: Addr, k: nat, s: Seq<i8>)
    requires node_ok(m, x, k)
    ensures acc(m, x, s) == lang(m, m[x], s)
    decreases s.len()
{
    if s.len() > 0 { walk_first(m, x, s); if m[x]._edges@.contains_key(s[0]) { let y = m[x]._edges@[s[0]]; assert(node_ok(m, y, (k - 1) as nat)); acc_is_lang(m, y, (k - 1) as nat, s.drop_first()); } }
}
// ---- hash codes
pub open spec fn b2(b: bool) -> u64 { if b { 1 } else { 0 } }
pub open spec fn nh(m: DM, o: DawgNode_o, k: nat) -> u64
    decreases k, 1nat, 0nat
{ murmur_words(seq![b2(o._is_final)], 1, nfold(m, o._edges@, map_order(o._edges@), k)) }
pub open spec fn nfold(m: DM, M: Map<i8, Addr>, keys: Seq<i8>, k: nat) -> u64
    decreases k, 0nat, keys.len()
{
    if keys.len() == 0 || k == 0 { 0xDEADBEEF } else {
        let c = keys.last();
        murmur_words(seq![nh(m, m[M[c]], (k - 1) as nat)], 1, murmur_words(seq![uch(c) as u64], 1, nfold(m, M, keys.drop_last(), k)))
    }
}
pub open spec fn NH(m: DM, o: DawgNode_o) -> u64 { nh(m, o, choose|k: nat| #[trigger] obj_ok(m, o, k)) }
pub proof fn nh_fuel(m: DM, o: DawgNode_o, k: nat, l: nat)
    requires obj_ok(m, o, k), obj_ok(m, o, l)
    ensures nh(m, o, k) == nh(m, o, l)
    decreases k, 1nat, 0nat
{
    axiom_map_order(o._edges@);
    let keys = map_order(o._edges@);
    if keys.len() > 0 { assert(o._edges@.contains_key(keys[0])); nfold_fuel(m, o, keys, k, l); }
}
pub proof fn nfold_fuel(m: DM, o: DawgNode_o, keys: Seq<i8>, k: nat, l: nat)
    requires obj_ok(m, o, k), obj_ok(m, o, l), forall|i: int| 0 <= i < keys.len() ==> o._edges@.contains_key(#[trigger] keys[i])
    ensures nfold(m, o._edges@, keys, k) == nfold(m, o._edges@, keys, l)
    decreases k, 0nat, keys.len()
{
    if keys.len() > 0 {
        let y = o._edges@[keys.last()]; assert(o._edges@.contains_key(keys.last()));
        nh_fuel(m, m[y], (k - 1) as nat, (l - 1) as nat);
        nfold_fuel(m, o, keys.drop_last(), k, l);
    }
}
pub proof fn same_hash(m: DM, a: DawgNode_o, b: DawgNode_o, k: nat)
    requires same(m, a, b)
    ensures nh(m, a, k) == nh(m, b, k)
    decreases k, 1nat, 0nat
{ same_step(m, a, b); axiom_map_order_keys(a._edges@, b._edges@); axiom_map_order(a._edges@); same_fold(m, a, b, map_order(a._edges@), k); }
pub proof fn same_fold(m: DM, a: DawgNode_o, b: DawgNode_o, keys: Seq<i8>, k: nat)
    requires same(m, a, b), forall|i: int| 0 <= i < keys.len() ==> a._edges@.contains_key(#[trigger] keys[i])
    ensures nfold(m, a._edges@, keys, k) == nfold(m, b._edges@, keys, k)
    decreases k, 0nat, keys.len()
{
    if keys.len() > 0 && k > 0 {
        let c = keys.last(); assert(a._edges@.contains_key(c)); same_step(m, a, b); assert(a._edges@[c] == a._edges@[c]); assert(same_at(m, a, b, c));
        same_hash(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat); same_fold(m, a, b, keys.drop_last(), k);
    }
}
pub proof fn same_ok(m: DM, a: DawgNode_o, b: DawgNode_o, k: nat, l: nat)
    requires same(m, a, b), obj_ok(m, a, k), obj_ok(m, b, l)
    ensures obj_ok(m, b, k)
    decreases k
{
    same_step(m, a, b);
    assert forall|c: i8| #[trigger] b._edges@.contains_key(c) implies k > 0 && node_ok(m, b._edges@[c], (k - 1) as nat) by {
        assert(a._edges@.contains_key(c)); assert(a._edges@[c] == a._edges@[c]); assert(same_at(m, a, b, c));
        assert(node_ok(m, a._edges@[c], (k - 1) as nat)); assert(node_ok(m, b._edges@[c], (l - 1) as nat));
        same_ok(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat, (l - 1) as nat);
    }
}
pub proof fn same_NH(m: DM, a: DawgNode_o, b: DawgNode_o)
    requires same(m, a, b), obj_rooted(m, a), obj_rooted(m, b)
    ensures NH(m, a) == NH(m, b)
{
    let k = choose|k: nat| #[trigger] obj_ok(m, a, k); let l = choose|k: nat| #[trigger] obj_ok(m, b, k);
    same_ok(m, a, b, k, l); same_hash(m, a, b, k); nh_fuel(m, b, k, l);
}
pub proof fn NH_is(m: DM, o: DawgNode_o, k: nat) requires obj_ok(m, o, k) ensures NH(m, o) == nh(m, o, k)
{ nh_fuel(m, o, k, choose|k: nat| #[trigger] obj_ok(m, o, k)); }
