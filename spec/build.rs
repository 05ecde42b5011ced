// ---------------------------------------------------------------------------------------------
// Building a dictionary from an ascending sequence (Daciuk): the part that is finished_ok and minimal is registered, the path of the last
// term is still open; its transitions are not linked yet.
// ---------------------------------------------------------------------------------------------
pub open spec fn KM() -> nat { 0x7fff_fff0 }
pub type P1 = spec_fn(Addr) -> bool;
pub open spec fn closed(m: DM, P: P1) -> bool { forall|x: Addr| #[trigger] P(x) ==> x != 0 && m.contains_key(x) && forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) ==> P(m[x]._edges@[c]) }
pub open spec fn agree(m: DM, n: DM, P: P1) -> bool { forall|x: Addr| #[trigger] P(x) ==> n.contains_key(x) && n[x] == m[x] }
pub open spec fn into(o: DawgNode_o, P: P1) -> bool { forall|c: i8| #[trigger] o._edges@.contains_key(c) ==> P(o._edges@[c]) }
pub proof fn fr_lang(m: DM, n: DM, P: P1, o: DawgNode_o, s: Seq<i8>)
    requires closed(m, P), agree(m, n, P), into(o, P)
    ensures lang(n, o, s) == lang(m, o, s)
    decreases s.len()
{ if s.len() > 0 && o._edges@.contains_key(s[0]) { assert(P(o._edges@[s[0]])); fr_lang(m, n, P, m[o._edges@[s[0]]], s.drop_first()); } }
pub proof fn fr_ok(m: DM, n: DM, P: P1, x: Addr, k: nat)
    requires closed(m, P), agree(m, n, P), P(x), node_ok(m, x, k)
    ensures node_ok(n, x, k)
    decreases k
{ assert forall|c: i8| #[trigger] n[x]._edges@.contains_key(c) implies k > 0 && node_ok(n, n[x]._edges@[c], (k - 1) as nat) by { assert(m[x]._edges@.contains_key(c)); fr_ok(m, n, P, m[x]._edges@[c], (k - 1) as nat); } }
pub proof fn fr_obj_ok(m: DM, n: DM, P: P1, o: DawgNode_o, k: nat)
    requires closed(m, P), agree(m, n, P), into(o, P), obj_ok(m, o, k)
    ensures obj_ok(n, o, k)
{ assert forall|c: i8| #[trigger] o._edges@.contains_key(c) implies k > 0 && node_ok(n, o._edges@[c], (k - 1) as nat) by { fr_ok(m, n, P, o._edges@[c], (k - 1) as nat); } }
pub proof fn fr_same_k(m: DM, n: DM, P: P1, a: DawgNode_o, b: DawgNode_o, k: nat)
    requires closed(m, P), agree(m, n, P), into(a, P), into(b, P)
    ensures same_k(n, a, b, k) == same_k(m, a, b, k)
    decreases k
{
    if k > 0 && a._edges@.dom() =~= b._edges@.dom() {
        assert forall|c: i8| #[trigger] a._edges@.contains_key(c) implies same_k(n, n[a._edges@[c]], n[b._edges@[c]], (k - 1) as nat) == same_k(m, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat) by {
            assert(b._edges@.contains_key(c)); assert(P(a._edges@[c]) && P(b._edges@[c])); fr_same_k(m, n, P, m[a._edges@[c]], m[b._edges@[c]], (k - 1) as nat); }
    }
}
pub proof fn fr_same(m: DM, n: DM, P: P1, a: DawgNode_o, b: DawgNode_o)
    requires closed(m, P), agree(m, n, P), into(a, P), into(b, P)
    ensures same(n, a, b) == same(m, a, b)
{
    assert forall|k: nat| #[trigger] same_k(n, a, b, k) == same_k(m, a, b, k) by { fr_same_k(m, n, P, a, b, k); }
    if same(m, a, b) { assert forall|k: nat| #[trigger] same_k(n, a, b, k) by { assert(same_k(m, a, b, k)); } }
    if same(n, a, b) { assert forall|k: nat| #[trigger] same_k(m, a, b, k) by { assert(same_k(n, a, b, k)); } }
}
pub proof fn fr_nh(m: DM, n: DM, P: P1, o: DawgNode_o, k: nat)
    requires closed(m, P), agree(m, n, P), into(o, P)
    ensures nh(n, o, k) == nh(m, o, k)
    decreases k, 1nat, 0nat
{ axiom_map_order(o._edges@); fr_fold(m, n, P, o, map_order(o._edges@), k); }
pub proof fn fr_fold(m: DM, n: DM, P: P1, o: DawgNode_o, keys: Seq<i8>, k: nat)
    requires closed(m, P), agree(m, n, P), into(o, P), forall|i: int| 0 <= i < keys.len() ==> o._edges@.contains_key(#[trigger] keys[i])
    ensures nfold(n, o._edges@, keys, k) == nfold(m, o._edges@, keys, k)
    decreases k, 0nat, keys.len()
{ if keys.len() > 0 && k > 0 { let y = o._edges@[keys.last()]; assert(o._edges@.contains_key(keys.last())); assert(P(y)); fr_nh(m, n, P, m[y], (k - 1) as nat); fr_fold(m, n, P, o, keys.drop_last(), k); } }
pub proof fn fr_NH(m: DM, n: DM, P: P1, o: DawgNode_o, k: nat)
    requires closed(m, P), agree(m, n, P), into(o, P), obj_ok(m, o, k)
    ensures NH(n, o) == NH(m, o), obj_rooted(n, o), obj_rooted(m, o)
{ fr_obj_ok(m, n, P, o, k); fr_nh(m, n, P, o, k); NH_is(m, o, k); NH_is(n, o, k); }
pub proof fn fr_walk(m: DM, n: DM, P: P1, x: Addr, s: Seq<i8>)
    requires closed(m, P), agree(m, n, P), P(x)
    ensures walk(n, x, s) == walk(m, x, s), walk(m, x, s) != 0 ==> P(walk(m, x, s))
    decreases s.len()
{ if s.len() > 0 { fr_walk(m, n, P, x, s.drop_last()); } }
// ---- the register
pub open spec fn inV(t: DawgNode_map_s, x: Addr) -> bool { exists|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == x }
pub open spec fn VP(t: DawgNode_map_s) -> P1 { |x: Addr| inV(t, x) }
pub open spec fn alive(m: DM, o: DawgNode_o) -> bool { exists|s: Seq<i8>| lang(m, o, s) }
pub open spec fn reg_ok(m: DM, t: DawgNode_map_s) -> bool {
    &&& table_ok(m, t)
    &&& forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> t.ent[o] != 0 && m.contains_key(t.ent[o]) && m[t.ent[o]] == o && into(o, VP(t)) && alive(m, o) && node_ok(m, t.ent[o], KM())
}
pub proof fn reg_closed(m: DM, t: DawgNode_map_s)
    requires reg_ok(m, t)
    ensures closed(m, VP(t))
{ assert forall|x: Addr| #[trigger] VP(t)(x) implies x != 0 && m.contains_key(x) && forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) ==> VP(t)(m[x]._edges@[c]) by { let o = choose|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == x; assert(into(o, VP(t))); } }
pub proof fn reg_fr(m: DM, n: DM, t: DawgNode_map_s)
    requires reg_ok(m, t), agree(m, n, VP(t))
    ensures reg_ok(n, t)
{
    reg_closed(m, t); let P = VP(t);
    assert forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) implies obj_rooted(n, o) && t.hash[o] == NH(n, o) && n.contains_key(t.ent[o]) && n[t.ent[o]] == o && alive(n, o) && node_ok(n, t.ent[o], KM()) by {
        assert(P(t.ent[o])); assert(into(o, P)); assert(node_ok(m, t.ent[o], KM())); assert(obj_ok(m, o, KM()));
        fr_NH(m, n, P, o, KM()); fr_ok(m, n, P, t.ent[o], KM()); let s = choose|s: Seq<i8>| lang(m, o, s); fr_lang(m, n, P, o, s); assert(lang(n, o, s));
    }
    assert forall|o: DawgNode_o, p: DawgNode_o| #![trigger t.ent.contains_key(o), t.ent.contains_key(p)] t.ent.contains_key(o) && t.ent.contains_key(p) && same(n, o, p) implies o == p by { fr_same(m, n, P, o, p); }
}
// ---- the open path
pub open spec fn nd(R: Addr, U: Seq<Transition_o>, i: int) -> Addr { if i == 0 { R } else { U[i - 1]._target } }
pub open spec fn chain(m: DM, R: Addr, U: Seq<Transition_o>, w: Seq<i8>) -> bool {
    &&& U.len() <= w.len()
    &&& forall|i: int| 0 <= i < U.len() ==> (#[trigger] U[i])._source == nd(R, U, i) && U[i]._label == w[i]
    &&& forall|i: int| 0 <= i <= U.len() ==> #[trigger] nd(R, U, i) != 0 && m.contains_key(nd(R, U, i))
    &&& forall|i: int, j: int| 0 <= i < j <= U.len() ==> #[trigger] nd(R, U, i) != #[trigger] nd(R, U, j)
}
/// the edges of the node after i letters of w: registered targets, labels before that of the open transition
pub open spec fn open_ok(m: DM, t: DawgNode_map_s, x: Addr, w: Seq<i8>, i: int, k: int) -> bool {
    forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) ==> i < w.len() && uch(c) <= uch(w[i]) && (i < k ==> uch(c) < uch(w[i])) && inV(t, m[x]._edges@[c]) && node_ok(m, m[x]._edges@[c], (KM() - i - 1) as nat)
}
pub open spec fn b_ok(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>) -> bool {
    &&& w.len() <= KM() &&& chain(m, R, U, w) &&& reg_ok(m, t)
    &&& forall|i: int| 0 <= i <= U.len() ==> !inV(t, #[trigger] nd(R, U, i)) && open_ok(m, t, nd(R, U, i), w, i, U.len() as int)
    &&& !F.contains(R) &&& !F.contains(0)
    &&& forall|x: Addr| #[trigger] F.contains(x) ==> m.contains_key(x)
    &&& forall|x: Addr| #[trigger] inV(t, x) ==> F.contains(x)
    &&& forall|i: int| 0 <= i < U.len() ==> F.contains((#[trigger] U[i])._target)
}
pub open spec fn top_alive(m: DM, R: Addr, U: Seq<Transition_o>) -> bool { U.len() > 0 ==> alive(m, m[nd(R, U, U.len() as int)]) }
/// what the node after i letters accepts, the open transitions taken as linked
pub open spec fn clang(m: DM, R: Addr, U: Seq<Transition_o>, i: int, s: Seq<i8>) -> bool
    decreases s.len()
{
    let o = m[nd(R, U, i)];
    if s.len() == 0 { o._is_final } else if i < U.len() && U[i]._label == s[0] { clang(m, R, U, i + 1, s.drop_first()) } else { o._edges@.contains_key(s[0]) && lang(m, m[o._edges@[s[0]]], s.drop_first()) }
}
pub proof fn clang_top(m: DM, R: Addr, U: Seq<Transition_o>, s: Seq<i8>)
    ensures clang(m, R, U, U.len() as int, s) == lang(m, m[nd(R, U, U.len() as int)], s)
{ }
/// closing the last open transition
pub open spec fn closes(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, t1: DawgNode_map_s, e: Addr) -> bool {
    let k = U.len() as int; let x = nd(R, U, k - 1); let n = nd(R, U, k);
    &&& m1.dom() =~= m.dom() &&& forall|y: Addr| y != x ==> #[trigger] m1[y] == m[y]
    &&& m1[x]._is_final == m[x]._is_final &&& m1[x]._edges@ == m[x]._edges@.insert(U[k - 1]._label, e)
    &&& (t1 == t && (exists|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == e && same(m, o, m[n])))
        || (e == n && (forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> !same(m, o, m[n])) && t1.ent == t.ent.insert(m[n], n) && t1.hash == t.hash.insert(m[n], NH(m1, m[n])))
}
pub proof fn top_obj(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>)
    requires b_ok(m, R, U, t, F, w), U.len() > 0
    ensures into(m[nd(R, U, U.len() as int)], VP(t)), obj_ok(m, m[nd(R, U, U.len() as int)], (KM() - U.len()) as nat), key_ok(m, t, m[nd(R, U, U.len() as int)]), table_ok(m, t)
{
    let k = U.len() as int; let o = m[nd(R, U, k)]; assert(open_ok(m, t, nd(R, U, k), w, k, k));
    assert(obj_ok(m, o, (KM() - k) as nat));
    assert forall|p: DawgNode_o| #[trigger] t.ent.contains_key(p) && same(m, p, o) implies NH(m, p) == NH(m, o) by { same_NH(m, p, o); }
}
/// the table can be searched in every heap that has the registered nodes as they were
pub proof fn top_any(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, m1: DM)
    requires b_ok(m, R, U, t, F, w), U.len() > 0, forall|y: Addr| y != nd(R, U, U.len() - 1) ==> (#[trigger] m1.contains_key(y)) == m.contains_key(y) && m1[y] == m[y]
    ensures table_ok(m1, t), key_ok(m1, t, m[nd(R, U, U.len() as int)]), agree(m, m1, VP(t)), reg_ok(m1, t), forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> same(m1, o, m[nd(R, U, U.len() as int)]) == same(m, o, m[nd(R, U, U.len() as int)])
{
    let P = VP(t); let k = U.len() as int; let o = m[nd(R, U, k)]; top_obj(m, R, U, t, F, w); reg_closed(m, t);
    assert(agree(m, m1, P)) by { assert forall|x: Addr| #[trigger] P(x) implies m1.contains_key(x) && m1[x] == m[x] by { assert(!inV(t, nd(R, U, k - 1))); assert(m1.contains_key(x) == m.contains_key(x)); } }
    reg_fr(m, m1, t); fr_NH(m, m1, P, o, (KM() - k) as nat);
    assert forall|p: DawgNode_o| #[trigger] t.ent.contains_key(p) implies same(m1, p, o) == same(m, p, o) by { assert(into(p, P)); fr_same(m, m1, P, p, o); }
    assert forall|p: DawgNode_o| #[trigger] t.ent.contains_key(p) && same(m1, p, o) implies NH(m1, p) == NH(m1, o) by { same_NH(m1, p, o); }
}
pub proof fn close_reg(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, t1: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, e: Addr)
    requires b_ok(m, R, U, t, F, w), top_alive(m, R, U), U.len() > 0, closes(m, m1, R, U, t, t1, e)
    ensures reg_ok(m1, t1), forall|y: Addr| #[trigger] inV(t, y) ==> inV(t1, y), forall|y: Addr| #[trigger] inV(t1, y) ==> inV(t, y) || y == nd(R, U, U.len() as int),
        agree(m, m1, VP(t)), inV(t1, e)
{
    let k = U.len() as int; let x = nd(R, U, k - 1); let n = nd(R, U, k); let P = VP(t); let ob = m[n];
    top_any(m, R, U, t, F, w, m1); top_obj(m, R, U, t, F, w); reg_closed(m, t);
    if t1 == t && (exists|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == e && same(m, o, m[n])) { } else {
        assert(m1[n] == ob) by { assert(x != n); }
        fr_obj_ok(m, m1, P, ob, (KM() - k) as nat);
        assert(m1.contains_key(n)); assert(node_ok(m1, n, (KM() - k) as nat)); node_ok_mono(m1, n, (KM() - k) as nat, KM());
        let s0 = choose|s: Seq<i8>| lang(m, ob, s); fr_lang(m, m1, P, ob, s0); assert(lang(m1, ob, s0));
        assert(!t.ent.contains_key(ob)) by { same_refl(m, ob); }
        assert forall|o: DawgNode_o| #[trigger] t1.ent.contains_key(o) == (t.ent.contains_key(o) || o == ob) by { }
        assert forall|y: Addr| #[trigger] inV(t, y) implies inV(t1, y) by { let o = choose|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == y; assert(t1.ent.contains_key(o) && t1.ent[o] == y); }
        assert forall|y: Addr| #[trigger] inV(t1, y) implies inV(t, y) || y == n by { let o = choose|o: DawgNode_o| #[trigger] t1.ent.contains_key(o) && t1.ent[o] == y; if o != ob { assert(t.ent.contains_key(o) && t.ent[o] == y); } }
        assert(t1.ent.contains_key(ob)); assert(inV(t1, n));
        assert forall|o: DawgNode_o| #[trigger] t1.ent.contains_key(o) implies obj_rooted(m1, o) && t1.hash[o] == NH(m1, o) && t1.ent[o] != 0 && m1.contains_key(t1.ent[o]) && m1[t1.ent[o]] == o && into(o, VP(t1)) && alive(m1, o) && node_ok(m1, t1.ent[o], KM()) by {
            if o != ob { assert(t.ent.contains_key(o)); }
            assert(into(o, P)); assert forall|c: i8| #[trigger] o._edges@.contains_key(c) implies VP(t1)(o._edges@[c]) by { assert(P(o._edges@[c])); }
        }
        assert forall|o: DawgNode_o, p: DawgNode_o| #![trigger t1.ent.contains_key(o), t1.ent.contains_key(p)] t1.ent.contains_key(o) && t1.ent.contains_key(p) && same(m1, o, p) implies o == p by {
            if o != p { if o == ob { assert(t.ent.contains_key(p)); same_sym(m1, o, p); } else { assert(t.ent.contains_key(o)); if p != ob { assert(t.ent.contains_key(p)); } } }
        }
        assert(t1.hash.dom() =~= t1.ent.dom());
    }
}
/// what the transition leads to now
pub proof fn close_edge(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, t1: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, e: Addr)
    requires b_ok(m, R, U, t, F, w), top_alive(m, R, U), U.len() > 0, closes(m, m1, R, U, t, t1, e)
    ensures node_ok(m1, e, (KM() - U.len()) as nat), into(m[e], VP(t)), m1[e] == m[e], m1.contains_key(e), forall|s: Seq<i8>| lang(m1, m1[e], s) == lang(m, m[nd(R, U, U.len() as int)], s)
{
    let k = U.len() as int; let x = nd(R, U, k - 1); let n = nd(R, U, k); let P = VP(t); let ob = m[n];
    top_any(m, R, U, t, F, w, m1); top_obj(m, R, U, t, F, w); reg_closed(m, t);
    if t1 == t && (exists|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == e && same(m, o, m[n])) {
        let o = choose|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == e && same(m, o, ob); assert(into(o, P)); assert(P(e)); same_sym(m, o, ob); assert(node_ok(m, e, KM())); assert(obj_ok(m, o, KM()));
        same_ok(m, ob, o, (KM() - k) as nat, KM()); assert(node_ok(m, e, (KM() - k) as nat)); fr_ok(m, m1, P, e, (KM() - k) as nat);
    } else {
        assert(m1[n] == ob) by { assert(x != n); }
        fr_obj_ok(m, m1, P, ob, (KM() - k) as nat); assert(m1.contains_key(n)); assert(node_ok(m1, n, (KM() - k) as nat)); same_refl(m, ob);
    }
    assert(same(m, m[e], ob));
    assert forall|s: Seq<i8>| lang(m1, m1[e], s) == lang(m, ob, s) by { fr_lang(m, m1, P, m[e], s); same_is_lang(m, m[e], ob, s); }
}
pub proof fn chain_drop(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, w: Seq<i8>)
    requires chain(m, R, U, w), U.len() > 0, forall|y: Addr| m.contains_key(y) ==> #[trigger] m1.contains_key(y)
    ensures chain(m1, R, U.drop_last(), w), forall|i: int| 0 <= i < U.len() ==> #[trigger] nd(R, U.drop_last(), i) == nd(R, U, i)
{
    let W = U.drop_last();
    assert forall|i: int| 0 <= i <= W.len() implies #[trigger] nd(R, W, i) == nd(R, U, i) by { }
    assert forall|i: int| 0 <= i < W.len() implies (#[trigger] W[i])._source == nd(R, W, i) && W[i]._label == w[i] by { assert(U[i] == W[i]); }
    assert forall|i: int| 0 <= i <= W.len() implies #[trigger] nd(R, W, i) != 0 && m1.contains_key(nd(R, W, i)) by { assert(nd(R, U, i) != 0 && m.contains_key(nd(R, U, i))); }
    assert forall|i: int, j: int| 0 <= i < j <= W.len() implies #[trigger] nd(R, W, i) != #[trigger] nd(R, W, j) by { assert(nd(R, U, i) != nd(R, U, j)); }
}
pub proof fn close_one(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, t1: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, e: Addr, i: int)
    requires b_ok(m, R, U, t, F, w), top_alive(m, R, U), U.len() > 0, closes(m, m1, R, U, t, t1, e), 0 <= i < U.len()
    ensures !inV(t1, nd(R, U, i)), open_ok(m1, t1, nd(R, U, i), w, i, U.len() - 1)
{
    let k = U.len() as int; let P = VP(t); let l = U[k - 1]._label; let y = nd(R, U, i); let K = (KM() - i - 1) as nat;
    close_reg(m, m1, R, U, t, t1, F, w, e); close_edge(m, m1, R, U, t, t1, F, w, e); reg_closed(m, t);
    assert(l == w[k - 1]);
    assert(!inV(t, y)); assert(y != nd(R, U, k)); assert(open_ok(m, t, y, w, i, k)); if i < k - 1 { assert(y != nd(R, U, k - 1)); assert(m1[y] == m[y]); }
    assert forall|c: i8| #[trigger] m1[y]._edges@.contains_key(c) implies i < w.len() && uch(c) <= uch(w[i]) && (i < k - 1 ==> uch(c) < uch(w[i])) && inV(t1, m1[y]._edges@[c]) && node_ok(m1, m1[y]._edges@[c], K) by {
        if i == k - 1 && c == l { assert(m1[y]._edges@[c] == e); } else { assert(m[y]._edges@.contains_key(c)); let z = m[y]._edges@[c]; assert(inV(t, z)); assert(m1[y]._edges@[c] == z); assert(P(z)); fr_ok(m, m1, P, z, K); }
    }
}
pub proof fn close_top(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, t1: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, e: Addr)
    requires b_ok(m, R, U, t, F, w), top_alive(m, R, U), U.len() > 0, closes(m, m1, R, U, t, t1, e)
    ensures b_ok(m1, R, U.drop_last(), t1, F, w), top_alive(m1, R, U.drop_last()), forall|s: Seq<i8>| #[trigger] clang(m1, R, U.drop_last(), 0, s) == clang(m, R, U, 0, s)
{
    let k = U.len() as int; let x = nd(R, U, k - 1); let n = nd(R, U, k); let W = U.drop_last(); let l = U[k - 1]._label;
    close_reg(m, m1, R, U, t, t1, F, w, e); close_edge(m, m1, R, U, t, t1, F, w, e); chain_drop(m, m1, R, U, w);
    assert forall|i: int| 0 <= i <= W.len() implies !inV(t1, #[trigger] nd(R, W, i)) && open_ok(m1, t1, nd(R, W, i), w, i, W.len() as int) by { close_one(m, m1, R, U, t, t1, F, w, e, i); }
    assert(F.contains(n)) by { assert(F.contains(U[k - 1]._target)); }
    assert forall|i: int| 0 <= i < W.len() implies F.contains((#[trigger] W[i])._target) by { assert(U[i] == W[i]); }
    assert(b_ok(m1, R, W, t1, F, w));
    let s0 = choose|s: Seq<i8>| lang(m, m[n], s);
    assert(nd(R, W, W.len() as int) == x);
    assert(alive(m1, m1[x])) by { lang_edge(m1, m1[x], l, s0); assert(lang(m1, m1[e], s0)); assert(lang(m1, m1[x], seq![l] + s0)); }
    assert forall|s: Seq<i8>| #[trigger] clang(m1, R, W, 0, s) == clang(m, R, U, 0, s) by { close_lang(m, m1, R, U, t, F, w, e, 0, s); }
}
pub proof fn close_lang(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, e: Addr, i: int, s: Seq<i8>)
    requires b_ok(m, R, U, t, F, w), U.len() > 0, 0 <= i < U.len(), m1.dom() =~= m.dom(), forall|y: Addr| y != nd(R, U, U.len() - 1) ==> #[trigger] m1[y] == m[y],
        ({ let x = nd(R, U, U.len() - 1); m1[x]._is_final == m[x]._is_final && m1[x]._edges@ == m[x]._edges@.insert(U.last()._label, e) }),
        forall|z: Seq<i8>| lang(m1, m1[e], z) == lang(m, m[nd(R, U, U.len() as int)], z)
    ensures clang(m1, R, U.drop_last(), i, s) == clang(m, R, U, i, s)
    decreases s.len()
{
    hide(node_ok); hide(reg_ok);
    let k = U.len() as int; let W = U.drop_last(); let P = VP(t); let x = nd(R, U, k - 1); let y = nd(R, U, i);
    top_any(m, R, U, t, F, w, m1); reg_closed(m, t);
    assert(nd(R, W, i) == y); assert(open_ok(m, t, y, w, i, k)); if i < k - 1 { assert(y != x); }
    if s.len() > 0 {
        if U[i]._label == s[0] {
            if i < k - 1 { assert(W[i] == U[i]); close_lang(m, m1, R, U, t, F, w, e, i + 1, s.drop_first()); }
            else { clang_top(m, R, U, s.drop_first()); }
        } else if m[y]._edges@.contains_key(s[0]) { if i < k - 1 { assert(W[i] == U[i]); } assert(P(m[y]._edges@[s[0]])); fr_lang(m, m1, P, m[m[y]._edges@[s[0]]], s.drop_first()); }
        else { if i < k - 1 { assert(W[i] == U[i]); } }
    }
}

/// what closing the last open transition relies on
pub proof fn top_facts(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>)
    requires b_ok(m, R, U, t, F, w), U.len() > 0
    ensures ({ let x = nd(R, U, U.len() - 1); let n = nd(R, U, U.len() as int);
        &&& U.last()._source == x && U.last()._target == n && x != 0 && n != 0 && x != n && m.contains_key(x) && m.contains_key(n) && (x == R || F.contains(x)) && !m[x]._edges@.contains_key(U.last()._label)
        &&& forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> t.ent[o] != 0
        &&& table_ok(m, t) && key_ok(m, t, m[n])
        &&& forall|m1: DM| (#[trigger] only_at(m, m1, x)) ==> table_ok(m1, t) && key_ok(m1, t, m[n]) && (forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> same(m1, o, m[n]) == same(m, o, m[n]))
    })
{
    let x = nd(R, U, U.len() - 1); let n = nd(R, U, U.len() as int);
    top_obj(m, R, U, t, F, w);
    assert(U[U.len() - 1] == U.last()); assert(open_ok(m, t, x, w, U.len() - 1, U.len() as int)); if U.len() > 1 { assert(F.contains(U[U.len() - 2]._target)); }
    assert forall|m1: DM| (#[trigger] only_at(m, m1, x)) implies table_ok(m1, t) && key_ok(m1, t, m[n]) && (forall|o: DawgNode_o| #[trigger] t.ent.contains_key(o) ==> same(m1, o, m[n]) == same(m, o, m[n])) by { assert(forall|y: Addr| y != x ==> (#[trigger] m1.contains_key(y)) == m.contains_key(y) && m1[y] == m[y]); top_any(m, R, U, t, F, w, m1); }
}
pub open spec fn only_at(m: DM, m1: DM, x: Addr) -> bool { m1 == m.insert(x, m1[x]) }
// ---- taking up the next term
pub open spec fn pre_same(u: Seq<i8>, v: Seq<i8>, i: int) -> bool { 0 <= i <= u.len() && i <= v.len() && forall|j: int| 0 <= j < i ==> #[trigger] u[j] == v[j] }
pub proof fn lex_pre(u: Seq<i8>, v: Seq<i8>, i: int)
    requires pre_same(u, v, i), i == u.len() || i == v.len() || u[i] != v[i]
    ensures lex_lt(u, v) == (if i < u.len() && i < v.len() { uch(u[i]) < uch(v[i]) } else { u.len() < v.len() && i == u.len() })
    decreases u.len()
{
    if i > 0 {
        assert(u[0] == v[0]); let a = u.drop_first(); let b = v.drop_first();
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] a[j] == b[j] by { assert(u[j + 1] == v[j + 1]); }
        lex_pre(a, b, i - 1);
    } else if u.len() > 0 && v.len() > 0 { uch_inj(u[0], v[0]); }
}
pub proof fn uch_inj(a: i8, b: i8) ensures uch(a) == uch(b) <==> a == b { assert(((a as u8) == (b as u8)) ==> a == b) by (bit_vector); }
pub open spec fn strict(m: DM, R: Addr, U: Seq<Transition_o>, w: Seq<i8>) -> bool {
    let i = U.len() as int; forall|c: i8| #[trigger] m[nd(R, U, i)]._edges@.contains_key(c) ==> i < w.len() && uch(c) < uch(w[i])
}
/// the open path, cut to what the old term shares with the new one, is an open path of the new one
pub proof fn rew(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>, v: Seq<i8>)
    requires b_ok(m, R, U, t, F, w), pre_same(w, v, U.len() as int), U.len() == w.len() || U.len() == v.len() || w[U.len() as int] != v[U.len() as int], !lex_lt(v, w), v.len() <= KM()
    ensures b_ok(m, R, U, t, F, v), strict(m, R, U, v)
{
    let k = U.len() as int; lex_pre(w, v, k);
    assert forall|j: int| 0 <= j < k implies #[trigger] v[j] == w[j] by { assert(w[j] == v[j]); }
    lex_pre(v, w, k);
    if k < w.len() && k < v.len() { uch_inj(w[k], v[k]); }
    assert(open_ok(m, t, nd(R, U, k), w, k, k));
    assert forall|i: int| 0 <= i <= U.len() implies !inV(t, #[trigger] nd(R, U, i)) && open_ok(m, t, nd(R, U, i), v, i, k) by { assert(open_ok(m, t, nd(R, U, i), w, i, k)); }
    assert forall|i: int| 0 <= i < U.len() implies (#[trigger] U[i])._source == nd(R, U, i) && U[i]._label == v[i] by { assert(w[i] == v[i]); }
}
pub proof fn grow_lang(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, v: Seq<i8>, tr: Transition_o, i: int, s: Seq<i8>)
    requires b_ok(m, R, U, t, F, v), strict(m, R, U, v), U.len() < v.len(), 0 <= i <= U.len(), grows(m, m1, R, U, v, tr)
    ensures clang(m1, R, U.push(tr), i, s) == clang(m, R, U, i, s)
    decreases s.len()
{
    let k = U.len() as int; let W = U.push(tr); let P = VP(t); let y = nd(R, U, i); let n = tr._target; reg_closed(m, t);
    assert(nd(R, W, i) == y) by { if i > 0 { assert(W[i - 1] == U[i - 1]); } } assert(m.contains_key(y)); assert(m1[y] == m[y]);
    assert(agree(m, m1, P)); assert(open_ok(m, t, y, v, i, k));
    if i < k { assert(W[i] == U[i]); }
    if s.len() > 0 {
        let r = s.drop_first();
        if i < k && U[i]._label == s[0] { grow_lang(m, m1, R, U, t, F, v, tr, i + 1, r); }
        else if i == k && v[k] == s[0] {
            assert(nd(R, W, k + 1) == n); assert(!m[y]._edges@.contains_key(s[0]));
            assert(clang(m1, R, W, k + 1, r) == lang(m1, m1[n], r)) by { clang_top(m1, R, W, r); }
            assert(!lang(m1, m1[n], r));
        } else if m[y]._edges@.contains_key(s[0]) { assert(P(m[y]._edges@[s[0]])); fr_lang(m, m1, P, m[m[y]._edges@[s[0]]], r); }
    }
}
pub open spec fn grows(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, v: Seq<i8>, tr: Transition_o) -> bool {
    let n = tr._target; !m.contains_key(n) && n != 0 && m1 == m.insert(n, m1[n]) && !m1[n]._is_final && m1[n]._edges@ == Map::<i8, Addr>::empty() && tr._source == nd(R, U, U.len() as int) && tr._label == v[U.len() as int]
}
pub proof fn grow(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, v: Seq<i8>, tr: Transition_o)
    requires b_ok(m, R, U, t, F, v), strict(m, R, U, v), U.len() < v.len(), grows(m, m1, R, U, v, tr)
    ensures b_ok(m1, R, U.push(tr), t, F.insert(tr._target), v), strict(m1, R, U.push(tr), v), forall|s: Seq<i8>| #[trigger] clang(m1, R, U.push(tr), 0, s) == clang(m, R, U, 0, s), nd(R, U.push(tr), U.len() as int + 1) == tr._target
{
    hide(node_ok); hide(clang); hide(strict); hide(lang); let keep = reg_ok(m, t) && strict(m, R, U, v);
    let k = U.len() as int; let W = U.push(tr); let P = VP(t); let n = tr._target; reg_closed(m, t);
    assert forall|i: int| 0 <= i <= k implies #[trigger] nd(R, W, i) == nd(R, U, i) by { if i > 0 { assert(W[i - 1] == U[i - 1]); } }
    assert(agree(m, m1, P)); reg_fr(m, m1, t);
    assert(!inV(t, n));
    assert forall|i: int| 0 <= i < W.len() implies (#[trigger] W[i])._source == nd(R, W, i) && W[i]._label == v[i] by { if i < k { assert(W[i] == U[i]); } }
    assert forall|i: int| 0 <= i <= W.len() implies #[trigger] nd(R, W, i) != 0 && m1.contains_key(nd(R, W, i)) by { if i <= k { assert(nd(R, U, i) != 0 && m.contains_key(nd(R, U, i))); } }
    assert forall|i: int, j: int| 0 <= i < j <= W.len() implies #[trigger] nd(R, W, i) != #[trigger] nd(R, W, j) by { assert(m.contains_key(nd(R, U, i))); if j <= k { assert(nd(R, U, i) != nd(R, U, j)); } }
    assert forall|i: int| 0 <= i <= W.len() implies !inV(t, #[trigger] nd(R, W, i)) && open_ok(m1, t, nd(R, W, i), v, i, k + 1) by {
        if i <= k {
            let y = nd(R, U, i); assert(m.contains_key(y)); assert(m1[y] == m[y]); assert(!inV(t, y)); assert(open_ok(m, t, y, v, i, k)); reveal(strict);
            assert forall|c: i8| #[trigger] m1[y]._edges@.contains_key(c) implies i < v.len() && uch(c) < uch(v[i]) && inV(t, m1[y]._edges@[c]) && node_ok(m1, m1[y]._edges@[c], (KM() - i - 1) as nat) by { assert(m[y]._edges@.contains_key(c)); let z = m[y]._edges@[c]; assert(inV(t, z)); assert(P(z)); fr_ok(m, m1, P, z, (KM() - i - 1) as nat); }
        }
    }
    reveal(strict); assert(nd(R, W, k + 1) == n);
    assert forall|i: int| 0 <= i < W.len() implies F.insert(n).contains((#[trigger] W[i])._target) by { if i < k { assert(W[i] == U[i]); } }
    assert(!F.contains(n)) by { if F.contains(n) { assert(m.contains_key(n)); } }
    assert(R == nd(R, U, 0)); assert(m.contains_key(R));
    assert forall|s: Seq<i8>| #[trigger] clang(m1, R, W, 0, s) == clang(m, R, U, 0, s) by { grow_lang(m, m1, R, U, t, F, v, tr, 0, s); }
}
/// the last node of the open path becomes a word end
pub open spec fn marks(m: DM, m1: DM, x: Addr) -> bool { m.contains_key(x) && m1 == m.insert(x, m1[x]) && m1[x]._is_final && m1[x]._edges == m[x]._edges }
pub proof fn tail_eq(v: Seq<i8>, i: int, s: Seq<i8>)
    requires 0 <= i <= v.len()
    ensures (s == v.skip(i)) == (if s.len() == 0 { i == v.len() } else { i < v.len() && s[0] == v[i] && s.drop_first() == v.skip(i + 1) })
{
    let q = v.skip(i);
    if s.len() > 0 && i < v.len() && s[0] == v[i] && s.drop_first() == v.skip(i + 1) {
        assert forall|j: int| 0 <= j < s.len() implies s[j] == q[j] by { if j > 0 { assert(s.drop_first()[j - 1] == v.skip(i + 1)[j - 1]); } }
        assert(s.drop_first().len() == v.skip(i + 1).len()); assert(s =~= q);
    }
    if s == q { if s.len() > 0 { assert(s.drop_first() =~= v.skip(i + 1)); } }
    if s.len() == 0 && i == v.len() { assert(s =~= q); }
}
pub proof fn mark_lang(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, v: Seq<i8>, i: int, s: Seq<i8>)
    requires b_ok(m, R, U, t, F, v), U.len() == v.len(), 0 <= i <= U.len(), marks(m, m1, nd(R, U, U.len() as int))
    ensures clang(m1, R, U, i, s) == (clang(m, R, U, i, s) || s == v.skip(i))
    decreases s.len()
{
    hide(node_ok); hide(reg_ok);
    let k = U.len() as int; let P = VP(t); let y = nd(R, U, i); let x = nd(R, U, k); reg_closed(m, t); tail_eq(v, i, s);
    assert(!inV(t, x)); assert(agree(m, m1, P)); if i < k { assert(y != x); assert(m1[y] == m[y]); assert(U[i]._label == v[i]); } assert(m1[y]._edges == m[y]._edges);
    if s.len() > 0 {
        let r = s.drop_first();
        if i < k && U[i]._label == s[0] { mark_lang(m, m1, R, U, t, F, v, i + 1, r); }
        else {
            if m[y]._edges@.contains_key(s[0]) { assert(open_ok(m, t, y, v, i, k)); assert(P(m[y]._edges@[s[0]])); fr_lang(m, m1, P, m[m[y]._edges@[s[0]]], r); }
        }
    }
}
pub proof fn mark(m: DM, m1: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, v: Seq<i8>)
    requires b_ok(m, R, U, t, F, v), U.len() == v.len(), marks(m, m1, nd(R, U, U.len() as int))
    ensures b_ok(m1, R, U, t, F, v), top_alive(m1, R, U), forall|s: Seq<i8>| #[trigger] clang(m1, R, U, 0, s) == (clang(m, R, U, 0, s) || s == v)
{
    let k = U.len() as int; let P = VP(t); let x = nd(R, U, k); reg_closed(m, t);
    assert(!inV(t, x)); assert(agree(m, m1, P)); reg_fr(m, m1, t);
    assert forall|i: int| 0 <= i <= k implies #[trigger] nd(R, U, i) != 0 && m1.contains_key(nd(R, U, i)) by { assert(m.contains_key(nd(R, U, i))); }
    assert forall|i: int| 0 <= i <= k implies !inV(t, #[trigger] nd(R, U, i)) && open_ok(m1, t, nd(R, U, i), v, i, k) by {
        let y = nd(R, U, i); assert(open_ok(m, t, y, v, i, k)); assert(m1[y]._edges == m[y]._edges);
        assert forall|c: i8| #[trigger] m1[y]._edges@.contains_key(c) implies i < v.len() && uch(c) <= uch(v[i]) && (i < k ==> uch(c) < uch(v[i])) && inV(t, m1[y]._edges@[c]) && node_ok(m1, m1[y]._edges@[c], (KM() - i - 1) as nat) by { assert(m[y]._edges@.contains_key(c)); let z = m[y]._edges@[c]; assert(P(z)); fr_ok(m, m1, P, z, (KM() - i - 1) as nat); }
    }
    assert(lang(m1, m1[x], Seq::<i8>::empty()));
    assert forall|s: Seq<i8>| #[trigger] clang(m1, R, U, 0, s) == (clang(m, R, U, 0, s) || s == v) by { mark_lang(m, m1, R, U, t, F, v, 0, s); assert(v.skip(0) =~= v); }
}
/// what is used of the whole without looking inside
pub proof fn b_basic(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>)
    requires b_ok(m, R, U, t, F, w)
    ensures w.len() <= KM(), U.len() <= w.len(), R != 0, m.contains_key(R), !F.contains(R), !F.contains(0), forall|x: Addr| #[trigger] F.contains(x) ==> m.contains_key(x),
        ({ let x = nd(R, U, U.len() as int); x != 0 && m.contains_key(x) && (x == R || F.contains(x)) }), U.len() > 0 ==> nd(R, U, U.len() as int) == U.last()._target && F.contains(U.last()._target)
{ assert(nd(R, U, 0) == R); if U.len() > 0 { assert(F.contains(U[U.len() - 1]._target)); } }
