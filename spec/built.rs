// ---------------------------------------------------------------------------------------------
// The finished_ok dictionary.
// ---------------------------------------------------------------------------------------------
/// no two nodes with the same strings ahead of them
pub open spec fn minimal(m: DM, R: Addr) -> bool { forall|a: Addr, b: Addr| #![trigger reaches(m, R, a), reaches(m, R, b)] reaches(m, R, a) && reaches(m, R, b) && a != b ==> !same_lang(m, m[a], m[b]) }
/// every node leads to a word end, the root apart
pub open spec fn dict_ok(m: DM, R: Addr) -> bool { node_ok(m, R, KM()) && trim(m, m[R]) && minimal(m, R) }
pub open spec fn ascending(ts: Seq<Str>) -> bool { forall|i: int| 0 < i < ts.len() ==> !lex_lt((#[trigger] ts[i])@, ts[i - 1]@) }
pub open spec fn listed(ts: Seq<Str>, s: Seq<i8>) -> bool { exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i])@ == s }
pub proof fn init_built(m: DM, R: Addr, t: DawgNode_map_s)
    requires R != 0, m.contains_key(R), m[R]._edges@ == Map::<i8, Addr>::empty(), !m[R]._is_final, t.ent == Map::<DawgNode_o, Addr>::empty(), t.hash == Map::<DawgNode_o, u64>::empty()
    ensures b_ok(m, R, Seq::empty(), t, Set::empty(), Seq::empty()), forall|s: Seq<i8>| !#[trigger] clang(m, R, Seq::empty(), 0, s)
{
    let U = Seq::<Transition_o>::empty(); let w = Seq::<i8>::empty();
    assert(!inV(t, R));
    assert(t.hash.dom() =~= t.ent.dom());
    assert(reg_ok(m, t));
    assert forall|i: int| 0 <= i <= U.len() implies !inV(t, #[trigger] nd(R, U, i)) && open_ok(m, t, nd(R, U, i), w, i, 0) by { assert(nd(R, U, i) == R); }
}
/// the nodes below the root are registered
pub proof fn root_below(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>)
    requires b_ok(m, R, U, t, F, w)
    ensures node_ok(m, R, KM()), into(m[R], VP(t)), forall|y: Addr| #[trigger] reaches(m, R, y) ==> y == R || inV(t, y), reaches(m, R, R), !inV(t, R)
{
    let P = VP(t); reg_closed(m, t); assert(nd(R, U, 0) == R); assert(open_ok(m, t, R, w, 0, U.len() as int));
    assert(m.contains_key(R));
    assert forall|c: i8| #[trigger] m[R]._edges@.contains_key(c) implies KM() > 0 && node_ok(m, m[R]._edges@[c], (KM() - 1) as nat) && P(m[R]._edges@[c]) by { }
    assert(walk(m, R, Seq::<i8>::empty()) == R);
    assert forall|y: Addr| #[trigger] reaches(m, R, y) implies y == R || inV(t, y) by { let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == y; walk_below(m, R, P, s); assert(P(y) == inV(t, y)); }
}
pub proof fn walk_below(m: DM, R: Addr, P: P1, s: Seq<i8>)
    requires closed(m, P), into(m[R], P)
    ensures walk(m, R, s) == 0 || walk(m, R, s) == R && s.len() == 0 || P(walk(m, R, s))
    decreases s.len()
{ if s.len() > 0 { walk_below(m, R, P, s.drop_last()); let y = walk(m, R, s.drop_last()); if y != 0 && m[y]._edges@.contains_key(s.last()) { if s.drop_last().len() == 0 { assert(y == R); } } } }
pub proof fn reg_live(m: DM, t: DawgNode_map_s, x: Addr, k: nat)
    requires reg_ok(m, t), inV(t, x)
    ensures live_k(m, m[x], k)
    decreases k
{
    let o = choose|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == x;
    assert(m[x] == o && into(o, VP(t)) && alive(m, o));
    if k > 0 { assert forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) implies live_k(m, m[m[x]._edges@[c]], (k - 1) as nat) by { assert(VP(t)(o._edges@[c])); reg_live(m, t, o._edges@[c], (k - 1) as nat); } }
}
/// a node and a node strictly below it are different trees
pub proof fn below_differs(m: DM, R: Addr, k: nat, s: Seq<i8>)
    requires node_ok(m, R, k), s.len() > 0, walk(m, R, s) != 0
    ensures !same(m, m[walk(m, R, s)], m[R])
{
    let x = walk(m, R, s); hgt_is(m, R, k); let h = hgt(m, R); reach_ok(m, R, h, s);
    if same(m, m[x], m[R]) {
        let l = (h - s.len()) as nat; assert(node_ok(m, x, l)); node_ok_mono(m, x, l, (h - 1) as nat); assert(obj_ok(m, m[x], (h - 1) as nat)); assert(obj_ok(m, m[R], h));
        same_ok(m, m[x], m[R], (h - 1) as nat, h); assert(node_ok(m, R, (h - 1) as nat));
    }
}
pub proof fn finished_ok(m: DM, R: Addr, U: Seq<Transition_o>, t: DawgNode_map_s, F: Set<Addr>, w: Seq<i8>)
    requires b_ok(m, R, U, t, F, w), U.len() == 0
    ensures dict_ok(m, R), forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == clang(m, R, U, 0, s)
{
    root_below(m, R, U, t, F, w); let P = VP(t); reg_closed(m, t);
    assert forall|c: i8, k: nat| #![trigger live_k(m, m[m[R]._edges@[c]], k)] m[R]._edges@.contains_key(c) implies live_k(m, m[m[R]._edges@[c]], k) by { assert(P(m[R]._edges@[c])); reg_live(m, t, m[R]._edges@[c], k); }
    assert(trim(m, m[R]));
    assert forall|a: Addr, b: Addr| #![trigger reaches(m, R, a), reaches(m, R, b)] reaches(m, R, a) && reaches(m, R, b) && a != b implies !same_lang(m, m[a], m[b]) by {
        node_trim(m, R, t, a); node_trim(m, R, t, b); same_iff_lang(m, m[a], m[b]);
        if same(m, m[a], m[b]) {
            same_sym(m, m[a], m[b]);
            if a == R { let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == b; assert(s.len() > 0); below_differs(m, R, KM(), s); }
            else if b == R { let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == a; assert(s.len() > 0); below_differs(m, R, KM(), s); }
            else {
                let o = choose|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == a; let p = choose|o: DawgNode_o| #[trigger] t.ent.contains_key(o) && t.ent[o] == b;
                assert(inV(t, a) && inV(t, b)); assert(m[a] == o && m[b] == p); assert(t.ent.contains_key(o) && t.ent.contains_key(p)); assert(o == p);
            }
        }
    }
    assert forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == clang(m, R, U, 0, s) by { clang_top(m, R, U, s); }
}
pub proof fn node_trim(m: DM, R: Addr, t: DawgNode_map_s, a: Addr)
    requires reg_ok(m, t), trim(m, m[R]), a == R || inV(t, a)
    ensures trim(m, m[a])
{
    if a != R {
        assert forall|c: i8, k: nat| #![trigger live_k(m, m[m[a]._edges@[c]], k)] m[a]._edges@.contains_key(c) implies live_k(m, m[m[a]._edges@[c]], k) by { reg_live(m, t, a, k + 1); assert(((k + 1) - 1) as nat == k); }
    }
}
// ---- the nodes of a finished_ok dictionary in another heap
pub proof fn fr_live(m: DM, n: DM, P: P1, o: DawgNode_o, k: nat)
    requires closed(m, P), agree(m, n, P), into(o, P), live_k(m, o, k)
    ensures live_k(n, o, k)
    decreases k
{
    let s0 = choose|s: Seq<i8>| lang(m, o, s); fr_lang(m, n, P, o, s0); assert(lang(n, o, s0));
    if k > 0 { assert forall|c: i8| #[trigger] o._edges@.contains_key(c) implies live_k(n, n[o._edges@[c]], (k - 1) as nat) by { let y = o._edges@[c]; assert(P(y)); fr_live(m, n, P, m[y], (k - 1) as nat); } }
}
pub proof fn dict_frame(m: DM, n: DM, R: Addr)
    requires dict_ok(m, R), agree(m, n, |y: Addr| reaches(m, R, y))
    ensures dict_ok(n, R), n[R] == m[R], n.contains_key(R), forall|s: Seq<i8>| #[trigger] lang(n, n[R], s) == lang(m, m[R], s), forall|y: Addr| reaches(n, R, y) == reaches(m, R, y)
{
    let P: P1 = |y: Addr| reaches(m, R, y); reach_closed(m, R); reach_frame(m, n, R); assert(P(R)); assert(n[R] == m[R]);
    assert(into(m[R], P)) by { assert(P(R)); }
    assert forall|c: i8, k: nat| #![trigger live_k(n, n[n[R]._edges@[c]], k)] n[R]._edges@.contains_key(c) implies live_k(n, n[n[R]._edges@[c]], k) by { assert(m[R]._edges@.contains_key(c)); let y = m[R]._edges@[c]; assert(P(y)); assert(live_k(m, m[y], k)); fr_live(m, n, P, m[y], k); }
    assert forall|a: Addr, b: Addr| #![trigger reaches(n, R, a), reaches(n, R, b)] reaches(n, R, a) && reaches(n, R, b) && a != b implies !same_lang(n, n[a], n[b]) by {
        assert(P(a) && P(b)); assert(reaches(m, R, a) && reaches(m, R, b));
        if same_lang(n, n[a], n[b]) { assert forall|s: Seq<i8>| #[trigger] lang(m, m[a], s) == lang(m, m[b], s) by { fr_lang(m, n, P, m[a], s); fr_lang(m, n, P, m[b], s); assert(lang(n, n[a], s) == lang(n, n[b], s)); } }
    }
    assert forall|s: Seq<i8>| #[trigger] lang(n, n[R], s) == lang(m, m[R], s) by { fr_lang(m, n, P, m[R], s); }
}
