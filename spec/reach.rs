// ---- the nodes below a node
pub open spec fn shallow(m: DM, x: Addr) -> bool { exists|k: nat| #[trigger] node_ok(m, x, k) && k < 0x7fff_fffe }
pub open spec fn reaches(m: DM, x: Addr, y: Addr) -> bool { y != 0 && exists|s: Seq<i8>| #[trigger] walk(m, x, s) == y }
pub open spec fn lvl_ok(m: DM, q: Seq<Addr>, lv: Seq<nat>) -> bool { q.len() == lv.len() && forall|j: int| 0 <= j < q.len() ==> node_ok(m, #[trigger] q[j], lv[j]) }
pub open spec fn wts(m: DM, q: Seq<Addr>, lv: Seq<nat>) -> Seq<int> { Seq::new(q.len(), |j: int| wt(m, q[j], lv[j]) as int) }
pub open spec fn reach_inv(m: DM, R: Addr, S: Set<Addr>, q: Seq<Addr>, lv: Seq<nat>) -> bool {
    &&& lvl_ok(m, q, lv)
    &&& S.contains(R) || q.contains(R)
    &&& forall|y: Addr| #[trigger] S.contains(y) ==> reaches(m, R, y)
    &&& forall|j: int| 0 <= j < q.len() ==> reaches(m, R, #[trigger] q[j])
    &&& forall|y: Addr, c: i8| #![trigger S.contains(y), m[y]._edges@[c]] S.contains(y) && m[y]._edges@.contains_key(c) ==> S.contains(m[y]._edges@[c]) || q.contains(m[y]._edges@[c])
}
pub proof fn reach_edge(m: DM, R: Addr, x: Addr, c: i8)
    requires reaches(m, R, x), m[x]._edges@.contains_key(c), m[x]._edges@[c] != 0
    ensures reaches(m, R, m[x]._edges@[c])
{ let s = choose|s: Seq<i8>| #[trigger] walk(m, R, s) == x; let t = s.push(c); assert(t.drop_last() =~= s); assert(walk(m, R, t) == m[x]._edges@[c]); }
pub proof fn reach_all(m: DM, R: Addr, S: Set<Addr>, s: Seq<i8>)
    requires S.contains(R), forall|y: Addr, c: i8| #![trigger S.contains(y), m[y]._edges@[c]] S.contains(y) && m[y]._edges@.contains_key(c) ==> S.contains(m[y]._edges@[c]), walk(m, R, s) != 0
    ensures S.contains(walk(m, R, s))
    decreases s.len()
{ if s.len() > 0 { reach_all(m, R, S, s.drop_last()); let y = walk(m, R, s.drop_last()); assert(m[y]._edges@[s.last()] == walk(m, R, s)); } }
pub proof fn reach_ok(m: DM, R: Addr, k: nat, s: Seq<i8>)
    requires node_ok(m, R, k), walk(m, R, s) != 0
    ensures s.len() <= k, node_ok(m, walk(m, R, s), (k - s.len()) as nat), m.contains_key(walk(m, R, s))
    decreases s.len()
{ if s.len() > 0 { reach_ok(m, R, k, s.drop_last()); let y = walk(m, R, s.drop_last()); assert(m[y]._edges@.contains_key(s.last())); } }
/// the first of the queue is taken up: its walks give way to those of the children
pub proof fn reach_pop(m: DM, R: Addr, S: Set<Addr>, q: Seq<Addr>, lv: Seq<nat>)
    requires reach_inv(m, R, S, q, lv), q.len() > 0
    ensures
        m.contains_key(q[0]), q[0] != 0, reaches(m, R, q[0]),
        ({ let x = q[0]; let M = m[x]._edges@; let keys = map_order(M); let k = lv[0]; &&& tot(wts(m, q, lv)) == 1 + wsum(m, M, keys, (k - 1) as nat) + tot(wts(m, q.drop_first(), lv.drop_first())) || keys.len() == 0 &&& keys.len() > 0 ==> k > 0 }),
        tot(wts(m, q, lv)) >= 1 + tot(wts(m, q.drop_first(), lv.drop_first())),
{
    let x = q[0]; let M = m[x]._edges@; let keys = map_order(M); let k = lv[0];
    axiom_map_order(M); if keys.len() > 0 { assert(M.contains_key(keys[0])); }
    tot_front(wts(m, q, lv)); assert(wts(m, q, lv).drop_first() =~= wts(m, q.drop_first(), lv.drop_first())); assert(wts(m, q, lv)[0] == wt(m, x, k));
}
pub proof fn wts_nonneg(m: DM, q: Seq<Addr>, lv: Seq<nat>)
    ensures tot(wts(m, q, lv)) >= 0
{ tot_nonneg(wts(m, q, lv)); }
