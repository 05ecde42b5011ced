// ---------------------------------------------------------------------------------------------
// The dictionary automaton: walks, accepted strings.
// ---------------------------------------------------------------------------------------------
pub type DM = Map<Addr, DawgNode_o>;
/// the node reached from x along s, 0 if there is none
pub open spec fn walk(m: DM, x: Addr, s: Seq<i8>) -> Addr
    decreases s.len()
{
    if s.len() == 0 { x } else {
        let y = walk(m, x, s.drop_last());
        if y != 0 && m[y]._edges@.contains_key(s.last()) { m[y]._edges@[s.last()] } else { 0 }
    }
}
/// s leads from x to a word end
pub open spec fn acc(m: DM, x: Addr, s: Seq<i8>) -> bool { walk(m, x, s) != 0 && m[walk(m, x, s)]._is_final }
/// every node within k steps of x is allocated, and no walk is longer than k
pub open spec fn node_ok(m: DM, x: Addr, k: nat) -> bool
    decreases k
{ m.contains_key(x) && x != 0 && forall|c: i8| #[trigger] m[x]._edges@.contains_key(c) ==> k > 0 && node_ok(m, m[x]._edges@[c], (k - 1) as nat) }
pub open spec fn rooted(m: DM, x: Addr) -> bool { exists|k: nat| node_ok(m, x, k) && k < 0x4000_0000_0000_0000 }
