// ---- how much of the dictionary a query has yet to look at
pub open spec fn tot(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { tot(s.drop_last()) + s.last() } }
pub proof fn tot_front(s: Seq<int>)
    requires s.len() > 0
    ensures tot(s) == s[0] + tot(s.drop_first())
    decreases s.len()
{ if s.len() > 1 { tot_front(s.drop_last()); assert(s.drop_last().drop_first() =~= s.drop_first().drop_last()); } else { assert(s.drop_last() =~= s.drop_first()); } }
pub proof fn tot_nonneg(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 0
    ensures tot(s) >= 0
    decreases s.len()
{ if s.len() > 0 { tot_nonneg(s.drop_last()); } }
/// number of walks of at most k steps from x
pub open spec fn wt(m: DM, x: Addr, k: nat) -> nat
    decreases k, 0nat
{ if k == 0 { 1 } else { 1 + wsum(m, m[x]._edges@, map_order(m[x]._edges@), (k - 1) as nat) } }
pub open spec fn wsum(m: DM, M: Map<i8, Addr>, keys: Seq<i8>, k: nat) -> nat
    decreases k, keys.len() + 1
{ if keys.len() == 0 { 0 } else { wsum(m, M, keys.drop_last(), k) + wt(m, M[keys.last()], k) } }
pub proof fn wsum_tot(m: DM, M: Map<i8, Addr>, keys: Seq<i8>, k: nat)
    ensures tot(Seq::new(keys.len(), |j: int| 2int * wt(m, M[keys[j]], k))) == 2 * wsum(m, M, keys, k)
    decreases keys.len()
{
    let s = Seq::new(keys.len(), |j: int| 2int * wt(m, M[keys[j]], k));
    if keys.len() > 0 { wsum_tot(m, M, keys.drop_last(), k); assert(s.drop_last() =~= Seq::new(keys.drop_last().len(), |j: int| 2int * wt(m, M[keys.drop_last()[j]], k))); }
}
