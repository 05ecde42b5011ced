/// the positions reachable from src by one character, as position_transition returns them
pub open spec fn out_ok(alg: Alg, n: int, src: PV, cv: Seq<bool>, off: int, V: Seq<PV>) -> bool {
    &&& forall|k: int| 0 <= k < V.len() ==> local_sound(alg, n, src, cv, off, #[trigger] V[k])
    &&& required(alg, n, src, cv, off, V.to_set())
}
/// freshly allocated, unlinked positions
pub open spec fn fresh(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, P: Seq<Addr>) -> bool {
    &&& loose(m1, P)
    &&& forall|j: int| 0 <= j < P.len() ==> !m0.contains_key(#[trigger] P[j])
    &&& m1.dom() =~= m0.dom() + P.to_set()
    &&& forall|a: Addr| m0.contains_key(a) ==> #[trigger] m1[a] == m0[a]
}
pub proof fn to_set_4(V: Seq<PV>)
    requires V.len() <= 4
    ensures V.len() > 0 ==> V.to_set().contains(V[0]), V.len() > 1 ==> V.to_set().contains(V[1]), V.len() > 2 ==> V.to_set().contains(V[2]), V.len() > 3 ==> V.to_set().contains(V[3])
{ }
pub proof fn fresh_4(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, P: Seq<Addr>)
    requires P.len() <= 4, loose(m1, P), forall|j: int| 0 <= j < P.len() ==> !m0.contains_key(#[trigger] P[j]), forall|a: Addr| m0.contains_key(a) ==> #[trigger] m1[a] == m0[a],
        forall|a: Addr| #[trigger] m1.contains_key(a) == (m0.contains_key(a) || (P.len() > 0 && a == P[0]) || (P.len() > 1 && a == P[1]) || (P.len() > 2 && a == P[2]) || (P.len() > 3 && a == P[3]))
    ensures fresh(m0, m1, P)
{ assert forall|a: Addr| #[trigger] P.contains(a) == ((P.len() > 0 && a == P[0]) || (P.len() > 1 && a == P[1]) || (P.len() > 2 && a == P[2]) || (P.len() > 3 && a == P[3])) by { if P.contains(a) { let k = P.index_of(a); } } }
// ---- one step of a state, as a fold of position_transition over its positions
pub open spec fn from_some(alg: Alg, n: int, V0: Seq<PV>, k: int, cv: Seq<bool>, off: int, v: PV) -> bool { exists|j: int| 0 <= j < k && local_sound(alg, n, #[trigger] V0[j], cv, off, v) }
/// V1 holds nothing but successors of V0, and accounts for all of them
pub open spec fn step_ok(alg: Alg, n: int, V0: Seq<PV>, k: int, cv: Seq<bool>, off: int, V1: Seq<PV>) -> bool {
    &&& forall|x: int| 0 <= x < V1.len() ==> from_some(alg, n, V0, k, cv, off, #[trigger] V1[x])
    &&& forall|j: int| 0 <= j < k ==> required(alg, n, #[trigger] V0[j], cv, off, V1.to_set())
}
/// positions that belong to list L only
pub open spec fn owns(m0: Map<Addr, Position_o>, m: Map<Addr, Position_o>, L: Seq<Addr>) -> bool {
    &&& forall|a: Addr| #[trigger] L.contains(a) ==> !m0.contains_key(a)
    &&& forall|a: Addr| #[trigger] m.contains_key(a) == (m0.contains_key(a) || L.contains(a))
    &&& forall|a: Addr| m0.contains_key(a) ==> #[trigger] m[a] == m0[a]
}
pub proof fn nospecial(alg: Alg, n: int, V0: Seq<PV>, k: int, cv: Seq<bool>, off: int, V: Seq<PV>)
    requires step_ok(alg, n, V0, k, cv, off, V), k <= V0.len(), alg is Std ==> forall|j: int| 0 <= j < k ==> !(#[trigger] V0[j]).s
    ensures alg is Std ==> forall|x: int| 0 <= x < V.len() ==> !(#[trigger] V[x]).s
{
    if alg is Std { assert forall|x: int| 0 <= x < V.len() implies !(#[trigger] V[x]).s by { let j = choose|j: int| 0 <= j < k && local_sound(alg, n, #[trigger] V0[j], cv, off, V[x]); } }
}
pub proof fn keys_subset(sp: bool, V: Seq<PV>, W: Seq<PV>)
    requires forall|x: PV| #[trigger] has_key(sp, V, x) ==> has_key(sp, W, x), !sp ==> forall|x: int| 0 <= x < V.len() ==> !(#[trigger] V[x]).s, !sp ==> forall|x: int| 0 <= x < W.len() ==> !(#[trigger] W[x]).s
    ensures V.to_set().subset_of(W.to_set())
{
    assert forall|v: PV| V.contains(v) implies W.contains(v) by {
        let i = V.index_of(v); assert(key(sp, V[i]) == v); assert(has_key(sp, V, v)); let k = choose|k: int| 0 <= k < W.len() && key(sp, #[trigger] W[k]) == v; assert(W[k] == v);
    }
}
pub proof fn tr_step(alg: Alg, n: int, m0: Map<Addr, Position_o>, V0: Seq<PV>, k: int, cv: Seq<bool>, off: int,
                     m1: Map<Addr, Position_o>, L1: Seq<Addr>, m2: Map<Addr, Position_o>, P: Seq<Addr>, m3: Map<Addr, Position_o>, L3: Seq<Addr>)
    requires 0 <= k < V0.len(), owns(m0, m1, L1), step_ok(alg, n, V0, k, cv, off, vals(m1, L1)), alg is Std ==> forall|j: int| 0 <= j < V0.len() ==> !(#[trigger] V0[j]).s,
        fresh(m1, m2, P), out_ok(alg, n, V0[k], cv, off, vals(m2, P)), merged(!(alg is Std), m2, L1, P, m3, L3),
    ensures owns(m0, m3, L3), desc(!(alg is Std), vals(m3, L3)), step_ok(alg, n, V0, k + 1, cv, off, vals(m3, L3))
{
    let sp = !(alg is Std); let A = vals(m1, L1); let B = vals(m2, P); let C = vals(m3, L3);
    assert forall|i: int| 0 <= i < L1.len() implies #[trigger] m1.contains_key(L1[i]) && m2[L1[i]] == m1[L1[i]] by { assert(L1.contains(L1[i])); }
    assert(vals(m2, L1) =~= A);
    assert forall|a: Addr| #[trigger] P.contains(a) implies !m1.contains_key(a) by { let i = P.index_of(a); assert(!m1.contains_key(P[i])); }
    assert forall|x: int| 0 <= x < C.len() implies from_some(alg, n, V0, k + 1, cv, off, #[trigger] C[x]) by {
        let a = L3[x]; assert(L3.contains(a));
        assert(m3.contains_key(a)) by { if P.contains(a) { assert(m2.dom().contains(a)); } else { assert(L1.contains(a)); assert(m1.contains_key(a)); assert(m2.dom().contains(a)); } }
        assert(pv(m3[a]) == pv(m2[a]));
        if L1.contains(a) { let i = L1.index_of(a); assert(A[i] == C[x]); let j = choose|j: int| 0 <= j < k && local_sound(alg, n, #[trigger] V0[j], cv, off, A[i]); assert(local_sound(alg, n, V0[j], cv, off, C[x])); }
        else { let i = P.index_of(a); assert(B[i] == C[x]); assert(local_sound(alg, n, V0[k], cv, off, B[i])); }
    }
    if alg is Std {
        assert forall|x: int| 0 <= x < C.len() implies !(#[trigger] C[x]).s by { let j = choose|j: int| 0 <= j < k + 1 && local_sound(alg, n, #[trigger] V0[j], cv, off, C[x]); }
        nospecial(alg, n, V0, k, cv, off, A);
        assert forall|x: int| 0 <= x < B.len() implies !(#[trigger] B[x]).s by { assert(local_sound(alg, n, V0[k], cv, off, B[x])); }
    }
    keys_subset(sp, A, C); keys_subset(sp, B, C);
    assert forall|j: int| 0 <= j < k + 1 implies required(alg, n, #[trigger] V0[j], cv, off, C.to_set()) by {
        if j < k { required_mono(alg, n, V0[j], cv, off, A.to_set(), C.to_set()); } else { required_mono(alg, n, V0[j], cv, off, B.to_set(), C.to_set()); }
    }
    assert forall|a: Addr| #[trigger] L3.contains(a) implies !m0.contains_key(a) by { }
    assert forall|a: Addr| #[trigger] m3.contains_key(a) == (m0.contains_key(a) || L3.contains(a)) by { assert(m2.contains_key(a) == (m1.contains_key(a) || P.to_set().contains(a))); assert(P.to_set().contains(a) == P.contains(a)); }
    assert forall|a: Addr| m0.contains_key(a) implies #[trigger] m3[a] == m0[a] by { assert(m1.contains_key(a)); assert(m2.contains_key(a)); assert(!L1.contains(a)); assert(!P.contains(a)); }
}
/// sorting permutes
pub proof fn step_perm(alg: Alg, n: int, m0: Map<Addr, Position_o>, V0: Seq<PV>, k: int, cv: Seq<bool>, off: int, m1: Map<Addr, Position_o>, L1: Seq<Addr>, m2: Map<Addr, Position_o>, L2: Seq<Addr>)
    requires owns(m0, m1, L1), step_ok(alg, n, V0, k, cv, off, vals(m1, L1)), L2.to_set() =~= L1.to_set(), relinked(m1, m2, L1.to_set()),
    ensures owns(m0, m2, L2), step_ok(alg, n, V0, k, cv, off, vals(m2, L2))
{
    let A = vals(m1, L1); let C = vals(m2, L2);
    assert forall|a: Addr| L2.contains(a) == L1.contains(a) by { assert(L2.to_set().contains(a) == L2.contains(a)); assert(L1.to_set().contains(a) == L1.contains(a)); }
    assert forall|x: int| 0 <= x < C.len() implies A.contains(#[trigger] C[x]) by { let a = L2[x]; assert(L2.contains(a)); let i = L1.index_of(a); assert(m1.contains_key(a)); assert(A[i] == C[x]); }
    assert forall|x: int| 0 <= x < C.len() implies from_some(alg, n, V0, k, cv, off, #[trigger] C[x]) by { let i = A.index_of(C[x]); assert(from_some(alg, n, V0, k, cv, off, A[i])); }
    assert forall|x: int| 0 <= x < A.len() implies C.contains(#[trigger] A[x]) by { let a = L1[x]; assert(L1.contains(a)); let i = L2.index_of(a); assert(m1.contains_key(a)); assert(C[i] == A[x]); }
    assert(A.to_set().subset_of(C.to_set())) by { assert forall|v: PV| A.contains(v) implies C.contains(v) by { assert(C.contains(A[A.index_of(v)])); } }
    assert forall|j: int| 0 <= j < k implies required(alg, n, #[trigger] V0[j], cv, off, C.to_set()) by { required_mono(alg, n, V0[j], cv, off, A.to_set(), C.to_set()); }
}
pub proof fn desc_errs(sp: bool, V: Seq<PV>)
    requires desc(sp, V)
    ensures errs_down(V)
{ assert forall|i: int, j: int| #![trigger V[i], V[j]] 0 <= i < j < V.len() implies V[j].e <= V[i].e by { assert(ml(sp, V[j], V[i])); } }
pub proof fn step_none(alg: Alg, n: int, V0: Seq<PV>, cv: Seq<bool>, off: int, sp: bool)
    ensures step_ok(alg, n, V0, 0, cv, off, seq![]), desc(sp, seq![])
{ }
