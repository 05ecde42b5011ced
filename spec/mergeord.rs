// ---- the order in which merged states are kept: strictly descending by (errors, index, special)
pub open spec fn ml(sp: bool, a: PV, b: PV) -> bool { a.e < b.e || (a.e == b.e && (a.i < b.i || (a.i == b.i && sp && !a.s && b.s))) }
pub open spec fn key(sp: bool, a: PV) -> PV { PV { s: sp && a.s, ..a } }
pub open spec fn desc(sp: bool, v: Seq<PV>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> ml(sp, v[j], v[i]) }
/// the distinct positions of a sequence (for the standard algorithm the special flag does not count)
pub open spec fn has_key(sp: bool, v: Seq<PV>, x: PV) -> bool { exists|i: int| 0 <= i < v.len() && key(sp, #[trigger] v[i]) == x }
pub open spec fn at(L: Seq<Addr>, k: int) -> Addr { if 0 <= k < L.len() { L[k] } else { 0 } }
pub open spec fn ins_at(L: Seq<Addr>, k: int, a: Addr) -> Seq<Addr> { L.insert(k, a) }
pub proof fn desc_insert(sp: bool, v: Seq<PV>, k: int, x: PV)
    requires desc(sp, v), 0 <= k <= v.len(), forall|j: int| 0 <= j < k ==> ml(sp, x, #[trigger] v[j]), k < v.len() ==> !ml(sp, x, v[k]) && key(sp, x) != key(sp, v[k])
    ensures desc(sp, v.insert(k, x)), forall|y: PV| #[trigger] has_key(sp, v.insert(k, x), y) == (has_key(sp, v, y) || y == key(sp, x))
{
    let w = v.insert(k, x);
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies ml(sp, w[j], w[i]) by {
        if j < k { assert(w[i] == v[i] && w[j] == v[j]); }
        else if j == k { assert(w[i] == v[i]); }
        else { assert(w[j] == v[j - 1]); if i < k { assert(w[i] == v[i]); } else if i == k { assert(ml(sp, v[k], x)); if j - 1 > k { assert(ml(sp, v[j - 1], v[k])); } } else { assert(w[i] == v[i - 1]); } }
    }
    assert forall|y: PV| #[trigger] has_key(sp, w, y) == (has_key(sp, v, y) || y == key(sp, x)) by {
        if has_key(sp, v, y) { let i = choose|i: int| 0 <= i < v.len() && key(sp, #[trigger] v[i]) == y; if i < k { assert(w[i] == v[i]); } else { assert(w[i + 1] == v[i]); } }
        if y == key(sp, x) { assert(w[k] == x); }
        if has_key(sp, w, y) { let i = choose|i: int| 0 <= i < w.len() && key(sp, #[trigger] w[i]) == y; if i < k { assert(w[i] == v[i]); } else if i > k { assert(w[i] == v[i - 1]); } }
    }
}
pub proof fn vals_insert(m: Map<Addr, Position_o>, L: Seq<Addr>, k: int, a: Addr)
    requires 0 <= k <= L.len()
    ensures vals(m, L.insert(k, a)) =~= vals(m, L).insert(k, pv(m[a]))
{ let x = vals(m, L.insert(k, a)); let y = vals(m, L).insert(k, pv(m[a]));
  assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { if i < k { assert(L.insert(k, a)[i] == L[i]); } else if i > k { assert(L.insert(k, a)[i] == L[i - 1]); } } }
pub proof fn contains_insert(L: Seq<Addr>, k: int, a: Addr)
    requires 0 <= k <= L.len()
    ensures forall|b: Addr| #[trigger] L.insert(k, a).contains(b) == (L.contains(b) || b == a)
{
    let R = L.insert(k, a);
    assert forall|b: Addr| #[trigger] R.contains(b) == (L.contains(b) || b == a) by {
        if L.contains(b) { let i = L.index_of(b); if i < k { assert(R[i] == b); } else { assert(R[i + 1] == b); } }
        assert(R[k] == a);
        if R.contains(b) { let i = R.index_of(b); if i < k { assert(L[i] == b); } else if i > k { assert(L[i - 1] == b); } }
    }
}
/// what merging the batch P into the list L0 (heap m0) has to leave behind: list L1 in heap m1
pub open spec fn merged(sp: bool, m0: Map<Addr, Position_o>, L0: Seq<Addr>, P: Seq<Addr>, m1: Map<Addr, Position_o>, L1: Seq<Addr>) -> bool {
    &&& desc(sp, vals(m1, L1))
    &&& forall|x: PV| #[trigger] has_key(sp, vals(m1, L1), x) == (has_key(sp, vals(m0, L0), x) || has_key(sp, vals(m0, P), x))
    &&& forall|a: Addr| #[trigger] L1.contains(a) ==> L0.contains(a) || P.contains(a)
    &&& forall|a: Addr| L0.contains(a) ==> #[trigger] L1.contains(a)
    &&& forall|a: Addr| #[trigger] m1.contains_key(a) == (m0.contains_key(a) && (P.contains(a) ==> L1.contains(a)))
    &&& forall|a: Addr| m1.contains_key(a) ==> pv(#[trigger] m1[a]) == pv(m0[a])
    &&& forall|a: Addr| m0.contains_key(a) && !L0.contains(a) && !P.contains(a) ==> #[trigger] m1[a] == m0[a]
}
pub proof fn merged_start(sp: bool, m0: Map<Addr, Position_o>, L0: Seq<Addr>, P: Seq<Addr>)
    requires desc(sp, vals(m0, L0))
    ensures merged(sp, m0, L0, P.take(0), m0, L0)
{ assert(P.take(0) =~= seq![]); assert(vals(m0, P.take(0)) =~= seq![]); }
pub proof fn merged_step(sp: bool, m0: Map<Addr, Position_o>, L0: Seq<Addr>, P: Seq<Addr>, n: int, m1: Map<Addr, Position_o>, L1: Seq<Addr>, h1: Addr, k: int, m2: Map<Addr, Position_o>, h2: Addr, L2: Seq<Addr>)
    requires merged(sp, m0, L0, P.take(n), m1, L1), 0 <= n < P.len(), is_list(m1, h1, L1), is_list(m2, h2, L2), P.no_duplicates(), !L0.contains(P[n]), m0.contains_key(P[n]), P[n] != 0,
        m1.contains_key(P[n]), m1[P[n]] == m0[P[n]], pv(m1[P[n]]) == pv(m0[P[n]]),
        0 <= k <= L1.len(), forall|j: int| 0 <= j < k ==> ml(sp, pv(m1[P[n]]), #[trigger] vals(m1, L1)[j]), k < L1.len() ==> !ml(sp, pv(m1[P[n]]), vals(m1, L1)[k]),
        ({ let a = P[n]; let same = k < L1.len() && key(sp, pv(m1[a])) == key(sp, vals(m1, L1)[k]);
           if same { L2 == L1 && m2 =~= m1.remove(a) } else { &&& L2 =~= L1.insert(k, a) &&& m2.dom() =~= m1.dom() &&& (forall|b: Addr| m1.contains_key(b) ==> pv(#[trigger] m2[b]) == pv(m1[b])) &&& (forall|b: Addr| m1.contains_key(b) && !L1.contains(b) && b != a ==> #[trigger] m2[b] == m1[b]) } })
    ensures merged(sp, m0, L0, P.take(n + 1), m2, L2)
{
    let a = P[n]; let same = k < L1.len() && key(sp, pv(m1[a])) == key(sp, vals(m1, L1)[k]);
    let Q = P.take(n); let Q2 = P.take(n + 1);
    assert(Q2 =~= Q.push(a));
    assert(!Q.contains(a)) by { if Q.contains(a) { let i = Q.index_of(a); assert(Q[i] == P[i]); } }
    assert(!L1.contains(a));
    assert forall|b: Addr| #[trigger] Q2.contains(b) == (Q.contains(b) || b == a) by { if Q.contains(b) { assert(Q2[Q.index_of(b)] == b); } assert(Q2[n] == a); if Q2.contains(b) { let i = Q2.index_of(b); if i < n { assert(Q[i] == b); } } }
    assert(vals(m0, Q2) =~= vals(m0, Q).push(pv(m0[a])));
    assert forall|x: PV| #[trigger] has_key(sp, vals(m0, Q2), x) == (has_key(sp, vals(m0, Q), x) || x == key(sp, pv(m0[a]))) by {
        let v = vals(m0, Q); let w = vals(m0, Q2);
        if has_key(sp, v, x) { let i = choose|i: int| 0 <= i < v.len() && key(sp, #[trigger] v[i]) == x; assert(w[i] == v[i]); }
        if x == key(sp, pv(m0[a])) { assert(w[n] == pv(m0[a])); }
        if has_key(sp, w, x) { let i = choose|i: int| 0 <= i < w.len() && key(sp, #[trigger] w[i]) == x; if i < n { assert(w[i] == v[i]); } }
    }
    if same {
        assert forall|i: int| 0 <= i < L1.len() implies pv(m2[#[trigger] L1[i]]) == pv(m1[L1[i]]) by { assert(L1.contains(L1[i])); }
        vals_same(m1, m2, L1);
        assert(has_key(sp, vals(m1, L1), key(sp, pv(m0[a]))));
    } else {
        vals_insert(m2, L1, k, a); contains_insert(L1, k, a);
        assert forall|i: int| 0 <= i < L1.len() implies pv(m2[#[trigger] L1[i]]) == pv(m1[L1[i]]) by { assert(m1.contains_key(L1[i])); }
        vals_same(m1, m2, L1);
        desc_insert(sp, vals(m1, L1), k, pv(m1[a]));
        assert(pv(m2[a]) == pv(m1[a]));
    }
}
// ---- distance of a final state
pub open spec fn counts(sp: bool, v: PV) -> bool { !(sp && v.s) }
pub open spec fn rest(q: int, v: PV) -> int { q - v.i + v.e }
pub open spec fn is_min_dist(sp: bool, v: Seq<PV>, q: int, r: u64) -> bool {
    &&& forall|i: int| 0 <= i < v.len() && counts(sp, #[trigger] v[i]) ==> r <= rest(q, v[i])
    &&& r == u64::MAX || exists|i: int| 0 <= i < v.len() && counts(sp, #[trigger] v[i]) && r == rest(q, v[i])
}
/// every position lies within the query and its error count is small
pub open spec fn in_query(v: Seq<PV>, q: int) -> bool { forall|i: int| 0 <= i < v.len() ==> 0 <= (#[trigger] v[i]).i <= q && 0 <= v[i].e && q + v[i].e < 0x8000_0000_0000_0000 }
pub open spec fn errs_down(v: Seq<PV>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> v[j].e <= v[i].e }
