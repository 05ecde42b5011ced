// ---- linked lists of positions
#[verifier::ext_equal]
pub ghost struct PV { pub i: int, pub e: int, pub s: bool }
pub open spec fn pv(o: Position_o) -> PV { PV { i: o._term_index as int, e: o._num_errors as int, s: o._is_special } }
/// head is the first node of L (or end when L is empty), each node points to the next one, the last one to end
pub open spec fn seg(m: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, end: Addr) -> bool {
    &&& L.no_duplicates()
    &&& head == (if L.len() > 0 { L[0] } else { end })
    &&& forall|i: int| 0 <= i < L.len() ==> m.contains_key(#[trigger] L[i]) && L[i] != 0
    &&& forall|i: int| 0 <= i < L.len() ==> (#[trigger] m[L[i]])._next == (if i + 1 < L.len() { L[i + 1] } else { end })
}
pub open spec fn is_list(m: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>) -> bool { seg(m, head, L, 0) }
pub open spec fn has_list(m: Map<Addr, Position_o>, head: Addr) -> bool { exists|L: Seq<Addr>| is_list(m, head, L) }
pub open spec fn lst(m: Map<Addr, Position_o>, head: Addr) -> Seq<Addr> { choose|L: Seq<Addr>| is_list(m, head, L) }
pub open spec fn vals(m: Map<Addr, Position_o>, L: Seq<Addr>) -> Seq<PV> { Seq::new(L.len(), |i: int| pv(m[L[i]])) }
/// only the links of nodes in S differ
pub open spec fn relinked(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, S: Set<Addr>) -> bool {
    &&& m1.dom() =~= m0.dom()
    &&& forall|a: Addr| m0.contains_key(a) ==> pv(#[trigger] m1[a]) == pv(m0[a])
    &&& forall|a: Addr| m0.contains_key(a) && !S.contains(a) ==> #[trigger] m1[a] == m0[a]
}
pub open spec fn same_out(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, S: Set<Addr>) -> bool {
    forall|a: Addr| #![trigger m1.contains_key(a)] #![trigger m0.contains_key(a)] #![trigger m1[a]] !S.contains(a) ==> m1.contains_key(a) == m0.contains_key(a) && (m0.contains_key(a) ==> m1[a] == m0[a])
}
pub proof fn list_unique(m: Map<Addr, Position_o>, head: Addr, A: Seq<Addr>, B: Seq<Addr>)
    requires is_list(m, head, A), is_list(m, head, B)
    ensures A == B
    decreases A.len()
{
    if A.len() == 0 { assert(B.len() == 0); assert(A =~= B); }
    else if B.len() == 0 { }
    else {
        list_tail(m, head, A); list_tail(m, head, B);
        list_unique(m, m[head]._next, A.drop_first(), B.drop_first());
        assert(A =~= seq![head] + A.drop_first()); assert(B =~= seq![head] + B.drop_first());
    }
}
pub proof fn list_tail(m: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>)
    requires is_list(m, head, L), L.len() > 0
    ensures is_list(m, m[head]._next, L.drop_first()), head == L[0], m.contains_key(head), head != 0, !L.drop_first().contains(head)
{
    let T = L.drop_first();
    assert forall|i: int| 0 <= i < T.len() implies m.contains_key(#[trigger] T[i]) && T[i] != 0 by { assert(T[i] == L[i + 1]); }
    assert forall|i: int| 0 <= i < T.len() implies (#[trigger] m[T[i]])._next == (if i + 1 < T.len() { T[i + 1] } else { 0 }) by { assert(T[i] == L[i + 1]); assert(m[L[i + 1]]._next == (if i + 2 < L.len() { L[i + 2] } else { 0 })); }
    assert(m[L[0]]._next == (if 1 < L.len() { L[1] } else { 0 }));
    assert(T.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < T.len() && 0 <= j < T.len() && i != j implies T[i] != T[j] by { assert(T[i] == L[i + 1] && T[j] == L[j + 1]); } }
    if T.len() > 0 { assert(T[0] == L[1]); }
}
pub broadcast proof fn lst_is(m: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>)
    requires #[trigger] is_list(m, head, L)
    ensures lst(m, head) == L, has_list(m, head)
{ list_unique(m, head, L, lst(m, head)); }
/// a list survives changes elsewhere
pub proof fn seg_frame(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, end: Addr)
    requires seg(m, head, L, end), forall|i: int| 0 <= i < L.len() ==> m2.contains_key(#[trigger] L[i]) && m2[L[i]] == m[L[i]]
    ensures seg(m2, head, L, end), vals(m2, L) =~= vals(m, L)
{
    assert forall|i: int| 0 <= i < L.len() implies (#[trigger] m2[L[i]])._next == (if i + 1 < L.len() { L[i + 1] } else { end }) by { assert(m[L[i]]._next == (if i + 1 < L.len() { L[i + 1] } else { end })); }
}
pub proof fn seg_join(m: Map<Addr, Position_o>, h1: Addr, A: Seq<Addr>, h2: Addr, B: Seq<Addr>, end: Addr)
    requires seg(m, h1, A, h2), seg(m, h2, B, end), forall|i: int, j: int| 0 <= i < A.len() && 0 <= j < B.len() ==> A[i] != B[j]
    ensures seg(m, h1, A + B, end)
{
    let L = A + B;
    assert forall|i: int| 0 <= i < L.len() implies m.contains_key(#[trigger] L[i]) && L[i] != 0 by { if i < A.len() { assert(L[i] == A[i]); } else { assert(L[i] == B[i - A.len()]); } }
    assert forall|i: int| 0 <= i < L.len() implies (#[trigger] m[L[i]])._next == (if i + 1 < L.len() { L[i + 1] } else { end }) by {
        if i < A.len() { assert(L[i] == A[i]); assert(m[A[i]]._next == (if i + 1 < A.len() { A[i + 1] } else { h2 })); if B.len() > 0 && i + 1 == A.len() { assert(L[i + 1] == B[0]); } }
        else { assert(L[i] == B[i - A.len()]); assert(m[B[i - A.len()]]._next == (if i + 1 < L.len() { B[i + 1 - A.len()] } else { end })); }
    }
    assert(L.no_duplicates());
}
pub proof fn seg_cut(m: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, end: Addr, k: int)
    requires seg(m, head, L, end), 0 <= k <= L.len()
    ensures seg(m, head, L.take(k), if k < L.len() { L[k] } else { end }), seg(m, if k < L.len() { L[k] } else { end }, L.skip(k), end),
        forall|i: int, j: int| 0 <= i < k && 0 <= j < L.skip(k).len() ==> L.take(k)[i] != L.skip(k)[j],
        L == L.take(k) + L.skip(k)
{
    let A = L.take(k); let B = L.skip(k); let mid = if k < L.len() { L[k] } else { end };
    assert(L =~= A + B);
    assert forall|i: int| 0 <= i < A.len() implies m.contains_key(#[trigger] A[i]) && A[i] != 0 by { assert(A[i] == L[i]); }
    assert forall|i: int| 0 <= i < A.len() implies (#[trigger] m[A[i]])._next == (if i + 1 < A.len() { A[i + 1] } else { mid }) by { assert(A[i] == L[i]); assert(m[L[i]]._next == (if i + 1 < L.len() { L[i + 1] } else { end })); }
    assert forall|i: int| 0 <= i < B.len() implies m.contains_key(#[trigger] B[i]) && B[i] != 0 by { assert(B[i] == L[i + k]); }
    assert forall|i: int| 0 <= i < B.len() implies (#[trigger] m[B[i]])._next == (if i + 1 < B.len() { B[i + 1] } else { end }) by { assert(B[i] == L[i + k]); assert(m[L[i + k]]._next == (if i + k + 1 < L.len() { L[i + k + 1] } else { end })); }
}
/// node p redirected to the list B
pub proof fn seg_relink(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, head: Addr, A: Seq<Addr>, oldend: Addr, end: Addr)
    requires seg(m, head, A, oldend), A.len() > 0,
        forall|i: int| 0 <= i < A.len() ==> m2.contains_key(#[trigger] A[i]),
        forall|i: int| 0 <= i < A.len() - 1 ==> m2[#[trigger] A[i]] == m[A[i]],
        m2[A.last()]._next == end
    ensures seg(m2, head, A, end)
{
    assert forall|i: int| 0 <= i < A.len() implies (#[trigger] m2[A[i]])._next == (if i + 1 < A.len() { A[i + 1] } else { end }) by { assert(m[A[i]]._next == (if i + 1 < A.len() { A[i + 1] } else { oldend })); if i + 1 < A.len() { assert(m2[A[i]] == m[A[i]]); } }
}
pub proof fn list_one(m: Map<Addr, Position_o>, a: Addr, end: Addr)
    requires m.contains_key(a), a != 0, m[a]._next == end
    ensures seg(m, a, seq![a], end)
{ let L = seq![a]; assert forall|i: int| 0 <= i < L.len() implies (#[trigger] m[L[i]])._next == (if i + 1 < L.len() { L[i + 1] } else { end }) by { assert(L[i] == a); } }
pub proof fn seg_push(m: Map<Addr, Position_o>, head: Addr, A: Seq<Addr>, a: Addr, end: Addr)
    requires seg(m, head, A, a), m.contains_key(a), a != 0, m[a]._next == end, !A.contains(a)
    ensures seg(m, head, A.push(a), end)
{ list_one(m, a, end); assert(A.push(a) =~= A + seq![a]); seg_join(m, head, A, a, seq![a], end); }

// ---- order
pub open spec fn pv_lt(sp: bool, a: PV, b: PV) -> bool { a.i < b.i || (a.i == b.i && (a.e < b.e || (a.e == b.e && sp && !a.s && b.s))) }
pub open spec fn sorted(sp: bool, v: Seq<PV>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> !pv_lt(sp, v[j], v[i]) }
pub open spec fn cmp_sign(sp: bool, a: PV, b: PV, r: int) -> bool { (r < 0) == pv_lt(sp, a, b) && (r > 0) == pv_lt(sp, b, a) }
/// v[..] sorted, everything in v is at most everything in w
pub open spec fn below(sp: bool, v: Seq<PV>, w: Seq<PV>) -> bool { forall|i: int, j: int| #![trigger v[i], w[j]] 0 <= i < v.len() && 0 <= j < w.len() ==> !pv_lt(sp, w[j], v[i]) }
pub proof fn sorted_join(sp: bool, v: Seq<PV>, w: Seq<PV>)
    requires sorted(sp, v), sorted(sp, w), below(sp, v, w)
    ensures sorted(sp, v + w)
{ let x = v + w; assert forall|i: int, j: int| #![trigger x[i], x[j]] 0 <= i < j < x.len() implies !pv_lt(sp, x[j], x[i]) by {
    if j < v.len() { assert(x[i] == v[i] && x[j] == v[j]); } else if i < v.len() { assert(x[i] == v[i] && x[j] == w[j - v.len()]); } else { assert(x[i] == w[i - v.len()] && x[j] == w[j - v.len()]); } } }
pub proof fn vals_add(m: Map<Addr, Position_o>, A: Seq<Addr>, B: Seq<Addr>)
    ensures vals(m, A + B) =~= vals(m, A) + vals(m, B)
{ let x = vals(m, A + B); let y = vals(m, A) + vals(m, B);
  assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { if i < A.len() { assert((A + B)[i] == A[i]); } else { assert((A + B)[i] == B[i - A.len()]); } } }
pub proof fn vals_same(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, L: Seq<Addr>)
    requires forall|i: int| 0 <= i < L.len() ==> pv(m2[#[trigger] L[i]]) == pv(m[L[i]])
    ensures vals(m2, L) =~= vals(m, L)
{ }
pub proof fn to_set_add(A: Seq<Addr>, B: Seq<Addr>)
    ensures (A + B).to_set() =~= A.to_set() + B.to_set()
{ assert forall|a: Addr| (A + B).contains(a) == (A.contains(a) || B.contains(a)) by {
    if A.contains(a) { assert((A + B)[A.index_of(a)] == a); }
    if B.contains(a) { assert((A + B)[A.len() + B.index_of(a)] == a); } } }
pub proof fn to_set_first(L: Seq<Addr>)
    requires L.len() > 0
    ensures L.to_set() =~= L.drop_first().to_set().insert(L[0])
{ assert(L =~= seq![L[0]] + L.drop_first()); to_set_add(seq![L[0]], L.drop_first()); assert(seq![L[0]].to_set() =~= Set::empty().insert(L[0])) by { assert(seq![L[0]][0] == L[0]); } }
/// one step of the merge of two sorted lists: the node x = lower moves from the front of A to the end of C = [t] + R
pub open spec fn disj(A: Seq<Addr>, B: Seq<Addr>) -> bool { forall|i: int, j: int| #![trigger A[i], B[j]] 0 <= i < A.len() && 0 <= j < B.len() ==> A[i] != B[j] }
pub proof fn merge_step(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, t: Addr, C: Seq<Addr>, x: Addr, A: Seq<Addr>, y: Addr, B: Seq<Addr>)
    requires C.len() > 0, A.len() > 0, seg(m, t, C, m[C.last()]._next), is_list(m, x, A), is_list(m, y, B), disj(C, A), disj(C, B), disj(A, B),
        m2 == m.insert(C.last(), Position_o { _next: x, ..m[C.last()] })
    ensures seg(m2, t, C.push(x), m2[x]._next), is_list(m2, m2[x]._next, A.drop_first()), is_list(m2, y, B), m2[x]._next == m[x]._next,
        disj(C.push(x), A.drop_first()), disj(C.push(x), B), disj(A.drop_first(), B), x == A[0], m2.dom() =~= m.dom(),
        forall|a: Addr| pv(#[trigger] m2[a]) == pv(m[a]),
        A.to_set() =~= A.drop_first().to_set().insert(x)
{
    let z = C.last();
    assert(C[C.len() - 1] == z);
    list_tail(m, x, A);
    seg_frame(m, m2, x, A, 0);
    seg_frame(m, m2, y, B, 0);
    list_tail(m2, x, A);
    seg_relink(m, m2, t, C, m[z]._next, x);
    assert(!C.contains(x)) by { if C.contains(x) { assert(C[C.index_of(x)] == A[0]); } }
    seg_push(m2, t, C, x, m2[x]._next);
    let D = A.drop_first(); let C2 = C.push(x);
    assert forall|i: int, j: int| #![trigger C2[i], D[j]] 0 <= i < C2.len() && 0 <= j < D.len() implies C2[i] != D[j] by { assert(D[j] == A[j + 1]); if i < C.len() { assert(C2[i] == C[i]); } else { assert(A[0] == x); } }
    assert forall|i: int, j: int| #![trigger C2[i], B[j]] 0 <= i < C2.len() && 0 <= j < B.len() implies C2[i] != B[j] by { if i < C.len() { assert(C2[i] == C[i]); } else { assert(A[0] == x); } }
    assert forall|i: int, j: int| #![trigger D[i], B[j]] 0 <= i < D.len() && 0 <= j < B.len() implies D[i] != B[j] by { assert(D[i] == A[i + 1]); }
    to_set_first(A);
}
pub proof fn to_set_push(L: Seq<Addr>, x: Addr)
    ensures L.push(x).to_set() =~= L.to_set().insert(x)
{ assert(L.push(x) =~= L + seq![x]); to_set_add(L, seq![x]); assert(seq![x].to_set() =~= Set::empty().insert(x)) by { assert(seq![x][0] == x); } }
pub proof fn below_push(sp: bool, v: Seq<PV>, x: PV, w: Seq<PV>)
    requires sorted(sp, v), below(sp, v, w), forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !pv_lt(sp, x, v[i]), forall|j: int| #![trigger w[j]] 0 <= j < w.len() ==> !pv_lt(sp, w[j], x)
    ensures sorted(sp, v.push(x)), below(sp, v.push(x), w)
{ let y = v.push(x);
  assert forall|i: int, j: int| #![trigger y[i], y[j]] 0 <= i < j < y.len() implies !pv_lt(sp, y[j], y[i]) by { if j < v.len() { assert(y[i] == v[i] && y[j] == v[j]); } else { assert(y[i] == v[i]); } }
  assert forall|i: int, j: int| #![trigger y[i], w[j]] 0 <= i < y.len() && 0 <= j < w.len() implies !pv_lt(sp, w[j], y[i]) by { if i < v.len() { assert(y[i] == v[i]); } } }
pub proof fn vals_drop(m: Map<Addr, Position_o>, L: Seq<Addr>)
    requires L.len() > 0
    ensures vals(m, L.drop_first()) =~= vals(m, L).drop_first(), vals(m, L)[0] == pv(m[L[0]])
{ let x = vals(m, L.drop_first()); let y = vals(m, L).drop_first(); assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(L.drop_first()[i] == L[i + 1]); assert(y[i] == vals(m, L)[i + 1]); } }
/// invariant preservation, x is the front of A (moved), y the front of B
pub proof fn merge_half(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, t: Addr, C: Seq<Addr>, x: Addr, A: Seq<Addr>, y: Addr, B: Seq<Addr>, sp: bool, U: Set<Addr>)
    requires C.len() > 0, C[0] == t, A.len() > 0, B.len() > 0, seg(m, t, C, m[C.last()]._next), is_list(m, x, A), is_list(m, y, B), disj(C, A), disj(C, B), disj(A, B),
        m2 == m.insert(C.last(), Position_o { _next: x, ..m[C.last()] }),
        U =~= C.drop_first().to_set() + A.to_set() + B.to_set(),
        sorted(sp, vals(m, C.drop_first())), sorted(sp, vals(m, A)), sorted(sp, vals(m, B)),
        below(sp, vals(m, C.drop_first()), vals(m, A)), below(sp, vals(m, C.drop_first()), vals(m, B)),
        !pv_lt(sp, pv(m[y]), pv(m[x]))
    ensures ({ let C2 = C.push(x); let A2 = A.drop_first();
        &&& seg(m2, t, C2, m2[x]._next) &&& C2.last() == x &&& C2[0] == t &&& m2[x]._next == m[x]._next
        &&& is_list(m2, m[x]._next, A2) &&& is_list(m2, y, B) &&& disj(C2, A2) &&& disj(C2, B) &&& disj(A2, B)
        &&& U =~= C2.drop_first().to_set() + A2.to_set() + B.to_set()
        &&& sorted(sp, vals(m2, C2.drop_first())) &&& sorted(sp, vals(m2, A2)) &&& sorted(sp, vals(m2, B))
        &&& below(sp, vals(m2, C2.drop_first()), vals(m2, A2)) &&& below(sp, vals(m2, C2.drop_first()), vals(m2, B))
        &&& m2.dom() =~= m.dom() &&& forall|a: Addr| pv(#[trigger] m2[a]) == pv(m[a]) }),
        C.len() > 1 ==> U.contains(C.last()), A2_len(A)
{
    let C2 = C.push(x); let A2 = A.drop_first();
    merge_step(m, m2, t, C, x, A, y, B);
    assert(C2.drop_first() =~= C.drop_first().push(x));
    to_set_push(C.drop_first(), x);
    if C.len() > 1 { assert(C.drop_first()[C.len() - 2] == C.last()); assert(C.drop_first().contains(C.last())); }
    vals_drop(m, A); vals_same(m, m2, A2); vals_same(m, m2, B); vals_same(m, m2, C.drop_first());
    let v = vals(m, C.drop_first()); let va = vals(m, A); let vb = vals(m, B); let va2 = vals(m, A2); let px = pv(m[x]);
    assert(vb[0] == pv(m[y])) by { assert(B[0] == y); }
    assert(va[0] == px);
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies !pv_lt(sp, px, v[i]) by { assert(!pv_lt(sp, va[0], v[i])); }
    assert forall|j: int| #![trigger va2[j]] 0 <= j < va2.len() implies !pv_lt(sp, va2[j], px) by { assert(va2[j] == va[j + 1]); assert(!pv_lt(sp, va[j + 1], va[0])); }
    assert forall|j: int| #![trigger vb[j]] 0 <= j < vb.len() implies !pv_lt(sp, vb[j], px) by { if j > 0 { assert(!pv_lt(sp, vb[j], vb[0])); } }
    assert(below(sp, v, va2)) by { assert forall|i: int, j: int| #![trigger v[i], va2[j]] 0 <= i < v.len() && 0 <= j < va2.len() implies !pv_lt(sp, va2[j], v[i]) by { assert(va2[j] == va[j + 1]); } }
    below_push(sp, v, px, va2); below_push(sp, v, px, vb);
    assert(vals(m2, C2.drop_first()) =~= v.push(px)) by { let l = C2.drop_first(); assert forall|i: int| 0 <= i < l.len() implies pv(m2[l[i]]) == v.push(px)[i] by { if i < v.len() { assert(l[i] == C.drop_first()[i]); } } }
    assert(sorted(sp, va2)) by { assert forall|i: int, j: int| #![trigger va2[i], va2[j]] 0 <= i < j < va2.len() implies !pv_lt(sp, va2[j], va2[i]) by { assert(va2[i] == va[i + 1] && va2[j] == va[j + 1]); } }
}
pub open spec fn A2_len(A: Seq<Addr>) -> bool { A.drop_first().len() == A.len() - 1 }
pub proof fn merge_loop(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, t: Addr, C: Seq<Addr>, lo: Addr, A: Seq<Addr>, up: Addr, B: Seq<Addr>, x: Addr, lo2: Addr, up2: Addr, sp: bool, U: Set<Addr>)
    requires C.len() > 0, C[0] == t, A.len() > 0, B.len() > 0, seg(m, t, C, m[C.last()]._next), is_list(m, lo, A), is_list(m, up, B), disj(C, A), disj(C, B), disj(A, B),
        m2 == m.insert(C.last(), Position_o { _next: x, ..m[C.last()] }),
        U =~= C.drop_first().to_set() + A.to_set() + B.to_set(),
        sorted(sp, vals(m, C.drop_first())), sorted(sp, vals(m, A)), sorted(sp, vals(m, B)),
        below(sp, vals(m, C.drop_first()), vals(m, A)), below(sp, vals(m, C.drop_first()), vals(m, B)),
        (x == lo && !pv_lt(sp, pv(m[up]), pv(m[lo])) && lo2 == m2[lo]._next && up2 == up) || (x == up && !pv_lt(sp, pv(m[lo]), pv(m[up])) && up2 == m2[up]._next && lo2 == lo)
    ensures ({ let C2 = C.push(x); let A2 = if x == lo { A.drop_first() } else { A }; let B2 = if x == lo { B } else { B.drop_first() };
        &&& seg(m2, t, C2, m2[x]._next) &&& C2.last() == x &&& C2[0] == t &&& C2.len() > 1
        &&& is_list(m2, lo2, A2) &&& is_list(m2, up2, B2) &&& disj(C2, A2) &&& disj(C2, B2) &&& disj(A2, B2)
        &&& U =~= C2.drop_first().to_set() + A2.to_set() + B2.to_set()
        &&& sorted(sp, vals(m2, C2.drop_first())) &&& sorted(sp, vals(m2, A2)) &&& sorted(sp, vals(m2, B2))
        &&& below(sp, vals(m2, C2.drop_first()), vals(m2, A2)) &&& below(sp, vals(m2, C2.drop_first()), vals(m2, B2))
        &&& m2.dom() =~= m.dom() &&& (forall|a: Addr| pv(#[trigger] m2[a]) == pv(m[a]))
        &&& A2.len() + B2.len() < A.len() + B.len() }),
        C.len() > 1 ==> U.contains(C.last())
{
    assert(A[0] != B[0]);
    if x == lo { merge_half(m, m2, t, C, lo, A, up, B, sp, U); }
    else {
        assert(disj(B, A)) by { assert forall|i: int, j: int| #![trigger B[i], A[j]] 0 <= i < B.len() && 0 <= j < A.len() implies B[i] != A[j] by { assert(A[j] != B[i]); } }
        merge_half(m, m2, t, C, up, B, lo, A, sp, U);
        let B2 = B.drop_first();
        assert(disj(A, B2)) by { assert forall|i: int, j: int| #![trigger A[i], B2[j]] 0 <= i < A.len() && 0 <= j < B2.len() implies A[i] != B2[j] by { assert(B2[j] == B[j + 1]); } }
    }
}
/// after the loop: the rest hangs off the last node, the dummy is cut off
pub proof fn merge_end(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, t: Addr, C: Seq<Addr>, x: Addr, A: Seq<Addr>, sp: bool)
    requires C.len() > 0, C[0] == t, seg(m, t, C, m[C.last()]._next), is_list(m, x, A), disj(C, A),
        m2.dom() =~= m.dom().remove(t), forall|a: Addr| a != t && m.contains_key(a) ==> #[trigger] m2[a] == (if a == C.last() { Position_o { _next: x, ..m[a] } } else { m[a] }),
        sorted(sp, vals(m, C.drop_first())), sorted(sp, vals(m, A)), below(sp, vals(m, C.drop_first()), vals(m, A))
    ensures ({ let L = C.drop_first() + A; is_list(m2, if C.len() > 1 { C[1] } else { x }, L) && sorted(sp, vals(m2, L)) && L.to_set() =~= C.drop_first().to_set() + A.to_set() })
{
    let z = C.last(); assert(C[C.len() - 1] == z); let D = C.drop_first(); let L = D + A;
    to_set_add(D, A);
    assert(!A.contains(z)) by { if A.contains(z) { assert(C[C.len() - 1] == A[A.index_of(z)]); } }
    assert(!A.contains(t)) by { if A.contains(t) { assert(C[0] == A[A.index_of(t)]); } }
    seg_frame(m, m2, x, A, 0);
    seg_cut(m, t, C, m[z]._next, 1);
    assert(C.skip(1) =~= D);
    vals_add(m2, D, A);
    assert forall|i: int| 0 <= i < D.len() implies D[i] != t && #[trigger] m.contains_key(D[i]) && pv(m2[D[i]]) == pv(m[D[i]]) by { assert(D[i] == C[i + 1]); assert(C[0] == t); }
    vals_same(m, m2, D);
    sorted_join(sp, vals(m, D), vals(m, A));
    if C.len() > 1 {
        assert(D[D.len() - 1] == z);
        assert forall|i: int| 0 <= i < D.len() - 1 implies m2[#[trigger] D[i]] == m[D[i]] by { assert(D[i] == C[i + 1]); }
        seg_relink(m, m2, C[1], D, m[z]._next, x);
        assert(disj(D, A)) by { assert forall|i: int, j: int| #![trigger D[i], A[j]] 0 <= i < D.len() && 0 <= j < A.len() implies D[i] != A[j] by { assert(D[i] == C[i + 1]); } }
        seg_join(m2, C[1], D, x, A, 0);
    } else { assert(L =~= A); assert(D =~= seq![]); }
}
pub broadcast proof fn one_has_list(m: Map<Addr, Position_o>, a: Addr)
    ensures m.contains_key(a) && a != 0 && m[a]._next == 0 ==> #[trigger] has_list(m, a) && lst(m, a) == seq![a]
{ if m.contains_key(a) && a != 0 && m[a]._next == 0 { list_one(m, a, 0); lst_is(m, a, seq![a]); } }
/// cutting a list after its k-th node gives two lists
pub open spec fn cut(m: Map<Addr, Position_o>, a: Addr) -> Map<Addr, Position_o> { m.insert(a, Position_o { _next: 0, ..m[a] }) }
pub proof fn split_lists(m: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, k: int)
    requires is_list(m, head, L), 0 < k <= L.len()
    ensures ({ let m2 = cut(m, L[k - 1]); let up = m[L[k - 1]]._next; let A = L.take(k); let B = L.skip(k);
        &&& is_list(m2, head, A) &&& is_list(m2, up, B) &&& disj(A, B) &&& L.to_set() =~= A.to_set() + B.to_set() &&& m.contains_key(L[k - 1]) &&& m2.dom() =~= m.dom() &&& A.to_set().contains(L[k - 1])
        &&& forall|a: Addr| pv(#[trigger] m2[a]) == pv(m[a]) })
{
    let m2 = cut(m, L[k - 1]); let A = L.take(k); let B = L.skip(k);
    seg_cut(m, head, L, 0, k);
    assert(A.last() == L[k - 1]); assert(A[k - 1] == L[k - 1]);
    assert(m[L[k - 1]]._next == (if k < L.len() { L[k] } else { 0 }));
    assert(disj(A, B));
    assert forall|i: int| 0 <= i < B.len() implies #[trigger] B[i] != L[k - 1] by { assert(A[k - 1] != B[i]); }
    seg_frame(m, m2, if k < L.len() { L[k] } else { 0 }, B, 0);
    assert forall|i: int| 0 <= i < A.len() - 1 implies m2[#[trigger] A[i]] == m[A[i]] by { assert(A[i] == L[i]); }
    seg_relink(m, m2, head, A, if k < L.len() { L[k] } else { 0 }, 0);
    to_set_add(A, B);
}
/// a list whose nodes kept their links survives a relinking elsewhere
pub proof fn list_frame_set(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, S: Set<Addr>)
    requires is_list(m, head, L), relinked(m, m2, S), forall|a: Addr| S.contains(a) ==> !L.contains(a)
    ensures is_list(m2, head, L), vals(m2, L) =~= vals(m, L)
{ assert forall|i: int| 0 <= i < L.len() implies m2.contains_key(#[trigger] L[i]) && m2[L[i]] == m[L[i]] by { assert(L.contains(L[i])); assert(m.contains_key(L[i])); } seg_frame(m, m2, head, L, 0); }
pub proof fn disj_sets(A: Seq<Addr>, B: Seq<Addr>, A2: Seq<Addr>, B2: Seq<Addr>)
    requires disj(A, B), A2.to_set() =~= A.to_set(), B2.to_set() =~= B.to_set()
    ensures disj(A2, B2), forall|a: Addr| A.to_set().contains(a) ==> !B.contains(a), forall|a: Addr| B.to_set().contains(a) ==> !A.contains(a), forall|a: Addr| B.to_set().contains(a) ==> !A2.contains(a)
{
    assert forall|a: Addr| A.to_set().contains(a) implies !B.contains(a) by { if B.contains(a) { assert(A[A.index_of(a)] != B[B.index_of(a)]); } }
    assert forall|a: Addr| B.to_set().contains(a) implies !A.contains(a) by { if A.contains(a) { assert(A[A.index_of(a)] != B[B.index_of(a)]); } }
    assert forall|i: int, j: int| #![trigger A2[i], B2[j]] 0 <= i < A2.len() && 0 <= j < B2.len() implies A2[i] != B2[j] by { assert(A2.to_set().contains(A2[i])); assert(B2.to_set().contains(B2[j])); assert(A.contains(A2[i])); assert(B.contains(B2[j])); }
    assert forall|a: Addr| B.to_set().contains(a) implies !A2.contains(a) by { if A2.contains(a) { assert(A2.to_set().contains(a)); assert(A.contains(a)); } }
}
pub broadcast proof fn relinked_keeps(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, S: Set<Addr>, h: Addr)
    requires #[trigger] relinked(m0, m1, S), has_list(m0, h), forall|a: Addr| S.contains(a) ==> !lst(m0, h).contains(a)
    ensures #[trigger] has_list(m1, h), lst(m1, h) == lst(m0, h), vals(m1, lst(m0, h)) == vals(m0, lst(m0, h))
{ let L = lst(m0, h); list_frame_set(m0, m1, h, L, S); lst_is(m1, h, L); }
pub proof fn relinked_trans(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, S: Set<Addr>)
    requires m1 =~= m0 || relinked(m0, m1, S), m1.dom() =~= m0.dom()
    ensures relinked(m1, m2, S) ==> relinked(m0, m2, S)
{ }
pub broadcast proof fn relinked_wider(m0: Map<Addr, Position_o>, m1: Map<Addr, Position_o>, S: Set<Addr>, T: Set<Addr>)
    requires #[trigger] relinked(m0, m1, S), S.subset_of(T)
    ensures #[trigger] relinked(m0, m1, T)
{ }
/// x linked in after the k-th node
pub proof fn list_insert(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, k: int, x: Addr)
    requires is_list(m, head, L), 0 <= k < L.len(), !L.contains(x), x != 0, m2.contains_key(x), m2.contains_key(L[k]), m2[L[k]]._next == x, m2[x]._next == m[L[k]]._next,
        forall|a: Addr| #![trigger m2.contains_key(a)] #![trigger m2[a]] a != x && a != L[k] && m.contains_key(a) ==> m2.contains_key(a) && m2[a] == m[a]
    ensures is_list(m2, head, L.insert(k + 1, x))
{
    let R = L.insert(k + 1, x);
    assert forall|i: int| 0 <= i < R.len() implies m2.contains_key(#[trigger] R[i]) && R[i] != 0 by { if i <= k { assert(R[i] == L[i]); } else if i > k + 1 { assert(R[i] == L[i - 1]); } }
    assert forall|i: int| 0 <= i < R.len() implies (#[trigger] m2[R[i]])._next == (if i + 1 < R.len() { R[i + 1] } else { 0 }) by {
        if i <= k { assert(R[i] == L[i]); assert(m[L[i]]._next == (if i + 1 < L.len() { L[i + 1] } else { 0 })); if i < k { assert(R[i + 1] == L[i + 1]); } }
        else if i == k + 1 { assert(m[L[k]]._next == (if k + 1 < L.len() { L[k + 1] } else { 0 })); if i + 1 < R.len() { assert(R[i + 1] == L[k + 1]); } }
        else { assert(R[i] == L[i - 1]); assert(m[L[i - 1]]._next == (if i < L.len() { L[i] } else { 0 })); if i + 1 < R.len() { assert(R[i + 1] == L[i]); } }
    }
    assert(R.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < R.len() && 0 <= j < R.len() && i != j implies R[i] != R[j] by {
        let f = |i: int| if i <= k { i } else { i - 1 };
        if i != k + 1 { assert(R[i] == L[f(i)]); } if j != k + 1 { assert(R[j] == L[f(j)]); } } }
}
pub proof fn list_push_front(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, x: Addr)
    requires is_list(m, head, L), !L.contains(x), x != 0, m2.contains_key(x), m2[x]._next == head,
        forall|a: Addr| #![trigger m2.contains_key(a)] #![trigger m2[a]] a != x && m.contains_key(a) ==> m2.contains_key(a) && m2[a] == m[a]
    ensures is_list(m2, x, seq![x] + L)
{
    assert forall|i: int| 0 <= i < L.len() implies m2.contains_key(#[trigger] L[i]) && m2[L[i]] == m[L[i]] by { assert(L.contains(L[i])); assert(m.contains_key(L[i])); }
    seg_frame(m, m2, head, L, 0); list_one(m2, x, head);
    assert forall|i: int, j: int| 0 <= i < seq![x].len() && 0 <= j < L.len() implies seq![x][i] != L[j] by { assert(L.contains(L[j])); }
    seg_join(m2, x, seq![x], head, L, 0);
}
/// the k-th node unlinked (and freed)
pub proof fn list_remove(m: Map<Addr, Position_o>, m2: Map<Addr, Position_o>, head: Addr, L: Seq<Addr>, k: int)
    requires is_list(m, head, L), 0 <= k < L.len(),
        forall|i: int| 0 <= i < L.len() && i != k ==> m2.contains_key(#[trigger] L[i]),
        k > 0 ==> m2[L[k - 1]]._next == m[L[k]]._next,
        forall|i: int| 0 <= i < L.len() && i != k && i != k - 1 ==> m2[#[trigger] L[i]] == m[L[i]],
    ensures is_list(m2, if k == 0 { m[head]._next } else { head }, L.remove(k))
{
    let R = L.remove(k); let A = L.take(k); let B = L.skip(k + 1); let x = m[L[k]]._next;
    assert(m[L[k]]._next == (if k + 1 < L.len() { L[k + 1] } else { 0 }));
    assert(R =~= A + B);
    seg_cut(m, head, L, 0, k); seg_cut(m, head, L, 0, k + 1);
    assert forall|i: int| 0 <= i < B.len() implies m2.contains_key(#[trigger] B[i]) && m2[B[i]] == m[B[i]] by { assert(B[i] == L[i + k + 1]); }
    seg_frame(m, m2, x, B, 0);
    if k > 0 {
        assert(A.last() == L[k - 1]);
        assert forall|i: int| 0 <= i < A.len() implies m2.contains_key(#[trigger] A[i]) by { assert(A[i] == L[i]); }
        assert forall|i: int| 0 <= i < A.len() - 1 implies m2[#[trigger] A[i]] == m[A[i]] by { assert(A[i] == L[i]); }
        seg_relink(m, m2, head, A, L[k], x);
        assert forall|i: int, j: int| 0 <= i < A.len() && 0 <= j < B.len() implies A[i] != B[j] by { assert(A[i] == L[i] && B[j] == L[j + k + 1]); }
        seg_join(m2, head, A, x, B, 0);
    } else { assert(R =~= B); }
}
/// distinct, allocated, unlinked nodes
pub open spec fn loose(m: Map<Addr, Position_o>, P: Seq<Addr>) -> bool {
    P.no_duplicates() && forall|i: int| 0 <= i < P.len() ==> P[i] != 0 && m.contains_key(#[trigger] P[i]) && m[P[i]]._next == 0
}
