// ---------------------------------------------------------------------------------------------
// Queries: what remains to be found, and the meaning of the states on the way.
// ---------------------------------------------------------------------------------------------
pub ghost struct QV { pub pend: Seq<Addr>, pub edges: Seq<(i8, Addr)>, pub cur: Addr, pub inters: Seq<Addr>, pub done: bool, pub q: Seq<i8>, pub n: u64, pub tr: FnTransition, pub md: FnDistance, pub a: u64, pub k: u64, pub i: u64 }
pub open spec fn q_alg(Q: QV) -> Alg { alg_of(Q.tr->StateTransition_0.transition) }
pub open spec fn cfg_ok(Q: QV) -> bool {
    &&& Q.tr is StateTransition && consistent(Q.tr->StateTransition_0, q_alg(Q))
    &&& Q.tr->StateTransition_0.max_distance == Q.n && Q.tr->StateTransition_0.query_length == Q.q.len() && Q.q.len() < 0x7fff_ffff
    &&& !(Q.md is Empty) && !(Q.md is distance__STANDARD_2) == !(q_alg(Q) is Std)
    &&& Q.a == (if Q.n < 0x7fff_ffff_ffff_ffff { 2 * Q.n + 1 } else { 0xffff_ffff_ffff_ffff })
}
pub open spec fn same_cfg(Q: QV, R: QV) -> bool { Q.q == R.q && Q.n == R.n && Q.tr == R.tr && Q.md == R.md && Q.a == R.a }
pub open spec fn top_of(m: Map<Addr, Intersection_o>, x: Addr, p: Seq<i8>) -> Addr
    decreases p.len()
{ if p.len() == 0 { x } else { top_of(m, m[x]._parent, p.drop_last()) } }
pub open spec fn pth(h: Heap, x: Addr) -> Seq<i8> { path_of(h.Intersection, x) }
/// state s is the one the automaton for query q reaches on p
pub open spec fn st_means(h: Heap, s: Addr, alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>) -> bool {
    let V = st_vals(h, s);
    &&& st_ok(h, s) && V.len() > 0 && sorted(!(alg is Std), V)
    &&& sound(alg, n, q, p, V.to_set()) && complete(alg, n, q, p, V.to_set())
    &&& forall|j: int| 0 <= j < V.len() ==> (#[trigger] V[j]).e <= V[j].i + p.len()
}
pub open spec fn live(h: Heap, Q: QV, T: Addr, x: Addr) -> bool {
    let I = h.Intersection; let p = pth(h, x);
    &&& has_path(I, x) && top_of(I, x, p) == T && T != 0 && I.contains_key(T)
    &&& I[x]._node == walk(h.DawgNode, I[T]._node, p) && I[x]._node != 0
    &&& st_means(h, I[x]._state, q_alg(Q), Q.n as int, Q.q, p)
}
pub open spec fn estr(h: Heap, Q: QV, j: int) -> Seq<i8> { pth(h, Q.cur).push(Q.edges[j].0) }
pub open spec fn toks(h: Heap, Q: QV) -> Seq<Seq<i8>> { Seq::new(Q.edges.len(), |j: int| estr(h, Q, j)) + Seq::new(Q.pend.len(), |j: int| pth(h, Q.pend[j])) }
pub open spec fn prefix(a: Seq<i8>, b: Seq<i8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub open spec fn antichain(A: Seq<Seq<i8>>) -> bool { forall|i: int, j: int| #![trigger A[i], A[j]] 0 <= i < A.len() && 0 <= j < A.len() && i != j ==> !prefix(A[i], A[j]) }
pub open spec fn edges_ok(h: Heap, Q: QV) -> bool {
    let I = h.Intersection; let V = st_vals(h, I[Q.cur]._state); let M = h.DawgNode[I[Q.cur]._node]._edges@;
    &&& Q.i == V[0].i && Q.k == window(Q.n as int, Q.q, Q.i as int)
    &&& forall|j: int| 0 <= j < Q.edges.len() ==> M.contains_key((#[trigger] Q.edges[j]).0) && M[Q.edges[j].0] == Q.edges[j].1
}
pub open spec fn inv(h: Heap, Q: QV, T: Addr) -> bool {
    &&& cfg_ok(Q) && h.Intersection.contains_key(T) && rooted(h.DawgNode, h.Intersection[T]._node)
    &&& forall|j: int| 0 <= j < Q.pend.len() ==> live(h, Q, T, #[trigger] Q.pend[j])
    &&& Q.cur != 0 ==> live(h, Q, T, Q.cur)
    &&& Q.edges.len() > 0 ==> Q.cur != 0 && edges_ok(h, Q)
    &&& antichain(toks(h, Q))
}
pub open spec fn in_todo(h: Heap, Q: QV, w: Seq<i8>) -> bool {
    ||| exists|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w)
    ||| exists|j: int| 0 <= j < Q.pend.len() && prefix(pth(h, #[trigger] Q.pend[j]), w) && pth(h, Q.pend[j]) != w
}
pub open spec fn walkable(h: Heap, T: Addr, w: Seq<i8>) -> bool { walk(h.DawgNode, h.Intersection[T]._node, w) != 0 }
pub open spec fn matches(h: Heap, Q: QV, T: Addr, w: Seq<i8>) -> bool { acc(h.DawgNode, h.Intersection[T]._node, w) && E(q_alg(Q), w, Q.q) <= Q.n }
pub open spec fn sub<V>(a: Map<Addr, V>, b: Map<Addr, V>) -> bool { forall|x: Addr| #[trigger] a.contains_key(x) ==> b.contains_key(x) && b[x] == a[x] }
/// nothing that existed was changed
pub open spec fn ext(h0: Heap, h1: Heap) -> bool { h1.DawgNode == h0.DawgNode && sub(h0.Position, h1.Position) && sub(h0.State, h1.State) && sub(h0.Intersection, h1.Intersection) }

pub proof fn prefix_push(a: Seq<i8>, c: i8, b: Seq<i8>)
    ensures prefix(a.push(c), b) == (prefix(a, b) && a.len() < b.len() && b[a.len() as int] == c)
{
    let n = a.len() as int;
    if prefix(a.push(c), b) { assert(b.take(n + 1) == a.push(c)); assert(b.take(n) =~= b.take(n + 1).take(n)); assert(a.push(c).take(n) =~= a); assert(b.take(n + 1)[n] == c); }
    if prefix(a, b) && a.len() < b.len() && b[n] == c { assert(b.take(n + 1) =~= b.take(n).push(b[n])); }
}
pub proof fn prefix_trans(a: Seq<i8>, b: Seq<i8>, c: Seq<i8>)
    requires prefix(a, b), prefix(b, c)
    ensures prefix(a, c)
{ assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); }
pub proof fn prefix_of_push(a: Seq<i8>, b: Seq<i8>, c: i8)
    requires prefix(a, b.push(c))
    ensures prefix(a, b) || a == b.push(c)
{ if a.len() <= b.len() { assert(b.push(c).take(a.len() as int) =~= b.take(a.len() as int)); } else { assert(b.push(c).take(a.len() as int) =~= b.push(c)); } }
pub proof fn prefix_both(a: Seq<i8>, b: Seq<i8>, w: Seq<i8>)
    requires prefix(a, w), prefix(b, w)
    ensures prefix(a, b) || prefix(b, a)
{ if a.len() <= b.len() { assert(w.take(b.len() as int).take(a.len() as int) =~= w.take(a.len() as int)); } else { assert(w.take(a.len() as int).take(b.len() as int) =~= w.take(b.len() as int)); } }

// ---- walks
pub proof fn walk_bound(m: DM, x: Addr, k: nat, p: Seq<i8>)
    requires node_ok(m, x, k), walk(m, x, p) != 0
    ensures p.len() <= k, node_ok(m, walk(m, x, p), (k - p.len()) as nat)
    decreases p.len()
{ if p.len() > 0 { walk_bound(m, x, k, p.drop_last()); } }
pub proof fn walk_prefix(m: DM, x: Addr, a: Seq<i8>, w: Seq<i8>)
    requires prefix(a, w), walk(m, x, w) != 0
    ensures walk(m, x, a) != 0
    decreases w.len()
{ if a.len() == w.len() { assert(w.take(a.len() as int) =~= w); } else { assert(w.drop_last().take(a.len() as int) =~= w.take(a.len() as int)); walk_prefix(m, x, a, w.drop_last()); } }
pub proof fn walk_push(m: DM, x: Addr, p: Seq<i8>, c: i8)
    ensures walk(m, x, p.push(c)) == (if walk(m, x, p) != 0 && m[walk(m, x, p)]._edges@.contains_key(c) { m[walk(m, x, p)]._edges@[c] } else { 0 })
{ assert(p.push(c).drop_last() =~= p); }

// ---- heap growth
pub proof fn path_ext(m: Map<Addr, Intersection_o>, m2: Map<Addr, Intersection_o>, x: Addr, p: Seq<i8>)
    requires is_path(m, x, p), sub(m, m2)
    ensures is_path(m2, x, p), top_of(m2, x, p) == top_of(m, x, p), m.contains_key(top_of(m, x, p))
    decreases p.len()
{ if p.len() > 0 { path_ext(m, m2, m[x]._parent, p.drop_last()); } }
pub proof fn means_ext(h: Heap, h2: Heap, s: Addr, alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>)
    requires st_means(h, s, alg, n, q, p), sub(h.Position, h2.Position), sub(h.State, h2.State)
    ensures st_means(h2, s, alg, n, q, p), st_vals(h2, s) == st_vals(h, s)
{
    let L = st_lst(h, s); let hd = h.State[s]._head;
    assert forall|i: int| 0 <= i < L.len() implies h2.Position.contains_key(#[trigger] L[i]) && h2.Position[L[i]] == h.Position[L[i]] by { assert(h.Position.contains_key(L[i])); }
    seg_frame(h.Position, h2.Position, hd, L, 0); assert(is_list(h2.Position, hd, L)); lst_is(h2.Position, hd, L);
}
pub proof fn live_ext(h: Heap, h2: Heap, Q: QV, Q2: QV, T: Addr, x: Addr)
    requires live(h, Q, T, x), ext(h, h2), same_cfg(Q, Q2)
    ensures live(h2, Q2, T, x), pth(h2, x) == pth(h, x), st_vals(h2, h2.Intersection[x]._state) == st_vals(h, h.Intersection[x]._state), h2.Intersection[x] == h.Intersection[x]
{
    let p = pth(h, x); path_ext(h.Intersection, h2.Intersection, x, p); path_is(h2.Intersection, x, p);
    means_ext(h, h2, h.Intersection[x]._state, q_alg(Q), Q.n as int, Q.q, p);
}
pub proof fn inv_ext(h: Heap, h2: Heap, Q: QV, T: Addr)
    requires inv(h, Q, T), ext(h, h2)
    ensures inv(h2, Q, T), toks(h2, Q) == toks(h, Q), forall|w: Seq<i8>| #[trigger] in_todo(h2, Q, w) == in_todo(h, Q, w), forall|w: Seq<i8>| #[trigger] matches(h2, Q, T, w) == matches(h, Q, T, w)
{
    assert forall|j: int| 0 <= j < Q.pend.len() implies live(h2, Q, T, #[trigger] Q.pend[j]) && pth(h2, Q.pend[j]) == pth(h, Q.pend[j]) by { live_ext(h, h2, Q, Q, T, Q.pend[j]); }
    if Q.cur != 0 { live_ext(h, h2, Q, Q, T, Q.cur); }
    assert forall|j: int| 0 <= j < Q.edges.len() implies #[trigger] estr(h2, Q, j) == estr(h, Q, j) by { }
    assert(toks(h2, Q) =~= toks(h, Q));
    assert forall|w: Seq<i8>| #[trigger] in_todo(h2, Q, w) == in_todo(h, Q, w) by {
        if exists|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w) { let j = choose|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w); assert(prefix(estr(h2, Q, j), w)); }
        if exists|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h2, Q, j), w) { let j = choose|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h2, Q, j), w); assert(prefix(estr(h, Q, j), w)); }
    }
}

// ---- taking up the next intersection
pub proof fn expand(h: Heap, Q: QV, R: QV, T: Addr, keys: Seq<i8>)
    requires inv(h, Q, T), Q.edges.len() == 0, Q.pend.len() > 0, same_cfg(Q, R), R.pend == Q.pend.drop_first(), R.cur == Q.pend[0],
        ({ let M = h.DawgNode[h.Intersection[R.cur]._node]._edges@; let V = st_vals(h, h.Intersection[R.cur]._state);
           &&& R.edges.len() == keys.len() &&& keys.no_duplicates() &&& (forall|c: i8| keys.contains(c) == #[trigger] M.contains_key(c))
           &&& (forall|j: int| 0 <= j < keys.len() ==> (#[trigger] R.edges[j]) == (keys[j], M[keys[j]]))
           &&& R.i == V[0].i &&& R.k == window(Q.n as int, Q.q, R.i as int) })
    ensures inv(h, R, T), forall|w: Seq<i8>| walkable(h, T, w) ==> #[trigger] in_todo(h, R, w) == in_todo(h, Q, w)
{
    let x = R.cur; let p = pth(h, x); let A = toks(h, Q); let B = toks(h, R); let M = h.DawgNode[h.Intersection[x]._node]._edges@; let D = h.DawgNode; let rt = h.Intersection[T]._node;
    assert(live(h, Q, T, x)); assert(A[0] == p);
    let ne = R.edges.len() as int;
    assert forall|j: int| 0 <= j < Q.pend.len() implies A[j] == pth(h, #[trigger] Q.pend[j]) by { }
    assert forall|j: int| 0 <= j < R.pend.len() implies R.pend[j] == Q.pend[j + 1] && live(h, R, T, #[trigger] R.pend[j]) && B[ne + j] == A[j + 1] by { assert(live(h, Q, T, Q.pend[j + 1])); }
    assert forall|j: int| 0 <= j < ne implies B[j] == p.push(keys[j]) by { assert(R.edges[j] == (keys[j], M[keys[j]])); }
    assert(live(h, R, T, x));
    assert(edges_ok(h, R)) by { assert forall|j: int| 0 <= j < R.edges.len() implies M.contains_key((#[trigger] R.edges[j]).0) && M[R.edges[j].0] == R.edges[j].1 by { assert(keys.contains(keys[j])); } }
    assert(x != 0);
    assert forall|i: int, j: int| #![trigger B[i], B[j]] 0 <= i < B.len() && 0 <= j < B.len() && i != j implies !prefix(B[i], B[j]) by {
        if prefix(B[i], B[j]) {
            if i < ne {
                prefix_push(p, keys[i], B[j]);
                if j < ne { prefix_push(p, keys[i], p.push(keys[j])); } else { assert(B[j] == A[j - ne + 1]); assert(prefix(A[0], A[j - ne + 1])); }
            } else {
                assert(B[i] == A[i - ne + 1]);
                if j < ne { prefix_of_push(A[i - ne + 1], p, keys[j]); if prefix(A[i - ne + 1], p) { assert(prefix(A[i - ne + 1], A[0])); } else { prefix_push(p, keys[j], A[i - ne + 1]); assert(A[i - ne + 1].take(A[i - ne + 1].len() as int) =~= A[i - ne + 1]); assert(prefix(A[0], A[i - ne + 1])); } }
                else { assert(B[j] == A[j - ne + 1]); assert(prefix(A[i - ne + 1], A[j - ne + 1])); }
            }
        }
    }
    assert forall|w: Seq<i8>| walkable(h, T, w) implies #[trigger] in_todo(h, R, w) == in_todo(h, Q, w) by {
        if in_todo(h, R, w) {
            if exists|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w) { let j = choose|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w); prefix_push(p, R.edges[j].0, w); assert(prefix(pth(h, Q.pend[0]), w)); }
            else { let j = choose|j: int| 0 <= j < R.pend.len() && prefix(pth(h, #[trigger] R.pend[j]), w) && pth(h, R.pend[j]) != w; assert(prefix(pth(h, Q.pend[j + 1]), w) && pth(h, Q.pend[j + 1]) != w); }
        }
        if in_todo(h, Q, w) {
            let j = choose|j: int| 0 <= j < Q.pend.len() && prefix(pth(h, #[trigger] Q.pend[j]), w) && pth(h, Q.pend[j]) != w;
            if j > 0 { assert(R.pend[j - 1] == Q.pend[j]); }
            else {
                assert(w.take(w.len() as int) =~= w); assert(p.len() < w.len());
                let c = w[p.len() as int]; prefix_push(p, c, w); walk_prefix(D, rt, p.push(c), w); walk_push(D, rt, p, c); assert(M.contains_key(c)); assert(keys.contains(c)); let i = keys.index_of(c); assert(estr(h, R, i) == p.push(c)); assert(prefix(estr(h, R, i), w));
            }
        }
    }
}
// ---- following an edge
/// Q without its first edge
pub open spec fn popped(Q: QV, R: QV) -> bool { Q.edges.len() > 0 && same_cfg(Q, R) && R.pend == Q.pend && R.cur == Q.cur && R.edges == Q.edges.drop_first() && R.i == Q.i && R.k == Q.k }
pub proof fn pop_edge(h: Heap, Q: QV, R: QV, T: Addr)
    requires inv(h, Q, T), popped(Q, R)
    ensures inv(h, R, T), forall|w: Seq<i8>| #[trigger] in_todo(h, Q, w) == (in_todo(h, R, w) || prefix(estr(h, Q, 0), w)), !in_todo(h, R, estr(h, Q, 0)),
        forall|w: Seq<i8>| prefix(estr(h, Q, 0), w) ==> !#[trigger] in_todo(h, R, w)
{
    let A = toks(h, Q); let B = toks(h, R); let e0 = estr(h, Q, 0);
    assert forall|j: int| 0 <= j < R.edges.len() implies R.edges[j] == Q.edges[j + 1] && #[trigger] estr(h, R, j) == estr(h, Q, j + 1) by { }
    assert(B =~= A.drop_first()); assert(A[0] == e0);
    assert forall|j: int| 0 <= j < R.pend.len() implies live(h, R, T, #[trigger] R.pend[j]) by { assert(live(h, Q, T, Q.pend[j])); }
    if R.cur != 0 { assert(live(h, R, T, R.cur)); }
    assert(antichain(B)) by { assert forall|i: int, j: int| #![trigger B[i], B[j]] 0 <= i < B.len() && 0 <= j < B.len() && i != j implies !prefix(B[i], B[j]) by { assert(B[i] == A[i + 1] && B[j] == A[j + 1]); } }
    if R.edges.len() > 0 { assert(edges_ok(h, R)); }
    assert forall|w: Seq<i8>| #[trigger] in_todo(h, Q, w) == (in_todo(h, R, w) || prefix(e0, w)) by {
        if exists|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w) { let j = choose|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w); if j > 0 { assert(estr(h, R, j - 1) == estr(h, Q, j)); assert(prefix(estr(h, R, j - 1), w)); } }
        if exists|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w) { let j = choose|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w); assert(prefix(estr(h, Q, j + 1), w)); }
        if prefix(e0, w) { assert(prefix(estr(h, Q, 0), w)); }
    }
    assert forall|w: Seq<i8>| prefix(e0, w) implies !#[trigger] in_todo(h, R, w) by {
        if in_todo(h, R, w) {
            let ne = R.edges.len() as int;
            let k = if exists|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w) { choose|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w) } else { ne + choose|j: int| 0 <= j < R.pend.len() && prefix(pth(h, #[trigger] R.pend[j]), w) && pth(h, R.pend[j]) != w };
            if k >= ne { assert(B[k] == pth(h, R.pend[k - ne])); } else { assert(B[k] == estr(h, R, k)); }
            assert(prefix(B[k], w)); assert(B[k] == A[k + 1]); prefix_both(A[0], A[k + 1], w); assert(false);
        }
    }
    assert(e0.take(e0.len() as int) =~= e0);
}
/// ... and with the intersection it leads to
pub proof fn push_pend(h: Heap, Q: QV, R: QV, T: Addr, x: Addr, p: Seq<i8>)
    requires inv(h, Q, T), same_cfg(Q, R), R.pend == Q.pend.push(x), R.cur == Q.cur, R.edges == Q.edges, R.i == Q.i, R.k == Q.k, live(h, Q, T, x), pth(h, x) == p,
        forall|k: int| 0 <= k < toks(h, Q).len() ==> !prefix(p, #[trigger] toks(h, Q)[k]) && !prefix(toks(h, Q)[k], p)
    ensures inv(h, R, T), forall|w: Seq<i8>| #[trigger] in_todo(h, R, w) == (in_todo(h, Q, w) || (prefix(p, w) && w != p))
{
    let A = toks(h, Q); let B = toks(h, R);
    assert forall|j: int| 0 <= j < R.edges.len() implies #[trigger] estr(h, R, j) == estr(h, Q, j) by { }
    assert(B =~= A.push(p));
    assert forall|j: int| 0 <= j < R.pend.len() implies live(h, R, T, #[trigger] R.pend[j]) by { if j < Q.pend.len() { assert(live(h, Q, T, Q.pend[j])); } }
    if R.cur != 0 { assert(live(h, R, T, R.cur)); }
    assert(antichain(B)) by { assert forall|i: int, j: int| #![trigger B[i], B[j]] 0 <= i < B.len() && 0 <= j < B.len() && i != j implies !prefix(B[i], B[j]) by { if i < A.len() { assert(B[i] == A[i]); } if j < A.len() { assert(B[j] == A[j]); } } }
    assert forall|w: Seq<i8>| #[trigger] in_todo(h, R, w) == (in_todo(h, Q, w) || (prefix(p, w) && w != p)) by {
        if exists|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w) { let j = choose|j: int| 0 <= j < Q.edges.len() && #[trigger] prefix(estr(h, Q, j), w); assert(prefix(estr(h, R, j), w)); }
        if exists|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w) { let j = choose|j: int| 0 <= j < R.edges.len() && #[trigger] prefix(estr(h, R, j), w); assert(prefix(estr(h, Q, j), w)); }
        if exists|j: int| 0 <= j < Q.pend.len() && prefix(pth(h, #[trigger] Q.pend[j]), w) && pth(h, Q.pend[j]) != w { let j = choose|j: int| 0 <= j < Q.pend.len() && prefix(pth(h, #[trigger] Q.pend[j]), w) && pth(h, Q.pend[j]) != w; assert(R.pend[j] == Q.pend[j]); }
        if prefix(p, w) && w != p { assert(R.pend[Q.pend.len() as int] == x); }
        if exists|j: int| 0 <= j < R.pend.len() && prefix(pth(h, #[trigger] R.pend[j]), w) && pth(h, R.pend[j]) != w { let j = choose|j: int| 0 <= j < R.pend.len() && prefix(pth(h, #[trigger] R.pend[j]), w) && pth(h, R.pend[j]) != w; if j < Q.pend.len() { assert(R.pend[j] == Q.pend[j]); } }
    }
}
// ---- what the states say
pub proof fn first_is_least(sp: bool, V: Seq<PV>, j: int)
    requires sorted(sp, V), 0 <= j < V.len()
    ensures V[0].i <= V[j].i
{ if j > 0 { assert(!pv_lt(sp, V[j], V[0])); } }
pub proof fn means_pre(h: Heap, Q: QV, s: Addr, p: Seq<i8>, cv: Seq<bool>)
    requires cfg_ok(Q), st_means(h, s, q_alg(Q), Q.n as int, Q.q, p), cv.len() == window(Q.n as int, Q.q, st_vals(h, s)[0].i)
    ensures trans_pre(h, Q.tr->StateTransition_0, s, cv)
{
    let V = st_vals(h, s); let alg = q_alg(Q); let n = Q.n as int;
    assert forall|j: int| 0 <= j < V.len() implies pos_ok(alg, n, V[0].i, cv.len() as int, #[trigger] V[j]) && (alg is Std ==> !V[j].s) by {
        assert(V.to_set().contains(V[0])); assert(V.to_set().contains(V[j])); first_is_least(!(alg is Std), V, j);
        sound_pos_ok(alg, n, Q.q, p, V[0], V[j]);
    }
    assert(V.to_set().contains(V[0])); assert(sound1(alg, n, Q.q, p, V[0]));
}
pub proof fn means_window(h: Heap, Q: QV, s: Addr, p: Seq<i8>)
    requires st_means(h, s, q_alg(Q), Q.n as int, Q.q, p)
    ensures 0 <= st_vals(h, s)[0].i <= Q.q.len()
{ let V = st_vals(h, s); assert(V.to_set().contains(V[0])); assert(sound1(q_alg(Q), Q.n as int, Q.q, p, V[0])); }
/// one step keeps the meaning
pub proof fn means_step(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, cv: Seq<bool>, V: Seq<PV>, W: Seq<PV>)
    requires n >= 0, V.len() > 0, sorted(!(alg is Std), V), sound(alg, n, q, p, V.to_set()), complete(alg, n, q, p, V.to_set()), is_cv(n, q, c, V[0].i, cv), step_ok(alg, n, V, V.len() as int, cv, V[0].i, W),
        forall|j: int| 0 <= j < V.len() ==> (#[trigger] V[j]).e <= V[j].i + p.len(),
    ensures sound(alg, n, q, p.push(c), W.to_set()), complete(alg, n, q, p.push(c), W.to_set()), forall|j: int| 0 <= j < W.len() ==> (#[trigger] W[j]).e <= W[j].i + p.push(c).len()
{
    let off = V[0].i;
    assert forall|v: PV| #[trigger] V.to_set().contains(v) implies off <= v.i && (exists|o: PV| V.to_set().contains(o) && o.i == off) && required(alg, n, v, cv, off, W.to_set()) by {
        let j = V.index_of(v); first_is_least(!(alg is Std), V, j); assert(V.to_set().contains(V[0])); assert(required(alg, n, V[j], cv, off, W.to_set()));
    }
    assert(V.to_set().contains(V[0]));
    complete_step(alg, n, q, p, c, off, cv, V.to_set(), W.to_set());
    assert forall|x: int| 0 <= x < W.len() implies sound1(alg, n, q, p.push(c), #[trigger] W[x]) && W[x].e <= W[x].i + p.push(c).len() by {
        assert(from_some(alg, n, V, V.len() as int, cv, off, W[x]));
        let j = choose|j: int| 0 <= j < V.len() && local_sound(alg, n, #[trigger] V[j], cv, off, W[x]);
        assert(V.to_set().contains(V[j])); assert(sound1(alg, n, q, p, V[j])); first_is_least(!(alg is Std), V, j);
        E_len(alg, p, q.take(V[j].i)); if p.len() >= 1 { E_len(alg, p.drop_last(), q.take(V[j].i)); }
        sound_step(alg, n, q, p, c, off, cv, V[j], W[x]);
    }
    assert forall|v: PV| #[trigger] W.to_set().contains(v) implies sound1(alg, n, q, p.push(c), v) by { let x = W.index_of(v); assert(sound1(alg, n, q, p.push(c), W[x])); }
}
/// once no position is left nothing further matches
pub proof fn none_left(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, w: Seq<i8>)
    requires n >= 0, complete(alg, n, q, p, Set::<PV>::empty()), prefix(p, w)
    ensures E(alg, w, q) > n
    decreases w.len() - p.len()
{
    if p.len() == w.len() {
        assert(w.take(w.len() as int) =~= w);
        if E(alg, w, q) <= n { assert(q.take(q.len() as int) =~= q); assert(Eq(alg, p, q, q.len() as int) <= n); assert(cov(Set::<PV>::empty(), q.len() as int, Eq(alg, p, q, q.len() as int))); }
    } else {
        let c = w[p.len() as int]; prefix_push(p, c, w);
        let cv: Seq<bool> = seq![];
        assert(sound(alg, n, q, p, Set::<PV>::empty()));
        complete_step(alg, n, q, p, c, 0, cv, Set::<PV>::empty(), Set::<PV>::empty());
        none_left(alg, n, q, p.push(c), w);
    }
}
/// the distance read off a state is the edit distance, as far as it is within the bound
pub proof fn means_dist(h: Heap, s: Addr, alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, r: u64)
    requires n >= 0, n <= u64::MAX, p.len() + q.len() < u64::MAX, st_means(h, s, alg, n, q, p), is_min_dist(!(alg is Std), st_vals(h, s), q.len() as int, r)
    ensures E(alg, p, q) <= n ==> r == E(alg, p, q), r <= n ==> r == E(alg, p, q)
{
    let V = st_vals(h, s); let sp = !(alg is Std); let N = q.len() as int;
    assert(q.take(N) =~= q); E_len(alg, p, q);
    E_max(alg, p, q);
    if r != u64::MAX {
        let i = choose|i: int| 0 <= i < V.len() && counts(sp, #[trigger] V[i]) && r == rest(N, V[i]);
        assert(V.to_set().contains(V[i])); assert(sound1(alg, n, q, p, V[i])); E_take_lip(alg, p, q, V[i].i, N);
        assert(E(alg, p, q) <= r);
    }
    if E(alg, p, q) <= n {
        assert(Eq(alg, p, q, N) <= n); assert(cov(V.to_set(), N, Eq(alg, p, q, N)));
        let v = choose|v: PV| #[trigger] V.to_set().contains(v) && !v.s && iabs(N - v.i) <= Eq(alg, p, q, N) - v.e;
        let i = V.index_of(v); assert(V[i] == v); assert(r <= rest(N, V[i]));
    }
}
pub proof fn E_max(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures E(alg, v, w) <= v.len() + w.len()
    decreases v.len() + w.len()
{ if v.len() > 0 && w.len() > 0 { E_max(alg, v.drop_last(), w); } }
pub proof fn means_inq(h: Heap, s: Addr, alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>)
    requires st_means(h, s, alg, n, q, p), q.len() < 0x7fff_ffff, p.len() < 0x4000_0000_0000_0000
    ensures in_query(st_vals(h, s), q.len() as int)
{
    let V = st_vals(h, s);
    assert forall|i: int| 0 <= i < V.len() implies 0 <= (#[trigger] V[i]).i <= q.len() && 0 <= V[i].e && q.len() + V[i].e < 0x8000_0000_0000_0000 by { assert(V.to_set().contains(V[i])); assert(sound1(alg, n, q, p, V[i])); }
}
