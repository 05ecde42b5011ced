// ---------------------------------------------------------------------------------------------
// Enumerating a dictionary: prefixes (with the path of letters from the root), breadth first.
// ---------------------------------------------------------------------------------------------
pub type PM = Map<Addr, Prefix_o>;
pub open spec fn is_pp(M: PM, x: Addr, p: Seq<i8>) -> bool
    decreases p.len()
{
    M.contains_key(x) && x != 0 && (if p.len() == 0 { M[x]._parent == 0 } else { M[x]._parent != 0 && M[x]._label == p.last() && is_pp(M, M[x]._parent, p.drop_last()) })
}
pub open spec fn has_pp(M: PM, x: Addr) -> bool { exists|p: Seq<i8>| is_pp(M, x, p) }
pub open spec fn pp_of(M: PM, x: Addr) -> Seq<i8> { choose|p: Seq<i8>| is_pp(M, x, p) }
pub proof fn pp_unique(M: PM, x: Addr, p: Seq<i8>, r: Seq<i8>)
    requires is_pp(M, x, p), is_pp(M, x, r)
    ensures p == r
    decreases p.len()
{ if p.len() > 0 { pp_unique(M, M[x]._parent, p.drop_last(), r.drop_last()); assert(p =~= p.drop_last().push(p.last())); assert(r =~= r.drop_last().push(r.last())); } else { assert(p =~= r); } }
pub broadcast proof fn pp_is(M: PM, x: Addr, p: Seq<i8>)
    requires #[trigger] is_pp(M, x, p)
    ensures pp_of(M, x) == p, has_pp(M, x)
{ pp_unique(M, x, p, pp_of(M, x)); }
pub open spec fn more(M: PM, N: PM) -> bool { forall|x: Addr| #[trigger] M.contains_key(x) ==> N.contains_key(x) && N[x] == M[x] }
pub proof fn pp_more(M: PM, N: PM, x: Addr, p: Seq<i8>)
    requires is_pp(M, x, p), more(M, N)
    ensures is_pp(N, x, p)
    decreases p.len()
{ if p.len() > 0 { pp_more(M, N, M[x]._parent, p.drop_last()); } }
/// the strings of the prefixes
pub open spec fn strs(M: PM, P: Seq<Addr>) -> Seq<Seq<i8>> { Seq::new(P.len(), |i: int| pp_of(M, P[i])) }
pub open spec fn dom_is(M0: PM, M: PM, P: Seq<Addr>, n: int) -> bool { forall|x: Addr| #[trigger] M.contains_key(x) ==> M0.contains_key(x) || P.skip(n).contains(x) }
/// the first k prefixes are expanded, the others wait
pub open spec fn it_k(o: DawgIterator_o) -> int { o._prefixes@.len() - o._pending@.len() }
pub open spec fn pfx_ok(m: DM, M: PM, P: Seq<Addr>, R: Addr) -> bool {
    &&& P.len() > 0 &&& P.no_duplicates() &&& strs(M, P).no_duplicates() && strs(M, P)[0].len() == 0
    &&& forall|i: int| #![trigger P[i]] 0 <= i < P.len() ==> is_pp(M, P[i], pp_of(M, P[i])) && M[P[i]]._node == walk(m, R, pp_of(M, P[i])) && M[P[i]]._node != 0
}
pub open spec fn has_kid(m: DM, M: PM, x: Addr, c: i8) -> bool { m[M[x]._node]._edges@.contains_key(c) }
pub open spec fn expanded(m: DM, M: PM, P: Seq<Addr>, k: int) -> bool {
    let S = strs(M, P);
    &&& 0 <= k <= P.len()
    &&& forall|i: int, c: i8| #![trigger has_kid(m, M, P[i], c)] 0 <= i < k && has_kid(m, M, P[i], c) ==> S.contains(S[i].push(c))
    &&& forall|j: int| #![trigger S[j]] 0 < j < P.len() ==> S[j].len() > 0 && S.take(k).contains(S[j].drop_last())
}
pub open spec fn it_ok(m: DM, M: PM, o: DawgIterator_o, R: Addr) -> bool {
    &&& pfx_ok(m, M, o._prefixes@, R) &&& it_k(o) >= 0 && o._pending@ =~= o._prefixes@.skip(it_k(o)) &&& expanded(m, M, o._prefixes@, it_k(o))
}
pub open spec fn it_root(h: Heap, d: Addr) -> Addr { h.Prefix[h.DawgIterator[d]._prefixes@[0]]._node }
// ---- progress
pub open spec fn left_of(K: nat, p: Seq<i8>) -> nat { (K - p.len()) as nat }
pub open spec fn qw(m: DM, M: PM, Q: Seq<Addr>, K: nat) -> Seq<int> { Seq::new(Q.len(), |j: int| wt(m, M[Q[j]]._node, left_of(K, pp_of(M, Q[j]))) as int) }
pub open spec fn left_w(m: DM, M: PM, Q: Seq<Addr>, K: nat) -> int { tot(qw(m, M, Q, K)) }
pub proof fn left_nonneg(m: DM, M: PM, Q: Seq<Addr>, K: nat) ensures left_w(m, M, Q, K) >= 0 { tot_nonneg(qw(m, M, Q, K)); }
/// the children of the prefix x, in the order of its edges
pub open spec fn kids(m: DM, M: PM, x: Addr, C: Seq<Addr>) -> bool {
    let E = m[M[x]._node]._edges@; let keys = map_order(E);
    &&& C.len() <= keys.len() && C.no_duplicates()
    &&& forall|t: int| #![trigger C[t]] 0 <= t < C.len() ==> C[t] != 0 && M.contains_key(C[t]) && M[C[t]]._node == E[keys[t]] && M[C[t]]._parent == x && M[C[t]]._label == keys[t]
}
/// the prefix at k is expanded: what the old and the new prefixes are
pub open spec fn exp_pre(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat) -> bool {
    &&& pfx_ok(m, M, P, R) &&& expanded(m, M, P, k) &&& k < P.len() &&& more(M, N) &&& kids(m, N, P[k], C) &&& C.len() == map_order(m[M[P[k]]._node]._edges@).len()
    &&& forall|t: int| #![trigger C[t]] 0 <= t < C.len() ==> !M.contains_key(C[t])
    &&& node_ok(m, R, K)
}
pub proof fn exp_old(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat, i: int)
    requires exp_pre(m, M, N, P, C, R, k, K), 0 <= i < P.len()
    ensures (P + C)[i] == P[i], is_pp(N, P[i], strs(M, P)[i]), strs(N, P + C)[i] == strs(M, P)[i], N[P[i]] == M[P[i]], M.contains_key(P[i])
{ broadcast use pp_is; assert(is_pp(M, P[i], pp_of(M, P[i]))); pp_more(M, N, P[i], strs(M, P)[i]); assert((P + C)[i] == P[i]); }
pub proof fn exp_new(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat, t: int)
    requires exp_pre(m, M, N, P, C, R, k, K), 0 <= t < C.len()
    ensures (P + C)[P.len() + t] == C[t], ({ let a = strs(M, P)[k]; let E = m[M[P[k]]._node]._edges@; let c = map_order(E)[t];
        is_pp(N, C[t], a.push(c)) && strs(N, P + C)[P.len() + t] == a.push(c) && a.push(c).drop_last() == a && E.contains_key(c) && N[C[t]]._node == E[c] && E[c] == walk(m, R, a.push(c)) && E[c] != 0 && a.len() + 1 <= K })
{
    broadcast use pp_is;
    let E = m[M[P[k]]._node]._edges@; let keys = map_order(E); let c = keys[t]; let a = strs(M, P)[k]; let p = a.push(c);
    axiom_map_order(E); exp_old(m, M, N, P, C, R, k, K, k); assert(is_pp(M, P[k], pp_of(M, P[k]))); reach_ok(m, R, K, a);
    assert(p.drop_last() =~= a); assert(C[t] == C[t]); assert(is_pp(N, C[t], p)); assert(E.contains_key(c)); assert(walk(m, R, p.drop_last()) == M[P[k]]._node); assert((P + C)[P.len() + t] == C[t]);
    assert(node_ok(m, E[c], ((K - a.len()) as nat - 1) as nat));
}
pub proof fn exp_pfx(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat)
    requires exp_pre(m, M, N, P, C, R, k, K)
    ensures pfx_ok(m, N, P + C, R), strs(N, P + C).take(P.len() as int) == strs(M, P)
{
    hide(is_pp); hide(walk); hide(node_ok);
    broadcast use pp_is;
    let W = P + C; let S = strs(M, P); let T = strs(N, W); let l = P.len() as int; let a = S[k]; let keys = map_order(m[M[P[k]]._node]._edges@);
    axiom_map_order(m[M[P[k]]._node]._edges@);
    assert forall|i: int, j: int| 0 <= i < j < W.len() implies W[i] != W[j] && T[i] != T[j] by {
        if j < l { exp_old(m, M, N, P, C, R, k, K, i); exp_old(m, M, N, P, C, R, k, K, j); assert(P[i] != P[j]); assert(S[i] != S[j]); }
        else {
            exp_new(m, M, N, P, C, R, k, K, j - l); let p = a.push(keys[j - l]);
            if i >= l { exp_new(m, M, N, P, C, R, k, K, i - l); assert(a.push(keys[i - l]).last() == keys[i - l]); assert(p.last() == keys[j - l]); assert(keys[i - l] != keys[j - l]); }
            else {
                exp_old(m, M, N, P, C, R, k, K, i); assert(!M.contains_key(C[j - l]));
                if S[i] == p { assert(i > 0); let q = S.take(k); assert(q.contains(S[i].drop_last())); let u = q.index_of(a); assert(S[u] == S[k]); }
            }
        }
    }
    assert forall|i: int, j: int| 0 <= i < W.len() && 0 <= j < W.len() && i != j implies T[i] != T[j] && W[i] != W[j] by { if i < j { } else { assert(T[j] != T[i] && W[j] != W[i]); } }
    assert forall|i: int| #![trigger W[i]] 0 <= i < W.len() implies is_pp(N, W[i], pp_of(N, W[i])) && N[W[i]]._node == walk(m, R, pp_of(N, W[i])) && N[W[i]]._node != 0 by {
        if i < l { exp_old(m, M, N, P, C, R, k, K, i); assert(P[i] == W[i]); } else { exp_new(m, M, N, P, C, R, k, K, i - l); }
    }
    assert(T.take(l) =~= S) by { assert forall|i: int| 0 <= i < l implies T[i] == S[i] by { exp_old(m, M, N, P, C, R, k, K, i); } }
    exp_old(m, M, N, P, C, R, k, K, 0);
}
pub proof fn exp_exp(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat)
    requires exp_pre(m, M, N, P, C, R, k, K)
    ensures expanded(m, N, P + C, k + 1)
{
    hide(is_pp); hide(walk); hide(node_ok);
    let W = P + C; let S = strs(M, P); let T = strs(N, W); let l = P.len() as int; let a = S[k]; let keys = map_order(m[M[P[k]]._node]._edges@);
    axiom_map_order(m[M[P[k]]._node]._edges@);
    assert forall|i: int, c: i8| #![trigger has_kid(m, N, W[i], c)] 0 <= i < k + 1 && has_kid(m, N, W[i], c) implies T.contains(T[i].push(c)) by {
        exp_old(m, M, N, P, C, R, k, K, i);
        if i < k { assert(has_kid(m, M, P[i], c)); assert(S.contains(S[i].push(c))); let j = S.index_of(S[i].push(c)); exp_old(m, M, N, P, C, R, k, K, j); assert(T[j] == S[j]); }
        else { assert(keys.contains(c)); let t = keys.index_of(c); exp_new(m, M, N, P, C, R, k, K, t); assert(T[l + t] == a.push(c)); }
    }
    assert forall|j: int| #![trigger T[j]] 0 < j < W.len() implies T[j].len() > 0 && T.take(k + 1).contains(T[j].drop_last()) by {
        if j < l { exp_old(m, M, N, P, C, R, k, K, j); let q = S.take(k); assert(q.contains(S[j].drop_last())); let u = q.index_of(S[j].drop_last()); exp_old(m, M, N, P, C, R, k, K, u); assert(T.take(k + 1)[u] == S[u]); }
        else { exp_new(m, M, N, P, C, R, k, K, j - l); exp_old(m, M, N, P, C, R, k, K, k); assert(T.take(k + 1)[k] == a); }
    }
}
pub proof fn exp_w(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat)
    requires exp_pre(m, M, N, P, C, R, k, K)
    ensures left_w(m, N, (P + C).skip(k + 1), K) < left_w(m, M, P.skip(k), K)
{
    hide(is_pp); hide(walk); hide(node_ok);
    broadcast use pp_is;
    let W = P + C; let S = strs(M, P); let a = S[k]; let n = M[P[k]]._node; let E = m[n]._edges@; let keys = map_order(E);
    axiom_map_order(E); 
    let Q0 = P.skip(k); let Q1 = P.skip(k + 1); let Q2 = W.skip(k + 1); let w0 = qw(m, M, Q0, K); let w1 = qw(m, N, Q1, K); let w2 = qw(m, N, Q2, K);
    tot_front(w0);
    assert(w0.drop_first() =~= w1) by { assert forall|j: int| 0 <= j < w1.len() implies w0.drop_first()[j] == w1[j] by { exp_old(m, M, N, P, C, R, k, K, k + 1 + j); assert(Q0[j + 1] == P[k + 1 + j] && Q1[j] == P[k + 1 + j]); assert(is_pp(N, P[k + 1 + j], S[k + 1 + j])); } }
    assert(w0[0] == wt(m, n, left_of(K, a))) by { assert(Q0[0] == P[k]); }
    assert(Q2 =~= Q1 + C);
    assert forall|t: int| #![trigger C[t]] 0 <= t < C.len() implies is_pp(N, C[t], a.push(keys[t])) && N[C[t]]._node == E[keys[t]] by { exp_new(m, M, N, P, C, R, k, K, t); }
    if keys.len() > 0 { exp_new(m, M, N, P, C, R, k, K, 0); kid_weights(m, N, Q1, C, keys, E, K, a, C.len() as int); assert(C.take(C.len() as int) =~= C); assert(keys.take(C.len() as int) =~= keys); }
    else { assert(Q1 + C =~= Q1); }
}
pub proof fn it_grow(m: DM, M: PM, N: PM, P: Seq<Addr>, C: Seq<Addr>, R: Addr, k: int, K: nat)
    requires exp_pre(m, M, N, P, C, R, k, K)
    ensures pfx_ok(m, N, P + C, R), expanded(m, N, P + C, k + 1), left_w(m, N, (P + C).skip(k + 1), K) < left_w(m, M, P.skip(k), K), strs(N, P + C).take(P.len() as int) == strs(M, P)
{ exp_pfx(m, M, N, P, C, R, k, K); exp_exp(m, M, N, P, C, R, k, K); exp_w(m, M, N, P, C, R, k, K); }
pub proof fn kid_weights(m: DM, N: PM, Q1: Seq<Addr>, C: Seq<Addr>, keys: Seq<i8>, E: Map<i8, Addr>, K: nat, a: Seq<i8>, t: int)
    requires 0 <= t <= C.len(), a.len() + 1 <= K, C.len() == keys.len(), forall|t: int| #![trigger C[t]] 0 <= t < C.len() ==> is_pp(N, C[t], a.push(keys[t])) && N[C[t]]._node == E[keys[t]]
    ensures tot(qw(m, N, Q1 + C.take(t), K)) == tot(qw(m, N, Q1, K)) + wsum(m, E, keys.take(t), (left_of(K, a) - 1) as nat)
    decreases t
{
    hide(is_pp);
    broadcast use pp_is;
    if t > 0 {
        kid_weights(m, N, Q1, C, keys, E, K, a, t - 1);
        let w = qw(m, N, Q1 + C.take(t), K); assert(C[t - 1] == C[t - 1]);
        assert(w.drop_last() =~= qw(m, N, Q1 + C.take(t - 1), K)) by { assert((Q1 + C.take(t)).drop_last() =~= Q1 + C.take(t - 1)); assert forall|j: int| 0 <= j < w.len() - 1 implies w[j] == qw(m, N, Q1 + C.take(t - 1), K)[j] by { assert((Q1 + C.take(t))[j] == (Q1 + C.take(t - 1))[j]); } }
        assert((Q1 + C.take(t)).last() == C[t - 1]); assert(a.push(keys[t - 1]).len() == a.len() + 1);
        assert(keys.take(t).drop_last() =~= keys.take(t - 1)); assert(keys.take(t).last() == keys[t - 1]);
    } else { assert(Q1 + C.take(0) =~= Q1); assert(keys.take(0) =~= seq![]); }
}
/// once nothing waits every walk is among the prefixes
pub proof fn all_walks(m: DM, M: PM, P: Seq<Addr>, R: Addr, s: Seq<i8>)
    requires pfx_ok(m, M, P, R), expanded(m, M, P, P.len() as int), walk(m, R, s) != 0
    ensures strs(M, P).contains(s)
    decreases s.len()
{
    let S = strs(M, P);
    if s.len() == 0 { assert(S[0] =~= s); } else {
        all_walks(m, M, P, R, s.drop_last()); let i = S.index_of(s.drop_last()); let c = s.last(); assert(P[i] == P[i]); assert(M[P[i]]._node == walk(m, R, s.drop_last()));
        assert(has_kid(m, M, P[i], c)); assert(S.contains(S[i].push(c))); assert(s =~= s.drop_last().push(c));
    }
}
// ---- the iterator object
pub open spec fn it_heap(h: Heap, d: Addr) -> bool { d != 0 && h.DawgIterator.contains_key(d) && it_ok(h.DawgNode, h.Prefix, h.DawgIterator[d], it_root(h, d)) && rooted(h.DawgNode, it_root(h, d)) }
pub open spec fn it_strs(h: Heap, d: Addr) -> Seq<Seq<i8>> { strs(h.Prefix, h.DawgIterator[d]._prefixes@) }
/// from h0 to h1 the iterator only grew
pub open spec fn it_grew(h0: Heap, h1: Heap, d: Addr) -> bool {
    let P0 = h0.DawgIterator[d]._prefixes@; let P1 = h1.DawgIterator[d]._prefixes@;
    &&& h1 =~= (Heap { Prefix: h1.Prefix, DawgIterator: h0.DawgIterator.insert(d, h1.DawgIterator[d]), ..h0 })
    &&& more(h0.Prefix, h1.Prefix) &&& P0.len() <= P1.len() &&& P1.take(P0.len() as int) == P0 &&& it_strs(h1, d).take(P0.len() as int) == it_strs(h0, d)
    &&& dom_is(h0.Prefix, h1.Prefix, P1, P0.len() as int) &&& forall|i: int| P0.len() <= i < P1.len() ==> !h0.Prefix.contains_key(#[trigger] P1[i])
    &&& it_k(h0.DawgIterator[d]) <= it_k(h1.DawgIterator[d])
}
/// none of the strings from a to b is a word
pub open spec fn no_word(m: DM, R: Addr, S: Seq<Seq<i8>>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> !acc(m, R, #[trigger] S[i]) }
pub open spec fn it_next(h0: Heap, h1: Heap, d: Addr) -> bool {
    let m = h0.DawgNode; let R = it_root(h0, d); let S = it_strs(h1, d); let o0 = h0.DawgIterator[d]; let o1 = h1.DawgIterator[d]; let k0 = it_k(o0); let k1 = it_k(o1);
    &&& it_grew(h0, h1, d) &&& it_heap(h1, d) &&& it_root(h1, d) == R
    &&& o0._pending@.len() == 0 ==> h1.Prefix == h0.Prefix && o1 == (DawgIterator_o { _term_index: o1._term_index, ..o0 })
    &&& o0._pending@.len() > 0 ==> k0 < k1 && no_word(m, R, S, k0, k1 - 1) && (acc(m, R, S[k1 - 1]) ==> o1._next_value@ == S[k1 - 1]) && (!acc(m, R, S[k1 - 1]) ==> o1._pending@.len() == 0)
}
pub proof fn it_expand(h0: Heap, hb: Heap, h1: Heap, d: Addr, C: Seq<Addr>, K: nat)
    requires it_heap(hb, d), it_grew(h0, hb, d), h0.DawgIterator.contains_key(d), it_root(hb, d) == it_root(h0, d), h0.DawgIterator[d]._prefixes@.len() > 0, hb.DawgIterator[d]._pending@.len() > 0, K < 0x4000_0000_0000_0000, node_ok(hb.DawgNode, it_root(hb, d), K), ({
        let ob = hb.DawgIterator[d]; let o1 = h1.DawgIterator[d]; let P = ob._prefixes@; let x = ob._pending@[0];
        &&& h1 =~= (Heap { Prefix: h1.Prefix, DawgIterator: hb.DawgIterator.insert(d, o1), ..hb }) &&& o1._prefixes@ == P + C &&& o1._pending@ == ob._pending@.drop_first() + C
        &&& more(hb.Prefix, h1.Prefix) &&& kids(hb.DawgNode, h1.Prefix, x, C) &&& C.len() == map_order(hb.DawgNode[hb.Prefix[x]._node]._edges@).len()
        &&& forall|t: int| #![trigger C[t]] 0 <= t < C.len() ==> !hb.Prefix.contains_key(C[t]) &&& forall|y: Addr| #[trigger] h1.Prefix.contains_key(y) ==> hb.Prefix.contains_key(y) || C.contains(y)
    })
    ensures it_heap(h1, d), it_grew(h0, h1, d), it_root(h1, d) == it_root(h0, d), it_k(h1.DawgIterator[d]) == it_k(hb.DawgIterator[d]) + 1, hb.DawgIterator[d]._pending@[0] == hb.DawgIterator[d]._prefixes@[it_k(hb.DawgIterator[d])], it_strs(h1, d).take(hb.DawgIterator[d]._prefixes@.len() as int) == it_strs(hb, d),
        left_w(h1.DawgNode, h1.Prefix, h1.DawgIterator[d]._pending@, K) < left_w(hb.DawgNode, hb.Prefix, hb.DawgIterator[d]._pending@, K), left_w(h1.DawgNode, h1.Prefix, h1.DawgIterator[d]._pending@, K) >= 0
{
    hide(is_pp); hide(walk); hide(node_ok); hide(expanded);
    let m = hb.DawgNode; let M = hb.Prefix; let N = h1.Prefix; let ob = hb.DawgIterator[d]; let o1 = h1.DawgIterator[d]; let P = ob._prefixes@; let k = it_k(ob); let R = it_root(hb, d); let W = P + C; let l0 = h0.DawgIterator[d]._prefixes@.len() as int;
    assert(P.skip(k)[0] == P[k]); assert(exp_pre(m, M, N, P, C, R, k, K));
    it_grow(m, M, N, P, C, R, k, K); left_nonneg(m, N, o1._pending@, K);
    assert(o1._pending@ =~= W.skip(k + 1)); exp_old(m, M, N, P, C, R, k, K, 0);
    assert(W.take(l0) =~= P.take(l0));
    assert(strs(N, W).take(l0) =~= strs(N, W).take(P.len() as int).take(l0));
    assert(more(h0.Prefix, N)) by { assert forall|x: Addr| #[trigger] h0.Prefix.contains_key(x) implies N.contains_key(x) && N[x] == h0.Prefix[x] by { assert(M.contains_key(x)); } }
    assert(dom_is(h0.Prefix, N, W, l0)) by {
        assert forall|y: Addr| #[trigger] N.contains_key(y) implies h0.Prefix.contains_key(y) || W.skip(l0).contains(y) by {
            if C.contains(y) { let t = C.index_of(y); assert(W.skip(l0)[P.len() - l0 + t] == y); }
            else { assert(M.contains_key(y)); if !h0.Prefix.contains_key(y) { assert(P.skip(l0).contains(y)); let t = P.skip(l0).index_of(y); assert(W.skip(l0)[t] == y); } }
        }
    }
    assert forall|i: int| l0 <= i < W.len() implies !h0.Prefix.contains_key(#[trigger] W[i]) by { if i < P.len() { assert(W[i] == P[i]); } else { assert(W[i] == C[i - P.len()]); if h0.Prefix.contains_key(W[i]) { assert(M.contains_key(W[i])); } } }
    assert(rooted(m, R));
}
pub proof fn it_same(h0: Heap, d: Addr)
    requires it_heap(h0, d)
    ensures it_grew(h0, h0, d), it_facts_(h0, d)
{ let P = h0.DawgIterator[d]._prefixes@; assert(P.take(P.len() as int) =~= P); assert(it_strs(h0, d).take(P.len() as int) =~= it_strs(h0, d)); assert(h0.DawgIterator =~= h0.DawgIterator.insert(d, h0.DawgIterator[d])); it_facts(h0, d); }
pub open spec fn it_facts_(h: Heap, d: Addr) -> bool {
    let o = h.DawgIterator[d];
    &&& o._prefixes@.len() > 0 &&& it_k(o) >= 0
    &&& forall|i: int| #![trigger o._prefixes@[i]] 0 <= i < o._prefixes@.len() ==> h.Prefix.contains_key(o._prefixes@[i]) && has_pp(h.Prefix, o._prefixes@[i]) && pp_of(h.Prefix, o._prefixes@[i]) == it_strs(h, d)[i] && h.Prefix[o._prefixes@[i]]._node == walk(h.DawgNode, it_root(h, d), it_strs(h, d)[i]) && h.DawgNode.contains_key(h.Prefix[o._prefixes@[i]]._node)
        && h.Prefix[o._prefixes@[i]]._node != 0 && o._prefixes@[i] != 0
    &&& o._pending@.len() > 0 ==> o._pending@[0] == o._prefixes@[it_k(o)]
}
pub proof fn it_facts(h: Heap, d: Addr)
    requires it_heap(h, d)
    ensures it_facts_(h, d)
{
    broadcast use pp_is;
    let o = h.DawgIterator[d]; let m = h.DawgNode; let R = it_root(h, d); let k = choose|k: nat| node_ok(m, R, k) && k < 0x4000_0000_0000_0000; let P = o._prefixes@;
    assert forall|i: int| #![trigger P[i]] 0 <= i < P.len() implies h.Prefix.contains_key(P[i]) && has_pp(h.Prefix, P[i]) && pp_of(h.Prefix, P[i]) == it_strs(h, d)[i] && h.Prefix[P[i]]._node == walk(m, R, it_strs(h, d)[i]) && m.contains_key(h.Prefix[P[i]]._node) && P[i] != 0 by { assert(is_pp(h.Prefix, P[i], pp_of(h.Prefix, P[i]))); reach_ok(m, R, k, pp_of(h.Prefix, P[i])); }
    if o._pending@.len() > 0 { assert(P.skip(it_k(o))[0] == P[it_k(o)]); }
}
/// what the test of the loop is about
pub proof fn it_tested(h0: Heap, hb: Heap, h1: Heap, d: Addr)
    requires it_heap(h0, d), it_heap(hb, d), it_heap(h1, d), it_grew(h0, hb, d), it_root(hb, d) == it_root(h0, d), it_root(h1, d) == it_root(h0, d), h1.DawgNode == h0.DawgNode, it_k(h1.DawgIterator[d]) == it_k(hb.DawgIterator[d]) + 1, hb.DawgIterator[d]._pending@.len() > 0,
        it_strs(h1, d).take(hb.DawgIterator[d]._prefixes@.len() as int) == it_strs(hb, d), hb.DawgIterator[d]._prefixes@.len() <= h1.DawgIterator[d]._prefixes@.len(), no_word(h0.DawgNode, it_root(h0, d), it_strs(hb, d), it_k(h0.DawgIterator[d]), it_k(hb.DawgIterator[d]))
    ensures ({ let m = h0.DawgNode; let k1 = it_k(h1.DawgIterator[d]); let S = it_strs(h1, d); let k0 = it_k(h0.DawgIterator[d]);
        k0 < k1 && no_word(m, it_root(h0, d), S, k0, k1 - 1) && acc(m, it_root(h0, d), S[k1 - 1]) == m[h1.Prefix[h1.DawgIterator[d]._prefixes@[k1 - 1]]._node]._is_final && (!acc(m, it_root(h0, d), S[k1 - 1]) ==> no_word(m, it_root(h0, d), S, k0, k1)) })
{
    hide(it_ok); hide(is_pp); hide(walk); hide(dom_is); hide(node_ok); hide(more);
    let m = h0.DawgNode; let R = it_root(h0, d); let S = it_strs(h1, d); let Sb = it_strs(hb, d); let kb = it_k(hb.DawgIterator[d]); let P1 = h1.DawgIterator[d]._prefixes@; let k0 = it_k(h0.DawgIterator[d]);
    assert(0 <= kb < Sb.len() && Sb.len() <= S.len()) by { it_facts(hb, d); }
    assert(S[kb] == Sb[kb]) by { assert(S.take(Sb.len() as int)[kb] == S[kb]); }
    assert(k0 <= kb);
    assert forall|i: int| k0 <= i < kb implies !acc(m, R, #[trigger] S[i]) by { assert(S.take(Sb.len() as int)[i] == Sb[i]); if i < 0 { it_facts(h0, d); } }
    it_facts(h1, d); assert(P1[kb] == P1[kb]); assert(acc(m, R, S[kb]) == m[h1.Prefix[P1[kb]]._node]._is_final);
    if !acc(m, R, S[kb]) { assert forall|i: int| k0 <= i < kb + 1 implies !acc(m, R, #[trigger] S[i]) by { } }
}
/// neither the word nor the count matter to the rest
pub proof fn it_done(h0: Heap, hl: Heap, h1: Heap, d: Addr)
    requires it_heap(h0, d), it_heap(hl, d), it_grew(h0, hl, d), it_root(hl, d) == it_root(h0, d), h1 =~= (Heap { DawgIterator: hl.DawgIterator.insert(d, h1.DawgIterator[d]), ..hl }), h1.DawgIterator[d] == (DawgIterator_o { _next_value: h1.DawgIterator[d]._next_value, _term_index: h1.DawgIterator[d]._term_index, ..hl.DawgIterator[d] })
    ensures it_heap(h1, d), it_grew(h0, h1, d), it_root(h1, d) == it_root(h0, d), it_strs(h1, d) == it_strs(hl, d)
{ }
/// a new iterator at the root R
pub open spec fn it_begun(h0: Heap, h1: Heap, d: Addr, R: Addr) -> bool {
    let m = h0.DawgNode; let S = it_strs(h1, d); let o = h1.DawgIterator[d]; let k = it_k(o);
    &&& !h0.DawgIterator.contains_key(d) &&& h1 =~= (Heap { Prefix: h1.Prefix, DawgIterator: h0.DawgIterator.insert(d, o), ..h0 }) &&& more(h0.Prefix, h1.Prefix)
    &&& it_heap(h1, d) &&& it_root(h1, d) == R &&& o._term_index == 0
    &&& dom_is(h0.Prefix, h1.Prefix, o._prefixes@, 0) &&& forall|i: int| 0 <= i < o._prefixes@.len() ==> !h0.Prefix.contains_key(#[trigger] o._prefixes@[i])
    &&& 0 < k &&& no_word(m, R, S, 0, k - 1) &&& (acc(m, R, S[k - 1]) ==> o._next_value@ == S[k - 1]) &&& (!acc(m, R, S[k - 1]) ==> o._pending@.len() == 0)
}
/// with the root prefix only
pub proof fn it_start(h: Heap, d: Addr, x: Addr)
    requires d != 0, h.DawgIterator.contains_key(d), h.DawgIterator[d]._prefixes@ == seq![x], h.DawgIterator[d]._pending@ == seq![x], x != 0, h.Prefix.contains_key(x), h.Prefix[x]._parent == 0, rooted(h.DawgNode, h.Prefix[x]._node)
    ensures it_heap(h, d), it_root(h, d) == h.Prefix[x]._node, it_k(h.DawgIterator[d]) == 0
{
    broadcast use pp_is;
    let P = h.DawgIterator[d]._prefixes@; let M = h.Prefix; let e = Seq::<i8>::empty(); let k = choose|k: nat| node_ok(h.DawgNode, M[x]._node, k) && k < 0x4000_0000_0000_0000;
    assert(is_pp(M, x, e)); assert(P[0] == x); assert(P.skip(0) =~= P); assert(strs(M, P) =~= seq![e]); assert(walk(h.DawgNode, M[x]._node, e) == M[x]._node); assert(node_ok(h.DawgNode, M[x]._node, k));
}
/// what came of it
pub proof fn it_begins(h0: Heap, hb: Heap, h1: Heap, d: Addr, x: Addr)
    requires !h0.DawgIterator.contains_key(d), !h0.Prefix.contains_key(x), hb =~= (Heap { Prefix: h0.Prefix.insert(x, hb.Prefix[x]), DawgIterator: h0.DawgIterator.insert(d, hb.DawgIterator[d]), ..h0 }), it_heap(hb, d), it_k(hb.DawgIterator[d]) == 0, hb.DawgIterator[d]._prefixes@ == seq![x], hb.DawgIterator[d]._term_index == 0,
        it_next(hb, h1, d), h1.DawgIterator[d]._term_index == 0, hb.DawgIterator[d]._pending@.len() > 0
    ensures it_begun(h0, h1, d, it_root(hb, d))
{
    hide(it_ok); hide(acc); hide(node_ok); hide(is_pp);
    let P = h1.DawgIterator[d]._prefixes@; it_facts(h1, d); let o = h1.DawgIterator[d]; assert(P.take(1)[0] == x); assert(P[0] == x);
    assert forall|i: int| 0 <= i < P.len() implies !h0.Prefix.contains_key(#[trigger] P[i]) by { if i > 0 { if h0.Prefix.contains_key(P[i]) { assert(hb.Prefix.contains_key(P[i])); } } }
    assert forall|y: Addr| #[trigger] h1.Prefix.contains_key(y) implies h0.Prefix.contains_key(y) || P.skip(0).contains(y) by {
        if !h0.Prefix.contains_key(y) { if y == x { assert(P.skip(0)[0] == x); } else { assert(!hb.Prefix.contains_key(y)); let t = P.skip(1).index_of(y); assert(P.skip(0)[t + 1] == y); } }
    }
    assert forall|y: Addr| #[trigger] h0.Prefix.contains_key(y) implies h1.Prefix.contains_key(y) && h1.Prefix[y] == h0.Prefix[y] by { assert(hb.Prefix.contains_key(y)); assert(hb.Prefix[y] == h0.Prefix[y]); }
    assert(h1.DawgIterator =~= h0.DawgIterator.insert(d, o));
}
pub open spec fn pfx_without(M: PM, N: PM, P: Seq<Addr>) -> bool { forall|y: Addr| #[trigger] N.contains_key(y) == (M.contains_key(y) && !P.contains(y)) && (N.contains_key(y) ==> N[y] == M[y]) }
pub proof fn pfx_push(P: Seq<Addr>, x: Addr)
    ensures forall|y: Addr| #[trigger] P.push(x).contains(y) == (P.contains(y) || y == x)
{ assert forall|y: Addr| #[trigger] P.push(x).contains(y) == (P.contains(y) || y == x) by { if P.contains(y) { let i = P.index_of(y); assert(P.push(x)[i] == y); } if y == x { assert(P.push(x)[P.len() as int] == y); } } }

// ---- walking through all the words
/// the words among the first k strings, in their order
pub open spec fn words(m: DM, R: Addr, S: Seq<Seq<i8>>, k: int) -> Seq<Seq<i8>>
    decreases k
{ if k <= 0 { seq![] } else if acc(m, R, S[k - 1]) { words(m, R, S, k - 1).push(S[k - 1]) } else { words(m, R, S, k - 1) } }
pub proof fn words_skip(m: DM, R: Addr, S: Seq<Seq<i8>>, a: int, b: int)
    requires 0 <= a <= b, no_word(m, R, S, a, b)
    ensures words(m, R, S, b) == words(m, R, S, a)
    decreases b
{ if b > a { words_skip(m, R, S, a, b - 1); assert(!acc(m, R, S[b - 1])); } }
pub proof fn words_take(m: DM, R: Addr, S: Seq<Seq<i8>>, T: Seq<Seq<i8>>, n: int, k: int)
    requires 0 <= k <= n <= T.len(), T.take(n) == S
    ensures words(m, R, S, k) == words(m, R, T, k)
    decreases k
{ if k > 0 { words_take(m, R, S, T, n, k - 1); assert(T.take(n)[k - 1] == T[k - 1]); } }
pub proof fn words_in(m: DM, R: Addr, S: Seq<Seq<i8>>, k: int)
    requires 0 <= k <= S.len(), S.no_duplicates()
    ensures words(m, R, S, k).no_duplicates(), forall|s: Seq<i8>| #[trigger] words(m, R, S, k).contains(s) == (acc(m, R, s) && S.take(k).contains(s)), words(m, R, S, k).len() <= k
    decreases k
{
    let W = words(m, R, S, k);
    if k > 0 {
        words_in(m, R, S, k - 1); let V = words(m, R, S, k - 1); let x = S[k - 1];
        assert(S.take(k) =~= S.take(k - 1).push(x));
        assert forall|s: Seq<i8>| #[trigger] S.take(k).contains(s) == (S.take(k - 1).contains(s) || s == x) by { if S.take(k - 1).contains(s) { let i = S.take(k - 1).index_of(s); assert(S.take(k)[i] == s); } if s == x { assert(S.take(k)[k - 1] == x); } if S.take(k).contains(s) && s != x { let i = S.take(k).index_of(s); assert(S.take(k - 1)[i] == s); } }
        assert(!S.take(k - 1).contains(x)) by { if S.take(k - 1).contains(x) { let i = S.take(k - 1).index_of(x); assert(S[i] == S[k - 1]); } }
        if acc(m, R, x) {
            assert(!V.contains(x)); assert(W == V.push(x));
            assert forall|i: int, j: int| 0 <= i < W.len() && 0 <= j < W.len() && i != j implies W[i] != W[j] by { if i < V.len() && j < V.len() { assert(V[i] != V[j]); } else if i < V.len() { assert(V.contains(V[i])); } else { assert(V.contains(V[j])); } }
            assert forall|s: Seq<i8>| #[trigger] W.contains(s) == (V.contains(s) || s == x) by { if V.contains(s) { let i = V.index_of(s); assert(W[i] == s); } if s == x { assert(W[V.len() as int] == s); } if W.contains(s) && s != x { let i = W.index_of(s); assert(V[i] == s); } }
            assert forall|s: Seq<i8>| #[trigger] W.contains(s) == (acc(m, R, s) && S.take(k).contains(s)) by { assert(V.contains(s) == (acc(m, R, s) && S.take(k - 1).contains(s))); assert(S.take(k).contains(s) == (S.take(k - 1).contains(s) || s == x)); }
        } else {
            assert(W == V);
            assert forall|s: Seq<i8>| #[trigger] W.contains(s) == (acc(m, R, s) && S.take(k).contains(s)) by { assert(V.contains(s) == (acc(m, R, s) && S.take(k - 1).contains(s))); assert(S.take(k).contains(s) == (S.take(k - 1).contains(s) || s == x)); }
        }
    }
}
/// out has been handed out; a word waits, or there is none left
pub open spec fn mid_walk(h: Heap, d: Addr, out: Seq<Seq<i8>>) -> bool {
    let m = h.DawgNode; let R = it_root(h, d); let S = it_strs(h, d); let o = h.DawgIterator[d]; let k = it_k(o); let W = words(m, R, S, k);
    &&& it_heap(h, d) &&& 0 < k
    &&& (acc(m, R, S[k - 1]) && o._next_value@ == S[k - 1] && W == out.push(S[k - 1])) || (o._pending@.len() == 0 && W == out)
}
pub proof fn walk_begun(h0: Heap, h1: Heap, d: Addr, R: Addr)
    requires it_begun(h0, h1, d, R)
    ensures mid_walk(h1, d, seq![])
{ hide(it_ok); hide(acc); hide(node_ok); let m = h1.DawgNode; let S = it_strs(h1, d); let k = it_k(h1.DawgIterator[d]); words_skip(m, R, S, 0, k - 1); assert(words(m, R, S, 0) == Seq::<Seq<i8>>::empty()); }
pub proof fn walk_stepped(h0: Heap, h1: Heap, d: Addr, out: Seq<Seq<i8>>, w: Seq<i8>)
    requires it_next(h0, h1, d), mid_walk(h0, d, out), words(h0.DawgNode, it_root(h0, d), it_strs(h0, d), it_k(h0.DawgIterator[d])) == out.push(w)
    ensures mid_walk(h1, d, out.push(w))
{
    hide(it_ok); hide(acc); hide(node_ok); hide(is_pp);
    let m = h1.DawgNode; let R = it_root(h0, d); let S0 = it_strs(h0, d); let S = it_strs(h1, d); let k0 = it_k(h0.DawgIterator[d]); let k1 = it_k(h1.DawgIterator[d]);
    it_facts(h0, d); it_facts(h1, d); it_k_in(h0, d); words_take(m, R, S0, S, S0.len() as int, k0);
    if h0.DawgIterator[d]._pending@.len() > 0 { words_skip(m, R, S, k0, k1 - 1); }
}
pub proof fn it_k_in(h: Heap, d: Addr)
    requires it_heap(h, d)
    ensures 0 <= it_k(h.DawgIterator[d]) <= it_strs(h, d).len(), it_strs(h, d).no_duplicates()
{}
/// acceptance from the front and from the back
pub proof fn acc_lang(m: DM, x: Addr, k: nat, s: Seq<i8>)
    requires node_ok(m, x, k)
    ensures acc(m, x, s) == lang(m, m[x], s)
    decreases s.len()
{ if s.len() > 0 { walk_first(m, x, s); if m[x]._edges@.contains_key(s[0]) { assert(node_ok(m, m[x]._edges@[s[0]], (k - 1) as nat)); acc_lang(m, m[x]._edges@[s[0]], (k - 1) as nat, s.drop_first()); } } }
pub proof fn root_lang(m: DM, R: Addr, s: Seq<i8>)
    requires dict_ok(m, R)
    ensures acc(m, R, s) == lang(m, m[R], s)
{ acc_lang(m, R, KM(), s); }
pub open spec fn all_listed(ts: Seq<Str>, W: Seq<Seq<i8>>) -> bool { forall|s: Seq<i8>| #[trigger] W.contains(s) ==> listed(ts, s) }
/// as many as are handed out, and at the end all of them
pub proof fn walk_count(h: Heap, d: Addr, ts: Seq<Str>, out: Seq<Seq<i8>>)
    requires mid_walk(h, d, out), strictly(ts), dict_ok(h.DawgNode, it_root(h, d)), forall|s: Seq<i8>| #[trigger] lang(h.DawgNode, h.DawgNode[it_root(h, d)], s) == listed(ts, s)
    ensures out.no_duplicates(), all_listed(ts, out), out.len() <= ts.len(), out.len() == ts.len() ==> forall|s: Seq<i8>| listed(ts, s) ==> #[trigger] out.contains(s),
        out.len() < ts.len() ==> ({ let k = it_k(h.DawgIterator[d]); let S = it_strs(h, d); h.DawgIterator[d]._next_value@ == S[k - 1] && words(h.DawgNode, it_root(h, d), S, k) == out.push(S[k - 1]) })
{
    hide(it_ok); hide(node_ok); hide(is_pp); hide(acc); hide(lang); hide(dict_ok);
    let m = h.DawgNode; let R = it_root(h, d); let S = it_strs(h, d); let o = h.DawgIterator[d]; let k = it_k(o); let W = words(m, R, S, k);
    it_k_in(h, d); words_in(m, R, S, k);
    let T = term_seq(ts); strictly_distinct(ts);
    assert forall|s: Seq<i8>| #[trigger] acc(m, R, s) == listed(ts, s) by { assert(lang(m, m[R], s) == listed(ts, s)); root_lang(m, R, s); }
    assert forall|s: Seq<i8>| #[trigger] T.contains(s) == listed(ts, s) by { if T.contains(s) { let i = T.index_of(s); assert(ts[i]@ == s); } if listed(ts, s) { let i = choose|i: int| 0 <= i < ts.len() && (#[trigger] ts[i])@ == s; assert(T[i] == s); } }
    assert forall|s: Seq<i8>| #[trigger] W.contains(s) implies T.contains(s) by { assert(W.contains(s) == (acc(m, R, s) && S.take(k).contains(s))); assert(acc(m, R, s) == listed(ts, s)); assert(T.contains(s) == listed(ts, s)); }
    W.unique_seq_to_set(); T.unique_seq_to_set();
    assert(W.to_set().subset_of(T.to_set())); vstd::set_lib::lemma_len_subset(W.to_set(), T.to_set());
    if o._pending@.len() == 0 && W == out {
        assert forall|s: Seq<i8>| #[trigger] T.contains(s) implies W.contains(s) by {
            assert(T.contains(s) == listed(ts, s)); assert(acc(m, R, s)); assert(walk(m, R, s) != 0) by { reveal(acc); }
            assert(S.take(k).contains(s)) by { reveal(it_ok); all_walks(m, h.Prefix, o._prefixes@, R, s); assert(S.take(k) =~= S); }
            assert(W.contains(s));
        }
        assert(T.to_set().subset_of(W.to_set())); vstd::set_lib::lemma_len_subset(T.to_set(), W.to_set());
        assert(out.len() == ts.len());
        assert forall|s: Seq<i8>| listed(ts, s) implies #[trigger] out.contains(s) by { assert(T.contains(s)); }
        assert(all_listed(ts, out)) by { assert forall|s: Seq<i8>| #[trigger] out.contains(s) implies listed(ts, s) by { assert(W.contains(s)); assert(T.contains(s)); } }
    } else {
        let x = S[k - 1]; assert(W == out.push(x));
        assert forall|s: Seq<i8>| #[trigger] out.contains(s) implies W.contains(s) by { let i = out.index_of(s); assert(W[i] == s); }
        assert forall|i: int, j: int| 0 <= i < out.len() && 0 <= j < out.len() && i != j implies out[i] != out[j] by { assert(W[i] == out[i] && W[j] == out[j]); assert(W[i] != W[j]); }
        assert(all_listed(ts, out)) by { assert forall|s: Seq<i8>| #[trigger] out.contains(s) implies listed(ts, s) by { assert(W.contains(s)); assert(T.contains(s)); } }
    }
}
// ---- the iterator made these prefixes, and all that are new
pub open spec fn owns_pfx(h0: Heap, h: Heap, d: Addr) -> bool {
    let P = h.DawgIterator[d]._prefixes@;
    &&& h =~= (Heap { Prefix: h.Prefix, DawgIterator: h.DawgIterator, ..h0 }) &&& more(h0.Prefix, h.Prefix)
    &&& forall|i: int| 0 <= i < P.len() ==> !h0.Prefix.contains_key(#[trigger] P[i])
    &&& dom_is(h0.Prefix, h.Prefix, P, 0)
}
pub proof fn owns_grew(h0: Heap, h1: Heap, h2: Heap, d: Addr)
    requires owns_pfx(h0, h1, d), it_grew(h1, h2, d)
    ensures owns_pfx(h0, h2, d)
{
    let P1 = h1.DawgIterator[d]._prefixes@; let P2 = h2.DawgIterator[d]._prefixes@; let n = P1.len() as int;
    assert forall|x: Addr| #[trigger] h0.Prefix.contains_key(x) implies h2.Prefix.contains_key(x) && h2.Prefix[x] == h0.Prefix[x] by { assert(h1.Prefix.contains_key(x)); }
    assert forall|i: int| 0 <= i < P2.len() implies !h0.Prefix.contains_key(#[trigger] P2[i]) by { if i < n { assert(P2.take(n)[i] == P1[i]); } else if h0.Prefix.contains_key(P2[i]) { assert(h1.Prefix.contains_key(P2[i])); } }
    assert forall|y: Addr| #[trigger] h2.Prefix.contains_key(y) implies h0.Prefix.contains_key(y) || P2.skip(0).contains(y) by {
        if h1.Prefix.contains_key(y) { if !h0.Prefix.contains_key(y) { let t = P1.skip(0).index_of(y); assert(P2.take(n)[t] == P1[t]); assert(P2.skip(0)[t] == y); } }
        else { let t = P2.skip(n).index_of(y); assert(P2.skip(0)[n + t] == y); }
    }
}
pub proof fn owns_gone(h0: Heap, h1: Heap, M: PM, d: Addr)
    requires owns_pfx(h0, h1, d), pfx_without(h1.Prefix, M, h1.DawgIterator[d]._prefixes@)
    ensures M =~= h0.Prefix
{
    let P = h1.DawgIterator[d]._prefixes@; assert(P.skip(0) =~= P);
    assert forall|y: Addr| #[trigger] M.contains_key(y) == h0.Prefix.contains_key(y) by { if h0.Prefix.contains_key(y) { assert(h1.Prefix.contains_key(y)); if P.contains(y) { let i = P.index_of(y); assert(!h0.Prefix.contains_key(P[i])); } } else if h1.Prefix.contains_key(y) { assert(P.contains(y)); } }
    assert forall|y: Addr| #[trigger] M.contains_key(y) implies M[y] == h0.Prefix[y] by { assert(h0.Prefix.contains_key(y)); }
}
pub proof fn root_rooted(m: DM, R: Addr)
    requires dict_ok(m, R)
    ensures rooted(m, R)
{ assert(node_ok(m, R, KM()) && KM() < 0x4000_0000_0000_0000); }
/// another iterator does not matter
pub proof fn walk_beside(h: Heap, h1: Heap, d: Addr, out: Seq<Seq<i8>>)
    requires mid_walk(h, d, out), h1.Prefix == h.Prefix, h1.DawgNode == h.DawgNode, h1.DawgIterator.contains_key(d), h1.DawgIterator[d] == h.DawgIterator[d]
    ensures mid_walk(h1, d, out)
{}
