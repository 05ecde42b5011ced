// ---- what a query owns: the intersections it made, their states, the positions of those
pub open spec fn x_st(h: Heap, x: Addr) -> Addr { h.Intersection[x]._state }
pub open spec fn own(h: Heap, N: Seq<Addr>) -> bool {
    &&& N.no_duplicates()
    &&& forall|j: int| 0 <= j < N.len() ==> N[j] != 0 && h.Intersection.contains_key(#[trigger] N[j]) && x_st(h, N[j]) != 0 && st_ok(h, x_st(h, N[j]))
    &&& forall|i: int, j: int| #![trigger N[i], N[j]] 0 <= i < N.len() && 0 <= j < N.len() && i != j ==> x_st(h, N[i]) != x_st(h, N[j]) && disj(st_lst(h, x_st(h, N[i])), st_lst(h, x_st(h, N[j])))
}
pub open spec fn owns_s(h: Heap, N: Seq<Addr>, s: Addr) -> bool { exists|j: int| 0 <= j < N.len() && x_st(h, #[trigger] N[j]) == s }
pub open spec fn owns_p(h: Heap, N: Seq<Addr>, a: Addr) -> bool { exists|j: int| 0 <= j < N.len() && st_lst(h, x_st(h, #[trigger] N[j])).contains(a) }
/// what belongs to others
pub open spec fn out_i(h: Heap, N: Seq<Addr>, x: Addr) -> bool { h.Intersection.contains_key(x) && !N.contains(x) }
pub open spec fn out_s(h: Heap, N: Seq<Addr>, s: Addr) -> bool { h.State.contains_key(s) && !owns_s(h, N, s) }
pub open spec fn out_p(h: Heap, N: Seq<Addr>, a: Addr) -> bool { h.Position.contains_key(a) && !owns_p(h, N, a) }
pub open spec fn same_others(h0: Heap, N0: Seq<Addr>, h1: Heap, N1: Seq<Addr>) -> bool {
    &&& forall|x: Addr| #[trigger] out_i(h1, N1, x) == out_i(h0, N0, x)
    &&& forall|x: Addr| #[trigger] out_s(h1, N1, x) == out_s(h0, N0, x)
    &&& forall|x: Addr| #[trigger] out_p(h1, N1, x) == out_p(h0, N0, x)
}
pub proof fn own_push(h0: Heap, h1: Heap, N: Seq<Addr>, x: Addr)
    requires own(h0, N), ext(h0, h1), x != 0, !h0.Intersection.contains_key(x), h1.Intersection.dom() =~= h0.Intersection.dom().insert(x), x_st(h1, x) != 0, !h0.State.contains_key(x_st(h1, x)), h1.State.dom() =~= h0.State.dom().insert(x_st(h1, x)),
        st_ok(h1, x_st(h1, x)), owns(h0.Position, h1.Position, st_lst(h1, x_st(h1, x)))
    ensures own(h1, N.push(x)), same_others(h0, N, h1, N.push(x))
{
    let M = N.push(x); let sx = x_st(h1, x); let LX = st_lst(h1, sx);
    assert forall|j: int| 0 <= j < N.len() implies h1.Intersection.contains_key(#[trigger] N[j]) && x_st(h1, N[j]) == x_st(h0, N[j]) && st_ok(h1, x_st(h1, N[j])) && st_lst(h1, x_st(h1, N[j])) == st_lst(h0, x_st(h0, N[j])) by {
        let s = x_st(h0, N[j]); let L = st_lst(h0, s); let hd = h0.State[s]._head;
        assert(h0.State.contains_key(s));
        assert forall|i: int| 0 <= i < L.len() implies h1.Position.contains_key(#[trigger] L[i]) && h1.Position[L[i]] == h0.Position[L[i]] by { assert(h0.Position.contains_key(L[i])); }
        seg_frame(h0.Position, h1.Position, hd, L, 0); assert(is_list(h1.Position, hd, L)); lst_is(h1.Position, hd, L);
    }
    assert forall|j: int| 0 <= j < N.len() implies disj(st_lst(h1, x_st(h1, #[trigger] N[j])), LX) by {
        let L = st_lst(h0, x_st(h0, N[j]));
        assert forall|i: int, k: int| #![trigger L[i], LX[k]] 0 <= i < L.len() && 0 <= k < LX.len() implies L[i] != LX[k] by { assert(h0.Position.contains_key(L[i])); assert(LX.contains(LX[k])); }
    }
    assert forall|j: int| 0 <= j < N.len() implies M[j] == #[trigger] N[j] by { }
    assert(M[N.len() as int] == x);
    assert(own(h1, M));
    assert forall|y: Addr| #[trigger] M.contains(y) == (N.contains(y) || y == x) by { if N.contains(y) { assert(M[N.index_of(y)] == y); } if M.contains(y) { let i = M.index_of(y); if i < N.len() { assert(N[i] == y); } } }
    assert forall|y: Addr| #[trigger] out_i(h1, M, y) == out_i(h0, N, y) by { }
    assert forall|y: Addr| #[trigger] out_s(h1, M, y) == out_s(h0, N, y) by {
        if owns_s(h0, N, y) { let j = choose|j: int| 0 <= j < N.len() && x_st(h0, #[trigger] N[j]) == y; assert(x_st(h1, M[j]) == y); }
        if owns_s(h1, M, y) { let j = choose|j: int| 0 <= j < M.len() && x_st(h1, #[trigger] M[j]) == y; if j < N.len() { assert(x_st(h0, N[j]) == y); } }
    }
    assert forall|y: Addr| #[trigger] out_p(h1, M, y) == out_p(h0, N, y) by {
        assert(LX.contains(y) ==> st_lst(h1, x_st(h1, M[N.len() as int])).contains(y));
        if owns_p(h0, N, y) { let j = choose|j: int| 0 <= j < N.len() && st_lst(h0, x_st(h0, #[trigger] N[j])).contains(y); assert(st_lst(h1, x_st(h1, M[j])).contains(y)); }
        if owns_p(h1, M, y) { let j = choose|j: int| 0 <= j < M.len() && st_lst(h1, x_st(h1, #[trigger] M[j])).contains(y); if j < N.len() { assert(st_lst(h0, x_st(h0, N[j])).contains(y)); } }
    }
}

/// the first of the intersections is deleted, with its state and the positions of that
pub proof fn own_pop(h: Heap, g: Heap, N: Seq<Addr>)
    requires own(h, N), N.len() > 0, g.Intersection == h.Intersection.remove(N[0]), g.State == h.State.remove(x_st(h, N[0])), g.Position == h.Position.remove_keys(st_lst(h, x_st(h, N[0])).to_set())
    ensures own(g, N.drop_first()), same_others(h, N, g, N.drop_first()), sub(g.Intersection, h.Intersection), sub(g.State, h.State), sub(g.Position, h.Position)
{
    let M = N.drop_first(); let s0 = x_st(h, N[0]); let L0 = st_lst(h, s0);
    assert forall|a: Addr| #[trigger] g.Position.contains_key(a) == (h.Position.contains_key(a) && !L0.contains(a)) by { assert(L0.to_set().contains(a) == L0.contains(a)); }
    assert forall|j: int| 0 <= j < M.len() implies #[trigger] M[j] == N[j + 1] && M[j] != N[0] && g.Intersection.contains_key(M[j]) && x_st(g, M[j]) == x_st(h, N[j + 1]) && st_ok(g, x_st(g, M[j])) && st_lst(g, x_st(g, M[j])) == st_lst(h, x_st(h, N[j + 1])) by {
        let s = x_st(h, N[j + 1]); let L = st_lst(h, s); let hd = h.State[s]._head;
        assert(N[j + 1] != N[0]); assert(x_st(h, N[0]) != x_st(h, N[j + 1]) && disj(st_lst(h, x_st(h, N[0])), st_lst(h, x_st(h, N[j + 1]))));
        assert(h.Intersection.contains_key(N[j + 1])); assert(s != s0);
        assert forall|i: int| 0 <= i < L.len() implies g.Position.contains_key(#[trigger] L[i]) && g.Position[L[i]] == h.Position[L[i]] by { assert(h.Position.contains_key(L[i])); if L0.contains(L[i]) { assert(L0[L0.index_of(L[i])] != L[i]); } }
        seg_frame(h.Position, g.Position, hd, L, 0); assert(is_list(g.Position, hd, L)); lst_is(g.Position, hd, L);
    }
    assert forall|y: Addr| #[trigger] N.contains(y) == (M.contains(y) || y == N[0]) by { if N.contains(y) { let i = N.index_of(y); if i > 0 { assert(M[i - 1] == y); } } if M.contains(y) { let i = M.index_of(y); assert(N[i + 1] == y); } }
    assert forall|y: Addr| #[trigger] out_i(g, M, y) == out_i(h, N, y) by { assert(!M.contains(N[0])) by { if M.contains(N[0]) { let i = M.index_of(N[0]); assert(N[i + 1] == N[0]); } } }
    assert forall|y: Addr| #[trigger] out_s(g, M, y) == out_s(h, N, y) by {
        if owns_s(g, M, y) { let j = choose|j: int| 0 <= j < M.len() && x_st(g, #[trigger] M[j]) == y; assert(x_st(h, N[j + 1]) == y); assert(owns_s(h, N, y)); }
        if owns_s(h, N, y) { let j = choose|j: int| 0 <= j < N.len() && x_st(h, #[trigger] N[j]) == y; if j > 0 { assert(x_st(g, M[j - 1]) == y); } else { assert(!g.State.contains_key(y)); } }
        if y == s0 { assert(x_st(h, N[0]) == y); }
    }
    assert forall|y: Addr| #[trigger] out_p(g, M, y) == out_p(h, N, y) by {
        if owns_p(g, M, y) { let j = choose|j: int| 0 <= j < M.len() && st_lst(g, x_st(g, #[trigger] M[j])).contains(y); assert(st_lst(h, x_st(h, N[j + 1])).contains(y)); assert(owns_p(h, N, y)); }
        if owns_p(h, N, y) { let j = choose|j: int| 0 <= j < N.len() && st_lst(h, x_st(h, #[trigger] N[j])).contains(y); if j > 0 { assert(st_lst(g, x_st(g, M[j - 1])).contains(y)); } }
        if L0.contains(y) { assert(st_lst(h, x_st(h, N[0])).contains(y)); }
    }
}
