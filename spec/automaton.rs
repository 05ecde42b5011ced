// ---------------------------------------------------------------------------------------------
// The Levenshtein automata: what the positions of a state mean, and why one step preserves that meaning.
// ---------------------------------------------------------------------------------------------
/// edit distance by cases on the LAST operation (shown equal to D, which goes by the first one, in spec/rev.rs)
pub open spec fn E(alg: Alg, v: Seq<i8>, w: Seq<i8>) -> int
    decreases v.len() + w.len()
{
    if v.len() == 0 { w.len() as int }
    else if w.len() == 0 { v.len() as int }
    else {
        let x = v.drop_last(); let y = w.drop_last();
        let m0 = E(alg, x, y) + (if v.last() == w.last() { 0int } else { 1 });
        let m1 = imin(m0, E(alg, x, w) + 1);
        let m2 = imin(m1, E(alg, v, y) + 1);
        let m3 = if alg is Trans && v.len() >= 2 && w.len() >= 2 && v.last() == y.last() && x.last() == w.last() {
            imin(m2, E(alg, x.drop_last(), y.drop_last()) + 1) } else { m2 };
        let m4 = if alg is Ms && w.len() >= 2 { imin(m3, E(alg, x, y.drop_last()) + 1) } else { m3 };
        if alg is Ms && v.len() >= 2 { imin(m4, E(alg, x.drop_last(), y) + 1) } else { m4 }
    }
}
/// distance to the first i characters of the query
pub open spec fn Eq(alg: Alg, p: Seq<i8>, q: Seq<i8>, i: int) -> int { E(alg, p, q.take(i)) }

pub open spec fn iabs(a: int) -> int { if a >= 0 { a } else { -a } }

pub proof fn E_len(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures E(alg, v, w) >= iabs(v.len() - w.len()), E(alg, v, w) >= 0
    decreases v.len() + w.len()
{
    if v.len() > 0 && w.len() > 0 {
        let x = v.drop_last(); let y = w.drop_last();
        E_len(alg, x, y); E_len(alg, x, w); E_len(alg, v, y);
        if v.len() >= 2 && w.len() >= 2 { E_len(alg, x.drop_last(), y.drop_last()); }
        if w.len() >= 2 { E_len(alg, x, y.drop_last()); }
        if v.len() >= 2 { E_len(alg, x.drop_last(), y); }
    }
}
/// the recursion of E on p.push(c) and a prefix of the query, as upper bounds
pub proof fn E_up(alg: Alg, p: Seq<i8>, c: i8, q: Seq<i8>, i: int)
    requires 0 <= i <= q.len()
    ensures
        Eq(alg, p.push(c), q, i) <= Eq(alg, p, q, i) + 1,
        i >= 1 ==> Eq(alg, p.push(c), q, i) <= Eq(alg, p, q, i - 1) + (if q[i - 1] == c { 0int } else { 1 }),
        i >= 1 ==> Eq(alg, p.push(c), q, i) <= Eq(alg, p.push(c), q, i - 1) + 1,
        alg is Trans && i >= 2 && p.len() >= 1 && c == q[i - 2] && p.last() == q[i - 1] ==> Eq(alg, p.push(c), q, i) <= Eq(alg, p.drop_last(), q, i - 2) + 1,
        alg is Ms && i >= 2 ==> Eq(alg, p.push(c), q, i) <= Eq(alg, p, q, i - 2) + 1,
        alg is Ms && i >= 1 && p.len() >= 1 ==> Eq(alg, p.push(c), q, i) <= Eq(alg, p.drop_last(), q, i - 1) + 1,
{
    let v = p.push(c); let w = q.take(i);
    assert(v.drop_last() =~= p); assert(v.last() == c);
    if i >= 1 { assert(w.drop_last() =~= q.take(i - 1)); assert(w.last() == q[i - 1]); }
    if i >= 2 { assert(w.drop_last().drop_last() =~= q.take(i - 2)); assert(q.take(i - 1).last() == q[i - 2]); }
    if i == 0 { if p.len() == 0 { assert(w.len() == 0); } }
}
/// ... and one of them is attained
pub proof fn E_down(alg: Alg, p: Seq<i8>, c: i8, q: Seq<i8>, i: int)
    requires 0 <= i <= q.len()
    ensures
        Eq(alg, p.push(c), q, i) == Eq(alg, p, q, i) + 1
        || (i >= 1 && Eq(alg, p.push(c), q, i) == Eq(alg, p, q, i - 1) + (if q[i - 1] == c { 0int } else { 1 }))
        || (i >= 1 && Eq(alg, p.push(c), q, i) == Eq(alg, p.push(c), q, i - 1) + 1)
        || (alg is Trans && i >= 2 && p.len() >= 1 && c == q[i - 2] && p.last() == q[i - 1] && Eq(alg, p.push(c), q, i) == Eq(alg, p.drop_last(), q, i - 2) + 1)
        || (alg is Ms && i >= 2 && Eq(alg, p.push(c), q, i) == Eq(alg, p, q, i - 2) + 1)
        || (alg is Ms && i >= 1 && p.len() >= 1 && Eq(alg, p.push(c), q, i) == Eq(alg, p.drop_last(), q, i - 1) + 1)
{
    let v = p.push(c); let w = q.take(i);
    assert(v.drop_last() =~= p); assert(v.last() == c);
    if i >= 1 { assert(w.drop_last() =~= q.take(i - 1)); assert(w.last() == q[i - 1]); }
    if i >= 2 { assert(w.drop_last().drop_last() =~= q.take(i - 2)); assert(q.take(i - 1).last() == q[i - 2]); }
    if i == 0 { if p.len() == 0 { assert(w.len() == 0); } }
}
pub proof fn E_take_lip(alg: Alg, p: Seq<i8>, q: Seq<i8>, i: int, k: int)
    requires 0 <= i <= k <= q.len()
    ensures Eq(alg, p, q, k) <= Eq(alg, p, q, i) + (k - i)
    decreases k - i
{
    if i < k {
        E_take_lip(alg, p, q, i, k - 1);
        if p.len() > 0 { assert(p =~= p.drop_last().push(p.last())); E_up(alg, p.drop_last(), p.last(), q, k); }
    }
}

// ---- states
/// what a position in the state reached by reading p claims
pub open spec fn sound1(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, v: PV) -> bool {
    &&& 0 <= v.i <= q.len() &&& 0 <= v.e <= n
    &&& if !v.s { Eq(alg, p, q, v.i) <= v.e }
        else if alg is Trans { v.i + 2 <= q.len() && p.len() >= 1 && p.last() == q[v.i + 1] && Eq(alg, p.drop_last(), q, v.i) + 1 <= v.e }
        else { alg is Ms && v.i + 1 <= q.len() && p.len() >= 1 && Eq(alg, p.drop_last(), q, v.i) + 1 <= v.e }
}
pub open spec fn sound(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, V: Set<PV>) -> bool { forall|v: PV| #[trigger] V.contains(v) ==> sound1(alg, n, q, p, v) }
/// some regular position accounts for (i, g)
pub open spec fn cov(V: Set<PV>, i: int, g: int) -> bool { exists|v: PV| #[trigger] V.contains(v) && !v.s && iabs(i - v.i) <= g - v.e }
/// pending transposition, merge: a special position, or a regular one that does at least as well
pub open spec fn scov(alg: Alg, V: Set<PV>, i: int, g: int) -> bool {
    ||| exists|v: PV| #[trigger] V.contains(v) && v.s && v.i == i && v.e <= g
    ||| exists|v: PV| #[trigger] V.contains(v) && !v.s && v.e < g && iabs((if alg is Trans { i + 1 } else { i }) - v.i) <= g - v.e
}
pub open spec fn virt(alg: Alg, q: Seq<i8>, p: Seq<i8>, i: int) -> bool {
    p.len() >= 1 && 0 <= i && ((alg is Trans && i + 2 <= q.len() && p.last() == q[i + 1]) || (alg is Ms && i + 1 <= q.len()))
}
pub open spec fn complete(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, V: Set<PV>) -> bool {
    &&& forall|i: int| 0 <= i <= q.len() && #[trigger] Eq(alg, p, q, i) <= n ==> cov(V, i, Eq(alg, p, q, i))
    &&& forall|i: int| virt(alg, q, p, i) && #[trigger] Eq(alg, p.drop_last(), q, i) + 1 <= n ==> scov(alg, V, i, Eq(alg, p.drop_last(), q, i) + 1)
}

// ---- one position, one character.  hit(x): the x-th character of the query is the one read (known for off <= x < top)
pub open spec fn hit(cv: Seq<bool>, off: int, x: int) -> bool { off <= x < off + cv.len() && cv[x - off] }
/// the positions that may follow (top = off + |cv|: the end of the window)
pub open spec fn local_sound(alg: Alg, n: int, src: PV, cv: Seq<bool>, off: int, v: PV) -> bool {
    let top = off + cv.len();
    &&& v.e <= n
    &&& if !src.s {
        ||| !v.s && v.i == src.i && v.e == src.e + 1
        ||| !v.s && v.i == src.i + 1 && v.e == src.e + 1 && v.i <= top
        ||| !v.s && v.i >= src.i + 1 && v.e == src.e + (v.i - 1 - src.i) && hit(cv, off, v.i - 1)
        ||| alg is Trans && v.s && v.i == src.i && v.e == src.e + 1 && hit(cv, off, src.i + 1)
        ||| alg is Ms && v.s && v.i == src.i && v.e == src.e + 1 && src.i + 1 <= top
        ||| alg is Ms && !v.s && v.i == src.i + 2 && v.e == src.e + 1 && v.i <= top
    } else if alg is Trans { !v.s && v.i == src.i + 2 && v.e == src.e && hit(cv, off, src.i) }
    else { alg is Ms && !v.s && v.i == src.i + 1 && v.e == src.e }
}
/// the positions that have to be accounted for
pub open spec fn required(alg: Alg, n: int, src: PV, cv: Seq<bool>, off: int, W: Set<PV>) -> bool {
    let top = off + cv.len();
    if !src.s {
        &&& src.e + 1 <= n ==> cov(W, src.i, src.e + 1)
        &&& src.e + 1 <= n && src.i + 1 <= top ==> cov(W, src.i + 1, src.e + 1)
        &&& forall|x: int| src.i <= x && #[trigger] hit(cv, off, x) && src.e + (x - src.i) <= n ==> cov(W, x + 1, src.e + (x - src.i))
        &&& alg is Trans && src.e + 1 <= n && hit(cv, off, src.i + 1) ==> scov(alg, W, src.i, src.e + 1)
        &&& alg is Ms && src.e + 1 <= n && src.i + 1 <= top ==> scov(alg, W, src.i, src.e + 1)
        &&& alg is Ms && src.e + 1 <= n && src.i + 2 <= top ==> cov(W, src.i + 2, src.e + 1)
    } else if alg is Trans { hit(cv, off, src.i) ==> cov(W, src.i + 2, src.e) }
    else { alg is Ms ==> cov(W, src.i + 1, src.e) }
}
pub proof fn cov_mono(V: Set<PV>, W: Set<PV>, i: int, g: int)
    requires cov(V, i, g), V.subset_of(W)
    ensures cov(W, i, g)
{ let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && iabs(i - v.i) <= g - v.e; assert(W.contains(v)); }
pub proof fn scov_mono(alg: Alg, V: Set<PV>, W: Set<PV>, i: int, g: int)
    requires scov(alg, V, i, g), V.subset_of(W)
    ensures scov(alg, W, i, g)
{
    if exists|v: PV| #[trigger] V.contains(v) && v.s && v.i == i && v.e <= g { let v = choose|v: PV| #[trigger] V.contains(v) && v.s && v.i == i && v.e <= g; assert(W.contains(v)); }
    else { let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && v.e < g && iabs((if alg is Trans { i + 1 } else { i }) - v.i) <= g - v.e; assert(W.contains(v)); }
}
pub proof fn required_mono(alg: Alg, n: int, src: PV, cv: Seq<bool>, off: int, V: Set<PV>, W: Set<PV>)
    requires required(alg, n, src, cv, off, V), V.subset_of(W)
    ensures required(alg, n, src, cv, off, W)
{
    let top = off + cv.len();
    if !src.s {
        if src.e + 1 <= n { cov_mono(V, W, src.i, src.e + 1); if src.i + 1 <= top { cov_mono(V, W, src.i + 1, src.e + 1); }
            if alg is Trans && hit(cv, off, src.i + 1) { scov_mono(alg, V, W, src.i, src.e + 1); }
            if alg is Ms && src.i + 1 <= top { scov_mono(alg, V, W, src.i, src.e + 1); }
            if alg is Ms && src.i + 2 <= top { cov_mono(V, W, src.i + 2, src.e + 1); } }
        assert forall|x: int| src.i <= x && #[trigger] hit(cv, off, x) && src.e + (x - src.i) <= n implies cov(W, x + 1, src.e + (x - src.i)) by { cov_mono(V, W, x + 1, src.e + (x - src.i)); }
    } else if alg is Trans { if hit(cv, off, src.i) { cov_mono(V, W, src.i + 2, src.e); } } else if alg is Ms { cov_mono(V, W, src.i + 1, src.e); }
}
pub proof fn cov_tri(W: Set<PV>, i: int, g: int, j: int, f: int)
    requires cov(W, j, f), iabs(i - j) <= g - f
    ensures cov(W, i, g)
{ let v = choose|v: PV| #[trigger] W.contains(v) && !v.s && iabs(j - v.i) <= f - v.e; assert(W.contains(v) && !v.s && iabs(i - v.i) <= g - v.e); }
pub proof fn scov_of_cov(alg: Alg, W: Set<PV>, i: int, g: int, j: int, f: int)
    requires cov(W, j, f), f < g, iabs((if alg is Trans { i + 1 } else { i }) - j) <= g - f
    ensures scov(alg, W, i, g)
{ let v = choose|v: PV| #[trigger] W.contains(v) && !v.s && iabs(j - v.i) <= f - v.e; assert(W.contains(v) && !v.s && v.e < g && iabs((if alg is Trans { i + 1 } else { i }) - v.i) <= g - v.e); }

// ---- window: the characteristic vector of character c
pub open spec fn window(n: int, q: Seq<i8>, off: int) -> int { imin(2 * n + 1, q.len() - off) }
pub open spec fn is_cv(n: int, q: Seq<i8>, c: i8, off: int, cv: Seq<bool>) -> bool {
    &&& 0 <= off <= q.len() &&& cv.len() == window(n, q, off)
    &&& forall|k: int| 0 <= k < cv.len() ==> (#[trigger] cv[k]) == (q[off + k] == c)
}
/// no position lies so far from the smallest index that its successors leave the window early
pub proof fn spread(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, o: PV, v: PV)
    requires sound1(alg, n, q, p, o), sound1(alg, n, q, p, v)
    ensures !v.s ==> v.i - o.i <= n + v.e, v.s && alg is Trans ==> v.i - o.i <= n + v.e - 2, v.s && alg is Ms ==> v.i - o.i <= n + v.e - 2, v.s ==> v.e >= 1
{
    E_len(alg, p, q.take(o.i)); E_len(alg, p, q.take(v.i));
    if p.len() >= 1 { E_len(alg, p.drop_last(), q.take(o.i)); E_len(alg, p.drop_last(), q.take(v.i)); }
}
/// what position_transition may assume about a position
pub open spec fn pos_ok(alg: Alg, n: int, off: int, w: int, v: PV) -> bool {
    &&& off <= v.i <= off + w &&& 0 <= v.e <= n
    &&& v.s ==> v.e >= 1 && ((alg is Trans && v.i + 2 <= off + w) || (alg is Ms && v.i + 1 <= off + w))
}
pub proof fn sound_pos_ok(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, o: PV, v: PV)
    requires sound1(alg, n, q, p, o), sound1(alg, n, q, p, v), o.i <= v.i, n >= 0
    ensures pos_ok(alg, n, o.i, window(n, q, o.i), v)
{ spread(alg, n, q, p, o, v); }

pub proof fn sound_step(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, src: PV, v: PV)
    requires sound1(alg, n, q, p, src), is_cv(n, q, c, off, cv), local_sound(alg, n, src, cv, off, v), off <= src.i, src.s ==> src.e >= 1, n >= 0
    ensures sound1(alg, n, q, p.push(c), v)
{
    let top = off + cv.len();
    assert(top <= q.len());
    let pc = p.push(c); assert(pc.drop_last() =~= p); assert(pc.last() == c);
    E_up(alg, p, c, q, src.i);
    if src.i + 1 <= q.len() { E_up(alg, p, c, q, src.i + 1); }
    if src.i + 2 <= q.len() { E_up(alg, p, c, q, src.i + 2); }
    if !src.s {
        if !v.s && v.i >= src.i + 1 && v.e == src.e + (v.i - 1 - src.i) && hit(cv, off, v.i - 1) {
            assert(cv[v.i - 1 - off] == (q[v.i - 1] == c));
            E_take_lip(alg, p, q, src.i, v.i - 1); E_up(alg, p, c, q, v.i);
        }
        if alg is Trans && v.s { assert(cv[src.i + 1 - off] == (q[src.i + 1] == c)); }
        E_len(alg, p, q.take(src.i));
    } else if alg is Trans { assert(cv[src.i - off] == (q[src.i] == c)); }
}
/// completeness: W accounts for every successor of every position of V
pub proof fn complete_step(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, V: Set<PV>, W: Set<PV>)
    requires n >= 0, complete(alg, n, q, p, V), sound(alg, n, q, p, V),
        forall|v: PV| #[trigger] V.contains(v) ==> off <= v.i && (exists|o: PV| V.contains(o) && o.i == off) && required(alg, n, v, cv, off, W),
        (exists|v: PV| V.contains(v)) ==> is_cv(n, q, c, off, cv)
    ensures complete(alg, n, q, p.push(c), W)
{
    hide(E); hide(required); hide(cov); hide(scov);
    let pc = p.push(c); assert(pc.drop_last() =~= p); assert(pc.last() == c);
    assert forall|i: int| 0 <= i <= q.len() && #[trigger] Eq(alg, pc, q, i) <= n implies cov(W, i, Eq(alg, pc, q, i)) by { complete_step1(alg, n, q, p, c, off, cv, V, W, i); }
    assert forall|i: int| virt(alg, q, pc, i) && #[trigger] Eq(alg, pc.drop_last(), q, i) + 1 <= n implies scov(alg, W, i, Eq(alg, pc.drop_last(), q, i) + 1) by {
        step_start(alg, n, q, p, c, off, cv, V, W, i);
    }
}
/// a transposition, merge is begun
pub proof fn step_start(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, V: Set<PV>, W: Set<PV>, i: int)
    requires n >= 0, complete(alg, n, q, p, V), sound(alg, n, q, p, V), virt(alg, q, p.push(c), i), Eq(alg, p, q, i) + 1 <= n,
        forall|v: PV| #[trigger] V.contains(v) ==> off <= v.i && (exists|o: PV| V.contains(o) && o.i == off) && required(alg, n, v, cv, off, W),
        (exists|v: PV| V.contains(v)) ==> is_cv(n, q, c, off, cv)
    ensures scov(alg, W, i, Eq(alg, p, q, i) + 1)
{
    hide(Eq); hide(E); hide(required); hide(scov);
    let g = Eq(alg, p, q, i) + 1;
    assert(p.push(c).last() == c);
    assert(cov(V, i, g - 1));
    let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && iabs(i - v.i) <= g - 1 - v.e;
    assert(required(alg, n, v, cv, off, W)); assert(sound1(alg, n, q, p, v));
    let o = choose|o: PV| V.contains(o) && o.i == off; assert(sound1(alg, n, q, p, o)); spread(alg, n, q, p, o, v);
    step_start1(alg, n, q, c, off, cv, W, v, i, g);
}
proof fn step_start1(alg: Alg, n: int, q: Seq<i8>, c: i8, off: int, cv: Seq<bool>, W: Set<PV>, v: PV, i: int, g: int)
    requires n >= 0, g <= n, is_cv(n, q, c, off, cv), !v.s, 0 <= v.e <= n, off <= v.i <= q.len(), 0 <= i,
        (alg is Trans && i + 2 <= q.len() && c == q[i + 1]) || (alg is Ms && i + 1 <= q.len()),
        iabs(i - v.i) <= g - 1 - v.e, v.i - off <= n + v.e, required(alg, n, v, cv, off, W)
    ensures scov(alg, W, i, g)
{
        let top = off + cv.len();
        if alg is Trans {
            if v.i == i {
                assert(v.i + 1 < top); assert(cv[v.i + 1 - off] == (q[v.i + 1] == c)); assert(hit(cv, off, v.i + 1));
                scov_tri(alg, W, i, g, v.e + 1);
            } else if v.i < i { assert(v.i + 1 <= top); scov_of_cov(alg, W, i, g, v.i + 1, v.e + 1); }
            else { scov_of_cov(alg, W, i, g, v.i, v.e + 1); }
        } else {
            if v.i == i { assert(v.i + 1 <= top); scov_tri(alg, W, i, g, v.e + 1); }
            else { scov_of_cov(alg, W, i, g, v.i, v.e + 1); }
        }
}
pub proof fn scov_tri(alg: Alg, W: Set<PV>, i: int, g: int, f: int)
    requires scov(alg, W, i, f), f <= g
    ensures scov(alg, W, i, g)
{
    if exists|v: PV| #[trigger] W.contains(v) && v.s && v.i == i && v.e <= f { let v = choose|v: PV| #[trigger] W.contains(v) && v.s && v.i == i && v.e <= f; assert(W.contains(v) && v.s && v.i == i && v.e <= g); }
    else { let v = choose|v: PV| #[trigger] W.contains(v) && !v.s && v.e < f && iabs((if alg is Trans { i + 1 } else { i }) - v.i) <= f - v.e; assert(W.contains(v) && !v.s && v.e < g); }
}
pub proof fn complete_step1(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, V: Set<PV>, W: Set<PV>, i: int)
    requires n >= 0, complete(alg, n, q, p, V), sound(alg, n, q, p, V), 0 <= i <= q.len(), Eq(alg, p.push(c), q, i) <= n,
        forall|v: PV| #[trigger] V.contains(v) ==> off <= v.i && (exists|o: PV| V.contains(o) && o.i == off) && required(alg, n, v, cv, off, W),
        (exists|v: PV| V.contains(v)) ==> is_cv(n, q, c, off, cv)
    ensures cov(W, i, Eq(alg, p.push(c), q, i))
    decreases i
{
    let pc = p.push(c); let g = Eq(alg, pc, q, i);
    E_down(alg, p, c, q, i);
    if g == Eq(alg, p, q, i) + 1 {
        assert(cov(V, i, g - 1));
        let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && iabs(i - v.i) <= g - 1 - v.e;
        cov_tri(W, i, g, v.i, v.e + 1);
    } else if i >= 1 && g == Eq(alg, pc, q, i - 1) + 1 {
        complete_step1(alg, n, q, p, c, off, cv, V, W, i - 1);
        cov_tri(W, i, g, i - 1, g - 1);
    } else if i >= 1 && g == Eq(alg, p, q, i - 1) + (if q[i - 1] == c { 0int } else { 1 }) {
        step_match(alg, n, q, p, c, off, cv, V, W, i, g);
    } else if alg is Trans {
        let k = i - 2; let gv = Eq(alg, p.drop_last(), q, k) + 1;
        assert(virt(alg, q, p, k)); assert(scov(alg, V, k, gv)); assert(g == gv);
        virt_step(alg, n, q, p, c, off, cv, V, W, i, k, g);
    } else if alg is Ms && i >= 2 && g == Eq(alg, p, q, i - 2) + 1 {
        step_split(alg, n, q, p, c, off, cv, V, W, i, g);
    } else {
        let k = i - 1;
        assert(virt(alg, q, p, k)); assert(scov(alg, V, k, Eq(alg, p.drop_last(), q, k) + 1));
        virt_step(alg, n, q, p, c, off, cv, V, W, i, k, g);
    }
}
/// a pending transposition or merge is completed
pub proof fn virt_step(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, V: Set<PV>, W: Set<PV>, i: int, k: int, g: int)
    requires n >= 0, sound(alg, n, q, p, V), 0 <= i <= q.len(), 0 <= k, g <= n,
        alg is Trans ==> k == i - 2 && q[k] == c, !(alg is Trans) ==> alg is Ms && k == i - 1,
        scov(alg, V, k, g),
        forall|v: PV| #[trigger] V.contains(v) ==> off <= v.i && (exists|o: PV| V.contains(o) && o.i == off) && required(alg, n, v, cv, off, W),
        (exists|v: PV| V.contains(v)) ==> is_cv(n, q, c, off, cv)
    ensures cov(W, i, g)
{
    hide(Eq); hide(E);
    if exists|v: PV| #[trigger] V.contains(v) && v.s && v.i == k && v.e <= g {
        let v = choose|v: PV| #[trigger] V.contains(v) && v.s && v.i == k && v.e <= g;
        assert(sound1(alg, n, q, p, v)); assert(required(alg, n, v, cv, off, W));
        let o = choose|o: PV| V.contains(o) && o.i == off; assert(sound1(alg, n, q, p, o)); spread(alg, n, q, p, o, v);
        if alg is Trans { assert(v.i - off < cv.len()); assert(cv[v.i - off] == (q[v.i] == c)); assert(hit(cv, off, v.i)); cov_tri(W, i, g, v.i + 2, v.e); }
        else { cov_tri(W, i, g, v.i + 1, v.e); }
    } else {
        let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && v.e < g && iabs((if alg is Trans { k + 1 } else { k }) - v.i) <= g - v.e;
        assert(sound1(alg, n, q, p, v)); assert(required(alg, n, v, cv, off, W));
        let o = choose|o: PV| V.contains(o) && o.i == off; assert(sound1(alg, n, q, p, o)); spread(alg, n, q, p, o, v);
        let top = off + cv.len();
        if alg is Trans {
            if v.i <= k { assert(k - off < cv.len()); assert(cv[k - off] == (q[k] == c)); assert(hit(cv, off, k)); cov_tri(W, i, g, k + 1, v.e + (k - v.i)); }
            else if v.i == k + 1 { assert(v.i + 1 <= top); cov_tri(W, i, g, v.i + 1, v.e + 1); }
            else { cov_tri(W, i, g, v.i, v.e + 1); }
        } else {
            if v.i > k { cov_tri(W, i, g, v.i, v.e + 1); }
            else if v.i < k { assert(v.i + 2 <= top); cov_tri(W, i, g, v.i + 2, v.e + 1); }
            else { assert(v.i + 1 <= top); cov_tri(W, i, g, v.i + 1, v.e + 1); }
        }
    }
}
pub proof fn step_match(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, V: Set<PV>, W: Set<PV>, i: int, g: int)
    requires n >= 0, complete(alg, n, q, p, V), sound(alg, n, q, p, V), 1 <= i <= q.len(), g == Eq(alg, p, q, i - 1) + (if q[i - 1] == c { 0int } else { 1 }), g <= n,
        forall|v: PV| #[trigger] V.contains(v) ==> off <= v.i && (exists|o: PV| V.contains(o) && o.i == off) && required(alg, n, v, cv, off, W),
        (exists|v: PV| V.contains(v)) ==> is_cv(n, q, c, off, cv)
    ensures cov(W, i, g)
{
    hide(Eq); hide(E); hide(required);
        let g1 = Eq(alg, p, q, i - 1);
        assert(cov(V, i - 1, g1));
        let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && iabs(i - 1 - v.i) <= g1 - v.e;
        assert(sound1(alg, n, q, p, v));
        let o = choose|o: PV| V.contains(o) && o.i == off; assert(sound1(alg, n, q, p, o)); spread(alg, n, q, p, o, v);
        step_match1(alg, n, q, c, off, cv, W, v, i, g, g1);
}
proof fn step_match1(alg: Alg, n: int, q: Seq<i8>, c: i8, off: int, cv: Seq<bool>, W: Set<PV>, v: PV, i: int, g: int, g1: int)
    requires n >= 0, 1 <= i <= q.len(), g == g1 + (if q[i - 1] == c { 0int } else { 1 }), g <= n, is_cv(n, q, c, off, cv), !v.s, 0 <= v.e <= n, off <= v.i <= q.len(),
        iabs(i - 1 - v.i) <= g1 - v.e, v.i - off <= n + v.e, required(alg, n, v, cv, off, W)
    ensures cov(W, i, g)
{
        if q[i - 1] == c {
            if v.i <= i - 1 {
                assert(i - 1 - off < cv.len()); assert(cv[i - 1 - off] == (q[i - 1] == c)); assert(hit(cv, off, i - 1));
                cov_tri(W, i, g, i, v.e + (i - 1 - v.i));
            } else { cov_tri(W, i, g, v.i, v.e + 1); }
        } else if v.i < q.len() { assert(v.i + 1 <= off + cv.len()); cov_tri(W, i, g, v.i + 1, v.e + 1); }
        else { cov_tri(W, i, g, v.i, v.e + 1); }
}
pub proof fn step_split(alg: Alg, n: int, q: Seq<i8>, p: Seq<i8>, c: i8, off: int, cv: Seq<bool>, V: Set<PV>, W: Set<PV>, i: int, g: int)
    requires n >= 0, complete(alg, n, q, p, V), sound(alg, n, q, p, V), alg is Ms, 2 <= i <= q.len(), g == Eq(alg, p, q, i - 2) + 1, g <= n,
        forall|v: PV| #[trigger] V.contains(v) ==> off <= v.i && (exists|o: PV| V.contains(o) && o.i == off) && required(alg, n, v, cv, off, W),
        (exists|v: PV| V.contains(v)) ==> is_cv(n, q, c, off, cv)
    ensures cov(W, i, g)
{
    hide(Eq); hide(E);
        let g1 = Eq(alg, p, q, i - 2);
        assert(cov(V, i - 2, g1));
        let v = choose|v: PV| #[trigger] V.contains(v) && !v.s && iabs(i - 2 - v.i) <= g1 - v.e;
        assert(sound1(alg, n, q, p, v)); assert(required(alg, n, v, cv, off, W));
        let o = choose|o: PV| V.contains(o) && o.i == off; assert(sound1(alg, n, q, p, o)); spread(alg, n, q, p, o, v);
        if v.i + 2 <= q.len() { assert(v.i + 2 <= off + cv.len()); cov_tri(W, i, g, v.i + 2, v.e + 1); }
        else { cov_tri(W, i, g, v.i, v.e + 1); }
}
