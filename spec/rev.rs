// ---------------------------------------------------------------------------------------------
// The edit distance does not depend on whether the operations are read from the left (D) or from the right (E).
// ---------------------------------------------------------------------------------------------
pub proof fn D_ops(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures
        v.len() >= 1 ==> D(alg, v, w) <= D(alg, v.drop_first(), w) + 1,
        w.len() >= 1 ==> D(alg, v, w) <= D(alg, v, w.drop_first()) + 1,
        v.len() >= 1 && w.len() >= 1 ==> D(alg, v, w) <= D(alg, v.drop_first(), w.drop_first()) + (if v[0] == w[0] { 0int } else { 1 }),
        alg is Trans && v.len() >= 2 && w.len() >= 2 && v[0] == w[1] && v[1] == w[0] ==> D(alg, v, w) <= D(alg, v.drop_first().drop_first(), w.drop_first().drop_first()) + 1,
        alg is Ms && v.len() >= 1 && w.len() >= 2 ==> D(alg, v, w) <= D(alg, v.drop_first(), w.drop_first().drop_first()) + 1,
        alg is Ms && v.len() >= 2 && w.len() >= 1 ==> D(alg, v, w) <= D(alg, v.drop_first().drop_first(), w.drop_first()) + 1,
{ }
/// ... one of which is attained
pub proof fn D_op(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    requires v.len() + w.len() > 0
    ensures
        (v.len() >= 1 && D(alg, v, w) == D(alg, v.drop_first(), w) + 1)
        || (w.len() >= 1 && D(alg, v, w) == D(alg, v, w.drop_first()) + 1)
        || (v.len() >= 1 && w.len() >= 1 && D(alg, v, w) == D(alg, v.drop_first(), w.drop_first()) + (if v[0] == w[0] { 0int } else { 1 }))
        || (alg is Trans && v.len() >= 2 && w.len() >= 2 && v[0] == w[1] && v[1] == w[0] && D(alg, v, w) == D(alg, v.drop_first().drop_first(), w.drop_first().drop_first()) + 1)
        || (alg is Ms && v.len() >= 1 && w.len() >= 2 && D(alg, v, w) == D(alg, v.drop_first(), w.drop_first().drop_first()) + 1)
        || (alg is Ms && v.len() >= 2 && w.len() >= 1 && D(alg, v, w) == D(alg, v.drop_first().drop_first(), w.drop_first()) + 1)
{ }
pub proof fn D_sub(alg: Alg, a: Seq<i8>, b: Seq<i8>, c: Seq<i8>, e: Seq<i8>)
    ensures D(alg, (a + b), (c + e)) <= D(alg, a, c) + D(alg, b, e)
    decreases a.len() + c.len()
{
    hide(D);
    let v = (a + b); let w = (c + e);
    D_ops(alg, v, w); D_nonneg(alg, a, c);
    if a.len() + c.len() == 0 { assert(v =~= b); assert(w =~= e); }
    else {
        D_op(alg, a, c);
        if a.len() >= 1 { assert(v.drop_first() =~= (a.drop_first() + b)); D_sub(alg, a.drop_first(), b, c, e); }
        if c.len() >= 1 { assert(w.drop_first() =~= (c.drop_first() + e)); D_sub(alg, a, b, c.drop_first(), e); }
        if a.len() >= 1 && c.len() >= 1 { D_sub(alg, a.drop_first(), b, c.drop_first(), e); }
        if a.len() >= 2 { assert(v.drop_first().drop_first() =~= (a.drop_first().drop_first() + b)); }
        if c.len() >= 2 { assert(w.drop_first().drop_first() =~= (c.drop_first().drop_first() + e)); }
        if a.len() >= 2 && c.len() >= 2 { D_sub(alg, a.drop_first().drop_first(), b, c.drop_first().drop_first(), e); }
        if a.len() >= 1 && c.len() >= 2 { D_sub(alg, a.drop_first(), b, c.drop_first().drop_first(), e); }
        if a.len() >= 2 && c.len() >= 1 { D_sub(alg, a.drop_first().drop_first(), b, c.drop_first(), e); }
    }
}
pub proof fn E_ops(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures
        v.len() >= 1 ==> E(alg, v, w) <= E(alg, v.drop_last(), w) + 1,
        w.len() >= 1 ==> E(alg, v, w) <= E(alg, v, w.drop_last()) + 1,
        v.len() >= 1 && w.len() >= 1 ==> E(alg, v, w) <= E(alg, v.drop_last(), w.drop_last()) + (if v.last() == w.last() { 0int } else { 1 }),
        alg is Trans && v.len() >= 2 && w.len() >= 2 && v.last() == w[w.len() - 2] && v[v.len() - 2] == w.last() ==> E(alg, v, w) <= E(alg, v.drop_last().drop_last(), w.drop_last().drop_last()) + 1,
        alg is Ms && v.len() >= 1 && w.len() >= 2 ==> E(alg, v, w) <= E(alg, v.drop_last(), w.drop_last().drop_last()) + 1,
        alg is Ms && v.len() >= 2 && w.len() >= 1 ==> E(alg, v, w) <= E(alg, v.drop_last().drop_last(), w.drop_last()) + 1,
{ }
/// ... one of which is attained
pub proof fn E_op(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    requires v.len() + w.len() > 0
    ensures
        (v.len() >= 1 && E(alg, v, w) == E(alg, v.drop_last(), w) + 1)
        || (w.len() >= 1 && E(alg, v, w) == E(alg, v, w.drop_last()) + 1)
        || (v.len() >= 1 && w.len() >= 1 && E(alg, v, w) == E(alg, v.drop_last(), w.drop_last()) + (if v.last() == w.last() { 0int } else { 1 }))
        || (alg is Trans && v.len() >= 2 && w.len() >= 2 && v.last() == w[w.len() - 2] && v[v.len() - 2] == w.last() && E(alg, v, w) == E(alg, v.drop_last().drop_last(), w.drop_last().drop_last()) + 1)
        || (alg is Ms && v.len() >= 1 && w.len() >= 2 && E(alg, v, w) == E(alg, v.drop_last(), w.drop_last().drop_last()) + 1)
        || (alg is Ms && v.len() >= 2 && w.len() >= 1 && E(alg, v, w) == E(alg, v.drop_last().drop_last(), w.drop_last()) + 1)
{ }
pub proof fn E_sub(alg: Alg, a: Seq<i8>, b: Seq<i8>, c: Seq<i8>, e: Seq<i8>)
    ensures E(alg, (b + a), (e + c)) <= E(alg, a, c) + E(alg, b, e)
    decreases a.len() + c.len()
{
    hide(E);
    let v = (b + a); let w = (e + c);
    E_ops(alg, v, w); E_len(alg, a, c);
    if a.len() + c.len() == 0 { assert(v =~= b); assert(w =~= e); }
    else {
        E_op(alg, a, c);
        if a.len() >= 1 { assert(v.drop_last() =~= (b + a.drop_last())); E_sub(alg, a.drop_last(), b, c, e); }
        if c.len() >= 1 { assert(w.drop_last() =~= (e + c.drop_last())); E_sub(alg, a, b, c.drop_last(), e); }
        if a.len() >= 1 && c.len() >= 1 { E_sub(alg, a.drop_last(), b, c.drop_last(), e); }
        if a.len() >= 2 { assert(v.drop_last().drop_last() =~= (b + a.drop_last().drop_last())); }
        if c.len() >= 2 { assert(w.drop_last().drop_last() =~= (e + c.drop_last().drop_last())); }
        if a.len() >= 2 && c.len() >= 2 { E_sub(alg, a.drop_last().drop_last(), b, c.drop_last().drop_last(), e); }
        if a.len() >= 1 && c.len() >= 2 { E_sub(alg, a.drop_last(), b, c.drop_last().drop_last(), e); }
        if a.len() >= 2 && c.len() >= 1 { E_sub(alg, a.drop_last().drop_last(), b, c.drop_last(), e); }
    }
}
/// the distance of the two sides of a single operation
pub proof fn piece(alg: Alg, a: Seq<i8>, b: Seq<i8>)
    requires a.len() <= 2, b.len() <= 2
    ensures
        a.len() + b.len() == 1 ==> D(alg, a, b) <= 1 && E(alg, a, b) <= 1,
        a.len() == 1 && b.len() == 1 ==> D(alg, a, b) <= (if a[0] == b[0] { 0int } else { 1 }) && E(alg, a, b) <= (if a[0] == b[0] { 0int } else { 1 }),
        alg is Trans && a.len() == 2 && b.len() == 2 && a[0] == b[1] && a[1] == b[0] ==> D(alg, a, b) <= 1 && E(alg, a, b) <= 1,
        alg is Ms && a.len() + b.len() == 3 && a.len() >= 1 && b.len() >= 1 ==> D(alg, a, b) <= 1 && E(alg, a, b) <= 1,
{
    D_ops(alg, a, b); E_ops(alg, a, b);
}
pub proof fn D_ge_E(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures D(alg, v, w) >= E(alg, v, w)
    decreases v.len() + w.len()
{
    hide(D); hide(E);
    let z = Seq::<i8>::empty();
    if v.len() + w.len() == 0 { reveal(D); reveal(E); }
    if v.len() + w.len() > 0 {
        D_op(alg, v, w);
        let x = v.drop_first(); let y = w.drop_first(); let xx = x.drop_first(); let yy = y.drop_first();
        let v1 = v.take(1); let w1 = w.take(1); let v2 = if v.len() >= 2 { v.take(2) } else { z }; let w2 = if w.len() >= 2 { w.take(2) } else { z };
        if v.len() >= 1 { D_ge_E(alg, x, w); E_sub(alg, x, v1, w, z); piece(alg, v1, z); assert((v1 + x) =~= v); assert((z + w) =~= w); }
        if w.len() >= 1 { D_ge_E(alg, v, y); E_sub(alg, v, z, y, w1); piece(alg, z, w1); assert((w1 + y) =~= w); assert((z + v) =~= v); }
        if v.len() >= 1 && w.len() >= 1 { D_ge_E(alg, x, y); E_sub(alg, x, v1, y, w1); piece(alg, v1, w1); }
        if v.len() >= 2 { assert((v2 + xx) =~= v); }
        if w.len() >= 2 { assert((w2 + yy) =~= w); }
        if v.len() >= 2 && w.len() >= 2 { D_ge_E(alg, xx, yy); E_sub(alg, xx, v2, yy, w2); piece(alg, v2, w2); }
        if v.len() >= 1 && w.len() >= 2 { D_ge_E(alg, x, yy); E_sub(alg, x, v1, yy, w2); piece(alg, v1, w2); }
        if v.len() >= 2 && w.len() >= 1 { D_ge_E(alg, xx, y); E_sub(alg, xx, v2, y, w1); piece(alg, v2, w1); }
    }
}
pub proof fn E_ge_D(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures E(alg, v, w) >= D(alg, v, w)
    decreases v.len() + w.len()
{
    hide(D); hide(E);
    let z = Seq::<i8>::empty();
    if v.len() + w.len() == 0 { reveal(D); reveal(E); }
    if v.len() + w.len() > 0 {
        E_op(alg, v, w);
        let x = v.drop_last(); let y = w.drop_last(); let xx = x.drop_last(); let yy = y.drop_last();
        let v1 = v.skip(v.len() - 1); let w1 = w.skip(w.len() - 1); let v2 = if v.len() >= 2 { v.skip(v.len() - 2) } else { z }; let w2 = if w.len() >= 2 { w.skip(w.len() - 2) } else { z };
        if v.len() >= 1 { E_ge_D(alg, x, w); D_sub(alg, x, v1, w, z); piece(alg, v1, z); assert((x + v1) =~= v); assert((w + z) =~= w); }
        if w.len() >= 1 { E_ge_D(alg, v, y); D_sub(alg, v, z, y, w1); piece(alg, z, w1); assert((y + w1) =~= w); assert((v + z) =~= v); }
        if v.len() >= 1 && w.len() >= 1 { E_ge_D(alg, x, y); D_sub(alg, x, v1, y, w1); piece(alg, v1, w1); }
        if v.len() >= 2 { assert((xx + v2) =~= v); }
        if w.len() >= 2 { assert((yy + w2) =~= w); }
        if v.len() >= 2 && w.len() >= 2 { E_ge_D(alg, xx, yy); D_sub(alg, xx, v2, yy, w2); piece(alg, v2, w2); }
        if v.len() >= 1 && w.len() >= 2 { E_ge_D(alg, x, yy); D_sub(alg, x, v1, yy, w2); piece(alg, v1, w2); }
        if v.len() >= 2 && w.len() >= 1 { E_ge_D(alg, xx, y); D_sub(alg, xx, v2, y, w1); piece(alg, v2, w1); }
    }
}
pub proof fn D_is_E(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures D(alg, v, w) == E(alg, v, w)
{ D_ge_E(alg, v, w); E_ge_D(alg, v, w); }
