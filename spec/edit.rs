// ---------------------------------------------------------------------------------------------
// Edit distances: the specification (what the numbers mean) and the lemmas the contracts use.
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub enum Alg { Std, Trans, Ms }

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }

/// The least number of elementary edits turning v into w, by cases on the first operation:
/// insert, delete, substitute; Trans: swap of two adjacent characters (no substring edited twice);
/// Ms: merge of two characters into one, split of one into two.
pub open spec fn D(alg: Alg, v: Seq<i8>, w: Seq<i8>) -> int
    decreases v.len() + w.len()
{
    if v.len() == 0 { w.len() as int }
    else if w.len() == 0 { v.len() as int }
    else {
        let x = v.drop_first(); let y = w.drop_first();
        let m0 = D(alg, x, y) + (if v[0] == w[0] { 0int } else { 1 });
        let m1 = imin(m0, D(alg, x, w) + 1);
        let m2 = imin(m1, D(alg, v, y) + 1);
        let m3 = if alg is Trans && v.len() >= 2 && w.len() >= 2 && v[0] == w[1] && v[1] == w[0] {
            imin(m2, D(alg, x.drop_first(), y.drop_first()) + 1) } else { m2 };
        let m4 = if alg is Ms && w.len() >= 2 { imin(m3, D(alg, x, y.drop_first()) + 1) } else { m3 };
        if alg is Ms && v.len() >= 2 { imin(m4, D(alg, x.drop_first(), y) + 1) } else { m4 }
    }
}

pub proof fn D_nonneg(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures D(alg, v, w) >= 0
    decreases v.len() + w.len()
{
    if v.len() > 0 && w.len() > 0 {
        let x = v.drop_first(); let y = w.drop_first();
        D_nonneg(alg, x, y); D_nonneg(alg, x, w); D_nonneg(alg, v, y);
        if v.len() >= 2 && w.len() >= 2 { D_nonneg(alg, x.drop_first(), y.drop_first()); }
        if w.len() >= 2 { D_nonneg(alg, x, y.drop_first()); }
        if v.len() >= 2 { D_nonneg(alg, x.drop_first(), y); }
    }
}

pub proof fn D_sym(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures D(alg, v, w) == D(alg, w, v)
    decreases v.len() + w.len()
{
    if v.len() > 0 && w.len() > 0 {
        let x = v.drop_first(); let y = w.drop_first();
        D_sym(alg, x, y); D_sym(alg, x, w); D_sym(alg, v, y);
        if v.len() >= 2 && w.len() >= 2 { D_sym(alg, x.drop_first(), y.drop_first()); }
        if w.len() >= 2 { D_sym(alg, x, y.drop_first()); }
        if v.len() >= 2 { D_sym(alg, x.drop_first(), y); }
    }
}

pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

pub proof fn D_upper(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures D(alg, v, w) <= imax(v.len() as int, w.len() as int)
    decreases v.len() + w.len()
{
    if v.len() > 0 && w.len() > 0 { D_upper(alg, v.drop_first(), w.drop_first()); }
}

/// removing the first character of one side changes the distance by at most one (downwards direction)
pub proof fn D_lip(alg: Alg, x: Seq<i8>, cy: Seq<i8>)
    requires cy.len() > 0
    ensures D(alg, x, cy.drop_first()) <= D(alg, x, cy) + 1
    decreases x.len() + cy.len()
{
    let y = cy.drop_first();
    if x.len() > 0 {
        let x1 = x.drop_first();
        D_lip(alg, x1, cy);
        if y.len() == 0 {
            // D(x, "") == |x|
            D_len_le(alg, x, cy);
        } else {
            // generic facts: deleting x[0] from (x, y)
            assert(D(alg, x, y) <= D(alg, x1, y) + 1);
            if x.len() >= 2 {
                let x2 = x1.drop_first();
                assert(D(alg, x1, y) <= D(alg, x2, y) + 1);
                if y.len() >= 1 {
                    let y1 = y.drop_first();
                    assert(D(alg, x1, y1) <= D(alg, x2, y1) + 1) by { if y1.len() == 0 { } };
                }
            }
        }
    }
}

pub proof fn D_len_le(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    requires w.len() == 1
    ensures v.len() <= D(alg, v, w) + 1
    decreases v.len()
{
    if v.len() > 0 {
        D_len_le(alg, v.drop_first(), w);
        let x = v.drop_first(); let y = w.drop_first();
        assert(D(alg, x, y) == x.len());
        if v.len() >= 2 { assert(D(alg, x.drop_first(), y) == x.len() - 1); }
        assert(D(alg, v, y) == v.len());
    }
}

/// equal first characters can be discarded
pub proof fn D_cancel(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    requires v.len() > 0, w.len() > 0, v[0] == w[0]
    ensures D(alg, v, w) == D(alg, v.drop_first(), w.drop_first())
{
    let x = v.drop_first(); let y = w.drop_first();
    D_lip(alg, x, w);
    D_sym(alg, x, y); D_sym(alg, v, y);
    D_lip(alg, y, v);
    if x.len() >= 1 && y.len() >= 1 {
        let x1 = x.drop_first(); let y1 = y.drop_first();
        assert(D(alg, x, y) <= D(alg, x1, y1) + 1);
    }
    if y.len() >= 1 {
        let y1 = y.drop_first();
        assert(D(alg, x, y) <= D(alg, x, y1) + 1) by { if x.len() == 0 {} };
    }
    if x.len() >= 1 {
        let x1 = x.drop_first();
        assert(D(alg, x, y) <= D(alg, x1, y) + 1) by { if y.len() == 0 {} };
    }
}

/// the distance is zero exactly for equal strings
pub proof fn D_zero(alg: Alg, v: Seq<i8>, w: Seq<i8>)
    ensures (D(alg, v, w) == 0) <==> (v == w)
    decreases v.len() + w.len()
{
    if v.len() == 0 { assert(w.len() == 0 ==> v =~= w); }
    else if w.len() == 0 { }
    else {
        let x = v.drop_first(); let y = w.drop_first();
        D_nonneg(alg, x, y); D_nonneg(alg, x, w); D_nonneg(alg, v, y); D_nonneg(alg, v, w);
        if v.len() >= 2 && w.len() >= 2 { D_nonneg(alg, x.drop_first(), y.drop_first()); }
        if w.len() >= 2 { D_nonneg(alg, x, y.drop_first()); }
        if v.len() >= 2 { D_nonneg(alg, x.drop_first(), y); }
        D_zero(alg, x, y);
        if v == w { assert(x == y); D_cancel(alg, v, w); }
        if D(alg, v, w) == 0 {
            assert(v[0] == w[0] && x == y);
            assert(v =~= seq![v[0]] + x);
            assert(w =~= seq![w[0]] + y);
        }
    }
}
