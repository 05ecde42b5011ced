// ---------------------------------------------------------------------------------------------
// Sequences of terms; what the theorems about dictionaries say.
// ---------------------------------------------------------------------------------------------
pub open spec fn strictly(ts: Seq<Str>) -> bool { forall|i: int| 0 < i < ts.len() ==> lex_lt(ts[i - 1]@, (#[trigger] ts[i])@) }
pub proof fn lex_irr(a: Seq<i8>) ensures !lex_lt(a, a) decreases a.len() { if a.len() > 0 { lex_irr(a.drop_first()); } }
pub proof fn lex_trans(a: Seq<i8>, b: Seq<i8>, c: Seq<i8>)
    requires lex_lt(a, b), lex_lt(b, c)
    ensures lex_lt(a, c)
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { uch_inj(a[0], b[0]); uch_inj(b[0], c[0]); uch_inj(a[0], c[0]); if a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } } }
pub proof fn strictly_lt(ts: Seq<Str>, i: int, j: int)
    requires strictly(ts), 0 <= i < j < ts.len()
    ensures lex_lt(ts[i]@, ts[j]@)
    decreases j - i
{ if j > i + 1 { strictly_lt(ts, i, j - 1); lex_trans(ts[i]@, ts[j - 1]@, ts[j]@); } }
pub proof fn strictly_asc(ts: Seq<Str>)
    requires strictly(ts)
    ensures ascending(ts)
{ assert forall|i: int| 0 < i < ts.len() implies !lex_lt((#[trigger] ts[i])@, ts[i - 1]@) by { if lex_lt(ts[i]@, ts[i - 1]@) { lex_trans(ts[i - 1]@, ts[i]@, ts[i - 1]@); lex_irr(ts[i - 1]@); } } }
pub open spec fn term_seq(ts: Seq<Str>) -> Seq<Seq<i8>> { Seq::new(ts.len(), |i: int| ts[i]@) }
pub proof fn strictly_distinct(ts: Seq<Str>)
    requires strictly(ts)
    ensures term_seq(ts).no_duplicates()
{
    let q = term_seq(ts);
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { strictly_lt(ts, i, j); lex_irr(ts[i]@); } else { strictly_lt(ts, j, i); lex_irr(ts[i]@); } }
}
pub open spec fn same_terms_as(a: Seq<Str>, b: Seq<Str>) -> bool { forall|s: Seq<i8>| #[trigger] listed(a, s) == listed(b, s) }
pub proof fn same_count(a: Seq<Str>, b: Seq<Str>)
    requires strictly(a), strictly(b), same_terms_as(a, b)
    ensures a.len() == b.len()
{
    let p = term_seq(a); let q = term_seq(b); strictly_distinct(a); strictly_distinct(b);
    p.unique_seq_to_set(); q.unique_seq_to_set();
    assert forall|s: Seq<i8>| p.to_set().contains(s) == q.to_set().contains(s) by {
        assert(p.contains(s) == listed(a, s)) by { if p.contains(s) { let i = p.index_of(s); assert(a[i]@ == s); } if listed(a, s) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s; assert(p[i] == s); } }
        assert(q.contains(s) == listed(b, s)) by { if q.contains(s) { let i = q.index_of(s); assert(b[i]@ == s); } if listed(b, s) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == s; assert(q[i] == s); } }
        assert(listed(a, s) == listed(b, s));
    }
    assert(p.to_set() =~= q.to_set());
}
// ---- nodes on the paths of terms
pub open spec fn on_path(m: DM, R: Addr, y: Addr, ts: Seq<Str>) -> bool { exists|u: Seq<i8>, v: Seq<i8>| #![trigger walk(m, R, u), listed(ts, u + v)] walk(m, R, u) == y && listed(ts, u + v) }
pub proof fn walk_lang(m: DM, R: Addr, k: nat, u: Seq<i8>, v: Seq<i8>)
    requires node_ok(m, R, k), walk(m, R, u) != 0, lang(m, m[walk(m, R, u)], v)
    ensures lang(m, m[R], u + v)
    decreases u.len()
{
    if u.len() == 0 { assert(u + v =~= v); } else {
        walk_first(m, R, u); let c = u[0]; let x = m[R]._edges@[c]; assert(m[R]._edges@.contains_key(c)); assert(node_ok(m, x, (k - 1) as nat));
        walk_lang(m, x, (k - 1) as nat, u.drop_first(), v); assert((u + v).drop_first() =~= u.drop_first() + v); assert((u + v)[0] == c);
    }
}
pub proof fn reach_trim(m: DM, R: Addr, k: nat, u: Seq<i8>)
    requires node_ok(m, R, k), trim(m, m[R]), walk(m, R, u) != 0
    ensures trim(m, m[walk(m, R, u)]), u.len() > 0 ==> exists|v: Seq<i8>| lang(m, m[walk(m, R, u)], v)
    decreases u.len()
{ if u.len() > 0 { walk_first(m, R, u); let x = m[R]._edges@[u[0]]; trim_below(m, m[R], u[0]); assert(node_ok(m, x, (k - 1) as nat)); if u.len() > 1 { reach_trim(m, x, (k - 1) as nat, u.drop_first()); } else { assert(u.drop_first().len() == 0); assert(walk(m, x, u.drop_first()) == x); } } }
/// every node is on the path of a term; without terms there is the root only
pub open spec fn no_waste(m: DM, R: Addr, ts: Seq<Str>) -> bool { forall|y: Addr| #[trigger] reaches(m, R, y) ==> on_path(m, R, y, ts) || ts.len() == 0 && y == R }
pub proof fn built_no_waste(m: DM, R: Addr, ts: Seq<Str>)
    requires dict_ok(m, R), forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == listed(ts, s)
    ensures no_waste(m, R, ts)
{
    assert forall|y: Addr| #[trigger] reaches(m, R, y) implies on_path(m, R, y, ts) || ts.len() == 0 && y == R by {
        let u = choose|u: Seq<i8>| #[trigger] walk(m, R, u) == y;
        if u.len() > 0 { reach_trim(m, R, KM(), u); let v = choose|v: Seq<i8>| lang(m, m[y], v); walk_lang(m, R, KM(), u, v); assert(listed(ts, u + v)); }
        else if ts.len() > 0 { let v = ts[0]@; assert(listed(ts, v)); assert(u + v =~= v); assert(listed(ts, u + v)); }
    }
}
// ---- comparing dictionaries
pub proof fn reach_node_facts(m: DM, R: Addr, a: Addr)
    requires dict_ok(m, R), reaches(m, R, a)
    ensures trim(m, m[a]), m.contains_key(a), shallow(m, a), a != 0
{ let u = choose|u: Seq<i8>| #[trigger] walk(m, R, u) == a; reach_trim(m, R, KM(), u); reach_ok(m, R, KM(), u); }
pub proof fn root_facts(m: DM, R: Addr)
    requires dict_ok(m, R)
    ensures shallow(m, R), m.contains_key(R), R != 0
{ assert(node_ok(m, R, KM())); }
pub proof fn equal_dicts(m: DM, d1: Dawg_o, d2: Dawg_o, a: Seq<Str>, b: Seq<Str>)
    requires dict_ok(m, d1._root), dict_ok(m, d2._root), strictly(a), strictly(b), d1._size == a.len(), d2._size == b.len(),
        forall|s: Seq<i8>| #[trigger] lang(m, m[d1._root], s) == listed(a, s), forall|s: Seq<i8>| #[trigger] lang(m, m[d2._root], s) == listed(b, s)
    ensures (d1._size == d2._size && same(m, m[d1._root], m[d2._root])) == same_terms_as(a, b), same_terms_as(a, b) ==> dawg_hash(m, d1) == dawg_hash(m, d2)
{
    let p = m[d1._root]; let q = m[d2._root]; same_iff_lang(m, p, q);
    if same_lang(m, p, q) { assert forall|s: Seq<i8>| #[trigger] listed(a, s) == listed(b, s) by { assert(lang(m, p, s) == lang(m, q, s)); assert(lang(m, p, s) == listed(a, s)); assert(lang(m, q, s) == listed(b, s)); } }
    if same_terms_as(a, b) {
        same_count(a, b);
        assert forall|s: Seq<i8>| #[trigger] lang(m, p, s) == lang(m, q, s) by { assert(listed(a, s) == listed(b, s)); assert(lang(m, q, s) == listed(b, s)); }
        assert(obj_ok(m, p, KM())); assert(obj_ok(m, q, KM())); same_NH(m, p, q);
    }
}
pub proof fn dict_alloc(m: DM, R: Addr)
    requires dict_ok(m, R)
    ensures forall|y: Addr| #[trigger] reaches(m, R, y) ==> m.contains_key(y)
{ assert forall|y: Addr| #[trigger] reaches(m, R, y) implies m.contains_key(y) by { let u = choose|u: Seq<i8>| #[trigger] walk(m, R, u) == y; reach_ok(m, R, KM(), u); } }
