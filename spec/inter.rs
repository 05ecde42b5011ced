// ---- intersections: the path of labels from the root
pub open spec fn is_path(m: Map<Addr, Intersection_o>, x: Addr, p: Seq<i8>) -> bool
    decreases p.len()
{
    m.contains_key(x) && x != 0 && (if p.len() == 0 { m[x]._parent == 0 } else { m[x]._parent != 0 && m[x]._label == p.last() && is_path(m, m[x]._parent, p.drop_last()) })
}
pub open spec fn has_path(m: Map<Addr, Intersection_o>, x: Addr) -> bool { exists|p: Seq<i8>| is_path(m, x, p) }
pub open spec fn path_of(m: Map<Addr, Intersection_o>, x: Addr) -> Seq<i8> { choose|p: Seq<i8>| is_path(m, x, p) }
pub proof fn path_unique(m: Map<Addr, Intersection_o>, x: Addr, p: Seq<i8>, r: Seq<i8>)
    requires is_path(m, x, p), is_path(m, x, r)
    ensures p == r
    decreases p.len()
{ if p.len() > 0 { path_unique(m, m[x]._parent, p.drop_last(), r.drop_last()); assert(p =~= p.drop_last().push(p.last())); assert(r =~= r.drop_last().push(r.last())); } else { assert(p =~= r); } }
pub broadcast proof fn path_is(m: Map<Addr, Intersection_o>, x: Addr, p: Seq<i8>)
    requires #[trigger] is_path(m, x, p)
    ensures path_of(m, x) == p, has_path(m, x)
{ path_unique(m, x, p, path_of(m, x)); }
