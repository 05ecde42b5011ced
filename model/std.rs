// ---------------------------------------------------------------------------------------------
// Model of the C++ primitives and of the library types the repository uses.
// Everything marked external_body in this file is TRUSTED: it states what the C++ standard says.
// ---------------------------------------------------------------------------------------------
pub type Addr = u64;
pub type Str = Ghost<Seq<i8>>;
pub type CVec<T> = Ghost<Seq<T>>;
pub type CQueue<T> = Ghost<Seq<T>>;
pub type CStack<T> = Ghost<Seq<T>>;
pub type CMap<K, V> = Ghost<Map<K, V>>;
pub type CSet<T> = Ghost<Set<T>>;
pub type FIter<K, V> = Ghost<Option<(K, V)>>;
#[derive(Clone, Copy)]
pub struct SIter<T> { pub seq: Ghost<Seq<T>>, pub pos: Ghost<int> }

pub open spec fn P64() -> int { 0x1_0000_0000_0000_0000 }

// ---- control
#[verifier::external_body]
pub fn havoc<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
pub fn no_contract() requires false {}
pub fn call_of_empty_function() requires false {}
pub fn unlock_not_held() requires false {}

// ---- integers
pub open spec fn wrap(x: int) -> int { x % P64() }
#[verifier::external_body]
pub fn wadd_u64(a: u64, b: u64) -> (r: u64)
    ensures a + b < P64() ==> r == a + b, a + b >= P64() ==> r == a + b - P64() { unimplemented!() }
#[verifier::external_body]
pub fn wsub_u64(a: u64, b: u64) -> (r: u64)
    ensures a >= b ==> r == a - b, a < b ==> r == a - b + P64() { unimplemented!() }
#[verifier::external_body]
pub fn wmul_u64(a: u64, b: u64) -> (r: u64)
    ensures a * b < P64() ==> r == a * b, r as int == (a * b) % P64() { unimplemented!() }
#[verifier::external_body]
pub fn shl_u64(a: u64, b: i32) -> (r: u64) requires 0 <= b < 64
    ensures r == a << (b as u64), b == 1 && a + a < P64() ==> r == a + a, b == 1 && a + a >= P64() ==> r == a + a - P64() { unimplemented!() }
#[verifier::external_body]
pub fn shr_u64(a: u64, b: i32) -> (r: u64) requires 0 <= b < 64
    ensures r == a >> (b as u64), b == 1 ==> r == a / 2 { unimplemented!() }
#[verifier::external_body]
pub fn i32_to_u64(a: i32) -> (r: u64) ensures a >= 0 ==> r == a, a < 0 ==> r == a + P64() { unimplemented!() }
#[verifier::external_body]
pub fn u64_to_i32(a: u64) -> (r: i32) ensures a < 0x8000_0000 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn i64_to_u64(a: i64) -> (r: u64) ensures a >= 0 ==> r == a, a < 0 ==> r == a + P64() { unimplemented!() }
#[verifier::external_body]
pub fn u64_to_i64(a: u64) -> (r: i64) ensures a < 0x8000_0000_0000_0000 ==> r == a, a >= 0x8000_0000_0000_0000 ==> r == a - P64() { unimplemented!() }
#[verifier::external_body]
pub fn u64_to_u32(a: u64) -> (r: u32) ensures a < 0x1_0000_0000 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn u64_to_i8(a: u64) -> (r: i8) ensures a < 128 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn i32_to_i8(a: i32) -> (r: i8) ensures -128 <= a < 128 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn i8_to_u64(a: i8) -> (r: u64) ensures a >= 0 ==> r == a, a < 0 ==> r == a + P64() { unimplemented!() }
#[verifier::external_body]
pub fn u8_to_i8(a: u8) -> (r: i8) ensures a < 128 ==> r == a, a >= 128 ==> r == a - 256 { unimplemented!() }
#[verifier::external_body]
pub fn i8_to_u8(a: i8) -> (r: u8) ensures a >= 0 ==> r == a, a < 0 ==> r == a + 256 { unimplemented!() }
#[verifier::external_body]
pub fn i32_to_u32(a: i32) -> (r: u32) ensures a >= 0 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn u32_to_i32(a: u32) -> (r: i32) ensures a < 0x8000_0000 ==> r == a { unimplemented!() }
#[verifier::external_body]
pub fn wadd_u32(a: u32, b: u32) -> (r: u32) ensures a + b < 0x1_0000_0000 ==> r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn wsub_u32(a: u32, b: u32) -> (r: u32) ensures a >= b ==> r == a - b { unimplemented!() }
pub fn b2u64(b: bool) -> (r: u64) ensures r == (if b { 1u64 } else { 0u64 }) { if b { 1 } else { 0 } }
pub fn b2i32(b: bool) -> (r: i32) ensures r == (if b { 1i32 } else { 0i32 }) { if b { 1 } else { 0 } }
pub fn b2u32(b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 }) { if b { 1 } else { 0 } }
pub fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } }
pub fn max_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } }
pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }

/// the value of a scalar that was never initialised: unknown
#[verifier::external_body]
pub fn uninit<T>() -> (r: T) { unimplemented!() }

// ---- std::string  (a sequence of char; no string is longer than the address space)
/// std::char_traits<char> orders characters as unsigned bytes
pub open spec fn uch(c: i8) -> int { if c >= 0 { c as int } else { c as int + 256 } }
pub open spec fn lex_lt(u: Seq<i8>, v: Seq<i8>) -> bool
    decreases u.len()
{
    if v.len() == 0 { false }
    else if u.len() == 0 { true }
    else if u[0] != v[0] { uch(u[0]) < uch(v[0]) }
    else { lex_lt(u.drop_first(), v.drop_first()) }
}
#[verifier::external_body]
pub fn str_new() -> (r: Str) ensures r@ == Seq::<i8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn str_size(s: Str) -> (r: u64) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_is_empty(s: Str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn str_substr(s: Str, pos: u64) -> (r: Str)
    requires pos <= s@.len() ensures r@ == s@.subrange(pos as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_substr2(s: Str, pos: u64, n: u64) -> (r: Str)
    requires pos <= s@.len()
    ensures pos + n <= s@.len() ==> r@ == s@.subrange(pos as int, pos + n), pos + n > s@.len() ==> r@ == s@.subrange(pos as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_at(s: Str, i: u64) -> (r: i8)
    requires i <= s@.len() ensures i < s@.len() ==> r == s@[i as int], i == s@.len() ==> r == 0 { unimplemented!() }
#[verifier::external_body]
pub fn str_at_checked(s: Str, i: u64) -> (r: i8) requires i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn str_front(s: Str) -> (r: i8) requires s@.len() > 0 ensures r == s@[0] { unimplemented!() }
#[verifier::external_body]
pub fn str_back(s: Str) -> (r: i8) requires s@.len() > 0 ensures r == s@.last() { unimplemented!() }
#[verifier::external_body]
pub fn str_compare(u: Str, v: Str) -> (r: i32)
    ensures (r < 0) == lex_lt(u@, v@), (r == 0) == (u@ == v@) { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(u: Str, v: Str) -> (r: bool) ensures r == (u@ == v@) { unimplemented!() }
#[verifier::external_body]
pub fn str_lt(u: Str, v: Str) -> (r: bool) ensures r == lex_lt(u@, v@) { unimplemented!() }
#[verifier::external_body]
pub fn str_gt(u: Str, v: Str) -> (r: bool) ensures r == lex_lt(v@, u@) { unimplemented!() }
#[verifier::external_body]
pub fn str_pushed(s: Str, c: i8) -> (r: Str) ensures r@ == s@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn str_concat(s: Str, t: Str) -> (r: Str) ensures r@ == s@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn str_push(s: &mut Str, c: i8) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn str_append(s: &mut Str, t: Str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn str_clear(s: &mut Str) ensures final(s)@ == Seq::<i8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn str_pop(s: &mut Str) requires old(s)@.len() > 0 ensures final(s)@ == old(s)@.drop_last() { unimplemented!() }
#[verifier::external_body]
pub fn str_set(s: &mut Str, i: u64, c: i8) requires i < old(s)@.len() ensures final(s)@ == old(s)@.update(i as int, c) { unimplemented!() }

// ---- std::vector, std::array, std::initializer_list
#[verifier::external_body]
pub fn vec_new<T>() -> (r: CVec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vec_size<T>(v: CVec<T>) -> (r: u64) ensures r == v@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vec_is_empty<T>(v: CVec<T>) -> (r: bool) ensures r == (v@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn vec_at<T>(v: CVec<T>, i: u64) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vec_set<T>(v: &mut CVec<T>, i: u64, x: T) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
#[verifier::external_body]
pub fn vec_push<T>(v: &mut CVec<T>, x: T) ensures final(v)@ == old(v)@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn vec_pop<T>(v: &mut CVec<T>) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.drop_last() { unimplemented!() }
#[verifier::external_body]
pub fn vec_clear<T>(v: &mut CVec<T>) ensures final(v)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vec_pushed<T>(v: CVec<T>, x: T) -> (r: CVec<T>) ensures r@ == v@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn vec_filled<T>(n: u64, x: T) -> (r: CVec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vec_front<T>(v: CVec<T>) -> (r: T) requires v@.len() > 0 ensures r == v@[0] { unimplemented!() }
#[verifier::external_body]
pub fn vec_back<T>(v: CVec<T>) -> (r: T) requires v@.len() > 0 ensures r == v@.last() { unimplemented!() }
#[verifier::external_body]
pub fn vec_of1<T>(a: T) -> (r: CVec<T>) ensures r@ == seq![a] { unimplemented!() }
#[verifier::external_body]
pub fn vec_of2<T>(a: T, b: T) -> (r: CVec<T>) ensures r@ == seq![a, b] { unimplemented!() }
#[verifier::external_body]
pub fn vec_of3<T>(a: T, b: T, c: T) -> (r: CVec<T>) ensures r@ == seq![a, b, c] { unimplemented!() }
#[verifier::external_body]
pub fn vec_of4<T>(a: T, b: T, c: T, d: T) -> (r: CVec<T>) ensures r@ == seq![a, b, c, d] { unimplemented!() }
#[verifier::external_body]
pub fn vec_of5<T>(a: T, b: T, c: T, d: T, e: T) -> (r: CVec<T>) ensures r@ == seq![a, b, c, d, e] { unimplemented!() }
#[verifier::external_body]
pub fn vec_of6<T>(a: T, b: T, c: T, d: T, e: T, f: T) -> (r: CVec<T>) ensures r@ == seq![a, b, c, d, e, f] { unimplemented!() }

// ---- std::queue, std::stack
#[verifier::external_body]
pub fn queue_new<T>() -> (r: CQueue<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn queue_size<T>(v: CQueue<T>) -> (r: u64) ensures r == v@.len() { unimplemented!() }
#[verifier::external_body]
pub fn queue_is_empty<T>(v: CQueue<T>) -> (r: bool) ensures r == (v@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn queue_front<T>(v: CQueue<T>) -> (r: T) requires v@.len() > 0 ensures r == v@[0] { unimplemented!() }
#[verifier::external_body]
pub fn queue_push<T>(v: &mut CQueue<T>, x: T) ensures final(v)@ == old(v)@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn queue_pop<T>(v: &mut CQueue<T>) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.drop_first() { unimplemented!() }
#[verifier::external_body]
pub fn stack_new<T>() -> (r: CStack<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn stack_size<T>(v: CStack<T>) -> (r: u64) ensures r == v@.len() { unimplemented!() }
#[verifier::external_body]
pub fn stack_is_empty<T>(v: CStack<T>) -> (r: bool) ensures r == (v@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn stack_top<T>(v: CStack<T>) -> (r: T) requires v@.len() > 0 ensures r == v@.last() { unimplemented!() }
#[verifier::external_body]
pub fn stack_push<T>(v: &mut CStack<T>, x: T) ensures final(v)@ == old(v)@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn stack_pop<T>(v: &mut CStack<T>) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.drop_last() { unimplemented!() }

// ---- std::map, std::unordered_map (finite maps; key equality is the key type's operator==, see DESIGN.md)
#[verifier::external_body]
pub fn map_new<K, V>() -> (r: CMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
/// the order in which an iteration visits the entries of this map: every key exactly once
pub uninterp spec fn map_order<K, V>(m: Map<K, V>) -> Seq<K>;
#[verifier::external_body]
pub proof fn axiom_map_order<K, V>(m: Map<K, V>)
    ensures map_order(m).no_duplicates(), map_order(m).to_set() == m.dom(), map_order(m).len() == m.dom().len(),
        forall|i: int| 0 <= i < map_order(m).len() ==> m.contains_key(#[trigger] map_order(m)[i]),
        forall|k: K| #[trigger] m.contains_key(k) ==> map_order(m).contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_size<K, V>(m: CMap<K, V>) -> (r: u64) ensures r == map_order(m@).len(), r == m@.dom().len() { unimplemented!() }
#[verifier::external_body]
pub fn map_is_empty<K, V>(m: CMap<K, V>) -> (r: bool) ensures r == (m@.dom().len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn map_elem_at<K, V>(m: CMap<K, V>, i: u64) -> (r: (K, V))
    requires i < map_order(m@).len()
    ensures r == (map_order(m@)[i as int], m@[map_order(m@)[i as int]]), m@.contains_key(r.0) { unimplemented!() }
/// an unordered map is iterated in an unspecified order
pub uninterp spec fn umap_order<K, V>(m: Map<K, V>) -> Seq<K>;
#[verifier::external_body]
pub proof fn axiom_umap_order<K, V>(m: Map<K, V>)
    ensures umap_order(m).no_duplicates(), umap_order(m).to_set() == m.dom(), umap_order(m).len() == m.dom().len(),
        forall|i: int| 0 <= i < umap_order(m).len() ==> m.contains_key(#[trigger] umap_order(m)[i]),
        forall|k: K| #[trigger] m.contains_key(k) ==> umap_order(m).contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn umap_size<K, V>(m: CMap<K, V>) -> (r: u64) ensures r == umap_order(m@).len(), r == m@.dom().len() { unimplemented!() }
#[verifier::external_body]
pub fn umap_elem_at<K, V>(m: CMap<K, V>, i: u64) -> (r: (K, V))
    requires i < umap_order(m@).len()
    ensures r == (umap_order(m@)[i as int], m@[umap_order(m@)[i as int]]), m@.contains_key(r.0) { unimplemented!() }
/// the order in which an ordered map is iterated depends on its keys alone
#[verifier::external_body]
pub proof fn axiom_map_order_keys<K, V>(a: Map<K, V>, b: Map<K, V>)
    requires a.dom() == b.dom() ensures map_order(a) == map_order(b) { unimplemented!() }
#[verifier::external_body]
pub fn map_find<K, V>(m: CMap<K, V>, k: K) -> (r: FIter<K, V>)
    ensures r@ == (if m@.contains_key(k) { Some((k, m@[k])) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn map_end<K, V>(m: CMap<K, V>) -> (r: FIter<K, V>) ensures r@ == Option::<(K, V)>::None { unimplemented!() }
#[verifier::external_body]
pub fn map_contains<K, V>(m: CMap<K, V>, k: K) -> (r: bool) ensures r == m@.contains_key(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_count<K, V>(m: CMap<K, V>, k: K) -> (r: u64) ensures r == (if m@.contains_key(k) { 1u64 } else { 0u64 }) { unimplemented!() }
#[verifier::external_body]
pub fn map_at<K, V>(m: CMap<K, V>, k: K) -> (r: V) requires m@.contains_key(k) ensures r == m@[k] { unimplemented!() }
#[verifier::external_body]
pub fn map_put<K, V>(m: &mut CMap<K, V>, k: K, v: V) ensures final(m)@ == old(m)@.insert(k, v) { unimplemented!() }
#[verifier::external_body]
pub fn map_index<K, V>(m: &mut CMap<K, V>, k: K, dflt: V) -> (r: V)
    ensures old(m)@.contains_key(k) ==> final(m)@ == old(m)@ && r == old(m)@[k],
        !old(m)@.contains_key(k) ==> final(m)@ == old(m)@.insert(k, dflt) && r == dflt { unimplemented!() }
#[verifier::external_body]
pub fn map_erase<K, V>(m: &mut CMap<K, V>, k: K) ensures final(m)@ == old(m)@.remove(k) { unimplemented!() }
#[verifier::external_body]
pub fn map_emplace<K, V>(m: &mut CMap<K, V>, k: K, v: V)
    ensures final(m)@ == (if old(m)@.contains_key(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
#[verifier::external_body]
pub fn map_insert<K, V>(m: &mut CMap<K, V>, kv: (K, V))
    ensures final(m)@ == (if old(m)@.contains_key(kv.0) { old(m)@ } else { old(m)@.insert(kv.0, kv.1) }) { unimplemented!() }
#[verifier::external_body]
pub fn map_clear<K, V>(m: &mut CMap<K, V>) ensures final(m)@ == Map::<K, V>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fiter_is_end<K, V>(it: FIter<K, V>, e: FIter<K, V>) -> (r: bool) requires e@ is None ensures r == (it@ is None) { unimplemented!() }
#[verifier::external_body]
pub fn fiter_key<K, V>(it: FIter<K, V>) -> (r: K) requires it@ is Some ensures r == (it@->0).0 { unimplemented!() }
#[verifier::external_body]
pub fn fiter_val<K, V>(it: FIter<K, V>) -> (r: V) requires it@ is Some ensures r == (it@->0).1 { unimplemented!() }
#[verifier::external_body]
pub fn fiter_pair<K, V>(it: FIter<K, V>) -> (r: (K, V)) requires it@ is Some ensures r == it@->0 { unimplemented!() }

// ---- std::set, std::unordered_set
#[verifier::external_body]
pub fn set_new<T>() -> (r: CSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
pub uninterp spec fn set_order<T>(s: Set<T>) -> Seq<T>;
#[verifier::external_body]
pub proof fn axiom_set_order<T>(s: Set<T>)
    ensures set_order(s).no_duplicates(), set_order(s).to_set() == s, set_order(s).len() == s.len(),
        forall|i: int| 0 <= i < set_order(s).len() ==> s.contains(#[trigger] set_order(s)[i]),
        forall|k: T| #[trigger] s.contains(k) ==> set_order(s).contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_size<T>(s: CSet<T>) -> (r: u64) ensures r == set_order(s@).len(), r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn set_is_empty<T>(s: CSet<T>) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn set_elem_at<T>(s: CSet<T>, i: u64) -> (r: T)
    requires i < set_order(s@).len() ensures r == set_order(s@)[i as int], s@.contains(r) { unimplemented!() }
#[verifier::external_body]
pub fn set_contains<T>(s: CSet<T>, k: T) -> (r: bool) ensures r == s@.contains(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_count<T>(s: CSet<T>, k: T) -> (r: u64) ensures r == (if s@.contains(k) { 1u64 } else { 0u64 }) { unimplemented!() }
#[verifier::external_body]
pub fn set_insert<T>(s: &mut CSet<T>, k: T) ensures final(s)@ == old(s)@.insert(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_erase<T>(s: &mut CSet<T>, k: T) ensures final(s)@ == old(s)@.remove(k) { unimplemented!() }
#[verifier::external_body]
pub fn set_clear<T>(s: &mut CSet<T>) ensures final(s)@ == Set::<T>::empty() { unimplemented!() }

/// a range-based for statement: the container is the same after each step of the body
pub fn range_same<X>(a: Ghost<X>, b: Ghost<X>) requires a@ == b@ {}

// ---- sequence iterators (one underlying sequence per pair of iterators)
#[verifier::external_body]
pub fn siter_eq<T>(a: SIter<T>, b: SIter<T>) -> (r: bool) requires a.seq@ == b.seq@ ensures r == (a.pos@ == b.pos@) { unimplemented!() }
#[verifier::external_body]
pub fn siter_get<T>(a: SIter<T>) -> (r: T) requires 0 <= a.pos@ < a.seq@.len() ensures r == a.seq@[a.pos@] { unimplemented!() }
#[verifier::external_body]
pub fn siter_inc<T>(a: &mut SIter<T>) requires 0 <= old(a).pos@ < old(a).seq@.len()
    ensures final(a).seq@ == old(a).seq@, final(a).pos@ == old(a).pos@ + 1 { unimplemented!() }
#[verifier::external_body]
pub fn pair_eq<A, B>(a: (A, B), b: (A, B)) -> (r: bool) ensures r == (a == b) { unimplemented!() }

// ---- MurmurHash64A (external library): a function of the bytes hashed, the length and the seed
pub uninterp spec fn murmur_bytes(b: Seq<i8>, n: int, seed: u64) -> u64;
pub uninterp spec fn murmur_words(b: Seq<u64>, n: int, seed: u64) -> u64;
#[verifier::external_body]
pub fn murmur_vec(b: CVec<u64>, n: i32, seed: u64) -> (r: u64)
    requires 0 <= n <= 8 * b@.len() ensures r == murmur_words(b@, n as int, seed) { unimplemented!() }
#[verifier::external_body]
pub fn murmur_str(s: Str, n: i32, seed: u64) -> (r: u64) ensures r == murmur_bytes(s@, n as int, seed) { unimplemented!() }
