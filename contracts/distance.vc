@use edit.rs
@heap Distance
@raw
// ---- what the memo table of a distance object means
pub open spec fn alg_of(tag: u64) -> Alg { if tag == 0 { Alg::Std } else if tag == 1 { Alg::Trans } else { Alg::Ms } }
pub open spec fn memo_inv(tag: u64, memo: Map<SymmetricPair_o, u64>) -> bool {
    forall|k: SymmetricPair_o| #[trigger] memo.contains_key(k) ==> memo[k] == D(alg_of(tag), k.first@, k.second@)
}
@if seq
// sequential reading (P04-P06): the memo table is right whenever no call is running, locks do nothing
pub open spec fn dist_idle(hp: Heap, a: Addr) -> bool { hp.Distance.contains_key(a) && memo_inv(hp.Distance[a].cls_tag, hp.Distance[a].memo@) }
pub open spec fn dist_frame(h0: Heap, h1: Heap, a: Addr) -> bool { dist_only(h0, h1, a) && memo_inv(h1.Distance[a].cls_tag, h1.Distance[a].memo@) }
@else
// concurrent reading (P07)
/// a distance object that this thread holds no lock on
pub open spec fn dist_idle(hp: Heap, a: Addr) -> bool { hp.Distance.contains_key(a) && hp.Distance[a].mutex == 0 }
/// nothing but the memo table of object a may differ
pub open spec fn dist_frame(h0: Heap, h1: Heap, a: Addr) -> bool {
    &&& h1 == (Heap { Distance: h1.Distance, ..h0 })
    &&& h1.Distance.dom() =~= h0.Distance.dom()
    &&& forall|b: Addr| b != a && #[trigger] h1.Distance.contains_key(b) ==> h1.Distance[b] == h0.Distance[b]
    &&& h1.Distance[a].mutex == h0.Distance[a].mutex
    &&& h1.Distance[a].cls_tag == h0.Distance[a].cls_tag
}
@endif
pub open spec fn is_key(k: SymmetricPair_o, v: Seq<i8>, w: Seq<i8>) -> bool {
    (k.first@ == v && k.second@ == w) || (k.first@ == w && k.second@ == v)
}
pub open spec fn dist_only(h0: Heap, h1: Heap, a: Addr) -> bool {
    &&& h1 == (Heap { Distance: h1.Distance, ..h0 })
    &&& h1.Distance.dom() =~= h0.Distance.dom()
    &&& forall|b: Addr| b != a && #[trigger] h1.Distance.contains_key(b) ==> h1.Distance[b] == h0.Distance[b]
    &&& h1.Distance[a].cls_tag == h0.Distance[a].cls_tag
}
@if seq
#[verifier::external_body]
pub fn Distance_mutex_lock_shared(hp: &mut Heap, a: Addr) ensures *final(hp) == *old(hp) { unimplemented!() }
#[verifier::external_body]
pub fn Distance_mutex_lock_excl(hp: &mut Heap, a: Addr) ensures *final(hp) == *old(hp) { unimplemented!() }
#[verifier::external_body]
pub fn Distance_mutex_unlock_shared(hp: &mut Heap, a: Addr) ensures *final(hp) == *old(hp) { unimplemented!() }
#[verifier::external_body]
pub fn Distance_mutex_unlock_excl(hp: &mut Heap, a: Addr) ensures *final(hp) == *old(hp) { unimplemented!() }
@else
// Lock model. Field mutex is what THIS thread holds: 0 nothing, 1 shared, 2 exclusive. Acquiring the lock reveals a memo table
// that other threads may have changed arbitrarily, as long as every release re-established memo_inv; reading the table requires
// the lock, writing requires it exclusively (see the generated accessors of the guarded fields), releasing requires memo_inv.
#[verifier::external_body]
pub fn Distance_mutex_lock_shared(hp: &mut Heap, a: Addr)
    requires old(hp).Distance.contains_key(a), old(hp).Distance[a].mutex == 0
    ensures dist_only(*old(hp), *final(hp), a), final(hp).Distance[a].mutex == 1, memo_inv(final(hp).Distance[a].cls_tag, final(hp).Distance[a].memo@)
{ unimplemented!() }
#[verifier::external_body]
pub fn Distance_mutex_lock_excl(hp: &mut Heap, a: Addr)
    requires old(hp).Distance.contains_key(a), old(hp).Distance[a].mutex == 0
    ensures dist_only(*old(hp), *final(hp), a), final(hp).Distance[a].mutex == 2, memo_inv(final(hp).Distance[a].cls_tag, final(hp).Distance[a].memo@)
{ unimplemented!() }
#[verifier::external_body]
pub fn Distance_mutex_unlock_shared(hp: &mut Heap, a: Addr)
    requires old(hp).Distance.contains_key(a), old(hp).Distance[a].mutex == 1
    ensures dist_only(*old(hp), *final(hp), a), final(hp).Distance[a].mutex == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn Distance_mutex_unlock_excl(hp: &mut Heap, a: Addr)
    requires old(hp).Distance.contains_key(a), old(hp).Distance[a].mutex == 2, memo_inv(old(hp).Distance[a].cls_tag, old(hp).Distance[a].memo@)
    ensures dist_only(*old(hp), *final(hp), a), final(hp).Distance[a].mutex == 0
{ unimplemented!() }
@endif
/// bound on the length of terms (memory): keeps size_t arithmetic exact
pub open spec fn MAXLEN() -> int { 0x2000_0000_0000_0000 }
@endraw

@fn SymmetricPair__ctor_2(u, v) -> r
@ensures
    is_key(r, u@, v@),
    lex_lt(u@, v@) ==> r.first@ == u@ && r.second@ == v@,
    !lex_lt(u@, v@) ==> r.first@ == v@ && r.second@ == u@,
    *final(hp) == *old(hp)
@end

@fn SymmetricPair__eq_1(this_, other) -> r
@ensures
    r == (this_ == other),
    *final(hp) == *old(hp)
@end

@fn hash__SymmetricPair__call_1(pair) -> r
@ensures
    exists|n1: int, n2: int| r == #[trigger] murmur_bytes(pair.second@, n2, murmur_bytes(pair.first@, n1, 0xDEADBEEFu64)),
    *final(hp) == *old(hp)
@end

@fn MemoizedDistance__get_2(this_, key, distance) -> r
@requires
    dist_idle(*old(hp), this_)
@ensures
    dist_frame(*old(hp), *final(hp), this_),
    r ==> *final(distance) == D(alg_of(old(hp).Distance[this_].cls_tag), key.first@, key.second@)
@end

@fn MemoizedDistance__set_2(this_, key, distance) -> r
@requires
    dist_idle(*old(hp), this_),
    distance == D(alg_of(old(hp).Distance[this_].cls_tag), key.first@, key.second@)
@ensures
    r == distance,
    dist_frame(*old(hp), *final(hp), this_)
@end

@fn MemoizedDistance__f_2(u, t) -> r
@ensures
    t < u@.len() ==> r@ == u@.subrange(1 + t, u@.len() as int),
    t >= u@.len() ==> r@ == Seq::<i8>::empty(),
    *final(hp) == *old(hp)
@end

@fn TEMPLATE_between(this_, v, w) -> r
@requires
    dist_idle(*old(hp), this_), old(hp).Distance[this_].cls_tag == TAG,
    v@.len() < MAXLEN(), w@.len() < MAXLEN()
@ensures
    r == D(ALG, v@, w@),
    dist_frame(*old(hp), *final(hp), this_)
@decreases v@.len() + w@.len()
@at entry
    let ghost v0 = v@; let ghost w0 = w@;
    proof { D_sym(ALG, v0, w0); D_nonneg(ALG, v0, w0); D_upper(ALG, v0, w0); }
@loop 0
    invariant
        is_key(key, v0, w0), D(ALG, v0, w0) == D(ALG, w0, v0),
        v@.len() >= 1, w@.len() >= 1, v@.len() <= v0.len(), w@.len() <= w0.len(),
        a == v@[0], b == w@[0], s@ =~= v@.drop_first(), t@ =~= w@.drop_first(),
        D(ALG, v@, w@) == D(ALG, v0, w0),
        dist_frame(*old(hp), *hp, this_), dist_idle(*hp, this_),
    decreases v@.len()
@at loop 0 begin
    proof { D_cancel(ALG, v@, w@); }
@at loop 0 after
    proof {
        assert(s@ =~= v@.drop_first()); assert(t@ =~= w@.drop_first());
        if v@[0] == w@[0] { D_cancel(ALG, v@, w@); }
        D_nonneg(ALG, s@, w@); D_nonneg(ALG, v@, t@); D_nonneg(ALG, s@, t@);
        D_upper(ALG, s@, w@); D_upper(ALG, v@, t@); D_upper(ALG, s@, t@);
        EXTRA
    }
@end
@same StandardDistance__between_2 = TEMPLATE_between with EXTRA:= ;; TAG:=0 ;; ALG:=Alg::Std
@end
@same TranspositionDistance__between_2 = TEMPLATE_between with EXTRA:=if x@.len() >= 1 && y@.len() >= 1 { let x2 = x@.drop_first(); let y2 = y@.drop_first(); assert(x2 =~= v@.subrange(2, v@.len() as int)) ; assert(y2 =~= w@.subrange(2, w@.len() as int)); D_nonneg(ALG, x2, y2); D_upper(ALG, x2, y2); } ;; TAG:=1 ;; ALG:=Alg::Trans ;; s:=x ;; t:=y
@end
@same MergeAndSplitDistance__between_2 = TEMPLATE_between with EXTRA:=if y@.len() >= 1 { let y2 = y@.drop_first(); assert(y2 =~= w@.subrange(2, w@.len() as int)); D_nonneg(ALG, x@, y2); D_upper(ALG, x@, y2); } if x@.len() >= 1 { let x2 = x@.drop_first(); assert(x2 =~= v@.subrange(2, v@.len() as int)) ; D_nonneg(ALG, x2, y@); D_upper(ALG, x2, y@); } ;; TAG:=2 ;; ALG:=Alg::Ms ;; s:=x ;; t:=y
@end
@fn Distance__call_2(this_, v, w) -> r
@requires
    dist_idle(*old(hp), this_), old(hp).Distance[this_].cls_tag <= 2,
    v@.len() < MAXLEN(), w@.len() < MAXLEN()
@ensures
    r == D(alg_of(old(hp).Distance[this_].cls_tag), v@, w@),
    dist_frame(*old(hp), *final(hp), this_)
@end
