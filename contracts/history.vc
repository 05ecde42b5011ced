@use session.vc iter.vc
@heap DawgNode Dawg

@client CLIENT_use
/// do anything with a dictionary, in any order, for as long as you like
pub fn CLIENT_use(hp: &mut Heap, d: Addr, term: Str, distance: u64, give_up: u64, acts: CVec<u64>, words: CVec<Str>, numbers: CVec<u64>, schedule: CVec<bool>, terms: Ghost<Seq<Str>>)
    requires
        old(hp).Dawg.contains_key(d), dict_ok(old(hp).DawgNode, old(hp).Dawg[d]._root), strictly(terms@), terms@.len() < u64::MAX, old(hp).Dawg[d]._size == terms@.len(),
        forall|s: Seq<i8>| #[trigger] lang(old(hp).DawgNode, old(hp).DawgNode[old(hp).Dawg[d]._root], s) == listed(terms@, s),
        term@.len() < 0x7fff_ffff, words@.len() == acts@.len(), numbers@.len() == acts@.len(), forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@.len() < 0x7fff_ffff,
    ensures
        *final(hp) =~= *old(hp),
{
    hide(dict_ok); hide(lang); hide(lex_lt); hide(rooted); hide(all_listed); hide(listed);
    let ghost hd = *hp; let ghost m = hd.DawgNode; let ghost R = hd.Dawg[d]._root; let ghost ts = terms@;
    proof { root_facts(m, R); root_rooted(m, R); }
    let root = Dawg__root_0(hp, d);
    let mut k: u64 = 0;
    while k < vec_size(acts)
        invariant *hp =~= hd, hd.Dawg.contains_key(d), m == hd.DawgNode, R == hd.Dawg[d]._root, root == R, rooted(m, R), shallow(m, R), dict_ok(m, R), strictly(ts), ts.len() < u64::MAX, hd.Dawg[d]._size == ts.len(), forall|s: Seq<i8>| #[trigger] lang(m, m[R], s) == listed(ts, s),
            words@.len() == acts@.len(), numbers@.len() == acts@.len(), forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@.len() < 0x7fff_ffff, term@.len() < 0x7fff_ffff,
        decreases acts@.len() - k
    {
        let act = vec_at(acts, k);
        let w = vec_at(words, k);
        let x = vec_at(numbers, k);
        proof { assert(words@[k as int]@.len() < 0x7fff_ffff); }
        if act == 0 { let z = Dawg__contains_1(hp, d, w); }
        else if act == 1 { let z = ASKS(hp, root, w, x, give_up); }
        else if act == 2 { let z = ASK(hp, root, w, x, give_up); }
        else if act == 3 { let z = walk_words(hp, d, x, Ghost(ts)); }
        else if act == 4 { let z = BOTH(hp, root, term, distance, w, x, false, schedule); }
        else if act == 5 { let z = BOTH(hp, root, w, x, w, x, true, schedule); }
        else { let z = ASK(hp, root, term, distance, x); }
        k = k + 1;
    }
}
@endclient
@clients use_STANDARD = CLIENT_use with ASK:=answers_STANDARD_pair;;ASKS:=answers_STANDARD_string;;BOTH:=interleaved_STANDARD
@clients use_TRANSPOSITION = CLIENT_use with ASK:=answers_TRANSPOSITION_pair;;ASKS:=answers_TRANSPOSITION_string;;BOTH:=interleaved_TRANSPOSITION
@clients use_MERGE_AND_SPLIT = CLIENT_use with ASK:=answers_MERGE_AND_SPLIT_pair;;ASKS:=answers_MERGE_AND_SPLIT_string;;BOTH:=interleaved_MERGE_AND_SPLIT

@client CLIENT_session
/// build a dictionary; ask, then do anything in any order for as long as you like, then ask again
pub fn CLIENT_session(hp: &mut Heap, iter: SIter<Str>, end: SIter<Str>, probe: Str, term: Str, distance: u64, give_up: u64, acts: CVec<u64>, words: CVec<Str>, numbers: CVec<u64>, schedule: CVec<bool>) -> (r: (bool, bool, bool, bool, Ghost<Seq<(Seq<i8>, int)>>, Ghost<Seq<(Seq<i8>, int)>>, Ghost<Seq<Seq<i8>>>, Ghost<Seq<Seq<i8>>>))
    requires
        iter.seq@ == end.seq@, 0 <= iter.pos@ <= end.pos@ <= iter.seq@.len(), end.pos@ - iter.pos@ < u64::MAX, forall|i: int| 0 <= i < iter.seq@.len() ==> (#[trigger] iter.seq@[i])@.len() <= KM(),
        strictly(iter.seq@.subrange(iter.pos@, end.pos@)), term@.len() < 0x7fff_ffff, words@.len() == acts@.len(), numbers@.len() == acts@.len(), forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@.len() < 0x7fff_ffff,
    ensures
        r.0 == listed(iter.seq@.subrange(iter.pos@, end.pos@), probe@), r.1 == r.0,
        r.2 && r.3 ==> same_answers(r.4@, r.5@),
        forall|s: Seq<i8>| listed(iter.seq@.subrange(iter.pos@, end.pos@), s) ==> #[trigger] r.6@.contains(s) && r.7@.contains(s), all_listed(iter.seq@.subrange(iter.pos@, end.pos@), r.6@), all_listed(iter.seq@.subrange(iter.pos@, end.pos@), r.7@),
{
    hide(dict_ok); hide(lang); hide(lex_lt); hide(rooted); hide(same_answers); hide(answers_sound); hide(answers_complete); hide(all_listed); hide(listed);
    let ghost ts = iter.seq@.subrange(iter.pos@, end.pos@);
    proof { strictly_asc(ts); }
    let d = sorted_dawg__veciter_2(hp, iter, end);
    let ghost hd = *hp; let ghost m = hd.DawgNode; let ghost R = hd.Dawg[d]._root;
    proof { root_facts(m, R); root_rooted(m, R); }
    let root = Dawg__root_0(hp, d);
    let n = Dawg__size_0(hp, d);
    let c1 = Dawg__contains_1(hp, d, probe);
    let (A, all1) = ASK(hp, root, term, distance, give_up);
    let (W, wd) = walk_words(hp, d, n + 1, Ghost(ts));
    USE(hp, d, term, distance, give_up, acts, words, numbers, schedule, Ghost(ts));
    let c2 = Dawg__contains_1(hp, d, probe);
    let (B, all2) = ASK(hp, root, term, distance, give_up);
    let (V, vd) = walk_words(hp, d, n + 1, Ghost(ts));
    proof { if all1 && all2 { answers_same(m, R, ALG, term@, distance as int, A@, B@); } }
    (c1, c2, all1, all2, A, B, W, V)
}
@endclient
@clients session_STANDARD = CLIENT_session with ASK:=answers_STANDARD_pair;;USE:=use_STANDARD;;ALG:=Alg::Std
@clients session_TRANSPOSITION = CLIENT_session with ASK:=answers_TRANSPOSITION_pair;;USE:=use_TRANSPOSITION;;ALG:=Alg::Trans
@clients session_MERGE_AND_SPLIT = CLIENT_session with ASK:=answers_MERGE_AND_SPLIT_pair;;USE:=use_MERGE_AND_SPLIT;;ALG:=Alg::Ms
