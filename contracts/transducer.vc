@use query.vc
@heap Transducer__STANDARD_string Transducer__STANDARD_pair Transducer__TRANSPOSITION_string Transducer__TRANSPOSITION_pair Transducer__MERGE_AND_SPLIT_string Transducer__MERGE_AND_SPLIT_pair
@broadcast lst_is, path_is

@fn TEMPLATE_new(root) -> r
@requires
    rooted(old(hp).DawgNode, root)
@ensures
    r != 0, !old(hp).TRF.contains_key(r), init_ok(*final(hp), final(hp).TRF[r]._intersection), final(hp).Intersection[final(hp).TRF[r]._intersection]._node == root,
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, TRF: old(hp).TRF.insert(r, final(hp).TRF[r]), ..*old(hp) }),
    made(*old(hp), *final(hp), final(hp).TRF[r]._intersection)
@at entry
    let ghost h0 = *hp; let ghost mut gp: Seq<Addr> = seq![];
@at before call State__ctor_1__ilist_pPosition
    proof { gp = $1@; }
@at return
    proof { let x = hp.TRF[this_]._intersection; let st = x_st(*hp, x); assert(st_lst(*hp, st) == gp); assert(vals(hp.Position, gp) =~= seq![PV { i: 0, e: 0, s: false }]); assert(gp.to_set().contains(gp[0])); }
@end

@fn TEMPLATE_delete(this_)
@requires
    old(hp).TRF.contains_key(this_), init_ok(*old(hp), old(hp).TRF[this_]._intersection)
@ensures
    *final(hp) =~= (Heap { Position: final(hp).Position, State: final(hp).State, Intersection: final(hp).Intersection, ..*old(hp) }),
    unmade(*old(hp), *final(hp), old(hp).TRF[this_]._intersection)
@end

@fn TEMPLATE_query(this_, term, max_distance) -> r
@requires
    old(hp).TRF.contains_key(this_), term@.len() < 0x7fff_ffff
@ensures
    *final(hp) == *old(hp), r._term@ == term@, r._max_distance == max_distance, r._intersection == old(hp).TRF[this_]._intersection,
    q_cfg(term@, max_distance, r.transition, r.min_distance), q_alg(q_start(term@, max_distance, 0, r.transition, r.min_distance, 0, 0, 0)) == ALG
@end
@same Transducer__STANDARD_string__ctor_1 = TEMPLATE_new with TRF:=Transducer__STANDARD_string;;ALG:=Alg::Std
@end
@same Transducer__STANDARD_string__dtor_0 = TEMPLATE_delete with TRF:=Transducer__STANDARD_string;;ALG:=Alg::Std
@end
@same Transducer__STANDARD_string__call_2 = TEMPLATE_query with TRF:=Transducer__STANDARD_string;;ALG:=Alg::Std
@end
@same Transducer__STANDARD_pair__ctor_1 = TEMPLATE_new with TRF:=Transducer__STANDARD_pair;;ALG:=Alg::Std
@end
@same Transducer__STANDARD_pair__dtor_0 = TEMPLATE_delete with TRF:=Transducer__STANDARD_pair;;ALG:=Alg::Std
@end
@same Transducer__STANDARD_pair__call_2 = TEMPLATE_query with TRF:=Transducer__STANDARD_pair;;ALG:=Alg::Std
@end
@same Transducer__TRANSPOSITION_string__ctor_1 = TEMPLATE_new with TRF:=Transducer__TRANSPOSITION_string;;ALG:=Alg::Trans
@end
@same Transducer__TRANSPOSITION_string__dtor_0 = TEMPLATE_delete with TRF:=Transducer__TRANSPOSITION_string;;ALG:=Alg::Trans
@end
@same Transducer__TRANSPOSITION_string__call_2 = TEMPLATE_query with TRF:=Transducer__TRANSPOSITION_string;;ALG:=Alg::Trans
@end
@same Transducer__TRANSPOSITION_pair__ctor_1 = TEMPLATE_new with TRF:=Transducer__TRANSPOSITION_pair;;ALG:=Alg::Trans
@end
@same Transducer__TRANSPOSITION_pair__dtor_0 = TEMPLATE_delete with TRF:=Transducer__TRANSPOSITION_pair;;ALG:=Alg::Trans
@end
@same Transducer__TRANSPOSITION_pair__call_2 = TEMPLATE_query with TRF:=Transducer__TRANSPOSITION_pair;;ALG:=Alg::Trans
@end
@same Transducer__MERGE_AND_SPLIT_string__ctor_1 = TEMPLATE_new with TRF:=Transducer__MERGE_AND_SPLIT_string;;ALG:=Alg::Ms
@end
@same Transducer__MERGE_AND_SPLIT_string__dtor_0 = TEMPLATE_delete with TRF:=Transducer__MERGE_AND_SPLIT_string;;ALG:=Alg::Ms
@end
@same Transducer__MERGE_AND_SPLIT_string__call_2 = TEMPLATE_query with TRF:=Transducer__MERGE_AND_SPLIT_string;;ALG:=Alg::Ms
@end
@same Transducer__MERGE_AND_SPLIT_pair__ctor_1 = TEMPLATE_new with TRF:=Transducer__MERGE_AND_SPLIT_pair;;ALG:=Alg::Ms
@end
@same Transducer__MERGE_AND_SPLIT_pair__dtor_0 = TEMPLATE_delete with TRF:=Transducer__MERGE_AND_SPLIT_pair;;ALG:=Alg::Ms
@end
@same Transducer__MERGE_AND_SPLIT_pair__call_2 = TEMPLATE_query with TRF:=Transducer__MERGE_AND_SPLIT_pair;;ALG:=Alg::Ms
@end
