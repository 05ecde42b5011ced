// ---- states in the heap
pub open spec fn st_ok(hp: Heap, s: Addr) -> bool { hp.State.contains_key(s) && has_list(hp.Position, hp.State[s]._head) }
pub open spec fn st_lst(hp: Heap, s: Addr) -> Seq<Addr> { lst(hp.Position, hp.State[s]._head) }
pub open spec fn st_vals(hp: Heap, s: Addr) -> Seq<PV> { vals(hp.Position, st_lst(hp, s)) }
/// nothing but positions and state s differ
pub open spec fn only_state(h0: Heap, h1: Heap, s: Addr) -> bool {
    &&& h1 =~= (Heap { Position: h1.Position, State: h1.State, ..h0 })
    &&& h1.State =~= h0.State.insert(s, State_o { _head: h1.State[s]._head, ..h0.State[s] })
}
pub open spec fn only_pos(h0: Heap, h1: Heap) -> bool { h1 =~= (Heap { Position: h1.Position, ..h0 }) }
pub open spec fn sp_of(c: FnCompare) -> bool { !(c is compare__STANDARD_2) }
