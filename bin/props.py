"""What each check verifies. tops: functions whose contracts state the property; stub: functions in the call closure that are
used through their contract only and verified by the named other check; modes: (driver mode, algorithm) of the concrete search."""
PROPS = {}
def prop(id, **k): PROPS[id] = k
DIST = ['SymmetricPair__ctor_2', 'SymmetricPair__eq_1', 'hash__SymmetricPair__call_1', 'MemoizedDistance__get_2', 'MemoizedDistance__set_2', 'MemoizedDistance__f_2', 'Distance__call_2']
BETWEEN = {'P04': 'StandardDistance__between_2', 'P05': 'TranspositionDistance__between_2', 'P06': 'MergeAndSplitDistance__between_2'}
for _a, (_p, _f) in enumerate(BETWEEN.items()):
    prop(_p, tops=DIST + [_f], stub={g: q for q, g in BETWEEN.items() if q != _p}, flags=['seq'], modes=[('D', _a)], build='dist',
         theorem='%s: ensures r == D(alg, v, w)' % _f)
prop('P07', tops=DIST + list(BETWEEN.values()), stub={}, flags=[], modes=[('T', -1)], build='tsan', theorem='lock/guard preconditions of every access to the memo table; memo_inv at every release; exact result')
STATE = ['State__ctor_1__vec_pPosition', 'State__ctor_1__ilist_pPosition', 'State__head_1', 'State__add_1', 'State__insert_after_2', 'State__remove_2', 'State__find_middle_1', 'State__merge_3', 'State__merge_sort_2', 'State__sort_1',
         'compare__STANDARD_2', 'compare__TRANSPOSITION_2', 'compare__MERGE_AND_SPLIT_2', 'merge__STANDARD_2', 'merge__TRANSPOSITION_2', 'merge__MERGE_AND_SPLIT_2',
         'distance__STANDARD_2', 'distance__TRANSPOSITION_2', 'distance__MERGE_AND_SPLIT_2']
prop('P12', tops=STATE, stub={}, modes=[('L', -1)], build='plain', theorem='merge__*: merged(...); State__sort_1: permutation and sorted; compare__*: cmp_sign; distance__*: the iteration visits every position')

ALGS = ('STANDARD', 'TRANSPOSITION', 'MERGE_AND_SPLIT')
FUNCS = ('position_transition__%s_4', 'merge__%s_2', 'compare__%s_2', 'subsumes__%s_3', 'distance__%s_2')
for _i, _p in enumerate(('P01', 'P02', 'P03')):
    _a = ALGS[_i]
    prop(_p, tops=['answers_%s_string' % _a, 'answers_%s_pair' % _a], modes=[('Q', _i)], build='plain',
         stub={f % b: q for b, q in zip(ALGS, ('P01', 'P02', 'P03')) if b != _a for f in FUNCS},
         theorem='answers_%s_string, answers_%s_pair: the answers are sound, without repetition, exact, and complete once the query ends' % (_a, _a))
KINDS = ('vector', 'list', 'set')
prop('P08', tops=['member_' + k for k in KINDS], stub={}, modes=[('B', -1)], build='plain', theorem='member_*: null exactly for sequences that are not ascending; membership answers exactly the terms')
prop('P11', tops=['compare_dictionaries', 'compare_nodes'], stub={}, modes=[('H', -1)], build='plain', theorem='compare_dictionaries, compare_nodes: equality is equality of the term sets / of the suffix sets; equal objects hash alike')
prop('P14', tops=['minimal_' + k for k in KINDS], stub={}, modes=[('M', -1)], build='plain', theorem='minimal_*: no two reachable nodes with the same suffixes; every node on the path of a term')
prop('P09', tops=['enumerate'], stub={}, modes=[('E', -1)], build='plain', theorem='enumerate: every walk from begin to end yields words of the dictionary without repetition; one that reaches end has yielded them all; size is their number')
prop('P15', tops=['session_' + a for a in ALGS], stub=dict({f % b: q for b, q in zip(ALGS, ('P01', 'P02', 'P03')) for f in FUNCS}, sorted_dawg__veciter_2='P08'),
     modes=[('R', 0), ('R', 1), ('R', 2)], build='plain', theorem='session_*: build, ask, do anything in any order, ask again: the same answers, membership and enumeration; interleaved_*: two queries whose turns are taken in any order each give all their answers; every operation restores the heap')

SIDE = [('B', -1), ('E', -1), ('M', -1), ('H', -1)]
for _p, _m in (('P08', 'B'), ('P09', 'E'), ('P11', 'H'), ('P14', 'M')): PROPS[_p]['others'] = [x for x in SIDE if x[0] != _m]
for _i, _p in enumerate(('P01', 'P02', 'P03')): PROPS[_p]['others'] = [('Q', j) for j in range(3) if j != _i] + [('L', -1)]
PROPS['P15']['others'] = [('Q', 0), ('Q', 1), ('Q', 2), ('L', -1), ('B', -1), ('E', -1)]
prop('P13', tops=['lifetime_' + k for k in KINDS] + ['abandon'], stub={}, modes=[('G', -1)], build='asan', others=[('Q', 0), ('Q', 1), ('Q', 2), ('L', -1)] + SIDE,
     theorem='lifetime_*: build (or be refused), use in any order, compare, destroy: every dereference and deallocation is of an allocated cell, and the heap is as it was; abandon: so for a dictionary destroyed while it is built')
