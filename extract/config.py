"""Static facts the translation needs: which classes are plain values, which std::function types occur."""
VALUE_CLASSES = ['SymmetricPair', 'Transition', 'StateTransition', 'UnsubsumeFn', 'LazyIterator__string', 'LazyIterator__pair']
CFG = {
    'value_classes': VALUE_CLASSES,
    'tags': {'Distance': {'StandardDistance': 0, 'TranspositionDistance': 1, 'MergeAndSplitDistance': 2},
             'Dawg': {'Dawg': 0, 'SortedDawg': 1}},
    'fn_enums': {
        'FnCompare': ['compare__STANDARD_2', 'compare__TRANSPOSITION_2', 'compare__MERGE_AND_SPLIT_2'],
        'FnPosTrans': ['position_transition__STANDARD_4', 'position_transition__TRANSPOSITION_4', 'position_transition__MERGE_AND_SPLIT_4'],
        'FnMerge': ['merge__STANDARD_2', 'merge__TRANSPOSITION_2', 'merge__MERGE_AND_SPLIT_2'],
        'FnSubsumes': ['subsumes__STANDARD_3', 'subsumes__TRANSPOSITION_3', 'subsumes__MERGE_AND_SPLIT_3'],
        'FnTransition': ['StateTransition'],
        'FnDistance': ['distance__STANDARD_2', 'distance__TRANSPOSITION_2', 'distance__MERGE_AND_SPLIT_2'],
    },
    'fn_types': {
        'State*(State*,vec_bool)': 'FnTransition', 'bool(Position*,Position*,u64)': 'FnSubsumes', 'i32(Position*,Position*)': 'FnCompare',
        'u64(State*,u64)': 'FnDistance', 'vec_pPosition(u64,Position*,vec_bool,u64)': 'FnPosTrans', 'void(State*,vec_pPosition)': 'FnMerge',
    },
    'dispatch': {
        'FnCompare__call': {'enum': 'FnCompare', 'args': ['Addr', 'Addr'], 'ret': 'i32'},
        'FnPosTrans__call': {'enum': 'FnPosTrans', 'args': ['u64', 'Addr', 'CVec<bool>', 'u64'], 'ret': 'CVec<Addr>'},
        'FnMerge__call': {'enum': 'FnMerge', 'args': ['Addr', 'CVec<Addr>'], 'ret': None},
        'FnSubsumes__call': {'enum': 'FnSubsumes', 'args': ['Addr', 'Addr', 'u64'], 'ret': 'bool'},
        'FnTransition__call': {'enum': 'FnTransition', 'args': ['Addr', 'CVec<bool>'], 'ret': 'Addr', 'objects': {'StateTransition': 'StateTransition__call_2'}},
        'FnDistance__call': {'enum': 'FnDistance', 'args': ['Addr', 'u64'], 'ret': 'u64'},
    },
    'cells': {'stack_Transition': 'TransStack', 'umap_DawgNode_pDawgNode': 'NodeMap', 'uset_pDawgNode': 'NodeSet'},
}
# classes by heap group
ROOTS = ['DawgNode', 'Prefix', 'DawgIterator', 'Dawg', 'Distance', 'Position', 'State', 'StateIterator', 'Intersection',
         'LazyQuery__string', 'LazyQuery__pair'] + ['Transducer__%s_%s' % (a, r) for a in ('STANDARD', 'TRANSPOSITION', 'MERGE_AND_SPLIT') for r in ('string', 'pair')]
CELLTYPES = {'TransStack': 'CStack<Transition_o>', 'NodeMap': 'DawgNode_map', 'NodeSet': 'CSet<Addr>'}
