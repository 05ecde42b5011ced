import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
S="src/liblevenshtein/"
T=S+"transducer/"
C=S+"collection/"
D=S+"distance/"
def q(id,nm,ops,alg):
    p(id,f"{nm} queries return exactly the terms in range, with exact distances",
      f"For every dictionary, query term and maximum distance, a {nm.lower()} query yields each dictionary term whose edit distance to the query ({ops}) is at most the maximum exactly once, and yields nothing else. In the result format that carries distances, the number attached to each term is its exact edit distance to the query. This includes the empty query, the empty term, a maximum of zero, and maxima larger than any term.",
      ["inputs","histories"],"all byte-string dictionaries built from sorted distinct terms, all query terms, all maximum distances, any number of queries on one dictionary",
      "The tests draw a handful of random dictionaries of short terms and distances up to 4; a lost or duplicated candidate can need a specific overlap of characters, position in the word and remaining error budget.",
      [T+f for f in ("transducer.cpp","lazy_query.cpp","state_transition.cpp","position_transition.cpp","merge.cpp","unsubsume.cpp","state.cpp","state_iterator.cpp","comparator.cpp","distance.cpp","intersection.cpp")],
      [("position transition "+alg,T+"position_transition.cpp"),("state step",T+"state_transition.cpp"),("position merge "+alg,T+"merge.cpp"),("distance of a state "+alg,T+"distance.cpp"),("breadth-first intersection",T+"lazy_query.cpp")],
      ["list of positions of an automaton state","queue of pending intersections and edges"],["values yielded between begin and end of a query"])
q("P01","Standard","insertions, deletions and substitutions of one character","STANDARD")
q("P02","Transposition","insertions, deletions, substitutions and swaps of two adjacent characters, no character edited twice","TRANSPOSITION")
q("P03","Merge-and-split","insertions, deletions, substitutions, merges of two characters into one and splits of one character into two, no character edited twice","MERGE_AND_SPLIT")
def d(id,nm,ops,f):
    p(id,f"{nm} distance function returns the exact edit distance",
      f"For every pair of terms, the {nm.lower()} distance function returns the minimum number of elementary operations ({ops}) that turn one term into the other, independently of the order of the two arguments and of which pairs were measured before with the same object. Consequently it is zero exactly for equal terms and symmetric.",
      ["inputs","histories"],"all pairs of byte strings, after any sequence of earlier calls on the same object",
      "Tests sample random short pairs and compare a few algebraic laws; a wrong value may need a specific alignment of repeated characters or a specific earlier call that filled the cache.",
      [D+f,D+"memoized_distance.cpp",D+"symmetric_pair.cpp",D+"distance.cpp"],
      [("recursive distance",D+f),("cache lookup and store",D+"memoized_distance.cpp"),("cache key",D+"symmetric_pair.cpp")],["cache of measured pairs"],["returned distance"])
d("P04","Standard","insertion, deletion and substitution of one character","standard_distance.cpp")
d("P05","Transposition","insertion, deletion, substitution, and swap of two adjacent characters, no character edited twice","transposition_distance.cpp")
d("P06","Merge-and-split","insertion, deletion, substitution, merge of two characters into one and split of one into two, no character edited twice","merge_and_split_distance.cpp")
p("P07","One distance object can be shared by concurrent threads",
  "Any number of threads may call the same distance object at the same time: every access to the shared cache happens while holding the lock in a mode that permits it, the lock is always released, and no call waits for a lock its own thread already holds. Every call returns the exact distance whatever the other threads store in the meantime.",
  ["schedules","inputs"],"all interleavings of any number of threads calling any pairs on one object",
  "A test runs a few schedules; a missing or wrong-mode lock shows only under a particular interleaving.",
  [D+"memoized_distance.cpp",D+"memoized_distance.h",D+"standard_distance.cpp",D+"transposition_distance.cpp",D+"merge_and_split_distance.cpp"],
  [("reader/writer lock around the cache",D+"memoized_distance.cpp")],["cache of measured pairs","reader/writer lock"],["returned distance under concurrency"])
p("P08","A built dictionary contains exactly the terms it was given",
  "For every ascending sequence of terms, building a dictionary succeeds and a membership test afterwards answers true exactly for the terms of the sequence, for every string asked. A sequence that is not in ascending byte order is refused (no dictionary is returned).",
  ["inputs"],"all finite sequences of byte strings (including the empty sequence, the empty term, shared prefixes and shared suffixes), all strings asked",
  "Suffix sharing merges nodes of unrelated terms; a wrong merge corrupts only some combinations of prefixes and suffixes, which a few sampled word lists miss.",
  [C+"sorted_dawg.cpp",C+"dawg.cpp",C+"dawg_node.cpp",C+"transition.cpp"],
  [("insertion of a term",C+"sorted_dawg.cpp"),("minimisation",C+"sorted_dawg.cpp"),("membership walk",C+"dawg.cpp"),("node equality and hash",C+"dawg_node.cpp")],["nodes and edges of the word graph","stack of unchecked transitions","register of minimised nodes"],["membership answers","returned dictionary or refusal"])
p("P09","Enumerating a dictionary yields every term exactly once; size counts them",
  "For every dictionary built from ascending distinct terms, iterating from begin to end yields each of its terms exactly once and nothing else, and the reported size is the number of terms.",
  ["inputs","histories"],"all dictionaries built from ascending distinct terms, any number of iterations",
  "The enumeration relies on a count kept during construction and on a walk of a shared graph; only some shapes (empty term, prefixes of other terms, shared suffixes) expose an error.",
  [C+"dawg_iterator.cpp",C+"dawg.cpp",C+"prefix.cpp",C+"sorted_dawg.cpp"],
  [("breadth-first enumeration",C+"dawg_iterator.cpp"),("path to string",C+"prefix.cpp"),("term count",C+"sorted_dawg.cpp")],["queue of pending prefixes"],["enumerated terms","size"])
p("P10","Saving and loading a dictionary preserves it",
  "For every dictionary, writing it out and reading it back yields a dictionary with the same size that contains exactly the same terms and compares equal to the original.",
  ["inputs"],"all dictionaries built from ascending distinct terms, over all 256 byte values",
  "Serialisation walks a shared graph and re-labels nodes and labels; only some graphs or byte values (non-ASCII labels, shared nodes, final root) expose a loss.",
  [S+"serialization/serializer.cpp",S+"serialization/serializer.h","proto/liblevenshtein.proto"],
  [("graph to message",S+"serialization/serializer.cpp"),("message to graph",S+"serialization/serializer.cpp")],None,["loaded dictionary"])
p("P11","Dictionary equality means equal term sets and agrees with hashing",
  "Two dictionaries built from ascending distinct terms compare equal exactly when they hold the same terms, and two nodes compare equal exactly when the same strings lead from them to word ends. Equal nodes and equal dictionaries always produce equal hash codes.",
  ["inputs"],"all pairs of dictionaries and nodes",
  "A comparison or hash that ignores part of the graph is right on most sampled pairs; minimisation silently depends on it.",
  [C+"dawg_node.cpp",C+"dawg.cpp"],[("node equality",C+"dawg_node.cpp"),("node hash",C+"dawg_node.cpp"),("dictionary equality and hash",C+"dawg.cpp")],None,["equality and hash results"])
p("P12","Automaton state lists: merging and sorting lose and invent nothing",
  "Merging a batch of positions into an automaton state (one that is empty or was itself built by merging) keeps exactly the set of distinct positions of both, with no duplicates, and sorting a state yields a permutation of its positions in ascending order of the comparison used. The comparison is a strict total order on positions up to identical values, and iterating a state visits every position once in list order.",
  ["inputs"],"all states and batches of positions of any size, all three algorithms, all values of index, error count and special flag",
  "Linked-list surgery and merge sort go wrong at particular lengths, tie patterns or insertion points; the tests use a few short lists.",
  [T+"state.cpp",T+"state_iterator.cpp",T+"merge.cpp",T+"comparator.cpp",T+"position.cpp",T+"unsubsume.cpp"],
  [("merge sort",T+"state.cpp"),("ordered merge",T+"merge.cpp"),("comparison",T+"comparator.cpp"),("list iteration",T+"state_iterator.cpp")],["singly linked list of positions"],["order and content of a state"])
p("P13","No invalid memory access, double free or leak in queries and dictionaries",
  "Building, querying, enumerating, comparing and destroying dictionaries never dereferences null or freed memory, never frees an object twice, and releases every object it allocated by the time the owners are destroyed. This holds for completed and for abandoned queries and iterations.",
  ["inputs","histories"],"all dictionaries, queries, maximum distances and points at which a query or iteration is abandoned",
  "Ownership is manual; a dangling or doubly freed object needs a specific sequence of operations and is invisible to value assertions.",
  [T+"lazy_query.cpp",T+"intersection.cpp",T+"transducer.cpp",T+"state.cpp",T+"position.cpp",T+"state_transition.cpp",T+"merge.cpp",C+"dawg.cpp",C+"dawg_iterator.cpp",C+"sorted_dawg.cpp"],
  [("ownership of query intersections",T+"lazy_query.cpp"),("ownership of states and positions",T+"state.cpp"),("ownership of nodes",C+"sorted_dawg.cpp")],["heap objects"],["allocation and release of objects"])
p("P14","Built dictionaries are minimal",
  "In every dictionary built from ascending distinct terms, no two different nodes reachable from the root accept the same set of suffixes, and every reachable node lies on the path of some term.",
  ["inputs"],"all ascending sequences of distinct terms",
  "A dictionary that fails to share suffixes still answers every query correctly, so behavioural tests cannot see it; sharing errors depend on insertion order and hash behaviour.",
  [C+"sorted_dawg.cpp",C+"dawg_node.cpp"],[("minimisation with a register of nodes",C+"sorted_dawg.cpp")],["register of minimised nodes"],["number of reachable nodes"])
p("P15","Queries are repeatable and leave the dictionary unchanged",
  "Running, interleaving, abandoning or repeating queries and iterations never changes the dictionary: a later query with the same arguments yields the same candidates and distances, and membership and enumeration answers stay the same.",
  ["histories","inputs"],"all sequences of queries and iterations, in any interleaving, on one dictionary and one query object",
  "Tests run each query once on a fresh object; state leaking from one query into the next needs a particular history.",
  [T+"lazy_query.cpp",T+"state_transition.cpp",T+"transducer.cpp",T+"intersection.cpp",C+"dawg_iterator.cpp"],
  [("shared initial intersection",T+"transducer.cpp"),("per-query queues",T+"lazy_query.cpp")],["initial automaton state shared by all queries of an object"],["candidates of later queries"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
