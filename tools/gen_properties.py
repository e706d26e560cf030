#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the file stays valid JSON lines."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

BV, MASK = "src/bit_vec/mod.rs", "src/bit_vec/mask.rs"
RS, RSI, RSS, RSB = ("src/bit_vec/fast_rs_vec/mod.rs", "src/bit_vec/fast_rs_vec/iter.rs",
                     "src/bit_vec/fast_rs_vec/select.rs", "src/bit_vec/fast_rs_vec/bitset.rs")
SP, EF, EFI, GI = ("src/bit_vec/sparse.rs", "src/elias_fano/mod.rs", "src/util/elias_fano_iter.rs",
                   "src/util/general_iter.rs")
BR, FR, WM = "src/rmq/binary_rmq/mod.rs", "src/rmq/fast_rmq/mod.rs", "src/wavelet/mod.rs"
BP, BPB, BPL, BPQ, MMT, TR = ("src/trees/bp/mod.rs", "src/trees/bp/builder.rs", "src/trees/bp/lookup.rs",
                         "src/trees/bp/lookup_query.rs", "src/trees/mmt.rs", "src/trees/mod.rs")
PD, UN = "src/util/pdep.rs", "src/util/unroll.rs"

p("C01", "A bit vector behaves as a growable list of bits under every edit history",
  "After any sequence of appends (single bits, words, up to 64 bits at once, other bit vectors), bit sets and flips, "
  "truncations, splits and in-place masks, a bit vector has exactly the length and the bits that the same edits give on a "
  "plain list of booleans. Edits that fail (out-of-range set, too late split) report an error and leave the content as it was. "
  "Bits that were cut off earlier never reappear in a later append, read, count, comparison or iteration.",
  ["histories", "inputs"], "every finite sequence of editing operations, from every starting vector",
  "the tests replay a few fixed histories; stale bits beyond the end of the vector only matter for particular "
  "operation orders and lengths relative to the 64 bit word",
  [BV], [("append*/drop_last/split_at/extend_bitvec/set/flip_bit", BV), ("masking of the last limb in reads", BV)],
  ["BitVec::get", "BitVec::len", "BitVec::count_ones", "BitVec::iter", "BitVec::get_bits"],
  [("limbs + length", "limbs may hold stale bits past the length", BV)])

p("C02", "Building a bit vector and reading it back preserves every bit and packed value",
  "Every way to build a bit vector (bits, booleans, words, packed values of any width up to 64, iterators, zeros, ones) yields "
  "exactly the bits its documentation describes, in order, least significant bit first. Reading any bit, any window of up to "
  "64 bits, any packed element, the counts of ones and zeros, the words or the iterator gives those bits back, and packing "
  "followed by unpacking with the same width returns every value truncated (or zero-extended) to that width.",
  ["inputs"], "every input sequence, element width, position and window length",
  "the tests read a few vectors at a few positions; window reads straddle word boundaries in 64x64 alignments",
  [BV], [("constructors, pack_bits, pack_from_iter", BV), ("get_bits / unpack_element", BV)],
  ["BitVec::get_bits", "BitVec::unpack_element", "BitVec::iter_limbs", "BitVec::count_ones", "BitVec::count_zeros"])

p("C03", "Equality and hash of bit vectors depend on length and content only",
  "Two bit vectors compare equal exactly if they have the same length and the same bits, whatever history produced them, and "
  "equality is symmetric. Equal bit vectors have equal hashes, so they are interchangeable as keys.",
  ["histories", "inputs"], "every pair of bit vectors, produced by every history of edits",
  "tests compare a handful of pairs; the answer must not depend on stale bits in the last word nor skip any word",
  [BV], [("PartialEq / Hash ignore bits past the end", BV)], ["==", "Hash"])

p("C04", "Masked bit vectors equal bitwise combination, lazily and in place",
  "Combining two equally long bit vectors with and, or, xor or a custom bitwise function gives, at every position, the function "
  "of the two bits; the lazy view (bit reads, window reads, counts, materialisation) and the in-place variant agree with it and "
  "with each other. Vectors of different length are rejected with an error and nothing is modified.",
  ["inputs", "histories"], "every pair of vectors, bitwise function, position and window length",
  "tests use few short vectors; alignment of windows, vector ends inside a word and stale bits matter",
  [MASK, BV], [("MaskedBitVec reads", MASK), ("apply_mask_*", BV)],
  ["mask_and/or/xor/custom", "apply_mask_*", "MaskedBitVec::get_bits", "MaskedBitVec::to_bit_vec"])

p("C05", "Rank on succinct bit vectors counts exactly; access and conversion are lossless",
  "For every bit vector turned into a rank/select vector, the number of ones (zeros) reported for a position equals the count "
  "of ones (zeros) strictly before it, positions past the end count the whole vector, and bit and window reads return the "
  "original bits. Converting back returns a bit vector equal to the original.",
  ["inputs"], "every bit vector of every length and density, every position",
  "tests cover random vectors of few lengths; block and super-block boundaries, partial last words and extreme densities are "
  "input dependent",
  [RS, BV], [("from_bit_vec (block / super-block counts)", RS), ("rank()", RS), ("into_bit_vec", RS)],
  ["RsVec::rank0", "RsVec::rank1", "RsVec::get", "RsVec::get_bits", "RsVec::into_bit_vec"],
  [("blocks, super_blocks", "cumulative zero counts", RS)])

p("C06", "Select finds exactly the k-th one or zero; select and rank are inverse",
  "For every bit vector and every k smaller than the number of ones (zeros), select returns the position of the k-th (counted "
  "from zero) one (zero); for every larger k it returns the length of the vector. Consequently rank of the selected position is "
  "k and the selected bit has the requested value, for every distribution of ones and zeros.",
  ["inputs"], "every bit vector (all densities, clusters and gaps relative to the index blocks) and every rank",
  "tests sample a few random densities; the sparse/dense search paths and the last block are reached only by particular "
  "distributions",
  [RSS, RS, PD, UN], [("select0/select1, search_super_block*, search_block*", RSS), ("select_blocks hints", RS),
                      ("pdep based in-word select", PD)],
  ["RsVec::select0", "RsVec::select1"], [("select_blocks", "index hints per 8192 zeros / ones", RS)])

p("C07", "Iterators over ones or zeros yield each matching position once, in order",
  "The iterators over the one (zero) positions of a rank/select vector, borrowed, owned and vectorised, yield exactly the "
  "positions of the ones (zeros) in increasing order. Any interleaving of steps from the front, from the back, skips from "
  "either end and remaining-length queries observes the same sequence a double-ended list iterator would, and an exhausted "
  "iterator stays exhausted.",
  ["inputs", "histories"], "every bit vector and every interleaving of front/back/skip/len calls",
  "tests iterate front to back and back to front on few vectors; cached block positions make the result depend on the call history",
  [RSI, RSB], [("SelectIter / SelectIntoIter caches", RSI), ("BitSetIter chunks", RSB)],
  ["RsVec::iter0/iter1", "into_iter0/into_iter1", "select_iter", "bit_set_iter0/1"],
  [("last_super_block, last_block caches (and back variants)", "where the previous item was found", RSI)])

p("C08", "Rank/select vectors compare equal exactly when they hold the same bits",
  "All comparison methods of rank/select vectors (the operator and the explicit full and sparse comparisons over ones or zeros) "
  "return true exactly if both vectors have the same length and the same bits, for every size and density, and they agree with each other.",
  ["inputs"], "every pair of bit vectors of every size and density, including single-bit differences anywhere",
  "tests compare a few pairs; the operator switches algorithm by size and density, and stale bits past the end may differ",
  [RS], [("full_equals / sparse_equals / PartialEq", RS)], ["==", "RsVec::full_equals", "RsVec::sparse_equals"])

p("C09", "Elias-Fano vectors return every stored element in order",
  "For every non-decreasing sequence of 64-bit values, including repeated, adjacent, minimal and maximal values, the compressed "
  "vector has the same length, returns the i-th value for every i, the difference between neighbouring values on request, and iterates "
  "(borrowed or owned, forwards, backwards, with skips, minimum and maximum) over exactly the input.",
  ["inputs", "histories"], "every non-decreasing sequence over the full 64-bit universe; every index; every iterator call sequence",
  "tests use random and a few hand made sequences; the split into upper and lower halves depends on length and universe",
  [EF, EFI], [("from_slice (lower width, upper vector)", EF), ("get_unchecked / delta", EF), ("iterator macros", EFI)],
  ["EliasFanoVec::get", "EliasFanoVec::delta", "EliasFanoVec::iter", "into_iter"])

p("C10", "Elias-Fano predecessor, successor and rank are exact",
  "For every non-decreasing sequence and every 64-bit query value, predecessor returns the largest stored value not greater than "
  "it, successor the smallest stored value not smaller than it (or nothing when there is none), and rank the number of stored "
  "values strictly smaller than it.",
  ["inputs"], "every non-decreasing sequence (clusters, duplicates, gaps) and every query value, stored or not",
  "tests draw random queries; linear and binary search inside one bucket switch on bucket size, and empty buckets need specific gaps",
  [EF], [("predecessor / search_element_in_block", EF), ("successor", EF), ("rank", EF)],
  ["EliasFanoVec::predecessor", "EliasFanoVec::successor", "EliasFanoVec::rank"])

p("C11", "Sparse bit vectors answer access, rank and select like the plain bits",
  "For every set of positions and every length, the sparse vector reports for each position whether it is in the set, the number "
  "of ones and zeros before it, the k-th one for every k (the length past the last), and iterates the ones in order. Building it "
  "from a bit vector represents that vector's ones, building it inverted represents its zeros.",
  ["inputs"], "every set of positions, every length, every position and rank",
  "tests use one random vector; empty sets, positions before the first and after the last one are special",
  [SP, EF], [("SparseRSVec queries", SP), ("Elias-Fano predecessor and rank", EF)],
  ["SparseRSVec::is_set/get", "rank0/rank1", "select1", "iter1", "from_bitvec", "from_bitvec_inverted"])

p("C12", "Range minimum structures return a position of a minimum of every range",
  "For every sequence and every non-empty range within it, both range-minimum structures return an index inside the range whose "
  "value is minimal in the range, for inclusive indices as well as for every form of range expression. The original values stay readable unchanged.",
  ["inputs"], "every sequence of 64-bit values (ties, monotone, extreme values), every range",
  "tests sample random sequences; the micro-block bitmaps and block boundaries need particular orders of values",
  [BR, FR], [("BinaryRmq sparse table", BR), ("FastRmq blocks, prefix/suffix minima, micro block bit vectors", FR)],
  ["BinaryRmq::range_min", "FastRmq::range_min", "range_min_with_range", "Deref"])

p("C13", "Wavelet matrices agree with the plain sequence on access, rank and select",
  "For every sequence of k-bit symbols, however the matrix was built (packed bits or integers, either construction algorithm), "
  "access returns the i-th symbol, rank the number of occurrences of a symbol in any range or prefix or after an offset, and select the position "
  "of its j-th occurrence (also counted from an offset) or nothing if there is none. Symbol-typed and integer-typed queries agree wherever both exist.",
  ["inputs"], "every sequence, every symbol width (also beyond 64 bits), every symbol, range, offset and rank",
  "tests use few sequences and widths; every level of the matrix re-partitions the range, so errors need particular symbol mixes",
  [WM, RS], [("permutation_sorting / prefix_counting construction", WM), ("rank_*/select_* per level", WM)],
  ["WaveletMatrix::get_value/get_u64", "rank*", "select*", "iter"])

p("C14", "Wavelet order statistics equal those of the sorted range",
  "For every sequence and range, quantile returns the element that sorting the range puts at that index, minimum, maximum and "
  "(lower) median the corresponding elements, sorted access and sorted iteration the fully sorted sequence, in the symbol-typed "
  "and the integer-typed variants alike.",
  ["inputs"], "every sequence, symbol width, range and index",
  "tests check few ranges on few sequences; ties and skewed levels change which branch is followed",
  [WM], [("partial_quantile_search*", WM), ("get_sorted*, iter_sorted*", WM)],
  ["quantile", "range_min", "range_max", "range_median", "get_sorted", "iter_sorted"])

p("C15", "Wavelet predecessor and successor return the nearest element of the range",
  "For every sequence, range and query symbol, predecessor returns the largest element of the range that is not greater than the "
  "symbol and successor the smallest that is not smaller, or nothing if no such element exists in the range; both typed variants agree.",
  ["inputs"], "every sequence, symbol width, range and query symbol (occurring or not)",
  "backtracking over matrix levels depends on the combination of range, symbol and the data in it",
  [WM], [("predecessor_generic_unchecked / successor_generic_unchecked backtracking", WM)],
  ["predecessor", "predecessor_u64", "successor", "successor_u64"])

p("C16", "Parenthesis search is exact on every sequence, balanced or not",
  "For every sequence of parentheses and every supported block size, forward (backward) search returns the nearest position where the "
  "requested relative excess is reached or nothing if it never is; match-finding, enclose and excess queries follow from it. No such "
  "query panics or loops, even on unbalanced or empty sequences and for out-of-range positions.",
  ["inputs", "configurations"], "every parenthesis sequence, position, relative excess and block size",
  "tests use few trees with two block sizes; the answer depends on block boundaries, the partial last block and the shape of the search tree",
  [BP, MMT, BPL, BPQ], [("fwd_search / bwd_search", BP), ("min-max tree", MMT), ("lookup tables", BPQ)],
  ["BpTree::fwd_search", "bwd_search", "open", "close", "enclose", "excess"],
  [("min-max tree", "relative excess per block and inner node", MMT)])

p("C17", "Tree navigation follows the ordered tree the parentheses encode",
  "For every ordered tree, parent, first and last child, next and previous sibling, leaf test, depth, node numbering and its "
  "inverse, root and size return what the tree dictates for every node, for every block size. Child iteration in both "
  "directions lists exactly the children in order.",
  ["inputs", "configurations"], "every ordered tree, every node, every block size",
  "tests cover few shapes; navigation crosses block boundaries in shape-dependent ways",
  [BP, TR, MMT], [("Tree for BpTree", BP), ("children / rev_children", BP)],
  ["parent", "first_child", "last_child", "next_sibling", "previous_sibling", "is_leaf", "depth", "node_index", "node_handle", "children"])

p("C18", "Ancestor, level and subtree queries match the ordered tree",
  "For every ordered tree and node(s): ancestor tests hold exactly for the node itself and its ancestors, level ancestor, next and previous "
  "node on the same level, leftmost and rightmost node of a level and subtree size are the ones the tree dictates, or absent "
  "if no such node exists. On unbalanced or empty sequences these queries, and the navigation queries, terminate without panicking.",
  ["inputs", "configurations"], "every ordered tree (and every unbalanced sequence for robustness), node, level, block size",
  "tests cover few shapes; last levels, single nodes and level jumps across blocks are not sampled",
  [BP, TR, MMT], [("IsAncestor / LevelTree / SubtreeSize for BpTree", BP)],
  ["is_ancestor", "level_ancestor", "level_next", "level_prev", "level_leftmost", "level_rightmost", "subtree_size"])

p("C19", "Tree construction and traversal visit exactly the built tree",
  "Feeding any depth-first walk to the builder yields the tree of that walk, and an unbalanced walk is rejected with its excess. "
  "Whole-tree and subtree traversals in pre-order and post-order visit every node of the (sub)tree exactly once in the right "
  "order, and converting a tree back to parentheses returns the original sequence.",
  ["inputs", "histories"], "every sequence of builder calls, every tree, every node, every block size",
  "tests iterate few trees; the order and range of traversals depend on shape",
  [BP, BPB], [("BpBuilder", BPB), ("dfs_iter / dfs_post_iter / subtree_iter / subtree_post_iter", BP)],
  ["BpBuilder", "dfs_iter", "dfs_post_iter", "subtree_iter", "subtree_post_iter", "into_iter", "into_parentheses_vec"])

p("C20", "Element iterators obey the double-ended, exact-size, fused contract",
  "For every collection (bit vectors, rank/select vectors, Elias-Fano vectors, wavelet matrices in all their orders; owned and "
  "borrowed) and every interleaving of next, next-back, nth, nth-back, length and size-hint calls followed by any consuming call, the iterator "
  "returns what the same calls return on a list of the elements: no element is skipped, repeated or invented, the remaining "
  "length is exact, and exhaustion is permanent.",
  ["histories", "inputs"], "every call sequence on every iterator over every content",
  "tests call the methods in fixed short patterns; front/back cursors meet in history-dependent ways",
  [GI, EFI], [("impl_vector_iterator macro", GI), ("impl_ef_iterator macro", EFI)],
  ["iter()", "into_iter()", "iter_u64", "iter_sorted", "iter_sorted_u64"])

p("C21", "Checked queries never panic and signal every out-of-range argument",
  "For every structure, including empty ones, and every argument, including the largest integers, reversed or empty ranges and "
  "symbols of foreign width, each query that reports invalid arguments by an empty or error result (or by a documented fallback value) does so instead of panicking, "
  "looping or returning data. Whenever it does return data, the unchecked variant called with the same arguments returns the same.",
  ["inputs"], "every structure and every argument over the full integer range",
  "tests call with a few out-of-range values; overflow of position plus length needs extreme arguments",
  [BV, MASK, RS, EF, SP, WM, BP, BR, FR], [("bounds checks of the checked variants", "all modules")],
  ["every public checked query and its unchecked variant"])

p("C22", "Results do not depend on crate features, target CPU or build profile",
  "Every query and iteration result is the same whether the crate is built with or without vector instructions, with the small or the "
  "large lookup tables, with hardware bit manipulation or the software fallback, and with or without debug checks.",
  ["configurations", "inputs"], "every supported feature / CPU / profile combination, every input",
  "each test run covers one configuration and cannot compare two; fallback code paths are only compiled in some of them",
  [RSS, RSB, PD, BPL, BPQ, UN], [("cfg(feature = simd) select paths", RSS), ("pdep fallback", PD), ("lookup tables u8/u16", BPL)],
  ["all public queries"])

p("C23", "Serialisation round trips preserve observable behaviour",
  "Serialising any structure of the crate and deserialising it again yields a structure that answers every query as the original does "
  "and can be edited further where editing is supported, including empty structures and vectors with a truncated tail, independent of the build configuration that wrote it.",
  ["inputs", "histories", "configurations"], "every structure, built from every content, written and read by every configuration",
  "no test serialises anything; skipped, renamed or recomputed fields surface only in later queries",
  [BV, RS, SP, EF, BR, FR, WM, BP, MMT], [("serde derives on all structures", "all modules")],
  ["serde Serialize/Deserialize"])

p("C24", "Space stays within the documented succinct bounds and is reported truthfully",
  "A bit vector needs no more heap than its bits rounded up to words, the rank/select vector adds only a few percent, "
  "Elias-Fano stays within its documented bound of about 2 + log(universe/length) bits per element plus a small overhead, and the tree adds a sublinear index, "
  "for every input including adversarial ones. The reported heap size matches what is really allocated, up to unused capacity and the fixed-size headers of nested vectors.",
  ["inputs"], "every input size and distribution",
  "tests never measure memory; a structure that stores too much still answers correctly",
  [BV, RS, EF, SP, BP, MMT, WM, BR, FR], [("heap_size of every structure", "all modules"), ("lower width choice", EF), ("block layout", RS)],
  ["heap_size", "allocator"])

p("C25", "Query time stays within the documented asymptotic bounds",
  "Access, rank and range-minimum queries take constant time; select, skipping in iterators, Elias-Fano access, predecessor, successor and rank, and "
  "every tree navigation and level query take at most logarithmic time in the structure's size; wavelet queries take time proportional to the symbol "
  "width (times a logarithm where select is involved). No query's work grows linearly with the structure, for any distribution of the data, such as "
  "few ones in a long vector, many equal elements, or very deep or very wide trees.",
  ["inputs"], "every input size and distribution", "tests do not measure work done", [RS, RSS, EF, FR, MMT, WM],
  [("index structures", "all modules")], ["instructions executed per query"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
