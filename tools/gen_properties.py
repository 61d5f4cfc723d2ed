#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
BV="succinct_neo/src/bit_vec/mod.rs"; BK="succinct_neo/src/bit_vec/backing.rs"; TR="succinct_neo/src/bit_vec/traits.rs"
SM="succinct_neo/src/bit_vec/slice/mod.rs"; SL="succinct_neo/src/bit_vec/slice/slicing.rs"; ST="succinct_neo/src/bit_vec/slice/trait_impls.rs"
IV="succinct_neo/src/int_vec/mod.rs"; IT="succinct_neo/src/int_vec/traits.rs"
FP="succinct_neo/src/rank_select/flat_popcount/mod.rs"; SS="succinct_neo/src/rank_select/flat_popcount/strats.rs"; RT="succinct_neo/src/rank_select/traits.rs"
XT="xtask/src/main.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","A bit vector behaves as a fixed-length array of bits",
 "A new bit vector of any length holds only zeroes. After any sequence of set and flip calls, checked or (within their contract) unchecked and through any of the type's access paths, reading an index by any path gives the last value written there, no other bit has changed, and the length is the one asked for at creation.",
 ["inputs","histories"],"every length (from 0 to beyond 2^32 bits) and every sequence of set, flip and read calls with in-range indices, by every access path",
 "The tests write one regular pattern (every third bit) into one length (160) and read it back once; they never vary the history, the length relative to the word size, or the unchecked and trait-level paths.",
 [BV,BK,TR,SM,ST],[("word/bit index split and single-bit masks",BK),("word count rounding",BV+" BitVec::new"),("forwarding of the trait methods",TR)],
 [("backing words","64 bits per word, least significant bit first",BV)],["BitVec get/set/flip and their unchecked and trait forms"])
p("C02","The raw words of a bit vector mirror its bits",
 "At every point of any history, the raw word view of a bit vector of n bits has exactly ceil(n/64) words, bit i of the vector is bit i mod 64 (least significant first) of word i div 64, and all padding bits after bit n-1 are zero. All ways of getting at the raw words give the same words.",
 ["inputs","histories"],"every length and every history of writes through the vector, its views and its splits",
 "Tests only compare two raw accessors with each other on an 80-bit vector; the layout and the zero padding, which the rank index depends on, are never asserted.",
 [BV,BK,SM],[("word count rounding",BV+" BitVec::new"),("word/bit index split",BK)],[],["BitVec::raw","AsRef<[usize]>","BitSlice::backing"])
p("C03","Clones of a bit vector are equal and independent",
 "A clone of a bit vector or of an owning view has the same length and bits as the original at the time of cloning. Any later writes to either of them, or to further clones, are never visible in another one.",
 ["histories"],"every history of writes and clones over a family of vectors cloned from one another",
 "Tests clone to obtain a second borrow and never write to both copies afterwards.",
 [BV,SM],[("derived Clone over the owned word box",BV),("derived Clone of views",SM)],[],["BitVec::clone","clone_from","BitSlice::clone"])
p("C04","A bit view shows and modifies exactly the range it was taken for",
 "A view taken with any valid range form (including excluded and unbounded ends), nested to any depth over any backing, has the length of the range and bit i of the view is bit start+i of what it was taken from. Writing through a mutable view changes exactly that bit of the underlying data and nothing else, and the unchecked constructors and accessors behave like the checked ones when their contract is met.",
 ["inputs","histories"],"every range and range form, every nesting of mutable and shared views, every write history through them, over vectors, words, word slices and user-defined backings",
 "Tests use a handful of hand-picked ranges at depth one (20..40 of 80) and never nest views, so offset composition and most bound forms are unreached.",
 [SL,SM,ST],[("bound normalisation",SL),("offset added to every access",ST)],[("start/end","absolute positions in the backing",SM)],["BitSlice::slice/slice_mut/slice_unchecked/slice_unchecked_mut","BitSlice::new"])
p("C05","Splitting a bit view partitions it",
 "Splitting a view at any position inside it yields two views whose lengths add up to the whole and whose bits, put one after the other, are the bits of the whole. With a mutable split, writes through the two parts in any order all land in the underlying data at their own positions, and writes through one part never change what the other part or the rest of the data shows.",
 ["inputs","histories"],"every view (any offset into its backing), every split position from 0 to length-1, repeated splitting, every interleaving of writes through the parts",
 "The tests split one view at one position and never write through both parts of a split that shares a word.",
 [SM,ST],[("two views with adjoining bounds over one backing",SM+" split_at / split_at_mut")],[],["BitSlice::split_at","BitSlice::split_at_mut"])
p("C06","Checked bit access rejects exactly what is out of range",
 "Every checked read, write, flip, range view or split that is out of range of the vector, view, word or word slice it is called on panics, in debug and in release builds, and leaves all data unchanged, even where the underlying storage extends further. Every in-range call succeeds.",
 ["inputs","configurations"],"every container length and view offset, every index and range up to the maximum machine integer, both build profiles",
 "Tests check one out-of-range index per method (mostly index = length) in debug builds only; near-overflow indices and bounds and release builds are never run.",
 [BV,SL,ST,SM,BK],[("length checks before access",ST+", "+BV+", "+BK),("bound checks and checked additions",SL)],[],["get/set/flip/get_bit/set_bit/flip_bit","slice/slice_mut","split_at/split_at_mut"])
p("C07","Bit view equality is equality of contents",
 "Two bit views compare equal exactly if they have the same length and the same bits in the same order, whatever their offsets, their backings and whether they are shared or mutable. Equality is symmetric and != is its negation.",
 ["inputs"],"every pair of views over every combination of backing types, alignments, lengths and contents, including pairs that differ in one bit or only in length",
 "The only equality test compares periodic patterns of one vector with itself; single-bit differences, prefixes and other backings are never compared.",
 [ST],[("length check, then element-wise comparison",ST+" PartialEq")],[],["PartialEq for BitSlice"])
p("C08","Bit iteration yields every bit once, in order, with exact lengths",
 "Iterating over a bit vector or view, by reference or by value, yields exactly its bits in index order and then stays exhausted. At every point of the iteration the reported remaining length and size hint are the exact number of bits left, also through the standard iterator adapters.",
 ["inputs","histories"],"every view and every way of driving the iterator: next, nth, partial consumption, zip, skip, take",
 "Tests iterate whole small views with for-loops and check the reported length once, before the first element.",
 [ST,SM,BV],[("cursor advanced once per element",ST+" Iterator for Iter"),("length from cursor and end",ST)],[("current/end","absolute cursor and end",SM)],["iter","into_iter","Iter::new","ExactSizeIterator::len","Iterator::size_hint"])
p("C09","Machine words and word slices act as bit containers",
 "For every unsigned word type and for word slices, reading, setting and flipping bit i concerns exactly the bit of weight 2^i (for slices: bit i mod 64 of word i div 64), leaves all other bits as they were, and gives the same result checked and (in contract) unchecked. Access through references, boxes and reference-counted pointers gives the same result as direct access.",
 ["inputs"],"every value of u8 to u64 and usize, every word-slice content and length, every index and pointer wrapper",
 "Tests write one alternating pattern into a zero value; high bits next to other set bits, long word slices and the wrappers are not exercised.",
 [BK,TR],[("primitive_bit_ops",BK),("blanket impls",TR)],[],["BitGet","BitModify"])
p("C10","Safe calls never touch memory outside the containers",
 "No sequence of safe calls, whatever their arguments, makes the library read or write outside the memory of the backing it was given or of its own structures; such calls either work or panic. In particular a view or iterator constructed with bounds its backing does not cover never leads to an unchecked out-of-range access.",
 ["inputs","histories","configurations"],"every sequence of safe public calls with arbitrary arguments, including views and iterators made directly from arbitrary bounds and indices built on vectors whose view was replaced",
 "Out-of-range accesses usually go unnoticed in a unit test; the tests never build a view whose bounds exceed its backing and never query rank or select out of range.",
 [ST,BV,FP,IV,SM],[("checked access to the backing in all safe paths",ST),("range checks in rank and select",FP),("bounds-checked word access",IV)],[],["all safe public functions"])
p("C11","An integer vector behaves as an array of fixed-width integers",
 "For every width from 1 to 64 bits, after any sequence of pushes and sets (checked, or unchecked within their contract), reading any index by any path returns the last value stored there, no other element has changed, and the number of elements is the number of pushes. The capacity given at creation has no influence on the contents.",
 ["inputs","histories"],"every width 1..=64, every capacity hint, every sequence of push/set/get with values that fit",
 "Tests use five widths (4, 7, 8, 12, 23) and ascending values; most widths, values with the top bit set, and overwriting across word borders with non-zero neighbours are not reached.",
 [IV,IT],[("split of an element across two words",IV+" push/get_unchecked/set_unchecked"),("width mask",IV+" mask")],[("words","packed elements, least significant bit first",IV)],["IntVec::push","IntAccess::{get,set,get_unchecked,set_unchecked}"])
p("C12","An integer vector rejects what it cannot store and stays intact",
 "Pushing or setting a value that needs more bits than the width panics, reading or setting an index at or beyond the number of elements panics, and creating a vector with a width outside 1 to 64 panics, in debug and in release builds. After a rejected call all elements and the length are unchanged and the vector can be used further; values that fit and indices in range are never rejected.",
 ["inputs","histories","configurations"],"every width, every value, every index up to the maximum machine integer, every history of accepted and rejected calls, both build profiles",
 "Tests reject one value and one index at width 7 in a debug build and do not look at the vector afterwards.",
 [IV],[("value and index checks before any write",IV),("width check",IV+" with_capacity")],[],["IntVec::new/with_capacity/push","IntAccess::{get,set}"])
p("C13","Integers are packed without gaps",
 "The raw words of an integer vector of n elements of width w contain the elements back to back: bit b of element i is bit i*w+b of the words, least significant bit first. There are never more words than n*w bits need, plus one.",
 ["inputs","histories"],"every width 1..=64 and every history of pushes and sets",
 "One test looks at one raw word for width 4; layouts that cross words are never looked at, and nothing bounds the number of words.",
 [IV],[("offset computation",IV+" current_offset"),("a word is appended only when the last one is full",IV+" push")],[],["IntVec::raw_data"])
p("C14","Integer iteration yields every element once, in order, with exact lengths",
 "Iterating over an integer vector, by reference or by value, yields exactly its elements in index order and then stays exhausted. At every point of the iteration the reported remaining length and size hint are the exact number of elements left, also through the standard iterator adapters.",
 ["inputs","histories"],"every width, content and way of driving the iterator: next, nth, partial consumption, zip, skip, take",
 "Tests drain one 20-element and one 10-element vector and check the length once, before the first element.",
 [IV],[("cursor advanced once per element",IV+" Iter/IntoIter"),("length from cursor and size",IV)],[],["IntVec::iter","into_iter (both)","len","size_hint"])
p("C15","Rank counts exactly",
 "For every bit vector, however it was filled, and every index from 0 up to and including its length, rank of ones is the number of ones before the index and rank of zeroes is the index minus that number. The compile-time and run-time forms agree, and building or querying the index never changes the vector.",
 ["inputs"],"every bit vector (any length, including empty and beyond 2^32 bits, any distribution of ones) and every index 0..=length",
 "The test ranks one periodic pattern over 10000 bits; uneven densities, full blocks, lengths at block borders, the index equal to the length and the empty vector are not reached.",
 [FP,RT],[("cumulative counters per 4096-bit and 512-bit block",FP+" build_indices"),("counter lookup and popcount of the remainder",FP+" rank / rough_rank_1")],[("block counters","ones before each block, packed 44+7*12 bits",FP)],["RankSupport::rank","RankSupport::rank_dyn","len","is_empty"])
p("C16","Select finds exactly the requested one",
 "For every bit vector and every k smaller than its number of ones, select of k (counted from zero) returns the position of the k-th one, with every search strategy.",
 ["inputs","configurations"],"every bit vector (any length, any distribution of ones, including long empty and full stretches), every k, every available search strategy",
 "The select test aborts at the pinned commit; even where it runs it covers one periodic pattern with one strategy, so uneven blocks, sample borders and sparse vectors are not reached.",
 [FP,SS],[("every 8192nd one sampled",FP+" sample_ones"),("block scan from the sample, strategy in the block, scan of words and bits",FP+" select")],[("samples","starting block for every 8192nd one",FP)],["SelectSupport::select"])
p("C17","Rank and select queries outside the domain are answered or rejected cleanly",
 "Select of any k at or beyond the number of ones returns nothing, with every strategy and also for empty and all-zero vectors. Rank of an index greater than the length panics in debug and release builds, rank of the length itself is the total, and later queries are unaffected.",
 ["inputs","configurations"],"every bit vector including empty, all-zero and all-one ones of every length, every query argument up to the maximum machine integer, both build profiles",
 "One test asks for one rank far beyond the number of ones; the first invalid k, all-zero vectors and every out-of-range rank are untested.",
 [FP],[("comparison with the number of ones",FP+" select"),("comparison with the length",FP+" rank")],[],["SelectSupport::select","RankSupport::rank"])
p("C18","Rank and select are inverse and consistent with the bits",
 "For every bit vector, rank(select(k)) = k, the selected position holds a one, and select(rank(i)) is the first one at or after i. Ranks of ones and zeroes add up to the index, grow by exactly the bit passed, swap when the vector is complemented, and flipping one bit shifts exactly the ranks behind it by one.",
 ["inputs"],"every bit vector, every index and every k; pairs of vectors related by complementing, flipping one bit or appending",
 "No test relates rank to select or relates the answers of two vectors to each other.",
 [FP,RT],[("shared block counters",FP),("samples",FP+" sample_ones")],[],["rank","select"])
p("C19","All block search strategies give the same, correct answer",
 "For every block entry with non-decreasing counters and every rank a block can hold, each search strategy (linear, binary and, where compiled in, SIMD) returns the first sub-block whose counter exceeds the rank and the counter before it. Whatever is stored in the entry's other bits has no influence.",
 ["inputs","configurations"],"every non-decreasing sequence of seven 12-bit counters, every value of the remaining 44 bits, every rank 0..=4095, every strategy, with and without SIMD compiled in",
 "Three fixed entries are tested, all with the same upper bits, and the SIMD strategy is not compiled in the tested configuration.",
 [SS],[("LinearSearch / BinarySearch / SimdSearch find_l2",SS)],[],["SelectStrategy::find_l2"])
p("C20","The structures stay succinct",
 "A bit vector of n bits holds at most n bits rounded up to words on the heap, a rank/select index adds less than 4% of the bits (plus a small constant), and an integer vector holds at most the larger of the requested capacity and twice the packed size of its elements (plus a small constant). Dropping a structure releases all of it.",
 ["inputs","histories"],"every length, width, capacity hint and distribution of ones",
 "No test measures memory; a structure that answers correctly but stores far more would pass all of them.",
 [FP,IV,BV],[("counters: 128 bits per 4096 bits",FP),("one sample of log2(n) bits per 8192 ones",FP+" sample_ones"),("packed words",IV)],[],["heap use, measured with a counting allocator"])
p("C21","Debug output of a bit vector lists exactly its bits",
 "Formatting a bit vector with the debug formatter gives its bits in index order as 0 and 1, separated by a comma and a space, between braces.",
 ["inputs"],"every bit vector of every length, including empty",
 "The test only prints the text and never looks at it.",
 [BV],[("Debug for BitVec",BV)],[],["format!(\"{:?}\")"])
p("C22","Cleaning removes exactly the profile files below the working directory",
 "The project's clean task deletes every file whose name ends in .profraw in the working directory and all directories below it, and nothing else: no other file, no directory, nothing outside the working directory. Without a known task name the tool does nothing and succeeds.",
 ["inputs"],"every directory tree (depth, hidden names, unusual names, look-alike extensions) and every task name",
 "The task tool has no tests at all.",
 [XT],[("clean",XT),("task dispatch",XT+" main")],[],["file tree before and after, exit status"])
p("C23","Coverage tasks produce the requested report or fail",
 "The coverage task runs the instrumented library tests, then the report tool in the format asked for (names are case-insensitive, unknown ones fall back to the default XML format) writing to the matching file, then cleans up, in this order. If any step fails, the tool exits with failure and no later step is carried out.",
 ["inputs","fault_sequences"],"every task, every format argument in any spelling, every combination of failing and succeeding external tools",
 "The task tool has no tests at all.",
 [XT],[("cover / test_instr / cover_only sequencing",XT),("format table",XT+" cover_only")],[],["recorded calls, arguments and environment of stand-in cargo and grcov programs, exit status"])
p("C24","Concurrent use gives the sequential results",
 "Threads that read one shared structure at the same time get the same answers as a single reader. Threads that write through the different parts of a mutable split at the same time leave the same data as doing the writes one after the other.",
 ["schedules","histories"],"every split position and offset, every set of per-thread write histories, every interleaving",
 "No test uses more than one thread.",
 [SM,BK,FP],[("parts of a split address disjoint bits",SM+" split_at_mut"),("structures are immutable while shared",FP)],[],["scoped threads over split parts and shared structures"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
