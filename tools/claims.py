AI = "abstract interpretation of the SSA form (polyhedral domain, loop invariants, symbolic buffers)"
TRUST = " Trusts the analyzer (not itself verified), go/ssa, the models of library functions, and that interface methods outside the repository are deterministic and do not panic."
PENDING = "not decided yet: the check is still being built"
CLAIMS = {
 "D01": (AI, "Decides the property for every input."+TRUST),
 "D02": (AI, "Decides the property for every input."+TRUST),
 "D03": (AI + ", induction over nesting", "Decides the property for every input; elements decoded on demand are covered by induction on nesting depth."+TRUST),
 "D04": (AI + ", contracts of the component decoders", "Decides the property for every input, given D02, D03 and D05 for the components."+TRUST),
 "D05": (AI, "Decides the property for every input."+TRUST),
 "D06": (AI, "Decides the property for every input."+TRUST),
 "D07": (AI + ", contracts of the hash functions", "Decides the property for every input and every table."+TRUST),
 "D09": (AI + " of every reachable allocation site", "Decides the property for every input: each make reached while decoding has its size bounded by the remaining input or a constant."+TRUST),
 "D10": (AI + " with write effects on tracked buffers", "Decides the property for every input and every reading operation of the decoded objects."+TRUST),
 "W06": (AI + " of encoder and decoder composed", "Decides the property for every value and every trailing input."+TRUST),
 "W01": (AI + " of encoder and decoder composed", "Decides the property for every key and every trailing input."+TRUST),
 "W02": (AI + " of encoder and decoder composed, induction over nesting", "Decides the property for every value, element count and trailing input; elements are opaque encodings."+TRUST),
 "W03": (AI + " of encoder and decoder composed, contracts of the components", "Decides the property for every combination of parts, given W01 and W02 for the components."+TRUST),
 "W04": (AI + " of encoder and decoder composed", "Decides the property for every scheme and every trailing input."+TRUST),
 "W05": (AI + " of writer and reader composed", "Decides the property for every consensus time and every trailing input."+TRUST),
 "W08": (AI + " of each conversion and its inverse", "Decides the property for every value of the type."+TRUST),
 "O01": (AI + " over the case split of the ordering of the fields", "Decides the property for every pair of times."+TRUST),
 "O02": (AI + " over the case split by the first differing element", "Decides the property for every pair of slices and every length."+TRUST),
 "O03": (AI + " over the case split by the first differing sub key and byte", "Decides the property for every pair of keys and every triple of one kind."+TRUST),
 "O05": (AI + " of equality and hash code, dependence of the hash on every part", "Decides the property for every pair of values, keys, records and schemes of one kind; that a hash takes a part into account is decided by dependence, not by collision freedom."+TRUST),
 "O04": (AI, "Decides the property for every pair of arguments."+TRUST),
 "E01": (AI + " with write effects", "Decides the property for every method of every constructed type on an arbitrary object; changes made directly to a component the object holds are the component's own."+TRUST),
 "E02": (AI + " with write effects", "Decides the property for every object; components behind an interface are assumed to satisfy it themselves (each implementation is analysed)."+TRUST),
 "E04": (AI, "Decides the property for every object."+TRUST),
 "D08": (AI + ", models of the file system and crypto library", "Decides the property for every file content."+TRUST),
}
NA = {
 "N01": "Termination of the seed search depends on the values of the hash function at run time; no static argument in reach bounds it.",
 "N02": "Range iteration, encoding and decoding of tries are unfinished in this tree (a range ends at the wrong place for most bounds, encoding panics at the root, which has no parent, MappedTrie.Decode is a stub), so there is no behaviour to decide; iterating keys is T02, that range iteration ends R01, the rest T01 and X01.",
 "N04": "Crash consistency depends on the file system's ordering of writes at run time; the code writes in place without an atomic rename, so static analysis could only restate that.",
 "N05": "src/pdb does not compile at the pinned commit and writes no file.",
}
CLAIMS["X01"] = ("path analysis (typestate of each error value) over the SSA form, interface calls resolved by variable type analysis", "Decides every path of every call that can fail, without regard to which paths are feasible; a failure that is not an error value (a false, a mismatch found) is the concern of the other properties. Trusts go/ssa, x/tools vta and a short list of calls that never fail.")
CLAIMS.update({
 "S01": ("taint analysis over abstract executions (abstract interpretation of the SSA form, symbolic buffers)", "Decides explicit flows on every path, for every class, number and secret; lengths and control dependence are not flows, and that the random source never repeats is its own promise."+TRUST),
 "S02": (AI + ", models of the file system and crypto library", "Decides the property for every file content."+TRUST),
 "S03": (AI + " of every function that draws, dependence of the results on the drawn bytes", "Decides the property for every path including every failing draw; the quality of the system's source is trusted."+TRUST),
 "S04": (AI, "Decides the property for every minimum, maximum and draw."+TRUST),
 "S05": (AI + ", symbolic strings", "Decides the property for every id and class, paths being compared as strings."+TRUST),
 "S06": (AI + " with every answer of the terminal", "Decides the property for every typed input."+TRUST),
 "S07": ("typestate analysis over abstract executions with every combination of options, answers and failures", "Decides the property for every path; what other processes do between two looks at the file system is covered because every look is independent."+TRUST),
 "S08": (AI + ", model of the curve's own membership test", "Decides the property for every stored coordinate; that the library's IsOnCurve is right is trusted."+TRUST),
 "W07": (AI + " of saving and loading composed", "Decides the property for every class, id, number below 2^256 and secret; authenticated decryption inverts encryption by the library's promise."+TRUST),
})
SHAPE = "shape analysis (abstract interpretation of the heap with summarised subtrees, segments of the entry sequence and loop invariants found by folding)"
CLAIMS.update({
 "M01": (SHAPE, "Decides one operation on an arbitrary ordered balanced tree of any size, and so by induction every history; recursive calls are replaced by the very contract being verified. Trusts the comparison to be a total order (O02-O04)."),
 "M02": (SHAPE, "Decides one operation on an arbitrary tree of any size, and so by induction every history. Trusts the comparison to be a total order (O02-O04)."),
 "M03": (SHAPE, "Decides every step of an iteration over an arbitrary tree, each step starting in any state the steps before may leave. The tree is not modified while iterating."),
})
CLAIMS.update({
 "M04": (SHAPE, "Decides one operation on an arbitrary well-formed table of any size and any parameters, and so by induction every history; chains are summarised as sets of entries with their slot. Trusts equality to be an equivalence that agrees with the hash (O05), and the seeded hash to be a function of the key."),
 "M05": (SHAPE, "Explores every reachable state of the iterator over an arbitrary table. Its Next, HasNext and Peek do not yield entries on this tree: listed as known findings, because the repair would make an existing test fail (see DESIGN.md). The absence of crashes, effects and false entries is decided."),
})
CLAIMS.update({
 "M06": (AI+", with the collection underneath replaced by its contract", "Decides every operation in every state of the collection with respect to the key given, and every state of an iteration. The contract of the collection is what M02 to M05 decide."),
})
CLAIMS.update({
 "M07": (AI+" with uninterpreted hashes", "Decides lookups for every table and key. For building, decides every place a key's slot or a seed is stored, that the masks are those of the levels and that the keys or hashes stored are those of the keys in order; that building ends, and that the search for seeds leaves every key in its slot, is N01. Fewer than 2^31 keys."),
})
CLAIMS.update({
 "T01": (SHAPE, "Decides one operation on an arbitrary trie and a key of any length, and so by induction every history; effects are checked at the node of the path they happen at. The map of children is its contract (M06) and keys of children compare as O03 decides. The key is not nil."),
})
CLAIMS.update({
 "E03": (AI+", reachability of memory from the result", "Decides every Copy and CopyConstruct, for every object: contents are compared through the accessors, memory by reachability. By induction over the nesting: copies of components are assumed to be copies, and decoding a mapped object's bytes again to succeed with the same content (D02 to D05). Times and signature numbers count as immutable."),
})
CLAIMS.update({
 "W09": ("constant evaluation of the digit tables, "+AI, "The alphabet is read off the encoder, and every character is decided, alone and (the ones outside the alphabet) at every place of texts of up to four characters. The two directions are composed for unknown bytes: up to three zero bytes and four others, and texts of up to three zero characters and six others; longer values are not decided. Crashes are decided for inputs of any length."),
})
CLAIMS.update({
 "W10": (AI+" of encoding, appending anything and decoding composed", "Decides the property for an arbitrary table of each kind with fewer than 2^31 entries per level; keys are opaque values that read back (D01 to D05, W02 to W04)."+TRUST),
 "E05": (AI, "Decides every constructor, updater and accessor for an arbitrary object; lists have at most 65534 elements, the number their length field can hold. By induction over the calls it holds for every history."+TRUST),
 "S09": (AI+" with the curve and the digests uninterpreted", "Decides which library operation is applied to what, on every path; that the library signs, verifies and digests as documented is trusted."+TRUST),
})
CLAIMS.update({
 "S10": (AI+" of the whole tool with modelled options and answers", "Decides every path of the tool for each class name and for any other, with every option, answer and failure; the effects of saving, loading and prompting are the contracts that S06, S08 and W07 decide."+TRUST),
 "S11": (AI+", polynomial normal forms modulo the curve's prime", "Decides every generated and every saved pair: the root that loading calculates is entailed to be the Y of the pair, or not to be when the secret was negated. Trusts that the library's key lies on the curve, that the negative scalar has the same X and the other root as Y, and that ModSqrt gives the same root each time; W07 decides that the X loaded is the X saved."+TRUST),
 "E06": (AI+", bounded unrolling of the loops over parts", "Decides every error path of every encoder, for parts of any length, on objects of up to three parts: that everything fits must be refuted there. Objects with more parts are not decided."+TRUST),
 "E07": (AI, "Decides the property for every object and every encoding state; what components do when asked is assumed (their own obligations are decided for their types)."+TRUST),
 "E08": ("effect analysis by abstract interpretation of the SSA form", "Decides the property for every reader of every type on an arbitrary object; that elements decoded on demand are the right ones in any order is decided by W02."+TRUST),
 "S12": (AI+", modular normal forms of random draws", "Decides every path of making either kind of table, for every capacity and every list of keys. A seed derived in another way than as a whole draw, its remainder or its low bits is refused, which is conservative."+TRUST),
})
CLAIMS.update({
 "P01": ("interprocedural may-alias (taint) analysis of package-level memory over the SSA form and call graph", "Sound for flows through parameters, results, fields, elements, closures and interfaces (fields and elements are merged per type, which is conservative). Which library functions write through, or return, what they are given is a table for the libraries the repository uses; methods of other libraries are assumed to be safe for shared use. That two operations on the same object at once are safe is not claimed, and the code does not promise it."),
 "P02": ("effect analysis over the call graph (variable type analysis)", "Decides the property for every exported function and method. Library functions outside the listed sources of chance, time, environment and input are assumed to have none; methods of the caller's own types (writers, hash functions) are the caller's."),
 "P03": ("interprocedural information flow analysis with function summaries over the SSA form", "Decides explicit flows through memory, calls, conversions and formatting, context sensitively; what can be concluded from which branch was taken, from lengths or from timing is not covered. Encryption, signatures and the public half of a key are trusted to tell nothing."),
})
CLAIMS.update({
 "R01": ("termination analysis: ranking arguments for counters and quotients, interval analysis of their bounds, search for idle cycles with field-based side effects over the call graph", "Decides every loop that counts, ranges or divides (proved to end), and for every other loop, and every recursive call, that no way round leaves all that its branches depend on unchanged; that other loops end altogether follows for lists and trees from their shape (M01 to M04), and is not proved for iterating tries and searching seeds. Functions handed in by the caller, and methods of the caller's own types, are assumed to end and to behave as those of the repository."),
})
CLAIMS.update({
 "T02": (SHAPE, "Decides one operation on an arbitrary iterator, with a path of any length and nodes with any children, and so by induction every iteration. Iterators over children are their contract (M03, M06). Where an iteration starts, and full keys, are decided on every chain of up to three nodes below the root, with sub keys that are not empty (Key.Add refuses others). Order among siblings is that of the iterator over them. Iterating a range is N02."),
})
