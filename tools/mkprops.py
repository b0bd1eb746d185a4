"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json, os
G = ["randomgen/common.pyx", "randomgen/aes.pyx", "randomgen/chacha.pyx", "randomgen/dsfmt.pyx", "randomgen/efiix64.pyx", "randomgen/hc128.pyx", "randomgen/jsf.pyx",
     "randomgen/lxm.pyx", "randomgen/mt19937.pyx", "randomgen/mt64.pyx", "randomgen/pcg32.pyx", "randomgen/pcg64.pyx", "randomgen/philox.pyx", "randomgen/romu.pyx",
     "randomgen/sfc.pyx", "randomgen/sfmt.pyx", "randomgen/speck128.pyx", "randomgen/squares.pyx", "randomgen/threefry.pyx", "randomgen/tyche.pyx",
     "randomgen/xoroshiro128.pyx", "randomgen/xorshift1024.pyx", "randomgen/xoshiro256.pyx", "randomgen/xoshiro512.pyx"]
C = ["randomgen/src"]
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


p("C01", "Every draw is made while holding the generator's own lock",
  "Every call of the extended generator, of the bit generators' raw-draw and benchmark helpers, and of the shared fill/broadcast helpers that consumes random values does so "
  "only while holding the bit generator's own lock, and releases that lock on every way out, including exceptions. "
  "No path acquires the lock while already holding it, so threads sharing one bit generator never run its draw code concurrently and never deadlock.",
  ["schedules", "inputs"], "all thread schedules and all argument combinations (scalar and array parameters, given or missing size and output array)",
  "Tests are single threaded apart from a few smoke tests; a missing lock shows only under a rare interleaving, a leaked lock only on an error path.",
  ["randomgen/generator.pyx", "randomgen/broadcasting.pyx", "randomgen/common.pyx", "randomgen/rdrand.pyx"],
  [("lock acquisition around draws", "randomgen/generator.pyx, randomgen/broadcasting.pyx: every `with lock` block"), ("raw draws and benchmark", "randomgen/common.pyx: random_raw, benchmark")])
p("C02", "Saved state is complete: restoring it continues the identical stream",
  "Reading a bit generator's state at any moment and assigning it to another instance of the same class, whatever that instance did before or how it was constructed, "
  "makes every later 32-bit, 64-bit, double and raw draw of the two instances identical. This includes values already generated but not yet handed out and variant or configuration choices.",
  ["inputs", "histories", "configurations"], "all bit generators, all reachable states of the saved instance, all states of the receiving instance, all following draws",
  "Tests compare a few hundred draws after one fixed warm-up for default configurations; the buffered and mid-block positions of each variant are not enumerated.",
  G + C, [("state getter and setter", "the `state` property of every bit generator class"), ("buffered values", "has_uint32/uinteger, block buffers and their indices in src/*")])
p("C03", "Seeding is deterministic: the same seed gives the same stream whatever happened before",
  "Constructing or reseeding a bit generator with a given seed, key or counter puts it in a state that depends only on those values and the configuration, never on draws, earlier seeds "
  "or jumps before it, and never on uninitialised memory. Every later draw is therefore the same as for any other instance constructed or reseeded with the same values.",
  ["inputs", "histories", "configurations"], "all bit generators with a seed method, all seeds, all histories before reseeding",
  "Tests reseed only fresh or barely used instances and compare a few values.",
  G, [("seed methods", "seed, _seed_from_seq, _reset_state_variables of every bit generator class")])
p("C04", "Moving in the stream discards every value that was generated in advance",
  "After advancing or otherwise repositioning a bit generator, the next draws of any kind depend only on the new position: a half of a 64-bit value or a word of a block of output that had been generated "
  "before the move is not handed out afterwards unless it is the value that belongs at the new position.",
  ["inputs", "histories"], "all bit generators with an advance or in-place jump method, all reachable states before it, all non-zero step counts",
  "Tests advance from a state where the cached half value is usually absent.",
  ["randomgen/pcg64.pyx", "randomgen/pcg32.pyx", "randomgen/philox.pyx", "randomgen/threefry.pyx", "randomgen/aes.pyx", "randomgen/chacha.pyx", "randomgen/speck128.pyx", "randomgen/squares.pyx"] + C,
  [("position changes", "advance methods and the C *_advance functions")])
p("C05", "Jumped generators are independent copies and leave the original untouched",
  "Obtaining a jumped generator returns a new instance of the same class and configuration that shares no mutable storage with the original, and leaves every observable value of the original, including its "
  "buffered draws, unchanged. Values buffered by the original are not replayed by the jumped instance.",
  ["inputs", "histories", "configurations"], "all bit generators with a jumped method, all reachable states, all numbers of jumps",
  "Tests jump fresh instances and compare a few fields of the saved state.",
  G, [("jumped", "jumped and jump_inplace methods of every bit generator class")])
p("C06", "Reading state has no effect and returns a detached copy",
  "Reading a bit generator's state never changes the instance or any later draw, and the returned values are copies: nothing the caller later writes into them reaches the generator, and later draws do not alter them.",
  ["inputs", "histories"], "all bit generators, all reachable states, all later modifications of the returned mapping and arrays",
  "Tests compare returned values; they do not look for shared memory in every field.",
  G, [("state getter", "the getter of the `state` property of every bit generator class")])
p("C07", "Arguments are copied in: the caller keeps no handle on the generator",
  "After a bit generator has been constructed, seeded or given a state or key, nothing the caller later does with the arrays, mappings or lists passed in reaches the generator: "
  "they were copied. Neither do later draws alter them, and the operation itself leaves them unchanged.",
  ["inputs", "histories"], "all bit generators, all accepted seeds, keys, counters and states, all later modifications of the passed objects",
  "Tests pass temporaries and never write into an argument afterwards.",
  G, [("state setter", "the setter of the `state` property of every class"), ("seeding and construction", "__init__, seed")])
p("C08", "A generator's native code stays inside its own storage",
  "Constructing, seeding, moving, jumping, drawing from, saving or restoring a bit generator never reads or writes outside the storage that instance allocated, never follows a null or dangling pointer, "
  "and never indexes a block buffer or a fixed table beyond its end. This covers every state reachable by construction, seeding, draws, moves and restoring a previously saved state.",
  ["inputs", "histories", "configurations"], "all bit generators and configurations, all reachable states, all accepted seeds, keys, counters and step counts",
  "An out-of-bounds access by one word in a block generator usually changes nothing visible, and the reachable combinations of buffer positions and operations are not enumerated by tests.",
  G + C, [("block buffers and indices", "src/*: buffer_loc, offset, idx, pos, mti fields"), ("array arguments", "set_seed, init_by_array, set_state functions and their callers in *.pyx")])
p("C09", "Calls never modify the arrays and lists they are given",
  "No function or method that can be called from Python writes into the caller's arguments: seeds, keys, counters, saved states, distribution parameters (loc, gamma, relation, cov, mean, scale, df), sizes and "
  "entropy values are left exactly as they were passed. The only exception is an explicit output array named out.",
  ["inputs"], "all Python-callable functions and methods of the package and all argument types and shapes accepted",
  "An in-place operation reaches the caller's array only for the dtype, memory layout and shape combination for which conversion returns the argument itself instead of a copy; tests pass temporaries.",
  ["randomgen/generator.pyx", "randomgen/broadcasting.pyx", "randomgen/common.pyx", "randomgen/entropy.pyx", "randomgen/wrapper.pyx", "randomgen/_seed_sequence.pyx"] + G,
  [("parameter conversion", "np.asarray / PyArray_FROM_OTF / object_to_int / int_to_array call sites"), ("extended generator", "ExtendedGenerator methods")])
p("C10", "Instances are isolated: no hidden shared state between generators",
  "Constructing, seeding, moving, restoring or drawing from one bit generator never changes a later draw or the state of any other bit generator instance, of the same or another class. "
  "Nothing any of these operations leaves behind outside the instance itself influences the values of another instance.",
  ["histories", "schedules", "configurations"], "all pairs of instances and all interleavings of their operations",
  "Tests hardly use two live instances at once and never interleave their operations systematically.",
  G + C, [("module and file level storage", "module globals of *.pyx and static data in src/*")])
p("C12", "Uniform doubles lie in [0, 1)",
  "In every reachable state every bit generator's double function returns a number that is at least 0 and strictly below 1.",
  ["inputs", "histories"], "all bit generators, configurations and reachable states",
  "The end points of the interval are hit with probability 2**-53; no sample shows that 1.0 cannot be returned.",
  C + G, [("conversions to double", "src/*: next_double helpers, uint64_to_double, and the *_double functions of the pyx files")])
p("C13", "Draw kinds are consistent views of one stream",
  "For every bit generator a double draw is the documented fixed function of one 64-bit draw (its upper 53 bits) or of two 32-bit draws (27 and 26 bits) from the same state and leaves the same state behind, "
  "and a raw draw is the native word of the generator. 32-bit draws of generators that buffer half words hand out each half of a 64-bit word exactly once, first the low and then the high half, and draws of the other "
  "kinds in between neither use nor lose the waiting half.",
  ["inputs", "histories"], "all bit generators and all reachable states",
  "Tests compare recorded streams from one start state per generator and hardly mix draw kinds.",
  C + G, [("draw functions", "src/*: next32/next64/next_double helpers and the *_uint64, *_uint32, *_double functions of the pyx files")])
p("C16", "Native memory is released exactly once",
  "Every piece of native memory that constructing, seeding, drawing from, moving, jumping, saving or restoring a bit generator allocates is owned by an instance when the operation returns, or has been released by then. "
  "Deallocating an instance releases all native memory it owns, once, with the function that matches the allocation, even if its constructor failed before setting anything, and nothing is used after it was released.",
  ["histories", "configurations"], "all bit generators and configurations, all reachable states, all operations",
  "A leak or a mismatched release has no effect on any value a test compares; tests do not watch the allocator.",
  G + C, [("allocation and release", "__init__ and __dealloc__ of every bit generator class; PyArray_malloc_aligned/PyArray_free_aligned in randomgen/src/aligned_malloc"), ("temporaries of jumps", "src/*: *_jump functions")])
p("C11", "Pickling and copying a generator continue its stream",
  "A generator (bit generator or ExtendedGenerator) rebuilt from pickle or by copy, from any reachable state and any configuration, is a separate object that produces exactly the values the original would have produced next. "
  "An ExtendedGenerator given a saved state, through its own state property or through its bit generator's, draws the saved stream from then on: at every moment it draws with the functions and the state its bit generator currently uses.",
  ["histories", "configurations", "inputs"], "all bit generators and configurations including non-default variants, all reachable states",
  "Tests pickle generators of the default configuration right after seeding; a variant chosen at construction, a buffered value or a function table cached by another object only matters for other combinations.",
  ["randomgen/generator.pyx", "randomgen/_pickle.py"] + G,
  [("generator pickling", "randomgen/generator.pyx: ExtendedGenerator.__init__, __getstate__, __setstate__, __reduce__, state"), ("constructor helper", "randomgen/_pickle.py: BitGenerators, __extended_generator_ctor"),
   ("restoring", "state getter and setter of every class")])
p("C14", "Low-level interfaces hand out the generator's own functions and state",
  "The ctypes and cffi interfaces of a bit generator contain exactly the draw functions and the state pointer the generator itself currently uses, with their correct return types, and the state is that instance's own storage; "
  "this holds whenever the interface is read, also after a state saved by another variant was assigned and for generators returned by jumped. "
  "UserBitGenerator installs the functions the user passed in the matching slots, keeps every callback alive as long as the instance lives, and values it derives from next_raw lie in the documented ranges.",
  ["histories", "configurations"], "all bit generators and configurations, all reachable states; every combination of callbacks",
  "Tests read the interface once on a fresh generator of the default configuration; stale pointers and prematurely freed callbacks usually still appear to work.",
  ["randomgen/common.pyx", "randomgen/wrapper.pyx"] + G,
  [("interfaces", "randomgen/common.pyx: ctypes, cffi, prepare_ctypes, prepare_cffi"), ("slots", "the functions of each class that fill self._bitgen"), ("user callbacks", "randomgen/wrapper.pyx: UserBitGenerator, from_ctypes, raw_*_to_*")])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = "abstract interpretation with a value-numbering domain over typed Cython trees and LLVM IR"
CHECKS = {
    "C01": ("interprocedural lockset and typestate analysis over the typed Cython trees", "Every draw site, lock acquisition and exit path of all modules of the package is enumerated."),
    "C02": (ENG + ": state getter/setter round trip against draw read sets", "All 48 deterministic generator configurations from an arbitrary reachable state; numpy primitives are modelled."),
    "C03": (ENG + ": history dependence of the state after construction and seeding", "All configurations from an arbitrary reachable state; SeedSequence output is an opaque function of the seed."),
    "C04": (ENG + ": reachability of pre-generated values after a move", "All configurations with an advance or jump method from an arbitrary reachable state, move distances as symbolic ranges."),
    "C05": (ENG + ": alias, configuration and purity comparison of original and jumped instance", "All configurations with a jumped method except the hardware source, from an arbitrary reachable state."),
    "C06": (ENG + ": purity and alias analysis of the state getter", "All 49 generator configurations."),
    "C07": (ENG + ": alias and escape analysis of everything passed in", "All 49 generator configurations; constructor, seed and state setter."),
    "C08": (ENG + ": bounds, null and provenance of every memory access of the native code", "All 48 deterministic configurations and the hardware source; the polynomial jumps of MT19937, DSFMT and SFMT are not decided."),
    "C09": ("interprocedural may-alias and mutation (effect) analysis over typed Cython trees and LLVM IR", "Every Python-callable function of every module of the package; numpy calls are modelled by a table of which results may be views."),
    "C10": (ENG + ": non-interference between two live instances, and an effect analysis of module-level storage", "All configurations with a second live instance of the same class; every function of the package for module-level storage."),
    "C11": (ENG + ": pickling round trip of generator objects against draw read sets and function tables", "All 50 deterministic generator configurations from an arbitrary reachable state; numpy's own pickling protocol is modelled."),
    "C14": (ENG + ": provenance of every pointer handed out", "All 50 deterministic generator configurations from an arbitrary reachable state, and 11 ways to construct a UserBitGenerator."),
    "C12": (ENG + ": interval analysis of the double functions", "47 configurations; DSFMT is not decided."),
    "C13": (ENG + ": equality of value terms and end states of the draw functions (hash-consed terms, random interpretation where they differ)", "All 48 deterministic configurations from an arbitrary reachable state."),
    "C16": (ENG + ": typestate of every native allocation (live, owned, released)", "All 49 generator configurations; every operation, and deallocation of used and of blank instances."),
}
NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))


na("C80", "Statistical quality of the streams",
   "The values of every bit generator are statistically indistinguishable from independent uniform values.", ["inputs"], "all seeds and stream lengths",
   "Statistical quality is a statement about distributions over very long streams.", C, [("generators", "randomgen/src/*")],
   "A statistical statement about value distributions has no source construct whose presence or absence decides it; static analysis cannot bound it.")
na("C81", "Accelerated and portable implementations agree",
   "The implementations selected for a processor with and without vector or cryptographic instructions produce the same stream.", ["configurations", "inputs"], "all supported processors",
   "Tests run on one processor.", ["randomgen/src/aesctr", "randomgen/src/chacha", "randomgen/src/philox", "randomgen/src/sfmt", "randomgen/src/dsfmt"], [("dispatch", "use_aesni, chacha_use_simd, RANDOMGEN_HAVE_SSE2 branches")],
   "Equivalence of two arithmetic implementations (intrinsics against scalar cipher rounds) needs equivalence checking of symbolic executions, which is outside this family.")
na("C82", "Jumping equals drawing the stated number of values",
   "Jumping or advancing by n reaches exactly the state that drawing n values one by one reaches.", ["inputs", "histories"], "all step counts and states",
   "Tests compare a few small steps and recorded jump targets.", C, [("jump polynomials and matrix powers", "*_jump, *_advance functions")],
   "The claim relates a loop over a runtime count to a closed form (polynomial or modular exponentiation identities), which no static rule in reach can establish.")
na("C83", "Distributions follow their documented law",
   "Samples of the extended generator's distributions follow the documented distribution for all parameters.", ["inputs"], "all parameters", "Tests check recorded values and moments.",
   ["randomgen/generator.pyx", "randomgen/src/distributions"], [("transformations", "complex_normal, multivariate_normal, wishart")],
   "Distributional correctness is numerical and statistical; it has no syntactic or dataflow formulation.")

if __name__ == "__main__":
    ids = set(CHECKS) | set(x["property"] for x in NA)
    open(os.path.join(HERE, "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in P if d["id"] in ids))
    man = dict(version=1, setup_cmd="true", checks=[dict(property=k, quick_cmd="checks/run.sh " + k, thorough_cmd="checks/run.sh " + k, technique=t, level="other", level_note=n)
               for k, (t, n) in sorted(CHECKS.items())], not_applicable=NA)
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print([d["id"] for d in P if d["id"] not in ids])
