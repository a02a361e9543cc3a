"""which rules decide which property, beyond the definitions compared in props.py"""
from . import effects, extra, locks, lookups, panics, tables, terminate, xmlmeta

extra.CHECKS.update({
    "C01": [panics.c01],
    "C02": [terminate.c02_recursion, terminate.c02_loops],
    "C03": [effects.c03_state, effects.c03_order],
    "C04": [locks.c04_locks, locks.c04_cache],
    "C23": [lookups.c23_maps, lookups.c23_lists],
    "C24": [tables.c24_tables],
    "C25": [xmlmeta.c25_examples],
    "C26": [xmlmeta.c26, xmlmeta.c26_loader],
})
extra.CLAIMED = set(extra.CHECKS)
extra.LEVEL.update({
    "C01": ("other", "every place of the crate that can panic (slicing, indexing, arithmetic, unwrap and expect, diverging calls) is listed per function with the condition under which it panics, taken from the gated value graph of the function; the condition is refuted in the theory of lengths, positions, matches and boundaries, or followed into the callers, up to the public operations; an operation that could answer the internal error on which its public wrapper panics counts as a panic too"),
    "C02": ("other", "every natural loop of the crate is classified by what drives it: a loop whose continuation depends on the next item of a finite sequence made before the loop ends; every other loop is executed symbolically from the entry of the operation, and a turn that leaves all of its state unchanged under a satisfiable condition is an endless run; every cycle of the call graph is composed symbolically and its condition has to be refuted by the arguments it passes on"),
    "C03": ("other", "effect analysis over the MIR of every function of the crate: no read of state that outlives a call (statics, thread locals, interior mutability inside the instance, other than lazily computed constants and the pattern cache of C04), no call whose answer comes from clock, environment, files, threads or random seeds, no use of addresses, and no value chosen by the iteration order of a hashed collection (taint from unordered iteration to picks, positions, early exits and unsorted sequences)"),
    "C04": ("other", "typestate dataflow over the MIR of every function of the crate that holds a guard of a concurrent map or lock: at no point with a live guard is there a call that acquires the same kind of lock, directly or through callees, or blocks; and, by rely/guarantee, every value stored in a pattern cache under key k is the compilation of k, so that a hit and a miss give the same answer"),
})
extra.LEVEL["C26"] = ("other", "the embedded bytes are read from the source text of metadata.rs and decoded field by field; the territories of PhoneNumberMetadata.xml are worked out by an independent implementation of the format's inheritance and default rules; every field of every territory is compared. The tables PhoneNumberUtil::new builds are shown, by value-graph comparison of MIR, to be made of exactly those bytes")
extra.TECH.update({
    "C26": ("field-by-field comparison of the decoded byte array with the XML source, and value-graph comparison of the loader's MIR with its definition",
            "the protobuf runtime decodes as its format says"),
    "C01": ("enumeration of panic sites in MIR with gated path conditions, refuted in a theory of lengths, positions and boundaries, inter-procedurally up to the public operations",
            "sizes of things in memory are assumed not to overflow usize; sites whose condition rests on a value that is not modelled are listed as undecided and raise no alarm"),
    "C02": ("natural-loop classification on MIR, symbolic unrolling of the remaining loops with a fixpoint test, and refutation of the composed conditions of call-graph cycles",
            "a loop or cycle that is neither shown to end nor shown to repeat itself is listed as undecided and raises no alarm; termination of the regular expression engine and the standard library is assumed"),
    "C03": ("effect and taint analysis over MIR, with sanitising sorts and key-equality searches recognised",
            "state of the logging facade is assumed not to influence answers; a memo table other than the pattern cache is reported even where it happens to be keyed by everything it depends on"),
    "C04": ("guard typestate (dataflow over MIR with call-graph summaries) and rely/guarantee value analysis of what the pattern cache stores",
            "the guards are followed path-insensitively through moves, drops and unwinding; the cache part compares the stored value with re(key) for every path"),
})
CHECKS, LEVEL, TECH, CLAIMED = extra.CHECKS, extra.LEVEL, extra.TECH, extra.CLAIMED
