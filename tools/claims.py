NA = {}
T = "Generated cases only: no violation among the cases listed in the evidence; trusts the harness' reference model and Go's standard library. "
c("P01","property-based testing against a reference Merkle tree",T+"Huge trees are represented by a uniform base.")
c("P02","structured-adversary fuzzing of log proofs against a reference tree",T+"Assumes SHA-256 is collision free.")
c("P03","model-based stateful testing against a map and its canonical root",T)
c("P04","structured-adversary and byte-mutation fuzzing of prefix proofs with a truth oracle",T+"Assumes SHA-256 is collision free.")
c("P05","model-based testing plus structured-adversary fuzzing of update proofs",T+"One recorded finding (lone unrevealed sibling).")
c("P27","structured fuzzing of requests (grammar-generated, client-derived and mangled, byte-damaged) against servers over generated histories",T)
c("P28","structure-aware fuzzing of responses to pending requests of every kind; fault injection into the client store, differential with an undisturbed run",T)
c("P20","property-based testing against the recursive definition, over growing histories",T)
c("P21","property-based testing against an independent ladder definition and decision oracle",T)
c("P22","property-based testing against recursive tree definitions (small sizes exhaustive within a case)",T)
c("P23","round-trip and injectivity property-based testing of every codec",T)
c("P24","mutation and random-bytes fuzzing of every decoder with a re-encoding oracle",T)
c("P25","differential testing against an independent RFC 9381 implementation and a forging adversary",T+"Discrete logarithms are assumed hard.")
c("P26","differential testing against independent implementations and mutation fuzzing",T)
c("P06","model-based stateful testing with crash-point enumeration (journal cut at chosen and at every byte)",T+"A crash is modelled as losing a suffix of the journal; loss of acknowledged but unsynced writes on power failure is out of reach.",level="fault_enumeration")
c("P07","property-based testing: generated mutation histories against a model of log, prefix tree and labels",T)
c("P08","property-based testing with fault injection: refused batches and a storage failure at every operation, before/after comparison and continued model-based history",T+"The store is assumed to discard pending writes when a write or commit fails.",level="fault_enumeration")
c("P09","model-based stateful testing: honest server and clients over generated histories, every request and response encoded",T)
c("P10","structured-adversary fuzzing: manipulated honest responses and a lying operator, against the true history",T+"Assumes SHA-256 is collision free and signatures are unforgeable.")
c("P13","model-based stateful testing of contact monitoring over generated histories, and an adversary that drops or alters looked-up versions",T)
c("P14","model-based stateful testing of owners against the true history, every message encoded",T)
c("P15","adversarial history generation (versions inserted, removed, replaced behind an owner) with a shameless prover and structured-adversary fuzzing, against the true prefix trees",T)
c("P16","model-based stateful testing of update streams with refusal, abandonment and concurrency, and structured-adversary fuzzing of responses",T)
c("P17","model-based stateful testing: an auditor fed generated mutation histories, with restarts, against models of log and prefix tree",T+"One recorded finding (lone unrevealed sibling).")
c("P18","adversarial history generation (entries of an operator's choice) and structured-adversary fuzzing of updates, against a model of what an auditor may sign",T+"Cases that run into the lone-sibling finding of P17 end early.")
c("P19","stateful testing with storage-fault injection and rewritten logs after restarts",T+"A failed write is modelled as not stored.",level="fault_enumeration")
c("P30","structured fuzzing of auditor tree heads (by forged, shifted, replayed and served heads) under generated configurations, against the stated rule",T+"Signatures are assumed unforgeable.")
c("P11","model-based stateful testing: forks and rewritten copies of generated histories shown to clients, and responses delivered late, twice and out of order",T+"Assumes SHA-256 is collision free.")
c("P12","property-based testing with a simulated clock at the exact bounds of generated configurations, and re-timestamped copies of generated histories shown to clients",T)
c("P29","model-based stateful testing of an operator and its manager under concurrent updates, and a manager that substitutes signatures",T+"Signatures are assumed unforgeable.")
c("P31","model-based testing with generated interleavings of read-only servers with a writer's storage operations, against the history at each size, and threads on a real LevelDB store",T+"Histories without removals: a reader of an older log may fail, but not lie, once a label is removed.")
c("P32","property-based testing with generated histories of timestamps, against the recursive definition of the search; and servers that do not enforce the lifetime",T)
c("P33","property-based testing of generated keys (many runs of the command), each set used and compared",T)
c("P34","property-based testing of generated configurations against the rule, and fault injection: generated truncations, extensions and deletions of every stored record of clients, servers and auditors with generated histories",T,level="fault_enumeration")
c("P35","model-based testing: every part of honest responses over generated histories compared with an independent description of the protocol",T)
c("P36","structured-adversary fuzzing of initialisation responses over adversarial histories, against the true prefix trees",T+"Assumes SHA-256 is collision free.")
c("P37","differential property-based testing of every encoding, in both directions, against an independent encoder",T+"The reference encoder was written from the protocol and the code at the pinned commit.")
