#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the list is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=None)))

LOG="tree/log/"; PRE="tree/prefix/"; TR="tree/transparency/"; ALG=TR+"algorithms/"; ST=TR+"structs/"

p("P01","Log tree commits to exactly the appended sequence",
  "After any sequence of appends, the log's full subtrees and root are those of the Merkle tree over the appended values, whether computed by the stored tree or incrementally from full subtrees alone. For every tree size, every set of entries, every optional earlier size the verifier retains and every optional additional size, the proof the log produces is accepted by a verifier holding the true values and yields the true full subtrees of the current and the additional size.",
  ["inputs","histories"],"all append sequences, all tree sizes up to 2^63, all entry sets, all (retained size, additional size) combinations",
  "Tests append 2000 leaves once with ten random batches and step the old size by ten; they never vary the shape systematically, cross high chunk levels or use large sizes.",
  [LOG+"log.go",LOG+"verify.go",LOG+"chunk.go",LOG+"math/math.go"],
  [("chunked storage of subtree hashes",LOG+"chunk.go"),("batch copath",LOG+"math/math.go BatchCopath"),("append",LOG+"log.go Append")],
  ["log.Tree.Append/GetBatch","log.Verifier.Evaluate","log.Root","log.Append"])
p("P02","Log proofs cannot prove a false entry or a rewritten history",
  "No log proof convinces a verifier of a leaf value, an earlier tree head or an additional tree head that differs from the one the accepted root commits to: if a verifier evaluates any proof, honest or manipulated, to the true root, then every leaf it was given is the true leaf, every full subtree it retained is a true one, and any additional subtrees it returns are the true ones. Malformed input is rejected with an error.",
  ["inputs"],"all manipulations of values, proofs, indices, retained subtrees and sizes",
  "Tests only exercise honest proofs.",
  [LOG+"verify.go",LOG+"math/math.go"],[("re-hashing of every claimed node and comparison with retained subtrees",LOG+"verify.go evaluate/addToMap")],["log.Verifier.Retain/Evaluate"])
p("P03","Prefix tree is a versioned map with a canonical root",
  "The prefix tree behaves as a sequence of immutable map versions: after any history of batched additions and removals, searching any set of keys in any set of versions reports, in request order, exactly the commitments present in that version and a proof that verifies against that version's root. The root depends only on the map's contents, not on the history that produced it, and rejected batches (duplicate add, removal of a missing key, wrong length) leave every version as it was.",
  ["histories","inputs"],"all histories of add/remove batches, all search batches across versions, trees spanning many storage tiles",
  "Tests use a few insertions and one version pattern, and compare against roots produced by the same code.",
  [PRE+"prefix.go",PRE+"batch.go",PRE+"nodes.go"],[("tile splitting and external nodes",PRE+"nodes.go splitIntoTiles"),("batched descent with tile cache",PRE+"batch.go"),("add/remove with collapse",PRE+"prefix.go addRemoveEntries")],["prefix.Tree.Mutate/Search","prefix.Verify"])
p("P04","Prefix proofs cannot lie about presence, absence or value",
  "For a fixed prefix-tree root, no proof in any encoding, however constructed, makes verification succeed for a key with the wrong presence, or for a present key with the wrong commitment. Verification of arbitrary proofs never crashes.",
  ["inputs"],"all proofs and entry lists, including ones assembled from the real tree by an adversary who chooses result types, depths, leaves and copath elements",
  "Tests verify honest proofs and a handful of fixed malformed ones.",
  [PRE+"verify.go",PRE+"proof.go"],[("skeleton reconstruction from results",PRE+"verify.go addToSkeleton")],["prefix.Evaluate/Verify/EvaluateBeforeAfter"])
p("P05","Prefix update proofs reproduce the roots before and after",
  "For every accepted prefix-tree batch, evaluating the returned proof with the added and removed entries yields exactly the root before the batch and, unless removals leave a lone unrevealed sibling (recorded finding), exactly the root after it. Entries that are removed and added again in one batch are included.",
  ["histories","inputs"],"all batches of additions and removals on all reachable trees",
  "Tests cover additions only on one random tree, plus one removal.",
  [PRE+"verify.go",PRE+"prefix.go"],[("before/after evaluation",PRE+"verify.go EvaluateBeforeAfter")],["prefix.Tree.Mutate","prefix.EvaluateBeforeAfter"])
p("P06","Database commits are atomic, durable and isolated",
  "A batch of writes to the persistent transparency store becomes visible and durable only by commit and then in full: at every crash point the reopened store holds exactly the state of some completed prefix of commits, at least up to the last one acknowledged, never a mixture. A writer reads its own pending writes, deletes hide earlier values, its read-only clones see committed data only and refuse writes, a missing value is refused, a database that can not be read or written makes operations fail (it is not taken for one that holds nothing), and the in-memory store, used by one writer, gives the same answers.",
  ["histories","crash_points"],"all operation sequences, all reopen points, all truncation points of the journal",
  "There is no test of the persistent store at all.",
  ["db/leveldb.go","db/memory/memory.go","db/db.go"],[("single write batch applied on commit","db/leveldb.go Commit"),("pending-write overlay","db/leveldb.go BatchGet")],["db.NewLDBTransparencyStore","db.TransparencyStore"])
p("P07","Mutations extend the log exactly as requested",
  "After any history of accepted mutations the log has one entry per mutation, earlier entries never change, timestamps never decrease, and every published tree head carries a valid signature over the root recomputed from all entries. Each label's versions are numbered consecutively from zero in insertion order with the requested values retrievable and opening their commitments, removing a label takes away all of its versions (if it was not modified too recently) so that it counts from zero again, and each mutation's audit update lists exactly the versions added and removed, with a proof for them that leads to the previous prefix root.",
  ["histories"],"all histories of add/remove batches over several labels, in every deployment mode and with real and simulated cipher suites, reopening the tree at any point",
  "Tests apply two or three fixed mutations.",
  [TR+"mutate.go",TR+"crypto.go",TR+"transparency.go"],[("version assignment and index",TR+"mutate.go"),("tree head signature",TR+"mutate.go")],["transparency.Tree.Mutate/TreeHead/Search"],
  [dict(name="label index",meaning="positions of the log entries that created each version",where=TR+"crypto.go")])
p("P08","A rejected or failed mutation leaves no trace",
  "When a mutation is refused (removing a label that was modified too recently, a label that is too long) or the database fails at any point during it, the published tree head, the log and every label are as before, answers to searches stay the same, and a later valid mutation behaves as if the failed one had never been attempted.",
  ["fault_sequences","histories"],"all invalid batches and every position of an injected storage error, in any history",
  "Tests contain no failing mutation and no storage fault.",
  [TR+"mutate.go","db/leveldb.go","db/memory/memory.go"],[("validation before writes, one commit at the end",TR+"mutate.go Mutate")],["transparency.Tree.Mutate","db.TransparencyStore"])
p("P09","An honest search always verifies and returns the right value",
  "For any log history, any label never removed and any client state reached by earlier honest interactions, the response of an honest server to a greatest-version or fixed-version search is accepted by the client and carries the value of the requested version (the latest one for greatest-version searches), also after encoding and decoding; a client that searches for a label or version that does not exist is told so. A label that was removed, and perhaps added again, is found or absent accordingly by greatest-version searches from the distinguished log entry on that covers the removal. The same client can repeat searches and mix them with others indefinitely.",
  ["histories","inputs"],"all log histories with arbitrary entry spacing, all labels and versions, all client histories, all deployment modes",
  "No test connects the client to the server at all.",
  [TR+"client.go",TR+"client_crypto.go",TR+"transparency.go",ALG+"search.go",ALG+"proof_handle.go",ALG+"data_provider.go"],[("server proof production",TR+"transparency.go Search"),("client proof verification",TR+"client.go, client_crypto.go"),("search algorithms",ALG+"search.go")],["transparency.Tree.Search","transparency.Client.GreatestVersionSearch/FixedVersionSearch"])
p("P10","A manipulated search response is never believed",
  "If a client accepts a search response that verifies against the honestly signed tree head, the value and the version in it are the true ones for that request, and a search for the greatest version reports that a label does not exist only if it does not; changing the opening, value, version, ladder proofs, tree proofs, timestamps or roots of an honest response so that they are no longer true, answering from an older version, or substituting another request's response is rejected. (A ladder may name commitments of versions that the search does not prove; those count for nothing until a later response proves them.) Rejection leaves the client's stored state unchanged.",
  ["inputs","histories"],"all single and combined manipulations of honest responses, including structure-aware ones",
  "No test feeds the client any response.",
  [TR+"client.go",TR+"client_crypto.go",ALG+"search.go",ALG+"proof_handle.go","crypto/commitments/commitments.go"],[("VRF, commitment, prefix and log proof verification",TR+"client_crypto.go")],["transparency.Client search VerifyFunc"])
p("P11","Forks and rollbacks of the log are rejected",
  "Once a client has accepted a tree head it only ever accepts tree heads of logs that extend the very log it saw: responses from a forked log with valid signatures, and responses with an older tree head, are rejected in every kind of request and leave the client's state unchanged. This also holds when requests overlap: a response to a request made before the client's view moved on does not take the view back.",
  ["histories","inputs"],"all pairs of histories sharing a strict prefix and all sizes at which the client last looked",
  "No test presents two views to one client.",
  [TR+"client_crypto.go",LOG+"verify.go",TR+"client.go"],[("retained full subtrees and log entries",TR+"client_crypto.go"),("consistency proof",LOG+"verify.go")],["transparency.Client VerifyFunc for every request type"])
p("P12","Clients enforce clock bounds and monotone timestamps",
  "A client accepts a tree head only if the rightmost timestamp lies within the configured distance ahead of and behind its own clock, to the exact bound, and only if the timestamps it is shown never decrease from left to right, including against the timestamps it retained.",
  ["inputs","histories","configurations"],"all clock offsets around the bounds, all configurations, all non-monotone timestamp placements",
  "No test controls the clock or the timestamps a client sees.",
  [TR+"client_crypto.go",ALG+"algorithms.go",ALG+"data_provider.go"],[("clock window check",TR+"client_crypto.go"),("UpdateView monotonicity",ALG+"algorithms.go")],["transparency.Client VerifyFunc"])
p("P13","Contact monitoring succeeds when honest, and ends",
  "After a client has looked a label up, its monitoring requests are answered by an honest server with proofs it accepts for as long as the log grows. The client wants to monitor the label as soon as that can cover a version it looked up, keeps monitoring each version (also when requests overlap) until it is covered by a distinguished log entry, asks for nothing when the log has not grown in a way that matters to it, and stops once every lookup is covered. A response in which a version the client looked up is no longer part of the log it monitors is rejected.",
  ["histories"],"all histories of searches and log growth before each monitoring round; all logs that drop or alter a looked-up version",
  "Tests run the algorithm against a mock proof handle with a few hand-written layouts.",
  [ALG+"monitor.go",TR+"monitor.go",TR+"client.go"],[("monitoring map and binary ladders",ALG+"monitor.go")],["transparency.Client.Monitor","transparency.Tree.ContactMonitor"],
  [dict(name="monitoring map",meaning="log position to greatest version proven there",where=ALG+"monitor.go ContactState")])
p("P14","Label owners can initialise, update and monitor",
  "An owner that initialises ownership at any allowed starting entry, inserts new versions through the server and monitors as the log grows is accepted at every step by an honest server's responses, across pagination and across storing and reloading its state; its view of its versions is exactly the versions that exist, the newest version an update returned is monitored until a distinguished log entry covers it, and its monitoring catches up with the log and then rests.",
  ["histories"],"all interleavings of initialisation, own updates, monitoring and unrelated growth",
  "No test runs the client; server monitor tests check only that no error is returned.",
  [ALG+"monitor.go",ALG+"update.go",TR+"monitor.go",TR+"update.go",TR+"client.go"],[("owner state",ALG+"monitor.go OwnerState"),("owner monitoring",ALG+"monitor.go OwnerMonitor")],["transparency.Client.OwnerInit/Update/Monitor","transparency.Tree.OwnerInit/OwnerMonitor/Update"])
p("P15","Owner monitoring exposes versions the owner did not make",
  "If a version that a search for the owner's newest one looks up (such as the next version) appears in the log although its owner did not create or accept it through an update response, or the owner's newest version disappears or is replaced, then the owner's monitoring never advances over a distinguished entry in which this is so, and no update response is accepted whose preceding log entry, if not distinguished, contains such a version. Rejections leave the owner's stored state unchanged.",
  ["histories"],"all histories in which unauthorised versions are inserted or owned versions removed at arbitrary points",
  "No test inserts a version behind an owner's back.",
  [ALG+"monitor.go",ALG+"update.go",TR+"client.go"],[("exact greatest-version check at distinguished entries",ALG+"monitor.go OwnerMonitor")],["transparency.Client.Monitor/Update"])
p("P16","Updates assign versions exactly once and prove it",
  "An update request is either applied exactly once, its values becoming the next consecutive versions in one log entry, or (refused by the sequencer, abandoned before sequencing, or advertising versions that do not exist) not at all. Its responses, first for the versions the requester did not know, then for the new ones and concurrent ones, are accepted in order, and after the last one the requester knows every version. A manipulated response is rejected and changes no stored client state; only the position or commitments of versions in a distinguished entry may be left to the owner's monitoring, which then never advances over that entry.",
  ["histories","schedules","inputs"],"all update requests by owners over growing logs, batched with other labels, cancelled at any stage, and all manipulations of responses",
  "No test calls Update on server or client.",
  [TR+"update.go",TR+"client.go",ALG+"update.go"],[("updater protocol",TR+"update.go"),("stream verifier",TR+"client.go StreamVerifier")],["transparency.Tree.Update","transparency.Client.Update","StreamVerifier.Verify"])
p("P17","An auditor following the log signs the log's own root",
  "An auditor fed every update an honest log publishes, from its start and in order, accepts each one (unless a removal leaves a lone unrevealed sibling, a recorded finding) and produces a signed tree head that verifies for the log's actual size and root, which the log in turn accepts and serves. Its state survives encoding, commit and reload at any point.",
  ["histories"],"all mutation histories of a log in third-party auditing mode, with reloads between any two updates",
  "Tests audit one fixed history of additions.",
  [TR+"auditor/auditor.go",TR+"auditor/state.go",TR+"mutate.go"],[("before/after prefix evaluation and incremental log root",TR+"auditor/auditor.go")],["auditor.Auditor.Process/Commit/TreeHead","transparency.Tree.Mutate"])
p("P18","An auditor refuses every update it must not sign",
  "An auditor refuses an update whose prefix root before differs from the one it holds, whose timestamp is smaller than the previous one, which adds a key already present or removes a key that is absent, or which removes a version that was added too recently to have been covered by a distinguished log entry, or which lists entries twice or out of order. A refusal leaves its state and its signed head unchanged, also after a reload.",
  ["histories","inputs"],"all manipulated or reordered updates at any point of any history",
  "Tests contain a few fixed bad updates on a young log.",
  [TR+"auditor/auditor.go",TR+"auditor/state.go",PRE+"verify.go"],[("update validation",TR+"auditor/auditor.go"),("inserted-entry memory",TR+"auditor/state.go")],["auditor.Auditor"])
p("P19","An auditor's promise is on disk before it is given out",
  "An auditor releases a signature for a tree head only after the state it is based on has been stored; when storing fails the head it reports does not advance, a retry either stores the state or fails again, and after a restart from whatever is stored it continues the same log and never signs two different roots for one size.",
  ["fault_sequences","crash_points"],"every position of a storage failure or restart in every audit history",
  "No test injects a storage fault into the auditor.",
  [TR+"auditor/auditor.go",TR+"auditor/state.go"],[("commit",TR+"auditor/auditor.go Commit")],["auditor.Auditor.Commit","db.AuditorStore"])
p("P20","Distinguished log entries follow the definition and persist",
  "The entries treated as distinguished are exactly those given by the recursive definition over timestamps and the monitoring window; an entry once distinguished stays distinguished as the log grows; and the rightmost and previous-rightmost ones are computed to agree with that definition for every tree size.",
  ["inputs","histories","configurations"],"all timestamp sequences, windows and tree sizes",
  "Tests check a few fixed timestamp layouts.",
  [ALG+"algorithms.go",TR+"math/math.go",ST+"config.go"],[("recursion down the implicit search tree",ALG+"algorithms.go")],["algorithms.RightmostDistinguished/PreviousRightmost/UpdateView"])
p("P21","Binary ladders are finite, small and decide correctly",
  "For every 32-bit version number, the search and monitoring ladders terminate, have a length logarithmic in the version, and their lookups answered from a label whose greatest version is g decide exactly whether g is smaller than, equal to or greater than the target; leaving out lookups already answered elsewhere never changes the decision, and answers that go on after the deciding one, or end before it, are refused.",
  ["inputs"],"all target and greatest versions in 32 bits and all consistent sets of omitted lookups",
  "Tests print a few ladders for small versions.",
  [TR+"math/ladders.go",TR+"math/tracker.go"],[("base ladder and binary search",TR+"math/ladders.go")],["math.SearchBinaryLadder/MonitoringBinaryLadder/InterpretSearchLadder"])
p("P22","Tree arithmetic matches the tree definitions",
  "For every tree size up to the maximum, the log tree's and the implicit search tree's parent, child, sibling, path, frontier, full-subtree and copath functions agree with the recursive definition of the tree, and every function terminates.",
  ["inputs"],"all nodes of all tree sizes up to 2^63",
  "Tests compare tables for one or two small sizes.",
  [LOG+"math/math.go",TR+"math/math.go"],[("bit manipulation formulas",LOG+"math/math.go, "+TR+"math/math.go")],["tree/log/math","tree/transparency/math"])
p("P23","Every wire and stored structure survives encoding",
  "Encoding then decoding any valid request, response, proof, tree head, audit update, client state, label state or auditor state yields the same structure and consumes exactly the encoded bytes, in every deployment mode; distinct structures have distinct encodings, in particular everything that is signed, hashed, committed to or evaluated by the VRF. Values too long for their length field are refused with an error.",
  ["inputs","configurations"],"all well-formed values of all structures including boundary lengths and absent optionals",
  "There are no codec tests.",
  [ST+"structs.go",ST+"operations.go",ST+"client.go",ST+"crypto.go",ST+"tree_head.go",ST+"proofs.go",ST+"third_party.go",ST+"config.go",TR+"auditor/state.go",PRE+"proof.go"],[("length-prefixed codecs",ST+"structs.go")],["structs.New*/Marshal","prefix.NewPrefixProof"])
p("P24","Decoders handle arbitrary bytes safely",
  "Decoding arbitrary bytes as any structure either returns an error or a structure whose re-encoding is the bytes consumed; it never crashes, loops, or allocates memory out of proportion to the input.",
  ["inputs"],"all byte strings for every decoder",
  "There are no decoding tests.",
  [ST+"structs.go",ST+"operations.go",ST+"client.go",PRE+"proof.go",TR+"auditor/state.go"],[("bounded reads",ST+"structs.go")],["structs.New*","prefix.NewPrefixProof"])
p("P25","The VRF is complete, deterministic, unique and RFC 9381",
  "For every key and message both VRFs produce a proof that verifies to the same output on every evaluation and as an independent implementation of RFC 9381 computes; verification accepts no other output for that key and message, and rejects altered messages, keys, proofs and scalars that are not reduced. Malformed keys and proofs give errors, never crashes.",
  ["inputs"],"all keys, messages and proof strings",
  "Tests run the RFC's three vectors per suite.",
  ["crypto/vrf/p256/p256.go","crypto/vrf/edwards25519/edwards25519.go"],[("ECVRF prove/verify","crypto/vrf")],["vrf.PrivateKey.Prove","vrf.PublicKey.Verify"])
p("P26","Commitments and signatures bind what they cover",
  "A commitment opens only with the opening and body it was made from, and a signature of either cipher suite verifies only for the key and the message that were signed; keys survive parse and serialise, and malformed keys or signatures are rejected without crashing. Openings are freshly random for every stored version.",
  ["inputs"],"all bodies, openings, keys, messages and mutations of them",
  "Tests check one commitment and no signatures.",
  ["crypto/commitments/commitments.go","crypto/suites/kt_sha256_p256.go","crypto/suites/kt_sha256_ed25519.go"],[("HMAC commitment","crypto/commitments"),("ECDSA/Ed25519","crypto/suites")],["commitments.Commit/Verify","suites.CipherSuite"])
p("P27","The server survives arbitrary requests",
  "Whatever decodable request a client sends, in any operation and at any log size including zero, the server answers or returns an error in bounded time and memory without crashing, and the log and the answers to other clients are unaffected.",
  ["inputs","histories"],"all request field values including extremes, on any log",
  "Tests send a few well-formed requests.",
  [TR+"transparency.go",TR+"monitor.go",TR+"update.go",TR+"crypto.go",ALG+"search.go",ALG+"monitor.go"],[("request validation",TR+"monitor.go")],["transparency.Tree methods"])
p("P28","The client survives arbitrary responses",
  "Whatever decodable response is handed to a client for any pending request, verification returns an error or accepts in bounded time and memory and never crashes; on every error the stored client state is byte-for-byte unchanged and the client continues to work with an honest server. When an operation of the client's own store fails, while a request is made or a response is verified, an error is returned (a client that cannot read its state does not act as one that knows nothing or has nothing to monitor), and nothing is stored in part.",
  ["inputs","histories"],"all response field values including extremes and truncated or repeated parts, in any client state",
  "No test feeds the client any response.",
  [TR+"client.go",TR+"client_crypto.go",ALG+"proof_handle.go",ALG+"data_provider.go",PRE+"verify.go"],[("state written only after full verification",TR+"client.go")],["transparency.Client VerifyFuncs","StreamVerifier"])
p("P29","Third-party management: only operator-signed versions are accepted",
  "With a third-party manager, every value a client accepts carries the service operator's valid signature over this deployment, label, version and value; a manager's log refuses or clients reject values signed for another label, version, value or key. The operator's version counter hands out disjoint consecutive ranges that match the versions the manager assigns. Whatever fails (the counter, the manager), the operator signs no version of a label twice and asks the manager for nothing when its counter fails; requests and answers pass through it unchanged.",
  ["histories","inputs"],"all managed update histories and all signature substitutions",
  "Tests cover neither signatures nor the managed log.",
  [TR+"managed/managed.go",TR+"update.go",TR+"client_crypto.go","db/memory/memory.go"],[("operator signature check",TR+"client_crypto.go"),("version counter","db ManagedLogStore")],["managed.ManagedLog","transparency.Tree.ManagerUpdate","Client VerifyFunc"])
p("P30","Third-party auditing: clients require a fresh, valid auditor head",
  "With a third-party auditor, a client accepts a new tree head only with an auditor tree head that the configured auditor signed for the root of the same log at a size no larger than the log's, with a timestamp neither later than the log's newest nor further behind it than the configured lag, and, if the client retains an auditor head, only if that one reaches the configured audit start position; removing, altering, replaying from another log or configuration, or letting it lapse leads to rejection. An honest log with a timely auditor is always accepted, and the client then retains that auditor head. New clients of a log that dismissed its auditor, or has one since recently, are served like those of any log of that mode.",
  ["histories","inputs","configurations"],"all audit histories, lags around the bound, and all manipulations of the auditor head",
  "No test covers the client's auditor rules.",
  [TR+"client_crypto.go",TR+"transparency.go"],[("auditor head verification",TR+"client_crypto.go")],["transparency.Client VerifyFunc"])
p("P31","Concurrent readers always see one committed log",
  "Read-only servers on clones of the store, running while a writer keeps committing mutations, always answer from a consistent committed state: every answer verifies at the client and no answer mixes two log sizes, for every placement of reads between and during commits. The removal of one label does not disturb answers about others; a reader that still sees a log with the removed label can not answer about that label (recorded finding), but nothing false is believed.",
  ["schedules","histories"],"all interleavings of reader steps with the writer's storage operations",
  "No test runs a reader next to a writer.",
  [TR+"transparency.go",TR+"crypto.go","db/leveldb.go","db/memory/memory.go"],[("read-only clones",  "db/leveldb.go Clone"),("tree reload per request",TR+"transparency.go")],["transparency.Tree on db.TransparencyStore.Clone"])
p("P32","Expired versions are refused by both sides, others are found",
  "With a maximum lifetime, a fixed-version search ends exactly as the definition says for every history of timestamps: the version is found, does not exist, or is expired (its terminal entry is not reached past an unexpired distinguished entry), to the exact millisecond. An honest server and the client agree; a client never accepts an expired version from a server that does not enforce the lifetime, and greatest-version searches are unaffected by it.",
  ["histories","configurations","inputs"],"all histories of timestamps and versions around lifetimes and monitoring windows",
  "The tests use a handful of fixed trees.",
  [TR+"algorithms/search.go",TR+"structs/config.go",TR+"client.go"],[("fixed-version search with expired entries",TR+"algorithms/search.go"),("lifetime",TR+"structs/config.go IsExpired")],["Client.FixedVersionSearch VerifyFunc","transparency.Tree.Search"])
p("P33","Generated keys work and are fresh",
  "Every set of keys that the key generation command prints, for either cipher suite, is accepted by that suite's parsers, the printed public keys belong to the private ones, signatures and VRF proofs made with them verify, and no secret is generated twice; so are the keys of the VRF key generator.",
  ["inputs"],"all runs of the key generator (its randomness)",
  "No test runs the command; rare keys (leading zero bytes) need thousands of runs.",
  ["cmd/generate-keys/main.go","crypto/vrf/p256/p256.go","crypto/suites/kt_sha256_p256.go","crypto/suites/kt_sha256_ed25519.go"],[("key generation","cmd/generate-keys/main.go")],["cmd/generate-keys","p256.GeneratePrivateKey"])
p("P34","Impossible configurations and damaged records are refused",
  "A client is made exactly for configurations whose third-party keys are those its deployment mode uses and whose maximum lifetime, if there is one, exceeds the reasonable monitoring window; an auditor exactly for a third-party auditing log whose auditor key it holds. A stored record that can not have been written, because it is cut short or extended, makes every operation that needs it fail with an error and leave the store as it was: a client's state and label states, an auditor's state, a server's tree heads, log entries, prefix tree tiles and values (and log chunks that do not consist of whole hashes). It is never taken for a missing one, and no missing or damaged record of a server makes a client believe something false. Likewise a read that fails while a server works on a request is reported as an error (an update's stream does not just end), never answered as if the record did not exist, and the same server answers correctly afterwards.",
  ["configurations","faults","histories"],"all combinations of modes, keys, windows and lifetimes; all truncations and extensions of every stored record, in all histories",
  "No test uses an invalid configuration or a damaged store.",
  [TR+"client.go",TR+"client_crypto.go",TR+"transparency.go",TR+"crypto.go",TR+"auditor/auditor.go",TR+"algorithms/proof_handle.go",PRE+"nodes.go"],[("configuration check",TR+"client.go NewClient"),("decoding of stored records",TR+"client.go getState, transparency.go NewTree, auditor.go NewAuditor")],["transparency.NewClient","transparency.NewTree","auditor.NewAuditor","requests of Client and Tree"])
p("P35","Honest responses contain exactly what the protocol prescribes",
  "The proof in every response of an honest server consists of exactly the timestamps, prefix tree lookups (which entry, which versions, in which order), prefix roots, binary ladder steps and commitments that the protocol prescribes for that request, the log at that moment and what the client said it retains: nothing that is due is left out, nothing is repeated that the client retains or that an earlier lookup of the same response already implies, and nothing beyond it is disclosed. (How many distinguished entries one owner monitoring response covers is the server's choice, as long as there is progress.)",
  ["histories","inputs"],"all histories, requests of every kind, and retained views",
  "Server and client share the code that decides what a proof contains, so tests that run one against the other can not see a change of both.",
  [ALG+"search.go",ALG+"monitor.go",ALG+"update.go",ALG+"algorithms.go",ALG+"data_provider.go",ALG+"proof_handle.go",TR+"transparency.go",TR+"monitor.go",TR+"update.go",TR+"math/ladders.go",TR+"math/math.go",TR+"math/tracker.go"],
  [("search algorithms",ALG+"search.go"),("monitoring",ALG+"monitor.go"),("greatest-version update",ALG+"update.go"),("which versions were already looked up",ALG+"data_provider.go")],["transparency.Tree responses"])
p("P36","Ownership starts from the true versions",
  "A client that initialises ownership of a label accepts only the label's true greatest versions at its starting entry and at the unexpired entries left of it that are inspected: no false version, no start that is expired or not distinguished, and no log in which versions vanish from one inspected entry to the next or change, whatever the server sends. Acceptance stores exactly the starting entry and the version there and leaves contact monitoring alone; rejection leaves the stored state unchanged.",
  ["inputs","histories"],"all histories, also of operators that insert, remove and replace versions, and all responses",
  "No test initialises ownership against a server that lies.",
  [ALG+"monitor.go",TR+"client.go",TR+"client_crypto.go",TR+"monitor.go"],[("initialisation of owner monitoring",ALG+"monitor.go"),("acceptance",TR+"client.go")],["Client.OwnerInit VerifyFunc"])
p("P37","The wire format and what is signed are the protocol's",
  "Every request, response, proof, tree head, audit update and stored client, label and auditor state is encoded exactly as the protocol's presentation language prescribes (field order, big-endian integers, length prefixes, presence bytes, parts that depend on the deployment mode), and so is everything that is signed, committed to or given to the VRF: configurations, tree heads, auditor tree heads, operator-signed values, committed values and VRF inputs. A peer that follows the protocol therefore understands and verifies what this implementation produces, and is understood by it. (Entries of a stored client state may come in any order.)",
  ["inputs","configurations"],"all well-formed values of all structures in every deployment mode",
  "Tests never look at encodings, and a round trip does not notice when both directions change.",
  [TR+"structs/structs.go",TR+"structs/operations.go",TR+"structs/client.go",TR+"structs/crypto.go",TR+"structs/tree_head.go",TR+"structs/proofs.go",TR+"structs/third_party.go",TR+"structs/config.go",TR+"auditor/state.go",PRE+"proof.go"],[("codecs",TR+"structs/structs.go")],["structs Marshal and New*","prefix.PrefixProof","auditor.AuditorState"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
