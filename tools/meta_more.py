PDIFF = "property-based testing: generated programs, differential against a reference interpreter"

prop("C14", "Every PVM program runs exactly as the machine specification says",
     """For every program, register file, memory layout and gas limit, running the virtual machine leaves exactly the
     specified registers, memory, remaining gas and exit reason: halt, panic, out of gas, page fault with its address,
     or host call with its index. No program, however malformed, makes the machine crash or escape its memory.""",
     ["inputs"], "all programs over all opcodes and operand shapes, register values, access maps and gas limits",
     """The interpreter has no unit tests; the opcode, operand-length, sign-extension and boundary-value product is far
     beyond samples and a single wrong corner forks the chain.""",
     ["pvm/pvm-core/src/interpreter", "pvm/pvm-core/src/program", "pvm/pvm-core/src/state", "pvm/pvm-core/src/utils.rs"],
     [("single-step interpreter", "pvm/pvm-core/src/interpreter"), ("program decoding", "pvm/pvm-core/src/program")],
     PDIFF, MODEL, ["registers", "memory", "gas counter", "exit reason"])

prop("C15", "Work packages are authorized exactly as their authorizer code decides",
     """For every work package and chain state, authorization yields exactly the outcome, output trace and gas use that
     the authorizer's code, looked up as of the lookup anchor, produces on the core index. The code can only read its
     gas counter and the package's data, sees exactly that data, and no package or code can crash or abort the node.""",
     ["inputs"], "all packages, authorizer programs and their host calls, preimage histories and core indices",
     """There is one happy-path host-call test per data kind; outcome, gas and data for arbitrary programs, offsets,
     lengths and unavailable or malformed code are not sampled.""",
     ["pvm/pvm-invocation/src/is_authorized", "pvm/pvm-host/src/host_functions/general", "pvm/pvm-interface/src/invoke.rs"],
     [("authorization invocation", "pvm/pvm-invocation/src/is_authorized"), ("data access", "pvm/pvm-host/src/host_functions/general")],
     "property-based testing: generated authorizers and packages, differential against a reference model", MODEL,
     ["outcome", "trace", "gas used"])

prop("C16", "Work items are refined exactly as their code and host calls specify",
     """For every work item, refinement yields exactly the outcome, gas use and exported segments that the service's code,
     looked up as of the lookup anchor, produces: each host call (fetch, historical lookup, export, and creation, access
     and invocation of inner machines) has exactly its specified effect, result, limits and cost. Nothing a program does
     escapes its own memory or its inner machines, or crashes or aborts the node.""",
     ["inputs", "histories"], "all sequences of refinement host calls with arbitrary arguments, inner programs and gas limits",
     """Tests call single host functions on small memories; inner machines resumed after faults, reused indices, page
     access changes, export limits and odd ranges in sequence are not sampled.""",
     ["pvm/pvm-invocation/src/refine", "pvm/pvm-host/src/host_functions/refine", "pvm/pvm-host/src/inner_vm.rs", "pvm/pvm-interface/src/invoke.rs"],
     [("refinement invocation", "pvm/pvm-invocation/src/refine"), ("refinement host calls", "pvm/pvm-host/src/host_functions/refine")],
     "property-based testing: generated host-call scripts (stateful), differential against a reference model", MODEL,
     ["outcome", "output", "gas used", "exported segments"])

prop("C17", "Merkle commitments and their proofs are exactly the specified ones",
     """For every list of blobs, the constant-depth and well-balanced Merkle trees, their traces, justifications and paged
     proofs are exactly the specified ones, so every leaf is provable against the root and nothing else is. For every
     sequence of appended roots, the accumulated mountain range and its super-peak are exactly the specified ones.""",
     ["inputs", "histories"], "all lists of blobs of any count and length, page sizes and positions, and all append histories",
     "Tests compute a handful of fixed trees; odd counts, empty lists, page boundaries and long append histories are not sampled.",
     ["merkle/src", "state/src/types/history.rs", "pvm/pvm-invocation/src/refine"],
     [("Merkle trees", "merkle/src/well_balanced_tree.rs"), ("mountain ranges", "merkle/src/mmr.rs")],
     "property-based testing: generated trees and append histories, differential against a reference model", MODEL, ["roots", "proofs", "peaks"])

prop("C18", "Data survives in any sufficient subset of its erasure-coded chunks",
     """For every blob, encoding yields exactly the specified chunks, and any subset of them that is large enough, in any
     order, recovers exactly the original data. Too few, repeated or misshapen chunks give an error, never wrong data
     or a crash.""",
     ["inputs", "fault_sequences"], "all blobs, both code sizes, all subsets and orders of chunks, and lost or damaged chunks",
     "Fixture tests cover a few blobs and chunk sets; the space of subsets, sizes and damage is not sampled.",
     ["common/erasure-coding/src"],
     [("encoding and recovery", "common/erasure-coding/src/lib.rs")],
     "property-based testing: generated blobs and chunk losses, differential against an independent Lagrange code", MODEL, ["chunks", "recovered data"])

prop("C19", "Signatures and VRF proofs bind exactly one key, context and message",
     """For every key, ring, context and message, a made signature or VRF proof verifies and its output is determined by
     key and context alone. Nothing else verifies: not another message, key, ring or context, an altered or malformed
     proof, nor a second output for the same key and context.""",
     ["inputs"], "all keys including malformed and small-order ones, rings with padding, contexts, messages and proof alterations",
     "Tests sign and verify with one well-formed key; forged, malleated and padded inputs are not sampled, yet block authorship and ticket fairness rest on them.",
     ["crypto/src"],
     [("VRF and ring proofs", "crypto/src/vrf"), ("signature verification", "crypto/src/signers")],
     "property-based testing: generated keys, messages and forgeries, round trip and against an independent verifier", MODEL, ["verification result", "VRF output"])

prop("C20", "The stored state and its root always equal what was committed",
     """For every sequence of additions, changes and removals of state entries, in any order, from one or several tasks and
     whatever the cache sizes, every read yields the latest value and prior-state reads the committed one. Committing
     leaves exactly the resulting state with its specified root; staged, dropped or rolled back changes leave no trace,
     and applying any one of several staged alternatives yields exactly its state.""",
     ["histories", "schedules", "configurations"], "all histories of blocks over all key sets, value sizes, commit and rollback decisions, cache sizes and task splits",
     "Tests insert random keys once and commit; repeated changes of one entry, staged alternatives, evictions and keys sharing long prefixes in sequence are not sampled.",
     ["state/src/manager.rs", "state/src/cache.rs", "state/src/merkle_interface", "state/state-merkle-v2/src", "db/src/core"],
     [("state cache", "state/src/cache.rs"), ("trie updates", "state/src/merkle_interface/manager.rs"), ("staging and commit", "state/src/manager.rs")],
     "stateful property-based testing: generated histories against a map and a reference trie", MODEL, ["state entries", "state root", "staged changes"])

prop("C21", "An authored block is the valid block that its slot and state call for",
     """For every chain state and slot that a node's key owns, the block the node authors is valid for every other node, names
     the right author, parent, root, markers, entropy proof and seal, and leaves the author exactly in the state that
     importing the block produces. A node that does not own the slot authors nothing and changes nothing.""",
     ["inputs", "histories"], "all chain states, slots including skipped epochs, validator sets, and sequences of authored and imported blocks",
     "Tests author one block at a fixed slot of the genesis chain; epoch changes, rotated validator sets and non-empty states are not sampled.",
     ["node/src/roles/author.rs", "node/src/roles/manager.rs", "transition/src/state_prediction"],
     [("authoring", "node/src/roles/author.rs"), ("slot ownership", "node/src/roles/manager.rs"), ("prediction", "transition/src/state_prediction")],
     "stateful property-based testing: generated chains authored and imported, differential against a reference model", MODEL,
     ["authored header", "state of the author", "decision of importers"])

prop("C22", "Blocks count as future blocks exactly until their slot begins",
     """At every instant, the current slot, the time to the next slot and the verdict whether a slot is in the future follow
     from the common era and the six-second slots alone. A block is refused as a future block exactly while its slot has
     not begun, and is accepted from its first instant on.""",
     ["inputs"], "all clock readings, before, at and after slot boundaries and the common era, and all slots",
     "Tests fix one clock reading seven seconds into the era; boundaries and blocks arriving around them are not sampled.",
     ["clock/src", "state/src/types/timeslot.rs", "node/src/roles/importer.rs"],
     [("clock", "clock/src"), ("future check", "state/src/types/timeslot.rs"), ("import", "node/src/roles/importer.rs")],
     "property-based testing: generated clock readings and early blocks, against slot arithmetic", MODEL,
     ["current slot", "time to the next slot", "verdict on a block"])

prop("C23", "Every connected node takes over each valid block once it is announced",
     """In any network of nodes, whichever node authors and however messages are fragmented, merged, delayed or timed, every
     node ends up with each announced valid block as its head and with exactly the state that block leads to. No message
     order makes a node's task crash. Every connected peer, also one that left and came back, is
     sent exactly the announcements of the blocks a node authors and can fetch those blocks.""",
     ["schedules", "histories"], "all sets of nodes and authors, sequences of slots, block sizes and fragmentations of messages",
     "Tests start nodes and exchange a small genesis-chain block in one piece; large blocks, several peers, epoch changes and fragmented streams are not sampled.",
     ["network/src", "node/src/scheduler", "node/src/jam_node", "node/src/roles/importer.rs"],
     [("announcements", "network/src/streams/up_streams.rs"), ("block requests", "network/src/streams/ce_streams"), ("slot tasks", "node/src/scheduler"), ("connections", "network/src/manager.rs")],
     "stateful property-based testing: generated networks over loopback, histories checked against a reference model", MODEL,
     ["heads", "states", "task panics", "served blocks"])

prop("C24", "A misbehaving peer cannot crash, corrupt or stall a node",
     """Whatever a peer sends, leaves open, truncates, resets or serves (junk streams and requests, announcements of missing or
     invalid blocks, wrong or partial answers, reconnects), no task of a node crashes. The node's chain and state stay
     exactly those of the valid blocks, and it keeps authoring, importing and serving for the other peers.""",
     ["fault_sequences", "schedules"], "all sequences of hostile actions interleaved with honest blocks and authoring",
     "Tests use cooperative peers only; hostile input in any order, and at the same time as authoring, is not sampled.",
     ["network/src", "storage/src/node_storage.rs", "node/src/roles/importer.rs", "node/src/scheduler"],
     [("stream handling", "network/src/manager.rs"), ("responses", "network/src/streams/ce_streams"), ("serving blocks", "storage/src/node_storage.rs"), ("import task", "node/src/roles/importer.rs")],
     "stateful fuzzing: generated hostile actions over loopback, histories checked against a reference model", MODEL,
     ["task panics", "heads", "states", "answers"])

prop("C25", "Every value has exactly one encoding and every encoding one value",
     """For every block, header, report, package and other wire value, encoding yields exactly the specified octets and
     decoding them the same value. Any other octets are rejected, or, where they decode, are exactly the encoding of the
     decoded value; no octets crash the decoder. Hashes of blocks, headers and extrinsics are those of the specified encoding.""",
     ["inputs"], "all values of the wire types and all octet strings near and far from their encodings",
     "Tests decode fixture files and encode a few values; altered, truncated, non-canonical and oversized octets are not sampled.",
     ["codec/fr-codec/src", "block/src/types", "common/src"],
     [("codec", "codec/fr-codec/src/lib.rs"), ("block types", "block/src/types")],
     "property-based testing and mutation fuzzing: generated values and octets, differential and round trip", MODEL,
     ["octets", "decoded values", "hashes"])

prop("C26", "Stored blocks read back exactly, or fail: they are never lost or altered",
     """For every sequence of stores, reads, reopenings and crashes, and whatever the cache sizes, each stored header,
     extrinsic and post-state root reads back exactly and nothing else is found; the recent ancestors are exactly the
     latest ones stored. When the files are damaged, a read fails or is right: it is never wrong and never reports a
     stored block as absent.""",
     ["histories", "crash_points", "fault_sequences"], "all sequences of storage operations, crash points, cache sizes and corruptions of the files",
     "Tests store a few entries and read them back from the same open store; reopening, eviction, crashes and damage are not sampled.",
     ["db/src/core", "block/src/header_db.rs", "block/src/xt_db.rs", "block/src/post_state_root_db.rs", "storage/src/node_storage.rs"],
     [("database", "db/src/core"), ("headers and ancestors", "block/src/header_db.rs"), ("blocks", "storage/src/node_storage.rs")],
     "stateful property-based testing with injected crashes and corruption: generated histories against maps", MODEL,
     ["read values", "errors", "ancestor membership"])

prop("C27", "Competing blocks are tried in any order and any one of them can be kept",
     """For every set of competing blocks on one parent, valid or not and tried in any order and number without being kept,
     each is judged and given the post-state root it would have alone, and the head, state and root stay those of the
     parent. Keeping any one of them, directly or from its staged changes, leaves exactly that block's state, on which the
     next blocks are judged the same way.""",
     ["histories", "schedules"], "all sets and orders of competing valid and invalid blocks over several heights, epochs and commit choices",
     "Tests import single chains; forks, repeated attempts, rejected siblings and late choices are not sampled.",
     ["node/src/roles/importer.rs", "state/src/manager.rs", "state/src/cache.rs", "state/src/merkle_interface"],
     [("staged import", "node/src/roles/importer.rs"), ("staged changes", "state/src/manager.rs"), ("dropping changes", "state/src/cache.rs")],
     "stateful property-based testing: generated forks, differential against a reference model", MODEL,
     ["verdicts", "state roots", "state of the head"])

prop("C28", "What a guarantor publishes about a work package commits to exactly its data",
     """For every work package with its extrinsic data, imports, import proofs and exported segments, the audit bundle is
     exactly the specified octets and reads back the same (anything else is rejected or canonical, never a crash). The
     availability specification's package hash, length, segment root, segment count and erasure root are exactly the
     specified ones, so each validator's chunks of the bundle, the segments and their paged proofs are provable against
     it. Each work digest and the authorizer hash carry exactly the item's data.""",
     ["inputs"], "all work packages, bundles, numbers and contents of exported segments and execution results",
     "No test runs this code: segment counts at page boundaries, octets of any value and damaged bundles are never sampled.",
     ["pvm/pvm-invocation/src/refine"],
     [("availability specification", "pvm/pvm-invocation/src/refine/avail_spec.rs"), ("audit bundle", "pvm/pvm-invocation/src/refine/auditable_bundle.rs"), ("digests", "pvm/pvm-invocation/src/refine/pipeline.rs")],
     "property-based testing and mutation fuzzing: generated packages and segments, differential and round trip", MODEL,
     ["octets of the bundle", "availability specification", "digests"])

prop("C29", "The conformance target answers every session exactly as the protocol prescribes",
     """For every sequence of sessions (handshake, features, initial state in any order, blocks, forks, state requests, early
     ends, illegal messages, any fragmentation), every valid block is answered by exactly its post-state root and every
     invalid one by an error. A state request yields exactly all entries of the state of the head or of a competing block,
     no more and no less. A session's faults end at most that session; the next one finds nothing of it.""",
     ["histories", "inputs", "fault_sequences"], "all sequences of sessions, features, initial states, valid and invalid blocks, forks, requests and ill-formed or misplaced messages",
     "Tests replay two recorded traces over one session without accounts that come and go; forks, several sessions, pipelined and illegal messages and entries that disappear are not sampled.",
     ["fuzz/src", "transition/src/state/services.rs", "node/src/roles/importer.rs", "node/src/roles/executor.rs", "state/src/manager.rs"],
     [("protocol", "fuzz/src/fuzz_target.rs"), ("entries that come and go", "transition/src/state/services.rs"), ("staged blocks", "state/src/manager.rs")],
     "stateful property-based testing: generated sessions over a socket, differential against a reference model", MODEL,
     ["handshake", "state roots", "errors", "states", "end of the session"])

prop("C30", "A starting node gets connected to every reachable validator",
     """For all validator sets and whatever other validators do (take, refuse or drop connections, or connect first), a
     starting node knows as peers exactly the other validators of the previous, current and next sets that have an
     address. It connects at once to exactly those for which it is the preferred initiator, and after its wait to every
     one that is not connected to it by then, never twice to a connected one. Every validator that takes the connection
     gets one announcement stream, on which each of the node's announcements arrives exactly once.""",
     ["configurations", "fault_sequences"], "all validator sets, keys and memberships, and all combinations of validators that take, refuse, drop or make connections",
     "No test starts a node among others: the unit tests check the choice of initiator for eight key pairs only.",
     ["network/src/manager.rs", "network/src/peers.rs", "network/src/utils.rs", "node/src/jam_node/mod.rs"],
     [("peers and connections", "network/src/manager.rs"), ("start", "node/src/jam_node/mod.rs"), ("choice of initiator", "network/src/utils.rs")],
     "property-based testing with injected faults: generated validator sets and behaviours over loopback, against a model", MODEL,
     ["known peers", "connections", "streams", "announcements"])
