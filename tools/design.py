#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from properties.jsonl and the notes below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
"C01": ("Whole blocks (all five extrinsics, any mix, epochs, up to 4 services running generated programs) on generated states, imported in lockstep with the model; every state entry and the root are compared (through the trie, and in one history out of three also through the typed accessors and caches the node itself reads with), and rejected blocks must leave no trace.",
        "The conformance fixtures the tests replay sample single sub-transitions on fixed states; interactions between extrinsics, epochs and accumulation appear only in generated chains."),
"C02": ("Valid blocks and copies with one header field, marker or signature altered (about twenty alterations, re-sealed or not) are offered; the model says which must be refused.",
        "Single-field alterations of otherwise valid, correctly signed headers in every chain position."),
"C03": ("Chains that cross epochs (next one, skipped ones, before and after the submission end, with and without a full accumulator and with offenders) in lockstep.",
        "Combinations of skipped epochs, accumulators and offenders in the same block are not in fixtures."),
"C04": ("Blocks with generated ring proofs (the model has its own prover): good, duplicate, unsorted, late, useless, forged, other ring or attempt.", "Ring proofs on arbitrary rings, including padding keys, and accumulators near their limit."),
"C05": ("Blocks with generated verdicts, culprits and faults, both valid and with one defect, by current and previous validator sets, over pending reports.", "Vote counts, orders, ages and repeated judgements over histories of several blocks."),
"C06": ("Blocks with generated assurances over pending reports of every age, valid and with one defect.", "Thresholds, timeouts and order defects at their exact boundaries."),
"C07": ("Blocks with generated reports and guarantees: every limit and reference valid, at the boundary, and broken, across rotations and epochs.", "The acceptance condition is a conjunction of about twenty limits, each hit on both sides."),
"C08": ("Blocks with preimages over requests in every state, together with accumulations that withdraw or add requests.", "Races between extrinsic and accumulation in one block."),
"C09": ("Blocks over generated ready queues, histories and dependency graphs (chains, cycles, segment-root links), with tight gas; a second generator makes many ready reports with more gas than a block has and services that send each other transfers, so that reports and transfers meet in later rounds.", "Dependency graphs over several epochs of slots."),
"C10": ("Accumulation of generated host-call programs on storage and preimage requests, several services, in a quarter of the histories over several rounds in a block; results, footprints and all state are compared.", "Sequences of operations whose effects depend on earlier ones, at footprint and expiry boundaries."),
"C11": ("As C10 for creation, upgrade, transfer, eject, checkpoint, yield and provide, with out-of-gas and panicking runs. Accounts are placed at exactly the identifiers that new services would get (found by a dry run of the block), some of them removable, and programs use the identifiers they were answered.", "Sequences of operations, collisions of identifiers and transfers between services in one round."),
"C12": ("As C10 for bless, assign and designate by entitled and other services, in a third of the histories over several rounds of one block.", "Precedence between several services changing the same thing in one round, and what a round leaves for the next."),
"C13": ("Chains in lockstep with extrinsics and accumulation enabled, comparing history, statistics, outputs and pools each block.", "Counters over many blocks and epoch changes."),
"C14": ("Four generators: one instruction with chosen operands, structured programs, program blobs (valid, malformed, mutated) and noise; exit, gas, registers and memory against the model machine.", "All opcodes with boundary operands, and blobs no encoder produces."),
"C15": ("Generated work packages and authorizers run in the authorization invocation; outcome, gas and output against the model.", "Host-call arguments at every offset and length."),
"C16": ("Generated refinement programs (a stateful script of host calls with inner machines) against the model.", "Resumed and nested machines and their pages in sequence."),
"C17": ("Generated lists and append histories; roots, traces, justifications, paged proofs and peaks against the model, and each proof re-verified.", "Odd counts, empty lists and long histories."),
"C18": ("Generated blobs in both code sizes; chunks against an independent Lagrange interpolation, then recovery from random sufficient subsets, and from insufficient, duplicated or misshapen ones.", "Subsets and damage."),
"C19": ("Generated keys, rings, contexts and messages: round trips, and mutated or forged proofs (including torsion components) against an independent verifier.", "Forgeries need algebraic construction, not bit flips."),
"C20": ("Histories of blocks of additions, updates, removals over colliding keys, tiny caches, several tasks, commits, staging and rollback against a map and a reference trie.", "Long histories, evictions and concurrent tasks."),
"C21": ("The node's own author runs on generated chain states with the clock set by the harness; the block must be the one the model derives, be accepted by the importer of a second node, and leave the same state. Non-owners must do nothing.", "Authoring on arbitrary states and at epoch changes."),
"C22": ("`clock_gettime` is interposed inside the harness: generated readings around slot boundaries against slot arithmetic, and valid blocks offered at chosen instants around their slot.", "Time cannot be chosen in the tests."),
"C23": ("One to three real nodes (acceptor, importer, slot task) and a scripted peer over loopback QUIC, with the clock set by the harness: each step's block is authored by a node or by the peer, announcements are fragmented at random; every node must reach the model's head and root, and the peer, which leaves and comes back at random, must receive exactly the announcements of each node's blocks.", "Needs several nodes, epochs, block sizes and fragmentations."),
"C24": ("As C23, with a hostile peer that performs generated actions between and during the honest steps. Panics of any task are recorded by a hook.", "Hostile input at the same time as authoring."),
"C25": ("Values of all wire types are generated and encoded by the reference serialization; the decoded value must re-encode to the same octets, and every mutated encoding that is accepted must be canonical. Hashes of headers, blocks and extrinsics against the reference. A second generator does the same for the building blocks: fixed and compact naturals, sequences, maps, options, bit sequences, bounded vectors.", "Mutations near valid encodings; canonicity is a property of all octets."),
"C26": ("Generated sequences of storage operations, reopenings and crashes (copy of the files) against maps, with caches of one to many entries; then table files are corrupted and every read must be right or fail.", "Tests never reopen, crash or damage a store."),
"C27": ("Generated forks: several valid and invalid candidates on one parent are staged in any order and one of them is kept, over several heights; verdicts, roots and the head's state against the model, which judges each candidate alone; the state is read again through the typed accessors after candidates were staged and dropped.", "State leaking from one candidate into another shows only when several are tried on one node."),
"C28": ("Generated packages with their extrinsics, imports, import proofs and zero to 200 exported segments go through the pipeline's specification builder, bundle codec and digest builder (exposed by a cfg-guarded hook, since the pipeline itself stops at unimplemented parts); each result against the model's Merkle trees, paged proofs, erasure code and serialization. Damaged bundles must be rejected or canonical.", "No test reaches this code; page and size boundaries and octets of any value matter."),
"C29": ("The target runs with its socket in a scratch directory; a client with its own encoding of the protocol runs one to three generated sessions on it (features, shuffled initial state, blocks on the head or on competing blocks, state requests, messages sent without awaiting answers, fragments, misplaced or cut messages, early leaving). Each answer is compared with the model's: roots, errors, and the full state as a map.", "The set of entries the target lists is kept apart from the state itself, so an entry that is missed shows only in a full state request after the block that added it."),
"C30": ("One real node starts among up to five validators played by the harness on loopback addresses written into generated validator sets (in any of the previous, current and next sets, keys of a pool of twelve); each takes, refuses or drops connections or connects first. Known peers, number and time of connections, streams and an announcement are compared with the rule. The cases mostly wait (the node's own five seconds), so 24 run at once.", "The second round of connecting depends on how every attempt of the first one ended."),
}
HEAD, TAIL = open(R + "/tools/design_head.md").read(), open(R + "/tools/design_tail.md").read()
import glob, os
rows = ["| change | property | what it breaks | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| `{os.path.basename(os.path.dirname(d))}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
TAIL = TAIL.replace("@SEEDED@", "\n".join(rows))
out = [HEAD.rstrip(), "", "## Per property", ""]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    how, why = N[p["id"]]
    out += [f"### {p['id']} {p['title']}", p["statement"], "", f"*Decided by*: {how}", "", f"*Beyond the tests*: {why}", ""]
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n" + TAIL)
