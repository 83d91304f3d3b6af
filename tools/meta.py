#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=" ".join(note.split()), observe=observe))

MODEL = """Property-based exploration: absence of a counterexample in the generated cases, not proof. Trusts the
reference model in harness/src/rj (written from Graypaper 0.7.2) and covers the tiny chain parameters."""
DIFF = "stateful property-based testing: generated states and block histories, differential against a reference transition function"

prop("C01", "Importing a block yields exactly the protocol's posterior state",
     """For every well-formed prior state and every block built on it, importing the block either applies exactly the
     protocol's state transition, so that every state entry and the resulting state root equal the specified ones, or
     rejects the block, and it accepts exactly the blocks the protocol calls valid.""",
     ["inputs", "histories"], "all prior states and all blocks on them, mixing every extrinsic, with and without one defect",
     """Unit tests cover isolated components; the conformance vectors are absent from this checkout, so no existing test
     imports a non-trivial block, and none can sample the product of state, extrinsics and their interactions.""",
     ["node/src/roles/importer.rs", "node/src/roles/executor.rs", "transition/src/state", "extrinsics/src/validation"],
     [("block importer and phase ordering", "node/src/roles/importer.rs"), ("state transition scheduling", "node/src/roles/executor.rs")],
     DIFF, MODEL, ["post-import state entries", "post-import state root", "accept/reject verdict"])

prop("C02", "Only blocks with a fully consistent, correctly sealed header are imported",
     """A block is imported only if its header names the current head as parent and that head's posterior state root,
     has a later slot, commits to the block's own extrinsic, carries exactly the epoch and winning-ticket markers and
     the offenders list the state transition prescribes, and is sealed by the slot's entitled author with a valid
     entropy source. Changing any single header field or signature of a valid block makes it rejected.""",
     ["inputs"], "all blocks valid in every respect and all single-field defects of them, in fallback and ticket mode",
     """The tests have no sealed blocks outside genesis; a missing comparison only shows on a header that is wrong in
     exactly that field and right in all others.""",
     ["node/src/roles/importer.rs", "block/src/types/block.rs", "crypto/src/vrf", "transition/src/state_prediction"],
     [("header validation before and after the Safrole transition", "node/src/roles/importer.rs"), ("seal and entropy verification", "crypto/src/vrf")],
     DIFF + " with single-field header mutation", MODEL, ["accept/reject verdict"])

prop("C03", "Epoch changes rotate validators, entropy and sealing keys as specified",
     """After any block, the slot, the four entropy accumulators, the previous/current/pending validator sets, the ring
     commitment, the sealing-key series and the ticket accumulator are exactly those the protocol prescribes, whether
     the block stays in the epoch, enters the next one, or skips one or more epochs, before or after the submission
     deadline. Validators known to be offenders never enter the pending set.""",
     ["histories", "inputs"], "all histories of slots, including skipped slots and epochs, full and partial ticket accumulators and offenders",
     """Tests exercise the ring cache at fixed slots; the branch taken depends on the combination of previous slot, new
     slot, accumulator fill and disputes.""",
     ["transition/src/state/safrole.rs", "transition/src/state/entropy.rs", "transition/src/state/validators.rs", "transition/src/state/timeslot.rs", "state/src/manager.rs", "transition/src/state_prediction"],
     [("per-epoch transition", "transition/src/state/safrole.rs"), ("ring context cache", "state/src/manager.rs")],
     DIFF, MODEL, ["safrole, entropy, validator-set and slot state entries"])

prop("C04", "Only valid new tickets enter the accumulator, which keeps the best ones in order",
     """A block's tickets are accepted only before the submission deadline, within the per-block limit, each with a
     permitted attempt number and a ring proof that verifies for the current pending ring and entropy, strictly ordered
     by identifier and not already held. The accumulator afterwards holds exactly the lowest identifiers of the union,
     in order, and every submitted ticket is among them.""",
     ["inputs", "histories"], "all accumulators, rings and ticket sequences, valid or defective in one respect",
     "The existing tests verify ring proofs alone and never submit tickets against a state.",
     ["extrinsics/src/validation/tickets.rs", "transition/src/state/safrole.rs", "crypto/src/vrf", "state/src/types/safrole.rs"],
     [("ticket validation", "extrinsics/src/validation/tickets.rs"), ("accumulation and truncation", "transition/src/state/safrole.rs")],
     DIFF + " with ticket mutation", MODEL, ["ticket accumulator", "accept/reject verdict"])

prop("C05", "Disputes are judged, recorded and enforced exactly as the evidence demands",
     """Verdicts, culprits and faults are accepted only when every signature verifies under the right key set, the vote
     counts are among the three allowed, orderings are strict, nothing is judged twice and every verdict comes with the
     offenders it requires. Accepted disputes add each report to exactly one of good, bad or wonky, add exactly the
     named offenders once, list them in the header in order and clear the affected pending reports.""",
     ["inputs", "histories"], "all dispute extrinsics over all judgement histories, valid or defective in one respect",
     "No test submits disputes; the rules are a conjunction whose members fail independently.",
     ["extrinsics/src/validation/disputes.rs", "transition/src/state/disputes.rs", "state/src/types/disputes.rs", "block/src/types/extrinsics/disputes.rs"],
     [("dispute validation", "extrinsics/src/validation/disputes.rs"), ("judgement recording", "transition/src/state/disputes.rs")],
     DIFF + " with dispute mutation", MODEL, ["disputes state entry", "pending reports", "accept/reject verdict"])

prop("C06", "A report becomes available exactly on a supermajority of valid assurances",
     """Assurances are accepted only when anchored on the parent, sorted by validator without repetition, signed by the
     validator they name, and set only for cores with a pending report. A core's report becomes available exactly when
     more than two thirds of the validators assure it, is removed from its core then or once it has timed out, and
     stays otherwise.""",
     ["inputs", "histories"], "all assurance bit patterns, pending reports and ages, valid or defective in one respect",
     "No test drives assurances through a block; off-by-one thresholds and timeouts need exact counts and slots.",
     ["extrinsics/src/validation/assurances.rs", "transition/src/state/reports.rs", "block/src/types/extrinsics/assurances.rs"],
     [("assurance validation", "extrinsics/src/validation/assurances.rs"), ("availability and timeout", "transition/src/state/reports.rs")],
     DIFF + " with assurance mutation", MODEL, ["pending reports", "accumulated reports", "accept/reject verdict"])

prop("C07", "A work report is placed on a core only with valid, timely, authorized guarantees",
     """A guarantee is accepted only if two or three distinct validators assigned to that core in that rotation signed
     it, the core is free, its authorizer is in the core's pool, its context refers to recent blocks, its dependencies
     and segment roots are known, its package is new, and its services, code hashes, gas and sizes fit the limits.
     Accepted reports are recorded on their core with the current slot, and nothing else changes there.""",
     ["inputs", "histories"], "all guarantee extrinsics over all states, valid or defective in one respect",
     "No test validates a guarantee; there are some twenty independent conditions, each needing an otherwise valid one.",
     ["extrinsics/src/validation/guarantees.rs", "transition/src/state/reports.rs", "extrinsics/src/utils", "block/src/types/extrinsics/guarantees.rs", "common/src/types/workloads"],
     [("guarantee validation", "extrinsics/src/validation/guarantees.rs"), ("guarantor assignment", "extrinsics/src/utils")],
     DIFF + " with guarantee mutation", MODEL, ["pending reports", "accept/reject verdict"])

prop("C08", "Preimages are integrated exactly when requested and still wanted",
     """A block's preimages are accepted only when sorted without repetition and each was requested, and not already
     held, by its service in the prior state. Each is then stored and its request stamped with the current slot, unless
     accumulation in the same block withdrew the request, in which case it is ignored.""",
     ["inputs", "histories"], "all preimage extrinsics, request histories and same-block accumulation effects",
     "No test combines preimages with same-block service activity.",
     ["extrinsics/src/validation/preimages.rs", "transition/src/state/services.rs", "state/src/manager.rs"],
     [("preimage validation", "extrinsics/src/validation/preimages.rs"), ("preimage integration", "transition/src/state/services.rs")],
     DIFF + " with preimage mutation", MODEL, ["service preimages and requests", "accept/reject verdict"])

prop("C09", "Available reports accumulate once, in dependency order, within the gas limit",
     """Among newly available and queued reports, exactly those whose dependencies are satisfied accumulate, in the
     protocol's order and up to the block's gas limit; the rest stay queued with their unmet dependencies. The ready
     queue and the accumulation history advance by slot as specified, so no package accumulates twice and none is lost
     before its epoch passes.""",
     ["histories", "inputs"], "all queues, dependency graphs (including cycles), slot gaps and gas limits",
     "Tests touch the queue editing helpers on fixed lists; ordering bugs need particular dependency graphs and slot gaps.",
     ["transition/src/state/accumulate.rs", "transition/src/state/reports.rs", "pvm/pvm-invocation/src/accumulate/pipeline.rs", "state/src/types"],
     [("queue partitioning and priority order", "transition/src/state/accumulate.rs"), ("outer accumulation", "pvm/pvm-invocation/src/accumulate/pipeline.rs")],
     DIFF, MODEL, ["ready queue", "accumulation history", "service state"])

prop("C10", "Services' storage and data requests change exactly as their code asks",
     """Accumulating any service program leaves its storage, data requests and provided data, and the item and byte
     counts charged for them, exactly as the sequence of operations it performed prescribes, with every operation
     returning the specified result code. Operations whose footprint the balance cannot cover change nothing.""",
     ["programs", "inputs"], "all service programs, arguments, storage contents and balances",
     "Host-call tests use hand-built contexts with one call each; results depend on call sequences and merged state.",
     ["pvm/pvm-host/src/host_functions", "pvm/pvm-host/src/context", "pvm/pvm-invocation/src/accumulate", "transition/src/state/services.rs"],
     [("host functions", "pvm/pvm-host/src/host_functions"), ("account sandbox", "pvm/pvm-host/src/context/partial_state.rs")],
     DIFF + " running generated service programs", MODEL, ["service account entries"])

prop("C11", "Service creation, transfers and removal conserve balances and obey the rules",
     """Creating, upgrading, funding and removing services during accumulation yields exactly the prescribed accounts,
     identifiers, balances and result codes, including deferred transfers, checkpoints and failed or out-of-gas runs.
     No sequence of operations creates or destroys balance other than as specified, or leaves an account below the
     balance its footprint requires.""",
     ["programs", "inputs"], "all service programs, balances and interleavings of services within a block",
     "The tests exercise single host calls with mocks; creation, transfer and removal interact across services and rounds.",
     ["pvm/pvm-host/src/host_functions/accumulate", "pvm/pvm-host/src/context", "pvm/pvm-invocation/src/accumulate", "transition/src/state/services.rs"],
     [("account host functions", "pvm/pvm-host/src/host_functions/accumulate/mod.rs"), ("deferred transfers and merging", "pvm/pvm-invocation/src/accumulate/pipeline.rs")],
     DIFF + " running generated service programs", MODEL, ["service account entries", "statistics"])

prop("C12", "Only privileged services can change privileges, queues and the next validators",
     """The manager, assigner, delegator and registrar roles, the always-accumulating services, the authorizer queues
     and the next validator set change exactly as the entitled services ask, with the manager's choice taking precedence
     over the role holders' own. No other service, and no failed run, affects them.""",
     ["programs", "inputs"], "all service programs and role assignments, with several role holders acting in one block",
     "Tests check single calls; precedence between concurrent changes only shows when role holders act in the same round.",
     ["pvm/pvm-host/src/host_functions/accumulate", "pvm/pvm-invocation/src/accumulate/pipeline.rs", "transition/src/state/privileges.rs"],
     [("privileged host functions", "pvm/pvm-host/src/host_functions/accumulate/mod.rs"), ("privilege merging", "pvm/pvm-invocation/src/accumulate/pipeline.rs")],
     DIFF + " running generated service programs", MODEL, ["privileges", "authorizer queues", "staging validator set"])

prop("C13", "History, statistics and authorization pools record exactly what blocks did",
     """After every block the recent history with its accumulation commitments, the per-validator, per-core and
     per-service statistics, the accumulation outputs and the authorization pools are exactly those implied by the
     blocks imported so far.""",
     ["histories"], "all histories of blocks with every kind of extrinsic, crossing epochs",
     "Tests cover single helper calls; these records accumulate over histories and mix inputs from every phase.",
     ["transition/src/state/history.rs", "transition/src/state/statistics.rs", "transition/src/state/authorizer.rs", "merkle/src/mmr.rs", "state/src/types"],
     [("recent history and belt", "transition/src/state/history.rs"), ("statistics", "transition/src/state/statistics.rs"), ("authorizer pools", "transition/src/state/authorizer.rs")],
     DIFF, MODEL, ["history, statistics, outputs and pool state entries"])

exec(open(os.path.join(V, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        for f_ in p["files"] + [w for _, w in p["mech"]]:
            assert os.path.exists("/repo/" + f_), (p["id"], f_)
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash ./build.sh",
    "hooks": {"guard": "--cfg fr_verif", "enable": "harness/.cargo/config.toml passes --cfg fr_verif to rustc; it only adds pvm-invocation's refine::verif_hooks", "source_commits": ["036ac9e"]},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash ./check.sh {p['id']} quick",
        "thorough_cmd": f"bash ./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
    "not_applicable": [],
    "notes": "See DESIGN.md. Known findings and repairs: known-findings.txt.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
import re
for p in P:
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(f"{V}/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(P), "properties")
