//! Properties decided by the block-import differential: generated states and block histories driven
//! through the importer and, in lockstep, through the reference transition function.
use crate::chain::{self, block_fp, Info};
use crate::eng::{Cov, Prop, Src, Sub};
use crate::gen::{Mu, Prof};

const ALL: &[Mu] = &[
    Mu::Header,
    Mu::Disputes,
    Mu::Tickets,
    Mu::Assurances,
    Mu::Guarantees,
    Mu::Preimages,
];
type R = Result<(), String>;

fn mixed() -> Prof {
    Prof {
        disp: 3,
        tick: 2,
        assu: 7,
        guar: 7,
        pre: 5,
        mutate: 2,
        muts: ALL,
        scripts: true,
        ..Default::default()
    }
}
fn n(s: &Src, quick: usize) -> usize {
    if s.scale > 1 {
        quick * 2
    } else {
        quick
    }
}

// ---- C01: mixed blocks
fn mixed_blocks(s: &mut Src, cov: &mut Cov) -> R {
    let k = n(s, 4);
    chain::run(s, cov, &mixed(), k, &|i, _| Some(block_fp(i.block)))
}
// ---- C02: headers and seals
fn header(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 5,
        muts: &[Mu::Header],
        tick: 1,
        assu: 2,
        guar: 1,
        pre: 1,
        epoch: 4,
        disp: 1,
        ..Default::default()
    };
    let k = n(s, 5);
    chain::run(s, cov, &p, k, &|i, cov| {
        if let Some(m) = i.mutation {
            cov.tag(chain::reason_tag(m));
        }
        Some(block_fp(i.block))
    })
}
// ---- C03: epochs, entropy, sealing keys, validator rotation
fn epochs(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 0,
        muts: &[],
        tick: 2,
        tick_fill: 7,
        assu: 1,
        guar: 0,
        pre: 0,
        epoch: 7,
        disp: 3,
        nsvc: (1, 1),
        rho: 1,
        ready: 0,
        always: 0,
        ..Default::default()
    };
    let k = n(s, 6);
    chain::run(s, cov, &p, k, &|i, cov| {
        let crossed = i.block.header.slot / 12 != i.before.tau / 12;
        if crossed {
            cov.tag("epoch-change");
            if i.block.header.slot / 12 > i.before.tau / 12 + 1 {
                cov.tag("epochs-skipped");
            }
        }
        crossed.then(|| block_fp(i.block))
    })
}
// ---- C04: tickets
fn tickets(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 5,
        muts: &[Mu::Tickets],
        tick: 9,
        few: true,
        tick_fill: 8,
        assu: 0,
        guar: 0,
        pre: 0,
        epoch: 1,
        disp: 1,
        nsvc: (1, 1),
        rho: 0,
        ready: 0,
        always: 0,
        ..Default::default()
    };
    let k = n(s, 3);
    chain::run(s, cov, &p, k, &|i, cov| {
        if i.block.xts.tickets.is_empty() {
            return None;
        }
        cov.tag("tickets");
        Some(block_fp(i.block))
    })
}
// ---- C05: disputes
fn disputes(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 5,
        muts: &[Mu::Disputes],
        disp: 9,
        tick: 0,
        assu: 2,
        guar: 2,
        pre: 0,
        rho: 8,
        epoch: 3,
        nsvc: (1, 2),
        ready: 0,
        always: 0,
        ..Default::default()
    };
    let k = n(s, 4);
    chain::run(s, cov, &p, k, &|i, cov| {
        let x = &i.block.xts;
        if x.verdicts.is_empty() && x.culprits.is_empty() && x.faults.is_empty() {
            return None;
        }
        cov.tag("disputes");
        Some(block_fp(i.block))
    })
}
// ---- C06: assurances and availability
fn assurances(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 4,
        muts: &[Mu::Assurances],
        disp: 1,
        assu: 10,
        guar: 3,
        pre: 0,
        rho: 9,
        epoch: 2,
        nsvc: (1, 2),
        ready: 1,
        ..Default::default()
    };
    let k = n(s, 4);
    chain::run(s, cov, &p, k, &|i, cov| {
        if i.block.xts.assurances.is_empty() {
            return None;
        }
        cov.tag("assurances");
        Some(block_fp(i.block))
    })
}
// ---- C07: guarantees
fn guarantees(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 7,
        muts: &[Mu::Guarantees],
        disp: 1,
        assu: 3,
        guar: 10,
        pre: 0,
        rho: 3,
        epoch: 3,
        nsvc: (1, 3),
        ready: 3,
        anc: 7,
        digests: 3,
        ..Default::default()
    };
    let k = n(s, 4);
    chain::run(s, cov, &p, k, &|i, cov| {
        if i.block.xts.guarantees.is_empty() {
            return None;
        }
        cov.tag("guarantees");
        Some(block_fp(i.block))
    })
}
// ---- C08: preimages
fn preimages(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 4,
        muts: &[Mu::Preimages],
        assu: 4,
        guar: 1,
        pre: 10,
        rho: 4,
        epoch: 1,
        nsvc: (1, 4),
        ready: 2,
        odd: true,
        scripts: true,
        weights: [1, 6, 1, 1, 1, 1],
        ..Default::default()
    };
    preimage_chain(s, cov, &p, 4)
}
/// Services that ask for, forget and are given data in the very block that brings it.
fn raced(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 0,
        assu: 10,
        avail: 10,
        guar: 3,
        pre: 10,
        rho: 10,
        epoch: 0,
        nsvc: (1, 2),
        ready: 3,
        scripts: true,
        weights: [0, 1, 10, 1, 0, 0],
        always: 9,
        ..Default::default()
    };
    preimage_chain(s, cov, &p, 3)
}
fn preimage_chain(s: &mut Src, cov: &mut Cov, p: &Prof, k: usize) -> R {
    let k = n(s, k);
    chain::run(s, cov, p, k, &|i, cov| {
        if i.block.xts.preimages.is_empty() {
            return None;
        }
        cov.tag("preimages");
        if let crate::imp::Step::Accepted(o, _) = i.step {
            if o.dropped {
                cov.tag("no-longer-wanted");
            }
        }
        Some(block_fp(i.block))
    })
}
// ---- C09: accumulation order: queue, dependencies, gas, history
fn scheduling(s: &mut Src, cov: &mut Cov) -> R {
    schedule(s, cov, sched_prof())
}
/// Reports that need several rounds, whose services send each other transfers.
fn rounds(s: &mut Src, cov: &mut Cov) -> R {
    schedule(
        s,
        cov,
        Prof {
            rho: 10,
            ready: 10,
            rounds: true,
            nsvc: (1, 3),
            epoch: 0,
            avail: 10,
            weights: [3, 1, 0, 5, 0, 1],
            ..sched_prof()
        },
    )
}
fn sched_prof() -> Prof {
    Prof {
        mutate: 0,
        muts: &[],
        assu: 10,
        avail: 9,
        guar: 5,
        pre: 0,
        rho: 9,
        ready: 8,
        epoch: 2,
        nsvc: (1, 3),
        scripts: true,
        weights: [1, 1, 1, 1, 0, 4],
        digests: 3,
        ..Default::default()
    }
}
fn schedule(s: &mut Src, cov: &mut Cov, p: Prof) -> R {
    let k = n(s, 4);
    chain::run(s, cov, &p, k, &|i, cov| {
        let q = i.before.ready.iter().any(|r| !r.is_empty());
        if q {
            cov.tag("queue");
        }
        if let crate::imp::Step::Accepted(o, _) = i.step {
            if o.late {
                cov.tag("reports-after-first-round");
            }
            if o.mixed {
                cov.tag("transfers-and-reports");
            }
        }
        (q || i.before.rho.iter().any(|r| r.is_some())).then(|| block_fp(i.block))
    })
}
fn acc_prof(w: [u64; 6]) -> Prof {
    Prof {
        mutate: 0,
        muts: &[],
        assu: 10,
        avail: 10,
        guar: 7,
        pre: 1,
        rho: 10,
        ready: 4,
        epoch: 1,
        nsvc: (1, 4),
        scripts: true,
        weights: w,
        always: 3,
        ..Default::default()
    }
}
/// At times, what one round leaves is what the next ones work on.
fn several(s: &mut Src, p: Prof) -> Prof {
    match s.chance(1, 4) {
        false => p,
        true => Prof {
            rounds: true,
            nsvc: (2, 4),
            ready: 10,
            ..p
        },
    }
}
fn acc_nt(i: &Info, cov: &mut Cov) -> Option<u64> {
    let chain::Info { step, .. } = i;
    if let crate::imp::Step::Accepted(o, _) = step {
        if o.rounds > 1 {
            cov.tag("several-rounds");
        }
        if o.late {
            cov.tag("reports-after-first-round");
        }
        if o.accumulated > 0 {
            cov.tag("accumulated");
            if o.gone {
                cov.tag("accumulated-and-gone");
            }
            return Some(block_fp(i.block));
        }
    }
    None
}
fn hosts_storage(s: &mut Src, cov: &mut Cov) -> R {
    let k = n(s, 3);
    let p = several(s, acc_prof([8, 4, 2, 1, 1, 1]));
    chain::run(s, cov, &p, k, &acc_nt)
}
fn hosts_data(s: &mut Src, cov: &mut Cov) -> R {
    let k = n(s, 4);
    let p = Prof {
        pre: 4,
        ..several(s, acc_prof([1, 2, 8, 1, 1, 1]))
    };
    chain::run(s, cov, &p, k, &acc_nt)
}
fn hosts_accounts(s: &mut Src, cov: &mut Cov) -> R {
    let k = n(s, 3);
    let p = several(s, acc_prof([1, 2, 8, 6, 1, 2]));
    chain::run(s, cov, &p, k, &acc_nt)
}
fn hosts_priv(s: &mut Src, cov: &mut Cov) -> R {
    let k = n(s, 4);
    let p = match s.chance(1, 3) {
        false => Prof {
            always: 6,
            ..acc_prof([1, 1, 2, 2, 8, 1])
        },
        // privileges that change in one round and are used in the next
        true => Prof {
            rounds: true,
            nsvc: (2, 4),
            ready: 10,
            ..acc_prof([1, 0, 0, 2, 9, 0])
        },
    };
    chain::run(s, cov, &p, k, &acc_nt)
}
// ---- statistics, recent history, authorization pools
fn bookkeeping(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        mutate: 0,
        muts: &[],
        tick: 1,
        disp: 1,
        assu: 8,
        avail: 8,
        guar: 8,
        pre: 5,
        rho: 6,
        epoch: 3,
        nsvc: (1, 3),
        ready: 2,
        scripts: true,
        weights: [2, 1, 1, 1, 1, 2],
        ..Default::default()
    };
    let k = n(s, 5);
    chain::run(s, cov, &p, k, &|i, _| {
        let x = &i.block.xts;
        (!x.guarantees.is_empty()
            || !x.assurances.is_empty()
            || !x.preimages.is_empty()
            || !x.tickets.is_empty())
        .then(|| block_fp(i.block))
    })
}

const A: &[&str] = &[
    "the reference transition function (harness/src/rj, written from Graypaper 0.7.2) is the intended behaviour",
    "tiny chain parameters (6 validators, 2 cores, 12-slot epochs)",
    "generated states are well-formed: every state component decodes and its cross-references are consistent",
];
macro_rules! p {
    ($id:expr, $rule:expr, $( ($name:expr, $f:expr, $q:expr, $t:expr) ),+) => {
        Prop { id: $id, rule: $rule, assumptions: A, subs: vec![$(Sub { name: $name, quick: $q, thorough: $t, f: $f, threads: 0 }),+] }
    };
}
pub fn all() -> Vec<Prop> {
    vec![
        p!(
            "C01",
            "distinct blocks (by header hash) imported on both sides",
            ("mixed", mixed_blocks, 900, 6000)
        ),
        p!(
            "C02",
            "distinct blocks whose header was checked, valid or mutated in one field",
            ("header", header, 1000, 8000)
        ),
        p!(
            "C03",
            "distinct blocks that cross at least one epoch boundary",
            ("epochs", epochs, 900, 8000)
        ),
        p!(
            "C04",
            "distinct blocks carrying tickets",
            ("tickets", tickets, 700, 7000)
        ),
        p!(
            "C05",
            "distinct blocks carrying verdicts, culprits or faults",
            ("disputes", disputes, 1200, 10000)
        ),
        p!(
            "C06",
            "distinct blocks carrying assurances",
            ("assurances", assurances, 1000, 10000)
        ),
        p!(
            "C07",
            "distinct blocks carrying guarantees",
            ("guarantees", guarantees, 2000, 12000)
        ),
        p!(
            "C08",
            "distinct blocks carrying preimages",
            ("preimages", preimages, 1000, 8000),
            ("raced", raced, 600, 5000)
        ),
        p!(
            "C09",
            "distinct blocks over a state with queued or pending reports",
            ("queue", scheduling, 1500, 10000),
            ("rounds", rounds, 1000, 6000)
        ),
        p!(
            "C10",
            "distinct blocks that accumulated at least one report",
            ("storage", hosts_storage, 1000, 6000),
            ("data", hosts_data, 1000, 6000)
        ),
        p!(
            "C11",
            "distinct blocks that accumulated at least one report",
            ("accounts", hosts_accounts, 3500, 12000)
        ),
        p!(
            "C12",
            "distinct blocks that accumulated at least one report",
            ("privileges", hosts_priv, 1600, 8000)
        ),
        p!(
            "C13",
            "distinct blocks with a non-empty extrinsic that the records must reflect",
            ("records", bookkeeping, 800, 6000)
        ),
    ]
}
