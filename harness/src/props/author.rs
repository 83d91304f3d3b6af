//! C21: blocks a node authors, in both sealing modes, against the model and a second node.
//! C22: the wall clock: which slot a node believes in and which blocks it considers too early.
use crate::eng::{hash_bytes, Cov, Prop, Src, Sub};
use crate::gen::{self, Gen, Prof, World, DEV};
use crate::imp::{self, h32, rt, Node, Step};
use crate::rj::state::Sealers;
use crate::rj::stf::{self, Opts};
use crate::rj::types::{Block, Header, Xts};
use crate::rj::{self, E, H};
use crate::{chain, clk};
use fr_clock::{Clock, JamClock, UnixTimeProvider};
use fr_codec::prelude::*;
use fr_network::manager::LocalNodeInfo;
use fr_node::keystore::dev_account_profile::DevNodeAccountProfile as Dev;
use fr_node::roles::author::BlockAuthor;
use fr_node::roles::manager::RoleManager;
use fr_state::types::{SlotSealer, Timeslot};
use fr_storage::server_trait::NodeServerTrait;
use fr_transition::state_prediction::slot_sealers::predict_post_slot_sealer;
use std::cell::Cell;

type R = Result<(), String>;

pub fn dev(i: usize) -> LocalNodeInfo {
    [
        Dev::Alice,
        Dev::Bob,
        Dev::Carol,
        Dev::David,
        Dev::Eve,
        Dev::Fergie,
    ][i]
        .load_validator_key_info()
}

fn prof(s: &mut Src) -> Prof {
    let full = s.chance(1, 2);
    Prof {
        disp: 2,
        tick: if full { 2 } else { 1 },
        tick_fill: 7,
        assu: 5,
        guar: 4,
        pre: 3,
        mutate: 0,
        muts: &[],
        scripts: s.chance(1, 3),
        epoch: 4,
        anc: 0,
        ..Default::default()
    }
}
fn opts<'a>(w: &'a World, root: &H) -> Opts<'a> {
    Opts {
        parent_hash: w.parent.hash(),
        parent_slot: w.st.tau,
        parent_root: *root,
        ancestors: None,
    }
}

/// What the model says must be in the header an honest author of `slot` builds (all but the
/// signatures), without extrinsics.
pub fn expected_header(w: &World, root: &H, slot: u32, author: u16) -> Result<Header, String> {
    let p = stf::phase1(&w.st, slot, root, &Xts::default())?;
    Ok(Header {
        parent: w.parent.hash(),
        prior_root: *root,
        xt_hash: Xts::default().hash(),
        slot,
        epoch_mark: p.epoch_mark,
        tickets_mark: p.tickets_mark,
        author,
        vrf: vec![0; 96],
        offenders: p.offenders_mark,
        seal: vec![0; 96],
    })
}

/// Authors on `node` the way the node does it. Returns the encoded block and the state root.
fn author(
    node: &Node,
    who: usize,
    index: u16,
    slot: u32,
    ms: u64,
) -> Result<(fr_block::types::block::Block, H), String> {
    let mut a = BlockAuthor::new(index, dev(who)).map_err(|e| format!("{e}"))?;
    rt().block_on(async {
        let fut = a.author_block_commit_header(node.st.clone());
        // the clock is read on this thread
        let h = clocked(slot, ms, fut).await.map_err(|e| format!("{e}"))?;
        node.st.header_db().set_best_header(h.clone());
        node.st
            .header_db()
            .commit_header(h.clone())
            .await
            .map_err(|e| format!("{e}"))?;
        let hash = h.hash().map_err(|e| format!("{e}"))?;
        let (b, r) = a
            .author_block_commit_state(node.st.clone(), hash)
            .await
            .map_err(|e| format!("{e}"))?;
        if b.header != h {
            return Err("the header changed between announcement and completion".into());
        }
        Ok((b, r.0))
    })
}
/// Polls a future with this thread's clock pinned.
pub async fn clocked<F: std::future::Future>(slot: u32, ms: u64, f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(|cx| clk::at_slot(slot, ms, || f.as_mut().poll(cx))).await
}

fn sealer_now(w: &World, root: &H, slot: u32) -> Option<(u16, usize)> {
    let p = stf::phase1(&w.st, slot, root, &Xts::default()).ok()?;
    gen::sealer(&p.st, slot).map(|(a, v, _)| (a, v))
}

/// Checks what a node predicts about the author of `slot` before running the block.
fn predictions(node: &Node, w: &World, root: &H, slot: u32, cov: &mut Cov) -> R {
    let p = stf::phase1(&w.st, slot, root, &Xts::default())?;
    let i = (slot % E) as usize;
    let got = rt()
        .block_on(predict_post_slot_sealer(node.st.state_manager(), slot))
        .map_err(|e| format!("predicting the sealer of slot {slot}: {e}"))?;
    match (&p.st.sealers, got) {
        (Sealers::Keys(k), SlotSealer::BandersnatchPubKeys(g)) => {
            if g.encode().unwrap() != k[i] {
                return Err(format!(
                    "slot {slot} (from {}): predicted another sealing key",
                    w.st.tau
                ));
            }
            for (d, n) in DEV.iter().enumerate() {
                let mine = gen::pool().vals[d].bs == k[i];
                let said = rt()
                    .block_on(RoleManager::is_author_of_slot(
                        node.st.state_manager(),
                        dev(d),
                        &Timeslot::new(slot),
                    ))
                    .map_err(|e| format!("{e}"))?;
                if said != mine {
                    return Err(format!(
                        "slot {slot}: {n} is told author={said}, owns the slot={mine}"
                    ));
                }
            }
            cov.tag("predict-fallback");
        }
        (Sealers::Tickets(t), SlotSealer::Ticket(g)) => {
            if g.id.0 != t[i].0 || g.attempt != t[i].1 {
                return Err(format!(
                    "slot {slot} (from {}): predicted another ticket",
                    w.st.tau
                ));
            }
            cov.tag("predict-ticket");
        }
        (m, _) => {
            return Err(format!(
                "slot {slot} (from {}): predicted the wrong sealing mode (expected {})",
                w.st.tau,
                if matches!(m, Sealers::Keys(_)) {
                    "keys"
                } else {
                    "tickets"
                }
            ))
        }
    }
    Ok(())
}

fn authoring(s: &mut Src, cov: &mut Cov) -> R {
    let p = prof(s);
    let mut w = gen::gen_world(s, &p);
    let kv = w.st.kv();
    let (mut a, mut root) = Node::with_state(&kv, &w.parent, None)?;
    let (mut b, _) = Node::with_state(&kv, &w.parent, None)?;
    let n = s.us(1, if s.scale > 1 { 6 } else { 4 });
    for i in 0..n {
        let at = |e: String| format!("step {i} of {n} on slot {}: {e}", w.st.tau);
        // --- predictions for a few slots ahead, without side effects
        for _ in 0..s.us(0, 2) {
            let ahead = w.st.tau + 1 + s.upto(2 * E as u64) as u32;
            predictions(&a, &w, &root, ahead, cov).map_err(at)?;
            cov.eval();
        }
        let kind = s.weighted(&[7, 3, 1, 1]);
        if kind == 1 {
            // --- an ordinary block from elsewhere
            let Some(g): Option<Gen> = gen::gen_block(s, &p, &w, &root) else {
                return Ok(());
            };
            let r = imp::step(&mut b, &w.st, &root, &g.block, &opts(&w, &root)).map_err(at)?;
            let Step::Accepted(out, nr) = r else {
                return Ok(());
            };
            let ra = a
                .import(&g.block, false)
                .map_err(|e| at(format!("the authoring node rejects a valid block: {e}")))?;
            if ra != nr {
                return Err(at("the authoring node reaches another state root".into()));
            }
            a.keys.extend(out.state.kv().keys().copied());
            root = nr;
            w.st = out.state;
            w.parent = g.block.header;
            cov.tag("imported-between");
            continue;
        }
        let slot = if s.chance(p.epoch, 10) {
            w.st.tau + (E - w.st.tau % E) + s.upto(3) as u32 + if s.chance(1, 4) { E } else { 0 }
        } else {
            w.st.tau + 1 + s.upto(3) as u32
        };
        let ms = s.upto(5999);
        if kind == 3 {
            // --- a clock that has not moved past the chain's head: nothing may be authored
            let old = w.st.tau - s.upto(w.st.tau.min(3) as u64) as u32;
            let who = s.us(0, 5);
            if author(&a, who, s.us(0, 5) as u16, old, ms).is_ok() {
                return Err(at(format!("a block was authored for slot {old}")));
            }
            let d = a.diff(&w.st.kv());
            if a.root() != root || !d.is_empty() {
                return Err(at(format!(
                    "a failed authoring attempt left changes: {d:?}"
                )));
            }
            cov.tag("stale-clock");
            cov.eval();
            continue;
        }
        // the first slot from there on that a development key may seal
        let Some((slot, (idx, who))) = (slot..slot + E)
            .filter_map(|t| Some((t, sealer_now(&w, &root, t)?)))
            .find(|(_, (_, v))| *v < DEV.len())
        else {
            cov.tag("nobody-home");
            return Ok(());
        };
        let p1 = stf::phase1(&w.st, slot, &root, &Xts::default())?;
        let ticket = matches!(p1.st.sealers, Sealers::Tickets(_));
        let mode = if ticket { "ticket" } else { "fallback" };
        if kind == 2 {
            // --- somebody who does not own the slot, or claims the wrong index
            let (who2, idx2) = if s.coin() {
                (who, (idx + 1 + s.upto(4) as u16) % 6)
            } else {
                (
                    (who + 1 + s.us(0, 4)) % 6,
                    if s.coin() { idx } else { s.upto(5) as u16 },
                )
            };
            match author(&a, who2, idx2, slot, ms) {
                Err(_) => cov.tag("intruder-stopped"),
                Ok((blk, _)) => {
                    if let Ok(r) = b.import_raw(
                        blk,
                        false,
                        fr_node::roles::importer::BlockCommitMode::Immediate,
                    ) {
                        // the same key may be listed at several indices
                        let owner = gen::pool().vals[who].bs;
                        if who2 != who || p1.st.kappa[idx2 as usize][..32] != owner[..] {
                            return Err(at(format!(
                                "a block sealed by {} as index {idx2} was accepted ({mode}), root {}",
                                DEV[who2], r.post_state_root
                            )));
                        }
                    }
                    cov.tag("intruder-rejected");
                }
            }
            cov.eval();
            return Ok(());
        }
        // --- authoring proper
        if !ticket {
            predictions(&a, &w, &root, slot, cov).map_err(at)?;
        }
        let (blk, ra) = author(&a, who, idx, slot, ms).map_err(|e| {
            at(format!(
                "{} cannot author slot {slot} ({mode}): {e}",
                DEV[who]
            ))
        })?;
        let mut h = expected_header(&w, &root, slot, idx)?;
        let bytes = blk.header.encode().map_err(|e| format!("{e:?}"))?;
        h.seal = bytes[bytes.len() - 96..].to_vec();
        h.vrf = blk
            .header
            .vrf_signature()
            .encode()
            .map_err(|e| format!("{e:?}"))?;
        if h.encode() != bytes {
            return Err(at(format!(
                "the authored header is not the one slot {slot} calls for ({mode}): {}",
                blk.header
            )));
        }
        let mb = Block {
            header: h,
            xts: Xts::default(),
        };
        if blk.encode().map_err(|e| format!("{e:?}"))? != mb.encode() {
            return Err(at("the authored block carries unexpected extrinsics".into()));
        }
        // the model and the second node
        let r = imp::step(&mut b, &w.st, &root, &mb, &opts(&w, &root))
            .map_err(|e| at(format!("authored block ({mode}, slot {slot}): {e}")))?;
        let Step::Accepted(out, nr) = r else {
            if let Step::Rejected(m, i) = r {
                return Err(at(format!(
                    "authored block is invalid ({mode}, slot {slot}): {m} / {i}"
                )));
            }
            return Ok(());
        };
        a.keys.extend(out.state.kv().keys().copied());
        if ra != nr || a.root() != nr {
            return Err(at(format!(
                "the author reaches another state root ({mode})"
            )));
        }
        let d = a.diff(&out.state.kv());
        if !d.is_empty() {
            return Err(at(format!("the author's state differs: {}", imp::show(d))));
        }
        // what the author can serve
        let hash = mb.header.hash();
        let served = rt()
            .block_on(a.st.get_blocks(h32(&hash), false, 1))
            .map_err(|e| at(format!("the author cannot serve its block: {e}")))?;
        if served.len() != 1 || served[0].encode().unwrap() != mb.encode() {
            return Err(at("the author serves another block".into()));
        }
        let psr = rt()
            .block_on(a.st.post_state_root_db().get_post_state_root(&h32(&hash)))
            .map_err(|e| format!("{e}"))?;
        if psr.map(|r| r.0) != Some(nr) {
            return Err(at("the author did not record the block's state root".into()));
        }
        cov.tag(if ticket {
            "authored-ticket"
        } else {
            "authored-fallback"
        });
        if slot / E != w.st.tau / E {
            cov.tag("authored-epoch-change");
        }
        cov.eval();
        cov.nt(hash_bytes(&hash));
        cov.sample(|| {
            format!(
                "{} authors slot {slot} on {} in {mode} mode; {}",
                DEV[who],
                w.st.tau,
                chain::summary(
                    &w,
                    &Gen {
                        block: mb.clone(),
                        mutation: None
                    }
                )
            )
        });
        root = nr;
        w.st = out.state;
        w.parent = mb.header;
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
thread_local! { static T: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
struct TestTime;
impl UnixTimeProvider for TestTime {
    fn now_unix_timestamp() -> u64 {
        T.get().0
    }
    fn now_unix_timestamp_millis() -> u64 {
        T.get().0 * 1000 + T.get().1
    }
}

fn clock(s: &mut Src, cov: &mut Cov) -> R {
    let era = clk::ERA as u64;
    let secs = match s.weighted(&[4, 2, 2, 1]) {
        0 => era + s.upto(6 * ((1 << 32) - 1)),
        1 => era + s.upto(30),
        2 => {
            let b = era + 6 * s.upto(u32::MAX as u64);
            (b + 2).saturating_sub(s.upto(4))
        }
        _ => era - s.upto(era),
    };
    let ms = s.upto(999);
    T.set((secs, ms));
    type C = Clock<TestTime>;
    let before = secs < era;
    let want_slot = (!before).then(|| ((secs - era) / 6) as u32);
    let want_until = (!before).then(|| 6000 - (((secs - era) * 1000 + ms) % 6000));
    let real = |f: fn() -> Option<u32>| clk::at(secs as i64, ms as i64 * 1_000_000, f);
    for (n, got, want) in [
        (
            "slot",
            C::now_jam_timeslot().map(u64::from),
            want_slot.map(u64::from),
        ),
        (
            "system slot",
            real(JamClock::now_jam_timeslot).map(u64::from),
            want_slot.map(u64::from),
        ),
        (
            "time to the next slot",
            C::millis_until_next_timeslot_boundary(),
            want_until,
        ),
        (
            "system time to the next slot",
            clk::at(
                secs as i64,
                ms as i64 * 1_000_000,
                JamClock::millis_until_next_timeslot_boundary,
            ),
            want_until,
        ),
        (
            "seconds",
            C::seconds_since_common_era(),
            (!before).then(|| secs - era),
        ),
        (
            "millis",
            C::millis_since_common_era(),
            (!before).then(|| (secs - era) * 1000 + ms),
        ),
    ] {
        if got != want {
            return Err(format!(
                "at {secs}.{ms:03}: {n} is {got:?}, expected {want:?}"
            ));
        }
    }
    // a slot is in the future exactly until its first second
    if let Some(now) = want_slot {
        let near = (now as u64 + s.upto(4))
            .saturating_sub(2)
            .min(u32::MAX as u64) as u32;
        let t = if s.chance(3, 4) { near } else { s.u32_any() };
        let got = clk::at(secs as i64, ms as i64 * 1_000_000, || {
            Timeslot::new(t).is_in_future()
        });
        let want = t > now;
        if got != want {
            return Err(format!(
                "during slot {now} (second {} of it), slot {t} counts as future: {got}",
                (secs - era) % 6
            ));
        }
        if t.abs_diff(now) <= 1 {
            cov.tag("adjacent-slot");
        }
    } else {
        cov.tag("before-the-era");
    }
    cov.nt(hash_bytes(&(secs * 1000 + ms).to_le_bytes()));
    cov.sample(|| format!("{secs}.{ms:03}: slot {want_slot:?}, {want_until:?} ms to the next"));
    Ok(())
}

/// Blocks offered before, at and after the start of their slot.
fn early(s: &mut Src, cov: &mut Cov) -> R {
    let p = Prof {
        nsvc: (1, 1),
        mutate: 0,
        muts: &[],
        assu: 1,
        guar: 1,
        pre: 1,
        tick: 1,
        anc: 0,
        ..Default::default()
    };
    let mut w = gen::gen_world(s, &p);
    let kv = w.st.kv();
    let (mut node, mut root) = Node::with_state(&kv, &w.parent, None)?;
    for _ in 0..s.us(1, 3) {
        let Some(g) = gen::gen_block(s, &p, &w, &root) else {
            return Ok(());
        };
        let slot = g.block.header.slot;
        let Ok(out) = stf::apply(&w.st, &g.block, &opts(&w, &root)) else {
            return Ok(());
        };
        let t0 = slot as i64 * 6;
        // offers in time order; only the last may succeed
        let mut offers: Vec<i64> = (0..s.us(0, 2))
            .map(|_| t0 - 1 - *s.pick(&[0i64, 1, 4, 5, 6, 7, 11, 60, 10_000]))
            .filter(|t| *t >= 0)
            .collect();
        offers.sort();
        for t in offers {
            // everything the importer runs happens on this thread
            let r = clk::at(clk::ERA + t, 999_000_000, || local(&node, &g.block));
            if r.is_ok() {
                return Err(format!(
                    "a block of slot {slot} was imported {} s before the slot begins",
                    t0 - t
                ));
            }
            let d = node.diff(&w.st.kv());
            if node.root() != root || !d.is_empty() {
                return Err("a block refused for being early changed the state".into());
            }
            cov.tag(if t0 - t <= 6 {
                "one-slot-early"
            } else {
                "early"
            });
            cov.eval();
            cov.nt(hash_bytes(&g.block.header.hash()) ^ t as u64);
        }
        let late = *s.pick(&[0i64, 0, 1, 5, 6, 1000]);
        let nr = clk::at(clk::ERA + t0 + late, 0, || local(&node, &g.block))
            .map_err(|e| format!("a valid block was refused {late} s into its slot: {e}"))?;
        let kv = out.state.kv();
        node.keys.extend(kv.keys().copied());
        if nr != rj::trie::root(&kv) {
            return Err("state differs".into());
        }
        cov.tag("on-time");
        cov.eval();
        cov.nt(hash_bytes(&g.block.header.hash()) ^ late as u64 ^ 1 << 60);
        cov.sample(|| format!("slot {slot} accepted {late} s in"));
        root = nr;
        w.st = out.state;
        w.parent = g.block.header;
    }
    Ok(())
}
/// Imports on a single-threaded runtime, so that spawned tasks see this thread's clock.
fn local(n: &Node, b: &Block) -> Result<H, String> {
    use fr_node::roles::importer::{BlockCommitMode, BlockImporter};
    thread_local! {
        static L: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    let blk = imp::to_block(b)?;
    L.with(|l| {
        l.block_on(async {
            match BlockImporter::import_block(n.st.clone(), blk, false, BlockCommitMode::Immediate)
                .await
            {
                Ok(o) => {
                    n.st.post_state_root_db()
                        .set_post_state_root(&h32(&b.header.hash()), o.post_state_root.clone())
                        .await
                        .map_err(|e| format!("{e}"))?;
                    Ok(o.post_state_root.0)
                }
                Err(e) => {
                    n.st.state_manager().rollback_dirty_cache();
                    Err(format!("{e}"))
                }
            }
        })
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "an authored block counts (distinct by hash); refused attempts and predictions are evaluated but not counted",
            assumptions: &["Authored blocks carry no extrinsics (the node does not collect any yet), and the role manager is only asked about slots sealed by key: its ticket branch is unimplemented, so ticket slots are authored through the block author itself. The wall clock is the harness's."],
            subs: vec![Sub {
                name: "authoring",
                quick: 1200,
                thorough: 15_000,
                f: authoring,
                threads: 0,
            }],
        },
        Prop {
            id: "C22",
            rule: "a clock reading counts (distinct by time), and so does an offer of a valid block at a time relative to its slot (distinct by block and time)",
            assumptions: &["clock_gettime is interposed inside the harness process; slots last 6 s from the common era."],
            subs: vec![
                Sub {
                    name: "clock",
                    quick: 200_000,
                    thorough: 5_000_000,
                    f: clock,
                    threads: 0,
                },
                Sub {
                    name: "early",
                    quick: 800,
                    thorough: 12_000,
                    f: early,
                    threads: 0,
                },
            ],
        },
    ]
}
