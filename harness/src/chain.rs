//! Block-import histories: generated chains driven through the importer and the reference model.
use crate::eng::{hash_bytes, Cov, Src};
use crate::gen::{self, Prof};
use crate::imp::{self, Node, Step};
use crate::rj::state::State;
use crate::rj::stf::Opts;
use crate::rj::types::Block;
use crate::rj::H;

/// What a step of a history was, for the non-triviality rules.
pub struct Info<'a> {
    pub block: &'a Block,
    pub before: &'a crate::rj::state::State,
    pub step: &'a Step,
    pub mutation: Option<&'a str>,
}

pub fn reason_tag(m: &str) -> &'static str {
    tag(&format!("reject:{m}"))
}
fn tag(m: &str) -> &'static str {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static M: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = M.lock().unwrap();
    let t = g.get_or_insert_with(HashMap::new);
    if let Some(x) = t.get(m) {
        return x;
    }
    let l: &'static str = Box::leak(m.to_string().into_boxed_str());
    t.insert(m.to_string(), l);
    l
}

/// Drives one generated history. `nt` says whether a step exercised the property (and returns a
/// fingerprint of what it exercised).
pub fn run(
    s: &mut Src,
    cov: &mut Cov,
    p: &Prof,
    blocks: usize,
    nt: &dyn Fn(&Info, &mut Cov) -> Option<u64>,
) -> Result<(), String> {
    let mut w = gen::gen_world(s, p);
    if p.scripts && s.chance(p.weights[3], 15) {
        crowd(s, cov, p, &mut w);
    }
    let kv = w.st.kv();
    let (mut node, mut root): (Node, H) = Node::with_state(&kv, &w.parent, w.anc.as_ref())?;
    if root != crate::rj::trie::root(&kv) {
        return Err("genesis state root differs".into());
    }
    let n = s.us(1, blocks);
    // the accessors the transition uses must tell the state too, and what they read stays cached
    let warm = s.chance(1, 3);
    let typed = |node: &Node, want: &State, old: &State, m: &str| -> Result<(), String> {
        let d = if warm {
            node.typed_diff(want, old)
        } else {
            vec![]
        };
        match d.is_empty() {
            true => Ok(()),
            false => Err(format!(
                "{m}, the state reads back otherwise: {}",
                imp::show(d)
            )),
        }
    };
    typed(&node, &w.st, &w.st, "at the start")?;
    let mut fix = std::env::var("VH_FIX")
        .ok()
        .map(|f| (f, fixture_head(&kv, &w)));
    for i in 0..n {
        let Some(g) = gen::gen_block(s, p, &w, &root) else {
            cov.tag("unsealable");
            return Ok(());
        };
        cov.eval();
        cov.sample(|| summary(&w, &g));
        if std::env::var("VH_DUMP").is_ok() {
            dump(&w, &g);
        }
        let o = Opts {
            parent_hash: w.parent.hash(),
            parent_slot: w.st.tau,
            parent_root: root,
            ancestors: w.anc.as_ref(),
        };
        if let Some((f, text)) = fix.as_mut() {
            text.push_str(&format!(
                "block {} {}\n",
                hex::encode(g.block.encode()),
                match crate::rj::stf::apply(&w.st, &g.block, &o) {
                    Ok(x) => hex::encode(crate::rj::trie::root(&x.state.kv())),
                    Err(_) => "rejected".into(),
                }
            ));
            std::fs::write(f, text).unwrap();
        }
        let r = imp::step(&mut node, &w.st, &root, &g.block, &o).map_err(|e| {
            format!(
                "block {i} of {n} (slot {} on {}, mutation {:?}): {e}{}",
                g.block.header.slot,
                w.st.tau,
                g.mutation,
                if p.scripts {
                    format!("\n  programs: {:#?}", w.descs)
                } else {
                    String::new()
                }
            )
        })?;
        {
            let inf = Info {
                block: &g.block,
                before: &w.st,
                step: &r,
                mutation: g.mutation.as_deref(),
            };
            if let Some(h) = nt(&inf, cov) {
                cov.nt(h);
            }
        }
        for (h, r) in crate::rj::acc::TRACE.take() {
            const N: [&str; 28] = [
                "gas",
                "fetch",
                "lookup",
                "read",
                "write",
                "info",
                "",
                "",
                "",
                "",
                "",
                "",
                "",
                "",
                "bless",
                "assign",
                "designate",
                "checkpoint",
                "new",
                "upgrade",
                "transfer",
                "eject",
                "query",
                "solicit",
                "forget",
                "yield",
                "provide",
                "",
            ];
            const C: [&str; 9] = [
                "none", "what", "oob", "who", "full", "core", "cash", "low", "huh",
            ];
            let n = N
                .get(h as usize)
                .copied()
                .filter(|n| !n.is_empty())
                .unwrap_or("unknown");
            let r = match r {
                0x8000_0000_0000_0000 => "stop",
                _ => C.get((u64::MAX - r) as usize).copied().unwrap_or("ok"),
            };
            cov.tag(tag(&format!("{n}-{r}")));
        }
        match r {
            Step::Accepted(out, nr) => {
                cov.tag("accepted");
                if g.mutation.is_some() {
                    cov.tag("accepted-mutant");
                }
                if let Some(a) = w.anc.as_mut() {
                    a.insert((g.block.header.slot, g.block.header.hash()));
                }
                root = nr;
                typed(&node, &out.state, &w.st, "after a block")?;
                w.st = out.state;
                w.parent = g.block.header;
            }
            Step::Rejected(m, _) => {
                cov.tag(reason_tag(&m));
                typed(&node, &w.st, &w.st, "after a rejected block")?;
            }
            Step::Skip(_) => {
                cov.tag("skipped");
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Puts accounts where the services would create new ones in the first block. What the block
/// derives them from does not depend on the accounts, so a trial of the same choices tells.
fn crowd(s: &mut Src, cov: &mut Cov, p: &Prof, w: &mut gen::World) {
    let at: Vec<u64> = w.st.accounts.keys().map(|_| s.upto(63)).collect();
    let reg = s.us(0, 4 * at.len() - 1);
    let root = crate::rj::trie::root(&w.st.kv());
    let Some(g) = gen::gen_block(&mut s.clone(), p, w, &root) else {
        return;
    };
    let o = Opts {
        parent_hash: w.parent.hash(),
        parent_slot: w.st.tau,
        parent_root: root,
        ancestors: w.anc.as_ref(),
    };
    let Ok(x) = crate::rj::stf::apply(&w.st, &g.block, &o) else {
        return;
    };
    let ids: Vec<u32> = w.st.accounts.keys().copied().collect();
    if reg & 3 != 0 {
        w.st.privs.registrar = ids[reg >> 2];
    }
    for (id, m) in ids.iter().zip(at) {
        if m & 1 == 0 {
            let a = w.st.accounts.get_mut(id).unwrap();
            a.balance = a.balance.saturating_add(1500);
        }
        let f = crate::rj::acc::first_id(*id, &x.state.eta[0], g.block.header.slot);
        let n = crate::rj::acc::next_id(f);
        let o = crate::rj::acc::next_id(n);
        let low = crate::svc::low_shell(*id);
        for (k, i) in [f, f + 1, n, n + 1, o, low].into_iter().enumerate() {
            if (m >> k & 1 == 1 || k >= 4) && !w.st.accounts.contains_key(&i) {
                let mut a = crate::rj::state::Account::default();
                if k >= 4 || m >> 5 == 1 {
                    a.code_hash[..4].copy_from_slice(&id.to_le_bytes());
                    let h = crate::rj::blake2b(crate::svc::SHELL);
                    let z = crate::svc::SHELL.len() as u32;
                    a.preimages.insert(h, crate::svc::SHELL.to_vec());
                    a.lookups.insert((h, z), vec![0, 1]);
                }
                a.balance = a.threshold() + k as u64;
                w.st.accounts.insert(i, a);
                cov.tag("crowded");
            }
        }
    }
}

/// A self-contained copy of a history's start, for demonstrations outside this harness.
fn fixture_head(
    kv: &std::collections::BTreeMap<crate::rj::trie::Key, Vec<u8>>,
    w: &gen::World,
) -> String {
    let mut t = String::new();
    for (k, v) in kv {
        t.push_str(&format!("state {} {}\n", hex::encode(k), hex::encode(v)));
    }
    t.push_str(&format!("parent {}\n", hex::encode(w.parent.encode())));
    match &w.anc {
        None => t.push_str("noanc\n"),
        Some(a) => a
            .iter()
            .for_each(|(s, h)| t.push_str(&format!("anc {s} {}\n", hex::encode(h)))),
    }
    t
}

pub fn summary(w: &gen::World, g: &gen::Gen) -> String {
    let x = &g.block.xts;
    format!(
        "slot {} on {} author {} mutation {:?}: {} tickets, {} preimages, {} guarantees, {} assurances, {}+{}+{} disputes; {} services, pending cores {:?}, queued {}; programs {:?}",
        g.block.header.slot,
        w.st.tau,
        g.block.header.author,
        g.mutation,
        x.tickets.len(),
        x.preimages.len(),
        x.guarantees.len(),
        x.assurances.len(),
        x.verdicts.len(),
        x.culprits.len(),
        x.faults.len(),
        w.st.accounts.len(),
        w.st.rho.iter().map(|r| r.is_some()).collect::<Vec<_>>(),
        w.st.ready.iter().map(|r| r.len()).sum::<usize>(),
        w.descs
    )
}

pub fn block_fp(b: &Block) -> u64 {
    hash_bytes(&b.header.hash())
}

fn hx(b: &[u8]) -> String {
    hex::encode(&b[..b.len().min(4)])
}
pub fn dump(w: &gen::World, g: &gen::Gen) {
    let st = &w.st;
    let vs = |v: &Vec<Vec<u8>>| v.iter().map(|k| hx(k)).collect::<Vec<_>>().join(",");
    eprintln!(
        "== tau {} slot {} author {} mutation {:?} anc {}",
        st.tau,
        g.block.header.slot,
        g.block.header.author,
        g.mutation,
        w.anc.is_some()
    );
    eprintln!(
        "kappa {} lambda {} pending {} iota {}",
        vs(&st.kappa),
        vs(&st.lambda),
        vs(&st.pending),
        vs(&st.iota)
    );
    eprintln!(
        "eta {:?} sealers {} tickets {} offenders {}",
        st.eta.iter().map(|h| hx(h)).collect::<Vec<_>>(),
        match &st.sealers {
            crate::rj::state::Sealers::Keys(_) => "keys",
            _ => "tickets",
        },
        st.tickets.len(),
        st.offenders.len()
    );
    eprintln!(
        "rho {:?}",
        st.rho
            .iter()
            .map(|r| r
                .as_ref()
                .map(|r| (hx(&r.0.spec.package), r.1, r.0.digests.len())))
            .collect::<Vec<_>>()
    );
    eprintln!(
        "ready {:?} accumulated {:?}",
        st.ready.iter().map(|r| r.len()).collect::<Vec<_>>(),
        st.accumulated.iter().map(|r| r.len()).collect::<Vec<_>>()
    );
    for (id, a) in &st.accounts {
        eprintln!(
            "svc {id}: bal {} thr {} storage {} preimages {:?} lookups {:?} code {}",
            a.balance,
            a.threshold(),
            a.storage.len(),
            a.preimages.keys().map(|k| hx(k)).collect::<Vec<_>>(),
            a.lookups
                .iter()
                .map(|(k, v)| (hx(&k.0), k.1, v.clone()))
                .collect::<Vec<_>>(),
            hx(&a.code_hash)
        );
    }
    for a in st.accounts.values() {
        for (k, v) in &a.preimages {
            eprintln!("  preimage {} = {}", hx(k), hex::encode(v));
        }
    }
    eprintln!("privs {:?}", st.privs);
    let x = &g.block.xts;
    eprintln!("xts: tickets {} preimages {} guarantees {} assurances {} verdicts {} culprits {} faults {}", x.tickets.len(), x.preimages.len(), x.guarantees.len(), x.assurances.len(), x.verdicts.len(), x.culprits.len(), x.faults.len());
    for g in &x.guarantees {
        eprintln!(
            "  guarantee core {} slot {} sigs {:?} pkg {} prereqs {} lookup {} digests {:?}",
            g.report.core,
            g.slot,
            g.sigs.iter().map(|s| s.0).collect::<Vec<_>>(),
            hx(&g.report.spec.package),
            g.report.ctx.prereqs.len(),
            g.report.sr_lookup.len(),
            g.report
                .digests
                .iter()
                .map(|d| (d.service, d.acc_gas))
                .collect::<Vec<_>>()
        );
    }
    for a in &x.assurances {
        eprintln!("  assurance {} {:?}", a.validator, a.cores);
    }
    eprintln!("programs {:#?}", w.descs);
}
