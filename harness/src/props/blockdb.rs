//! C26: block storage (headers, extrinsics, post-state roots, recent ancestors) against maps, with
//! reopened, crashed and damaged stores. C27: competing blocks on one parent.
use super::wire::{header, xts};
use crate::eng::{hash_bytes, Cov, Prop, Src, Sub};
use crate::gen::{self, Mu, Prof};
use crate::imp::{h32, rt, scratch, show, skey31, to_block, to_header, Node};
use crate::rj::state::{diff_kv, State};
use crate::rj::stf::{self, Opts};
use crate::rj::types::{Block, Header, Xts};
use crate::rj::{self, codec::enc, trie, H};
use fr_block::types::extrinsics::Extrinsics;
use fr_codec::prelude::*;
use fr_config::{ColumnFamilyConfigs, StorageConfig};
use fr_node::roles::importer::BlockCommitMode;
use fr_state::manager::StateDelta;
use fr_storage::node_storage::NodeStorage;
use fr_storage::server_trait::NodeServerTrait;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;

type R = Result<(), String>;

fn to_xts(x: &Xts) -> Extrinsics {
    crate::imp::decode_all(&enc(|e| x.enc(e))).expect("extrinsics")
}

#[derive(Default)]
struct Books {
    headers: BTreeMap<H, Header>,
    xts: BTreeMap<H, Xts>,
    roots: BTreeMap<H, H>,
    anc: BTreeSet<(u32, H)>,
    best: Option<Header>,
    /// headers whose slot and hash were told as an ancestor's, but which were not stored then
    told: Vec<Header>,
}

fn open(dir: &Path, sizes: &[usize; 3]) -> Result<NodeStorage, String> {
    let _g = rt().enter();
    let cfg = || {
        let mut cfs = ColumnFamilyConfigs::default();
        cfs.header_db.cache_size = sizes[0];
        cfs.xt_db.cache_size = sizes[1];
        cfs.post_state_root_db.cache_size = sizes[2];
        StorageConfig {
            path: dir.to_path_buf(),
            cfs,
            state_cache_size: 64,
        }
    };
    // a closed store lets go of its files when its last background task has ended
    for _ in 0..2000 {
        match NodeStorage::new(cfg()).map_err(|e| format!("open: {e}")) {
            Err(e) if e.contains("lock hold by current process") => {
                std::thread::sleep(std::time::Duration::from_millis(5))
            }
            r => return r,
        }
    }
    Err("open: the store was not let go of within 10 s".into())
}

/// Reads one thing and compares; `faulty` allows errors.
async fn check_header(st: &NodeStorage, b: &Books, h: &H, faulty: bool) -> R {
    match st.header_db().get_header(&h32(h)).await {
        Ok(got) => match (got, b.headers.get(h)) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) if g.encode().map_err(|e| format!("{e:?}"))? == w.encode() => Ok(()),
            (Some(_), Some(_)) => Err("a stored header reads back differently".into()),
            (None, Some(_)) => Err("a stored header is not found".into()),
            (Some(_), None) => Err("a header that was never stored is found".into()),
        },
        Err(_) if faulty => Ok(()),
        Err(e) => Err(format!("reading a header fails: {e}")),
    }
}
async fn check_xts(st: &NodeStorage, b: &Books, h: &H, faulty: bool) -> R {
    match st.xt_db().get_xt(&h32(h)).await {
        Ok(got) => match (got, b.xts.get(h)) {
            (None, None) => Ok(()),
            (Some(g), Some(w))
                if g.encode().map_err(|e| format!("{e:?}"))? == enc(|e| w.enc(e)) =>
            {
                Ok(())
            }
            (Some(_), Some(_)) => Err("a stored extrinsic reads back differently".into()),
            (None, Some(_)) => Err("a stored extrinsic is not found".into()),
            (Some(_), None) => Err("an extrinsic that was never stored is found".into()),
        },
        Err(_) if faulty => Ok(()),
        Err(e) => Err(format!("reading an extrinsic fails: {e}")),
    }
}
async fn check_root(st: &NodeStorage, b: &Books, h: &H, faulty: bool) -> R {
    match st.post_state_root_db().get_post_state_root(&h32(h)).await {
        Ok(got) => {
            if got.as_ref().map(|g| g.0) != b.roots.get(h).copied() {
                return Err(format!(
                    "a post-state root reads as {:?} instead of {:?}",
                    got.map(|g| hex::encode(&g.0[..4])),
                    b.roots.get(h).map(|g| hex::encode(&g[..4]))
                ));
            }
            Ok(())
        }
        Err(_) if faulty => Ok(()),
        Err(e) => Err(format!("reading a post-state root fails: {e}")),
    }
}
async fn check_block(st: &NodeStorage, b: &Books, h: &H) -> R {
    let want = b
        .headers
        .get(h)
        .and_then(|x| Some((x, b.xts.get(&x.xt_hash)?)));
    match (st.get_blocks(h32(h), false, 1).await, want) {
        (Ok(v), Some((hd, x))) => {
            let w = Block {
                header: hd.clone(),
                xts: x.clone(),
            }
            .encode();
            if v.len() != 1 || v[0].encode().map_err(|e| format!("{e:?}"))? != w {
                return Err("a requested block differs from the stored one".into());
            }
            Ok(())
        }
        (Ok(_), None) => Err("a block that is not stored is served".into()),
        (Err(e), Some(_)) => Err(format!("a stored block is not served: {e}")),
        (Err(_), None) => Ok(()),
    }
}
fn ancestor_window(b: &Books) -> BTreeSet<(u32, H)> {
    b.anc.iter().rev().take(24).copied().collect()
}

async fn check_all(st: &NodeStorage, b: &Books, probes: &[H], faulty: bool) -> R {
    for h in b.headers.keys().chain(probes) {
        check_header(st, b, h, faulty).await?;
        if !faulty {
            check_block(st, b, h).await?;
        }
    }
    for h in b.xts.keys().chain(probes) {
        check_xts(st, b, h, faulty).await?;
    }
    for h in b.roots.keys().chain(probes) {
        check_root(st, b, h, faulty).await?;
    }
    Ok(())
}

fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let _ = std::fs::copy(e.path(), to.join(e.file_name()));
    }
}

fn some_header(s: &mut Src, b: &Books) -> Header {
    // one that is stored already, or known by its hash, or a new one
    if !b.headers.is_empty() && s.chance(1, 8) {
        let i = s.us(0, b.headers.len() - 1);
        return b.headers.values().nth(i).unwrap().clone();
    }
    if !b.told.is_empty() && s.chance(1, 5) {
        return s.pick(&b.told).clone();
    }
    let mut h = header(s);
    // few slots, so that heights compete
    h.slot = match s.us(0, 3) {
        0 => s.range(100, 110) as u32,
        _ => 100 + b.anc.len() as u32 + s.upto(3) as u32,
    };
    match b.xts.keys().next_back() {
        Some(x) if s.coin() => h.xt_hash = *x,
        _ => {}
    }
    h
}

fn blockstore(s: &mut Src, cov: &mut Cov) -> R {
    let dir = scratch();
    let mut path = dir.path().join("db0");
    let mut gen_no = 0;
    let mut sizes = [0usize; 3];
    for z in &mut sizes {
        *z = *s.pick(&[1024usize, 1, 3]);
    }
    let mut st = open(&path, &sizes)?;
    let mut b = Books::default();
    let n = s.us(1, if s.scale > 1 { 120 } else { 40 });
    let mut fp = vec![];
    for i in 0..n {
        let op = s.weighted(&[6, 4, 3, 2, 5, 4, 5, 4, 4, 2, 1, 1]);
        fp.push(op as u8);
        cov.eval();
        let at = |m: String| format!("operation {i} ({op}): {m}");
        let pick = |s: &mut Src, b: &Books| -> H {
            let v: Vec<H> = b.headers.keys().copied().collect();
            if v.is_empty() || s.chance(1, 5) {
                s.hash()
            } else {
                *s.pick(&v)
            }
        };
        let r: R = match op {
            0 => {
                let h = some_header(s, &b);
                cov.tag("insert-header");
                rt().block_on(st.header_db().insert_header(h32(&h.hash()), to_header(&h)))
                    .map_err(|e| at(format!("{e}")))?;
                b.anc.insert((h.slot, h.hash()));
                b.headers.insert(h.hash(), h);
                Ok(())
            }
            1 => {
                let h = some_header(s, &b);
                cov.tag("commit-header");
                let got = rt()
                    .block_on(st.header_db().commit_header(to_header(&h)))
                    .map_err(|e| at(format!("{e}")))?;
                if got.0 != h.hash() {
                    return Err(at("the stored header's hash is wrong".into()));
                }
                b.headers.insert(h.hash(), h);
                Ok(())
            }
            2 => {
                let v: Vec<Header> = (0..s.us(0, 30)).map(|_| some_header(s, &b)).collect();
                cov.tag("insert-batch");
                rt().block_on(st.header_db().batch_insert_headers(
                    v.iter().map(|h| (h32(&h.hash()), to_header(h))).collect(),
                ))
                .map_err(|e| at(format!("{e}")))?;
                for h in v {
                    b.anc.insert((h.slot, h.hash()));
                    b.headers.insert(h.hash(), h);
                }
                Ok(())
            }
            3 => {
                let v: Vec<(u32, H)> = (0..s.us(0, 30))
                    .map(|_| {
                        if s.chance(1, 3) {
                            let h = some_header(s, &b);
                            let a = (h.slot, h.hash());
                            b.told.push(h);
                            a
                        } else {
                            (100 + s.upto(60) as u32, s.hash())
                        }
                    })
                    .collect();
                cov.tag("ancestors");
                st.header_db()
                    .batch_insert_to_ancestor_set(v.iter().map(|(t, h)| (*t, h32(h))).collect())
                    .map_err(|e| at(format!("{e}")))?;
                b.anc.extend(v);
                Ok(())
            }
            4 => {
                let x = xts(s);
                cov.tag("store-extrinsic");
                rt().block_on(st.xt_db().set_xt(&h32(&x.hash()), to_xts(&x)))
                    .map_err(|e| at(format!("{e}")))?;
                b.xts.insert(x.hash(), x);
                Ok(())
            }
            5 => {
                let h = pick(s, &b);
                let r = s.hash();
                cov.tag("store-root");
                rt().block_on(
                    st.post_state_root_db()
                        .set_post_state_root(&h32(&h), h32(&r)),
                )
                .map_err(|e| at(format!("{e}")))?;
                b.roots.insert(h, r);
                Ok(())
            }
            6 => {
                let h = pick(s, &b);
                cov.tag("read");
                rt().block_on(async {
                    check_header(&st, &b, &h, false).await?;
                    check_root(&st, &b, &h, false).await?;
                    check_block(&st, &b, &h).await
                })
            }
            7 => {
                let win = ancestor_window(&b);
                cov.tag(if b.anc.len() > 24 {
                    "window-full"
                } else {
                    "window"
                });
                for a in b.anc.iter().rev().take(40) {
                    let got = st
                        .header_db()
                        .header_exists_in_ancestor_set(&(a.0, h32(&a.1)));
                    if got != win.contains(a) {
                        return Err(at(format!(
                            "of {} ancestors the one at {} is {}",
                            b.anc.len(),
                            a.0,
                            if got {
                                "kept though 24 are later"
                            } else {
                                "lost"
                            }
                        )));
                    }
                    let other = (a.0 + 1, h32(&a.1));
                    if st.header_db().header_exists_in_ancestor_set(&other)
                        && !win.contains(&(a.0 + 1, a.1))
                    {
                        return Err(at("an ancestor is known at another slot".into()));
                    }
                }
                Ok(())
            }
            8 => {
                let h = some_header(s, &b);
                cov.tag("best");
                st.header_db().set_best_header(to_header(&h));
                b.best = Some(h);
                Ok(())
            }
            9 => {
                // requests of other forms: an error or the right blocks, but nothing else
                let h = pick(s, &b);
                let (asc, max) = (s.coin(), *s.pick(&[0u32, 1, 2, u32::MAX]));
                cov.tag("odd-request");
                if !asc && max == 1 {
                    continue;
                }
                let got = rt().block_on(st.get_blocks(h32(&h), asc, max));
                if let Ok(v) = got {
                    // only descending answers are determined by the store
                    let mut at_h = h;
                    for g in v {
                        let g = g.encode().map_err(|e| format!("{e:?}"))?;
                        let Some(hd) = b.headers.get(&at_h).filter(|_| !asc) else {
                            return Err(at("an unknown block is served".into()));
                        };
                        if !g.starts_with(&hd.encode()) {
                            return Err(at("a wrong block is served".into()));
                        }
                        at_h = hd.parent;
                    }
                }
                Ok(())
            }
            10 => {
                cov.tag("reopened");
                drop(st);
                for z in &mut sizes {
                    *z = *s.pick(&[1024usize, 1, 3]);
                }
                st = open(&path, &sizes)?;
                b.anc.clear();
                b.best = None;
                rt().block_on(check_all(&st, &b, &[], false))
            }
            _ => {
                // the process dies: what was acknowledged is in the files
                cov.tag("crashed");
                gen_no += 1;
                let next = dir.path().join(format!("db{gen_no}"));
                copy_dir(&path, &next);
                drop(st);
                path = next;
                st = open(&path, &sizes)?;
                b.anc.clear();
                b.best = None;
                rt().block_on(check_all(&st, &b, &[], false))
            }
        };
        r.map_err(at)?;
        if let Some(w) = &b.best {
            let g = st.header_db().get_best_header();
            if g.encode().map_err(|e| format!("{e:?}"))? != w.encode() {
                return Err(at("the head is not the one that was set".into()));
            }
        }
    }
    let probe = s.hash();
    rt().block_on(check_all(&st, &b, &[probe], false))
        .map_err(|m| format!("at the end: {m}"))?;
    cov.nt(hash_bytes(&fp) ^ b.headers.len() as u64);
    cov.sample(|| {
        format!(
            "{n} operations, {} headers, {} extrinsics, {} roots, {} ancestors, caches {sizes:?}",
            b.headers.len(),
            b.xts.len(),
            b.roots.len(),
            b.anc.len()
        )
    });
    Ok(())
}

/// Damaged files: a read yields what was stored or an error.
fn damaged(s: &mut Src, cov: &mut Cov) -> R {
    let dir = scratch();
    let path = dir.path().join("db");
    let sizes = [16, 16, 16];
    let mut b = Books::default();
    let mut state: BTreeMap<trie::Key, Vec<u8>> = BTreeMap::new();
    let st = open(&path, &sizes)?;
    rt().block_on(async {
        for _ in 0..s.us(1, 6) {
            let x = xts(s);
            let mut h = header(s);
            h.xt_hash = x.hash();
            let r = s.hash();
            let k = h32(&h.hash());
            st.header_db()
                .insert_header(k.clone(), to_header(&h))
                .await
                .map_err(|e| format!("{e}"))?;
            st.xt_db()
                .set_xt(&h32(&x.hash()), to_xts(&x))
                .await
                .map_err(|e| format!("{e}"))?;
            st.post_state_root_db()
                .set_post_state_root(&k, h32(&r))
                .await
                .map_err(|e| format!("{e}"))?;
            b.roots.insert(h.hash(), r);
            b.headers.insert(h.hash(), h);
            b.xts.insert(x.hash(), x);
        }
        let sm = st.state_manager();
        for _ in 0..s.us(1, 8) {
            let k = rj::state::storage_key(s.upto(3) as u32, &s.hash());
            let n = s.us(1, 60);
            let v = s.blob(n);
            sm.add_raw_state_entry(&skey31(&k), v.clone())
                .await
                .map_err(|e| format!("{e}"))?;
            state.insert(k, v);
        }
        sm.commit_dirty_cache().await.map_err(|e| format!("{e}"))
    })?;
    drop(st);
    // reopening moves the log into table files
    drop(open(&path, &sizes)?);
    let mut tables: Vec<_> = std::fs::read_dir(&path)
        .unwrap()
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.extension().is_some_and(|x| x == "sst"))
        .collect();
    tables.sort();
    if tables.is_empty() {
        cov.tag("no-tables");
        return Ok(());
    }
    let f = s.pick(&tables).clone();
    let mut data = std::fs::read(&f).unwrap();
    let reach = *s.pick(&[40usize, 200, data.len()]);
    let i = s.us(0, reach.min(data.len()) - 1);
    match s.us(0, 2) {
        0 => data[i] ^= 1 << s.us(0, 7),
        1 => {
            let to = (i + 64).min(data.len());
            data[i..to].fill(0);
        }
        _ => data.truncate(i),
    }
    std::fs::write(&f, data).unwrap();
    cov.eval();
    cov.nt(hash_bytes(&std::fs::read(&f).unwrap()));
    let st = match open(&path, &sizes) {
        Ok(st) => st,
        Err(_) => {
            cov.tag("refused-to-open");
            return Ok(());
        }
    };
    cov.tag("opened");
    rt().block_on(async {
        check_all(&st, &b, &[], true).await?;
        let sm = st.state_manager();
        for (k, v) in &state {
            match sm.get_raw_state_entry(&skey31(k)).await {
                Ok(Some(g)) if g == *v => {}
                Ok(Some(_)) => return Err("a stored state entry reads back differently".into()),
                Ok(None) => return Err("a stored state entry reads as absent".to_string()),
                Err(_) => cov.tag("read-error"),
            }
        }
        Ok(())
    })
    .map_err(|m| format!("a table file is damaged at octet {i}: {m}"))
}

// ---- C27: competing blocks

fn fork_profile(s: &mut Src) -> Prof {
    let all: &'static [Mu] = &[
        Mu::Header,
        Mu::Disputes,
        Mu::Tickets,
        Mu::Assurances,
        Mu::Guarantees,
        Mu::Preimages,
    ];
    Prof {
        nsvc: (1, 2),
        scripts: s.coin(),
        disp: 3,
        tick: 3,
        tick_fill: 7,
        assu: 6,
        guar: 5,
        pre: 4,
        mutate: 3,
        muts: all,
        epoch: 4,
        ..Default::default()
    }
}

struct Staged {
    block: Block,
    state: State,
    root: H,
    artifact: Option<fr_state::manager::StateCommitArtifact>,
}

/// The blocks kept, and none of those only tried, are ancestors to the blocks that follow.
fn ancestry(node: &Node, tried: &BTreeSet<(u32, H)>, kept: &BTreeSet<(u32, H)>) -> R {
    for e in tried {
        let db = node.st.header_db();
        if db.header_exists_in_ancestor_set(&(e.0, h32(&e.1))) != kept.contains(e) {
            return Err(if kept.contains(e) {
                "the block kept is not an ancestor".into()
            } else {
                "a block only tried is an ancestor".into()
            });
        }
    }
    Ok(())
}

fn forks(s: &mut Src, cov: &mut Cov) -> R {
    let p = fork_profile(s);
    let mut w = gen::gen_world(s, &p);
    let mut kv = w.st.kv();
    let (mut node, mut root) = Node::with_state(&kv, &w.parent, w.anc.as_ref())?;
    let anc = w.anc.is_some();
    let depth = s.us(1, if s.scale > 1 { 5 } else { 3 });
    let warm = s.coin();
    // blocks tried, and those kept
    let mut tried: BTreeSet<(u32, H)> = BTreeSet::new();
    let mut kept: BTreeSet<(u32, H)> = BTreeSet::new();
    for d in 0..depth {
        let mut staged: Vec<Staged> = vec![];
        let k = s.us(1, 4);
        for j in 0..k {
            let at = |m: String| format!("height {d}, candidate {j}: {m}");
            // a new candidate, a known one again, or a child of a candidate
            let again = !staged.is_empty() && s.chance(1, 6);
            let child = !again && !staged.is_empty() && s.chance(1, 6);
            let blk = if again {
                cov.tag("again");
                s.pick(&staged).block.clone()
            } else if child {
                let c = s.pick(&staged);
                let (r, hd) = (c.root, c.block.header.clone());
                let mut w2 = w.clone();
                w2.st = c.state.clone();
                w2.parent = hd;
                let mut p2 = p.clone();
                p2.mutate = 0;
                cov.tag("child-of-candidate");
                match gen::gen_block(s, &p2, &w2, &r) {
                    Some(g) => g.block,
                    None => continue,
                }
            } else {
                match gen::gen_block(s, &p, &w, &root) {
                    Some(g) => g.block,
                    None => return Ok(()),
                }
            };
            let o = Opts {
                parent_hash: w.parent.hash(),
                parent_slot: w.st.tau,
                parent_root: root,
                ancestors: w.anc.as_ref(),
            };
            let want = stf::apply(&w.st, &blk, &o);
            if matches!(&want, Err(m) if m.starts_with("WILD")) {
                return Ok(());
            }
            cov.eval();
            let Ok(nb) = to_block(&blk) else {
                if want.is_ok() {
                    return Err(at("a valid block is not decoded".into()));
                }
                cov.tag("undecodable");
                continue;
            };
            tried.insert((blk.header.slot, blk.header.hash()));
            let got = node.import_raw(nb, anc, BlockCommitMode::StageOnly);
            match (want, got) {
                (Ok(o), Ok(out)) => {
                    let wkv = o.state.kv();
                    let wr = trie::root(&wkv);
                    node.keys.extend(wkv.keys().copied());
                    if out.post_state_root.0 != wr {
                        return Err(at("the candidate's state root is wrong".into()));
                    }
                    let mut mine = kv.clone();
                    if let Some(a) = &out.state_commit_artifact {
                        if a.state_root().0 != wr {
                            return Err(at("the staged state root is wrong".into()));
                        }
                        for (k, dl) in a.state_delta_entries().map_err(|e| at(format!("{e}")))? {
                            let key: trie::Key = k.0;
                            match dl {
                                StateDelta::Remove => mine.remove(&key),
                                StateDelta::Write(v) => mine.insert(key, v),
                            };
                        }
                    }
                    let df = diff_kv(&wkv, &mine);
                    if !df.is_empty() {
                        return Err(at(format!(
                            "the candidate's staged state differs: {}",
                            show(df)
                        )));
                    }
                    rt().block_on(
                        node.st
                            .post_state_root_db()
                            .set_post_state_root(&h32(&blk.header.hash()), out.post_state_root),
                    )
                    .map_err(|e| at(format!("{e}")))?;
                    cov.tag("staged");
                    cov.nt(hash_bytes(&blk.header.hash()) ^ (staged.len() as u64) << 32);
                    staged.push(Staged {
                        block: blk,
                        state: o.state,
                        root: wr,
                        artifact: out.state_commit_artifact,
                    });
                }
                (Err(m), Err(_)) => {
                    cov.tag(crate::chain::reason_tag(&m));
                }
                (Ok(_), Err(e)) => return Err(at(format!("a valid candidate is rejected: {e}"))),
                (Err(m), Ok(_)) => {
                    return Err(at(format!("an invalid candidate is accepted: {m}")))
                }
            }
            // the head has not moved
            if node.root() != root {
                return Err(at("the head's state root changed".into()));
            }
            let df = node.diff(&kv);
            if !df.is_empty() {
                return Err(at(format!("the head's state changed: {}", show(df))));
            }
            let best = node
                .st
                .header_db()
                .get_best_header()
                .hash()
                .map_err(|e| at(format!("{e}")))?;
            if best.0 != w.parent.hash() {
                return Err(at("the head changed".into()));
            }
            ancestry(&node, &tried, &kept).map_err(at)?;
        }
        if staged.is_empty() {
            continue;
        }
        cov.tag(if staged.len() > 1 {
            "competing"
        } else {
            "single"
        });
        let cnt = staged.len();
        let at = |m: String| format!("height {d}, finalizing one of {cnt}: {m}");
        if warm {
            // the candidates left nothing behind for the accessors of the transition either
            let df = node.typed_diff(&w.st, &staged[s.us(0, cnt - 1)].state);
            if !df.is_empty() {
                return Err(at(format!(
                    "the head's state reads otherwise: {}",
                    show(df)
                )));
            }
        }
        let i = s.us(0, staged.len() - 1);
        let c = staged.swap_remove(i);
        let direct = s.chance(1, 4);
        if direct {
            // the same block, now imported for good
            cov.tag("imported-after-staging");
            let r = node
                .import(&c.block, anc)
                .map_err(|e| at(format!("a valid block is rejected after staging: {e}")))?;
            if r != c.root {
                return Err(at("the imported block's state root is wrong".into()));
            }
        } else {
            rt().block_on(async {
                let hd = to_header(&c.block.header);
                node.st
                    .header_db()
                    .insert_header(h32(&c.block.header.hash()), hd.clone())
                    .await
                    .map_err(|e| format!("{e}"))?;
                if let Some(a) = &c.artifact {
                    node.st
                        .state_manager()
                        .apply_dirty_cache_commit(a)
                        .await
                        .map_err(|e| format!("{e}"))?;
                }
                node.st.header_db().set_best_header(hd);
                Ok::<_, String>(())
            })
            .map_err(at)?;
        }
        kept.insert((c.block.header.slot, c.block.header.hash()));
        ancestry(&node, &tried, &kept).map_err(at)?;
        kv = c.state.kv();
        root = c.root;
        if node.root() != root {
            return Err(at("the state root is wrong".into()));
        }
        let df = node.diff(&kv);
        if !df.is_empty() {
            return Err(at(format!("the state differs: {}", show(df))));
        }
        if warm {
            let df = node.typed_diff(&c.state, &w.st);
            if !df.is_empty() {
                return Err(at(format!("the state reads otherwise: {}", show(df))));
            }
        }
        cov.sample(|| {
            format!(
                "height {d}: {k} candidates at slots {:?}, finalized slot {} ({})",
                staged
                    .iter()
                    .map(|x| x.block.header.slot)
                    .collect::<Vec<_>>(),
                c.block.header.slot,
                if direct { "imported" } else { "staged commit" }
            )
        });
        if let Some(a) = w.anc.as_mut() {
            a.insert((c.block.header.slot, c.block.header.hash()));
        }
        w.st = c.state;
        w.parent = c.block.header;
    }
    let _ = Arc::strong_count(&node.st);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "a generated sequence of storage operations counts (distinct by operations and size), and so does a damaged table file (distinct by content)",
            assumptions: &["A crash is a copy of the database files between two operations (what the operating system holds survives, as after a killed process). Damage is confined to table files."],
            subs: vec![
                Sub {
                    name: "blockstore",
                    quick: 2000,
                    thorough: 40_000,
                    f: blockstore,
                    threads: 8,
                },
                Sub {
                    name: "damaged",
                    quick: 300,
                    thorough: 20_000,
                    f: damaged,
                    threads: 8,
                },
            ],
        },
        Prop {
            id: "C27",
            rule: "a staged candidate block counts (distinct by hash and number of competitors)",
            assumptions: &["Candidates are staged, and one of them finalized, in the order the conformance target does it (rolling back after a rejection)."],
            subs: vec![Sub {
                name: "forks",
                quick: 450,
                thorough: 30_000,
                f: forks,
                threads: 8,
            }],
        },
    ]
}
