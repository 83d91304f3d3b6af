//! C20: the state store (cache, staged commits and stored Merkle trie) against a map.
use crate::eng::{hash_bytes, Cov, Prop, Src, Sub};
use crate::imp::{decode_all, h32, rt, scratch, skey31};
use crate::rj::{state as rs, trie, trie::Key, H};
use fr_codec::prelude::*;
use fr_common::{Octets, StorageKey};
use fr_config::{ColumnFamilyConfigs, StorageConfig};
use fr_state::cache::StateMut;
use fr_state::error::StateManagerError;
use fr_state::manager::{StateCommitArtifact, StateDelta, StateManager};
use fr_state::types::*;
use fr_storage::node_storage::NodeStorage;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Kv = BTreeMap<Key, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
enum Cell {
    Slot,
    Entropy,
    Meta(u32),
    Stor(u32, Vec<u8>),
    Pre(u32, H),
    Look(u32, H, u32),
    Raw(Key),
}
impl Cell {
    fn key(&self) -> Key {
        match self {
            Cell::Slot => rs::skey(11),
            Cell::Entropy => rs::skey(6),
            Cell::Meta(s) => rs::akey(*s),
            Cell::Stor(s, k) => rs::storage_key(*s, k),
            Cell::Pre(s, h) => rs::preimage_key(*s, h),
            Cell::Look(s, h, l) => rs::lookup_key(*s, h, *l),
            Cell::Raw(k) => *k,
        }
    }
    fn fixed(&self) -> bool {
        matches!(self, Cell::Slot | Cell::Entropy)
    }
    fn value(&self, s: &mut Src, pool: &[Vec<u8>]) -> Vec<u8> {
        match self {
            Cell::Slot => s.blob(4),
            Cell::Entropy => s.blob(128),
            Cell::Meta(_) => {
                let mut v = s.blob(89);
                v[0] = 0;
                v
            }
            Cell::Look(..) => {
                let n = s.us(0, 3);
                let mut v = vec![n as u8];
                v.extend(s.blob(4 * n));
                v
            }
            _ => s.pick(pool).clone(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(Vec<u8>),
    Update(Vec<u8>),
    Remove,
    Read,
    ReadClean,
}

type R<T> = Result<T, StateManagerError>;
fn de<T: JamDecode>(b: &[u8]) -> T {
    decode_all::<T>(b).expect("generated value decodes")
}
fn en<T: JamEncode>(v: Option<T>) -> Option<Vec<u8>> {
    v.map(|v| v.encode().expect("encodes"))
}
fn oct(b: &[u8]) -> Octets {
    Octets::from_vec(b.to_vec())
}

async fn mutate(sm: &StateManager, c: &Cell, m: StateMut, v: Option<Vec<u8>>) -> R<()> {
    macro_rules! set {
        ($t:ty) => {
            |x: &mut $t| {
                if let Some(v) = v {
                    *x = de::<$t>(&v);
                }
                Ok::<(), StateManagerError>(())
            }
        };
    }
    match c {
        Cell::Slot => sm.with_mut_timeslot(m, set!(Timeslot)).await,
        Cell::Entropy => sm.with_mut_epoch_entropy(m, set!(EpochEntropy)).await,
        Cell::Meta(s) => {
            sm.with_mut_account_metadata(m, *s, set!(AccountMetadata))
                .await
        }
        Cell::Stor(s, k) => {
            sm.with_mut_account_storage_entry(m, *s, &StorageKey::from_vec(k.clone()), |x| {
                if let Some(v) = v {
                    x.value = oct(&v);
                }
                Ok::<(), StateManagerError>(())
            })
            .await
        }
        Cell::Pre(s, h) => {
            sm.with_mut_account_preimages_entry(m, *s, &h32(h), |x| {
                if let Some(v) = v {
                    x.value = oct(&v);
                }
                Ok::<(), StateManagerError>(())
            })
            .await
        }
        Cell::Look(s, h, l) => {
            sm.with_mut_account_lookups_entry(m, *s, (h32(h), *l), set!(AccountLookupsEntry))
                .await
        }
        Cell::Raw(k) => match (m, v) {
            (StateMut::Remove, _) => sm.remove_raw_state_entry(&skey31(k)).await,
            (_, v) => sm.update_raw_state_entry(&skey31(k), v.unwrap()).await,
        },
    }
}
async fn add(sm: &StateManager, c: &Cell, v: &[u8]) -> R<()> {
    match c {
        Cell::Slot => sm.add_timeslot(de(v)).await,
        Cell::Entropy => sm.add_epoch_entropy(de(v)).await,
        Cell::Meta(s) => sm.add_account_metadata(*s, de(v)).await,
        Cell::Stor(s, k) => {
            sm.add_account_storage_entry(
                *s,
                &StorageKey::from_vec(k.clone()),
                AccountStorageEntry { value: oct(v) },
            )
            .await
        }
        Cell::Pre(s, h) => {
            sm.add_account_preimages_entry(*s, &h32(h), AccountPreimagesEntry { value: oct(v) })
                .await
        }
        Cell::Look(s, h, l) => sm.add_account_lookups_entry(*s, (h32(h), *l), de(v)).await,
        Cell::Raw(k) => sm.add_raw_state_entry(&skey31(k), v.to_vec()).await,
    }
}
/// None: this cell has no such accessor.
async fn read(sm: &StateManager, c: &Cell, clean: bool) -> Option<R<Option<Vec<u8>>>> {
    Some(match (c, clean) {
        (Cell::Slot, false) => sm.get_timeslot().await.map(|x| en(Some(x))),
        (Cell::Slot, true) => sm.get_timeslot_clean().await.map(|x| en(Some(x))),
        (Cell::Entropy, false) => sm.get_epoch_entropy().await.map(|x| en(Some(x))),
        (Cell::Entropy, true) => sm.get_epoch_entropy_clean().await.map(|x| en(Some(x))),
        (Cell::Meta(s), false) => sm.get_account_metadata(*s).await.map(en),
        (Cell::Meta(_), true) => return None,
        (Cell::Stor(s, k), cl) => {
            let k = StorageKey::from_vec(k.clone());
            if cl {
                sm.get_account_storage_entry_clean(*s, &k).await
            } else {
                sm.get_account_storage_entry(*s, &k).await
            }
            .map(|x| x.map(|x| x.value.into_vec()))
        }
        (Cell::Pre(s, h), cl) => if cl {
            sm.get_account_preimages_entry_clean(*s, &h32(h)).await
        } else {
            sm.get_account_preimages_entry(*s, &h32(h)).await
        }
        .map(|x| x.map(|x| x.value.into_vec())),
        (Cell::Look(s, h, l), cl) => if cl {
            sm.get_account_lookups_entry_clean(*s, &(h32(h), *l)).await
        } else {
            sm.get_account_lookups_entry(*s, &(h32(h), *l)).await
        }
        .map(en),
        (Cell::Raw(k), false) => sm.get_raw_state_entry(&skey31(k)).await,
        (Cell::Raw(k), true) => sm.get_raw_state_entry_from_db(&skey31(k)).await,
    })
}

fn hx(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "absent".into(),
        Some(v) => format!("{}:{}", v.len(), hex::encode(&v[..v.len().min(6)])),
    }
}

/// Runs the operations of one cell list in order; `base` is the committed state.
async fn run(sm: &StateManager, ops: Vec<(Cell, Op)>, base: Arc<Kv>) -> Result<Kv, String> {
    let mut cur: BTreeMap<Key, Option<Vec<u8>>> = BTreeMap::new();
    for (i, (c, op)) in ops.iter().enumerate() {
        let k = c.key();
        let now = cur
            .get(&k)
            .cloned()
            .unwrap_or_else(|| base.get(&k).cloned());
        let at = |m: String| format!("operation {i} {op:?} on {c:?} ({}): {m}", hx(&now));
        let mut expect = |want: bool, r: R<()>, new: Option<Vec<u8>>| match (want, r) {
            (true, Ok(())) => {
                cur.insert(k, new);
                Ok(())
            }
            (false, Err(_)) => Ok(()),
            (true, Err(e)) => Err(at(format!("fails: {e}"))),
            (false, Ok(())) => Err(at("succeeds".into())),
        };
        match op {
            Op::Add(v) => expect(now.is_none(), add(sm, c, v).await, Some(v.clone()))?,
            Op::Update(v) => expect(
                now.is_some(),
                mutate(sm, c, StateMut::Update, Some(v.clone())).await,
                Some(v.clone()),
            )?,
            Op::Remove => expect(
                now.is_some(),
                mutate(sm, c, StateMut::Remove, None).await,
                None,
            )?,
            Op::Read | Op::ReadClean => {
                let clean = *op == Op::ReadClean;
                let want = if clean {
                    base.get(&k).cloned()
                } else {
                    now.clone()
                };
                match read(sm, c, clean).await {
                    None => {}
                    Some(Ok(g)) if g == want => {}
                    Some(g) => {
                        return Err(at(format!(
                            "reads {}, not {}",
                            g.map(|g| hx(&g)).unwrap_or_else(|e| format!("error {e}")),
                            hx(&want)
                        )))
                    }
                }
            }
        }
    }
    let mut m = (*base).clone();
    for (k, v) in cur {
        match v {
            Some(v) => m.insert(k, v),
            None => m.remove(&k),
        };
    }
    Ok(m)
}

/// The operations of one block. Raw cells take at most one change per block.
fn ops(s: &mut Src, cells: &[Cell], pool: &[Vec<u8>], base: &Kv, n: usize) -> Vec<(Cell, Op)> {
    let mut raw_done: BTreeSet<Key> = BTreeSet::new();
    let mut cur: BTreeMap<Key, bool> = BTreeMap::new();
    let hot = s.us(0, cells.len() - 1);
    let mut v = vec![];
    for _ in 0..n {
        let c = if s.chance(1, 3) {
            cells[(hot + s.us(0, 2)) % cells.len()].clone()
        } else {
            s.pick(cells).clone()
        };
        let k = c.key();
        let present = *cur.get(&k).unwrap_or(&base.contains_key(&k));
        let mut w = s.weighted(&[3, 3, 3, 2, 1, 1]);
        // mostly applicable operations
        if w == 0 && present && s.chance(3, 4) {
            w = 1 + s.us(0, 1);
        }
        if (w == 1 || w == 2) && !present && s.chance(3, 4) {
            w = 0;
        }
        if c.fixed() && w == 2 {
            w = 1;
        }
        if matches!(c, Cell::Raw(_)) && w <= 2 {
            if !raw_done.insert(k) {
                continue;
            }
            w = if present { w.max(1) } else { 0 };
        }
        let op = match w {
            0 => {
                cur.insert(k, true);
                Op::Add(c.value(s, pool))
            }
            1 => Op::Update(c.value(s, pool)),
            2 => {
                cur.insert(k, false);
                Op::Remove
            }
            3 | 5 => Op::Read,
            _ => Op::ReadClean,
        };
        // reading a raw cell in the block that changes it is not offered
        if matches!(c, Cell::Raw(_)) && w >= 3 && raw_done.contains(&k) {
            continue;
        }
        v.push((c, op));
    }
    v
}

async fn run_ops(
    sm: &Arc<StateManager>,
    o: &[(Cell, Op)],
    base: &Kv,
    split: usize,
) -> Result<Kv, String> {
    let base = Arc::new(base.clone());
    if split <= 1 {
        return run(sm, o.to_vec(), base).await;
    }
    let mut parts: Vec<Vec<(Cell, Op)>> = vec![vec![]; split];
    for (c, op) in o {
        parts[(c.key()[3] ^ c.key()[7]) as usize % split].push((c.clone(), op.clone()));
    }
    let mut hs = vec![];
    for p in parts {
        let (sm, base) = (sm.clone(), base.clone());
        let touched: BTreeSet<Key> = p.iter().map(|(c, _)| c.key()).collect();
        hs.push(tokio::spawn(async move {
            run(&sm, p, base).await.map(|kv| (touched, kv))
        }));
    }
    let mut m = (*base).clone();
    for h in hs {
        let (t, kv) = h
            .await
            .map_err(|e| format!("task panicked: {e}"))?
            .map_err(|e| format!("(concurrently) {e}"))?;
        for k in t {
            match kv.get(&k) {
                Some(v) => m.insert(k, v.clone()),
                None => m.remove(&k),
            };
        }
    }
    Ok(m)
}

async fn check(sm: &StateManager, cells: &[Cell], want: &Kv, when: &str) -> Result<(), String> {
    let root = sm.merkle_root().await.map_err(|e| format!("{when}: {e}"))?;
    if root.0 != trie::root(want) {
        return Err(format!("{when}: the state root is not that of the state"));
    }
    for c in cells {
        let k = c.key();
        let w = want.get(&k).cloned();
        let g = sm
            .retrieve_state_encoded(&skey31(&k))
            .await
            .map_err(|e| format!("{when}: stored {c:?}: {e}"))?;
        if g != w {
            return Err(format!(
                "{when}: stored {c:?} is {}, not {}",
                hx(&g),
                hx(&w)
            ));
        }
        for clean in [false, true] {
            if let Some(g) = read(sm, c, clean).await {
                let g = g.map_err(|e| format!("{when}: read {c:?}: {e}"))?;
                if g != w {
                    return Err(format!(
                        "{when}: {c:?} reads {}, not {} (clean {clean})",
                        hx(&g),
                        hx(&w)
                    ));
                }
            }
        }
    }
    Ok(())
}

fn artifact(a: &StateCommitArtifact, base: &Kv, want: &Kv) -> Result<(), String> {
    if a.state_root().0 != trie::root(want) {
        return Err("the staged state root is not that of the staged state".into());
    }
    let mut got = base.clone();
    for (k, d) in a.state_delta_entries().map_err(|e| format!("{e}"))? {
        let k: Key = k.as_slice().try_into().unwrap();
        match d {
            StateDelta::Remove => got.remove(&k),
            StateDelta::Write(v) => got.insert(k, v),
        };
    }
    if got != *want {
        return Err("the staged changes do not lead to the staged state".into());
    }
    Ok(())
}

fn store(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut cells = vec![Cell::Slot, Cell::Entropy];
    let sids: Vec<u32> = (0..s.us(1, 3)).map(|_| s.u32_any()).collect();
    for sid in sids.iter().collect::<BTreeSet<_>>() {
        cells.push(Cell::Meta(*sid));
        for i in 0..s.us(0, 4) {
            let c = match s.us(0, 2) {
                0 => Cell::Stor(*sid, [vec![i as u8], s.blob(i)].concat()),
                1 => Cell::Pre(*sid, s.hash()),
                _ => Cell::Look(*sid, s.hash(), s.us(0, 3) as u32),
            };
            cells.push(c);
        }
    }
    // keys that share long prefixes with each other and with the entries above
    for _ in 0..s.us(0, 12) {
        let mut k = if s.chance(1, 4) {
            s.arr::<31>()
        } else {
            s.pick(&cells).key()
        };
        let b = match s.us(0, 3) {
            0 => s.us(0, 7),
            1 => s.us(0, 40),
            2 => s.us(230, 247),
            _ => s.us(0, 247),
        };
        k[b / 8] ^= 0x80 >> (b % 8);
        if s.chance(1, 3) {
            let t = s.blob(31);
            for i in b / 8 + 1..31 {
                k[i] = t[i];
            }
        }
        if cells.iter().all(|c| c.key() != k) {
            cells.push(Cell::Raw(k));
        }
    }
    let many = s.chance(1, 12);
    if many {
        for i in 0..s.us(40, 160) {
            let c = Cell::Stor(sids[0], vec![0xee, i as u8]);
            if !cells.contains(&c) {
                cells.push(c);
            }
        }
    }
    let pool: Vec<Vec<u8>> = (0..s.us(1, 5))
        .map(|_| {
            let n = *s.pick(&[0usize, 1, 31, 32, 33, 64, 200]);
            s.blob(n)
        })
        .collect();
    let mut cfs = ColumnFamilyConfigs::default();
    let sizes = [8192usize, 1, 8, 64];
    let csz = *s.pick(&sizes);
    cfs.state_db.cache_size = *s.pick(&sizes);
    cfs.merkle_nodes_db.cache_size = *s.pick(&sizes);
    cfs.merkle_leaf_paths_db.cache_size = *s.pick(&sizes);
    let mut base: Kv = BTreeMap::new();
    for c in &cells {
        if c.fixed() || s.chance(1, 2) {
            let v = c.value(s, &pool);
            base.insert(c.key(), v);
        }
    }
    let nblk = s.us(1, 7);
    let dir = scratch();
    let e = rt().enter();
    let st = NodeStorage::new(StorageConfig {
        path: dir.path().join("db"),
        cfs,
        state_cache_size: csz,
    })
    .map_err(|e| format!("open: {e}"))?;
    let sm = st.state_manager();
    drop(e);
    let mut fp = vec![];
    rt().block_on(async {
        for (k, v) in &base {
            sm.add_raw_state_entry(&skey31(k), v.clone())
                .await
                .map_err(|e| format!("genesis: {e}"))?;
        }
        sm.commit_dirty_cache()
            .await
            .map_err(|e| format!("genesis commit: {e}"))?;
        check(&sm, &cells, &base, "after genesis").await?;
        for b in 0..nblk {
            let n = if many { s.us(0, 250) } else { s.us(0, 24) };
            let split = if s.chance(1, 4) { s.us(2, 4) } else { 1 };
            let kind = s.weighted(&[4, 3, 1, 1, 3]);
            let at = |m: String| format!("block {b}: {m}");
            if split > 1 {
                cov.tag("concurrent");
            }
            let o = ops(s, &cells, &pool, &base, n);
            fp.extend_from_slice(format!("{kind}{o:?}").as_bytes());
            let cur = run_ops(&sm, &o, &base, split).await.map_err(at)?;
            // staging leaves the committed state in place
            let staged = |want: &Kv, a: &Option<StateCommitArtifact>| match a {
                None if *want == base => Ok(()),
                None => Err("a changed state is staged as unchanged".to_string()),
                Some(a) => artifact(a, &base, want),
            };
            match kind {
                0 => {
                    cov.tag("commit");
                    sm.commit_dirty_cache()
                        .await
                        .map_err(|e| at(format!("commit fails: {e}")))?;
                    base = cur;
                }
                1 | 2 => {
                    let a = sm
                        .prepare_dirty_cache_commit()
                        .await
                        .map_err(|e| at(format!("staging fails: {e}")))?;
                    staged(&cur, &a).map_err(at)?;
                    check(&sm, &cells, &base, "after staging")
                        .await
                        .map_err(at)?;
                    if kind == 1 {
                        cov.tag("stage-apply");
                        if let Some(a) = a {
                            sm.apply_dirty_cache_commit(&a)
                                .await
                                .map_err(|e| at(format!("applying fails: {e}")))?;
                        }
                        base = cur;
                    } else {
                        cov.tag("stage-drop");
                    }
                }
                3 => {
                    cov.tag("rollback");
                    sm.rollback_dirty_cache();
                }
                _ => {
                    cov.tag("siblings");
                    let k = s.us(2, 3);
                    let mut arts = vec![];
                    let mut cur = cur;
                    for i in 0..k {
                        if i > 0 {
                            let n = s.us(0, 16);
                            let o = ops(s, &cells, &pool, &base, n);
                            cur = run_ops(&sm, &o, &base, 1)
                                .await
                                .map_err(|e| at(format!("sibling {i}: {e}")))?;
                        }
                        let a = sm
                            .prepare_dirty_cache_commit()
                            .await
                            .map_err(|e| at(format!("staging sibling {i} fails: {e}")))?;
                        staged(&cur, &a).map_err(|e| at(format!("sibling {i}: {e}")))?;
                        arts.push((a, cur.clone()));
                    }
                    let w = s.us(0, k - 1);
                    let (a, c) = arts.swap_remove(w);
                    if let Some(a) = a {
                        sm.apply_dirty_cache_commit(&a)
                            .await
                            .map_err(|e| at(format!("applying sibling {w} fails: {e}")))?;
                    }
                    base = c;
                }
            }
            check(&sm, &cells, &base, "after the block")
                .await
                .map_err(at)?;
        }
        Ok::<(), String>(())
    })?;
    cov.eval();
    if csz < cells.len() {
        cov.tag("small-cache");
    }
    cov.nt(hash_bytes(&fp));
    cov.sample(|| format!("{} cells, {nblk} blocks, cache {csz}", cells.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "every history of blocks counts; distinct by operations and commit kinds",
        assumptions: &["The reference is a map and the reference trie. Histories keep the fixed state components (the state is never emptied) and stay within one process: the node does not restore its state root from disk."],
        subs: vec![Sub {
            name: "histories",
            quick: 2500,
            thorough: 40_000,
            f: store,
            threads: 8,
        }],
    }]
}
