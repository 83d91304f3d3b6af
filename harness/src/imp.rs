//! Adapter around the implementation under test: block import on a scratch database.
use crate::rj::{self, state::State, trie::Key, types as rt, H};
use fr_block::types::block::{Block, BlockHeader};
use fr_codec::prelude::*;
use fr_common::{Hash32, Octets, StateKey};
use fr_config::StorageConfig;
use fr_node::roles::importer::{BlockCommitMode, BlockImportOutput, BlockImporter};
use fr_storage::node_storage::NodeStorage;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

pub fn rt() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(8)
            .thread_stack_size(16 << 20)
            .enable_all()
            .build()
            .unwrap()
    })
}

pub fn h32(h: &H) -> Hash32 {
    Hash32::new(*h)
}
pub fn scratch() -> tempfile::TempDir {
    let base = std::env::var("VH_SCRATCH")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|_| std::env::temp_dir());
    tempfile::Builder::new()
        .prefix("vh")
        .tempdir_in(base)
        .unwrap()
}
pub fn decode_all<T: JamDecode>(b: &[u8]) -> Result<T, String> {
    let mut s = b;
    let v = T::decode(&mut s).map_err(|e| format!("{e:?}"))?;
    if !s.is_empty() {
        return Err(format!("{} trailing bytes", s.len()));
    }
    Ok(v)
}
pub fn to_block(b: &rt::Block) -> Result<Block, String> {
    decode_all::<Block>(&b.encode())
}
pub fn to_header(h: &rt::Header) -> BlockHeader {
    decode_all::<BlockHeader>(&h.encode()).expect("header")
}

pub struct Node {
    pub st: Arc<NodeStorage>,
    pub keys: BTreeSet<Key>,
    _dir: tempfile::TempDir,
}

impl Node {
    pub fn empty() -> Node {
        let _g = rt().enter();
        let dir = scratch();
        let st = Arc::new(
            NodeStorage::new(StorageConfig::from_path(dir.path().join("db"))).expect("storage"),
        );
        Node {
            st,
            keys: BTreeSet::new(),
            _dir: dir,
        }
    }
    /// A node whose chain head is `parent` with post-state `kv`.
    pub fn with_state(
        kv: &BTreeMap<Key, Vec<u8>>,
        parent: &rt::Header,
        ancestors: Option<&BTreeSet<(u32, H)>>,
    ) -> Result<(Node, H), String> {
        let mut n = Node::empty();
        let root = rt().block_on(async {
            let sm = n.st.state_manager();
            for (k, v) in kv {
                sm.add_raw_state_entry(&skey31(k), v.clone())
                    .await
                    .map_err(|e| format!("add {e:?}"))?;
            }
            sm.commit_dirty_cache()
                .await
                .map_err(|e| format!("commit {e:?}"))?;
            let root = sm.merkle_root().await.map_err(|e| format!("root {e:?}"))?;
            n.st.header_db().set_best_header(to_header(parent));
            n.st.post_state_root_db()
                .set_post_state_root(&h32(&parent.hash()), root.clone())
                .await
                .map_err(|e| format!("psr {e:?}"))?;
            if let Some(a) = ancestors {
                n.st.header_db()
                    .batch_insert_to_ancestor_set(a.iter().map(|(s, h)| (*s, h32(h))).collect())
                    .map_err(|e| format!("anc {e:?}"))?;
            }
            Ok::<_, String>(root)
        })?;
        n.keys = kv.keys().copied().collect();
        Ok((n, root.0))
    }
    pub fn import_raw(
        &self,
        b: Block,
        anc: bool,
        mode: BlockCommitMode,
    ) -> Result<BlockImportOutput, String> {
        rt().block_on(async {
            let r = BlockImporter::import_block(self.st.clone(), b, anc, mode).await;
            match r {
                Ok(o) => Ok(o),
                Err(e) => {
                    self.st.state_manager().rollback_dirty_cache();
                    Err(format!("{e}"))
                }
            }
        })
    }
    /// Imports and finalizes a block as the node does; returns the new state root.
    pub fn import(&self, b: &rt::Block, anc: bool) -> Result<H, String> {
        let blk = to_block(b).map_err(|e| format!("decode: {e}"))?;
        let o = self.import_raw(blk, anc, BlockCommitMode::Immediate)?;
        rt().block_on(
            self.st
                .post_state_root_db()
                .set_post_state_root(&h32(&b.header.hash()), o.post_state_root.clone()),
        )
        .map_err(|e| format!("{e:?}"))?;
        Ok(o.post_state_root.0)
    }
    pub fn root(&self) -> H {
        rt().block_on(self.st.state_manager().merkle_root())
            .expect("root")
            .0
    }
    pub fn kv(&self, keys: impl Iterator<Item = Key>) -> BTreeMap<Key, Vec<u8>> {
        let mut m = BTreeMap::new();
        let sm = self.st.state_manager();
        rt().block_on(async {
            for k in keys {
                if let Some(v) = sm.get_raw_state_entry(&skey31(&k)).await.expect("get") {
                    m.insert(k, v);
                }
            }
        });
        m
    }
    pub fn diff(&self, want: &BTreeMap<Key, Vec<u8>>) -> Vec<String> {
        let keys: BTreeSet<Key> = want.keys().chain(self.keys.iter()).copied().collect();
        rj::state::diff_kv(want, &self.kv(keys.into_iter()))
    }
    /// Reads the state through the typed accessors, which the state transition itself uses, and
    /// compares it with `want`; entries which only `old` has must be absent.
    pub fn typed_diff(&self, want: &State, old: &State) -> Vec<String> {
        let kv = want.kv();
        let sm = self.st.state_manager();
        let mut bad = vec![];
        let mut cmp = |k: Key, got: Result<Option<Vec<u8>>, String>| {
            let w = kv.get(&k);
            if got.as_ref().ok().map(|g| g.as_ref()) != Some(w) {
                bad.push(format!(
                    "{} reads {}, stated {}",
                    rj::state::key_name(&k),
                    match &got {
                        Err(e) => e.clone(),
                        Ok(None) => "absent".into(),
                        Ok(Some(v)) => format!("{} octets", v.len()),
                    },
                    w.map_or("absent".into(), |v| format!("{} octets", v.len()))
                ));
            }
        };
        macro_rules! simple {
            ($($i:expr => $g:ident),*) => {
                $(cmp(rj::state::skey($i), rt().block_on(sm.$g()).map_err(|e| format!("{e}"))
                    .and_then(|x| x.encode().map(Some).map_err(|e| format!("{e}"))));)*
            };
        }
        simple!(1 => get_auth_pool, 2 => get_auth_queue, 3 => get_block_history, 4 => get_safrole,
            5 => get_disputes, 6 => get_epoch_entropy, 7 => get_staging_set, 8 => get_active_set,
            9 => get_past_set, 10 => get_pending_reports, 11 => get_timeslot,
            12 => get_privileged_services, 13 => get_onchain_statistics, 14 => get_accumulate_queue,
            15 => get_accumulate_history, 16 => get_last_accumulate_outputs);
        macro_rules! one {
            ($k:expr, $f:expr, $x:ident => $e:expr) => {
                cmp(
                    $k,
                    rt().block_on($f)
                        .map_err(|e| format!("{e}"))
                        .and_then(|x| match x {
                            None => Ok(None),
                            Some($x) => $e.map(Some),
                        }),
                )
            };
        }
        let none = Default::default();
        let ids: BTreeSet<u32> = want
            .accounts
            .keys()
            .chain(old.accounts.keys())
            .copied()
            .collect();
        for s in ids {
            let a = want.accounts.get(&s).unwrap_or(&none);
            let b = old.accounts.get(&s).unwrap_or(&none);
            one!(rj::state::akey(s), sm.get_account_metadata(s), x => x.encode().map_err(|e| format!("{e}")));
            let ks: BTreeSet<_> = a.storage.keys().chain(b.storage.keys()).collect();
            for k in ks {
                let sk = Octets::from_vec(k.clone());
                one!(rj::state::storage_key(s, k), sm.get_account_storage_entry(s, &sk), x => Ok::<_, String>(x.value.to_vec()));
            }
            let ks: BTreeSet<_> = a.preimages.keys().chain(b.preimages.keys()).collect();
            for k in ks {
                one!(rj::state::preimage_key(s, k), sm.get_account_preimages_entry(s, &h32(k)), x => Ok::<_, String>(x.value.to_vec()));
            }
            let ks: BTreeSet<_> = a.lookups.keys().chain(b.lookups.keys()).collect();
            for (h, n) in ks {
                one!(rj::state::lookup_key(s, h, *n), sm.get_account_lookups_entry(s, &(h32(h), *n)), x => x.encode().map_err(|e| format!("{e}")));
            }
        }
        bad
    }
}

pub enum Step {
    /// Accepted by both, states equal.
    Accepted(rj::stf::Out, H),
    /// Rejected by both, with the model's and the implementation's reasons.
    Rejected(String, String),
    /// The history left the modelled domain.
    Skip(String),
}

/// Imports `b` on both sides and compares outcome and state.
pub fn step(
    node: &mut Node,
    s: &State,
    s_root: &H,
    b: &rt::Block,
    o: &rj::stf::Opts,
) -> Result<Step, String> {
    let want = rj::stf::apply(s, b, o);
    if let Err(m) = &want {
        if m.starts_with("WILD") {
            return Ok(Step::Skip(m.clone()));
        }
    }
    let got = node.import(b, o.ancestors.is_some());
    if let Err(m) = &got {
        if m.contains("panicked") || m.contains("JoinError") {
            return Err(format!(
                "importer panicked: {m} (model: {})",
                want.as_ref().err().cloned().unwrap_or("accepts".into())
            ));
        }
    }
    match (want, got) {
        (Ok(w), Ok(root)) => {
            let kv = w.state.kv();
            let wr = rj::trie::root(&kv);
            node.keys.extend(kv.keys().copied());
            if wr != root {
                return Err(format!("post-state differs: {}", show(node.diff(&kv))));
            }
            let d = node.diff(&kv);
            if !d.is_empty() {
                return Err(format!(
                    "stored post-state differs though the root matches: {}",
                    show(d)
                ));
            }
            Ok(Step::Accepted(w, wr))
        }
        (Err(m), Err(i)) => {
            if node.root() != *s_root {
                return Err(format!(
                    "state root changed by a rejected block ({m} / {i})"
                ));
            }
            let d = node.diff(&s.kv());
            if !d.is_empty() {
                return Err(format!(
                    "state changed by a rejected block ({m} / {i}): {}",
                    show(d)
                ));
            }
            Ok(Step::Rejected(m, i))
        }
        (Ok(_), Err(i)) => Err(format!("valid block rejected: {i}")),
        (Err(m), Ok(_)) => Err(format!("invalid block accepted: {m}")),
    }
}
pub fn show(d: Vec<String>) -> String {
    let n = d.len();
    format!(
        "{}{}",
        d.into_iter().take(4).collect::<Vec<_>>().join("; "),
        if n > 4 {
            format!(" (+{} more)", n - 4)
        } else {
            String::new()
        }
    )
}
pub fn skey31(k: &Key) -> StateKey {
    StateKey::new(*k)
}
