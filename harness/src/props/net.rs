//! C23: connected nodes over loopback QUIC converge on every valid block any of them (or a foreign
//! peer) produces. C24: a misbehaving peer does not keep a node from doing so.
use super::author::{clocked, dev};
use crate::eng::{hash_bytes, Cov, Prop, Src, Sub, CODE_PANICS};
use crate::gen::{self, Mu, Prof, World, DEV};
use crate::imp::{h32, show, Node};
use crate::rj::state::Sealers;
use crate::rj::stf::{self, Opts};
use crate::rj::types::{Block, Xts};
use crate::rj::{self, E, H};
use fr_codec::prelude::*;
use fr_common::Hash32;
use fr_network::endpoint::QuicEndpoint;
use fr_network::manager::{LocalNodeInfo, NetworkManager};
use fr_node::jam_node::JamNode;
use fr_node::roles::importer::BlockImporter;
use fr_node::scheduler::chain_extension::extend_chain;
use fr_state::types::Timeslot;
use std::collections::HashMap;
use std::net::{Ipv6Addr, SocketAddrV6, UdpSocket};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;

type R = Result<(), String>;
const WAIT: Duration = Duration::from_secs(25);

fn free_addr() -> SocketAddrV6 {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let port = 21_000 + ((std::process::id() as u64 * 131 + n) % 11_000) as u16;
        let a = SocketAddrV6::new(Ipv6Addr::LOCALHOST, port, 0, 0);
        if UdpSocket::bind(a).is_ok() {
            return a;
        }
    }
}

struct Peer {
    node: Node,
    jam: Arc<JamNode>,
    who: usize,
    addr: SocketAddrV6,
}

#[derive(Clone, Debug)]
enum Reply {
    /// the bytes, in this many pieces
    Serve(Vec<u8>, usize),
    /// never answers
    Silent,
    /// resets the stream
    Reset,
}
type Shelf = Arc<Mutex<HashMap<H, Reply>>>;

struct Link {
    conn: quinn::Connection,
    up: Option<quinn::SendStream>,
    /// What the node has sent on the announcement stream.
    heard: Arc<Mutex<Vec<u8>>>,
    /// What it must have sent, from when it knew of the stream for certain.
    due: Option<Vec<u8>>,
}
/// A peer played by the harness.
struct Foreign {
    who: usize,
    addr: SocketAddrV6,
    ep: Option<QuicEndpoint>,
    shelf: Shelf,
    links: Vec<Link>,
}
impl Foreign {
    async fn connect(&mut self, nodes: &[Peer]) -> Result<(), String> {
        self.links.clear();
        let ep = self.ep.as_ref().unwrap();
        for n in nodes {
            let key = n.jam.local_node_info().validator_key.ed25519.clone();
            let conn = ep
                .connect(n.addr, &key)
                .await
                .map_err(|e| format!("a peer cannot connect to a node: {e}"))?;
            tokio::spawn(serve(conn.clone(), self.shelf.clone()));
            self.links.push(Link {
                conn,
                up: None,
                heard: Default::default(),
                due: None,
            });
        }
        Ok(())
    }
    /// Opens the announcement stream of link `i`.
    async fn open_up(&mut self, i: usize) -> Result<(), String> {
        let l = &mut self.links[i];
        let (mut s, mut r) = l.conn.open_bi().await.map_err(|e| format!("{e}"))?;
        s.write_all(&[0]).await.map_err(|e| format!("{e}"))?;
        let heard = l.heard.clone();
        tokio::spawn(async move {
            let mut b = [0u8; 4096];
            while let Ok(Some(n)) = r.read(&mut b).await {
                heard.lock().unwrap().extend_from_slice(&b[..n]);
            }
        });
        l.up = Some(s);
        Ok(())
    }
    /// Opens the announcement stream of link `i` and waits until the node knows of it: from now
    /// on, it has to send its announcements there.
    async fn listen(&mut self, i: usize, n: &Peer) -> Result<(), String> {
        if self.links[i].up.is_none() {
            self.open_up(i).await?;
        }
        let t0 = Instant::now();
        while !entry(n, self.addr, |c| {
            c.conn.close_reason().is_none() && !c.up_stream_handles.is_empty()
        }) {
            if t0.elapsed() > WAIT {
                return Err(format!(
                    "{} does not register the announcement stream of a peer",
                    DEV[n.who]
                ));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        self.links[i].due = Some(vec![]);
        Ok(())
    }
    /// Leaves all nodes and comes back.
    async fn come_back(&mut self, nodes: &[Peer]) -> Result<(), String> {
        for l in self.links.drain(..) {
            l.conn.close(0u32.into(), b"");
        }
        let t0 = Instant::now();
        for n in nodes {
            while !entry(n, self.addr, |c| c.conn.close_reason().is_some()) && t0.elapsed() < WAIT {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        self.connect(nodes).await?;
        for (i, n) in nodes.iter().enumerate() {
            self.listen(i, n).await?;
        }
        Ok(())
    }
    /// Node `i` announced `b`; all announcements due must arrive, and nothing else.
    async fn heard_of(&mut self, i: Option<usize>, b: &[u8], nodes: &[Peer]) -> R {
        if let Some(d) = i.and_then(|i| self.links[i].due.as_mut()) {
            d.extend_from_slice(b);
        }
        let t0 = Instant::now();
        for (l, n) in self.links.iter().zip(nodes) {
            let Some(d) = &l.due else { continue };
            loop {
                let h = l.heard.lock().unwrap().clone();
                if h == *d {
                    break;
                }
                if !d.starts_with(&h) || t0.elapsed() > WAIT {
                    return Err(format!("{} sends a peer {} octets of announcements instead of the {} of its blocks", DEV[n.who], h.len(), d.len()));
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        Ok(())
    }
    /// Sends block announcements on the announcement stream of link `i`, in pieces.
    async fn announce(&mut self, i: usize, bytes: &[u8], cuts: &[usize]) -> Result<(), String> {
        if self.links[i].up.is_none() {
            self.open_up(i).await?;
        }
        let l = &mut self.links[i];
        let s = l.up.as_mut().unwrap();
        let mut at = 0;
        for c in cuts.iter().copied().chain([bytes.len()]) {
            let c = c.min(bytes.len());
            if c > at {
                s.write_all(&bytes[at..c])
                    .await
                    .map_err(|e| format!("{e}"))?;
                at = c;
                if at < bytes.len() {
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
            }
        }
        Ok(())
    }
    async fn request(&self, i: usize, req: &[u8], wait: Duration) -> Result<Vec<u8>, String> {
        let c = &self.links[i].conn;
        let f = async {
            let (mut s, mut r) = c.open_bi().await.map_err(|e| format!("{e}"))?;
            s.write_all(&[&[128], req].concat())
                .await
                .map_err(|e| format!("{e}"))?;
            s.finish().map_err(|e| format!("{e}"))?;
            r.read_to_end(1 << 22).await.map_err(|e| format!("{e}"))
        };
        tokio::time::timeout(wait, f)
            .await
            .map_err(|_| "no answer".to_string())?
    }
}
/// Answers block requests from the shelf.
async fn serve(conn: quinn::Connection, shelf: Shelf) {
    while let Ok((mut s, mut r)) = conn.accept_bi().await {
        let shelf = shelf.clone();
        tokio::spawn(async move {
            let mut k = [0u8; 1];
            if r.read_exact(&mut k).await.is_err() {
                return;
            }
            if k[0] != 128 {
                // announcements of the nodes: read and forget, keeping both directions open
                let mut b = [0u8; 4096];
                while let Ok(Some(_)) = r.read(&mut b).await {}
                return;
            }
            let Ok(req) = r.read_to_end(4096).await else {
                return;
            };
            let Some(h) = req.get(..32) else { return };
            let h: H = h.try_into().unwrap();
            let rep = shelf.lock().unwrap().get(&h).cloned();
            match rep {
                Some(Reply::Serve(b, n)) => {
                    let step = b.len().div_ceil(n.max(1)).max(1);
                    for c in b.chunks(step) {
                        if s.write_all(c).await.is_err() {
                            return;
                        }
                        if n > 1 {
                            tokio::time::sleep(Duration::from_millis(3)).await;
                        }
                    }
                    let _ = s.finish();
                }
                Some(Reply::Silent) => {
                    tokio::time::sleep(Duration::from_secs(600)).await;
                }
                Some(Reply::Reset) => {
                    let _ = s.reset(7u32.into());
                }
                None => {
                    let _ = s.finish();
                }
            }
        });
    }
}

/// A block announcement as the nodes encode it: header, header hash, slot.
fn announcement(b: &Block) -> Vec<u8> {
    let mut v = b.header.encode();
    v.extend(b.header.hash());
    v.extend(rj::codec::enc(|e| {
        e.nat(b.header.slot as u64);
    }));
    v
}

struct Net {
    nodes: Vec<Peer>,
    rt: Option<Runtime>,
    tag: String,
}
impl Net {
    fn panics(&self) -> Option<String> {
        CODE_PANICS
            .lock()
            .unwrap()
            .iter()
            .find(|(t, _)| *t == self.tag)
            .map(|(_, m)| m.clone())
    }
}
impl Drop for Net {
    fn drop(&mut self) {
        for n in &self.nodes {
            let _ = n;
        }
        if let Some(r) = self.rt.take() {
            r.shutdown_timeout(Duration::from_secs(5));
        }
        CODE_PANICS.lock().unwrap().retain(|(t, _)| *t != self.tag);
    }
}

fn build(w: &World, whos: &[usize], addrs: &HashMap<usize, SocketAddrV6>) -> Result<Net, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let tag = format!("net{}", N.fetch_add(1, Ordering::SeqCst));
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .thread_name(tag.clone())
        .thread_stack_size(16 << 20)
        .enable_all()
        .build()
        .unwrap();
    let kv = w.st.kv();
    let mut nodes = vec![];
    for who in whos {
        let (node, _) = Node::with_state(&kv, &w.parent, None)?;
        let addr = addrs[who];
        let info = LocalNodeInfo::new(addr, dev(*who).validator_key);
        let _g = rt.enter();
        let jam = rt.block_on(async {
            let st = node.st.clone();
            st.header_db()
                .commit_header(crate::imp::to_header(&w.parent))
                .await
                .map_err(|e| format!("{e}"))?;
            st.xt_db()
                .set_xt(&Hash32::default(), Default::default())
                .await
                .map_err(|e| format!("{e}"))?;
            let nm = NetworkManager::new(info.clone(), QuicEndpoint::new(addr))
                .await
                .map_err(|e| format!("{e}"))?;
            let mut jam = JamNode::new(info.clone(), st.clone(), Arc::new(nm));
            let idx = st
                .state_manager()
                .get_active_set_clean()
                .await
                .map_err(|e| format!("{e}"))?
                .get_validator_index(info.bandersnatch_key());
            jam.set_curr_epoch_validator_index(idx);
            jam.network_manager()
                .load_validator_peers(st, addr)
                .await
                .map_err(|e| format!("{e}"))?;
            Ok::<_, String>(Arc::new(jam))
        })?;
        nodes.push(Peer {
            node,
            jam,
            who: *who,
            addr,
        });
    }
    Ok(Net {
        nodes,
        rt: Some(rt),
        tag,
    })
}

/// Starts the nodes' tasks and connects them; foreign peers are already listening.
async fn start(nodes: &[Peer], foreign: &mut [&mut Foreign]) -> R {
    let mut txs = vec![];
    for n in nodes {
        let (tx, rx) = tokio::sync::mpsc::channel(10);
        let (jam, t) = (n.jam.clone(), tx.clone());
        tokio::spawn(async move { jam.run_acceptor(t).await });
        tokio::spawn(BlockImporter::run_block_importer(n.jam.storage(), rx));
        txs.push(tx);
    }
    for f in foreign.iter_mut() {
        f.connect(nodes).await?;
    }
    // all nodes have accepted the foreign peers before they look for peers themselves
    let t0 = Instant::now();
    let want = foreign.len();
    while nodes.iter().any(|n| linked(n) < want) {
        if t0.elapsed() > WAIT {
            return Err("a node does not register a connecting peer".into());
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    for (n, tx) in nodes.iter().zip(&txs) {
        n.jam
            .network_manager()
            .connect_to_peers(tx.clone(), n.jam.storage())
            .await
            .map_err(|e| format!("a node cannot connect to its peers: {e}"))?;
    }
    let all = nodes.len() - 1;
    let t0 = Instant::now();
    while nodes
        .iter()
        .any(|n| linked(n) < all + want || streams(n) < all)
    {
        if t0.elapsed() > WAIT {
            return Err(format!(
                "nodes do not get connected: {:?}",
                nodes
                    .iter()
                    .map(|n| (linked(n), streams(n)))
                    .collect::<Vec<_>>()
            ));
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    Ok(())
}
/// What a node knows of the peer at `a`.
fn entry(
    n: &Peer,
    a: SocketAddrV6,
    f: impl Fn(&fr_network::peers::PeerConnection) -> bool,
) -> bool {
    let nm = n.jam.network_manager();
    let e = nm.all_validator_peers.get(&a);
    e.is_some_and(|p| p.conn.as_ref().is_some_and(f))
}
fn linked(n: &Peer) -> usize {
    let nm = n.jam.network_manager();
    nm.all_validator_peers
        .iter()
        .filter(|p| p.conn.is_some())
        .count()
}
fn streams(n: &Peer) -> usize {
    let nm = n.jam.network_manager();
    nm.all_validator_peers
        .iter()
        .filter(|p| {
            p.conn
                .as_ref()
                .is_some_and(|c| !c.up_stream_handles.is_empty())
        })
        .count()
}

/// Waits until every node's chain head is `b`, with the expected state root.
async fn settled(nodes: &[Peer], b: &Block, root: &H) -> R {
    let t0 = Instant::now();
    let h = b.header.hash();
    for n in nodes {
        loop {
            let best = n
                .node
                .st
                .header_db()
                .get_best_header()
                .hash()
                .map_err(|e| format!("{e}"))?;
            let psr = n
                .node
                .st
                .post_state_root_db()
                .get_post_state_root(&h32(&h))
                .await
                .map_err(|e| format!("{e}"))?;
            if best.0 == h {
                if let Some(r) = psr {
                    if r.0 != *root {
                        return Err(format!("{} reaches another state root", DEV[n.who]));
                    }
                    break;
                }
            }
            if t0.elapsed() > WAIT {
                return Err(format!(
                    "{} does not take over a valid block of slot {} ({} octets)",
                    DEV[n.who],
                    b.header.slot,
                    b.encode().len()
                ));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    Ok(())
}

fn profile(hostile: bool) -> Prof {
    Prof {
        nsvc: (1, 2),
        disp: 1,
        tick: 0,
        tick_fill: 0,
        assu: 6,
        guar: 6,
        pre: 4,
        mutate: 0,
        muts: if hostile {
            &[Mu::Header, Mu::Guarantees, Mu::Assurances, Mu::Preimages]
        } else {
            &[]
        },
        epoch: 3,
        anc: 0,
        ..Default::default()
    }
}

/// Turns a generated world into one whose validators are the six development keys, the given ones
/// reachable.
fn settle_world(s: &mut Src, w: &mut World, addrs: &HashMap<usize, SocketAddrV6>) {
    let rec = |i: usize| {
        let mut r = gen::pool().vals[i].record();
        r[208..336].fill(0);
        if let Some(a) = addrs.get(&i) {
            r[208..224].copy_from_slice(&a.ip().octets());
            r[224..226].copy_from_slice(&a.port().to_le_bytes());
        }
        r
    };
    let mut sets = vec![];
    for k in 0..4 {
        let mut ix: Vec<usize> = (0..6).collect();
        if k > 0 && s.coin() {
            s.shuffle(&mut ix);
        }
        sets.push(ix.into_iter().map(rec).collect::<Vec<_>>());
    }
    let st = &mut w.st;
    st.iota = sets.pop().unwrap();
    st.pending = sets.pop().unwrap();
    st.kappa = sets.pop().unwrap();
    st.lambda = sets.pop().unwrap();
    st.offenders.clear();
    st.ring_root = stf::ring_root_cached(&stf::ring_of(&st.pending));
    st.tickets.clear();
    st.sealers = Sealers::Keys(stf::fallback_keys(&st.eta[2], &st.kappa));
}

fn opts<'a>(w: &'a World, root: &H) -> Opts<'a> {
    Opts {
        parent_hash: w.parent.hash(),
        parent_slot: w.st.tau,
        parent_root: *root,
        ancestors: None,
    }
}
fn cuts(s: &mut Src, n: usize) -> Vec<usize> {
    let mut c: Vec<usize> = match s.weighted(&[5, 3, 1]) {
        0 => vec![],
        1 => vec![s.us(1, n - 1)],
        _ => (0..3).map(|_| s.us(1, n - 1)).collect(),
    };
    c.sort();
    c
}

/// What a hostile peer does.
#[derive(Clone, Debug)]
enum Mischief {
    Stream(Vec<u8>, bool),
    Request(Vec<u8>),
    Junk(Vec<u8>),
    Announce(Box<Block>, Option<Reply>, bool),
    Reconnect,
    Leave,
}

fn mischief(s: &mut Src, w: &World, root: &H, p: &Prof, known: &[Block]) -> Mischief {
    let some_hash = |s: &mut Src| match known.is_empty() || s.chance(1, 3) {
        true => s.hash(),
        false => s.pick(known).header.hash(),
    };
    match s.weighted(&[4, 4, 3, 6, 1, 1]) {
        0 => {
            // a stream of any kind
            let kind = match s.us(0, 3) {
                0 => s.range(129, 146) as u8,
                1 => s.upto(127) as u8,
                _ => s.upto(255) as u8,
            };
            let n = s.us(0, 80);
            let mut b = if s.chance(1, 10) { vec![] } else { vec![kind] };
            b.extend(s.blob(n));
            Mischief::Stream(b, s.coin())
        }
        1 => {
            let mut b = some_hash(s).to_vec();
            b.push(match s.us(0, 3) {
                0 => 1,
                1 => s.upto(255) as u8,
                _ => 0,
            });
            b.extend(rj::codec::enc(|e| {
                e.nat(*s.pick(&[0u64, 1, 1, 2, 100, u32::MAX as u64, u64::MAX]));
            }));
            if s.chance(1, 4) {
                let k = s.us(0, b.len());
                b.truncate(k);
            }
            if s.chance(1, 4) {
                b.extend(s.blob(2000));
            }
            Mischief::Request(b)
        }
        2 => {
            let n = s.us(1, 1500);
            Mischief::Junk(s.blob(n))
        }
        3 => {
            let mut q = p.clone();
            q.mutate = 10;
            match gen::gen_block(s, &q, w, root) {
                // an invalid block, or a sound announcement with a bad answer
                Some(g) => {
                    let enc = g.block.encode();
                    let bad = stf::apply(&w.st, &g.block, &opts(w, root)).is_err();
                    let r = match s.weighted(&[1, 1, 1, 1, 1, 1, 7]) {
                        0 => Some(Reply::Silent),
                        1 => Some(Reply::Reset),
                        2 => Some(Reply::Serve(vec![], 1)),
                        3 => Some(Reply::Serve(enc[..s.us(0, enc.len() - 1)].to_vec(), 1)),
                        4 => {
                            let n = s.us(1, 3000);
                            Some(Reply::Serve(s.blob(n), 1))
                        }
                        5 => None,
                        _ if bad => Some(Reply::Serve(enc, s.us(1, 2))),
                        _ => Some(Reply::Reset),
                    };
                    let twice = s.coin();
                    Mischief::Announce(Box::new(g.block), r, twice)
                }
                None => Mischief::Reconnect,
            }
        }
        4 => Mischief::Reconnect,
        _ => Mischief::Leave,
    }
}

async fn misbehave(p: &mut Foreign, nodes: &[Peer], m: &Mischief, target: usize) -> R {
    // whatever goes wrong on the hostile side is its own problem
    let alive = p
        .links
        .get(target)
        .is_some_and(|l| l.conn.close_reason().is_none());
    if !alive && !matches!(m, Mischief::Leave) {
        p.connect(nodes).await?;
    }
    match m {
        Mischief::Stream(b, fin) => {
            if let Ok((mut s, r)) = p.links[target].conn.open_bi().await {
                let _ = s.write_all(b).await;
                if *fin {
                    let _ = s.finish();
                } else {
                    // left open
                    tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_secs(600)).await;
                        drop((s, r));
                    });
                }
            }
        }
        Mischief::Request(b) => {
            let _ = p.request(target, b, Duration::from_millis(30)).await;
        }
        Mischief::Junk(b) => {
            let _ = p.announce(target, b, &[]).await;
            // later announcements go over a fresh stream
            if let Some(mut s) = p.links[target].up.take() {
                let _ = s.finish();
            }
        }
        Mischief::Announce(b, r, twice) => {
            if let Some(r) = r {
                p.shelf.lock().unwrap().insert(b.header.hash(), r.clone());
            }
            let a = announcement(b);
            let _ = p.announce(target, &a, &[]).await;
            if *twice {
                let _ = p.announce(target, &a, &[]).await;
            }
        }
        Mischief::Reconnect => {
            p.connect(nodes).await?;
        }
        Mischief::Leave => {
            for l in p.links.drain(..) {
                l.conn.close(3u32.into(), b"bye");
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
    Ok(())
}

fn scenario(s: &mut Src, cov: &mut Cov, hostile: bool) -> R {
    let p = profile(hostile);
    let mut w = gen::gen_world(s, &p);
    let mut ids: Vec<usize> = (0..6).collect();
    s.shuffle(&mut ids);
    let m = s.us(1, 3);
    let whos: Vec<usize> = ids[..m].to_vec();
    let mut addrs: HashMap<usize, SocketAddrV6> = HashMap::new();
    for i in &ids[..m + 1 + hostile as usize] {
        addrs.insert(*i, free_addr());
    }
    settle_world(s, &mut w, &addrs);
    let net = build(&w, &whos, &addrs)?;
    let rt = net.rt.as_ref().unwrap();
    let foreign = |i: usize| {
        let _g = rt.enter();
        Foreign {
            who: i,
            addr: addrs[&i],
            ep: Some(QuicEndpoint::new(addrs[&i])),
            shelf: Default::default(),
            links: vec![],
        }
    };
    let mut q = foreign(ids[m]);
    let mut bad = hostile.then(|| foreign(ids[m + 1]));
    let _ = (q.who, q.addr);
    let nodes = &net.nodes;
    let mut root = rj::trie::root(&w.st.kv());
    let n = s.us(1, if s.scale > 1 { 8 } else { 5 });
    let r = rt.block_on(async {
        {
            let mut fs: Vec<&mut Foreign> = vec![&mut q];
            if let Some(b) = bad.as_mut() {
                fs.push(b);
            }
            start(nodes, &mut fs).await?;
        }
        let mut mine: Vec<(usize, Block)> = vec![];
        if s.coin() {
            for (i, nd) in nodes.iter().enumerate() {
                q.listen(i, nd).await?;
            }
        }
        for i in 0..n {
            let at = |e: String| format!("step {i} of {n}, {m} node(s): {e}");
            if i > 0 && s.chance(1, 4) {
                q.come_back(nodes).await.map_err(|e| at(format!("a peer that left comes back: {e}")))?;
                cov.tag("comes-back");
            }
            if let Some(b) = bad.as_mut() {
                let known: Vec<Block> = mine.iter().map(|x| x.1.clone()).collect();
                for _ in 0..s.us(1, 4) {
                    let mi = mischief(s, &w, &root, &p, &known);
                    let t = s.us(0, m - 1);
                    cov.tag(match &mi {
                        Mischief::Stream(..) => "junk-stream",
                        Mischief::Request(..) => "bad-request",
                        Mischief::Junk(..) => "junk-announcement",
                        Mischief::Announce(..) => "bad-block",
                        Mischief::Reconnect => "reconnect",
                        Mischief::Leave => "leave",
                    });
                    cov.nt(hash_bytes(format!("{mi:?}").as_bytes()));
                    cov.eval();
                    if std::env::var("VH_DUMP").is_ok() {
                        match &mi {
                            Mischief::Announce(b, r, tw) => eprintln!(
                                "step {i}: to {t}: block {} slot {} parent-ok {} reply {} twice {tw} model {:?}",
                                hex::encode(&b.header.hash()[..4]), b.header.slot, b.header.parent == w.parent.hash(),
                                match r { Some(Reply::Serve(v, k)) => format!("serve {} x{k}", v.len()), Some(Reply::Reset) => "reset".into(), Some(Reply::Silent) => "silent".into(), None => "none".into() },
                                stf::apply(&w.st, b, &opts(&w, &root)).err()
                            ),
                            o => eprintln!("step {i}: to {t}: {}", format!("{o:?}").chars().take(80).collect::<String>()),
                        }
                    }
                    misbehave(b, nodes, &mi, t).await.map_err(|e| at(format!("{mi:?}: {e}")))?;
                }
            }
            // every node looks at its own clock; at most one of them owns the slot
            let slot = w.st.tau
                + match s.chance(p.epoch, 10) {
                    true => E - w.st.tau % E + s.upto(3) as u32,
                    false => 1 + s.upto(2) as u32,
                };
            let ph = stf::phase1(&w.st, slot, &root, &Xts::default()).map_err(at)?;
            let Some((idx, owner, _)) = gen::sealer(&ph.st, slot) else {
                return Ok(());
            };
            let from = whos.iter().position(|x| *x == owner);
            let blk = if from.is_some() || s.chance(1, 4) {
                let sl = Timeslot::new(slot);
                for nd in nodes {
                    let ms = s.upto(5999);
                    clocked(slot, ms, extend_chain(nd.jam.clone(), &sl))
                        .await
                        .map_err(|e| {
                            at(format!(
                                "{} fails at slot {slot} (owner {}): {e}",
                                DEV[nd.who], DEV[owner]
                            ))
                        })?;
                }
                let Some(f) = from else {
                    // nobody owned the slot: nothing may have happened
                    for nd in nodes {
                        let b = nd.node.st.header_db().get_best_header().hash().map_err(|e| format!("{e}"))?;
                        if b.0 != w.parent.hash() {
                            return Err(at(format!("{} authored in {}'s slot", DEV[nd.who], DEV[owner])));
                        }
                    }
                    cov.tag("nobody-authors");
                    cov.eval();
                    continue;
                };
                let hd = nodes[f].node.st.header_db().get_best_header();
                let mut h = super::author::expected_header(&w, &root, slot, idx).map_err(at)?;
                let bytes = hd.encode().map_err(|e| format!("{e:?}"))?;
                h.seal = bytes[bytes.len() - 96..].to_vec();
                h.vrf = hd.vrf_signature().encode().map_err(|e| format!("{e:?}"))?;
                if h.encode() != bytes {
                    return Err(at(format!("{} did not author the block slot {slot} calls for (index {idx}): {hd}", DEV[owner])));
                }
                cov.tag("authored-by-node");
                let b = Block { header: h, xts: Xts::default() };
                mine.push((f, b.clone()));
                b
            } else {
                let Some(g) = gen::gen_block(s, &p, &w, &root) else {
                    return Ok(());
                };
                if stf::apply(&w.st, &g.block, &opts(&w, &root)).is_err() {
                    // an invalid block: no node may adopt it (C02), nothing to follow up here
                    return Ok(());
                }
                let a = announcement(&g.block);
                let enc = g.block.encode();
                let hash = g.block.header.hash();
                q.shelf
                    .lock()
                    .unwrap()
                    .insert(hash, Reply::Serve(enc.clone(), s.us(1, 3)));
                cov.tag(if enc.len() > 1024 { "big-foreign-block" } else { "foreign-block" });
                for t in 0..m {
                    let c = cuts(s, a.len());
                    if !c.is_empty() {
                        cov.tag("fragmented-announcement");
                    }
                    q.announce(t, &a, &c).await.map_err(at)?;
                }
                g.block
            };
            let out = match stf::apply(&w.st, &blk, &opts(&w, &root)) {
                Ok(o) => o,
                Err(e) if e.starts_with("WILD") => return Ok(()),
                Err(e) => return Err(at(format!("the block is invalid: {e}"))),
            };
            let kv = out.state.kv();
            let nr = rj::trie::root(&kv);
            if let Err(e) = settled(nodes, &blk, &nr).await {
                for nd in nodes {
                    let d = std::thread::scope(|sc| sc.spawn(|| nd.node.diff(&kv)).join().unwrap());
                    if !d.is_empty() {
                        return Err(at(format!("{e}; {}'s state: {}", DEV[nd.who], show(d))));
                    }
                }
                return Err(at(e));
            }
            q.heard_of(from, &announcement(&blk), nodes).await.map_err(at)?;
            if from.is_some_and(|f| q.links[f].due.is_some()) {
                cov.tag("announcement-heard");
            }
            cov.eval();
            cov.nt(hash_bytes(&blk.header.hash()) ^ m as u64);
            cov.sample(|| {
                format!(
                    "{m} nodes; slot {} on {} by {} ({}), {} octets",
                    blk.header.slot,
                    w.st.tau,
                    DEV[owner],
                    if from.is_some() { "a node" } else { "foreign" },
                    blk.encode().len()
                )
            });
            root = nr;
            w.st = out.state;
            w.parent = blk.header;
            // an honest peer can fetch what a node authored
            if !mine.is_empty() && s.chance(1, 2) {
                let (f, b) = s.pick(&mine).clone();
                let mut req = b.header.hash().to_vec();
                req.extend([0, 1]);
                let got = q
                    .request(f, &req, WAIT)
                    .await
                    .map_err(|e| at(format!("a block request is not answered: {e}")))?;
                if got != b.encode() {
                    return Err(at(format!("a block request is answered with {} octets instead of the block", got.len())));
                }
                cov.tag("fetched");
                cov.eval();
            }
        }
        Ok::<(), String>(())
    });
    if let Some(m) = net.panics() {
        return Err(format!("a node's task panicked: {m} (scenario: {r:?})"));
    }
    r?;
    let kv = w.st.kv();
    for nd in nodes {
        let d = nd.node.diff(&kv);
        if !d.is_empty() {
            return Err(format!("{}'s state differs: {}", DEV[nd.who], show(d)));
        }
    }
    rt.block_on(async {
        for f in [Some(&mut q), bad.as_mut()].into_iter().flatten() {
            f.links.clear();
            f.ep = None;
        }
    });
    Ok(())
}
fn gossip(s: &mut Src, cov: &mut Cov) -> R {
    scenario(s, cov, false)
}
fn hostile(s: &mut Src, cov: &mut Cov) -> R {
    scenario(s, cov, true)
}

/// How a validator behaves towards a node that starts.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    /// takes connections
    Up,
    /// refuses them
    Refuse,
    /// takes them and drops them at once
    Slam,
    /// has itself connected to the node before
    Early,
}
/// The connections and the first octets of the streams that reached a validator.
#[derive(Default)]
struct Reached {
    at: Vec<Instant>,
    kinds: Vec<u8>,
    heard: Vec<u8>,
}

async fn receive(ep: QuicEndpoint, part: Part, log: Arc<Mutex<Reached>>) {
    while let Some(inc) = ep.accept().await {
        log.lock().unwrap().at.push(Instant::now());
        if part == Part::Refuse {
            inc.refuse();
            continue;
        }
        let log = log.clone();
        tokio::spawn(async move {
            let Ok(c) = inc.await else { return };
            if part == Part::Slam {
                c.close(1u32.into(), b"");
                return;
            }
            while let Ok((back, mut r)) = c.accept_bi().await {
                let log = log.clone();
                tokio::spawn(async move {
                    let mut k = [0u8; 1];
                    if r.read_exact(&mut k).await.is_err() {
                        return;
                    }
                    log.lock().unwrap().kinds.push(k[0]);
                    let mut b = [0u8; 4096];
                    while let Ok(Some(n)) = r.read(&mut b).await {
                        log.lock().unwrap().heard.extend_from_slice(&b[..n]);
                    }
                    drop(back);
                });
            }
        });
    }
}

/// The validator that is to open the connection between the two.
fn opener(a: &[u8], b: &[u8]) -> bool {
    (a[31] > 127) ^ (b[31] > 127) ^ (a < b)
}

fn startup(s: &mut Src, cov: &mut Cov) -> R {
    let mut w = gen::gen_world(s, &profile(false));
    let mut ids: Vec<usize> = (0..12).collect();
    s.shuffle(&mut ids);
    let me = ids[0];
    let n = s.us(1, 5);
    let cast: Vec<(usize, Part, u8, SocketAddrV6)> = ids[1..=n]
        .iter()
        .map(|i| {
            let part = match s.weighted(&[5, 2, 1, 2]) {
                0 => Part::Up,
                1 => Part::Refuse,
                2 => Part::Slam,
                _ => Part::Early,
            };
            (*i, part, s.range(1, 7) as u8, free_addr())
        })
        .collect();
    let mine = (me, s.upto(7) as u8, free_addr());
    let rec = |i: usize, a: Option<SocketAddrV6>| {
        let mut r = gen::pool().vals[i].record();
        r[208..336].fill(0);
        if let Some(a) = a {
            r[208..224].copy_from_slice(&a.ip().octets());
            r[224..226].copy_from_slice(&a.port().to_le_bytes());
        }
        r
    };
    // the previous, the current and the next validators, in any order, those without an address
    // filling the rest
    let mut sets = vec![];
    for k in 0..3 {
        let mut set: Vec<_> = cast
            .iter()
            .map(|c| (c.0, c.2, c.3))
            .chain([mine])
            .filter(|c| c.1 >> k & 1 == 1)
            .map(|c| rec(c.0, Some(c.2)))
            .collect();
        let mut rest = ids[n + 1..].iter();
        while set.len() < rj::V {
            set.push(rec(*rest.next().unwrap(), None));
        }
        s.shuffle(&mut set);
        sets.push(set);
    }
    w.st.pending = sets[2].clone();
    w.st.iota = sets.pop().unwrap();
    w.st.kappa = sets.pop().unwrap();
    w.st.lambda = sets.pop().unwrap();
    w.st.offenders.clear();
    let (node, _) = Node::with_state(&w.st.kv(), &w.parent, None)?;
    static N: AtomicU64 = AtomicU64::new(0);
    let tag = format!("start{}", N.fetch_add(1, Ordering::SeqCst));
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .thread_name(tag.clone())
        .thread_stack_size(16 << 20)
        .enable_all()
        .build()
        .unwrap();
    let mut net = Net {
        nodes: vec![],
        rt: None,
        tag,
    };
    let ed = |i: usize| gen::pool().vals[i].record()[32..64].to_vec();
    let r: R = rt.block_on(async {
        let st = node.st.clone();
        let key = fr_crypto::types::ValidatorKey::decode(&mut &rec(me, Some(mine.2))[..])
            .map_err(|e| format!("{e}"))?;
        let info = LocalNodeInfo::new(mine.2, key);
        let nm = NetworkManager::new(info.clone(), QuicEndpoint::new(mine.2))
            .await
            .map_err(|e| format!("{e}"))?;
        let jam = Arc::new(JamNode::new(info, st.clone(), Arc::new(nm)));
        jam.network_manager()
            .load_validator_peers(st, mine.2)
            .await
            .map_err(|e| format!("{e}"))?;
        net.nodes.push(Peer {
            node,
            jam: jam.clone(),
            who: 0,
            addr: mine.2,
        });
        let mut got: Vec<SocketAddrV6> = jam
            .network_manager()
            .all_validator_peers
            .iter()
            .map(|p| *p.key())
            .collect();
        let mut want: Vec<SocketAddrV6> = cast.iter().map(|c| c.3).collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!(
                "the node knows {} peers, of the {} of its validator sets",
                got.len(),
                want.len()
            ));
        }
        let (tx, _rx) = tokio::sync::mpsc::channel(10);
        tokio::spawn({
            let (jam, tx) = (jam.clone(), tx.clone());
            async move { jam.run_acceptor(tx).await }
        });
        let mut logs = vec![];
        let mut early: Vec<Foreign> = vec![];
        for c in &cast {
            let ep = QuicEndpoint::new(c.3);
            let log: Arc<Mutex<Reached>> = Default::default();
            tokio::spawn(receive(ep.clone(), c.1, log.clone()));
            logs.push(log);
            if c.1 == Part::Early {
                let mut f = Foreign {
                    who: c.0,
                    addr: c.3,
                    ep: Some(ep),
                    shelf: Default::default(),
                    links: vec![],
                };
                f.connect(&net.nodes).await?;
                early.push(f);
            }
        }
        let t0 = Instant::now();
        while linked(&net.nodes[0]) < early.len() {
            if t0.elapsed() > WAIT {
                return Err("a node does not register a connecting peer".into());
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        let t0 = Instant::now();
        // what it answers is only logged by the node
        let _ = tokio::time::timeout(Duration::from_secs(120), jam.run_initiator(tx))
            .await
            .map_err(|_| "the node never stops connecting to its peers".to_string())?;
        let took = t0.elapsed();
        // whoever is up gets connected
        let t1 = Instant::now();
        for (c, log) in cast.iter().zip(&logs) {
            if c.1 != Part::Up {
                continue;
            }
            while log.lock().unwrap().kinds.is_empty()
                || !entry(&net.nodes[0], c.3, |x| !x.up_stream_handles.is_empty())
            {
                if t1.elapsed() > WAIT {
                    return Err(format!("a node that starts does not connect to a validator that takes connections ({} of the others do not)", cast.iter().filter(|c| matches!(c.1, Part::Refuse | Part::Slam)).count()));
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        let b = Block {
            header: w.parent.clone(),
            xts: Xts::default(),
        };
        jam.network_manager()
            .announce_block_to_all_peers(&crate::imp::to_header(&w.parent))
            .await
            .map_err(|e| format!("{e}"))?;
        let due = announcement(&b);
        let t1 = Instant::now();
        for (c, log) in cast.iter().zip(&logs) {
            while c.1 == Part::Up && log.lock().unwrap().heard.len() < due.len() {
                if t1.elapsed() > WAIT {
                    return Err("an announcement does not reach a connected peer".into());
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        for (c, log) in cast.iter().zip(&logs) {
            let l = log.lock().unwrap();
            let first = opener(&ed(me), &ed(c.0));
            let most = match c.1 {
                Part::Up => 1,
                Part::Early => 0,
                // may be tried once as the opener and once more
                _ => 2,
            };
            if l.at.len() > most || (c.1 != Part::Early && l.at.is_empty()) {
                return Err(format!(
                    "a node that starts tries {} connections to a validator that is {:?}",
                    l.at.len(),
                    c.1
                ));
            }
            if let (false, Some(t)) = (first, l.at.first()) {
                if *t < t0 + Duration::from_millis(4_900) {
                    return Err("a node connects at once to a validator that should connect to it".into());
                }
            }
            if let (true, Some(t)) = (first, l.at.first()) {
                // it has waited five seconds after all of these
                if took < Duration::from_secs(7) && *t > t0 + Duration::from_millis(4_000) {
                    return Err("a node waits before it connects to a validator that waits for it".into());
                }
            }
            if c.1 == Part::Up && (l.kinds != [0] || l.heard != due) {
                return Err(format!(
                    "a peer sees streams {:?} and {} octets of announcements instead of {}",
                    l.kinds,
                    l.heard.len(),
                    due.len()
                ));
            }
            cov.tag(match (c.1, first) {
                (Part::Up, true) => "opened",
                (Part::Up, false) => "opened-late",
                (Part::Refuse, _) => "refused",
                (Part::Slam, _) => "dropped",
                (Part::Early, _) => "taken",
            });
        }
        Ok(())
    });
    net.rt = Some(rt);
    if let Some(m) = net.panics() {
        return Err(format!("a node's task panicked: {m}"));
    }
    r?;
    if cast.iter().any(|c| c.1 == Part::Up) {
        let v = cast
            .iter()
            .flat_map(|c| [c.0 as u8, c.1 as u8, c.2])
            .chain([me as u8])
            .collect::<Vec<_>>();
        cov.nt(hash_bytes(&v));
        cov.sample(|| {
            format!(
                "validator {me} starts; others: {:?}",
                cast.iter().map(|c| (c.0, c.1, c.2)).collect::<Vec<_>>()
            )
        });
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C30",
            rule: "a start with at least one reachable validator counts (distinct by who takes which part in which sets)",
            assumptions: &["One node and up to five validators played by the harness over loopback QUIC; the validators refuse connections or drop them rather than staying silent, and the node's own wait of five seconds is real time."],
            subs: vec![Sub {
                name: "startup",
                quick: 240,
                thorough: 2_400,
                f: startup,
                threads: 24,
            }],
        },
        Prop {
            id: "C23",
            rule: "a block taken over by every node counts (distinct by hash and number of nodes)",
            assumptions: &["One to three nodes and a foreign peer in one process over loopback QUIC; everything a node does is driven through its own acceptor, importer and per-slot tasks. Slots are sealed by key (the node's ticket branch is unimplemented). Convergence is awaited for 25 s."],
            subs: vec![Sub {
                name: "gossip",
                quick: 600,
                thorough: 8_000,
                f: gossip,
                threads: 8,
            }],
        },
        Prop {
            id: "C24",
            rule: "a hostile action counts (distinct by content), and so does a block taken over afterwards",
            assumptions: &["As for C23, with one more peer that misbehaves. A peer that announces garbage is only promised that new streams and other peers work."],
            subs: vec![Sub {
                name: "hostile",
                quick: 600,
                thorough: 8_000,
                f: hostile,
                threads: 8,
            }],
        },
    ]
}
