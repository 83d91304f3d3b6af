//! C29: the conformance target over its socket. Generated sessions (handshake, initial state, blocks,
//! forks, state requests, faults) against the reference model.
use crate::chain::reason_tag;
use crate::eng::{hash_bytes, Cov, Prop, Src, Sub};
use crate::gen::{self, Mu, Prof, World};
use crate::imp::{rt, scratch, show};
use crate::rj::codec::{enc, Enc};
use crate::rj::state::diff_kv;
use crate::rj::stf::{self, Opts};
use crate::rj::trie::{self, Key};
use crate::rj::H;
use fr_fuzz::fuzz_target::FuzzTargetRunner;
use fr_fuzz::types::{PeerInfo, Version};
use std::collections::{BTreeMap, VecDeque};
use std::io::{ErrorKind, Read, Write};
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::time::Duration;

type R<T = ()> = Result<T, String>;

const ALL: &[Mu] = &[
    Mu::Header,
    Mu::Disputes,
    Mu::Tickets,
    Mu::Assurances,
    Mu::Guarantees,
    Mu::Preimages,
];

/// The target's process: serves one session after another until it is dropped.
struct Target {
    path: PathBuf,
    task: tokio::task::JoinHandle<()>,
    _dir: tempfile::TempDir,
}
impl Drop for Target {
    fn drop(&mut self) {
        self.task.abort();
    }
}

fn start(info: &Info) -> R<Target> {
    let dir = scratch();
    let path = dir.path().join("t.sock");
    let _g = rt().enter();
    let v = |a: &[u8; 3]| Version::new(a[0], a[1], a[2]);
    let mut run = FuzzTargetRunner::new(PeerInfo::new(
        info.version,
        info.features,
        v(&info.jam),
        v(&info.app),
        info.name.clone(),
    ))
    .map_err(|e| format!("the target does not start: {e}"))?;
    let p = path.to_str().unwrap().to_string();
    let task = rt().spawn(async move {
        let _ = run.run_as_fuzz_target(p).await;
    });
    Ok(Target {
        path,
        task,
        _dir: dir,
    })
}

struct Info {
    version: u8,
    features: u32,
    jam: [u8; 3],
    app: [u8; 3],
    name: String,
}
fn info(s: &mut Src, plain: bool) -> Info {
    Info {
        version: s.upto(255) as u8,
        features: match s.us(0, 2) {
            0 => s.upto(3) as u32,
            _ => s.u32_any(),
        },
        jam: s.arr(),
        app: s.arr(),
        name: match s.us(0, 9) {
            0 => String::new(),
            1 if !plain => "n\u{e4}me \u{1f980}".into(),
            2 | 3 => "x".repeat(s.us(1, 300)),
            _ => "fuzzer".into(),
        },
    }
}
impl Info {
    fn enc(&self) -> Vec<u8> {
        let mut m = vec![0, self.version];
        m.extend(self.features.to_le_bytes());
        m.extend(self.jam);
        m.extend(self.app);
        m.extend(enc(|e| {
            e.bytes(self.name.as_bytes());
        }));
        m
    }
}

enum Reply {
    Msg(Vec<u8>),
    Closed,
}

struct Session {
    c: UnixStream,
    /// what was sent and not yet answered
    due: VecDeque<Due>,
    /// messages and expected answers, written to a file for demonstrations outside this harness
    fix: Option<(String, String)>,
}

/// The answer an earlier message must get.
enum Due {
    Root(String, H),
    /// an error, for this reason
    Error(String, &'static str),
    State(String, BTreeMap<Key, Vec<u8>>),
    /// the session must not go on as if nothing had happened
    End(&'static str),
}

impl Session {
    fn open(t: &Target) -> R<Session> {
        for _ in 0..2000 {
            if let Ok(c) = UnixStream::connect(&t.path) {
                c.set_read_timeout(Some(Duration::from_secs(90))).unwrap();
                c.set_write_timeout(Some(Duration::from_secs(90))).unwrap();
                return Ok(Session {
                    c,
                    due: VecDeque::new(),
                    fix: std::env::var("VH_FIX").ok().map(|f| (f, String::new())),
                });
            }
            if t.task.is_finished() {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Err("the target takes no connections".into())
    }
    fn want(&mut self, d: Due) {
        if let Some((f, t)) = self.fix.as_mut() {
            t.push_str(&match &d {
                Due::Root(_, r) => format!("root {}\n", hex::encode(r)),
                Due::Error(..) => "error\n".to_string(),
                Due::State(_, kv) => format!("state {}\n", hex::encode(trie::root(kv))),
                Due::End(_) => "end\n".to_string(),
            });
            std::fs::write(f, t).unwrap();
        }
        self.due.push_back(d);
    }
    /// Sends a message in one or more pieces; a session that was closed meanwhile is seen on reading.
    fn send(&mut self, s: &mut Src, m: &[u8]) {
        if let Some((_, t)) = self.fix.as_mut() {
            t.push_str(&format!("send {}\n", hex::encode(m)));
        }
        let mut b = (m.len() as u32).to_le_bytes().to_vec();
        b.extend(m);
        let mut at = 0;
        while at < b.len() {
            let to = if s.chance(1, 4) {
                s.us(at + 1, b.len())
            } else {
                b.len()
            };
            if self.c.write_all(&b[at..to]).is_err() {
                return;
            }
            at = to;
            if at < b.len() && s.chance(1, 8) {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
    fn read(&mut self) -> R<Reply> {
        let mut l = [0u8; 4];
        let mut get = |b: &mut [u8]| -> R<bool> {
            match self.c.read_exact(b) {
                Ok(()) => Ok(true),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                    Err("no answer within 90 s".into())
                }
                Err(_) => Ok(false),
            }
        };
        if !get(&mut l)? {
            return Ok(Reply::Closed);
        }
        let n = u32::from_le_bytes(l) as usize;
        if n == 0 || n > 256 << 20 {
            return Err(format!("a reply announces {n} octets"));
        }
        let mut b = vec![0; n];
        if !get(&mut b)? {
            return Err("the session ends within a reply".into());
        }
        Ok(Reply::Msg(b))
    }
    /// Takes the answers due; says whether the session goes on.
    fn settle(&mut self, cov: &mut Cov) -> R<bool> {
        while let Some(d) = self.due.pop_front() {
            let r = self.read()?;
            match (d, r) {
                (Due::Root(at, w), Reply::Msg(m)) => {
                    if m[0] == 255 {
                        return Err(format!(
                            "{at}: answered by an error: {}",
                            String::from_utf8_lossy(&m[1..m.len().min(200)])
                        ));
                    }
                    if m.len() != 33 || m[0] != 2 {
                        return Err(format!("{at}: answered by a message of kind {}", m[0]));
                    }
                    if m[1..] != w {
                        return Err(format!("{at}: the state root is wrong"));
                    }
                }
                (Due::Error(at, why), Reply::Msg(m)) => {
                    if m[0] == 2 {
                        return Err(format!("{at}: an invalid block is accepted ({why})"));
                    }
                    if m[0] != 255 {
                        return Err(format!("{at}: answered by a message of kind {}", m[0]));
                    }
                    let (n, o) = nat(&m[1..]).ok_or(format!("{at}: malformed error"))?;
                    if n as usize != m.len() - 1 - o {
                        return Err(format!("{at}: malformed error"));
                    }
                }
                (Due::State(at, w), Reply::Msg(m)) => {
                    let got = state(&m).map_err(|e| format!("{at}: {e}"))?;
                    let df = diff_kv(&w, &got);
                    if !df.is_empty() {
                        return Err(format!("{at}: the state differs: {}", show(df)));
                    }
                    cov.tag("state-compared");
                }
                (Due::End(_), Reply::Closed) => {
                    cov.tag("refused-session");
                    return Ok(false);
                }
                (Due::End(_), Reply::Msg(m)) if m[0] == 255 => {
                    cov.tag("refused-message");
                    return Ok(false);
                }
                (Due::End(at), Reply::Msg(m)) => {
                    return Err(format!("{at} is answered by a message of kind {}", m[0]))
                }
                (Due::Root(at, _) | Due::Error(at, _) | Due::State(at, _), Reply::Closed) => {
                    return Err(format!("{at}: the session is closed instead of an answer"))
                }
            }
        }
        Ok(true)
    }
}

/// A general natural: value and octets taken.
fn nat(b: &[u8]) -> Option<(u64, usize)> {
    let f = *b.first()?;
    let l = f.leading_ones() as usize;
    if l == 8 {
        return Some((u64::from_le_bytes(b.get(1..9)?.try_into().ok()?), 9));
    }
    let mut x = 0u64;
    for (i, o) in b.get(1..1 + l)?.iter().enumerate() {
        x |= (*o as u64) << (8 * i);
    }
    let hi = (f as u64) & ((1 << (7 - l)) - 1);
    Some((x | hi << (8 * l), 1 + l))
}

fn state(m: &[u8]) -> R<BTreeMap<Key, Vec<u8>>> {
    if m[0] != 5 {
        return Err(format!("answered by a message of kind {}", m[0]));
    }
    let bad = "malformed state";
    let mut at = 1;
    let (n, o) = nat(&m[at..]).ok_or(bad)?;
    at += o;
    let mut kv = BTreeMap::new();
    for _ in 0..n {
        let k: Key = m.get(at..at + 31).ok_or(bad)?.try_into().unwrap();
        at += 31;
        let (l, o) = nat(&m[at..]).ok_or(bad)?;
        at += o;
        let v = m.get(at..at + l as usize).ok_or(bad)?.to_vec();
        at += l as usize;
        if kv.insert(k, v).is_some() {
            return Err(format!("entry {} is given twice", hex::encode(k)));
        }
    }
    if at != m.len() {
        return Err(bad.into());
    }
    Ok(kv)
}

fn initialize(s: &mut Src, w: &World, kv: &BTreeMap<Key, Vec<u8>>) -> Vec<u8> {
    let mut v: Vec<(&Key, &Vec<u8>)> = kv.iter().collect();
    s.shuffle(&mut v);
    let mut m = vec![1];
    m.extend(w.parent.encode());
    let mut e = Enc::new();
    e.nat(v.len() as u64);
    for (k, x) in v {
        e.raw(k).bytes(x);
    }
    // ancestors are told even where the session does not use them
    let mut anc: Vec<(u32, H)> = match &w.anc {
        Some(a) => a.iter().rev().take(24).copied().collect(),
        None => (0..s.us(0, 4))
            .map(|_| (s.upto(60) as u32, s.hash()))
            .collect(),
    };
    s.shuffle(&mut anc);
    e.nat(anc.len() as u64);
    for (t, h) in anc {
        e.fix(t as u64, 4).raw(&h);
    }
    m.extend(e.done());
    m
}

fn profile(s: &mut Src) -> Prof {
    let base = Prof {
        nsvc: (1, 3),
        mutate: 2,
        muts: ALL,
        ..Default::default()
    };
    match s.weighted(&[9, 3, 1]) {
        // services that change their accounts
        0 => Prof {
            scripts: true,
            assu: 9,
            avail: 9,
            guar: 6,
            pre: 4,
            rho: 9,
            ready: 4,
            epoch: 1,
            always: 4,
            nsvc: (1, 4),
            weights: *s.pick(&[[4, 3, 6, 5, 1, 1], [1, 3, 12, 3, 1, 1]]),
            ..base
        },
        // everything
        1 => Prof {
            scripts: s.coin(),
            disp: 3,
            tick: 2,
            few: true,
            tick_fill: 7,
            assu: 6,
            guar: 5,
            pre: 4,
            epoch: 4,
            ..base
        },
        // tickets and epochs
        _ => Prof {
            tick: 8,
            few: true,
            tick_fill: 8,
            assu: 0,
            guar: 0,
            pre: 0,
            epoch: 4,
            disp: 1,
            nsvc: (1, 1),
            rho: 0,
            ready: 0,
            always: 0,
            ..base
        },
    }
}

struct Staged {
    w: World,
    root: H,
}

fn get_state(h: &H) -> Vec<u8> {
    let mut m = vec![4];
    m.extend(h);
    m
}

/// A message that no session may contain at this place.
fn misplaced(s: &mut Src, init: &[u8], kv: &BTreeMap<Key, Vec<u8>>) -> (Vec<u8>, &'static str) {
    match s.us(0, 8) {
        0 => (init.to_vec(), "a second Initialize"),
        1 => {
            let mut m = vec![2];
            m.extend(s.hash());
            (m, "a state root sent to the target")
        }
        2 => (vec![255, 1, b'x'], "an error sent to the target"),
        3 => {
            let mut e = Enc::new();
            e.raw(&[5]).nat(kv.len() as u64);
            for (k, v) in kv {
                e.raw(k).bytes(v);
            }
            (e.done(), "a state sent to the target")
        }
        4 => (vec![], "an empty message"),
        5 => {
            let k = s.range(6, 254) as u8;
            (vec![k, 0, 0], "a message of unknown kind")
        }
        6 => {
            let n = s.us(0, 31);
            (get_state(&[7; 32])[..1 + n].to_vec(), "a cut state request")
        }
        7 => (info(s, true).enc(), "a second handshake"),
        _ => {
            let n = s.us(1, 200);
            let mut m = vec![3];
            m.extend(vec![0xff; n]);
            (m, "a block of noise")
        }
    }
}

fn session(s: &mut Src, cov: &mut Cov, t: &Target, us: &Info, nth: usize) -> R {
    let mut c = Session::open(t)?;
    // a session that does not begin as it must
    if s.chance(1, 10) {
        cov.tag("bad-start");
        let m = match s.us(0, 3) {
            0 => get_state(&[0; 32]),
            1 => vec![],
            2 => {
                let m = info(s, true).enc();
                let n = s.us(0, m.len() - 1);
                m[..n].to_vec()
            }
            _ => {
                // half a message, then nothing
                let n = s.us(0, 8);
                let _ = c.c.write_all(&[200, 0, 0, 0, 0, 1, 2, 3][..n]);
                return Ok(());
            }
        };
        c.send(s, &m);
        c.want(Due::End("a session without handshake"));
        c.settle(cov)?;
        return Ok(());
    }
    let p = profile(s);
    let mut w = gen::gen_world(s, &p);
    let forking = s.coin();
    let anc = w.anc.is_some();
    let mut me = info(s, false);
    me.features = (me.features & !3) | anc as u32 | (forking as u32) << 1;
    c.send(s, &me.enc());
    match c.read()? {
        Reply::Msg(m) if m == us.enc() => {}
        Reply::Msg(m) => {
            return Err(format!(
                "the handshake is answered by {}",
                hex::encode(&m[..m.len().min(40)])
            ))
        }
        Reply::Closed if !me.name.is_ascii() => {
            cov.known_finding("peer-name-octets");
            return Ok(());
        }
        Reply::Closed => return Err(format!("session {nth}: the handshake is not answered")),
    }
    let mut kv = w.st.kv();
    let mut root = trie::root(&kv);
    let init = initialize(s, &w, &kv);
    if s.chance(1, 10) {
        // a block with nothing to follow on
        if let Some(g) = gen::gen_block(
            s,
            &Prof {
                mutate: 0,
                ..p.clone()
            },
            &w,
            &root,
        ) {
            cov.tag("block-before-initialize");
            let mut m = vec![3];
            m.extend(g.block.encode());
            c.send(s, &m);
            c.want(Due::End("a block before Initialize"));
            if !c.settle(cov)? {
                return Ok(());
            }
        }
    }
    c.send(s, &init);
    c.want(Due::Root(format!("session {nth}: Initialize"), root));
    let pipe = s.chance(1, 3);
    if !pipe {
        c.settle(cov)?;
    } else {
        cov.tag("not-awaited");
    }
    let mut staged: BTreeMap<H, Staged> = BTreeMap::new();
    let n = s.us(0, if s.scale > 1 { 14 } else { 7 });
    for i in 0..n {
        let at = |m: &str| {
            format!("session {nth} (forking {forking}, ancestors {anc}), message {i}: {m}")
        };
        match s.weighted(&[8, 4, 1, 1]) {
            0 => {
                // a block on the head, or on a block that competes for it
                let on = if !staged.is_empty() && s.chance(2, 5) {
                    let k = s.us(0, staged.len() - 1);
                    staged.values().nth(k)
                } else {
                    None
                };
                let (b, r) = match on {
                    Some(x) => (&x.w, x.root),
                    None => (&w, root),
                };
                let Some(g) = gen::gen_block(s, &p, b, &r) else {
                    continue;
                };
                let blk = g.block;
                if let Some(x) = staged.remove(&blk.header.parent) {
                    cov.tag("kept-by-its-child");
                    staged.clear();
                    w = x.w;
                    root = x.root;
                    kv = w.st.kv();
                }
                let o = Opts {
                    parent_hash: w.parent.hash(),
                    parent_slot: w.st.tau,
                    parent_root: root,
                    ancestors: w.anc.as_ref(),
                };
                let want = stf::apply(&w.st, &blk, &o);
                if matches!(&want, Err(m) if m.starts_with("WILD")) {
                    c.settle(cov)?;
                    return Ok(());
                }
                cov.eval();
                let mut m = vec![3];
                m.extend(blk.encode());
                c.send(s, &m);
                if crate::imp::to_block(&blk).is_err() {
                    if want.is_ok() {
                        return Err(at("a valid block is not decoded"));
                    }
                    cov.tag("undecodable");
                    c.want(Due::End("an undecodable block"));
                    c.settle(cov)?;
                    return Ok(());
                }
                match want {
                    Ok(o) => {
                        let nkv = o.state.kv();
                        let nr = trie::root(&nkv);
                        cov.nt(hash_bytes(&blk.header.hash()));
                        c.want(Due::Root(at("a valid block"), nr));
                        let mut nw = w.clone();
                        if nkv.keys().any(|k| !kv.contains_key(k)) {
                            cov.tag("entries-added");
                        }
                        if kv.keys().any(|k| !nkv.contains_key(k)) {
                            cov.tag("entries-removed");
                        }
                        if let Some(a) = nw.anc.as_mut() {
                            a.insert((blk.header.slot, blk.header.hash()));
                        }
                        nw.st = o.state;
                        nw.parent = blk.header.clone();
                        if forking {
                            cov.tag(if staged.is_empty() {
                                "candidate"
                            } else {
                                "competitor"
                            });
                            staged.insert(blk.header.hash(), Staged { w: nw, root: nr });
                        } else {
                            cov.tag("imported");
                            w = nw;
                            root = nr;
                            kv = nkv;
                        }
                    }
                    Err(m) => {
                        let r = reason_tag(&m);
                        cov.tag(r);
                        c.want(Due::Error(at("an invalid block"), r));
                    }
                }
            }
            1 => {
                let k = s.us(0, staged.len());
                let (h, x) = match staged.iter().nth(k) {
                    Some((h, x)) => {
                        cov.tag("candidate-state");
                        (*h, x.w.st.kv())
                    }
                    None => (w.parent.hash(), kv.clone()),
                };
                c.send(s, &get_state(&h));
                c.want(Due::State(at("the state"), x));
            }
            2 => {
                if s.chance(1, 3) {
                    let (m, what) = misplaced(s, &init, &kv);
                    cov.tag("misplaced");
                    c.send(s, &m);
                    c.want(Due::End(what));
                    c.settle(cov)?;
                    return Ok(());
                }
            }
            _ => {
                if s.chance(1, 3) {
                    // the other side goes away without waiting for its answers
                    cov.tag("left");
                    return Ok(());
                }
            }
        }
        if !pipe || s.chance(1, 3) {
            c.settle(cov)?;
        }
    }
    c.send(s, &get_state(&w.parent.hash()));
    c.want(Due::State(
        format!("session {nth} (forking {forking}), at the end: the head's state"),
        kv.clone(),
    ));
    c.settle(cov)?;
    cov.sample(|| {
        format!(
            "session {nth}: forking {forking}, ancestors {anc}, {n} messages, {} entries, {} services",
            kv.len(),
            w.st.accounts.len()
        )
    });
    Ok(())
}

fn sessions(s: &mut Src, cov: &mut Cov) -> R {
    let us = info(s, true);
    let t = start(&us)?;
    let n = s.us(1, 3);
    for i in 0..n {
        session(s, cov, &t, &us, i)?;
    }
    if t.task.is_finished() {
        return Err("the target has stopped".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "a valid block answered over the socket counts (distinct by header hash)",
        assumptions: &["What a state request for a block that is neither the head nor a candidate is answered, and how an illegal message is refused (an error or the end of the session), is left open."],
        subs: vec![Sub {
            name: "sessions",
            quick: 1600,
            thorough: 20_000,
            f: sessions,
            threads: 8,
        }],
    }]
}
