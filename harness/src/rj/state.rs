//! Reference state and its serialization (GP appendix D).
use super::codec::*;
use super::trie::Key;
use super::types::*;
use super::*;
use std::collections::{BTreeMap, BTreeSet};

pub type ValKey = Vec<u8>; // 336 bytes

#[derive(Clone, Debug, PartialEq, Default)]
pub struct HistEntry {
    pub header: H,
    pub beefy: H,
    pub state_root: H,
    pub reported: BTreeMap<H, H>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sealers {
    Tickets(Vec<Ticket>),
    Keys(Vec<H>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Account {
    pub code_hash: H,
    pub balance: u64,
    pub min_acc_gas: u64,
    pub min_memo_gas: u64,
    pub gratis: u64,
    pub created: u32,
    pub last_acc: u32,
    pub parent: u32,
    pub storage: BTreeMap<Vec<u8>, Vec<u8>>,
    pub preimages: BTreeMap<H, Vec<u8>>,
    pub lookups: BTreeMap<(H, u32), Vec<u32>>,
}
impl Account {
    pub fn items(&self) -> u64 {
        2 * self.lookups.len() as u64 + self.storage.len() as u64
    }
    pub fn octets(&self) -> u64 {
        self.lookups
            .keys()
            .map(|(_, z)| 81 + *z as u64)
            .sum::<u64>()
            + self
                .storage
                .iter()
                .map(|(k, v)| 34 + k.len() as u64 + v.len() as u64)
                .sum::<u64>()
    }
    pub fn threshold(&self) -> u64 {
        (B_S + B_I * self.items() + B_L * self.octets()).saturating_sub(self.gratis)
    }
    pub fn meta(&self) -> Vec<u8> {
        enc(|e| {
            e.raw(&[0]).raw(&self.code_hash);
            for x in [
                self.balance,
                self.min_acc_gas,
                self.min_memo_gas,
                self.octets(),
                self.gratis,
            ] {
                e.fix(x, 8);
            }
            for x in [
                self.items(),
                self.created as u64,
                self.last_acc as u64,
                self.parent as u64,
            ] {
                e.fix(x, 4);
            }
        })
    }
    /// Historical lookup.
    pub fn lookup_at(&self, t: u32, h: &H) -> Option<&Vec<u8>> {
        let p = self.preimages.get(h)?;
        let l = self.lookups.get(&(*h, p.len() as u32))?;
        let ok = match l.len() {
            1 => l[0] <= t,
            2 => l[0] <= t && t < l[1],
            3 => (l[0] <= t && t < l[1]) || l[2] <= t,
            _ => false,
        };
        ok.then_some(p)
    }
    /// Metadata-prefixed code split: (metadata, code) of the preimage of code_hash.
    pub fn code(&self) -> Option<Vec<u8>> {
        split_code(self.preimages.get(&self.code_hash)?)
    }
}
pub fn read_nat(b: &[u8]) -> Option<(u64, usize)> {
    let f = *b.first()?;
    let l = f.leading_ones() as usize;
    if b.len() < 1 + l {
        return None;
    }
    let mut x = 0u64;
    for i in 0..l {
        x |= (b[1 + i] as u64) << (8 * i);
    }
    if l < 8 {
        let hi = (f as u64) & (0x7f >> l);
        x |= if l == 0 { hi } else { hi << (8 * l) };
    }
    (super::codec::nat(x).len() == 1 + l).then_some((x, 1 + l))
}
pub fn split_code(b: &[u8]) -> Option<Vec<u8>> {
    let (n, k) = read_nat(b)?;
    let n = usize::try_from(n).ok()?;
    let end = k.checked_add(n)?;
    (end <= b.len()).then(|| b[end..].to_vec())
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ValStat {
    pub b: u64,
    pub t: u64,
    pub p: u64,
    pub d: u64,
    pub g: u64,
    pub a: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct CoreStat {
    pub d: u64,
    pub p: u64,
    pub i: u64,
    pub x: u64,
    pub z: u64,
    pub e: u64,
    pub l: u64,
    pub u: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct SvcStat {
    pub p: (u64, u64),
    pub r: (u64, u64),
    pub i: u64,
    pub x: u64,
    pub z: u64,
    pub e: u64,
    pub a: (u64, u64),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Privs {
    pub manager: u32,
    pub assigners: [u32; C],
    pub delegator: u32,
    pub registrar: u32,
    pub always: BTreeMap<u32, u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub pools: [Vec<H>; C],
    pub queues: [Vec<H>; C],
    pub hist: Vec<HistEntry>,
    pub belt: Vec<Option<H>>,
    pub pending: Vec<ValKey>,
    pub ring_root: Vec<u8>,
    pub sealers: Sealers,
    pub tickets: Vec<Ticket>,
    pub good: BTreeSet<H>,
    pub bad: BTreeSet<H>,
    pub wonky: BTreeSet<H>,
    pub offenders: BTreeSet<H>,
    pub eta: [H; 4],
    pub iota: Vec<ValKey>,
    pub kappa: Vec<ValKey>,
    pub lambda: Vec<ValKey>,
    pub rho: [Option<(Report, u32)>; C],
    pub tau: u32,
    pub privs: Privs,
    pub val_cur: Vec<ValStat>,
    pub val_last: Vec<ValStat>,
    pub core_stats: Vec<CoreStat>,
    pub svc_stats: BTreeMap<u32, SvcStat>,
    pub ready: Vec<Vec<(Report, BTreeSet<H>)>>,
    pub accumulated: Vec<BTreeSet<H>>,
    pub last_out: Vec<(u32, H)>,
    pub accounts: BTreeMap<u32, Account>,
}

pub fn skey(i: u8) -> Key {
    let mut k = [0; 31];
    k[0] = i;
    k
}
pub fn akey(s: u32) -> Key {
    let mut k = [0; 31];
    let n = s.to_le_bytes();
    k[0] = 255;
    for i in 0..4 {
        k[1 + 2 * i] = n[i];
    }
    k
}
pub fn ekey(s: u32, h: &[u8]) -> Key {
    let a = blake2b(h);
    let n = s.to_le_bytes();
    let mut k = [0; 31];
    for i in 0..4 {
        k[2 * i] = n[i];
        k[2 * i + 1] = a[i];
    }
    k[8..31].copy_from_slice(&a[4..27]);
    k
}
pub fn storage_key(s: u32, key: &[u8]) -> Key {
    ekey(s, &[&u32::MAX.to_le_bytes()[..], key].concat())
}
pub fn preimage_key(s: u32, h: &H) -> Key {
    ekey(s, &[&(u32::MAX - 1).to_le_bytes()[..], h].concat())
}
pub fn lookup_key(s: u32, h: &H, len: u32) -> Key {
    ekey(s, &[&len.to_le_bytes()[..], h].concat())
}
pub fn lookup_val(v: &[u32]) -> Vec<u8> {
    enc(|e| {
        e.nat(v.len() as u64);
        for t in v {
            e.fix(*t as u64, 4);
        }
    })
}

pub fn enc_privs(e: &mut Enc, p: &Privs) {
    e.fix(p.manager as u64, 4);
    for a in p.assigners {
        e.fix(a as u64, 4);
    }
    e.fix(p.delegator as u64, 4)
        .fix(p.registrar as u64, 4)
        .nat(p.always.len() as u64);
    for (s, g) in &p.always {
        e.nat(*s as u64).nat(*g);
    }
}

impl State {
    pub fn simple(&self, i: u8) -> Vec<u8> {
        let mut en = Enc::new();
        let e = &mut en;
        let hs = |e: &mut Enc, v: &[H]| {
            for h in v {
                e.raw(h);
            }
        };
        let set = |e: &mut Enc, v: &BTreeSet<H>| {
            e.nat(v.len() as u64);
            for h in v {
                e.raw(h);
            }
        };
        match i {
            1 => {
                for p in &self.pools {
                    e.nat(p.len() as u64);
                    hs(e, p);
                }
            }
            2 => {
                for p in &self.queues {
                    hs(e, p);
                }
            }
            3 => {
                e.seq(self.hist.iter(), |e, h| {
                    e.raw(&h.header)
                        .raw(&h.beefy)
                        .raw(&h.state_root)
                        .nat(h.reported.len() as u64);
                    for (k, v) in &h.reported {
                        e.raw(k).raw(v);
                    }
                });
                e.seq(self.belt.iter(), |e, o| {
                    e.opt(o, |e, h| {
                        e.raw(h);
                    });
                });
            }
            4 => {
                for k in &self.pending {
                    e.raw(k);
                }
                e.raw(&self.ring_root);
                match &self.sealers {
                    Sealers::Tickets(t) => {
                        e.raw(&[0]);
                        for (h, a) in t {
                            e.raw(h).nat(*a as u64);
                        }
                    }
                    Sealers::Keys(k) => {
                        e.raw(&[1]);
                        hs(e, k);
                    }
                }
                e.seq(self.tickets.iter(), |e, (h, a)| {
                    e.raw(h).nat(*a as u64);
                });
            }
            5 => {
                for s in [&self.good, &self.bad, &self.wonky, &self.offenders] {
                    set(e, s);
                }
            }
            6 => hs(e, &self.eta),
            7 | 8 | 9 => {
                for k in match i {
                    7 => &self.iota,
                    8 => &self.kappa,
                    _ => &self.lambda,
                } {
                    e.raw(k);
                }
            }
            10 => {
                for r in &self.rho {
                    e.opt(r, |e, (r, t)| {
                        r.enc(e);
                        e.fix(*t as u64, 4);
                    });
                }
            }
            11 => {
                e.fix(self.tau as u64, 4);
            }
            12 => enc_privs(e, &self.privs),
            13 => {
                for v in [&self.val_cur, &self.val_last] {
                    for s in v {
                        for x in [s.b, s.t, s.p, s.d, s.g, s.a] {
                            e.fix(x, 4);
                        }
                    }
                }
                for c in &self.core_stats {
                    for x in [c.d, c.p, c.i, c.x, c.z, c.e, c.l, c.u] {
                        e.nat(x);
                    }
                }
                e.nat(self.svc_stats.len() as u64);
                for (s, x) in &self.svc_stats {
                    e.fix(*s as u64, 4);
                    for y in [x.p.0, x.p.1, x.r.0, x.r.1, x.i, x.x, x.z, x.e, x.a.0, x.a.1] {
                        e.nat(y);
                    }
                }
            }
            14 => {
                for slot in &self.ready {
                    e.seq(slot.iter(), |e, (r, d)| {
                        r.enc(e);
                        e.nat(d.len() as u64);
                        for h in d {
                            e.raw(h);
                        }
                    });
                }
            }
            15 => {
                for s in &self.accumulated {
                    set(e, s);
                }
            }
            16 => {
                e.seq(self.last_out.iter(), |e, (s, h)| {
                    e.fix(*s as u64, 4).raw(h);
                });
            }
            _ => unreachable!(),
        }
        en.0
    }

    pub fn kv(&self) -> BTreeMap<Key, Vec<u8>> {
        let mut m = BTreeMap::new();
        for i in 1..=16 {
            m.insert(skey(i), self.simple(i));
        }
        for (s, a) in &self.accounts {
            account_kv(*s, a, &mut m);
        }
        m
    }
    pub fn root(&self) -> H {
        trie::root(&self.kv())
    }
}

pub fn account_kv(s: u32, a: &Account, m: &mut BTreeMap<Key, Vec<u8>>) {
    m.insert(akey(s), a.meta());
    for (k, v) in &a.storage {
        m.insert(storage_key(s, k), v.clone());
    }
    for (h, v) in &a.preimages {
        m.insert(preimage_key(s, h), v.clone());
    }
    for ((h, n), v) in &a.lookups {
        m.insert(lookup_key(s, h, *n), lookup_val(v));
    }
}

pub fn ed_of(k: &[u8]) -> H {
    k[32..64].try_into().unwrap()
}
pub fn bs_of(k: &[u8]) -> H {
    k[..32].try_into().unwrap()
}

/// Human-readable name of a state key for diagnostics.
pub fn key_name(k: &Key) -> String {
    if k[1..] == [0; 30] && k[0] <= 16 {
        let n = [
            "?",
            "pools",
            "queues",
            "history",
            "safrole",
            "disputes",
            "entropy",
            "iota",
            "kappa",
            "lambda",
            "reports",
            "tau",
            "privileges",
            "stats",
            "ready",
            "accumulated",
            "last_out",
        ];
        return n[k[0] as usize].into();
    }
    if k[0] == 255 && k[9..] == [0; 22] {
        return format!("account {}", u32::from_le_bytes([k[1], k[3], k[5], k[7]]));
    }
    format!(
        "entry {} {}",
        u32::from_le_bytes([k[0], k[2], k[4], k[6]]),
        hex::encode(k)
    )
}

pub fn diff_kv(want: &BTreeMap<Key, Vec<u8>>, got: &BTreeMap<Key, Vec<u8>>) -> Vec<String> {
    let mut out = vec![];
    let keys: BTreeSet<_> = want.keys().chain(got.keys()).collect();
    for k in keys {
        match (want.get(k), got.get(k)) {
            (Some(a), Some(b)) if a == b => {}
            (a, b) => {
                let f = |x: Option<&Vec<u8>>| match x {
                    None => "absent".to_string(),
                    Some(v) => {
                        let i = match (a, b) {
                            (Some(p), Some(q)) => {
                                p.iter().zip(q.iter()).take_while(|(x, y)| x == y).count()
                            }
                            _ => 0,
                        };
                        let s = i.saturating_sub(4);
                        format!(
                            "len {} ..@{}:{}",
                            v.len(),
                            s,
                            hex::encode(&v[s..v.len().min(s + 48)])
                        )
                    }
                };
                out.push(format!("{}: expected {} got {}", key_name(k), f(a), f(b)));
            }
        }
    }
    out
}
