//! Generators of protocol states and of (mostly valid, sometimes mutated) blocks on top of them.
use crate::eng::{expand, Src};
use crate::rj::crypto::Validator;
use crate::rj::state::*;
use crate::rj::stf::{self, *};
use crate::rj::types::*;
use crate::rj::{self, blake2b, C, E, H, N_TICKETS, R_ROT, SUPER, V, Y};
use crate::svc;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Mutex, OnceLock};

pub struct Pool {
    pub vals: Vec<Validator>,
    pub by_bs: HashMap<H, usize>,
    pub by_ed: HashMap<H, usize>,
    pub sets: Vec<[usize; V]>,
}
pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut vals: Vec<Validator> = (0..12).map(|i| Validator::from_seed(1000 + i)).collect();
        // the first six hold the keys a development node can author with
        for (v, d) in vals.iter_mut().zip(dev_keys()) {
            v.rekey(&d.0, &d.1);
        }
        let by_bs = vals.iter().enumerate().map(|(i, v)| (v.bs, i)).collect();
        let by_ed = vals.iter().enumerate().map(|(i, v)| (v.ed, i)).collect();
        let sets = vec![
            [0, 1, 2, 3, 4, 5],
            [6, 7, 8, 9, 10, 11],
            [5, 3, 1, 7, 9, 11],
            [2, 4, 6, 8, 10, 0],
            [11, 10, 3, 2, 1, 0],
        ];
        Pool {
            vals,
            by_bs,
            by_ed,
            sets,
        }
    })
}
pub const DEV: [&str; 6] = ["alice", "bob", "carol", "david", "eve", "fergie"];
/// (bandersnatch secret, ed25519 secret) of the development accounts.
fn dev_keys() -> Vec<(Vec<u8>, Vec<u8>)> {
    let t = std::fs::read_to_string("/repo/node/src/keystore/dev_accounts.json").expect("accounts");
    let j: serde_json::Value = serde_json::from_str(&t).unwrap();
    DEV.iter()
        .map(|n| {
            let g = |k: &str| hex::decode(&j[n][k].as_str().unwrap()[2..]).unwrap();
            (g("bandersnatch_private"), g("ed25519_private"))
        })
        .collect()
}
pub fn fixed(tag: &str, i: usize) -> H {
    blake2b(format!("{tag}{i}").as_bytes())
}
/// Cached VRF output (ticket id).
pub fn vrf_out(v: usize, ctx: &[u8]) -> H {
    static M: Mutex<BTreeMap<(usize, Vec<u8>), H>> = Mutex::new(BTreeMap::new());
    let k = (v, ctx.to_vec());
    if let Some(h) = M.lock().unwrap().get(&k) {
        return *h;
    }
    let h = pool().vals[v].vrf_output(ctx);
    let mut m = M.lock().unwrap();
    if m.len() > 20_000 {
        m.clear();
    }
    m.insert(k, h);
    h
}
pub fn ring_proof(ring: &[H], idx: usize, v: usize, ctx: &[u8]) -> Vec<u8> {
    type K = (Vec<H>, usize, Vec<u8>);
    static M: Mutex<BTreeMap<K, Vec<u8>>> = Mutex::new(BTreeMap::new());
    let k = (ring.to_vec(), idx, ctx.to_vec());
    if let Some(h) = M.lock().unwrap().get(&k) {
        return h.clone();
    }
    let p = pool().vals[v].ring_sign(ring, idx, ctx);
    let mut m = M.lock().unwrap();
    if m.len() > 20_000 {
        m.clear();
    }
    m.insert(k, p.clone());
    p
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mu {
    Disputes,
    Tickets,
    Assurances,
    Guarantees,
    Preimages,
    Header,
}

/// Probabilities are out of 10.
#[derive(Clone)]
pub struct Prof {
    pub nsvc: (usize, usize),
    pub scripts: bool,
    pub disp: u64,
    pub tick: u64,
    /// few different rings and ticket contexts, so that their (slow) proofs are reused
    pub few: bool,
    pub assu: u64,
    pub guar: u64,
    pub pre: u64,
    pub mutate: u64,
    pub muts: &'static [Mu],
    pub rho: u64,
    pub ready: u64,
    pub tick_fill: u64,
    pub epoch: u64,
    /// probability that a core with a report gets a supermajority of assurances
    pub avail: u64,
    pub weights: [u64; 6],
    pub digests: usize,
    pub anc: u64,
    pub always: u64,
    /// Many ready reports with more gas than a block has, so that several rounds are needed.
    pub rounds: bool,
    /// Accounts in which a request's record and the stored preimage need not go together.
    pub odd: bool,
}
impl Default for Prof {
    fn default() -> Self {
        Prof {
            nsvc: (1, 3),
            scripts: false,
            disp: 0,
            tick: 0,
            few: false,
            assu: 3,
            guar: 3,
            pre: 2,
            mutate: 2,
            muts: &[Mu::Header],
            rho: 4,
            ready: 2,
            tick_fill: 5,
            epoch: 2,
            avail: 5,
            weights: [4, 4, 4, 4, 2, 2],
            digests: 2,
            anc: 5,
            always: 2,
            rounds: false,
            odd: false,
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub st: State,
    pub parent: Header,
    pub anc: Option<BTreeSet<(u32, H)>>,
    pub blobs: Vec<Vec<u8>>,
    pub descs: Vec<String>,
    pub n_pkg: usize,
}

const SIDS: [u32; 8] = [
    0,
    1,
    100,
    65_535,
    65_536,
    70_000,
    3_000_000_000,
    u32::MAX - 300,
];
const NAUTH: usize = 6;
const NPKG: usize = 14;

pub fn auths() -> Vec<H> {
    (0..NAUTH).map(|i| fixed("auth", i)).collect()
}
pub fn data_blobs() -> Vec<Vec<u8>> {
    (0..8)
        .map(|i| expand(900 + i as u64, [0usize, 1, 5, 32, 33, 100, 300, 700][i]))
        .collect()
}

fn set_of(s: &mut Src, few: bool) -> Vec<ValKey> {
    let p = pool();
    let n = if few { 2 } else { p.sets.len() };
    p.sets[s.us(0, n - 1)]
        .iter()
        .map(|i| p.vals[*i].record())
        .collect()
}

fn gen_ctx(s: &mut Src, deps: &mut Vec<H>) -> Context {
    Context {
        anchor: s.hash(),
        state_root: s.hash(),
        beefy_root: s.hash(),
        lookup_anchor: s.hash(),
        lookup_slot: s.upto(100) as u32,
        prereqs: deps.drain(..).collect(),
    }
}

pub fn gen_digest(s: &mut Src, st: &BTreeMap<u32, Account>, gas_hi: u64, heavy: bool) -> Digest {
    let ids: Vec<u32> = st.keys().copied().collect();
    let id = *s.pick(&ids);
    let a = &st[&id];
    let acc_gas = a.min_acc_gas
        + match s.weighted(&[8, 3, if heavy { 16 } else { 1 }]) {
            0 => s.range(2000, 20_000),
            1 => s.upto(2000),
            _ => s.upto(gas_hi),
        };
    Digest {
        service: id,
        code_hash: a.code_hash,
        payload_hash: s.hash(),
        acc_gas: acc_gas.min(gas_hi),
        result: match s.weighted(&[3, 1]) {
            0 => {
                let n = s.us(0, 60);
                Outcome::Ok(s.blob(n))
            }
            _ => Outcome::Err(s.range(1, 6) as u8),
        },
        refine_gas: s.upto(1 << 20),
        imports: s.upto(300) as u16,
        xt_count: s.upto(128) as u16,
        xt_size: s.upto(100_000) as u32,
        exports: s.upto(300) as u16,
    }
}

pub fn gen_report(
    s: &mut Src,
    accts: &BTreeMap<u32, Account>,
    core: u16,
    pkg: H,
    maxd: usize,
    gas_hi: u64,
) -> Report {
    let heavy = gas_hi == rj::G_A / 2 || gas_hi == rj::G_A - 1;
    let exact = gas_hi == EXACT;
    let gas_hi = if exact { rj::G_A } else { gas_hi };
    let nd = s.us(1, if exact { 2 } else { maxd.max(1) });
    let mut no = vec![];
    let digests: Vec<Digest> = (0..nd)
        .map(|_| {
            let mut d = gen_digest(s, accts, gas_hi / nd as u64, heavy);
            if exact {
                d.acc_gas = gas_hi / nd as u64;
            } else if gas_hi == rj::G_A - 1 && s.coin() {
                d.acc_gas = s.range(gas_hi / 2, gas_hi) / nd as u64;
            }
            d
        })
        .collect();
    let tl = s.us(0, 40);
    Report {
        spec: Spec {
            package: pkg,
            len: s.upto(100_000) as u32,
            erasure_root: s.hash(),
            // packages without exports, or with the same ones, share their root
            exports_root: match s.weighted(&[6, 2, 2]) {
                0 => s.hash(),
                1 => [0; 32],
                _ => fixed("exports", s.us(0, 1)),
            },
            exports: s.upto(3072) as u16,
        },
        ctx: gen_ctx(s, &mut no),
        core,
        auth_hash: fixed("auth", s.us(0, NAUTH - 1)),
        auth_gas: s.upto(1 << 20),
        auth_trace: s.blob(tl),
        sr_lookup: BTreeMap::new(),
        digests,
    }
}

fn gen_val_stat(s: &mut Src) -> ValStat {
    let mut f = || s.upto(1000);
    ValStat {
        b: f(),
        t: f(),
        p: f(),
        d: f(),
        g: f(),
        a: f(),
    }
}

pub fn gen_accounts(
    s: &mut Src,
    p: &Prof,
    tau: u32,
    blobs: &mut Vec<Vec<u8>>,
    descs: &mut Vec<String>,
) -> BTreeMap<u32, Account> {
    let n = s.us(p.nsvc.0, p.nsvc.1);
    let mut ids: Vec<u32> = SIDS.to_vec();
    s.shuffle(&mut ids);
    ids.truncate(n);
    *blobs = data_blobs();
    let mut u = svc::Universe {
        services: ids.clone(),
        blobs: blobs.clone(),
        code_hashes: vec![],
        val_keys: pool().vals.iter().map(|v| v.record()).collect(),
        auths: auths(),
        weights: p.weights,
        gifts: p.rounds,
        tau,
        me: 0,
        ejectable: vec![],
        favs: Default::default(),
    };
    for id in &ids {
        let f = [s.us(0, blobs.len() - 1), s.us(0, blobs.len() - 1)];
        u.favs.insert(*id, f);
    }
    // shells that their owner may remove
    for id in ids.iter() {
        if ids.len() > 1 && s.chance(p.weights[3].min(8), 24) {
            let rest: Vec<u32> = ids
                .iter()
                .copied()
                .filter(|i| i != id && !u.ejectable.iter().any(|e| e.1 == *i))
                .collect();
            let owner = if rest.is_empty() { *id } else { *s.pick(&rest) };
            u.ejectable.push((owner, *id, blake2b(s.pick(blobs))));
        }
    }
    // a fixed trivial program so that scripts can refer to some code
    let trivial = {
        let mut a = svc::Asm::default();
        a.jump(5);
        a.halt();
        svc::service_code(b"t", &rj::pvm::standard(&[], &[], 0, 4096, &a.blob()))
    };
    u.code_hashes.push(blake2b(&trivial));
    u.blobs.push(trivial.clone());
    let mut codes = vec![trivial.clone()];
    if p.scripts {
        for i in 0..n {
            u.me = ids[i];
            let sc = svc::script(s, &u);
            let ml = s.us(0, 20);
            let meta = s.blob(ml);
            let c = svc::service_code(&meta, &sc.program);
            u.code_hashes.push(blake2b(&c));
            descs.push(sc.desc);
            codes.push(c);
        }
    }
    blobs.push(trivial);
    let mut out = BTreeMap::new();
    for (i, id) in ids.iter().enumerate() {
        let mut a = Account {
            min_acc_gas: s.upto(50),
            min_memo_gas: s.upto(50),
            gratis: if s.chance(1, 5) { s.upto(1000) } else { 0 },
            created: s.upto(tau as u64) as u32,
            last_acc: s.upto(tau as u64) as u32,
            parent: *s.pick(&ids),
            ..Default::default()
        };
        // code
        let code = if p.scripts && !s.chance(1, 8) {
            &codes[1 + i]
        } else {
            s.pick(&codes[..])
        };
        a.code_hash = blake2b(code);
        if s.chance(1, 12) {
            a.code_hash = match s.us(0, 2) {
                0 => s.hash(),
                1 => {
                    // code hash names a service: the ejectable form
                    let mut h = [0u8; 32];
                    h[..4].copy_from_slice(&s.pick(&ids).to_le_bytes());
                    h
                }
                _ => {
                    // a preimage which is not valid code
                    let b = blobs[s.us(0, 5)].clone();
                    let t = s.upto(tau as u64) as u32;
                    a.lookups.insert((blake2b(&b), b.len() as u32), vec![t]);
                    a.preimages.insert(blake2b(&b), b.clone());
                    blake2b(&b)
                }
            };
        } else {
            a.preimages.insert(a.code_hash, code.clone());
            a.lookups.insert(
                (a.code_hash, code.len() as u32),
                vec![s.upto(tau as u64) as u32],
            );
        }
        for _ in 0..s.us(0, 3) {
            let k = s.pick(&svc::KEYS).to_vec();
            let n = s.us(0, 90);
            let v = s.blob(n);
            a.storage.insert(k, v);
        }
        let near = |s: &mut Src| (tau + 4).saturating_sub(rj::D_EXP + s.upto(5) as u32);
        let shell = u.ejectable.iter().find(|e| e.1 == *id);
        if let Some((owner, _, h)) = shell {
            let b = blobs.iter().find(|b| blake2b(b) == *h).unwrap();
            let mut c = [0u8; 32];
            c[..4].copy_from_slice(&owner.to_le_bytes());
            a = Account {
                code_hash: c,
                min_acc_gas: a.min_acc_gas,
                min_memo_gas: a.min_memo_gas,
                gratis: a.gratis,
                created: a.created,
                last_acc: a.last_acc,
                parent: a.parent,
                ..Default::default()
            };
            let y = near(s);
            let ts = match s.weighted(&[8, 1, 1, 1]) {
                0 => vec![y.saturating_sub(s.upto(3) as u32), y],
                1 => vec![y],
                2 => vec![],
                _ => vec![y.saturating_sub(1), y, tau],
            };
            if !ts.is_empty() {
                a.preimages.insert(*h, b.clone());
            }
            a.lookups.insert((*h, b.len() as u32), ts);
            if s.chance(1, 8) {
                a.storage.insert(vec![1], vec![]);
            }
        }
        for _ in 0..if shell.is_some() { 0 } else { s.us(0, 5) } {
            let b = if s.chance(2, 3) {
                blobs[*s.pick(&u.favs[id])].clone()
            } else {
                s.pick(&blobs[..]).clone()
            };
            let h = blake2b(&b);
            if h == a.code_hash || a.preimages.contains_key(&h) {
                continue;
            }
            let t = |s: &mut Src| {
                if s.coin() {
                    near(s)
                } else {
                    tau.saturating_sub(s.upto(80) as u32)
                }
            };
            let mut ts = match s.weighted(&[4, 2, 2, 2]) {
                0 => vec![],
                1 => vec![t(s)],
                2 => vec![t(s), t(s)],
                _ => vec![t(s), t(s), t(s)],
            };
            ts.sort();
            if ts.is_empty() == (p.odd && s.chance(1, 6)) {
                a.preimages.insert(h, b.clone());
            }
            a.lookups.insert((h, b.len() as u32), ts);
        }
        let extra = match s.weighted(&[1, 4, 2]) {
            0 => s.upto(3),
            1 => s.upto(5000),
            _ => s.upto(1 << 40),
        };
        a.balance = a.threshold() + extra;
        out.insert(*id, a);
    }
    out
}

pub fn gen_world(s: &mut Src, p: &Prof) -> World {
    let epoch = match s.weighted(&[2, 6, 3, 1]) {
        0 => 0u32,
        1 => s.range(1, 6) as u32,
        2 => s.range(7, 1000) as u32,
        _ => s.range(1_000_000, 300_000_000) as u32,
    };
    let w = if p.few { [14, 1, 2] } else { [6, 3, 3] };
    let phase = match s.weighted(&w) {
        0 if p.few => s.upto(Y as u64 - 2) as u32,
        0 => s.upto(E as u64 - 1) as u32,
        1 => E - 1 - s.upto(2) as u32,
        _ => Y - 2 + s.upto(3) as u32,
    };
    let tau = epoch * E + phase;
    let neta = if p.few { 1 } else { 3 };
    let eta: [H; 4] = [
        s.hash(),
        fixed("eta", s.us(0, neta)),
        fixed("eta", s.us(0, neta)),
        fixed("eta", s.us(0, neta)),
    ];
    let kappa_r = set_of(s, false);
    let lambda = set_of(s, false);
    let iota = set_of(s, p.few);
    let pend_r = set_of(s, p.few);
    let mut offenders = BTreeSet::new();
    if s.chance(if p.few { 1 } else { 3 }, 10) {
        for _ in 0..s.us(1, 2) {
            offenders.insert(pool().vals[s.us(0, 11)].ed);
        }
    }
    let (kappa, pending) = match s.us(0, 2) {
        0 => (kappa_r, pend_r),
        1 => (kappa_r, phi(&pend_r, &offenders)),
        _ => (phi(&kappa_r, &offenders), phi(&pend_r, &offenders)),
    };
    let ring_root = ring_root_cached(&ring_of(&pending));
    // ticket accumulator
    let mut tickets: Vec<Ticket> = vec![];
    if p.tick_fill > 0 && s.chance(p.tick_fill, 10) {
        let n = match s.weighted(&[3, 4, 1]) {
            0 => s.us(0, E as usize),
            1 => E as usize,
            _ => E as usize - 1,
        };
        let mut ids: Vec<Ticket> = vec![];
        for k in pending.iter() {
            if let Some(v) = pool().by_bs.get(&bs_of(k)) {
                for a in 0..N_TICKETS {
                    ids.push((vrf_out(*v, &ctx_ticket(&eta[2], a)), a));
                }
            }
        }
        s.shuffle(&mut ids);
        let real = s.us(0, n);
        ids.truncate(real);
        // half the time low, so that most further tickets are too large to be kept
        let top = if s.coin() { 255 } else { 100 };
        ids.retain(|x| x.0[0] <= top);
        while ids.len() < n {
            let mut h = s.hash();
            h[0] = h[0].min(top);
            h[31] = ids.len() as u8;
            ids.push((h, s.upto(2) as u8));
        }
        ids.sort();
        ids.dedup_by_key(|t| t.0);
        tickets = ids;
    }
    // seal keys
    let sealers = if s.chance(4, 10) && kappa.iter().all(|k| pool().by_bs.contains_key(&bs_of(k))) {
        let mut ids: Vec<Ticket> = vec![];
        for k in kappa.iter() {
            let v = pool().by_bs[&bs_of(k)];
            for a in 0..N_TICKETS {
                ids.push((vrf_out(v, &ctx_ticket(&eta[3], a)), a));
            }
        }
        s.shuffle(&mut ids);
        ids.truncate(E as usize);
        Sealers::Tickets(ids)
    } else {
        Sealers::Keys(fallback_keys(&eta[2], &kappa))
    };
    let mut blobs = vec![];
    let mut descs = vec![];
    let accounts = gen_accounts(s, p, tau, &mut blobs, &mut descs);
    let ids: Vec<u32> = accounts.keys().copied().collect();
    // packages: split the fixed pool between history, accumulated, ready and future use
    let mut order: Vec<usize> = (0..NPKG).collect();
    s.shuffle(&mut order);
    let pk = |i: usize| fixed("pkg", i);
    let exact = p.ready >= 8 && !p.rounds && s.chance(1, 5);
    // reports on cores
    let mut rho: [Option<(Report, u32)>; C] = Default::default();
    let mut used = vec![];
    for c in 0..C {
        if s.chance(p.rho, 10) {
            let i = order.pop().unwrap();
            let hi = gas_hi(s, p, exact);
            let mut r = gen_report(s, &accounts, c as u16, pk(i), p.digests, hi);
            if s.chance(if p.rounds { 1 } else { p.ready }, 10) && !(c == 0 && s.coin()) {
                for _ in 0..s.us(1, 2) {
                    let d = if !used.is_empty() && s.coin() {
                        *s.pick(&used)
                    } else {
                        fixed("pkg", s.us(0, NPKG - 1))
                    };
                    if d != r.spec.package {
                        if s.coin() {
                            r.ctx.prereqs.insert(d);
                        } else {
                            r.sr_lookup.insert(d, s.hash());
                        }
                    }
                }
            }
            let t = tau.saturating_sub(s.upto(6) as u32);
            used.push(r.spec.package);
            rho[c] = Some((r, t));
        }
    }
    let mut accumulated: Vec<BTreeSet<H>> = vec![BTreeSet::new(); E as usize];
    let mut done = BTreeSet::new();
    for _ in 0..s.us(0, 3) {
        let i = order.pop().unwrap();
        done.insert(pk(i));
        // the oldest and the newest block's entries are the ones easily lost
        let any = s.us(0, E as usize - 1);
        let at = *s.pick(&[0, E as usize - 1, any, any]);
        accumulated[at].insert(pk(i));
    }
    let mut ready: Vec<Vec<(Report, BTreeSet<H>)>> = vec![vec![]; E as usize];
    let mut queued: Vec<H> = vec![];
    if s.chance(p.ready, 10) {
        for _ in 0..s.us(
            if p.rounds { 3 } else { 1 },
            if p.ready >= 8 { 6 } else { 4 },
        ) {
            let i = order.pop().unwrap();
            let core = s_core(s);
            let hi = gas_hi(s, p, exact);
            let mut r = gen_report(s, &accounts, core, pk(i), p.digests, hi);
            let mut deps = BTreeSet::new();
            for _ in 0..s.us(1, if p.rounds { 1 } else { 2 }) {
                let d = match s.weighted(&[
                    if p.rounds && !used.is_empty() { 0 } else { 2 },
                    if used.is_empty() { 0 } else { 2 },
                    if queued.is_empty() { 0 } else { 1 },
                ]) {
                    0 => fixed("pkg", s.us(0, NPKG - 1)),
                    1 => *s.pick(&used),
                    _ => *s.pick(&queued),
                };
                if d != pk(i) && !done.contains(&d) {
                    deps.insert(d);
                    r.ctx.prereqs.insert(d);
                }
            }
            if !deps.is_empty() {
                queued.push(pk(i));
                ready[s.us(0, E as usize - 1)].push((r, deps));
            }
        }
    }
    // history
    let parent = Header {
        parent: fixed("grandparent", 0),
        slot: tau,
        prior_root: s.hash(),
        author: s.upto(5) as u16,
        xt_hash: s.hash(),
        ..Default::default()
    };
    let nh = if tau == 0 { 0 } else { s.us(1, rj::H_HIST) };
    let mut hist: Vec<HistEntry> = vec![];
    for i in 0..nh {
        let mut reported = BTreeMap::new();
        if s.chance(2, 10) && !order.is_empty() {
            let j = order.pop().unwrap();
            reported.insert(pk(j), s.hash());
        }
        let last = i + 1 == nh;
        hist.push(HistEntry {
            header: if last { parent.hash() } else { s.hash() },
            beefy: s.hash(),
            state_root: if last { [0; 32] } else { s.hash() },
            reported,
        });
    }
    let mut anc = BTreeSet::new();
    for i in 0..s.us(1, 6) {
        anc.insert((tau.saturating_sub(i as u32 * 5), s.hash()));
    }
    anc.insert((tau, parent.hash()));
    let nb = s.us(0, 4);
    let belt = (0..nb)
        .map(|i| {
            if s.coin() || i + 1 == nb {
                Some(s.hash())
            } else {
                None
            }
        })
        .collect();
    let hs = |s: &mut Src| -> BTreeSet<H> { (0..s.us(0, 2)).map(|_| s.hash()).collect() };
    let (mut good, mut bad, mut wonky) = (hs(s), hs(s), hs(s));
    good.remove(&[0; 32]);
    bad.remove(&[0; 32]);
    wonky.remove(&[0; 32]);
    bad.retain(|h| !good.contains(h));
    wonky.retain(|h| !good.contains(h) && !bad.contains(h));
    let mut pools: [Vec<H>; C] = Default::default();
    let mut queues: [Vec<H>; C] = Default::default();
    for c in 0..C {
        let n = s.us(1, rj::O_POOL);
        pools[c] = (0..n).map(|_| fixed("auth", s.us(0, NAUTH - 1))).collect();
        let k = s.us(0, NAUTH - 1);
        queues[c] = (0..rj::Q_QUEUE)
            .map(|i| fixed("auth", (k + i + c) % NAUTH))
            .collect();
    }
    let mut privs = Privs {
        manager: *s.pick(&ids),
        delegator: *s.pick(&ids),
        registrar: *s.pick(&ids),
        ..Default::default()
    };
    for c in 0..C {
        privs.assigners[c] = *s.pick(&ids);
    }
    if !(exact && s.chance(2, 3)) && s.chance(p.always, 10) {
        for _ in 0..s.us(1, 2) {
            let id = *s.pick(&ids);
            let g = match s.weighted(&[10, 1, 1]) {
                0 => s.upto(20_000),
                1 => 15_000_000 + s.upto(10_000_000),
                _ => u64::MAX - s.upto(30_000_000) * s.upto(1),
            };
            privs.always.insert(id, g);
        }
    }
    let val_cur = (0..V).map(|_| gen_val_stat(s)).collect();
    let val_last = (0..V).map(|_| gen_val_stat(s)).collect();
    let core_stats = (0..C)
        .map(|_| CoreStat {
            d: s.upto(1000),
            p: s.upto(6),
            i: s.upto(1000),
            x: s.upto(1000),
            z: s.upto(1000),
            e: s.upto(1000),
            l: s.upto(1000),
            u: s.upto(1000),
        })
        .collect();
    let mut svc_stats = BTreeMap::new();
    for id in ids.iter() {
        if s.chance(1, 3) {
            svc_stats.insert(
                *id,
                SvcStat {
                    p: (1, s.upto(1000)),
                    r: (1, s.upto(1000)),
                    i: s.upto(1000),
                    x: 1,
                    z: 2,
                    e: 3,
                    a: (1, s.upto(1000)),
                },
            );
        }
    }
    let last_out = (0..s.us(0, 2)).map(|i| (SIDS[i], s.hash())).collect();
    let _ = used;
    let st = State {
        pools,
        queues,
        hist,
        belt,
        pending,
        ring_root,
        sealers,
        tickets,
        good,
        bad,
        wonky,
        offenders,
        eta,
        iota,
        kappa,
        lambda,
        rho,
        tau,
        privs,
        val_cur,
        val_last,
        core_stats,
        svc_stats,
        ready,
        accumulated,
        last_out,
        accounts,
    };
    World {
        st,
        parent,
        anc: if s.chance(p.anc, 10) { Some(anc) } else { None },
        blobs,
        descs,
        n_pkg: 0,
    }
}
/// Reports that take exactly all the gas a report may, so that they fill a block's budget exactly.
const EXACT: u64 = u64::MAX;

/// Gas of a report: when many are queued, enough for the block's budget to bind.
fn gas_hi(s: &mut Src, p: &Prof, exact: bool) -> u64 {
    if exact {
        EXACT
    } else if p.rounds {
        rj::G_A - 1
    } else if p.ready >= 8 && s.coin() {
        *s.pick(&[rj::G_A / 2, rj::G_A - 1])
    } else {
        rj::G_A / 4
    }
}
fn s_core(s: &mut Src) -> u16 {
    s.upto(C as u64 - 1) as u16
}

pub struct Gen {
    pub block: Block,
    pub mutation: Option<String>,
}

fn ed_index(k: &[u8]) -> Option<usize> {
    pool().by_ed.get(&ed_of(k)).copied()
}

fn flip(s: &mut Src, b: &mut [u8]) {
    let i = s.us(0, b.len() - 1);
    b[i] ^= 1 << s.upto(7);
}

fn gen_disputes(s: &mut Src, w: &World, x: &mut Xts) {
    let st = &w.st;
    let e = st.tau / E;
    let known: Vec<usize> = (0..12)
        .filter(|i| {
            let k = pool().vals[*i].ed;
            st.kappa
                .iter()
                .chain(st.lambda.iter())
                .any(|v| ed_of(v) == k)
                && !st.offenders.contains(&k)
        })
        .collect();
    let mut targets: Vec<H> = st.rho.iter().flatten().map(|r| r.0.hash()).collect();
    targets.push(s.hash());
    targets.push(s.hash());
    let mut bad: Vec<H> = st.bad.iter().copied().collect();
    let mut good: Vec<H> = st.good.iter().copied().collect();
    s.shuffle(&mut targets);
    let nv = s.us(0, 2).min(targets.len());
    let mut free = known.clone();
    s.shuffle(&mut free);
    let mut free2 = free.clone();
    for t in targets.into_iter().take(nv) {
        let prev = s.chance(3, 10) && e > 0;
        let set = if prev { &st.lambda } else { &st.kappa };
        let mut voters: Vec<usize> = (0..V).filter(|i| ed_index(&set[*i]).is_some()).collect();
        if voters.len() < SUPER {
            continue;
        }
        while voters.len() > SUPER {
            let i = s.us(0, voters.len() - 1);
            voters.remove(i);
        }
        let n = *s.pick(&[0usize, V / 3, SUPER]);
        let mut yes: Vec<bool> = (0..SUPER).map(|i| i < n).collect();
        s.shuffle(&mut yes);
        let votes = voters
            .iter()
            .zip(yes)
            .map(|(i, y)| {
                let c: &[u8] = if y { b"jam_valid" } else { b"jam_invalid" };
                (
                    y,
                    *i as u16,
                    pool().vals[ed_index(&set[*i]).unwrap()].sign(&[c, &t].concat()),
                )
            })
            .collect();
        if n == 0 {
            for _ in 0..s.us(2, 3) {
                if let Some(k) = free.pop() {
                    let v = &pool().vals[k];
                    x.culprits.push(CulpritXt {
                        target: t,
                        key: v.ed,
                        sig: v.sign(&[&b"jam_guarantee"[..], &t].concat()),
                    });
                }
            }
            bad.push(t);
        }
        if n == SUPER {
            good.push(t);
            if let Some(k) = free2.pop() {
                let v = &pool().vals[k];
                x.faults.push(FaultXt {
                    target: t,
                    vote: false,
                    key: v.ed,
                    sig: v.sign(&[&b"jam_invalid"[..], &t].concat()),
                });
            }
        }
        x.verdicts.push(Verdict {
            target: t,
            age: if prev { e - 1 } else { e },
            votes,
        });
    }
    // further offences against old or new verdicts
    if s.chance(3, 10) {
        if !bad.is_empty() && s.coin() {
            let t = *s.pick(&bad);
            if let Some(k) = free.pop() {
                let v = &pool().vals[k];
                x.culprits.push(CulpritXt {
                    target: t,
                    key: v.ed,
                    sig: v.sign(&[&b"jam_guarantee"[..], &t].concat()),
                });
            }
        }
        let (t, vote) = if !bad.is_empty() && s.coin() {
            (*s.pick(&bad), true)
        } else if !good.is_empty() {
            (*s.pick(&good), false)
        } else {
            ([0; 32], false)
        };
        if t != [0; 32] {
            if let Some(k) = free2.pop() {
                let v = &pool().vals[k];
                let c: &[u8] = if vote { b"jam_valid" } else { b"jam_invalid" };
                x.faults.push(FaultXt {
                    target: t,
                    vote,
                    key: v.ed,
                    sig: v.sign(&[c, &t].concat()),
                });
            }
        }
    }
    x.verdicts.sort_by_key(|v| v.target);
    x.culprits.sort_by_key(|v| v.key);
    x.faults.sort_by_key(|v| v.key);
}

fn mutate_disputes(s: &mut Src, w: &World, x: &mut Xts) -> String {
    let e = w.st.tau / E;
    let k = s.us(0, 17);
    let nv = x.verdicts.len();
    let nc = x.culprits.len();
    let nf = x.faults.len();
    match k {
        0 if nv > 0 => {
            let v = s.us(0, nv - 1);
            let j = s.us(0, x.verdicts[v].votes.len() - 1);
            flip(s, &mut x.verdicts[v].votes[j].2);
        }
        1 if nv > 1 => x.verdicts.swap(0, 1),
        2 if nv > 0 => {
            let v = x.verdicts[0].clone();
            x.verdicts.insert(0, v);
        }
        3 if nv > 0 => {
            let v = s.us(0, nv - 1);
            x.verdicts[v].age = *s.pick(&[
                e.wrapping_add(1),
                e.wrapping_sub(1),
                e.wrapping_sub(2),
                0,
                u32::MAX,
                e,
            ]);
        }
        4 if nv > 0 => {
            // a vote count which is not a verdict, properly signed
            let st = &w.st;
            let v = s.us(0, nv - 1);
            let n = *s.pick(&[1usize, 3, 4]);
            let t = x.verdicts[v].target;
            let set = if x.verdicts[v].age == e {
                &st.kappa
            } else {
                &st.lambda
            };
            for (j, vt) in x.verdicts[v].votes.iter_mut().enumerate() {
                vt.0 = j < n;
                let c: &[u8] = if vt.0 { b"jam_valid" } else { b"jam_invalid" };
                if let Some(i) = ed_index(&set[vt.1 as usize]) {
                    vt.2 = pool().vals[i].sign(&[c, &t].concat());
                }
            }
        }
        5 if nv > 0 => {
            let v = s.us(0, nv - 1);
            x.verdicts[v].votes.swap(0, 1);
        }
        6 if nv > 0 => {
            let v = s.us(0, nv - 1);
            let c = x.verdicts[v].votes[0].clone();
            x.verdicts[v].votes[1] = c;
        }
        7 if nv > 0 => {
            let v = s.us(0, nv - 1);
            let j = x.verdicts[v].votes.len() - 1;
            x.verdicts[v].votes[j].1 = *s.pick(&[6u16, 7, 65535]);
        }
        8 if nc > 0 => {
            x.culprits.remove(s.us(0, nc - 1));
        }
        9 if nf > 0 => {
            x.faults.remove(s.us(0, nf - 1));
        }
        10 if nc > 0 => {
            let c = s.us(0, nc - 1);
            flip(s, &mut x.culprits[c].sig);
        }
        11 if nf > 0 => {
            let c = s.us(0, nf - 1);
            if s.coin() {
                flip(s, &mut x.faults[c].sig);
            } else {
                x.faults[c].vote = !x.faults[c].vote;
            }
        }
        12 if nc > 1 => {
            if s.coin() {
                x.culprits.swap(0, 1);
            } else {
                let c = x.culprits[0].clone();
                x.culprits.insert(0, c);
            }
        }
        13 => {
            // an offence by an arbitrary known or unknown key against an arbitrary report
            let v = &pool().vals[s.us(0, 11)];
            let mut ts: Vec<H> =
                w.st.bad
                    .iter()
                    .chain(w.st.good.iter())
                    .chain(w.st.wonky.iter())
                    .copied()
                    .collect();
            ts.extend(x.verdicts.iter().map(|v| v.target));
            ts.push(s.hash());
            let t = *s.pick(&ts);
            if s.coin() {
                x.culprits.push(CulpritXt {
                    target: t,
                    key: v.ed,
                    sig: v.sign(&[&b"jam_guarantee"[..], &t].concat()),
                });
                x.culprits.sort_by_key(|v| v.key);
            } else {
                let vote = s.coin();
                let c: &[u8] = if vote { b"jam_valid" } else { b"jam_invalid" };
                x.faults.push(FaultXt {
                    target: t,
                    vote,
                    key: v.ed,
                    sig: v.sign(&[c, &t].concat()),
                });
                x.faults.sort_by_key(|v| v.key);
            }
        }
        16 | 17 => {
            // an offence that differs from an acceptable one in the judgment it answers at most
            let st = &w.st;
            let keys: Vec<usize> = (0..12)
                .filter(|i| {
                    let k = pool().vals[*i].ed;
                    st.kappa.iter().chain(&st.lambda).any(|v| ed_of(v) == k)
                        && !st.offenders.contains(&k)
                        && !x.culprits.iter().any(|c| c.key == k)
                        && !x.faults.iter().any(|c| c.key == k)
                })
                .collect();
            let now: Vec<H> = x.verdicts.iter().map(|v| v.target).collect();
            let old: Vec<H> = match s.us(0, 3) {
                0 if !st.wonky.is_empty() => st.wonky.iter().copied().collect(),
                1 if !st.good.is_empty() => st.good.iter().copied().collect(),
                2 if !st.bad.is_empty() => st.bad.iter().copied().collect(),
                _ => now,
            };
            if keys.is_empty() || old.is_empty() {
                return "none".into();
            }
            let t = *s.pick(&old);
            let v = &pool().vals[*s.pick(&keys)];
            if s.chance(1, 3) {
                x.culprits.push(CulpritXt {
                    target: t,
                    key: v.ed,
                    sig: v.sign(&[&b"jam_guarantee"[..], &t].concat()),
                });
                x.culprits.sort_by_key(|v| v.key);
            } else {
                let vote = s.coin();
                let c: &[u8] = if vote { b"jam_valid" } else { b"jam_invalid" };
                x.faults.push(FaultXt {
                    target: t,
                    vote,
                    key: v.ed,
                    sig: v.sign(&[c, &t].concat()),
                });
                x.faults.sort_by_key(|v| v.key);
            }
        }
        14 => {
            // re-judging a report
            let st = &w.st;
            let old: Vec<H> = st
                .good
                .iter()
                .chain(st.bad.iter())
                .chain(st.wonky.iter())
                .copied()
                .collect();
            if old.is_empty() {
                return "none".into();
            }
            let t = *s.pick(&old);
            let voters: Vec<usize> = (0..V)
                .filter(|i| ed_index(&st.kappa[*i]).is_some())
                .take(SUPER)
                .collect();
            if voters.len() < SUPER {
                return "none".into();
            }
            let votes = voters
                .iter()
                .enumerate()
                .map(|(j, i)| {
                    let y = j < V / 3;
                    let c: &[u8] = if y { b"jam_valid" } else { b"jam_invalid" };
                    (
                        y,
                        *i as u16,
                        pool().vals[ed_index(&st.kappa[*i]).unwrap()].sign(&[c, &t].concat()),
                    )
                })
                .collect();
            x.verdicts.push(Verdict {
                target: t,
                age: e,
                votes,
            });
            x.verdicts.sort_by_key(|v| v.target);
        }
        15 if nc > 0 => {
            // the same key as culprit and as fault
            let t = x.culprits[0].target;
            let key = x.culprits[0].key;
            if let Some(i) = pool().by_ed.get(&key) {
                let v = &pool().vals[*i];
                x.faults.push(FaultXt {
                    target: t,
                    vote: true,
                    key,
                    sig: v.sign(&[&b"jam_valid"[..], &t].concat()),
                });
                x.faults.sort_by_key(|v| v.key);
            }
        }
        _ => return "none".into(),
    }
    format!("disputes{k}")
}

/// Valid tickets on top of the (post-rotation) Safrole state.
fn gen_tickets(s: &mut Src, p1: &State, slot: u32, x: &mut Xts) {
    if slot % E >= Y {
        return;
    }
    good_tickets(s, p1, x)
}

fn good_tickets(s: &mut Src, p1: &State, x: &mut Xts) {
    let ring = ring_of(&p1.pending);
    let mut cand: Vec<(H, u8, usize, usize)> = vec![];
    for (i, k) in ring.iter().enumerate() {
        if let Some(v) = pool().by_bs.get(k) {
            for a in 0..N_TICKETS {
                cand.push((vrf_out(*v, &ctx_ticket(&p1.eta[2], a)), a, i, *v));
            }
        }
    }
    cand.retain(|c| !p1.tickets.iter().any(|t| t.0 == c.0));
    s.shuffle(&mut cand);
    let n = s.us(1, rj::K_TICKETS);
    cand.truncate(n);
    // keep only those that will be retained
    let mut all: Vec<H> = p1
        .tickets
        .iter()
        .map(|t| t.0)
        .chain(cand.iter().map(|c| c.0))
        .collect();
    all.sort();
    all.truncate(E as usize);
    cand.retain(|c| all.contains(&c.0));
    cand.sort_by_key(|c| c.0);
    for (_, a, i, v) in cand {
        x.tickets.push(TicketXt {
            attempt: a,
            proof: ring_proof(&ring, i, v, &ctx_ticket(&p1.eta[2], a)),
        });
    }
}

fn mutate_tickets(s: &mut Src, p1: &State, slot: u32, x: &mut Xts) -> String {
    let ring = ring_of(&p1.pending);
    if !ring.iter().any(|k| pool().by_bs.contains_key(k)) {
        return "no ring member left".into();
    }
    if slot % E >= Y && s.chance(3, 4) {
        // nothing wrong with them but the time
        good_tickets(s, p1, x);
        return "tickets-late".into();
    }
    let n = x.tickets.len();
    let k = s.weighted(&[3, 3, 3, 3, 7, 4, 3, 4, 1]);
    let any = |s: &mut Src, a: u8, eta: &H, ring: &[H]| {
        let opts: Vec<(usize, usize)> = ring
            .iter()
            .enumerate()
            .filter_map(|(i, k)| pool().by_bs.get(k).map(|v| (i, *v)))
            .collect();
        let (i, v) = *s.pick(&opts);
        (
            vrf_out(v, &ctx_ticket(eta, a)),
            TicketXt {
                attempt: a,
                proof: ring_proof(ring, i, v, &ctx_ticket(eta, a)),
            },
        )
    };
    match k {
        0 if n > 0 => {
            let i = s.us(0, n - 1);
            flip(s, &mut x.tickets[i].proof);
        }
        1 if n > 1 => x.tickets.swap(0, 1),
        2 if n > 0 => {
            let t = x.tickets[0].clone();
            x.tickets.insert(0, t);
        }
        3 if n > 0 => {
            let i = s.us(0, n - 1);
            x.tickets[i].attempt = *s.pick(&[0u8, 1, 2, 3, 255]);
        }
        4 => {
            // a ticket which may be known already, useless, or out of period
            let last = p1.tickets.last().map(|t| t.0);
            let full = p1.tickets.len() == E as usize;
            let mut cand = vec![];
            let (mut kn, mut us) = (vec![], vec![]);
            for (i, key) in ring.iter().enumerate() {
                for a in 0..N_TICKETS {
                    if let Some(v) = pool().by_bs.get(key) {
                        let id = vrf_out(*v, &ctx_ticket(&p1.eta[2], a));
                        let known = p1.tickets.iter().any(|t| t.0 == id);
                        let useless = full && Some(id) > last;
                        if known {
                            kn.push((i, *v, a));
                        } else if useless {
                            us.push((i, *v, a));
                        }
                        cand.push((i, *v, a));
                    }
                }
            }
            let r = s.us(0, 5);
            if r < 3 && !us.is_empty() {
                cand = us;
            } else if r < 5 && !kn.is_empty() {
                cand = kn;
            }
            x.tickets.truncate(s.us(0, 2));
            {
                let (i, v, a) = *s.pick(&cand);
                x.tickets.push(TicketXt {
                    attempt: a,
                    proof: ring_proof(&ring, i, v, &ctx_ticket(&p1.eta[2], a)),
                });
            }
            if s.coin() {
                x.tickets.reverse();
                x.tickets.truncate(s.us(1, 2));
            }
            let mut seen = std::collections::BTreeSet::new();
            x.tickets.retain(|t| seen.insert(t.proof[..32].to_vec()));
            x.tickets
                .sort_by_key(|t| rj::crypto::ring_sig_output(&t.proof).unwrap_or([0; 32]));
        }
        5 => {
            // the wrong randomness or the wrong ring
            let a = s.upto(2) as u8;
            let t = if s.coin() {
                any(s, a, &p1.eta[3], &ring).1
            } else {
                any(s, a, &p1.eta[2], &ring_of(&p1.kappa)).1
            };
            x.tickets = vec![t];
        }
        6 => {
            // too many
            let mut v: Vec<(H, TicketXt)> = vec![];
            for _ in 0..12 {
                let a = s.upto(2) as u8;
                let t = any(s, a, &p1.eta[2], &ring);
                if !v.iter().any(|x| x.0 == t.0) && !p1.tickets.iter().any(|x| x.0 == t.0) {
                    v.push(t);
                }
            }
            v.truncate(rj::K_TICKETS + 1);
            v.sort_by_key(|x| x.0);
            x.tickets = v.into_iter().map(|x| x.1).collect();
        }
        7 => {
            let a = *s.pick(&[3u8, 4, 200]);
            x.tickets = vec![any(s, a, &p1.eta[2], &ring).1];
        }
        _ => return "none".into(),
    }
    format!("tickets{k}")
}

fn sign_assurance(a: &mut AssuranceXt, v: &Validator) {
    let mut b = 0u8;
    for (i, c) in a.cores.iter().enumerate() {
        b |= (*c as u8) << i;
    }
    let m = blake2b(&[&a.anchor[..], &[b]].concat());
    a.sig = v.sign(&[&b"jam_available"[..], &m].concat());
}

fn gen_assurances(s: &mut Src, kappa: &[ValKey], p1: &State, parent: &H, avail: u64, x: &mut Xts) {
    let full: Vec<bool> = (0..C).map(|_| s.chance(avail, 10)).collect();
    for i in 0..V {
        let Some(k) = ed_index(&kappa[i]) else {
            continue;
        };
        if s.chance(1, 6) {
            continue;
        }
        let mut cores = [false; C];
        for c in 0..C {
            if p1.rho[c].is_some() {
                cores[c] = if full[c] { !s.chance(1, 20) } else { s.coin() };
            }
        }
        let mut a = AssuranceXt {
            anchor: *parent,
            cores,
            validator: i as u16,
            sig: [0; 64],
        };
        sign_assurance(&mut a, &pool().vals[k]);
        x.assurances.push(a);
    }
}

fn mutate_assurances(s: &mut Src, kappa: &[ValKey], p1: &State, x: &mut Xts) -> String {
    let n = x.assurances.len();
    if n == 0 {
        return "none".into();
    }
    let k = s.us(0, 6);
    let i = s.us(0, n - 1);
    match k {
        0 => flip(s, &mut x.assurances[i].sig),
        1 if n > 1 => {
            let j = s.us(0, n - 2);
            x.assurances.swap(j, j + 1);
        }
        2 => {
            let a = x.assurances[i].clone();
            x.assurances.insert(i, a);
        }
        3 => {
            // wrong anchor, properly signed
            x.assurances[i].anchor = match s.us(0, 1) {
                0 => s.hash(),
                _ => p1.hist.first().map(|h| h.header).unwrap_or([0; 32]),
            };
            // (what is signed names the parent, not the anchor)
            if let Some(v) = ed_index(&kappa[x.assurances[i].validator as usize]) {
                if s.coin() {
                    sign_assurance(&mut x.assurances[i], &pool().vals[v]);
                }
            }
        }
        4 => {
            // the last assurer out of range, signed by a real validator
            let l = n - 1;
            x.assurances[l].validator = *s.pick(&[6u16, 7, 1000, 65535]);
        }
        5 => {
            // toggled core bit, properly signed
            let c = s.us(0, C - 1);
            x.assurances[i].cores[c] = !x.assurances[i].cores[c];
            if let Some(v) = ed_index(&kappa[x.assurances[i].validator as usize]) {
                sign_assurance(&mut x.assurances[i], &pool().vals[v]);
            }
        }
        6 => {
            // signed by somebody else
            let v = s.us(0, 11);
            sign_assurance(&mut x.assurances[i], &pool().vals[v]);
        }
        _ => return "none".into(),
    }
    format!("assurances{k}")
}

/// The (assignment, keys) a guarantee with slot t is checked against, per the model.
fn guarantors(st: &State, t: u32) -> Option<(Vec<u16>, Vec<ValKey>)> {
    let tau = st.tau;
    Some(if tau / R_ROT == t / R_ROT {
        (assignment(&st.eta[2], tau), phi(&st.kappa, &st.offenders))
    } else {
        let pt = tau.checked_sub(R_ROT)?;
        if pt / E == tau / E {
            (assignment(&st.eta[2], pt), phi(&st.kappa, &st.offenders))
        } else {
            (assignment(&st.eta[3], pt), phi(&st.lambda, &st.offenders))
        }
    })
}

/// `cur` is the state after assurances; `s0` the prior state.
fn gen_guarantees(
    s: &mut Src,
    p: &Prof,
    w: &World,
    cur: &State,
    x: &mut Xts,
    mutate: bool,
) -> Option<String> {
    let st = &w.st;
    let tau = cur.tau;
    let mut note = None;
    let mut seen: BTreeSet<H> = st.accumulated.iter().flatten().copied().collect();
    for h in &cur.hist {
        seen.extend(h.reported.keys());
    }
    for q in &st.ready {
        seen.extend(q.iter().map(|r| r.0.spec.package));
    }
    seen.extend(st.rho.iter().flatten().map(|r| r.0.spec.package));
    let mut fresh: Vec<H> = (0..NPKG + 20)
        .map(|i| fixed("pkg", i))
        .filter(|h| !seen.contains(h))
        .collect();
    let mut cores: Vec<usize> = (0..C).filter(|c| cur.rho[*c].is_none()).collect();
    if mutate && s.chance(1, 10) {
        cores = (0..C).collect();
    }
    if cur.hist.is_empty() || st.accounts.is_empty() {
        return None;
    }
    let mut planned: Vec<(usize, H)> = vec![];
    for c in cores {
        if s.chance(7, 10) {
            let i = s.us(0, fresh.len().min(8) - 1);
            planned.push((c, fresh.remove(i)));
        }
    }
    let mut exports: BTreeMap<H, H> = BTreeMap::new();
    for h in &cur.hist {
        exports.extend(h.reported.iter());
    }
    let mut xr: Vec<(Report, usize)> = vec![];
    for (c, pkg) in planned.iter() {
        let mut r = gen_report(s, &st.accounts, *c as u16, *pkg, p.digests, rj::G_A);
        if st.pools[*c].is_empty() {
            continue;
        }
        r.auth_hash = *s.pick(&st.pools[*c]);
        let h = s.pick(&cur.hist).clone();
        r.ctx.anchor = h.header;
        r.ctx.state_root = h.state_root;
        r.ctx.beefy_root = h.beefy;
        match &w.anc {
            Some(a) => {
                let ok: Vec<_> = a
                    .iter()
                    .filter(|x| x.0 as u64 + rj::L_ANCHOR as u64 >= tau as u64)
                    .collect();
                if ok.is_empty() {
                    continue;
                }
                let q = **s.pick(&ok);
                r.ctx.lookup_slot = q.0;
                r.ctx.lookup_anchor = q.1;
            }
            None => r.ctx.lookup_slot = tau.saturating_sub(s.upto(rj::L_ANCHOR as u64) as u32),
        }
        xr.push((r, *c));
        exports.insert(*pkg, xr.last().unwrap().0.spec.exports_root);
    }
    // dependencies
    let ex: Vec<(H, H)> = exports.iter().map(|(a, b)| (*a, *b)).collect();
    for (r, _) in xr.iter_mut() {
        if !ex.is_empty() && s.chance(4, 10) {
            for _ in 0..s.us(1, 3) {
                let (a, b) = *s.pick(&ex);
                if a == r.spec.package {
                    continue;
                }
                if s.coin() {
                    r.ctx.prereqs.insert(a);
                } else {
                    r.sr_lookup.insert(a, b);
                }
            }
        }
    }
    let mi = if mutate && !xr.is_empty() {
        Some(s.us(0, xr.len() - 1))
    } else {
        None
    };
    let nx = xr.len();
    let mut out: Vec<GuaranteeXt> = vec![];
    for (gi, (mut r, c)) in xr.into_iter().enumerate() {
        // the guarantee's slot
        let low = R_ROT as u64 * ((tau / R_ROT) as u64).saturating_sub(1);
        let slot = s.range(0, (tau as u64 - low).min(7)) as u32;
        let slot = tau - slot;
        let Some((asg, keys)) = guarantors(cur, slot) else {
            continue;
        };
        let mut mk = None;
        if mi == Some(gi) {
            // banned guarantors of this core
            let banned = (0..V).any(|j| {
                asg[j] == c as u16
                    && keys[j].iter().all(|b| *b == 0)
                    && (cur.kappa[j] != keys[j] || cur.lambda[j] != keys[j])
            });
            let k = if banned && s.coin() { 24 } else { s.us(0, 33) };
            mk = Some(k);
            note = Some(format!("guarantees{k}"));
            let nd = r.digests.len();
            match k {
                0 => r.core = *s.pick(&[1 - r.core.min(1), 2, 3, 1000]),
                1 => r.ctx.anchor = s.hash(),
                2 => r.ctx.state_root = if s.coin() { s.hash() } else { [0; 32] },
                3 => r.ctx.beefy_root = s.hash(),
                4 => {
                    r.ctx.lookup_slot = tau
                        .saturating_sub(rj::L_ANCHOR)
                        .saturating_sub(s.upto(2) as u32);
                    // a known ancestor, only too old, if there is one
                    let old: Vec<(u32, H)> = w.anc.iter().flatten().copied().collect();
                    let old: Vec<(u32, H)> = old
                        .into_iter()
                        .filter(|x| x.0 + rj::L_ANCHOR <= tau)
                        .collect();
                    if !old.is_empty() && s.chance(3, 4) {
                        (r.ctx.lookup_slot, r.ctx.lookup_anchor) = *s.pick(&old);
                    }
                }
                5 => r.ctx.lookup_anchor = s.hash(),
                6 => {
                    r.ctx.prereqs.insert(fixed("pkg", s.us(0, NPKG - 1)));
                }
                7 => {
                    let d = fixed("pkg", s.us(0, NPKG - 1));
                    let v = if s.coin() {
                        s.hash()
                    } else {
                        exports.get(&d).copied().unwrap_or([1; 32])
                    };
                    r.sr_lookup.insert(d, v);
                }
                8 => r.auth_hash = fixed("auth", s.us(0, NAUTH + 1)),
                9 => {
                    let d = &mut r.digests[s.us(0, nd - 1)];
                    let m = st.accounts[&d.service].min_acc_gas;
                    d.acc_gas = m.saturating_sub(s.upto(1));
                }
                10 => {
                    let g: u64 = r.digests.iter().map(|d| d.acc_gas).sum();
                    r.digests[0].acc_gas += rj::G_A - g.min(rj::G_A) + s.upto(1);
                }
                11 => r.digests[s.us(0, nd - 1)].service = s.upto(200_000) as u32,
                12 => r.digests[s.us(0, nd - 1)].code_hash = s.hash(),
                13 => {
                    let mut all: Vec<H> = seen.iter().copied().collect();
                    all.push(planned[0].1);
                    r.spec.package = *s.pick(&all);
                }
                14 => {
                    // around the total output limit
                    let rest: usize = r.auth_trace.len()
                        + r.digests[1..]
                            .iter()
                            .map(|d| {
                                if let Outcome::Ok(b) = &d.result {
                                    b.len()
                                } else {
                                    0
                                }
                            })
                            .sum::<usize>();
                    let d = s.upto(2) as usize;
                    r.digests[0].result = Outcome::Ok(vec![7; rj::W_R - rest - 1 + d]);
                }
                15 => {
                    // around the dependency limit, with dependencies that are all known
                    r.ctx.prereqs.clear();
                    r.sr_lookup.clear();
                    let want = 8 + s.us(0, 1);
                    let k = s.us(0, want);
                    for (a, b) in ex.iter().filter(|e| e.0 != r.spec.package) {
                        if r.ctx.prereqs.len() < k {
                            r.ctx.prereqs.insert(*a);
                        }
                        if r.sr_lookup.len() < want - k {
                            r.sr_lookup.insert(*a, *b);
                        }
                    }
                }
                16 => r.digests.clear(),
                17 => {
                    let d = r.digests[0].clone();
                    let n = *s.pick(&[16usize, 17]);
                    let mut d = d;
                    d.acc_gas = st.accounts[&d.service].min_acc_gas + 10;
                    r.digests = vec![d; n];
                }
                18 => r.ctx.lookup_slot = tau + s.upto(3) as u32,
                // many digests, one of them (mostly late) at fault, or none
                29 | 30 => {
                    let n = s.us(2, 16);
                    let mut d = r.digests[0].clone();
                    let m = st.accounts[&d.service].min_acc_gas;
                    d.acc_gas = m + s.upto(100);
                    if let Outcome::Ok(b) = &mut d.result {
                        b.truncate(100);
                    }
                    r.digests = vec![d; n];
                    let i = if s.coin() { n - 1 } else { s.us(0, n - 1) };
                    let d = &mut r.digests[i];
                    match s.us(0, 4) {
                        0 => d.code_hash = s.hash(),
                        1 => d.service = s.upto(200_000) as u32,
                        2 => d.acc_gas = m.saturating_sub(1),
                        3 => d.acc_gas = rj::G_A,
                        _ => {}
                    }
                }
                // a known package as prerequisite and with a segment root, right or wrong
                33 if !ex.is_empty() => {
                    let (a, b) = *s.pick(&ex);
                    if a != r.spec.package {
                        if s.coin() {
                            r.ctx.prereqs.insert(a);
                        }
                        let v = match s.us(0, 2) {
                            0 => b,
                            1 => s.hash(),
                            _ => s.pick(&ex).1,
                        };
                        r.sr_lookup.insert(a, v);
                    }
                }
                // a package that is known from exactly one place
                31 => {
                    let all: Vec<H> = st.accumulated.iter().flatten().copied().collect();
                    if !all.is_empty() {
                        r.spec.package = *s.pick(&all);
                    }
                }
                32 => {
                    let all: Vec<H> = st
                        .ready
                        .iter()
                        .flatten()
                        .map(|x| x.0.spec.package)
                        .collect();
                    if !all.is_empty() {
                        r.spec.package = *s.pick(&all);
                    }
                }
                _ => {}
            }
        }
        let mut who: Vec<usize> = (0..V)
            .filter(|i| asg[*i] as usize == c && ed_index(&keys[*i]).is_some())
            .collect();
        if who.len() < 2 {
            continue;
        }
        if who.len() > 2 && s.coin() {
            let i = s.us(0, who.len() - 1);
            who.remove(i);
        }
        let mut slot = slot;
        match mk {
            Some(19) => slot = tau + 1,
            Some(20) => slot = tau.saturating_sub(R_ROT + tau % R_ROT + s.upto(1) as u32),
            // signed under the other rotation
            Some(21) => {
                slot = if slot / R_ROT == tau / R_ROT {
                    tau.saturating_sub(R_ROT)
                } else {
                    tau
                }
            }
            Some(22) => who.truncate(1),
            Some(23) => {
                // an unassigned validator signs as well
                let j = s.us(0, V - 1);
                if !who.contains(&j) {
                    if who.len() == 3 {
                        who.pop();
                    }
                    who.push(j);
                    who.sort();
                }
            }
            _ => {}
        }
        let msg = [&b"jam_guarantee"[..], &r.hash()].concat();
        let raw = {
            // keys before the offender filter, so that banned validators can sign
            let a = phi(&cur.kappa, &BTreeSet::new());
            let b = phi(&cur.lambda, &BTreeSet::new());
            if phi(&cur.kappa, &cur.offenders) == keys {
                a
            } else {
                b
            }
        };
        if mk == Some(24) {
            if let Some(j) = (0..V).find(|j| asg[*j] as usize == c && keys[*j] != raw[*j]) {
                if !who.contains(&j) {
                    who.truncate(2);
                    who.push(j);
                    who.sort();
                }
            }
        }
        let mut sigs: Vec<(u16, Sig)> = who
            .iter()
            .map(|i| {
                (
                    *i as u16,
                    ed_index(&raw[*i])
                        .map(|v| pool().vals[v].sign(&msg))
                        .unwrap_or([0; 64]),
                )
            })
            .collect();
        match mk {
            Some(25) => {
                let i = s.us(0, sigs.len() - 1);
                flip(s, &mut sigs[i].1);
            }
            Some(26) => sigs.swap(0, 1),
            Some(27) => {
                let c = sigs[0].clone();
                sigs.insert(0, c);
            }
            Some(28) => {
                let l = sigs.len() - 1;
                sigs[l].0 = *s.pick(&[6u16, 7, 65535]);
            }
            _ => {}
        }
        out.push(GuaranteeXt {
            report: r,
            slot,
            sigs,
        });
    }
    let _ = nx;
    if mutate && out.len() > 1 && s.chance(1, 12) {
        out.swap(0, 1);
        note = Some("guarantees-order".into());
    }
    x.guarantees = out;
    note
}

fn gen_preimages(s: &mut Src, w: &World, x: &mut Xts) {
    let mut c: Vec<(u32, Vec<u8>)> = vec![];
    for (id, a) in &w.st.accounts {
        for ((h, z), l) in &a.lookups {
            if l.is_empty() && !a.preimages.contains_key(h) {
                if let Some(b) = w
                    .blobs
                    .iter()
                    .find(|b| blake2b(b) == *h && b.len() as u32 == *z)
                {
                    c.push((*id, b.clone()));
                }
            }
        }
    }
    c.sort();
    for (id, b) in c {
        if s.chance(7, 10) {
            x.preimages.push(PreimageXt {
                service: id,
                data: b,
            });
        }
    }
}
fn mutate_preimages(s: &mut Src, w: &World, x: &mut Xts) -> String {
    let n = x.preimages.len();
    let k = s.us(0, 7);
    let ids: Vec<u32> = w.st.accounts.keys().copied().collect();
    let sort = |x: &mut Xts| {
        x.preimages
            .sort_by(|a, b| (a.service, &a.data).cmp(&(b.service, &b.data)))
    };
    match k {
        0 if n > 0 => {
            let p = x.preimages[s.us(0, n - 1)].clone();
            x.preimages.push(p);
            sort(x);
        }
        1 if n > 1 => {
            let i = s.us(0, n - 2);
            x.preimages.swap(i, i + 1);
        }
        2 if n > 0 => {
            let i = s.us(0, n - 1);
            x.preimages[i].service = if s.coin() {
                s.upto(200_000) as u32
            } else {
                *s.pick(&ids)
            };
            sort(x);
        }
        3 => {
            let b = s.pick(&w.blobs).clone();
            x.preimages.push(PreimageXt {
                service: *s.pick(&ids),
                data: b,
            });
            sort(x);
        }
        4 if n > 0 => {
            let i = s.us(0, n - 1);
            x.preimages[i].data.push(0);
            sort(x);
        }
        5 => {
            let n = s.us(0, 60);
            let b = s.blob(n);
            x.preimages.push(PreimageXt {
                service: *s.pick(&ids),
                data: b,
            });
            sort(x);
        }
        6 | 7 => {
            // something that some account has a record of, in whatever state
            let mut c: Vec<(u32, Vec<u8>)> = vec![];
            for (id, a) in &w.st.accounts {
                for b in &w.blobs {
                    let h = blake2b(b);
                    if a.lookups.contains_key(&(h, b.len() as u32)) || a.preimages.contains_key(&h)
                    {
                        c.push((*id, b.clone()));
                    }
                }
            }
            if c.is_empty() {
                return "none".into();
            }
            let (service, data) = s.pick(&c).clone();
            if !x
                .preimages
                .iter()
                .any(|p| p.service == service && p.data == data)
            {
                x.preimages.push(PreimageXt { service, data });
            }
            sort(x);
        }
        _ => return "none".into(),
    }
    format!("preimages{k}")
}

/// Finds (author index, pool index) able to seal slot on this Safrole state.
pub fn sealer(p1: &State, slot: u32) -> Option<(u16, usize, Vec<u8>)> {
    let i = (slot % E) as usize;
    match &p1.sealers {
        Sealers::Keys(k) => {
            let a = p1.kappa.iter().position(|v| bs_of(v) == k[i])?;
            let v = *pool().by_bs.get(&k[i])?;
            Some((a as u16, v, ctx_fallback(&p1.eta[3])))
        }
        Sealers::Tickets(t) => {
            let ctx = ctx_ticket(&p1.eta[3], t[i].1);
            for (a, k) in p1.kappa.iter().enumerate() {
                if let Some(v) = pool().by_bs.get(&bs_of(k)) {
                    if vrf_out(*v, &ctx) == t[i].0 {
                        return Some((a as u16, *v, ctx));
                    }
                }
            }
            None
        }
    }
}

pub fn seal(h: &mut Header, v: &Validator, ctx: &[u8]) {
    let out = v.vrf_output(ctx);
    h.vrf = v.vrf_sign(&ctx_entropy(&out), &[]);
    h.seal = v.vrf_sign(ctx, &h.encode_unsigned());
}

/// Builds a block on top of `w`. None: no known key can author any nearby slot.
pub fn gen_block(s: &mut Src, p: &Prof, w: &World, root: &H) -> Option<Gen> {
    let st = &w.st;
    let mutate = s.chance(p.mutate, 10);
    let mu = if mutate && !p.muts.is_empty() {
        Some(*s.pick(p.muts))
    } else {
        None
    };
    let to_next = E - st.tau % E;
    let gap = if s.chance(p.epoch, 10) {
        to_next
            + match s.weighted(&[6, 2, 1, 1]) {
                0 => s.upto(3) as u32,
                1 => s.upto(E as u64 - 1) as u32,
                2 => E + s.upto(4) as u32,
                _ => E * 3 + s.upto(12) as u32,
            }
    } else {
        match s.weighted(&[6, 3, 2]) {
            0 => 1,
            1 => s.range(1, 4) as u32,
            _ => s.range(1, to_next.max(2) as u64) as u32,
        }
    };
    let mut slot = st.tau + gap;
    let mut x = Xts::default();
    let mut note: Vec<String> = vec![];
    if s.chance(p.disp, 10) {
        gen_disputes(s, w, &mut x);
    }
    // Safrole state for the slot, without the (possibly invalid) rest
    let mut p1 = None;
    for _ in 0..E {
        let q = phase1(st, slot, root, &x)
            .or_else(|_| phase1(st, slot, root, &Xts::default()))
            .ok()?;
        if let Some(a) = sealer(&q.st, slot) {
            p1 = Some((q, a));
            break;
        }
        slot += 1;
    }
    let (q, (author, v, ctx)) = p1?;
    if mu == Some(Mu::Disputes) {
        note.push(mutate_disputes(s, w, &mut x));
    }
    if p.tick > 0 && s.chance(p.tick, 10) {
        gen_tickets(s, &q.st, slot, &mut x);
    }
    if mu == Some(Mu::Tickets) {
        note.push(mutate_tickets(s, &q.st, slot, &mut x));
    }
    if s.chance(p.assu, 10) {
        gen_assurances(s, &st.kappa, &q.st, &w.parent.hash(), p.avail, &mut x);
    }
    let mut cur = q.st.clone();
    let _ = stf::assurances(&st.kappa, &mut cur, &w.parent.hash(), &x);
    if mu == Some(Mu::Assurances) {
        note.push(mutate_assurances(s, &st.kappa, &q.st, &mut x));
    }
    let mg = mu == Some(Mu::Guarantees);
    if mg || s.chance(p.guar, 10) {
        if let Some(n) = gen_guarantees(s, p, w, &cur, &mut x, mg) {
            note.push(n);
        }
    }
    if s.chance(p.pre, 10) {
        gen_preimages(s, w, &mut x);
    }
    if mu == Some(Mu::Preimages) {
        note.push(mutate_preimages(s, w, &mut x));
    }
    let p1r = phase1(st, slot, root, &x);
    // a block whose disputes are at fault should have no other fault than that
    let offenders = if p1r.is_err() && mu == Some(Mu::Disputes) && s.chance(4, 5) {
        let c = x.culprits.iter().map(|c| c.key);
        Some(c.chain(x.faults.iter().map(|f| f.key)).collect())
    } else {
        None
    };
    let marks = p1r.unwrap_or(q);
    let mut h = Header {
        parent: w.parent.hash(),
        prior_root: *root,
        xt_hash: x.hash(),
        slot,
        epoch_mark: marks.epoch_mark.clone(),
        tickets_mark: marks.tickets_mark.clone(),
        author,
        vrf: vec![0; 96],
        offenders: offenders.unwrap_or(marks.offenders_mark.clone()),
        seal: vec![0; 96],
    };
    let val = &pool().vals[v];
    if mu == Some(Mu::Header) {
        let k = s.us(0, 17);
        note.push(format!("header{k}"));
        let mut post: Option<usize> = None;
        let mut ctx2 = ctx.clone();
        let mut val2 = val;
        match k {
            0 => h.slot = st.tau.saturating_sub(s.upto(1) as u32),
            1 => flip(s, &mut h.prior_root),
            2 => {
                if s.coin() {
                    h.parent = [0; 32];
                    if s.coin() {
                        h.slot = s.upto(st.tau as u64) as u32;
                    }
                } else {
                    flip(s, &mut h.parent);
                }
            }
            3 => flip(s, &mut h.xt_hash),
            4 => h.author = (h.author + 1 + s.upto(4) as u16) % V as u16,
            5 => h.author = *s.pick(&[6u16, 7, 65535]),
            6 => {
                h.epoch_mark = match h.epoch_mark.take() {
                    Some(mut m) => match s.us(0, 4) {
                        0 => None,
                        1 => {
                            flip(s, &mut m.entropy);
                            Some(m)
                        }
                        2 => {
                            flip(s, &mut m.tickets_entropy);
                            Some(m)
                        }
                        3 => {
                            let i = s.us(0, V - 1);
                            flip(s, &mut m.keys[i].1);
                            Some(m)
                        }
                        _ => {
                            m.keys.swap(0, 1);
                            Some(m)
                        }
                    },
                    None => Some(EpochMark {
                        entropy: st.eta[0],
                        tickets_entropy: st.eta[1],
                        keys: marks
                            .st
                            .pending
                            .iter()
                            .map(|k| (bs_of(k), ed_of(k)))
                            .collect(),
                    }),
                };
            }
            7 => {
                h.tickets_mark = match h.tickets_mark.take() {
                    Some(mut m) => match s.us(0, 2) {
                        0 => None,
                        1 => {
                            m.swap(0, 1);
                            Some(m)
                        }
                        _ => {
                            let i = s.us(0, m.len() - 1);
                            flip(s, &mut m[i].0);
                            Some(m)
                        }
                    },
                    None if marks.st.tickets.len() == E as usize => {
                        Some(outside_in(&marks.st.tickets))
                    }
                    None => Some((0..E as u8).map(|i| ([i; 32], 0)).collect()),
                };
            }
            8 => {
                let n = h.offenders.len();
                match s.us(0, 2) {
                    0 if n > 0 => {
                        h.offenders.pop();
                    }
                    1 if n > 1 => h.offenders.swap(0, 1),
                    _ => h.offenders.push(pool().vals[s.us(0, 11)].ed),
                }
            }
            9 => post = Some(0),
            10 => post = Some(1),
            11 => {
                // properly signed, but by another validator of the set
                let o = (author as usize + 1 + s.us(0, 4)) % V;
                if let Some(i) = pool().by_bs.get(&bs_of(&marks.st.kappa[o])) {
                    val2 = &pool().vals[*i];
                    if s.coin() {
                        h.author = o as u16;
                    }
                }
            }
            12 => {
                // sealed under the wrong randomness
                let e = *s.pick(&[0usize, 1, 2]);
                ctx2 = match &marks.st.sealers {
                    Sealers::Keys(_) => ctx_fallback(&marks.st.eta[e]),
                    Sealers::Tickets(t) => ctx_ticket(&marks.st.eta[e], t[(slot % E) as usize].1),
                };
            }
            13 => {
                // wrong kind of seal, or the wrong attempt
                ctx2 = match &marks.st.sealers {
                    Sealers::Keys(_) => ctx_ticket(&marks.st.eta[3], 0),
                    Sealers::Tickets(t) => {
                        if s.coin() {
                            ctx_fallback(&marks.st.eta[3])
                        } else {
                            ctx_ticket(&marks.st.eta[3], (t[(slot % E) as usize].1 + 1) % 3)
                        }
                    }
                };
            }
            14 => post = Some(2),
            15 => post = Some(3),
            16 => h.prior_root = st.hist.last().map(|h| h.state_root).unwrap_or([9; 32]),
            _ => {
                // a slot whose sealing key is somebody else's
                h.slot = slot + 1;
            }
        }
        seal(&mut h, val2, &ctx2);
        match post {
            Some(0) => flip(s, &mut h.seal),
            Some(1) => flip(s, &mut h.vrf),
            // any field changed after sealing
            Some(2) => match s.us(0, 3) {
                0 => h.slot += E,
                1 => flip(s, &mut h.xt_hash),
                2 => h.offenders.push([3; 32]),
                _ => h.author ^= 1,
            },
            // a valid VRF over something else
            Some(_) => {
                h.vrf = val.vrf_sign(&ctx_entropy(&marks.st.eta[0]), &[]);
                h.seal = val.vrf_sign(&ctx, &h.encode_unsigned());
            }
            None => {}
        }
    } else {
        seal(&mut h, val, &ctx);
    }
    let note: Vec<String> = note.into_iter().filter(|n| n != "none").collect();
    Some(Gen {
        block: Block { header: h, xts: x },
        mutation: if note.is_empty() {
            None
        } else {
            Some(note.join("+"))
        },
    })
}
