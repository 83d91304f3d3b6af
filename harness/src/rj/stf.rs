//! Reference block-level state transition (GP 0.7.2), excluding the PVM-driven accumulation
//! itself, which lives in `acc`.
use super::codec::enc;
use super::state::*;
use super::types::*;
use super::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Opts<'a> {
    pub parent_hash: H,
    pub parent_slot: u32,
    pub parent_root: H,
    /// Some: the ancestor set the lookup anchors are checked against.
    pub ancestors: Option<&'a BTreeSet<(u32, H)>>,
}

pub struct Out {
    pub state: State,
    pub reported: BTreeMap<H, H>,
    pub accumulated: usize,
    /// Reports were accumulated after the first round; with transfers to the same service.
    pub late: bool,
    pub mixed: bool,
    pub rounds: usize,
    /// A preimage no longer wanted after accumulation; an accumulated service that is gone.
    pub dropped: bool,
    pub gone: bool,
}

macro_rules! req {
    ($c:expr, $($m:tt)*) => {
        if !($c) { return Err(format!($($m)*)); }
    };
}

pub fn shuffle<T: Clone>(mut s: Vec<T>, h: &H) -> Vec<T> {
    let mut out = vec![];
    let l = s.len();
    for i in 0..l {
        let q = blake2b(&[&h[..], &((i / 8) as u32).to_le_bytes()].concat());
        let o = (4 * i) % 32;
        let r = u32::from_le_bytes(q[o..o + 4].try_into().unwrap()) as usize;
        let n = s.len();
        let idx = r % n;
        out.push(s[idx].clone());
        s[idx] = s[n - 1].clone();
        s.pop();
    }
    out
}

pub fn assignment(e: &H, t: u32) -> Vec<u16> {
    let base: Vec<u16> = (0..V).map(|i| (C * i / V) as u16).collect();
    let rot = (t % super::E) / R_ROT;
    shuffle(base, e)
        .into_iter()
        .map(|x| ((x as u32 + rot) % C as u32) as u16)
        .collect()
}

pub fn fallback_keys(r: &H, k: &[ValKey]) -> Vec<H> {
    (0..super::E)
        .map(|i| {
            let h = blake2b(&[&r[..], &i.to_le_bytes()].concat());
            let x = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
            bs_of(&k[x % k.len()])
        })
        .collect()
}

pub fn outside_in(t: &[Ticket]) -> Vec<Ticket> {
    let mut out = vec![];
    let n = t.len();
    for i in 0..n / 2 {
        out.push(t[i]);
        out.push(t[n - 1 - i]);
    }
    if n % 2 == 1 {
        out.push(t[n / 2]);
    }
    out
}

/// Blacklist filter.
pub fn phi(k: &[ValKey], off: &BTreeSet<H>) -> Vec<ValKey> {
    k.iter()
        .map(|k| {
            if off.contains(&ed_of(k)) {
                vec![0u8; 336]
            } else {
                k.clone()
            }
        })
        .collect()
}

pub fn ring_of(k: &[ValKey]) -> Vec<H> {
    k.iter().map(|k| bs_of(k)).collect()
}

pub fn ring_root_cached(ring: &[H]) -> Vec<u8> {
    use std::sync::Mutex;
    static CACHE: Mutex<BTreeMap<Vec<H>, Vec<u8>>> = Mutex::new(BTreeMap::new());
    if let Some(r) = CACHE.lock().unwrap().get(ring) {
        return r.clone();
    }
    let r = crypto::ring_root(ring);
    CACHE.lock().unwrap().insert(ring.to_vec(), r.clone());
    r
}

pub fn ctx_ticket(eta: &H, attempt: u8) -> Vec<u8> {
    [&b"jam_ticket_seal"[..], &eta[..], &[attempt]].concat()
}
pub fn ctx_fallback(eta: &H) -> Vec<u8> {
    [&b"jam_fallback_seal"[..], &eta[..]].concat()
}
pub fn ctx_entropy(seal_out: &H) -> Vec<u8> {
    [&b"jam_entropy"[..], &seal_out[..]].concat()
}

// ---------------------------------------------------------------- merkle

fn wb_node(v: &[Vec<u8>]) -> Vec<u8> {
    match v.len() {
        0 => vec![0; 32],
        1 => v[0].clone(),
        n => {
            let m = n.div_ceil(2);
            keccak(&[&b"node"[..], &wb_node(&v[..m]), &wb_node(&v[m..])].concat()).to_vec()
        }
    }
}
/// Well-balanced binary Merkle tree, Keccak.
pub fn wb_root_keccak(v: &[Vec<u8>]) -> H {
    if v.len() == 1 {
        return keccak(&v[0]);
    }
    wb_node(v).try_into().unwrap()
}
pub fn mmr_append(mut r: Vec<Option<H>>, l: H) -> Vec<Option<H>> {
    let mut x = l;
    let mut n = 0;
    loop {
        if n >= r.len() {
            r.push(Some(x));
            return r;
        }
        match r[n] {
            None => {
                r[n] = Some(x);
                return r;
            }
            Some(p) => {
                r[n] = None;
                x = keccak(&[&p[..], &x[..]].concat());
                n += 1;
            }
        }
    }
}
pub fn mmr_super_peak(b: &[Option<H>]) -> H {
    let h: Vec<H> = b.iter().flatten().copied().collect();
    fn rec(h: &[H]) -> H {
        match h.len() {
            0 => [0; 32],
            1 => h[0],
            n => keccak(&[&b"peak"[..], &rec(&h[..n - 1]), &h[n - 1]].concat()),
        }
    }
    rec(&h)
}

// ---------------------------------------------------------------- pieces

pub struct Phase1 {
    pub st: State,
    pub epoch_mark: Option<EpochMark>,
    pub tickets_mark: Option<Vec<Ticket>>,
    pub offenders_mark: Vec<H>,
}

/// Disputes (GP 10): returns the new judgment sets and the reports cleared.
pub fn disputes(s: &State, x: &Xts, st: &mut State) -> Result<Vec<H>, String> {
    let e = s.tau / super::E;
    let strictly = |v: Vec<&H>| v.windows(2).all(|w| w[0] < w[1]);
    req!(
        strictly(x.verdicts.iter().map(|v| &v.target).collect()),
        "verdicts not sorted"
    );
    req!(
        strictly(x.culprits.iter().map(|v| &v.key).collect()),
        "culprits not sorted"
    );
    req!(
        strictly(x.faults.iter().map(|v| &v.key).collect()),
        "faults not sorted"
    );
    let mut keys: BTreeSet<H> = s
        .kappa
        .iter()
        .chain(s.lambda.iter())
        .map(|k| ed_of(k))
        .collect();
    keys.retain(|k| !s.offenders.contains(k));
    let mut sums = vec![];
    for v in &x.verdicts {
        let set = if v.age == e {
            &s.kappa
        } else if e > 0 && v.age == e - 1 {
            &s.lambda
        } else {
            return Err("verdict age".into());
        };
        req!(
            v.votes.windows(2).all(|w| w[0].1 < w[1].1),
            "judgments not sorted"
        );
        for (vote, i, sig) in &v.votes {
            let k = set.get(*i as usize).ok_or("judgment index")?;
            let c: &[u8] = if *vote { b"jam_valid" } else { b"jam_invalid" };
            req!(
                crypto::ed_verify(&ed_of(k), &[c, &v.target].concat(), sig),
                "judgment signature"
            );
        }
        req!(
            !s.good.contains(&v.target)
                && !s.bad.contains(&v.target)
                && !s.wonky.contains(&v.target),
            "already judged"
        );
        let n = v.votes.iter().filter(|v| v.0).count();
        req!(n == 0 || n == V / 3 || n == SUPER, "verdict split");
        sums.push((v.target, n));
    }
    for (t, n) in &sums {
        match *n {
            0 => {
                st.bad.insert(*t);
                req!(
                    x.culprits.iter().filter(|c| c.target == *t).count() >= 2,
                    "not enough culprits"
                );
            }
            SUPER => {
                st.good.insert(*t);
                req!(x.faults.iter().any(|c| c.target == *t), "not enough faults");
            }
            _ => {
                st.wonky.insert(*t);
            }
        }
    }
    for c in &x.culprits {
        req!(st.bad.contains(&c.target), "culprit target not bad");
        req!(keys.contains(&c.key), "culprit key");
        req!(
            crypto::ed_verify(&c.key, &[&b"jam_guarantee"[..], &c.target].concat(), &c.sig),
            "culprit signature"
        );
    }
    for f in &x.faults {
        let bad = st.bad.contains(&f.target);
        let good = st.good.contains(&f.target);
        req!(bad == f.vote && good == !f.vote, "fault target");
        req!(keys.contains(&f.key), "fault key");
        let c: &[u8] = if f.vote { b"jam_valid" } else { b"jam_invalid" };
        req!(
            crypto::ed_verify(&f.key, &[c, &f.target].concat(), &f.sig),
            "fault signature"
        );
    }
    for r in st.rho.iter_mut() {
        if let Some((rep, _)) = r {
            let h = rep.hash();
            if sums.iter().any(|(t, n)| *t == h && *n < SUPER) {
                *r = None;
            }
        }
    }
    let mark: Vec<H> = x
        .culprits
        .iter()
        .map(|c| c.key)
        .chain(x.faults.iter().map(|f| f.key))
        .collect();
    st.offenders.extend(mark.iter().copied());
    Ok(mark)
}

/// Header-independent parts up to Safrole: everything needed to author or check the header.
pub fn phase1(s: &State, slot: u32, parent_root: &H, x: &Xts) -> Result<Phase1, String> {
    let mut st = s.clone();
    let (e, e2) = (s.tau / super::E, slot / super::E);
    let (m, m2) = (s.tau % super::E, slot % super::E);
    let rot = e2 > e;
    st.tau = slot;
    let offenders_mark = disputes(s, x, &mut st)?;
    if let Some(h) = st.hist.last_mut() {
        h.state_root = *parent_root;
    }
    if rot {
        st.eta = [s.eta[0], s.eta[0], s.eta[1], s.eta[2]];
        st.pending = phi(&s.iota, &st.offenders);
        st.kappa = s.pending.clone();
        st.lambda = s.kappa.clone();
        st.ring_root = ring_root_cached(&ring_of(&st.pending));
        st.sealers = if e2 == e + 1 && m >= Y && s.tickets.len() == super::E as usize {
            Sealers::Tickets(outside_in(&s.tickets))
        } else {
            Sealers::Keys(fallback_keys(&st.eta[2], &st.kappa))
        };
        st.tickets = vec![];
    }
    // tickets
    if m2 < Y {
        req!(x.tickets.len() <= K_TICKETS, "too many tickets");
    } else {
        req!(x.tickets.is_empty(), "tickets after submission period");
    }
    let mut ids: Vec<Ticket> = vec![];
    for t in &x.tickets {
        req!(t.attempt < N_TICKETS, "ticket attempt");
        let id = crypto::ring_verify(&st.ring_root, &ctx_ticket(&st.eta[2], t.attempt), &t.proof)
            .ok_or("ticket proof")?;
        ids.push((id, t.attempt));
    }
    req!(
        ids.windows(2).all(|w| w[0].0 < w[1].0),
        "tickets not sorted"
    );
    let have: BTreeSet<H> = st.tickets.iter().map(|t| t.0).collect();
    req!(ids.iter().all(|t| !have.contains(&t.0)), "duplicate ticket");
    let mut all = st.tickets.clone();
    all.extend(ids.iter().copied());
    all.sort();
    all.truncate(super::E as usize);
    req!(ids.iter().all(|t| all.contains(t)), "useless ticket");
    st.tickets = all;
    let epoch_mark = rot.then(|| EpochMark {
        entropy: s.eta[0],
        tickets_entropy: s.eta[1],
        keys: st.pending.iter().map(|k| (bs_of(k), ed_of(k))).collect(),
    });
    let tickets_mark = (!rot && m < Y && Y <= m2 && st.tickets.len() == super::E as usize)
        .then(|| outside_in(&st.tickets));
    Ok(Phase1 {
        st,
        epoch_mark,
        tickets_mark,
        offenders_mark,
    })
}

pub fn check_header(h: &Header, p: &Phase1) -> Result<H, String> {
    let st = &p.st;
    let author = st.kappa.get(h.author as usize).ok_or("author index")?;
    let key = bs_of(author);
    let aux = h.encode_unsigned();
    let i = (h.slot % super::E) as usize;
    let seal_out = match &st.sealers {
        Sealers::Tickets(t) => {
            let (id, a) = t[i];
            let o = crypto::vrf_verify(&key, &ctx_ticket(&st.eta[3], a), &aux, &h.seal)
                .ok_or("ticket seal")?;
            req!(o == id, "seal does not match ticket");
            o
        }
        Sealers::Keys(k) => {
            req!(k[i] == key, "fallback key");
            crypto::vrf_verify(&key, &ctx_fallback(&st.eta[3]), &aux, &h.seal)
                .ok_or("fallback seal")?
        }
    };
    let y = crypto::vrf_verify(&key, &ctx_entropy(&seal_out), &[], &h.vrf).ok_or("entropy vrf")?;
    req!(h.epoch_mark == p.epoch_mark, "epoch mark");
    req!(h.tickets_mark == p.tickets_mark, "tickets mark");
    req!(h.offenders == p.offenders_mark, "offenders mark");
    Ok(y)
}

/// Assurances: checks and returns the available reports, updating rho.
/// `kappa` is the active set before the block: assurances are anchored on the parent.
pub fn assurances(
    kappa: &[ValKey],
    st: &mut State,
    parent: &H,
    x: &Xts,
) -> Result<Vec<Report>, String> {
    req!(
        x.assurances
            .windows(2)
            .all(|w| w[0].validator < w[1].validator),
        "assurances not sorted"
    );
    for a in &x.assurances {
        req!(a.anchor == *parent, "assurance anchor");
        let k = kappa
            .get(a.validator as usize)
            .ok_or("assurance validator")?;
        let mut b = 0u8;
        for (i, c) in a.cores.iter().enumerate() {
            b |= (*c as u8) << i;
            req!(!*c || st.rho[i].is_some(), "assurance for empty core");
        }
        let m = blake2b(&[&a.anchor[..], &[b]].concat());
        req!(
            crypto::ed_verify(&ed_of(k), &[&b"jam_available"[..], &m].concat(), &a.sig),
            "assurance signature"
        );
    }
    let mut avail = vec![];
    for c in 0..C {
        let Some((r, t)) = st.rho[c].clone() else {
            continue;
        };
        let n = x.assurances.iter().filter(|a| a.cores[c]).count();
        if n * 3 > V * 2 {
            avail.push(r);
            st.rho[c] = None;
        } else if st.tau >= t + U_TIMEOUT {
            st.rho[c] = None;
        }
    }
    Ok(avail)
}

/// Guarantees: checks and returns the reporters' Ed25519 keys, updating rho.
pub fn guarantees(
    s: &State,
    st: &mut State,
    x: &Xts,
    anc: Option<&BTreeSet<(u32, H)>>,
) -> Result<BTreeSet<H>, String> {
    let g = &x.guarantees;
    req!(
        g.windows(2).all(|w| w[0].report.core < w[1].report.core),
        "guarantees not sorted"
    );
    let pkgs: BTreeSet<H> = g.iter().map(|g| g.report.spec.package).collect();
    req!(pkgs.len() == g.len(), "duplicate package");
    let mut seen: BTreeSet<H> = BTreeSet::new();
    for h in &st.hist {
        seen.extend(h.reported.keys());
    }
    let hist_pk = seen.clone();
    for a in &s.accumulated {
        seen.extend(a);
    }
    for q in &s.ready {
        seen.extend(q.iter().map(|r| r.0.spec.package));
    }
    seen.extend(s.rho.iter().flatten().map(|r| r.0.spec.package));
    let mut known: BTreeMap<H, H> = g
        .iter()
        .map(|g| (g.report.spec.package, g.report.spec.exports_root))
        .collect();
    for h in &st.hist {
        known.extend(h.reported.iter());
    }
    let mut reporters = BTreeSet::new();
    let tau = st.tau;
    for gx in g {
        let r = &gx.report;
        let c = r.core as usize;
        req!(c < C, "core index");
        // work-report internal limits
        req!((1..=16).contains(&r.digests.len()), "digest count");
        let out: usize = r.auth_trace.len()
            + r.digests
                .iter()
                .map(|d| {
                    if let Outcome::Ok(b) = &d.result {
                        b.len()
                    } else {
                        0
                    }
                })
                .sum::<usize>();
        req!(out <= W_R, "report output size");
        req!(
            r.sr_lookup.len() + r.ctx.prereqs.len() <= J_DEPS,
            "too many dependencies"
        );
        let gas: u128 = r.digests.iter().map(|d| d.acc_gas as u128).sum();
        req!(gas <= G_A as u128, "report gas");
        for d in &r.digests {
            let a = s.accounts.get(&d.service).ok_or("digest service")?;
            req!(d.acc_gas >= a.min_acc_gas, "digest gas too low");
            req!(d.code_hash == a.code_hash, "digest code hash");
        }
        req!(st.rho[c].is_none(), "core engaged");
        req!(s.pools[c].contains(&r.auth_hash), "authorizer not in pool");
        let a = st
            .hist
            .iter()
            .find(|h| h.header == r.ctx.anchor)
            .ok_or("anchor not recent")?;
        req!(a.state_root == r.ctx.state_root, "anchor state root");
        req!(a.beefy == r.ctx.beefy_root, "anchor beefy root");
        req!(
            r.ctx.lookup_slot as u64 + L_ANCHOR as u64 >= tau as u64,
            "lookup anchor too old"
        );
        if let Some(anc) = anc {
            req!(
                anc.contains(&(r.ctx.lookup_slot, r.ctx.lookup_anchor)),
                "lookup anchor not an ancestor"
            );
        }
        req!(!seen.contains(&r.spec.package), "package already reported");
        for p in r.ctx.prereqs.iter() {
            req!(
                pkgs.contains(p) || hist_pk.contains(p),
                "prerequisite unknown"
            );
        }
        for (k, v) in &r.sr_lookup {
            req!(known.get(k) == Some(v), "segment root lookup");
        }
        // credentials
        req!(gx.sigs.len() == 2 || gx.sigs.len() == 3, "credential count");
        req!(
            gx.sigs.windows(2).all(|w| w[0].0 < w[1].0),
            "credentials not sorted"
        );
        req!(gx.slot <= tau, "guarantee in the future");
        req!(
            gx.slot as i64 >= R_ROT as i64 * ((tau / R_ROT) as i64 - 1),
            "guarantee too old"
        );
        let (asg, keys) = if tau / R_ROT == gx.slot / R_ROT {
            (assignment(&st.eta[2], tau), phi(&st.kappa, &st.offenders))
        } else {
            let pt = tau - R_ROT;
            if pt / super::E == tau / super::E {
                (assignment(&st.eta[2], pt), phi(&st.kappa, &st.offenders))
            } else {
                (assignment(&st.eta[3], pt), phi(&st.lambda, &st.offenders))
            }
        };
        let msg = [&b"jam_guarantee"[..], &r.hash()].concat();
        for (i, sig) in &gx.sigs {
            let k = keys.get(*i as usize).ok_or("guarantor index")?;
            req!(asg[*i as usize] == r.core, "guarantor not assigned");
            let ed = ed_of(k);
            req!(ed != [0; 32], "guarantor banned");
            req!(crypto::ed_verify(&ed, &msg, sig), "guarantee signature");
            reporters.insert(ed);
        }
    }
    for gx in g {
        st.rho[gx.report.core as usize] = Some((gx.report.clone(), tau));
    }
    Ok(reporters)
}

type Queue = Vec<(Report, BTreeSet<H>)>;
fn edit(q: &Queue, x: &BTreeSet<H>) -> Queue {
    q.iter()
        .filter(|(r, _)| !x.contains(&r.spec.package))
        .map(|(r, d)| (r.clone(), d.difference(x).copied().collect()))
        .collect()
}
fn prio(mut q: Queue) -> Vec<Report> {
    let mut out: Vec<Report> = vec![];
    loop {
        let g: Vec<Report> = q
            .iter()
            .filter(|(_, d)| d.is_empty())
            .map(|(r, _)| r.clone())
            .collect();
        if g.is_empty() {
            return out;
        }
        let p: BTreeSet<H> = g.iter().map(|r| r.spec.package).collect();
        q = edit(&q, &p);
        out.extend(g);
    }
}

/// (accumulatable reports R*, newly queued R^Q)
pub fn accumulatable(s: &State, slot: u32, avail: &[Report]) -> (Vec<Report>, Queue) {
    let done: BTreeSet<H> = s.accumulated.iter().flatten().copied().collect();
    let (now, later): (Vec<_>, Vec<_>) = avail
        .iter()
        .cloned()
        .partition(|r| r.ctx.prereqs.is_empty() && r.sr_lookup.is_empty());
    let rq: Queue = later
        .into_iter()
        .map(|r| {
            let d: BTreeSet<H> = r
                .ctx
                .prereqs
                .iter()
                .copied()
                .chain(r.sr_lookup.keys().copied())
                .collect();
            (r, d)
        })
        .collect();
    let rq = edit(&rq, &done);
    let m = (slot % super::E) as usize;
    let mut q: Queue = s.ready[m..]
        .iter()
        .chain(s.ready[..m].iter())
        .flatten()
        .cloned()
        .collect();
    q.extend(rq.iter().cloned());
    let q = edit(&q, &now.iter().map(|r| r.spec.package).collect());
    let mut star = now;
    star.extend(prio(q));
    (star, rq)
}

pub fn statistics(
    s: &State,
    st: &mut State,
    b: &Block,
    avail: &[Report],
    reporters: &BTreeSet<H>,
    acc: &BTreeMap<u32, (u64, u64)>,
) {
    let rot = st.tau / super::E > s.tau / super::E;
    if rot {
        st.val_last = s.val_cur.clone();
        st.val_cur = vec![ValStat::default(); V];
    }
    let x = &b.xts;
    let a = &mut st.val_cur[b.header.author as usize];
    a.b += 1;
    a.t += x.tickets.len() as u64;
    a.p += x.preimages.len() as u64;
    a.d += x.preimages.iter().map(|p| p.data.len() as u64).sum::<u64>();
    for v in 0..V {
        if reporters.contains(&ed_of(&st.kappa[v])) {
            st.val_cur[v].g += 1;
        }
        if x.assurances.iter().any(|a| a.validator as usize == v) {
            st.val_cur[v].a += 1;
        }
    }
    let mut cs = vec![CoreStat::default(); C];
    let mut ss: BTreeMap<u32, SvcStat> = BTreeMap::new();
    for g in &x.guarantees {
        let r = &g.report;
        let c = &mut cs[r.core as usize];
        c.l += r.spec.len as u64;
        for d in &r.digests {
            c.i += d.imports as u64;
            c.x += d.xt_count as u64;
            c.z += d.xt_size as u64;
            c.e += d.exports as u64;
            c.u += d.refine_gas;
            let q = ss.entry(d.service).or_default();
            q.i += d.imports as u64;
            q.x += d.xt_count as u64;
            q.z += d.xt_size as u64;
            q.e += d.exports as u64;
            q.r.0 += 1;
            q.r.1 += d.refine_gas;
        }
    }
    for r in avail {
        cs[r.core as usize].d +=
            r.spec.len as u64 + 4104 * ((r.spec.exports as u64 * 65).div_ceil(64));
    }
    for a in &x.assurances {
        for c in 0..C {
            cs[c].p += a.cores[c] as u64;
        }
    }
    for p in &x.preimages {
        let q = ss.entry(p.service).or_default();
        q.p.0 += 1;
        q.p.1 += p.data.len() as u64;
    }
    for (id, v) in acc {
        ss.entry(*id).or_default().a = *v;
    }
    st.core_stats = cs;
    st.svc_stats = ss;
}

pub fn apply(s: &State, b: &Block, o: &Opts) -> Result<Out, String> {
    let h = &b.header;
    let x = &b.xts;
    req!(h.slot > o.parent_slot, "slot not after parent");
    req!(h.parent == o.parent_hash, "parent hash");
    req!(h.prior_root == o.parent_root, "prior state root");
    req!(h.xt_hash == x.hash(), "extrinsic hash");
    let p = phase1(s, h.slot, &h.prior_root, x)?;
    let y = check_header(h, &p)?;
    let mut st = p.st;
    let avail = assurances(&s.kappa, &mut st, &h.parent, x)?;
    let reporters = guarantees(s, &mut st, x, o.ancestors)?;
    st.eta[0] = blake2b(&[&s.eta[0][..], &y].concat());

    // accumulation
    let (star, rq) = accumulatable(s, h.slot, &avail);
    let acc = acc::accumulate_all(&st, &star);
    if let Some(w) = &acc.wild {
        return Err(format!("WILD {w}"));
    }
    let n = acc.n;
    let (late, mixed, rounds) = (acc.late, acc.mixed, acc.rounds);
    st.accounts = acc.accounts;
    st.privs = acc.privs;
    st.iota = acc.iota;
    st.queues = acc.queues;
    st.last_out = acc.outputs.iter().map(|(s, h)| (*s, *h)).collect();
    let newly: BTreeSet<H> = star[..n].iter().map(|r| r.spec.package).collect();
    st.accumulated.remove(0);
    st.accumulated.push(newly.clone());
    let m = (h.slot % super::E) as usize;
    let gap = h.slot - s.tau;
    for i in 0..super::E as usize {
        let k = (m + super::E as usize - i) % super::E as usize;
        st.ready[k] = if i == 0 {
            edit(&rq, &newly)
        } else if (i as u32) < gap {
            vec![]
        } else {
            edit(&s.ready[k], &newly)
        };
    }
    let mut stats: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
    for (id, g) in &acc.gas {
        stats.entry(*id).or_default().1 += g;
    }
    for d in star[..n].iter().flat_map(|r| r.digests.iter()) {
        stats.entry(d.service).or_default().0 += 1;
    }
    stats.retain(|_, v| v.0 + v.1 != 0);
    let (mut dropped, mut gone) = (false, false);
    for id in stats.keys() {
        match st.accounts.get_mut(id) {
            Some(a) => a.last_acc = h.slot,
            None => gone |= s.accounts.contains_key(id),
        }
    }
    // preimages: validity against the prior accounts, integration into the accumulated ones
    req!(
        x.preimages
            .windows(2)
            .all(|w| (w[0].service, &w[0].data) < (w[1].service, &w[1].data)),
        "preimages not sorted"
    );
    let wanted = |acc: &BTreeMap<u32, Account>, p: &PreimageXt, hh: &H| {
        acc.get(&p.service).is_some_and(|a| {
            !a.preimages.contains_key(hh)
                && a.lookups
                    .get(&(*hh, p.data.len() as u32))
                    .is_some_and(|l| l.is_empty())
        })
    };
    for p in &x.preimages {
        req!(
            wanted(&s.accounts, p, &blake2b(&p.data)),
            "preimage not solicited"
        );
    }
    for p in &x.preimages {
        let hh = blake2b(&p.data);
        if wanted(&st.accounts, p, &hh) {
            let a = st.accounts.get_mut(&p.service).unwrap();
            a.preimages.insert(hh, p.data.clone());
            a.lookups.insert((hh, p.data.len() as u32), vec![h.slot]);
        } else {
            dropped = true;
        }
    }
    // authorizer pools
    for c in 0..C {
        if let Some(g) = x.guarantees.iter().find(|g| g.report.core as usize == c) {
            if let Some(i) = st.pools[c].iter().position(|a| *a == g.report.auth_hash) {
                st.pools[c].remove(i);
            }
        }
        st.pools[c].push(st.queues[c][h.slot as usize % Q_QUEUE]);
        let l = st.pools[c].len();
        if l > O_POOL {
            st.pools[c].drain(..l - O_POOL);
        }
    }
    statistics(s, &mut st, b, &avail, &reporters, &stats);
    // recent history
    let leaves: Vec<Vec<u8>> = st
        .last_out
        .iter()
        .map(|(s, h)| {
            enc(|e| {
                e.fix(*s as u64, 4).raw(h);
            })
        })
        .collect();
    st.belt = mmr_append(st.belt.clone(), wb_root_keccak(&leaves));
    let reported: BTreeMap<H, H> = x
        .guarantees
        .iter()
        .map(|g| (g.report.spec.package, g.report.spec.exports_root))
        .collect();
    st.hist.push(HistEntry {
        header: h.hash(),
        beefy: mmr_super_peak(&st.belt),
        state_root: [0; 32],
        reported: reported.clone(),
    });
    if st.hist.len() > H_HIST {
        st.hist.remove(0);
    }
    Ok(Out {
        state: st,
        reported,
        accumulated: n,
        late,
        mixed,
        rounds,
        dropped,
        gone,
    })
}
