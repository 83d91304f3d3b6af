//! Reference accumulation: the pipeline (outer, parallel, single-service) and the host calls
//! available to accumulating code (GP 12 and appendix B).
use super::codec::enc;
use super::pvm::{self, Exit, Prog, Vm};
use super::state::*;
use super::types::*;
use super::*;
use std::collections::{BTreeMap, BTreeSet};

pub const NONE: u64 = u64::MAX;
pub const WHAT: u64 = u64::MAX - 1;
pub const OOB: u64 = u64::MAX - 2;
pub const WHO: u64 = u64::MAX - 3;
pub const FULL: u64 = u64::MAX - 4;
pub const CORE: u64 = u64::MAX - 5;
pub const CASH: u64 = u64::MAX - 6;
pub const LOW: u64 = u64::MAX - 7;
pub const HUH: u64 = u64::MAX - 8;

pub fn constants() -> Vec<u8> {
    enc(|e| {
        e.fix(B_I, 8)
            .fix(B_L, 8)
            .fix(B_S, 8)
            .fix(C as u64, 2)
            .fix(D_EXP as u64, 4)
            .fix(super::E as u64, 4);
        e.fix(G_A, 8).fix(G_I, 8).fix(G_R, 8).fix(G_T, 8);
        e.fix(H_HIST as u64, 2)
            .fix(16, 2)
            .fix(J_DEPS as u64, 2)
            .fix(K_TICKETS as u64, 2)
            .fix(L_ANCHOR as u64, 4);
        e.fix(N_TICKETS as u64, 2)
            .fix(O_POOL as u64, 2)
            .fix(6, 2)
            .fix(Q_QUEUE as u64, 2)
            .fix(R_ROT as u64, 2)
            .fix(128, 2);
        e.fix(U_TIMEOUT as u64, 2)
            .fix(V as u64, 2)
            .fix(W_A as u64, 4)
            .fix(W_B as u64, 4)
            .fix(W_C as u64, 4);
        e.fix(4, 4)
            .fix(3072, 4)
            .fix(1026, 4)
            .fix(W_R as u64, 4)
            .fix(W_T as u64, 4)
            .fix(3072, 4)
            .fix(Y as u64, 4);
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Transfer {
    pub from: u32,
    pub to: u32,
    pub amount: u64,
    pub memo: Vec<u8>,
    pub gas: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub accounts: BTreeMap<u32, Account>,
    pub privs: Privs,
    pub iota: Vec<ValKey>,
    pub queues: [Vec<H>; C],
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub e: Env,
    pub host: u32,
    pub next_id: u32,
    pub transfers: Vec<Transfer>,
    pub yielded: Option<H>,
    pub provided: BTreeSet<(u32, Vec<u8>)>,
}

pub enum Ctl {
    Cont,
    Panic,
    Oog,
}

#[derive(Default)]
pub struct AccOut {
    pub n: usize,
    pub accounts: BTreeMap<u32, Account>,
    pub privs: Privs,
    pub iota: Vec<ValKey>,
    pub queues: [Vec<H>; C],
    pub outputs: BTreeSet<(u32, H)>,
    pub gas: Vec<(u32, u64)>,
    pub rounds: usize,
    /// Reports were accumulated after the first round.
    pub late: bool,
    /// A service got transfers and reports (or free gas) in one round.
    pub mixed: bool,
    /// The history left the modelled domain; results must not be compared.
    pub wild: Option<String>,
    pub trace: Vec<(u32, Vec<u64>)>,
}

pub fn check_id(acc: &BTreeMap<u32, Account>, mut i: u32) -> u32 {
    while acc.contains_key(&i) {
        i = ((i as u64 - S_MIN as u64 + 1) % ((1u64 << 32) - S_MIN as u64 - 256) + S_MIN as u64)
            as u32;
    }
    i
}
/// The identifier a service's first new service gets, where it is free.
pub fn first_id(s: u32, eta0: &H, tau: u32) -> u32 {
    let h = blake2b(&enc(|q| {
        q.nat(s as u64).raw(eta0).nat(tau as u64);
    }));
    let x = u32::from_le_bytes(h[..4].try_into().unwrap()) as u64;
    (S_MIN as u64 + x % ID_SPAN) as u32
}
/// The identifier after this one.
pub fn next_id(id: u32) -> u32 {
    (S_MIN as u64 + (id as u64 - S_MIN as u64 + 42) % ID_SPAN) as u32
}
const ID_SPAN: u64 = (1 << 32) - S_MIN as u64 - 256;

pub struct Glob {
    pub tau: u32,
    pub eta0: H,
}

pub struct RunInfo {
    pub wild: Option<String>,
    pub calls: Vec<u64>,
}

pub fn operand(r: &Report, d: &Digest) -> Vec<u8> {
    enc(|e| {
        e.raw(&[0])
            .raw(&r.spec.package)
            .raw(&r.spec.exports_root)
            .raw(&r.auth_hash)
            .raw(&d.payload_hash)
            .nat(d.acc_gas);
        d.result.enc(e);
        e.bytes(&r.auth_trace);
    })
}
pub fn transfer_input(t: &Transfer) -> Vec<u8> {
    enc(|e| {
        e.raw(&[1])
            .fix(t.from as u64, 4)
            .fix(t.to as u64, 4)
            .fix(t.amount, 8)
            .raw(&t.memo)
            .fix(t.gas, 8);
    })
}

struct Single {
    ctx: Ctx,
    gas_used: u64,
    wild: Option<String>,
    calls: Vec<u64>,
}

fn single(g: &Glob, e: &Env, s: u32, inputs: &[Vec<u8>], credit: u64, gas: u64) -> Option<Single> {
    let mut e = e.clone();
    let a = e.accounts.get_mut(&s)?;
    let mut wild = None;
    match a.balance.checked_add(credit) {
        Some(b) => a.balance = b,
        None => wild = Some("balance overflow".into()),
    }
    let code = a.code();
    let init_id = check_id(&e.accounts, first_id(s, &g.eta0, g.tau));
    let ctx = Ctx {
        e,
        host: s,
        next_id: init_id,
        transfers: vec![],
        yielded: None,
        provided: BTreeSet::new(),
    };
    let Some(code) = code.filter(|c| c.len() <= W_C) else {
        return Some(Single {
            ctx,
            gas_used: 0,
            wild,
            calls: vec![],
        });
    };
    let args = enc(|q| {
        q.nat(g.tau as u64).nat(s as u64).nat(inputs.len() as u64);
    });
    let mut x = ctx.clone();
    let mut y = ctx;
    let mut calls = vec![];
    let (res, left) = invoke(&code, 5, gas, &args, |h, vm| {
        calls.push(h);
        let c = acc_host(g, h, vm, &mut x, &mut y, inputs, &mut wild);
        let r = vm.regs[7];
        TRACE.with_borrow_mut(|t| t.push((h, if matches!(c, Ctl::Cont) { r } else { 1 << 63 })));
        c
    });
    let used = gas.min(i64::MAX as u64) - left;
    let mut fin = match res {
        Res::Halt(out) => {
            if out.len() == 32 {
                x.yielded = Some(out.try_into().unwrap());
            }
            x
        }
        Res::Panic | Res::Oog => y,
        Res::Wild(m) => {
            wild = Some(m);
            y
        }
    };
    fin.host = s;
    Some(Single {
        ctx: fin,
        gas_used: used,
        wild,
        calls,
    })
}

pub enum Res {
    Halt(Vec<u8>),
    Panic,
    Oog,
    Wild(String),
}

thread_local! {
    /// Host calls of accumulation and their results since last taken (coverage only).
    pub static TRACE: std::cell::RefCell<Vec<(u64, u64)>> = const { std::cell::RefCell::new(vec![]) };
}

/// Argument invocation: runs a program from `pc`, dispatching host calls.
pub fn invoke(
    code: &[u8],
    pc: u64,
    gas: u64,
    args: &[u8],
    mut host: impl FnMut(u64, &mut Vm) -> Ctl,
) -> (Res, u64) {
    let Some((blob, mut vm)) = pvm::init(code, args) else {
        return (Res::Panic, gas.min(i64::MAX as u64));
    };
    let Some(p) = Prog::deblob(&blob) else {
        return (Res::Panic, gas.min(i64::MAX as u64));
    };
    vm.pc = pc;
    vm.gas = gas.min(i64::MAX as u64) as i64;
    let r = loop {
        let exit = loop {
            if vm.steps > 25_000_000 {
                return (Res::Wild("too many steps".into()), 0);
            }
            if let Err(e) = pvm::step(&p, &mut vm) {
                break e;
            }
        };
        match exit {
            Exit::Host(h) => match host(h, &mut vm) {
                Ctl::Cont => vm.pc += 1 + p.skip(vm.pc as usize) as u64,
                Ctl::Panic => break Res::Panic,
                Ctl::Oog => {
                    vm.gas = 0;
                    break Res::Oog;
                }
            },
            Exit::Halt => {
                let (o, l) = (vm.regs[7], vm.regs[8]);
                break if o <= u32::MAX as u64 && l <= 1 << 32 && vm.mem.readable(o, l) {
                    Res::Halt(vm.mem.peek(o, l))
                } else {
                    Res::Halt(vec![])
                };
            }
            Exit::Panic | Exit::Fault(_) => break Res::Panic,
            Exit::Oog => {
                vm.gas = 0;
                break Res::Oog;
            }
        }
        if vm.wild {
            return (Res::Wild("heap".into()), 0);
        }
    };
    if vm.wild {
        return (Res::Wild("heap".into()), 0);
    }
    (r, vm.gas.max(0) as u64)
}

/// Charges the base gas; false means out of gas.
pub fn base_gas(vm: &mut Vm) -> bool {
    if vm.gas < 10 {
        return false;
    }
    vm.gas -= 10;
    true
}

/// Reads [o, o+n) if readable.
pub fn rd(vm: &Vm, o: u64, n: u64) -> Option<Vec<u8>> {
    if o > u32::MAX as u64 || n > 1 << 32 || !vm.mem.readable(o, n) {
        return None;
    }
    Some(vm.mem.peek(o, n))
}
pub fn rd32(vm: &Vm, o: u64) -> Option<H> {
    rd(vm, o, 32).map(|v| v.try_into().unwrap())
}

/// The common "write a slice of v to memory" tail: offset f, length l, at o.
pub fn put(vm: &mut Vm, v: &[u8], o: u64, f: u64, l: u64) -> Ctl {
    let n = v.len() as u64;
    let f = f.min(n);
    let l = l.min(n - f);
    if o > u32::MAX as u64 || !vm.mem.writable(o, l) {
        return Ctl::Panic;
    }
    vm.mem.poke(o, &v[f as usize..(f + l) as usize]);
    vm.regs[7] = n;
    Ctl::Cont
}

pub fn info_blob(a: &Account) -> Vec<u8> {
    enc(|e| {
        e.raw(&a.code_hash);
        for x in [
            a.balance,
            a.threshold(),
            a.min_acc_gas,
            a.min_memo_gas,
            a.octets(),
        ] {
            e.fix(x, 8);
        }
        e.fix(a.items(), 4).fix(a.gratis, 8);
        for x in [a.created, a.last_acc, a.parent] {
            e.fix(x as u64, 4);
        }
    })
}

/// Host calls shared with other invocation kinds: lookup, read, info (gas is charged by caller).
pub fn lookup(vm: &mut Vm, accounts: &BTreeMap<u32, Account>, host: u32) -> Ctl {
    let r = vm.regs;
    let Some(h) = rd32(vm, r[8]) else {
        return Ctl::Panic;
    };
    let a = if r[7] == NONE {
        accounts.get(&host)
    } else {
        u32::try_from(r[7]).ok().and_then(|s| accounts.get(&s))
    };
    match a.and_then(|a| a.preimages.get(&h)) {
        None => {
            vm.regs[7] = NONE;
            Ctl::Cont
        }
        Some(v) => put(vm, v, r[9], r[10], r[11]),
    }
}
pub fn read(vm: &mut Vm, accounts: &BTreeMap<u32, Account>, host: u32) -> Ctl {
    let r = vm.regs;
    let Some(k) = rd(vm, r[8], r[9]) else {
        return Ctl::Panic;
    };
    let a = if r[7] == NONE {
        accounts.get(&host)
    } else {
        u32::try_from(r[7]).ok().and_then(|s| accounts.get(&s))
    };
    match a.and_then(|a| a.storage.get(&k)) {
        None => {
            vm.regs[7] = NONE;
            Ctl::Cont
        }
        Some(v) => put(vm, v, r[10], r[11], r[12]),
    }
}
pub fn info(vm: &mut Vm, accounts: &BTreeMap<u32, Account>, host: u32) -> Ctl {
    let r = vm.regs;
    let a = if r[7] == NONE {
        accounts.get(&host)
    } else {
        u32::try_from(r[7]).ok().and_then(|s| accounts.get(&s))
    };
    match a {
        None => {
            vm.regs[7] = NONE;
            Ctl::Cont
        }
        Some(a) => put(vm, &info_blob(a), r[8], r[9], r[10]),
    }
}

fn acc_host(
    g: &Glob,
    h: u64,
    vm: &mut Vm,
    x: &mut Ctx,
    y: &mut Ctx,
    inputs: &[Vec<u8>],
    wild: &mut Option<String>,
) -> Ctl {
    if !base_gas(vm) {
        return Ctl::Oog;
    }
    let r = vm.regs;
    let host = x.host;
    macro_rules! code {
        ($c:expr) => {{
            vm.regs[7] = $c;
            return Ctl::Cont;
        }};
    }
    macro_rules! or_panic {
        ($c:expr) => {
            match $c {
                Some(v) => v,
                None => return Ctl::Panic,
            }
        };
    }
    let sid = |v: u64| u32::try_from(v).ok();
    match h {
        0 => code!(vm.gas as u64),
        1 => {
            let v: Option<Vec<u8>> = match r[10] {
                0 => Some(constants()),
                1 => Some(g.eta0.to_vec()),
                14 => Some(enc(|e| {
                    e.nat(inputs.len() as u64);
                    for i in inputs {
                        e.raw(i);
                    }
                })),
                15 => usize::try_from(r[11])
                    .ok()
                    .and_then(|i| inputs.get(i))
                    .cloned(),
                _ => None,
            };
            match v {
                None => code!(NONE),
                Some(v) => put(vm, &v, r[7], r[8], r[9]),
            }
        }
        2 => lookup(vm, &x.e.accounts, host),
        3 => read(vm, &x.e.accounts, host),
        4 => {
            let k = or_panic!(rd(vm, r[7], r[8]));
            let v = if r[10] == 0 {
                None
            } else {
                Some(or_panic!(rd(vm, r[9], r[10])))
            };
            let a = x.e.accounts.get_mut(&host).unwrap();
            let mut n = a.clone();
            let prev = match v {
                None => n.storage.remove(&k),
                Some(v) => n.storage.insert(k, v),
            };
            if n.threshold() > n.balance {
                code!(FULL)
            }
            *a = n;
            code!(prev.map_or(NONE, |p| p.len() as u64))
        }
        5 => info(vm, &x.e.accounts, host),
        14 => {
            let a = or_panic!(rd(vm, r[8], 4 * C as u64));
            let z = or_panic!(r[12].checked_mul(12).and_then(|n| rd(vm, r[11], n)));
            let (Some(m), Some(v), Some(q)) = (sid(r[7]), sid(r[9]), sid(r[10])) else {
                code!(WHO)
            };
            let p = &mut x.e.privs;
            p.manager = m;
            p.delegator = v;
            p.registrar = q;
            for c in 0..C {
                p.assigners[c] = u32::from_le_bytes(a[4 * c..4 * c + 4].try_into().unwrap());
            }
            p.always = z
                .chunks(12)
                .map(|w| {
                    (
                        u32::from_le_bytes(w[..4].try_into().unwrap()),
                        u64::from_le_bytes(w[4..].try_into().unwrap()),
                    )
                })
                .collect();
            code!(0)
        }
        15 => {
            let q = or_panic!(rd(vm, r[8], 32 * Q_QUEUE as u64));
            if r[7] >= C as u64 {
                code!(CORE)
            }
            let c = r[7] as usize;
            if host != x.e.privs.assigners[c] {
                code!(HUH)
            }
            let Some(a) = sid(r[9]) else { code!(WHO) };
            x.e.queues[c] = q.chunks(32).map(|h| h.try_into().unwrap()).collect();
            x.e.privs.assigners[c] = a;
            code!(0)
        }
        16 => {
            let v = or_panic!(rd(vm, r[7], 336 * V as u64));
            if host != x.e.privs.delegator {
                code!(HUH)
            }
            x.e.iota = v.chunks(336).map(|c| c.to_vec()).collect();
            code!(0)
        }
        17 => {
            *y = x.clone();
            code!(vm.gas as u64)
        }
        18 => {
            let c = or_panic!(rd32(vm, r[7]));
            let l = or_panic!(u32::try_from(r[8]).ok());
            let (ga, gm, f, want) = (r[9], r[10], r[11], r[12]);
            if f != 0 && host != x.e.privs.manager {
                code!(HUH)
            }
            let mut a = Account {
                code_hash: c,
                min_acc_gas: ga,
                min_memo_gas: gm,
                gratis: f,
                created: g.tau,
                last_acc: 0,
                parent: host,
                ..Default::default()
            };
            a.lookups.insert((c, l), vec![]);
            a.balance = a.threshold();
            let me = &x.e.accounts[&host];
            if me
                .balance
                .checked_sub(a.balance)
                .is_none_or(|b| b < me.threshold())
            {
                code!(CASH)
            }
            let small = want < S_MIN as u64 && host == x.e.privs.registrar;
            if small && x.e.accounts.contains_key(&(want as u32)) {
                code!(FULL)
            }
            x.e.accounts.get_mut(&host).unwrap().balance -= a.balance;
            let id = if small {
                want as u32
            } else {
                let id = x.next_id;
                x.next_id = check_id(&x.e.accounts, next_id(id));
                id
            };
            x.e.accounts.insert(id, a);
            code!(id as u64)
        }
        19 => {
            let c = or_panic!(rd32(vm, r[7]));
            let a = x.e.accounts.get_mut(&host).unwrap();
            a.code_hash = c;
            a.min_acc_gas = r[8];
            a.min_memo_gas = r[9];
            code!(0)
        }
        20 => {
            let memo = or_panic!(rd(vm, r[10], W_T as u64));
            let Some(to) = sid(r[7]).filter(|d| x.e.accounts.contains_key(d)) else {
                code!(WHO)
            };
            if r[9] < x.e.accounts[&to].min_memo_gas {
                code!(LOW)
            }
            let me = x.e.accounts.get_mut(&host).unwrap();
            if me
                .balance
                .checked_sub(r[8])
                .is_none_or(|b| b < me.threshold())
            {
                code!(CASH)
            }
            if r[9] > vm.gas as u64 {
                return Ctl::Oog;
            }
            vm.gas -= r[9] as i64;
            me.balance -= r[8];
            x.transfers.push(Transfer {
                from: host,
                to,
                amount: r[8],
                memo,
                gas: r[9],
            });
            code!(0)
        }
        21 => {
            let h = or_panic!(rd32(vm, r[8]));
            let Some(d) = sid(r[7]).filter(|d| *d != host && x.e.accounts.contains_key(d)) else {
                code!(WHO)
            };
            let a = &x.e.accounts[&d];
            let mut want = [0u8; 32];
            want[..4].copy_from_slice(&host.to_le_bytes());
            if a.code_hash != want {
                code!(WHO)
            }
            let l = a.octets().max(81) - 81;
            let ok = a.items() == 2
                && u32::try_from(l)
                    .ok()
                    .and_then(|l| a.lookups.get(&(h, l)))
                    .is_some_and(|t| t.len() == 2 && (t[1] as u64 + D_EXP as u64) < g.tau as u64);
            if !ok {
                code!(HUH)
            }
            let b = a.balance;
            let me = x.e.accounts.get_mut(&host).unwrap();
            match me.balance.checked_add(b) {
                Some(v) => me.balance = v,
                None => *wild = Some("balance overflow".into()),
            }
            x.e.accounts.remove(&d);
            code!(0)
        }
        22 => {
            let h = or_panic!(rd32(vm, r[7]));
            let l = sid(r[8]).and_then(|z| x.e.accounts[&host].lookups.get(&(h, z)));
            let (a, b) = match l.map(|v| v.as_slice()) {
                Some([]) => (0, 0),
                Some([p]) => (1 + ((*p as u64) << 32), 0),
                Some([p, q]) => (2 + ((*p as u64) << 32), *q as u64),
                Some([p, q, w]) => (3 + ((*p as u64) << 32), *q as u64 + ((*w as u64) << 32)),
                _ => (NONE, 0),
            };
            vm.regs[7] = a;
            vm.regs[8] = b;
            Ctl::Cont
        }
        23 => {
            let h = or_panic!(rd32(vm, r[7]));
            let Some(z) = sid(r[8]) else { code!(FULL) };
            let a = x.e.accounts.get_mut(&host).unwrap();
            let mut n = a.clone();
            match n.lookups.get_mut(&(h, z)) {
                None => {
                    n.lookups.insert((h, z), vec![]);
                }
                Some(v) if v.len() == 2 => v.push(g.tau),
                _ => code!(HUH),
            }
            if n.balance < n.threshold() {
                code!(FULL)
            }
            *a = n;
            code!(0)
        }
        24 => {
            let h = or_panic!(rd32(vm, r[7]));
            let Some(z) = sid(r[8]) else { code!(HUH) };
            let a = x.e.accounts.get_mut(&host).unwrap();
            let old = |y: u32| (y as u64 + D_EXP as u64) < g.tau as u64;
            match a.lookups.get(&(h, z)).cloned().as_deref() {
                Some([]) => {
                    a.lookups.remove(&(h, z));
                    a.preimages.remove(&h);
                }
                Some([p]) => {
                    a.lookups.insert((h, z), vec![*p, g.tau]);
                }
                Some([_, q]) if old(*q) => {
                    a.lookups.remove(&(h, z));
                    a.preimages.remove(&h);
                }
                Some([_, q, w]) if old(*q) => {
                    a.lookups.insert((h, z), vec![*w, g.tau]);
                }
                _ => code!(HUH),
            }
            code!(0)
        }
        25 => {
            x.yielded = Some(or_panic!(rd32(vm, r[7])));
            code!(0)
        }
        26 => {
            let d = or_panic!(rd(vm, r[8], r[9]));
            let s = if r[7] == NONE { Some(host) } else { sid(r[7]) };
            let Some(s) = s.filter(|s| x.e.accounts.contains_key(s)) else {
                code!(WHO)
            };
            let ok = x.e.accounts[&s]
                .lookups
                .get(&(blake2b(&d), d.len() as u32))
                .is_some_and(|l| l.is_empty());
            if !ok || x.provided.contains(&(s, d.clone())) {
                code!(HUH)
            }
            x.provided.insert((s, d));
            code!(0)
        }
        _ => code!(WHAT),
    }
}

/// Accumulates `star` (in order) as far as the gas allows.
pub fn accumulate_all(st: &State, star: &[Report]) -> AccOut {
    let g = Glob {
        tau: st.tau,
        eta0: st.eta[0],
    };
    let mut e = Env {
        accounts: st.accounts.clone(),
        privs: st.privs.clone(),
        iota: st.iota.clone(),
        queues: st.queues.clone(),
    };
    let mut out = AccOut::default();
    // gas amounts beyond 2^64 are as good as 2^64
    let sat = |a: u64, b: &u64| a.saturating_add(*b);
    let mut gas: u64 = G_T.max(st.privs.always.values().fold(G_A * C as u64, sat));
    let mut always = st.privs.always.clone();
    let mut transfers: Vec<Transfer> = vec![];
    let mut rest = star;
    loop {
        let mut i = 0;
        let mut sum = 0u64;
        while i < rest.len() {
            let Some(q) = rest[i]
                .digests
                .iter()
                .try_fold(sum, |a, d| a.checked_add(d.acc_gas))
            else {
                break;
            };
            if q > gas {
                break;
            }
            sum = q;
            i += 1;
        }
        if i + transfers.len() + always.len() == 0 {
            break;
        }
        out.rounds += 1;
        out.late |= out.rounds > 1 && i > 0;
        let now = &rest[..i];
        let ids: BTreeSet<u32> = now
            .iter()
            .flat_map(|r| r.digests.iter().map(|d| d.service))
            .chain(transfers.iter().map(|t| t.to))
            .chain(always.keys().copied())
            .collect();
        let tgas: u64 = transfers.iter().map(|t| t.gas).fold(0, |a, b| sat(a, &b));
        let mut res: BTreeMap<u32, Single> = BTreeMap::new();
        for s in &ids {
            let mut inputs: Vec<Vec<u8>> = vec![];
            let mut mine: Vec<&Transfer> = transfers.iter().filter(|t| t.to == *s).collect();
            mine.sort_by_key(|t| t.from);
            let mut lim = always.get(s).copied().unwrap_or(0);
            let mut credit = 0u64;
            for t in mine {
                inputs.push(transfer_input(t));
                lim = lim.saturating_add(t.gas);
                credit += t.amount;
            }
            for r in now {
                for d in r.digests.iter().filter(|d| d.service == *s) {
                    inputs.push(operand(r, d));
                    lim = lim.saturating_add(d.acc_gas);
                }
            }
            out.mixed |= transfers.iter().any(|t| t.to == *s)
                && now
                    .iter()
                    .any(|r| r.digests.iter().any(|d| d.service == *s));
            if let Some(q) = single(&g, &e, *s, &inputs, credit, lim) {
                res.insert(*s, q);
            }
        }
        // merge
        let mut acc = e.accounts.clone();
        let mut created: BTreeMap<u32, Account> = BTreeMap::new();
        let mut removed: BTreeSet<u32> = BTreeSet::new();
        let mut used = 0u64;
        let mut next_tr = vec![];
        let mut provided: BTreeSet<(u32, Vec<u8>)> = BTreeSet::new();
        for (s, q) in &res {
            used += q.gas_used;
            out.gas.push((*s, q.gas_used));
            out.trace.push((*s, q.calls.clone()));
            if let Some(w) = &q.wild {
                out.wild = Some(w.clone());
            }
            for (id, a) in &q.ctx.e.accounts {
                if id == s {
                    acc.insert(*id, a.clone());
                } else if !e.accounts.contains_key(id) {
                    if created.insert(*id, a.clone()).is_some() {
                        out.wild = Some("service id created twice".into());
                    }
                }
            }
            for id in e.accounts.keys() {
                if !q.ctx.e.accounts.contains_key(id) {
                    removed.insert(*id);
                }
            }
            if let Some(h) = q.ctx.yielded {
                out.outputs.insert((*s, h));
            }
            next_tr.extend(q.ctx.transfers.iter().cloned());
            provided.extend(q.ctx.provided.iter().cloned());
        }
        acc.extend(created);
        for id in &removed {
            acc.remove(id);
        }
        // privileges
        let old = e.privs.clone();
        let view = |s: u32| res.get(&s).map(|q| &q.ctx.e);
        let m = view(old.manager)
            .map(|v| v.privs.clone())
            .unwrap_or_else(|| old.clone());
        let pick = |o: u32, a: u32, b: u32| if a == o { b } else { a };
        let mut np = Privs {
            manager: m.manager,
            always: m.always.clone(),
            ..old.clone()
        };
        for c in 0..C {
            let b = view(old.assigners[c]).map_or(old.assigners[c], |v| v.privs.assigners[c]);
            np.assigners[c] = pick(old.assigners[c], m.assigners[c], b);
            if let Some(v) = view(old.assigners[c]) {
                e.queues[c] = v.queues[c].clone();
            }
        }
        let b = view(old.delegator).map_or(old.delegator, |v| v.privs.delegator);
        np.delegator = pick(old.delegator, m.delegator, b);
        let b = view(old.registrar).map_or(old.registrar, |v| v.privs.registrar);
        np.registrar = pick(old.registrar, m.registrar, b);
        if let Some(v) = view(old.delegator) {
            e.iota = v.iota.clone();
        }
        e.privs = np;
        for (s, d) in provided {
            if let Some(a) = acc.get_mut(&s) {
                let k = (blake2b(&d), d.len() as u32);
                if a.lookups.get(&k).is_some_and(|l| l.is_empty()) {
                    a.lookups.insert(k, vec![g.tau]);
                    a.preimages.insert(k.0, d);
                }
            }
        }
        e.accounts = acc;
        out.n += i;
        rest = &rest[i..];
        gas = gas.saturating_add(tgas).saturating_sub(used);
        transfers = next_tr;
        always = BTreeMap::new();
    }
    out.accounts = e.accounts;
    out.privs = e.privs;
    out.iota = e.iota;
    out.queues = e.queues;
    out
}
