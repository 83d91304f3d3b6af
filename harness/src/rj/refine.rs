//! Reference for the in-core invocations: is-authorized and refine with their host calls.
use super::acc::{
    base_gas, constants, invoke, put, rd, rd32, Ctl, Res, FULL, HUH, NONE, OOB, WHAT, WHO,
};
use super::codec::enc;
use super::pvm::{self, Acc, Exit, Mem, Prog, Vm, PG};
use super::state::{split_code, Account};
use super::types::*;
use super::*;
use std::collections::BTreeMap;

/// Deviations of the implementation that are recorded as known findings.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Quirks {
    /// Every element of FETCH 11 has a length prefix, and its octets are encoded as naturals.
    pub fetch11: bool,
    /// An inner machine restarts at 0 after a page fault and stays where it was after halt or panic.
    pub inner_pc: bool,
}

pub struct RefineArgs {
    pub core: u16,
    pub item: usize,
    pub pkg: Package,
    pub trace: Vec<u8>,
    /// By item, by import.
    pub imports: Vec<Vec<Vec<u8>>>,
    pub xdata: Vec<Vec<Vec<u8>>>,
    pub off: usize,
}

pub struct Ran {
    pub out: Outcome,
    pub gas: u64,
    pub exports: Vec<Vec<u8>>,
    pub calls: Vec<(u64, u64)>,
}
pub const SEG: usize = 4104;
pub const MAX_EXPORTS: usize = 3072;
pub const OOG: Outcome = Outcome::Err(1);
pub const PANIC: Outcome = Outcome::Err(2);
pub const BAD: Outcome = Outcome::Err(5);
pub const BIG: Outcome = Outcome::Err(6);

fn nothing(out: Outcome) -> Option<Ran> {
    Some(Ran {
        out,
        gas: 0,
        exports: vec![],
        calls: vec![],
    })
}

fn code_at(accounts: &BTreeMap<u32, Account>, s: u32, t: u32, h: &H) -> Option<Vec<u8>> {
    split_code(accounts.get(&s)?.lookup_at(t, h)?)
}

pub fn package_bytes(p: &Package) -> Vec<u8> {
    enc(|e| p.enc(e))
}

fn package_data(p: &Package, id: u64, ix: u64, q: Quirks) -> Option<Vec<u8>> {
    let item = || usize::try_from(ix).ok().and_then(|i| p.items.get(i));
    Some(match id {
        7 => package_bytes(p),
        8 => p.config.clone(),
        9 => p.token.clone(),
        10 => enc(|e| p.ctx.enc(e)),
        11 => enc(|e| {
            e.nat(p.items.len() as u64);
            for w in &p.items {
                let s = enc(|e| w.enc_summary(e));
                if q.fetch11 {
                    e.nat(s.len() as u64);
                    s.iter().for_each(|b| {
                        e.nat(*b as u64);
                    });
                } else {
                    e.raw(&s);
                }
            }
        }),
        12 => {
            let w = item()?;
            enc(|e| w.enc_summary(e))
        }
        13 => item()?.payload.clone(),
        _ => return None,
    })
}

/// None: outside of the modelled domain.
pub fn is_authorized(
    accounts: &BTreeMap<u32, Account>,
    pkg: &Package,
    core: u16,
    q: Quirks,
) -> Option<Ran> {
    let Some(code) = code_at(
        accounts,
        pkg.auth_service,
        pkg.ctx.lookup_slot,
        &pkg.auth_code_hash,
    ) else {
        return nothing(BAD);
    };
    if code.len() > W_A {
        return nothing(BIG);
    }
    let args = enc(|e| {
        e.fix(core as u64, 2);
    });
    let mut calls = vec![];
    let (r, left) = invoke(&code, 0, G_I, &args, |h, vm| {
        let c = auth_host(h, vm, pkg, q);
        calls.push((h, vm.regs[7]));
        c
    });
    finish(r, left, G_I, vec![], calls)
}

fn finish(
    r: Res,
    left: u64,
    limit: u64,
    exports: Vec<Vec<u8>>,
    calls: Vec<(u64, u64)>,
) -> Option<Ran> {
    let (out, exports) = match r {
        Res::Halt(v) => (Outcome::Ok(v), exports),
        Res::Panic => (PANIC, vec![]),
        Res::Oog => (OOG, vec![]),
        Res::Wild(_) => return None,
    };
    Some(Ran {
        out,
        gas: limit - left,
        exports,
        calls,
    })
}

fn auth_host(h: u64, vm: &mut Vm, pkg: &Package, q: Quirks) -> Ctl {
    if !base_gas(vm) {
        return Ctl::Oog;
    }
    let r = vm.regs;
    match h {
        0 => vm.regs[7] = vm.gas as u64,
        1 => {
            let v = if r[10] == 0 {
                Some(constants())
            } else {
                package_data(pkg, r[10], r[11], q)
            };
            match v {
                Some(v) => return put(vm, &v, r[7], r[8], r[9]),
                None => vm.regs[7] = NONE,
            }
        }
        100 => vm.regs[7] = WHAT,
        _ => vm.regs[7] = WHAT,
    }
    Ctl::Cont
}

#[derive(Clone)]
struct Machine {
    code: Vec<u8>,
    mem: Mem,
    pc: u64,
}

pub fn refine(accounts: &BTreeMap<u32, Account>, a: &RefineArgs, q: Quirks) -> Option<Ran> {
    let Some(w) = a.pkg.items.get(a.item) else {
        return nothing(BAD);
    };
    let Some(code) = code_at(accounts, w.service, a.pkg.ctx.lookup_slot, &w.code_hash) else {
        return nothing(BAD);
    };
    if code.len() > W_C {
        return nothing(BIG);
    }
    let args = enc(|e| {
        e.nat(a.core as u64)
            .nat(a.item as u64)
            .nat(w.service as u64)
            .bytes(&w.payload)
            .raw(&blake2b(&package_bytes(&a.pkg)));
    });
    let mut exports = vec![];
    let mut calls = vec![];
    let mut inner: BTreeMap<u64, Machine> = BTreeMap::new();
    let mut wild = false;
    let (r, left) = invoke(&code, 0, w.refine_gas, &args, |h, vm| {
        let c = refine_host(
            h,
            vm,
            accounts,
            a,
            w,
            &mut exports,
            &mut inner,
            q,
            &mut wild,
        );
        calls.push((h, vm.regs[7]));
        c
    });
    if wild {
        return None;
    }
    finish(r, left, w.refine_gas, exports, calls)
}

#[allow(clippy::too_many_arguments)]
fn refine_host(
    h: u64,
    vm: &mut Vm,
    accounts: &BTreeMap<u32, Account>,
    a: &RefineArgs,
    w: &WorkItem,
    exports: &mut Vec<Vec<u8>>,
    inner: &mut BTreeMap<u64, Machine>,
    q: Quirks,
    wild: &mut bool,
) -> Ctl {
    if !base_gas(vm) {
        return Ctl::Oog;
    }
    let r = vm.regs;
    macro_rules! code {
        ($c:expr) => {{
            vm.regs[7] = $c;
            return Ctl::Cont;
        }};
    }
    macro_rules! or_panic {
        ($c:expr) => {
            match $c {
                Some(v) => v,
                None => return Ctl::Panic,
            }
        };
    }
    match h {
        0 => code!(vm.gas as u64),
        1 => {
            let at = |v: &Vec<Vec<Vec<u8>>>, i: u64, j: u64| {
                v.get(usize::try_from(i).ok()?)?
                    .get(usize::try_from(j).ok()?)
                    .cloned()
            };
            let v = match r[10] {
                0 => Some(constants()),
                1 => Some(vec![0; 32]),
                2 => Some(a.trace.clone()),
                3 => at(&a.xdata, r[11], r[12]),
                4 => at(&a.xdata, a.item as u64, r[11]),
                5 => at(&a.imports, r[11], r[12]),
                6 => at(&a.imports, a.item as u64, r[11]),
                id => package_data(&a.pkg, id, r[11], q),
            };
            match v {
                Some(v) => put(vm, &v, r[7], r[8], r[9]),
                None => code!(NONE),
            }
        }
        6 => {
            let hash = or_panic!(rd32(vm, r[8]));
            let acc = if r[7] == NONE {
                accounts.get(&w.service)
            } else {
                u32::try_from(r[7]).ok().and_then(|s| accounts.get(&s))
            };
            match acc.and_then(|x| x.lookup_at(a.pkg.ctx.lookup_slot, &hash)) {
                Some(v) => put(vm, v, r[9], r[10], r[11]),
                None => code!(NONE),
            }
        }
        7 => {
            let mut d = or_panic!(rd(vm, r[7], r[8].min(SEG as u64)));
            if a.off + exports.len() >= MAX_EXPORTS {
                code!(FULL);
            }
            d.resize(SEG, 0);
            vm.regs[7] = (a.off + exports.len()) as u64;
            exports.push(d);
            Ctl::Cont
        }
        8 => {
            let p = or_panic!(rd(vm, r[7], r[8]));
            if Prog::deblob(&p).is_none() {
                code!(HUH);
            }
            let n = (0..).find(|n| !inner.contains_key(n)).unwrap();
            inner.insert(
                n,
                Machine {
                    code: p,
                    mem: Mem::default(),
                    pc: r[9],
                },
            );
            code!(n)
        }
        9 => {
            // peek n, to (outer), from (inner), length
            if r[8] > u32::MAX as u64 || r[10] > 1 << 32 || !vm.mem.writable(r[8], r[10]) {
                return Ctl::Panic;
            }
            let Some(m) = inner.get(&r[7]) else {
                code!(WHO)
            };
            if r[9] > u32::MAX as u64 || !m.mem.readable(r[9], r[10]) {
                code!(OOB);
            }
            let d = m.mem.peek(r[9], r[10]);
            vm.mem.poke(r[8], &d);
            code!(0)
        }
        10 => {
            // poke n, from (outer), to (inner), length
            let d = or_panic!(rd(vm, r[8], r[10]));
            let Some(m) = inner.get_mut(&r[7]) else {
                code!(WHO)
            };
            if r[9] > u32::MAX as u64 || !m.mem.writable(r[9], r[10]) {
                code!(OOB);
            }
            m.mem.poke(r[9], &d);
            code!(0)
        }
        11 => {
            let (n, p, c, mode) = (r[7], r[8], r[9], r[10]);
            let Some(m) = inner.get_mut(&n) else {
                code!(WHO)
            };
            if mode > 4 || p < 16 || p as u128 + c as u128 >= (1u128 << 32) / PG as u128 {
                code!(HUH);
            }
            if mode > 2
                && (p..p + c).any(|i| !m.mem.pages.get(&(i as u32)).is_some_and(|x| x.1.is_some()))
            {
                code!(HUH);
            }
            if c > 100_000 {
                *wild = true;
                return Ctl::Panic;
            }
            for i in p..p + c {
                let e = m
                    .mem
                    .pages
                    .entry(i as u32)
                    .or_insert_with(|| (vec![0; PG as usize], None));
                if mode < 3 {
                    e.0.fill(0);
                }
                e.1 = match mode {
                    0 => None,
                    1 | 3 => Some(Acc::R),
                    _ => Some(Acc::W),
                };
            }
            code!(0)
        }
        12 => {
            let o = r[8];
            if o > u32::MAX as u64 || !vm.mem.writable(o, 112) {
                return Ctl::Panic;
            }
            let b = vm.mem.peek(o, 112);
            let u = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
            let gas = u(0);
            let Some(m) = inner.get_mut(&r[7]) else {
                code!(WHO)
            };
            let p = Prog::deblob(&m.code).unwrap();
            let mut iv = Vm {
                mem: std::mem::take(&mut m.mem),
                pc: m.pc,
                gas: gas.min(i64::MAX as u64) as i64,
                ..Vm::default()
            };
            for i in 0..13 {
                iv.regs[i] = u(i + 1);
            }
            let rest = gas - iv.gas as u64;
            let e = loop {
                match pvm::step(&p, &mut iv) {
                    Ok(()) if iv.steps > 300_000 => {
                        *wild = true;
                        return Ctl::Panic;
                    }
                    Ok(()) => {}
                    Err(e) => break e,
                }
            };
            *wild |= iv.wild;
            let left = if e == Exit::Oog {
                u64::MAX
            } else {
                iv.gas as u64
            };
            let mut out = left.wrapping_add(rest).to_le_bytes().to_vec();
            for x in iv.regs {
                out.extend_from_slice(&x.to_le_bytes());
            }
            vm.mem.poke(o, &out);
            m.mem = iv.mem;
            m.pc = iv.pc;
            match e {
                Exit::Halt | Exit::Panic => {
                    if !q.inner_pc {
                        m.pc = 0;
                    }
                    code!(if e == Exit::Halt { 0 } else { 1 })
                }
                Exit::Fault(x) => {
                    if q.inner_pc {
                        m.pc = 0;
                    }
                    vm.regs[8] = x as u64;
                    code!(2)
                }
                Exit::Host(x) => {
                    m.pc += 1 + p.skip(iv.pc as usize) as u64;
                    vm.regs[8] = x;
                    code!(3)
                }
                Exit::Oog => code!(4),
            }
        }
        13 => {
            let Some(m) = inner.remove(&r[7]) else {
                code!(WHO)
            };
            code!(m.pc)
        }
        _ => code!(WHAT),
    }
}
