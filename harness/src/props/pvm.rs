//! The virtual machine against the reference interpreter: instruction semantics, control flow,
//! faults, gas, program loading and standard-program invocation.
use crate::eng::{guard, hash_bytes, Cov, Prop, Src, Sub};
use crate::rj::pvm::{self, Acc, Exit, Prog, Vm, PG, ZZ};
use fr_pvm_core::interpreter::Interpreter;
use fr_pvm_core::program::loader::ProgramLoader;
use fr_pvm_core::program::types::program_state::ProgramState;
use fr_pvm_core::state::memory::{AccessType, Memory};
use fr_pvm_core::state::vm_state::VMState;
use fr_pvm_types::exit_reason::ExitReason;

type R = Result<(), String>;
const MEM: usize = 1 << 32;

pub fn to_impl(vm: &Vm) -> VMState {
    let mut m = Memory::new(MEM, PG as usize);
    for (p, (data, a)) in &vm.mem.pages {
        let i = *p as usize;
        if data.iter().any(|x| *x != 0) {
            m.set_page_range_access(i..i + 1, AccessType::ReadWrite)
                .unwrap();
            m.write_bytes(p * PG as u32, data).unwrap();
        }
        let acc = match a {
            None => AccessType::Inaccessible,
            Some(Acc::R) => AccessType::ReadOnly,
            Some(Acc::W) => AccessType::ReadWrite,
        };
        m.set_page_range_access(i..i + 1, acc).unwrap();
    }
    m.heap_start = 2 * ZZ as u32;
    m.heap_end = vm.hp as u32;
    m.stack_start = vm.stack_start as u32;
    VMState {
        regs: vm.regs,
        memory: m,
        pc: vm.pc,
        gas_counter: vm.gas,
    }
}

pub fn same_memory(vm: &Vm, st: &VMState) -> R {
    let mut near: Vec<u32> = vec![];
    for (p, (data, a)) in &vm.mem.pages {
        let i = *p as usize;
        let r = st.memory.is_page_range_readable(i..i + 1);
        let w = st.memory.is_page_range_writable(i..i + 1);
        if (r, w) != (a.is_some(), *a == Some(Acc::W)) {
            return Err(format!(
                "page {i:#x}: access read={r} write={w}, expected {a:?}"
            ));
        }
        if a.is_some() {
            let b = st
                .memory
                .read_bytes(p * PG as u32, PG as usize)
                .map_err(|e| format!("page {i:#x}: {e}"))?;
            if b != *data {
                let q = (0..PG as usize).find(|q| b[*q] != data[*q]).unwrap();
                return Err(format!(
                    "memory at {:#x} is {:#x}, expected {:#x}",
                    *p as usize * PG as usize + q,
                    b[q],
                    data[q]
                ));
            }
        }
        near.push(p.wrapping_sub(1));
        near.push(p + 1);
    }
    for p in near {
        if p < 1 << 20
            && !vm.mem.pages.contains_key(&p)
            && st.memory.is_page_range_readable(p as usize..p as usize + 1)
        {
            return Err(format!("page {p:#x} became accessible"));
        }
    }
    Ok(())
}

fn exit_eq(e: &Exit, i: &ExitReason) -> bool {
    match (e, i) {
        (Exit::Halt, ExitReason::RegularHalt)
        | (Exit::Panic, ExitReason::Panic)
        | (Exit::Oog, ExitReason::OutOfGas) => true,
        (Exit::Fault(a), ExitReason::PageFault(b)) => a == b,
        (Exit::Host(n), ExitReason::HostCall(h)) => n == h,
        _ => false,
    }
}

/// Operand and register values on the edges of the arithmetic.
pub fn val(s: &mut Src) -> u64 {
    match s.weighted(&[4, 4, 3, 3, 3, 2, 2]) {
        0 => s.upto(40),
        1 => *s.pick(&[
            0,
            1,
            u64::MAX,
            i64::MIN as u64,
            i64::MAX as u64,
            0x8000_0000,
            0x7fff_ffff,
            0xffff_ffff,
            0xffff_ffff_8000_0000,
            0xffff_ffff_7fff_ffff,
            1 << 32,
            0x8000,
            0x80,
            0xffff,
            0xff,
        ]),
        2 => s.upto(u64::MAX),
        3 => (s.upto(u32::MAX as u64) as u32 as i32) as i64 as u64,
        4 => s.u64_any(),
        5 => addr(s),
        _ => !s.u64_any(),
    }
}
/// Addresses near the boundaries of the mapped pages (and of the address space).
fn addr(s: &mut Src) -> u64 {
    let base = *s.pick(&[
        0x20000u64,
        0x21000,
        0x22000,
        0x10000,
        0x23000,
        0x1_0000_0000,
        0xffff_f000,
        0,
        0x24000,
    ]);
    let d = match s.weighted(&[3, 3, 1]) {
        0 => s.upto(24),
        1 => s.upto(16).wrapping_sub(9),
        _ => s.upto(4095),
    };
    let a = base.wrapping_add(d);
    if s.chance(1, 6) {
        a.wrapping_add(s.upto(u32::MAX as u64) << 32)
    } else {
        a
    }
}

fn machine(s: &mut Src) -> Vm {
    let mut vm = Vm::default();
    vm.mem.map(0x10000, PG, Acc::R);
    vm.mem.map(0x20000, 2 * PG, Acc::W);
    vm.mem.map(0x22000, PG, Acc::R);
    if s.chance(1, 3) {
        vm.mem
            .map(0xffff_f000, PG, if s.coin() { Acc::W } else { Acc::R });
    }
    for a in [0x10000u64, 0x20000, 0x21000, 0x22000, 0xffff_f000] {
        if vm.mem.readable(a, 1) && s.chance(2, 3) {
            let b = s.blob(PG as usize);
            vm.mem.poke(a, &b);
        }
    }
    for i in 0..13 {
        vm.regs[i] = val(s);
    }
    vm.hp = 0x23000 + s.upto(1) * 0x800;
    vm.stack_start = 0x40000;
    vm.gas = match s.weighted(&[8, 1, 1]) {
        0 => 300,
        1 => s.upto(20) as i64,
        _ => i64::MAX,
    };
    vm
}

fn pc(s: &mut Src, n: usize) -> u64 {
    match s.weighted(&[14, 1, 1, 1]) {
        0 => 0,
        1 => s.upto(n as u64 + 2),
        2 => s.u64_any(),
        _ => n as u64,
    }
}

/// Runs the program on both machines, answering host calls the same way on both sides.
fn compare(s: &mut Src, cov: &mut Cov, blob: &[u8], mut vm: Vm, what: &str) -> R {
    cov.eval();
    let Some(p) = Prog::deblob(blob) else {
        return Err("harness: malformed program".into());
    };
    let mut ps = ProgramState::default();
    guard(|| ProgramLoader::load_program(blob, &mut ps))
        .map_err(|e| format!("{what}: loading {} crashed: {e}", hex::encode(blob)))?
        .map_err(|e| format!("{what}: program {} rejected: {e}", hex::encode(blob)))?;
    let mut st = to_impl(&vm);
    let show = |vm: &Vm| {
        format!(
            "program {} (code {}), pc {}, gas {}, regs {:x?}",
            hex::encode(blob),
            hex::encode(&p.c),
            vm.pc,
            vm.gas,
            vm.regs
        )
    };
    let init = show(&vm);
    if vm.gas > 1_000_000 {
        // keep unbounded loops finite: the reference runs first with a step budget
        let mut probe = vm.clone();
        probe.gas = 3000;
        if matches!(pvm::run(&p, &mut probe), Exit::Oog | Exit::Host(_)) {
            vm.gas = 300;
            st.gas_counter = 300;
        }
    }
    let mut hosts = 0;
    loop {
        let e = pvm::run(&p, &mut vm);
        let i = guard(|| Interpreter::invoke_general(&mut st, &ps))
            .map_err(|m| format!("{what}: crashed: {m}\nexpected {e:?}; {init}"))?
            .map_err(|m| format!("{what}: aborted: {m}\nexpected {e:?}; {init}"))?;
        if !exit_eq(&e, &i) {
            return Err(format!(
                "{what}: exit {i:?}, expected {e:?}\n{init}\nreference ends with {}",
                show(&vm)
            ));
        }
        let gas = if e == Exit::Oog { -1 } else { vm.gas };
        if st.gas_counter != gas {
            return Err(format!(
                "{what}: gas left {}, expected {gas} after {e:?}\n{init}",
                st.gas_counter
            ));
        }
        if st.regs != vm.regs {
            let k = (0..13).find(|k| st.regs[*k] != vm.regs[*k]).unwrap();
            return Err(format!(
                "{what}: register {k} is {:#x}, expected {:#x} after {e:?}\n{init}",
                st.regs[k], vm.regs[k]
            ));
        }
        if matches!(e, Exit::Host(_) | Exit::Oog) && st.pc != vm.pc {
            return Err(format!(
                "{what}: stopped at {}, expected {} after {e:?}\n{init}",
                st.pc, vm.pc
            ));
        }
        if !(e == Exit::Oog && p.c.get(vm.pc as usize) == Some(&101)) {
            same_memory(&vm, &st).map_err(|m| format!("{what}: {m} after {e:?}\n{init}"))?;
        }
        match e {
            Exit::Halt => cov.tag("exit-halt"),
            Exit::Panic => cov.tag("exit-panic"),
            Exit::Oog => cov.tag("exit-oog"),
            Exit::Fault(_) => cov.tag("exit-fault"),
            Exit::Host(_) => cov.tag("exit-host"),
        }
        if let Exit::Host(_) = e {
            hosts += 1;
            if hosts > 40 {
                break;
            }
            let next = vm.pc + 1 + p.skip(vm.pc as usize) as u64;
            let got = Interpreter::next_pc(st.pc, &ps);
            if got != next {
                return Err(format!(
                    "{what}: continues a host call at {got}, expected {next}\n{init}"
                ));
            }
            let v = s.u64_any();
            vm.regs[7] = v;
            st.regs[7] = v;
            vm.pc = next;
            st.pc = next;
            continue;
        }
        break;
    }
    if vm.steps >= 2 || p.c.len() < 16 {
        let mut h = vm.seen.clone();
        h.extend(vm.regs.iter().flat_map(|r| r.to_le_bytes()));
        cov.nt(hash_bytes(&h));
    }
    cov.sample(|| format!("{what}: {} -> {} steps", init, vm.steps));
    Ok(())
}

const OPS: &[u8] = &[
    0, 1, 10, 20, 30, 31, 32, 33, 40, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 70, 71,
    72, 73, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 100, 101, 102, 103, 104, 105, 106, 107,
    108, 109, 110, 111, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134,
    135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153,
    154, 155, 156, 157, 158, 159, 160, 161, 170, 171, 172, 173, 174, 175, 180, 190, 191, 192, 193,
    194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212,
    213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230,
];

fn reg(s: &mut Src) -> u8 {
    if s.chance(1, 10) {
        s.upto(15) as u8
    } else {
        s.upto(12) as u8
    }
}
/// An immediate in 0..=4 octets.
fn immediate(s: &mut Src) -> Vec<u8> {
    let v = val(s);
    let n = match s.weighted(&[2, 1, 1, 1, 6]) {
        0 => 1,
        1 => 0,
        2 => 2,
        3 => 3,
        _ => 4,
    };
    v.to_le_bytes()[..n].to_vec()
}
fn address(s: &mut Src) -> Vec<u8> {
    let v = addr(s);
    let n = *s.pick(&[4usize, 4, 4, 3, 2]);
    v.to_le_bytes()[..n].to_vec()
}

enum Arg {
    Bytes(Vec<u8>),
    /// Offset to the n-th instruction in w octets.
    To(usize, usize),
}

/// One instruction with operands that make sense for its format.
fn instruction(s: &mut Src, op: u8, n: usize) -> Vec<Arg> {
    let b = |v: Vec<u8>| Arg::Bytes(v);
    let two = |s: &mut Src| {
        let a = reg(s);
        let c = reg(s);
        a | c << 4
    };
    let to = |s: &mut Src| {
        let t = s.us(0, n);
        let w = *s.pick(&[2usize, 4, 1, 3]);
        Arg::To(t, w)
    };
    match op {
        10 => {
            let v = match s.weighted(&[4, 2, 1, 1]) {
                0 => s.upto(28),
                1 => 100,
                2 => s.upto(300),
                _ => s.u64_any(),
            };
            let w = *s.pick(&[1usize, 2, 4, 3]);
            vec![b(vec![op]), b(v.to_le_bytes()[..w].to_vec())]
        }
        20 => vec![b(vec![op, reg(s)]), b(val(s).to_le_bytes().to_vec())],
        30..=33 => {
            let x = address(s);
            vec![b(vec![op, x.len() as u8]), b(x), b(immediate(s))]
        }
        40 => vec![b(vec![op]), to(s)],
        50 => vec![b(vec![op, reg(s)]), b(immediate(s))],
        51 => vec![b(vec![op, reg(s)]), b(immediate(s))],
        52..=62 => vec![b(vec![op, reg(s)]), b(address(s))],
        70..=73 => {
            let x = if s.coin() { address(s) } else { immediate(s) };
            vec![
                b(vec![op, reg(s) | (x.len() as u8) << 4]),
                b(x),
                b(immediate(s)),
            ]
        }
        80..=90 => {
            let x = immediate(s);
            vec![b(vec![op, reg(s) | (x.len() as u8) << 4]), b(x), to(s)]
        }
        100..=111 => vec![b(vec![op, two(s)])],
        120..=130 => vec![
            b(vec![op, two(s)]),
            b(if s.coin() {
                vec![s.upto(8) as u8]
            } else {
                address(s)
            }),
        ],
        131..=161 => vec![b(vec![op, two(s)]), b(immediate(s))],
        170..=175 => vec![b(vec![op, two(s)]), to(s)],
        180 => {
            let x = immediate(s);
            vec![b(vec![op, two(s), x.len() as u8]), b(x), b(immediate(s))]
        }
        190..=230 => vec![b(vec![op, two(s), reg(s)])],
        _ => vec![b(vec![op])],
    }
}

/// A structured program: valid instructions, branches to instruction starts, a jump table.
pub fn program(s: &mut Src) -> Vec<u8> {
    let n = s.us(1, 20);
    let nj = s.us(0, 4);
    let mut ins: Vec<Vec<Arg>> = vec![];
    for _ in 0..n {
        match s.weighted(&[10, 3, 2, 2, 2, 1]) {
            0 => ins.push({
                let op = *s.pick(OPS);
                instruction(s, op, n)
            }),
            1 => ins.push({
                let op = *s.pick(&[
                    52u8, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 30, 31, 32, 33, 120, 121, 122,
                    123, 124, 125, 126, 127, 128, 129, 130, 70, 71, 72, 73,
                ]);
                instruction(s, op, n)
            }),
            2 => ins.push({
                let op = *s.pick(&[
                    81u8, 82, 83, 84, 85, 86, 87, 88, 89, 90, 170, 171, 172, 173, 174, 175, 80,
                ]);
                instruction(s, op, n)
            }),
            3 if nj > 0 => {
                // a dynamic jump through the table
                let r = reg(s);
                let v = 2 * (s.upto(nj as u64) as u32 + 1) - s.chance(1, 10) as u32;
                ins.push(vec![
                    Arg::Bytes(vec![51, r]),
                    Arg::Bytes(v.to_le_bytes()[..2].to_vec()),
                ]);
                if s.coin() {
                    ins.push(vec![Arg::Bytes(vec![50, r, 0])]);
                } else {
                    ins.push(vec![Arg::Bytes(vec![
                        180,
                        reg(s) | r << 4,
                        1,
                        s.upto(255) as u8,
                        0,
                    ])]);
                }
            }
            4 => ins.push(vec![Arg::Bytes(vec![1])]),
            _ if s.coin() => {
                // halt
                let r = reg(s).min(12);
                ins.push(vec![
                    Arg::Bytes(vec![51, r]),
                    Arg::Bytes(vec![0, 0, 0xff, 0xff]),
                ]);
                ins.push(vec![Arg::Bytes(vec![50, r])]);
            }
            _ => {
                // heap growth
                let r = reg(s).min(12);
                let v: u64 = match s.weighted(&[4, 2, 1, 1]) {
                    0 => s.upto(5000),
                    1 => 0,
                    2 => s.upto(0x20000),
                    _ => s.u64_any(),
                };
                let mut i = vec![20, r];
                i.extend(v.to_le_bytes());
                ins.push(vec![Arg::Bytes(i)]);
                ins.push(vec![Arg::Bytes(vec![101, reg(s) | r << 4])]);
            }
        }
    }
    let mut at = vec![];
    let mut o = 0;
    for i in &ins {
        at.push(o);
        o += i
            .iter()
            .map(|a| match a {
                Arg::Bytes(b) => b.len(),
                Arg::To(_, w) => *w,
            })
            .sum::<usize>();
    }
    at.push(o);
    let (mut c, mut k) = (vec![], vec![]);
    for (x, i) in ins.iter().enumerate() {
        k.push(true);
        for a in i {
            match a {
                Arg::Bytes(b) => c.extend_from_slice(b),
                Arg::To(t, w) => {
                    let mut d = at[*t] as i64 - at[x] as i64;
                    if s.chance(1, 20) {
                        d += s.upto(4) as i64 - 2;
                    }
                    c.extend_from_slice(&d.to_le_bytes()[..*w]);
                }
            }
        }
        k.resize(c.len(), false);
    }
    if s.chance(1, 3) {
        // pathological layouts: changed bytes, extra or missing instruction marks, a cut-off tail
        for _ in 0..s.us(1, 3) {
            let i = s.us(0, c.len() - 1);
            match s.weighted(&[3, 2, 2]) {
                0 => c[i] = s.upto(255) as u8,
                1 => k[i] = !k[i],
                _ => {
                    c.truncate(i + 1);
                    k.truncate(i + 1);
                }
            }
        }
    }
    let z = s.us(1, 4);
    let j: Vec<u64> = (0..nj)
        .map(|_| match s.weighted(&[6, 1, 1]) {
            0 => at[s.us(0, at.len() - 1)] as u64,
            1 => s.upto(c.len() as u64 + 1),
            _ => s.u64_any(),
        })
        .collect();
    pvm::blob(&c, &k, &j, z)
}

fn single(s: &mut Src, cov: &mut Cov) -> R {
    // one instruction on random operands, preceded by nothing, followed by a trap
    for _ in 0..8 {
        let op = if s.chance(1, 12) {
            s.upto(255) as u8
        } else {
            *s.pick(OPS)
        };
        let mut c = vec![];
        for a in instruction(s, op, 3) {
            match a {
                Arg::Bytes(b) => c.extend(b),
                Arg::To(t, w) => c.extend_from_slice(&(3 * t as u64).to_le_bytes()[..w]),
            }
        }
        let mut k = vec![true];
        k.resize(c.len(), false);
        let cut = s.chance(1, 10);
        if !cut {
            c.extend([1, 1, 0]);
            k.extend([true; 3]);
        }
        let mut vm = machine(s);
        // register operands often address mapped memory
        for i in 0..13 {
            if s.chance(1, 4) {
                vm.regs[i] = addr(s);
            }
        }
        // pairs of extreme operands
        if c.len() > 1 && s.coin() {
            for r in [c[1] & 15, c[1] >> 4] {
                vm.regs[r.min(12) as usize] = *s.pick(&[
                    u64::MAX,
                    i64::MIN as u64,
                    i32::MIN as i64 as u64,
                    0x8000_0000,
                    0xffff_ffff,
                    0,
                    1,
                ]);
            }
        }
        compare(
            s,
            cov,
            &pvm::blob(&c, &k, &[3, 6], 1),
            vm,
            "single instruction",
        )?;
    }
    Ok(())
}

fn programs(s: &mut Src, cov: &mut Cov) -> R {
    let b = program(s);
    let mut vm = machine(s);
    let n = Prog::deblob(&b).map(|p| p.c.len()).unwrap_or(0);
    vm.pc = pc(s, n);
    compare(s, cov, &b, vm, "program")
}

fn noise(s: &mut Src, cov: &mut Cov) -> R {
    let n = s.us(0, 80);
    let c: Vec<u8> = (0..n)
        .map(|_| {
            if s.coin() {
                *s.pick(OPS)
            } else {
                s.upto(255) as u8
            }
        })
        .collect();
    let den = s.range(1, 6);
    let mut k: Vec<bool> = (0..n).map(|_| s.upto(den) == 0).collect();
    if n > 0 {
        k[0] = !s.chance(1, 10);
    }
    let j: Vec<u64> = (0..s.us(0, 3)).map(|_| s.upto(n as u64 + 2)).collect();
    let mut vm = machine(s);
    vm.pc = pc(s, n);
    compare(s, cov, &pvm::blob(&c, &k, &j, 2), vm, "random code")
}

/// A length, sometimes not in its shortest form or far too large.
fn length(s: &mut Src, x: u64) -> Vec<u8> {
    match s.weighted(&[10, 1, 1, 1]) {
        0 => crate::rj::codec::nat(x),
        1 => {
            let l = s.us(1, 8);
            let mut v = vec![
                (256u32 - (1 << (8 - l))
                    + if l < 8 {
                        (x >> (8 * l)) as u32 & ((1 << (7 - l)) - 1)
                    } else {
                        0
                    }) as u8,
            ];
            v.extend_from_slice(&x.to_le_bytes()[..l]);
            v
        }
        2 => crate::rj::codec::nat(s.u64_any()),
        _ => crate::rj::codec::nat(x.wrapping_add(s.upto(4)).wrapping_sub(2)),
    }
}

/// Program blobs that may be malformed: accepted exactly when well-formed, and then run as specified.
fn blobs(s: &mut Src, cov: &mut Cov) -> R {
    let valid = program(s);
    let p = Prog::deblob(&valid).ok_or("harness: malformed program")?;
    let blob = match s.weighted(&[4, 2, 1]) {
        0 => {
            let z = match s.weighted(&[4, 1, 2]) {
                0 => s.us(1, 4),
                1 => 0,
                _ => s.us(5, 12),
            };
            let mut v = length(s, p.j.len() as u64);
            v.push(if s.chance(1, 15) {
                s.upto(255) as u8
            } else {
                z as u8
            });
            v.extend(length(s, p.c.len() as u64));
            for x in &p.j {
                let mut e = x.to_le_bytes().to_vec();
                e.resize(12, 0);
                if z > 4 {
                    if s.chance(1, 2) {
                        e[4..].fill(0);
                    } else {
                        e[s.us(4, z - 1)] = s.upto(255) as u8;
                    }
                }
                v.extend_from_slice(&e[..z]);
            }
            v.extend_from_slice(&p.c);
            let mut kb = vec![0u8; p.c.len().div_ceil(8)];
            for (i, b) in p.k.iter().enumerate() {
                kb[i / 8] |= (*b as u8) << (i % 8);
            }
            if s.chance(1, 6) && p.c.len() % 8 != 0 {
                *kb.last_mut().unwrap() |= 1 << s.us(p.c.len() % 8, 7);
            }
            v.extend(kb);
            if s.chance(1, 10) {
                v.push(0);
            }
            if s.chance(1, 10) {
                v.truncate(s.us(0, v.len()));
            }
            v
        }
        1 => {
            let mut v = valid.clone();
            for _ in 0..s.us(1, 3) {
                let i = s.us(0, v.len().min(8) - 1);
                v[i] = if s.coin() {
                    s.upto(255) as u8
                } else {
                    v[i] ^ 1 << s.upto(7)
                };
            }
            v
        }
        _ => {
            let n = s.us(0, 12);
            (0..n)
                .map(|_| {
                    if s.coin() {
                        s.upto(3) as u8
                    } else {
                        s.upto(255) as u8
                    }
                })
                .collect()
        }
    };
    let mut vm = machine(s);
    vm.pc = pc(s, p.c.len());
    if Prog::deblob(&blob).is_some() {
        cov.tag("well-formed");
        return compare(s, cov, &blob, vm, "well-formed blob");
    }
    cov.tag("malformed");
    cov.eval();
    cov.nt(hash_bytes(&blob));
    let mut ps = ProgramState::default();
    let r = guard(|| ProgramLoader::load_program(&blob, &mut ps)).map_err(|e| {
        format!(
            "malformed program {} crashed the loader: {e}",
            hex::encode(&blob)
        )
    })?;
    if r.is_ok() {
        return Err(format!("malformed program {} accepted", hex::encode(&blob)));
    }
    Ok(())
}

pub fn semantics() -> Prop {
    Prop {
        id: "C14",
        rule: "a run of at least two instructions (or a single-instruction probe), distinct by executed opcodes and final registers; or a malformed blob, distinct by its octets",
        assumptions: &[],
        subs: vec![
            Sub { name: "single", quick: 16000, thorough: 600_000, f: single, threads: 0 },
            Sub { name: "programs", quick: 40000, thorough: 1_500_000, f: programs, threads: 0 },
            Sub { name: "blobs", quick: 25000, thorough: 800_000, f: blobs, threads: 0 },
            Sub { name: "noise", quick: 15000, thorough: 500_000, f: noise, threads: 0 },
        ],
    }
}
