//! Reference PVM interpreter (GP appendix A), written from the instruction tables.
use super::state::read_nat;
use std::collections::BTreeMap;

pub const PG: u64 = 4096;
pub const ZZ: u64 = 1 << 16;
pub const ZI: u64 = 1 << 24;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc {
    R,
    W,
}
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Mem {
    pub pages: BTreeMap<u32, (Vec<u8>, Option<Acc>)>,
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Exit {
    Halt,
    Panic,
    Fault(u32),
    Host(u64),
    Oog,
}

impl Mem {
    pub fn map(&mut self, start: u64, len: u64, a: Acc) {
        if len == 0 {
            return;
        }
        for p in start / PG..=(start + len - 1) / PG {
            self.pages
                .entry(p as u32)
                .or_insert_with(|| (vec![0; PG as usize], None))
                .1 = Some(a);
        }
    }
    pub fn poke(&mut self, mut a: u64, b: &[u8]) {
        for x in b {
            self.pages.get_mut(&((a / PG) as u32)).unwrap().0[(a % PG) as usize] = *x;
            a += 1;
        }
    }
    pub fn readable(&self, a: u64, n: u64) -> bool {
        n == 0
            || (a + n <= 1 << 32
                && (a / PG..=(a + n - 1) / PG)
                    .all(|p| self.pages.get(&(p as u32)).is_some_and(|p| p.1.is_some())))
    }
    pub fn writable(&self, a: u64, n: u64) -> bool {
        n == 0
            || (a + n <= 1 << 32
                && (a / PG..=(a + n - 1) / PG).all(|p| {
                    self.pages
                        .get(&(p as u32))
                        .is_some_and(|p| p.1 == Some(Acc::W))
                }))
    }
    pub fn peek(&self, a: u64, n: u64) -> Vec<u8> {
        (a..a + n)
            .map(|x| self.pages[&((x / PG) as u32)].0[(x % PG) as usize])
            .collect()
    }
    /// Instruction-level access: the fault to raise, if any (addresses taken modulo 2^32).
    fn check(&self, a: u32, n: u32, w: bool) -> Result<(), Exit> {
        let mut bad: Option<u32> = None;
        for i in 0..n {
            let x = a.wrapping_add(i);
            let ok = self.pages.get(&(x / PG as u32)).is_some_and(|p| {
                if w {
                    p.1 == Some(Acc::W)
                } else {
                    p.1.is_some()
                }
            });
            if !ok {
                bad = Some(bad.map_or(x, |b| b.min(x)));
            }
        }
        match bad {
            None => Ok(()),
            Some(b) if (b as u64) < ZZ => Err(Exit::Panic),
            Some(b) => Err(Exit::Fault(b / PG as u32 * PG as u32)),
        }
    }
    fn rd(&self, a: u64, n: u32) -> Result<u64, Exit> {
        let a = a as u32;
        self.check(a, n, false)?;
        let mut v = 0u64;
        for i in 0..n {
            let x = a.wrapping_add(i);
            v |= (self.pages[&(x / PG as u32)].0[(x % PG as u32) as usize] as u64) << (8 * i);
        }
        Ok(v)
    }
    fn wr(&mut self, a: u64, v: u64, n: u32) -> Result<(), Exit> {
        let a = a as u32;
        self.check(a, n, true)?;
        for i in 0..n {
            let x = a.wrapping_add(i);
            self.pages.get_mut(&(x / PG as u32)).unwrap().0[(x % PG as u32) as usize] =
                (v >> (8 * i)) as u8;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Prog {
    pub c: Vec<u8>,
    pub k: Vec<bool>,
    pub j: Vec<u64>,
    pub bb: Vec<bool>,
}

pub fn known(op: u8) -> bool {
    matches!(op, 0 | 1 | 10 | 20 | 30..=33 | 40 | 50..=62 | 70..=73 | 80..=90 | 100..=111 | 120..=161 | 170..=175 | 180 | 190..=230)
}
pub fn terminator(op: u8) -> bool {
    matches!(op, 0 | 1 | 40 | 50 | 80..=90 | 170..=175 | 180)
}

impl Prog {
    pub fn new(c: Vec<u8>, k: Vec<bool>, j: Vec<u64>) -> Prog {
        let mut p = Prog {
            c,
            k,
            j,
            bb: vec![],
        };
        let n = p.c.len();
        p.bb = vec![false; n];
        let start = |p: &Prog, i: usize| i < n && p.k[i] && known(p.c[i]);
        if start(&p, 0) {
            p.bb[0] = true;
        }
        for i in 0..n {
            if p.k[i] && terminator(p.c[i]) {
                let t = i + 1 + p.skip(i);
                if start(&p, t) {
                    p.bb[t] = true;
                }
            }
        }
        p
    }
    pub fn skip(&self, i: usize) -> usize {
        (0..24)
            .find(|j| self.k.get(i + 1 + j).copied().unwrap_or(true))
            .unwrap_or(24)
    }
    fn at(&self, i: usize) -> u8 {
        self.c.get(i).copied().unwrap_or(0)
    }
    pub fn deblob(b: &[u8]) -> Option<Prog> {
        let (jn, a) = read_nat(b)?;
        let z = *b.get(a)? as usize;
        let (cn, n) = read_nat(b.get(a + 1..)?)?;
        let mut o = a + 1 + n;
        let jl = usize::try_from(jn).ok()?.checked_mul(z)?;
        let cl = usize::try_from(cn).ok()?;
        let rest = b.len() - o;
        let tot = jl.checked_add(cl)?.checked_add(cl.div_ceil(8))?;
        if tot != rest
            || (z == 0 && jn > rest as u64)
            || (cl % 8 != 0 && b[b.len() - 1] >> (cl % 8) != 0)
        {
            return None;
        }
        let mut j = vec![];
        for i in 0..jn as usize {
            let mut v = 0u64;
            for q in 0..z {
                let x = b[o + i * z + q] as u64;
                if q < 8 {
                    v |= x << (8 * q);
                } else if x != 0 {
                    v = u64::MAX;
                }
            }
            j.push(v);
        }
        o += jl;
        let c = b[o..o + cl].to_vec();
        let kb = &b[o + cl..];
        let k = (0..cl).map(|i| kb[i / 8] >> (i % 8) & 1 == 1).collect();
        Some(Prog::new(c, k, j))
    }
}

pub fn blob(c: &[u8], k: &[bool], j: &[u64], z: usize) -> Vec<u8> {
    let mut v = super::codec::nat(j.len() as u64);
    v.push(z as u8);
    v.extend(super::codec::nat(c.len() as u64));
    for x in j {
        v.extend_from_slice(&x.to_le_bytes()[..z]);
    }
    v.extend_from_slice(c);
    let mut kb = vec![0u8; c.len().div_ceil(8)];
    for (i, b) in k.iter().enumerate() {
        kb[i / 8] |= (*b as u8) << (i % 8);
    }
    v.extend(kb);
    v
}

/// Standard program blob.
pub fn standard(o: &[u8], w: &[u8], z: u16, s: u32, code: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&(o.len() as u32).to_le_bytes()[..3]);
    v.extend_from_slice(&(w.len() as u32).to_le_bytes()[..3]);
    v.extend_from_slice(&z.to_le_bytes());
    v.extend_from_slice(&s.to_le_bytes()[..3]);
    v.extend_from_slice(o);
    v.extend_from_slice(w);
    v.extend_from_slice(&(code.len() as u32).to_le_bytes());
    v.extend_from_slice(code);
    v
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vm {
    pub regs: [u64; 13],
    pub mem: Mem,
    pub pc: u64,
    pub gas: i64,
    pub hp: u64,
    pub stack_start: u64,
    pub steps: u64,
    pub wild: bool,
    /// Opcodes executed (coverage only).
    pub seen: Vec<u8>,
}

fn zalign(x: u64) -> u64 {
    x.div_ceil(ZZ) * ZZ
}
fn palign(x: u64) -> u64 {
    x.div_ceil(PG) * PG
}

/// Standard program initialization: (code blob, machine).
pub fn init(p: &[u8], args: &[u8]) -> Option<(Vec<u8>, Vm)> {
    let le = |o: usize, n: usize| -> Option<u64> {
        let s = p.get(o..o + n)?;
        Some(
            s.iter()
                .enumerate()
                .map(|(i, x)| (*x as u64) << (8 * i))
                .sum(),
        )
    };
    let (ol, wl, z, s) = (le(0, 3)?, le(3, 3)?, le(6, 2)?, le(8, 3)?);
    let mut off = 11;
    let o = p.get(off..off + ol as usize)?;
    off += ol as usize;
    let w = p.get(off..off + wl as usize)?;
    off += wl as usize;
    let cl = le(off, 4)? as usize;
    off += 4;
    let c = p.get(off..off.checked_add(cl)?)?;
    if off + cl != p.len() || args.len() as u64 > ZI {
        return None;
    }
    if 5 * ZZ + zalign(ol) + zalign(wl + z * PG) + zalign(s) + ZI > 1 << 32 {
        return None;
    }
    let mut vm = Vm::default();
    vm.mem.map(ZZ, ol, Acc::R);
    vm.mem.poke(ZZ, o);
    let ws = 2 * ZZ + zalign(ol);
    vm.mem.map(ws, palign(wl) + z * PG, Acc::W);
    vm.mem.poke(ws, w);
    vm.hp = ws + palign(wl) + z * PG;
    let se = (1u64 << 32) - 2 * ZZ - ZI;
    vm.mem.map(se - palign(s), palign(s), Acc::W);
    vm.stack_start = se - palign(s);
    let a = (1u64 << 32) - ZZ - ZI;
    vm.mem.map(a, args.len() as u64, Acc::R);
    vm.mem.poke(a, args);
    vm.regs[0] = (1 << 32) - (1 << 16);
    vm.regs[1] = se;
    vm.regs[7] = a;
    vm.regs[8] = args.len() as u64;
    Some((c.to_vec(), vm))
}

fn sx(v: u64, n: usize) -> u64 {
    if n == 0 {
        return 0;
    }
    if n >= 8 {
        return v;
    }
    let s = 64 - 8 * n as u32;
    (((v << s) as i64) >> s) as u64
}

pub fn run(p: &Prog, vm: &mut Vm) -> Exit {
    loop {
        match step(p, vm) {
            Ok(()) => {}
            Err(e) => return e,
        }
    }
}

/// One instruction. On Host the pc stays on the ecalli instruction.
pub fn step(p: &Prog, vm: &mut Vm) -> Result<(), Exit> {
    vm.gas -= 1;
    if vm.gas < 0 {
        return Err(Exit::Oog);
    }
    vm.steps += 1;
    let i = usize::try_from(vm.pc)
        .unwrap_or(usize::MAX / 2)
        .min(usize::MAX / 2);
    if i >= p.c.len() || !p.k[i] || !known(p.c[i]) {
        return Err(Exit::Panic);
    }
    let op = p.c[i];
    if vm.seen.len() < 4096 {
        vm.seen.push(op);
    }
    let l = p.skip(i);
    let next = (i + 1 + l) as u64;
    let b1 = p.at(i + 1);
    let lo = (b1 % 16).min(12) as usize;
    let hi = (b1 / 16).min(12) as usize;
    let le = |o: usize, n: usize| -> u64 { (0..n).map(|q| (p.at(o + q) as u64) << (8 * q)).sum() };
    let imm = |o: usize, n: usize| -> u64 { sx(le(o, n), n) };
    let r = vm.regs;
    macro_rules! branch {
        ($c:expr, $t:expr) => {{
            let t: u64 = $t;
            if $c {
                if (t as usize) < p.bb.len() && p.bb[t as usize] {
                    vm.pc = t;
                } else {
                    return Err(Exit::Panic);
                }
            } else {
                vm.pc = next;
            }
            return Ok(());
        }};
    }
    macro_rules! djump {
        ($a:expr) => {{
            let a: u64 = ($a) % (1 << 32);
            if a == (1 << 32) - (1 << 16) {
                return Err(Exit::Halt);
            }
            if a == 0 || a % 2 != 0 || a / 2 > p.j.len() as u64 {
                return Err(Exit::Panic);
            }
            let t = p.j[(a / 2 - 1) as usize];
            if t >= p.bb.len() as u64 || !p.bb[t as usize] {
                return Err(Exit::Panic);
            }
            vm.pc = t;
            return Ok(());
        }};
    }
    let ext = |v: u64, n: usize| sx(v, n);
    let w32 = |v: u32| sx(v as u64, 4);
    match op {
        0 => return Err(Exit::Panic),
        1 => {}
        10 => return Err(Exit::Host(imm(i + 1, l.min(4)))),
        20 => vm.regs[lo] = le(i + 2, 8),
        30..=33 | 70..=73 => {
            let (lx, o) = if op < 40 {
                ((b1 % 8).min(4) as usize, i + 2)
            } else {
                ((b1 / 16 % 8).min(4) as usize, i + 2)
            };
            let ly = l.saturating_sub(lx + 1).min(4);
            let x = imm(o, lx);
            let y = imm(o + lx, ly);
            let n = 1u32 << (op % 10 - if op < 40 { 0 } else { 0 });
            let a = if op < 40 { x } else { r[lo].wrapping_add(x) };
            vm.mem.wr(a, y, n)?;
        }
        40 => branch!(true, (i as u64).wrapping_add(imm(i + 1, l.min(4)))),
        50..=62 => {
            let lx = l.saturating_sub(1).min(4);
            let x = imm(i + 2, lx);
            match op {
                50 => djump!(r[lo].wrapping_add(x)),
                51 => vm.regs[lo] = x,
                52 => vm.regs[lo] = vm.mem.rd(x, 1)?,
                53 => vm.regs[lo] = ext(vm.mem.rd(x, 1)?, 1),
                54 => vm.regs[lo] = vm.mem.rd(x, 2)?,
                55 => vm.regs[lo] = ext(vm.mem.rd(x, 2)?, 2),
                56 => vm.regs[lo] = vm.mem.rd(x, 4)?,
                57 => vm.regs[lo] = ext(vm.mem.rd(x, 4)?, 4),
                58 => vm.regs[lo] = vm.mem.rd(x, 8)?,
                _ => vm.mem.wr(x, r[lo], 1 << (op - 59))?,
            }
        }
        80..=90 => {
            let lx = (b1 / 16 % 8).min(4) as usize;
            let ly = l.saturating_sub(lx + 1).min(4);
            let x = imm(i + 2, lx);
            let t = (i as u64).wrapping_add(imm(i + 2 + lx, ly));
            let a = r[lo];
            let (sa, s) = (a as i64, x as i64);
            let c = match op {
                80 => {
                    // the register is written even when the jump target is bad (a panic)
                    vm.regs[lo] = x;
                    true
                }
                81 => a == x,
                82 => a != x,
                83 => a < x,
                84 => a <= x,
                85 => a >= x,
                86 => a > x,
                87 => sa < s,
                88 => sa <= s,
                89 => sa >= s,
                _ => sa > s,
            };
            branch!(c, t)
        }
        100..=111 => {
            let a = r[hi];
            vm.regs[lo] = match op {
                100 => a,
                101 => {
                    let h = vm.hp;
                    if a > 1 << 32 || h + a >= vm.stack_start {
                        // no room: nothing is allocated
                        0
                    } else {
                        vm.mem.map_new(h, a);
                        vm.hp = h + a;
                        h
                    }
                }
                102 => a.count_ones() as u64,
                103 => (a as u32).count_ones() as u64,
                104 => a.leading_zeros() as u64,
                105 => (a as u32).leading_zeros() as u64,
                106 => a.trailing_zeros() as u64,
                107 => (a as u32).trailing_zeros() as u64,
                108 => ext(a & 0xff, 1),
                109 => ext(a & 0xffff, 2),
                110 => a & 0xffff,
                _ => a.swap_bytes(),
            };
        }
        120..=161 => {
            let lx = l.saturating_sub(1).min(4);
            let x = imm(i + 2, lx);
            let (a, b) = (lo, hi);
            let rb = r[b];
            let ad = rb.wrapping_add(x);
            let sh = |v: u64, m: u64| (v % m) as u32;
            match op {
                120..=123 => vm.mem.wr(ad, r[a], 1 << (op - 120))?,
                124 => vm.regs[a] = vm.mem.rd(ad, 1)?,
                125 => vm.regs[a] = ext(vm.mem.rd(ad, 1)?, 1),
                126 => vm.regs[a] = vm.mem.rd(ad, 2)?,
                127 => vm.regs[a] = ext(vm.mem.rd(ad, 2)?, 2),
                128 => vm.regs[a] = vm.mem.rd(ad, 4)?,
                129 => vm.regs[a] = ext(vm.mem.rd(ad, 4)?, 4),
                130 => vm.regs[a] = vm.mem.rd(ad, 8)?,
                131 => vm.regs[a] = w32((rb as u32).wrapping_add(x as u32)),
                132 => vm.regs[a] = rb & x,
                133 => vm.regs[a] = rb ^ x,
                134 => vm.regs[a] = rb | x,
                135 => vm.regs[a] = w32((rb as u32).wrapping_mul(x as u32)),
                136 => vm.regs[a] = (rb < x) as u64,
                137 => vm.regs[a] = ((rb as i64) < x as i64) as u64,
                138 => vm.regs[a] = w32((rb as u32) << sh(x, 32)),
                139 => vm.regs[a] = w32((rb as u32) >> sh(x, 32)),
                140 => vm.regs[a] = (((rb as u32) as i32) >> sh(x, 32)) as i64 as u64,
                141 => vm.regs[a] = w32((x as u32).wrapping_sub(rb as u32)),
                142 => vm.regs[a] = (rb > x) as u64,
                143 => vm.regs[a] = ((rb as i64) > x as i64) as u64,
                144 => vm.regs[a] = w32((x as u32) << sh(rb, 32)),
                145 => vm.regs[a] = w32((x as u32) >> sh(rb, 32)),
                146 => vm.regs[a] = (((x as u32) as i32) >> sh(rb, 32)) as i64 as u64,
                147 => {
                    if rb == 0 {
                        vm.regs[a] = x
                    }
                }
                148 => {
                    if rb != 0 {
                        vm.regs[a] = x
                    }
                }
                149 => vm.regs[a] = rb.wrapping_add(x),
                150 => vm.regs[a] = rb.wrapping_mul(x),
                151 => vm.regs[a] = rb << sh(x, 64),
                152 => vm.regs[a] = rb >> sh(x, 64),
                153 => vm.regs[a] = ((rb as i64) >> sh(x, 64)) as u64,
                154 => vm.regs[a] = x.wrapping_sub(rb),
                155 => vm.regs[a] = x << sh(rb, 64),
                156 => vm.regs[a] = x >> sh(rb, 64),
                157 => vm.regs[a] = ((x as i64) >> sh(rb, 64)) as u64,
                158 => vm.regs[a] = rb.rotate_right(sh(x, 64)),
                159 => vm.regs[a] = x.rotate_right(sh(rb, 64)),
                160 => vm.regs[a] = w32((rb as u32).rotate_right(sh(x, 32))),
                _ => vm.regs[a] = w32((x as u32).rotate_right(sh(rb, 32))),
            }
        }
        170..=175 => {
            let lx = l.saturating_sub(1).min(4);
            let t = (i as u64).wrapping_add(imm(i + 2, lx));
            let (a, b) = (r[lo], r[hi]);
            let c = match op {
                170 => a == b,
                171 => a != b,
                172 => a < b,
                173 => (a as i64) < b as i64,
                174 => a >= b,
                _ => a as i64 >= b as i64,
            };
            branch!(c, t)
        }
        180 => {
            let lx = (p.at(i + 2) % 8).min(4) as usize;
            let ly = l.saturating_sub(lx + 2).min(4);
            let x = imm(i + 3, lx);
            let y = imm(i + 3 + lx, ly);
            let t = r[hi].wrapping_add(y) % (1 << 32);
            vm.regs[lo] = x;
            vm.pc = djump_target(p, t)?;
            return Ok(());
        }
        _ => {
            let (a, b) = (r[lo], r[hi]);
            let d = p.at(i + 2).min(12) as usize;
            let (a32, b32) = (a as u32, b as u32);
            let (sa, sb) = (a as i64, b as i64);
            let (sa32, sb32) = (a32 as i32, b32 as i32);
            let old = r[d];
            vm.regs[d] = match op {
                190 => w32(a32.wrapping_add(b32)),
                191 => w32(a32.wrapping_sub(b32)),
                192 => w32(a32.wrapping_mul(b32)),
                193 => {
                    if b32 == 0 {
                        u64::MAX
                    } else {
                        w32(a32 / b32)
                    }
                }
                194 => {
                    if b32 == 0 {
                        u64::MAX
                    } else {
                        sa32.wrapping_div(sb32) as i64 as u64
                    }
                }
                195 => {
                    if b32 == 0 {
                        w32(a32)
                    } else {
                        w32(a32 % b32)
                    }
                }
                196 => {
                    if b32 == 0 {
                        sa32 as i64 as u64
                    } else {
                        sa32.wrapping_rem(sb32) as i64 as u64
                    }
                }
                197 => w32(a32 << (b32 % 32)),
                198 => w32(a32 >> (b32 % 32)),
                199 => (sa32 >> (b32 % 32)) as i64 as u64,
                200 => a.wrapping_add(b),
                201 => a.wrapping_sub(b),
                202 => a.wrapping_mul(b),
                203 => {
                    if b == 0 {
                        u64::MAX
                    } else {
                        a / b
                    }
                }
                204 => {
                    if b == 0 {
                        u64::MAX
                    } else {
                        sa.wrapping_div(sb) as u64
                    }
                }
                205 => {
                    if b == 0 {
                        a
                    } else {
                        a % b
                    }
                }
                206 => {
                    if b == 0 {
                        a
                    } else {
                        sa.wrapping_rem(sb) as u64
                    }
                }
                207 => a << (b % 64),
                208 => a >> (b % 64),
                209 => (sa >> (b % 64)) as u64,
                210 => a & b,
                211 => a ^ b,
                212 => a | b,
                213 => ((sa as i128 * sb as i128) >> 64) as u64,
                214 => ((a as u128 * b as u128) >> 64) as u64,
                215 => ((sa as i128 * b as i128) >> 64) as u64,
                216 => (a < b) as u64,
                217 => (sa < sb) as u64,
                218 => {
                    if b == 0 {
                        a
                    } else {
                        old
                    }
                }
                219 => {
                    if b != 0 {
                        a
                    } else {
                        old
                    }
                }
                220 => a.rotate_left((b % 64) as u32),
                221 => w32(a32.rotate_left(b32 % 32)),
                222 => a.rotate_right((b % 64) as u32),
                223 => w32(a32.rotate_right(b32 % 32)),
                224 => a & !b,
                225 => a | !b,
                226 => !(a ^ b),
                227 => sa.max(sb) as u64,
                228 => a.max(b),
                229 => sa.min(sb) as u64,
                _ => a.min(b),
            };
        }
    }
    vm.pc = next;
    Ok(())
}

fn djump_target(p: &Prog, a: u64) -> Result<u64, Exit> {
    if a == (1 << 32) - (1 << 16) {
        return Err(Exit::Halt);
    }
    if a == 0 || a % 2 != 0 || a / 2 > p.j.len() as u64 {
        return Err(Exit::Panic);
    }
    let t = p.j[(a / 2 - 1) as usize];
    if t >= p.bb.len() as u64 || !p.bb[t as usize] {
        return Err(Exit::Panic);
    }
    Ok(t)
}

impl Mem {
    /// Heap growth: maps fresh pages read-write, keeping the content of those already mapped.
    fn map_new(&mut self, start: u64, len: u64) {
        self.map(start, len, Acc::W);
    }
}
