//! Generator of service programs: straight-line sequences of host calls with prepared arguments,
//! whose results are logged in memory and written to the service's storage at the end.
use crate::eng::Src;
use crate::rj::acc;
use crate::rj::codec::{enc, nat};
use crate::rj::pvm::{self, PG, ZZ};
use crate::rj::{self, blake2b, H};

#[derive(Default, Clone)]
pub struct Asm {
    pub code: Vec<u8>,
    pub mask: Vec<bool>,
}
impl Asm {
    pub fn ins(&mut self, b: &[u8]) -> usize {
        let at = self.code.len();
        self.code.extend_from_slice(b);
        self.mask.push(true);
        self.mask.extend(std::iter::repeat_n(false, b.len() - 1));
        at
    }
    pub fn imm64(&mut self, r: u8, v: u64) {
        let mut b = vec![20, r];
        b.extend_from_slice(&v.to_le_bytes());
        self.ins(&b);
    }
    /// The immediate takes anything from no octet to more than are read.
    pub fn ecalli(&mut self, n: u8) {
        let b = [10, n, 0, 0, 0, 7];
        self.ins(match (self.code.len() / 3 + n as usize) % 8 {
            0 if n == 0 => &b[..1],
            1 => &b[..3],
            2 => &b[..4],
            3 => &b[..5],
            4 => &b[..6],
            _ => &b[..2],
        });
    }
    pub fn store_u64(&mut self, r: u8, addr: u32) {
        let mut b = vec![62, r];
        b.extend_from_slice(&addr.to_le_bytes());
        self.ins(&b);
    }
    pub fn load_u64(&mut self, r: u8, addr: u32) {
        let mut b = vec![58, r];
        b.extend_from_slice(&addr.to_le_bytes());
        self.ins(&b);
    }
    pub fn jump(&mut self, off: i32) {
        let mut b = vec![40];
        b.extend_from_slice(&off.to_le_bytes());
        self.ins(&b);
    }
    pub fn trap(&mut self) {
        self.ins(&[0]);
    }
    /// Jump to r0 + 0: the halt address on entry.
    pub fn halt(&mut self) {
        self.ins(&[50, 0, 0]);
    }
    pub fn blob(&self) -> Vec<u8> {
        pvm::blob(&self.code, &self.mask, &[], 1)
    }
}

/// What the generated scripts may refer to.
#[derive(Clone, Default)]
pub struct Universe {
    pub services: Vec<u32>,
    pub blobs: Vec<Vec<u8>>,
    pub code_hashes: Vec<H>,
    pub val_keys: Vec<Vec<u8>>,
    pub auths: Vec<H>,
    /// Relative weights of host-call groups: [general, storage, preimage, account, privileged, control]
    pub weights: [u64; 6],
    pub tau: u32,
    /// Scripts mostly start with a transfer that is likely to be made.
    pub gifts: bool,
    /// The service whose script is being written.
    pub me: u32,
    /// Which of the blobs each service mostly deals in.
    pub favs: std::collections::BTreeMap<u32, [usize; 2]>,
    /// (owner, removable service, hash of its last preimage)
    pub ejectable: Vec<(u32, u32, H)>,
}

pub struct Script {
    pub program: Vec<u8>,
    pub desc: String,
}

pub struct B {
    pub a: Asm,
    pub ro: Vec<u8>,
    pub nlog: u32,
    pub desc: Vec<String>,
    pub heap: u32,
}
const RO: u32 = ZZ as u32;
const LOGMAX: u32 = 40;

impl B {
    pub fn data(&mut self, d: &[u8]) -> u64 {
        let o = self.ro.len();
        self.ro.extend_from_slice(d);
        RO as u64 + o as u64
    }
    pub fn log(&mut self, r: u8) {
        if self.nlog < LOGMAX {
            self.a.store_u64(r, self.heap + 8 * self.nlog);
            self.nlog += 1;
        }
    }
    pub fn call(&mut self, n: u8, args: &[(u8, u64)]) {
        for (r, v) in args {
            self.a.imm64(*r, *v);
        }
        self.a.ecalli(n);
        self.log(7);
        self.desc.push(format!(
            "{}({})",
            n,
            args.iter()
                .map(|(r, v)| format!("r{r}={v:#x}"))
                .collect::<Vec<_>>()
                .join(",")
        ));
    }
    pub fn buf(&self) -> u64 {
        self.heap as u64 + PG
    }
}

/// The only preimage of an account that may be removed by the service next to it.
pub const SHELL: &[u8] = b"shell";
/// The reserved identifier at which this service may find such an account.
pub fn low_shell(me: u32) -> u32 {
    300 + me % 50
}
pub const KEYS: [&[u8]; 6] = [
    b"",
    b"a",
    b"k1",
    b"key-two",
    b"0123456789abcdef0123456789abcdef",
    b"kk3",
];

pub fn bad_addr(s: &mut Src, good: u64) -> u64 {
    match s.weighted(&[30, 1, 1, 1]) {
        0 => good,
        1 => s.upto(70000),
        2 => 0xffff_f000 + s.upto(0xfff),
        _ => 0x0002_0000 + s.upto(0x40000),
    }
}
fn sid(s: &mut Src, u: &Universe) -> u64 {
    match s.weighted(&[12, 6, 1, 1, 1]) {
        0 => *s.pick(&u.services) as u64,
        1 => u64::MAX,
        2 => s.upto(200_000),
        3 => (1 << 32) + s.upto(3),
        _ => u64::MAX - s.upto(2),
    }
}
pub fn slice(s: &mut Src, n: usize) -> (u64, u64) {
    let off = match s.weighted(&[6, 2, 1]) {
        0 => 0,
        1 => s.upto(n as u64 + 2),
        _ => s.u64_any(),
    };
    let len = match s.weighted(&[6, 3, 1]) {
        0 => s.upto(600),
        1 => s.upto(n as u64 + 2),
        _ => 3000,
    };
    (off, len)
}
/// Length argument for a preimage of blob b: usually right.
fn plen(s: &mut Src, b: &[u8]) -> u64 {
    match s.weighted(&[14, 1, 1, 1]) {
        0 => b.len() as u64,
        1 => s.upto(600),
        // a length that is often the wrong one
        3 => b.len() as u64 + 1,
        _ => (1 << 32) + s.upto(2),
    }
}

pub fn script(s: &mut Src, u: &Universe) -> Script {
    let ncalls = s.us(0, 9);
    let mut b = B {
        a: Asm::default(),
        ro: vec![],
        nlog: 0,
        desc: vec![],
        heap: 0,
    };
    // the read-only data is bounded so that the heap address is known up front
    b.heap = (3 * ZZ) as u32;
    let prologue = s.weighted(&[20, 1]);
    b.a.jump(5);
    // entry point 5
    if prologue == 1 {
        b.a.trap();
        b.desc.push("trap".into());
    }
    if u.gifts && s.chance(3, 4) {
        let memo = s.blob(128);
        let o = b.data(&memo);
        let d = *s.pick(&u.services) as u64;
        let (a, l) = (s.upto(60), s.range(60, 6000));
        b.call(20, &[(7, d), (8, a), (9, l), (10, o)]);
        b.call(0, &[]);
    }
    if u.weights[3] > 2 && s.chance(u.weights[3], 36) {
        // several new services, looked at and paid by what `new` answers
        let mut more = s.us(1, 4);
        let mut ejected = false;
        while more > 0 {
            more -= 1;
            let c = *s.pick(&u.code_hashes);
            let o = b.data(&c);
            let l = s.upto(40);
            let (g, m) = (s.upto(50), s.upto(50));
            let l = if ejected { 0 } else { l };
            b.call(
                18,
                &[(7, o), (8, l), (9, g), (10, m), (11, 0), (12, u64::MAX)],
            );
            match s.us(0, 5) {
                0 => {}
                4 | 5 if !ejected => {
                    ejected = true;
                    more = more.max(2);
                    // takes the account away that stands where the next but one would go
                    let h = b.data(&blake2b(SHELL));
                    let step = *s.pick(&[84u64, 84, 84, 84, 42, 43, 85]);
                    b.a.ins(&[100, 0x73]);
                    b.a.imm64(4, step);
                    b.a.ins(&[200, 0x43, 7]);
                    b.a.imm64(8, h);
                    b.a.ecalli(21);
                    b.log(7);
                    b.desc.push(format!("eject(new+{step})"));
                }
                1 => {
                    let o = b.buf();
                    b.call(5, &[(8, o), (9, 0), (10, 96)]);
                    save_buf(s, &mut b);
                }
                2 => {
                    let memo = s.blob(128);
                    let o = b.data(&memo);
                    let a = s.upto(60);
                    b.call(20, &[(8, a), (9, 60), (10, o)]);
                }
                _ => b.call(17, &[]),
            }
        }
    }
    if u.weights[3] > 2 && s.chance(u.weights[3], 60) {
        // a reserved identifier is freed and given out again
        let mut i = low_shell(u.me) as u64;
        let h = b.data(&blake2b(SHELL));
        b.call(21, &[(7, i), (8, h)]);
        if u.gifts && s.coin() {
            // another one's, which may be gone by the next round
            i = low_shell(*s.pick(&u.services)) as u64;
        }
        for _ in 0..s.us(1, 2) {
            let c = *s.pick(&u.code_hashes);
            let o = b.data(&c);
            let l = s.upto(20);
            b.call(18, &[(7, o), (8, l), (9, 0), (10, 0), (11, 0), (12, i)]);
        }
    }
    if u.weights[2] > 2 && !u.blobs.is_empty() && s.chance(u.weights[2], 40) {
        // one request for one preimage: made, asked about, provided, withdrawn and read
        let d = match u.favs.get(&u.me) {
            Some(f) if s.chance(3, 4) => u.blobs[*s.pick(f)].clone(),
            _ => s.pick(&u.blobs).clone(),
        };
        let z = d.len() as u64 + (s.chance(1, 3) as u64);
        let h = b.data(&blake2b(&d));
        for _ in 0..s.us(2, 5) {
            match s.weighted(&[2, 3, 3, 1, 2, 1]) {
                0 => {
                    b.call(22, &[(7, h), (8, z)]);
                    b.log(8);
                }
                1 => b.call(23, &[(7, h), (8, z)]),
                2 => b.call(24, &[(7, h), (8, z)]),
                3 => {
                    let o = b.data(&d);
                    b.call(26, &[(7, u64::MAX), (8, o), (9, d.len() as u64)]);
                }
                4 => {
                    let o = b.buf();
                    b.call(2, &[(7, u64::MAX), (8, h), (9, o), (10, 0), (11, 300)]);
                }
                _ => b.call(17, &[]),
            }
        }
    }
    for _ in 0..ncalls {
        one_call(s, u, &mut b);
    }
    // expose the logged results
    if b.nlog > 0 && s.chance(9, 10) {
        let k = b.data(b"log");
        let n = b.nlog as u64 * 8;
        let heap = b.heap as u64;
        b.a.imm64(7, k);
        b.a.imm64(8, 3);
        b.a.imm64(9, heap);
        b.a.imm64(10, n);
        b.a.ecalli(4);
    }
    match s.weighted(&[10, 4, 2, 1, 1]) {
        0 => {
            b.a.imm64(7, 0);
            b.a.imm64(8, 0);
            b.a.halt();
        }
        1 => {
            let h = s.hash();
            let o = b.data(&h);
            b.a.imm64(7, o);
            b.a.imm64(8, 32);
            b.desc.push("out32".into());
            b.a.halt();
        }
        2 => {
            b.a.trap();
            b.desc.push("trap".into());
        }
        3 => {
            let h = b.heap as u64;
            b.a.imm64(7, h);
            let n = s.upto(64);
            b.a.imm64(8, n);
            b.desc.push(format!("out{n}"));
            b.a.halt();
        }
        _ => {
            // burn all gas
            b.a.ins(&[1]);
            b.a.jump(0);
            b.desc.push("loop".into());
        }
    }
    let mut ro = b.ro.clone();
    ro.resize(ro.len().max(1), 0);
    debug_assert!(ro.len() <= ZZ as usize);
    let program = pvm::standard(&ro, &[], 3, 4096, &b.a.blob());
    Script {
        program,
        desc: b.desc.join(" "),
    }
}

fn one_call(s: &mut Src, u: &Universe, b: &mut B) {
    let buf = b.buf();
    // keep the read-only segment within one zone
    if b.ro.len() > 60_000 {
        return;
    }
    match s.weighted(&u.weights) {
        0 => match s.weighted(&[3, 6, 4, 4, 1]) {
            0 => b.call(0, &[]),
            1 => {
                let id = *s.pick(&[14u64, 15, 1, 0, 15, 2, 7, 13, 16, 99]);
                let ix = s.upto(4);
                let (f, l) = slice(s, 300);
                let o = bad_addr(s, buf);
                b.call(1, &[(7, o), (8, f), (9, l), (10, id), (11, ix), (12, 0)]);
                save_buf(s, b);
            }
            2 => {
                let d = s.pick(&u.blobs).clone();
                let h = b.data(&blake2b(&d));
                let h = bad_addr(s, h);
                let (f, l) = slice(s, d.len());
                let o = bad_addr(s, buf);
                let t = sid(s, u);
                b.call(2, &[(7, t), (8, h), (9, o), (10, f), (11, l)]);
                save_buf(s, b);
            }
            3 => {
                let t = sid(s, u);
                let (f, l) = slice(s, 96);
                let o = bad_addr(s, buf);
                b.call(5, &[(7, t), (8, o), (9, f), (10, l)]);
                save_buf(s, b);
            }
            _ => {
                let n = *s.pick(&[100u8, 6, 7, 8, 9, 12, 13, 27, 50, 99]);
                b.call(n, &[]);
            }
        },
        1 if s.chance(1, 10) => exact(s, b, 4),
        2 if s.chance(1, 12) => exact(s, b, 23),
        3 if s.chance(1, 5) => {
            let n = if s.coin() { 20 } else { 18 };
            if n == 18 {
                let c = match u.code_hashes.is_empty() {
                    true => [7; 32],
                    false => *s.pick(&u.code_hashes),
                };
                let o = b.data(&c);
                b.a.imm64(7, o);
            } else {
                let memo = s.blob(128);
                let o = b.data(&memo);
                b.a.imm64(10, o);
                let d = match u.services.is_empty() {
                    true => 0,
                    false => *s.pick(&u.services) as u64,
                };
                b.a.imm64(7, d);
            }
            exact(s, b, n)
        }
        1 => {
            let k: Vec<u8> = s.pick(&KEYS).to_vec();
            let ko = b.data(&k);
            let ko = bad_addr(s, ko);
            if s.chance(1, 3) {
                let t = sid(s, u);
                let (f, l) = slice(s, 40);
                let o = bad_addr(s, buf);
                b.call(
                    3,
                    &[
                        (7, t),
                        (8, ko),
                        (9, k.len() as u64),
                        (10, o),
                        (11, f),
                        (12, l),
                    ],
                );
                save_buf(s, b);
            } else {
                let n = match s.weighted(&[3, 6, 2]) {
                    0 => 0,
                    1 => s.us(0, 80),
                    _ => s.us(0, 2000),
                };
                let v = s.blob(n);
                let vo = b.data(&v);
                let vo = bad_addr(s, vo);
                b.call(4, &[(7, ko), (8, k.len() as u64), (9, vo), (10, n as u64)]);
            }
        }
        2 => {
            let k = s.weighted(&[3, 4, 4, 3]);
            let t = if k == 3 { sid(s, u) } else { u64::MAX };
            let whose = if t == u64::MAX { u.me } else { t as u32 };
            let d = match u.favs.get(&whose) {
                Some(f) if s.chance(3, 4) => u.blobs[*s.pick(f)].clone(),
                _ => s.pick(&u.blobs).clone(),
            };
            let h = b.data(&blake2b(&d));
            let h = bad_addr(s, h);
            match k {
                0 => {
                    let z = plen(s, &d);
                    b.call(22, &[(7, h), (8, z)]);
                    b.log(8);
                }
                1 => {
                    let z = plen(s, &d);
                    b.call(
                        23,
                        &[
                            (7, h),
                            (8, z & 0xffff_ffff | if z >= 1 << 32 { 1 << 32 } else { 0 }),
                        ],
                    );
                }
                2 => {
                    let z = plen(s, &d);
                    b.call(24, &[(7, h), (8, z)]);
                }
                _ => {
                    let o = b.data(&d);
                    let o = bad_addr(s, o);
                    b.call(26, &[(7, t), (8, o), (9, d.len() as u64)]);
                }
            }
        }
        3 => match s.weighted(&[
            4,
            2,
            6,
            if u.ejectable.iter().any(|e| e.0 == u.me) {
                8
            } else {
                1
            },
        ]) {
            0 => {
                let c = *s.pick(&u.code_hashes);
                let o = b.data(&c);
                let o = bad_addr(s, o);
                let l = match s.weighted(&[8, 2, 1]) {
                    0 => s.upto(300),
                    1 => s.upto(u32::MAX as u64),
                    _ => (1 << 32) + s.upto(1),
                };
                let (g, m) = (s.upto(50), s.upto(50));
                let f = if s.chance(1, 6) { s.upto(500) } else { 0 };
                let i = match s.weighted(&[4, 2, 2]) {
                    0 => u64::MAX,
                    1 => s.upto(70_000),
                    _ => *s.pick(&u.services) as u64,
                };
                b.call(18, &[(7, o), (8, l), (9, g), (10, m), (11, f), (12, i)]);
            }
            1 => {
                let c = *s.pick(&u.code_hashes);
                let o = b.data(&c);
                let o = bad_addr(s, o);
                let (g, m) = (s.upto(500), s.upto(500));
                b.call(19, &[(7, o), (8, g), (9, m)]);
            }
            2 => {
                let memo = s.blob(128);
                let o = b.data(&memo);
                let o = bad_addr(s, o);
                let d = sid(s, u);
                let a = match s.weighted(&[8, 2, 1]) {
                    0 => s.upto(200),
                    1 => s.upto(1 << 20),
                    _ => s.u64_any(),
                };
                let l = match s.weighted(&[6, 4, 1, 2]) {
                    0 => s.upto(2000),
                    1 => s.upto(60),
                    2 => s.u64_any(),
                    _ => s.upto(6_000_000),
                };
                b.call(20, &[(7, d), (8, a), (9, l), (10, o)]);
            }
            _ => {
                let mine: Vec<(u32, u32, H)> = u
                    .ejectable
                    .iter()
                    .filter(|e| e.0 == u.me || s.chance(1, 8))
                    .copied()
                    .collect();
                let (t, h) = if !mine.is_empty() && s.chance(7, 8) {
                    let e = *s.pick(&mine);
                    (e.1 as u64, e.2)
                } else {
                    (sid(s, u), blake2b(s.pick(&u.blobs)))
                };
                let h = b.data(&h);
                let h = bad_addr(s, h);
                b.call(21, &[(7, t), (8, h)]);
            }
        },
        4 => match s.weighted(&[3, 3, 2]) {
            0 => {
                let a: Vec<u8> = (0..rj::C)
                    .flat_map(|_| (*s.pick(&u.services)).to_le_bytes())
                    .collect();
                let ao = b.data(&a);
                let ao = bad_addr(s, ao);
                let n = s.us(0, 3);
                let mut z = vec![];
                for _ in 0..n {
                    z.extend_from_slice(&s.pick(&u.services).to_le_bytes());
                    let g = if s.chance(1, 8) {
                        s.u64_any()
                    } else {
                        s.upto(3000)
                    };
                    z.extend_from_slice(&g.to_le_bytes());
                }
                let zo = b.data(&z);
                let zo = bad_addr(s, zo);
                let p = |s: &mut Src| {
                    if s.chance(1, 12) {
                        (1u64 << 32) + s.upto(2)
                    } else {
                        *s.pick(&u.services) as u64
                    }
                };
                let (m, v, r) = (p(s), p(s), p(s));
                b.call(
                    14,
                    &[(7, m), (8, ao), (9, v), (10, r), (11, zo), (12, n as u64)],
                );
            }
            1 => {
                let mut q = vec![];
                let k = s.upto(1000);
                for i in 0..rj::Q_QUEUE {
                    q.extend_from_slice(&u.auths[(k as usize + i * i) % u.auths.len()]);
                }
                let o = b.data(&q);
                let o = bad_addr(s, o);
                let c = if s.chance(1, 8) {
                    2 + s.upto(3)
                } else {
                    s.upto(1)
                };
                let a = if s.chance(1, 12) {
                    1u64 << 32
                } else {
                    *s.pick(&u.services) as u64
                };
                b.call(15, &[(7, c), (8, o), (9, a)]);
            }
            _ => {
                let mut v = vec![];
                let k = s.us(0, u.val_keys.len() - 1);
                let st = *s.pick(&[1usize, 5, 7]);
                for i in 0..rj::V {
                    v.extend_from_slice(&u.val_keys[(k + i * st) % u.val_keys.len()]);
                }
                let o = b.data(&v);
                let o = bad_addr(s, o);
                b.call(16, &[(7, o)]);
            }
        },
        _ => match s.weighted(&[4, 3, 1, 1]) {
            0 => b.call(17, &[]),
            1 => {
                let h = s.hash();
                let o = b.data(&h);
                let o = bad_addr(s, o);
                b.call(25, &[(7, o)]);
            }
            2 => {
                b.a.trap();
                b.desc.push("trap".into());
            }
            _ => {
                // burn some gas
                let n = s.upto(300);
                b.a.imm64(2, n);
                let top = b.a.code.len();
                // add_imm_64 r2 = r2 - 1 ; branch_ne_imm r2, 0 -> top
                let _ = top;
                b.a.ins(&[1]);
                let top = b.a.code.len();
                b.a.ins(&[149, 0x22, 0xff]);
                let here = b.a.code.len();
                let off = top as i64 - here as i64;
                // one-byte immediate 0, then the offset
                let mut i = vec![90, 0x12, 0];
                i.extend_from_slice(&(off as i32).to_le_bytes()[..1]);
                b.a.ins(&i);
                b.desc.push(format!("burn{n}"));
            }
        },
    }
}

/// Transfers, creates, requests or stores exactly as much as the balance allows, give or take one.
fn exact(s: &mut Src, b: &mut B, n: u8) {
    let buf = b.buf();
    b.a.ins(&[100, 0x73]); // r3 = r7 (an argument of the call to come)
    b.a.imm64(7, u64::MAX);
    b.a.imm64(8, buf);
    b.a.imm64(9, 0);
    b.a.imm64(11, 48);
    let r10 = n == 20;
    if r10 {
        b.a.ins(&[100, 0xa4]); // r4 = r10
    }
    b.a.imm64(10, 48);
    b.a.ecalli(5);
    b.a.load_u64(5, buf as u32 + 32);
    b.a.load_u64(6, buf as u32 + 40);
    b.a.ins(&[201, 0x65, 5]); // r5 -= r6
    let (base, klen) = match n {
        20 => (0u64, 0),
        18 => (201, 0),
        23 => (101, 0),
        _ => {
            let k = s.blob(5);
            let o = b.data(&k);
            b.a.imm64(7, o);
            (44 + 5, 5u64)
        }
    };
    let d = s.upto(2).wrapping_sub(1).wrapping_sub(base);
    b.a.imm64(6, d);
    b.a.ins(&[200, 0x65, 8]); // r8 = r5 + r6
    match n {
        20 => {
            b.a.ins(&[100, 0x37]);
            b.a.ins(&[100, 0x4a]);
            let g = s.upto(60);
            b.a.imm64(9, g);
        }
        18 => {
            b.a.ins(&[100, 0x37]);
            for r in 9..=11 {
                b.a.imm64(r, 0);
            }
            b.a.imm64(12, u64::MAX);
        }
        23 => {
            let h = s.hash();
            let o = b.data(&h);
            b.a.imm64(7, o);
        }
        _ => {
            b.a.ins(&[100, 0x8a]); // r10 = r8
            b.a.imm64(8, klen);
            let h = b.heap as u64;
            b.a.imm64(9, h);
        }
    }
    b.a.ecalli(n);
    b.log(7);
    b.desc.push(format!("exact{n}({d:#x})"));
}

/// Writes a slice of the scratch buffer to storage so that its content becomes observable.
fn save_buf(s: &mut Src, b: &mut B) {
    if s.chance(2, 3) {
        let k = b.data(b"buf");
        let n = s.us(1, 300) as u64;
        let buf = b.buf();
        b.a.imm64(7, k);
        b.a.imm64(8, 3);
        b.a.imm64(9, buf);
        b.a.imm64(10, n);
        b.a.ecalli(4);
    }
}

/// Wraps a program as a service code preimage.
pub fn service_code(meta: &[u8], program: &[u8]) -> Vec<u8> {
    enc(|e| {
        e.raw(&nat(meta.len() as u64)).raw(meta).raw(program);
    })
}
#[allow(unused)]
fn _unused() {
    let _ = acc::NONE;
}
