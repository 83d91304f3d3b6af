//! In-core invocations (authorization and refinement) against the reference.
use crate::eng::{guard, hash_bytes, Cov, Prop, Src, Sub};
use crate::imp::{decode_all, h32, rt, Node};
use crate::rj::refine::{self as rr, Quirks, Ran, RefineArgs};
use crate::rj::state::Account;
use crate::rj::types::{Context, Header, Import, Outcome, Package, WorkItem};
use crate::rj::{
    self, blake2b,
    pvm::{self, PG, ZZ},
    H,
};
use crate::svc::{bad_addr, service_code, slice, B};
use fr_codec::prelude::*;
use fr_common::workloads::{ExtrinsicInfo, WorkPackage};
use fr_pvm_invocation::{is_authorized::IsAuthorizedInvocation, refine::RefineInvocation};
use fr_pvm_types::common::ExportDataSegment;
use fr_pvm_types::invoke_args::{IsAuthorizedInvokeArgs, RefineInvokeArgs};
use std::collections::{BTreeMap, HashMap};

type R = Result<(), String>;

struct World {
    accounts: BTreeMap<u32, Account>,
    pkg: Package,
    xdata: Vec<Vec<Vec<u8>>>,
    imports: Vec<Vec<Vec<u8>>>,
    blobs: Vec<Vec<u8>>,
    descs: Vec<String>,
}

fn history(s: &mut Src, t: u32, ok: bool) -> Vec<u32> {
    if ok {
        return vec![t.saturating_sub(s.upto(4) as u32)];
    }
    let n = s.us(0, 3);
    let mut v: Vec<u32> = (0..n)
        .map(|_| (t + s.upto(6) as u32).saturating_sub(3))
        .collect();
    v.sort();
    v
}

fn add_preimage(s: &mut Src, a: &mut Account, d: &[u8], t: u32, ok: bool) {
    let h = blake2b(d);
    if a.preimages.contains_key(&h) {
        return;
    }
    let hist = history(s, t, ok);
    a.lookups.insert((h, d.len() as u32), hist);
    a.preimages.insert(h, d.to_vec());
}

fn sid(s: &mut Src, ids: &[u32]) -> u64 {
    match s.weighted(&[8, 6, 1, 1, 1]) {
        0 => *s.pick(ids) as u64,
        1 => u64::MAX,
        2 => s.upto(200_000),
        3 => (1 << 32) + *s.pick(ids) as u64,
        _ => u64::MAX - s.upto(2),
    }
}

/// What scripts may refer to.
struct Uni {
    ids: Vec<u32>,
    blobs: Vec<Vec<u8>>,
    items: usize,
}

const PARAM: u64 = 2 * PG;

fn fetch(s: &mut Src, u: &Uni, b: &mut B, refine: bool) {
    let id = match s.weighted(&[8, 1]) {
        0 if refine => *s.pick(&[
            0u64, 1, 2, 3, 3, 3, 4, 4, 5, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 12, 13, 13,
        ]),
        0 => *s.pick(&[0u64, 7, 8, 9, 10, 11, 12, 13, 12, 13]),
        _ => s.upto(18),
    };
    let ix = |s: &mut Src| match s.weighted(&[12, 1, 1]) {
        0 => s.upto(u.items as u64),
        1 => s.upto(5),
        _ => s.u64_any(),
    };
    let (i, j) = (ix(s), ix(s));
    let (f, l) = slice(s, 300);
    let good = b.buf() + s.upto(3) * 256;
    let o = bad_addr(s, good);
    let l = if s.chance(1, 10) {
        s.range(4000, 5000)
    } else {
        l.min(3000)
    };
    b.call(1, &[(7, o), (8, f), (9, l), (10, id), (11, i), (12, j)]);
}

fn common(s: &mut Src, u: &Uni, b: &mut B, refine: bool) {
    match s.weighted(&[3, 10, 1, 1]) {
        0 => b.call(0, &[]),
        1 => fetch(s, u, b, refine),
        2 => {
            // most other host calls do not exist here
            let n = match s.weighted(&[3, 1]) {
                0 => *s.pick(&[
                    2u8, 3, 4, 5, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 50, 99,
                    127,
                ]),
                _ => {
                    if refine {
                        28
                    } else {
                        s.range(6, 13) as u8
                    }
                }
            };
            b.call(n, &[]);
        }
        _ => b.call(
            100,
            &[
                (7, s.upto(4)),
                (8, 0),
                (9, 0),
                (10, b.heap as u64),
                (11, s.upto(40)),
            ],
        ),
    }
}

/// One inner program, mostly well-formed.
fn inner_program(s: &mut Src) -> Vec<u8> {
    if s.chance(2, 5) {
        // exits of every kind, in a sequence that later invocations continue
        let mut a = crate::svc::Asm::default();
        for _ in 0..s.us(1, 6) {
            match s.weighted(&[4, 3, 2, 2, 1]) {
                0 => {
                    let v = s.u64_any();
                    a.imm64(s.upto(12) as u8, v);
                }
                1 => a.ecalli(*s.pick(&[0u8, 7, 100, 200, 255])),
                2 => a.store_u64(
                    s.upto(12) as u8,
                    *s.pick(&[0x20008u32, 0x21ff8, 0x21ffc, 0x22000, 0x10010, 0x30000]),
                ),
                3 => a.load_u64(
                    s.upto(12) as u8,
                    *s.pick(&[0x20008u32, 0x20ff8, 0x10010, 0x22004, 0x8000]),
                ),
                _ => {
                    a.ins(&[1]);
                }
            }
        }
        match s.weighted(&[3, 1, 1]) {
            0 => a.halt(),
            1 => a.trap(),
            _ => a.jump(0),
        }
        return a.blob();
    }
    for _ in 0..6 {
        let p = crate::props::pvm::program(s);
        if pvm::Prog::deblob(&p).is_some_and(|q| !q.c.contains(&101)) {
            return p;
        }
    }
    let mut a = crate::svc::Asm::default();
    a.ecalli(7);
    a.store_u64(3, 0x20008);
    a.trap();
    a.blob()
}

fn inner_calls(s: &mut Src, b: &mut B, made: &mut u64) {
    let n = |s: &mut Src, made: u64| match s.weighted(&[12, 1, 1]) {
        0 => s.upto(made.max(1) - 1),
        1 => made,
        _ => s.u64_any(),
    };
    let kind = if *made == 0 {
        0
    } else {
        s.weighted(&[3, 6, 3, 3, 6, 2, 3, 3])
    };
    match kind {
        0 => {
            let p = if s.chance(1, 8) {
                s.blob(12)
            } else {
                inner_program(s)
            };
            let o = b.data(&p);
            let o = bad_addr(s, o);
            let pc = match s.weighted(&[8, 1, 1]) {
                0 => 0,
                1 => s.upto(40),
                _ => s.u64_any(),
            };
            let len = p.len() as u64 + s.chance(1, 20) as u64;
            b.call(8, &[(7, o), (8, len), (9, pc)]);
            *made += 1;
            if s.chance(3, 4) {
                // map the pages that generated programs use
                let k = *made - 1;
                b.call(11, &[(7, k), (8, 0x20), (9, 2), (10, 2)]);
                if s.coin() {
                    b.call(11, &[(7, k), (8, 0x10), (9, 1), (10, 1)]);
                }
            }
        }
        1 => {
            let p = match s.weighted(&[8, 2, 1]) {
                0 => *s.pick(&[0x10u64, 0x20, 0x21, 0x22, 0x1f, 0xffff0]) + s.upto(1),
                1 => s.upto(20),
                _ => *s.pick(&[0xfffff, 0x100000, u64::MAX, 0xffffe]),
            };
            let c = match s.weighted(&[10, 1]) {
                0 => s.upto(3),
                _ => *s.pick(&[0x100000 - 0x22, 0xfffff, u64::MAX, 1 << 20, 15]),
            };
            let m = match s.weighted(&[10, 1]) {
                0 => s.upto(4),
                _ => 5 + s.u64_any() % 1000,
            };
            let k = n(s, *made);
            b.call(11, &[(7, k), (8, p), (9, c), (10, m)]);
        }
        2 => {
            let k = n(s, *made);
            let d = s.blob(64);
            let o = b.data(&d);
            let o = bad_addr(s, o);
            let to = inner_addr(s);
            let len = s.upto(64);
            b.call(10, &[(7, k), (8, o), (9, to), (10, len)]);
        }
        3 => {
            let k = n(s, *made);
            let good = b.buf() + 1024 + s.upto(2000);
            let o = bad_addr(s, good);
            let from = inner_addr(s);
            let len = s.upto(200);
            b.call(9, &[(7, k), (8, o), (9, from), (10, len)]);
        }
        4 => {
            let k = n(s, *made);
            let o = b.heap + PARAM as u32;
            if s.chance(4, 5) {
                let g = match s.weighted(&[8, 2, 1, 1]) {
                    0 => s.upto(150),
                    1 => s.upto(4),
                    2 => u64::MAX - s.upto(5),
                    _ => (1 << 63) + s.upto(4) - 2,
                };
                b.a.imm64(2, g);
                b.a.store_u64(2, o);
                for i in 0..13u32 {
                    if s.chance(2, 3) {
                        let v = if i == 0 && s.coin() {
                            0xffff_0000
                        } else {
                            crate::props::pvm::val(s)
                        };
                        b.a.imm64(2, v);
                        b.a.store_u64(2, o + 8 + 8 * i);
                    }
                }
            }
            let a = bad_addr(s, o as u64);
            b.call(12, &[(7, k), (8, a)]);
            b.log(8);
        }
        5 => {
            let k = n(s, *made);
            b.call(13, &[(7, k)]);
        }
        7 => {
            // one page through several modes, its content checked after each
            let k = n(s, *made);
            let pg = *s.pick(&[0x20u64, 0x21, 0x10, 0x30]);
            b.call(11, &[(7, k), (8, pg), (9, 1), (10, 2)]);
            for _ in 0..s.us(1, 4) {
                if s.coin() {
                    let d = s.blob(16);
                    let o = b.data(&d);
                    b.call(10, &[(7, k), (8, o), (9, pg << 12 | s.upto(20)), (10, 16)]);
                }
                let m = s.upto(4);
                b.call(11, &[(7, k), (8, pg), (9, 1 + s.upto(1)), (10, m)]);
                if s.coin() {
                    let to = b.buf() + 1024 + s.upto(200);
                    b.call(9, &[(7, k), (8, to), (9, pg << 12), (10, 40)]);
                }
            }
        }
        _ => {
            // a fault handler: grant the page and resume
            let k = n(s, *made);
            b.call(11, &[(7, k), (8, 0x20 + s.upto(3)), (9, 1), (10, 2)]);
            b.call(12, &[(7, k), (8, b.heap as u64 + PARAM)]);
            b.log(8);
        }
    }
}
fn inner_addr(s: &mut Src) -> u64 {
    match s.weighted(&[8, 2, 1]) {
        0 => *s.pick(&[0x20000u64, 0x21000, 0x10000, 0x20ff0, 0x21ff0, 0x1fff0]) + s.upto(20),
        1 => s.upto(0x30000),
        _ => s.u64_any(),
    }
}

fn script(s: &mut Src, u: &Uni, refine: bool) -> (Vec<u8>, String) {
    let mut b = B {
        a: Default::default(),
        ro: vec![],
        nlog: 0,
        desc: vec![],
        heap: (3 * ZZ) as u32,
    };
    if s.chance(1, 20) {
        b.a.trap();
    }
    if s.chance(1, 3) {
        // keep the arguments: address and length
        b.log(7);
        b.log(8);
    }
    let mut made = 0;
    let n = s.us(0, if refine { 14 } else { 6 });
    let inner = refine && s.chance(2, 3);
    for _ in 0..n {
        if b.ro.len() > 50_000 {
            break;
        }
        if !refine {
            common(s, u, &mut b, false);
            continue;
        }
        match s.weighted(&[6, 3, 4, if inner { 16 } else { 1 }]) {
            0 => common(s, u, &mut b, true),
            1 => {
                let d = s.pick(&u.blobs).clone();
                let h = b.data(&blake2b(&d));
                let h = bad_addr(s, h);
                let (f, l) = slice(s, d.len());
                let good = b.buf();
                let o = bad_addr(s, good);
                let t = sid(s, &u.ids);
                b.call(6, &[(7, t), (8, h), (9, o), (10, f), (11, l)]);
            }
            2 => {
                let good = *s.pick(&[b.buf(), b.heap as u64]) + s.upto(64);
                let o = bad_addr(s, good);
                let z = match s.weighted(&[6, 2, 1]) {
                    0 => s.upto(300),
                    1 => s.range(4100, 4110),
                    _ => s.u64_any(),
                };
                b.call(7, &[(7, o), (8, z)]);
            }
            _ => inner_calls(s, &mut b, &mut made),
        }
    }
    match s.weighted(&[12, 2, 1, if refine { 1 } else { 0 }, 1]) {
        0 => {
            let (h, l) = (
                b.heap as u64,
                *s.pick(&[PG + 1200, 2 * PG + 112, 3 * PG, 8 * b.nlog as u64]),
            );
            b.a.imm64(7, h);
            b.a.imm64(8, l);
            b.a.halt();
        }
        1 => {
            // the arguments, or an unreadable or empty range
            let (o, l) = match s.weighted(&[4, 1, 1, 1]) {
                0 => ((1u64 << 32) - ZZ - pvm::ZI, s.upto(120)),
                1 => (s.upto(0x10000), s.upto(3)),
                2 => ((1 << 32) + 0x30000, s.upto(3)),
                _ => (b.heap as u64 + 3 * PG - 8, s.upto(16)),
            };
            b.a.imm64(7, o);
            b.a.imm64(8, l);
            b.a.halt();
        }
        2 => b.a.trap(),
        3 => {
            b.a.ins(&[1]);
            b.a.jump(0);
        }
        _ => {
            let v = s.u64_any();
            b.a.imm64(0, v);
            b.a.halt();
        }
    }
    let mut ro = b.ro.clone();
    ro.resize(ro.len().max(1), 0);
    let p = pvm::standard(&ro, &[], 3, 4096, &b.a.blob());
    (p, b.desc.join(" "))
}

fn world(s: &mut Src, refine: bool) -> World {
    let t = s.range(8, 40) as u32;
    let nitems = s.us(1, 4);
    let ids: Vec<u32> = (0..3)
        .map(|i| {
            if s.coin() {
                i
            } else {
                s.upto(u32::MAX as u64) as u32
            }
        })
        .collect();
    let blobs: Vec<Vec<u8>> = (0..4)
        .map(|i| match i {
            0 => vec![],
            _ => {
                let n = s.us(1, 300);
                s.blob(n)
            }
        })
        .collect();
    let u = Uni {
        ids: ids.clone(),
        blobs: blobs.clone(),
        items: nitems,
    };
    let mut accounts: BTreeMap<u32, Account> = ids
        .iter()
        .map(|i| {
            (
                *i,
                Account {
                    balance: 1 << 40,
                    ..Default::default()
                },
            )
        })
        .collect();
    for d in &blobs {
        for i in &ids {
            if s.coin() {
                let ok = s.chance(1, 3);
                add_preimage(s, accounts.get_mut(i).unwrap(), d, t, ok);
            }
        }
    }
    let mut descs = vec![];
    let mut code = |s: &mut Src, accounts: &mut BTreeMap<u32, Account>, refine: bool| -> (u32, H) {
        let (p, d) = script(s, &u, refine);
        descs.push(d);
        let n = s.us(0, 20);
        let meta = s.blob(n);
        let mut c = service_code(&meta, &p);
        match s.weighted(&[30, 1, 1, 1]) {
            0 => {}
            1 => {
                // metadata cut short, or damaged octets
                c = vec![200, 1, 2];
            }
            2 => {
                let i = s.us(0, c.len() - 1);
                c[i] ^= 1 << s.upto(7);
            }
            _ => {
                // at the size limit
                let limit = if refine { rj::W_C } else { rj::W_A };
                if !refine || s.chance(1, 6) {
                    let mut a = crate::svc::Asm::default();
                    a.halt();
                    let tail = pvm::standard(&[], &[], 0, 0, &a.blob()).len();
                    c = service_code(
                        &meta,
                        &pvm::standard(
                            &vec![0; limit + s.us(0, 2) - 1 - tail],
                            &[],
                            0,
                            0,
                            &a.blob(),
                        ),
                    );
                }
            }
        }
        let who = *s.pick(&ids);
        let ok = s.chance(9, 10);
        add_preimage(s, accounts.get_mut(&who).unwrap(), &c, t, ok);
        let asked = if s.chance(1, 30) {
            s.upto(9) as u32
        } else {
            who
        };
        (asked, blake2b(&c))
    };
    let (auth_service, auth_code_hash) = code(s, &mut accounts, false);
    let mut items = vec![];
    for _ in 0..nitems {
        let (service, code_hash) = if refine {
            code(s, &mut accounts, true)
        } else {
            (*s.pick(&u.ids), s.hash())
        };
        let np = s.us(0, 60);
        let payload = s.blob(np);
        let imports = (0..s.us(0, 3))
            .map(|_| Import {
                id: s.hash(),
                is_package: s.coin(),
                index: s.upto(3071) as u16,
            })
            .collect();
        items.push(WorkItem {
            service,
            code_hash,
            refine_gas: match s.weighted(&[10, 2, 1]) {
                0 => s.range(1000, 100_000),
                1 => s.upto(300),
                _ => s.upto(1 << 30).min(900_000),
            },
            acc_gas: s.u64_any(),
            exports: s.upto(3072) as u16,
            payload,
            imports,
            xts: vec![],
        });
    }
    let mut xdata = vec![];
    for w in &mut items {
        let d: Vec<Vec<u8>> = (0..s.us(0, 3))
            .map(|_| {
                let n = *s.pick(&[0usize, 1, 33, 200]);
                s.blob(n)
            })
            .collect();
        w.xts = d.iter().map(|x| (blake2b(x), x.len() as u32)).collect();
        xdata.push(d);
    }
    let imports = items
        .iter()
        .map(|w| {
            w.imports
                .iter()
                .map(|_| {
                    let mut v = s.blob(50);
                    v.resize(rr::SEG, 0xaa);
                    v
                })
                .collect()
        })
        .collect();
    let (nt, nc) = (s.us(0, 50), s.us(0, 50));
    let prereqs = (0..s.us(0, 2)).map(|_| s.hash()).collect();
    let ctx = Context {
        anchor: s.hash(),
        state_root: s.hash(),
        beefy_root: s.hash(),
        lookup_anchor: s.hash(),
        lookup_slot: t,
        prereqs,
    };
    let pkg = Package {
        auth_service,
        auth_code_hash,
        ctx,
        token: s.blob(nt),
        config: s.blob(nc),
        items,
    };
    World {
        accounts,
        pkg,
        xdata,
        imports,
        blobs,
        descs,
    }
}

fn node(w: &World) -> Result<Node, String> {
    let mut kv = BTreeMap::new();
    for (s, a) in &w.accounts {
        rj::state::account_kv(*s, a, &mut kv);
    }
    Ok(Node::with_state(&kv, &Header::default(), None)
        .map_err(|e| format!("harness: {e}"))?
        .0)
}

fn judge(
    cov: &mut Cov,
    what: &str,
    got: &Ran,
    run: &dyn Fn(Quirks) -> Option<Ran>,
    desc: &str,
) -> R {
    let same = |a: &Ran| a.out == got.out && a.gas == got.gas && a.exports == got.exports;
    let Some(want) = run(Quirks::default()) else {
        cov.tag("outside-model");
        return Ok(());
    };
    cov.eval();
    match &want.out {
        Outcome::Ok(_) => cov.tag("ok"),
        Outcome::Err(1) => cov.tag("out-of-gas"),
        Outcome::Err(2) => cov.tag("panic"),
        Outcome::Err(5) => cov.tag("no-code"),
        Outcome::Err(_) => cov.tag("too-big"),
    }
    for (h, r) in &want.calls {
        match h {
            1 => cov.tag(if *r == rj::acc::NONE {
                "fetch-none"
            } else {
                "fetch-some"
            }),
            6 => cov.tag(if *r == rj::acc::NONE {
                "lookup-none"
            } else {
                "lookup-some"
            }),
            7 => cov.tag("export"),
            8 => cov.tag("machine"),
            9 => cov.tag(if *r == 0 { "peek-ok" } else { "peek-bad" }),
            10 => cov.tag(if *r == 0 { "poke-ok" } else { "poke-bad" }),
            11 => cov.tag(if *r == 0 { "pages-ok" } else { "pages-bad" }),
            12 => cov.tag(match r {
                0 => "invoke-halt",
                1 => "invoke-panic",
                2 => "invoke-fault",
                3 => "invoke-host",
                4 => "invoke-oog",
                _ => "invoke-bad",
            }),
            13 => cov.tag("expunge"),
            _ => {}
        }
    }
    if !want.calls.is_empty() {
        cov.nt(hash_bytes(
            format!("{what}{:?}{:?}{}", want.calls, want.out, want.gas).as_bytes(),
        ));
    }
    cov.sample(|| format!("{what}: {desc} -> {:?}", want.calls));
    if same(&want) {
        return Ok(());
    }
    for (q, k) in [
        (
            Quirks {
                fetch11: true,
                inner_pc: false,
            },
            &["fetch-work-items-prefixed"][..],
        ),
        (
            Quirks {
                fetch11: false,
                inner_pc: true,
            },
            &["inner-machine-counter-after-exit"],
        ),
        (
            Quirks {
                fetch11: true,
                inner_pc: true,
            },
            &[
                "fetch-work-items-prefixed",
                "inner-machine-counter-after-exit",
            ],
        ),
    ] {
        if run(q).is_some_and(|r| same(&r)) {
            for k in k {
                cov.known_finding(k);
            }
            return Ok(());
        }
    }
    let d = match (&want.out, &got.out) {
        (Outcome::Ok(a), Outcome::Ok(b)) if a != b => {
            let i = (0..a.len().max(b.len()))
                .find(|i| a.get(*i) != b.get(*i))
                .unwrap();
            let cut = |v: &Vec<u8>| {
                v.get(i / 8 * 8..(i / 8 * 8 + 16).min(v.len()))
                    .map(hex::encode)
            };
            format!(
                "output differs at {i} (lengths {} and {}): specified ..{:?}, got ..{:?}",
                a.len(),
                b.len(),
                cut(a),
                cut(b)
            )
        }
        (a, b) if a != b => format!("outcome {}, specified {}", short(b), short(a)),
        _ if want.gas != got.gas => format!("gas used {}, specified {}", got.gas, want.gas),
        _ => format!(
            "{} segments exported, {} specified (or their content differs)",
            got.exports.len(),
            want.exports.len()
        ),
    };
    Err(format!(
        "{what}: {d}\ncalls {desc}\nspecified calls (index, result) {:x?}",
        want.calls
    ))
}
fn short(o: &Outcome) -> String {
    match o {
        Outcome::Ok(v) => format!("ok with {} octets", v.len()),
        Outcome::Err(c) => format!("error {c}"),
    }
}

fn outcome(b: Vec<u8>) -> Result<Outcome, String> {
    match b.split_first() {
        Some((0, rest)) => {
            let (n, k) = rj::state::read_nat(rest).ok_or("malformed outcome")?;
            if rest.len() - k != n as usize {
                return Err("malformed outcome".into());
            }
            Ok(Outcome::Ok(rest[k..].to_vec()))
        }
        Some((c, [])) => Ok(Outcome::Err(*c)),
        _ => Err("malformed outcome".into()),
    }
}

fn authorize(s: &mut Src, cov: &mut Cov) -> R {
    let w = world(s, false);
    let n = node(&w)?;
    let core = match s.weighted(&[4, 1]) {
        0 => s.upto(1) as u16,
        _ => s.upto(u16::MAX as u64) as u16,
    };
    let desc = w.descs[0].clone();
    if rr::is_authorized(&w.accounts, &w.pkg, core, Quirks::default()).is_none() {
        cov.tag("outside-model");
        return Ok(());
    }
    let package: WorkPackage = decode_all(&rr::package_bytes(&w.pkg))
        .map_err(|e| format!("valid work package does not decode: {e}"))?;
    let args = IsAuthorizedInvokeArgs {
        package,
        core_idx: core,
    };
    let r = guard(|| {
        rt().block_on(IsAuthorizedInvocation::is_authorized(
            n.st.state_manager(),
            &args,
        ))
    })
    .map_err(|e| format!("authorization crashed: {e}\ncalls {desc}"))?
    .map_err(|e| format!("authorization aborted: {e}\ncalls {desc}"))?;
    let got = Ran {
        out: outcome(r.work_execution_result.encode().unwrap())?,
        gas: r.gas_used,
        exports: vec![],
        calls: vec![],
    };
    judge(
        cov,
        "authorization",
        &got,
        &|q| rr::is_authorized(&w.accounts, &w.pkg, core, q),
        &desc,
    )
}

fn refinement(s: &mut Src, cov: &mut Cov) -> R {
    let w = world(s, true);
    let n = node(&w)?;
    let _ = &w.blobs;
    let package: WorkPackage = decode_all(&rr::package_bytes(&w.pkg))
        .map_err(|e| format!("valid work package does not decode: {e}"))?;
    let mut map = HashMap::new();
    for (i, d) in w.pkg.items.iter().zip(&w.xdata) {
        for ((h, l), d) in i.xts.iter().zip(d) {
            map.insert(
                ExtrinsicInfo {
                    blob_hash: h32(h),
                    blob_length: *l,
                },
                d.clone(),
            );
        }
    }
    let segs: Vec<Vec<ExportDataSegment>> = w
        .imports
        .iter()
        .map(|v| {
            v.iter()
                .map(|x| {
                    ExportDataSegment::try_from(x.clone())
                        .ok()
                        .expect("segment")
                })
                .collect()
        })
        .collect();
    for item in 0..w.pkg.items.len() + s.chance(1, 20) as usize {
        let trace = s.blob(20);
        let off = match s.weighted(&[6, 2, 2]) {
            0 => 0,
            1 => s.us(0, 3000),
            _ => s.us(3069, 3073),
        };
        let core = s.upto(300) as u16;
        let desc = w.descs.get(item + 1).cloned().unwrap_or_default();
        let a = RefineArgs {
            core,
            item,
            pkg: w.pkg.clone(),
            trace: trace.clone(),
            imports: w.imports.clone(),
            xdata: w.xdata.clone(),
            off,
        };
        // a program that runs for longer than the reference follows, also where the node deviates
        // from it in a way that is known
        let long = [(false, false), (false, true), (true, false), (true, true)]
            .iter()
            .any(|&(fetch11, inner_pc)| {
                rr::refine(&w.accounts, &a, Quirks { fetch11, inner_pc }).is_none()
            });
        if long {
            cov.tag("outside-model");
            continue;
        }
        let args = RefineInvokeArgs {
            core_idx: core,
            item_idx: item,
            package: package.clone(),
            auth_trace: trace,
            import_segments: segs.clone(),
            export_segments_offset: off,
            extrinsic_data_map: map.clone(),
        };
        let r = guard(|| rt().block_on(RefineInvocation::refine(n.st.state_manager(), &args)))
            .map_err(|e| format!("refinement crashed: {e}\ncalls {desc}"))?
            .map_err(|e| format!("refinement aborted: {e}\ncalls {desc}"))?;
        let got = Ran {
            out: outcome(r.output.encode().unwrap())?,
            gas: r.gas_used,
            exports: r
                .export_segments
                .iter()
                .map(|x| x.as_ref().to_vec())
                .collect(),
            calls: vec![],
        };
        judge(
            cov,
            "refinement",
            &got,
            &|q| rr::refine(&w.accounts, &a, q),
            &desc,
        )?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "an authorization whose program made at least one host call; distinct by calls, results and gas",
            assumptions: &[],
            subs: vec![Sub { name: "authorize", quick: 3000, thorough: 120_000, f: authorize, threads: 0 }],
        },
        Prop {
            id: "C16",
            rule: "a refinement whose program made at least one host call; distinct by calls, results and gas",
            assumptions: &[],
            subs: vec![Sub { name: "refine", quick: 3000, thorough: 120_000, f: refinement, threads: 0 }],
        },
    ]
}
