//! C25: the serialization of everything that arrives from outside is one-to-one. C26: block storage.
use crate::eng::{hash_bytes, Cov, Prop, Src, Sub};
use crate::imp::{decode_all, h32};
use crate::rj::types::*;
use crate::rj::{self, codec::enc, C, E, H, V};
use fr_block::types::block as nb;
use fr_block::types::extrinsics as nx;
use fr_codec::prelude::*;
use fr_common::workloads as nw;
use fr_network::streams::ce_streams::block_request::{BlockRequestInitArgs, BlockRequestRespArgs};
use fr_network::types::BlockAnnouncement;
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;

fn hash(s: &mut Src) -> H {
    // hashes that are close to each other exercise orderings
    match s.us(0, 3) {
        0 => [s.upto(3) as u8; 32],
        1 => {
            let mut h = [7u8; 32];
            h[s.us(0, 31)] = s.upto(255) as u8;
            h
        }
        _ => s.hash(),
    }
}
fn sig(s: &mut Src) -> [u8; 64] {
    let mut o = [0; 64];
    o[..32].copy_from_slice(&s.hash());
    o
}
fn len(s: &mut Src, most: usize) -> usize {
    if s.coin() {
        s.us(0, most.min(2))
    } else {
        s.us(0, most)
    }
}
fn context(s: &mut Src) -> Context {
    Context {
        anchor: hash(s),
        state_root: hash(s),
        beefy_root: hash(s),
        lookup_anchor: hash(s),
        lookup_slot: s.u32_any(),
        prereqs: (0..len(s, 5)).map(|_| hash(s)).collect(),
    }
}
fn data(s: &mut Src, most: usize) -> Vec<u8> {
    let n = match s.us(0, 5) {
        0 => s.us(0, most),
        1 => *s.pick(&[127usize, 128, 129]),
        _ => s.us(0, 12),
    }
    .min(most);
    s.blob(n)
}
fn report(s: &mut Src) -> Report {
    Report {
        spec: Spec {
            package: hash(s),
            len: s.u32_any(),
            erasure_root: hash(s),
            exports_root: hash(s),
            exports: s.upto(65535) as u16,
        },
        ctx: context(s),
        core: s.upto(C as u64 - 1) as u16,
        auth_hash: hash(s),
        auth_gas: s.u64_any(),
        auth_trace: data(s, 600),
        sr_lookup: (0..len(s, 4)).map(|_| (hash(s), hash(s))).collect(),
        digests: (0..s.us(1, 3))
            .map(|_| Digest {
                service: s.u32_any(),
                code_hash: hash(s),
                payload_hash: hash(s),
                acc_gas: s.u64_any(),
                result: if s.coin() {
                    Outcome::Ok(data(s, 300))
                } else {
                    Outcome::Err(s.range(1, 6) as u8)
                },
                refine_gas: s.u64_any(),
                imports: s.upto(65535) as u16,
                xt_count: s.upto(300) as u16,
                xt_size: s.u32_any(),
                exports: s.upto(4000) as u16,
            })
            .collect(),
    }
}
fn guarantee(s: &mut Src) -> GuaranteeXt {
    let n = s.us(0, 3);
    GuaranteeXt {
        report: report(s),
        slot: s.u32_any(),
        sigs: (0..n)
            .map(|_| (s.upto(V as u64 - 1) as u16, sig(s)))
            .collect(),
    }
}
fn ticket_proof(s: &mut Src) -> Vec<u8> {
    let mut p = s.hash().to_vec();
    p.resize(784, s.upto(255) as u8);
    p
}
pub fn xts(s: &mut Src) -> Xts {
    Xts {
        tickets: (0..len(s, 3))
            .map(|_| TicketXt {
                attempt: s.upto(2) as u8,
                proof: ticket_proof(s),
            })
            .collect(),
        preimages: (0..len(s, 3))
            .map(|_| PreimageXt {
                service: s.u32_any(),
                data: data(s, 400),
            })
            .collect(),
        guarantees: (0..len(s, 2)).map(|_| guarantee(s)).collect(),
        assurances: (0..len(s, 4))
            .map(|_| AssuranceXt {
                anchor: hash(s),
                cores: [s.coin(), s.coin()],
                validator: s.upto(V as u64 - 1) as u16,
                sig: sig(s),
            })
            .collect(),
        verdicts: (0..len(s, 2))
            .map(|_| Verdict {
                target: hash(s),
                age: s.u32_any(),
                votes: (0..rj::SUPER)
                    .map(|_| (s.coin(), s.upto(V as u64 - 1) as u16, sig(s)))
                    .collect(),
            })
            .collect(),
        culprits: (0..len(s, 2))
            .map(|_| CulpritXt {
                target: hash(s),
                key: hash(s),
                sig: sig(s),
            })
            .collect(),
        faults: (0..len(s, 2))
            .map(|_| FaultXt {
                target: hash(s),
                vote: s.coin(),
                key: hash(s),
                sig: sig(s),
            })
            .collect(),
    }
}
pub fn header(s: &mut Src) -> Header {
    Header {
        parent: hash(s),
        prior_root: hash(s),
        xt_hash: hash(s),
        slot: s.u32_any(),
        epoch_mark: s.chance(1, 3).then(|| EpochMark {
            entropy: hash(s),
            tickets_entropy: hash(s),
            keys: (0..V).map(|_| (hash(s), hash(s))).collect(),
        }),
        tickets_mark: s
            .chance(1, 3)
            .then(|| (0..E).map(|_| (hash(s), s.upto(2) as u8)).collect()),
        author: s.upto(65535) as u16,
        vrf: s.blob(96),
        offenders: (0..len(s, 4)).map(|_| hash(s)).collect(),
        seal: s.blob(96),
    }
}
fn item(s: &mut Src) -> WorkItem {
    WorkItem {
        service: s.u32_any(),
        code_hash: hash(s),
        refine_gas: s.u64_any(),
        acc_gas: s.u64_any(),
        exports: s.upto(65535) as u16,
        payload: data(s, 300),
        imports: (0..len(s, 4))
            .map(|_| Import {
                id: hash(s),
                is_package: s.coin(),
                index: s.upto(0x7fff) as u16,
            })
            .collect(),
        xts: (0..len(s, 4)).map(|_| (hash(s), s.u32_any())).collect(),
    }
}
pub fn package(s: &mut Src) -> Package {
    let n = s.us(1, 3);
    Package {
        auth_service: s.u32_any(),
        auth_code_hash: hash(s),
        ctx: context(s),
        token: data(s, 200),
        config: data(s, 200),
        items: (0..n).map(|_| item(s)).collect(),
    }
}

/// decode: Ok((re-encoded, consumed)) or the error
type Dec = fn(&[u8]) -> Result<(Vec<u8>, usize), String>;
fn dec<T: JamDecode + JamEncode>(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let mut r = b;
    let v = T::decode(&mut r).map_err(|e| format!("{e:?}"))?;
    let used = b.len() - r.len();
    Ok((v.encode().map_err(|e| format!("UNENCODABLE {e:?}"))?, used))
}
fn dec_announcement(b: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let mut r = b;
    let v = BlockAnnouncement::decode(&mut r).map_err(|e| format!("{e:?}"))?;
    let used = b.len() - r.len();
    let mut o = v.header.encode().map_err(|e| format!("{e:?}"))?;
    o.extend(v.header_hash.encode().map_err(|e| format!("{e:?}"))?);
    o.extend(v.timeslot.encode().map_err(|e| format!("{e:?}"))?);
    Ok((o, used))
}

/// A generated value: name, octets, decoder, and the places of adjacent set or map members of equal
/// size (offset, size).
struct Item {
    name: &'static str,
    bytes: Vec<u8>,
    dec: Dec,
    pairs: Vec<(usize, usize)>,
}
fn find(hay: &[u8], pat: &[u8]) -> Option<usize> {
    hay.windows(pat.len()).position(|w| w == pat)
}
fn ctx_pairs(b: &[u8], c: &Context, out: &mut Vec<(usize, usize)>) {
    let v: Vec<&H> = c.prereqs.iter().collect();
    for w in v.windows(2) {
        if let Some(i) = find(b, &[&w[0][..], &w[1][..]].concat()) {
            out.push((i, 32));
        }
    }
}
fn report_pairs(b: &[u8], r: &Report, out: &mut Vec<(usize, usize)>) {
    ctx_pairs(b, &r.ctx, out);
    let v: Vec<_> = r.sr_lookup.iter().map(|(k, v)| [*k, *v].concat()).collect();
    for w in v.windows(2) {
        if let Some(i) = find(b, &w.concat()) {
            out.push((i, 64));
        }
    }
}
fn gen_item(s: &mut Src) -> Item {
    let mut pairs = vec![];
    let (name, bytes, dec): (_, _, Dec) = match s.weighted(&[6, 3, 3, 3, 3, 1, 1, 1, 1, 1]) {
        0 => {
            let b = Block {
                header: header(s),
                xts: xts(s),
            };
            let e = b.encode();
            for g in &b.xts.guarantees {
                report_pairs(&e, &g.report, &mut pairs);
            }
            ("block", e, dec::<nb::Block>)
        }
        1 => ("header", header(s).encode(), dec::<nb::BlockHeader>),
        2 => {
            let r = report(s);
            let e = r.encode();
            report_pairs(&e, &r, &mut pairs);
            ("report", e, dec::<nw::WorkReport>)
        }
        3 => {
            let p = package(s);
            let e = enc(|e| p.enc(e));
            ctx_pairs(&e, &p.ctx, &mut pairs);
            ("package", e, dec::<nw::WorkPackage>)
        }
        4 => {
            let x = xts(s);
            let e = enc(|e| x.enc(e));
            for g in &x.guarantees {
                report_pairs(&e, &g.report, &mut pairs);
            }
            ("extrinsic", e, dec::<nx::Extrinsics>)
        }
        5 => ("item", enc(|e| item(s).enc(e)), dec::<nw::WorkItem>),
        6 => {
            let mut e = hash(s).to_vec();
            e.push(s.coin() as u8);
            e.extend(rj::codec::nat(s.u32_any() as u64));
            ("request", e, dec::<BlockRequestInitArgs>)
        }
        7 => {
            let n = s.us(0, 2);
            let mut e = vec![n as u8];
            for _ in 0..n {
                e.extend(
                    Block {
                        header: header(s),
                        xts: xts(s),
                    }
                    .encode(),
                );
            }
            ("response", e, dec::<BlockRequestRespArgs>)
        }
        8 => {
            let h = header(s);
            let mut e = h.encode();
            e.extend(h.hash());
            e.extend(rj::codec::nat(h.slot as u64));
            ("announcement", e, dec_announcement)
        }
        _ => {
            let c = context(s);
            let e = enc(|e| c.enc(e));
            ctx_pairs(&e, &c, &mut pairs);
            ("context", e, dec::<nw::RefinementContext>)
        }
    };
    Item {
        name,
        bytes,
        dec,
        pairs,
    }
}

fn mutate(s: &mut Src, it: &Item) -> (Vec<u8>, &'static str) {
    let mut b = it.bytes.clone();
    let n = b.len();
    let at = s.us(0, n - 1);
    let how = s.weighted(&[
        4,
        4,
        2,
        2,
        2,
        3,
        3,
        2,
        if it.pairs.is_empty() { 0 } else { 6 },
    ]);
    let name = match how {
        0 => {
            b[at] ^= 1 << s.us(0, 7);
            "bit-flipped"
        }
        1 => {
            b[at] = *s.pick(&[0u8, 1, 2, 3, 6, 0x7f, 0x80, 0xc0, 0xfe, 0xff]);
            "octet-replaced"
        }
        2 => {
            b.truncate(at);
            "cut-off"
        }
        3 => {
            b.remove(at);
            "octet-removed"
        }
        4 => {
            let k = s.us(1, 9);
            let ins = s.blob(k);
            b.splice(at..at, ins);
            "octets-inserted"
        }
        5 => {
            // a natural of one octet written in two
            let v = b[at];
            if v < 0x80 {
                b.splice(at..at + 1, [0x80, v]);
            } else {
                b.splice(at..at + 1, [0xc0, 0, v]);
            }
            "longer-natural"
        }
        6 => {
            // a huge length
            let v = *s.pick(&[
                1u64 << 14,
                1 << 20,
                1 << 32,
                1 << 48,
                (1 << 56) - 1,
                u64::MAX,
                1 << 63,
            ]);
            b.splice(at..at + 1, rj::codec::nat(v));
            "huge-natural"
        }
        7 => {
            let k = s.us(0, 120);
            b = s.blob(k);
            "random"
        }
        _ => {
            let (i, w) = *s.pick(&it.pairs);
            let (x, y) = (b[i..i + w].to_vec(), b[i + w..i + 2 * w].to_vec());
            if s.coin() {
                b[i..i + w].copy_from_slice(&y);
                b[i + w..i + 2 * w].copy_from_slice(&x);
                "members-swapped"
            } else {
                b[i + w..i + 2 * w].copy_from_slice(&x);
                "member-repeated"
            }
        }
    };
    (b, name)
}

fn wire(s: &mut Src, cov: &mut Cov) -> R {
    let it = gen_item(s);
    cov.eval();
    cov.nt(hash_bytes(&it.bytes));
    cov.tag(it.name);
    let (re, used) =
        (it.dec)(&it.bytes).map_err(|e| format!("a {} is not decoded: {e}", it.name))?;
    if used != it.bytes.len() {
        return Err(format!(
            "decoding a {} of {} octets reads {used}",
            it.name,
            it.bytes.len()
        ));
    }
    if re != it.bytes {
        return Err(format!("a decoded {} encodes to something else", it.name));
    }
    // whatever follows is not touched
    let mut more = it.bytes.clone();
    more.extend(s.hash());
    if (it.dec)(&more)? != (re, used) {
        return Err(format!("what follows a {} changes it", it.name));
    }
    // every proper prefix is an error
    let k = s.us(0, it.bytes.len() - 1);
    if (it.dec)(&it.bytes[..k]).is_ok() {
        return Err(format!(
            "a {} cut off at {k} of {} is decoded",
            it.name,
            it.bytes.len()
        ));
    }
    for _ in 0..s.us(2, 6) {
        let (b, how) = mutate(s, &it);
        cov.eval();
        cov.tag(how);
        match (it.dec)(&b) {
            Err(e) if e.starts_with("UNENCODABLE") => {
                return Err(format!(
                    "{} {how}: decoded to a value without encoding: {e}",
                    it.name
                ))
            }
            Err(_) => cov.tag("refused"),
            Ok((re, used)) => {
                cov.tag("accepted");
                if used > b.len() || re != b[..used] {
                    return Err(format!(
                        "{} {how}: two encodings of one value are both accepted ({} and {} octets, different from octet {})",
                        it.name,
                        used,
                        re.len(),
                        re.iter().zip(&b).take_while(|(x, y)| x == y).count()
                    ));
                }
            }
        }
    }
    cov.sample(|| format!("{} of {} octets", it.name, it.bytes.len()));
    Ok(())
}

fn same<T: JamEncode + JamDecode + PartialEq + std::fmt::Debug>(
    s: &mut Src,
    cov: &mut Cov,
    name: &'static str,
    v: T,
    want: Vec<u8>,
) -> R {
    cov.eval();
    cov.tag(name);
    cov.nt(hash_bytes(&want) ^ hash_bytes(name.as_bytes()));
    let got = v.encode().map_err(|e| format!("{name} {v:?}: {e}"))?;
    if got != want {
        return Err(format!(
            "{name} {v:?} encodes to {}, specified {}",
            hex::encode(got),
            hex::encode(want)
        ));
    }
    for tail in [0, s.us(1, 9)] {
        let mut b = want.clone();
        b.extend(s.blob(tail));
        let mut i = &b[..];
        let d = T::decode(&mut i).map_err(|e| format!("{name} {v:?} is not decoded: {e}"))?;
        if d != v || i.len() != tail {
            return Err(format!(
                "{name} {v:?} is decoded to {d:?} leaving {} of {tail} octets",
                i.len()
            ));
        }
    }
    for k in 0..want.len().min(24) {
        if T::decode(&mut &want[..k]).is_ok() {
            return Err(format!("{name} {v:?} cut off at {k} is decoded"));
        }
    }
    for _ in 0..3 {
        let mut b = want.clone();
        if b.is_empty() {
            break;
        }
        // the first octets hold the lengths and the sizes of the naturals
        let i = match s.coin() {
            true => s.us(0, b.len().min(3) - 1),
            false => s.us(0, b.len() - 1),
        };
        match s.us(0, 3) {
            0 => b[i] ^= 1 << s.upto(7),
            1 => {
                b[i] = *s.pick(&[
                    0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff,
                ])
            }
            2 => b.insert(i, *s.pick(&[0, 0x80, 0xc0, 0xfe, 0xff])),
            _ => {
                b.remove(i);
            }
        }
        let n = s.us(0, 9);
        b.extend(s.blob(n));
        let mut r = &b[..];
        if let Ok(d) = T::decode(&mut r) {
            cov.tag("accepted");
            let e = d.encode().map_err(|e| format!("{name}: {d:?}: {e}"))?;
            let used = b.len() - r.len();
            if e != b[..used] {
                return Err(format!(
                    "{name}: {} is decoded to {d:?}, whose encoding is {}",
                    hex::encode(&b[..used]),
                    hex::encode(e)
                ));
            }
        }
    }
    Ok(())
}

/// The serialization's own building blocks.
fn values(s: &mut Src, cov: &mut Cov) -> R {
    use bitvec::prelude::{BitVec, Lsb0};
    use rj::codec::nat;
    let n = match s.weighted(&[3, 3, 1]) {
        0 => s.us(0, 3),
        1 => s.us(0, 20),
        _ => s.us(120, 135),
    };
    let cat = |n: usize, v: Vec<Vec<u8>>| -> Vec<u8> {
        let mut b = nat(n as u64);
        v.into_iter().for_each(|x| b.extend(x));
        b
    };
    // the bounds of each size of a natural
    let mut any = |s: &mut Src| -> u64 {
        if s.coin() {
            let l = s.us(1, 9).min(8) as u32;
            let b = if l == 8 { 1u64 << 56 } else { 1u64 << (7 * l) };
            b.wrapping_add(s.upto(4)).wrapping_sub(2)
        } else {
            s.u64_any()
        }
    };
    match s.us(0, 13) {
        0 => {
            let x = any(s);
            same(s, cov, "natural", x, nat(x))?;
            same(s, cov, "natural (usize)", x as usize, nat(x))?;
            same(s, cov, "natural below 2^32", x as u32, nat(x as u32 as u64))?;
            same(s, cov, "natural below 2^16", x as u16, nat(x as u16 as u64))?;
            same(s, cov, "natural below 2^8", x as u8, nat(x as u8 as u64))
        }
        1 => {
            let x = s.coin();
            same(s, cov, "bool", x, vec![x as u8])
        }
        2 => {
            let x = s.coin().then(|| any(s));
            let w = match x {
                None => vec![0],
                Some(x) => [vec![1], nat(x)].concat(),
            };
            same(s, cov, "option", x, w)
        }
        3 => {
            let x: Vec<u64> = (0..n).map(|_| any(s)).collect();
            let w = cat(n, x.iter().map(|x| nat(*x)).collect());
            same(s, cov, "sequence", x, w)
        }
        4 => {
            let b = s.blob(n);
            let w = cat(n, vec![b.clone()]);
            same(s, cov, "octets", fr_common::Octets::from_vec(b), w)
        }
        5 => {
            let x: BTreeMap<u16, u64> = (0..n).map(|_| (any(s) as u16, any(s))).collect();
            let w = cat(
                x.len(),
                x.iter()
                    .map(|(k, v)| [nat(*k as u64), nat(*v)].concat())
                    .collect(),
            );
            same(s, cov, "dictionary", x, w)
        }
        6 => {
            let x: BTreeSet<u32> = (0..n).map(|_| any(s) as u32).collect();
            let w = cat(x.len(), x.iter().map(|x| nat(*x as u64)).collect());
            same(s, cov, "set", x, w)
        }
        7 => {
            let x: BitVec<u8, Lsb0> = (0..n).map(|_| s.coin()).collect();
            let mut w = vec![0u8; n.div_ceil(8)];
            for i in 0..n {
                w[i / 8] |= (x[i] as u8) << (i % 8);
            }
            let f = x.encode_fixed(n).map_err(|e| format!("bits: {e}"))?;
            if f != w {
                return Err(format!("{n} bits {x} encode to {}", hex::encode(f)));
            }
            let mut i = &w[..];
            if BitVec::<u8, Lsb0>::decode_fixed(&mut i, n).map_err(|e| format!("bits: {e}"))? != x {
                return Err(format!("{n} bits {x} are decoded to others"));
            }
            if x.encode_fixed(n + s.us(1, 9)).is_ok() {
                return Err(format!("{n} bits encode to more"));
            }
            same(s, cov, "bits", x, cat(n, vec![w]))
        }
        8 => {
            let x = (any(s) as u8, any(s) as u16, any(s));
            let w = [nat(x.0 as u64), nat(x.1 as u64), nat(x.2)].concat();
            same(s, cov, "tuple", x, w)
        }
        9 => {
            let x: [u32; 3] = [any(s) as u32, any(s) as u32, any(s) as u32];
            let w = x.iter().flat_map(|x| nat(*x as u64)).collect();
            same(s, cov, "array", x, w)
        }
        10 => {
            // a bounded sequence
            let x: Vec<u16> = (0..n).map(|_| any(s) as u16).collect();
            let w = cat(n, x.iter().map(|x| nat(*x as u64)).collect());
            match fr_limited_vec::LimitedVec::<u16, 5>::try_from(x) {
                Ok(x) if n <= 5 => same(s, cov, "bounded sequence", x, w),
                Err(_) if n > 5 => {
                    match fr_limited_vec::LimitedVec::<u16, 5>::decode(&mut &w[..]) {
                        Ok(_) => Err(format!("a sequence of {n} is decoded within a bound of 5")),
                        Err(_) => Ok(()),
                    }
                }
                r => Err(format!("{n} elements within a bound of 5: {}", r.is_ok())),
            }
        }
        11 => {
            // a sequence of fixed length
            let n = s.us(2, 6);
            let x: Vec<u16> = (0..n).map(|_| any(s) as u16).collect();
            let w = x.iter().flat_map(|x| nat(*x as u64)).collect();
            match fr_limited_vec::FixedVec::<u16, 4>::try_from(x) {
                Ok(x) if n == 4 => same(s, cov, "sequence of fixed length", x, w),
                Err(_) if n != 4 => Ok(()),
                r => Err(format!("{n} elements for 4: {}", r.is_ok())),
            }
        }
        12 => {
            // naturals and octets of a given size
            let (x, k) = (any(s), s.us(0, 9));
            let fits = k <= 8 && (k == 8 || x >> (8 * k) == 0);
            cov.eval();
            cov.tag("natural of a given size");
            match x.encode_fixed(k) {
                Ok(e) if fits && e == x.to_le_bytes()[..k] => {
                    cov.nt(hash_bytes(&e));
                    let mut b = e.clone();
                    let t = s.us(0, 3);
                    b.extend(s.blob(t));
                    let mut i = &b[..];
                    let d = u64::decode_fixed(&mut i, k).map_err(|e| format!("{x}: {e}"))?;
                    if d != x || i.len() != t {
                        return Err(format!("{x} in {k} octets is decoded to {d}"));
                    }
                    if k > 0 && u64::decode_fixed(&mut &e[..k - 1], k).is_ok() {
                        return Err(format!("{k} octets are decoded from fewer"));
                    }
                    if k > 4 && u32::decode_fixed(&mut &e[..], k).is_ok() {
                        return Err(format!("{k} octets are decoded to 32 bits"));
                    }
                    Ok(())
                }
                Err(_) if !fits => Ok(()),
                r => Err(format!(
                    "{x} in {k} octets encodes to {:?}",
                    r.ok().map(hex::encode)
                )),
            }
        }
        _ => {
            let b = s.blob(n);
            let o = fr_common::Octets::from_vec(b.clone());
            let k = match s.coin() {
                true => n,
                false => s.us(0, n + 2),
            };
            cov.eval();
            cov.tag("octets of a given size");
            let bad = |m: &str| Err(format!("{n} octets for {k}: {m}"));
            match o.encode_fixed(k) {
                Ok(x) if k == n && x == b => {}
                Err(_) if k != n => {}
                _ => return bad("encoded otherwise"),
            }
            let (mut i, mut j) = (&b[..], &b[..]);
            match (
                fr_common::Octets::decode_fixed(&mut i, k),
                Vec::<u8>::decode_fixed(&mut j, k),
            ) {
                (Ok(x), Ok(y))
                    if k <= n
                        && x.as_slice() == &b[..k]
                        && y == b[..k]
                        && i == &b[k..]
                        && j == i => {}
                (Err(_), Err(_)) if k > n => {}
                _ => return bad("decoded otherwise"),
            }
            cov.nt(hash_bytes(&b));
            Ok(())
        }
    }
}

/// Hashes are those of the specified serialization.
fn hashes(s: &mut Src, cov: &mut Cov) -> R {
    let b = Block {
        header: header(s),
        xts: xts(s),
    };
    let nb: nb::Block = decode_all(&b.encode())?;
    let bad = |what: &str| Err(format!("the {what} is not the specified one"));
    let hh = nb.header.hash().map_err(|e| format!("{e}"))?;
    if hh.0 != b.header.hash() {
        return bad("header hash");
    }
    let xh = nb.extrinsics.hash().map_err(|e| format!("{e}"))?;
    if xh.0 != b.xts.hash() {
        return bad("extrinsic hash");
    }
    // the announcement a node sends of a header
    let mut want = b.header.encode();
    want.extend(b.header.hash());
    want.extend(rj::codec::nat(b.header.slot as u64));
    let got = nb
        .header
        .block_announcement_blob()
        .map_err(|e| format!("{e}"))?;
    if got != want {
        return bad("block announcement");
    }
    cov.eval();
    cov.nt(hash_bytes(&b.encode()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = (
        h32 as fn(&H) -> _,
        BTreeMap::<u8, u8>::new(),
        BTreeSet::<u8>::new(),
    );
    vec![Prop {
        id: "C25",
        rule: "a generated value that was decoded, re-encoded and mutated counts (distinct by octets)",
        assumptions: &["Values are generated field by field and encoded by the reference serialization; a mutated encoding that is accepted must be the encoding of the value it is accepted as."],
        subs: vec![
            Sub {
                name: "wire",
                quick: 800_000,
                thorough: 40_000_000,
                f: wire,
                threads: 8,
            },
            Sub {
                name: "values",
                quick: 1_000_000,
                thorough: 40_000_000,
                f: values,
                threads: 8,
            },
            Sub {
                name: "hashes",
                quick: 200_000,
                thorough: 10_000_000,
                f: hashes,
                threads: 8,
            },
        ],
    }]
}
