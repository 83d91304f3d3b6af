//! Merkle commitments over sequences, and the erasure code of the availability system.
use crate::eng::{guard, hash_bytes, Cov, Prop, Src, Sub};

use crate::rj::{blake2b, keccak, H};
use fr_codec::prelude::*;
use fr_common::{ByteEncodable, Hash32};
use fr_crypto::{Blake2b256, Hasher, Keccak256};
use fr_erasure_coding::ErasureCodec;
use fr_merkle::constant_depth_tree::ConstantDepthMerkleTree as Cd;
use fr_merkle::mmr::MerkleMountainRange as Mmr;
use fr_merkle::well_balanced_tree::WellBalancedMerkleTree as Wb;

type R = Result<(), String>;
type Hf = fn(&[u8]) -> H;

// ---------------------------------------------------------------- reference

enum Node {
    Blob(Vec<u8>),
    Hash(H),
}
impl Node {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Node::Blob(b) => b.clone(),
            Node::Hash(h) => h.to_vec(),
        }
    }
}
fn n_fn(v: &[Vec<u8>], hf: Hf) -> Node {
    match v.len() {
        0 => Node::Hash([0; 32]),
        1 => Node::Blob(v[0].clone()),
        n => {
            let m = (n + 1) / 2;
            let mut b = b"node".to_vec();
            b.extend(n_fn(&v[..m], hf).bytes());
            b.extend(n_fn(&v[m..], hf).bytes());
            Node::Hash(hf(&b))
        }
    }
}
pub fn wb_root(v: &[Vec<u8>], hf: Hf) -> H {
    if v.len() == 1 {
        hf(&v[0])
    } else {
        n_fn(v, hf).bytes().try_into().unwrap()
    }
}
pub fn leaf(b: &[u8], hf: Hf) -> H {
    let mut x = b"leaf".to_vec();
    x.extend_from_slice(b);
    hf(&x)
}
fn pow2_at_least(n: usize) -> usize {
    let mut p = 1;
    while p < n {
        p *= 2;
    }
    p
}
fn constancy(v: &[Vec<u8>], hf: Hf) -> Vec<H> {
    let mut o: Vec<H> = v.iter().map(|b| leaf(b, hf)).collect();
    while o.len() < pow2_at_least(v.len()) {
        o.push([0; 32]);
    }
    o
}
/// Levels of the perfect tree, leaves first.
pub fn levels(v: &[Vec<u8>], hf: Hf) -> Vec<Vec<H>> {
    let mut out = vec![constancy(v, hf)];
    while out.last().unwrap().len() > 1 {
        let up = out
            .last()
            .unwrap()
            .chunks(2)
            .map(|c| {
                let mut b = b"node".to_vec();
                b.extend_from_slice(&c[0]);
                b.extend_from_slice(&c[1]);
                hf(&b)
            })
            .collect();
        out.push(up);
    }
    out
}

fn merge(a: &H, b: &H, hf: Hf) -> H {
    hf(&[&a[..], &b[..]].concat())
}
/// Root of a perfect mountain over its leaves.
fn mountain(l: &[H], hf: Hf) -> H {
    if l.len() == 1 {
        return l[0];
    }
    merge(
        &mountain(&l[..l.len() / 2], hf),
        &mountain(&l[l.len() / 2..], hf),
        hf,
    )
}
/// Peaks by the binary decomposition of the number of leaves (largest mountain first in leaf order).
fn peaks_of(l: &[H], hf: Hf) -> Vec<Option<H>> {
    let n = l.len();
    let bits = usize::BITS as usize - n.leading_zeros() as usize;
    let mut out = vec![None; bits];
    let mut at = 0;
    for i in (0..bits).rev() {
        if n >> i & 1 == 1 {
            out[i] = Some(mountain(&l[at..at + (1 << i)], hf));
            at += 1 << i;
        }
    }
    out
}
fn super_peak(p: &[Option<H>]) -> H {
    let mut acc: Option<H> = None;
    for h in p.iter().flatten() {
        acc = Some(match acc {
            None => *h,
            Some(a) => keccak(&[b"peak".as_slice(), &a, h].concat()),
        });
    }
    acc.unwrap_or([0; 32])
}

// ---------------------------------------------------------------- merkle checks

fn items(s: &mut Src) -> Vec<Vec<u8>> {
    let n = match s.weighted(&[6, 4, 3, 1]) {
        0 => s.us(0, 9),
        1 => s.us(0, 40),
        2 => {
            let p = 1usize << s.us(1, 8);
            (p + s.us(0, 2)).saturating_sub(1)
        }
        _ => s.us(60, 300),
    };
    let mode = s.weighted(&[3, 3, 2, 1]);
    (0..n)
        .map(|_| match mode {
            0 => s.blob(32),
            1 => {
                let l = s.us(0, 70);
                s.blob(l)
            }
            2 => vec![s.upto(2) as u8; s.us(0, 2)],
            _ => {
                let l = s.us(0, 400);
                s.blob(l)
            }
        })
        .collect()
}

fn desc(v: &[Vec<u8>]) -> String {
    let l: Vec<usize> = v.iter().take(12).map(|x| x.len()).collect();
    format!("{} items, lengths {l:?}…", v.len())
}

fn trees_with<X: Hasher>(s: &mut Src, c: &mut Cov, hf: Hf) -> R {
    let mut v = items(s);
    let d = desc(&v);
    let wb = guard(|| Wb::<X>::compute_root(&v))?
        .map_err(|e| format!("well-balanced root of {d} fails: {e}"))?;
    if hh(&wb) != wb_root(&v, hf) {
        return Err(format!(
            "well-balanced root of {d} differs from the reference"
        ));
    }
    let cd = guard(|| Cd::<X>::compute_root(&v))?
        .map_err(|e| format!("constant-depth root of {d} fails: {e}"))?;
    let lv = levels(&v, hf);
    let want = if v.is_empty() {
        [0; 32]
    } else {
        lv.last().unwrap()[0]
    };
    if hh(&cd) != want {
        return Err(format!(
            "constant-depth root of {d} differs from the reference"
        ));
    }
    let nt = v.len() >= 3;
    if !v.is_empty() {
        let depth = s.us(0, 7);
        let page_size = 1usize << depth;
        let pages = v.len().div_ceil(page_size);
        let p = s.us(0, pages - 1);
        let j = guard(|| Cd::<X>::single_page_justification(&v, p, depth))?
            .map_err(|e| format!("justification of page {p} (depth {depth}) of {d} fails: {e}"))?;
        let l = guard(|| Cd::<X>::subtree_page_leaf_hashes(&v, p, depth))?
            .map_err(|e| format!("leaf hashes of page {p} (depth {depth}) of {d} fail: {e}"))?;
        let at = format!("page {p} of depth {depth} of {d}");
        let wl: Vec<H> = v[p * page_size..v.len().min((p + 1) * page_size)]
            .iter()
            .map(|b| leaf(b, hf))
            .collect();
        if l.iter().map(hh).collect::<Vec<H>>() != wl {
            return Err(format!("leaf hashes of {at} differ from the reference"));
        }
        // top-down siblings down to the page's subtree
        let total = lv.len() - 1;
        let wj: Vec<H> = (0..total.saturating_sub(depth))
            .map(|k| {
                let level = total - 1 - k;
                lv[level][((p * page_size) >> level) ^ 1]
            })
            .collect();
        if j.iter().map(hh).collect::<Vec<H>>() != wj {
            return Err(format!("justification of {at} differs from the reference"));
        }
        // a verifier holding only the root, the page's leaves and the path accepts
        let mut h = {
            let mut ls: Vec<H> = l.iter().map(hh).collect();
            while ls.len() < page_size.min(pow2_at_least(v.len())) {
                ls.push([0; 32]);
            }
            while ls.len() > 1 {
                ls = ls
                    .chunks(2)
                    .map(|c| hf(&[b"node".as_slice(), &c[0], &c[1]].concat()))
                    .collect();
            }
            ls[0]
        };
        let mut idx = p;
        for sib in j.iter().rev().map(hh) {
            h = if idx & 1 == 0 {
                hf(&[b"node".as_slice(), &h, &sib].concat())
            } else {
                hf(&[b"node".as_slice(), &sib, &h].concat())
            };
            idx >>= 1;
        }
        if h != hh(&cd) {
            return Err(format!("the proof of {at} does not lead to the root"));
        }
        if !wj.is_empty() {
            c.tag("page-proof");
        }
        // binding: any change of an item changes both roots
        let i = s.us(0, v.len() - 1);
        let old = v[i].clone();
        if v[i].is_empty() || s.coin() {
            v[i].push(s.upto(255) as u8);
        } else {
            let k = s.us(0, old.len() - 1);
            v[i][k] ^= 1 << s.us(0, 7);
        }
        // raw blobs are only unambiguous for items of one length
        let one_len = v.iter().all(|x| x.len() == v[0].len());
        let w2 = guard(|| Wb::<X>::compute_root(&v))?.map_err(|e| e.to_string())?;
        let c2 = guard(|| Cd::<X>::compute_root(&v))?.map_err(|e| e.to_string())?;
        if c2 == cd || (one_len && w2 == wb) {
            return Err(format!(
                "changing item {i} of {d} leaves the root unchanged"
            ));
        }
    }
    let key: Vec<u8> = v.concat();
    c.eval();
    if nt {
        c.nt(hash_bytes(&key));
    }
    c.sample(|| d.clone());
    Ok(())
}

fn trees(s: &mut Src, c: &mut Cov) -> R {
    if s.chance(1, 3) {
        trees_with::<Keccak256>(s, c, keccak)
    } else {
        trees_with::<Blake2b256>(s, c, blake2b)
    }
}

fn hs(p: &[Option<Hash32>]) -> Vec<Option<H>> {
    p.iter().map(|o| o.as_ref().map(hh)).collect()
}

fn mmr(s: &mut Src, c: &mut Cov) -> R {
    mmr_with::<Keccak256>(s, c, keccak)
}
fn mmr_with<X: Hasher>(s: &mut Src, c: &mut Cov, hf: Hf) -> R {
    let from_peaks = s.chance(1, 4);
    if from_peaks {
        // arbitrary stored peaks: one append, one carry chain
        let n = s.us(0, 12);
        let p: Vec<Option<H>> = (0..n)
            .map(|_| if s.chance(2, 3) { Some(s.hash()) } else { None })
            .collect();
        let x = s.hash();
        let mut want = p.clone();
        let mut cur = x;
        let mut i = 0;
        loop {
            if i == want.len() {
                want.push(Some(cur));
                break;
            }
            match want[i].take() {
                None => {
                    want[i] = Some(cur);
                    break;
                }
                Some(o) => cur = merge(&o, &cur, hf),
            }
            i += 1;
        }
        let mut m: Mmr<X> = Mmr::new_from_peaks(p.iter().map(|o| o.map(Hash32::new)).collect());
        if m.super_peak().map(|h| hh(&h)).map_err(|e| e.to_string())? != super_peak(&p) {
            return Err(format!(
                "the super-peak of {} stored peaks differs from the reference",
                p.len()
            ));
        }
        guard(|| m.append(Hash32::new(x)))?.map_err(|e| e.to_string())?;
        if hs(&m.peaks) != want {
            return Err(format!(
                "appending to {} stored peaks ({} present) differs from the reference",
                n,
                p.iter().flatten().count()
            ));
        }
        c.tag("stored-peaks");
        c.eval();
        if p.iter().flatten().count() >= 2 {
            c.nt(hash_bytes(
                &[
                    p.iter().flatten().flatten().copied().collect::<Vec<u8>>(),
                    x.to_vec(),
                ]
                .concat(),
            ));
        }
        return Ok(());
    }
    let n = if s.chance(1, 5) {
        s.us(0, 300)
    } else {
        s.us(0, 40)
    };
    let seed = s.upto(u32::MAX as u64);
    let same = s.chance(1, 10);
    let mut m: Mmr<X> = Mmr::new();
    let mut leaves: Vec<H> = vec![];
    let mut rec: Mmr<X> = Mmr::new();
    for i in 0..n {
        let l: H = crate::eng::expand(if same { seed } else { seed + i as u64 }, 32)
            .try_into()
            .unwrap();
        leaves.push(l);
        guard(|| m.append(Hash32::new(l)))?.map_err(|e| e.to_string())?;
        guard(|| rec.append_recursive(Hash32::new(l), 0))?.map_err(|e| e.to_string())?;
    }
    let want = peaks_of(&leaves, hf);
    if hs(&m.peaks) != want {
        return Err(format!(
            "the peaks after {n} appends are not those of the {n} leaves"
        ));
    }
    if hs(&rec.peaks) != want {
        return Err(format!("the recursive append after {n} leaves differs"));
    }
    if m.super_peak().map(|h| hh(&h)).map_err(|e| e.to_string())? != super_peak(&want) {
        return Err(format!(
            "the super-peak after {n} appends differs from the reference"
        ));
    }
    let enc = m.encode().map_err(|e| e.to_string())?;
    let back: Mmr<X> = Mmr::decode(&mut enc.as_slice()).map_err(|e| e.to_string())?;
    if hs(&back.peaks) != want {
        return Err(format!("the range of {n} leaves does not survive encoding"));
    }
    c.eval();
    if n >= 3 {
        c.nt(hash_bytes(&leaves.concat()));
    }
    c.sample(|| format!("{n} appends, {} peaks", want.iter().flatten().count()));
    Ok(())
}

// ---------------------------------------------------------------- erasure code

/// GF(2^16) with x^16+x^5+x^3+x^2+1; symbols are coordinates over the Cantor basis.
const BASIS: [u16; 16] = [
    0x0001, 0xACCA, 0x3C0E, 0x163E, 0xC582, 0xED2E, 0x914C, 0x4012, 0x6C98, 0x10D8, 0x6A72, 0xB900,
    0xFDB8, 0xFB34, 0xFF38, 0x991E,
];
struct Gf {
    log: Vec<u32>,
    exp: Vec<u16>,
    to: Vec<u16>,
    from: Vec<u16>,
}
fn gf() -> &'static Gf {
    static G: std::sync::OnceLock<Gf> = std::sync::OnceLock::new();
    G.get_or_init(|| {
        let mut exp = vec![0u16; 2 * 65535];
        let mut log = vec![0u32; 65536];
        let mut x = 1u32;
        for i in 0..65535 {
            exp[i] = x as u16;
            exp[i + 65535] = x as u16;
            log[x as usize] = i as u32;
            x <<= 1;
            if x & 0x10000 != 0 {
                x ^= 0x1002D;
            }
        }
        let mut to = vec![0u16; 65536];
        let mut from = vec![0u16; 65536];
        for v in 0..65536usize {
            let mut f = 0;
            for (i, b) in BASIS.iter().enumerate() {
                if v >> i & 1 == 1 {
                    f ^= b;
                }
            }
            to[v] = f;
            from[f as usize] = v as u16;
        }
        Gf { log, exp, to, from }
    })
}
impl Gf {
    fn mul(&self, a: u16, b: u16) -> u16 {
        if a == 0 || b == 0 {
            0
        } else {
            self.exp[(self.log[a as usize] + self.log[b as usize]) as usize]
        }
    }
    fn inv(&self, a: u16) -> u16 {
        self.exp[(65535 - self.log[a as usize]) as usize]
    }
}

/// Coefficients of Lagrange interpolation from positions 0..p to position x.
fn lagrange(p: usize, x: usize) -> Vec<u16> {
    let g = gf();
    let pts: Vec<u16> = (0..p).map(|i| g.to[i]).collect();
    let fx = g.to[x];
    (0..p)
        .map(|i| {
            let mut num = 1u16;
            let mut den = 1u16;
            for j in 0..p {
                if j != i {
                    num = g.mul(num, fx ^ pts[j]);
                    den = g.mul(den, pts[i] ^ pts[j]);
                }
            }
            g.mul(num, g.inv(den))
        })
        .collect()
}

pub struct Code {
    k: usize,
    n: usize,
    /// per recovery chunk
    rows: Vec<Vec<u16>>,
}
fn code(k: usize, n: usize) -> Code {
    // message at positions 0..k, zero up to the next power of two, recovery after it
    let p = pow2_at_least(k);
    Code {
        k,
        n,
        rows: (0..n - k)
            .map(|r| lagrange(p, p + r)[..k].to_vec())
            .collect(),
    }
}
pub fn tiny_code() -> &'static Code {
    static C: std::sync::OnceLock<Code> = std::sync::OnceLock::new();
    C.get_or_init(|| code(2, 6))
}
fn full_code() -> &'static Code {
    static C: std::sync::OnceLock<Code> = std::sync::OnceLock::new();
    C.get_or_init(|| code(342, 1023))
}
fn padded(data: &[u8], k: usize) -> Vec<u8> {
    let mut d = data.to_vec();
    while d.len() % (2 * k) != 0 {
        d.push(0);
    }
    d
}
pub fn ref_encode(data: &[u8], cd: &Code) -> Vec<Vec<u8>> {
    let g = gf();
    let d = padded(data, cd.k);
    let l = d.len() / cd.k;
    let mut out: Vec<Vec<u8>> = d.chunks(l.max(1)).map(|c| c.to_vec()).collect();
    if l == 0 {
        return vec![vec![]; cd.n];
    }
    for row in &cd.rows {
        let mut ch = vec![];
        for w in 0..l / 2 {
            let mut acc = 0u16;
            for (i, co) in row.iter().enumerate() {
                let o = i * l + 2 * w;
                acc ^= g.mul(*co, g.to[u16::from_le_bytes([d[o], d[o + 1]]) as usize]);
            }
            ch.extend_from_slice(&g.from[acc as usize].to_le_bytes());
        }
        out.push(ch);
    }
    out
}

fn erasure(s: &mut Src, c: &mut Cov, full: bool) -> R {
    let (cd, ec) = if full {
        (full_code(), ErasureCodec::new_full())
    } else {
        (
            tiny_code(),
            if s.coin() {
                ErasureCodec::new_tiny()
            } else {
                ErasureCodec::new_from_chain_spec()
            },
        )
    };
    if ec.total_chunks() != cd.n || ec.msg_chunks() != cd.k {
        return Err(format!(
            "the code is {}:{}, not {}:{}",
            ec.msg_chunks(),
            ec.total_chunks(),
            cd.k,
            cd.n
        ));
    }
    let len = if full {
        s.us(0, 2100)
    } else if s.chance(1, 60) {
        s.us(0, 1500)
    } else {
        s.us(0, 60)
    };
    let data = s.blob(len);
    let want = ref_encode(&data, cd);
    let got = guard(|| ec.erasure_encode(&data))?
        .map_err(|e| format!("encoding {len} octets fails: {e}"))?;
    if got.len() != cd.n {
        return Err(format!(
            "{len} octets give {} chunks, not {}",
            got.len(),
            cd.n
        ));
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        if a != b {
            return Err(format!(
                "chunk {i} of {len} octets differs from the reference code"
            ));
        }
    }
    // any k chunks recover the padded data
    let mut idx: Vec<usize> = (0..cd.n).collect();
    s.shuffle(&mut idx);
    let extra = if s.chance(1, 3) {
        s.us(0, cd.n - cd.k)
    } else {
        0
    };
    let keep = &idx[..cd.k + extra];
    let mut ch: Vec<Option<Vec<u8>>> = vec![None; cd.n];
    for i in keep {
        ch[*i] = Some(got[*i].clone());
    }
    let rec = guard(|| ec.erasure_recover(ch.clone()))?.map_err(|e| {
        format!(
            "recovering {len} octets from {} chunks fails: {e}",
            keep.len()
        )
    })?;
    if rec != padded(&data, cd.k) {
        let mut k = keep.to_vec();
        k.sort();
        return Err(format!(
            "{len} octets recovered from chunks {k:?} differ from the original"
        ));
    }
    // fewer never do
    let few = s.us(0, cd.k - 1);
    let mut fch: Vec<Option<Vec<u8>>> = vec![None; cd.n];
    for i in &idx[..few] {
        fch[*i] = Some(got[*i].clone());
    }
    if guard(|| ec.erasure_recover(fch))?.is_ok() {
        return Err(format!(
            "{few} chunks of {len} octets are accepted for recovery"
        ));
    }
    // chunks handed over by others may have any shape: an error, never a crash or made-up data
    if got[0].len() > 0 {
        let mut bad = ch.clone();
        let i = keep[s.us(0, keep.len() - 1)];
        let kind = s.weighted(&[3, 3, 2, 2]);
        match kind {
            0 => {
                let l = s.us(0, got[0].len() - 1);
                bad[i].as_mut().unwrap().truncate(l);
            }
            1 => {
                let e = s.us(1, 5);
                let x = s.blob(e);
                bad[i].as_mut().unwrap().extend(x);
            }
            2 => {
                for x in bad.iter_mut().flatten() {
                    x.pop();
                }
            }
            _ => {
                let e = s.us(1, 4);
                let x = got[i].clone();
                bad.extend(vec![None; e - 1]);
                bad.push(Some(x));
            }
        }
        if let Ok(x) = guard(|| ec.erasure_recover(bad)).map_err(|e| {
            format!("recovering from misshapen chunks (kind {kind}) of {len} octets: {e}")
        })? {
            return Err(format!(
                "misshapen chunks (kind {kind}) of {len} octets recover to {} octets",
                x.len()
            ));
        }
        c.tag("misshapen");
    }
    let orig = keep.iter().filter(|i| **i < cd.k).count();
    if orig == 0 {
        c.tag("recovery-only");
    }
    c.eval();
    if len > 0 && orig < cd.k {
        c.nt(hash_bytes(
            &[data.clone(), keep.iter().map(|x| *x as u8).collect()].concat(),
        ));
    }
    c.sample(|| {
        format!(
            "{len} octets, {} chunks kept, {orig} of them original",
            keep.len()
        )
    });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "a tree of at least three items, a mountain range of at least three leaves, a carry over at least two stored peaks, or an availability specification with exported segments",
            assumptions: &["BLAKE2b and Keccak of the harness (RustCrypto crates) are correct"],
            subs: vec![
                Sub { name: "trees", quick: 40_000, thorough: 800_000, f: trees, threads: 8 },
                Sub { name: "paged-proofs", quick: 120, thorough: 2500, f: super::avail::specs, threads: 8 },
                Sub { name: "ranges", quick: 30_000, thorough: 600_000, f: mmr, threads: 8 },
            ],
        },
        Prop {
            id: "C18",
            rule: "non-empty data recovered from a set of chunks that lacks an original one",
            assumptions: &[],
            subs: vec![
                Sub { name: "small-code", quick: 4000, thorough: 60_000, f: |s, c| erasure(s, c, false), threads: 8 },
                Sub { name: "full-code", quick: 60, thorough: 1500, f: |s, c| erasure(s, c, true), threads: 4 },
            ],
        },
    ]
}

fn hh(h: &Hash32) -> H {
    h.as_slice().try_into().unwrap()
}
