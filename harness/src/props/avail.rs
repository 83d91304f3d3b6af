//! What a guarantor publishes about a work package: availability specification, audit bundle,
//! digests.
use super::data::{leaf, levels, ref_encode, tiny_code, wb_root};
use super::wire;
use crate::eng::{guard, hash_bytes, Cov, Prop, Src, Sub};
use crate::imp::decode_all;
use crate::rj::codec::enc;
use crate::rj::types::{Digest, Outcome, Package, Spec};
use crate::rj::{blake2b, H};
use fr_codec::prelude::*;
use fr_common::workloads::{WorkExecutionResult, WorkPackage};
use fr_common::{ByteEncodable, Hash32, Octets};
use fr_pvm_invocation::refine::verif_hooks as hk;
use fr_pvm_types::common::ExportDataSegment;

type R = Result<(), String>;
const SEG: usize = 4104;

struct Bundle {
    pkg: Package,
    xdata: Vec<Vec<Vec<u8>>>,
    imports: Vec<Vec<Vec<u8>>>,
    proofs: Vec<Vec<Vec<H>>>,
}
impl Bundle {
    fn bytes(&self) -> Vec<u8> {
        enc(|e| {
            self.pkg.enc(e);
            for x in self.xdata.iter().flatten() {
                e.raw(x);
            }
            for x in self.imports.iter().flatten() {
                e.raw(x);
            }
            for p in self.proofs.iter().flatten() {
                e.seq(p.iter(), |e, h| {
                    e.raw(h);
                });
            }
        })
    }
    fn real(&self) -> Result<hk::AuditableBundle, String> {
        Ok(hk::AuditableBundle {
            package: package(&self.pkg)?,
            extrinsic_data: self
                .xdata
                .iter()
                .map(|v| v.iter().map(|x| Octets::from_vec(x.clone())).collect())
                .collect(),
            imports: self
                .imports
                .iter()
                .map(|v| v.iter().map(|x| seg(x)).collect())
                .collect(),
            imports_justifications: self
                .proofs
                .iter()
                .map(|v| {
                    v.iter()
                        .map(|p| p.iter().map(|h| Hash32::new(*h)).collect())
                        .collect()
                })
                .collect(),
        })
    }
}
fn seg(x: &[u8]) -> ExportDataSegment {
    ExportDataSegment::try_from(x.to_vec())
        .ok()
        .expect("segment")
}
fn package(p: &Package) -> Result<WorkPackage, String> {
    decode_all(&enc(|e| p.enc(e))).map_err(|e| format!("valid work package does not decode: {e}"))
}
fn segment(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[6, 2, 2]) {
        0 => s.blob(SEG),
        1 => vec![0; SEG],
        _ => {
            let n = s.us(1, 40);
            let mut v = s.blob(n);
            v.resize(SEG, 0);
            v
        }
    }
}
fn bundle(s: &mut Src) -> Bundle {
    let mut pkg = wire::package(s);
    let (mut xdata, mut imports, mut proofs) = (vec![], vec![], vec![]);
    for i in &mut pkg.items {
        let mut xs = vec![];
        for x in &mut i.xts {
            let n = match s.weighted(&[5, 3, 1]) {
                0 => s.us(0, 12),
                1 => s.us(0, 200),
                _ => s.us(0, 3000),
            };
            let b = s.blob(n);
            *x = (blake2b(&b), n as u32);
            xs.push(b);
        }
        xdata.push(xs);
        imports.push(i.imports.iter().map(|_| segment(s)).collect());
        proofs.push(
            i.imports
                .iter()
                .map(|_| (0..s.us(0, 11)).map(|_| s.hash()).collect())
                .collect(),
        );
    }
    Bundle {
        pkg,
        xdata,
        imports,
        proofs,
    }
}

fn paged_proofs(v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let lv = levels(v, blake2b);
    let total = lv.len() - 1;
    (0..v.len().div_ceil(64))
        .map(|p| {
            let path: Vec<H> = (0..total.saturating_sub(6))
                .map(|k| {
                    let l = total - 1 - k;
                    lv[l][((p * 64) >> l) ^ 1]
                })
                .collect();
            let leaves: Vec<H> = v[p * 64..v.len().min(p * 64 + 64)]
                .iter()
                .map(|b| leaf(b, blake2b))
                .collect();
            let mut o = enc(|e| {
                e.seq(path.iter(), |e, h| {
                    e.raw(h);
                });
                e.seq(leaves.iter(), |e, h| {
                    e.raw(h);
                });
            });
            o.resize(SEG, 0);
            o
        })
        .collect()
}

fn erasure_root(bundle: &[u8], exports: &[Vec<u8>]) -> H {
    let cd = tiny_code();
    let b = ref_encode(bundle, cd);
    let mut all = exports.to_vec();
    all.extend(paged_proofs(exports));
    let coded: Vec<Vec<Vec<u8>>> = all.iter().map(|x| ref_encode(x, cd)).collect();
    let rows: Vec<Vec<u8>> = (0..b.len())
        .map(|v| {
            let col: Vec<Vec<u8>> = coded.iter().map(|c| c[v].clone()).collect();
            [blake2b(&b[v]), wb_root(&col, blake2b)].concat()
        })
        .collect();
    wb_root(&rows, blake2b)
}

pub fn specs(s: &mut Src, c: &mut Cov) -> R {
    let b = bundle(s);
    let n = match s.weighted(&[2, 5, 4, 3]) {
        0 => 0,
        1 => s.us(1, 8),
        2 => s.us(1, 64),
        _ => (64 * s.us(1, 3) + s.us(0, 2)) - 1,
    };
    let alike = s.chance(1, 8).then(|| segment(s));
    let exports: Vec<Vec<u8>> = (0..n)
        .map(|_| alike.clone().unwrap_or_else(|| segment(s)))
        .collect();
    let bytes = b.bytes();
    let want = Spec {
        package: blake2b(&enc(|e| b.pkg.enc(e))),
        len: bytes.len() as u32,
        erasure_root: erasure_root(&bytes, &exports),
        exports_root: if n == 0 {
            [0; 32]
        } else {
            levels(&exports, blake2b).last().unwrap()[0]
        },
        exports: n as u16,
    };
    let real = b.real()?;
    let pk = package(&b.pkg)?;
    let segs = exports.iter().map(|x| seg(x)).collect();
    let d = format!(
        "a package of {} items, a bundle of {} octets and {n} exported segments",
        b.pkg.items.len(),
        bytes.len()
    );
    let got = guard(|| hk::build_avail_specs(&pk, real, segs))?
        .map_err(|e| format!("no specification for {d}: {e}"))?;
    let (g, w) = (
        got.encode().map_err(|e| e.to_string())?,
        enc(|e| want.enc(e)),
    );
    if g != w {
        let part = if got.work_package_hash.as_slice() != want.package {
            "package hash"
        } else if got.work_bundle_length != want.len {
            "bundle length"
        } else if got.segment_count != want.exports {
            "segment count"
        } else if got.segment_root.as_slice() != want.exports_root {
            "segment root"
        } else {
            "erasure root"
        };
        return Err(format!("the {part} of {d} differs from the reference"));
    }
    c.eval();
    if n > 64 {
        c.tag("several-pages");
    }
    if n > 0 {
        c.nt(hash_bytes(&g));
    }
    c.sample(|| d.clone());
    Ok(())
}

fn bundles(s: &mut Src, c: &mut Cov) -> R {
    let b = bundle(s);
    let bytes = b.bytes();
    let real = b.real()?;
    let d = format!(
        "a bundle of {} items, {} octets",
        b.pkg.items.len(),
        bytes.len()
    );
    if guard(|| real.encode())?.map_err(|e| format!("{d} does not encode: {e}"))? != bytes {
        return Err(format!(
            "the encoding of {d} differs from the specified one"
        ));
    }
    let back: hk::AuditableBundle =
        guard(|| decode_all(&bytes))?.map_err(|e| format!("{d} does not decode: {e}"))?;
    if back.package != real.package
        || back.extrinsic_data != real.extrinsic_data
        || back.imports != real.imports
        || back.imports_justifications != real.imports_justifications
    {
        return Err(format!("{d} changes when encoded and decoded"));
    }
    // anything else fails or is the encoding of what it decodes to
    let mut bad = bytes.clone();
    let how = match s.weighted(&[3, 3, 2]) {
        0 => {
            let n = s.us(0, bad.len() - 1);
            bad.truncate(n);
            "truncated"
        }
        1 => {
            for _ in 0..s.us(1, 3) {
                // lengths sit in the package, at the front, and in the proofs, at the end
                let span = bad.len().min(600);
                let at = if s.coin() {
                    s.us(0, span - 1)
                } else {
                    bad.len() - 1 - s.us(0, span - 1)
                };
                bad[at] ^= 1 << s.us(0, 7);
            }
            "altered"
        }
        _ => {
            let n = s.us(1, 9);
            let x = s.blob(n);
            let at = s.us(0, bad.len());
            bad.splice(at..at, x);
            "extended"
        }
    };
    let mut r = bad.as_slice();
    if let Ok(v) = guard(|| hk::AuditableBundle::decode(&mut r))
        .map_err(|e| format!("decoding {d}, {how}, crashes: {e}"))?
    {
        let used = bad.len() - r.len();
        let again = guard(|| v.encode())?
            .map_err(|e| format!("{how} {d} decodes but does not encode: {e}"))?;
        if again != bad[..used] {
            return Err(format!(
                "{how}, {d} decodes to a bundle with another encoding"
            ));
        }
        c.tag("altered-decodes");
    } else {
        c.tag("altered-rejected");
    }
    c.eval();
    if b.xdata.iter().flatten().count() > 0 && b.imports.iter().flatten().count() > 0 {
        c.nt(hash_bytes(&bytes));
    }
    c.sample(|| format!("{d}, {how}"));
    Ok(())
}

fn digests(s: &mut Src, c: &mut Cov) -> R {
    let mut p = wire::package(s);
    for i in &mut p.items {
        for x in &mut i.xts {
            x.1 %= 1 << 24;
        }
    }
    let pk = package(&p)?;
    let auth = guard(|| hk::work_package_authorizer(&pk))?.map_err(|e| e.to_string())?;
    let want = blake2b(&[&p.auth_code_hash[..], &p.config].concat());
    if auth.as_slice() != want {
        return Err("the authorizer hash of a package differs from the reference".into());
    }
    for (k, i) in p.items.iter().enumerate() {
        let out = if s.coin() {
            let n = s.us(0, 300);
            Outcome::Ok(s.blob(n))
        } else {
            Outcome::Err(s.range(1, 6) as u8)
        };
        let gas = s.u64_any();
        let res: WorkExecutionResult = decode_all(&enc(|e| out.enc(e)))?;
        let got = guard(|| hk::work_item_to_digest(&pk.work_items[k], res, gas))?
            .map_err(|e| e.to_string())?;
        let want = Digest {
            service: i.service,
            code_hash: i.code_hash,
            payload_hash: blake2b(&i.payload),
            acc_gas: i.acc_gas,
            result: out,
            refine_gas: gas,
            imports: i.imports.len() as u16,
            xt_count: i.xts.len() as u16,
            xt_size: i.xts.iter().map(|x| x.1).sum(),
            exports: i.exports,
        };
        let g = got.encode().map_err(|e| e.to_string())?;
        if g != enc(|e| want.enc(e)) {
            return Err(format!(
                "the digest of work item {k} ({} imports, {} extrinsics) differs from the reference: {got:?}",
                i.imports.len(),
                i.xts.len()
            ));
        }
        c.eval();
        if !i.imports.is_empty() && !i.xts.is_empty() {
            c.nt(hash_bytes(&g));
        }
    }
    c.sample(|| format!("a package of {} items", p.items.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "a specification with exported segments, a bundle with both extrinsics and imports, or a digest of an item with both",
        assumptions: &["BLAKE2b of the harness (RustCrypto crates) is correct"],
        subs: vec![
            Sub { name: "specs", quick: 400, thorough: 8000, f: specs, threads: 8 },
            Sub { name: "bundles", quick: 6000, thorough: 120_000, f: bundles, threads: 8 },
            Sub { name: "digests", quick: 10_000, thorough: 200_000, f: digests, threads: 8 },
        ],
    }]
}
