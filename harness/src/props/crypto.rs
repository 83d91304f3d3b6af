//! Signatures, verifiable random functions and ring proofs: only genuine ones are accepted.
use crate::eng::{guard, hash_bytes, Cov, Prop, Src, Sub};
use crate::rj::crypto::{self as rc, forge, Validator};
use crate::rj::H;
use fr_common::{ByteArray, ByteEncodable, Hash32};
use fr_crypto::signers::{ed25519::*, Signer as _, Verifier as _};
use fr_crypto::traits::{SecretKey as _, VrfSignature as _};
use fr_crypto::types::*;
use fr_crypto::vrf::bandersnatch_vrf::*;
use std::sync::OnceLock;

type R = Result<(), String>;

fn keys() -> &'static Vec<Validator> {
    static K: OnceLock<Vec<Validator>> = OnceLock::new();
    K.get_or_init(|| (0..24).map(|i| Validator::from_seed(1000 + i)).collect())
}
fn hh(h: &Hash32) -> H {
    h.as_slice().try_into().unwrap()
}
fn msg(s: &mut Src) -> Vec<u8> {
    let n = if s.chance(1, 4) {
        s.us(0, 300)
    } else {
        s.us(0, 40)
    };
    s.blob(n)
}
/// A different message.
fn other(s: &mut Src, m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    match s.weighted(&[3, 2, 2]) {
        0 if !v.is_empty() => {
            let i = s.us(0, v.len() - 1);
            v[i] ^= 1 << s.us(0, 7);
        }
        1 if !v.is_empty() => {
            let n = s.us(0, v.len() - 1);
            v.truncate(n);
        }
        _ => v.push(s.upto(255) as u8),
    }
    v
}

fn ed(s: &mut Src, c: &mut Cov) -> R {
    let seed = s.hash();
    let m = msg(s);
    let signer = Ed25519Signer::new(Ed25519SecretKey(ByteArray(seed)));
    let sk = ed25519_consensus::SigningKey::from(seed);
    let pk = sk.verification_key().to_bytes();
    let sig = guard(|| signer.sign_message(&m))?
        .map_err(|e| format!("signing {} octets fails: {e}", m.len()))?;
    if sig.as_slice() != sk.sign(&m).to_bytes() {
        return Err("the signature differs from the reference implementation's".into());
    }
    let ver = |k: [u8; 32], m: &[u8], sg: &[u8]| -> Result<bool, String> {
        let v = Ed25519Verifier::new(Ed25519PubKey(ByteArray(k)));
        let sg = Ed25519Sig::from_slice(sg).map_err(|e| e.to_string())?;
        guard(|| v.verify_message(m, &sg)).map(|r| r.is_ok())
    };
    if !ver(pk, &m, sig.as_slice())? {
        return Err(format!(
            "a genuine signature of {} octets is rejected",
            m.len()
        ));
    }
    let (mut k2, mut m2, mut s2) = (pk, m.clone(), sig.as_slice().to_vec());
    let what = match s.weighted(&[3, 3, 2, 2, 1]) {
        0 => {
            m2 = other(s, &m);
            "another message"
        }
        1 => {
            let i = s.us(0, 63);
            s2[i] ^= 1 << s.us(0, 7);
            "an altered signature"
        }
        2 => {
            k2 = ed25519_consensus::SigningKey::from(s.hash())
                .verification_key()
                .to_bytes();
            if k2 == pk {
                return Ok(());
            }
            "another key"
        }
        3 => {
            let i = s.us(0, 31);
            k2[i] ^= 1 << s.us(0, 7);
            "an altered key"
        }
        _ => {
            s2 = s.blob(64);
            "made-up octets as signature"
        }
    };
    let want = rc::ed_verify(&k2, &m2, s2.as_slice().try_into().unwrap());
    let got = ver(k2, &m2, &s2)?;
    if got != want {
        return Err(format!("with {what}: accepted {got}, reference {want}"));
    }
    if got {
        return Err(format!("with {what} the signature is accepted"));
    }
    c.eval();
    c.nt(hash_bytes(&[&seed[..], &m2, &s2].concat()));
    c.sample(|| format!("{} octets, {what}", m.len()));
    Ok(())
}

fn bs_secret(v: &Validator) -> BandersnatchSecretKey {
    use ark_vrf::reexports::ark_serialize::CanonicalSerialize;
    let mut b = vec![];
    v.bs_secret.scalar.serialize_compressed(&mut b).unwrap();
    BandersnatchSecretKey::from_slice(&b).unwrap()
}

fn vrf(s: &mut Src, c: &mut Cov) -> R {
    let v = &keys()[s.us(0, 23)];
    let (ctx, m) = (msg(s), msg(s));
    let sk = bs_secret(v);
    let pk = sk.public_key().map_err(|e| e.to_string())?;
    if pk.as_slice() != v.bs {
        return Err("the public key of a secret key differs from the reference".into());
    }
    let p = VrfProver::from_secret_key(&sk).map_err(|e| e.to_string())?;
    let sig = guard(|| p.sign_vrf(&ctx, &m))?.map_err(|e| format!("signing fails: {e}"))?;
    if sig.as_slice() != v.vrf_sign(&ctx, &m) {
        return Err("the proof differs from the reference implementation's".into());
    }
    let out = v.vrf_output(&ctx);
    if hh(&sig.output_hash().map_err(|e| e.to_string())?) != out {
        return Err("the output read from a proof is not the key's output for the context".into());
    }
    let got = guard(|| VrfVerifier::verify_vrf(&ctx, &m, &sig, &pk))?;
    match got {
        Ok(h) if hh(&h) == out => {}
        Ok(_) => return Err("verification yields another output than the key's".into()),
        Err(e) => return Err(format!("a genuine proof is rejected: {e}")),
    }
    let (mut c2, mut m2, mut s2, mut k2) =
        (ctx.clone(), m.clone(), sig.as_slice().to_vec(), pk.clone());
    let what = match s.weighted(&[3, 3, 3, 2, 3, 1]) {
        0 => {
            c2 = other(s, &ctx);
            "another context"
        }
        1 => {
            m2 = other(s, &m);
            "another message"
        }
        2 => {
            let i = s.us(0, 95);
            s2[i] ^= 1 << s.us(0, 7);
            "an altered proof"
        }
        3 => {
            let o = &keys()[s.us(0, 23)];
            if o.bs == v.bs {
                return Ok(());
            }
            k2 = BandersnatchPubKey(ByteArray(o.bs));
            "another key"
        }
        4 => {
            s2 = forge::vrf(v, &ctx, &m, s.upto(u64::MAX));
            c.tag("second-output");
            "a second output for the same key and context"
        }
        _ => {
            s2 = s.blob(96);
            "made-up octets as proof"
        }
    };
    let sg = BandersnatchSig::from_slice(&s2).unwrap();
    let got = guard(|| VrfVerifier::verify_vrf(&c2, &m2, &sg, &k2))?;
    if let Ok(h) = got {
        return Err(format!(
            "with {what} the proof is accepted (output {}the key's)",
            if hh(&h) == out { "" } else { "not " }
        ));
    }
    c.eval();
    c.nt(hash_bytes(&[&v.bs[..], &c2, &m2, &s2].concat()));
    c.sample(|| {
        format!(
            "context {} octets, message {} octets, {what}",
            ctx.len(),
            m.len()
        )
    });
    Ok(())
}

fn key_set(ring: &[H]) -> ValidatorKeySet {
    let v: Vec<ValidatorKey> = ring
        .iter()
        .map(|b| ValidatorKey {
            bandersnatch: BandersnatchPubKey(ByteArray(*b)),
            ..Default::default()
        })
        .collect();
    ValidatorKeySet(v.try_into().map_err(|_| ()).unwrap())
}

fn ring(s: &mut Src, c: &mut Cov) -> R {
    // members by index into the key list; some places hold no usable key
    let mut who: Vec<Option<usize>> = vec![];
    let mut ring: Vec<H> = vec![];
    for _ in 0..crate::rj::V {
        match s.weighted(&[10, 1, 1]) {
            0 => {
                let i = s.us(0, 19);
                who.push(Some(i));
                ring.push(keys()[i].bs);
            }
            1 => {
                who.push(None);
                ring.push([0; 32]);
            }
            _ => {
                who.push(None);
                let mut h = s.hash();
                // not the encoding of a field element
                h[31] |= 0x7f;
                ring.push(h);
            }
        }
    }
    let ver = guard(|| RingVrfVerifier::new(&key_set(&ring)))?
        .map_err(|e| format!("a ring cannot be built: {e}"))?;
    let root = guard(|| ver.compute_ring_root())?.map_err(|e| e.to_string())?;
    if root.as_slice() != rc::ring_root(&ring) {
        return Err("the ring root differs from the reference".into());
    }
    let members: Vec<usize> = (0..ring.len()).filter(|i| who[*i].is_some()).collect();
    if members.is_empty() {
        return Ok(());
    }
    let at = *s.pick(&members);
    let v = &keys()[who[at].unwrap()];
    let ctx = msg(s);
    let out = v.vrf_output(&ctx);
    let mut c2 = ctx.clone();
    let mut ring2 = ring.clone();
    let aux = if s.chance(1, 3) { msg(s) } else { vec![] };
    let mut aux2 = aux.clone();
    let mut want = false;
    let mut s2;
    let what = match s.weighted(&[3, 2, 2, 2, 2, 2, 1]) {
        0 => {
            let p = RingVrfProver::from_secret_key(at as u16, key_set(&ring), &bs_secret(v))
                .map_err(|e| e.to_string())?;
            let sig = guard(|| p.sign_ring_vrf(&ctx, &aux))?
                .map_err(|e| format!("signing for place {at} fails: {e}"))?;
            if hh(&sig.output_hash().map_err(|e| e.to_string())?) != out {
                return Err(
                    "the output read from a ring proof is not the key's output for the context"
                        .into(),
                );
            }
            if aux.is_empty() && rc::ring_verify(root.as_slice(), &ctx, sig.as_slice()) != Some(out)
            {
                return Err("the reference rejects the node's ring proof".into());
            }
            s2 = sig.as_slice().to_vec();
            want = true;
            "a genuine proof"
        }
        1 => {
            s2 = v.ring_sign(&ring, at, &ctx);
            aux2 = vec![];
            c2 = other(s, &ctx);
            "another context"
        }
        2 => {
            s2 = v.ring_sign(&ring, at, &ctx);
            aux2 = vec![];
            let i = s.us(0, s2.len() - 1);
            s2[i] ^= 1 << s.us(0, 7);
            "an altered proof"
        }
        3 => {
            // a prover outside the ring claims a place
            let o = &keys()[s.us(20, 23)];
            let mut r2 = ring.clone();
            if s.coin() {
                r2[at] = o.bs;
            }
            s2 = o.ring_sign(&r2, at, &ctx);
            aux2 = vec![];
            "a prover outside the ring"
        }
        4 => {
            s2 = v.ring_sign(&ring, at, &ctx);
            aux2 = vec![];
            for (i, w) in who.iter().enumerate() {
                if *w == who[at] {
                    ring2[i] = keys()[s.us(20, 23)].bs;
                }
            }
            "a ring without the prover"
        }
        5 => {
            s2 = forge::ring(v, &ring, at, &ctx, s.upto(u64::MAX));
            aux2 = vec![];
            c.tag("second-output");
            "a second output for the same key and context"
        }
        _ => {
            s2 = v.ring_sign(&ring, at, &ctx);
            aux2 = vec![1];
            "another message"
        }
    };
    let ver2 = if ring2 == ring {
        ver
    } else {
        guard(|| RingVrfVerifier::new(&key_set(&ring2)))?.map_err(|e| e.to_string())?
    };
    let sg = BandersnatchRingVrfSig::from_slice(&s2).unwrap();
    let got = guard(|| ver2.verify_ring_vrf(&c2, &aux2, &sg))?;
    match got {
        Ok(h) if want && hh(&h) == out => {}
        Ok(_) if want => return Err("verification yields another output than the key's".into()),
        Err(e) if want => {
            return Err(format!(
                "a genuine ring proof for place {at} is rejected: {e}"
            ))
        }
        Ok(h) => {
            return Err(format!(
                "with {what} the ring proof is accepted (output {}the key's)",
                if hh(&h) == out { "" } else { "not " }
            ))
        }
        Err(_) => {}
    }
    c.tag(if want { "genuine" } else { "not-genuine" });
    c.eval();
    c.nt(hash_bytes(&[ring.concat(), c2, s2.clone()].concat()));
    s2.clear();
    c.sample(|| format!("{} usable keys, place {at}, {what}", members.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "a genuine ring proof, or a signature or proof that must be rejected, tried",
        assumptions: &["ed25519-consensus and ark-vrf implement their schemes correctly"],
        subs: vec![
            Sub {
                name: "signatures",
                quick: 10000,
                thorough: 60_000,
                f: ed,
                threads: 8,
            },
            Sub {
                name: "outputs",
                quick: 4000,
                thorough: 30_000,
                f: vrf,
                threads: 8,
            },
            Sub {
                name: "rings",
                quick: 400,
                thorough: 4000,
                f: ring,
                threads: 8,
            },
        ],
    }]
}
