//! Signatures used by the model and by the generators (ark-vrf / ed25519-consensus directly).
use super::H;
use ark_vrf::reexports::ark_serialize::{self, CanonicalDeserialize, CanonicalSerialize};
use ark_vrf::suites::bandersnatch as bs;
use std::sync::OnceLock;

#[derive(CanonicalSerialize, CanonicalDeserialize)]
struct IetfSig {
    output: bs::Output,
    proof: bs::IetfProof,
}
#[derive(CanonicalSerialize, CanonicalDeserialize)]
struct RingSig {
    output: bs::Output,
    proof: bs::RingProof,
}

pub fn ring_params() -> &'static bs::RingProofParams {
    static P: OnceLock<bs::RingProofParams> = OnceLock::new();
    P.get_or_init(|| {
        let buf = std::fs::read("/repo/crypto/data/zcash-srs-2-11-uncompressed.bin").expect("srs");
        let pcs = bs::PcsParams::deserialize_uncompressed_unchecked(&mut &buf[..]).unwrap();
        bs::RingProofParams::from_pcs_params(super::V, pcs).unwrap()
    })
}

pub struct Validator {
    pub bs_secret: bs::Secret,
    pub bs: H,
    pub ed_secret: ed25519_consensus::SigningKey,
    pub ed: H,
    pub bls: Vec<u8>,
    pub meta: Vec<u8>,
}
impl Validator {
    pub fn from_seed(n: u64) -> Self {
        let seed = super::blake2b(&n.to_le_bytes());
        let sk = bs::Secret::from_seed(&seed);
        let mut b = vec![];
        sk.public().serialize_compressed(&mut b).unwrap();
        let ed = ed25519_consensus::SigningKey::from(seed);
        let edp: [u8; 32] = ed.verification_key().to_bytes();
        Validator {
            bs_secret: sk,
            bs: b.try_into().unwrap(),
            ed_secret: ed,
            ed: edp,
            bls: crate::eng::expand(n + 1, 144),
            meta: crate::eng::expand(n + 77, 128),
        }
    }
    pub fn rekey(&mut self, bsk: &[u8], edk: &[u8]) {
        self.bs_secret = bs::Secret::deserialize_compressed(bsk).unwrap();
        let mut b = vec![];
        self.bs_secret
            .public()
            .serialize_compressed(&mut b)
            .unwrap();
        self.bs = b.try_into().unwrap();
        self.ed_secret = ed25519_consensus::SigningKey::from(<[u8; 32]>::try_from(edk).unwrap());
        self.ed = self.ed_secret.verification_key().to_bytes();
    }
    /// The 336-byte key record.
    pub fn record(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.bs);
        v.extend_from_slice(&self.ed);
        v.extend_from_slice(&self.bls);
        v.extend_from_slice(&self.meta);
        v
    }
    pub fn sign(&self, msg: &[u8]) -> [u8; 64] {
        self.ed_secret.sign(msg).to_bytes()
    }
    pub fn vrf_sign(&self, ctx: &[u8], aux: &[u8]) -> Vec<u8> {
        use ark_vrf::ietf::Prover as _;
        let input = bs::Input::new(ctx).unwrap();
        let output = self.bs_secret.output(input);
        let proof = self.bs_secret.prove(input, output, aux);
        let mut b = vec![];
        IetfSig { output, proof }
            .serialize_compressed(&mut b)
            .unwrap();
        b
    }
    pub fn vrf_output(&self, ctx: &[u8]) -> H {
        let input = bs::Input::new(ctx).unwrap();
        let o = self.bs_secret.output(input);
        o.hash()[..32].try_into().unwrap()
    }
    pub fn ring_sign(&self, ring: &[H], idx: usize, ctx: &[u8]) -> Vec<u8> {
        use ark_vrf::ring::Prover as _;
        let input = bs::Input::new(ctx).unwrap();
        let output = self.bs_secret.output(input);
        let pts = ring_points(ring);
        let params = ring_params();
        let prover = params.prover(params.prover_key(&pts), idx);
        let proof = self.bs_secret.prove(input, output, b"", &prover);
        let mut b = vec![];
        RingSig { output, proof }
            .serialize_compressed(&mut b)
            .unwrap();
        b
    }
}

fn ring_points(ring: &[H]) -> Vec<ark_vrf::AffinePoint<bs::BandersnatchSha512Ell2>> {
    ring.iter()
        .map(|k| match bs::Public::deserialize_compressed(&k[..]) {
            Ok(p) => p.0,
            Err(_) => bs::RingProofParams::padding_point(),
        })
        .collect()
}

pub fn ring_root(ring: &[H]) -> Vec<u8> {
    let vk = ring_params().verifier_key(&ring_points(ring));
    let mut b = vec![];
    vk.commitment().serialize_compressed(&mut b).unwrap();
    b
}

/// Verifies a ticket proof against a ring root; returns the ticket id.
pub fn ring_verify(root: &[u8], ctx: &[u8], sig: &[u8]) -> Option<H> {
    use ark_vrf::ring::Verifier as _;
    let s = RingSig::deserialize_compressed(sig).ok()?;
    let input = bs::Input::new(ctx)?;
    let params = ring_params();
    let c =
        ark_vrf::ring::RingCommitment::<bs::BandersnatchSha512Ell2>::deserialize_compressed(root)
            .ok()?;
    let ver = params.verifier(params.verifier_key_from_commitment(c));
    bs::Public::verify(input, s.output, b"", &s.proof, &ver).ok()?;
    Some(s.output.hash()[..32].try_into().unwrap())
}

pub fn vrf_verify(key: &H, ctx: &[u8], aux: &[u8], sig: &[u8]) -> Option<H> {
    use ark_vrf::ietf::Verifier as _;
    let p = bs::Public::deserialize_compressed(&key[..]).ok()?;
    let s = IetfSig::deserialize_compressed(sig).ok()?;
    let input = bs::Input::new(ctx)?;
    p.verify(input, s.output, aux, &s.proof).ok()?;
    Some(s.output.hash()[..32].try_into().unwrap())
}

/// Ticket id a ring signature claims.
pub fn ring_sig_output(sig: &[u8]) -> Option<H> {
    let o = bs::Output::deserialize_compressed(sig.get(..32)?).ok()?;
    Some(o.hash()[..32].try_into().unwrap())
}

pub fn ed_verify(key: &H, msg: &[u8], sig: &[u8; 64]) -> bool {
    let Ok(vk) = ed25519_consensus::VerificationKey::try_from(*key) else {
        return false;
    };
    vk.verify(&ed25519_consensus::Signature::from(*sig), msg)
        .is_ok()
}

/// Proofs that satisfy the verification equations with an output other than the key's: the
/// genuine output plus a point of order two, with a challenge that cancels it.
pub mod forge {
    use super::*;
    use ark_vrf::reexports::ark_ec::CurveGroup;
    use ark_vrf::reexports::ark_ff::{One, Zero};
    use ark_vrf::Suite;
    type S = bs::BandersnatchSha512Ell2;
    type P = ark_vrf::AffinePoint<S>;

    fn torsion() -> P {
        P::new_unchecked(bs::BaseField::zero(), -bs::BaseField::one())
    }
    fn scalar(seed: u64, i: u64) -> ark_vrf::ScalarField<S> {
        bs::Secret::from_seed(&crate::rj::blake2b(
            &[seed.to_le_bytes(), i.to_le_bytes()].concat(),
        ))
        .scalar
    }
    fn even(c: &ark_vrf::ScalarField<S>) -> bool {
        let mut b = vec![];
        c.serialize_compressed(&mut b).unwrap();
        b[0] & 1 == 0
    }
    fn forged_output(sk: &bs::Secret, input: bs::Input) -> P {
        (sk.output(input).0 + torsion()).into_affine()
    }

    pub fn vrf(v: &Validator, ctx: &[u8], aux: &[u8], seed: u64) -> Vec<u8> {
        let input = bs::Input::new(ctx).unwrap();
        let o = forged_output(&v.bs_secret, input);
        for i in 0.. {
            let k = scalar(seed, i);
            let kb = (S::generator() * k).into_affine();
            let kh = (input.0 * k).into_affine();
            let c = S::challenge(&[&v.bs_secret.public.0, &input.0, &o, &kb, &kh], aux);
            if even(&c) {
                let s = k + c * v.bs_secret.scalar;
                let mut b = vec![];
                o.serialize_compressed(&mut b).unwrap();
                c.serialize_compressed(&mut b).unwrap();
                s.serialize_compressed(&mut b).unwrap();
                return b;
            }
        }
        unreachable!()
    }

    pub fn ring(v: &Validator, ring: &[H], idx: usize, ctx: &[u8], seed: u64) -> Vec<u8> {
        use ark_vrf::pedersen::{PedersenSuite, Prover as _};
        let input = bs::Input::new(ctx).unwrap();
        let (hon, blind) = v.bs_secret.prove(input, v.bs_secret.output(input), b"");
        let yb = hon.key_commitment();
        let o = forged_output(&v.bs_secret, input);
        let params = ring_params();
        let prover = params.prover(params.prover_key(&ring_points(ring)), idx);
        let rp = prover.prove(blind);
        for i in 0.. {
            let k = scalar(seed, 2 * i);
            let kb = scalar(seed, 2 * i + 1);
            let r = (S::generator() * k + S::BLINDING_BASE * kb).into_affine();
            let ok = (input.0 * k).into_affine();
            let c = S::challenge(&[&yb, &input.0, &o, &r, &ok], b"");
            if even(&c) {
                let mut b = vec![];
                for p in [o, yb, r, ok] {
                    p.serialize_compressed(&mut b).unwrap();
                }
                (k + c * v.bs_secret.scalar)
                    .serialize_compressed(&mut b)
                    .unwrap();
                (kb + c * blind).serialize_compressed(&mut b).unwrap();
                rp.serialize_compressed(&mut b).unwrap();
                return b;
            }
        }
        unreachable!()
    }
}
