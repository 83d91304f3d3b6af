//! Reference protocol types and their serialization.
use super::codec::*;
use super::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Sig = [u8; 64];

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Context {
    pub anchor: H,
    pub state_root: H,
    pub beefy_root: H,
    pub lookup_anchor: H,
    pub lookup_slot: u32,
    pub prereqs: BTreeSet<H>,
}
impl Context {
    pub fn enc(&self, e: &mut Enc) {
        e.raw(&self.anchor)
            .raw(&self.state_root)
            .raw(&self.beefy_root)
            .raw(&self.lookup_anchor)
            .fix(self.lookup_slot as u64, 4);
        e.seq(self.prereqs.iter(), |e, h| {
            e.raw(h);
        });
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Spec {
    pub package: H,
    pub len: u32,
    pub erasure_root: H,
    pub exports_root: H,
    pub exports: u16,
}
impl Spec {
    pub fn enc(&self, e: &mut Enc) {
        e.raw(&self.package)
            .fix(self.len as u64, 4)
            .raw(&self.erasure_root)
            .raw(&self.exports_root)
            .fix(self.exports as u64, 2);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Vec<u8>),
    Err(u8), // 1..=6
}
impl Outcome {
    pub fn enc(&self, e: &mut Enc) {
        match self {
            Outcome::Ok(b) => {
                e.raw(&[0]).bytes(b);
            }
            Outcome::Err(c) => {
                e.raw(&[*c]);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Digest {
    pub service: u32,
    pub code_hash: H,
    pub payload_hash: H,
    pub acc_gas: u64,
    pub result: Outcome,
    pub refine_gas: u64,
    pub imports: u16,
    pub xt_count: u16,
    pub xt_size: u32,
    pub exports: u16,
}
impl Digest {
    pub fn enc(&self, e: &mut Enc) {
        e.fix(self.service as u64, 4)
            .raw(&self.code_hash)
            .raw(&self.payload_hash)
            .fix(self.acc_gas, 8);
        self.result.enc(e);
        e.nat(self.refine_gas)
            .nat(self.imports as u64)
            .nat(self.xt_count as u64)
            .nat(self.xt_size as u64)
            .nat(self.exports as u64);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Report {
    pub spec: Spec,
    pub ctx: Context,
    pub core: u16,
    pub auth_hash: H,
    pub auth_gas: u64,
    pub auth_trace: Vec<u8>,
    pub sr_lookup: BTreeMap<H, H>,
    pub digests: Vec<Digest>,
}
impl Report {
    pub fn enc(&self, e: &mut Enc) {
        self.spec.enc(e);
        self.ctx.enc(e);
        e.nat(self.core as u64)
            .raw(&self.auth_hash)
            .nat(self.auth_gas)
            .bytes(&self.auth_trace);
        e.nat(self.sr_lookup.len() as u64);
        for (k, v) in &self.sr_lookup {
            e.raw(k).raw(v);
        }
        e.seq(self.digests.iter(), |e, d| d.enc(e));
    }
    pub fn encode(&self) -> Vec<u8> {
        enc(|e| self.enc(e))
    }
    pub fn hash(&self) -> H {
        blake2b(&self.encode())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TicketXt {
    pub attempt: u8,
    pub proof: Vec<u8>, // 784
}
#[derive(Clone, Debug, PartialEq)]
pub struct PreimageXt {
    pub service: u32,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct GuaranteeXt {
    pub report: Report,
    pub slot: u32,
    pub sigs: Vec<(u16, Sig)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AssuranceXt {
    pub anchor: H,
    pub cores: [bool; C],
    pub validator: u16,
    pub sig: Sig,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Verdict {
    pub target: H,
    pub age: u32,
    pub votes: Vec<(bool, u16, Sig)>, // exactly SUPER
}
#[derive(Clone, Debug, PartialEq)]
pub struct CulpritXt {
    pub target: H,
    pub key: H,
    pub sig: Sig,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FaultXt {
    pub target: H,
    pub vote: bool,
    pub key: H,
    pub sig: Sig,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Xts {
    pub tickets: Vec<TicketXt>,
    pub preimages: Vec<PreimageXt>,
    pub guarantees: Vec<GuaranteeXt>,
    pub assurances: Vec<AssuranceXt>,
    pub verdicts: Vec<Verdict>,
    pub culprits: Vec<CulpritXt>,
    pub faults: Vec<FaultXt>,
}

impl Xts {
    pub fn enc_tickets(&self, e: &mut Enc) {
        e.seq(self.tickets.iter(), |e, t| {
            e.nat(t.attempt as u64).raw(&t.proof);
        });
    }
    pub fn enc_preimages(&self, e: &mut Enc) {
        e.seq(self.preimages.iter(), |e, p| {
            e.fix(p.service as u64, 4).bytes(&p.data);
        });
    }
    pub fn enc_guarantees(&self, e: &mut Enc) {
        e.seq(self.guarantees.iter(), |e, g| {
            g.report.enc(e);
            e.fix(g.slot as u64, 4);
            enc_creds(e, &g.sigs);
        });
    }
    pub fn enc_guarantees_hashed(&self, e: &mut Enc) {
        e.seq(self.guarantees.iter(), |e, g| {
            e.raw(&g.report.hash()).fix(g.slot as u64, 4);
            enc_creds(e, &g.sigs);
        });
    }
    pub fn enc_assurances(&self, e: &mut Enc) {
        e.seq(self.assurances.iter(), |e, a| {
            let mut b = 0u8;
            for (i, c) in a.cores.iter().enumerate() {
                b |= (*c as u8) << i;
            }
            e.raw(&a.anchor)
                .raw(&[b])
                .fix(a.validator as u64, 2)
                .raw(&a.sig);
        });
    }
    pub fn enc_disputes(&self, e: &mut Enc) {
        e.seq(self.verdicts.iter(), |e, v| {
            e.raw(&v.target).fix(v.age as u64, 4);
            for (b, i, s) in &v.votes {
                e.raw(&[*b as u8]).fix(*i as u64, 2).raw(s);
            }
        });
        e.seq(self.culprits.iter(), |e, c| {
            e.raw(&c.target).raw(&c.key).raw(&c.sig);
        });
        e.seq(self.faults.iter(), |e, c| {
            e.raw(&c.target)
                .raw(&[c.vote as u8])
                .raw(&c.key)
                .raw(&c.sig);
        });
    }
    pub fn enc(&self, e: &mut Enc) {
        self.enc_tickets(e);
        self.enc_preimages(e);
        self.enc_guarantees(e);
        self.enc_assurances(e);
        self.enc_disputes(e);
    }
    pub fn hash(&self) -> H {
        let parts = [
            enc(|e| self.enc_tickets(e)),
            enc(|e| self.enc_preimages(e)),
            enc(|e| self.enc_guarantees_hashed(e)),
            enc(|e| self.enc_assurances(e)),
            enc(|e| self.enc_disputes(e)),
        ];
        let mut cat = vec![];
        for p in parts {
            cat.extend_from_slice(&blake2b(&p));
        }
        blake2b(&cat)
    }
}
fn enc_creds(e: &mut Enc, s: &[(u16, Sig)]) {
    e.seq(s.iter(), |e, (i, s)| {
        e.fix(*i as u64, 2).raw(s);
    });
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EpochMark {
    pub entropy: H,
    pub tickets_entropy: H,
    pub keys: Vec<(H, H)>, // (bandersnatch, ed25519) x V
}
pub type Ticket = (H, u8);

#[derive(Clone, Debug, PartialEq)]
pub struct Header {
    pub parent: H,
    pub prior_root: H,
    pub xt_hash: H,
    pub slot: u32,
    pub epoch_mark: Option<EpochMark>,
    pub tickets_mark: Option<Vec<Ticket>>, // E
    pub author: u16,
    pub vrf: Vec<u8>, // 96
    pub offenders: Vec<H>,
    pub seal: Vec<u8>, // 96
}
impl Default for Header {
    fn default() -> Self {
        Header {
            parent: [0; 32],
            prior_root: [0; 32],
            xt_hash: [0; 32],
            slot: 0,
            epoch_mark: None,
            tickets_mark: None,
            author: 0,
            vrf: vec![0; 96],
            offenders: vec![],
            seal: vec![0; 96],
        }
    }
}
impl Header {
    pub fn enc_unsigned(&self, e: &mut Enc) {
        e.raw(&self.parent)
            .raw(&self.prior_root)
            .raw(&self.xt_hash)
            .fix(self.slot as u64, 4);
        e.opt(&self.epoch_mark, |e, m| {
            e.raw(&m.entropy).raw(&m.tickets_entropy);
            for (b, d) in &m.keys {
                e.raw(b).raw(d);
            }
        });
        e.opt(&self.tickets_mark, |e, m| {
            for (h, a) in m {
                e.raw(h).nat(*a as u64);
            }
        });
        e.fix(self.author as u64, 2).raw(&self.vrf);
        e.seq(self.offenders.iter(), |e, h| {
            e.raw(h);
        });
    }
    pub fn enc(&self, e: &mut Enc) {
        self.enc_unsigned(e);
        e.raw(&self.seal);
    }
    pub fn encode_unsigned(&self) -> Vec<u8> {
        enc(|e| self.enc_unsigned(e))
    }
    pub fn encode(&self) -> Vec<u8> {
        enc(|e| self.enc(e))
    }
    pub fn hash(&self) -> H {
        blake2b(&self.encode())
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Block {
    pub header: Header,
    pub xts: Xts,
}
impl Block {
    pub fn encode(&self) -> Vec<u8> {
        enc(|e| {
            self.header.enc(e);
            self.xts.enc(e);
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Import {
    pub id: H,
    pub is_package: bool,
    pub index: u16,
}
#[derive(Clone, Debug, PartialEq)]
pub struct WorkItem {
    pub service: u32,
    pub code_hash: H,
    pub refine_gas: u64,
    pub acc_gas: u64,
    pub exports: u16,
    pub payload: Vec<u8>,
    pub imports: Vec<Import>,
    pub xts: Vec<(H, u32)>,
}
impl WorkItem {
    pub fn enc(&self, e: &mut Enc) {
        e.fix(self.service as u64, 4)
            .raw(&self.code_hash)
            .fix(self.refine_gas, 8)
            .fix(self.acc_gas, 8)
            .fix(self.exports as u64, 2)
            .bytes(&self.payload);
        e.seq(self.imports.iter(), |e, i| {
            e.raw(&i.id)
                .fix(i.index as u64 + if i.is_package { 1 << 15 } else { 0 }, 2);
        });
        e.seq(self.xts.iter(), |e, (h, n)| {
            e.raw(h).fix(*n as u64, 4);
        });
    }
    /// S(w) of the fetch host call.
    pub fn enc_summary(&self, e: &mut Enc) {
        e.fix(self.service as u64, 4)
            .raw(&self.code_hash)
            .fix(self.refine_gas, 8)
            .fix(self.acc_gas, 8);
        e.fix(self.exports as u64, 2)
            .fix(self.imports.len() as u64, 2)
            .fix(self.xts.len() as u64, 2)
            .fix(self.payload.len() as u64, 4);
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Package {
    pub auth_service: u32,
    pub auth_code_hash: H,
    pub ctx: Context,
    pub token: Vec<u8>,
    pub config: Vec<u8>,
    pub items: Vec<WorkItem>,
}
impl Package {
    pub fn enc(&self, e: &mut Enc) {
        e.fix(self.auth_service as u64, 4).raw(&self.auth_code_hash);
        self.ctx.enc(e);
        e.bytes(&self.token).bytes(&self.config);
        e.seq(self.items.iter(), |e, w| w.enc(e));
    }
}
