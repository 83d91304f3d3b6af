//! Independent reference model of the JAM protocol (Graypaper 0.7.2, tiny chain spec), written
//! from the specification. Nothing here calls into /repo.
pub mod acc;
pub mod codec;
pub mod crypto;
pub mod pvm;
pub mod refine;
pub mod state;
pub mod stf;
pub mod trie;
pub mod types;

pub type H = [u8; 32];
pub const V: usize = 6;
pub const C: usize = 2;
pub const E: u32 = 12;
pub const Y: u32 = 10;
pub const N_TICKETS: u8 = 3;
pub const K_TICKETS: usize = 3;
pub const R_ROT: u32 = 4;
pub const D_EXP: u32 = 32;
pub const L_ANCHOR: u32 = 24;
pub const U_TIMEOUT: u32 = 5;
pub const H_HIST: usize = 8;
pub const O_POOL: usize = 8;
pub const Q_QUEUE: usize = 80;
pub const G_T: u64 = 20_000_000;
pub const G_A: u64 = 10_000_000;
pub const G_I: u64 = 50_000_000;
pub const G_R: u64 = 1_000_000_000;
pub const B_I: u64 = 10;
pub const B_L: u64 = 1;
pub const B_S: u64 = 100;
pub const S_MIN: u32 = 1 << 16;
pub const W_R: usize = 48 * 1024;
pub const W_T: usize = 128;
pub const W_C: usize = 4_000_000;
pub const W_A: usize = 64_000;
pub const W_B: usize = 13_791_360;
pub const J_DEPS: usize = 8;
pub const SUPER: usize = 5;

pub fn blake2b(d: &[u8]) -> H {
    use blake2::{digest::consts::U32, Blake2b, Digest};
    let mut h = Blake2b::<U32>::new();
    h.update(d);
    h.finalize().into()
}
pub fn keccak(d: &[u8]) -> H {
    use sha3::{Digest, Keccak256};
    let mut h = Keccak256::new();
    h.update(d);
    h.finalize().into()
}
