//! Reference state merklization (GP appendix D).
use super::{blake2b, H};
use std::collections::BTreeMap;

pub type Key = [u8; 31];

fn bit(k: &Key, i: usize) -> bool {
    (k[i >> 3] >> (7 - (i & 7))) & 1 == 1
}

fn leaf(k: &Key, v: &[u8]) -> [u8; 64] {
    let mut n = [0u8; 64];
    n[1..32].copy_from_slice(k);
    if v.len() <= 32 {
        n[0] = 0b1000_0000 | v.len() as u8;
        n[32..32 + v.len()].copy_from_slice(v);
    } else {
        n[0] = 0b1100_0000;
        n[32..].copy_from_slice(&blake2b(v));
    }
    n
}

fn rec(es: &[(&Key, &Vec<u8>)], i: usize) -> H {
    match es.len() {
        0 => [0; 32],
        1 => blake2b(&leaf(es[0].0, es[0].1)),
        _ => {
            // sorted by key: the zeros come first
            let m = es.partition_point(|(k, _)| !bit(k, i));
            let l = rec(&es[..m], i + 1);
            let r = rec(&es[m..], i + 1);
            let mut n = [0u8; 64];
            n[..32].copy_from_slice(&l);
            n[32..].copy_from_slice(&r);
            n[0] &= 0x7f;
            blake2b(&n)
        }
    }
}

pub fn root(m: &BTreeMap<Key, Vec<u8>>) -> H {
    let es: Vec<_> = m.iter().collect();
    rec(&es, 0)
}
